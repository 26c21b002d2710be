// overlay: pkg/provider
package provider

// Replay oracle for the redis backend (C17): a fake redis client whose commands fail or hang on request.

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/redis/go-redis/v9"
	"github.com/rs/zerolog"
)

type rvClient struct {
	redis.UniversalClient
	mu    sync.Mutex
	err   error
	get   string
	keys  []string
	fail  string // key whose deletion fails
	sets  []string
	dels  []string
	scan  []string
	flush int
	gate  chan struct{} // sets wait for it
	now   int           // sets running
	most  int
}

func (r *rvClient) Get(ctx context.Context, key string) *redis.StringCmd {
	return redis.NewStringResult(r.get, r.err)
}
func (r *rvClient) Set(ctx context.Context, key string, value interface{}, ttl time.Duration) *redis.StatusCmd {
	r.mu.Lock()
	r.sets = append(r.sets, fmt.Sprintf("%s=%s for %v", key, value, ttl))
	r.now++
	if r.now > r.most {
		r.most = r.now
	}
	r.mu.Unlock()
	if r.gate != nil {
		<-r.gate
	}
	r.mu.Lock()
	r.now--
	r.mu.Unlock()
	return redis.NewStatusResult("OK", r.err)
}
func (r *rvClient) Del(ctx context.Context, keys ...string) *redis.IntCmd {
	r.dels = append(r.dels, keys...)
	for _, k := range keys {
		if k == r.fail {
			return redis.NewIntResult(0, errors.New("del"))
		}
	}
	return redis.NewIntResult(1, r.err)
}
func (r *rvClient) Scan(ctx context.Context, cursor uint64, match string, count int64) *redis.ScanCmd {
	r.scan = append(r.scan, match)
	return redis.NewScanCmdResult(r.keys, 0, r.err)
}
func (r *rvClient) FlushDB(ctx context.Context) *redis.StatusCmd {
	r.flush++
	return redis.NewStatusResult("OK", r.err)
}
func (r *rvClient) Close() error { return nil }

func TestVerifC17(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	ctx := context.Background()
	down := errors.New("down")
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("FAILING INPUT: the redis backend crashed: %v", e)
		}
	}()
	// results
	for _, err := range []error{nil, down, redis.Nil} {
		f := &rvClient{err: err, get: "val", keys: []string{"a", "b"}}
		c := &redisClient{UniversalClient: f, queue: newJobQueue(1, 1)}
		rc := NewRedisCache("x", c)
		v := rc.Get(ctx, "k")
		if (err == nil) != (v != nil) || (v != nil && string(v) != "val") {
			t.Fatalf("FAILING INPUT: Get with redis error %v returns %q", err, v)
		}
		if ok := rc.Delete(ctx, "k"); ok != (err == nil) || len(f.dels) != 1 {
			t.Fatalf("FAILING INPUT: Delete with redis error %v returns %v, deleted %v", err, ok, f.dels)
		}
		if e := rc.Flush(ctx); (e != nil) != (err != nil) || f.flush != 1 {
			t.Fatalf("FAILING INPUT: Flush with redis error %v returns %v", err, e)
		}
		if k := rc.Keys(ctx, "p"); f.scan[0] != "p*" || (err == nil && (len(k) != 2 || k[0] != "a" || k[1] != "b")) {
			t.Fatalf("FAILING INPUT: Keys(p) scanned for %v and returns %v", f.scan, k)
		}
		f.dels = nil
		if e := rc.Purge(ctx, "p*q"); f.scan[1] != "p*q" || (err == nil && (e != nil || fmt.Sprint(f.dels) != "[a b]")) || (err != nil && e == nil) {
			t.Fatalf("FAILING INPUT: Purge(p*q) with redis error %v scanned for %v, deleted %v and returns %v", err, f.scan, f.dels, e)
		}
		c.queue.stop()
	}
	for i, bad := range []string{"a", "b", "c"} {
		f := &rvClient{keys: []string{"a", "b", "c"}, fail: bad}
		c := &redisClient{UniversalClient: f}
		if e := c.Purge(ctx, "*"); e == nil {
			t.Fatalf("FAILING INPUT: Purge reports success though deleting %s (key %d of 3) failed", bad, i)
		}
	}
	for n := 0; n < 5; n++ {
		f := &rvClient{}
		c := &redisClient{UniversalClient: f}
		c.config.MaxItemSize = 3
		e := c.Store("k", make([]byte, n), time.Second)
		if (e != nil) != (n > 3) || (len(f.sets) == 1) != (n <= 3) {
			t.Fatalf("FAILING INPUT: Store of %d bytes with maximum 3: error %v, sent %v", n, e, f.sets)
		}
	}
	// configuration
	for _, c := range []RedisClientConfig{{Endpoint: "", MaxQueueConcurrency: 1}, {Endpoint: "127.0.0.1:1", MaxQueueConcurrency: 0}, {Endpoint: "127.0.0.1:1", MaxQueueConcurrency: -1}} {
		if c.Validate() == nil {
			t.Fatalf("FAILING INPUT: Validate accepts endpoint %q with %d workers", c.Endpoint, c.MaxQueueConcurrency)
		}
	}
	for seed := int64(0); seed < 60; seed++ {
		rvQueue(t, rand.New(rand.NewSource(seed)), seed)
	}
}

// rvQueue fills the queue while the workers hang, then lets them go.
func rvQueue(t *testing.T, rnd *rand.Rand, seed int64) {
	workers, size := 1+rnd.Intn(4), rnd.Intn(5)
	max := []int{0, 2}[rnd.Intn(2)]
	f := &rvClient{gate: make(chan struct{})}
	c := &redisClient{UniversalClient: f, config: RedisClientConfig{MaxItemSize: max, MaxQueueBufferSize: size, MaxQueueConcurrency: workers}, queue: newJobQueue(size, workers)}
	rc := NewRedisCache("x", c)
	if rnd.Intn(4) == 0 {
		f.err = errors.New("down")
	}
	time.Sleep(2 * time.Millisecond) // workers are waiting
	want := map[string]int{}
	accepted := 0
	for i := 0; i < workers+size+3; i++ {
		k, v, d := fmt.Sprintf("k%d", i), make([]byte, rnd.Intn(4)), time.Duration(i)*time.Second
		for j := range v {
			v[j] = 'v'
		}
		var err error
		done := make(chan struct{})
		via := rnd.Intn(4) == 0 && i > workers+size && max == 0
		go func() {
			if via {
				rc.Set(k, v, d)
			} else {
				for a := 0; a < 500; a++ { // a worker may not be waiting yet
					if err = c.StoreAsync(k, v, d); err == nil || i >= workers+size {
						break
					}
					time.Sleep(time.Millisecond)
				}
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatalf("FAILING INPUT: queue of size %d with %d hanging workers (seed %d): write %d blocks the caller", size, workers, seed, i)
		}
		for a := 0; a < 1000 && max == 0 && i < workers; a++ { // until a worker has taken it
			f.mu.Lock()
			n := f.now
			f.mu.Unlock()
			if n == i+1 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if via {
			continue
		}
		if err == nil {
			accepted++
			if max == 0 || len(v) <= max {
				want[fmt.Sprintf("%s=%s for %v", k, v, d)]++
			}
		}
		if err != nil && !errors.Is(err, ErrRedisJobQueueFull) {
			t.Fatalf("FAILING INPUT: a dropped write reports %v", err)
		}
		if max == 0 && (err == nil) != (i < workers+size) {
			t.Fatalf("FAILING INPUT: queue of size %d with %d hanging workers (seed %d): write %d reports %v", size, workers, seed, i, err)
		}
	}
	close(f.gate)
	deadline := time.Now().Add(3 * time.Second)
	for {
		f.mu.Lock()
		n, now := len(f.sets), f.now
		f.mu.Unlock()
		if (n >= len(want) && now == 0) || time.Now().After(deadline) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(2 * time.Millisecond)
	f.mu.Lock()
	defer f.mu.Unlock()
	got := map[string]int{}
	for _, s := range f.sets {
		got[s]++
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("FAILING INPUT: queue of size %d with %d workers, maximum item size %d (seed %d): accepted writes %v, performed %v", size, workers, max, seed, want, got)
	}
	if f.most > workers {
		t.Fatalf("FAILING INPUT: queue with %d workers (seed %d): %d writes ran at the same time", workers, seed, f.most)
	}
	c.queue.stop()
}
