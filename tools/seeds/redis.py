RC='pkg/provider/redis_client.go'
Q='pkg/provider/queue.go'
PRE='''package provider

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/redis/go-redis/v9"
)

type demoRedis struct {
	redis.UniversalClient
	err  error
	fail string
	sets int
	gate chan struct{}
}

func (r *demoRedis) Get(ctx context.Context, key string) *redis.StringCmd {
	return redis.NewStringResult("", r.err)
}
func (r *demoRedis) Set(ctx context.Context, key string, value interface{}, ttl time.Duration) *redis.StatusCmd {
	r.sets++
	if r.gate != nil {
		<-r.gate
	}
	return redis.NewStatusResult("OK", r.err)
}
func (r *demoRedis) Del(ctx context.Context, keys ...string) *redis.IntCmd {
	if keys[0] == r.fail {
		return redis.NewIntResult(0, errors.New("del"))
	}
	return redis.NewIntResult(1, nil)
}
func (r *demoRedis) Scan(ctx context.Context, cursor uint64, match string, count int64) *redis.ScanCmd {
	return redis.NewScanCmdResult([]string{"a", "b", "c"}, 0, nil)
}

var _ = errors.New
'''
SEEDS=[
dict(id='C17-error-as-hit', prop='C17', pkg='pkg/provider',
 needs='a redis lookup that fails with an error other than a missing key',
 breaks='a failed lookup returns an empty entry instead of a miss',
 edits=[(RC,'''	if err != nil {
		if !errors.Is(err, redis.Nil) {
			log.Error().Err(err).Str("cache-key", key).Msg("Error getting item from redis")
		}
		return nil
	}
''','''	if errors.Is(err, redis.Nil) {
		return nil
	}
	if err != nil {
		log.Error().Err(err).Str("cache-key", key).Msg("Error getting item from redis")
	}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c := &redisClient{UniversalClient: &demoRedis{err: errors.New("down")}}
	if c.Fetch(context.Background(), "k") != nil {
		t.Fatal("a failed lookup is not a miss")
	}
}
'''),
dict(id='C17-purge-skips-failed', prop='C17', pkg='pkg/provider',
 needs='the deletion of one of the matching keys fails',
 breaks='a purge reports success although a matching key could not be deleted',
 edits=[(RC,'''			if err := c.Del(ctx, key).Err(); err != nil {
				return err
			}
''','''			if err := c.Del(ctx, key).Err(); err != nil {
				log.Error().Err(err).Str("cache-key", key).Msg("Error purging item from redis")
			}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c := &redisClient{UniversalClient: &demoRedis{fail: "b"}}
	if c.Purge(context.Background(), "*") == nil {
		t.Fatal("success reported")
	}
}
'''),
dict(id='C17-store-retry', prop='C17', pkg='pkg/provider',
 needs='an asynchronous store that fails',
 breaks='an accepted write is sent twice when the first attempt fails',
 edits=[(RC,'''		err := c.Store(key, value, ttl)
		if err != nil {
''','''		err := c.Store(key, value, ttl)
		if err != nil && !errors.Is(err, ErrRedisMaxItemSize) {
			err = c.Store(key, value, ttl)
		}
		if err != nil {
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	f := &demoRedis{err: errors.New("down")}
	c := &redisClient{UniversalClient: f, queue: newJobQueue(1, 1)}
	if err := c.StoreAsync("k", []byte("v"), time.Second); err != nil {
		t.Fatal(err)
	}
	time.Sleep(50 * time.Millisecond)
	c.queue.stop()
	if f.sets != 1 {
		t.Fatalf("%d stores", f.sets)
	}
}
'''),
dict(id='C17-dispatch-waits', prop='C17', pkg='pkg/provider',
 needs='a full queue',
 breaks='writing to the remote backend waits for room in the queue before the write is dropped',
 edits=[(Q,'''	select {
	case q.jobCh <- job:
		return nil
	default:
		return errJobQueueFull
	}
''','''	timer := time.NewTimer(250 * time.Millisecond)
	defer timer.Stop()
	select {
	case q.jobCh <- job:
		return nil
	case <-timer.C:
		return errJobQueueFull
	}
'''),(Q,'''	"sync"
)''','''	"sync"
	"time"
)''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	f := &demoRedis{gate: make(chan struct{})}
	c := &redisClient{UniversalClient: f, queue: newJobQueue(1, 1)}
	start := time.Now()
	for i := 0; i < 10; i++ {
		_ = c.StoreAsync("k", []byte("v"), time.Second)
	}
	d := time.Since(start)
	close(f.gate)
	if d > time.Second {
		t.Fatalf("10 writes took %v", d)
	}
}
'''),
dict(id='C17-queue-larger', prop='C17', pkg='pkg/provider',
 needs='more writes than the configured queue size while the workers are busy',
 breaks='the queue accepts more writes than configured',
 edits=[(Q,'''make(chan func(), size),''','''make(chan func(), size+maxConcurrency),''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	q := newJobQueue(3, 2)
	defer q.stop()
	if cap(q.jobCh) != 3 {
		t.Fatalf("queue of size %d", cap(q.jobCh))
	}
}
'''),
dict(id='C17-item-size-boundary', prop='C17', pkg='pkg/provider',
 needs='an item of exactly the configured maximum size',
 breaks='an item that just fits is not sent',
 edits=[(RC,'''len(value) > c.config.MaxItemSize {''','''len(value) >= c.config.MaxItemSize {''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	f := &demoRedis{}
	c := &redisClient{UniversalClient: f, config: RedisClientConfig{MaxItemSize: 4}}
	if err := c.Store("k", []byte("four"), time.Second); err != nil || f.sets != 1 {
		t.Fatal(err, f.sets)
	}
}
'''),
]
