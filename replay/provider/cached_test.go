// overlay: pkg/provider
package provider

// Replay oracle for the layered cache (C16): sequences of operations judged by two maps, and pairs of
// concurrent operations whose remote calls are slowed down in every order.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
)

type lvTier struct {
	mu     sync.Mutex
	m      map[string][]byte
	ttl    map[string]time.Duration
	before map[string]func() // run before the operation takes effect
	after  map[string]func() // run after the operation has taken effect
	err    error
	log    []string
}

func newLvTier() *lvTier {
	return &lvTier{m: map[string][]byte{}, ttl: map[string]time.Duration{}, before: map[string]func(){}, after: map[string]func(){}}
}

func (l *lvTier) op(name string, f func()) {
	if b := l.before[name]; b != nil {
		b()
	}
	l.mu.Lock()
	l.log = append(l.log, name)
	f()
	l.mu.Unlock()
	if a := l.after[name]; a != nil {
		a()
	}
}

func (l *lvTier) Get(ctx context.Context, key string) (v []byte) {
	l.op("get", func() { v = l.m[key] })
	return
}
func (l *lvTier) Set(key string, value []byte, ttl time.Duration) {
	l.op("set", func() { l.m[key] = value; l.ttl[key] = ttl })
}
func (l *lvTier) Delete(ctx context.Context, key string) (ok bool) {
	l.op("delete", func() { _, ok = l.m[key]; delete(l.m, key) })
	return
}
func (l *lvTier) Keys(ctx context.Context, prefix string) (r []string) {
	l.op("keys", func() {
		for k := range l.m {
			if len(k) >= len(prefix) && k[:len(prefix)] == prefix {
				r = append(r, k)
			}
		}
	})
	return
}
func (l *lvTier) Purge(ctx context.Context, pattern string) error {
	l.op("purge", func() {
		for k := range l.m {
			if lvMatch(pattern, k) {
				delete(l.m, k)
			}
		}
	})
	return l.err
}
func (l *lvTier) Flush(ctx context.Context) error {
	l.op("flush", func() { l.m = map[string][]byte{} })
	return l.err
}
func (l *lvTier) Size() int { return len(l.m) }

// lvMatch: * stands for any run of characters, everything else for itself.
func lvMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if lvMatch(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == p[0] && lvMatch(p[1:], s[1:])
}

func TestVerifC16(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	ctx := context.Background()
	// construction
	for _, c := range []struct {
		max, item uint64
		bad       bool
	}{{100, 101, true}, {100, 100, false}, {1000, 40, false}, {0, 40, false}, {100, 0, true}} {
		x, err := NewCached(newLvTier(), "x", time.Minute, InMemoryCacheConfig{MaxSize: c.max, MaxItemSize: c.item})
		if (err != nil) != c.bad {
			t.Fatalf("FAILING INPUT: NewCached with max_size %d and max_item_size %d: error %v", c.max, c.item, err)
		}
		if err == nil {
			l := x.outer.(*inMemoryCache)
			if c.max != 0 && l.maxSizeBytes != c.max || l.maxItemSizeBytes != c.item {
				t.Fatalf("FAILING INPUT: NewCached with max_size %d and max_item_size %d: local limits %d and %d", c.max, c.item, l.maxSizeBytes, l.maxItemSizeBytes)
			}
			now := time.Unix(1700000000, 0)
			l.currentTime = func() time.Time { return now }
			x.Set("k", []byte("v"), time.Second)
			now = now.Add(2 * time.Second)
			if x.outer.Get(ctx, "k") != nil {
				t.Fatalf("FAILING INPUT: Set(k, v, 1s): the local level still has the entry 2s later")
			}
			x.inner.Set("r", []byte("v"), time.Hour)
			x.Get(ctx, "r")
			now = now.Add(59 * time.Second)
			if x.outer.Get(ctx, "r") == nil {
				t.Fatalf("FAILING INPUT: layered TTL 1m: an entry fetched from the remote level is gone from the local level 59s later")
			}
			now = now.Add(2 * time.Second)
			if x.outer.Get(ctx, "r") != nil {
				t.Fatalf("FAILING INPUT: layered TTL 1m: an entry fetched from the remote level is still in the local level 61s later")
			}
		}
	}
	// sequences
	for seed := int64(0); seed < 3000; seed++ {
		lvSequence(t, rand.New(rand.NewSource(seed)), seed)
	}
	lvConcurrent(t)
}

func lvSequence(t *testing.T, rnd *rand.Rand, seed int64) {
	ctx := context.Background()
	in, out := newLvTier(), newLvTier()
	ttl := time.Duration(rnd.Intn(100)-1) * time.Second
	c := &Cached{inner: in, outer: out, ttl: ttl}
	keys := []string{"a", "ab", "b.c"}
	h := ""
	bad := func(f string, a ...any) {
		t.Fatalf("FAILING INPUT: layered cache, seed %d, operations%s: %s", seed, h, fmt.Sprintf(f, a...))
	}
	gone, cancel := context.WithCancel(ctx)
	cancel()
	for i := 0; i < 30; i++ {
		k := keys[rnd.Intn(len(keys))]
		ctx := ctx
		if rnd.Intn(4) == 0 {
			h += " cancelled:"
			ctx = gone
		}
		switch rnd.Intn(8) {
		case 0:
			v := []byte(fmt.Sprint(i))
			if rnd.Intn(5) == 0 {
				v = []byte{}
			}
			d := time.Duration(rnd.Intn(100)) * time.Second
			h += fmt.Sprintf(" set(%s,%q,%v)", k, v, d)
			c.Set(k, v, d)
			if !bytes.Equal(in.m[k], v) || !bytes.Equal(out.m[k], v) || in.ttl[k] != d || out.ttl[k] != d {
				bad("remote has %q for %v, local has %q for %v", in.m[k], in.ttl[k], out.m[k], out.ttl[k])
			}
		case 1:
			h += fmt.Sprintf(" evict(%s)", k)
			delete(out.m, k)
		case 2:
			h += fmt.Sprintf(" expire(%s)", k)
			delete(in.m, k)
		case 3:
			h += fmt.Sprintf(" delete(%s)", k)
			_, want := in.m[k]
			if got := c.Delete(ctx, k); got != want {
				bad("delete reports %v", got)
			}
			_, a := in.m[k]
			_, b := out.m[k]
			if a || b {
				bad("still held: remote %v, local %v", a, b)
			}
		case 4:
			p := []string{"a*", "*", "a", "b.c", "*c"}[rnd.Intn(5)]
			in.err, out.err = nil, nil
			if rnd.Intn(2) == 0 {
				in.err = errors.New("remote")
			}
			if rnd.Intn(3) == 0 {
				out.err = errors.New("local")
			}
			h += fmt.Sprintf(" purge(%s)", p)
			if err := c.Purge(ctx, p); err != in.err {
				bad("purge reports %v, remote reports %v", err, in.err)
			}
			for _, x := range keys {
				_, a := in.m[x]
				_, b := out.m[x]
				if lvMatch(p, x) && (a || b) {
					bad("%s still held: remote %v, local %v", x, a, b)
				}
			}
		case 5:
			in.err, out.err = nil, nil
			if rnd.Intn(2) == 0 {
				in.err = errors.New("remote")
			}
			h += " flush"
			if err := c.Flush(ctx); err != in.err {
				bad("flush reports %v, remote reports %v", err, in.err)
			}
			if len(in.m)+len(out.m) > 0 {
				bad("%d and %d entries are left", len(in.m), len(out.m))
			}
		case 6:
			h += " keys"
			if got := c.Keys(ctx, "a"); len(got) != len(in.Keys(ctx, "a")) {
				bad("keys lists %v", got)
			}
		default:
			h += fmt.Sprintf(" get(%s)", k)
			lo, hit := out.m[k]
			re, hit2 := in.m[k]
			nin := len(in.log)
			got := c.Get(ctx, k)
			switch {
			case hit:
				if !bytes.Equal(got, lo) || got == nil || len(in.log) != nin {
					bad("local level holds %q, got %q, remote calls %v", lo, got, in.log[nin:])
				}
			case hit2:
				if !bytes.Equal(got, re) || got == nil {
					bad("remote level holds %q, got %q", re, got)
				}
				if v, ok := out.m[k]; !ok || !bytes.Equal(v, re) || out.ttl[k] != ttl {
					bad("local level not filled: %v %q for %v", ok, v, out.ttl[k])
				}
			default:
				if got != nil {
					bad("got %q", got)
				}
				if _, ok := out.m[k]; ok {
					bad("local level filled with a missing entry")
				}
			}
		}
	}
}

// lvConcurrent runs operation b while operation a is at one of its calls.
func lvConcurrent(t *testing.T) {
	ctx := context.Background()
	ops := map[string]func(c *Cached){
		"get":    func(c *Cached) { c.Get(ctx, "k") },
		"set1":   func(c *Cached) { c.Set("k", []byte("one"), time.Hour) },
		"set2":   func(c *Cached) { c.Set("k", []byte("two"), time.Hour) },
		"delete": func(c *Cached) { c.Delete(ctx, "k") },
		"purge":  func(c *Cached) { c.Purge(ctx, "k*") },
		"flush":  func(c *Cached) { c.Flush(ctx) },
	}
	pairs := [][2]string{{"get", "delete"}, {"get", "purge"}, {"get", "flush"}, {"get", "set1"}, {"set1", "set2"},
		{"delete", "get"}, {"purge", "get"}, {"flush", "get"}, {"set1", "get"}, {"set1", "delete"}, {"delete", "set1"}, {"set1", "purge"}, {"flush", "set1"}}
	for _, p := range pairs {
		for _, tier := range []string{"remote", "local"} {
			for _, call := range []string{"get", "set", "delete", "purge", "flush"} {
				for _, when := range []string{"before", "after"} {
					for _, held := range []bool{false, true} {
						lvPair(t, p[0], p[1], ops[p[0]], ops[p[1]], tier, call, when, held)
					}
				}
			}
		}
	}
}

func lvPair(t *testing.T, an, bn string, a, b func(c *Cached), tier, call, when string, held bool) {
	in, out := newLvTier(), newLvTier()
	in.m["k"] = []byte("old")
	if held {
		out.m["k"] = []byte("old")
	}
	c := &Cached{inner: in, outer: out, ttl: time.Hour}
	x := in
	if tier == "local" {
		x = out
	}
	hooks := x.before
	if when == "after" {
		hooks = x.after
	}
	var once sync.Once
	done := make(chan struct{})
	started := false
	hooks[call] = func() {
		first := false
		once.Do(func() { first = true })
		if !first {
			return
		}
		started = true
		go func() { b(c); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Millisecond):
		}
	}
	a(c)
	once.Do(func() {})
	if !started {
		return
	}
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatalf("FAILING INPUT: layered cache: %s blocked forever after %s", bn, an)
	}
	in.mu.Lock()
	out.mu.Lock()
	defer in.mu.Unlock()
	defer out.mu.Unlock()
	rv, rok := in.m["k"]
	lv, lok := out.m["k"]
	where := fmt.Sprintf("%s, with %s running %s its %s %s call (local level initially holds the key: %v): afterwards remote %v %q, local %v %q", an, bn, when, tier, call, held, rok, rv, lok, lv)
	if lok && !rok {
		t.Fatalf("FAILING INPUT: layered cache: the local level keeps what was removed: %s", where)
	}
	if lok && !bytes.Equal(lv, rv) {
		t.Fatalf("FAILING INPUT: layered cache: the levels disagree: %s", where)
	}
}
