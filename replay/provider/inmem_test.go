// overlay: pkg/provider
package provider

// Replay oracles for the in-memory cache (C11 to C15): random sequences of operations judged by
// a reference cache written from the property statements.

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
)

func ivRuns() int64 {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 400000
	}
	return 60000
}

type ivItem struct {
	val []byte
	exp time.Time
}

type ivRef struct {
	max, item uint64
	evict     bool
	m         map[string]ivItem
	order     []string // least recently used first
}

func (r *ivRef) sum() (n uint64) {
	for _, v := range r.m {
		n += 24 + uint64(len(v.val))
	}
	return
}

func (r *ivRef) drop(k string) {
	delete(r.m, k)
	for i, x := range r.order {
		if x == k {
			r.order = append(append([]string{}, r.order[:i]...), r.order[i+1:]...)
			return
		}
	}
}

func (r *ivRef) touch(k string, it ivItem) {
	r.drop(k)
	r.m[k] = it
	r.order = append(r.order, k)
}

// ivMatch: * stands for any run of characters, everything else for itself.
func ivMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if ivMatch(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == p[0] && ivMatch(p[1:], s[1:])
}

var ivKeys = []string{"a", "ab", "b", "a.b", "axb", "a*b", "a/b?c=1", "A", "", "a\nb", "(a", "ab$", "^a", "aéb", "bb", "a+b", "aab"}

func ivKey(r *rand.Rand) string { return ivKeys[r.Intn(len(ivKeys))] }

func ivPattern(r *rand.Rand) string {
	switch r.Intn(3) {
	case 0:
		return ivKey(r)
	case 1:
		k := ivKey(r)
		i := r.Intn(len(k) + 1)
		for i < len(k) && k[i] >= 0x80 {
			i++
		}
		return k[:i] + "*"
	}
	return []string{"", "*", "a*", "*b", "a*b", "*a*", "a.*", "**", "a?b", "[ab]", "a|b", "\\*", "*$", "a+b", "(a", "a.b"}[r.Intn(16)]
}

func ivNew(r *rand.Rand) (*inMemoryCache, *ivRef, *time.Time, string) {
	cfg := InMemoryCacheConfig{MaxSize: uint64(60 + r.Intn(300)), DefaultTTL: []string{"", "120s", "-1", "5m", "x", "0s"}[r.Intn(6)]}
	cfg.MaxItemSize = 1 + uint64(r.Intn(int(cfg.MaxSize)))
	if r.Intn(2) == 0 {
		cfg.MaxItemSize = cfg.MaxSize
	}
	p, err := NewInMemoryCache(cfg)
	if err != nil {
		return nil, nil, nil, fmt.Sprintf("NewInMemoryCache(%+v): %v", cfg, err)
	}
	c := p.(*inMemoryCache)
	now := time.Unix(1700000000, 0)
	c.currentTime = func() time.Time { return now }
	return c, &ivRef{max: cfg.MaxSize, item: cfg.MaxItemSize, evict: cfg.DefaultTTL != "-1", m: map[string]ivItem{}}, &now, fmt.Sprintf("config %+v", cfg)
}

func ivFits(c *inMemoryCache, ref *ivRef) string {
	var sum uint64
	for _, k := range c.inner.Keys() {
		v, _ := c.inner.Peek(k)
		sum += 24 + uint64(len(v))
		if 24+uint64(len(v)) > ref.item {
			return fmt.Sprintf("C11 item %q of %d bytes exceeds the item limit %d", k, len(v), ref.item)
		}
	}
	if c.curSize != sum || sum > ref.max {
		return fmt.Sprintf("C11 accounted size %d, held %d, capacity %d", c.curSize, sum, ref.max)
	}
	return ""
}

// ivRun performs one random sequence; it returns what was violated, as "Cxx text".
func ivRun(seed int64) (bad, log string) {
	r := rand.New(rand.NewSource(seed))
	c, ref, now, what := ivNew(r)
	lines := []string{what}
	if c == nil {
		return "C11 " + what, what
	}
	fail := func(f string, a ...any) (string, string) { return fmt.Sprintf(f, a...), strings.Join(lines, "\n") }
	ctx := context.Background()
	gone, cancel := context.WithCancel(ctx)
	cancel()
	for n := 3 + r.Intn(25); n > 0; n-- {
		ctx := ctx
		if r.Intn(6) == 0 {
			ctx = gone
			lines = append(lines, "with a cancelled context:")
		}
		key := ivKey(r)
		evicted := map[string]bool{}
		op := r.Intn(20)
		switch {
		case op < 7:
			val := bytes.Repeat([]byte{byte('a' + r.Intn(26))}, r.Intn(int(ref.item)+10))
			if r.Intn(3) == 0 {
				val = bytes.Repeat([]byte{'z'}, r.Intn(20))
			}
			ttl := time.Duration(r.Intn(20)-2) * time.Second
			lines = append(lines, fmt.Sprintf("Set(%q, %d bytes, %v)", key, len(val), ttl))
			done := make(chan bool)
			go func() { c.Set(key, val, ttl); close(done) }()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				return fail("C11 making room does not terminate")
			}
			if uint64(len(val))+24 > ref.item {
				ref.drop(key)
				break
			}
			ref.drop(key)
			for ref.sum()+24+uint64(len(val)) > ref.max {
				evicted[ref.order[0]] = true
				ref.drop(ref.order[0])
			}
			ref.touch(key, ivItem{val, now.Add(ttl)})
		case op < 12:
			lines = append(lines, fmt.Sprintf("Get(%q)", key))
			v := c.Get(ctx, key)
			it, ok := ref.m[key]
			if ok && ref.evict && it.exp.Before(*now) {
				ref.drop(key)
				if v != nil {
					return fail("C13 an expired entry is returned for %q", key)
				}
				if c.inner.Contains(key) {
					return fail("C13 an expired entry that was looked up is still held under %q", key)
				}
				break
			}
			if ok {
				if v == nil {
					return fail("C12,C13 nothing found under %q, which was set to %d bytes and expires in %v", key, len(it.val), it.exp.Sub(*now))
				}
				ref.touch(key, it)
			} else if v != nil {
				return fail("C12 %d bytes found under %q, where nothing is held", len(v), key)
			}
			if !bytes.Equal(v, it.val) {
				return fail("C12 lookup of %q returned %q instead of %q", key, v, it.val)
			}
		case op < 14:
			lines = append(lines, fmt.Sprintf("Delete(%q)", key))
			_, want := ref.m[key]
			if got := c.Delete(ctx, key); got != want {
				return fail("C12 deleting %q reported %v", key, got)
			}
			ref.drop(key)
		case op < 15:
			d := time.Duration(r.Intn(8)) * time.Second
			if r.Intn(4) == 0 {
				d += 1
			}
			lines = append(lines, fmt.Sprintf("after %v", d))
			*now = now.Add(d)
		case op < 17:
			p := ivPattern(r)
			lines = append(lines, fmt.Sprintf("Purge(%q)", p))
			if err := c.Purge(ctx, p); err != nil {
				return fail("C15 purging %q failed: %v", p, err)
			}
			for k := range ref.m {
				if p == "" || ivMatch(p, k) {
					ref.drop(k)
					if c.inner.Contains(k) {
						return fail("C15 %q is still held after purging %q", k, p)
					}
				} else if !c.inner.Contains(k) {
					return fail("C15 %q is gone after purging %q", k, p)
				}
			}
		case op < 18:
			lines = append(lines, "Flush()")
			if err := c.Flush(ctx); err != nil || c.inner.Len() != 0 {
				return fail("C15 the cache holds %d items after a flush (%v)", c.inner.Len(), err)
			}
			ref.m, ref.order = map[string]ivItem{}, nil
		default:
			p := ivKey(r)
			lines = append(lines, fmt.Sprintf("Keys(%q)", p))
			got := append([]string{}, c.Keys(ctx, p)...)
			want := []string{}
			for k := range ref.m {
				if strings.HasPrefix(k, p) {
					want = append(want, k)
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				return fail("C15 keys with prefix %q: listed %q instead of %q", p, got, want)
			}
			if c.Size() != len(ref.m) {
				return fail("C14 counted %d items instead of %d", c.Size(), len(ref.m))
			}
		}
		if !c.mu.TryLock() {
			return fail("C14 the lock is still held")
		}
		c.mu.Unlock()
		if bad := ivFits(c, ref); bad != "" {
			return fail("%s", bad)
		}
		held := c.inner.Keys()
		for _, k := range held {
			if _, ok := ref.m[k]; !ok {
				if evicted[k] {
					return fail("C11 %q should have been evicted to make room", k)
				}
				return fail("C12 %q is still held", k)
			}
			v, _ := c.inner.Peek(k)
			if !bytes.Equal(v, ref.m[k].val) {
				return fail("C12 %q holds %q instead of %q", k, v, ref.m[k].val)
			}
			if e, ok := c.ttl[k]; !ok || !e.Equal(ref.m[k].exp) {
				return fail("C13 the expiry of %q is %v (%v) instead of %v", k, e, ok, ref.m[k].exp)
			}
		}
		if len(c.ttl) != len(held) {
			return fail("C13 %d lifetimes for %d items", len(c.ttl), len(held))
		}
		if len(held) != len(ref.m) {
			return fail("C11,C12 held %q instead of %q: not the least recently used were evicted", held, ref.order)
		}
		for i := range held {
			if held[i] != ref.order[i] {
				return fail("C11 order of use %q instead of %q", held, ref.order)
			}
		}
	}
	return "", ""
}

func ivTest(t *testing.T, id string) {
	n := ivRuns()
	const par = 6
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := false
	for p := int64(0); p < par; p++ {
		wg.Add(1)
		go func(p int64) {
			defer wg.Done()
			for s := 1 + p; s <= n; s += par {
				bad, log := ivRun(s)
				mu.Lock()
				stop := failed
				if !stop && bad != "" && strings.Contains(strings.SplitN(bad, " ", 2)[0], id) {
					failed = true
					t.Errorf("%s violated: %s\nscenario %d:\n%s", id, bad, s, log)
				}
				mu.Unlock()
				if stop {
					return
				}
			}
		}(p)
	}
	wg.Wait()
}

func TestVerifC11(t *testing.T) { ivTest(t, "C11"); ivLimits(t) }
func TestVerifC12(t *testing.T) { ivTest(t, "C12") }
func TestVerifC13(t *testing.T) { ivTest(t, "C13") }
func TestVerifC15(t *testing.T) { ivTest(t, "C15") }

func ivLimits(t *testing.T) {
	for _, c := range []InMemoryCacheConfig{{MaxSize: 10, MaxItemSize: 11}, {MaxSize: 1 << 27, MaxItemSize: 1<<27 + 1}, {MaxSize: 5}, {MaxItemSize: 1 << 29}} {
		if _, err := NewInMemoryCache(c); err == nil {
			t.Errorf("C11 violated: configuration %+v is accepted", c)
		}
	}
	for _, c := range []InMemoryCacheConfig{{}, {MaxSize: 1 << 27}, {MaxSize: 1, MaxItemSize: 1}} {
		if _, err := NewInMemoryCache(c); err != nil {
			t.Errorf("C11 violated: configuration %+v is refused: %v", c, err)
		}
	}
}

// TestVerifC14 checks that every operation excludes the others while it runs.
func TestVerifC14(t *testing.T) {
	ivTest(t, "C14")
	ctx := context.Background()
	fill := func() *inMemoryCache {
		p, err := NewInMemoryCache(InMemoryCacheConfig{MaxSize: 200, MaxItemSize: 100, DefaultTTL: "1s"})
		if err != nil {
			t.Fatal(err)
		}
		c := p.(*inMemoryCache)
		now := time.Unix(1700000000, 0)
		c.currentTime = func() time.Time { return now }
		for _, k := range []string{"a", "b", "ab", "old"} {
			c.Set(k, []byte("x"), time.Hour)
		}
		c.Set("old", []byte("x"), -time.Hour)
		return c
	}
	ops := map[string]func(c *inMemoryCache){
		"Get of a missing key":  func(c *inMemoryCache) { c.Get(ctx, "x") },
		"Get of a held key":     func(c *inMemoryCache) { c.Get(ctx, "a") },
		"Get of an expired key": func(c *inMemoryCache) { c.Get(ctx, "old") },
		"Set of a new key":      func(c *inMemoryCache) { c.Set("n", []byte("x"), time.Hour) },
		"Set of a held key":     func(c *inMemoryCache) { c.Set("a", []byte("x"), time.Hour) },
		"Set to a larger value": func(c *inMemoryCache) { c.Set("a", make([]byte, 50), time.Hour) },
		"Set making room": func(c *inMemoryCache) {
			c.Set("n", make([]byte, 76), time.Hour)
			c.Set("m", make([]byte, 76), time.Hour)
		},
		"Set too large":    func(c *inMemoryCache) { c.Set("a", make([]byte, 1000), time.Hour) },
		"Delete":           func(c *inMemoryCache) { c.Delete(ctx, "a") },
		"Delete missing":   func(c *inMemoryCache) { c.Delete(ctx, "zz") },
		"Keys":             func(c *inMemoryCache) { c.Keys(ctx, "") },
		"Keys with prefix": func(c *inMemoryCache) { c.Keys(ctx, "a") },
		"Purge":            func(c *inMemoryCache) { c.Purge(ctx, "a*") },
		"Purge all":        func(c *inMemoryCache) { c.Purge(ctx, "") },
		"Purge nothing":    func(c *inMemoryCache) { c.Purge(ctx, "zzz") },
		"Flush":            func(c *inMemoryCache) { c.Flush(ctx) },
		"Size":             func(c *inMemoryCache) { c.Size() },
	}
	for name, op := range ops {
		c, free := fill(), false
		watch := func() {
			d, clock := c, c.currentTime
			c.currentTime = func() time.Time {
				if d.mu.TryLock() {
					d.mu.Unlock()
					free = true
				}
				return clock()
			}
		}
		watch()
		op(c)
		c = fill()
		watch()
		done := make(chan bool)
		c.mu.Lock()
		go func() { op(c); close(done) }()
		select {
		case <-done:
			t.Errorf("C14 violated: %s does not wait for the lock", name)
		case <-time.After(100 * time.Millisecond):
		}
		if strings.HasPrefix(name, "Get") || strings.HasPrefix(name, "Delete") {
			// What changed while waiting for the lock is taken into account.
			c.inner.Purge()
			clear(c.ttl)
		}
		size, n := c.curSize, c.inner.Len()
		c.mu.Unlock()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Errorf("C14 violated: %s never ends", name)
			continue
		}
		if free {
			t.Errorf("C14 violated: %s reads the clock without the lock", name)
		}
		if !c.mu.TryLock() {
			t.Errorf("C14 violated: %s leaves the lock held", name)
			continue
		}
		c.mu.Unlock()
		if (strings.HasPrefix(name, "Get") || strings.HasPrefix(name, "Delete")) && (c.curSize != size || c.inner.Len() != n) {
			t.Errorf("C14 violated: %s acted on what it saw before it held the lock", name)
		}
	}
	for round := 0; round < 300 && !t.Failed(); round++ {
		c := fill()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(r *rand.Rand) {
				defer wg.Done()
				for i := 0; i < 100; i++ {
					switch k := ivKey(r); r.Intn(8) {
					case 0:
						c.Delete(ctx, k)
					case 1:
						c.Purge(ctx, k+"*")
					case 2, 3:
						c.Get(ctx, k)
					case 4:
						c.Keys(ctx, k)
					default:
						c.Set(k, make([]byte, r.Intn(80)), time.Duration(r.Intn(3)-1)*time.Hour)
					}
				}
			}(rand.New(rand.NewSource(int64(round*8 + g))))
		}
		wg.Wait()
		if bad := ivFits(c, &ivRef{max: 200, item: 100}); bad != "" {
			t.Errorf("C14 violated: concurrent operations corrupt the cache: %s", bad)
		}
		if len(c.ttl) != c.inner.Len() {
			t.Errorf("C14 violated: concurrent operations corrupt the cache: %d lifetimes for %d items", len(c.ttl), c.inner.Len())
		}
	}
}
