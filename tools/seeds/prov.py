IM='pkg/provider/inmemory.go'
PRE='''package provider

import (
	"context"
	"sync"
	"testing"
	"time"
)

func demoCache(t *testing.T, cfg InMemoryCacheConfig) (*inMemoryCache, *time.Time) {
	p, err := NewInMemoryCache(cfg)
	if err != nil {
		t.Fatal(err)
	}
	c := p.(*inMemoryCache)
	now := time.Unix(1700000000, 0)
	c.currentTime = func() time.Time { return now }
	return c, &now
}

var _ sync.Mutex
var _ = context.Background
'''
SEEDS=[
dict(id='C11-capacity-boundary', prop='C11', pkg='pkg/provider',
 needs='a held value is replaced by a larger one that fits only if more than its own previous size is released',
 breaks='making room ignores the slice header of the new item, so the capacity is exceeded by up to 24 bytes',
 edits=[(IM,'''	c.ensureCapacity(size)
''','''	c.ensureCapacity(uint64(len(value)))
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c, _ := demoCache(t, InMemoryCacheConfig{MaxSize: 200, MaxItemSize: 200, DefaultTTL: "120s"})
	c.Set("a", make([]byte, 100), time.Hour)
	c.Set("b", make([]byte, 60), time.Hour)
	if c.curSize > 200 {
		t.Fatalf("size %d exceeds the capacity 200", c.curSize)
	}
}
'''),
dict(id='C12-shrink-keeps-old', prop='C12', pkg='pkg/provider',
 needs='a value of exactly the size of the held one is set for the same key',
 breaks='a value of unchanged size is not stored: the outdated value stays',
 edits=[(IM,'''			c.inner.Add(key, value)
			c.curSize -= (entSize - size)''','''			if size < entSize {
				c.inner.Add(key, value)
			}
			c.curSize -= (entSize - size)''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c, _ := demoCache(t, InMemoryCacheConfig{MaxSize: 200, MaxItemSize: 200, DefaultTTL: "120s"})
	c.Set("a", []byte("old"), time.Hour)
	c.Set("a", []byte("new"), time.Hour)
	if v := c.Get(context.Background(), "a"); string(v) != "new" {
		t.Fatalf("found %q", v)
	}
}
'''),
dict(id='C13-shrink-keeps-expiry', prop='C13', pkg='pkg/provider',
 needs='a held value is refreshed by one that is not larger, and looked up after the first lifetime',
 breaks='refreshing an item with a value of the same or a smaller size extends the lifetime only if it was longer before, so the item outlives the lifetime of the last set',
 edits=[(IM,'''			c.ttl[key] = c.currentTime().Add(ttl)
			return''','''			if exp := c.currentTime().Add(ttl); exp.After(c.ttl[key]) {
				c.ttl[key] = exp
			}
			return''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c, now := demoCache(t, InMemoryCacheConfig{MaxSize: 200, MaxItemSize: 200, DefaultTTL: "120s"})
	c.Set("a", []byte("old"), time.Hour)
	c.Set("a", []byte("new"), time.Second)
	*now = now.Add(time.Minute)
	if v := c.Get(context.Background(), "a"); v != nil {
		t.Fatalf("expired entry found: %q", v)
	}
}
'''),
dict(id='C13-expiry-instant', prop='C13', pkg='pkg/provider',
 needs='a lookup at exactly the instant the lifetime ends, e.g. a lifetime of zero in the same clock tick',
 breaks='an entry is dropped at the last instant of its lifetime',
 edits=[(IM,"ok && expires.Before(c.currentTime())","ok && !expires.After(c.currentTime())")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c, now := demoCache(t, InMemoryCacheConfig{MaxSize: 200, MaxItemSize: 200, DefaultTTL: "120s"})
	c.Set("a", []byte("x"), time.Second)
	*now = now.Add(time.Second)
	if v := c.Get(context.Background(), "a"); string(v) != "x" {
		t.Fatalf("entry gone before its lifetime has passed: %q", v)
	}
}
'''),
dict(id='C14-delete-checks-early', prop='C14', pkg='pkg/provider',
 needs='another goroutine changes the expiry map while the membership is checked before the lock is taken',
 breaks='the expiry map is read before the lock is taken in Get, which races with every other operation',
 edits=[(IM,'''	c.mu.Lock()
	defer c.mu.Unlock()

	if c.ttlEviction {
		if expires, ok := c.ttl[key]; ok && expires.Before(c.currentTime()) {
			c._delete(ctx, key)
			return nil
		}
	}
''','''	if c.ttlEviction {
		c.mu.RLock()
		expires, ok := c.ttl[key]
		c.mu.RUnlock()
		if ok && expires.Before(c.currentTime()) {
			c.mu.Lock()
			defer c.mu.Unlock()
			c._delete(ctx, key)
			return nil
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c, _ := demoCache(t, InMemoryCacheConfig{MaxSize: 200, MaxItemSize: 200, DefaultTTL: "120s"})
	now := c.currentTime()
	c.Set("a", []byte("old"), -time.Second)
	refreshed := make(chan bool)
	c.currentTime = func() time.Time {
		// Another request refreshes the entry right now.
		go func() {
			c.mu.Lock()
			c.inner.Add("a", []byte("new"))
			c.ttl["a"] = now.Add(time.Hour)
			c.mu.Unlock()
			close(refreshed)
		}()
		select {
		case <-refreshed:
		case <-time.After(200 * time.Millisecond):
		}
		return now
	}
	_ = c.Get(context.Background(), "a")
	<-refreshed
	c.currentTime = func() time.Time { return now }
	if v := c.Get(context.Background(), "a"); string(v) != "new" {
		t.Fatalf("the refreshed entry is lost: %q", v)
	}
}
'''),
dict(id='C15-trailing-star', prop='C15', pkg='pkg/provider',
 needs='a pattern with a * followed by further text, and a key where that * stands for nothing',
 breaks='the last * of a pattern that goes on after it no longer stands for the empty run',
 edits=[(IM,'''	for i, p := range parts {
		// Replace * with .*
		if i > 0 {
			_, _ = result.WriteString(".*")
		}''','''	for i, p := range parts {
		// Replace * with .*
		if i > 0 {
			if p == "" || i < len(parts)-1 {
				_, _ = result.WriteString(".*")
			} else {
				_, _ = result.WriteString(".+")
			}
		}''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c, _ := demoCache(t, InMemoryCacheConfig{MaxSize: 2000, MaxItemSize: 2000, DefaultTTL: "120s"})
	c.Set("abc", []byte("x"), time.Hour)
	if err := c.Purge(context.Background(), "ab*c"); err != nil || c.Size() != 0 {
		t.Fatalf("the key with an empty rest is not purged: %d, %v", c.Size(), err)
	}
}
'''),
dict(id='C15-keys-fold', prop='C15', pkg='pkg/provider',
 needs='keys are listed with a prefix that is longer than some held key',
 breaks='keys that are shorter than the prefix but a prefix of it are listed as well',
 edits=[(IM,'''		if !strings.HasPrefix(k, prefix) {''','''		if !strings.HasPrefix(k, prefix) && !strings.HasPrefix(prefix, k) {''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	c, _ := demoCache(t, InMemoryCacheConfig{MaxSize: 2000, MaxItemSize: 2000, DefaultTTL: "120s"})
	c.Set("a", []byte("x"), time.Hour)
	c.Set("abc", []byte("x"), time.Hour)
	if k := c.Keys(context.Background(), "ab"); len(k) != 1 {
		t.Fatalf("listed %q", k)
	}
}
'''),
]
