CA='pkg/provider/cached.go'
PRE='''package provider

import (
	"context"
	"testing"
	"time"
)

var _ = time.Second

type demoTier struct {
	m      map[string][]byte
	during func()
	gets   int
}

func (l *demoTier) Get(ctx context.Context, key string) []byte {
	l.gets++
	v := l.m[key]
	if l.during != nil {
		l.during()
	}
	return v
}
func (l *demoTier) Set(key string, value []byte, ttl time.Duration) { l.m[key] = value }
func (l *demoTier) Delete(ctx context.Context, key string) bool {
	_, ok := l.m[key]
	delete(l.m, key)
	return ok
}
func (l *demoTier) Keys(ctx context.Context, prefix string) []string { return nil }
func (l *demoTier) Purge(ctx context.Context, pattern string) error  { return nil }
func (l *demoTier) Flush(ctx context.Context) error                  { return nil }
func (l *demoTier) Size() int                                        { return len(l.m) }
'''
SEEDS=[
dict(id='C16-fill-races-delete', prop='C16', pkg='pkg/provider',
 needs='a key is deleted between the remote lookup and the local fill of a concurrent get',
 breaks='a lookup releases the lock during the remote fetch, so it fills the local level with an entry that was deleted meanwhile',
 edits=[(CA,'''	c.mu.Lock()
	defer c.mu.Unlock()

	val := c.outer.Get(ctx, key)
	if val != nil {
		return val
	}

	val = c.inner.Get(ctx, key)
	if val != nil {
		c.outer.Set(key, val, c.ttl)
	}
''','''	c.mu.Lock()
	val := c.outer.Get(ctx, key)
	c.mu.Unlock()
	if val != nil {
		return val
	}

	val = c.inner.Get(ctx, key)
	if val != nil {
		c.mu.Lock()
		c.outer.Set(key, val, c.ttl)
		c.mu.Unlock()
	}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	in, out := &demoTier{m: map[string][]byte{"k": []byte("v")}}, &demoTier{m: map[string][]byte{}}
	c := &Cached{inner: in, outer: out, ttl: time.Hour}
	done := make(chan struct{})
	in.during = func() {
		in.during = nil
		go func() { c.Delete(context.Background(), "k"); close(done) }()
		select {
		case <-done:
		case <-time.After(200 * time.Millisecond):
		}
	}
	c.Get(context.Background(), "k")
	<-done
	if _, ok := out.m["k"]; ok {
		t.Fatal("the local level holds a deleted entry")
	}
}
'''),
dict(id='C16-empty-entry', prop='C16', pkg='pkg/provider',
 needs='a stored entry whose encoding is empty',
 breaks='an empty entry held locally is treated as missing and fetched from the remote level instead',
 edits=[(CA,'''	val := c.outer.Get(ctx, key)
	if val != nil {''','''	val := c.outer.Get(ctx, key)
	if len(val) > 0 {''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	in, out := &demoTier{m: map[string][]byte{}}, &demoTier{m: map[string][]byte{"k": {}}}
	c := &Cached{inner: in, outer: out, ttl: time.Hour}
	if c.Get(context.Background(), "k") == nil || in.gets != 0 {
		t.Fatal("an entry held locally was not returned")
	}
}
'''),
dict(id='C16-fill-default-ttl', prop='C16', pkg='pkg/provider',
 needs='an entry found only in the remote level, looked up again after the layered TTL',
 breaks='local fills use the default TTL of the in-memory cache instead of the TTL configured for the layer, so the local copy does not live that long',
 edits=[(CA,'''		c.outer.Set(key, val, c.ttl)
''','''		c.outer.Set(key, val, 0)
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	in := &demoTier{m: map[string][]byte{"k": []byte("v")}}
	c, err := NewCached(in, "x", time.Second, InMemoryCacheConfig{MaxSize: 1000, MaxItemSize: 100})
	if err != nil {
		t.Fatal(err)
	}
	now := time.Unix(1700000000, 0)
	c.outer.(*inMemoryCache).currentTime = func() time.Time { return now }
	c.Get(context.Background(), "k")
	now = now.Add(time.Millisecond)
	if c.outer.Get(context.Background(), "k") == nil {
		t.Fatal("the local copy is gone before the configured TTL")
	}
	now = now.Add(2 * time.Second)
	if c.outer.Get(context.Background(), "k") != nil {
		t.Fatal("the local copy outlives the configured TTL")
	}
}
'''),
dict(id='C16-delete-local-only-if-remote', prop='C16', pkg='pkg/provider',
 needs='a delete of a key the remote level does not hold any more while the local level still does',
 breaks='the local copy is deleted only if the remote level held the key, so it keeps being served',
 edits=[(CA,'''	c.outer.Delete(ctx, key)
''','''	if ok {
		c.outer.Delete(ctx, key)
	}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	in, out := &demoTier{m: map[string][]byte{}}, &demoTier{m: map[string][]byte{"k": []byte("v")}}
	c := &Cached{inner: in, outer: out, ttl: time.Hour}
	c.Delete(context.Background(), "k")
	if c.Get(context.Background(), "k") != nil {
		t.Fatal("a deleted key is still served")
	}
}
'''),
dict(id='C16-limits-checked-early', prop='C16', pkg='pkg/provider',
 needs='a layered cache with max_size left unset and max_item_size configured',
 breaks='the limits are compared before defaults are filled in, so a valid layer is refused',
 edits=[(CA,'''	config.Sanitize()
	if config.MaxItemSize > config.MaxSize {
		return nil, fmt.Errorf("max item size (%v) must not exceed overall cache size (%v)",
			config.MaxItemSize, config.MaxSize)
	}
''','''	if config.MaxItemSize > config.MaxSize {
		return nil, fmt.Errorf("max item size (%v) must not exceed overall cache size (%v)",
			config.MaxItemSize, config.MaxSize)
	}
	config.Sanitize()
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	_, err := NewCached(&demoTier{}, "x", time.Second, InMemoryCacheConfig{MaxItemSize: 100})
	if err != nil {
		t.Fatal("refused", err)
	}
}
'''),
]
