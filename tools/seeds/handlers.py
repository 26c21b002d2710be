H='pkg/server/handlers.go'
PRE='''package server

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
)

type demoBackend struct {
	purged []string
	flush  int
	err    error
	size   int
}

func (b *demoBackend) Get(context.Context, string) []byte             { return nil }
func (b *demoBackend) Set(string, []byte, time.Duration)              {}
func (b *demoBackend) Delete(context.Context, string) bool            { return true }
func (b *demoBackend) Keys(context.Context, string) []string          { return nil }
func (b *demoBackend) Purge(_ context.Context, p string) error        { b.purged = append(b.purged, p); return b.err }
func (b *demoBackend) Flush(context.Context) error                    { b.flush++; return b.err }
func (b *demoBackend) Size() int                                      { return b.size }

func demo(b *demoBackend) *Server {
	c, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true, DefaultTTL: "7s"}, b)
	if err != nil {
		panic(err)
	}
	return &Server{cache: b, httpcache: c, cfg: &config.Configuration{API: &config.API{}, Provider: &provider.ProviderBackendConfig{}}}
}

func ask(h http.HandlerFunc, method, body string, hdr ...string) int {
	r := httptest.NewRequest(method, "/", strings.NewReader(body))
	for i := 0; i < len(hdr); i += 2 {
		r.Header.Set(hdr[i], hdr[i+1])
	}
	w := httptest.NewRecorder()
	h(w, r)
	return w.Code
}

var _ = errors.New
var _ = ask

'''
SEEDS=[
dict(id='C24-empty-update', prop='C24', pkg='pkg/server',
 needs='a configuration update with an empty body (or comments only)',
 breaks='an update that contains no document is answered 200 and resets the configuration',
 edits=[(H,'''	if err := dec.Decode(&c); err != nil {
''','''	if err := dec.Decode(&c); err != nil && err != io.EOF {
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	for _, body := range []string{"", "# nothing\\n"} {
		s := demo(&demoBackend{})
		if code := ask(s.CacheConfigUpdateHandler, "PUT", body); code != 400 || s.httpcache.Config().DefaultTTL != "7s" {
			t.Fatalf("body %q: status %d, configuration %+v", body, code, s.httpcache.Config())
		}
	}
}
'''),
dict(id='C24-keyless-purge', prop='C24', pkg='pkg/server',
 needs='an invalidation request without a purge-key header',
 breaks='a missing pattern is taken for all keys, so the whole cache is dropped',
 edits=[(H,'''	key := r.Header.Get("X-Purge-Key")
	if err := s.cache.Purge(context.Background(), key); err != nil {
		w.WriteHeader(http.StatusNotFound)
		return
	}
	w.WriteHeader(http.StatusOK)
}

// CacheFlush''','''	key := r.Header.Get("X-Purge-Key")
	if key == "" {
		key = r.URL.Query().Get("key") + "*"
	}
	if err := s.cache.Purge(context.Background(), key); err != nil {
		w.WriteHeader(http.StatusNotFound)
		return
	}
	w.WriteHeader(http.StatusOK)
}

// CacheFlush''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	b := &demoBackend{}
	ask(demo(b).CacheInvalidateHandler, "DELETE", "")
	ask(demo(b).CacheInvalidateHandler, "DELETE", "", "X-Purge-Key", "k*")
	if len(b.purged) != 2 || b.purged[0] != "" || b.purged[1] != "k*" {
		t.Fatalf("purged %q", b.purged)
	}
}
'''),
dict(id='C24-flush-empty', prop='C24', pkg='pkg/server',
 needs='a flush that fails while the backend reports no entries (as a remote backend does when unreachable)',
 breaks='a failed flush is answered 200',
 edits=[(H,'''	if err := s.cache.Flush(context.Background()); err != nil {
''','''	if err := s.cache.Flush(context.Background()); err != nil && s.cache.Size() > 0 {
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	b := &demoBackend{err: errors.New("down")}
	if code := ask(demo(b).CacheFlushHandler, "DELETE", ""); code != 404 || b.flush != 1 {
		t.Fatalf("status %d", code)
	}
	b.size = 3
	if code := ask(demo(b).CacheFlushHandler, "DELETE", ""); code != 404 {
		t.Fatalf("status %d", code)
	}
}
'''),
dict(id='C24-late-update', prop='C24', pkg='pkg/server',
 needs='a request that looks at the configuration right after an update was confirmed',
 breaks='the update is confirmed before it is in force',
 edits=[(H,'''	s.httpcache.UpdateConfig(&c)
''','''	defer s.httpcache.UpdateConfig(&c)
''')],
 demo=PRE+'''type demoWriter struct {
	*httptest.ResponseRecorder
	s *Server
	t *testing.T
}

func (w demoWriter) WriteHeader(code int) {
	if ttl := w.s.httpcache.Config().DefaultTTL; code != 200 || ttl != "9s" {
		w.t.Fatalf("status %d is sent while the default TTL is %s", code, ttl)
	}
	w.ResponseRecorder.WriteHeader(code)
}

func TestDemo(t *testing.T) {
	s := demo(&demoBackend{})
	w := demoWriter{httptest.NewRecorder(), s, t}
	s.CacheConfigUpdateHandler(w, httptest.NewRequest("PUT", "/", strings.NewReader("default_ttl: 9s\\n")))
	if w.Code != 200 || s.httpcache.Config().DefaultTTL != "9s" {
		t.Fatal("not updated")
	}
}
'''),
]
