// overlay: pkg/server
package server

// Replay oracle for the management handlers (C24) and what they broadcast (C23).

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"path"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/rs/zerolog"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

// hdBackend records operations and fails as told.
type hdBackend struct {
	ops  []string
	fail error
	keys []string
}

func (b *hdBackend) op(format string, a ...any) { b.ops = append(b.ops, fmt.Sprintf(format, a...)) }

func (b *hdBackend) Get(context.Context, string) []byte        { return nil }
func (b *hdBackend) Set(k string, v []byte, ttl time.Duration) { b.op("set %q", k) }
func (b *hdBackend) Delete(ctx context.Context, k string) bool {
	b.op("delete %q", k)
	return b.fail == nil
}
func (b *hdBackend) Keys(ctx context.Context, p string) []string {
	var r []string
	for _, k := range b.keys {
		if strings.HasPrefix(k, p) {
			r = append(r, k)
		}
	}
	return r
}
func (b *hdBackend) Purge(ctx context.Context, p string) error { b.op("purge %q", p); return b.fail }
func (b *hdBackend) Flush(ctx context.Context) error           { b.op("flush"); return b.fail }
func (b *hdBackend) Size() int                                 { return len(b.keys) }

type hdCluster struct{ casts []string }

func (c *hdCluster) Endpoints(string) []cluster.Endpoint { return nil }
func (c *hdCluster) Close()                              {}
func (c *hdCluster) Broadcast(r *http.Request, port, method, p string) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
	}
	c.casts = append(c.casts, fmt.Sprintf("%s %s %s key=%q %q", port, method, p, r.Header.Get("X-Purge-Key"), body))
}

// hdWriter notes the configuration in force when the status is sent.
type hdWriter struct {
	*httptest.ResponseRecorder
	s     *Server
	cfg   *cache.HttpCacheConfig
	calls int
}

func (w *hdWriter) WriteHeader(code int) {
	w.calls++
	if w.calls == 1 {
		w.cfg = w.s.httpcache.Config()
	}
	w.ResponseRecorder.WriteHeader(code)
}

type hdBroken struct{ r io.Reader }

func (b hdBroken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

func hdRun(t *testing.T, id string) {
	rnd := rand.New(rand.NewSource(24))
	pick := func(s ...string) string { return s[rnd.Intn(len(s))] }
	for it := 0; it < 4000; it++ {
		b := &hdBackend{}
		for i := rnd.Intn(4); i > 0; i-- {
			b.keys = append(b.keys, fmt.Sprint("k", rnd.Intn(9)))
		}
		hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: rnd.Intn(2) == 0, DefaultTTL: "7s"}, b)
		if err != nil {
			t.Skip(err)
		}
		prefix := pick("", "/api", "api", "/x/", "x/y")
		s := &Server{cache: b, httpcache: hc, cfg: &config.Configuration{API: &config.API{Prefix: prefix}, Provider: &provider.ProviderBackendConfig{}}}
		s.cfg.Provider.Layered = rnd.Intn(3) > 0
		cl := &hdCluster{}
		if rnd.Intn(3) > 0 {
			s.cluster = cl
		}
		if rnd.Intn(3) == 0 {
			b.fail = errors.New("backend down")
		}
		key := pick("", "k1", "k*", "*", "a b", "*k*1*")
		hdr := http.Header{}
		if rnd.Intn(5) > 0 {
			hdr.Set("X-Purge-Key", key)
		} else {
			key = ""
		}
		marked := rnd.Intn(3) == 0
		if marked {
			hdr["X-Kache-Cluster"] = []string{"Broadcast"}
		}
		if rnd.Intn(3) == 0 {
			hdr.Set(pick("X-Purge-Regex", "Content-Type", "X-Other"), pick("a", "*"))
		}
		method := pick("PURGE", "DELETE", "GET", "POST", "PUT", "purge", "HEAD")
		type text struct {
			s  string
			ok bool
			c  cache.HttpCacheConfig
		}
		texts := []text{
			{s: ""}, {s: "strict: maybe\n"}, {s: "default_ttl: [1]\n"}, {s: "{"}, {s: "- 1\n"}, {s: "plain"}, {s: "strict: false\ndefault_ttl: {}\n"},
			{s: "timeouts:\n  - path: ^/a\n    ttl: never\n"},
			{"strict: false\n", true, cache.HttpCacheConfig{}},
			{"default_ttl: 9s\n", true, cache.HttpCacheConfig{Strict: true, DefaultTTL: "9s"}},
			{"x_header: true\nx_header_name: X-Y\nstrict: true\n", true, cache.HttpCacheConfig{Strict: true, XCache: true, XCacheName: "X-Y"}},
			{"strict: false\ndefault_cache_control: max-age=5\n" + strings.Repeat("# more\n", rnd.Intn(3)*20000), true, cache.HttpCacheConfig{DefaultCacheControl: "max-age=5"}},
		}
		x := texts[rnd.Intn(len(texts))]
		var body io.Reader = strings.NewReader(x.s)
		broken := rnd.Intn(6) == 0
		if broken {
			body = hdBroken{body}
		}
		which := rnd.Intn(6)
		r := httptest.NewRequest(method, "/api/some/path", io.NopCloser(body))
		r.Header = hdr
		w := &hdWriter{ResponseRecorder: httptest.NewRecorder(), s: s}
		was := *hc.Config()
		desc := fmt.Sprintf("handler %d: %s %v body %.60q (broken %v) backend error %v prefix %q layered %v clustered %v", which, method, hdr, x.s, broken, b.fail, prefix, s.cfg.Provider.Layered, s.cluster != nil)
		fail := func(format string, a ...any) { t.Fatalf("FAILING INPUT: %s: "+format, append([]any{desc}, a...)...) }
		h := []func(http.ResponseWriter, *http.Request){s.CacheKeyPurgeHandler, s.CacheInvalidateHandler, s.CacheFlushHandler, s.CacheConfigUpdateHandler, s.CacheKeysHandler, s.CacheConfigHandler}[which]
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("crash: %v", e)
				}
			}()
			h(w, r)
		}()
		var ops, casts []string
		status := 200
		want, cast := "", ""
		full := path.Join("/", prefix, "/cache/invalidate")
		if prefix == "" {
			full = "/api/cache/invalidate"
		}
		switch which {
		case 0, 1, 2:
			m := []string{"PURGE", "DELETE", "DELETE"}[which]
			want = fmt.Sprintf("purge %q", key)
			if which == 2 {
				want = "flush"
			}
			if method != m {
				status, want = 405, ""
			} else if b.fail != nil {
				status = 404
			} else if which == 0 && s.cluster != nil && s.cfg.Provider.Layered && !marked {
				cast = fmt.Sprintf("api DELETE %s key=%q %q", full, key, x.s)
				if broken {
					cast = cast[:strings.LastIndex(cast, " ")]
				}
			}
		case 3:
			if broken || !x.ok {
				status = 400
			} else if s.cluster != nil && !marked {
				cast = fmt.Sprintf("api %s %s key=%q %q", method, "/api/some/path", key, x.s)
			}
		}
		if want != "" {
			ops = []string{want}
		}
		if cast != "" {
			casts = []string{cast}
		}
		got := append([]string(nil), cl.casts...)
		if broken && cast != "" && len(got) == 1 {
			got[0] = got[0][:strings.LastIndex(got[0], " ")]
		}
		if id == "C23" {
			if !reflect.DeepEqual(got, casts) {
				fail("broadcasts %q, want %q", got, casts)
			}
			continue
		}
		if !reflect.DeepEqual(b.ops, ops) {
			fail("operations %q, want %q", b.ops, ops)
		}
		if w.Code != status || w.calls > 1 {
			fail("status %d (sent %d times), want %d", w.Code, w.calls, status)
		}
		now := *hc.Config()
		wantCfg := was
		if which == 3 && status == 200 {
			wantCfg = x.c
			if w.cfg == nil || w.cfg != hc.Config() {
				fail("the update was confirmed before it was in force")
			}
		}
		if !reflect.DeepEqual(now, wantCfg) {
			fail("configuration %+v, want %+v", now, wantCfg)
		}
		if which >= 4 {
			var v any = b.Keys(nil, "")
			if which == 5 {
				v = hc.Config()
			}
			js, _ := json.Marshal(v)
			if !bytes.Equal(bytes.TrimSpace(w.Body.Bytes()), js) {
				fail("answer %s, want %s", w.Body, js)
			}
		}
	}
}

func TestVerifC24(t *testing.T) { hdRun(t, "C24") }
func TestVerifC23(t *testing.T) { hdRun(t, "C23") }
