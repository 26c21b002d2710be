// overlay: pkg/api
package api

// Replay oracle for the routes of the management operations (C24).

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/server"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

type rtBackend struct {
	ops  []string
	fail error
	keys []string
}

func (b *rtBackend) op(format string, a ...any) { b.ops = append(b.ops, fmt.Sprintf(format, a...)) }

func (b *rtBackend) Get(context.Context, string) []byte        { return nil }
func (b *rtBackend) Set(k string, v []byte, ttl time.Duration) { b.op("set %q", k) }
func (b *rtBackend) Delete(ctx context.Context, k string) bool {
	b.op("delete %q", k)
	return b.fail == nil
}
func (b *rtBackend) Keys(ctx context.Context, p string) []string { return b.keys }
func (b *rtBackend) Purge(ctx context.Context, p string) error   { b.op("purge %q", p); return b.fail }
func (b *rtBackend) Flush(ctx context.Context) error             { b.op("flush"); return b.fail }
func (b *rtBackend) Size() int                                   { return len(b.keys) }

func TestVerifC24(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	prefixes := []string{"", "/", "api", "/api", "/api/", "adm/x", "/adm/x/", "//", "/a//b"}
	type opn struct{ method, path string }
	ops := []opn{{"PURGE", ""}, {"GET", "/cache/keys"}, {"GET", "/cache/config"}, {"PUT", "/cache/config/update"}, {"DELETE", "/cache/invalidate"}, {"DELETE", "/cache/flush"}}
	for i := 0; i < 3000; i++ {
		b := &rtBackend{keys: []string{"a", "b" + fmt.Sprint(i)}}
		if rnd.Intn(3) == 0 {
			b.fail = errors.New("failed")
		}
		hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{XCacheName: fmt.Sprint("N", i), Strict: rnd.Intn(2) == 0}, b)
		if err != nil {
			t.Fatal(err)
		}
		cfg := &config.Configuration{API: &config.API{Prefix: prefixes[rnd.Intn(len(prefixes))], Debug: rnd.Intn(2) == 0}}
		if rnd.Intn(3) == 0 {
			cfg.API.ACL = "192.0.2.0/24"
		}
		srv, err := server.NewServer(cfg, b, hc, prometheus.NewRegistry())
		if err != nil {
			t.Fatal(err)
		}
		a, err := New(*cfg.API, srv)
		if err != nil {
			t.Fatal(err)
		}
		o := ops[rnd.Intn(len(ops))]
		var segs []string
		for _, x := range strings.Split(cfg.API.GetPrefix(), "/") {
			if x != "" {
				segs = append(segs, x)
			}
		}
		p := strings.TrimSuffix("/"+strings.Join(segs, "/"), "/") + o.path
		if o.path == "" {
			p = "/"
		}
		body, bad := "strict: true\nx_cache_name: U\n", false
		if rnd.Intn(3) == 0 {
			body, bad = "strict: [", true
		}
		r := httptest.NewRequest(o.method, "http://x"+p, strings.NewReader(body))
		r.Header.Set("X-Purge-Key", fmt.Sprint("k", i))
		before := *hc.Config()
		w := httptest.NewRecorder()
		a.ServeHTTP(w, r)
		var want []string
		code := 200
		switch {
		case o.method == "PURGE" || o.path == "/cache/invalidate":
			want = []string{fmt.Sprintf("purge %q", fmt.Sprint("k", i))}
		case o.path == "/cache/flush":
			want = []string{"flush"}
		}
		if want != nil && b.fail != nil {
			code = http.StatusNotFound
		}
		if o.method == "PUT" && bad {
			code = http.StatusBadRequest
		}
		why := ""
		switch {
		case w.Code != code:
			why = fmt.Sprintf("answered %d instead of %d", w.Code, code)
		case !reflect.DeepEqual(b.ops, want):
			why = fmt.Sprintf("backend operations %q instead of %q", b.ops, want)
		case o.path == "/cache/keys":
			var ks []string
			if json.Unmarshal(w.Body.Bytes(), &ks) != nil || !reflect.DeepEqual(ks, b.keys) {
				why = fmt.Sprintf("listed %q instead of %q", w.Body.String(), b.keys)
			}
		case o.path == "/cache/config":
			if !strings.Contains(w.Body.String(), fmt.Sprintf("N%d", i)) {
				why = fmt.Sprintf("shown %q instead of %+v", w.Body.String(), before)
			}
		}
		if now := *hc.Config(); why == "" && reflect.DeepEqual(now, before) == (o.method == "PUT" && !bad) {
			why = fmt.Sprintf("the configuration is %+v after %+v", now, before)
		}
		if why != "" {
			t.Fatalf("FAILING INPUT: %s %s body=%q backend error=%v config=%+v: %s", o.method, p, body, b.fail, *cfg.API, why)
		}
	}
}

// TestVerifC24Elsewhere: other requests change nothing.
func TestVerifC24Elsewhere(t *testing.T) {
	rnd := rand.New(rand.NewSource(2))
	pick := func(xs ...string) string { return xs[rnd.Intn(len(xs))] }
	for i := 0; i < 4000; i++ {
		b := &rtBackend{keys: []string{"a"}}
		hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true}, b)
		if err != nil {
			t.Skip(err)
		}
		prefix := pick("", "/api", "adm/x")
		cfg := &config.Configuration{API: &config.API{Prefix: prefix, Debug: rnd.Intn(2) == 0}}
		srv, err := server.NewServer(cfg, b, hc, prometheus.NewRegistry())
		if err != nil {
			t.Skip(err)
		}
		a, err := New(*cfg.API, srv)
		if err != nil {
			t.Skip(err)
		}
		base := "/" + strings.Trim(cfg.API.GetPrefix(), "/")
		method := pick("PURGE", "GET", "PUT", "DELETE", "POST", "HEAD", "PATCH", "OPTIONS")
		path := pick(base, base, "", "/api", "/x") + pick("", "/", "/cache", "/cache/", "/cache/keys", "/cache/keys/a", "/cache/config", "/cache/config/update", "/cache/config/update/x", "/cache/invalidate", "/cache/invalidate/x", "/cache/invalidatex", "/cache/flush", "/cache/flush/", "/cache/flush/x", "/cache/x", "/flush", "/version", "/metrics")
		if path == "" {
			path = "/"
		}
		if method == "PURGE" && path == "/" || method == "PUT" && path == base+"/cache/config/update" || method == "DELETE" && (path == base+"/cache/invalidate" || path == base+"/cache/flush") {
			continue
		}
		r := httptest.NewRequest(method, "http://x"+path, strings.NewReader("{}"))
		r.Header.Set("X-Purge-Key", "k")
		before := hc.Config()
		w := httptest.NewRecorder()
		a.ServeHTTP(w, r)
		if len(b.ops) != 0 || hc.Config() != before {
			t.Fatalf("FAILING INPUT: prefix %q: %s %s (answered %d) causes backend operations %q, configuration changed: %v", prefix, method, path, w.Code, b.ops, hc.Config() != before)
		}
	}
}
