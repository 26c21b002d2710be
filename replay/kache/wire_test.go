// overlay: pkg/kache
package kache

// Replay oracle for what an application made of one configuration has in common (C21, C24):
// the cache reconfigured and managed is the one requests are answered from.

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/config"
	"github.com/prometheus/client_golang/prometheus"
)

type wrApp struct {
	k    *Kache
	name string
	base string
	hits atomic.Int64
}

func wrStart(t *testing.T, prefix string) *wrApp {
	r := &wrApp{name: filepath.Join(t.TempDir(), "kache.yml")}
	o := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		r.hits.Add(1)
		if strings.HasPrefix(req.URL.Path, "/keep") {
			w.Header().Set("Cache-Control", "max-age=1000")
		}
		w.Write([]byte(req.URL.Path))
	}))
	t.Cleanup(o.Close)
	r.base = fmt.Sprintf("listeners:\n  ep:\n    addr: \"127.0.0.1:0\"\nupstreams:\n  - name: a\n    addr: %q\n    path: \"/\"\napi:\n  port: 0\n  prefix: %q\nprovider:\n  backend: inmemory\n", o.URL, prefix)
	r.write(t, "max-age=1")
	l, err := config.NewLoader(r.name, false, time.Hour)
	if err != nil {
		t.Skip(err)
	}
	k, err := New(l, prometheus.NewRegistry())
	if err != nil {
		t.Skip(err)
	}
	r.k = k
	return r
}

func (r *wrApp) write(t *testing.T, cc string) {
	if err := os.WriteFile(r.name, []byte(fmt.Sprintf("%scache:\n  default_cache_control: %s\n", r.base, cc)), 0o600); err != nil {
		t.Skip(err)
	}
}

func (r *wrApp) get(p string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	r.k.Server.ServeHTTP(w, httptest.NewRequest("GET", "http://app.test"+p, nil))
	return w
}

func (r *wrApp) manage(method, p, body string, hs ...string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	q := httptest.NewRequest(method, p, strings.NewReader(body))
	for i := 0; i+1 < len(hs); i += 2 {
		q.Header.Set(hs[i], hs[i+1])
	}
	r.k.API.ServeHTTP(w, q)
	return w
}

func TestVerifC21Wired(t *testing.T) {
	r := wrStart(t, "/api")
	for i := 1; i < 5; i++ {
		want := fmt.Sprint("max-age=", i)
		if i > 1 {
			r.write(t, want)
			if err := r.k.reloadConfig(context.Background()); err != nil {
				t.Fatalf("FAILING INPUT: reload of a valid file: %v", err)
			}
		}
		if got := r.get(fmt.Sprint("/x", i)).Header().Get("Cache-Control"); got != want {
			t.Fatalf("FAILING INPUT: GET /x%d through the server with default_cache_control %q loaded (load %d) has Cache-Control %q", i, want, i, got)
		}
	}
}

func TestVerifC24Wired(t *testing.T) {
	for _, prefix := range []string{"/api", "/api/v1"} {
		r := wrStart(t, prefix)
		expect := func(p string, hits int64, what string) {
			h := r.hits.Load()
			w := r.get(p)
			if got := r.hits.Load() - h; got != hits || w.Body.String() != p {
				t.Fatalf("FAILING INPUT: prefix %s, GET %s %s: %d exchanges with the origin instead of %d, answer %d %q", prefix, p, what, got, hits, w.Code, w.Body)
			}
		}
		ok := func(method, p, body string, hs ...string) string {
			w := r.manage(method, p, body, hs...)
			if w.Code != 200 {
				t.Fatalf("FAILING INPUT: prefix %s, %s %s %v answers %d", prefix, method, p, hs, w.Code)
			}
			return w.Body.String()
		}
		for i := 0; i < 2; i++ {
			expect("/keep/a", 1, "not cached")
			expect("/keep/b", 1, "not cached")
			expect("/keep/a", 0, "cached")
			expect("/keep/b", 0, "cached")
			if s := ok("GET", prefix+"/cache/keys", ""); !strings.Contains(s, "/keep/a") || !strings.Contains(s, "/keep/b") {
				t.Fatalf("FAILING INPUT: prefix %s: keys /keep/a and /keep/b are cached, listed is %s", prefix, s)
			}
			expect("/keep/a", 0, "after a listing")
			ok("PURGE", "/", "", "X-Purge-Key", "*keep/a")
			expect("/keep/a", 1, "after a purge")
			expect("/keep/b", 0, "after a purge of another")
			ok("DELETE", prefix+"/cache/invalidate", "", "X-Purge-Key", "*keep/b")
			expect("/keep/b", 1, "after an invalidation")
			expect("/keep/a", 0, "after an invalidation of another")
			ok("DELETE", prefix+"/cache/flush", "")
			want := fmt.Sprint("max-age=", 100+i)
			ok("PUT", prefix+"/cache/config/update", `{"strict":true,"default_cache_control":"`+want+`"}`)
			if got := r.get(fmt.Sprint("/x", i)).Header().Get("Cache-Control"); got != want {
				t.Fatalf("FAILING INPUT: prefix %s: default_cache_control updated to %q, the server answers with %q", prefix, want, got)
			}
			if s := ok("GET", prefix+"/cache/config", ""); !strings.Contains(s, want) {
				t.Fatalf("FAILING INPUT: prefix %s: default_cache_control updated to %q, the configuration listed is %s", prefix, want, s)
			}
			ok("DELETE", prefix+"/cache/flush", "")
		}
	}
}
