// overlay: pkg/server
package server

// Replay oracle for sharing exchanges through a complete server (C22).

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
)

func TestVerifC22Server(t *testing.T) {
	var hits atomic.Int64
	start, open := make(chan struct{}, 100), make(chan struct{})
	o := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		hits.Add(1)
		start <- struct{}{}
		<-open
		w.Write([]byte("shared"))
	}))
	defer o.Close()
	for n := 1; n < 4; n++ {
		for _, hc := range []*cache.HttpCacheConfig{nil, {Strict: true}, {}} {
			var ups config.Upstreams
			for i := 0; i < n; i++ {
				p := "/"
				if i < n-1 {
					p = fmt.Sprint("/other", i)
				}
				ups = append(ups, &config.Upstream{Name: fmt.Sprint(i), Addr: o.URL, Path: p})
			}
			p, _ := provider.NewSimpleCache(nil)
			c, err := cache.NewHttpCache(hc, p)
			if err != nil {
				t.Skip(err)
			}
			s, err := NewServer(&config.Configuration{Upstreams: ups, HttpCache: hc}, p, c, nil)
			if err != nil {
				t.Skip(err)
			}
			hits.Store(0)
			open = make(chan struct{})
			var wg sync.WaitGroup
			get := func() {
				defer wg.Done()
				w := httptest.NewRecorder()
				s.ServeHTTP(w, httptest.NewRequest("GET", "http://app.test/page", nil))
				if w.Code != 200 || w.Body.String() != "shared" {
					t.Errorf("FAILING INPUT: a GET while another is in flight answers %d %q", w.Code, w.Body)
				}
			}
			wg.Add(1)
			go get()
			<-start
			for i := 0; i < 5; i++ {
				wg.Add(1)
				go get()
			}
			time.Sleep(200 * time.Millisecond)
			close(open)
			wg.Wait()
			for len(start) > 0 {
				<-start
			}
			if h := hits.Load(); h != 1 {
				t.Fatalf("FAILING INPUT: 6 GETs of the same URL at once, server with %d upstreams, cache section %v: %d exchanges", n, hc, h)
			}
		}
	}
}
