// overlay: pkg/kache
package kache

// Replay oracle for reloading a running Kache (C21): changes of the file, SIGHUP, and requests.

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/config"
	"github.com/prometheus/client_golang/prometheus"
)

type rvRun struct {
	k    *Kache
	name string
	n    int
}

// rvStart runs a Kache on a file of its own.
func rvStart(t *testing.T, watch bool, interval time.Duration) *rvRun {
	ln, err := net.Listen("tcp", ":0")
	if err != nil {
		t.Skip(err)
	}
	port := ln.Addr().(*net.TCPAddr).Port
	ln.Close()
	r := &rvRun{name: filepath.Join(t.TempDir(), "kache.yml")}
	head = fmt.Sprintf("listeners:\n  ep:\n    addr: \"127.0.0.1:0\"\nupstreams:\n  - name: a\n    addr: \"http://127.0.0.1:1\"\n    path: \"/\"\napi:\n  port: %d\nprovider:\n  backend: inmemory\n", port)
	r.write(t, true)
	l, err := config.NewLoader(r.name, watch, interval)
	if err != nil {
		t.Skip(err)
	}
	k, err := New(l, prometheus.NewRegistry())
	if err != nil {
		t.Skip(err)
	}
	r.k = k
	go func() { _ = k.Run() }()
	time.Sleep(300 * time.Millisecond)
	return r
}

var head string

func (r *rvRun) write(t *testing.T, ok bool) {
	r.n++
	s := fmt.Sprintf("%scache:\n  default_ttl: %ds\n", head, r.n)
	if !ok {
		s += "nonsense: 1\n"
	}
	if err := os.WriteFile(r.name+".new", []byte(s), 0o600); err != nil {
		t.Skip(err)
	}
	if err := os.Rename(r.name+".new", r.name); err != nil {
		t.Skip(err)
	}
}

func (r *rvRun) expect(t *testing.T, n int, format string, a ...any) {
	want := fmt.Sprint(n, "s")
	end := time.Now().Add(3 * time.Second)
	for r.k.Cache.Config().DefaultTTL != want && time.Now().Before(end) {
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	if got := r.k.Cache.Config().DefaultTTL; got != want {
		t.Fatalf("FAILING INPUT: running, %s: the file says default_ttl %s, in force is %q", fmt.Sprintf(format, a...), want, got)
	}
}

func TestVerifC21Run(t *testing.T) {
	sigs := make(chan os.Signal, 100) // SIGHUP does not end the test
	signal.Notify(sigs, syscall.SIGHUP)

	// Changes of the file.
	r := rvStart(t, true, 5*time.Millisecond)
	for i := 0; i < 4; i++ {
		r.write(t, true)
		r.expect(t, r.n, "watched change %d of the file", i)
		r.write(t, false)
		r.expect(t, r.n-1, "watched change to a broken file")
	}

	// SIGHUP, watching seldom or not at all.
	for _, watch := range []bool{false, true} {
		r := rvStart(t, watch, time.Hour)
		for i := 0; i < 4; i++ {
			r.write(t, true)
			_ = syscall.Kill(os.Getpid(), syscall.SIGHUP)
			r.expect(t, r.n, "SIGHUP after valid and broken files in turn, round %d, watching %v", i, watch)
			r.write(t, false)
			_ = syscall.Kill(os.Getpid(), syscall.SIGHUP)
			r.expect(t, r.n-1, "SIGHUP with a broken file, watching %v", watch)
			time.Sleep(20 * time.Millisecond)
		}
		// Requests.
		post := func() int {
			w := httptest.NewRecorder()
			r.k.API.ServeHTTP(w, httptest.NewRequest(http.MethodPost, "/api/cache/config/reload", nil))
			return w.Code
		}
		for i := 0; i < 3; i++ {
			r.write(t, true)
			if c := post(); c != http.StatusOK {
				t.Fatalf("FAILING INPUT: POST /api/cache/config/reload with a valid file answers %d", c)
			}
			if got := r.k.Cache.Config().DefaultTTL; got != fmt.Sprint(r.n, "s") {
				t.Fatalf("FAILING INPUT: POST /api/cache/config/reload answers 200 with %q in force, the file says %ds", got, r.n)
			}
			r.write(t, false)
			if c := post(); c < 400 {
				t.Fatalf("FAILING INPUT: POST /api/cache/config/reload with a broken file answers %d", c)
			}
			r.expect(t, r.n-1, "reload of a broken file asked for")
		}
	}
}
