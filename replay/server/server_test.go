// overlay: pkg/server
package server

// Replay oracle for routing (C19) and failure statuses (C20).

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/rs/zerolog"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

func svNew(t *testing.T, ups config.Upstreams) *Server {
	p, err := provider.NewSimpleCache(nil)
	if err != nil {
		t.Skip(err)
	}
	c, err := cache.NewHttpCache(nil, p)
	if err != nil {
		t.Skip(err)
	}
	s, err := NewServer(&config.Configuration{Upstreams: ups}, p, c, nil)
	if err != nil {
		t.Skip(err)
	}
	return s
}

type svTransport struct {
	reqs []*http.Request
	err  error
}

func (x *svTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	if e := r.Context().Err(); e != nil && x.err == nil {
		return nil, e
	}
	x.reqs = append(x.reqs, r)
	if x.err != nil {
		return nil, x.err
	}
	return &http.Response{StatusCode: 204, Header: http.Header{}, Body: http.NoBody, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

func svSlash(a, b string) string {
	return strings.TrimSuffix(a, "/") + "/" + strings.TrimPrefix(b, "/")
}

func TestVerifC19Listeners(t *testing.T) {
	for n := 0; n < 4; n++ {
		ls := config.Listeners{}
		for i := 0; i < n; i++ {
			ls[fmt.Sprint("ep", i)] = &config.Listener{Addr: "127.0.0.1:0"}
		}
		if n == 3 {
			ls["any"] = &config.Listener{}
		}
		var mu sync.Mutex
		got := 0
		r, err := NewListeners(ls, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { mu.Lock(); got++; mu.Unlock() }))
		if err != nil {
			t.Skip(err)
		}
		r.Start()
		for _, l := range r {
			resp, err := http.Get(fmt.Sprint("http://127.0.0.1:", l.listener.Addr().(*net.TCPAddr).Port))
			if err != nil {
				t.Fatalf("FAILING INPUT: %d listeners configured: %v", len(ls), err)
			}
			resp.Body.Close()
		}
		r.Stop()
		if got != len(ls) {
			t.Fatalf("FAILING INPUT: %d listeners configured, %d handle requests", len(ls), got)
		}
	}
}

func TestVerifC19(t *testing.T) {
	rnd := rand.New(rand.NewSource(19))
	pick := func(xs ...string) string { return xs[rnd.Intn(len(xs))] }
	for it := 0; it < 3000; it++ {
		var ups config.Upstreams
		desc := ""
		for i := rnd.Intn(5); i > 0; i-- {
			u := &config.Upstream{Name: fmt.Sprint("u", i), Addr: pick("http", "https") + "://" + pick("a.test", "b.test:8080", "10.0.0.1:81") + pick("", "", "/", "/base", "/base/", "/b%2Fc", "/x/y"),
				Path: pick("", "/", "/a", "/a/b", "/api", "/api/", "/ab", "nope")}
			ups = append(ups, u)
			desc += fmt.Sprintf(" [%s %q]", u.Addr, u.Path)
		}
		s := svNew(t, ups)
		tr := &svTransport{}
		s.proxy.Transport = tr
		path := pick("/", "/a", "/a/b/c", "/api", "/api/v1", "/abc", "/other", "/a%2Fb", "/a/b%2Fc", "/api/%20x", "//a", "/a//b", "/a/b/", "/a/./b")
		target := path + pick("", "", "?", "?q=1", "?b=2&a=1&a=3", "?x=%2F%20", "?a;b", "?u=http://h/p")
		if rnd.Intn(5) == 0 {
			target = "http://" + pick("evil.test", "a.test") + target
		}
		method := pick("GET", "GET", "HEAD", "POST", "DELETE")
		var body io.Reader
		if method == "POST" {
			body = strings.NewReader("data")
		}
		req := httptest.NewRequest(method, target, body)
		req.Header["X-Test"] = []string{"1", "2"}
		ua := rnd.Intn(3)
		if ua == 1 {
			req.Header.Set("User-Agent", "client/1")
		} else if ua == 2 {
			req.Header["User-Agent"] = []string{""}
		}
		if rnd.Intn(3) == 0 {
			req.Header.Set("Authorization", "x")
		}
		var want *url.URL
		for _, u := range ups {
			if u.Path == "" || u.Path[0] == '/' && strings.HasPrefix(req.URL.Path, u.Path) {
				want, _ = url.Parse(u.Addr)
				break
			}
		}
		in := fmt.Sprintf("%s %s, upstreams%s", method, target, desc)
		fail := func(format string, a ...any) { t.Fatalf("FAILING INPUT: "+in+": "+format, a...) }
		w := httptest.NewRecorder()
		s.proxy.ServeHTTP(w, req)
		if want == nil {
			if len(tr.reqs) != 0 || w.Code != 503 {
				fail("nothing matches, but upstream was contacted %d times and the answer is %d", len(tr.reqs), w.Code)
			}
			continue
		}
		if len(tr.reqs) != 1 || w.Code != 204 {
			fail("forwarded %d times, answer %d", len(tr.reqs), w.Code)
		}
		o := tr.reqs[0]
		if o.URL.Scheme != want.Scheme || o.URL.Host != want.Host || o.Host != want.Host {
			fail("sent to %s://%s with Host %q instead of %s://%s", o.URL.Scheme, o.URL.Host, o.Host, want.Scheme, want.Host)
		}
		if x := svSlash(want.Path, req.URL.Path); o.URL.Path != x {
			fail("path %q instead of %q", o.URL.Path, x)
		}
		if x := svSlash(want.EscapedPath(), req.URL.EscapedPath()); o.URL.EscapedPath() != x {
			fail("encoded path %q instead of %q", o.URL.EscapedPath(), x)
		}
		if o.URL.RawQuery != req.URL.RawQuery || o.Method != method {
			fail("%s with query %q instead of %q", o.Method, o.URL.RawQuery, req.URL.RawQuery)
		}
		u := o.Header["User-Agent"]
		if ua == 0 && (len(u) != 1 || u[0] != "kache") || ua == 1 && (len(u) != 1 || u[0] != "client/1") || ua == 2 && (len(u) != 1 || u[0] != "") {
			fail("User-Agent %q", u)
		}
		if x := o.Header["X-Test"]; len(x) != 2 || x[0] != "1" || x[1] != "2" || o.Header.Get("Authorization") != req.Header.Get("Authorization") {
			fail("headers %v", o.Header)
		}
	}
	// The complete chain.
	for _, target := range []string{"/x", "http://evil.invalid/x", "http://127.0.0.1:1/x"} {
		s := svNew(t, config.Upstreams{{Name: "a", Addr: "http://127.0.0.1:1", Path: "/a"}})
		for _, m := range []string{"GET", "HEAD", "POST", "PUT"} {
			w := httptest.NewRecorder()
			s.ServeHTTP(w, httptest.NewRequest(m, target, nil))
			if w.Code != 503 {
				t.Fatalf("FAILING INPUT: %s %s matches no upstream, but is answered %d", m, target, w.Code)
			}
		}
	}
	for _, bad := range []string{"http://a b/", "://x", "http://[::1"} {
		if ts, err := NewTargets(config.Upstreams{{Addr: "http://ok"}, {Addr: bad}}); err == nil {
			t.Fatalf("FAILING INPUT: upstream address %q accepted as %v", bad, ts[1].upstream)
		}
	}
}

type svNetErr struct{ timeout bool }

func (e *svNetErr) Error() string   { return "net" }
func (e *svNetErr) Timeout() bool   { return e.timeout }
func (e *svNetErr) Temporary() bool { return true }

type svHang struct{ done chan struct{} }

func (x *svHang) RoundTrip(r *http.Request) (*http.Response, error) {
	<-x.done
	return nil, errors.New("gone")
}

// TestVerifC20Slow: an exchange that takes too long ends with a status.
func TestVerifC20Slow(t *testing.T) {
	t.Parallel()
	s := svNew(t, config.Upstreams{&config.Upstream{Name: "u", Addr: "http://a.test", Path: "/"}})
	h := &svHang{done: make(chan struct{})}
	s.proxy.Transport = h
	ls, err := NewListeners(config.Listeners{"ep": &config.Listener{Addr: "127.0.0.1:0"}}, s)
	if err != nil {
		t.Skip(err)
	}
	ls.Start()
	url := fmt.Sprint("http://127.0.0.1:", ls["ep"].listener.Addr().(*net.TCPAddr).Port, "/x")
	var wg sync.WaitGroup
	for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"} {
		for _, body := range []string{"", "data"} {
			if m == "HEAD" && body != "" {
				continue
			}
			wg.Add(1)
			go func(m, body string) {
				defer wg.Done()
				req, _ := http.NewRequest(m, url, strings.NewReader(body))
				resp, err := (&http.Client{Timeout: 60 * time.Second}).Do(req)
				if err != nil {
					t.Errorf("FAILING INPUT: %s %q through a listener, the upstream never answers: no status but %v", m, body, err)
					return
				}
				resp.Body.Close()
				if resp.StatusCode != 503 {
					t.Errorf("FAILING INPUT: %s %q through a listener, the upstream never answers: status %d", m, body, resp.StatusCode)
				}
			}(m, body)
		}
	}
	wg.Wait()
	close(h.done)
}

func TestVerifC20(t *testing.T) {
	rnd := rand.New(rand.NewSource(20))
	base := []error{context.Canceled, io.EOF, io.ErrUnexpectedEOF, context.DeadlineExceeded, os.ErrDeadlineExceeded, errors.New("x"),
		&net.OpError{Op: "dial", Err: syscall.ECONNREFUSED}, &net.OpError{Op: "dial", Err: &svNetErr{true}}, &net.OpError{Op: "read", Err: syscall.ECONNRESET},
		&net.DNSError{IsTimeout: true}, &net.DNSError{}, &svNetErr{true}, &svNetErr{false}, &net.OpError{Op: "dial", Err: &net.DNSError{IsNotFound: true}},
		&net.OpError{Op: "dial", Err: context.Canceled}, http.ErrHandlerTimeout, ErrMatchingTarget, &net.OpError{Op: "read", Err: io.EOF}}
	var gen func(d int) error
	gen = func(d int) error {
		switch k := rnd.Intn(4); {
		case d > 2 || k < 2:
			return base[rnd.Intn(len(base))]
		case k == 2:
			return fmt.Errorf("wrapped: %w", gen(d+1))
		}
		if rnd.Intn(2) == 0 {
			return errors.Join(gen(d+1), gen(d+1))
		}
		return &url.Error{Op: "Get", URL: "http://x", Err: gen(d + 1)}
	}
	s := svNew(t, config.Upstreams{{Name: "a", Addr: "http://127.0.0.1:1", Path: "/a"}})
	tr := &svTransport{}
	s.proxy.Transport = tr
	for it := 0; it < 4000; it++ {
		err := gen(0)
		tr.err = err
		matched := rnd.Intn(4) > 0
		path := "/a"
		if !matched {
			path = "/none"
		}
		want := 500
		var op *net.OpError
		var ne net.Error
		switch {
		case !matched:
			want = 503
		case errors.Is(err, context.Canceled), errors.Is(err, io.EOF):
			want = 502
		case errors.As(err, &op):
			want = 503
		case errors.As(err, &ne) && ne.Timeout():
			want = 504
		}
		w := httptest.NewRecorder()
		s.proxy.ServeHTTP(w, httptest.NewRequest([]string{"GET", "HEAD", "POST"}[rnd.Intn(3)], path, nil))
		if w.Code != want {
			t.Fatalf("FAILING INPUT: matched %v, transport error %#v (%v): status %d instead of %d", matched, err, err, w.Code, want)
		}
	}
	// A slow exchange is answered, too.
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(1300 * time.Millisecond)
		w.WriteHeader(504)
	})
	l, err := NewListener(context.Background(), &config.Listener{Addr: "127.0.0.1:0"}, h)
	if err != nil {
		t.Skip(err)
	}
	go l.Start(context.Background())
	defer l.Shutdown(context.Background())
	r, err := http.Get("http://" + l.listener.Addr().String() + "/")
	if err != nil || r.StatusCode != 504 {
		t.Fatalf("FAILING INPUT: an exchange that fails after 1.3 s is answered with %v, %v instead of 504", r, err)
	}
}
