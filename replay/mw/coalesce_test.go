// overlay: pkg/server/middleware
package middleware

// Replay oracle for request coalescing: concurrent requests against a scripted origin.
// It runs only to exhibit a failing input once a proof has failed (and in the thorough tier).

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"
)

// coOrigin answers every exchange with its number and the request it got, once gate lets it.
type coOrigin struct {
	mu    sync.Mutex
	calls []string
	seen  chan struct{}
	gate  func(n int, r *http.Request) (*http.Response, error)
}

func coText(r *http.Request) string { return fmt.Sprintf("%s %s %v", r.Method, r.URL, r.Header) }

func (o *coOrigin) RoundTrip(r *http.Request) (*http.Response, error) {
	o.mu.Lock()
	n := len(o.calls)
	o.calls = append(o.calls, coText(r))
	o.mu.Unlock()
	o.seen <- struct{}{}
	if o.gate != nil {
		if resp, err := o.gate(n, r); resp != nil || err != nil {
			return resp, err
		}
	}
	b := fmt.Sprintf("%d %s", n, coText(r))
	return &http.Response{StatusCode: 203, Status: "203 x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"X-N": {fmt.Sprint(n)}}, ContentLength: int64(len(b)), Body: io.NopCloser(bytes.NewBufferString(b))}, nil
}

func (o *coOrigin) count() int { o.mu.Lock(); defer o.mu.Unlock(); return len(o.calls) }

type coRes struct {
	resp *http.Response
	body string
	err  error
	pan  any
}

func coReq(method, url string, h ...string) *http.Request {
	r, err := http.NewRequest(method, url, nil)
	if err != nil {
		panic(err)
	}
	for i := 0; i+1 < len(h); i += 2 {
		r.Header.Set(h[i], h[i+1])
	}
	return r
}

func coGo(rt http.RoundTripper, r *http.Request) chan coRes {
	ch := make(chan coRes, 1)
	go func() {
		var x coRes
		defer func() {
			x.pan = recover()
			ch <- x
		}()
		x.resp, x.err = rt.RoundTrip(r)
		if x.resp != nil && x.resp.Body != nil {
			b, err := io.ReadAll(x.resp.Body)
			x.body = string(b)
			if err != nil {
				x.err = err
			}
		}
	}()
	return ch
}

func coGet(t *testing.T, what string, ch chan coRes) coRes {
	select {
	case x := <-ch:
		return x
	case <-time.After(10 * time.Second):
		t.Fatalf("FAILING INPUT: %s: the request never returns", what)
	}
	return coRes{}
}

// coStarted waits for exchange number n to begin.
func (o *coOrigin) started(d time.Duration) bool {
	select {
	case <-o.seen:
		return true
	case <-time.After(d):
		return false
	}
}

func coNew() *coOrigin { return &coOrigin{seen: make(chan struct{}, 100000)} }

func TestVerifC22(t *testing.T) {
	t.Run("share", coShare)
	t.Run("different", coDifferent)
	t.Run("panic", coPanic)
	t.Run("schedules", coSchedules)
}

// coShare: waiters get the outcome of the exchange in flight.
func coShare(t *testing.T) {
	for _, kind := range []string{"response", "error", "eof", "empty", "status 200", "status 301", "status 404", "status 500", "status 502", "status 503", "chunked", "large"} {
		for waiters := 0; waiters < 4; waiters++ {
			for round := 0; round < 2; round++ {
				what := fmt.Sprintf("%d GETs of the same URL while one is in flight that ends with: %s (round %d)", waiters, kind, round)
				o := coNew()
				hold := make(chan struct{})
				fail := errors.New("origin failed")
				o.gate = func(n int, r *http.Request) (*http.Response, error) {
					if n > 0 {
						return nil, nil
					}
					<-hold
					switch kind {
					case "error":
						return nil, fail
					case "eof":
						return nil, io.EOF
					case "empty":
						return &http.Response{StatusCode: 204, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"X-N": {"0"}}, Body: http.NoBody}, nil
					}
					b, length := coText(r), int64(-1)
					code := 200
					if kind == "large" {
						b = strings.Repeat(b, 5000)
						length = int64(len(b))
					} else if kind != "chunked" {
						if _, err := fmt.Sscanf(kind, "status %d", &code); err != nil {
							return nil, nil
						}
						length = int64(len(b))
					}
					return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"X-N": {"0"}}, ContentLength: length, Body: io.NopCloser(strings.NewReader(b))}, nil
				}
				rt := NewCoalesced(o)
				url := "http://a/b/c?d=e"
				harmless := []string{"Accept", "text/event-stream", "Accept-Encoding", "gzip", "Accept-Language", "en", "User-Agent", "x/1", "X-Forwarded-For", "10.0.0.1", "Referer", "http://a/", "Connection", "close", "Cache-Status", "x", "X-Kache-Cluster", "x"}
				first := coGo(rt, coReq("GET", url))
				if !o.started(5 * time.Second) {
					t.Fatalf("FAILING INPUT: %s: the first request causes no exchange", what)
				}
				var chs []chan coRes
				for i := 0; i < waiters; i++ {
					j := 2 * ((i*7 + round*3 + len(kind)) % (len(harmless) / 2))
					chs = append(chs, coGo(rt, coReq("GET", url, harmless[j:][:2]...)))
				}
				other := coGet(t, what+", another URL meanwhile", coGo(rt, coReq("GET", url+"f")))
				if other.err != nil || other.body != "1 "+coText(coReq("GET", url+"f")) {
					t.Fatalf("FAILING INPUT: %s: another URL meanwhile: %q, %v", what, other.body, other.err)
				}
				time.Sleep(30 * time.Millisecond)
				if n := o.count(); n != 2 {
					t.Fatalf("FAILING INPUT: %s: %d exchanges for them", what, n-1)
				}
				close(hold)
				want := coGet(t, what+", the one in flight", first)
				for i, ch := range chs {
					x := coGet(t, fmt.Sprintf("%s, waiter %d", what, i), ch)
					if x.pan != nil || !errors.Is(x.err, want.err) || (want.err == nil) != (x.err == nil) || x.body != want.body {
						t.Fatalf("FAILING INPUT: %s: waiter %d gets %q, %v, %v instead of %q, %v", what, i, x.body, x.err, x.pan, want.body, want.err)
					}
					if want.err == nil && (x.resp == nil || x.resp.StatusCode != want.resp.StatusCode || x.resp.Header.Get("X-N") != "0") {
						t.Fatalf("FAILING INPUT: %s: waiter %d gets %+v", what, i, x.resp)
					}
				}
				switch kind {
				case "error":
					if want.err != fail {
						t.Fatalf("FAILING INPUT: %s: the first gets %v", what, want.err)
					}
				case "response":
					if want.err != nil || want.body != "0 "+coText(coReq("GET", url)) {
						t.Fatalf("FAILING INPUT: %s: the first gets %q, %v", what, want.body, want.err)
					}
				}
				next := coGet(t, what+", the next request", coGo(rt, coReq("GET", url)))
				if n := o.count(); n != 3 || next.err != nil || next.body != "2 "+coText(coReq("GET", url)) {
					t.Fatalf("FAILING INPUT: %s: the next request gets %q, %v after %d exchanges", what, next.body, next.err, n)
				}
			}
		}
	}
}

// coDifferent: requests that differ never share.
func coDifferent(t *testing.T) {
	urls := []string{"http://a/b?x=1", "http://a/b?x=2", "http://a/b", "http://c/b?x=1", "https://a/b?x=1", "http://a/B?x=1", "http://a/b/?x=1", "http://a/b%2F?x=1", "http://a/b?x=1&x=2", "http://a:81/b?x=1"}
	heads := []string{"Authorization", "Range", "If-None-Match", "If-Match", "If-Modified-Since", "If-Unmodified-Since", "If-Range", "Cookie", "Cache-Control", "Pragma", "Upgrade"}
	type pair struct {
		what string
		a, b *http.Request
	}
	var ps []pair
	for _, u := range urls[1:] {
		ps = append(ps, pair{"GET " + urls[0] + " while GET " + u, coReq("GET", u), coReq("GET", urls[0])})
	}
	for _, m := range []string{"HEAD", "POST", "PUT", "DELETE", "OPTIONS"} {
		ps = append(ps, pair{m + " while GET", coReq("GET", urls[0]), coReq(m, urls[0])})
		ps = append(ps, pair{"GET while " + m, coReq(m, urls[0]), coReq("GET", urls[0])})
		ps = append(ps, pair{m + " while " + m, coReq(m, urls[0]), coReq(m, urls[0])})
	}
	for _, h := range heads {
		ps = append(ps, pair{"GET with " + h + " while GET without", coReq("GET", urls[0]), coReq("GET", urls[0], h, "x=1")})
		ps = append(ps, pair{"GET without " + h + " while GET with it", coReq("GET", urls[0], h, "x=1"), coReq("GET", urls[0])})
		ps = append(ps, pair{"GET with " + h + " while GET with another one", coReq("GET", urls[0], h, "x=1"), coReq("GET", urls[0], h, "x=2")})
	}
	for _, h := range heads {
		ps = append(ps, pair{"GET with an empty " + h + " while GET without", coReq("GET", urls[0]), coReq("GET", urls[0], h, "")})
		ps = append(ps, pair{"GET without " + h + " while GET with an empty one", coReq("GET", urls[0], h, ""), coReq("GET", urls[0])})
	}
	for _, n := range []int64{-1, 0, 4} {
		for k := 0; k < 2; k++ {
			q := [2]*http.Request{coReq("GET", urls[0]), coReq("GET", urls[0])}
			q[k].Body, q[k].ContentLength = io.NopCloser(strings.NewReader("body")), n
			ps = append(ps, pair{fmt.Sprintf("GETs, number %d with a body of length %d", k+1, n), q[0], q[1]})
		}
	}
	ps = append(ps, pair{"GETs with other credentials in the URL", coReq("GET", "http://u:1@a/b"), coReq("GET", "http://u:2@a/b")})
	for _, p := range ps {
		o := coNew()
		hold := make(chan struct{})
		o.gate = func(n int, r *http.Request) (*http.Response, error) {
			if n == 0 {
				<-hold
			}
			return nil, nil
		}
		rt := NewCoalesced(o)
		first := coGo(rt, p.a)
		if !o.started(5 * time.Second) {
			t.Fatalf("FAILING INPUT: %s: no exchange", p.what)
		}
		second := coGo(rt, p.b)
		if !o.started(5 * time.Second) {
			t.Fatalf("FAILING INPUT: %s: no exchange of its own", p.what)
		}
		y := coGet(t, p.what, second)
		close(hold)
		x := coGet(t, p.what, first)
		if x.err != nil || y.err != nil || x.body != "0 "+coText(p.a) || y.body != "1 "+coText(p.b) {
			t.Fatalf("FAILING INPUT: %s: the answers are %q, %v and %q, %v", p.what, x.body, x.err, y.body, y.err)
		}
	}
}

// coPanic: a panic of the exchange releases everybody.
func coPanic(t *testing.T) {
	coPanicAlone(t)
	what := "GETs of the same URL while one is in flight that panics"
	o := coNew()
	hold := make(chan struct{})
	o.gate = func(n int, r *http.Request) (*http.Response, error) {
		if n == 0 {
			<-hold
			panic("boom")
		}
		return nil, nil
	}
	rt := NewCoalesced(o)
	first := coGo(rt, coReq("GET", "http://a/"))
	o.started(5 * time.Second)
	second := coGo(rt, coReq("GET", "http://a/"))
	time.Sleep(30 * time.Millisecond)
	close(hold)
	if x := coGet(t, what, first); x.pan == nil {
		t.Fatalf("FAILING INPUT: %s: the panic is swallowed: %+v", what, x)
	}
	if x := coGet(t, what+", a waiter", second); x.err == nil {
		t.Fatalf("FAILING INPUT: %s: a waiter gets %q, %v", what, x.body, x.err)
	}
	x := coGet(t, what+", the next request", coGo(rt, coReq("GET", "http://a/")))
	if x.err != nil || x.body != "1 "+coText(coReq("GET", "http://a/")) {
		t.Fatalf("FAILING INPUT: %s: the next request gets %q, %v", what, x.body, x.err)
	}
}

func coPanicAlone(t *testing.T) {
	what := "a GET that panics, with nobody waiting"
	o := coNew()
	o.gate = func(n int, r *http.Request) (*http.Response, error) {
		if n == 0 {
			panic("boom")
		}
		return nil, nil
	}
	rt := NewCoalesced(o)
	if x := coGet(t, what, coGo(rt, coReq("GET", "http://a/"))); x.pan == nil {
		t.Fatalf("FAILING INPUT: %s: the panic is swallowed: %+v", what, x)
	}
	x := coGet(t, what+", the next request", coGo(rt, coReq("GET", "http://a/")))
	if x.err != nil || x.body != "1 "+coText(coReq("GET", "http://a/")) {
		t.Fatalf("FAILING INPUT: %s: the next request gets %q, %v", what, x.body, x.err)
	}
}

// coSchedules: many requests around the end of exchanges.
func coSchedules(t *testing.T) {
	end := time.Now().Add(6 * time.Second)
	for round := 0; time.Now().Before(end); round++ {
		o := coNew()
		o.gate = func(n int, r *http.Request) (*http.Response, error) {
			if n%3 == 0 {
				time.Sleep(time.Duration(n%7) * 10 * time.Microsecond)
			}
			return nil, nil
		}
		rt := NewCoalesced(o)
		const G, N = 16, 200
		done := make(chan string, G)
		for g := 0; g < G; g++ {
			go func() {
				for i := 0; i < N; i++ {
					// every exchange begun before this request ended before it began
					r := coReq("GET", "http://a/"+fmt.Sprint(i%2))
					resp, err := rt.RoundTrip(r)
					if err != nil || resp == nil {
						done <- fmt.Sprintf("request %d of goroutine %d gets %v", i, g, err)
						return
					}
					b, err := io.ReadAll(resp.Body)
					var n int
					var m, u string
					fmt.Sscan(string(b), &n, &m, &u)
					if err != nil || m != "GET" || u != r.URL.String() || resp.Header.Get("X-N") != fmt.Sprint(n) {
						done <- fmt.Sprintf("request %d of goroutine %d for %s gets %q, %v", i, g, r.URL, b, err)
						return
					}
				}
				done <- ""
			}()
		}
		limit := time.After(15 * time.Second)
		for g := 0; g < G; g++ {
			select {
			case s := <-done:
				if s != "" {
					t.Fatalf("FAILING INPUT: %d goroutines requesting two URLs concurrently: %s", G, s)
				}
			case <-limit:
				t.Fatalf("FAILING INPUT: %d goroutines requesting two URLs concurrently: some request never returns (round %d)", G, round)
			}
		}
	}
}
