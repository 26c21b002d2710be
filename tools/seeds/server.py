S='pkg/server/server.go'
T='pkg/server/server_target.go'
PRE='''package server

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
)

var _, _, _, _ = errors.New, fmt.Sprint, io.EOF, net.Dial
var _ = context.Background

type demoRT struct {
	req *http.Request
	err error
}

func (d *demoRT) RoundTrip(r *http.Request) (*http.Response, error) {
	d.req = r
	if d.err != nil {
		return nil, d.err
	}
	return &http.Response{StatusCode: 204, Header: http.Header{}, Body: http.NoBody, Request: r}, nil
}

func demo(err error, method, target string, hdr http.Header, ups ...*config.Upstream) (*http.Request, int) {
	p, _ := provider.NewSimpleCache(nil)
	c, _ := cache.NewHttpCache(nil, p)
	s, e := NewServer(&config.Configuration{Upstreams: ups}, p, c, nil)
	if e != nil {
		panic(e)
	}
	rt := &demoRT{err: err}
	s.proxy.Transport = rt
	r := httptest.NewRequest(method, target, nil)
	for k, v := range hdr {
		r.Header[k] = v
	}
	w := httptest.NewRecorder()
	s.proxy.ServeHTTP(w, r)
	return rt.req, w.Code
}
'''
SEEDS=[
dict(id='C19-longest-prefix', prop='C19', pkg='pkg/server',
 needs='an upstream with a general path prefix configured before one with a more specific prefix',
 breaks='the most specific instead of the first matching upstream is chosen',
 edits=[(T,'''	for _, t := range tgs {
		m := &mux.RouteMatch{}
		if t.router.Match(req, m) { // find first
			return t, true
		}
	}
	return nil, false
''','''	var best *Target
	for _, t := range tgs {
		m := &mux.RouteMatch{}
		if t.router.Match(req, m) && (best == nil || len(t.prefix) > len(best.prefix)) {
			best = t
		}
	}
	return best, best != nil
'''),(T,'''	router   *mux.Router
}''','''	router   *mux.Router
	prefix   string
}'''),(T,'''		router:   r,
''','''		router:   r,
		prefix:   cfg.Path,
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	r, _ := demo(nil, "GET", "/api/v1", nil, &config.Upstream{Addr: "http://one", Path: "/"}, &config.Upstream{Addr: "http://two", Path: "/api"})
	if r.URL.Host != "one" {
		t.Fatal(r.URL)
	}
}
'''),
dict(id='C19-path-cleaned', prop='C19', pkg='pkg/server',
 needs='a request path with a trailing slash or a doubled slash behind an upstream with a base path',
 breaks='the path is cleaned when it is joined, so another resource is requested',
 edits=[(S,'''	case aslash && bslash:
		return a + b[1:]
''','''	case aslash && bslash:
		return a + strings.TrimLeft(b, "/")
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	r, _ := demo(nil, "GET", "//x/y", nil, &config.Upstream{Addr: "http://one/base/", Path: ""})
	if r.URL.Path != "/base//x/y" {
		t.Fatal(r.URL)
	}
}
'''),
dict(id='C19-empty-agent', prop='C19', pkg='pkg/server',
 needs='a client that sends an empty User-Agent header to stay anonymous',
 breaks='the User-Agent the client sent is replaced',
 edits=[(S,'''		if _, ok := req.Header["User-Agent"]; !ok {
''','''		if req.Header.Get("User-Agent") == "" {
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	r, _ := demo(nil, "GET", "/x", http.Header{"User-Agent": {""}}, &config.Upstream{Addr: "http://one", Path: ""})
	if r.Header.Get("User-Agent") != "" {
		t.Fatal(r.Header)
	}
}
'''),
dict(id='C19-query-normalised', prop='C19', pkg='pkg/server',
 needs='a query whose parameters are not sorted or use semicolons',
 breaks='the query sent upstream differs from the one of the client',
 edits=[(S,'''		// Pass host header
''','''		if req.URL.RawQuery != "" {
			req.URL.RawQuery = req.URL.Query().Encode()
		}

		// Pass host header
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	r, _ := demo(nil, "GET", "/x?b=1&a=2", nil, &config.Upstream{Addr: "http://one", Path: ""})
	if r.URL.RawQuery != "b=1&a=2" {
		t.Fatal(r.URL)
	}
}
'''),
dict(id='C20-eof-unwrapped', prop='C20', pkg='pkg/server',
 needs='the upstream closes the connection and the transport reports the end of the stream wrapped in another error',
 breaks='an upstream that closed the connection is answered with 500',
 edits=[(S,'''	case errors.Is(err, io.EOF):
''','''	case err == io.EOF:
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	if _, c := demo(fmt.Errorf("transport: %w", io.EOF), "GET", "/x", nil, &config.Upstream{Addr: "http://one", Path: ""}); c != 502 {
		t.Fatal(c)
	}
}
'''),
dict(id='C20-dial-timeout', prop='C20', pkg='pkg/server',
 needs='a connection attempt that times out (as opposed to being refused)',
 breaks='a connection that could not be made is answered 504 instead of 503',
 edits=[(S,'''		var netErr net.Error
		if errors.As(err, &netErr) && netErr.Timeout() {
			status = http.StatusGatewayTimeout
		}
		var opErr *net.OpError
		if errors.As(err, &opErr) {
			// unknown host or connection refused
			status = http.StatusServiceUnavailable
		}
''','''		var opErr *net.OpError
		if errors.As(err, &opErr) {
			// unknown host or connection refused
			status = http.StatusServiceUnavailable
		}
		var netErr net.Error
		if errors.As(err, &netErr) && netErr.Timeout() {
			status = http.StatusGatewayTimeout
		}
''')],
 demo=PRE+'''
type demoTimeout struct{}

func (demoTimeout) Error() string   { return "timeout" }
func (demoTimeout) Timeout() bool   { return true }
func (demoTimeout) Temporary() bool { return true }

func TestDemo(t *testing.T) {
	if _, c := demo(&net.OpError{Op: "dial", Err: demoTimeout{}}, "GET", "/x", nil, &config.Upstream{Addr: "http://one", Path: ""}); c != 503 {
		t.Fatal(c)
	}
}
'''),
dict(id='C20-head-silent', prop='C20', pkg='pkg/server',
 needs='a failing exchange for a HEAD request',
 breaks='the failure of a HEAD request is answered 200',
 edits=[(S,'''	w.WriteHeader(status)
	if _, wErr''','''	if req.Method == http.MethodHead {
		return // no body to explain the failure
	}
	w.WriteHeader(status)
	if _, wErr''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	if _, c := demo(io.EOF, "HEAD", "/x", nil, &config.Upstream{Addr: "http://one", Path: ""}); c != 502 {
		t.Fatal(c)
	}
}
'''),
]
