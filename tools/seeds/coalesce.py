C='pkg/server/middleware/coalesce.go'
PRE='''package middleware

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"testing"
	"time"
)

type demoFunc func(r *http.Request) (*http.Response, error)

func (f demoFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type demoResult struct {
	body string
	err  error
}

func demoGet(rt http.RoundTripper, url string) chan demoResult {
	c := make(chan demoResult, 1)
	r, _ := http.NewRequest("GET", url, nil)
	go func() {
		resp, err := rt.RoundTrip(r)
		if err != nil {
			c <- demoResult{"", err}
			return
		}
		b, err := io.ReadAll(resp.Body)
		c <- demoResult{string(b), err}
	}()
	time.Sleep(50 * time.Millisecond)
	return c
}

func demoWait(t *testing.T, c chan demoResult) demoResult {
	select {
	case x := <-c:
		return x
	case <-time.After(5 * time.Second):
		t.Fatal("a request never returns")
		return demoResult{}
	}
}

func demoResp(status int, n int64, body io.Reader) *http.Response {
	return &http.Response{StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: n, Body: io.NopCloser(body)}
}

type demoReader func(p []byte) (int, error)

func (f demoReader) Read(p []byte) (int, error) { return f(p) }

var _ = errors.New
var _ = bytes.NewReader
var _ = fmt.Sprint

'''
SEEDS=[
dict(id='C22-key-without-host', prop='C22', pkg='pkg/server/middleware',
 needs='concurrent GETs for the same path at two upstreams',
 breaks='requests for different hosts share an exchange',
 edits=[(C,'''	key := req.URL.String()
''','''	key := req.URL.RequestURI()
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	hold := make(chan bool)
	rt := NewCoalesced(demoFunc(func(r *http.Request) (*http.Response, error) {
		<-hold
		return demoResp(200, 1, bytes.NewBufferString(r.URL.Host)), nil
	}))
	a, b := demoGet(rt, "http://a/x"), demoGet(rt, "http://b/x")
	close(hold)
	demoWait(t, a)
	if x := demoWait(t, b); x.body != "b" {
		t.Fatalf("got %q", x.body)
	}
}
'''),
dict(id='C22-removed-last', prop='C22', pkg='pkg/server/middleware',
 needs='a request arriving while the shared response is copied for the requests waiting',
 breaks='a request that arrives while the result is handed out waits for ever',
 edits=[(C,'''	coalescer.Lock()
	delete(coalescer.inflights, key)
	coalescer.Unlock()

''',''''''),(C,'''		inflight.Broadcast()
	}
	inflight.L.Unlock()
''','''		inflight.Broadcast()
	}
	inflight.L.Unlock()

	coalescer.Lock()
	delete(coalescer.inflights, key)
	coalescer.Unlock()
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	hold, copying, more := make(chan bool), make(chan bool, 1), make(chan bool)
	n := 0
	rt := NewCoalesced(demoFunc(func(r *http.Request) (*http.Response, error) {
		n++
		if n > 1 {
			return demoResp(200, 1, bytes.NewBufferString("y")), nil
		}
		<-hold
		return demoResp(200, 0, demoReader(func(p []byte) (int, error) {
			copying <- true
			<-more
			return 0, io.EOF
		})), nil
	}))
	a, b := demoGet(rt, "http://a/x"), demoGet(rt, "http://a/x")
	close(hold)
	<-copying
	c := demoGet(rt, "http://a/x")
	close(more)
	demoWait(t, a)
	demoWait(t, b)
	demoWait(t, c)
}
'''),
dict(id='C22-error-replaced', prop='C22', pkg='pkg/server/middleware',
 needs='an exchange that fails while another request waits for it',
 breaks='the requests waiting get an unexpected EOF instead of the error of the exchange',
 edits=[(C,'''			inflight.resp, inflight.err = nil, err
''','''			inflight.resp = nil
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	hold := make(chan bool)
	fail := errors.New("refused")
	rt := NewCoalesced(demoFunc(func(r *http.Request) (*http.Response, error) {
		<-hold
		return nil, fail
	}))
	a, b := demoGet(rt, "http://a/x"), demoGet(rt, "http://a/x")
	close(hold)
	demoWait(t, a)
	if x := demoWait(t, b); !errors.Is(x.err, fail) {
		t.Fatalf("got %v", x.err)
	}
}
'''),
dict(id='C22-late-lock', prop='C22', pkg='pkg/server/middleware',
 needs='the exchange in flight ending between the moment a request finds it in the table and the moment it starts waiting',
 breaks='a request that finds an exchange just about to end waits for ever',
 edits=[(C,'''		inflight.L.Lock()

		// Unlock the coalescer to allow other requests to use it.
''','''		// Unlock the coalescer to allow other requests to use it.
'''),(C,'''		coalescer.Unlock()

		// Mark that there is at least one call awaiting a shared response.
''','''		coalescer.Unlock()
		inflight.L.Lock()

		// Mark that there is at least one call awaiting a shared response.
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	rt := NewCoalesced(demoFunc(func(r *http.Request) (*http.Response, error) {
		return demoResp(200, 1, bytes.NewBufferString("x")), nil
	}))
	done := make(chan bool)
	const G = 64
	for g := 0; g < G; g++ {
		go func() {
			r, _ := http.NewRequest("GET", "http://a/x", nil)
			for end := time.Now().Add(15 * time.Second); time.Now().Before(end); {
				rt.RoundTrip(r)
			}
			done <- true
		}()
	}
	limit := time.After(40 * time.Second)
	for g := 0; g < G; g++ {
		select {
		case <-done:
		case <-limit:
			t.Fatal("a request never returns")
		}
	}
}
'''),
dict(id='C22-unknown-length', prop='C22', pkg='pkg/server/middleware',
 needs='a chunked response of unknown length shared by several requests',
 breaks='the requests waiting get an empty body if the length of the response is not known',
 edits=[(C,'''httputil.DumpResponse(resp, true)''','''httputil.DumpResponse(resp, resp.ContentLength >= 0)''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	hold := make(chan bool)
	rt := NewCoalesced(demoFunc(func(r *http.Request) (*http.Response, error) {
		<-hold
		return demoResp(200, -1, bytes.NewBufferString("body")), nil
	}))
	a, b := demoGet(rt, "http://a/x"), demoGet(rt, "http://a/x")
	close(hold)
	demoWait(t, a)
	if x := demoWait(t, b); x.body != "body" {
		t.Fatalf("got %q, %v", x.body, x.err)
	}
}
'''),
dict(id='C22-bad-gateway-hangs', prop='C22', pkg='pkg/server/middleware',
 needs='an exchange answered with a server error while another request waits for it',
 breaks='requests waiting for an exchange that is answered with a server error are never released',
 edits=[(C,'''	if inflight.coalesced {
''','''	if inflight.coalesced && (err != nil || resp.StatusCode < http.StatusInternalServerError) {
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	hold := make(chan bool)
	rt := NewCoalesced(demoFunc(func(r *http.Request) (*http.Response, error) {
		<-hold
		return demoResp(502, 1, bytes.NewBufferString("x")), nil
	}))
	a, b := demoGet(rt, "http://a/x"), demoGet(rt, "http://a/x")
	close(hold)
	demoWait(t, a)
	demoWait(t, b)
}
'''),
]
