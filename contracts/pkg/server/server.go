package server

import (
	"context"
	"errors"
	"io"
	"kv"
	"kvm"
	"net"
	"net/http"
	"net/http/httputil"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/prometheus/client_golang/prometheus"
)

// svStatus: the documented status of a failure.
func svStatus(req *http.Request, err error) int {
	cause := context.Cause(req.Context())
	var op *net.OpError
	var ne net.Error
	isOp, isNet := errors.As(err, &op), errors.As(err, &ne)
	want := http.StatusInternalServerError
	switch {
	case kvm.ErrIs(cause, ErrMatchingTarget):
		want = http.StatusServiceUnavailable
	case kvm.ErrIs(err, context.Canceled) || kvm.ErrIs(err, io.EOF):
		want = http.StatusBadGateway
	case isOp:
		want = http.StatusServiceUnavailable
	case isNet && kvm.ErrTimeout(ne):
		want = http.StatusGatewayTimeout
	}
	return want
}

//kv:contract server.errorHandler C20 verify-only
func ctErrorHandler(w http.ResponseWriter, req *http.Request, err error) {
	kv.Requires(w != nil && req != nil && err != nil && ErrMatchingTarget != nil)
	kv.Requires(!kvm.Resp(w).Wrote && kvm.Resp(w).Calls == 0)
	want := svStatus(req, err)
	errorHandler(w, req, err)
	svJudgeStatus(w, want)
}

func svJudgeStatus(w http.ResponseWriter, want int) {
	g := *kvm.Resp(w)
	kv.Ensures("C20:the client gets exactly one status", g.Wrote && g.Calls == 1)
	kv.Ensures("C20:the status is the documented one of the failure", g.Status == want)
}

// svWell: targets as built from the configuration.
func svWell(ts Targets) bool {
	return kv.ForallN(len(ts), func(i int) bool { return ts[i] != nil && ts[i].router != nil && ts[i].upstream != nil })
}

// svFirst: target i is the first to match.
func svFirst(ts Targets, i int, req *http.Request) bool {
	return kvm.RouterMatches(ts[i].router, req) && kv.ForallN(i, func(j int) bool { return !kvm.RouterMatches(ts[j].router, req) })
}

//kv:contract (server.Targets).MatchTarget C19
func ctMatchTarget(tgs Targets, req *http.Request) (*Target, bool) {
	kv.Requires(svWell(tgs) && req != nil && req.URL != nil)
	t, ok := tgs.MatchTarget(req)
	kv.Ensures("C19:a request matches if any target does", ok == kv.ExistsN(len(tgs), func(i int) bool { return kvm.RouterMatches(tgs[i].router, req) }))
	if ok {
		kv.Cover("matched")
		kv.Ensures("C19:the first matching target is chosen", kv.ExistsN(len(tgs), func(i int) bool { return svFirst(tgs, i, req) && kv.Same(t, tgs[i]) }))
	}
	return t, ok
}

//kv:loopinv (server.Targets).MatchTarget
func liMatchTarget(tgs Targets, req *http.Request, k int) bool {
	return k <= len(tgs) && kv.ForallN(k, func(j int) bool { return !kvm.RouterMatches(tgs[j].router, req) })
}

// svJoin: a and b joined with exactly one slash.
func svJoin(a, b string) string { return strings.TrimSuffix(a, "/") + "/" + strings.TrimPrefix(b, "/") }

//kv:contract server.singleJoiningSlash C19
func ctJoin(a, b string) string {
	return kv.Is("C19:paths are joined with exactly one slash", singleJoiningSlash(a, b), svJoin(a, b))
}

//kv:contract (*server.Server).Director C19 C20 verify-only
func ctDirector(s *Server) func(*http.Request) {
	kv.Requires(s != nil && svWell(s.targets) && ErrMatchingTarget != nil)
	d := s.Director()
	req := kv.Any[*http.Request]()
	kv.Assume(req != nil && req.URL != nil && req.Header != nil)
	kv.Assume(kv.ForallN(len(s.targets), func(i int) bool { return !kv.Same(s.targets[i].upstream, req.URL) }))
	svJudge(s.targets, d, req)
	return d
}

// svJudge: what d makes of req.
func svJudge(ts Targets, d func(*http.Request), req *http.Request) {
	in, u, hdr := *req, *req.URL, kv.Snap(req.Header)
	gone := context.Cause(req.Context())
	esc := kvm.Escaped(req.URL)
	any := kv.ExistsN(len(ts), func(i int) bool { return kvm.RouterMatches(ts[i].router, req) })
	j := kv.Any[int]()
	kv.Assume(kv.Implies(any, 0 <= j && j < len(ts) && svFirst(ts, j, req)))
	d(req)
	if !any {
		kv.Cover("unmatched")
		kv.Ensures("C19:an unmatched request is cancelled, so no upstream is contacted", context.Cause(req.Context()) != nil)
		if gone == nil {
			kv.Ensures("C19:an unmatched request is marked as such", kvm.ErrIs(context.Cause(req.Context()), ErrMatchingTarget))
		}
		return
	}
	kv.Cover("matched")
	up := *ts[j].upstream
	kv.Ensures("C19:scheme and host are the upstream's", req.URL.Scheme == up.Scheme && req.URL.Host == up.Host && req.Host == up.Host)
	kv.Ensures("C19:the path is joined to the upstream's base path", req.URL.Path == svJoin(up.Path, u.Path))
	if u.RawPath != "" || up.RawPath != "" {
		kv.Cover("encoded")
		kv.Ensures("C19:the encoding of the path is kept", req.URL.RawPath == svJoin(kvm.Escaped(&up), esc))
	}
	kv.Ensures("C19:the query is unchanged", req.URL.RawQuery == u.RawQuery && req.URL.ForceQuery == u.ForceQuery)
	kv.Ensures("C19:method, body and lifetime are unchanged", req.Method == in.Method && kv.Eq(req.Body, in.Body) && req.ContentLength == in.ContentLength && kv.Eq(context.Cause(req.Context()), gone))
	_, ok := hdr["User-Agent"]
	ua := req.Header["User-Agent"]
	kv.Ensures("C19:a User-Agent is added only if there is none", ok || len(ua) == 1 && ua[0] == "kache")
	kv.Ensures("C19:the other headers are unchanged", kv.Forall(func(k string) bool {
		x, okx := hdr[k]
		y, oky := req.Header[k]
		return k == "User-Agent" && !ok || okx == oky && (!okx || kv.Same(x, y))
	}))
}

// svBuilt: target t is what the upstream c asks for.
func svBuilt(t *Target, c *config.Upstream) bool {
	if t == nil || t.upstream == nil || t.router == nil {
		return false
	}
	g := *kvm.RouterOf(t.router)
	u := kvm.UrlParsed(c.Addr)
	if !(g.Routes == 1 && g.Route != nil) {
		return false
	}
	r := *kvm.RouteOf(g.Route)
	return t.upstream.Scheme == u.Scheme && t.upstream.Host == u.Host && t.upstream.Path == u.Path && t.upstream.RawPath == u.RawPath &&
		r.IsPrefix && !r.Other && r.Prefix == c.Path
}

//kv:contract server.NewTarget C19
func ctNewTarget(cfg *config.Upstream) (*Target, error) {
	kv.Requires(cfg != nil)
	t, err := NewTarget(cfg)
	kv.Ensures("C19:an upstream is rejected exactly if its address is malformed", (err != nil) == !kvm.UrlOk(cfg.Addr))
	if err == nil {
		kv.Cover("built")
		t = kv.New("C19:a target is fresh", t)
		t.upstream = kv.New("C19:an upstream address is fresh", t.upstream)
		t.router = kv.New("C19:a router is fresh", t.router)
		kv.Ensures("C19:a target has the address and path prefix configured", svBuilt(t, cfg))
	}
	return t, err
}

//kv:contract server.NewTargets C19
func ctNewTargets(cfg config.Upstreams) (Targets, error) {
	kv.Requires(kv.ForallN(len(cfg), func(i int) bool { return cfg[i] != nil }))
	ts, err := NewTargets(cfg)
	if err != nil {
		kv.Cover("refused")
		return ts, err
	}
	kv.Cover("built")
	kv.Ensures("C19:there is one target per upstream, in the order configured", len(ts) == len(cfg) && kv.ForallN(len(ts), func(i int) bool { return svBuilt(ts[i], cfg[i]) }))
	return ts, err
}

//kv:loopinv server.NewTargets
func liNewTargets(targets Targets, upstreamsConfig config.Upstreams, k int) bool {
	return len(targets) == len(upstreamsConfig) && k <= len(targets) && kv.ForallN(k, func(i int) bool { return svBuilt(targets[i], upstreamsConfig[i]) })
}

//kv:contract server.NewServer C19 C20 verify-only
func ctNewServer(cfg *config.Configuration, pdr provider.Provider, hc *cache.HttpCache, reg prometheus.Registerer) (*Server, error) {
	kv.Requires(cfg != nil && hc != nil && ErrMatchingTarget != nil)
	kv.Requires(kv.ForallN(len(cfg.Upstreams), func(i int) bool { return cfg.Upstreams[i] != nil }))
	kv.Requires(kv.Forall(func(n string) bool { l, ok := cfg.Listeners[n]; return !ok || l != nil }))
	s, err := NewServer(cfg, pdr, hc, reg)
	if err != nil {
		kv.Cover("refused")
		return s, err
	}
	kv.Cover("created")
	kv.Ensures("C19:the server serves the configured upstreams", s != nil && len(s.targets) == len(cfg.Upstreams) && kv.ForallN(len(s.targets), func(i int) bool { return svBuilt(s.targets[i], cfg.Upstreams[i]) }))
	p := s.proxy
	kv.Ensures("C19:every exchange passes the director", p != nil && p.Director != nil && p.Rewrite == nil && p.ModifyResponse == nil)
	kv.Ensures("C20:every failure passes the error handler", p.ErrorHandler != nil)
	req := kv.Any[*http.Request]()
	kv.Assume(req != nil && req.URL != nil && req.Header != nil)
	kv.Assume(kv.ForallN(len(s.targets), func(i int) bool { return !kv.Same(s.targets[i].upstream, req.URL) }))
	if kv.Any[bool]() {
		w, e := kv.Any[http.ResponseWriter](), kv.Any[error]()
		kv.Assume(w != nil && e != nil && !kvm.Resp(w).Wrote && kvm.Resp(w).Calls == 0)
		want := svStatus(req, e)
		p.ErrorHandler(w, req, e)
		svJudgeStatus(w, want)
		return s, err
	}
	svJudge(s.targets, p.Director, req)
	return s, err
}

//kv:verify server.NewServer C19 C21 C22 C24
func vfNewServer(cfg *config.Configuration, pdr provider.Provider, hc *cache.HttpCache, reg prometheus.Registerer) (*Server, error) {
	kv.Requires(cfg != nil && hc != nil)
	kv.Requires(kv.ForallN(len(cfg.Upstreams), func(i int) bool { return cfg.Upstreams[i] != nil }))
	kv.Requires(kv.Forall(func(n string) bool { l, ok := cfg.Listeners[n]; return !ok || l != nil }))
	s, err := NewServer(cfg, pdr, hc, reg)
	if err != nil {
		kv.Cover("refused")
		return s, err
	}
	kv.Cover("created")
	kv.Ensures("C21,C22,C24:the server answers from the cache it manages, sharing exchanges", SpecWired(s, cfg, pdr, hc))
	kv.Ensures("C19:every configured listener serves the proxy, and no other does", kv.Forall(func(n string) bool {
		l, ok := s.listeners[n]
		c, want := cfg.Listeners[n]
		return ok == want && (!ok || svListens(l, c, s))
	}))
	kv.Ensures("C21:the server can be started", s.stopCh != nil && kv.Fresh(s.stopCh) && cap(s.stopCh) > 0 && !kv.Closed(s.stopCh))
	return s, err
}

// svSocket: a listening socket.
type svSocket struct {
	net.Listener
	At string
}

//kv:model net.Listen
func mdListen(network, addr string) (net.Listener, error) {
	if kv.Any[bool]() {
		return nil, kvm.LibFail()
	}
	return &svSocket{At: addr}, nil
}

// svListens: a listener hands what it receives at its address to h.
func svListens(l *Listener, cfg *config.Listener, h http.Handler) bool {
	if l == nil || l.listener == nil || l.httpServer == nil {
		return false
	}
	s, ok := l.listener.(*svSocket)
	return ok && s != nil && s.At == cfg.Addr && kv.Eq(l.httpServer.Handler, h)
}

//kv:loopinv server.NewListeners
func liNewListeners(listeners Listeners, cfg config.Listeners, handler http.Handler) bool {
	return kv.Forall(func(n string) bool {
		l, ok := listeners[n]
		c, want := cfg[n]
		return ok == (want && kv.Seen(n)) && (!ok || svListens(l, c, handler))
	})
}

// svProxyLog records the requests handed to a reverse proxy.
type svProxyLog struct{ N kv.Int }

//kv:model (*net/http/httputil.ReverseProxy).ServeHTTP
func mdProxyServe(p *httputil.ReverseProxy, w http.ResponseWriter, r *http.Request) {
	kv.Ghost[svProxyLog](p).N++
}

// svTimeout: a handler that answers 503 itself if h does not return in time.
type svTimeout struct {
	H http.Handler
	D time.Duration
}

// svGiven: how long the request was given.
func svGiven(r *http.Request) *time.Duration { return kv.Ghost[time.Duration](r) }

func (t *svTimeout) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	*svGiven(r) = t.D
	t.H.ServeHTTP(w, r)
}

//kv:model net/http.TimeoutHandler
func mdTimeoutHandler(h http.Handler, d time.Duration, msg string) http.Handler {
	return &svTimeout{H: h, D: d}
}

//kv:contract (*server.Server).ServeHTTP C19 C20 verify-only
func ctServeHTTP(s *Server, w http.ResponseWriter, r *http.Request) {
	kv.Requires(s != nil && s.proxy != nil && w != nil && r != nil)
	n := kv.Ghost[svProxyLog](s.proxy).N
	hn := kvm.Resp(w).Calls
	*svGiven(r) = 0
	s.ServeHTTP(w, r)
	kv.Ensures("C20:a request is given up while it can still be answered", *svGiven(r) > 0 && *svGiven(r) <= DefaultTimeout)
	kv.Ensures("C19:every request is proxied once", kv.Ghost[svProxyLog](s.proxy).N == n+1 && kvm.Resp(w).Calls == hn)
}

//kv:contract server.NewListener C20 verify-only
func ctNewListener(ctx context.Context, cfg *config.Listener, handler http.Handler) (*Listener, error) {
	kv.Requires(cfg != nil && handler != nil)
	l, err := NewListener(ctx, cfg, handler)
	if err == nil {
		kv.Cover("created")
		h := l.httpServer
		kv.Ensures("C20:a listener serves its handler", h != nil && kv.Eq(h.Handler, handler))
		kv.Ensures("C20:a listener does not give up before the request timeout", h.WriteTimeout <= 0 || h.WriteTimeout > DefaultTimeout)
	}
	return l, err
}

// SpecReady: a server that can be started, its channel is not ev.
func SpecReady(s *Server, ev chan bool) bool {
	return s.stopCh != nil && !kv.Closed(s.stopCh) && s.stopCh != ev
}

// SpecWired: the server answers from the cache hc, which keeps its entries in pdr.
func SpecWired(s *Server, cfg *config.Configuration, pdr provider.Provider, hc *cache.HttpCache) bool {
	return s != nil && s.httpcache == hc && kv.Eq(s.cache, pdr) && s.cfg != nil && kv.Eq(*s.cfg, *cfg) && s.proxy != nil && middleware.SpecStack(s.proxy.Transport, hc)
}
