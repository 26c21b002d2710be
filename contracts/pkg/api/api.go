package api

import (
	"kv"
	"kvm"
	"net/http"
	pathpkg "path"
	"strings"

	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/server"
)

// apSlashes: a slash added to a path at either end does not change what remains without slashes at the ends.
func apSlashes(p string) {
	t := strings.Trim(p, "/")
	kv.Assume(strings.Trim("/"+p, "/") == t)
	if p != "" && p[0] == '/' {
		kv.Assume(strings.Trim(p[1:], "/") == t)
	}
	if p != "" && p[len(p)-1] == '/' {
		kv.Assume(strings.Trim(p[:len(p)-1], "/") == t)
		kv.Assume(strings.Trim("/"+p[:len(p)-1], "/") == t)
		kv.Assume(strings.Trim(("/" + p)[:len(p)], "/") == t)
	}
}

//kv:contract api.sanitzePrefix C24 optional
func ctSanitizePrefix(prefix string) string {
	kv.Requires(prefix != "")
	apSlashes(prefix)
	r := sanitzePrefix(prefix)
	kv.Ensures("C24:a configured prefix is taken as an absolute path", r == "" || r[0] == '/')
	kv.Assume(kv.Implies(r == "", strings.Trim(r, "/") == ""))
	kv.Ensures("C24:a prefix of slashes only is none", kv.Implies(r == "", strings.Trim(prefix, "/") == ""))
	kv.Ensures("C24:slashes around a configured prefix do not matter", strings.Trim(r, "/") == strings.Trim(prefix, "/"))
	return r
}

//kv:contract api.New C18 C24 verify-only choose
func ctNewAPI(cfg config.API, srv *server.Server) (*API, error) {
	kv.Requires(srv != nil)
	op, q := kv.Choose(10), kvm.AskRoute()
	method, path := server.SpecRoute(op)
	q.Method, q.Path = method, kv.Any[string]()
	if op >= 6 {
		switch op {
		case 6:
			q.Method = "PURGE"
		case 7:
			q.Method = http.MethodPut
		case 8:
			q.Method = http.MethodDelete
		default:
			q.Method = kv.Any[string]()
			kv.Requires(q.Method != "PURGE" && q.Method != http.MethodPut && q.Method != http.MethodDelete)
		}
		kv.Requires(!kvm.IsTemplate(server.SpecPrefix(cfg.Prefix)) && !server.SpecChanging(cfg.Prefix, q.Method, q.Path))
	} else {
		kv.Requires(q.Path == server.SpecPath(cfg.Prefix, path))
	}
	es := flEntries(cfg.ACL)
	kv.Ghost[flNote](flNoteAt).Es = es
	kvm.Handled().N = 0
	a, err := New(cfg, srv)
	if !flEmpty(cfg.ACL) {
		kv.Ensures("C18:an API with a malformed access list is not started", (err != nil) == kv.ExistsN(len(es), func(i int) bool { return flBad(es[i]) }))
	}
	if err != nil {
		kv.Cover("refused")
		return a, err
	}
	kv.Cover("created")
	g := *kvm.RouterOf(a.router)
	kv.Ensures("C18:every route is behind the access list", g.MWs == 1 && g.MW != nil && a.filter != nil && a.filter.allowedIPs != nil)
	next := kv.Any[http.Handler]()
	w, r := kv.Any[http.ResponseWriter](), kv.Any[*http.Request]()
	kv.Assume(next != nil && w != nil && r != nil && r.Header != nil)
	kv.Assume(!kvm.Resp(w).Wrote && kvm.Resp(w).Calls == 0)
	h := g.MW(next)
	h.ServeHTTP(w, r)
	flJudge(a.filter, w, r)
	if op >= 6 {
		t := kvm.RouteAsked(a.router)
		if flEmpty(cfg.ACL) && t != nil && !kvm.RouteOf(t).Miss && kvm.RouteOf(t).Do != nil {
			kv.Cover("elsewhere")
			w, r := kv.Any[http.ResponseWriter](), kv.Any[*http.Request]()
			kv.Assume(r != nil && r.URL != nil && r.Method == q.Method && r.URL.Path == q.Path)
			server.SpecNoOperation(srv, w, r, kvm.RouteOf(t).Do)
		}
		return a, err
	}
	if flEmpty(cfg.ACL) && !kvm.IsTemplate(server.SpecPrefix(cfg.Prefix)) && !strings.HasPrefix(q.Path, "/debug") && !strings.HasPrefix(q.Path, "/version") && !strings.HasPrefix(q.Path, "/metrics") {
		kv.Cover("served")
		if op == 1 {
			kv.Prove("C24:the path of a listing is below itself", kvm.PrefixMatch(kvm.PathUnder(server.SpecPrefix(cfg.Prefix), path), q.Path))
		}
		t := kvm.RouteAsked(a.router)
		kv.Ensures("C24:every management operation has a route", t != nil && kvm.RouteOf(t).Do != nil)
		kv.Prove("C24:the route is for the operation", !kvm.RouteOf(t).Miss)
		w, r := kv.Any[http.ResponseWriter](), kv.Any[*http.Request]()
		kv.Assume(r != nil && r.URL != nil && r.Method == q.Method && r.URL.Path == q.Path)
		server.SpecOperation(op, srv, w, r, kvm.RouteOf(t).Do)
	}
	return a, err
}

//kv:contract (*api.API).ServeHTTP C18 verify-only
func ctAPIServe(a *API, w http.ResponseWriter, r *http.Request) {
	kv.Requires(a != nil && a.router != nil)
	o := *kvm.RouterOf(a.router)
	hn := kvm.Handled().N
	a.ServeHTTP(w, r)
	g := *kvm.RouterOf(a.router)
	kv.Ensures("C18:every API request passes the router", g.Serve == o.Serve+1 && kv.Eq(g.W, w) && kv.Same(g.R, r) && kvm.Handled().N == hn)
}

// ListenLog records the servers started.
type ListenLog struct {
	N kv.Int
	H http.Handler
}

var listenAt = new(int)

//kv:model net/http.ListenAndServe
func mdListenAndServe(addr string, h http.Handler) error {
	g := kv.Ghost[ListenLog](listenAt)
	g.N++
	g.H = h
	return kv.Any[error]()
}

//kv:contract (*api.API).Run C18 verify-only
func ctAPIRun(a *API) {
	kv.Requires(a != nil)
	g := kv.Ghost[ListenLog](listenAt)
	n := g.N
	a.Run()
	h, ok := g.H.(*API)
	kv.Ensures("C18:the API is served behind the access list only", g.N == n+1 && ok && kv.Same(h, a))
}

//kv:contract (*api.API).RegisterRoute C21 verify-only
func ctRegisterRoute(a *API, method string, p string, handler http.HandlerFunc) {
	kv.Requires(a != nil && a.router != nil && handler != nil && (a.prefix == "" || a.prefix[0] == '/'))
	kv.Requires(p != "" && p[0] == '/' && p != "/" && pathpkg.Clean(p) == p)
	q := kvm.AskRoute()
	q.Method, q.Path = method, kv.Any[string]()
	kv.Requires(q.Path == kvm.PathUnder(kv.Ite(a.prefix == "", "", strings.Trim(a.prefix, "/")), p))
	kv.Requires(!kvm.IsTemplate(q.Path) && kvm.RouteAsked(a.router) == nil && kvm.RouterOf(a.router).Routes >= 0 && !kvm.RouterOf(a.router).Late)
	kvm.Handled().N = 0
	a.RegisterRoute(method, p, handler)
	t := kvm.RouteAsked(a.router)
	kv.Ensures("C21:a registered route is served", t != nil && kvm.RouteOf(t).Do != nil && !kvm.RouterOf(a.router).Late)
	w, r := kv.Any[http.ResponseWriter](), kv.Any[*http.Request]()
	kv.Assume(w != nil && r != nil)
	kvm.RouteOf(t).Do(w, r)
	g := *kvm.Handled()
	kv.Ensures("C21:a registered route runs its handler", g.N == 1 && kv.Eq(g.W, w) && kv.Same(g.R, r))
}

// SpecAsk asks for a request below the prefix of the API which has no route yet.
func SpecAsk(a *API, method, p string) {
	kv.Requires(a != nil && a.router != nil && (a.prefix == "" || a.prefix[0] == '/'))
	q := kvm.AskRoute()
	q.Method, q.Path = method, kv.Any[string]()
	kv.Requires(q.Path == kvm.PathUnder(kv.Ite(a.prefix == "", "", strings.Trim(a.prefix, "/")), p))
	kv.Requires(!kvm.IsTemplate(q.Path) && kvm.RouteAsked(a.router) == nil && kvm.RouterOf(a.router).Routes >= 0 && !kvm.RouterOf(a.router).Late)
}

// SpecAsked: what serves the request asked for, nil if there is no route.
func SpecAsked(a *API) func(http.ResponseWriter, *http.Request) {
	t := kvm.RouteAsked(a.router)
	if t == nil || kvm.RouterOf(a.router).Late {
		return nil
	}
	return kvm.RouteOf(t).Do
}

// SpecManages: the API manages the server s.
func SpecManages(a *API, s *server.Server) bool {
	return a != nil && a.server == s && a.router != nil && a.filter != nil
}
