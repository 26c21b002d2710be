package kvm

import (
	"context"
	"kv"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/gorilla/mux"
)

// ---- mux ----

// RouterLog records the middlewares of a router, which apply to each of its routes, its routes and its use.
type RouterLog struct {
	MWs    kv.Int
	MW     mux.MiddlewareFunc
	Routes kv.Int
	Route  *mux.Route // the latest one
	Found  *mux.Route // the first one for the request asked for, as far as it is settled
	Late   bool       // an earlier route was changed after a later one had been added
	Serve  kv.Int
	W      http.ResponseWriter
	R      *http.Request
}

// RouteLog: what a route demands of a request, and what it does with it.
type RouteLog struct {
	IsPrefix bool
	Prefix   string
	Other    bool // something else, too
	Router   *mux.Router
	Miss     bool // it is not for the request asked for
	Do       func(http.ResponseWriter, *http.Request)
}

// Asked: the request whose route is asked for.
type Asked struct{ Method, Path string }

var askedAt = new(int)

func AskRoute() *Asked { return kv.Ghost[Asked](askedAt) }

func RouterOf(r *mux.Router) *RouterLog { return kv.Ghost[RouterLog](r) }
func RouteOf(r *mux.Route) *RouteLog    { return kv.Ghost[RouteLog](r) }

//kv:model github.com/gorilla/mux.NewRouter
func mdNewRouter() *mux.Router {
	r := new(mux.Router)
	*RouterOf(r) = RouterLog{}
	return r
}

//kv:model (*github.com/gorilla/mux.Router).Use
func mdRouterUse(r *mux.Router, mw ...mux.MiddlewareFunc) {
	g := RouterOf(r)
	g.MWs += kv.Int(len(mw))
	if len(mw) == 1 {
		g.MW = mw[0]
	}
}

//kv:model (*github.com/gorilla/mux.Router).ServeHTTP
func mdRouterServe(r *mux.Router, w http.ResponseWriter, q *http.Request) {
	g := RouterOf(r)
	g.Serve++
	g.W, g.R = w, q
}

func mdRoute(r *mux.Router, l RouteLog) *mux.Route {
	t := new(mux.Route)
	l.Router = r
	*RouteOf(t) = l
	g := RouterOf(r)
	if g.Found == nil && g.Routes > 0 && !RouteOf(g.Route).Miss {
		g.Found = g.Route
	}
	g.Routes++
	g.Route = t
	return t
}

// RouteAsked: the first route of the router for the request asked for, nil if there is none.
func RouteAsked(r *mux.Router) *mux.Route {
	g := RouterOf(r)
	if g.Late {
		return kv.Any[*mux.Route]()
	}
	if g.Found == nil && g.Routes > 0 && !RouteOf(g.Route).Miss {
		return g.Route
	}
	return g.Found
}

// mdDemand: a route is for requests with the property only.
func mdDemand(t *mux.Route, ok bool) *mux.Route {
	l := RouteOf(t)
	l.Miss = l.Miss || !ok
	g := RouterOf(l.Router)
	g.Late = g.Late || g.Route != t
	return t
}

// IsTemplate: a path with variables.
func IsTemplate(p string) bool { return strings.Contains(p, "{") || strings.Contains(p, "}") }

func askedPath(p string) bool {
	if IsTemplate(p) {
		return kv.UF[bool]("mux.template.path", p, AskRoute().Path)
	}
	return p == AskRoute().Path
}

func askedMethod(ms []string) bool {
	for _, m := range ms {
		if m == AskRoute().Method {
			return true
		}
	}
	return false
}

// PrefixMatch: a path prefix without variables matches the paths that start with it; a prefix must start with a slash or be empty.
func PrefixMatch(prefix, path string) bool {
	if prefix == "" {
		return true
	}
	if prefix[0] != '/' {
		return false
	}
	if IsTemplate(prefix) {
		return kv.UF[bool]("mux.template", prefix, path)
	}
	return strings.HasPrefix(path, prefix)
}

// RouterMatches: the router has a route for the request.
func RouterMatches(r *mux.Router, req *http.Request) bool {
	g := RouterOf(r)
	if g.Routes == 0 {
		return false
	}
	if g.Routes == 1 && RouteOf(g.Route).IsPrefix && !RouteOf(g.Route).Other {
		return PrefixMatch(RouteOf(g.Route).Prefix, req.URL.Path)
	}
	return kv.UF[bool]("mux.match", r, req)
}

//kv:model (*github.com/gorilla/mux.Router).Match
func mdRouterMatch(r *mux.Router, req *http.Request, m *mux.RouteMatch) bool {
	return RouterMatches(r, req)
}

//kv:model (*github.com/gorilla/mux.Router).Methods
func mdRouterMethods(r *mux.Router, m ...string) *mux.Route {
	return mdDemand(mdRoute(r, RouteLog{Other: true}), askedMethod(m))
}

//kv:model (*github.com/gorilla/mux.Router).Host
func mdRouterHost(r *mux.Router, h string) *mux.Route {
	return mdDemand(mdRoute(r, RouteLog{Other: true}), kv.Any[bool]())
}

//kv:model (*github.com/gorilla/mux.Router).Path
func mdRouterPath(r *mux.Router, p string) *mux.Route {
	return mdDemand(mdRoute(r, RouteLog{Other: true}), askedPath(p))
}

//kv:model (*github.com/gorilla/mux.Router).PathPrefix
func mdRouterPathPrefix(r *mux.Router, p string) *mux.Route {
	return mdDemand(mdRoute(r, RouteLog{IsPrefix: true, Prefix: p}), PrefixMatch(p, AskRoute().Path))
}

//kv:model (*github.com/gorilla/mux.Router).HandleFunc
func mdRouterHandleFunc(r *mux.Router, p string, f func(http.ResponseWriter, *http.Request)) *mux.Route {
	return mdDemand(mdRoute(r, RouteLog{Other: true, Do: f}), askedPath(p))
}

//kv:model (*github.com/gorilla/mux.Router).Handle
func mdRouterHandle(r *mux.Router, p string, h http.Handler) *mux.Route {
	return mdDemand(mdRoute(r, RouteLog{Other: true, Do: func(w http.ResponseWriter, q *http.Request) { h.ServeHTTP(w, q) }}), askedPath(p))
}

//kv:model (*github.com/gorilla/mux.Router).NewRoute
func mdRouterNewRoute(r *mux.Router) *mux.Route { return mdRoute(r, RouteLog{Other: true}) }

func mdOther(r *mux.Route, ok bool) *mux.Route {
	RouteOf(r).Other = true
	return mdDemand(r, ok)
}

//kv:model (*github.com/gorilla/mux.Route).Methods
func mdRouteMethods(r *mux.Route, m ...string) *mux.Route { return mdOther(r, askedMethod(m)) }

//kv:model (*github.com/gorilla/mux.Route).Host
func mdRouteHost(r *mux.Route, h string) *mux.Route { return mdOther(r, kv.Any[bool]()) }

//kv:model (*github.com/gorilla/mux.Route).Path
func mdRoutePath(r *mux.Route, p string) *mux.Route { return mdOther(r, askedPath(p)) }

//kv:model (*github.com/gorilla/mux.Route).PathPrefix
func mdRoutePathPrefix(r *mux.Route, p string) *mux.Route {
	return mdOther(r, PrefixMatch(p, AskRoute().Path))
}

//kv:model (*github.com/gorilla/mux.Route).HandlerFunc
func mdRouteHandlerFunc(r *mux.Route, f func(http.ResponseWriter, *http.Request)) *mux.Route {
	RouteOf(r).Do = f
	return r
}

//kv:model (*github.com/gorilla/mux.Route).Handler
func mdRouteHandler(r *mux.Route, h http.Handler) *mux.Route {
	RouteOf(r).Do = func(w http.ResponseWriter, q *http.Request) { h.ServeHTTP(w, q) }
	return r
}

//kv:model (*github.com/gorilla/mux.Route).Name
func mdRouteName(r *mux.Route, n string) *mux.Route { return r }

// ---- url ----

// UrlOk, UrlParsed: url.Parse.
func UrlOk(s string) bool { return kv.UF[bool]("url.parse.ok", s) }

func UrlParsed(s string) url.URL { return kv.UF[url.URL]("url.parse", s) }

//kv:model net/url.Parse
func mdUrlParse(s string) (*url.URL, error) {
	if !UrlOk(s) {
		return nil, &Err{Msg: kv.Any[string]()}
	}
	u := new(url.URL)
	*u = UrlParsed(s)
	return u, nil
}

// Escaped: the encoded path of a URL.
func Escaped(u *url.URL) string { return kv.UF[string]("url.escaped", u.Path, u.RawPath) }

//kv:model (*net/url.URL).EscapedPath
func mdEscapedPath(u *url.URL) string { return Escaped(u) }

// ---- cancellation ----

// CtxState: whether and why a context is cancelled.
type CtxState struct{ Cause error }

func CtxOf(c context.Context) *CtxState { return kv.Ghost[CtxState](c) }

func mdCtxFrom(parent context.Context) context.Context {
	c := new(Ctx)
	kv.Ghost[CtxState](context.Context(c)).Cause = CtxOf(parent).Cause
	return c
}

func mdCancel(c context.Context, cause error) {
	if CtxOf(c).Cause == nil {
		if cause == nil {
			cause = context.Canceled
		}
		CtxOf(c).Cause = cause
	}
}

//kv:model context.WithCancelCause
func mdWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := mdCtxFrom(parent)
	return c, func(cause error) { mdCancel(c, cause) }
}

//kv:model context.WithCancel
func mdWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := mdCtxFrom(parent)
	return c, func() { mdCancel(c, nil) }
}

//kv:model context.WithTimeout
func mdWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := mdCtxFrom(parent)
	return c, func() { mdCancel(c, nil) }
}

//kv:model context.Cause
func mdCause(c context.Context) error { return CtxOf(c).Cause }

//kv:model (net.Error).Timeout
func mdTimeout(e net.Error) bool { return ErrTimeout(e) }

func ErrTimeout(e net.Error) bool { return kv.UF[bool]("net.Error.Timeout", e) }

// DoneOf: the channel closed when the context is cancelled.
func DoneOf(c context.Context) <-chan struct{} { return kv.UF[<-chan struct{}]("context.done", c) }

//kv:model (context.Context).Done
func mdDone(c context.Context) <-chan struct{} { return DoneOf(c) }
