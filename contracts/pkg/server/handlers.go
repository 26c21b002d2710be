package server

import (
	"encoding/json"
	"io"
	"kv"
	"kvm"
	"net/http"
	"strings"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
)

// ---- the cluster connection and the json encoder (assumed) ----

// SpecCast records the broadcasts over a connection.
type SpecCast struct {
	N                        kv.Int
	Port, Method, Path, Body string
	Req                      *http.Request
}

func Casts(c cluster.Connection) *SpecCast { return kv.Ghost[SpecCast](c) }

//kv:model (github.com/kacheio/kache/pkg/cluster.Connection).Broadcast
func mdBroadcast(c cluster.Connection, req *http.Request, portname, method, path string) {
	g := Casts(c)
	g.N++
	g.Port, g.Method, g.Path, g.Req = portname, method, path, req
	g.Body = ""
	if req.Body != nil {
		g.Body = kvm.Content(req.Body)
		kvm.Drain(req.Body)
	}
}

// svEnc: where an encoder writes to, and what it has written.
type svEnc struct{ W io.Writer }

type svSeen struct {
	N   kv.Int
	Val any
}

//kv:model encoding/json.NewEncoder
func mdJsonEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	kv.Ghost[svEnc](e).W = w
	return e
}

//kv:model (*encoding/json.Encoder).Encode
func mdJsonEncode(e *json.Encoder, v any) error {
	if kv.Any[bool]() {
		return kvm.LibFail()
	}
	w := kv.Ghost[svEnc](e).W
	g := kv.Ghost[svSeen](w)
	g.N++
	g.Val = v
	_, err := w.Write(kv.OfBytes(kv.Any[string]()))
	return err
}

// ---- the handlers ----

// svReady: a running server, a request as net/http hands it to a handler, nothing answered yet.
func svReady(s *Server, w http.ResponseWriter, r *http.Request) bool {
	return s != nil && s.cache != nil && w != nil && r != nil && r.URL != nil && r.Header != nil && r.Body != nil &&
		!kvm.Resp(w).Wrote && kvm.Resp(w).Calls == 0 &&
		s.cfg != nil && s.cfg.Provider != nil && s.cfg.API != nil
}

// svOps: everything recorded about the backend.
type svOps struct {
	Log   provider.SpecLog
	Marks provider.Marks
}

func svDone(s *Server) svOps { return svOps{*provider.Log(s.cache), *provider.MarksOf(s.cache)} }

// svSame: the backend was not asked to change anything.
func svSame(a, b svOps) bool {
	return a.Log.Sets == b.Log.Sets && a.Log.Dels == b.Log.Dels && a.Log.Other == b.Log.Other &&
		a.Marks.Purge.N == b.Marks.Purge.N && a.Marks.Flush.N == b.Marks.Flush.N
}

func svStatusIs(w http.ResponseWriter, code int) bool {
	g := *kvm.Resp(w)
	return g.Wrote && g.Calls == 1 && g.Status == code
}

func svCasts(s *Server) SpecCast {
	if s.cluster == nil {
		return SpecCast{}
	}
	return *Casts(s.cluster)
}

// svPurge: the contract of purging through handler h, which wants the given method.
func svPurge(s *Server, w http.ResponseWriter, r *http.Request, method string, h func(http.ResponseWriter, *http.Request)) {
	was, wasMethod := svDone(s), r.Method
	key := kvm.HeaderGet(r.Header, "X-Purge-Key")
	h(w, r)
	now := svDone(s)
	if wasMethod != method {
		kv.Ensures("C24:a wrong method is answered 405", svStatusIs(w, http.StatusMethodNotAllowed))
		kv.Ensures("C24:a wrong method changes nothing", svSame(was, now))
		return
	}
	kv.Ensures("C24:exactly one purge is made", now.Marks.Purge.N == was.Marks.Purge.N+1 && now.Log.Other == was.Log.Other+1 &&
		now.Log.Sets == was.Log.Sets && now.Log.Dels == was.Log.Dels && now.Marks.Flush.N == was.Marks.Flush.N)
	kv.Ensures("C24:the pattern of the purge-key header is applied", now.Marks.Key == key)
	if now.Marks.Err == nil {
		kv.Cover("purged")
		kv.Ensures("C24:success is answered 200", svStatusIs(w, http.StatusOK))
	} else {
		kv.Cover("failed")
		kv.Ensures("C24:a failure of the backend is answered 404", svStatusIs(w, http.StatusNotFound))
	}
}

//kv:contract (*server.Server).CacheKeyPurgeHandler C24 C23 verify-only
func ctPurgeHandler(s *Server, w http.ResponseWriter, r *http.Request) {
	kv.Requires(svReady(s, w, r))
	was, method, body := svCasts(s), r.Method, kvm.Content(r.Body)
	_, marked := r.Header["X-Kache-Cluster"]
	if method != "PURGE" {
		kv.Cover("wrong method")
	}
	svPurge(s, w, r, "PURGE", s.CacheKeyPurgeHandler)
	now := svCasts(s)
	if marked {
		kv.Cover("marked")
		kv.Ensures("C23:a broadcast is not broadcast again", now.N == was.N)
	}
	if method != "PURGE" || provider.MarksOf(s.cache).Err != nil {
		kv.Ensures("C23,C24:a failed purge is not broadcast", now.N == was.N)
	}
	kv.Ensures("C23:at most one broadcast is made", now.N == was.N || now.N == was.N+1)
	if now.N != was.N {
		kv.Cover("broadcast")
		kv.Ensures("C23:peers are asked to invalidate the same pattern", now.Port == "api" && now.Method == http.MethodDelete &&
			now.Path == SpecPath(s.cfg.API.Prefix, "/cache/invalidate") && now.Req == r && now.Body == body)
	}
}

// SpecRoute: the method and path (below the prefix of the API) of a management operation.
func SpecRoute(op int) (method, path string) {
	switch op {
	case 0:
		return "PURGE", ""
	case 1:
		return http.MethodGet, "/cache/keys"
	case 2:
		return http.MethodGet, "/cache/config"
	case 3:
		return http.MethodPut, "/cache/config/update"
	case 4:
		return http.MethodDelete, "/cache/invalidate"
	}
	return http.MethodDelete, "/cache/flush"
}

// SpecPrefix: the prefix of the API, without slashes at its ends.
func SpecPrefix(prefix string) string {
	if prefix == "" {
		return "api"
	}
	return strings.Trim(prefix, "/")
}

// SpecPath: the path of a management operation, for a configured prefix.
func SpecPath(prefix, p string) string {
	if p == "" {
		return "/"
	}
	return kvm.PathUnder(SpecPrefix(prefix), p)
}

// SpecChanging: a request for an operation that changes something.
func SpecChanging(prefix, method, path string) bool {
	at := func(op int) bool {
		m, p := SpecRoute(op)
		return method == m && path == SpecPath(prefix, p)
	}
	return at(0) || at(3) || at(4) || at(5)
}

// SpecNoOperation: handler h changes nothing.
func SpecNoOperation(s *Server, w http.ResponseWriter, r *http.Request, h func(http.ResponseWriter, *http.Request)) {
	kv.Assume(svReady(s, w, r) && cache.SpecLoaded(s.httpcache))
	was, casts, cfg := svDone(s), svCasts(s).N, s.httpcache.Config()
	h(w, r)
	kv.Ensures("C24:no other request changes the cache", svSame(was, svDone(s)))
	kv.Ensures("C24:no other request changes the configuration", s.httpcache.Config() == cfg && svCasts(s).N == casts)
}

// SpecOperation: handler h performs a management operation.
func SpecOperation(op int, s *Server, w http.ResponseWriter, r *http.Request, h func(http.ResponseWriter, *http.Request)) {
	kv.Assume(svReady(s, w, r) && cache.SpecLoaded(s.httpcache))
	switch op {
	case 0, 4:
		svPurge(s, w, r, r.Method, h)
	case 1:
		svKeys(s, w, r, h)
	case 2:
		svShow(s, w, r, h)
	case 3:
		svUpdate(s, w, r, h)
	default:
		svFlush(s, w, r, h)
	}
}

//kv:contract (*server.Server).CacheInvalidateHandler C24 C23 verify-only
func ctInvalidateHandler(s *Server, w http.ResponseWriter, r *http.Request) {
	kv.Requires(svReady(s, w, r))
	was := svCasts(s).N
	if r.Method != http.MethodDelete {
		kv.Cover("wrong method")
	}
	svPurge(s, w, r, http.MethodDelete, s.CacheInvalidateHandler)
	kv.Ensures("C23:what a broadcast causes is not broadcast again", svCasts(s).N == was)
}

//kv:contract (*server.Server).CacheFlushHandler C24 verify-only
func ctFlushHandler(s *Server, w http.ResponseWriter, r *http.Request) {
	kv.Requires(svReady(s, w, r))
	if r.Method != http.MethodDelete {
		kv.Cover("wrong method")
	}
	svFlush(s, w, r, s.CacheFlushHandler)
}

// svFlush: the contract of flushing through handler h.
func svFlush(s *Server, w http.ResponseWriter, r *http.Request, h func(http.ResponseWriter, *http.Request)) {
	was, method := svDone(s), r.Method
	h(w, r)
	now := svDone(s)
	if method != http.MethodDelete {
		kv.Ensures("C24:a wrong method is answered 405", svStatusIs(w, http.StatusMethodNotAllowed))
		kv.Ensures("C24:a wrong method changes nothing", svSame(was, now))
		return
	}
	kv.Ensures("C24:exactly one flush is made", now.Marks.Flush.N == was.Marks.Flush.N+1 && now.Log.Other == was.Log.Other+1 &&
		now.Log.Sets == was.Log.Sets && now.Log.Dels == was.Log.Dels && now.Marks.Purge.N == was.Marks.Purge.N)
	if now.Marks.Err == nil {
		kv.Cover("flushed")
		kv.Ensures("C24:success is answered 200", svStatusIs(w, http.StatusOK))
	} else {
		kv.Cover("failed")
		kv.Ensures("C24:a failure of the backend is answered 404", svStatusIs(w, http.StatusNotFound))
	}
}

//kv:contract (*server.Server).CacheKeysHandler C24 verify-only
func ctKeysHandler(s *Server, w http.ResponseWriter, r *http.Request) {
	kv.Requires(svReady(s, w, r))
	svKeys(s, w, r, s.CacheKeysHandler)
}

// svKeys: the contract of listing through handler h.
func svKeys(s *Server, w http.ResponseWriter, r *http.Request, h func(http.ResponseWriter, *http.Request)) {
	was, seen := svDone(s), kv.Ghost[svSeen](w).N
	h(w, r)
	now := svDone(s)
	kv.Ensures("C24:listing changes nothing", svSame(was, now))
	kv.Ensures("C24:all keys are listed", now.Marks.Prefix == "")
	if kv.Ghost[svSeen](w).N != seen {
		kv.Cover("listed")
		l, ok := kv.Ghost[svSeen](w).Val.([]string)
		kv.Ensures("C24:the keys of the backend are listed", ok && kv.SeqEq(l, now.Marks.List))
	}
}

//kv:contract (*server.Server).CacheConfigHandler C24 verify-only
func ctConfigHandler(s *Server, w http.ResponseWriter, r *http.Request) {
	kv.Requires(svReady(s, w, r) && cache.SpecLoaded(s.httpcache))
	svShow(s, w, r, s.CacheConfigHandler)
}

// svShow: the contract of showing the configuration through handler h.
func svShow(s *Server, w http.ResponseWriter, r *http.Request, h func(http.ResponseWriter, *http.Request)) {
	was, cfg, seen := svDone(s), s.httpcache.Config(), kv.Ghost[svSeen](w).N
	text := *cfg
	h(w, r)
	kv.Ensures("C24:showing the configuration changes nothing", svSame(was, svDone(s)) && s.httpcache.Config() == cfg && kv.Eq(*cfg, text))
	if kv.Ghost[svSeen](w).N != seen {
		kv.Cover("shown")
		c, ok := kv.Ghost[svSeen](w).Val.(*cache.HttpCacheConfig)
		kv.Ensures("C24:the configuration in force is shown", ok && c == cfg)
	}
}

//kv:contract (*server.Server).CacheConfigUpdateHandler C24 C23 verify-only
func ctConfigUpdateHandler(s *Server, w http.ResponseWriter, r *http.Request) {
	kv.Requires(svReady(s, w, r) && cache.SpecLoaded(s.httpcache))
	svUpdate(s, w, r, s.CacheConfigUpdateHandler)
}

// svUpdate: the contract of updating the configuration through handler h.
func svUpdate(s *Server, w http.ResponseWriter, r *http.Request, h func(http.ResponseWriter, *http.Request)) {
	ops, casts, cfg := svDone(s), svCasts(s), s.httpcache.Config()
	text, body, method, path := *cfg, kvm.Content(r.Body), r.Method, r.URL.Path
	fails := kv.GhostInt("lib.failures")
	_, marked := r.Header["X-Kache-Cluster"]
	h(w, r)
	now := svCasts(s)
	c := s.httpcache.Config()
	kv.Ensures("C24:the cache content is not touched", svSame(ops, svDone(s)))
	if kv.GhostInt("lib.failures") != fails || !config.YamlOk(body) {
		kv.Cover("rejected")
		kv.Ensures("C24:an update that cannot be read is answered 400", svStatusIs(w, http.StatusBadRequest))
		kv.Ensures("C24:an update that cannot be read changes nothing", c == cfg && kv.Eq(*c, text))
		kv.Ensures("C23:an update that cannot be read is not broadcast", now.N == casts.N)
		return
	}
	kv.Cover("accepted")
	o := *kv.Ghost[config.YamlOf](c)
	kv.Ensures("C24:an update that is accepted is answered 200", svStatusIs(w, http.StatusOK))
	kv.Ensures("C24:the update is in force", c != nil && c != cfg && o.Src == body && kv.Eq(*c, o.Hc))
	kv.Ensures("C24:the update is in force when it is confirmed", kvm.Resp(w).At == kv.GhostInt("config.updates"))
	kv.Ensures("C24:the mode is strict unless the update sets it", kv.Implies(!config.YamlSetsMode(body, "cache"), c.Strict))
	if marked || s.cluster == nil {
		kv.Cover("marked")
		kv.Ensures("C23:a broadcast is not broadcast again", now.N == casts.N)
		return
	}
	kv.Cover("broadcast")
	kv.Ensures("C23:the update is broadcast once, in full", now.N == casts.N+1 && now.Port == "api" && now.Method == method && now.Path == path && now.Req == r && now.Body == body)
}
