package cache

import (
	"context"
	"kv"
	"kvm"
	"math"
	"net/http"
	"strconv"
	"time"

	"github.com/kacheio/kache/pkg/provider"
)

// SpecProvider: what the cache backend has been asked to do.
func SpecProvider(c *HttpCache) *provider.SpecLog { return provider.Log(c.cache) }

func SpecBackend(c *HttpCache) provider.Provider { return c.cache }

// spReqDirectives: the request directives; Pragma counts if there is no Cache-Control.
func spReqDirectives(h http.Header) RequestCacheControl {
	if cc := spCC(h); cc != "" {
		return spRequestCC(cc)
	}
	return RequestCacheControl{MustValidate: spRequestCC(kvm.HeaderGet(h, "Pragma")).MustValidate, MaxAge: -1, MinFresh: -1, MaxStale: -1}
}

// SpecNoStore: the request forbids storing.
func SpecNoStore(h http.Header) bool { return spReqDirectives(h).NoStore }

// SpecReusable: may a stored response of the given age answer a request with these headers?
func SpecReusable(req, stored http.Header, age time.Duration) bool {
	return spReusable(spReqDirectives(req), stored, age)
}

func SpecSameExcept(a, b http.Header, name string) bool { return spSameExcept(a, b, name) }

//kv:contract cache.NewLookupRequest C02 C04 C08
func ctNewLookup(req *http.Request, timestamp time.Time, strict bool) *LookupRequest {
	kv.Requires(req != nil && req.URL != nil)
	l := kv.New("C02:a lookup always exists", NewLookupRequest(req, timestamp, strict))
	kv.Ensures("C02:a lookup carries its request, time and mode", l.Request == req && l.Timestamp == timestamp && l.strict == strict)
	kv.NewIf("C08:a lookup has a key of its own", &l.Key, true)
	kv.Ensures("C08:a lookup carries the key of its request", spKeyString(*l.Key) == SpecKey(req))
	kv.Ensures("C02,C04:a lookup carries the directives of its request", kv.Eq(l.ReqCacheControl, spReqDirectives(req.Header)))
	return l
}

// spReusable: may a stored response of the given age be used without asking the origin?
func spReusable(rq RequestCacheControl, h http.Header, age time.Duration) bool {
	rs := spResponseCC(spCC(h))
	if rs.MustValidate || rq.MustValidate {
		return false
	}
	if rq.MaxAge >= 0 && age > rq.MaxAge {
		return false
	}
	lifetime := kv.Int(rs.MaxAge)
	if rs.MaxAge < 0 {
		lifetime = spSat(kv.Nanos(spHttpTime(kvm.HeaderGet(h, "Expires"))) - kv.Nanos(spHttpTime(kvm.HeaderGet(h, "Date"))))
	}
	a := kv.Int(age)
	if a <= lifetime {
		return rq.MinFresh < 0 || lifetime-a >= kv.Int(rq.MinFresh)
	}
	if rs.NoStale {
		return false
	}
	return rq.MaxStale == math.MaxInt64 || rq.MaxStale >= 0 && a-lifetime < kv.Int(rq.MaxStale)
}

// SpecDecodes: the stored bytes are a serialized response.
func SpecDecodes(s string) bool { return spGobOk(s) && kvm.WireOk(spGobBody(s)) }

func SpecStatusOf(s string) int          { return kvm.WireStatus(spGobBody(s)) }
func SpecHeaderOf(s string) http.Header  { return kvm.WireHeader(spGobBody(s)) }
func SpecBodyOf(s string) string         { return kvm.WireBody(spGobBody(s)) }
func SpecLengthOf(s string) int64        { return kvm.WireLength(spGobBody(s)) }
func SpecTimeOf(s string) int64          { return spGobTime(s) }
func SpecDumpOf(s string) string         { return spGobBody(s) }
func SpecEncodes(s string) bool          { return spGobOk(s) }

// SpecAge: the age in whole seconds.
func SpecAge(h http.Header, stored int64, now time.Time) time.Duration {
	full := spAge(kvm.HeaderGet(h, "Date"), kvm.HeaderGet(h, "Age"), time.Unix(stored, 0), now)
	return time.Duration(spSat(full)).Truncate(time.Second)
}

func spSameExcept(a, b http.Header, name string) bool {
	return kv.Forall(func(k string) bool {
		x, okx := a[k]
		y, oky := b[k]
		return k == name || okx == oky && (!okx || kv.Same(x, y))
	})
}

//kv:contract (*cache.HttpCache).FetchResponse C09 C02 C05
func ctFetch(c *HttpCache, ctx context.Context, lookup LookupRequest) *LookupResult {
	kv.Requires(c != nil && c.cache != nil && lookup.Key != nil)
	g := *provider.Log(c.cache)
	provider.Touched(c.cache)
	r := kv.New("C09:a lookup has a result", c.FetchResponse(ctx, lookup))
	n := *provider.Log(c.cache)
	kv.Ensures("C09:a lookup reads the backend once", n.Gets == g.Gets+1)
	kv.Ensures("C09:a lookup reads the key of its request", n.GetKey == spKeyString(*lookup.Key))
	kv.Ensures("C09:a lookup only reads", kv.Eq(n, provider.SpecLog{Gets: n.Gets, GetKey: n.GetKey, GotNil: n.GotNil, Got: n.Got,
		Sets: g.Sets, Dels: g.Dels, Other: g.Other, SetKey: g.SetKey, SetVal: g.SetVal, SetTTL: g.SetTTL, DelKey: g.DelKey}))
	found := !n.GotNil && SpecDecodes(n.Got)
	kv.Ensures("C09:exactly an absent or undecodable entry is a miss", (r.Status != EntryInvalid) == found)
	kv.Ensures("C02:a result is a hit, a miss or in need of validation", r.Status == EntryInvalid || r.Status == EntryOk || r.Status == EntryRequiresValidation)
	kv.NewIf("C09:exactly a found entry yields a response", &r.cachedResponse, found)
	if found {
		h := SpecHeaderOf(n.Got)
		age := SpecAge(h, spGobTime(n.Got), lookup.Timestamp)
		p := r.cachedResponse
		kv.NewIf("C09:the response found has headers of its own", &p.Header, true)
		kv.Ensures("C09:the response found has a body", p.Body != nil)
		kv.Ensures("C09:the response found has the stored status and length", p.StatusCode == SpecStatusOf(n.Got) && p.ContentLength == SpecLengthOf(n.Got))
		kv.Ensures("C09:the response found has the stored body", kvm.Content(p.Body) == SpecBodyOf(n.Got))
		kv.Ensures("C09:the response found has the stored headers", spSameExcept(p.Header, h, "Age"))
		kv.Ensures("C05:the response found carries its age", kvm.HeaderGet(p.Header, "Age") == strconv.FormatInt(int64(age/time.Second), 10))
		kv.Ensures("C02:an entry is usable exactly when request and response allow it", (r.Status == EntryOk) == (!lookup.strict || spReusable(lookup.ReqCacheControl, h, age)))
	}
	return r
}

//kv:contract (*cache.HttpCache).StoreResponse C09 C10
func ctStore(c *HttpCache, ctx context.Context, lookup *LookupRequest, response *http.Response, responseTime time.Time) {
	kv.Requires(c != nil && c.cache != nil && SpecInv(c))
	kv.Requires(lookup != nil && lookup.Key != nil && lookup.Request != nil && lookup.Request.URL != nil && response != nil)
	g := *provider.Log(c.cache)
	old := *response
	data := kvm.Content(response.Body)
	dump := kvm.WireDump(true, response.StatusCode, response.ContentLength, response.Header, data)
	failed := kv.GhostInt("lib.failures")
	provider.Touched(c.cache)
	kv.Modifies(&response.Body)
	kv.ModifiesGhost("lib.failures")
	c.StoreResponse(ctx, lookup, response, responseTime)
	n := *provider.Log(c.cache)
	kv.Ensures("C09:a response that can be serialized is written exactly once, any other not at all",
		n.Sets == kv.Ite(kv.GhostInt("lib.failures") == failed, g.Sets+1, g.Sets))
	kv.Ensures("C09:storing only writes", n.Gets == g.Gets && n.GetKey == g.GetKey && n.GotNil == g.GotNil && n.Got == g.Got && n.Dels == g.Dels && n.DelKey == g.DelKey && n.Other == g.Other)
	if n.Sets != g.Sets {
		kv.Ensures("C09:a response is written under the key of its request", n.SetKey == spKeyString(*lookup.Key))
		kv.Ensures("C09:what is written decodes", spGobOk(n.SetVal))
		kv.Ensures("C09:the full response is written", spGobBody(n.SetVal) == dump)
		kv.Ensures("C09:the storage time is written in seconds", spGobTime(n.SetVal) == responseTime.Unix())
		kv.Ensures("C09,C10:an entry has the TTL configured for its path", SpecPathTTL(c, lookup.Request.URL.Path, n.SetTTL))
	}
	now := *response
	now.Body = old.Body
	kv.Ensures("C09:storing does not change the response", kv.Eq(now, old))
	kv.Ensures("C09:storing leaves the body readable", kv.Implies(old.Body != nil, response.Body != nil && kvm.Content(response.Body) == data))
}

//kv:contract (*cache.HttpCache).Delete C07
func ctDelete(c *HttpCache, ctx context.Context, lookup *LookupRequest) {
	kv.Requires(c != nil && c.cache != nil && lookup != nil && lookup.Key != nil)
	g := *provider.Log(c.cache)
	provider.Touched(c.cache)
	c.Delete(ctx, lookup)
	n := *provider.Log(c.cache)
	want := g
	want.Dels, want.DelKey = g.Dels+1, spKeyString(*lookup.Key)
	kv.Ensures("C07:deleting removes exactly the key of the request", kv.Eq(n, want))
}

// SpecCacheableRequest: GET or HEAD with path and host, neither conditional nor authorized.
func SpecCacheableRequest(req *http.Request, h http.Header) bool {
	has := func(k string) bool { _, ok := h[k]; return ok }
	return !has("If-Range") && !has("If-Match") && !has("If-None-Match") && !has("If-Modified-Since") && !has("If-Unmodified-Since") &&
		!has("Authorization") && !has("Range") && req.URL.Path != "" && req.Host != "" && (req.Method == "GET" || req.Method == "HEAD")
}

//kv:contract cache.IsCacheableRequest C03
func ctIsCacheableRequest(req *http.Request) bool {
	kv.Requires(req != nil && req.URL != nil)
	return kv.Is("C03:GET and HEAD requests that are neither conditional nor authorized are cacheable", IsCacheableRequest(req), SpecCacheableRequest(req, req.Header))
}

func spCacheableStatus(s int) bool {
	return s == 200 || s == 203 || s == 204 || s == 206 || s == 300 || s == 301 || s == 308 || s == 404 || s == 405 || s == 410 || s == 414 || s == 451 || s == 501
}

// SpecCacheableResponse: storable status, no no-store or private, and freshness data.
func SpecCacheableResponse(status int, h http.Header) bool {
	cc := spResponseCC(spCC(h))
	return !cc.NoStore && spCacheableStatus(status) &&
		(cc.MustValidate || cc.MaxAge >= 0 || kvm.HeaderGet(h, "Date") != "" && kvm.HeaderGet(h, "Expires") != "")
}

//kv:contract cache.IsCacheableResponse C01
func ctIsCacheableResponse(res *http.Response) bool {
	kv.Requires(res != nil)
	return kv.Is("C01:a response is storable exactly if status, directives and freshness data allow it", IsCacheableResponse(res), SpecCacheableResponse(res.StatusCode, res.Header))
}

//kv:contract (*cache.LookupResult).UpdateHeader C06
func ctUpdateHeader(r *LookupResult, header http.Header) {
	kv.Requires(r != nil && r.cachedResponse != nil && r.cachedResponse.Header != nil && !kv.Same(r.cachedResponse.Header, header))
	old := kv.Snap(r.cachedResponse.Header)
	kv.Modifies(r.cachedResponse.Header)
	r.UpdateHeader(header)
	now := r.cachedResponse.Header
	kv.Ensures("C06:the headers of the 304 replace the stored ones, but for four", kv.Forall(func(k string) bool {
		x, ok := now[k]
		y, oky := header[k]
		z, okz := old[k]
		if oky && k != "Content-Length" && k != "Content-Range" && k != "Etag" && k != "Vary" {
			return ok && kv.Same(x, y)
		}
		return ok == okz && (!okz || kv.Same(x, z))
	}))
}
