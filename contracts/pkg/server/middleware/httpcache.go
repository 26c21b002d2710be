package middleware

import (
	"kv"
	"kvm"
	"net/http"
	"strconv"
	"time"

	"github.com/kacheio/kache/pkg/cache"
)

// spHeaderSame: both headers agree on every name for which except is false.
func spHeaderSame(a, b http.Header, except func(k string) bool) bool {
	return kv.Forall(func(k string) bool {
		x, okx := a[k]
		y, oky := b[k]
		return except(k) || okx == oky && (!okx || kv.Same(x, y))
	})
}

// spOne: the header consists of exactly this value under the name.
func spOne(h http.Header, name, value string) bool {
	v := h[name]
	return len(v) == 1 && v[0] == value
}

// spIsOne: v consists of exactly this value.
func spIsOne(v []string, value string) bool { return len(v) == 1 && v[0] == value }

func spPinned(k string) bool {
	return k == "Content-Length" || k == "Content-Range" || k == "Etag" || k == "Vary"
}

//kv:contract (*server/middleware.Transport).RoundTrip C01 C02 C03 C05 C06 C07 C09 C25 verify-only paths
func ctRoundTrip(t *Transport, req *http.Request) (*http.Response, error) {
	kv.Requires(t != nil && t.Cache != nil && t.currentTime != nil && t.metrics != nil && t.metrics.hits != nil && t.metrics.misses != nil)
	kv.Requires(cache.SpecBackend(t.Cache) != nil && cache.SpecInv(t.Cache) && kvm.ClockLog().Reads == 0)
	kv.Requires(req != nil && req.URL != nil && req.Header != nil)
	rt := t.Transport
	if rt == nil {
		rt = http.DefaultTransport
	}
	before := *kvm.Origin(rt)
	log := *cache.SpecProvider(t.Cache)
	in := *req
	hdr := kv.Snap(req.Header)
	mark, debug := t.Cache.MarkCachedResponses(), cache.SpecDebugName(t.Cache)
	isDebug := func(k string) bool { return mark && k == debug }
	kv.Requires(debug != "Age" && debug != "Etag" && debug != "Last-Modified" && debug != "Date" && debug != "Cache-Control")
	strict := t.Cache.Strict()
	failures := kv.GhostInt("lib.failures")
	resp, err := t.RoundTrip(req)
	x := *kvm.Origin(rt)
	g := *cache.SpecProvider(t.Cache)

	if cache.SpecExcludedPath(t.Cache, in.URL.Path) || cache.SpecExcludedHeader(t.Cache, hdr) || !cache.SpecCacheableRequest(&in, hdr) {
		kv.Cover("bypass")
		kv.Ensures("C03:a bypassing request is forwarded exactly once", x.Calls == before.Calls+1)
		kv.Ensures("C03:a bypassing request is forwarded as it is", x.Sent.Method == in.Method && x.Sent.URL == in.URL && x.Sent.Host == in.Host && x.Sent.Body == in.Body && spHeaderSame(x.Header, hdr, isDebug))
		kv.Ensures("C03:the answer to a bypassing request is returned as is", kv.Eq(err, x.Err) && resp == x.Resp)
		if resp != nil {
			kv.Ensures("C03,C25:the answer to a bypassing request is not changed", resp.StatusCode == x.Status && resp.ContentLength == x.Length && kv.MapEq(resp.Header, x.Answer) && kvm.Content(resp.Body) == x.Body)
		}
		kv.Ensures("C03:a bypassing request does not touch the cache", kv.Eq(g, log))
		return resp, err
	}

	key := cache.SpecKey(&in)
	kv.Ensures("C09:a lookup reads the key of the request once", g.Gets == log.Gets+1 && g.GetKey == key)
	kv.Ensures("C07:the cache is not purged or flushed", g.Other == log.Other)
	kv.Ensures("C06:the client's request is not modified", kv.MapEq(req.Header, hdr) && kv.Eq(*req, in))
	found := !g.GotNil && cache.SpecDecodes(g.Got)
	h := cache.SpecHeaderOf(g.Got)
	age := cache.SpecAge(h, cache.SpecTimeOf(g.Got), kvm.ClockLog().First)
	usable := found && (!strict || cache.SpecReusable(hdr, h, age))
	kv.Ensures("C02:the origin is asked exactly when no stored response may be used", (x.Calls == before.Calls) == usable)
	kv.Ensures("C06:the origin is asked at most once", x.Calls == before.Calls || x.Calls == before.Calls+1)
	if usable {
		kv.Cover("hit")
		kv.Ensures("C02:a usable response is served", err == nil && resp != nil)
		kv.Ensures("C02:a usable response is served unchanged", resp.StatusCode == cache.SpecStatusOf(g.Got) && resp.ContentLength == cache.SpecLengthOf(g.Got) && resp.Body != nil && kvm.Content(resp.Body) == cache.SpecBodyOf(g.Got))
		kv.Ensures("C25:a hit changes only Age and the debug header", spHeaderSame(resp.Header, h, func(k string) bool { return k == "Age" || isDebug(k) }))
		kv.Ensures("C05:a hit carries its age", kvm.HeaderGet(resp.Header, "Age") == strconv.FormatInt(int64(age/time.Second), 10))
		kv.Ensures("C25:a hit is marked", kv.Implies(mark, spOne(resp.Header, debug, "HIT")))
		kv.Ensures("C07:a hit leaves the cache alone", g.Sets == log.Sets && g.Dels == log.Dels)
		return resp, err
	}

	// the request to the origin
	kv.Ensures("C06:the origin gets the client's request", x.Sent.Method == in.Method && x.Sent.URL == in.URL && x.Sent.Host == in.Host && x.Sent.Body == in.Body)
	etag, since := kvm.HeaderGet(h, "Etag"), kvm.HeaderGet(h, "Last-Modified")
	if since == "" {
		since = kvm.HeaderGet(h, "Date")
	}
	if !found {
		etag, since = "", ""
	}
	{
		kv.Ensures("C06:validation carries the stored ETag", kv.Implies(etag != "", spOne(x.Header, "If-None-Match", etag)))
		kv.Ensures("C06:validation carries the stored Last-Modified or Date", kv.Implies(since != "", spOne(x.Header, "If-Modified-Since", since)))
		kv.Ensures("C06:validation adds no other header", spHeaderSame(x.Header, hdr, func(k string) bool {
			return etag != "" && k == "If-None-Match" || since != "" && k == "If-Modified-Since"
		}))
	}
	if x.Err != nil {
		kv.Cover("origin failure")
		kv.Ensures("C07:an error of the origin is returned", kv.Eq(err, x.Err) && resp == x.Resp)
		kv.Ensures("C07:an error of the origin leaves the cache alone", g.Sets == log.Sets && g.Dels == log.Dels)
		return resp, err
	}
	kv.Ensures("C07:a successful exchange yields a response", err == nil && resp != nil)

	// the response
	validated := found && x.Status == 304
	dcc, force := t.Cache.DefaultCacheControl(), t.Cache.ForceCacheControl()
	if !validated {
		kv.Cover("plain answer")
		kv.Ensures("C06:an answer other than a confirmation is returned", resp.StatusCode == x.Status && resp.ContentLength == x.Length && resp.Body != nil && kv.Implies(kv.GhostInt("lib.failures") == failures, kvm.Content(resp.Body) == x.Body))
		_, present := x.Answer["Cache-Control"]
		set := dcc != "" && (force || !present)
		kv.Ensures("C25:an answer of the origin changes only its Cache-Control", spHeaderSame(resp.Header, x.Answer, func(k string) bool { return set && k == "Cache-Control" }))
		kv.Ensures("C25:the configured Cache-Control is set", kv.Implies(set, spOne(resp.Header, "Cache-Control", dcc)))
	} else {
		kv.Cover("confirmed answer")
		kv.Ensures("C06:a confirmed response is served", resp.StatusCode == cache.SpecStatusOf(g.Got) && resp.ContentLength == cache.SpecLengthOf(g.Got) && resp.Body != nil && kv.Implies(kv.GhostInt("lib.failures") == failures, kvm.Content(resp.Body) == cache.SpecBodyOf(g.Got)))
		_, p1 := x.Answer["Cache-Control"]
		_, p2 := h["Cache-Control"]
		set := dcc != "" && (force || !p1 && !p2)
		kv.Ensures("C06,C25:a confirmed response carries the headers of the confirmation, its own otherwise, and no old age", kv.Forall(func(k string) bool {
			v, ok := resp.Header[k]
			n, isNew := x.Answer[k]
			o, isOld := h[k]
			if set && k == "Cache-Control" {
				return ok && spIsOne(v, dcc)
			}
			if isNew && !spPinned(k) {
				return ok && kv.Same(v, n)
			}
			if k == "Age" {
				return !ok
			}
			if isDebug(k) {
				return ok && spIsOne(v, "HIT")
			}
			return ok == isOld && (!ok || kv.Same(v, o))
		}))
	}

	// the cache
	newTag, oldTag := kvm.HeaderGet(x.Answer, "Etag"), kvm.HeaderGet(h, "Etag")
	confirmed := !validated || newTag == "" || newTag == oldTag
	storable := (!strict || cache.SpecCacheableResponse(resp.StatusCode, resp.Header) && !cache.SpecNoStore(hdr)) &&
		in.Method != "HEAD" && !cache.SpecExcludedContent(t.Cache, kvm.HeaderGet(resp.Header, "Content-Type"), resp.ContentLength)
	stored := g.Sets != log.Sets
	kv.Ensures("C01:only storable responses are stored", kv.Implies(stored, storable))
	kv.Ensures("C06:a response confirmed with another ETag is not stored", kv.Implies(stored, confirmed))
	kv.Ensures("C01,C06:every storable response is stored exactly once", kv.Implies(storable && confirmed && kv.GhostInt("lib.failures") == failures, g.Sets == log.Sets+1))
	kv.Ensures("C07:what is not stored is removed", kv.Implies(!storable || !confirmed, g.Dels == log.Dels+1))
	kv.Ensures("C07:a response is stored or removed, not both", !(stored && g.Dels != log.Dels))
	kv.Ensures("C07:only the key of the request is written or removed", kv.Implies(stored, g.SetKey == key) && kv.Implies(g.Dels != log.Dels, g.DelKey == key))
	if !stored {
		kv.Cover("not stored")
	}
	if validated && stored {
		kv.Cover("confirmed and stored")
	}
	if stored {
		kv.Cover("stored")
		kv.Ensures("C09:what is stored is the response returned", cache.SpecEncodes(g.SetVal) && cache.SpecDumpOf(g.SetVal) == kvm.WireDump(true, resp.StatusCode, resp.ContentLength, resp.Header, kvm.Content(resp.Body)))
		kv.Ensures("C09:the storage time is that of the exchange", cache.SpecTimeOf(g.SetVal) == kvm.ClockLog().Last.Unix())
		kv.Ensures("C09:the entry gets the TTL of its path", cache.SpecPathTTL(t.Cache, in.URL.Path, g.SetTTL))
	}
	return resp, err
}
