package cache

import (
	"kv"
	"kvm"
	"net/http"
	"net/url"
	"path"
)

// SpecPath: the canonical path: rooted, without dot segments, duplicate or trailing slashes.
func SpecPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] == '/' {
		return path.Clean(p)
	}
	return path.Clean("/" + p)
}

// SpecQuery: the parameters sorted by name; verbatim if they do not parse.
func SpecQuery(raw string) string {
	if !kvm.QueryOk(raw) {
		return raw
	}
	return kv.UF[string]("url.encode", kv.MapUF[url.Values]("url.query", raw))
}

func SpecScheme(req *http.Request) string {
	if req.URL.Scheme != "" {
		return req.URL.Scheme
	}
	if req.TLS != nil {
		return "https"
	}
	return "http"
}

// SpecKey: the cache key of a request.
func SpecKey(req *http.Request) string {
	return "kache-" + kvm.UrlString(url.URL{Scheme: SpecScheme(req), Host: req.Host, Path: SpecPath(req.URL.Path), RawQuery: SpecQuery(req.URL.RawQuery)})
}

func spKeyString(k Key) string {
	return k.ClusterName + kvm.UrlString(url.URL{Scheme: k.Scheme, Host: k.Host, Path: k.Path, RawQuery: k.Query})
}

//kv:contract (cache.Key).String C08
func ctKeyString(k Key) string {
	return kv.Is("C08:a key is the URL of its components", k.String(), spKeyString(k))
}

//kv:contract cache.NewKeyFromRequst C08
func ctNewKey(req *http.Request) *Key {
	kv.Requires(req != nil && req.URL != nil)
	k := kv.New("C08:a request always has a key", NewKeyFromRequst(req))
	kv.Ensures("C08:the key consists of scheme, host, canonical path and canonical query", spKeyString(*k) == SpecKey(req))
	return k
}

func spUrl(scheme, host, path, query string) string {
	return kvm.UrlString(url.URL{Scheme: scheme, Host: host, Path: path, RawQuery: query})
}

//kv:lemma C08
func lmKeys() {
	a, b := kv.Any[*http.Request](), kv.Any[*http.Request]()
	kv.Requires(a != nil && b != nil && a.URL != nil && b.URL != nil)
	sa, sb := SpecScheme(a), SpecScheme(b)
	kv.Requires((sa == "http" || sa == "https") && (sb == "http" || sb == "https"))
	pa, pb := SpecPath(a.URL.Path), SpecPath(b.URL.Path)
	qa, qb := SpecQuery(a.URL.RawQuery), SpecQuery(b.URL.RawQuery)
	// url.URL.String is injective for http and https URLs with a rooted path
	kv.Trust("url.URL.String is injective in scheme, host, path and query for http and https URLs with rooted paths")
	kv.Assume(kv.Implies(spUrl(sa, a.Host, pa, qa) == spUrl(sb, b.Host, pb, qb), sa == sb && a.Host == b.Host && pa == pb && qa == qb))
	// url.Values.Encode is injective on parsed queries and its result parses
	va, vb := kv.MapUF[url.Values]("url.query", a.URL.RawQuery), kv.MapUF[url.Values]("url.query", b.URL.RawQuery)
	oka, okb := kvm.QueryOk(a.URL.RawQuery), kvm.QueryOk(b.URL.RawQuery)
	kv.Trust("url.Values.Encode is injective on parsed queries, depends only on their contents, and its result parses")
	same := kv.UF[bool]("url.same", a.URL.RawQuery, b.URL.RawQuery)
	kv.Assume(kv.Implies(oka && okb, (kv.UF[string]("url.encode", va) == kv.UF[string]("url.encode", vb)) == same))
	kv.Assume(kv.Implies(oka, kvm.QueryOk(kv.UF[string]("url.encode", va))))
	kv.Assume(kv.Implies(okb, kvm.QueryOk(kv.UF[string]("url.encode", vb))))
	sameQuery := (oka && okb && same) || (!oka && !okb && a.URL.RawQuery == b.URL.RawQuery)
	kv.Ensures("C08:two requests share a key exactly when they name the same resource",
		(SpecKey(a) == SpecKey(b)) == (sa == sb && a.Host == b.Host && pa == pb && sameQuery))
}
