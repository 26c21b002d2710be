From 2c127f419dc76bb74b3dd360beba5d34c766a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 01/42] fix: age calculation must not wrap around

A response without (or with an ancient) Date header has an apparent age of
MaxInt64; adding the resident time wrapped around to a negative age, so that
the response was considered fresh forever.
---
 pkg/cache/cache_control.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 8f92c7d..03ede51 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -245,8 +245,13 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 
 	// Calculate current age by adding the amount of time (seconds)
 	// since the response was last validated by the origin server.
-	residentTime := now.Sub(responseTime)
-	currentAge := correctedInitialAge + int64(residentTime)
+	// Saturate instead of wrapping around, as the initial age is unbounded if
+	// the date header is missing.
+	residentTime := int64(now.Sub(responseTime))
+	currentAge := int64(math.MaxInt64)
+	if residentTime <= math.MaxInt64-correctedInitialAge {
+		currentAge = correctedInitialAge + residentTime
+	}
 
 	return time.Duration(currentAge).Truncate(time.Second)
 }
-- 
2.43.0


From 5512991ff1a881e4d48e607b3eaeb64c1e23256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 02/42] fix: staleness must not wrap around

With Expires before Date the freshness lifetime is negative, and age minus
lifetime wrapped around for very old responses, so that any max-stale accepted
them. A bare max-stale still accepts any staleness.
---
 pkg/cache/httpcache.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 3e86cbd..571a124 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -27,6 +27,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"net/http/httputil"
 	"regexp"
@@ -427,14 +428,26 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 	if age > freshness { // Stale response.
 		// Check if the response is allowed being served stale,
 		// or if the request max-stale directive prevents it.
-		allowStale := reqCacheControl.MaxStale >= 0 &&
-			reqCacheControl.MaxStale > age-freshness
+		allowStale := reqCacheControl.MaxStale == math.MaxInt64 ||
+			reqCacheControl.MaxStale >= 0 && reqCacheControl.MaxStale > subDuration(age, freshness)
 
 		return resCacheControl.NoStale || !allowStale
 	}
 
 	// Fresh response. Only requires validation if min-fresh requirement is not satisfied.
-	return reqCacheControl.MinFresh >= 0 && reqCacheControl.MinFresh > freshness-age
+	return reqCacheControl.MinFresh >= 0 && reqCacheControl.MinFresh > subDuration(freshness, age)
+}
+
+// subDuration returns a-b, saturating instead of wrapping around.
+func subDuration(a, b time.Duration) time.Duration {
+	d := a - b
+	switch {
+	case b < 0 && d < a:
+		return math.MaxInt64
+	case b > 0 && d > a:
+		return math.MinInt64
+	}
+	return d
 }
 
 // LookupResult wraps the cached response.
-- 
2.43.0


From a3f6c03a68305c1cc610aec41423a4240fe5df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 03/42] fix: ignore invalid durations in Cache-Control

An invalid s-maxage after a valid max-age (or a second, invalid occurrence of
a request directive) discarded the valid value instead of being ignored.
---
 pkg/cache/cache_control.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 03ede51..e117cfc 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -91,12 +91,12 @@ func ParseRequestCacheControl(header string) RequestCacheControl {
 		case "only-if-cached":
 			cc.OnlyIfCached = true
 		case "max-age":
-			cc.MaxAge = parseDuration(arg)
+			setDuration(&cc.MaxAge, arg)
 		case "min-fresh":
-			cc.MinFresh = parseDuration(arg)
+			setDuration(&cc.MinFresh, arg)
 		case "max-stale":
 			if arg != "" {
-				cc.MaxStale = parseDuration(arg)
+				setDuration(&cc.MaxStale, arg)
 			} else {
 				cc.MaxStale = math.MaxInt64
 			}
@@ -163,7 +163,7 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 		case "public":
 			cc.IsPublic = true
 		case "s-maxage":
-			cc.MaxAge = parseDuration(arg)
+			setDuration(&cc.MaxAge, arg)
 		case "max-age":
 			if cc.MaxAge < 0 {
 				cc.MaxAge = parseDuration(arg)
@@ -200,6 +200,13 @@ func parseDuration(s string) time.Duration {
 	return d
 }
 
+// setDuration sets dst to the duration of a directive argument, if it is valid.
+func setDuration(dst *time.Duration, arg string) {
+	if d := parseDuration(arg); d >= 0 {
+		*dst = d
+	}
+}
+
 // parseHttpTime parse a datetime http header value.
 func parseHttpTime(s string) time.Time {
 	if s == "" {
-- 
2.43.0


From 2e82557ee4d9cfa93732f86cdb06cd2f39536c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 04/42] fix: Cache-Control directive names are case-insensitive

Directives such as No-Store were ignored (RFC 9111, section 5.2).
---
 pkg/cache/cache_control.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index e117cfc..f29658d 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -185,7 +185,7 @@ func splitDirective(s string) (dir string, arg string) {
 	} else {
 		dir = strings.TrimSpace(s)
 	}
-	return dir, arg
+	return strings.ToLower(dir), arg // directive names are case-insensitive.
 }
 
 // parseDuration parses a directive argument and returns a valid duration in
-- 
2.43.0


From 15bcae8f96fb427a2dfca6577c2fb59a5824bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 05/42] fix: consider every Cache-Control header line

Only the first line was read, so that for instance a separate no-store line
had no effect.
---
 pkg/cache/cache_control.go | 5 +++++
 pkg/cache/cacheable.go     | 3 +--
 pkg/cache/httpcache.go     | 8 ++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index f29658d..81e7fb4 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -173,6 +173,11 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 	return cc
 }
 
+// cacheControl returns the combined value of all Cache-Control lines of a header.
+func cacheControl(h http.Header) string {
+	return strings.Join(h.Values(HeaderCacheControl), ",")
+}
+
 // splitDirective splits the cache control directive into its token and optional argument.
 // Grammar (https://httpwg.org/specs/rfc7234.html#header.cache-control):
 //
diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index e2f6a90..5592dc9 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -116,8 +116,7 @@ func IsCacheableRequest(req *http.Request) bool {
 // then its response is also not cacheable. Hence, CanServeRequestFromCache and
 // `IsCacheableResponse` together should cover the cacheability of the response.
 func IsCacheableResponse(res *http.Response) bool {
-	cacheControl := res.Header.Get(HeaderCacheControl)
-	resCacheControl := ParseResponseCacheControl(cacheControl)
+	resCacheControl := ParseResponseCacheControl(cacheControl(res.Header))
 
 	// Only cache responses with enough data to calculate freshness lifetime:
 	// https://httpwg.org/specs/rfc7234.html#calculating.freshness.lifetime
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 571a124..7658daf 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -361,10 +361,10 @@ type LookupRequest struct {
 func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *LookupRequest {
 	var requestCacheControl RequestCacheControl
 	requestCacheControl.SetDefaults()
-	cacheControl := req.Header.Get(HeaderCacheControl)
+	reqCacheControl := cacheControl(req.Header)
 
-	if cacheControl != "" {
-		requestCacheControl = ParseRequestCacheControl(cacheControl)
+	if reqCacheControl != "" {
+		requestCacheControl = ParseRequestCacheControl(reqCacheControl)
 	} else {
 		// Fallback to Pragma header, if Cache-Control is missing.
 		// According to https://httpwg.org/specs/rfc7234.html#header.pragma, when the Cache-Control
@@ -405,7 +405,7 @@ func (l *LookupRequest) makeResult(res *http.Response, resTime time.Time) *Looku
 
 // requiresValidation checks if the cached response needs to be validated by the origin.
 func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duration) bool {
-	resCacheControl := ParseResponseCacheControl(header.Get(HeaderCacheControl))
+	resCacheControl := ParseResponseCacheControl(cacheControl(*header))
 	reqCacheControl := l.ReqCacheControl
 
 	maxAgeExceeded := reqCacheControl.MaxAge >= 0 && reqCacheControl.MaxAge < age
-- 
2.43.0


From ffa472a0ed3578ba0b15002296ea6b0be41b424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 06/42] fix: do not crash on an unexpected 304

A 304 from the origin without a stored response to validate dereferenced the
nil cached response.
---
 pkg/server/middleware/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c88a3c9..f773658 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -147,7 +147,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	shouldUpdateCachedEntry := true
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cached.Status == cache.EntryRequiresValidation {
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
 		resEtag := resp.Header.Get(cache.HeaderEtag)
-- 
2.43.0


From 54a7dc88259063ac8d8e98b2b661bfd24e76864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:41 +0000
Subject: [PATCH 07/42] fix: mark cache hits only if the debug header is
 enabled

---
 pkg/server/middleware/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index f773658..02c2cc9 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -188,7 +188,9 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-	cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	if t.Cache.MarkCachedResponses() {
+		cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
 	return cached.Response(), nil
 }
 
-- 
2.43.0


From 8292e518f670de3129f498ecfd638d6c2246488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 08/42] fix: send the Date fallback validator as
 If-Modified-Since

It was sent as a Last-Modified request header, which has no meaning, so that
responses without validators were never confirmed by a 304.
---
 pkg/server/middleware/httpcache.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 02c2cc9..3465e25 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -229,11 +229,10 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 	if lastModified := header.Get(cache.HeaderLastModified); lastModified != "" {
 		forkReq()
 		req.Header.Set(cache.HeaderIfModifiedSince, lastModified)
-	} else {
+	} else if date := header.Get(cache.HeaderDate); date != "" {
 		// Fallback to Date header if Last-Modified is missing.
 		forkReq()
-		date := header.Get(cache.HeaderDate)
-		req.Header.Set(cache.HeaderLastModified, date)
+		req.Header.Set(cache.HeaderIfModifiedSince, date)
 	}
 
 	return req
-- 
2.43.0


From cf91c42023c30f58362e2953a58df1dd26260df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 09/42] fix: do not add an empty Cache-Control header

Without a configured default every response lacking the header got an empty
one, and forcing wiped the origin's header.
---
 pkg/server/middleware/httpcache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 3465e25..8371360 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -240,6 +240,9 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 
 // updateCacheControl sets or updates the cache-control header.
 func updateCacheControl(header http.Header, val string, force bool) {
+	if val == "" {
+		return
+	}
 	overwrite := force
 	if _, presentcc := header["Cache-Control"]; !presentcc || overwrite {
 		header["Cache-Control"] = []string{val}
-- 
2.43.0


From 3bca1becf4967ca36371d41cf9d5205714378c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 10/42] fix: malformed query parameters must not be dropped
 from the cache key

Requests differing only in parameters that do not parse (such as a;b or %zz)
shared a key although they are forwarded verbatim.
---
 pkg/cache/key.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 38eed29..99d75c3 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -47,7 +47,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		ClusterName: "kache-",
 		Host:        req.Host,
 		Path:        cleanPath(req.URL.Path),
-		Query:       req.URL.Query().Encode(),
+		Query:       canonicalQuery(req.URL),
 		Scheme:      req.URL.Scheme,
 	}
 	if key.Scheme == "" {
@@ -94,3 +94,13 @@ func cleanPath(p string) string {
 	}
 	return path.Clean(p)
 }
+
+// canonicalQuery returns the query of u with its parameters sorted by name.
+// A query with malformed parameters, which parsing drops, is left as it is.
+func canonicalQuery(u *url.URL) string {
+	query, err := url.ParseQuery(u.RawQuery)
+	if err != nil {
+		return u.RawQuery
+	}
+	return query.Encode()
+}
-- 
2.43.0


From 5ecf46c3d88a0105fe541137c11eabdc2b74fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 11/42] fix: purge, flush, list and count the in-memory cache
 under its lock

---
 pkg/provider/inmemory.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 06a1ca4..cac479f 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -212,7 +212,7 @@ func itemSize(b []byte) uint64 {
 	return sliceHeaderSize + uint64(len(b))
 }
 
-// reset resets the cache.
+// reset resets the cache. Guarded by caller.
 func (c *inMemoryCache) reset() {
 	c.inner.Purge()
 	c.curSize = 0
@@ -235,6 +235,9 @@ func (c *inMemoryCache) _delete(_ context.Context, key string) bool {
 // Keys returns a slice of the keys in the cache, from oldest to newest. It doesn't check TTL
 // of the returned keys (TODO).
 func (c *inMemoryCache) Keys(_ context.Context, prefix string) []string {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	if prefix == "" {
 		return c.inner.Keys()
 	}
@@ -257,9 +260,12 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 	if err != nil {
 		return err
 	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	for _, k := range c.inner.Keys() {
 		if r.MatchString(k) {
-			c.Delete(ctx, k)
+			c._delete(ctx, k)
 		}
 	}
 	return nil
@@ -267,12 +273,18 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all elements from the cache.
 func (c *inMemoryCache) Flush(ctx context.Context) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	c.reset()
 	return nil
 }
 
 // Size returns the number of entries currently stored in the Cache.
 func (c *inMemoryCache) Size() int {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	return c.inner.Len()
 }
 
-- 
2.43.0


From 95f7ec1122c0a6fa88805df5522ce67e4daa730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 12/42] fix: purge patterns match literally, except for *

---
 pkg/provider/inmemory.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index cac479f..bdf30bc 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -293,10 +293,6 @@ func (c *inMemoryCache) Size() int {
 // TODO: check if we should use a module for this or implement it ourselves and not use regex.
 func wildcardToRegex(pattern string) string {
 	parts := strings.Split(pattern, "*")
-	if len(parts) == 1 {
-		// No *'s, return exact match pattern.
-		return "^" + pattern + "$"
-	}
 	var result strings.Builder
 	for i, p := range parts {
 		// Replace * with .*
@@ -306,5 +302,6 @@ func wildcardToRegex(pattern string) string {
 		// Quote any regular expression meta character.
 		_, _ = result.WriteString(regexp.QuoteMeta(p))
 	}
-	return "^" + result.String() + "$"
+	// A * matches any character, including newlines.
+	return "(?s)^" + result.String() + "$"
 }
-- 
2.43.0


From 942fcdf75ae9863f12fff689373ca1010ac1af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 13/42] fix: drop the expiry of evicted in-memory items

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index bdf30bc..56a34e6 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -144,6 +144,7 @@ func NewInMemoryCache(config InMemoryCacheConfig) (Provider, error) {
 // onEvict is the eviction callback.
 func (c *inMemoryCache) onEvict(key string, val []byte) {
 	c.curSize -= itemSize(val)
+	delete(c.ttl, key)
 }
 
 // Get retrieves an element based on the provided key.
-- 
2.43.0


From e5ae12d9a3c876ff18456158f5b74781af7d648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 14/42] fix: do not keep the outdated value of an item that
 became too large

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 56a34e6..dc202ec 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -175,6 +175,7 @@ func (c *inMemoryCache) Set(key string, value []byte, ttl time.Duration) {
 	size := itemSize(value)
 	if size > c.maxItemSizeBytes {
 		log.Debug().Msg("Item is bigger than maxItemSize")
+		c._delete(context.Background(), key) // do not keep an outdated value.
 		return
 	}
 
-- 
2.43.0


From 8d4efbf02df579c87f771c8b54f6b0407f7560ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 15/42] fix: evict expired in-memory items unless the default
 TTL is -1

---
 pkg/provider/inmemory.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index dc202ec..fc12589 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -100,9 +100,8 @@ func (c *InMemoryCacheConfig) Sanitize() {
 	}
 	if len(c.DefaultTTL) == 0 {
 		c.DefaultTTL = DefaultInMemoryCacheConfig.DefaultTTL
-	} else {
-		c.TTLEviction = c.DefaultTTL != "-1"
 	}
+	c.TTLEviction = c.DefaultTTL != "-1"
 }
 
 // NewInMemoryCache creates a new thread-safe LRU in memory cache.
-- 
2.43.0


From 3a809cfaa5ec46ce2c59349a62caa35de565b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 16/42] fix: never fill the local cache with what is being
 removed

---
 pkg/provider/cached.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index e465220..50c3cc8 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -97,18 +97,20 @@ func (c *Cached) Get(ctx context.Context, key string) []byte {
 
 // Set adds an element to the cache.
 func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
-	c.inner.Set(key, value, ttl)
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	c.inner.Set(key, value, ttl)
 	c.outer.Set(key, value, ttl)
 }
 
 // Delete deletes an element in the cache.
 func (c *Cached) Delete(ctx context.Context, key string) bool {
+	// Remove from inner first, a concurrent lookup could fill outer from it again otherwise.
+	ok := c.inner.Delete(ctx, key)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.outer.Delete(ctx, key)
-	c.mu.Unlock()
-	return c.inner.Delete(ctx, key)
+	return ok
 }
 
 // Keys returns a slice of cache keys.
@@ -118,18 +120,20 @@ func (c *Cached) Keys(ctx context.Context, prefix string) []string {
 
 // Purge purges all keys matching the spedified pattern from the cache.
 func (c *Cached) Purge(ctx context.Context, pattern string) error {
+	err := c.inner.Purge(ctx, pattern)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Purge(ctx, pattern)
-	c.mu.Unlock()
-	return c.inner.Purge(ctx, pattern)
+	return err
 }
 
 // Flush deletes all elements from the cache.
 func (c *Cached) Flush(ctx context.Context) error {
+	err := c.inner.Flush(ctx)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Flush(ctx)
-	c.mu.Unlock()
-	return c.inner.Flush(ctx)
+	return err
 }
 
 // Size returns the number of entries currently stored in the Cache.
-- 
2.43.0


From f5630e1207a9de7d167f3198f466f32e8ace1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 17/42] fix: a failed key listing from redis must not crash

---
 pkg/provider/redis_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index ea37fbb..a9964c4 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -163,7 +163,7 @@ func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 		keys = append(keys, iter.Val())
 	}
 	if err := iter.Err(); err != nil {
-		panic(err)
+		log.Error().Err(err).Str("prefix", prefix).Msg("Error listing keys from redis")
 	}
 	return keys
 }
-- 
2.43.0


From d447eae5ff05d304eea6f624b6f9ff070fc0c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 18/42] fix: reject a redis configuration without workers or
 endpoint

---
 pkg/provider/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/provider/provider.go b/pkg/provider/provider.go
index ccaa6ec..f606b01 100644
--- a/pkg/provider/provider.go
+++ b/pkg/provider/provider.go
@@ -167,6 +167,9 @@ func _createCacheProvider(name string, config ProviderBackendConfig) (Provider,
 	case BackendInMemory:
 		return NewInMemoryCache(config.InMemory)
 	case BackendRedis:
+		if err := config.Redis.Validate(); err != nil {
+			return nil, err
+		}
 		client, err := NewRedisClient(name, config.Redis)
 		if err != nil {
 			return nil, errors.Join(err, errors.New("failed to create redis client"))
-- 
2.43.0


From 89a6de88097a7571d803057089ceae66cd554300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 19/42] fix: an access list of networks only must be enforced

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 9361c4b..bcae033 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -86,7 +86,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 // request bypasses the filter.
 func (f *IPFilter) Wrap(next http.HandlerFunc) http.HandlerFunc {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
-		if len(f.allowedIPs) == 0 {
+		if len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0 {
 			next(w, r)
 			return
 		}
-- 
2.43.0


From 4239653330755e3cd50b53289dd139e7a6aecc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 20/42] fix: accept IPv6 peer addresses on the access list

---
 pkg/api/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index bcae033..5e0c79c 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -129,8 +129,8 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	// The default is the originating IP. But, we try to find better
 	// options as this is almost never the right IP we're looking for.
 	addr := ""
-	if parts := strings.Split(req.RemoteAddr, ":"); len(parts) == 2 {
-		addr = parts[0]
+	if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+		addr = host
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-- 
2.43.0


From b7a2b3db69da503e14eec3a47f5e6d3db6cec5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 21/42] fix: consider every X-Forwarded-For header line

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 5e0c79c..4915ed2 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -134,7 +134,7 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-	if xff := strings.Trim(req.Header.Get("X-Forwarded-For"), ","); len(xff) > 0 {
+	if xff := strings.Trim(strings.Join(req.Header.Values("X-Forwarded-For"), ","), ","); len(xff) > 0 {
 		addrs := strings.Split(xff, ",")
 		last := strings.TrimSpace(addrs[len(addrs)-1])
 		return netip.ParseAddr(last)
-- 
2.43.0


From 1976b60b56bf8d558e8e0121990383a9e427ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 22/42] fix: answer 503 whenever no target matches

---
 pkg/server/server.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index af6aa14..7474d4a 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -138,16 +138,16 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
 
+	// An unmatched request is cancelled by the director; depending on the
+	// request, the transport may report another error than the cancellation.
+	cErr := context.Cause(req.Context())
+
 	switch {
-	case errors.Is(err, context.Canceled):
-		ctx := req.Context()
-		cErr := context.Cause(ctx)
-		if errors.Is(cErr, ErrMatchingTarget) {
-			status = http.StatusServiceUnavailable
-			err = cErr
-		} else { // client canceled request
-			status = http.StatusBadGateway
-		}
+	case errors.Is(cErr, ErrMatchingTarget):
+		status = http.StatusServiceUnavailable
+		err = cErr
+	case errors.Is(err, context.Canceled): // client canceled request
+		status = http.StatusBadGateway
 	case errors.Is(err, io.EOF):
 		status = http.StatusBadGateway
 	default: // connection error
-- 
2.43.0


From 797166daae6a6bd067147cdd1215f5f54a97eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 23/42] fix: keep the encoding of the request path when joining
 it to the upstream path

---
 pkg/server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 7474d4a..22d1882 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -189,7 +189,10 @@ func (s *Server) Director() func(req *http.Request) {
 		req.URL.Scheme = upstream.Scheme
 		req.URL.Host = upstream.Host
 
-		// Path is forwarded as-is.
+		// Path is forwarded as-is, including its original encoding.
+		if upstream.RawPath != "" || req.URL.RawPath != "" {
+			req.URL.RawPath = singleJoiningSlash(upstream.EscapedPath(), req.URL.EscapedPath())
+		}
 		req.URL.Path = singleJoiningSlash(upstream.Path, req.URL.Path)
 
 		// Pass host header
-- 
2.43.0


From fc6a9ef3218f8c27bc5f512da9539e02e44c1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 24/42] fix: answer requests whose exchange takes longer than a
 second

---
 pkg/server/server_listener.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/server/server_listener.go b/pkg/server/server_listener.go
index 69e555f..9be225c 100644
--- a/pkg/server/server_listener.go
+++ b/pkg/server/server_listener.go
@@ -98,8 +98,10 @@ func NewListener(ctx context.Context, cfg *config.Listener, handler http.Handler
 		Handler: handler,
 		// TODO: set ErrorLog
 		// TODO: make timeouts configurable
-		ReadTimeout:  1 * time.Second,
-		WriteTimeout: 1 * time.Second,
+		ReadTimeout: 1 * time.Second,
+		// Must not expire before the request timeout, or a slow exchange
+		// ends without any response.
+		WriteTimeout: DefaultTimeout + 5*time.Second,
 		IdleTimeout:  30 * time.Second,
 	}
 
-- 
2.43.0


From f6d375c6388b1684d3a199217e54ca467a6280f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 25/42] fix: report a configuration file that does not parse on
 every reload

---
 pkg/config/loader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 718f540..8d1e329 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -77,7 +77,6 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if bytes.Equal(l.configHash, hash) {
 		return false, nil
 	}
-	l.configHash = hash
 
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
@@ -87,6 +86,9 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 		return false, err
 	}
 
+	// Only remember what has been loaded, so that a broken file
+	// is reported again instead of being taken for unchanged.
+	l.configHash = hash
 	l.config.Store(config)
 
 	return true, nil
-- 
2.43.0


From 3c85952d303f2a9b522a691b210951b7d34212b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 26/42] fix: reloading a configuration with an empty cache
 section must not crash

---
 pkg/cache/httpcache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 7658daf..7eb9955 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -158,6 +158,10 @@ func (c *HttpCache) loadConfig() *HttpCacheConfig {
 
 // UpdateConfig updates the cache config in a concurrent safe way.
 func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
+	if config == nil {
+		config = &HttpCacheConfig{Strict: true}
+	}
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
-- 
2.43.0


From 835291287d5e77ae2f8703038b68215e286b7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 27/42] fix: cache mode is strict unless configured otherwise

---
 pkg/config/loader.go   | 6 +++++-
 pkg/server/handlers.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 8d1e329..e4ec229 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -32,6 +32,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 	"gopkg.in/yaml.v3"
 )
@@ -81,7 +82,10 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
 
-	config := &Configuration{}
+	// The cache mode is strict unless the file says otherwise.
+	config := &Configuration{
+		HttpCache: &cache.HttpCacheConfig{Strict: true},
+	}
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 66d955f..7929d96 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -113,7 +113,7 @@ func (s *Server) CacheConfigUpdateHandler(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	var c cache.HttpCacheConfig
+	c := cache.HttpCacheConfig{Strict: true}
 	dec := yaml.NewDecoder(bytes.NewReader(body))
 	if err := dec.Decode(&c); err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From 2446cb1fe7acf74a6a992553d297280f31b325bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 28/42] fix: serialize concurrent configuration loads

---
 pkg/config/loader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index e4ec229..20e4dec 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -29,6 +29,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -47,6 +48,9 @@ type Loader struct {
 	config     atomic.Pointer[Configuration]
 	configHash []byte
 
+	// mu serializes loading; it protects configHash.
+	mu sync.Mutex
+
 	Events chan bool
 	done   chan struct{}
 }
@@ -68,6 +72,9 @@ func NewLoader(path string, watch bool, interval time.Duration) (*Loader, error)
 
 // Load reads the YAML-formatted config.
 func (l *Loader) Load(ctx context.Context) (bool, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	buf, err := os.ReadFile(l.path)
 	if err != nil {
 		return false, err
@@ -110,6 +117,8 @@ func (l *Loader) Path() string {
 
 // Checksum returns the calculated checksum of the config.
 func (l *Loader) Checksum() string {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	return hex.EncodeToString(l.configHash)
 }
 
-- 
2.43.0


From 1d9808c58446b9df723a58dd77054f64ddaf0b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 29/42] fix: apply a configuration that changed before watching
 it began

---
 pkg/config/loader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 20e4dec..3e938f6 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -129,10 +129,15 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
-	if _, err := l.Load(ctx); err != nil {
+	changed, err := l.Load(ctx)
+	if err != nil {
 		return err
 	}
 	go func() {
+		// The file may have changed since it was loaded first.
+		if changed {
+			l.notifyChange()
+		}
 		tick := time.NewTicker(l.watchInterval)
 		defer tick.Stop()
 		for {
-- 
2.43.0


From d2248c211b62f0b3c41ad81f31c03370b1aa1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 30/42] fix: root the path of a broadcast purge

A configured API prefix need not start with a slash; the address of
the peer was then malformed and the invalidation never delivered.
---
 pkg/server/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 7929d96..dd49539 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -137,5 +137,5 @@ func (s *Server) broadcastPurge(req *http.Request) {
 	}
 
 	s.cluster.Broadcast(req, "api", http.MethodDelete,
-		path.Join(s.cfg.API.GetPrefix(), "/cache/invalidate"))
+		path.Join("/", s.cfg.API.GetPrefix(), "/cache/invalidate"))
 }
-- 
2.43.0


From 0cf84b9ed875d8bd85c4225283ad5df66d96a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 31/42] fix: a purge that is itself a broadcast must not be
 broadcast again

---
 pkg/server/handlers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index dd49539..02e2b44 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -135,6 +135,9 @@ func (s *Server) broadcastPurge(req *http.Request) {
 	if s.cluster == nil || !s.cfg.Provider.Layered {
 		return
 	}
+	if _, ok := req.Header["X-Kache-Cluster"]; ok {
+		return // already a broadcast
+	}
 
 	s.cluster.Broadcast(req, "api", http.MethodDelete,
 		path.Join("/", s.cfg.API.GetPrefix(), "/cache/invalidate"))
-- 
2.43.0


From bde3ed02c8817f0161bbcfa66c47111f559b445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 32/42] fix: an unreachable peer must not crash the broadcast
 queue

---
 pkg/cluster/rqueue.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 5099c0f..21bca6f 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -100,6 +100,7 @@ func (q *RequestQueue) process() {
 					Str("url", msg.Request.URL.String()).
 					Msg("Error request")
 				q.retry(msg)
+				continue
 			}
 			if resp.StatusCode >= 400 && resp.StatusCode <= 599 {
 				log.Error().Err(err).
@@ -108,14 +109,12 @@ func (q *RequestQueue) process() {
 					Msg("Error response")
 				q.retry(msg)
 			}
-			if resp != nil {
-				log.Debug().Str("url", msg.Request.URL.String()).Int("status", resp.StatusCode).
-					Msg("Message sent")
+			log.Debug().Str("url", msg.Request.URL.String()).Int("status", resp.StatusCode).
+				Msg("Message sent")
 
-				// Discard and close body to reuse connection.
-				_, _ = io.Copy(io.Discard, resp.Body)
-				_ = resp.Body.Close()
-			}
+			// Discard and close body to reuse connection.
+			_, _ = io.Copy(io.Discard, resp.Body)
+			_ = resp.Body.Close()
 		case <-q.done:
 			return
 		}
-- 
2.43.0


From 452fa63fa73693c88a780bc11939223a79829137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 33/42] fix: retry a broadcast with its full body

The body was read by the first attempt, so that every retry failed or
was sent without one.
---
 pkg/cluster/kubernetes.go |  2 +-
 pkg/cluster/rqueue.go     | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d89c8cd..08d9736 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -144,7 +144,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
 		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
-		out, err := http.NewRequest(method, url, io.NopCloser(bytes.NewBuffer(body)))
+		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
 			continue
diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 21bca6f..d2f3508 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -94,7 +94,7 @@ func (q *RequestQueue) process() {
 	for {
 		select {
 		case msg := <-q.Queue:
-			resp, err := client.Do(msg.Request)
+			resp, err := client.Do(attempt(msg.Request))
 			if err != nil {
 				log.Error().Err(err).
 					Str("url", msg.Request.URL.String()).
@@ -121,6 +121,18 @@ func (q *RequestQueue) process() {
 	}
 }
 
+// attempt returns a copy of the request to be sent. The body of the
+// request is used up by every attempt to send it.
+func attempt(req *http.Request) *http.Request {
+	out := req.Clone(req.Context())
+	if req.GetBody != nil {
+		if body, err := req.GetBody(); err == nil {
+			out.Body = body
+		}
+	}
+	return out
+}
+
 func (q *RequestQueue) retry(msg Message) {
 	msg.Attempt++
 	if msg.Attempt < q.Options.MaxRetries {
-- 
2.43.0


From 6e880d4e2a912ef3e066f7fcc0ebccd30a7a4c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 34/42] fix: broadcasting a request without a body must not
 crash

---
 pkg/cluster/kubernetes.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 08d9736..6382433 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -132,10 +132,13 @@ func (c *client) Endpoints(portname string) []Endpoint {
 
 // Broadcast broadcasts the given request to cluster endpoints specified by portname.
 func (c *client) Broadcast(req *http.Request, portname, method, path string) {
-	body, err := io.ReadAll(req.Body)
-	if err != nil {
-		log.Error().Err(err).Msg("Error reading body")
-		return
+	var body []byte
+	if req.Body != nil {
+		var err error
+		if body, err = io.ReadAll(req.Body); err != nil {
+			log.Error().Err(err).Msg("Error reading body")
+			return
+		}
 	}
 
 	endpoints := c.Endpoints(portname)
-- 
2.43.0


From e68b4b00a1e49fed97de309cd4e5772f8ddfdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 35/42] fix: look up the service port in each subset of
 endpoints

A subset without the port was given the port of the subset before.
---
 pkg/cluster/kubernetes.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 6382433..5d33e23 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -102,12 +102,10 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		return nil
 	}
 
-	var (
-		port      int32
-		endpoints []Endpoint
-	)
+	var endpoints []Endpoint
 
 	for _, e := range eps.Subsets {
+		var port int32
 		for _, p := range e.Ports {
 			if p.Name != portname {
 				continue
-- 
2.43.0


From af1997e6971f27a62e4de294689b6afda559b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 36/42] fix: an endpoint without target reference must not
 crash

---
 pkg/cluster/kubernetes.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 5d33e23..d17727f 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -117,11 +117,14 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		}
 		for _, addr := range e.Addresses {
 			// TODO: check endpoint/pod is healthy.
-			endpoints = append(endpoints, Endpoint{
-				Name: addr.TargetRef.Name,
+			ep := Endpoint{
 				Host: addr.IP,
 				Port: int(port),
-			})
+			}
+			if addr.TargetRef != nil {
+				ep.Name = addr.TargetRef.Name
+			}
+			endpoints = append(endpoints, ep)
 		}
 	}
 
-- 
2.43.0


From bcfd940b4ba1598c9cd5f24cd5ed652ffdc2991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 37/42] fix: broadcast to endpoints with an IPv6 address

---
 pkg/cluster/kubernetes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d17727f..4198924 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -27,9 +27,11 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"net"
 	"net/http"
 	"os"
 	"path/filepath"
+	"strconv"
 	"time"
 
 	"github.com/rs/zerolog/log"
@@ -147,7 +149,8 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
-		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
+		host := net.JoinHostPort(ep.Host, strconv.Itoa(ep.Port))
+		url := fmt.Sprintf("%s://%s%s", "http", host, path)
 		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
-- 
2.43.0


From 4413c421ec872d0323d1e13e7e6ac0706237e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 38/42] fix: forward the client address of a broadcast without
 its port

With the port, the access list of a peer never takes it for an address.
---
 pkg/cluster/kubernetes.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 4198924..e5d5c46 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -144,6 +144,12 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 		}
 	}
 
+	// The address of the client, without its port.
+	client := req.RemoteAddr
+	if host, _, err := net.SplitHostPort(client); err == nil {
+		client = host
+	}
+
 	endpoints := c.Endpoints(portname)
 	log.Debug().Msgf("Cluster broadcast to: %v", endpoints)
 
@@ -157,7 +163,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		out.Header.Set("X-Forwarded-For", req.RemoteAddr)
+		out.Header.Set("X-Forwarded-For", client)
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
 
-- 
2.43.0


From a511e84d85fbc60143519b53e82e3f1b6c4aaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 39/42] fix: range requests bypass the cache

---
 pkg/cache/cacheable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 5592dc9..94a2bf9 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -41,6 +41,7 @@ const (
 
 	// Request headers
 	HeaderPragma            = "Pragma"
+	HeaderRange             = "Range"
 	HeaderIfRange           = "If-Range"
 	HeaderIfMatch           = "If-Match"
 	HeaderIfNoneMatch       = "If-None-Match"
@@ -100,6 +101,12 @@ func IsCacheableRequest(req *http.Request) bool {
 		}
 	}
 
+	// Partial responses are not combined and share the key of the
+	// complete response, hence range requests bypass the cache.
+	if _, ok := req.Header[HeaderRange]; ok {
+		return false
+	}
+
 	// Check if the request contains authorization headers.
 	// For now, requests with authorization headers bypass the cache.
 	// https://httpwg.org/specs/rfc7234.html#caching.authenticated.responses
-- 
2.43.0


From 185d3987b6972492f56e855c164bf1f61888f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 40/42] fix: only coalesce requests whose response can be
 shared

---
 pkg/server/middleware/coalesce.go | 34 +++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 8f6cac4..9ad07cf 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -32,6 +32,22 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// unshareable holds the request headers that restrict the response
+// to the requesting client. Requests carrying any of them are not coalesced.
+var unshareable = []string{
+	"Authorization",
+	"Cache-Control",
+	"Cookie",
+	"If-Match",
+	"If-Modified-Since",
+	"If-None-Match",
+	"If-Range",
+	"If-Unmodified-Since",
+	"Pragma",
+	"Range",
+	"Upgrade",
+}
+
 // requestCoalescer allows concurrent requests for the same URL to share
 // a single upstream request and response. Once a request is received for
 // processing for the first time, it will execute a HTTP transaction, obtaining
@@ -73,8 +89,8 @@ func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 // requests are blocked until the original request completes. The resulting
 // response is shared with all waiting requests.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
-	// Only coalesce GET requests.
-	if req.Method != http.MethodGet {
+	// Only coalesce GET requests for a response that can be shared.
+	if !shareable(req) {
 		return coalescer.next.RoundTrip(req)
 	}
 
@@ -159,3 +175,17 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 
 	return resp, nil
 }
+
+// shareable reports whether the response to a request can be shared with
+// concurrent requests for the same URL.
+func shareable(req *http.Request) bool {
+	if req.Method != http.MethodGet || req.Body != nil && req.Body != http.NoBody {
+		return false
+	}
+	for _, h := range unshareable {
+		if _, ok := req.Header[h]; ok {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From abac709bae32a8b7cc00adb2ca355b182beac814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 41/42] fix: release coalesced requests if the exchange panics

---
 pkg/server/middleware/coalesce.go | 59 ++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 9ad07cf..7096d99 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -25,6 +25,7 @@ package middleware
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"net/http"
 	"net/http/httputil"
 	"sync"
@@ -32,6 +33,9 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// errAborted is the result of waiting calls whose initial request panicked.
+var errAborted = errors.New("coalesced request aborted")
+
 // unshareable holds the request headers that restrict the response
 // to the requesting client. Requests carrying any of them are not coalesced.
 var unshareable = []string{
@@ -144,29 +148,18 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	coalescer.inflights[key] = inflight
 	coalescer.Unlock()
 
+	// Release the waiting calls even if the request panics.
+	completed := false
+	defer func() {
+		if !completed {
+			coalescer.complete(key, inflight, nil, errAborted)
+		}
+	}()
+
 	// Execute e2e request.
 	resp, err := coalescer.next.RoundTrip(req)
-
-	// Upstream response received. Remove inflight request from the map.
-	// Important: Removing the inflight request before waking up waiting
-	// calls is crucial, otherwise race conditions and memory leaks occur.
-	coalescer.Lock()
-	delete(coalescer.inflights, key)
-	coalescer.Unlock()
-
-	// Wake up any suspended callers waiting for this response.
-	inflight.L.Lock()
-	if inflight.coalesced {
-		if err != nil {
-			inflight.resp, inflight.err = nil, err
-		} else {
-			// Copy the response before releasing it to waiter(s).
-			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
-		}
-		// Wake up all waiting routines.
-		inflight.Broadcast()
-	}
-	inflight.L.Unlock()
+	completed = true
+	coalescer.complete(key, inflight, resp, err)
 
 	if err != nil {
 		log.Error().Err(err).Str("key", key).Send()
@@ -189,3 +182,27 @@ func shareable(req *http.Request) bool {
 	}
 	return true
 }
+
+// complete removes the inflight request and passes its result to all waiting calls.
+func (coalescer *requestCoalescer) complete(key string, inflight *call, resp *http.Response, err error) {
+	// Upstream response received. Remove inflight request from the map.
+	// Important: Removing the inflight request before waking up waiting
+	// calls is crucial, otherwise race conditions and memory leaks occur.
+	coalescer.Lock()
+	delete(coalescer.inflights, key)
+	coalescer.Unlock()
+
+	// Wake up any suspended callers waiting for this response.
+	inflight.L.Lock()
+	if inflight.coalesced {
+		if err != nil {
+			inflight.resp, inflight.err = nil, err
+		} else {
+			// Copy the response before releasing it to waiter(s).
+			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
+		}
+		// Wake up all waiting routines.
+		inflight.Broadcast()
+	}
+	inflight.L.Unlock()
+}
-- 
2.43.0


From 8afdc3d12096cb33dcf09a1f90022ed94e34a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 42/42] fix: apply reloaded configurations one after the other

Reloads by file change, signal and API run concurrently. One that read
the loaded config before a newer one was loaded could apply it after the
newer one, which then stayed ineffective until the file changed again.
---
 pkg/kache/kache.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index 2eced2c..1c6ffe3 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 	"time"
 
@@ -51,6 +52,9 @@ type Kache struct {
 	Server   *server.Server
 	Cache    *cache.HttpCache
 	Provider *provider.Provider
+
+	// applyMu serializes applying the loaded config.
+	applyMu sync.Mutex
 }
 
 // New makes a new Kache.
@@ -147,6 +151,10 @@ func (t *Kache) reloadConfig(ctx context.Context) error {
 
 // applyConfig applies the config to modules.
 func (t *Kache) applyConfig() {
+	// Reloads may run concurrently; the config loaded last must win.
+	t.applyMu.Lock()
+	defer t.applyMu.Unlock()
+
 	t.Config = t.loader.Config()
 	t.Cache.UpdateConfig(t.Config.HttpCache)
 }
-- 
2.43.0

