#!/usr/bin/env python3
# Generates /verif/properties.jsonl (the source of the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

MW="pkg/server/middleware/httpcache.go"; HC="pkg/cache/httpcache.go"; CA="pkg/cache/cacheable.go"; CC="pkg/cache/cache_control.go"
IM="pkg/provider/inmemory.go"; LC="pkg/provider/cached.go"; RC="pkg/provider/redis_client.go"; RM="pkg/provider/remote.go"; Q="pkg/provider/queue.go"

p("C01","Strict mode stores exactly the storable responses",
  "In strict mode, a response fetched from the origin is written to the cache only if the request was a GET whose Cache-Control does not say no-store, the response (after the configured default/forced Cache-Control is applied) carries no no-store or private directive, has a cacheable status code, carries no-cache, a max-age/s-maxage or both Date and Expires, and its content type/size is not excluded. On a cache miss every response meeting these conditions is written exactly once, under the key of its request. A HEAD response is never written, in any mode.",
  ["inputs","configurations"],"every request, every origin response (status, headers), every cache configuration",
  "Tests try a few dozen header combinations; the rule is a conjunction over unbounded header values, statuses and configurations, and a single missed combination caches private data.",
  [MW,HC,CA],[("store gate after the upstream answer",MW),("response cacheability rule",CA)],["writes reaching the cache backend after a proxied exchange"])

p("C02","A stored response is reused only while the request and response allow it",
  "In strict mode a stored response is served without contacting the origin exactly when neither the request nor the stored response carries no-cache, its age does not exceed the request's max-age, and either it is fresh with at least the requested min-fresh left, or it is stale, the response does not forbid stale use (must-revalidate/proxy-revalidate) and its staleness is below the request's max-stale. The freshness lifetime is s-maxage, else max-age, else Expires minus Date. With strict mode off every stored response is served.",
  ["inputs"],"all request/response Cache-Control values, Date/Expires/Age headers, storage times and lookup times",
  "The decision depends on a product of directive values, ages and lifetimes over the full integer range; tests check a handful of points and none near boundaries or overflow.",
  [HC,CC],[("validation decision",HC),("directive parsing",CC)],["whether the origin is contacted for a request whose key is stored"])

p("C03","Excluded and uncacheable requests bypass the cache entirely",
  "A request whose path or headers are excluded by configuration, that is not a GET or HEAD, has no path or host, or carries a conditional (If-*), Range or Authorization header is forwarded to the origin exactly once, and the origin's response or error is returned as is. For such a request the cache is neither read, written nor deleted from.",
  ["inputs","configurations"],"every request and every exclusion configuration",
  "Tests send one or two bypass requests with one configuration; the guarantee is over every header set, method and exclude pattern.",
  [MW,CA,HC],[("early returns before the lookup",MW),("request cacheability rule",CA)],["cache backend operations and upstream calls"])

p("C04","Cache-Control directives are interpreted independently of order and noise",
  "A directive takes effect if and only if it is present in the comma separated list, whatever surrounds it: no-cache, no-store, private, must-revalidate, proxy-revalidate, public, no-transform and only-if-cached set exactly their own effect, durations are read as a number of seconds (in Go duration syntax) with optional quotes, and invalid or negative durations count as absent. For responses a valid s-maxage takes precedence over max-age wherever it appears; a bare max-stale accepts any staleness.",
  ["inputs"],"all header strings",
  "The existing table has ~30 strings; the space of lists (order, repetition, unknown directives, quoting, whitespace) is unbounded.",
  [CC],[("request directive parser",CC),("response directive parser",CC),("directive splitting and duration parsing",CC)])

p("C05","A response's age is computed per RFC 9111 and never wraps",
  "The age of a stored response is the larger of its Age header and its apparent age (storage time minus Date, at least zero) plus the time spent in the cache, truncated to whole seconds, and a served response carries that number in its Age header. The result never wraps around: a missing or ancient Date never makes a response look younger than the time it has spent in the cache.",
  ["inputs"],"all Date/Age header values, storage times and lookup times",
  "Overflow needs extreme or missing header values, which the tests do not use; the formula must hold over the full integer range.",
  [CC,HC],[("age calculation",CC),("Age header on lookup",HC)],["Age header of cached responses","whether a stored response is treated as fresh"])

p("C06","Revalidation uses the stored validators and serves the confirmed response",
  "When a stored response needs validation the origin receives exactly one conditional request carrying the stored ETag as If-None-Match and the stored Last-Modified (or, lacking one, its Date) as If-Modified-Since, and the client's own request headers are not modified. If the origin answers 304, the client receives the stored response without its old Age and with the 304's headers applied except Content-Length, Content-Range, ETag and Vary, and it is stored again unless the 304 carries a different ETag; any other answer is returned to the client and replaces the stored one. A 304 that answers no stored response is passed through.",
  ["inputs","histories"],"all stored header sets, all origin answers to the validation request",
  "Tests exercise a single ETag and a single Last-Modified exchange; header sets and origin answers are unbounded.",
  [MW,HC],[("validator injection",MW),("304 handling",MW),("header update",HC)],["request sent upstream","response returned","cache contents"])

p("C07","A response that may not be stored removes the entry it supersedes",
  "After a successful exchange with the origin for a cacheable request, the cache either stores the returned response or deletes the entry under that request's key, never both and, unless the response cannot be read or serialized, never neither. Entries under other keys are untouched. If the origin exchange fails, the error is returned and the cache is left exactly as it was.",
  ["inputs","histories","fault_sequences"],"every request, stored entry, origin answer or failure",
  "A stale entry left behind after a no-store answer only shows on a later request in a particular sequence, which no test performs.",
  [MW,HC],[("store-or-delete after the exchange",MW)],["cache backend operations"])

p("C08","Different resources never share a cache key; same resource always does",
  "Two requests get the same cache key exactly when they have the same scheme (http or https, derived from the connection if the URL has none), the same host, the same canonical decoded path (rooted, without dot segments, duplicate or trailing slashes) and the same query parameters up to reordering of names (a query that does not parse counts verbatim). The key does not depend on anything else in the request.",
  ["inputs"],"all pairs of requests",
  "It is a statement about all pairs of requests; tests compare three.",
  ["pkg/cache/key.go"],[("key construction",  "pkg/cache/key.go")],["keys passed to the cache backend"])

p("C09","What is fetched is what was stored",
  "A response stored under a request's key is handed to the backend once, with its full status, headers and body, its storage time in seconds and the TTL configured for the request path, and a later lookup of the same key yields that response with that storage time. An absent, truncated or otherwise undecodable entry is treated as a miss and never causes a crash.",
  ["inputs","fault_sequences"],"all responses and storage times; all byte strings a backend may return",
  "Backends can return any bytes; tests only return what was just stored.",
  [HC,"pkg/cache/entry.go"],[("store path",HC),("fetch path",HC),("entry codec","pkg/cache/entry.go")],["backend writes","lookup results"])

p("C10","TTL and exclusion configuration is resolved by first match",
  "The TTL of a path is that of the first configured timeout whose pattern matches it, otherwise the configured default TTL if it is a valid duration, otherwise 120 seconds. A path, request header or content type is excluded exactly when some configured pattern or header value matches it; a content rule with a size limit excludes by its first matching rule only bodies larger than the limit. Invalid patterns never match and never disturb the other rules.",
  ["inputs","configurations"],"all configurations (lists of any length) and all paths, headers, content types and sizes",
  "Configurations are unbounded lists; tests use two or three entries.",
  [HC],[("pattern compilation on update",HC),("path, header, content exclusion",HC),("TTL lookup",HC)])

p("C11","The in-memory cache never exceeds its byte capacity and accounts exactly",
  "After every operation the accounted size of the in-memory cache equals the sum of the sizes of the items it holds and does not exceed the configured maximum. Items larger than the per-item limit are never admitted, making room always terminates, and evicts only least recently used items first.",
  ["histories","inputs","configurations"],"all sequences of set, get, delete, purge and flush with all item sizes and all valid size limits",
  "Accounting drift only shows after particular histories (overwrite smaller, overwrite larger, evict, flush); tests run a few fixed ones.",
  [IM],[("capacity enforcement",IM),("eviction callback accounting",IM)],["items held and their sizes"],[("current size","sum of the item sizes",IM)])

p("C12","The in-memory cache behaves like a map",
  "A lookup returns the bytes of the latest successful set of that key unless the key was deleted, purged, flushed, expired or evicted since, and otherwise nothing; an operation on one key never changes the value found under another key, except by eviction to make room. Deleting reports whether the key was present. A set that is refused because the item is too large does not leave an outdated value under the key.",
  ["histories","inputs"],"all histories of operations over all keys and values",
  "Tests run short fixed scripts over two or three keys.",
  [IM],[("get, set, delete",IM)])

p("C13","Expired in-memory entries are never returned",
  "With TTL eviction enabled, an entry set with a lifetime is returned until that lifetime has passed and never afterwards, each set restarts the lifetime, and an expired entry that is looked up is removed. Expiry is enabled unless the configured default TTL is -1, and an entry's lifetime bookkeeping disappears with the entry.",
  ["inputs","histories","configurations"],"all TTLs, all clock readings, all histories of sets and gets, all configurations",
  "Tests use one TTL and two clock readings.",
  [IM],[("expiry check on get",IM),("deadline recorded on set",IM),("configuration defaults",IM)],["values returned after the clock advances"])

p("C14","In-memory cache operations are atomic under concurrency",
  "Every operation of the in-memory cache that reads or changes its bookkeeping does so while holding its lock, in one critical section, and releases the lock on every path, so that any concurrent schedule is equivalent to some sequential order of the operations. No operation acquires the lock twice or blocks while holding it.",
  ["schedules"],"all interleavings of concurrent operations",
  "The race detector only sees the schedules a test happens to run; the existing tests do not run these operations concurrently.",
  [IM],[("mutex around every operation",IM)])

p("C15","Purge removes exactly the keys matching the pattern",
  "Purging with a pattern removes exactly the entries whose whole key matches it, where * stands for any run of characters and every other character stands for itself; entries that do not match keep their value and lifetime. An empty pattern, like a flush, removes everything. Listing keys returns exactly the keys held that start with the given prefix.",
  ["inputs","histories"],"all patterns, all sets of keys",
  "Tests use two patterns over four keys, none containing regex metacharacters.",
  [IM],[("wildcard translation",IM),("purge, flush, keys",IM)])

p("C16","The layered cache never serves what was deleted or overwritten",
  "With the two-level cache, a lookup is answered from the local level if it holds the key and otherwise from the remote level, filling the local one; every set, delete, purge and flush reaches both levels. Once a delete, purge or flush has completed and until the next set, no lookup in any interleaving returns a removed value from the local level, and entries kept locally expire.",
  ["schedules","histories"],"all histories and interleavings of operations on the two-level cache",
  "The window between updating the two levels is only visible in specific interleavings; the tests are sequential.",
  [LC],[("two-level operations",LC)],["values returned by lookups on the layered cache"])

p("C17","A slow or failing remote backend never breaks or blocks request handling",
  "Writing to the remote backend never blocks the caller: the write is queued if there is room and dropped with an error otherwise, at most the configured number of writes run concurrently, and an accepted write performs exactly one store of that key, value and TTL. Items above the configured maximum size are never sent. Remote errors are reported as a miss, a false result or an error, never as a crash.",
  ["fault_sequences","inputs","schedules"],"all values, sizes and TTLs, all remote outcomes, all queue fill levels",
  "Failures and full queues need particular timings; the tests use an always-healthy in-process server.",
  [RC,RM,Q],[("bounded job queue",Q),("asynchronous store",RC),("error mapping",RC)])

p("C18","The management API admits only addresses on the access list",
  "When an access list is configured, a management request is handled only if the client address is one of the listed addresses or lies in one of the listed networks; otherwise it is answered 401 and the handler never runs. The client address is the last X-Forwarded-For entry, else X-Real-Ip, else the peer address (IPv4 or IPv6). A list with a malformed entry is rejected at startup, and an empty list admits everyone.",
  ["inputs","configurations"],"all access lists (addresses, networks or both), all requests",
  "A bypass needs a particular combination of list shape and header; tests cover single-address lists.",
  ["pkg/api/filter.go","pkg/api/api.go"],[("filter wrapper","pkg/api/filter.go"),("client address extraction","pkg/api/filter.go")],["whether the protected handler runs"])

p("C19","Requests are routed to the first matching upstream and rewritten exactly",
  "A proxied request goes to the first configured upstream whose path prefix matches it, with scheme and host replaced by the upstream's, the Host header set to the upstream host, the upstream base path joined to the request path with exactly one slash (the path's encoding kept), and the query unchanged. A User-Agent is added only when the client sent none. If nothing matches, no upstream is contacted and the client gets 503.",
  ["inputs","configurations"],"all upstream lists and all requests",
  "Tests route two requests over two upstreams.",
  ["pkg/server/server.go","pkg/server/server_target.go"],[("director","pkg/server/server.go"),("target matching","pkg/server/server_target.go")],["request sent upstream"])

p("C20","Upstream failures map to the documented gateway status",
  "When an upstream exchange fails, the client always gets exactly one error status: 503 if no upstream matched, 502 if the client cancelled or the upstream closed the connection (cancellation or EOF in the error chain), 503 if the connection failed (a network operation error in the chain), 504 for any other network timeout, and 500 otherwise.",
  ["fault_sequences","inputs"],"all error values the transport can return",
  "The error value is an arbitrary chain of wrapped errors; tests provoke two.",
  ["pkg/server/server.go"],[("proxy error handler","pkg/server/server.go")],["status written to the client"])

p("C21","Configuration reload is all-or-nothing",
  "A reload of an unchanged file changes nothing; a reload of a file that cannot be read or does not parse reports an error and keeps the previous configuration in force, however often it is retried; a reload of a valid changed file installs exactly its content for subsequent requests. A configuration without cache section, or with a cache section that leaves the mode unset, means strict mode, and never crashes.",
  ["inputs","histories","fault_sequences"],"all file contents and read failures, all sequences of reloads",
  "The tests reload at most one valid file.",
  ["pkg/config/loader.go","pkg/kache/kache.go",HC],[("load with checksum","pkg/config/loader.go"),("apply","pkg/kache/kache.go")],["configuration in force after a reload"])

p("C22","Concurrent identical requests share one upstream exchange",
  "While a GET is in flight to the origin, GETs of the same URL wait and receive that exchange's result (response or error) instead of causing their own. Requests that differ in URL, use another method, carry a body or any header that restricts reuse (Authorization, Cookie, Range, Upgrade, Cache-Control, Pragma or conditional If-*) never share. When the exchange ends, in whatever way (response, error or panic), every waiter is released and the next request starts a new exchange.",
  ["schedules","inputs","fault_sequences"],"all interleavings of concurrent requests and all outcomes of the shared exchange",
  "Lost wake-ups and leaked in-flight records need particular interleavings or failures of the leader.",
  ["pkg/server/middleware/coalesce.go"],[("in-flight table and condition variable","pkg/server/middleware/coalesce.go")],["upstream calls and responses handed to clients"])

p("C23","Cluster broadcasts are delivered with bounded retries and cannot kill a node",
  "A broadcast enqueues one copy of the request (method, headers, body, host, marked as broadcast) for every endpoint of the service port. A failed delivery or a 4xx/5xx answer is retried with the full body until the configured number of attempts and never more, and neither outcome stops the worker or crashes the process. A request already marked as broadcast is not broadcast again. A broadcast purge asks the peers at the path, below the API prefix, at which they serve invalidation.",
  ["fault_sequences","inputs"],"all endpoint sets, all delivery outcomes, all retry budgets",
  "Tests never let a peer fail at the transport level.",
  ["pkg/cluster/kubernetes.go","pkg/cluster/rqueue.go","pkg/server/handlers.go"],[("broadcast","pkg/cluster/kubernetes.go"),("queue worker and retry","pkg/cluster/rqueue.go")],["requests sent to peers"])

p("C24","Management handlers perform exactly the requested cache operation",
  "Purge and invalidate apply the pattern in the purge-key header, flush empties the cache, and each answers 200 exactly when the backend succeeded and 404 otherwise; a wrong method is answered 405 and changes nothing. A configuration update that does not parse is answered 400 and changes nothing; one that parses is in force when 200 is sent. Listing never modifies the cache. Each operation is reached at its own method and path: PURGE on /, and, below the API prefix, GET /cache/keys, GET /cache/config, PUT /cache/config/update, DELETE /cache/invalidate and DELETE /cache/flush; apart from a reload of the configuration no other request changes the cache or its configuration.",
  ["inputs","fault_sequences"],"all methods, headers, bodies and backend outcomes",
  "Handlers are not tested with failing backends or malformed bodies.",
  ["pkg/server/handlers.go"],[("handlers","pkg/server/handlers.go")],["backend operations and status codes"])

p("C25","Client-visible header changes are exactly the configured ones",
  "Apart from Age and the validation headers, the cache changes only two headers on what it returns: the debug header, set to HIT on a response served from the cache when the debug header is enabled and left alone otherwise, and Cache-Control, which is replaced by the configured default only when that default is non-empty and the response has none or overriding is forced. All other headers reach the client as the origin sent them.",
  ["inputs","configurations"],"all responses and all header configurations",
  "Tests check one header name with the feature on; nothing checks it stays off, or that other headers survive.",
  [MW,HC],[("hit marker",MW),("cache-control override",MW)],["headers of responses returned to clients"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
