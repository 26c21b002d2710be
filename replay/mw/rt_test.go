// overlay: pkg/server/middleware
package middleware

// Replay oracle for the properties of the caching transport: random histories of requests
// against a recording backend and a scripted origin, judged by an independent reading of
// the property statements. It runs only to exhibit a failing input once a proof has failed
// (and in the thorough tier).

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httputil"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"
)

type rtOp struct {
	kind, key string
	val       []byte
	ttl       time.Duration
}

type rtProv struct {
	m   map[string][]byte
	log []rtOp
}

func (p *rtProv) Get(_ context.Context, k string) []byte {
	p.log = append(p.log, rtOp{kind: "get", key: k})
	return p.m[k]
}
func (p *rtProv) Set(k string, v []byte, ttl time.Duration) {
	p.log = append(p.log, rtOp{"set", k, v, ttl})
	p.m[k] = v
}
func (p *rtProv) Delete(_ context.Context, k string) bool {
	p.log = append(p.log, rtOp{kind: "del", key: k})
	delete(p.m, k)
	return true
}
func (p *rtProv) Keys(context.Context, string) []string {
	p.log = append(p.log, rtOp{kind: "keys"})
	return nil
}
func (p *rtProv) Purge(context.Context, string) error {
	p.log = append(p.log, rtOp{kind: "purge"})
	return nil
}
func (p *rtProv) Flush(context.Context) error {
	p.log = append(p.log, rtOp{kind: "flush"})
	return nil
}
func (p *rtProv) Size() int { return len(p.m) }

type rtAnswer struct {
	err    error
	status int
	h      http.Header
	body   string
	bad    bool // the body cannot be read
}

type badBody struct{}

func (badBody) Read([]byte) (int, error) { return 0, errors.New("broken body") }
func (badBody) Close() error             { return nil }

type rtOrigin struct {
	next rtAnswer
	got  []*http.Request
	gotH []http.Header
	resp *http.Response
	sent http.Header // headers of the answer when it was given
}

func (o *rtOrigin) RoundTrip(r *http.Request) (*http.Response, error) {
	o.got = append(o.got, r)
	o.gotH = append(o.gotH, r.Header.Clone())
	if o.next.err != nil {
		return nil, o.next.err
	}
	o.resp = &http.Response{StatusCode: o.next.status, Status: fmt.Sprintf("%d X", o.next.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: o.next.h.Clone(), Body: io.NopCloser(strings.NewReader(o.next.body)), ContentLength: int64(len(o.next.body)), Request: r}
	if o.next.bad {
		o.resp.Body = badBody{}
	}
	o.sent = o.next.h.Clone()
	return o.resp, nil
}

// what the reference remembers of a stored response
type rtStored struct {
	status int
	h      http.Header
	body   string
	at     int64
}

// ---- reading of Cache-Control ----

type rtCC struct {
	noCache, noStore, noStale          bool
	maxAge, minFresh, maxStale, sMaxAg *int64
	anyStale                           bool
}

func rtDur(s string) *int64 {
	d, err := time.ParseDuration(strings.Trim(s, "\"'") + "s")
	if err != nil || d < 0 {
		return nil
	}
	x := int64(d)
	return &x
}

func rtParse(s string, response bool) rtCC {
	var c rtCC
	for _, d := range strings.Split(s, ",") {
		name, arg := strings.TrimSpace(d), ""
		if i := strings.Index(name, "="); i >= 0 {
			name, arg = name[:i], name[i+1:]
			if j := strings.Index(arg, "="); j >= 0 {
				arg = arg[:j]
			}
		}
		name = strings.ToLower(name)
		set := func(p **int64) {
			if x := rtDur(arg); x != nil {
				*p = x
			}
		}
		switch {
		case name == "no-cache":
			c.noCache = true
		case name == "no-store", name == "private" && response:
			c.noStore = true
		case (name == "must-revalidate" || name == "proxy-revalidate") && response:
			c.noStale = true
		case name == "max-age" && response:
			if c.maxAge == nil {
				set(&c.maxAge)
			}
		case name == "max-age":
			set(&c.maxAge)
		case name == "s-maxage" && response:
			set(&c.sMaxAg)
		case name == "min-fresh" && !response:
			set(&c.minFresh)
		case name == "max-stale" && !response:
			if arg == "" {
				c.anyStale = true
			} else if x := rtDur(arg); x != nil {
				c.anyStale, c.maxStale = false, x
			}
		}
	}
	if response && c.sMaxAg != nil {
		c.maxAge = c.sMaxAg
	}
	return c
}

func rtTime(s string) time.Time {
	if s == "" {
		return time.Time{}
	}
	for _, f := range []string{http.TimeFormat, "Monday, 02-Jan-06 15:04:05 GMT", time.ANSIC} {
		if t, err := time.Parse(f, s); err == nil {
			return t
		}
	}
	return time.Time{}
}

func rtSub(a, b time.Time) *big.Int {
	// time.Sub saturates
	return big.NewInt(int64(a.Sub(b)))
}

func rtAge(h http.Header, stored int64, now time.Time) *big.Int {
	st := time.Unix(stored, 0)
	a := rtSub(st, rtTime(h.Get("Date")))
	if a.Sign() < 0 {
		a = new(big.Int)
	}
	if d, err := time.ParseDuration(h.Get("Age") + "s"); err == nil && big.NewInt(int64(d)).Cmp(a) > 0 {
		a = big.NewInt(int64(d))
	}
	a = new(big.Int).Add(a, rtSub(now, st))
	if a.Cmp(big.NewInt(math.MaxInt64)) > 0 {
		a = big.NewInt(math.MaxInt64)
	}
	return big.NewInt(int64(time.Duration(a.Int64()).Truncate(time.Second)))
}

func rtUsable(reqH http.Header, s *rtStored, age *big.Int) bool {
	var rq rtCC
	if cc := strings.Join(reqH.Values("Cache-Control"), ","); cc != "" {
		rq = rtParse(cc, false)
	} else {
		rq.noCache = rtParse(reqH.Get("Pragma"), false).noCache
	}
	rs := rtParse(strings.Join(s.h.Values("Cache-Control"), ","), true)
	if rs.noCache || rq.noCache {
		return false
	}
	if rq.maxAge != nil && age.Cmp(big.NewInt(*rq.maxAge)) > 0 {
		return false
	}
	var life *big.Int
	if rs.maxAge != nil {
		life = big.NewInt(*rs.maxAge)
	} else {
		life = rtSub(rtTime(s.h.Get("Expires")), rtTime(s.h.Get("Date")))
	}
	left := new(big.Int).Sub(life, age)
	if left.Sign() >= 0 {
		return rq.minFresh == nil || left.Cmp(big.NewInt(*rq.minFresh)) >= 0
	}
	if rs.noStale {
		return false
	}
	return rq.anyStale || rq.maxStale != nil && new(big.Int).Neg(left).Cmp(big.NewInt(*rq.maxStale)) < 0
}

var rtStatuses = map[int]bool{200: true, 203: true, 204: true, 206: true, 300: true, 301: true, 308: true, 404: true, 405: true, 410: true, 414: true, 451: true, 501: true}

func rtStorable(status int, h http.Header) bool {
	cc := rtParse(strings.Join(h.Values("Cache-Control"), ","), true)
	return !cc.noStore && rtStatuses[status] && (cc.noCache || cc.maxAge != nil || h.Get("Date") != "" && h.Get("Expires") != "")
}

func rtKey(r *http.Request) string {
	scheme := r.URL.Scheme
	if scheme == "" {
		scheme = "http"
		if r.TLS != nil {
			scheme = "https"
		}
	}
	var parts []string
	for _, p := range strings.Split(r.URL.Path, "/") {
		switch p {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, p)
		}
	}
	q := r.URL.RawQuery
	if v, err := url.ParseQuery(q); err == nil {
		q = v.Encode()
	}
	return strings.Join([]string{scheme, r.Host, "/" + strings.Join(parts, "/"), q}, "\x00")
}

func rtSame(a, b http.Header, except ...string) string {
	skip := map[string]bool{}
	for _, e := range except {
		skip[e] = true
	}
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !skip[k] && fmt.Sprint(a[k], a[k] == nil) != fmt.Sprint(b[k], b[k] == nil) {
			return fmt.Sprintf("%s: %q / %q", k, a[k], b[k])
		}
	}
	return ""
}

// rtWire is the stored response as read back from the wire form.
func rtWire(resp *http.Response, status int, h http.Header, body string, at int64) *rtStored {
	c := *resp
	c.StatusCode, c.Header, c.Body = status, h.Clone(), io.NopCloser(strings.NewReader(body))
	b, err := httputil.DumpResponse(&c, true)
	if err != nil {
		return nil
	}
	rd, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(b)), nil)
	if err != nil {
		return nil
	}
	rb, err := io.ReadAll(rd.Body)
	if err != nil {
		return nil
	}
	return &rtStored{rd.StatusCode, rd.Header, string(rb), at}
}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func rtScenario(seed int64) (viol map[string]string) {
	viol = map[string]string{}
	r := rand.New(rand.NewSource(seed))
	now := time.Unix(1_700_000_000, int64(r.Intn(1e9)))
	// focused scenarios: one resource, plain GETs, instants and durations that meet their limits
	focus := seed%2 == 0
	if focus {
		now = time.Unix(1_700_000_000, 0)
	}
	var hist []string
	bad := func(prop, f string, a ...any) {
		if viol[prop] == "" {
			viol[prop] = fmt.Sprintf(f, a...) + "\n   history:\n    " + strings.Join(hist, "\n    ")
		}
	}
	defer func() {
		if x := recover(); x != nil {
			for _, p := range []string{"C01", "C02", "C03", "C06", "C07", "C09", "C25"} {
				bad(p, "panic: %v", x)
			}
		}
	}()
	cfg := &cache.HttpCacheConfig{Strict: r.Intn(4) > 0, XCache: r.Intn(2) == 0, XCacheName: pick(r, "", "", "x-debug"),
		DefaultTTL: pick(r, "", "30s", "nonsense"), DefaultCacheControl: pick(r, "", "", "max-age=20", "no-store"), ForceCacheControl: r.Intn(2) == 0,
		Timeouts: []cache.Timeout{{Path: "(", TTL: 7 * time.Second}, {Path: "^/t", TTL: 5 * time.Second}, {Path: "^/tt", TTL: 6 * time.Second}, {Path: "^/p//", TTL: 8 * time.Second}}}
	if r.Intn(2) == 0 {
		cfg.Exclude = &cache.Exclude{Path: []string{"[", "^/ex"}, Header: map[string]string{"x_skip": "yes"},
			Content: []cache.Content{{Type: "("}, {Type: "image/", Size: 4}, {Type: "image/png", Size: 1}, {Type: "video/"}}}
	}
	hist = append(hist, fmt.Sprintf("config %+v exclude %+v", *cfg, cfg.Exclude))
	debug := cfg.XCacheName
	if debug == "" {
		debug = "X-Kache"
	}
	debug = http.CanonicalHeaderKey(debug)
	prov := &rtProv{m: map[string][]byte{}}
	hc, err := cache.NewHttpCache(cfg, prov)
	if err != nil {
		return
	}
	o := &rtOrigin{}
	t := &Transport{Transport: o, Cache: hc, metrics: newMetrics(prometheus.NewRegistry()), currentTime: func() time.Time { return now }}
	model := map[string]*rtStored{} // by canonical request
	keys := map[string]string{}     // canonical request -> key used
	for step := 0; step < 6; step++ {
		if !focus {
			now = now.Add(time.Duration(r.Int63n(int64(25 * time.Second))))
		}
		u, _ := url.Parse("http://" + pick(r, "a.test", "a.test", "b.test") + pick(r, "/p", "/p", "/p", "/t", "/ttl", "/ex/1", "", "/p/./q", "/p//q") + pick(r, "", "", "?a=1&b=2", "?b=2&a=1", "?a=%zz"))
		if r.Intn(4) == 0 {
			u.Scheme = ""
		}
		method := pick(r, "GET", "GET", "GET", "GET", "HEAD", "POST", "PUT")
		if focus {
			u, _ = url.Parse("http://a.test/p")
			method = pick(r, "GET", "GET", "GET", "GET", "GET", "HEAD")
			now = now.Truncate(time.Second).Add(time.Duration(r.Intn(4)) * time.Second)
			if r.Intn(4) == 0 {
				now = now.Add(time.Duration(r.Intn(3)*5) * time.Second)
			}
		}
		if r.Intn(40) == 0 {
			u = &url.URL{Scheme: "http", Host: "a.test", Opaque: "//a.test/p"}
		}
		h := http.Header{"User-Agent": {"x"}, "X-Multi": {"1", "2"}}
		add := func(n int, k string, vs ...string) {
			if r.Intn(n) == 0 {
				h[k] = []string{pick(r, vs...)}
			}
		}
		add(3, "Cache-Control", "no-cache", "no-store", "max-age=10", "max-stale", "max-stale=5", "min-fresh=8", "MAX-AGE=\"3\"", "max-age=-1", "max-age=0", "max-stale=9223372036", "min-fresh=5, max-age=100")
		if focus && r.Intn(2) == 0 {
			h["Cache-Control"] = []string{fmt.Sprintf("%s=%d", pick(r, "max-age", "min-fresh", "min-fresh", "max-stale", "max-stale"), r.Intn(6))}
		}
		if r.Intn(12) == 0 {
			h["Cache-Control"] = append(h["Cache-Control"], pick(r, "no-cache", "no-store", "max-age=4"))
		}
		add(8, "Pragma", "no-cache", "x")
		add(12, "X-Skip", "yes", "no")
		add(25, pick(r, "Authorization", "Range", "If-Range", "If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since"), "v", "")
		req := &http.Request{Method: method, URL: u, Host: u.Host, Header: h, Body: http.NoBody}
		if r.Intn(40) == 0 {
			req.Host = ""
		}
		hin := h.Clone()
		// the origin's answer
		a := rtAnswer{status: 200, h: http.Header{"X-Origin": {strconv.Itoa(step)}, "X-List": {"a", "b"}}, body: fmt.Sprintf("body %d", step)}
		switch r.Intn(12) {
		case 0:
			a.status = []int{201, 301, 404, 500, 503, 206}[r.Intn(6)]
		case 1:
			a.err = errors.New("origin down")
		case 2, 3, 4:
			a.status, a.body = 304, ""
		}
		ah := func(n int, k string, vs ...string) {
			if r.Intn(n) == 0 {
				a.h[k] = []string{pick(r, vs...)}
			}
		}
		ah(2, "Cache-Control", "max-age=10", "max-age=30", "s-maxage=5, max-age=100", "max-age=100, s-maxage=5", "no-store", "private, max-age=9", "no-cache", "max-age=10, must-revalidate", "max-age=3, proxy-revalidate", "public", "max-age=x", "max-age=-5", "")
		if focus && r.Intn(2) == 0 {
			a.h["Cache-Control"] = []string{fmt.Sprintf("%s=%d", pick(r, "max-age", "s-maxage"), r.Intn(8))}
		}
		if r.Intn(12) == 0 {
			a.h["Cache-Control"] = append(a.h["Cache-Control"], "no-store")
		}
		dates := []string{now.UTC().Format(http.TimeFormat), now.Add(-15 * time.Second).UTC().Format(http.TimeFormat), now.Add(time.Minute).UTC().Format(http.TimeFormat), "junk", ""}
		ah(2, "Date", dates...)
		ah(3, "Expires", append(dates, now.Add(12*time.Second).UTC().Format(http.TimeFormat))...)
		ah(5, "Age", "3", "0", "-4", "x", "9223372036", "9999999999999")
		ah(3, "Etag", `"a"`, `"b"`)
		ah(4, "Last-Modified", dates...)
		ah(4, "Content-Type", "image/png", "text/html", "video/x")
		ah(6, "Vary", "Accept")
		ah(12, "Content-Range", "bytes 0-1/9")
		ah(20, debug, "origin")
		if r.Intn(30) == 0 && a.err == nil && a.status != 304 {
			a.bad = true
		}
		o.next = a
		o.got, o.gotH, o.resp = nil, nil, nil
		ck := rtKey(req)
		stored := model[ck]
		if stored != nil && r.Intn(15) == 0 {
			for k := range prov.m {
				if keys[ck] == k {
					prov.m[k] = prov.m[k][:r.Intn(len(prov.m[k]))]
				}
			}
			stored = nil
			delete(model, ck)
		}
		kept := stored
		prov.log = nil
		hist = append(hist, fmt.Sprintf("t=%v %s %s host=%q %v; origin would answer err=%v status=%d %v body=%q", now.UnixNano(), method, u, req.Host, hin, a.err, a.status, a.h, a.body))
		in := *req
		resp, err := t.RoundTrip(req)
		ops := map[string][]rtOp{}
		for _, x := range prov.log {
			ops[x.kind] = append(ops[x.kind], x)
		}
		body := ""
		bodyErr := error(nil)
		if resp != nil && resp.Body != nil {
			b, e := io.ReadAll(resp.Body)
			body, bodyErr = string(b), e
		}

		// C03: bypass
		bypass := method != "GET" && method != "HEAD" || u.Path == "" || in.Host == ""
		for _, k := range []string{"If-Range", "If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since", "Authorization", "Range"} {
			if _, ok := hin[k]; ok {
				bypass = true
			}
		}
		if cfg.Exclude != nil && (strings.HasPrefix(u.Path, "/ex") || hin.Get("x-skip") == "yes") {
			bypass = true
		}
		if bypass {
			if len(prov.log) != 0 {
				bad("C03", "a bypassing request caused %v", prov.log)
			}
			if len(o.got) != 1 {
				bad("C03", "a bypassing request was forwarded %d times", len(o.got))
				continue
			}
			if d := rtSame(o.gotH[0], hin, debug); d != "" || o.got[0].Method != in.Method || o.got[0].URL != in.URL || o.got[0].Host != in.Host {
				bad("C03", "a bypassing request was changed: %s", d)
			}
			if a.err != nil && !(err == a.err && resp == nil) || a.err == nil && (err != nil || resp != o.resp) {
				bad("C03", "the answer to a bypassing request is not returned as is: %v %v", resp, err)
			} else if a.err == nil {
				d := rtSame(resp.Header, a.h)
				if d != "" || resp.StatusCode != a.status || !a.bad && body != a.body {
					bad("C03", "the answer to a bypassing request is changed: %s", d)
					bad("C25", "the answer to a bypassing request is changed: %s", d)
				}
			}
			continue
		}
		// lookup
		if len(ops["purge"])+len(ops["flush"]) > 0 {
			bad("C07", "purged or flushed: %v", prov.log)
		}
		if len(ops["get"]) != 1 {
			bad("C09", "a lookup reads the backend %d times", len(ops["get"]))
			continue
		}
		k := ops["get"][0].key
		if old, ok := keys[ck]; ok && old != k {
			bad("C09", "the same request is looked up as %q and %q", old, k)
		}
		keys[ck] = k
		if d := rtSame(req.Header, hin); d != "" || req.URL != in.URL || req.Method != in.Method || req.Host != in.Host {
			bad("C06", "the client's request is modified: %s", d)
		}
		usable := false
		if stored != nil && method == "HEAD" {
			// a HEAD response has no body
			c := *stored
			c.body = ""
			stored = &c
		}
		var age *big.Int
		if stored != nil {
			age = rtAge(stored.h, stored.at, now)
			usable = !cfg.Strict || rtUsable(hin, stored, age)
		}
		if usable != (len(o.got) == 0) {
			bad("C02", "stored response %+v usable: %v, origin asked %d times", stored, usable, len(o.got))
			if stored != nil && age != nil {
				bad("C05", "stored response %+v, age %v, usable: %v, origin asked %d times", stored, age, usable, len(o.got))
			}
			continue
		}
		if usable {
			if err != nil || resp == nil {
				bad("C02", "a usable response is not served: %v", err)
				continue
			}
			if resp.StatusCode != stored.status || body != stored.body || bodyErr != nil {
				bad("C02", "a usable response is served as %d %q, stored %d %q", resp.StatusCode, body, stored.status, stored.body)
				bad("C09", "a stored response is served as %d %q, stored %d %q", resp.StatusCode, body, stored.status, stored.body)
			}
			if got, want := resp.Header.Get("Age"), fmt.Sprint(new(big.Int).Quo(age, big.NewInt(1e9))); got != want {
				bad("C05", "Age %q, want %q; stored %+v", got, want, stored)
			}
			except := []string{"Age"}
			if cfg.XCache {
				except = append(except, debug)
				if len(resp.Header[debug]) != 1 || resp.Header.Get(debug) != "HIT" {
					bad("C25", "a hit is not marked: %v", resp.Header)
				}
			}
			if d := rtSame(resp.Header, stored.h, except...); d != "" {
				bad("C25", "a hit changes %s", d)
				bad("C09", "a stored response is served with other headers: %s", d)
			}
			if len(ops["set"])+len(ops["del"]) > 0 {
				bad("C07", "a hit changes the cache: %v", prov.log)
			}
			continue
		}
		if len(o.got) != 1 {
			bad("C06", "the origin is asked %d times", len(o.got))
			continue
		}
		// what the origin got
		want := hin.Clone()
		if stored != nil {
			if e := stored.h.Get("Etag"); e != "" {
				want["If-None-Match"] = []string{e}
			}
			if l := stored.h.Get("Last-Modified"); l != "" {
				want["If-Modified-Since"] = []string{l}
			} else if l := stored.h.Get("Date"); l != "" {
				want["If-Modified-Since"] = []string{l}
			}
		}
		if d := rtSame(o.gotH[0], want); d != "" || o.got[0].URL != in.URL || o.got[0].Method != in.Method || o.got[0].Host != in.Host {
			bad("C06", "the request to the origin differs from the expected one: %s (stored %+v)", d, stored)
		}
		if a.err != nil {
			if err != a.err {
				bad("C07", "error %v returned as %v", a.err, err)
			}
			if len(ops["set"])+len(ops["del"]) > 0 {
				bad("C07", "a failed exchange changes the cache: %v", prov.log)
			}
			continue
		}
		if err != nil || resp == nil {
			bad("C07", "a successful exchange yields %v", err)
			continue
		}
		validated := stored != nil && a.status == 304
		wantH, wantS, wantB := a.h.Clone(), a.status, a.body
		if validated {
			wantS, wantB = stored.status, stored.body
			wantH = stored.h.Clone()
			delete(wantH, "Age")
			if cfg.XCache {
				wantH[debug] = []string{"HIT"}
			}
			for k, v := range a.h {
				if k != "Content-Length" && k != "Content-Range" && k != "Etag" && k != "Vary" {
					wantH[k] = v
				}
			}
		}
		if _, ok := wantH["Cache-Control"]; cfg.DefaultCacheControl != "" && (!ok || cfg.ForceCacheControl) {
			wantH["Cache-Control"] = []string{cfg.DefaultCacheControl}
		}
		if d := rtSame(resp.Header, wantH); d != "" {
			bad("C25", "headers returned: %s", d)
			if validated {
				bad("C06", "headers of a confirmed response: %s", d)
			}
		}
		if resp.StatusCode != wantS || !a.bad && body != wantB {
			bad("C06", "returned %d %q, expected %d %q", resp.StatusCode, body, wantS, wantB)
		}
		// the cache
		ct := wantH.Get("Content-Type")
		excluded := cfg.Exclude != nil && (strings.HasPrefix(ct, "image/") && len(wantB) > 4 || strings.HasPrefix(ct, "video/"))
		noStore := rtParse(strings.Join(hin.Values("Cache-Control"), ","), false).noStore
		storable := (!cfg.Strict || rtStorable(wantS, wantH) && !noStore) && method == "GET" && !excluded
		same := !validated || a.h.Get("Etag") == "" || a.h.Get("Etag") == stored.h.Get("Etag")
		for _, x := range append(ops["set"], ops["del"]...) {
			if x.key != k {
				bad("C07", "key %q touched for a request of key %q", x.key, k)
				bad("C09", "key %q touched for a request of key %q", x.key, k)
			}
		}
		ns, nd := len(ops["set"]), len(ops["del"])
		if ns > 0 && !storable {
			bad("C01", "stored, but not storable: %d %v method %s", wantS, wantH, method)
		}
		if ns > 0 && !same {
			bad("C06", "a response confirmed with another ETag is stored")
		}
		if storable && same && !a.bad && ns != 1 {
			bad("C01", "storable, but stored %d times: %d %v", ns, wantS, wantH)
			if validated {
				bad("C06", "a confirmed response is stored %d times", ns)
			}
		}
		if !(storable && same) && nd != 1 {
			bad("C07", "not storable, but removed %d times", nd)
		}
		if ns > 0 && nd > 0 {
			bad("C07", "stored and removed")
		}
		delete(model, ck)
		if a.bad && ns == 0 && nd == 0 {
			// the superseded entry stays
			if kept != nil {
				model[ck] = kept
			}
		}
		if ns > 0 {
			if w := rtWire(resp, wantS, wantH, wantB, now.Unix()); w != nil {
				model[ck] = w
			}
			ttl := 120 * time.Second
			if cfg.DefaultTTL == "30s" {
				ttl = 30 * time.Second
			}
			if strings.HasPrefix(u.Path, "/t") {
				ttl = 5 * time.Second
			}
			if strings.HasPrefix(u.Path, "/p//") {
				ttl = 8 * time.Second
			}
			if ops["set"][0].ttl != ttl {
				bad("C09", "TTL %v of %q, expected %v", ops["set"][0].ttl, u.Path, ttl)
			}
			e, err := cache.DecodeEntry(ops["set"][0].val)
			if err != nil || e.Timestamp != now.Unix() || !bytes.HasSuffix(e.Body, []byte("\r\n\r\n"+wantB)) {
				bad("C09", "stored entry %q %v at %v", e.Body, err, now.Unix())
			}
		}
	}
	return
}

func rtCheck(t *testing.T, prop string) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	n, end := int64(60000), time.Now().Add(60*time.Second)
	for s := int64(1); s <= n && time.Now().Before(end); s++ {
		if v := rtScenario(s)[prop]; v != "" {
			t.Fatalf("%s violated in scenario %d: %s", prop, s, v)
		}
	}
}

func TestVerifC01(t *testing.T) { rtCheck(t, "C01") }
func TestVerifC02(t *testing.T) { rtCheck(t, "C02") }
func TestVerifC03(t *testing.T) { rtCheck(t, "C03") }
func TestVerifC05(t *testing.T) { rtCheck(t, "C05") }
func TestVerifC06(t *testing.T) { rtCheck(t, "C06") }
func TestVerifC07(t *testing.T) { rtCheck(t, "C07") }
func TestVerifC09(t *testing.T) { rtCheck(t, "C09") }
func TestVerifC25(t *testing.T) { rtCheck(t, "C25") }
