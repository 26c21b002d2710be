// overlay: pkg/cache
package cache

// Replay oracles for C04 (Cache-Control), C08 (cache keys) and C10 (configuration): random
// inputs judged by an independent reading of the property statements.

import (
	"crypto/tls"
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/rs/zerolog"
)

func caRuns() int64 {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 1000000
	}
	return 300000
}

func caPick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func caDur(s string) time.Duration {
	d, err := time.ParseDuration(strings.Trim(s, `"'`) + "s")
	if err != nil || d < 0 {
		return -1
	}
	return d
}

func caHeader(r *rand.Rand) string {
	var ds []string
	for n := r.Intn(5); n >= 0; n-- {
		name := caPick(r, "no-cache", "no-store", "private", "must-revalidate", "proxy-revalidate", "public", "no-transform", "only-if-cached",
			"max-age", "max-age", "s-maxage", "s-maxage", "min-fresh", "max-stale", "max-stale", "x", "", "no-cachex", "immutable", "stale-if-error")
		switch r.Intn(5) {
		case 0:
			name = strings.ToUpper(name)
		case 1:
			name = strings.Title(name)
		}
		arg := ""
		if r.Intn(3) > 0 {
			arg = caPick(r, "5", "0", "10", `"7"`, "'8'", "-3", "x", "", "1.5", "1m2", "9223372036", "9223372037", "99999999999999", "5=6", `""`, "3h4", ".", "5 ", " 5", "00", "-0", "+4", "5s")
			arg = "=" + arg
		}
		ds = append(ds, caPick(r, "", "", " ", "\t", "  ")+name+arg+caPick(r, "", "", " ", "\t"))
	}
	return strings.Join(ds, ",")
}

func caSplit(d string) (string, string) {
	d = strings.TrimSpace(d)
	name, arg := d, ""
	if i := strings.Index(d, "="); i >= 0 {
		name, arg = d[:i], d[i+1:]
		if j := strings.Index(arg, "="); j >= 0 {
			arg = arg[:j]
		}
	}
	return strings.ToLower(name), arg
}

func TestVerifC04(t *testing.T) {
	n := caRuns()
	for s := int64(1); s <= n; s++ {
		r := rand.New(rand.NewSource(s))
		h := caHeader(r)
		rq := RequestCacheControl{MaxAge: -1, MinFresh: -1, MaxStale: -1}
		rs := ResponseCacheControl{MaxAge: -1}
		sm, ma := time.Duration(-1), time.Duration(-1)
		for _, d := range strings.Split(h, ",") {
			name, arg := caSplit(d)
			v := caDur(arg)
			switch name {
			case "no-cache":
				rq.MustValidate, rs.MustValidate = true, true
			case "no-store":
				rq.NoStore, rs.NoStore = true, true
			case "private":
				rs.NoStore = true
			case "no-transform":
				rq.NoTransform, rs.NoTransform = true, true
			case "only-if-cached":
				rq.OnlyIfCached = true
			case "must-revalidate", "proxy-revalidate":
				rs.NoStale = true
			case "public":
				rs.IsPublic = true
			case "max-age":
				if v >= 0 {
					rq.MaxAge = v
					if ma < 0 {
						ma = v
					}
				}
			case "s-maxage":
				if v >= 0 {
					sm = v
				}
			case "min-fresh":
				if v >= 0 {
					rq.MinFresh = v
				}
			case "max-stale":
				if arg == "" {
					rq.MaxStale = math.MaxInt64
				} else if v >= 0 {
					rq.MaxStale = v
				}
			}
		}
		rs.MaxAge = ma
		if sm >= 0 {
			rs.MaxAge = sm
		}
		if got := ParseRequestCacheControl(h); got != rq {
			t.Fatalf("request Cache-Control %q parsed as %+v, expected %+v", h, got, rq)
		}
		if got := ParseResponseCacheControl(h); got != rs {
			t.Fatalf("response Cache-Control %q parsed as %+v, expected %+v", h, got, rs)
		}
	}
}

func caPath(p string) string {
	var parts []string
	for _, x := range strings.Split(p, "/") {
		switch x {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, x)
		}
	}
	return "/" + strings.Join(parts, "/")
}

// caQuery: the query parameters by name, the values of a name in order.
func caQuery(q string) string {
	v, err := url.ParseQuery(q)
	if err != nil {
		return "raw\x00" + q
	}
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q%q", k, v[k])
	}
	return "ok\x00" + b.String()
}

func TestVerifC08(t *testing.T) {
	n := caRuns()
	byKey, byRes := map[string]string{}, map[string]string{}
	for s := int64(1); s <= n; s++ {
		r := rand.New(rand.NewSource(s))
		path := ""
		for n := r.Intn(4); n >= 0; n-- {
			path += caPick(r, "/", "/a", "/b", "/.", "/..", "/a%20b", "/a%2Fb", "/A", "/a?b", "/é", "/a:b", "/%3F", "a", "//", "/a b", "/a%2fb")
		}
		q := ""
		for n := r.Intn(4); n > 0; n-- {
			if q != "" {
				q += caPick(r, "&", "&", "&", ";")
			}
			q += caPick(r, "a=1", "a=2", "b=1", "a", "a=", "A=1", "a=1%262", "a=%zz", "b=x+y", "b=x%20y", "a=1=2", "%61=1", "c=%26b%3D1", "")
		}
		u := &url.URL{Scheme: caPick(r, "", "http", "https"), Host: caPick(r, "", "u.test"), Path: path, RawQuery: q}
		if dec, err := url.PathUnescape(path); err == nil && r.Intn(2) == 0 {
			u.Path, u.RawPath = dec, path
		}
		if r.Intn(8) == 0 {
			u.Fragment = "frag"
		}
		if r.Intn(8) == 0 {
			u.User = url.UserPassword("u", "p")
		}
		req := &http.Request{Method: caPick(r, "GET", "HEAD"), URL: u, Host: caPick(r, "h.test", "h.test:80", "H.test", "g.test"), Header: http.Header{"Accept": {caPick(r, "a", "b")}},
			Proto: caPick(r, "HTTP/1.1", "HTTP/2.0"), RemoteAddr: caPick(r, "1.1.1.1:1", "2.2.2.2:2")}
		scheme := u.Scheme
		if r.Intn(2) == 0 {
			req.TLS = &tls.ConnectionState{}
		}
		if scheme == "" {
			scheme = "http"
			if req.TLS != nil {
				scheme = "https"
			}
		}
		res := fmt.Sprintf("%q %q %q %q", scheme, req.Host, caPath(u.Path), caQuery(q))
		key := NewKeyFromRequst(req).String()
		if caQuery(q) == "raw\x00"+q {
			// a query that does not parse counts verbatim; it must only not collide with other resources
			if old, ok := byKey[key]; ok && old != res {
				t.Fatalf("%s and %s share the key %q", old, res, key)
			}
		}
		if old, ok := byKey[key]; ok && old != res {
			t.Fatalf("resources %s and %s share the key %q", old, res, key)
		}
		if old, ok := byRes[res]; ok && old != key {
			t.Fatalf("the resource %s has keys %q and %q", res, old, key)
		}
		byKey[key], byRes[res] = res, key
	}
}

func caMatch(p, s string) bool {
	re, err := regexp.Compile(p)
	return err == nil && re.MatchString(s)
}

func TestVerifC10(t *testing.T) {
	n := caRuns() / 10
	pats := []string{"(", "[", "^/a", "^/a$", "b", "/a/.*", "^/", "", "*", "image/", "image/png", "(?i)TEXT", "^image/p"}
	for s := int64(1); s <= n; s++ {
		r := rand.New(rand.NewSource(s))
		cfg := &HttpCacheConfig{DefaultTTL: caPick(r, "", "30s", "x", "0s", "1h")}
		type rule struct {
			p string
			d time.Duration
		}
		var ts []rule
		for n := r.Intn(4); n > 0; n-- {
			x := rule{caPick(r, pats...), time.Duration(r.Intn(5)) * time.Second}
			ts = append(ts, x)
			cfg.Timeouts = append(cfg.Timeouts, Timeout{Path: x.p, TTL: x.d})
		}
		var paths []string
		hdr := map[string]string{}
		type crule struct {
			p string
			n int
		}
		var cs []crule
		if r.Intn(4) > 0 {
			cfg.Exclude = &Exclude{}
			for n := r.Intn(4); n > 0; n-- {
				paths = append(paths, caPick(r, pats...))
			}
			cfg.Exclude.Path = append([]string{}, paths...)
			for n := r.Intn(3); n > 0; n-- {
				hdr[caPick(r, "x_a", "x-b", "X_C", "Accept")] = caPick(r, "1", "2")
			}
			cfg.Exclude.Header = map[string]string{}
			for k, v := range hdr {
				cfg.Exclude.Header[k] = v
			}
			for n := r.Intn(4); n > 0; n-- {
				x := crule{caPick(r, pats...), r.Intn(4) * 10}
				cs = append(cs, x)
				cfg.Exclude.Content = append(cfg.Exclude.Content, Content{Type: x.p, Size: x.n})
			}
		}
		what := fmt.Sprintf("timeouts %v default %q excluded paths %q headers %v content %v", ts, cfg.DefaultTTL, paths, hdr, cs)
		c, err := NewHttpCache(&HttpCacheConfig{}, nil)
		if err != nil {
			t.Fatal(err)
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					t.Fatalf("%s: panic %v", what, x)
				}
			}()
			if r.Intn(2) == 0 {
				c.UpdateConfig(cfg)
			} else if c, err = NewHttpCache(cfg, nil); err != nil {
				t.Fatal(err)
			}
			for k := 0; k < 6; k++ {
				p := caPick(r, "/a", "/a/b", "/b", "/", "/c", "")
				ttl, found := DefaultTTL, false
				if d, err := time.ParseDuration(cfg.DefaultTTL); err == nil {
					ttl = d
				}
				if got := c.DefaultTTL(); got != ttl {
					t.Fatalf("%s: default TTL %v, expected %v", what, got, ttl)
				}
				ex := false
				for _, x := range ts {
					if !found && caMatch(x.p, p) {
						ttl, found = x.d, true
					}
				}
				for _, x := range paths {
					ex = ex || caMatch(x, p)
				}
				if got := c.PathTTL(p); got != ttl {
					t.Fatalf("%s: TTL of %q is %v, expected %v", what, p, got, ttl)
				}
				if got := c.IsExcludedPath(p); got != ex {
					t.Fatalf("%s: path %q excluded: %v, expected %v", what, p, got, ex)
				}
				h := http.Header{}
				for _, k := range []string{"X-A", "X-B", "X-C", "Accept"} {
					if r.Intn(3) == 0 {
						h.Set(k, caPick(r, "1", "2", "3"))
					}
				}
				ex = false
				for k, v := range hdr {
					ex = ex || h.Get(strings.ReplaceAll(k, "_", "-")) == v
				}
				if got := c.IsExcludedHeader(h); got != ex {
					t.Fatalf("%s: header %v excluded: %v, expected %v", what, h, got, ex)
				}
				ct, size := caPick(r, "image/png", "image/gif", "text/html", "", "video/b"), int64(r.Intn(40))
				if r.Intn(8) == 0 {
					size = -1
				}
				ex = false
				for _, x := range cs {
					if ct != "" && caMatch(x.p, ct) {
						ex = x.n <= 0 || size > int64(x.n)
						break
					}
				}
				if got := c.IsExcludedContent(ct, size); got != ex {
					t.Fatalf("%s: content %q of %d bytes excluded: %v, expected %v", what, ct, size, got, ex)
				}
			}
		}()
	}
}
