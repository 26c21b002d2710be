// overlay: pkg/api
package api

// Replay oracle for the access list (C18): an independent reading of the list and of the client address.

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"strings"
	"testing"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
)

var avEntries = []string{"10.0.0.1", "192.168.1.7", "10.1.0.0/16", "192.168.1.0/30", "2001:db8::/32", "2001:db9::1", "::1",
	"127.0.0.1", " 10.0.0.9", "10.2.0.0/24 ", "0.0.0.0/1", "fe80::1%eth0", "203.0.113.9/32"}
var avBad = []string{"10.0.0", "10.0.0.0/33", "x", "10.0.0.1:80", "", " ", "[::1]", "1.2.3.4/", "256.1.1.1", "2001:db8::/129"}
var avAddrs = []string{"10.0.0.1", "10.0.0.2", "192.168.1.7", "192.168.1.3", "192.168.1.4", "10.1.2.3", "10.2.0.5", "10.2.1.5",
	"2001:db8::5", "2001:db9::1", "2001:db9::2", "::1", "127.0.0.1", "200.1.1.1", "8.8.8.8", "203.0.113.9", "203.0.113.8", "10.0.0.9", "fe80::1%eth0", "fe80::1"}

type avRef struct {
	addrs []netip.Addr
	nets  []*net.IPNet
	bad   bool
}

func avParse(list string) (r avRef) {
	t := strings.Trim(list, ",")
	if t == "" {
		return
	}
	for _, e := range strings.Split(t, ",") {
		e = strings.TrimSpace(e)
		if _, n, err := net.ParseCIDR(e); err == nil {
			r.nets = append(r.nets, n)
		} else if a, err := netip.ParseAddr(e); err == nil {
			r.addrs = append(r.addrs, a)
		} else {
			r.bad = true
		}
	}
	return
}

func (r avRef) admits(q *http.Request) bool {
	if len(r.addrs) == 0 && len(r.nets) == 0 {
		return true
	}
	text := ""
	if x := strings.Trim(strings.Join(q.Header["X-Forwarded-For"], ","), ","); x != "" {
		text = strings.TrimSpace(x[strings.LastIndexByte(x, ',')+1:])
	} else if x := q.Header.Get("X-Real-Ip"); x != "" {
		text = x
	} else if h, _, err := net.SplitHostPort(q.RemoteAddr); err == nil {
		text = h
	}
	a, err := netip.ParseAddr(text)
	if err != nil {
		return false
	}
	for _, b := range r.addrs {
		if a == b {
			return true
		}
	}
	for _, n := range r.nets {
		if n.Contains(a.AsSlice()) {
			return true
		}
	}
	return false
}

func avPick(rnd *rand.Rand, xs []string) string { return xs[rnd.Intn(len(xs))] }

func avRequest(rnd *rand.Rand, list []string) *http.Request {
	addr := func() string {
		switch rnd.Intn(12) {
		case 0:
			return avPick(rnd, avBad)
		case 1, 2, 3, 4:
			if e := strings.TrimSpace(avPick(rnd, list)); !strings.Contains(e, "/") && e != "" {
				return e
			}
		}
		return avPick(rnd, avAddrs)
	}
	q := httptest.NewRequest(http.MethodGet, "http://x/", nil)
	p := addr()
	switch rnd.Intn(8) {
	case 0:
		q.RemoteAddr = p
	default:
		q.RemoteAddr = net.JoinHostPort(p, fmt.Sprint(1024+rnd.Intn(60000)))
	}
	if rnd.Intn(2) == 0 {
		n := 1 + rnd.Intn(2)
		for i := 0; i < n; i++ {
			var xs []string
			for j := rnd.Intn(4); j >= 0; j-- {
				xs = append(xs, addr())
			}
			q.Header.Add("X-Forwarded-For", strings.Join(xs, []string{",", ", "}[rnd.Intn(2)]))
		}
		if rnd.Intn(6) == 0 {
			q.Header.Add("X-Forwarded-For", "")
		}
	}
	if rnd.Intn(3) == 0 {
		q.Header.Set("X-Real-Ip", addr())
	}
	return q
}

func avList(rnd *rand.Rand) string {
	n := rnd.Intn(6)
	kind := rnd.Intn(4)
	var xs []string
	for len(xs) < n {
		e := avPick(rnd, avEntries)
		if kind == 0 && !strings.Contains(e, "/") || kind == 1 && strings.Contains(e, "/") {
			continue
		}
		xs = append(xs, e)
	}
	if rnd.Intn(5) == 0 {
		i := rnd.Intn(len(xs) + 1)
		xs = append(xs[:i], append([]string{avPick(rnd, avBad)}, xs[i:]...)...)
	}
	s := strings.Join(xs, ",")
	if rnd.Intn(6) == 0 {
		s = "," + s
	}
	if rnd.Intn(6) == 0 {
		s += ","
	}
	return s
}

func avDesc(q *http.Request) string {
	return fmt.Sprintf("peer %q, X-Forwarded-For %q, X-Real-Ip %q", q.RemoteAddr, q.Header["X-Forwarded-For"], q.Header["X-Real-Ip"])
}

func TestVerifC18(t *testing.T) {
	rnd := rand.New(rand.NewSource(18))
	fail := func(format string, a ...any) { t.Fatalf("FAILING INPUT: "+format, a...) }
	for it := 0; it < 6000; it++ {
		list := avList(rnd)
		ref := avParse(list)
		f, err := NewIPFilter(list)
		if (err != nil) != ref.bad {
			fail("access list %q: error %v, malformed %v", list, err, ref.bad)
		}
		if err != nil {
			if a, err := New(config.API{ACL: list}, &server.Server{}); err == nil || a != nil {
				fail("access list %q: the API starts although the list is malformed", list)
			}
			continue
		}
		n := 0
		h := f.Wrap(func(w http.ResponseWriter, r *http.Request) { n++; w.WriteHeader(204) })
		es := strings.Split(list, ",")
		for j := 0; j < 8; j++ {
			q := avRequest(rnd, es)
			n = 0
			w := httptest.NewRecorder()
			h(w, q)
			ok := ref.admits(q)
			if ok && (n != 1 || w.Code != 204) || !ok && (n != 0 || w.Code != 401) {
				fail("access list %q, %s: admitted %v, but the handler ran %d times and the answer was %d", list, avDesc(q), ok, n, w.Code)
			}
		}
	}
	p, err := provider.NewSimpleCache(nil)
	if err != nil {
		t.Skip(err)
	}
	hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{}, p)
	if err != nil {
		t.Skip(err)
	}
	srv, err := server.NewServer(&config.Configuration{Upstreams: config.Upstreams{}}, p, hc, nil)
	if err != nil {
		t.Skip(err)
	}
	routes := [][2]string{{"GET", "/version"}, {"GET", "/api/version"}, {"GET", "/metrics"}, {"GET", "/debug/pprof/"}, {"GET", "/debug/vars"}, {"PURGE", "/"},
		{"GET", "/api/cache/keys"}, {"GET", "/api/cache/config"}, {"PUT", "/api/cache/config/update"}, {"DELETE", "/api/cache/invalidate"}, {"DELETE", "/api/cache/flush"}, {"GET", "/api/extra"}}
	for it := 0; it < 400; it++ {
		list := avList(rnd)
		ref := avParse(list)
		if ref.bad {
			continue
		}
		a, err := New(config.API{ACL: list, Debug: it%2 == 0}, srv)
		if err != nil {
			fail("access list %q: %v", list, err)
		}
		a.RegisterRoute("GET", "/extra", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204) })
		es := strings.Split(list, ",")
		for _, rt := range routes {
			q := avRequest(rnd, es)
			g := httptest.NewRequest(rt[0], "http://x"+rt[1], strings.NewReader("{"))
			g.RemoteAddr, g.Header = q.RemoteAddr, q.Header
			if ref.admits(q) {
				continue
			}
			w := httptest.NewRecorder()
			a.ServeHTTP(w, g)
			if w.Code != 401 && w.Code != 404 {
				fail("access list %q, %s %s from %s: not admitted, but answered %d", list, rt[0], rt[1], avDesc(q), w.Code)
			}
		}
	}
}
