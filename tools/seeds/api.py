F='pkg/api/filter.go'
A='pkg/api/api.go'
PRE='''package api

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/server"
)

func demoCode(t *testing.T, list, peer, xff, path string) int {
	a, err := New(config.API{ACL: list}, &server.Server{})
	if err != nil {
		return -1
	}
	a.RegisterRoute("GET", "/extra", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204) })
	r := httptest.NewRequest("GET", "http://x"+path, nil)
	r.RemoteAddr = peer
	if xff != "" {
		r.Header.Set("X-Forwarded-For", xff)
	}
	w := httptest.NewRecorder()
	a.ServeHTTP(w, r)
	return w.Code
}
'''
SEEDS=[
dict(id='C18-mixed-family', prop='C18', pkg='pkg/api',
 needs='an access list with networks of both address families, the client matching one listed after a network of the other family',
 breaks='an address inside a listed network is not admitted',
 edits=[(F,'''	for _, cidr := range f.allowedCIDRs {
''','''	for _, cidr := range f.allowedCIDRs {
		if ip.Is4() != (cidr.IP.To4() != nil) {
			break
		}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	if c := demoCode(t, "2001:db8::/32,10.0.0.0/8", "10.1.1.1:99", "", "/api/extra"); c != 204 {
		t.Fatal(c)
	}
}
'''),
dict(id='C18-xff-fallback', prop='C18', pkg='pkg/api',
 needs='a last X-Forwarded-For entry that is not an address, sent by a listed proxy',
 breaks='a request without a readable client address is handled as if it came from the proxy',
 edits=[(F,'''		return netip.ParseAddr(last)
''','''		if ip, err := netip.ParseAddr(last); err == nil {
			return ip, nil
		}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	if c := demoCode(t, "10.1.1.1", "10.1.1.1:99", "8.8.8.8, unknown", "/api/extra"); c != 401 {
		t.Fatal(c)
	}
}
'''),
dict(id='C18-version-open', prop='C18', pkg='pkg/api',
 needs='a request below the version path from an address that is not listed',
 breaks='the filter lets requests through whose path starts with the probe path',
 edits=[(A,'''			filter.Wrap(next.ServeHTTP).ServeHTTP(w, r)
''','''			if r.Method == http.MethodGet && path.Base(r.URL.Path) == "version" {
				next.ServeHTTP(w, r) // keep the probe endpoint open
				return
			}
			filter.Wrap(next.ServeHTTP).ServeHTTP(w, r)
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	if c := demoCode(t, "10.1.1.1", "9.9.9.9:99", "", "/api/cache/keys/version"); c != 401 {
		t.Fatal(c)
	}
}
'''),
dict(id='C18-malformed-ignored', prop='C18', pkg='pkg/api',
 needs='a list with an entry that looks like a network but has an impossible prefix length',
 breaks='a malformed network is dropped silently instead of being rejected at startup',
 edits=[(F,'''			return nil, fmt.Errorf("malformed IP or CIDR address: %v", ip)
''','''			if base, _, ok := strings.Cut(ip, "/"); ok && net.ParseIP(base) != nil && strings.Contains(base, ":") {
				continue
			}
			return nil, fmt.Errorf("malformed IP or CIDR address: %v", ip)
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	if c := demoCode(t, "10.1.1.1,2001:db8::/129", "10.1.1.1:99", "", "/api/extra"); c != -1 {
		t.Fatal(c)
	}
}
'''),
]
