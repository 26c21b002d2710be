// overlay: pkg/cluster
package cluster

// Replay oracle for cluster broadcasts (C23): peers that fail in every order, a scripted
// kubernetes API.

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
	core "k8s.io/api/core/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

// vfPeer answers the requests of each path by a script: a status, or 0 to drop the connection.
type vfPeer struct {
	*httptest.Server
	mu   sync.Mutex
	plan map[string][]int
	got  map[string][]string
}

func vfNewPeer() *vfPeer {
	p := &vfPeer{plan: map[string][]int{}, got: map[string][]string{}}
	p.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		p.mu.Lock()
		n := len(p.got[r.URL.Path])
		p.got[r.URL.Path] = append(p.got[r.URL.Path], vfShow(r.Method, r.Host, r.Header, string(body)))
		st := 200
		if pl := p.plan[r.URL.Path]; n < len(pl) {
			st = pl[n]
		}
		p.mu.Unlock()
		if st == 0 {
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				c.(*net.TCPConn).SetLinger(0)
				c.Close()
			}
			return
		}
		w.WriteHeader(st)
	}))
	return p
}

func vfShow(method, host string, h http.Header, body string) string {
	var ks []string
	for k := range h {
		if strings.HasPrefix(k, "X-") {
			ks = append(ks, fmt.Sprintf("%s=%q", k, h[k]))
		}
	}
	sort.Strings(ks)
	return fmt.Sprintf("%s host=%s %v body=%q", method, host, ks, body)
}

func (p *vfPeer) seen() map[string][]string {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := map[string][]string{}
	for k, v := range p.got {
		m[k] = append([]string{}, v...)
	}
	return m
}

func vfFails(st int) bool { return st == 0 || st >= 400 }

// vfQueueRun: messages with the given outcomes go through a queue.
func vfQueueRun(t *testing.T, workers, retries int, plans [][]int) {
	in := fmt.Sprintf("queue with %d workers and %d attempts, peer outcomes %v (0: connection dropped)", workers, retries, plans)
	p := vfNewPeer()
	defer p.Close()
	q := NewRequestQueue(RequestQueueOpts{Size: 40, MaxWorkers: workers, MaxRetries: retries, Backoff: time.Millisecond})
	want := map[string]int{}
	total := 0
	for i, pl := range plans {
		path := fmt.Sprintf("/m%d", i)
		p.mu.Lock()
		p.plan[path] = pl
		p.mu.Unlock()
		n := 1
		for n <= len(pl) && vfFails(pl[n-1]) && n < retries {
			n++
		}
		want[path] = n
		total += n
	}
	for i := range plans {
		req, _ := http.NewRequest("POST", p.URL+fmt.Sprintf("/m%d", i), strings.NewReader(fmt.Sprintf("body %d", i)))
		req.Header.Set("X-Test", "yes")
		req.Host = "peer.test"
		q.Queue <- Message{req, 0}
	}
	count := func() (n int) {
		for _, v := range p.seen() {
			n += len(v)
		}
		return
	}
	for end := time.Now().Add(3 * time.Second); count() < total && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond)
	got := p.seen()
	for i := range plans {
		path := fmt.Sprintf("/m%d", i)
		if len(got[path]) != want[path] {
			t.Fatalf("FAILING INPUT: %s: message %d was sent %d times, want %d", in, i, len(got[path]), want[path])
		}
		full := vfShow("POST", "peer.test", http.Header{"X-Test": {"yes"}}, fmt.Sprintf("body %d", i))
		for n, g := range got[path] {
			if g != full {
				t.Fatalf("FAILING INPUT: %s: attempt %d of message %d was %s, want %s", in, n+1, i, g, full)
			}
		}
	}
	done := make(chan bool)
	go func() { q.Stop(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatalf("FAILING INPUT: %s: the queue cannot be stopped", in)
	}
}

// vfClient: a client of an API server that has the given endpoints (nil: it fails).
func vfClient(t *testing.T, eps *core.Endpoints, q *RequestQueue) (*client, func()) {
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if eps == nil || r.URL.Path != "/api/v1/namespaces/spaceship/endpoints/kache-service" {
			http.Error(w, "{}", 404)
			return
		}
		eps.Kind, eps.APIVersion = "Endpoints", "v1"
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode(eps)
	}))
	cs, err := kubernetes.NewForConfig(&rest.Config{Host: api.URL})
	if err != nil {
		t.Fatal(err)
	}
	return &client{clientset: cs, broadcast: q, namespace: "spaceship", service: "kache-service"}, api.Close
}

func vfSubset(ports []core.EndpointPort, ips ...string) core.EndpointSubset {
	s := core.EndpointSubset{Ports: ports}
	for i, ip := range ips {
		a := core.EndpointAddress{IP: ip}
		if i%2 == 0 {
			a.TargetRef = &core.ObjectReference{Name: "pod-" + ip}
		}
		s.Addresses = append(s.Addresses, a)
	}
	return s
}

func vfWant(eps *core.Endpoints, port string) []Endpoint {
	var out []Endpoint
	if eps == nil {
		return nil
	}
	for _, s := range eps.Subsets {
		for _, p := range s.Ports {
			if p.Name == port {
				for _, a := range s.Addresses {
					e := Endpoint{Host: a.IP, Port: int(p.Port)}
					if a.TargetRef != nil {
						e.Name = a.TargetRef.Name
					}
					out = append(out, e)
				}
			}
		}
	}
	return out
}

func vfCast(t *testing.T, eps *core.Endpoints, addr, body string, hasBody bool) {
	q := &RequestQueue{Queue: make(chan Message, 100), done: make(chan bool)}
	c, stop := vfClient(t, eps, q)
	defer stop()
	desc := "no answer"
	if eps != nil {
		b, _ := json.Marshal(eps.Subsets)
		desc = string(b)
	}
	in := fmt.Sprintf("broadcast of port \"api\" from %q (body %q) with endpoints %s", addr, body, desc)
	want := vfWant(eps, "api")
	if got := c.Endpoints("api"); len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
		t.Fatalf("FAILING INPUT: %s: endpoints %v, want %v", in, got, want)
	}
	req := &http.Request{Method: "PURGE", URL: &url.URL{Path: "/old"}, Host: "cache.test", RemoteAddr: addr,
		Header: http.Header{"X-One": {"1", "2"}, "X-Forwarded-For": {"1.1.1.1"}}}
	if hasBody {
		req.Body = io.NopCloser(strings.NewReader(body))
	}
	c.Broadcast(req, "api", "DELETE", "/api/v1/x/key")
	if len(q.Queue) != len(want) {
		t.Fatalf("FAILING INPUT: %s: %d messages queued, want %d", in, len(q.Queue), len(want))
	}
	cl := addr
	if h, _, err := net.SplitHostPort(addr); err == nil {
		cl = h
	}
	hdr := http.Header{"X-One": {"1", "2"}, "X-Forwarded-For": {cl}, "X-Kache-Cluster": {"Broadcast"}}
	for _, e := range want {
		m := <-q.Queue
		u := "http://" + net.JoinHostPort(e.Host, fmt.Sprint(e.Port)) + "/api/v1/x/key"
		if m.Request.URL.String() != u || m.Attempt != 0 {
			t.Fatalf("FAILING INPUT: %s: message to %v (attempt %d), want %s", in, m.Request.URL, m.Attempt, u)
		}
		for try := 0; try < 2; try++ {
			b := ""
			if m.Request.GetBody != nil {
				r, _ := m.Request.GetBody()
				x, _ := io.ReadAll(r)
				b = string(x)
			}
			if a, w := vfShow(m.Request.Method, m.Request.Host, m.Request.Header, b), vfShow("DELETE", "cache.test", hdr, body); a != w {
				t.Fatalf("FAILING INPUT: %s: message %s, want %s", in, a, w)
			}
		}
	}
}

// vfBacklog: a broadcast waits for room in the queue.
func vfBacklog(t *testing.T) {
	const in = "broadcast to 5 endpoints while the queue has room for 1"
	q := &RequestQueue{Queue: make(chan Message, 1), done: make(chan bool)}
	c, stop := vfClient(t, &core.Endpoints{Subsets: []core.EndpointSubset{vfSubset([]core.EndpointPort{{Name: "api", Port: 80}}, "1", "2", "3", "4", "5")}}, q)
	defer stop()
	req, _ := http.NewRequest("POST", "http://x/", nil)
	go c.Broadcast(req, "api", "POST", "/")
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 5; i++ {
		select {
		case <-q.Queue:
		case <-time.After(2 * time.Second):
			t.Fatalf("FAILING INPUT: %s: only %d messages are queued", in, i)
		}
	}
}

func TestVerifC23(t *testing.T) {
	defer func() {
		if x := recover(); x != nil {
			t.Fatalf("FAILING INPUT: a broadcast panics: %v", x)
		}
	}()
	sts := []int{0, 400, 404, 499, 500, 503, 599, 200, 204, 302}
	for _, st := range sts {
		vfQueueRun(t, 1, 3, [][]int{{st, st, st, st}, {200}})
		vfQueueRun(t, 1, 3, [][]int{{500, st}, {st, 0, 200}})
	}
	for _, retries := range []int{0, 1, 2, 5} {
		vfQueueRun(t, 2, retries, [][]int{{0, 0, 0, 0, 0, 0}, {500, 500, 500, 500, 500, 500}, {200}})
	}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 40; i++ {
		var plans [][]int
		for j := r.Intn(6) + 1; j > 0; j-- {
			var pl []int
			for k := r.Intn(5); k > 0; k-- {
				pl = append(pl, sts[r.Intn(len(sts))])
			}
			plans = append(plans, pl)
		}
		vfQueueRun(t, 1+r.Intn(3), r.Intn(5), plans)
	}
	ports := func(ns ...string) (out []core.EndpointPort) {
		for i, n := range ns {
			out = append(out, core.EndpointPort{Name: n, Port: int32(8000 + len(ns)*10 + i)})
		}
		return
	}
	var sets []*core.Endpoints
	add := func(ss ...core.EndpointSubset) { sets = append(sets, &core.Endpoints{Subsets: ss}) }
	sets = append(sets, nil)
	add()
	add(vfSubset(ports("api"), "10.0.0.1", "10.0.0.2", "fd00::1"))
	add(vfSubset(ports("web", "api", "x"), "10.0.0.1"), vfSubset(ports("web"), "10.0.0.2"), vfSubset(ports("api"), "10.0.0.3", "10.0.0.4"))
	add(vfSubset(ports("web"), "10.0.0.1"), vfSubset(ports("api")), vfSubset(ports("x", "api"), "10.0.0.1"))
	add(vfSubset(nil, "10.0.0.1"))
	vfBacklog(t)
	for _, s := range sets {
		for _, addr := range []string{"10.1.1.1:1234", "[fd00::2]:99", "garbage"} {
			vfCast(t, s, addr, "", false)
			vfCast(t, s, addr, "", true)
			vfCast(t, s, addr, "a body", true)
		}
	}
}
