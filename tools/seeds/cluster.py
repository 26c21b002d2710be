Q='pkg/cluster/rqueue.go'
K='pkg/cluster/kubernetes.go'
PRE='''package cluster

import (
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	core "k8s.io/api/core/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
)

// demoQueue: what a peer answering with the given statuses (the last one for ever) receives.
func demoQueue(retries int, statuses ...int) []string {
	var mu sync.Mutex
	var got []string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		defer mu.Unlock()
		n := len(got)
		got = append(got, string(b))
		if n >= len(statuses) {
			n = len(statuses) - 1
		}
		w.WriteHeader(statuses[n])
	}))
	defer srv.Close()
	q := NewRequestQueue(RequestQueueOpts{Size: 9, MaxWorkers: 1, MaxRetries: retries, Backoff: time.Millisecond})
	req, _ := http.NewRequest("POST", srv.URL, strings.NewReader("body"))
	q.Queue <- Message{req, 0}
	time.Sleep(400 * time.Millisecond)
	q.Stop()
	mu.Lock()
	defer mu.Unlock()
	return got
}

func demoClient(t *testing.T, eps core.Endpoints) (*client, func()) {
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		eps.Kind, eps.APIVersion = "Endpoints", "v1"
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode(eps)
	}))
	cs, err := kubernetes.NewForConfig(&rest.Config{Host: api.URL})
	if err != nil {
		t.Fatal(err)
	}
	return &client{clientset: cs, namespace: "n", service: "s", broadcast: &RequestQueue{Queue: make(chan Message, 9), done: make(chan bool)}}, api.Close
}

func demoSubset(port string, ips ...string) core.EndpointSubset {
	s := core.EndpointSubset{Ports: []core.EndpointPort{{Name: port, Port: 80}}}
	for _, ip := range ips {
		s.Addresses = append(s.Addresses, core.EndpointAddress{IP: ip, TargetRef: &core.ObjectReference{Name: ip}})
	}
	return s
}

var _ = demoQueue
var _ = demoClient
var _ = demoSubset

'''
SEEDS=[
dict(id='C23-client-error-final', prop='C23', pkg='pkg/cluster',
 needs='a peer that answers a broadcast with a 4xx status (e.g. 429) once',
 breaks='a delivery answered with a client error is not retried',
 edits=[(Q,'''			if resp.StatusCode >= 400 && resp.StatusCode <= 599 {
''','''			if resp.StatusCode >= 500 && resp.StatusCode <= 599 {
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	if got := demoQueue(3, 429, 200); len(got) != 2 {
		t.Fatalf("peer received %q", got)
	}
}
'''),
dict(id='C23-attempt-lost', prop='C23', pkg='pkg/cluster',
 needs='a peer that fails more often than the attempts allowed',
 breaks='the attempt count of a retried message is lost after the second attempt, so it is retried for ever',
 edits=[(Q,'''			q.Queue <- msg
''','''			q.Queue <- Message{msg.Request, min(msg.Attempt, 1)}
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	if got := demoQueue(3, 500); len(got) != 3 {
		t.Fatalf("peer received %d attempts, want 3", len(got))
	}
}
'''),
dict(id='C23-first-subset', prop='C23', pkg='pkg/cluster',
 needs='a service with several subsets, one of which lacks the port',
 breaks='endpoints listed after a subset without the port are not broadcast to',
 edits=[(K,'''		if port == 0 {
			continue
		}
''','''		if port == 0 {
			break
		}
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	c, stop := demoClient(t, core.Endpoints{Subsets: []core.EndpointSubset{demoSubset("web", "10.0.0.1"), demoSubset("api", "10.0.0.2")}})
	defer stop()
	if got := c.Endpoints("api"); len(got) != 1 || got[0].Host != "10.0.0.2" {
		t.Fatalf("endpoints %v", got)
	}
}
'''),
dict(id='C23-host-of-peer', prop='C23', pkg='pkg/cluster',
 needs='a broadcast of a request without a Host (HTTP/1.0) or with one: the copy carries the pod name instead',
 breaks='the copy sent to a named endpoint has the endpoint name as its host',
 edits=[(K,'''		out.Host = req.Host
''','''		out.Host = req.Host
		if ep.Name != "" {
			out.Host = ep.Name
		}
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	c, stop := demoClient(t, core.Endpoints{Subsets: []core.EndpointSubset{demoSubset("api", "10.0.0.2")}})
	defer stop()
	c.Broadcast(httptest.NewRequest("POST", "http://cache.test/x", nil), "api", "POST", "/x")
	if m := <-c.broadcast.Queue; m.Request.Host != "cache.test" {
		t.Fatalf("host %q", m.Request.Host)
	}
}
'''),
dict(id='C23-backlog-dropped', prop='C23', pkg='pkg/cluster',
 needs='a broadcast while the queue is full',
 breaks='endpoints are skipped when the queue is full',
 edits=[(K,'''		c.broadcast.Queue <- Message{out, 0}
''','''		select {
		case c.broadcast.Queue <- Message{out, 0}:
		default:
			log.Warn().Msg("Broadcast queue is full")
		}
''')],
 demo=PRE+'''func TestDemo(t *testing.T) {
	c, stop := demoClient(t, core.Endpoints{Subsets: []core.EndpointSubset{demoSubset("api", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12")}})
	defer stop()
	go c.Broadcast(httptest.NewRequest("POST", "http://cache.test/x", nil), "api", "POST", "/x")
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 12; i++ {
		select {
		case <-c.broadcast.Queue:
		case <-time.After(time.Second):
			t.Fatalf("only %d of 12 endpoints get a copy", i)
		}
	}
}
'''),
]
