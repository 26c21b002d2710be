package cluster

import (
	"context"
	"io"
	"kv"
	"kvm"
	"net"
	"net/http"
	"net/url"
	"strconv"

	v1 "k8s.io/api/core/v1"
	meta "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	core "k8s.io/client-go/kubernetes/typed/core/v1"
	"k8s.io/client-go/rest"
)

// ---- the kubernetes client (assumed) ----

// clApi: what the kubernetes API was asked, and its answer.
type clApi struct {
	Asked                         kv.Int
	Want, Namespace, Service, Tmp string
	Err                           error
	Eps                           *v1.Endpoints
}

var clApiKey = new(int)

func clAsked() *clApi { return kv.Ghost[clApi](clApiKey) }

//kv:model (*k8s.io/client-go/kubernetes.Clientset).CoreV1
func mdCoreV1(c *kubernetes.Clientset) core.CoreV1Interface {
	r := kv.Any[core.CoreV1Interface]()
	kv.Assume(r != nil)
	return r
}

//kv:model (k8s.io/client-go/kubernetes/typed/core/v1.EndpointsGetter).Endpoints
func mdEndpoints(c core.CoreV1Interface, ns string) core.EndpointsInterface {
	r := kv.Any[core.EndpointsInterface]()
	kv.Assume(r != nil)
	clAsked().Tmp = ns
	return r
}

//kv:model (k8s.io/client-go/kubernetes/typed/core/v1.EndpointsInterface).Get
func mdEndpointsGet(c core.EndpointsInterface, ctx context.Context, name string, o meta.GetOptions) (*v1.Endpoints, error) {
	g := clAsked()
	g.Asked++
	g.Namespace, g.Service = g.Tmp, name
	if kv.Any[bool]() {
		g.Err, g.Eps = &kvm.Err{Msg: kv.Any[string]()}, nil
		return nil, g.Err
	}
	e := kv.Any[*v1.Endpoints]()
	kv.Assume(e != nil)
	// the API server admits valid port numbers only; a name stands for one port of a subset
	kv.Assume(kv.Forall(func(i int) bool {
		return kv.Forall(func(j int) bool {
			if i < 0 || i >= len(e.Subsets) || j < 0 || j >= len(e.Subsets[i].Ports) {
				return true
			}
			p := e.Subsets[i].Ports[j]
			return kv.By(clAt(e, i, j) && 1 <= p.Port && p.Port <= 65535 && (p.Name != g.Want || clHas(e, i) && clPort(e, i) == int(p.Port)), clAt(e, i, j))
		})
	}))
	kv.Assume(kv.ForallN(len(e.Subsets), func(i int) bool {
		ps := e.Subsets[i].Ports
		return kv.By(!clHas(e, i) || 0 <= clPortAt(e, i) && clPortAt(e, i) < len(ps) && ps[clPortAt(e, i)].Name == g.Want, clHas(e, i))
	}))
	kv.Assume(clStart(e, 0) == 0)
	kv.Assume(kv.ForallN(len(e.Subsets), func(i int) bool {
		return kv.By(clStart(e, i+1) == clStart(e, i)+kv.Int(kv.Ite(clHas(e, i), len(e.Subsets[i].Addresses), 0)), clHas(e, i))
	}))
	kv.Assume(kv.Forall(func(i int) bool {
		return kv.Forall(func(j int) bool {
			p := clPos(e, i, j)
			in := 0 <= i && i < len(e.Subsets) && clHas(e, i) && 0 <= j && j < len(e.Subsets[i].Addresses)
			return kv.By(p == clStart(e, i)+kv.Int(j) && (!in || clSub(e, p) == i && clAdr(e, p) == j), p)
		})
	}))
	g.Err, g.Eps = nil, e
	return e, nil
}

// ---- endpoints ----

// clFound: the endpoints looked up last.
type clFound struct {
	List []Endpoint
	Port string
}

func clFoundBy(c *client) *clFound { return kv.Ghost[clFound](c) }

// The endpoints listed subset by subset; subsets without the wanted port have none. Definitions:
// whether subset i has the port and its number, the positions of
// subset i and its address j in the list, and the subset and address at a position.
func clAt(e *v1.Endpoints, i, j int) bool    { return kv.UF[bool]("cluster.at", e, i, j) } // holds
func clHas(e *v1.Endpoints, i int) bool      { return kv.UF[bool]("cluster.has", e, i) }
func clPort(e *v1.Endpoints, i int) int      { return kv.UF[int]("cluster.port", e, i) }
func clPortAt(e *v1.Endpoints, i int) int    { return kv.UF[int]("cluster.portAt", e, i) }
func clStart(e *v1.Endpoints, i int) kv.Int  { return kv.UF[kv.Int]("cluster.start", e, i) }
func clPos(e *v1.Endpoints, i, j int) kv.Int { return kv.UF[kv.Int]("cluster.pos", e, i, j) }
func clSub(e *v1.Endpoints, p kv.Int) int    { return kv.UF[int]("cluster.sub", e, p) }
func clAdr(e *v1.Endpoints, p kv.Int) int    { return kv.UF[int]("cluster.adr", e, p) }

// clListed: out lists the first endpoints of e.
func clListed(out []Endpoint, e *v1.Endpoints) bool {
	return kv.ForallN(len(out), func(p int) bool {
		i, j := clSub(e, kv.Int(p)), clAdr(e, kv.Int(p))
		if i < 0 || i >= len(e.Subsets) || !clHas(e, i) || j < 0 || j >= len(e.Subsets[i].Addresses) {
			return false
		}
		a := e.Subsets[i].Addresses[j]
		return out[p].Host == a.IP && out[p].Port == clPort(e, i) && (a.TargetRef == nil && out[p].Name == "" || a.TargetRef != nil && out[p].Name == a.TargetRef.Name)
	})
}

//kv:contract (*cluster.client).Endpoints C23
func ctEndpoints(c *client, portname string) []Endpoint {
	kv.Requires(c != nil && c.clientset != nil)
	kv.Modifies(clAsked(), clFoundBy(c))
	g := clAsked()
	g.Want = portname
	asked := g.Asked
	r := c.Endpoints(portname)
	f := clFoundBy(c)
	f.List, f.Port = r, portname
	if kv.UseMode() {
		return r
	}
	kv.Ensures("C23:the endpoints of the service are looked up", g.Asked == asked+1 && g.Namespace == c.namespace && g.Service == c.service)
	if g.Err != nil {
		kv.Cover("unavailable")
		kv.Ensures("C23:no endpoints are known if the lookup fails", len(r) == 0)
		return r
	}
	kv.Cover("found")
	e := g.Eps
	kv.Ensures("C23:as many endpoints as addresses with the port", kv.Int(len(r)) == clStart(e, len(e.Subsets)))
	kv.Ensures("C23:every address at the service port is an endpoint", clListed(r, e))
	return r
}

//kv:loopinv (*cluster.client).Endpoints 1/3
func liEndpoints(endpoints []Endpoint, k int) bool {
	e := clAsked().Eps
	return k <= len(e.Subsets) && kv.Int(len(endpoints)) == clStart(e, k)
}

//kv:loopinv (*cluster.client).Endpoints
func liListed(endpoints []Endpoint) bool { return clListed(endpoints, clAsked().Eps) }

//kv:loopinv (*cluster.client).Endpoints 3/3
func liEndpointsIn(endpoints []Endpoint, port int32, k, k1 int) bool {
	e := clAsked().Eps
	return kv.Int(len(endpoints)) == clPos(e, k1, k) && k <= len(e.Subsets[k1].Addresses)
}

//kv:loopinv (*cluster.client).Endpoints 2/3
func liPort(portname string, port int32, k, k1 int) bool {
	ps := clAsked().Eps.Subsets[k1].Ports
	return k <= len(ps) && (k == len(ps) || clAt(clAsked().Eps, k1, k)) && (port == 0 || clHas(clAsked().Eps, k1) && clPort(clAsked().Eps, k1) == int(port)) &&
		kv.Implies(port == 0, kv.ForallN(k, func(j int) bool { return ps[j].Name != portname }))
}

// ---- messages ----

// clFull: the body every attempt to send a request starts with.
func clFull(r *http.Request) string { return kvm.GetBodyOf(r.GetBody) }

// clMsg: a message as Broadcast queues it.
//
//kv:chaninv C23
func clMsg(m Message) bool { return clSound(m) && clDue(m) }

func clSound(m Message) bool {
	r := m.Request
	return r != nil && r.URL != nil && r.Header != nil && r.GetBody != nil && m.Attempt >= 0 && m.Attempt <= 1<<40
}

// clDeliver records the requests sent to peers.
type clDeliver struct {
	N, From, Fails kv.Int
	FailAt         kv.Int
	Method, Host   string
	Url            url.URL
	Header         http.Header
	Body           string
}

var clDeliverKey = new(int)

func clSent() *clDeliver { return kv.Ghost[clDeliver](clDeliverKey) }

//kv:model (*net/http.Client).Do
func mdClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	g := clSent()
	g.N++
	g.Method, g.Host, g.Url, g.Header = req.Method, req.Host, *req.URL, req.Header
	g.Body = ""
	if req.Body != nil {
		g.Body = kvm.Content(req.Body)
		kvm.Drain(req.Body)
	}
	if kv.Any[bool]() {
		g.Fails++
		g.FailAt = g.N
		return nil, &kvm.Err{Msg: kv.Any[string]()}
	}
	r := new(http.Response)
	r.StatusCode = kv.Any[int]()
	r.Header = kv.Any[http.Header]()
	r.Body = &kvm.Body{Data: kv.Any[string]()}
	if r.StatusCode >= 400 && r.StatusCode <= 599 {
		g.Fails++
		g.FailAt = g.N
	}
	return r, nil
}

// clCopy: what was sent last is a full copy of r.
func clCopy(r *http.Request) bool {
	g := clSent()
	return g.Method == r.Method && g.Host == r.Host && kv.Eq(g.Url, *r.URL) && kv.MapEq(g.Header, r.Header) && g.Body == clFull(r)
}

// clRetries records the messages handed to retry.
type clRetries struct {
	N     kv.Int
	On    bool // whether a worker is under way
	Queue *RequestQueue
}

var clRetriesKey = new(int)

func clRetried() *clRetries { return kv.Ghost[clRetries](clRetriesKey) }

// clRetryDue: a worker retries the message it failed to deliver just now.
func clRetryDue(q *RequestQueue, msg Message) bool {
	g, r := clSent(), clRetried()
	return !r.On || r.Queue == q && g.FailAt == g.N && g.N == kv.Int(kv.Received(q.Queue)) &&
		kv.Eq(msg, kv.ReceivedAt[Message](q.Queue, int(g.N)-1))
}

//kv:contract (*cluster.RequestQueue).retry C23
func ctRetry(q *RequestQueue, msg Message) {
	kv.Requires(q != nil && q.Queue != nil && q.Options.MaxRetries <= 1<<40 && clSound(msg) && !clCasting().On)
	kv.Requires(clRetryDue(q, msg))
	m := clRetried().N
	kv.Modifies(&clRetried().N)
	kv.ModifiesGhost("spawned")
	if !kv.UseMode() {
		kv.NeverClosed(q.Queue)
	}
	n := kv.Sent(q.Queue)
	q.retry(msg)
	clRetried().N = m + 1
	if kv.UseMode() {
		return
	}
	kv.Ensures("C23:the worker does not wait for the retry", kv.Sent(q.Queue) == n)
	kv.RunSpawned()
	if msg.Attempt+1 < q.Options.MaxRetries {
		kv.Cover("retried")
		msg1 := kv.SentAt[Message](q.Queue, n)
		kv.Ensures("C23:a failed delivery is queued again, once, as its next attempt", kv.Sent(q.Queue) == n+1 && msg1.Request == msg.Request && msg1.Attempt == msg.Attempt+1)
	} else {
		kv.Cover("given up")
		kv.Ensures("C23:never more than the configured number of attempts are made", kv.Sent(q.Queue) == n)
	}
}

//kv:contract (*cluster.RequestQueue).process C23 verify-only
func ctProcess(q *RequestQueue) {
	kv.Requires(q != nil && q.Queue != nil && q.done != nil && http.DefaultTransport != nil)
	kv.Requires(kv.Pending(&q.wg) >= 1 && kv.Pending(&q.wg) < 1<<31)
	kv.NeverClosed(q.Queue)
	kv.Requires(!kv.Same(q.Queue, q.done) && q.Options.MaxRetries <= 1<<40 && !clCasting().On)
	g, r := clSent(), clRetried()
	g.N = kv.Int(kv.Received(q.Queue))
	g.From, g.Fails, r.N, r.On, r.Queue = g.N, 0, 0, true, q
	stops, wg := kv.Received(q.done), kv.Pending(&q.wg)
	q.process()
	kv.Ensures("C23:every message taken is sent once, in full", clProgress(q))
	kv.Ensures("C23:every failed delivery is retried, and no other", clRetriesDue())
	kv.Ensures("C23:a worker ends only when told to stop", kv.Received(q.done) > stops)
	kv.Ensures("C23:a worker that ends says so", kv.Pending(&q.wg) == wg-1)
}

func clProgress(q *RequestQueue) bool {
	g, n := clSent(), kv.Received(q.Queue)
	return g.N == kv.Int(n) && g.From <= g.N && (g.N == g.From || clCopy(kv.ReceivedAt[Message](q.Queue, n-1).Request))
}

func clRetriesDue() bool { return clRetried().N == clSent().Fails }

//kv:loopinv (*cluster.RequestQueue).process
func liProcess(q *RequestQueue) bool { return clProgress(q) }

//kv:loopinv (*cluster.RequestQueue).process
func liProcess2(q *RequestQueue) bool {
	return clRetriesDue() && clRetried().On && clRetried().Queue == q
}

//kv:contract cluster.NewRequestQueue C23 verify-only
func ctNewRequestQueue(opts RequestQueueOpts) *RequestQueue {
	kv.Requires(opts.Size >= 0 && opts.MaxWorkers >= 0 && opts.MaxWorkers < 1<<31)
	n := kv.GhostInt("spawned:(*cluster.RequestQueue).process")
	q := NewRequestQueue(opts)
	kv.Ensures("C23:a queue has the configured size and budget", kv.Fresh(q) && cap(q.Queue) == opts.Size && len(q.Queue) == 0 && kv.Eq(q.Options, opts))
	kv.Ensures("C23:a queue can be stopped", q.done != nil && !kv.Closed(q.done))
	kv.Ensures("C23:as many workers as configured are started", kv.GhostInt("spawned:(*cluster.RequestQueue).process") == n+opts.MaxWorkers)
	return q
}

//kv:contract (*cluster.RequestQueue).Stop C23 verify-only
func ctStop(q *RequestQueue) {
	kv.Requires(q != nil && q.done != nil && !kv.Closed(q.done))
	q.Stop()
	kv.Ensures("C23:stopping a queue tells its workers", kv.Closed(q.done))
}

//kv:contract (*cluster.client).Close C23 verify-only
func ctClose(c *client) {
	kv.Requires(c != nil && c.broadcast != nil && c.broadcast.done != nil && !kv.Closed(c.broadcast.done))
	d := c.broadcast.done
	c.Close()
	kv.Ensures("C23:closing the connection stops its queue", kv.Closed(d))
}

//kv:model k8s.io/client-go/kubernetes.NewForConfig
func mdNewForConfig(c *rest.Config) (*kubernetes.Clientset, error) {
	if kv.Any[bool]() {
		return nil, kvm.LibFail()
	}
	return new(kubernetes.Clientset), nil
}

//kv:contract cluster.NewKubernetesClient C23 verify-only
func ctNewKubernetesClient(namespace, service string) (Connection, error) {
	r, err := NewKubernetesClient(namespace, service)
	c, ok := r.(*client)
	if err != nil {
		kv.Cover("no cluster")
		kv.Ensures("C23:no connection without a cluster", r == nil)
		return r, err
	}
	kv.Cover("connected")
	kv.Ensures("C23:a connection serves the given service", ok && c.namespace == namespace && c.service == service && c.clientset != nil)
	q := c.broadcast
	kv.Ensures("C23:a connection can queue, deliver and retry broadcasts", q != nil && q.Queue != nil && q.done != nil && cap(q.Queue) > 0 && q.Options.MaxWorkers > 0 && q.Options.MaxRetries > 1)
	return r, err
}

// ---- broadcast ----

// clCast: the parameters of a broadcast under way.
type clCast struct {
	On                               bool
	By                               *client
	From                             int
	Body, Host, Method, Path, Client string
	Header                           http.Header
}

var clCastKey = new(int)

func clCasting() *clCast { return kv.Ghost[clCast](clCastKey) }

func clUrl(e Endpoint, path string) string {
	return "http://" + net.JoinHostPort(e.Host, strconv.Itoa(e.Port)) + path
}

// clQueued: messages for the first k endpoints have been queued.
func clQueued(c *client, k int) bool {
	g, eps := clCasting(), clFoundBy(c).List
	return kv.Implies(!kvm.BadMethod(g.Method) && kv.ForallN(k, func(i int) bool { return kvm.UrlOk(clUrl(eps[i], g.Path)) }),
		kv.Sent(c.broadcast.Queue) == g.From+k)
}

// clDue: a message queued by a broadcast is the one for the next endpoint.
func clDue(m Message) bool {
	g := clCasting()
	if !g.On {
		return true
	}
	eps := clFoundBy(g.By).List
	i := kv.Sent(g.By.broadcast.Queue) - g.From
	return kv.Implies(!kvm.BadMethod(g.Method) && kv.ForallN(len(eps), func(j int) bool { return kvm.UrlOk(clUrl(eps[j], g.Path)) }),
		0 <= i && i < len(eps) && clMsgFor(m, eps[i]))
}

func clMsgFor(m Message, e Endpoint) bool {
	g := clCasting()
	if !clSound(m) || m.Attempt != 0 {
		return false
	}
	r := m.Request
	x, f := r.Header["X-Kache-Cluster"], r.Header["X-Forwarded-For"]
	return r.Method == kv.Ite(g.Method == "", "GET", g.Method) && kv.Eq(*r.URL, kvm.UrlParsed(clUrl(e, g.Path))) && r.Host == g.Host && clFull(r) == g.Body &&
		len(x) == 1 && x[0] == "Broadcast" && len(f) == 1 && f[0] == g.Client &&
		kv.Forall(func(k string) bool {
			a, okA := r.Header[k]
			b, okB := g.Header[k]
			return k == "X-Kache-Cluster" || k == "X-Forwarded-For" || okA == okB && (!okA || kv.SeqEq(a, b))
		})
}

//kv:contract (*cluster.client).Broadcast C23 verify-only
func ctBroadcast(c *client, req *http.Request, portname, method, path string) {
	kv.Requires(c != nil && c.clientset != nil && c.broadcast != nil && c.broadcast.Queue != nil && req != nil && req.Header != nil)
	kv.NeverClosed(c.broadcast.Queue)
	g := clCasting()
	g.On, g.By, g.From = true, c, kv.Sent(c.broadcast.Queue)
	g.Body, g.Host, g.Method, g.Path = kvm.Content(req.Body), req.Host, method, path
	g.Header = kv.Snap(req.Header)
	g.Client = req.RemoteAddr
	if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
		g.Client = host
	}
	fails := kv.GhostInt("lib.failures")
	clFoundBy(c).List = nil
	c.Broadcast(req, portname, method, path)
	eps := clFoundBy(c).List
	if kv.GhostInt("lib.failures") != fails {
		kv.Cover("unreadable")
		kv.Ensures("C23:a request that cannot be read is not broadcast", kv.Sent(c.broadcast.Queue) == g.From)
		return
	}
	kv.Cover("broadcast")
	kv.Ensures("C23:the endpoints of the given port are looked up", clFoundBy(c).Port == portname)
	// each is, when it is sent, the full copy for its endpoint (clMsg)
	kv.Ensures("C23:one copy of the request is queued for every endpoint", clQueued(c, len(eps)))
}

//kv:loopinv (*cluster.client).Broadcast
func liBroadcast(c *client, k int) bool { return k <= len(clFoundBy(c).List) && clQueued(c, k) }

var _ io.Reader
