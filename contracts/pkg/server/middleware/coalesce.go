package middleware

import (
	"kv"
	"kvm"
	"net/http"
	"sync"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/prometheus/client_golang/prometheus"
)

// Requests share an exchange through a table of calls guarded by the mutex of the coalescer,
// and through the lock and condition variable of each call. The contract of RoundTrip is
// verified for one goroutine; what the others may do meanwhile is made explicit where a lock
// is taken or a wait ends:
//   - whenever the mutex of the coalescer is taken, the table holds arbitrary calls that have
//     not ended, except that the own call is where it was put (coTableLock);
//   - whenever the lock of a call is taken, further goroutines may have started to wait for it,
//     and, unless the call was seen in the table since, it may have ended (coLock);
//   - a wait ends with the result of the call set (coWait).
//
// In return every goroutine is shown to keep its part: it changes no entry of the table but its
// own, waits only for calls that have not ended and know about it, and on every way out has
// removed its call, set the result and woken up everybody waiting.

// coCall: what is known about a call.
type coCall struct {
	Removed bool   // it left the table
	Synced  bool   // its lock was taken after that, hence all goroutines that will ever wait are known
	Waiters kv.Int // goroutines waiting
	Shared  bool   // some goroutine waited for the result
	Ended   bool   // the goroutines waiting were woken up
	Set     bool   // the result was set before they went on
	Resp    string
	Err     error
}

func coOf(c *call) *coCall { return kv.Ghost[coCall](c) }

// coSync: what is known about the lock of a call.
type coSync struct {
	Held bool
	Call *call
}

func coSyncOf(l sync.Locker) *coSync { return kv.Ghost[coSync](l) }

// coRun: the run of RoundTrip.
type coRun struct {
	Key    string
	Locked bool // the mutex of the coalescer is held
	Looks  kv.Int
	Found  *call // in flight when the table was first read
	Mine   *call
	Waits  kv.Int
	Waited *call
	Before map[string]*call
}

var coRunKey = new(int)

func coNow() *coRun { return kv.Ghost[coRun](coRunKey) }

// coFine: a call in the table.
func coFine(c *call) bool {
	return c != nil && c.Cond != nil && c.Cond.L != nil && coSyncOf(c.Cond.L).Call == c && !coOf(c).Removed && !coOf(c).Ended
}

//kv:guard Mutex inflights C22

//kv:monitor Mutex
func coTableLock(c *requestCoalescer, acquire bool) {
	t := coNow()
	if acquire {
		t.Locked = true
		t.Looks++
		kv.HavocMap(c.inflights)
		kv.Assume(kv.Forall(func(k string) bool {
			x, ok := c.inflights[k]
			return !ok || coFine(x)
		}))
		x, ok := c.inflights[t.Key]
		if t.Mine != nil {
			kv.Assume(ok == !coOf(t.Mine).Removed && (!ok || x == t.Mine))
		}
		if t.Looks == 1 {
			t.Found = nil
			if ok {
				t.Found = x
				kv.Assume(!coSyncOf(x.L).Held)
			}
		}
		t.Before = kv.Snap(c.inflights)
		return
	}
	t.Locked = false
	was, had := t.Before[t.Key]
	x, ok := c.inflights[t.Key]
	kv.Assert("C22:the calls of other requests are left alone", kv.Forall(func(k string) bool {
		a, oka := t.Before[k]
		b, okb := c.inflights[k]
		return k == t.Key || oka == okb && (!oka || a == b)
	}))
	if ok && (!had || x != was) {
		kv.Cover("registered")
		kv.Assert("C22:a call in flight is not replaced", !had)
		kv.Assert("C22:a call is registered once", t.Mine == nil)
		kv.Assert("C22:a new call is registered", x != nil && kv.Fresh(x) && x.Cond != nil && x.Cond.L != nil && !x.coalesced)
		t.Mine = x
		*coOf(x) = coCall{}
		coSyncOf(x.Cond.L).Call = x
	}
	if had && !ok {
		kv.Cover("removed")
		kv.Assert("C22:only the own call is removed", was == t.Mine)
		coOf(was).Removed = true
	}
}

type coLocker struct{ _ int }

func (l *coLocker) Lock()   { coLock(l) }
func (l *coLocker) Unlock() { coUnlock(l) }

//kv:model sync.NewCond
func coNewCond(l sync.Locker) *sync.Cond {
	n := new(coLocker)
	*coSyncOf(n) = coSync{}
	return &sync.Cond{L: n}
}

//kv:model (sync.Locker).Lock
func coLock(l sync.Locker) {
	s := coSyncOf(l)
	kv.Assert("C22:the lock of a call is not taken twice", !s.Held)
	s.Held = true
	c := s.Call
	if c == nil {
		return
	}
	g, t := coOf(c), coNow()
	if c == t.Mine {
		if g.Synced {
			return
		}
		n := kv.Any[kv.Int]()
		kv.Assume(n >= g.Waiters)
		g.Waiters = n
		c.coalesced = c.coalesced || kv.Any[bool]()
		kv.Assume(n == 0 || c.coalesced)
		if g.Removed {
			g.Synced = true
			g.Shared = n > 0
		}
		return
	}
	c.coalesced = c.coalesced || kv.Any[bool]()
	if !t.Locked && kv.Any[bool]() {
		coEnd(c)
	}
}

// coEnd: the goroutine executing the call of another one sets the result.
func coEnd(c *call) {
	g := coOf(c)
	if g.Ended {
		return
	}
	g.Ended, g.Removed = true, true
	g.Resp, g.Err = kv.Any[string](), kv.Any[error]()
	c.resp, c.err = kv.OfBytes(g.Resp), g.Err
}

//kv:model (sync.Locker).Unlock
func coUnlock(l sync.Locker) {
	s := coSyncOf(l)
	kv.Assert("C22:only a held lock of a call is released", s.Held)
	s.Held = false
	coSetNow(s.Call)
}

func coSetNow(c *call) {
	if c == nil || c != coNow().Mine || !coOf(c).Synced || coOf(c).Set {
		return
	}
	g := coOf(c)
	g.Set, g.Resp, g.Err = true, kv.Bytes(c.resp), c.err
}

//kv:model (*sync.Cond).Wait
func coWait(cond *sync.Cond) {
	s, t := coSyncOf(cond.L), coNow()
	c := s.Call
	g := coOf(c)
	kv.Cover("wait")
	kv.Assert("C22:a wait releases the lock it holds", s.Held)
	kv.Assert("C22:the table is not locked during a wait", !t.Locked)
	kv.Assert("C22:nobody waits for its own call", c != t.Mine)
	kv.Assert("C22:nobody waits for a call that has ended", !g.Ended)
	kv.Assert("C22:a call knows that somebody waits for it", c.coalesced)
	t.Waits++
	t.Waited = c
	coEnd(c)
}

//kv:model (*sync.Cond).Broadcast
func coBroadcast(cond *sync.Cond) { coWake(cond, true) }

//kv:model (*sync.Cond).Signal
func coSignal(cond *sync.Cond) { coWake(cond, false) }

func coWake(cond *sync.Cond, all bool) {
	s := coSyncOf(cond.L)
	c := s.Call
	kv.Cover("wake up")
	kv.Assert("C22:only the goroutine executing a call wakes up those waiting", c != nil && c == coNow().Mine)
	g := coOf(c)
	kv.Assert("C22:nobody is woken up before the call left the table", g.Removed)
	if !s.Held {
		coSetNow(c)
	}
	if g.Synced && g.Waiters > 0 {
		g.Waiters = kv.Ite(all, 0, g.Waiters-1)
		g.Ended = true
	}
}

// coNext: a transport that may panic.
type coNext struct {
	Calls   kv.Int
	Req     *http.Request
	Sent    http.Request
	Header  http.Header
	Aborted bool
	Locked  bool
	Resp    *http.Response
	Dump    string
	Err     error
}

func (n *coNext) RoundTrip(req *http.Request) (*http.Response, error) {
	n.Calls++
	n.Req, n.Sent, n.Header = req, *req, kv.Snap(req.Header)
	n.Locked = coNow().Locked
	if kv.Any[bool]() {
		n.Aborted = true
		panic("aborted")
	}
	if kv.Any[bool]() {
		n.Err = &kvm.Err{Msg: kv.Any[string]()}
		return nil, n.Err
	}
	r := new(http.Response)
	r.StatusCode, r.ContentLength, r.Header = kv.Any[int](), kv.Any[int64](), kv.Snap(kv.Any[http.Header]())
	data := kv.Any[string]()
	r.Body = &kvm.Body{Data: data}
	n.Resp = r
	n.Dump = kvm.WireDump(true, r.StatusCode, r.ContentLength, r.Header, data)
	return r, nil
}

// coShareable: the request is a GET without any header that restricts reuse.
func coShareable(r *http.Request) bool {
	has := func(n string) bool { _, ok := r.Header[n]; return ok }
	return r.Method == "GET" && (r.Body == nil || r.Body == http.NoBody) &&
		!has("Authorization") && !has("Cookie") && !has("Range") && !has("Upgrade") &&
		!has("If-Match") && !has("If-None-Match") && !has("If-Modified-Since") && !has("If-Unmodified-Since") && !has("If-Range") &&
		!has("Cache-Control") && !has("Pragma")
}

//kv:contract (*server/middleware.requestCoalescer).RoundTrip C22 verify-only paths monitor=coTableLock
func ctCoalesce(c *requestCoalescer, req *http.Request) (*http.Response, error) {
	kv.Requires(c != nil && c.inflights != nil && req != nil && req.URL != nil && req.Header != nil)
	kv.Requires(kv.Held(&c.Mutex) == 0)
	n := new(coNext)
	c.next = n
	t := coNow()
	*t = coRun{Key: kvm.UrlString(*req.URL)}
	share := coShareable(req)
	in, hdr := *req, kv.Snap(req.Header)
	failures := kv.GhostInt("lib.failures")
	var resp *http.Response
	var err error
	aborted := kv.Catch(func() { resp, err = c.RoundTrip(req) })
	kv.Ensures("C22:only a panic of the exchange gets through", aborted == n.Aborted)
	kv.Ensures("C22:the table is not left locked", kv.Held(&c.Mutex) == 0)
	if n.Calls > 0 {
		kv.Ensures("C22:the request is executed as it is", n.Req == req && kv.Eq(n.Sent, in) && kv.MapEq(n.Header, hdr))
		kv.Ensures("C22:the table is not locked during an exchange", !n.Locked)
		if !aborted {
			kv.Ensures("C22:the result of the own exchange is returned", resp == n.Resp && kv.Eq(err, n.Err))
		}
	}
	if !share {
		kv.Cover("not shareable")
		kv.Ensures("C22:a request that must not share has its own exchange", n.Calls == 1)
		kv.Ensures("C22:a request that must not share is not registered", t.Mine == nil && t.Waits == 0)
		return resp, err
	}
	kv.Ensures("C22:the calls in flight are consulted", t.Looks > 0)
	if t.Found != nil {
		kv.Cover("waited")
		f := t.Found
		g := coOf(f)
		kv.Ensures("C22:a request waits for the identical one in flight", t.Waits == 1 && t.Waited == f)
		kv.Ensures("C22:a waiting request causes no exchange", n.Calls == 0)
		kv.Ensures("C22:no lock of the call is left held", !coSyncOf(f.L).Held)
		kv.Ensures("C22:the shared result is left alone", kv.Bytes(f.resp) == g.Resp && kv.Eq(f.err, g.Err))
		if g.Err != nil {
			kv.Cover("shared error")
			kv.Ensures("C22:the error is shared", resp == nil && kv.Eq(err, g.Err))
		} else if kvm.WireOk(g.Resp) {
			kv.Cover("shared response")
			kv.Ensures("C22:the response is shared", err == nil && resp != nil && resp.StatusCode == kvm.WireStatus(g.Resp) &&
				kv.MapEq(resp.Header, kvm.WireHeader(g.Resp)) && resp.ContentLength == kvm.WireLength(g.Resp) && resp.Body != nil && kvm.Content(resp.Body) == kvm.WireBody(g.Resp))
		} else {
			kv.Ensures("C22:an unreadable response is an error", resp == nil && err != nil)
		}
		return resp, err
	}
	kv.Cover("executed")
	kv.Ensures("C22:the first of identical requests has its own exchange", n.Calls == 1 && t.Waits == 0)
	m := t.Mine
	kv.Ensures("C22:the call is registered", m != nil)
	if m == nil {
		return resp, err
	}
	g := coOf(m)
	kv.Ensures("C22:the call is removed in the end", g.Removed)
	kv.Ensures("C22:no lock of the call is left held", !coSyncOf(m.L).Held)
	kv.Ensures("C22:every waiting request is woken up", g.Synced && g.Waiters == 0)
	if g.Shared {
		kv.Cover("shared")
		kv.Ensures("C22:the result is set before waiting requests go on", g.Set && kv.Bytes(m.resp) == g.Resp && kv.Eq(m.err, g.Err))
		switch {
		case aborted:
			kv.Cover("aborted")
			kv.Ensures("C22:an aborted exchange is an error", g.Err != nil)
		case n.Err != nil:
			kv.Cover("failed")
			kv.Ensures("C22:an error is passed on", kv.Eq(g.Err, n.Err))
		case kv.GhostInt("lib.failures") == failures:
			kv.Cover("dumped")
			kv.Ensures("C22:the response is passed on", g.Err == nil && g.Resp == n.Dump)
		default:
			kv.Ensures("C22:a response that cannot be read is an error", g.Err != nil)
		}
	}
	return resp, err
}

//kv:contract server/middleware.NewCoalesced C22 verify-only
func ctNewCoalesced(next http.RoundTripper) http.RoundTripper {
	r := NewCoalesced(next)
	c, ok := r.(*requestCoalescer)
	kv.Ensures("C22:the transport shares exchanges", ok)
	if ok {
		kv.Cover("coalescer")
		kv.Ensures("C22:nothing is in flight at first", c != nil && c.inflights != nil && len(c.inflights) == 0 && kv.Held(&c.Mutex) == 0)
		kv.Ensures("C22:exchanges are left to the given transport", kv.Eq(c.next, next))
	}
	return r
}

//kv:contract server/middleware.NewCachedTransport C21 C22 verify-only
func ctNewCachedTransport(c *cache.HttpCache, reg prometheus.Registerer) *Transport {
	t := NewCachedTransport(c, reg)
	kv.Ensures("C21,C22:the cache in front of the origin is the given one", t != nil && kv.Fresh(t) && t.Cache == c && t.metrics != nil && t.currentTime != nil)
	o, ok := t.Transport.(*http.Transport)
	kv.Ensures("C22:an exchange goes to the origin", ok && o != nil && kv.Fresh(o))
	return t
}

// SpecStack: concurrent requests share the exchanges of a cache, the cache those of the origin.
func SpecStack(rt http.RoundTripper, hc *cache.HttpCache) bool {
	c, ok := rt.(*requestCoalescer)
	if !ok || c == nil || c.inflights == nil || len(c.inflights) != 0 {
		return false
	}
	t, ok := c.next.(*Transport)
	if !ok || t == nil || t.Cache != hc || t.metrics == nil || t.currentTime == nil {
		return false
	}
	o, ok := t.Transport.(*http.Transport)
	return ok && o != nil
}
