// Package kvm holds the assumed contracts (models) of the standard library
// and of third party packages that /repo calls. None of it is executed.
package kvm

import (
	"bufio"
	"bytes"
	"context"
	"io"
	"kv"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"path"
	"regexp"
	"strings"
	"time"
)

// Err is the dynamic type of errors produced by modelled library functions.
type Err struct{ Msg string }

func (e *Err) Error() string { return e.Msg }

// WrapErr is what fmt.Errorf("%w") and errors.Join produce.
type WrapErr struct {
	Msg   string
	Inner error
}

func (e *WrapErr) Error() string { return e.Msg }

//kv:model errors.New
func errorsNew(s string) error { return &Err{Msg: s} }

//kv:model errors.Join
func errorsJoin(errs ...error) error {
	for i := 0; i < len(errs); i++ {
		if errs[i] != nil {
			return &WrapErr{Msg: kv.Any[string]()}
		}
	}
	return nil
}

// ErrIs: errors.Is; errors of unknown type wrap whatever they like, but the same error always gives the same answer.
func ErrIs(err, target error) bool {
	if err == nil {
		return target == nil
	}
	if kv.Eq(err, target) {
		return true
	}
	if _, ok := err.(*Err); ok {
		return false
	}
	return kv.UF[bool]("errors.Is", err, target)
}

//kv:model errors.Is
func errorsIs(err, target error) bool { return ErrIs(err, target) }

// HeaderGet: first value under the canonical name.
func HeaderGet(h http.Header, key string) string {
	v := h[kv.UF[string]("canon", key)]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

//kv:model (net/http.Header).Get
func headerGet(h http.Header, key string) string { return HeaderGet(h, key) }

// DurOk, DurVal: the outcome of time.ParseDuration.
func DurOk(s string) bool           { return kv.UF[bool]("time.ParseDuration.ok", s) }
func DurVal(s string) time.Duration { return kv.UF[time.Duration]("time.ParseDuration", s) }

//kv:model time.ParseDuration
func parseDuration(s string) (time.Duration, error) {
	if DurOk(s) {
		return DurVal(s), nil
	}
	return 0, &Err{Msg: kv.UF[string]("time.ParseDuration.err", s)}
}

// TimeOk, TimeVal: the outcome of time.Parse.
func TimeOk(layout, s string) bool       { return kv.UF[bool]("time.Parse.ok", layout, s) }
func TimeVal(layout, s string) time.Time { return kv.UF[time.Time]("time.Parse", layout, s) }

//kv:model time.Parse
func timeParse(layout, s string) (time.Time, error) {
	if TimeOk(layout, s) {
		return TimeVal(layout, s), nil
	}
	return time.Time{}, &Err{Msg: kv.UF[string]("time.Parse.err", layout, s)}
}

//kv:model (net/http.Header).Values
func headerValues(h http.Header, key string) []string { return h[kv.UF[string]("canon", key)] }

//kv:model (net/http.Header).Set
func headerSet(h http.Header, key, value string) {
	h[kv.UF[string]("canon", key)] = []string{value}
}

//kv:model (net/http.Header).Del
func headerDel(h http.Header, key string) { delete(h, kv.UF[string]("canon", key)) }

//kv:model (net/http.Header).Add
func headerAdd(h http.Header, key, value string) {
	k := kv.UF[string]("canon", key)
	h[k] = append(h[k], value)
}

//kv:model (net/http.Header).Clone
func headerClone(h http.Header) http.Header {
	if h == nil {
		return nil
	}
	return kv.Snap(h)
}

// ---- readers, bodies, the HTTP wire format ----

// Body is the dynamic type of message bodies produced by modelled functions.
type Body struct {
	Data   string
	Closed bool
}

func (b *Body) Read(p []byte) (int, error) { panic("opaque") }
func (b *Body) Close() error {
	b.Closed = true
	return nil
}

// Rd is the ghost state of a reader whose type is unknown.
type Rd struct {
	Data   string
	Closed bool
}

// Content: what remains to be read from r.
func Content(r io.Reader) string {
	if r == nil {
		return ""
	}
	switch x := r.(type) {
	case *bytes.Buffer:
		return kv.Content(x)
	case *bytes.Reader:
		return kv.Content(x)
	case *strings.Reader:
		return kv.Content(x)
	case *bufio.Reader:
		return kv.Content(x)
	case *Body:
		return x.Data
	}
	return kv.Ghost[Rd](r).Data
}

// Drain marks everything as read.
func Drain(r io.Reader) {
	switch x := r.(type) {
	case nil:
	case *bytes.Buffer:
		kv.SetContent(x, "")
	case *bytes.Reader:
		kv.SetContent(x, "")
	case *strings.Reader:
		kv.SetContent(x, "")
	case *bufio.Reader:
		kv.SetContent(x, "")
	case *Body:
		x.Data = ""
	default:
		kv.Ghost[Rd](r).Data = ""
	}
}

//kv:model (io.Closer).Close
func closerClose(c io.Closer) error {
	kv.Ghost[Rd](c).Closed = true
	return kv.Any[error]()
}

//kv:model (io.ReadCloser).Close
func readCloserClose(c io.ReadCloser) error {
	kv.Ghost[Rd](c).Closed = true
	return kv.Any[error]()
}

//kv:model bufio.NewReader
func bufioNewReader(rd io.Reader) *bufio.Reader {
	r := new(bufio.Reader)
	kv.SetContent(r, Content(rd))
	return r
}

//kv:model io.NopCloser
func ioNopCloser(r io.Reader) io.ReadCloser { return &Body{Data: Content(r)} }

// LibFail counts failures reported by library calls that may fail for reasons of their own.
func LibFail() error {
	kv.SetGhostInt("lib.failures", kv.GhostInt("lib.failures")+1)
	return &Err{Msg: kv.Any[string]()}
}

//kv:model io.ReadAll
func ioReadAll(r io.Reader) ([]byte, error) {
	if kv.Any[bool]() {
		return nil, LibFail()
	}
	s := Content(r)
	Drain(r)
	return kv.OfBytes(s), nil
}

// WireDump: the serialization of a response.
func WireDump(withBody bool, status int, length int64, h http.Header, body string) string {
	return kv.UF[string]("wire.dump", withBody, status, length, h, kv.Ite(withBody, body, ""))
}

//kv:model net/http/httputil.DumpResponse
func dumpResponse(resp *http.Response, body bool) ([]byte, error) {
	if kv.Any[bool]() {
		return nil, LibFail()
	}
	data := ""
	if resp.Body != nil {
		data = Content(resp.Body)
	}
	d := WireDump(body, resp.StatusCode, resp.ContentLength, resp.Header, data)
	if body && resp.Body != nil {
		resp.Body = &Body{Data: data}
	}
	return kv.OfBytes(d), nil
}

// The outcome of parsing a serialized response.
func WireOk(s string) bool            { return kv.UF[bool]("wire.ok", s) }
func WireStatus(s string) int         { return kv.UF[int]("wire.status", s) }
func WireHeader(s string) http.Header { return kv.MapUF[http.Header]("wire.header", s) }
func WireBody(s string) string        { return kv.UF[string]("wire.body", s) }
func WireLength(s string) int64       { return kv.UF[int64]("wire.length", s) }

//kv:model net/http.ReadResponse
func readResponse(r *bufio.Reader, req *http.Request) (*http.Response, error) {
	s := kv.Content(r)
	if !WireOk(s) {
		return nil, &Err{Msg: kv.UF[string]("wire.err", s)}
	}
	return &http.Response{
		Status:        kv.UF[string]("wire.statustext", s),
		StatusCode:    WireStatus(s),
		Header:        WireHeader(s),
		ContentLength: WireLength(s),
		Body:          &Body{Data: WireBody(s)},
		Request:       req,
	}, nil
}

// ---- context ----

// reqCtx: where a request keeps its context.
func reqCtx(r *http.Request) *context.Context { return kv.Field[context.Context](r, "ctx") }

//kv:model (*net/http.Request).Context
func requestContext(r *http.Request) context.Context {
	c := *reqCtx(r)
	if c != nil {
		return c
	}
	return context.Background()
}

//kv:model (*net/http.Request).WithContext
func requestWithContext(r *http.Request, ctx context.Context) *http.Request {
	n := new(http.Request)
	*n = *r
	*reqCtx(n) = ctx
	return n
}

//kv:model (*net/http.Request).Clone
func requestClone(r *http.Request, ctx context.Context) *http.Request {
	n := new(http.Request)
	*n = *r
	*reqCtx(n) = ctx
	if r.Header != nil {
		n.Header = kv.Snap(r.Header)
	}
	if r.URL != nil {
		u := new(url.URL)
		*u = *r.URL
		n.URL = u
	}
	return n
}

// Ctx is the dynamic type of modelled contexts.
type Ctx struct {
	context.Context
	Id int
}

//kv:model context.Background
func ctxBackground() context.Context { return BackgroundCtx() }

//kv:model context.TODO
func ctxTODO() context.Context { return BackgroundCtx() }

func BackgroundCtx() context.Context { return kv.UF[*Ctx]("context.Background") }

// Clock records the readings of an injected clock.
type Clock struct {
	Reads       kv.Int
	First, Last time.Time
}

var clockKey = new(int)

func ClockLog() *Clock { return kv.Ghost[Clock](clockKey) }

//kv:model func:func() time.Time
func clockFn(f func() time.Time) time.Time {
	n := time.Now()
	c := ClockLog()
	if c.Reads == 0 {
		c.First = n
	}
	c.Reads++
	c.Last = n
	return n
}

// Exchange records what a transport of unknown type was asked to do.
type Exchange struct {
	Calls  int
	Req    *http.Request
	Sent   http.Request // the request as it was sent
	Header http.Header  // its headers at that moment
	Resp   *http.Response
	Status int
	Length int64
	Answer http.Header // the headers of the answer
	Body   string
	Err    error
}

func Origin(rt http.RoundTripper) *Exchange { return kv.Ghost[Exchange](rt) }

//kv:model (net/http.RoundTripper).RoundTrip
func roundTrip(rt http.RoundTripper, req *http.Request) (*http.Response, error) {
	x := Origin(rt)
	x.Calls++
	x.Req = req
	x.Sent = *req
	x.Header = kv.Snap(req.Header)
	x.Resp, x.Err = nil, kv.Any[error]()
	if x.Err == nil {
		r := new(http.Response)
		*r = kv.Any[http.Response]()
		x.Status, x.Length, x.Body, x.Answer = r.StatusCode, r.ContentLength, kv.Any[string](), kv.Snap(kv.Any[http.Header]())
		r.Header, r.Body = kv.Snap(x.Answer), &Body{Data: x.Body}
		x.Resp = r
	}
	return x.Resp, x.Err
}

// ---- url ----

//kv:model net/url.ParseQuery
func parseQuery(raw string) (url.Values, error) {
	m := kv.MapUF[url.Values]("url.query", raw)
	if QueryOk(raw) {
		return m, nil
	}
	return m, &Err{Msg: kv.UF[string]("url.query.err", raw)}
}

func QueryOk(raw string) bool { return kv.UF[bool]("url.query.ok", raw) }

//kv:model (*net/url.URL).Query
func urlQuery(u *url.URL) url.Values { return kv.MapUF[url.Values]("url.query", u.RawQuery) }

//kv:model (net/url.Values).Encode
func valuesEncode(v url.Values) string { return kv.UF[string]("url.encode", v) }

// UrlString: the text of a URL.
func UrlString(u url.URL) string {
	return kv.UF[string]("url.string", u.Scheme, u.Opaque, u.User, u.Host, u.Path, u.RawPath, u.OmitHost, u.ForceQuery, u.RawQuery, u.Fragment, u.RawFragment)
}

//kv:model (*net/url.URL).String
func urlString(u *url.URL) string { return UrlString(*u) }

// ---- regexp ----

// A compiled expression is immutable, so it is represented by its pattern.
func RegexpOk(pattern string) bool            { return kv.UF[bool]("regexp.ok", pattern) }
func RegexpMatch(pattern, s string) bool      { return kv.UF[bool]("regexp.match", pattern, s) }
func RegexpPattern(r *regexp.Regexp) string   { return kv.UF[string]("regexp.pattern", r) }
func regexpCompiled(p string) *regexp.Regexp  { return kv.UF[*regexp.Regexp]("regexp.compiled", p) }

//kv:axiom regexp.compiled
func axCompiled() bool {
	return kv.Forall(func(p string) bool { return regexpCompiled(p) != nil && RegexpPattern(regexpCompiled(p)) == p })
}

// Compiled: the expression of a valid pattern, nil for an invalid one.
func Compiled(p string) *regexp.Regexp {
	if !RegexpOk(p) {
		return nil
	}
	return regexpCompiled(p)
}

//kv:model regexp.Compile
func regexpCompile(p string) (*regexp.Regexp, error) {
	if !RegexpOk(p) {
		return nil, &Err{Msg: kv.UF[string]("regexp.err", p)}
	}
	return Compiled(p), nil
}

//kv:model regexp.MatchString
func regexpMatch(p, s string) (bool, error) {
	if !RegexpOk(p) {
		return false, &Err{Msg: kv.UF[string]("regexp.err", p)}
	}
	return RegexpMatch(p, s), nil
}

//kv:model (*regexp.Regexp).MatchString
func regexpMatchString(r *regexp.Regexp, s string) bool { return RegexpMatch(RegexpPattern(r), s) }

//kv:model (*regexp.Regexp).String
func regexpString(r *regexp.Regexp) string { return RegexpPattern(r) }

//kv:model fmt.Errorf
func fmtErrorf(format string, args ...any) error { return &Err{Msg: kv.Any[string]()} }

//kv:model time.NewTimer
func timeNewTimer(d time.Duration) *time.Timer { return &time.Timer{C: make(chan time.Time, 1)} }

//kv:model time.After
func timeAfter(d time.Duration) <-chan time.Time { return make(chan time.Time, 1) }

// AddrOk, AddrOf: the outcome of netip.ParseAddr.
func AddrOk(s string) bool       { return kv.UF[bool]("netip.ParseAddr.ok", s) }
func AddrOf(s string) netip.Addr { return kv.UF[netip.Addr]("netip.ParseAddr", s) }

// AddrValid: an address other than the zero address.
func AddrValid(a netip.Addr) bool { return kv.UF[bool]("netip.Addr.valid", a) }

// AddrBytes: the bytes of an address.
func AddrBytes(a netip.Addr) string { return kv.UF[string]("netip.Addr.bytes", a) }

//kv:model net/netip.ParseAddr
func netipParseAddr(s string) (netip.Addr, error) {
	if AddrOk(s) {
		a := AddrOf(s)
		kv.Assume(AddrValid(a))
		return a, nil
	}
	a := netip.Addr{}
	kv.Assume(!AddrValid(a))
	return a, &Err{Msg: kv.UF[string]("netip.ParseAddr.err", s)}
}

//kv:model (net/netip.Addr).IsValid
func netipIsValid(a netip.Addr) bool { return AddrValid(a) }

//kv:model (net/netip.Addr).AsSlice
func netipAsSlice(a netip.Addr) []byte { return kv.OfBytes(AddrBytes(a)) }

// NetOk: whether net.ParseCIDR accepts the text.
func NetOk(s string) bool { return kv.UF[bool]("net.ParseCIDR.ok", s) }

// NetText: the text a network was parsed from.
type NetText struct{ S string }

func NetOf(n *net.IPNet) string { return kv.Ghost[NetText](n).S }

// NetHas: whether the network given as text contains the address given as bytes.
func NetHas(s, ip string) bool { return kv.UF[bool]("net.IPNet.Contains", s, ip) }

//kv:model net.ParseCIDR
func netParseCIDR(s string) (net.IP, *net.IPNet, error) {
	if NetOk(s) {
		n := &net.IPNet{}
		kv.Ghost[NetText](n).S = s
		return net.IP(kv.OfBytes(kv.Any[string]())), n, nil
	}
	return nil, nil, &Err{Msg: kv.UF[string]("net.ParseCIDR.err", s)}
}

//kv:model (*net.IPNet).Contains
func netContains(n *net.IPNet, ip net.IP) bool { return NetHas(NetOf(n), kv.Bytes(ip)) }

// HostPortOk, HostOf: the outcome of net.SplitHostPort.
func HostPortOk(s string) bool { return kv.UF[bool]("net.SplitHostPort.ok", s) }
func HostOf(s string) string   { return kv.UF[string]("net.SplitHostPort.host", s) }
func PortOf(s string) string   { return kv.UF[string]("net.SplitHostPort.port", s) }

//kv:model net.SplitHostPort
func netSplitHostPort(s string) (string, string, error) {
	if HostPortOk(s) {
		return HostOf(s), PortOf(s), nil
	}
	return "", "", &Err{Msg: kv.UF[string]("net.SplitHostPort.err", s)}
}

// RespLog records what was answered through a response writer.
type RespLog struct {
	Calls   kv.Int
	Wrote   bool
	Status  int
	H       http.Header
	Body    string
	HadBody bool
	At      int // configuration updates made before the status was sent
}

func Resp(w any) *RespLog { return kv.Ghost[RespLog](w) }

func (g *RespLog) status(code int) {
	g.Calls++
	if !g.Wrote {
		g.Wrote, g.Status, g.At = true, code, kv.GhostInt("config.updates")
	}
}

func (g *RespLog) write(s string) {
	if !g.Wrote {
		g.Wrote, g.Status, g.At = true, 200, kv.GhostInt("config.updates")
	}
	g.HadBody = true
	g.Body += s
}

//kv:model (net/http.ResponseWriter).Header
func respHeader(w http.ResponseWriter) http.Header {
	g := Resp(w)
	if g.H == nil {
		g.H = http.Header{}
	}
	return g.H
}

//kv:model (net/http.ResponseWriter).WriteHeader
func respWriteHeader(w http.ResponseWriter, code int) { Resp(w).status(code) }

//kv:model (net/http.ResponseWriter).Write
func respWrite(w http.ResponseWriter, b []byte) (int, error) {
	Resp(w).write(kv.Bytes(b))
	return kv.Any[int](), kv.Any[error]()
}

//kv:model (io.Writer).Write
func writerWrite(w io.Writer, b []byte) (int, error) {
	Resp(w).write(kv.Bytes(b))
	return kv.Any[int](), kv.Any[error]()
}

//kv:model net/http.Error
func httpError(w http.ResponseWriter, msg string, code int) {
	g := Resp(w)
	g.status(code)
	g.write(msg)
}

//kv:model net/http.NotFound
func httpNotFound(w http.ResponseWriter, r *http.Request) {
	g := Resp(w)
	g.status(404)
	g.write("404 page not found")
}

//kv:model fmt.Fprint
func fmtFprint(w io.Writer, a ...any) (int, error) {
	Resp(w).write(kv.Any[string]())
	return kv.Any[int](), kv.Any[error]()
}

//kv:model fmt.Fprintln
func fmtFprintln(w io.Writer, a ...any) (int, error) {
	Resp(w).write(kv.Any[string]())
	return kv.Any[int](), kv.Any[error]()
}

//kv:model fmt.Fprintf
func fmtFprintf(w io.Writer, f string, a ...any) (int, error) {
	Resp(w).write(kv.Any[string]())
	return kv.Any[int](), kv.Any[error]()
}

//kv:model io.WriteString
func ioWriteString(w io.Writer, s string) (int, error) {
	Resp(w).write(s)
	return kv.Any[int](), kv.Any[error]()
}

// HandlerLog records the handlers of unknown type run.
type HandlerLog struct {
	N kv.Int
	W http.ResponseWriter
	R *http.Request
}

var handlerLogAt = new(int)

func Handled() *HandlerLog { return kv.Ghost[HandlerLog](handlerLogAt) }

func handle(w http.ResponseWriter, r *http.Request) {
	g := Handled()
	g.N++
	g.W, g.R = w, r
}

//kv:model func:net/http.HandlerFunc
func handlerFunc(f http.HandlerFunc, w http.ResponseWriter, r *http.Request) { handle(w, r) }

//kv:model func:func(net/http.ResponseWriter, *net/http.Request)
func handlerFunc2(f http.HandlerFunc, w http.ResponseWriter, r *http.Request) { handle(w, r) }

//kv:model (net/http.Handler).ServeHTTP
func handlerServe(h http.Handler, w http.ResponseWriter, r *http.Request) { handle(w, r) }

//kv:model (net/http.HandlerFunc).ServeHTTP
func handlerFuncServe(f http.HandlerFunc, w http.ResponseWriter, r *http.Request) { f(w, r) }

// ---- files and digests ----

// FileLog records the last file read.
type FileLog struct {
	Reads   kv.Int
	Path    string
	Content string
	Err     error
}

var fileLogAt = new(int)

func File() *FileLog { return kv.Ghost[FileLog](fileLogAt) }

//kv:model os.ReadFile
func osReadFile(path string) ([]byte, error) {
	g := File()
	g.Reads++
	g.Path, g.Content, g.Err = path, kv.Any[string](), kv.Any[error]()
	if g.Err != nil {
		return nil, g.Err
	}
	return kv.OfBytes(g.Content), nil
}

// Digest: a checksum; different contents have different ones (assumed).
func Digest(alg, s string) string { return kv.UF[string]("digest", alg, s) }

func digestInv(d string) string { return kv.UF[string]("digest.inv", d) }

//kv:axiom digest
func axDigest() bool {
	return kv.Forall(func(alg string) bool {
		return kv.Forall(func(s string) bool { return digestInv(Digest(alg, s)) == s })
	})
}

//kv:model crypto/md5.Sum
func md5Sum(b []byte) [16]byte {
	r := kv.Any[[16]byte]()
	kv.Assume(kv.Bytes(r[:]) == Digest("md5", kv.Bytes(b)))
	return r
}

//kv:model crypto/sha1.Sum
func sha1Sum(b []byte) [20]byte {
	r := kv.Any[[20]byte]()
	kv.Assume(kv.Bytes(r[:]) == Digest("sha1", kv.Bytes(b)))
	return r
}

//kv:model crypto/sha256.Sum256
func sha256Sum(b []byte) [32]byte {
	r := kv.Any[[32]byte]()
	kv.Assume(kv.Bytes(r[:]) == Digest("sha256", kv.Bytes(b)))
	return r
}

// PathUnder: the cleaned absolute path rest/last, for a clean absolute path last; slashes around rest do not matter.
func PathUnder(rest, last string) string {
	if rest == "" {
		return last
	}
	base := kv.UF[string]("path.base", rest)
	kv.Assume(base == "" || strings.HasPrefix(base, "/"))
	r := base + last
	kv.Assume(kv.UF[string]("path.last", rest, r) == last)
	kv.Assume(kv.Implies(IsTemplate(r), IsTemplate(rest) || IsTemplate(last)))
	return r
}

//kv:model path.Join
func pathJoin(elem ...string) string {
	s, rest, last, rooted := "", "", "", false
	for i, e := range elem {
		if e != "" {
			if s != "" {
				s += "/"
			} else {
				rooted = e[0] == '/'
			}
			s += e
			if i < len(elem)-1 {
				if t := strings.Trim(e, "/"); t != "" {
					if rest != "" {
						rest += "/"
					}
					rest += t
				}
			}
		}
		last = e
	}
	if s == "" {
		return ""
	}
	if rooted && last != "" && last[0] == '/' && last != "/" && path.Clean(last) == last {
		return PathUnder(rest, last)
	}
	r := kv.UF[string]("path.clean", s)
	kv.Assume(strings.HasPrefix(r, "/") == rooted)
	return r
}

// GetBodyOf: what the bodies made by a GetBody function contain.
func GetBodyOf(f func() (io.ReadCloser, error)) string { return kv.UF[string]("http.getbody", f) }

//kv:model func:func() (io.ReadCloser, error)
func getBodyCall(f func() (io.ReadCloser, error)) (io.ReadCloser, error) {
	return &Body{Data: GetBodyOf(f)}, nil
}

// BadMethod: not a token.
func BadMethod(m string) bool { return m != "" && kv.UF[bool]("http.badmethod", m) }

func newReq(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	if BadMethod(method) || !UrlOk(u) {
		return nil, &Err{Msg: kv.Any[string]()}
	}
	r := new(http.Request)
	*r = http.Request{Method: kv.Ite(method == "", "GET", method), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}}
	x := UrlParsed(u)
	r.URL = new(url.URL)
	*r.URL = x
	r.Host = x.Host
	*reqCtx(r) = ctx
	if body == nil {
		return r, nil
	}
	s := Content(body)
	r.Body = &Body{Data: s}
	switch body.(type) {
	case *bytes.Buffer, *bytes.Reader, *strings.Reader:
		f := kv.Any[func() (io.ReadCloser, error)]()
		kv.Assume(f != nil && GetBodyOf(f) == s)
		r.GetBody = f
		r.ContentLength = int64(len(s))
	}
	return r, nil
}

//kv:model net/http.NewRequest
func httpNewRequest(method, u string, body io.Reader) (*http.Request, error) {
	return newReq(context.Background(), method, u, body)
}

//kv:model net/http.NewRequestWithContext
func httpNewRequestCtx(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	return newReq(ctx, method, u, body)
}

//kv:model net.JoinHostPort
func joinHostPort(host, port string) string { return kv.UF[string]("net.joinhostport", host, port) }
