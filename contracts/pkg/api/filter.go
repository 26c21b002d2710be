package api

import (
	"kv"
	"kvm"
	"net"
	"net/http"
	"net/netip"
	"strings"
)

// flEntries: the entries of an access list.
func flEntries(list string) []string { return strings.Split(strings.Trim(list, ","), ",") }

func flEmpty(list string) bool { return strings.Trim(list, ",") == "" }

// flNet, flAddr: what an entry denotes.
func flNet(e string) bool  { return kvm.NetOk(strings.TrimSpace(e)) }
func flAddr(e string) bool { return !kvm.NetOk(strings.TrimSpace(e)) && kvm.AddrOk(strings.TrimSpace(e)) }

func flBad(e string) bool { return !flNet(e) && !flAddr(e) }

func flHas(m map[netip.Addr]struct{}, a netip.Addr) bool { _, ok := m[a]; return ok }

// flLists: the address a is listed explicitly among the first n entries.
func flLists(es []string, n int, a netip.Addr) bool {
	return kv.ExistsN(n, func(i int) bool { return flAddr(es[i]) && kvm.AddrOf(strings.TrimSpace(es[i])) == a })
}

// flNote records the access list being parsed.
type flNote struct{ Es []string }

var flNoteAt = new(int)

func flNow() []string { return kv.Ghost[flNote](flNoteAt).Es }

//kv:contract api.NewIPFilter C18 verify-only
func ctNewIPFilter(whitelist string) (*IPFilter, error) {
	es := flEntries(whitelist)
	kv.Ghost[flNote](flNoteAt).Es = es
	f, err := NewIPFilter(whitelist)
	if flEmpty(whitelist) {
		kv.Cover("empty")
		kv.Ensures("C18:an empty list admits everyone", err == nil && f != nil && len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0)
		return f, err
	}
	kv.Ensures("C18:a list with a malformed entry is rejected, any other accepted", (err != nil) == kv.ExistsN(len(es), func(i int) bool { return flBad(es[i]) }))
	if err != nil {
		kv.Cover("rejected")
		return f, err
	}
	kv.Cover("accepted")
	kv.Ensures("C18:the addresses admitted are those listed", f != nil && f.allowedIPs != nil && kv.Forall(func(a netip.Addr) bool { return flHas(f.allowedIPs, a) == flLists(es, len(es), a) }))
	kv.Ensures("C18:every network admitted is listed", kv.ForallN(len(f.allowedCIDRs), func(j int) bool {
		return f.allowedCIDRs[j] != nil && kv.ExistsN(len(es), func(i int) bool { return flNet(es[i]) && kvm.NetOf(f.allowedCIDRs[j]) == strings.TrimSpace(es[i]) })
	}))
	kv.Ensures("C18:every network listed is admitted", kv.ForallN(len(es), func(i int) bool {
		return kv.Implies(flNet(es[i]), kv.ExistsN(len(f.allowedCIDRs), func(j int) bool { return kvm.NetOf(f.allowedCIDRs[j]) == strings.TrimSpace(es[i]) }))
	}))
	return f, err
}

//kv:loopinv api.NewIPFilter
func liFilter1(allowedIPs map[netip.Addr]struct{}, k int) bool {
	es := flNow()
	return allowedIPs != nil && k <= len(es) && kv.Forall(func(a netip.Addr) bool { return flHas(allowedIPs, a) == flLists(es, k, a) })
}

//kv:loopinv api.NewIPFilter
func liFilter2(k int) bool {
	es := flNow()
	return kv.ForallN(k, func(i int) bool { return !flBad(es[i]) })
}

//kv:loopinv api.NewIPFilter
func liFilter3(allowedCIDRs []*net.IPNet, k int) bool {
	es := flNow()
	return kv.ForallN(len(allowedCIDRs), func(j int) bool {
		return allowedCIDRs[j] != nil && kv.ExistsN(k, func(i int) bool { return flNet(es[i]) && kvm.NetOf(allowedCIDRs[j]) == strings.TrimSpace(es[i]) })
	})
}

//kv:loopinv api.NewIPFilter
func liFilter4(allowedCIDRs []*net.IPNet, k int) bool {
	es := flNow()
	return kv.ForallN(k, func(i int) bool {
		return kv.Implies(flNet(es[i]), kv.ExistsN(len(allowedCIDRs), func(j int) bool { return kvm.NetOf(allowedCIDRs[j]) == strings.TrimSpace(es[i]) }))
	})
}

// flAdmits: a is an address listed or lies in a network listed.
func flAdmits(f *IPFilter, a netip.Addr) bool {
	return kvm.AddrValid(a) && (flHas(f.allowedIPs, a) || kv.ExistsN(len(f.allowedCIDRs), func(i int) bool {
		return kvm.NetHas(kvm.NetOf(f.allowedCIDRs[i]), kvm.AddrBytes(a))
	}))
}

func flPre(f *IPFilter) {
	kv.Requires(f != nil && f.allowedIPs != nil && kv.ForallN(len(f.allowedCIDRs), func(i int) bool { return f.allowedCIDRs[i] != nil }))
}

//kv:contract (*api.IPFilter).IsAllowed C18
func ctIsAllowed(f *IPFilter, ip netip.Addr) bool {
	flPre(f)
	r := f.IsAllowed(ip)
	kv.Ensures("C18:exactly the addresses listed or in a network listed are admitted", r == flAdmits(f, ip))
	return r
}

//kv:loopinv (*api.IPFilter).IsAllowed
func liIsAllowed(f *IPFilter, ip netip.Addr, k int) bool {
	return k <= len(f.allowedCIDRs) && kvm.AddrValid(ip) && !flHas(f.allowedIPs, ip) && kv.ForallN(k, func(i int) bool {
		return !kvm.NetHas(kvm.NetOf(f.allowedCIDRs[i]), kvm.AddrBytes(ip))
	})
}

// flClientText: the text of the client address of a request.
func flClientText(r *http.Request) string {
	xff := strings.Trim(strings.Join(r.Header[kv.UF[string]("canon", "X-Forwarded-For")], ","), ",")
	if xff != "" {
		es := strings.Split(xff, ",")
		return strings.TrimSpace(es[len(es)-1])
	}
	if xri := kvm.HeaderGet(r.Header, "X-Real-Ip"); xri != "" {
		return xri
	}
	if kvm.HostPortOk(r.RemoteAddr) {
		return kvm.HostOf(r.RemoteAddr)
	}
	return ""
}

//kv:contract api.originalIP C18
func ctOriginalIP(req *http.Request) (netip.Addr, error) {
	kv.Requires(req != nil && req.Header != nil)
	a, err := originalIP(req)
	s := flClientText(req)
	kv.Ensures("C18:a request without a readable client address has none", (err == nil) == kvm.AddrOk(s))
	if err == nil {
		kv.Ensures("C18:the client address is the last X-Forwarded-For entry, X-Real-Ip or the peer address", a == kvm.AddrOf(s) && kvm.AddrValid(a))
	}
	return a, err
}

//kv:contract (*api.IPFilter).Wrap C18 verify-only
func ctWrap(f *IPFilter, next http.HandlerFunc) http.HandlerFunc {
	flPre(f)
	kv.Requires(next != nil)
	kvm.Handled().N = 0
	h := f.Wrap(next)
	w, r := kv.Any[http.ResponseWriter](), kv.Any[*http.Request]()
	kv.Assume(w != nil && r != nil && r.Header != nil)
	kv.Assume(!kvm.Resp(w).Wrote && kvm.Resp(w).Calls == 0)
	kv.Ensures("C18:nothing runs before a request arrives", kvm.Handled().N == 0 && h != nil)
	h(w, r)
	flJudge(f, w, r)
	return h
}

// flJudge: exactly the admitted requests were handled, all others answered 401.
func flJudge(f *IPFilter, w http.ResponseWriter, r *http.Request) {
	g, resp := *kvm.Handled(), *kvm.Resp(w)
	s := flClientText(r)
	open := len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0
	if open || kvm.AddrOk(s) && flAdmits(f, kvm.AddrOf(s)) {
		kv.Cover("admitted")
		kv.Ensures("C18:an admitted request is handled once, untouched", g.N == 1 && kv.Eq(g.W, w) && kv.Same(g.R, r) && !resp.Wrote)
		return
	}
	kv.Cover("blocked")
	kv.Ensures("C18:any other request is answered 401 and never handled", g.N == 0 && resp.Wrote && resp.Status == 401)
}
