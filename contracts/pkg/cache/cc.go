package cache

import (
	"kv"
	"kvm"
	"math"
	"net/http"
	"strings"
	"time"
)

// spDirective: name (lower case) and argument of one list element.
func spDirective(s string) (string, string) {
	t := strings.TrimSpace(s)
	name, rest, eq := strings.Cut(t, "=")
	if !eq {
		return strings.ToLower(t), ""
	}
	arg, _, _ := strings.Cut(rest, "=")
	return strings.ToLower(name), arg
}

//kv:contract cache.splitDirective C04 optional
func ctSplitDirective(s string) (dir string, arg string) {
	// trimming white space neither adds nor removes an equals sign
	kv.Assume(strings.ContainsRune(s, '=') == strings.ContainsRune(strings.TrimSpace(s), '='))
	d, a := splitDirective(s)
	n, v := spDirective(s)
	return kv.Is("C04:directive name", d, n), kv.Is("C04:directive argument", a, v)
}

// spDur: delta-seconds with optional quotes; -1 when invalid or negative.
func spDur(s string) time.Duration {
	x := strings.Trim(s, "\"'") + "s"
	if !kvm.DurOk(x) || kvm.DurVal(x) < 0 {
		return -1
	}
	return kvm.DurVal(x)
}

//kv:contract cache.parseDuration C04 optional
func ctParseDuration(s string) time.Duration {
	return kv.Is("C04:durations are seconds, optionally quoted; invalid or negative ones are absent", parseDuration(s), spDur(s))
}

// spReqCC: state after the first n elements of the list.
func spReqCC(list []string, n int) RequestCacheControl {
	return kv.Fold(n, RequestCacheControl{MaxAge: -1, MinFresh: -1, MaxStale: -1}, func(cc RequestCacheControl, i int) RequestCacheControl {
		name, arg := spDirective(list[i])
		d := spDur(arg)
		if name == "no-cache" {
			cc.MustValidate = true
		}
		if name == "no-store" {
			cc.NoStore = true
		}
		if name == "no-transform" {
			cc.NoTransform = true
		}
		if name == "only-if-cached" {
			cc.OnlyIfCached = true
		}
		if name == "max-age" && d >= 0 {
			cc.MaxAge = d
		}
		if name == "min-fresh" && d >= 0 {
			cc.MinFresh = d
		}
		if name == "max-stale" && arg == "" {
			cc.MaxStale = math.MaxInt64
		}
		if name == "max-stale" && arg != "" && d >= 0 {
			cc.MaxStale = d
		}
		return cc
	})
}

func spRequestCC(header string) RequestCacheControl {
	list := strings.Split(header, ",")
	return spReqCC(list, len(list))
}

//kv:contract cache.ParseRequestCacheControl C04
func ctParseRequestCacheControl(header string) RequestCacheControl {
	return kv.Is("C04:request directives take effect exactly when present", ParseRequestCacheControl(header), spRequestCC(header))
}

//kv:loopinv cache.ParseRequestCacheControl
func invParseRequestCacheControl(cc *RequestCacheControl, directives []string, k int) bool {
	return kv.Eq(*cc, spReqCC(directives, k))
}

// spResAcc: flags and the two lifetimes: the last valid s-maxage, the first valid max-age.
type spResAcc struct {
	MustValidate, NoStore, NoTransform, NoStale, IsPublic bool
	Shared, Private                                       time.Duration
}

func spResCC(list []string, n int) spResAcc {
	return kv.Fold(n, spResAcc{Shared: -1, Private: -1}, func(cc spResAcc, i int) spResAcc {
		name, arg := spDirective(list[i])
		d := spDur(arg)
		if name == "no-cache" {
			cc.MustValidate = true
		}
		if name == "no-store" || name == "private" {
			cc.NoStore = true
		}
		if name == "no-transform" {
			cc.NoTransform = true
		}
		if name == "must-revalidate" || name == "proxy-revalidate" {
			cc.NoStale = true
		}
		if name == "public" {
			cc.IsPublic = true
		}
		if name == "s-maxage" && d >= 0 {
			cc.Shared = d
		}
		if name == "max-age" && d >= 0 && cc.Private < 0 {
			cc.Private = d
		}
		return cc
	})
}

func spResOf(a spResAcc) ResponseCacheControl {
	age := a.Private
	if a.Shared >= 0 {
		age = a.Shared
	}
	return ResponseCacheControl{MustValidate: a.MustValidate, NoStore: a.NoStore, NoTransform: a.NoTransform, NoStale: a.NoStale, IsPublic: a.IsPublic, MaxAge: age}
}

func spResponseCC(header string) ResponseCacheControl {
	list := strings.Split(header, ",")
	return spResOf(spResCC(list, len(list)))
}

//kv:contract cache.ParseResponseCacheControl C04
func ctParseResponseCacheControl(header string) ResponseCacheControl {
	return kv.Is("C04:response directives take effect exactly when present, s-maxage before max-age", ParseResponseCacheControl(header), spResponseCC(header))
}

//kv:loopinv cache.ParseResponseCacheControl
func invParseResponseCacheControl(cc *ResponseCacheControl, directives []string, k int) bool {
	a := spResCC(directives, k)
	return kv.Eq(*cc, spResOf(a)) && a.Shared >= -1 && a.Private >= -1
}

// spCC: the combined Cache-Control header.
func spCC(h http.Header) string { return strings.Join(h["Cache-Control"], ",") }
