package cache

import (
	"kv"
	"kvm"
	"math"
	"net/http"
	"time"
)

// spHttpTime: an HTTP date in any of the three accepted formats, the zero time otherwise.
func spHttpTime(s string) time.Time {
	if s == "" {
		return time.Time{}
	}
	if kvm.TimeOk(http.TimeFormat, s) {
		return kvm.TimeVal(http.TimeFormat, s)
	}
	if kvm.TimeOk("Monday, 02-Jan-06 15:04:05 GMT", s) {
		return kvm.TimeVal("Monday, 02-Jan-06 15:04:05 GMT", s)
	}
	if kvm.TimeOk(time.ANSIC, s) {
		return kvm.TimeVal(time.ANSIC, s)
	}
	return time.Time{}
}

//kv:contract cache.parseHttpTime C05 C02 optional
func ctParseHttpTime(s string) time.Time {
	return kv.Is("C05,C02:parseHttpTime accepts exactly the three HTTP date formats", parseHttpTime(s), spHttpTime(s))
}

func spSat(x kv.Int) kv.Int {
	if x > math.MaxInt64 {
		return math.MaxInt64
	}
	if x < math.MinInt64 {
		return math.MinInt64
	}
	return x
}

// spAge: age in nanoseconds per RFC 9111 section 4.2.3, computed in unbounded integers.
func spAge(date string, ageHdr string, responseTime, now time.Time) kv.Int {
	apparent := spSat(kv.Nanos(responseTime) - kv.Nanos(spHttpTime(date)))
	if apparent < 0 {
		apparent = 0
	}
	initial := kv.Int(0)
	if kvm.DurOk(ageHdr + "s") {
		initial = kv.Int(kvm.DurVal(ageHdr + "s"))
	}
	if apparent > initial {
		initial = apparent
	}
	resident := spSat(kv.Nanos(now) - kv.Nanos(responseTime))
	return initial + resident
}

//kv:contract cache.CalculateAge C05
func ctCalculateAge(headers *http.Header, responseTime time.Time, now time.Time) time.Duration {
	kv.Requires(headers != nil)
	r := CalculateAge(headers, responseTime, now)
	full := spAge(kvm.HeaderGet(*headers, "Date"), kvm.HeaderGet(*headers, "Age"), responseTime, now)
	res := spSat(kv.Nanos(now) - kv.Nanos(responseTime))
	kv.Ensures("C05:never younger than the time spent in the cache", kv.Int(r) >= res-999999999)
	return kv.Is("C05:age is max(Age header, apparent age) plus resident time in whole seconds, saturating", r, time.Duration(spSat(full)).Truncate(time.Second))
}
