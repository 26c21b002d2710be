MW='pkg/server/middleware/httpcache.go'
HC='pkg/cache/httpcache.go'
PRE='''package middleware

import (
	"context"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/prometheus/client_golang/prometheus"
)

type demoProv struct{ m map[string][]byte }

func (p *demoProv) Get(_ context.Context, k string) []byte          { return p.m[k] }
func (p *demoProv) Set(k string, v []byte, _ time.Duration)         { p.m[k] = v }
func (p *demoProv) Delete(_ context.Context, k string) bool         { delete(p.m, k); return true }
func (p *demoProv) Keys(context.Context, string) []string           { return nil }
func (p *demoProv) Purge(context.Context, string) error             { return nil }
func (p *demoProv) Flush(context.Context) error                     { return nil }
func (p *demoProv) Size() int                                       { return len(p.m) }

type demoOrigin func(*http.Request) (*http.Response, error)

func (o demoOrigin) RoundTrip(r *http.Request) (*http.Response, error) { return o(r) }

func demoResp(code int, h http.Header, body string) *http.Response {
	return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body))}
}

func demoTransport(t *testing.T, cfg *cache.HttpCacheConfig, o demoOrigin) (*Transport, *demoProv, *time.Time) {
	p := &demoProv{map[string][]byte{}}
	c, err := cache.NewHttpCache(cfg, p)
	if err != nil {
		t.Fatal(err)
	}
	now := time.Unix(1700000000, 0)
	tr := NewCachedTransport(c, prometheus.NewRegistry())
	tr.Transport = o
	tr.currentTime = func() time.Time { return now }
	return tr, p, &now
}

func demoReq(method, url string, h http.Header) *http.Request {
	r := httptest.NewRequest(method, url, nil)
	for k, v := range h {
		r.Header[k] = v
	}
	return r
}

var _ = strings.Contains
'''
SEEDS=[
dict(id='C01-head-nonstrict', prop='C01', pkg='pkg/server/middleware',
 needs='strict mode off and a HEAD request that misses',
 breaks='In cache-everything mode the (bodyless) response to a HEAD request is stored and later served to GETs.',
 edits=[(MW,'		cacheable = (cache.IsCacheableResponse(resp) && !lookup.ReqCacheControl.NoStore)\n','		cacheable = (cache.IsCacheableResponse(resp) && !lookup.ReqCacheControl.NoStore &&\n			lookup.Request.Method != "HEAD")\n'),
        (MW,'	if cacheable && shouldUpdateCachedEntry && lookup.Request.Method != "HEAD" &&\n','	if cacheable && shouldUpdateCachedEntry &&\n')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	tr, p, _ := demoTransport(t, &cache.HttpCacheConfig{Strict: false}, func(r *http.Request) (*http.Response, error) {
		return demoResp(200, http.Header{"Content-Type": {"text/html"}}, ""), nil
	})
	if _, err := tr.RoundTrip(demoReq("HEAD", "http://a.test/x", nil)); err != nil {
		t.Fatal(err)
	}
	if len(p.m) != 0 {
		t.Fatal("the response to a HEAD request was stored")
	}
}
'''),
dict(id='C01-validated-nostore', prop='C01', pkg='pkg/server/middleware',
 needs='a stored stale response and a revalidating GET that says no-store',
 breaks='A GET with no-store that revalidates a stale entry has its response written to the cache.',
 edits=[(MW,'		cacheable = (cache.IsCacheableResponse(resp) && !lookup.ReqCacheControl.NoStore)\n','		cacheable = cache.IsCacheableResponse(resp) &&\n			(cached.Status == cache.EntryRequiresValidation || !lookup.ReqCacheControl.NoStore)\n')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	n := 0
	tr, p, now := demoTransport(t, &cache.HttpCacheConfig{Strict: true}, func(r *http.Request) (*http.Response, error) {
		n++
		return demoResp(200, http.Header{"Cache-Control": {"max-age=5"}, "Date": {time.Unix(1700000000, 0).UTC().Format(http.TimeFormat)}}, "x"), nil
	})
	if _, err := tr.RoundTrip(demoReq("GET", "http://a.test/x", nil)); err != nil {
		t.Fatal(err)
	}
	if len(p.m) != 1 {
		t.Fatal("not stored")
	}
	*now = now.Add(time.Minute)
	if _, err := tr.RoundTrip(demoReq("GET", "http://a.test/x", http.Header{"Cache-Control": {"no-store"}})); err != nil {
		t.Fatal(err)
	}
	if n != 2 {
		t.Fatal("not revalidated")
	}
	if len(p.m) != 0 {
		t.Fatal("the response to a no-store request is in the cache")
	}
}
'''),
dict(id='C02-nostale-maxstale', prop='C02', pkg='pkg/server/middleware',
 needs='a stale stored must-revalidate response and a request with a bare max-stale',
 breaks='A stale response carrying must-revalidate is served without validation to a client that sends max-stale without a limit.',
 edits=[(HC,'		return resCacheControl.NoStale || !allowStale\n','		return (resCacheControl.NoStale && reqCacheControl.MaxStale != math.MaxInt64) || !allowStale\n')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	n := 0
	tr, _, now := demoTransport(t, &cache.HttpCacheConfig{Strict: true}, func(r *http.Request) (*http.Response, error) {
		n++
		return demoResp(200, http.Header{"Cache-Control": {"max-age=5, must-revalidate"}, "Date": {time.Unix(1700000000, 0).UTC().Format(http.TimeFormat)}}, "x"), nil
	})
	_, _ = tr.RoundTrip(demoReq("GET", "http://a.test/x", nil))
	*now = now.Add(time.Minute)
	_, _ = tr.RoundTrip(demoReq("GET", "http://a.test/x", http.Header{"Cache-Control": {"max-stale"}}))
	if n != 2 {
		t.Fatal("a stale must-revalidate response was served without validation")
	}
}
'''),
dict(id='C03-empty-conditional', prop='C03', pkg='pkg/server/middleware',
 needs='a request whose conditional header is present with an empty first value',
 breaks='A request with a conditional header whose first line is empty goes through the cache instead of bypassing it.',
 edits=[('pkg/cache/cacheable.go','		if _, ok := req.Header[h]; ok {\n			return false','		if req.Header.Get(h) != "" {\n			return false')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	tr, p, _ := demoTransport(t, &cache.HttpCacheConfig{Strict: true}, func(r *http.Request) (*http.Response, error) {
		return demoResp(200, http.Header{"Cache-Control": {"max-age=5"}}, "x"), nil
	})
	_, _ = tr.RoundTrip(demoReq("GET", "http://a.test/x", http.Header{"If-Match": {"", `"v"`}}))
	if len(p.m) != 0 {
		t.Fatal("a conditional request did not bypass the cache")
	}
}
'''),
dict(id='C06-lastmod-nofork', prop='C06', pkg='pkg/server/middleware',
 needs='a stale stored response with Last-Modified but no ETag',
 breaks='Revalidating a response that has only Last-Modified writes If-Modified-Since into the headers of the client\'s own request.',
 edits=[(MW,'''	if lastModified := header.Get(cache.HeaderLastModified); lastModified != "" {
		forkReq()
''','''	if lastModified := header.Get(cache.HeaderLastModified); lastModified != "" {
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	tr, _, now := demoTransport(t, &cache.HttpCacheConfig{Strict: true}, func(r *http.Request) (*http.Response, error) {
		return demoResp(200, http.Header{"Cache-Control": {"max-age=5"}, "Last-Modified": {time.Unix(1600000000, 0).UTC().Format(http.TimeFormat)}, "Date": {time.Unix(1700000000, 0).UTC().Format(http.TimeFormat)}}, "x"), nil
	})
	_, _ = tr.RoundTrip(demoReq("GET", "http://a.test/x", nil))
	*now = now.Add(time.Minute)
	r := demoReq("GET", "http://a.test/x", nil)
	_, _ = tr.RoundTrip(r)
	if v := r.Header.Get("If-Modified-Since"); v != "" {
		t.Fatalf("the client's request was modified: If-Modified-Since %q", v)
	}
}
'''),
dict(id='C06-304-first-value', prop='C06', pkg='pkg/server/middleware',
 needs='a 304 answer carrying a header with several lines',
 breaks='When a 304 confirms a stored response only the first line of each of its headers is applied.',
 edits=[(HC,'		if _, ok := headersNotToUpdate[k]; !ok {\n			cachedHeader[k] = vv\n','		if _, ok := headersNotToUpdate[k]; !ok && len(vv) > 0 {\n			cachedHeader.Set(k, vv[0])\n')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	n := 0
	tr, _, now := demoTransport(t, &cache.HttpCacheConfig{Strict: true}, func(r *http.Request) (*http.Response, error) {
		n++
		if n == 2 {
			return demoResp(304, http.Header{"Set-Cookie": {"a=1", "b=2"}}, ""), nil
		}
		return demoResp(200, http.Header{"Cache-Control": {"max-age=5"}, "Etag": {`"a"`}, "Date": {time.Unix(1700000000, 0).UTC().Format(http.TimeFormat)}}, "x"), nil
	})
	_, _ = tr.RoundTrip(demoReq("GET", "http://a.test/x", nil))
	*now = now.Add(time.Minute)
	resp, err := tr.RoundTrip(demoReq("GET", "http://a.test/x", nil))
	if err != nil || n != 2 {
		t.Fatal(err, n)
	}
	if v := resp.Header.Values("Set-Cookie"); len(v) != 2 {
		t.Fatalf("Set-Cookie of the 304 applied as %q", v)
	}
}
'''),
dict(id='C07-delete-only-validated', prop='C07', pkg='pkg/server/middleware',
 needs='an undecodable entry under the key and an uncacheable answer of the origin',
 breaks='When the entry under the key cannot be decoded and the origin answers with an uncacheable response, the entry is neither replaced nor deleted.',
 edits=[(MW,'''	} else {
		t.Cache.Delete(ctx, lookup)
	}
''','''	} else if cached.Status == cache.EntryRequiresValidation {
		t.Cache.Delete(ctx, lookup)
	}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	tr, p, _ := demoTransport(t, &cache.HttpCacheConfig{Strict: true}, func(r *http.Request) (*http.Response, error) {
		return demoResp(500, http.Header{}, "x"), nil
	})
	r := demoReq("GET", "http://a.test/x", nil)
	p.m[cache.NewKeyFromRequst(r).String()] = []byte("garbage")
	_, _ = tr.RoundTrip(r)
	if len(p.m) != 0 {
		t.Fatal("the superseded entry is still in the cache")
	}
}
'''),
dict(id='C09-truncated', prop='C09', pkg='pkg/server/middleware',
 needs='a stored entry cut off in the middle',
 breaks='A truncated cache entry crashes the request instead of counting as a miss.',
 edits=[('pkg/cache/entry.go','import (\n	"bytes"\n	"encoding/gob"\n	"fmt"\n','import (\n	"bytes"\n	"encoding/gob"\n	"errors"\n	"fmt"\n	"io"\n'),
  ('pkg/cache/entry.go','	if err := dec.Decode(&entry); err != nil {\n','	if err := dec.Decode(&entry); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {\n')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	tr, p, _ := demoTransport(t, &cache.HttpCacheConfig{Strict: true}, func(r *http.Request) (*http.Response, error) {
		return demoResp(200, http.Header{"Cache-Control": {"max-age=50"}}, "x"), nil
	})
	r := demoReq("GET", "http://a.test/x", nil)
	_, _ = tr.RoundTrip(r)
	k := cache.NewKeyFromRequst(r).String()
	full := p.m[k]
	for n := 0; n < len(full); n++ {
		p.m[k] = full[:n]
		if _, err := tr.RoundTrip(demoReq("GET", "http://a.test/x", nil)); err != nil {
			t.Fatal(err)
		}
	}
}
'''),
dict(id='C09-ttl-cleaned-path', prop='C09', pkg='pkg/server/middleware',
 needs='a request path that is not canonical and a TTL pattern that tells the two apart',
 breaks='The TTL of a stored response is resolved from the canonical path of the cache key instead of the request path.',
 edits=[(HC,'	c.cache.Set(lookup.Key.String(), enc, c.PathTTL(lookup.Request.URL.Path))\n','	c.cache.Set(lookup.Key.String(), enc, c.PathTTL(lookup.Key.Path))\n')],
 demo=PRE+'''
type ttlProv struct {
	demoProv
	ttl time.Duration
}

func (p *ttlProv) Set(k string, v []byte, d time.Duration) { p.ttl = d; p.m[k] = v }

func TestDemo(t *testing.T) {
	p := &ttlProv{demoProv: demoProv{map[string][]byte{}}}
	c, _ := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true, Timeouts: []cache.Timeout{{Path: "^/dir/$", TTL: 7 * time.Second}}}, p)
	tr := NewCachedTransport(c, prometheus.NewRegistry())
	tr.Transport = demoOrigin(func(r *http.Request) (*http.Response, error) {
		return demoResp(200, http.Header{"Cache-Control": {"max-age=50"}}, "x"), nil
	})
	_, _ = tr.RoundTrip(demoReq("GET", "http://a.test/dir/", nil))
	if p.ttl != 7*time.Second {
		t.Fatalf("stored with TTL %v", p.ttl)
	}
}
'''),
dict(id='C25-empty-cc', prop='C25', pkg='pkg/server/middleware',
 needs='an origin response with an empty Cache-Control line and a configured default',
 breaks='A Cache-Control header that the origin sent with an empty first line is overwritten although overriding is not forced.',
 edits=[(MW,'''	if _, presentcc := header["Cache-Control"]; !presentcc || overwrite {
''','''	if header.Get(cache.HeaderCacheControl) == "" || overwrite {
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	tr, _, _ := demoTransport(t, &cache.HttpCacheConfig{Strict: true, DefaultCacheControl: "max-age=60"}, func(r *http.Request) (*http.Response, error) {
		return demoResp(200, http.Header{"Cache-Control": {"", "no-store"}}, "x"), nil
	})
	resp, err := tr.RoundTrip(demoReq("GET", "http://a.test/x", nil))
	if err != nil {
		t.Fatal(err)
	}
	if v := resp.Header.Values("Cache-Control"); len(v) != 2 || v[1] != "no-store" {
		t.Fatalf("Cache-Control changed to %q", v)
	}
}
'''),
]
