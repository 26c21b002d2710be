// overlay: pkg/cache
package cache

// Replay oracle for stored entries (C09): what is undecodable is reported and treated as a miss.

import (
	"bytes"
	"context"
	"encoding/gob"
	"fmt"
	"math/rand"
	"net/http/httptest"
	"testing"
	"time"
)

type enBackend struct{ v []byte }

func (b *enBackend) Get(context.Context, string) []byte    { return b.v }
func (b *enBackend) Set(string, []byte, time.Duration)     {}
func (b *enBackend) Delete(context.Context, string) bool   { return true }
func (b *enBackend) Keys(context.Context, string) []string { return nil }
func (b *enBackend) Purge(context.Context, string) error   { return nil }
func (b *enBackend) Flush(context.Context) error           { return nil }
func (b *enBackend) Size() int                             { return 0 }

func TestVerifC09Entry(t *testing.T) {
	rnd := rand.New(rand.NewSource(9))
	be := &enBackend{}
	c, err := NewHttpCache(&HttpCacheConfig{Strict: true}, be)
	if err != nil {
		t.Skip(err)
	}
	check := func(what string, data []byte) {
		var want *Entry
		werr := gob.NewDecoder(bytes.NewReader(data)).Decode(&want)
		got, err := DecodeEntry(data)
		if (err == nil) != (werr == nil) {
			t.Fatalf("FAILING INPUT: decoding %s %x: error %v, the codec says %v", what, data, err, werr)
		}
		if err == nil && (got == nil || !bytes.Equal(got.Body, want.Body) || got.Timestamp != want.Timestamp) {
			t.Fatalf("FAILING INPUT: decoding %s %x: %+v instead of %+v", what, data, got, want)
		}
		be.v = data
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Fatalf("FAILING INPUT: fetching %s %x panics: %v", what, data, p)
				}
			}()
			r := c.FetchResponse(context.Background(), *NewLookupRequest(httptest.NewRequest("GET", "http://a/b", nil), time.Unix(1000, 0), true))
			if r == nil || werr != nil && (r.Status == EntryOk || r.Status == EntryRequiresValidation) {
				t.Fatalf("FAILING INPUT: fetching %s %x: %+v", what, data, r)
			}
		}()
	}
	for i := 0; i < 60; i++ {
		e := &Entry{Body: []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: 2\r\nX: %d\r\n\r\nok", i)), Timestamp: []int64{0, 1, -1, 1000, 1 << 40, rnd.Int63()}[rnd.Intn(6)]}
		if i%5 == 0 {
			e.Body = nil
		}
		data, err := e.Encode()
		if err != nil {
			t.Fatalf("FAILING INPUT: encoding %+v: %v", e, err)
		}
		check("an encoded entry", data)
		for n := 0; n < len(data); n++ {
			check(fmt.Sprintf("an entry truncated to %d bytes of %d:", n, len(data)), data[:n])
		}
		for j := 0; j < 200; j++ {
			d := bytes.Clone(data)
			d[rnd.Intn(len(d))] ^= 1 << rnd.Intn(8)
			check("a corrupted entry", d)
		}
		check("an entry with bytes behind it", append(bytes.Clone(data), 1, 2, 3))
	}
}
