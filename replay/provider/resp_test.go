// overlay: pkg/provider
package provider

// Replay oracle for the redis backend (C17) and what is created from a configuration (C16): a server
// speaking the redis protocol on the loopback network.

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
)

type rsServer struct {
	mu   sync.Mutex
	m    map[string]string
	ttl  map[string]string
	snap []string
	fail string // command that fails, "SCAN2": the second page of a scan
	ln   net.Listener
}

func rsStart(t *testing.T) *rsServer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	s := &rsServer{m: map[string]string{}, ttl: map[string]string{}, ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *rsServer) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	line := func() (string, bool) {
		l, err := r.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err == nil
	}
	for {
		l, ok := line()
		if !ok || l == "" || l[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var args []string
		for i := 0; i < n; i++ {
			l, ok := line()
			if !ok {
				return
			}
			k, _ := strconv.Atoi(l[1:])
			buf := make([]byte, k+2)
			if _, err := io.ReadFull(r, buf); err != nil {
				return
			}
			args = append(args, string(buf[:k]))
		}
		fmt.Fprint(c, s.do(args))
	}
}

func rsBulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (s *rsServer) do(a []string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	cmd := strings.ToUpper(a[0])
	if cmd == s.fail {
		return "-ERR down\r\n"
	}
	switch cmd {
	case "PING":
		return "+PONG\r\n"
	case "CLIENT", "SELECT":
		return "+OK\r\n"
	case "GET":
		v, ok := s.m[a[1]]
		if !ok {
			return "$-1\r\n"
		}
		return rsBulk(v)
	case "SET":
		s.m[a[1]] = a[2]
		s.ttl[a[1]] = strings.ToUpper(strings.Join(a[3:], " "))
		return "+OK\r\n"
	case "DEL", "UNLINK":
		n := 0
		for _, k := range a[1:] {
			if _, ok := s.m[k]; ok {
				n++
			}
			delete(s.m, k)
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "FLUSHDB":
		s.m = map[string]string{}
		return "+OK\r\n"
	case "SCAN":
		cur, _ := strconv.Atoi(a[1])
		match := "*"
		for i := 2; i+1 < len(a); i += 2 {
			if strings.EqualFold(a[i], "match") {
				match = a[i+1]
			}
		}
		if cur == 0 {
			s.snap = nil
			for k := range s.m {
				s.snap = append(s.snap, k)
			}
			sort.Strings(s.snap)
		} else if s.fail == "SCAN2" {
			return "-ERR down\r\n"
		}
		end := cur + 2
		next := end
		if end >= len(s.snap) {
			end, next = len(s.snap), 0
		}
		var page []string
		for _, k := range s.snap[cur:end] {
			if rsMatch(match, k) {
				page = append(page, rsBulk(k))
			}
		}
		return fmt.Sprintf("*2\r\n%s*%d\r\n%s", rsBulk(strconv.Itoa(next)), len(page), strings.Join(page, ""))
	}
	return "-ERR unknown command\r\n"
}

func (s *rsServer) set(m map[string]string, fail string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m, s.fail = map[string]string{}, fail
	for k, v := range m {
		s.m[k] = v
	}
}

func (s *rsServer) keys() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var r []string
	for k := range s.m {
		r = append(r, k)
	}
	sort.Strings(r)
	return fmt.Sprintf("%q", r)
}

func TestVerifC17Server(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	s := rsStart(t)
	defer s.ln.Close()
	ctx := context.Background()
	p, err := CreateCacheProvider("x", ProviderBackendConfig{Backend: "redis", Redis: RedisClientConfig{Endpoint: s.ln.Addr().String(), MaxQueueConcurrency: 1, MaxQueueBufferSize: 10}})
	if err != nil {
		t.Fatalf("FAILING INPUT: a redis server that answers is refused: %v", err)
	}
	cl := p.(*RedisCache).client.(*redisClient)
	gone, cancel := context.WithCancel(ctx)
	cancel()
	// Entries.
	for _, v := range []string{"", "v", "\x00\r\n", strings.Repeat("x", 5000)} {
		s.set(map[string]string{"k": v}, "")
		if got := p.Get(ctx, "k"); got == nil || string(got) != v {
			t.Fatalf("FAILING INPUT: the server holds %q (%d bytes), Get returns %q", v[:min(len(v), 20)], len(v), got)
		}
		if got := p.Get(ctx, "l"); got != nil {
			t.Fatalf("FAILING INPUT: Get of a missing key returns %q", got)
		}
	}
	for _, d := range []time.Duration{0, -1, time.Millisecond, 1500 * time.Millisecond, time.Second, time.Hour} {
		s.set(nil, "")
		err := cl.Store("k", []byte("v"), d)
		want := map[time.Duration]string{0: "", -1: "KEEPTTL", time.Millisecond: "PX 1", 1500 * time.Millisecond: "PX 1500", time.Second: "EX 1", time.Hour: "EX 3600"}[d]
		if s.ttl["k"] != want || s.m["k"] != "v" || err != nil {
			t.Fatalf("FAILING INPUT: Store(k, v, %v) is sent with %q and reports %v", d, s.ttl["k"], err)
		}
	}
	for _, f := range []string{"", "DEL"} {
		for _, held := range []bool{false, true} {
			m := map[string]string{}
			if held {
				m["k"] = "v"
			}
			s.set(m, f)
			if ok := p.Delete(ctx, "k"); ok != (f == "") {
				t.Fatalf("FAILING INPUT: Delete (server fails: %q, key held: %v) reports %v", f, held, ok)
			}
		}
	}
	// Many keys, in pages.
	rnd := rand.New(rand.NewSource(17))
	for it := 0; it < 300; it++ {
		m := map[string]string{}
		for i := rnd.Intn(9); i > 0; i-- {
			m[[]string{"a", "ab", "abc", "b", "ba", "b c", "c*", "x/y?z"}[rnd.Intn(8)]+strings.Repeat("1", rnd.Intn(3))] = "v"
		}
		fail := []string{"", "", "SCAN", "SCAN2", "DEL"}[rnd.Intn(5)]
		s.set(m, fail)
		before := s.keys()
		prefix := []string{"", "a", "b ", "ab"}[rnd.Intn(4)]
		got := append([]string{}, p.Keys(ctx, prefix)...)
		sort.Strings(got)
		var want []string
		for k := range m {
			if strings.HasPrefix(k, prefix) {
				want = append(want, k)
			}
		}
		sort.Strings(want)
		if (fail == "" || fail == "DEL") && strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Fatalf("FAILING INPUT: server holding %s: Keys(%q) lists %q", before, prefix, got)
		}
		pattern := []string{"*", "a*", "*1", "b c", " a*", "x/*", "zz", "b *"}[rnd.Intn(8)]
		c := ctx
		if rnd.Intn(6) == 0 {
			c = gone
		}
		err := p.Purge(c, pattern)
		left := false
		s.mu.Lock()
		for k := range m {
			_, held := s.m[k]
			left = left || held && rsMatch(pattern, k)
			if !held && !rsMatch(pattern, k) {
				err = errors.New("x")
				left = false
				t.Errorf("FAILING INPUT: server holding %s: Purge(%q) deletes %q", before, pattern, k)
			}
		}
		s.mu.Unlock()
		failed := fail == "SCAN" || fail == "SCAN2" && len(m) > 2 || c == gone || fail == "DEL" && left
		if left && err == nil || (err != nil) != failed {
			t.Fatalf("FAILING INPUT: server holding %s (failing command %q, cancelled %v): Purge(%q) reports %v and leaves %s", before, fail, c == gone, pattern, err, s.keys())
		}
	}
}

func TestVerifC16Config(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	s := rsStart(t)
	defer s.ln.Close()
	for _, ttl := range []string{"", "90s", "0s", "-1s", "x", "1h"} {
		for _, mem := range []InMemoryCacheConfig{{}, {MaxSize: 1000, MaxItemSize: 100}, {MaxSize: 1 << 27, MaxItemSize: 1 << 27}, {MaxSize: 10, MaxItemSize: 11}} {
			p, err := CreateCacheProvider("x", ProviderBackendConfig{Backend: "redis", Layered: true, LayeredTTL: ttl, InMemory: mem, Redis: RedisClientConfig{Endpoint: s.ln.Addr().String(), MaxQueueConcurrency: 1}})
			if (err != nil) != (mem.MaxItemSize > mem.MaxSize) {
				t.Fatalf("FAILING INPUT: a layered backend with memory %+v: error %v", mem, err)
			}
			if err != nil {
				continue
			}
			c, ok := p.(*Cached)
			if !ok {
				t.Fatalf("FAILING INPUT: layered redis backend: %T created", p)
			}
			want := 120 * time.Second
			if d, err := time.ParseDuration(ttl); err == nil {
				want = d
			}
			if c.ttl != want {
				t.Fatalf("FAILING INPUT: layered_ttl %q: the local level keeps entries for %v", ttl, c.ttl)
			}
			mem.Sanitize()
			if l, ok := c.outer.(*inMemoryCache); !ok || l.maxSizeBytes != mem.MaxSize || l.maxItemSizeBytes != mem.MaxItemSize {
				t.Fatalf("FAILING INPUT: layered redis backend with memory %+v: local level %T %+v", mem, c.outer, l)
			}
			if _, ok := c.inner.(*RedisCache); !ok {
				t.Fatalf("FAILING INPUT: layered redis backend: remote level %T", c.inner)
			}
		}
	}
}

// rsMatch: * stands for any run of characters, everything else for itself.
func rsMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if rsMatch(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == p[0] && rsMatch(p[1:], s[1:])
}
