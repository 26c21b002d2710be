// overlay: pkg/kache
package kache

// Replay oracle for reloading (C21): random histories of file states and reloads.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/rs/zerolog"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

type rlWant struct {
	ok     bool
	strict bool
	ttl    string
	path   string
	desc   string
}

var rlN int

// rlFile writes a random file and tells what it means.
func rlFile(rnd *rand.Rand, name string) rlWant {
	rlN++
	head := fmt.Sprintf("# %d\nlisteners:\n  ep:\n    addr: \":80\"\n", rlN)
	var w rlWant
	var text string
	switch rnd.Intn(9) {
	case 0:
		os.Remove(name)
		return rlWant{desc: "no file"}
	case 1:
		w, text = rlWant{desc: "empty file"}, ""
	case 2:
		w, text = rlWant{desc: "unknown field"}, head+"nonsense: 1\n"
	case 3:
		w, text = rlWant{desc: "wrong type"}, head+"cache:\n  strict: false\n  default_ttl: [1]\n"
	case 4:
		w, text = rlWant{desc: "malformed"}, head+"cache: {\n"
	case 5:
		w, text = rlWant{ok: true, strict: true, desc: "no cache section"}, head
	case 6:
		w, text = rlWant{ok: true, strict: true, desc: "empty cache section"}, head+"cache:\n"
	case 7:
		ttl := fmt.Sprint(rlN, "s")
		w, text = rlWant{ok: true, strict: true, ttl: ttl, path: fmt.Sprint("^/p", rlN), desc: "mode unset"}, head+fmt.Sprintf("cache:\n  default_ttl: %s\n  exclude:\n    path:\n      - ^/p%d\n", ttl, rlN)
	case 8:
		ttl := fmt.Sprint(rlN, "s")
		s := rnd.Intn(2) == 0
		w, text = rlWant{ok: true, strict: s, ttl: ttl, desc: fmt.Sprint("mode ", s)}, head+fmt.Sprintf("cache:\n  default_ttl: %s\n  strict: %v\n", ttl, s)
	}
	if text != "" && rnd.Intn(3) == 0 {
		// A long, constant preamble: only the end of the file differs.
		text, w.desc = strings.Repeat("#"+strings.Repeat("x", 1022)+"\n", 130)+text, "long file, "+w.desc
	}
	if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
		panic(err)
	}
	return w
}

func (w rlWant) is(c *cache.HttpCacheConfig) bool {
	p := ""
	if c.Exclude != nil && len(c.Exclude.Path) > 0 {
		p = c.Exclude.Path[0]
	}
	return c.Strict == w.strict && c.DefaultTTL == w.ttl && p == w.path
}

func TestVerifC21(t *testing.T) {
	rnd := rand.New(rand.NewSource(21))
	dir := t.TempDir()
	name := filepath.Join(dir, "kache.yml")
	p, err := provider.NewSimpleCache(nil)
	if err != nil {
		t.Skip(err)
	}
	for it := 0; it < 150; it++ {
		hist := ""
		fail := func(format string, a ...any) {
			t.Fatalf("FAILING INPUT: history%s: "+format, append([]any{hist}, a...)...)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("crash: %v", e)
				}
			}()
			w := rlFile(rnd, name)
			hist += " start(" + w.desc + ")"
			l, err := config.NewLoader(name, false, time.Second)
			if (err == nil) != w.ok {
				fail("start: error %v", err)
			}
			if err != nil {
				return
			}
			k := &Kache{loader: l, Config: l.Config(), Provider: &p}
			if err := k.initHTTPCache(); err != nil {
				fail("start: %v", err)
			}
			if !w.is(k.Cache.Config()) {
				fail("start: configuration %+v", k.Cache.Config())
			}
			file, fresh := w, false // fresh: changed since the last successful load
			for i := 0; i < 8; i++ {
				if rnd.Intn(3) > 0 {
					file, fresh = rlFile(rnd, name), true
					hist += " write(" + file.desc + ")"
				}
				hist += " reload"
				was, wasCfg, wasLoaded := k.Cache.Config(), k.Config, l.Config()
				err := k.reloadConfig(context.Background())
				now := k.Cache.Config()
				switch {
				case !file.ok:
					if err == nil || now != was || k.Config != wasCfg || !w.is(now) || l.Config() != wasLoaded {
						fail("error %v, configuration %+v", err, now)
					}
				case !fresh:
					if err != nil || now != was || k.Config != wasCfg || l.Config() != wasLoaded {
						fail("an unchanged file gives error %v, configuration %+v", err, now)
					}
				default:
					if err != nil || !file.is(now) || k.Config != l.Config() {
						fail("error %v, configuration %+v", err, now)
					}
					w, fresh = file, false
				}
			}
		}()
	}
	// Watching.
	write := func(i int, ok bool) {
		s := fmt.Sprintf("# %d\ncache:\n  default_ttl: %ds\n", i, i)
		if !ok {
			s = fmt.Sprintf("cache: {%d", i)
		}
		if err := os.WriteFile(name+".new", []byte(s), 0o600); err != nil {
			t.Skip(err)
		}
		if err := os.Rename(name+".new", name); err != nil {
			t.Skip(err)
		}
	}
	write(1, true)
	l, err := config.NewLoader(name, true, 5*time.Millisecond)
	if err != nil {
		t.Skip(err)
	}
	write(2, true) // changed before watching
	if err := l.Watch(context.Background()); err != nil {
		t.Fatalf("FAILING INPUT: watching a valid file: %v", err)
	}
	defer l.Close()
	expect := func(i int) {
		select {
		case <-l.Events:
			if ttl := l.Config().HttpCache.DefaultTTL; ttl != fmt.Sprint(i, "s") {
				t.Fatalf("FAILING INPUT: watched change %d announced, but %q is loaded", i, ttl)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("FAILING INPUT: watched change %d (2: before watching began, others: after a broken file) is never announced", i)
		}
	}
	expect(2)
	for i := 3; i < 8; i++ {
		write(i, false)
		time.Sleep(20 * time.Millisecond)
		write(i, true)
		expect(i)
	}
	// Concurrent reloads of a file that is not changing any more.
	for it := 0; it < 50; it++ {
		write(100+it, true)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); _, _ = l.Load(context.Background()) }()
		}
		go func() {
			select {
			case <-l.Events:
			case <-time.After(100 * time.Millisecond):
			}
		}()
		wg.Wait()
		if ttl := l.Config().HttpCache.DefaultTTL; ttl != fmt.Sprint(100+it, "s") {
			t.Fatalf("FAILING INPUT: concurrent reloads of %d leave %q", 100+it, ttl)
		}
	}
}
