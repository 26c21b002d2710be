L='pkg/config/loader.go'
K='pkg/kache/kache.go'
PRE='''package kache

import (
	"context"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
)

var _ = strings.Repeat
var _ time.Duration

func demoWrite(name, s string) {
	if err := os.WriteFile(name+".new", []byte(s), 0o600); err != nil {
		panic(err)
	}
	if err := os.Rename(name+".new", name); err != nil {
		panic(err)
	}
}

func demoKache(t *testing.T, s string) (*Kache, string) {
	name := filepath.Join(t.TempDir(), "kache.yml")
	demoWrite(name, s)
	l, err := config.NewLoader(name, true, 5*time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	p, _ := provider.NewSimpleCache(nil)
	c, _ := cache.NewHttpCache(l.Config().HttpCache, p)
	return &Kache{loader: l, Config: l.Config(), Cache: c, Provider: &p}, name
}
'''
SEEDS=[
dict(id='C21-partial-install', prop='C21', pkg='pkg/kache',
 needs='a reload of a file that does not parse followed by anything that reads the configuration of the loader',
 breaks='a broken file replaces the configuration of the loader before it is known to be valid',
 edits=[(L,'''	if err := dec.Decode(config); err != nil {
		return false, err
	}
''','''	err = dec.Decode(config)
	l.config.Store(config)
	if err != nil {
		return false, err
	}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	k, name := demoKache(t, "cache:\\n  default_ttl: 5s\\n")
	demoWrite(name, "cache:\\n  default_ttl: [1]\\n")
	if err := k.reloadConfig(context.Background()); err == nil {
		t.Fatal("no error")
	}
	if c := k.loader.Config(); c.HttpCache == nil || c.HttpCache.DefaultTTL != "5s" {
		t.Fatal(c.HttpCache)
	}
}
'''),
dict(id='C21-hash-prefix', prop='C21', pkg='pkg/kache',
 needs='a configuration file of more than 64 KiB that changes near its end',
 breaks='a changed file is taken for unchanged',
 edits=[(L,'''	sum := md5.Sum(buf)
''','''	head := buf
	if len(head) > 64<<10 {
		head = head[:64<<10] // a prefix identifies large files
	}
	sum := md5.Sum(head)
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	pad := "# " + strings.Repeat("x", 70000) + "\\n"
	k, name := demoKache(t, pad+"cache:\\n  default_ttl: 5s\\n")
	demoWrite(name, pad+"cache:\\n  default_ttl: 6s\\n")
	if err := k.reloadConfig(context.Background()); err != nil {
		t.Fatal(err)
	}
	if c := k.Cache.Config(); c.DefaultTTL != "6s" {
		t.Fatal(c)
	}
}
'''),
dict(id='C21-empty-section-keeps', prop='C21', pkg='pkg/kache',
 needs='a reload of a file whose cache section is empty after one that had rules',
 breaks='the rules of the previous configuration stay in force after a valid reload that has none',
 edits=[(K,'''	t.Cache.UpdateConfig(t.Config.HttpCache)
''','''	if t.Config.HttpCache != nil {
		t.Cache.UpdateConfig(t.Config.HttpCache)
	}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	k, name := demoKache(t, "cache:\\n  default_ttl: 5s\\n")
	demoWrite(name, "cache:\\n")
	if err := k.reloadConfig(context.Background()); err != nil {
		t.Fatal(err)
	}
	if c := k.Cache.Config(); c.DefaultTTL != "" {
		t.Fatal(c)
	}
}
'''),
dict(id='C21-watch-stops', prop='C21', pkg='pkg/kache',
 needs='auto reload, with the file unreadable or broken at one tick and valid later',
 breaks='watching ends at the first failed reload, so later valid files are never installed',
 edits=[(L,'''				log.Error().Err(err).Msg("Error reloading config file")
''','''				log.Error().Err(err).Msg("Error reloading config file")
				return
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	k, name := demoKache(t, "cache:\\n  default_ttl: 5s\\n")
	if err := k.loader.Watch(context.Background()); err != nil {
		t.Fatal(err)
	}
	defer k.loader.Close()
	demoWrite(name, "cache: {\\n")
	time.Sleep(100 * time.Millisecond)
	demoWrite(name, "cache:\\n  default_ttl: 6s\\n")
	select {
	case <-k.loader.Events:
	case <-time.After(3 * time.Second):
		t.Fatal("never reloaded")
	}
}
'''),
]
