package config

import (
	"context"
	"io"
	"kv"
	"kvm"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"gopkg.in/yaml.v3"
)

// ---- the yaml decoder (assumed): it accepts a text or not, writes only what the text says, and leaves the rest as it was ----

type yamlDec struct {
	Src   string
	Known bool
}

func yamlOk(src string, known bool, kind string) bool {
	return kv.UF[bool]("yaml.ok", src, known, kind)
}

// SpecOk: the text is a configuration.
func SpecOk(src string) bool { return yamlOk(src, true, "configuration") }

// YamlSetsMode, YamlMode: the text sets the cache mode, and to what; in a text of this kind.
func YamlSetsMode(src, kind string) bool { return kv.UF[bool]("yaml.mode.set", src, kind) }
func YamlMode(src, kind string) bool     { return kv.UF[bool]("yaml.mode", src, kind) }

// YamlOk: the text is a cache configuration.
func YamlOk(src string) bool { return yamlOk(src, false, "cache") }

// yamlSection: what a text says about the cache section: nothing, null, or something.
func yamlSection(src string) int { return kv.UF[int]("yaml.section", src) }

// YamlOf: what an object was decoded from, and the result.
type YamlOf struct {
	Src string
	Cfg Configuration
	Hc  cache.HttpCacheConfig
}

//kv:model gopkg.in/yaml.v3.NewDecoder
func mdYamlDecoder(r io.Reader) *yaml.Decoder {
	d := new(yaml.Decoder)
	kv.Ghost[yamlDec](d).Src = kvm.Content(r)
	kv.Ghost[yamlDec](d).Known = false
	return d
}

//kv:model (*gopkg.in/yaml.v3.Decoder).KnownFields
func mdYamlKnown(d *yaml.Decoder, on bool) { kv.Ghost[yamlDec](d).Known = on }

//kv:model (*gopkg.in/yaml.v3.Decoder).Decode
func mdYamlDecode(d *yaml.Decoder, v any) error {
	g := *kv.Ghost[yamlDec](d)
	return yamlDecode(g.Src, g.Known, v)
}

//kv:model gopkg.in/yaml.v3.Unmarshal
func mdYamlUnmarshal(b []byte, v any) error { return yamlDecode(kv.Bytes(b), false, v) }

// yamlErr: decoding fails, with io.EOF if there is no document.
func yamlErr() error {
	err := kv.Any[error]()
	kv.Assume(err != nil)
	return err
}

func yamlCache(src, kind string, x *cache.HttpCacheConfig) {
	strict := x.Strict
	*x = kv.Any[cache.HttpCacheConfig]()
	x.Strict = kv.Ite(YamlSetsMode(src, kind), YamlMode(src, kind), strict)
}

func yamlDecode(src string, known bool, v any) error {
	switch x := v.(type) {
	case *Configuration:
		hc := x.HttpCache
		*x = kv.Any[Configuration]()
		x.HttpCache = hc
		if !yamlOk(src, known, "configuration") {
			if hc != nil {
				*hc = kv.Any[cache.HttpCacheConfig]()
			}
			return yamlErr()
		}
		switch yamlSection(src) {
		case 0:
		case 1:
			x.HttpCache = nil
		default:
			if hc == nil {
				x.HttpCache = &cache.HttpCacheConfig{}
			}
			yamlCache(src, "configuration", x.HttpCache)
		}
		o := kv.Ghost[YamlOf](x)
		o.Src, o.Cfg = src, *x
		if x.HttpCache != nil {
			o.Hc = *x.HttpCache
		}
	case *cache.HttpCacheConfig:
		if !yamlOk(src, known, "cache") {
			*x = kv.Any[cache.HttpCacheConfig]()
			return yamlErr()
		}
		yamlCache(src, "cache", x)
		o := kv.Ghost[YamlOf](x)
		o.Src, o.Hc = src, *x
	default:
		kv.Assert("the decoded type is modelled", false)
	}
	return nil
}

// ldNote: the content the configuration in force was loaded from.
type ldNote struct {
	Content string
	Changes kv.Int // how often a changed file was installed
}

// ldWatch: the notifications sent before watching began.
type ldWatch struct{ Sent, From kv.Int }

func ldOf(l *Loader) *ldNote { return kv.Ghost[ldNote](l) }

// SpecSource: the text the configuration of the loader was decoded from.
func SpecSource(l *Loader) string { return ldOf(l).Content }

// SpecChanges: how often a changed file was installed.
func SpecChanges(l *Loader) kv.Int { return ldOf(l).Changes }

// SpecRunning: a loader that can be watched.
func SpecRunning(l *Loader) bool { return l.Events != nil && l.done != nil && !kv.Closed(l.done) && !kv.Closed(l.Events) && kv.Received(l.done) == 0 }

// SpecReloaded: another configuration has been loaded.
func SpecReloaded(l *Loader) {
	c := kv.Any[*Configuration]()
	kv.Assume(c != nil)
	l.config.Store(c)
}

// SpecFrom: what is in force now is the start.
func SpecFrom(l *Loader) { kv.Ghost[ldWatch](l).From = ldOf(l).Changes }

// SpecLoads: what loading changes.
func SpecLoads(l *Loader) {
	kv.Modifies(&l.config, &l.configHash, ldOf(l), kvm.File())
	kv.ModifiesGhost("lock.acquired")
}

// SpecWatching: notifications are counted from here on.
func SpecWatching(l *Loader) {
	kv.Ghost[ldWatch](l).Sent = kv.Int(kv.Sent(l.Events)) - ldOf(l).Changes
}

// SpecClosed: the loader was seen closed.
func SpecClosed(l *Loader) bool { return kv.Received(l.done) > 0 }

// SpecShut: the loader is closed.
func SpecShut(l *Loader) bool { return kv.Closed(l.done) }

// SpecHttp: hc is what the text says about the cache, strict mode unless it says otherwise.
func SpecHttp(src string, hc *cache.HttpCacheConfig) bool {
	return hc == nil || kv.Implies(!YamlSetsMode(src, "configuration") || yamlSection(src) == 0 || yamlSection(src) == 1, hc.Strict)
}

// ldIs: the configuration in force is exactly what was decoded from the text.
func ldIs(c *Configuration, src string) bool {
	o := kv.Ghost[YamlOf](c)
	return c != nil && o.Src == src && kv.Eq(*c, o.Cfg) && SpecHttp(src, c.HttpCache)
}

// SpecLoaded: the invariant of a loader.
func SpecLoaded(l *Loader) bool {
	n := ldOf(l)
	if l.config.Load() == nil {
		return len(l.configHash) == 0
	}
	return ldIs(l.config.Load(), n.Content) && kv.Bytes(l.configHash) == kvm.Digest("md5", n.Content)
}

//kv:guard mu configHash C21

//kv:contract (*config.Loader).Load C21
func ctLoad(l *Loader, ctx context.Context) (bool, error) {
	kv.Requires(l != nil && SpecLoaded(l))
	n, f := ldOf(l), kvm.File()
	cfg, hash, was, reads := l.config.Load(), kv.Bytes(l.configHash), *n, f.Reads
	SpecLoads(l)
	ok, err := l.Load(ctx)
	kv.Ensures("C21:the file configured is read", f.Path == l.path && f.Reads == reads+1)
	same := l.config.Load() == cfg && kv.Bytes(l.configHash) == hash && n.Content == was.Content && n.Changes == was.Changes
	switch {
	case f.Err != nil:
		kv.Cover("unreadable")
		kv.Ensures("C21:a file that cannot be read changes nothing and is reported", !ok && err != nil && same)
	case cfg != nil && f.Content == was.Content:
		kv.Cover("unchanged")
		kv.Ensures("C21:an unchanged file changes nothing", !ok && err == nil && same)
	case !yamlOk(f.Content, true, "configuration"):
		kv.Cover("malformed")
		kv.Ensures("C21:a file that does not parse changes nothing and is reported", !ok && err != nil && same)
	default:
		kv.Cover("changed")
		n.Content = f.Content
		n.Changes = was.Changes + 1
		kv.Ensures("C21:a valid changed file is installed", ok && err == nil && ldIs(l.config.Load(), f.Content))
	}
	kv.Ensures("C21:the loader remembers what it loaded", SpecLoaded(l))
	return ok, err
}

//kv:contract config.NewLoader C21 verify-only
func ctNewLoader(path string, watch bool, interval time.Duration) (*Loader, error) {
	l, err := NewLoader(path, watch, interval)
	f := kvm.File()
	if err != nil {
		kv.Cover("refused")
		return l, err
	}
	kv.Cover("created")
	kv.Ensures("C21:a new loader has a configuration", l != nil && l.path == path && l.Config() != nil && SpecLoaded(l))
	kv.Ensures("C21:a new loader has read its file", f.Err == nil && ldOf(l).Content == f.Content)
	return l, err
}

//kv:contract (*config.Loader).notifyChange C21 verify-only
func ctNotifyChange(l *Loader) bool {
	kv.Requires(l != nil && l.Events != nil && l.done != nil)
	n, d := kv.Sent(l.Events), kv.Received(l.done)
	ok := l.notifyChange()
	kv.Ensures("C21:a change is notified once, unless the loader is closed", kv.Implies(ok, kv.Sent(l.Events) == n+1) && kv.Implies(!ok, kv.Sent(l.Events) == n && kv.Received(l.done) > d))
	return ok
}

//kv:contract (*config.Loader).Watch C21 verify-only
func ctWatch(l *Loader, ctx context.Context) error {
	kv.Requires(l != nil && ctx != nil && SpecLoaded(l) && l.config.Load() != nil && l.Events != nil && l.done != nil)
	n := ldOf(l)
	n.Changes = 0
	w := kv.Ghost[ldWatch](l)
	w.Sent = kv.Int(kv.Sent(l.Events))
	kv.Requires(kv.Received(l.done) == 0)
	done := kvm.DoneOf(ctx)
	d := kv.Received(done)
	err := l.Watch(ctx)
	if err != nil {
		kv.Cover("unreadable")
		return err
	}
	kv.RunSpawned()
	kv.Cover("watched")
	kv.Ensures("C21:watching ends with its context only", kv.Received(done) > d)
	kv.Ensures("C21:every change seen while watching is notified", kv.Int(kv.Sent(l.Events)) == w.Sent+n.Changes || kv.Received(l.done) > 0)
	return err
}

//kv:loopinv (*config.Loader).Watch$1
func liWatch1(l *Loader) bool { return SpecLoaded(l) }

//kv:loopinv (*config.Loader).Watch$1
func liWatch2(l *Loader) bool {
	n, w := ldOf(l), kv.Ghost[ldWatch](l)
	return kv.Int(kv.Sent(l.Events)) == w.Sent+n.Changes || kv.Received(l.done) > 0
}

//kv:loopinv (*config.Loader).Watch$1
func liWatch3(l *Loader) bool { return ldOf(l).Changes >= kv.Ghost[ldWatch](l).From }
