package cache

import (
	"kv"
	"kvm"
	"net/http"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/provider"
)

// SpecConfig: the configuration in force.
func SpecConfig(c *HttpCache) *HttpCacheConfig {
	if x := c.config.Load(); x != nil {
		return x
	}
	return &HttpCacheConfig{}
}

// spCompiled: every matcher belongs to its pattern; invalid patterns have none.
func spCompiled(cfg *HttpCacheConfig) bool {
	ts := cfg.Timeouts
	ok := kv.ForallN(len(ts), func(i int) bool { return ts[i].Matcher == kvm.Compiled(ts[i].Path) })
	if cfg.Exclude == nil {
		return ok
	}
	ps, ms, cs := cfg.Exclude.Path, cfg.Exclude.PathMatcher, cfg.Exclude.Content
	return ok && len(ps) == len(ms) &&
		kv.ForallN(len(ps), func(i int) bool { return ms[i] == kvm.Compiled(ps[i]) }) &&
		kv.ForallN(len(cs), func(i int) bool { return cs[i].TypeMatcher == kvm.Compiled(cs[i].Type) })
}

// SpecInv: the invariant of a cache: its configuration was compiled by UpdateConfig.
func SpecInv(c *HttpCache) bool { return c.config.Load() != nil && spCompiled(SpecConfig(c)) }

func spMatch(pattern, s string) bool { return kvm.RegexpOk(pattern) && kvm.RegexpMatch(pattern, s) }

// SpecDebugName: the canonical name of the debug header.
func SpecDebugName(c *HttpCache) string {
	n := SpecConfig(c).XCacheName
	if n == "" {
		n = "X-Kache"
	}
	return kv.UF[string]("canon", n)
}

// SpecExcludedPath: some configured pattern matches.
func SpecExcludedPath(c *HttpCache, p string) bool {
	cfg := SpecConfig(c)
	if cfg.Exclude == nil {
		return false
	}
	ps := cfg.Exclude.Path
	return kv.ExistsN(len(ps), func(i int) bool { return spMatch(ps[i], p) })
}

//kv:contract (*cache.HttpCache).IsExcludedPath C10 C03
func ctIsExcludedPath(c *HttpCache, p string) bool {
	kv.Requires(c != nil && SpecInv(c))
	return kv.Is("C10,C03:a path is excluded exactly when a configured pattern matches it", c.IsExcludedPath(p), SpecExcludedPath(c, p))
}

// SpecExcludedHeader: some configured header has the configured value.
func SpecExcludedHeader(c *HttpCache, h http.Header) bool {
	cfg := SpecConfig(c)
	if cfg.Exclude == nil {
		return false
	}
	hs := cfg.Exclude.Header
	return kv.Exists(func(k string) bool {
		v, ok := hs[k]
		return ok && kvm.HeaderGet(h, strings.ReplaceAll(k, "_", "-")) == v
	})
}

//kv:contract (*cache.HttpCache).IsExcludedHeader C10 C03
func ctIsExcludedHeader(c *HttpCache, h http.Header) bool {
	kv.Requires(c != nil)
	return kv.Is("C10,C03:a request is excluded exactly when a configured header has the configured value", c.IsExcludedHeader(h), SpecExcludedHeader(c, h))
}

// SpecExcludedContent: the first rule matching the content type excludes it, or its size.
func SpecExcludedContent(c *HttpCache, content string, length int64) bool {
	cfg := SpecConfig(c)
	if cfg.Exclude == nil || content == "" {
		return false
	}
	cs := cfg.Exclude.Content
	return kv.ExistsN(len(cs), func(i int) bool {
		return spMatch(cs[i].Type, content) &&
			kv.ForallN(i, func(j int) bool { return !spMatch(cs[j].Type, content) }) &&
			(cs[i].Size <= 0 || int64(cs[i].Size) < length)
	})
}

//kv:contract (*cache.HttpCache).IsExcludedContent C10 C01
func ctIsExcludedContent(c *HttpCache, content string, length int64) bool {
	kv.Requires(c != nil && SpecInv(c))
	return kv.Is("C10,C01:content is excluded by its first matching rule", c.IsExcludedContent(content, length), SpecExcludedContent(c, content, length))
}

func spDefaultTTL(c *HttpCache) time.Duration {
	s := SpecConfig(c).DefaultTTL
	if s != "" && kvm.DurOk(s) {
		return kvm.DurVal(s)
	}
	return DefaultTTL
}

// SpecPathTTL: ttl is that of the first timeout matching the path, else the default.
func SpecPathTTL(c *HttpCache, p string, ttl time.Duration) bool {
	ts := SpecConfig(c).Timeouts
	return kv.Implies(kv.ForallN(len(ts), func(i int) bool { return !spMatch(ts[i].Path, p) }), ttl == spDefaultTTL(c)) &&
		kv.ForallN(len(ts), func(i int) bool {
			return kv.Implies(spMatch(ts[i].Path, p) && kv.ForallN(i, func(j int) bool { return !spMatch(ts[j].Path, p) }), ttl == ts[i].TTL)
		})
}

//kv:contract (*cache.HttpCache).PathTTL C10
func ctPathTTL(c *HttpCache, p string) time.Duration {
	kv.Requires(c != nil && SpecInv(c))
	r := c.PathTTL(p)
	kv.Ensures("C10:the TTL is that of the first matching timeout, else the default", SpecPathTTL(c, p, r))
	return r
}

//kv:contract (*cache.HttpCache).DefaultTTL C10
func ctDefaultTTL(c *HttpCache) time.Duration {
	kv.Requires(c != nil)
	return kv.Is("C10:the default TTL is the configured duration if valid, else 120s", c.DefaultTTL(), spDefaultTTL(c))
}

//kv:contract (*cache.HttpCache).UpdateConfig C10 C21 C24
func ctUpdateConfig(c *HttpCache, config *HttpCacheConfig) {
	kv.Requires(c != nil)
	ups := kv.GhostInt("config.updates")
	kv.ModifiesGhost("config.updates")
	if config == nil {
		kv.Modifies(&c.config)
		c.UpdateConfig(config)
		kv.SetGhostInt("config.updates", ups+1)
		n := c.config.Load()
		kv.Ensures("C10,C21:without a configuration the default is in force", n != nil && kv.Eq(*n, HttpCacheConfig{Strict: true}))
		return
	}
	old := *config
	oldT := kv.SliceOf(len(config.Timeouts), func(i int) Timeout { return config.Timeouts[i] })
	kv.Modifies(&c.config, config.Timeouts)
	if config.Exclude != nil {
		kv.Modifies(config.Exclude, config.Exclude.Content)
	}
	var x Exclude
	var oldC []Content
	if config.Exclude != nil {
		x = *config.Exclude
		oldC = kv.SliceOf(len(x.Content), func(i int) Content { return x.Content[i] })
	}
	c.UpdateConfig(config)
	kv.SetGhostInt("config.updates", ups+1)
	kv.Ensures("C10,C21,C24:the configuration given is in force", c.config.Load() == config)
	kv.Ensures("C10:every matcher belongs to its pattern", spCompiled(config))
	kv.Ensures("C10,C21,C24:the configuration is not changed", kv.Eq(*config, old))
	ts := config.Timeouts
	kv.Ensures("C10,C21,C24:the timeouts are not changed", kv.ForallN(len(ts), func(i int) bool { return ts[i].Path == oldT[i].Path && ts[i].TTL == oldT[i].TTL }))
	if config.Exclude != nil {
		n := *config.Exclude
		kv.Ensures("C10,C21,C24:the exclude rules are not changed", kv.SeqEq(n.Path, x.Path) && kv.Eq(n.Header, x.Header) && kv.Same(n.Content, x.Content) &&
			kv.ForallN(len(oldC), func(i int) bool { return n.Content[i].Type == oldC[i].Type && n.Content[i].Size == oldC[i].Size }))
	}
}

//kv:contract cache.NewHttpCache C10 C21
func ctNewHttpCache(config *HttpCacheConfig, pdr provider.Provider) (*HttpCache, error) {
	kv.ModifiesGhost("config.updates")
	if config != nil {
		kv.Modifies(config.Timeouts)
		if config.Exclude != nil {
			kv.Modifies(config.Exclude, config.Exclude.Content)
		}
	}
	c, err := NewHttpCache(config, pdr)
	kv.NewIf("C10:a cache is created", &c, true)
	kv.Ensures("C10:creating a cache succeeds", err == nil)
	kv.Ensures("C10:a new cache has a compiled configuration", SpecInv(c))
	kv.Ensures("C10:a new cache has the configuration given", kv.Implies(config != nil, c.config.Load() == config))
	kv.Ensures("C10,C21:a new cache without a configuration is strict and has no rules", kv.Implies(config == nil, kv.Eq(*c.config.Load(), HttpCacheConfig{Strict: true})))
	kv.Ensures("C10:a new cache uses the provider given", kv.Eq(c.cache, pdr))
	return c, err
}

// SpecLoaded: a configuration was installed, as every cache built by NewHttpCache has.
func SpecLoaded(c *HttpCache) bool { return c != nil && c.config.Load() != nil }
