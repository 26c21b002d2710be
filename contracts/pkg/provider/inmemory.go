package provider

import (
	"context"
	"kv"
	"kvm"
	"regexp"
	"strings"
	"time"
)

//kv:guard mu inner,curSize,ttl C14
func gdInMemory(c *inMemoryCache) {}

func spHas(m map[string][]byte, k string) bool { _, ok := m[k]; return ok }

func spHasT(m map[string]time.Time, k string) bool { _, ok := m[k]; return ok }

// spShape: the parts of the cache exist and belong together.
func spShape(c *inMemoryCache) bool {
	return c.inner != nil && c.currentTime != nil && c.ttl != nil && LruOf(c.inner).Owner == c && LruOf(c.inner).M != nil && LruOf(c.inner).R != nil
}

// spAccounts: the accounted size is that of the items held and within the capacity.
func spAccounts(c *inMemoryCache) bool {
	return kv.Int(c.curSize) == LruOf(c.inner).Sum && c.curSize <= c.maxSizeBytes && c.maxItemSizeBytes <= c.maxSizeBytes
}

// spItems: no item exceeds the per-item limit.
func spItems(c *inMemoryCache) bool {
	return kv.Forall(func(k string) bool {
		v, ok := LruOf(c.inner).M[k]
		return kv.Implies(ok, spSize(v) <= kv.Int(c.maxItemSizeBytes))
	})
}

// spTTLs: exactly the items held have a lifetime.
func spTTLs(c *inMemoryCache) bool {
	return kv.Forall(func(k string) bool { return spHas(LruOf(c.inner).M, k) == spHasT(c.ttl, k) })
}

// spRanks: the items held were used before the next use.
func spRanks(c *inMemoryCache) bool {
	g := LruOf(c.inner)
	return kv.Forall(func(k string) bool { return kv.Implies(spHas(g.M, k), g.R[k] < g.Clock) })
}

func spPre(c *inMemoryCache) {
	kv.Requires(c != nil && spShape(c) && kv.Held(&c.mu) == 0)
	kv.Requires(spAccounts(c) && spItems(c) && spTTLs(c) && spRanks(c))
	kv.Assume(spSum(LruOf(c.inner)))
}

type spOld struct {
	M     map[string][]byte
	R     map[string]kv.Int
	T     map[string]time.Time
	Sum   kv.Int
	Locks int
	Block int
	Reads kv.Int
}

func spBefore(c *inMemoryCache) spOld {
	g := LruOf(c.inner)
	return spOld{M: kv.Snap(g.M), R: kv.Snap(g.R), T: kv.Snap(c.ttl), Sum: g.Sum, Locks: kv.GhostInt("lock.acquired"), Block: kv.Blocking(), Reads: kvm.ClockLog().Reads}
}

func spPost(c *inMemoryCache, o spOld) {
	kv.Ensures("C11,C14:the cache stays well formed", spShape(c))
	kv.Ensures("C11:the accounted size is exact and within the capacity", spAccounts(c))
	kv.Ensures("C11:no item exceeds the item limit", spItems(c))
	kv.Ensures("C13:exactly the items held have a lifetime", spTTLs(c))
	kv.Ensures("C11:the recency of items is well formed", spRanks(c))
	kv.Ensures("C14:the operation is at most one critical section", kv.Held(&c.mu) == 0 && kv.GhostInt("lock.acquired") <= o.Locks+1)
	kv.Ensures("C14:nothing blocks under the lock", kv.Blocking() == o.Block)
}

// spSame: key k holds what it held, with the same lifetime.
func spSame(c *inMemoryCache, o spOld, k string) bool {
	g := LruOf(c.inner)
	return spHas(g.M, k) == spHas(o.M, k) && kv.Implies(spHas(o.M, k), kv.Same(g.M[k], o.M[k]) && kv.Eq(c.ttl[k], o.T[k]) && spHasT(c.ttl, k) == spHasT(o.T, k))
}

func spExpired(c *inMemoryCache, o spOld, key string, now time.Time) bool {
	t, ok := o.T[key]
	return c.ttlEviction && ok && t.Before(now)
}

//kv:contract (*provider.inMemoryCache).Get C11 C12 C13 C14 verify-only
func ctInGet(c *inMemoryCache, ctx context.Context, key string) []byte {
	spPre(c)
	o := spBefore(c)
	v := c.Get(ctx, key)
	spPost(c, o)
	g := LruOf(c.inner)
	if c.ttlEviction && spHas(o.M, key) {
		kv.Ensures("C13:the clock is read", kvm.ClockLog().Reads > o.Reads)
	}
	gone := spExpired(c, o, key, kvm.ClockLog().Last)
	if gone {
		kv.Cover("expired")
		kv.Ensures("C13:an expired entry is not returned", v == nil)
		kv.Ensures("C13:an expired entry that is looked up is removed", !spHas(g.M, key))
	} else if spHas(o.M, key) {
		kv.Cover("hit")
		kv.Ensures("C12,C13:a lookup returns what was set until it expires", (v == nil) == (o.M[key] == nil) && kv.Bytes(v) == kv.Bytes(o.M[key]))
		kv.Ensures("C12:a lookup keeps the entry", spSame(c, o, key))
		kv.Ensures("C11:an item looked up is the most recently used", kv.Forall(func(k string) bool { return kv.Implies(spHas(g.M, k) && k != key, g.R[k] < g.R[key]) }))
	} else {
		kv.Cover("miss")
		kv.Ensures("C12:nothing is found under other keys", v == nil && !spHas(g.M, key))
	}
	kv.Ensures("C12:a lookup leaves other keys alone", kv.Forall(func(k string) bool { return k == key || spSame(c, o, k) && g.R[k] == o.R[k] }))
	return v
}

//kv:contract (*provider.inMemoryCache).Set C11 C12 C13 C14 verify-only
func ctInSet(c *inMemoryCache, key string, value []byte, ttl time.Duration) {
	spPre(c)
	o := spBefore(c)
	nt := kv.Ghost[SetNote](c)
	nt.O, nt.Key, nt.Size = o, key, spSize(value)
	c.Set(key, value, ttl)
	spPost(c, o)
	g := LruOf(c.inner)
	if spSize(value) > kv.Int(c.maxItemSizeBytes) {
		kv.Cover("too large")
		kv.Ensures("C11,C12:an item that is too large is not admitted, and no outdated value kept", !spHas(g.M, key))
		kv.Ensures("C12:a refused item leaves other keys alone", kv.Forall(func(k string) bool { return k == key || spSame(c, o, k) }))
		return
	}
	now := kvm.ClockLog().Last
	kv.Ensures("C12:a set value is held", spHas(g.M, key) && kv.Same(g.M[key], value) && (g.M[key] == nil) == (value == nil))
	kv.Ensures("C13:a set starts the lifetime", kvm.ClockLog().Reads > o.Reads && spHasT(c.ttl, key) && c.ttl[key].Equal(now.Add(ttl)))
	kv.Ensures("C12,C13:a set leaves other keys alone, but for evictions", kv.Forall(func(k string) bool {
		return k == key || !spHas(g.M, k) || spHas(o.M, k) && spSame(c, o, k)
	}))
	kv.Ensures("C11:only least recently used items are evicted", spOldestGone(c, o, key))
	if spRest(o, key)+spSize(value) <= kv.Int(c.maxSizeBytes) {
		kv.Cover("fits")
		kv.Ensures("C11,C12:nothing is evicted if the item fits", kv.Forall(func(k string) bool { return k == key || spSame(c, o, k) }))
	} else {
		kv.Cover("does not fit")
	}
	kv.Ensures("C11:an item set is the most recently used", kv.Forall(func(k string) bool { return kv.Implies(spHas(g.M, k) && k != key, g.R[k] < g.R[key]) }))
}

//kv:loopinv (*provider.inMemoryCache).ensureCapacity
func invEnsure1(c *inMemoryCache) bool {
	return spShape(c) && kv.Int(c.curSize) == LruOf(c.inner).Sum && spSum(LruOf(c.inner)) && c.maxItemSizeBytes <= c.maxSizeBytes && c.curSize <= c.maxSizeBytes
}

//kv:loopinv (*provider.inMemoryCache).ensureCapacity
func invEnsure2(c *inMemoryCache) bool { return spItems(c) }

//kv:loopinv (*provider.inMemoryCache).ensureCapacity
func invEnsure3(c *inMemoryCache) bool { return spTTLs(c) }

//kv:loopinv (*provider.inMemoryCache).ensureCapacity
func invEnsure4(c *inMemoryCache) bool { return spRanks(c) }

// SetNote remembers the contents before a set.
type SetNote struct {
	O    spOld
	Key  string
	Size kv.Int
}

// spKept: what is held under other keys is unchanged.
func spKept(c *inMemoryCache, o spOld, key string) bool {
	g := LruOf(c.inner)
	return kv.Forall(func(k string) bool {
		return kv.Implies(spHas(g.M, k), k != key && spHas(o.M, k) && spSame(c, o, k) && g.R[k] == o.R[k])
	})
}

//kv:loopinv (*provider.inMemoryCache).ensureCapacity
func invEnsure5(c *inMemoryCache) bool {
	n := kv.Ghost[SetNote](c)
	return spKept(c, n.O, n.Key)
}

//kv:loopinv (*provider.inMemoryCache).ensureCapacity
func invEnsure6(c *inMemoryCache) bool {
	n := kv.Ghost[SetNote](c)
	return spOldestGone(c, n.O, n.Key)
}

// spOldestGone: the items gone were used before those held.
func spOldestGone(c *inMemoryCache, o spOld, key string) bool {
	g := LruOf(c.inner)
	return kv.Forall(func(k string) bool {
		return kv.Implies(k != key && spHas(o.M, k) && !spHas(g.M, k), kv.Forall(func(l string) bool {
			return kv.Implies(l != key && spHas(g.M, l), o.R[k] <= o.R[l])
		}))
	})
}

//kv:loopinv (*provider.inMemoryCache).ensureCapacity
func invEnsure7(c *inMemoryCache) bool {
	n := kv.Ghost[SetNote](c)
	rest := spRest(n.O, n.Key)
	return kv.Implies(rest+n.Size <= kv.Int(c.maxSizeBytes), LruOf(c.inner).Sum == rest && kv.Forall(func(k string) bool {
		return k == n.Key || spSame(c, n.O, k)
	}))
}

func spRest(o spOld, key string) kv.Int {
	if spHas(o.M, key) {
		return o.Sum - spSize(o.M[key])
	}
	return o.Sum
}

//kv:variant (*provider.inMemoryCache).ensureCapacity C11
func varEnsure(c *inMemoryCache) int { return len(LruOf(c.inner).M) }

//kv:contract (*provider.inMemoryCache).Delete C11 C12 C13 C14 verify-only
func ctInDelete(c *inMemoryCache, ctx context.Context, key string) bool {
	spPre(c)
	o := spBefore(c)
	r := c.Delete(ctx, key)
	spPost(c, o)
	kv.Ensures("C12:deleting reports whether the key was present", r == spHas(o.M, key))
	kv.Ensures("C12:a deleted key is gone", !spHas(LruOf(c.inner).M, key))
	kv.Ensures("C12:deleting leaves other keys alone", kv.Forall(func(k string) bool { return k == key || spSame(c, o, k) }))
	return r
}

//kv:contract (*provider.inMemoryCache).Flush C11 C12 C14 C15 verify-only
func ctInFlush(c *inMemoryCache, ctx context.Context) error {
	spPre(c)
	o := spBefore(c)
	err := c.Flush(ctx)
	spPost(c, o)
	kv.Ensures("C12,C15:a flush removes everything", err == nil && kv.Forall(func(k string) bool { return !spHas(LruOf(c.inner).M, k) }))
	return err
}

//kv:contract (*provider.inMemoryCache).Size C14 verify-only
func ctInSize(c *inMemoryCache) int {
	spPre(c)
	o := spBefore(c)
	n := c.Size()
	spPost(c, o)
	kv.Ensures("C14:the number of items held is returned", n == len(o.M))
	kv.Ensures("C14:counting changes nothing", kv.Forall(func(k string) bool { return spSame(c, o, k) }))
	return n
}

//kv:contract (*provider.inMemoryCache).Keys C14 C15 verify-only
func ctInKeys(c *inMemoryCache, ctx context.Context, prefix string) []string {
	spPre(c)
	o := spBefore(c)
	r := c.Keys(ctx, prefix)
	spPost(c, o)
	kv.Ensures("C15:only keys held with the prefix are listed", kv.ForallN(len(r), func(i int) bool {
		return spHas(o.M, r[i]) && kv.HasPrefix(r[i], prefix)
	}))
	kv.Ensures("C15:all keys held with the prefix are listed", kv.Forall(func(k string) bool {
		return kv.Implies(spHas(o.M, k) && kv.HasPrefix(k, prefix), kv.ExistsN(len(r), func(i int) bool { return r[i] == k }))
	}))
	kv.Ensures("C15:listing changes nothing", kv.Forall(func(k string) bool { return spSame(c, o, k) }))
	return r
}

//kv:loopinv (*provider.inMemoryCache).Keys
func invKeys1(keys []string, all []string, prefix string, k int) bool {
	return kv.ForallN(len(keys), func(i int) bool {
		return kv.HasPrefix(keys[i], prefix) && kv.ExistsN(k, func(j int) bool { return all[j] == keys[i] })
	})
}

//kv:loopinv (*provider.inMemoryCache).Keys
func invKeys2(keys []string, all []string, prefix string, k int) bool {
	return kv.ForallN(k, func(j int) bool {
		return kv.Implies(kv.HasPrefix(all[j], prefix), kv.ExistsN(len(keys), func(i int) bool { return keys[i] == all[j] }))
	})
}

// spWildcard: the anchored expression of the quoted parts of the pattern joined by "any run".
func spWildcard(pattern string) string {
	parts := strings.Split(pattern, "*")
	return "(?s)^" + spJoin(parts, len(parts)) + "$"
}

func spJoin(parts []string, n int) string {
	return kv.Fold(n, "", func(acc string, i int) string {
		if i > 0 {
			acc += ".*"
		}
		return acc + regexp.QuoteMeta(parts[i])
	})
}

//kv:loopinv provider.wildcardToRegex
func invWildcard(result *strings.Builder, parts []string, k int) bool {
	return kv.Content(result) == spJoin(parts, k)
}

//kv:contract provider.wildcardToRegex C15 optional
func ctWildcard(pattern string) string {
	return kv.Is("C15:a pattern means its literal parts joined by any run", wildcardToRegex(pattern), spWildcard(pattern))
}

// PurgeNote remembers the contents before a purge.
type PurgeNote struct {
	O       spOld
	Pattern string
}

//kv:contract (*provider.inMemoryCache).Purge C11 C12 C14 C15 verify-only
func ctInPurge(c *inMemoryCache, ctx context.Context, pattern string) error {
	spPre(c)
	o := spBefore(c)
	nt := kv.Ghost[PurgeNote](c)
	nt.O, nt.Pattern = o, pattern
	err := c.Purge(ctx, pattern)
	spPost(c, o)
	g := LruOf(c.inner)
	if pattern == "" {
		kv.Cover("empty")
		kv.Ensures("C15:an empty pattern removes everything", err == nil && kv.Forall(func(k string) bool { return !spHas(g.M, k) }))
		return err
	}
	re := spWildcard(pattern)
	if !kvm.RegexpOk(re) {
		kv.Ensures("C15:a failing purge changes nothing", err != nil && kv.Forall(func(k string) bool { return spSame(c, o, k) }))
		return err
	}
	kv.Cover("pattern")
	kv.Ensures("C15:a purge succeeds", err == nil)
	kv.Ensures("C15:a purge removes exactly the matching keys", kv.Forall(func(k string) bool {
		return spHas(g.M, k) == (spHas(o.M, k) && !kvm.RegexpMatch(re, k))
	}))
	kv.Ensures("C15:keys that do not match are left alone", kv.Forall(func(k string) bool { return kv.Implies(!kvm.RegexpMatch(re, k), spSame(c, o, k)) }))
	return err
}

//kv:loopinv (*provider.inMemoryCache).Purge
func invPurge1(c *inMemoryCache) bool {
	return spShape(c) && spAccounts(c) && spSum(LruOf(c.inner)) && spItems(c) && spTTLs(c) && spRanks(c)
}

//kv:loopinv (*provider.inMemoryCache).Purge
func invPurge2(c *inMemoryCache, list []string, k int) bool {
	n := kv.Ghost[PurgeNote](c)
	re := spWildcard(n.Pattern)
	return kv.Forall(func(x string) bool {
		gone := kvm.RegexpMatch(re, x) && kv.ExistsN(k, func(j int) bool { return list[j] == x })
		return spHas(LruOf(c.inner).M, x) == (spHas(n.O.M, x) && !gone) && (gone || spSame(c, n.O, x))
	})
}

// spSane: the configuration with defaults for missing values.
func spSane(c InMemoryCacheConfig) InMemoryCacheConfig {
	if c.MaxSize == 0 {
		c.MaxSize = 1 << 28
	}
	if c.MaxItemSize == 0 {
		c.MaxItemSize = 1 << 27
	}
	if c.DefaultTTL == "" {
		c.DefaultTTL = "120s"
	}
	c.TTLEviction = c.DefaultTTL != "-1"
	return c
}

//kv:contract provider.NewInMemoryCache C11 C13 verify-only
func ctNewInMemory(config InMemoryCacheConfig) (Provider, error) {
	want := spSane(config)
	p, err := NewInMemoryCache(config)
	kv.Ensures("C11:a cache whose items may exceed it is refused", (err != nil) == (want.MaxItemSize > want.MaxSize))
	if err != nil {
		kv.Cover("refused")
		return p, err
	}
	kv.Cover("created")
	c, ok := p.(*inMemoryCache)
	if !ok {
		kv.Ensures("C11:an in-memory cache is created", false)
		return p, err
	}
	g := LruOf(c.inner)
	n := kv.Ghost[LruNew](c.inner)
	kv.Ensures("C11:a new cache is well formed", kv.Fresh(c) && c.inner != nil && c.currentTime != nil && c.ttl != nil && kv.Held(&c.mu) == 0)
	kv.Ensures("C11:a new cache is within its capacity", spAccounts(c) && spItems(c))
	kv.Ensures("C13:a new cache holds no lifetimes", spTTLs(c) && len(g.M) == 0)
	kv.Ensures("C11:the limits are those configured", c.maxSizeBytes == want.MaxSize && c.maxItemSizeBytes == want.MaxItemSize)
	kv.Ensures("C13:expiry is on unless the default lifetime is -1", c.ttlEviction == want.TTLEviction)
	kv.Ensures("C11:items are evicted by size only", n.Size == 1<<63-1)
	if n.Callback == nil {
		kv.Ensures("C11,C13:an eviction callback is registered", false)
		return p, err
	}
	// The callback does what the model of the LRU cache says.
	key, val, size := kv.Any[string](), kv.Any[[]byte](), kv.Any[uint64]()
	kv.Assume(size >= 24+uint64(len(val)))
	c.curSize = size
	other, at := kv.Any[string](), kv.Any[time.Time]()
	c.ttl[key], c.ttl[other] = at, at
	t := kv.Snap(c.ttl)
	n.Callback(key, val)
	kv.Ensures("C11:an eviction releases the size of the item", c.curSize == size-24-uint64(len(val)))
	kv.Ensures("C13:an eviction drops the lifetime of the item", kv.Forall(func(k string) bool {
		return spHasT(c.ttl, k) == (spHasT(t, k) && k != key) && kv.Implies(k != key, kv.Eq(c.ttl[k], t[k]))
	}))
	return p, err
}
