package provider

import (
	"context"
	"kv"
	"time"
)

// cdOld is what had been asked of the two levels before an operation.
type cdOld struct {
	In, Out   Marks
	LIn, LOut SpecLog
}

func cdPre(c *Cached) cdOld {
	kv.Requires(c != nil && c.inner != nil && c.outer != nil && !kv.Same(c.inner, c.outer))
	kv.Requires(kv.Held(&c.mu) == 0 && kv.GhostInt("lock.held") == 0)
	return cdOld{In: *MarksOf(c.inner), Out: *MarksOf(c.outer), LIn: *Log(c.inner), LOut: *Log(c.outer)}
}

func cdPost(c *Cached) {
	kv.Ensures("C16:the lock is released", kv.Held(&c.mu) == 0 && kv.GhostInt("lock.held") == 0)
}

// cdUnder: the call was made with the lock held.
func cdUnder(m Mark) bool { return m.Held == 1 }

// cdTogether: both calls were made in the same critical section.
func cdTogether(a, b Mark) bool { return cdUnder(a) && cdUnder(b) && a.Epoch == b.Epoch }

// cdRemoved: the removal reached both levels once, in an order that lets no concurrent lookup
// bring back what was removed (lmLayered).
func cdRemoved(in, oin, out, oout Mark) bool {
	return in.N == oin.N+1 && out.N == oout.N+1 && cdUnder(out) && (out.Seq > in.Seq || cdTogether(in, out))
}

//kv:contract (*provider.Cached).Get C16 verify-only
func ctCdGet(c *Cached, ctx context.Context, key string) []byte {
	o := cdPre(c)
	v := c.Get(ctx, key)
	cdPost(c)
	in, out, lin, lout := *MarksOf(c.inner), *MarksOf(c.outer), *Log(c.inner), *Log(c.outer)
	kv.Ensures("C16:a lookup asks the local level first", out.Get.N == o.Out.Get.N+1 && lout.GetKey == key && cdUnder(out.Get))
	kv.Ensures("C16:a lookup removes nothing", kv.Eq(in.Del, o.In.Del) && kv.Eq(out.Del, o.Out.Del) && lin.Other == o.LIn.Other && lout.Other == o.LOut.Other && kv.Eq(in.Set, o.In.Set))
	if !lout.GotNil {
		kv.Cover("local hit")
		kv.Ensures("C16:what the local level holds is returned", v != nil && kv.Bytes(v) == lout.Got)
		kv.Ensures("C16:a local hit changes nothing", kv.Eq(in, o.In) && kv.Eq(out.Set, o.Out.Set))
		return v
	}
	kv.Ensures("C16:a local miss asks the remote level", in.Get.N == o.In.Get.N+1 && lin.GetKey == key && in.Get.Seq > out.Get.Seq)
	if lin.GotNil {
		kv.Cover("miss")
		kv.Ensures("C16:nothing is found if neither level holds the key", v == nil && kv.Eq(out.Set, o.Out.Set))
		return v
	}
	kv.Cover("remote hit")
	kv.Ensures("C16:what the remote level holds is returned", v != nil && kv.Bytes(v) == lin.Got)
	kv.Ensures("C16:a remote hit fills the local level", out.Set.N == o.Out.Set.N+1 && lout.SetKey == key && lout.SetVal == lin.Got && lout.SetTTL == c.ttl)
	kv.Ensures("C16:the local level is asked and filled in one critical section", cdTogether(out.Get, in.Get) && cdTogether(in.Get, out.Set))
	return v
}

//kv:contract (*provider.Cached).Set C16 verify-only
func ctCdSet(c *Cached, key string, value []byte, ttl time.Duration) {
	o := cdPre(c)
	c.Set(key, value, ttl)
	cdPost(c)
	in, out, lin, lout := *MarksOf(c.inner), *MarksOf(c.outer), *Log(c.inner), *Log(c.outer)
	kv.Ensures("C16:a set reaches the remote level", in.Set.N == o.In.Set.N+1 && lin.SetKey == key && lin.SetVal == kv.Bytes(value) && lin.SetTTL == ttl)
	kv.Ensures("C16:a set reaches the local level", out.Set.N == o.Out.Set.N+1 && lout.SetKey == key && lout.SetVal == kv.Bytes(value) && lout.SetTTL == ttl)
	kv.Ensures("C16:a set reaches both levels in one critical section", cdTogether(in.Set, out.Set))
	kv.Ensures("C16:a set removes nothing", kv.Eq(in.Del, o.In.Del) && kv.Eq(out.Del, o.Out.Del) && lin.Other == o.LIn.Other && lout.Other == o.LOut.Other)
}

//kv:contract (*provider.Cached).Delete C16 verify-only
func ctCdDelete(c *Cached, ctx context.Context, key string) bool {
	o := cdPre(c)
	r := c.Delete(ctx, key)
	cdPost(c)
	in, out, lin, lout := *MarksOf(c.inner), *MarksOf(c.outer), *Log(c.inner), *Log(c.outer)
	kv.Ensures("C16:a delete removes the key from both levels for good", cdRemoved(in.Del, o.In.Del, out.Del, o.Out.Del) && lin.DelKey == key && lout.DelKey == key)
	kv.Ensures("C16:a delete reports what the remote level reports", r == in.Deleted)
	kv.Ensures("C16:a delete sets nothing", kv.Eq(in.Set, o.In.Set) && kv.Eq(out.Set, o.Out.Set) && lin.Other == o.LIn.Other && lout.Other == o.LOut.Other)
	return r
}

//kv:contract (*provider.Cached).Purge C16 C15 verify-only
func ctCdPurge(c *Cached, ctx context.Context, pattern string) error {
	o := cdPre(c)
	err := c.Purge(ctx, pattern)
	cdPost(c)
	in, out, lin, lout := *MarksOf(c.inner), *MarksOf(c.outer), *Log(c.inner), *Log(c.outer)
	kv.Ensures("C15,C16:a purge removes the pattern from both levels for good", cdRemoved(in.Purge, o.In.Purge, out.Purge, o.Out.Purge) && in.Key == pattern && out.Key == pattern)
	kv.Ensures("C16:a purge reports what the remote level reports", kv.Eq(err, in.Err))
	kv.Ensures("C16:a purge does nothing else", kv.Eq(in.Set, o.In.Set) && kv.Eq(out.Set, o.Out.Set) && kv.Eq(in.Del, o.In.Del) && lin.Other == o.LIn.Other+1)
	_ = lout
	return err
}

//kv:contract (*provider.Cached).Flush C16 C15 verify-only
func ctCdFlush(c *Cached, ctx context.Context) error {
	o := cdPre(c)
	err := c.Flush(ctx)
	cdPost(c)
	in, out := *MarksOf(c.inner), *MarksOf(c.outer)
	kv.Ensures("C15,C16:a flush empties both levels for good", cdRemoved(in.Flush, o.In.Flush, out.Flush, o.Out.Flush))
	kv.Ensures("C16:a flush reports what the remote level reports", kv.Eq(err, in.Err))
	kv.Ensures("C16:a flush sets nothing", kv.Eq(in.Set, o.In.Set) && kv.Eq(out.Set, o.Out.Set))
	return err
}

//kv:contract (*provider.Cached).Keys C16 C15 verify-only
func ctCdKeys(c *Cached, ctx context.Context, prefix string) []string {
	o := cdPre(c)
	r := c.Keys(ctx, prefix)
	cdPost(c)
	in := *MarksOf(c.inner)
	kv.Ensures("C15:the keys of the remote level are listed", in.Prefix == prefix && kv.SeqEq(r, in.List))
	kv.Ensures("C16:listing changes nothing", kv.Eq(in.Set, o.In.Set) && kv.Eq(in.Del, o.In.Del) && kv.Eq(*Log(c.inner), o.LIn) && kv.Eq(*Log(c.outer), o.LOut))
	return r
}

//kv:contract provider.NewCached C16 verify-only
func ctNewCached(cache Provider, name string, ttl time.Duration, config InMemoryCacheConfig) (*Cached, error) {
	kv.Requires(cache != nil)
	want := spSane(config)
	c, err := NewCached(cache, name, ttl, config)
	kv.Ensures("C16:a layered cache whose items may exceed it is refused", (err != nil) == (want.MaxItemSize > want.MaxSize))
	if err != nil {
		kv.Cover("refused")
		return c, err
	}
	kv.Cover("created")
	l, ok := c.outer.(*inMemoryCache)
	kv.Ensures("C16:the local level is a new cache in front of the remote one", kv.Fresh(c) && ok && kv.Fresh(l) && kv.Eq(c.inner, cache) && c.ttl == ttl)
	if ok {
		kv.Ensures("C16:entries kept locally expire", l.ttlEviction && l.ttl != nil)
		kv.Ensures("C16:the local level has the limits configured", l.maxSizeBytes == want.MaxSize && l.maxItemSizeBytes == want.MaxItemSize)
	}
	return c, err
}

// cdSection is a critical section: its first and last instant.
type cdSection struct{ From, To kv.Int }

func (s cdSection) has(t kv.Int) bool { return s.From <= t && t <= s.To }

func cdDisjoint(a, b cdSection) bool { return a.To < b.From || b.To < a.From }

// lmLayered: what the contracts above say about a removal and a concurrent lookup implies that
// the lookup cannot bring back locally what was removed, whatever the interleaving. A fill after
// the local removal takes what the remote level held after the remote removal.
//
//kv:lemma C16
func lmLayered() {
	fill, del := kv.Any[cdSection](), kv.Any[cdSection]()
	outGet, inGet, outSet := kv.Any[kv.Int](), kv.Any[kv.Int](), kv.Any[kv.Int]()
	inDel, outDel := kv.Any[kv.Int](), kv.Any[kv.Int]()
	kv.Requires(cdDisjoint(fill, del))
	kv.Requires(fill.has(outGet) && fill.has(inGet) && fill.has(outSet) && outGet < inGet && inGet < outSet)
	kv.Requires(del.has(outDel) && (inDel < outDel || del.has(inDel)))
	kv.Ensures("C16:a fill after a removal takes what was set since", kv.Implies(outSet > outDel, inGet > inDel))
}

// lmOverwrite: likewise a lookup cannot undo a set, and the levels agree on the order of sets.
//
//kv:lemma C16
func lmOverwrite() {
	fill, set, other := kv.Any[cdSection](), kv.Any[cdSection](), kv.Any[cdSection]()
	outGet, inGet, outSet := kv.Any[kv.Int](), kv.Any[kv.Int](), kv.Any[kv.Int]()
	in1, out1, in2, out2 := kv.Any[kv.Int](), kv.Any[kv.Int](), kv.Any[kv.Int](), kv.Any[kv.Int]()
	kv.Requires(cdDisjoint(fill, set) && cdDisjoint(set, other))
	kv.Requires(fill.has(outGet) && fill.has(inGet) && fill.has(outSet) && outGet < inGet && inGet < outSet)
	kv.Requires(set.has(in1) && set.has(out1) && other.has(in2) && other.has(out2))
	kv.Ensures("C16:a fill after a set takes what was set", kv.Implies(outSet > out1, inGet > in1 && outGet > out1))
	kv.Ensures("C16:both levels see sets in the same order", (in1 < in2) == (out1 < out2))
}
