package provider

import (
	"kv"
	"kvm"
	"time"

	lru "github.com/hashicorp/golang-lru/v2"
)

// Lru is the abstract state of an LRU cache: its contents, the recency of every key and the
// summed size of the values.
type Lru struct {
	M     map[string][]byte
	R     map[string]kv.Int
	Clock kv.Int
	Sum   kv.Int
	Owner *inMemoryCache // whose eviction callback was registered
}

func LruOf(l *lru.Cache[string, []byte]) *Lru { return kv.Ghost[Lru](l) }

func spSize(b []byte) kv.Int { return 24 + kv.Int(len(b)) }

// spSum: facts about the sum of the sizes of the finitely many values held in memory.
func spSum(g *Lru) bool {
	return g.Sum >= 0 && g.Sum < 1<<62 && (len(g.M) > 0 || g.Sum == 0) && kv.Forall(func(k string) bool {
		v, ok := g.M[k]
		return kv.Implies(ok, spSize(v) <= g.Sum)
	})
}

// spEvicted: the effect of the registered callback.
func spEvicted(g *Lru, key string, val []byte) {
	c := g.Owner
	if c != nil {
		kv.Assert("C14:the lock is held when the cache changes", kv.Held(&c.mu) == 1)
		c.curSize -= 24 + uint64(len(val))
		delete(c.ttl, key)
	}
}

func spDrop(g *Lru, key string) {
	v := g.M[key]
	delete(g.M, key)
	g.Sum -= spSize(v)
	kv.Assume(spSum(g))
	spEvicted(g, key, v)
}

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).Get
func mdLruGet(l *lru.Cache[string, []byte], key string) ([]byte, bool) {
	g := LruOf(l)
	v, ok := g.M[key]
	if !ok {
		return nil, false
	}
	g.R[key] = g.Clock
	g.Clock++
	return v, true
}

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).Peek
func mdLruPeek(l *lru.Cache[string, []byte], key string) ([]byte, bool) {
	v, ok := LruOf(l).M[key]
	if !ok {
		return nil, false
	}
	return v, true
}

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).Contains
func mdLruContains(l *lru.Cache[string, []byte], key string) bool {
	_, ok := LruOf(l).M[key]
	return ok
}

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).Add
func mdLruAdd(l *lru.Cache[string, []byte], key string, val []byte) bool {
	g := LruOf(l)
	if c := g.Owner; c != nil {
		kv.Assert("C14:the lock is held when the cache changes", kv.Held(&c.mu) == 1)
	}
	if v, ok := g.M[key]; ok {
		g.Sum -= spSize(v)
	}
	g.Sum += spSize(val)
	g.M[key] = val
	g.R[key] = g.Clock
	g.Clock++
	kv.Assume(spSum(g))
	return false
}

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).Remove
func mdLruRemove(l *lru.Cache[string, []byte], key string) bool {
	g := LruOf(l)
	if _, ok := g.M[key]; !ok {
		return false
	}
	spDrop(g, key)
	return true
}

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).RemoveOldest
func mdLruRemoveOldest(l *lru.Cache[string, []byte]) (string, []byte, bool) {
	g := LruOf(l)
	if len(g.M) == 0 {
		return "", nil, false
	}
	key := kv.Any[string]()
	v, ok := g.M[key]
	kv.Assume(ok && kv.Forall(func(k string) bool {
		_, in := g.M[k]
		return kv.Implies(in, g.R[key] <= g.R[k])
	}))
	spDrop(g, key)
	return key, v, true
}

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).Purge
func mdLruPurge(l *lru.Cache[string, []byte]) {
	g := LruOf(l)
	c := g.Owner
	if c != nil {
		kv.Assert("C14:the lock is held when the cache changes", kv.Held(&c.mu) == 1)
		c.curSize -= uint64(g.Sum)
		kv.MapRemoveIf(c.ttl, func(k string, _ time.Time) bool { _, in := g.M[k]; return in })
	}
	clear(g.M)
	g.Sum = 0
}

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).Len
func mdLruLen(l *lru.Cache[string, []byte]) int { return len(LruOf(l).M) }

// spIdx: the position of a key in the list of keys with the given identity.
func spIdx(id int, k string) int { return kv.UF[int]("lru.idx", id, k) }

//kv:model (*github.com/hashicorp/golang-lru/v2.Cache).Keys
func mdLruKeys(l *lru.Cache[string, []byte]) []string {
	g := LruOf(l)
	list, id := kv.Any[[]string](), kv.Any[int]()
	kv.Assume(list != nil && len(list) == len(g.M) &&
		kv.ForallN(len(list), func(i int) bool {
			_, in := g.M[list[i]]
			return in && spIdx(id, list[i]) == i
		}) && kv.Forall(func(k string) bool {
		_, in := g.M[k]
		i := spIdx(id, k)
		return kv.Implies(in, 0 <= i && i < len(list) && list[i] == k)
	}))
	return list
}

// LruNew remembers the eviction callback of a new LRU cache.
type LruNew struct {
	Size     int
	Callback func(key string, val []byte)
}

//kv:model github.com/hashicorp/golang-lru/v2.NewWithEvict
func mdLruNew(size int, onEvicted func(key string, val []byte)) (*lru.Cache[string, []byte], error) {
	if size <= 0 {
		return nil, &kvm.Err{Msg: "lru"}
	}
	l := new(lru.Cache[string, []byte])
	g := LruOf(l)
	g.M, g.R = map[string][]byte{}, map[string]kv.Int{}
	g.Sum, g.Clock = 0, 0
	n := kv.Ghost[LruNew](l)
	n.Size, n.Callback = size, onEvicted
	return l, nil
}
