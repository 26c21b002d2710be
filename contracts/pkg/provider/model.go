package provider

import (
	"context"
	"kv"
	"time"
)

// SpecLog records what a cache backend of unknown type was asked to do.
type SpecLog struct {
	Gets, Sets, Dels, Other int
	GetKey                  string
	GotNil                  bool
	Got                     string
	SetKey, SetVal          string
	SetTTL                  time.Duration
	DelKey                  string
}

// Mark records the last call of one operation of a backend: how many there were, its position
// among all backend calls, whether a lock was held, and how many locks had been acquired.
type Mark struct {
	N                kv.Int
	Seq, Held, Epoch int
}

type Marks struct {
	Get, Set, Del, Purge, Flush Mark
	Key                         string
	Deleted                     bool
	Err                         error
	Prefix                      string
	List                        []string
}

func MarksOf(p Provider) *Marks { return kv.Ghost[Marks](p) }

// Touched: frame of an operation on the backend.
func Touched(p Provider) {
	kv.Modifies(Log(p), MarksOf(p))
	kv.ModifiesGhost("prov.seq")
}

func (m *Mark) hit() {
	n := kv.GhostInt("prov.seq") + 1
	kv.SetGhostInt("prov.seq", n)
	m.N++
	m.Seq, m.Held, m.Epoch = n, kv.GhostInt("lock.held"), kv.GhostInt("lock.acquired")
}

func Log(p Provider) *SpecLog { return kv.Ghost[SpecLog](p) }

//kv:model (github.com/kacheio/kache/pkg/provider.Provider).Get
func mdGet(p Provider, ctx context.Context, key string) []byte {
	g := Log(p)
	g.Gets++
	MarksOf(p).Get.hit()
	g.GetKey = key
	v := kv.Any[[]byte]()
	g.GotNil = v == nil
	g.Got = kv.Bytes(v)
	return v
}

//kv:model (github.com/kacheio/kache/pkg/provider.Provider).Set
func mdSet(p Provider, key string, value []byte, ttl time.Duration) {
	g := Log(p)
	g.Sets++
	MarksOf(p).Set.hit()
	g.SetKey = key
	g.SetVal = kv.Bytes(value)
	g.SetTTL = ttl
}

//kv:model (github.com/kacheio/kache/pkg/provider.Provider).Delete
func mdDelete(p Provider, ctx context.Context, key string) bool {
	g := Log(p)
	g.Dels++
	g.DelKey = key
	m := MarksOf(p)
	m.Del.hit()
	m.Deleted = kv.Any[bool]()
	return m.Deleted
}

//kv:model (github.com/kacheio/kache/pkg/provider.Provider).Flush
func mdFlush(p Provider, ctx context.Context) error {
	Log(p).Other++
	m := MarksOf(p)
	m.Flush.hit()
	m.Err = kv.Any[error]()
	return m.Err
}

//kv:model (github.com/kacheio/kache/pkg/provider.Provider).Purge
func mdPurge(p Provider, ctx context.Context, pattern string) error {
	Log(p).Other++
	m := MarksOf(p)
	m.Purge.hit()
	m.Key = pattern
	m.Err = kv.Any[error]()
	return m.Err
}

//kv:model (github.com/kacheio/kache/pkg/provider.Provider).Keys
func mdKeys(p Provider, ctx context.Context, prefix string) []string {
	m := MarksOf(p)
	m.Prefix = prefix
	m.List = kv.Any[[]string]()
	return m.List
}

//kv:model (github.com/kacheio/kache/pkg/provider.Provider).Size
func mdSize(p Provider) int { return kv.Any[int]() }
