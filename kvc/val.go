package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: its leaves in flattening order.
type Val struct {
	T types.Type
	L []*Term
}

type LeafKind byte

const (
	LBool LeafKind = iota
	LInt
	LStr
	LFloat
	LRef // pointer, map, chan, func
	LSBase
	LSOff
	LSLen
	LITag
	LIVal
	LOpaque
)

type Leaf struct {
	Kind LeafKind
	Sort *Sort
	T    types.Type
	Path string
	lo   *big.Int
	hi   *big.Int
}

var pow62 = new(big.Int).Lsh(bi(1), 62)
var maxLen = new(big.Int).Lsh(bi(1), 48)
var refLo = bi(-1000000000000)       // -10^12
var fnBase = int64(1000000000000000) // 10^15: function values
var iptrLo = bi(-1000000000000000000)
var iptrHi = bi(-1000000000000000)

// opaque types represented by one leaf
var opaqueTypes = map[string]LeafKind{
	"time.Time":                     LOpaque,
	"net/netip.Addr":                LOpaque,
	"net/netip.Prefix":              LOpaque,
	"sync.Mutex":                    LOpaque,
	"sync.RWMutex":                  LOpaque,
	"sync.WaitGroup":                LOpaque,
	"sync.Once":                     LOpaque,
	"sync/atomic.Int64":             LOpaque,
	"sync/atomic.Uint64":            LOpaque,
	"sync/atomic.Int32":             LOpaque,
	"sync/atomic.Bool":              LOpaque,
	"strings.Builder":               LStr,
	"bytes.Buffer":                  LStr,
	"bufio.Reader":                  LStr,
	"regexp.Regexp":                 LOpaque,
	"net/http.Transport":            LOpaque,
	"crypto/tls.Config":             LOpaque,
	"crypto/tls.ConnectionState":    LOpaque,
	"github.com/rs/zerolog.Logger":  LOpaque,
	"github.com/rs/zerolog.Context": LOpaque,
	"net.Dialer":                    LOpaque,
	"mime/multipart.Form":           LOpaque,
	"sync.noCopy":                   LOpaque,
}

func named(t types.Type) (string, *types.Named) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name(), n
		}
		return o.Pkg().Path() + "." + o.Name(), n
	}
	return "", nil
}

var tkeys = map[types.Type]string{}

func tkey(t types.Type) string {
	t = types.Unalias(t)
	if k, ok := tkeys[t]; ok {
		return k
	}
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	k = strings.ReplaceAll(k, "interface{}", "any")
	tkeys[t] = k
	return k
}

var flatTab = map[string][]Leaf{}

func flatten(t types.Type) []Leaf {
	t = types.Unalias(t)
	k := tkey(t)
	if l, ok := flatTab[k]; ok {
		return l
	}
	l := flatten1(t)
	flatTab[k] = l
	return l
}

func flatten1(t types.Type) []Leaf {
	nm, n := named(t)
	if kd, ok := opaqueTypes[nm]; ok {
		s := SInt
		if kd == LStr {
			s = SStr
		}
		return []Leaf{{Kind: kd, Sort: s, T: t}}
	}
	if n != nil && nm == "sync/atomic.Pointer" {
		return []Leaf{{Kind: LRef, Sort: SInt, T: t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return []Leaf{{Kind: LBool, Sort: SBool, T: t}}
		case nm == "kv.Int":
			return []Leaf{{Kind: LInt, Sort: SInt, T: t}}
		case info&types.IsInteger != 0:
			b, s := intBits(u)
			lo, hi := intRange(b, s)
			return []Leaf{{Kind: LInt, Sort: SInt, T: t, lo: lo, hi: hi}}
		case info&types.IsString != 0:
			return []Leaf{{Kind: LStr, Sort: SStr, T: t}}
		case info&types.IsFloat != 0, info&types.IsComplex != 0:
			return []Leaf{{Kind: LFloat, Sort: SFloat, T: t}}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []Leaf{{Kind: LRef, Sort: SInt, T: t}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{Kind: LRef, Sort: SInt, T: t}}
	case *types.Slice:
		return []Leaf{{Kind: LSBase, Sort: SInt, T: t, Path: "base"}, {Kind: LSOff, Sort: SInt, T: t, Path: "off", lo: bi(0), hi: maxLen}, {Kind: LSLen, Sort: SInt, T: t, Path: "len", lo: bi(0), hi: maxLen}}
	case *types.Interface:
		return []Leaf{{Kind: LITag, Sort: SInt, T: t, Path: "tag", lo: bi(0)}, {Kind: LIVal, Sort: SInt, T: t, Path: "val"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range flatten(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range flatten(u.Elem()) {
			l.Sort = ArrSort(SInt, l.Sort)
			l.Path = "[]" + l.Path
			out = append(out, l)
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, flatten(u.At(i).Type())...)
		}
		return out
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsupported("type parameter " + tp.String()))
	}
	panic(unsupported("flatten " + t.String()))
}

func intBits(u *types.Basic) (uint, bool) {
	switch u.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

type unsupErr struct{ msg string }

func (u unsupErr) Error() string   { return u.msg }
func unsupported(msg string) error { return unsupErr{msg} }

// ---- field offsets ----

func fieldOff(st *types.Struct, i int) (off, n int) {
	for j := 0; j < i; j++ {
		off += len(flatten(st.Field(j).Type()))
	}
	return off, len(flatten(st.Field(i).Type()))
}

func isNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice, *types.Interface:
		return true
	}
	return false
}

// ---- zero values ----

func zeroLeaf(l Leaf) *Term { return zeroSort(l.Sort) }
func zeroSort(s *Sort) *Term {
	switch s.Kind {
	case 'B':
		return False
	case 'I':
		return Zero
	case 'S':
		return StrT("")
	case 'F':
		return UF("fzero", SFloat, nil, nil)
	case 'A':
		return ConstArr(s.Key, zeroSort(s.Elem))
	}
	panic("zero")
}

func zeroVal(t types.Type) Val {
	v := Val{T: t}
	for _, l := range flatten(t) {
		v.L = append(v.L, zeroLeaf(l))
	}
	return v
}

func leafBounds(l Leaf, epoch *big.Int) (lo, hi *big.Int) {
	switch l.Kind {
	case LInt, LSLen:
		return l.lo, l.hi
	case LSOff:
		return bi(0), bi(0) // initial slices start at their backing array
	case LRef, LSBase, LIVal:
		return refLo, epoch
	case LITag:
		return bi(0), bi(1000000)
	}
	return nil, nil
}

func scalar(t types.Type, x *Term) Val { return Val{T: t, L: []*Term{x}} }

func iteVal(c *Term, a, b Val) Val {
	if len(a.L) != len(b.L) {
		panic(fmt.Sprintf("iteVal: %s / %s", a.T, b.T))
	}
	r := Val{T: a.T, L: make([]*Term, len(a.L))}
	for i := range a.L {
		r.L[i] = Ite(c, a.L[i], b.L[i])
	}
	return r
}

func eqVal(a, b Val) *Term {
	if _, ok := a.T.Underlying().(*types.Interface); ok {
		if _, ok2 := b.T.Underlying().(*types.Interface); !ok2 {
			// iface vs concrete: box
			b = box(b, a.T)
		}
		if b.L[0] == Zero {
			return Eq(a.L[0], Zero)
		}
		if a.L[0] == Zero {
			return Eq(b.L[0], Zero)
		}
		return And(Eq(a.L[0], b.L[0]), Or(Eq(a.L[0], Zero), Eq(a.L[1], b.L[1])))
	}
	if _, ok := b.T.Underlying().(*types.Interface); ok {
		return eqVal(b, a)
	}
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		// only comparison with nil is legal
		if b.L[0] == Zero && b.L[2] == Zero {
			return Eq(a.L[0], Zero)
		}
		if a.L[0] == Zero && a.L[2] == Zero {
			return Eq(b.L[0], Zero)
		}
	}
	return eqLeaves(a, b)
}

func eqLeaves(a, b Val) *Term {
	if len(a.L) != len(b.L) {
		panic(fmt.Sprintf("eqLeaves: %s / %s", a.T, b.T))
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, Eq(a.L[i], b.L[i]))
	}
	return And(cs...)
}

// ---- dynamic types ----

var typeIDs = map[string]int64{}
var typeByID = map[int64]types.Type{}

func typeID(t types.Type) int64 {
	k := tkey(t)
	if id, ok := typeIDs[k]; ok {
		return id
	}
	id := int64(len(typeIDs) + 1)
	typeIDs[k] = id
	typeByID[id] = t
	return id
}

func pointerLike(t types.Type) bool {
	if nm, _ := named(t); opaqueTypes[nm] != 0 {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func box(v Val, it types.Type) Val {
	id := IntT(typeID(v.T))
	var x *Term
	if pointerLike(v.T) {
		x = v.L[0]
	} else if len(v.L) == 0 {
		x = Zero
	} else {
		x = UF("box:"+tkey(v.T), SInt, nil, nil, v.L...)
	}
	return Val{T: it, L: []*Term{id, x}}
}

func unbox(x *Term, t types.Type) Val {
	if pointerLike(t) {
		return Val{T: t, L: []*Term{x}}
	}
	ls := flatten(t)
	v := Val{T: t}
	for i, l := range ls {
		v.L = append(v.L, unboxLeaf(x, t, i, l))
	}
	return v
}

func unboxLeaf(x *Term, t types.Type, i int, l Leaf) *Term {
	if x.op == OIte {
		return Ite(x.args[0], unboxLeaf(x.args[1], t, i, l), unboxLeaf(x.args[2], t, i, l))
	}
	if x.op == OUF && strings.HasPrefix(x.name, clean("box:"+tkey(t))+".") && len(x.args) == len(flatten(t)) {
		return x.args[i]
	}
	if x == Zero {
		return zeroLeaf(l)
	}
	lo, hi := leafBounds(l, bi(0))
	return UF(fmt.Sprintf("unbox:%s#%d", tkey(t), i), l.Sort, lo, hi, x)
}

// ---- function values ----

type Closure struct {
	fn    *ssa.Function
	binds []Val
	bound *Val // bound method receiver
	meth  *types.Func
}

var closures = map[int64]*Closure{}
var fnLits = map[*ssa.Function]*Term{}
var nclosure int64

func newClosure(c *Closure) *Term {
	if c.bound == nil && len(c.binds) == 0 && c.fn != nil {
		if t, ok := fnLits[c.fn]; ok {
			return t
		}
	}
	nclosure++
	t := IntT(fnBase + nclosure)
	closures[fnBase+nclosure] = c
	if c.bound == nil && len(c.binds) == 0 && c.fn != nil {
		fnLits[c.fn] = t
	}
	return t
}

func closureOf(t *Term) *Closure {
	if t.op == OInt && t.val.IsInt64() {
		return closures[t.val.Int64()]
	}
	return nil
}

// ---- interior pointers ----

type iptr struct {
	kind byte // 'o' object, 'e' element, 'g' global
	root string
	off  int
	rt   types.Type // root type (element type for 'e')
}

var iptrTab = map[string]*iptr{}

func mkIPtr(p *iptr, args ...*Term) *Term {
	name := fmt.Sprintf("iptr:%c:%s#%d", p.kind, p.root, p.off)
	t := UF(name, SInt, iptrLo, iptrHi, args...)
	iptrTab[t.name] = p
	return t
}

func asIPtr(t *Term) *iptr {
	if t.op == OUF {
		return iptrTab[t.name]
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsupported("deref of " + t.String()))
}

func isArray(t types.Type) (*types.Array, bool) {
	if nm, _ := named(t); opaqueTypes[nm] != 0 {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}
