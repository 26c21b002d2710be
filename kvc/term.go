package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------- sorts ----------

type Sort struct {
	Kind byte // 'B' bool, 'I' int, 'S' string, 'F' float, 'A' array
	Key  *Sort
	Elem *Sort
	name string
}

var (
	SBool  = &Sort{Kind: 'B', name: "Bool"}
	SInt   = &Sort{Kind: 'I', name: "Int"}
	SStr   = &Sort{Kind: 'S', name: "Str"}
	SFloat = &Sort{Kind: 'F', name: "Flt"}
	arrTab = map[[2]*Sort]*Sort{}
)

func ArrSort(k, e *Sort) *Sort {
	if s, ok := arrTab[[2]*Sort{k, e}]; ok {
		return s
	}
	s := &Sort{Kind: 'A', Key: k, Elem: e, name: "(Array " + k.name + " " + e.name + ")"}
	arrTab[[2]*Sort{k, e}] = s
	return s
}

// ---------- terms ----------

type Op byte

const (
	OBool Op = iota
	OInt
	OStr
	OVar
	OBound
	OUF
	ONot
	OAnd
	OOr
	OIte
	OEq
	OLe // a <= 0 (linear)  args[0]
	OAdd
	OMul
	ODiv // SMT euclidean div
	OMod
	OSelect
	OStore
	OConstArr
	OForall
	OExists
	OStrLen
	OStrCat
	OStrSub // s, off, len
	OStrIdx // indexof s t from 0
	OStrPre // prefix p of s: args p, s
	OStrSuf
	OStrAt // code at
	OStrLt
)

type Term struct {
	id    int
	op    Op
	sort  *Sort
	args  []*Term
	name  string // var/UF name, string literal
	val   *big.Int
	coefs []*big.Int
	lo    *big.Int // bounds of int terms (nil: none)
	hi    *big.Int
	llo   *big.Int // bounds of leaves for arrays
	lhi   *big.Int
	// facts about base variables
	maxSym  int
	bounds  []*Term // bound variables occurring free
	bvars   []*Term // quantifier's variables
	parent  *Term   // frame: array var equal to parent for keys <= parentB
	parentB *big.Int
	pats    []*Term
}

type TermTab struct {
	tab    map[string]*Term
	next   int
	nsym   int
	symTab map[string]int
}

var TT = &TermTab{tab: map[string]*Term{}, symTab: map[string]int{}}

func bi(n int64) *big.Int { return big.NewInt(n) }

func (t *Term) key() string {
	var sb strings.Builder
	sb.WriteByte(byte('a' + t.op))
	sb.WriteString(t.sort.name)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	if t.val != nil {
		sb.WriteString(t.val.String())
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].String())
		}
	}
	for _, a := range t.bvars {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

func intern(t *Term) *Term {
	k := t.key()
	if o, ok := TT.tab[k]; ok {
		return o
	}
	TT.next++
	t.id = TT.next
	for _, a := range t.args {
		if a.maxSym > t.maxSym {
			t.maxSym = a.maxSym
		}
		for _, b := range a.bounds {
			t.addBound(b)
		}
	}
	if len(t.bvars) > 0 {
		var nb []*Term
		for _, b := range t.bounds {
			in := false
			for _, v := range t.bvars {
				if v == b {
					in = true
				}
			}
			if !in {
				nb = append(nb, b)
			}
		}
		t.bounds = nb
	}
	if t.sort == SInt && t.op != OVar && t.op != OBound && t.op != OUF {
		t.computeBounds()
	}
	TT.tab[k] = t
	return t
}

func (t *Term) addBound(b *Term) {
	for _, x := range t.bounds {
		if x == b {
			return
		}
	}
	t.bounds = append(t.bounds[:len(t.bounds):len(t.bounds)], b)
}

func bmin(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func (t *Term) computeBounds() {
	switch t.op {
	case OInt:
		t.lo, t.hi = t.val, t.val
	case OIte:
		t.lo, t.hi = bmin(t.args[1].lo, t.args[2].lo), bmax(t.args[1].hi, t.args[2].hi)
		if t.lo == nil || t.hi == nil {
			t.lo, t.hi = boundsUnder(t, nil, 4)
		}
	case OAdd:
		lo, hi := new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		for i, a := range t.args {
			c := t.coefs[i]
			al, ah := a.lo, a.hi
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(c, al))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(c, ah))
				}
			}
		}
		t.lo, t.hi = lo, hi
	case OMod:
		if m := t.args[1]; m.op == OInt && m.val.Sign() > 0 {
			t.lo, t.hi = bi(0), new(big.Int).Sub(m.val, bi(1))
		}
	case ODiv:
		if m := t.args[1]; m.op == OInt && m.val.Sign() > 0 {
			if t.args[0].lo != nil {
				t.lo = floorDiv(t.args[0].lo, m.val)
			}
			if t.args[0].hi != nil {
				t.hi = floorDiv(t.args[0].hi, m.val)
			}
		}
	case OSelect:
		t.lo, t.hi = t.args[0].llo, t.args[0].lhi
	case OStrLen:
		t.lo, t.hi = bi(0), new(big.Int).Lsh(bi(1), 48)
	case OStrIdx:
		t.lo, t.hi = bi(-1), new(big.Int).Lsh(bi(1), 48)
	case OStrAt:
		t.lo, t.hi = bi(0), bi(255)
	}
}

// boundsUnder: bounds of t where the literals in cs hold.
func boundsUnder(t *Term, cs []*Term, depth int) (lo, hi *big.Int) {
	if t.op == OIte && depth > 0 {
		c := t.args[0]
		var pos, neg []*Term
		if c.op == OAnd {
			pos = c.args
		} else {
			pos = []*Term{c}
		}
		if c.op == OOr {
			for _, x := range c.args {
				neg = append(neg, negLit(x))
			}
		} else if c.op != OAnd {
			neg = []*Term{negLit(c)}
		}
		n := len(cs)
		l1, h1 := boundsUnder(t.args[1], append(cs[:n:n], pos...), depth-1)
		l2, h2 := boundsUnder(t.args[2], append(cs[:n:n], neg...), depth-1)
		return bmin(l1, l2), bmax(h1, h2)
	}
	lo, hi = t.lo, t.hi
	if t.op == OInt {
		return
	}
	for _, c := range cs {
		if c == nil {
			continue
		}
		l, strict := c, false
		if l.op == ONot {
			l, strict = l.args[0], true
		}
		if l.op != OLe {
			continue
		}
		x, y := toLin(l.args[0]), toLin(t)
		if len(x.ts) != len(y.ts) {
			continue
		}
		same, opp := true, true
		for i := range x.ts {
			if x.ts[i] != y.ts[i] {
				same, opp = false, false
				break
			}
			if x.cs[i].Cmp(y.cs[i]) != 0 {
				same = false
			}
			if new(big.Int).Add(x.cs[i], y.cs[i]).Sign() != 0 {
				opp = false
			}
		}
		// x <= 0, or x >= 1 when strict
		switch {
		case same: // x = t + (x.c - y.c)
			d := new(big.Int).Sub(y.c, x.c)
			if strict {
				d.Add(d, bi(1))
				if lo == nil || lo.Cmp(d) < 0 {
					lo = d
				}
			} else if hi == nil || hi.Cmp(d) > 0 {
				hi = d
			}
		case opp: // x = -t + (x.c + y.c)
			d := new(big.Int).Add(y.c, x.c)
			if strict {
				d.Sub(d, bi(1))
				if hi == nil || hi.Cmp(d) > 0 {
					hi = d
				}
			} else if lo == nil || lo.Cmp(d) < 0 {
				lo = d
			}
		}
	}
	return
}

func negLit(c *Term) *Term {
	if c.op == ONot {
		return c.args[0]
	}
	return &Term{op: ONot, args: []*Term{c}}
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

var (
	True  = intern(&Term{op: OBool, sort: SBool, name: "true"})
	False = intern(&Term{op: OBool, sort: SBool, name: "false"})
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func IntB(v *big.Int) *Term { return intern(&Term{op: OInt, sort: SInt, val: v}) }
func IntT(v int64) *Term    { return IntB(big.NewInt(v)) }
func StrT(s string) *Term   { return intern(&Term{op: OStr, sort: SStr, name: s}) }

var Zero = IntT(0)
var One = IntT(1)

// NewSym creates a fresh free constant.
func NewSym(hint string, s *Sort, lo, hi *big.Int) *Term {
	TT.nsym++
	t := &Term{op: OVar, sort: s, name: fmt.Sprintf("%s!%d", clean(hint), TT.nsym)}
	t.maxSym = TT.nsym
	if s.Kind == 'A' {
		t.llo, t.lhi = lo, hi
	} else {
		t.lo, t.hi = lo, hi
	}
	return intern(t)
}

// NamedSym is a constant with a fixed name (same term each time).
func NamedSym(name string, s *Sort, lo, hi *big.Int) *Term {
	t := &Term{op: OVar, sort: s, name: clean(name)}
	if s.Kind == 'A' {
		t.llo, t.lhi = lo, hi
	} else {
		t.lo, t.hi = lo, hi
	}
	return intern(t)
}

func clean(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r == '|' || r == '\\' || r == '"' || r > 126 || r < 33 {
			sb.WriteByte('_')
		} else {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

var nbound int

func NewBound(s *Sort, lo, hi *big.Int) *Term {
	nbound++
	t := &Term{op: OBound, sort: s, name: fmt.Sprintf("b!%d", nbound), lo: lo, hi: hi}
	if s.Kind == 'A' {
		t.lo, t.hi, t.llo, t.lhi = nil, nil, lo, hi
	}
	t = intern(t)
	t.bounds = []*Term{t}
	return t
}

type ufInfo struct {
	name string
	dom  []*Sort
	rng  *Sort
	lo   *big.Int
	hi   *big.Int
}

var ufTab = map[string]*ufInfo{}

func UF(name string, s *Sort, lo, hi *big.Int, args ...*Term) *Term {
	// overload by argument sorts
	full := clean(name)
	for _, a := range args {
		full += "." + sortTag(a.sort)
	}
	full += ">" + sortTag(s)
	if _, ok := ufTab[full]; !ok {
		d := make([]*Sort, len(args))
		for i, a := range args {
			d[i] = a.sort
		}
		ufTab[full] = &ufInfo{full, d, s, lo, hi}
	}
	u := ufTab[full]
	t := &Term{op: OUF, sort: s, name: full, args: append([]*Term(nil), args...)}
	if s.Kind == 'A' {
		t.llo, t.lhi = u.lo, u.hi
	} else if s == SInt {
		t.lo, t.hi = u.lo, u.hi
	}
	return intern(t)
}

func sortTag(s *Sort) string {
	if s.Kind == 'A' {
		return "A" + sortTag(s.Key) + sortTag(s.Elem)
	}
	return string(s.Kind)
}

// ---------- boolean ----------

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == ONot:
		return a.args[0]
	case a.op == OLe:
		// not (x <= 0)  ==> x >= 1 ==> 1 - x <= 0
		return Le0(Sub(One, a.args[0]))
	}
	return intern(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func And(xs ...*Term) *Term { return nary(OAnd, xs) }
func Or(xs ...*Term) *Term  { return nary(OOr, xs) }

func nary(op Op, xs []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	set := map[int]*Term{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if _, ok := set[x.id]; ok {
			return true
		}
		if n := Not(x); true {
			if _, ok := set[n.id]; ok {
				return false
			}
		}
		set[x.id] = x
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: for And: (a or b) with a in set -> drop; (not a or b) with a in set -> b
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	for i, x := range out {
		if x.op == dual && len(x.args) <= 6 {
			var keep []*Term
			drop := false
			for _, a := range x.args {
				if _, ok := set[a.id]; ok {
					drop = true
					break
				}
				if _, ok := set[Not(a).id]; ok {
					continue
				}
				keep = append(keep, a)
			}
			if drop {
				out[i] = unit
				changed = true
			} else if len(keep) != len(x.args) {
				if dual == OOr {
					out[i] = Or(keep...)
				} else {
					out[i] = And(keep...)
				}
				changed = true
			}
		}
		// the same for the dual written as a negation: a and not (a and b) -> a and not b
		if x.op == ONot && x.args[0].op == op && len(x.args[0].args) <= 6 {
			y := x.args[0]
			var keep []*Term
			drop := false
			for _, a := range y.args {
				if _, ok := set[Not(a).id]; ok {
					drop = true
					break
				}
				if _, ok := set[a.id]; ok {
					continue
				}
				keep = append(keep, a)
			}
			if drop {
				out[i] = unit
				changed = true
			} else if len(keep) != len(y.args) {
				out[i] = Not(nary(op, keep))
				changed = true
			}
		}
	}
	if changed {
		return nary(op, out)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{op: op, sort: SBool, args: out})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s: %s / %s", a.sort.name, b.sort.name, a, b))
	}
	if a.sort == SBool {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	// ite of stores to the same array/key
	if a.sort.Kind == 'A' {
		if a.op == OStore && b.op == OStore && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
			return Store(a.args[0], a.args[1], Ite(c, a.args[2], b.args[2]))
		}
		if a.op == OStore && a.args[0] == b {
			return Store(b, a.args[1], Ite(c, a.args[2], Select(b, a.args[1])))
		}
		if b.op == OStore && b.args[0] == a {
			return Store(a, b.args[1], Ite(c, Select(a, b.args[1]), b.args[2]))
		}
	}
	t := &Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}}
	if a.sort.Kind == 'A' {
		t.llo, t.lhi = bmin(a.llo, b.llo), bmax(a.lhi, b.lhi)
	}
	return intern(t)
}

func disjoint(a, b *Term) bool {
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return true
	}
	if b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
		return true
	}
	return false
}

func isLit(t *Term) bool { return t.op == OInt || t.op == OStr || t.op == OBool }

// iteLits: ite tree whose leaves are all literals (bounded size)
func iteLits(t *Term, n int) int {
	if isLit(t) {
		return 1
	}
	if t.op == OIte && n > 0 {
		l := iteLits(t.args[1], n-1)
		if l == 0 {
			return 0
		}
		r := iteLits(t.args[2], n-1)
		if r == 0 {
			return 0
		}
		return l + r
	}
	return 0
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch: %s : %s  vs %s : %s", a, a.sort.name, b, b.sort.name))
	}
	if isLit(a) && isLit(b) {
		if a.sort == SBool {
			return False
		}
		return False // distinct interned literals
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	}
	if a.sort == SInt {
		if disjoint(a, b) {
			return False
		}
		if a.op == OAdd || b.op == OAdd {
			d := Sub(a, b)
			if d.op == OInt {
				return BoolT(d.val.Sign() == 0)
			}
			if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
				return False
			}
		}
		if a.op == OUF && b.op == OUF && a.name == b.name && (strings.HasPrefix(a.name, "box:") || strings.HasPrefix(a.name, "iptr:")) {
			cs := []*Term{}
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	}
	if a.op == OIte && (isLit(b) || b.op == OVar) && (a.args[1] == b || a.args[2] == b || iteLits(a, 6) > 0) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == OIte && (isLit(a) || a.op == OVar) && (b.args[1] == a || b.args[2] == a || iteLits(b, 6) > 0) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
	}
	if a.sort == SInt && (a.op == OIte || b.op == OIte) {
		// decide branches by intervals
		x, y := a, b
		if x.op != OIte {
			x, y = y, x
		}
		if disjoint(x.args[1], y) {
			return And(Not(x.args[0]), Eq(x.args[2], y))
		}
		if disjoint(x.args[2], y) {
			return And(x.args[0], Eq(x.args[1], y))
		}
	}
	if a.sort == SStr {
		if (a.op == OStr && a.name == "") || (b.op == OStr && b.name == "") {
			x := a
			if a.op == OStr {
				x = b
			}
			return Eq(StrLen(x), Zero)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------- arithmetic ----------

type lin struct {
	c  *big.Int
	ts []*Term
	cs []*big.Int
}

func toLin(t *Term) lin {
	switch t.op {
	case OInt:
		return lin{c: t.val}
	case OAdd:
		return lin{t.val, t.args, t.coefs}
	}
	return lin{bi(0), []*Term{t}, []*big.Int{bi(1)}}
}

func linComb(a *Term, ka *big.Int, b *Term, kb *big.Int) *Term {
	la, lb := toLin(a), toLin(b)
	m := map[int]*big.Int{}
	ts := map[int]*Term{}
	c := new(big.Int)
	acc := func(l lin, k *big.Int) {
		c.Add(c, new(big.Int).Mul(l.c, k))
		for i, t := range l.ts {
			if m[t.id] == nil {
				m[t.id] = new(big.Int)
				ts[t.id] = t
			}
			m[t.id].Add(m[t.id], new(big.Int).Mul(l.cs[i], k))
		}
	}
	acc(la, ka)
	acc(lb, kb)
	return fromMap(m, ts, c)
}

func fromMap(m map[int]*big.Int, ts map[int]*Term, c *big.Int) *Term {
	var ids []int
	for id, v := range m {
		if v.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return IntB(c)
	}
	sort.Ints(ids)
	if len(ids) == 1 && c.Sign() == 0 && m[ids[0]].Cmp(bi(1)) == 0 {
		return ts[ids[0]]
	}
	t := &Term{op: OAdd, sort: SInt, val: c}
	for _, id := range ids {
		t.args = append(t.args, ts[id])
		t.coefs = append(t.coefs, m[id])
	}
	return intern(t)
}

func Add(a, b *Term) *Term { return linComb(a, bi(1), b, bi(1)) }
func Sub(a, b *Term) *Term { return linComb(a, bi(1), b, bi(-1)) }
func Neg(a *Term) *Term    { return linComb(a, bi(-1), Zero, bi(0)) }
func Mul(a, b *Term) *Term {
	if a.op == OInt {
		return linComb(b, a.val, Zero, bi(0))
	}
	if b.op == OInt {
		return linComb(a, b.val, Zero, bi(0))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

// exactDiv: a/b when every coefficient of a is a multiple of the literal b.
func exactDiv(a, b *Term) *Term {
	if b.op != OInt || b.val.Sign() <= 0 || a.op != OInt && a.op != OAdd {
		return nil
	}
	l := toLin(a)
	d := func(x *big.Int) *big.Int {
		q, r := new(big.Int).QuoRem(x, b.val, new(big.Int))
		if r.Sign() != 0 {
			return nil
		}
		return q
	}
	c := d(l.c)
	if c == nil {
		return nil
	}
	m := map[int]*big.Int{}
	ts := map[int]*Term{}
	for i, t := range l.ts {
		q := d(l.cs[i])
		if q == nil {
			return nil
		}
		m[t.id], ts[t.id] = q, t
	}
	return fromMap(m, ts, c)
}
func DivE(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.val.Sign() > 0 {
		return IntB(floorDiv(a.val, b.val))
	}
	if b == One {
		return a
	}
	if q := exactDiv(a, b); q != nil {
		return q
	}
	return intern(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}
func ModE(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.val.Sign() > 0 {
		return IntB(new(big.Int).Mod(a.val, b.val))
	}
	if b.op == OInt && b.val.Sign() > 0 && a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.val) < 0 {
		return a
	}
	if exactDiv(a, b) != nil {
		return Zero
	}
	return intern(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

// DivT, ModT: Go's truncated division.
func DivT(a, b *Term) *Term {
	if q := exactDiv(a, b); q != nil {
		return q
	}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		return DivE(a, b)
	}
	q := DivE(absT(a), absT(b))
	neg := Not(Eq(lt0(a), lt0(b)))
	return Ite(neg, Neg(q), q)
}
func ModT(a, b *Term) *Term {
	if exactDiv(a, b) != nil {
		return Zero
	}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		return ModE(a, b)
	}
	m := ModE(absT(a), absT(b))
	return Ite(lt0(a), Neg(m), m)
}
func absT(a *Term) *Term {
	if a.lo != nil && a.lo.Sign() >= 0 {
		return a
	}
	return Ite(lt0(a), Neg(a), a)
}
func lt0(a *Term) *Term { return Lt(a, Zero) }

// Le0: t <= 0
func Le0(t *Term) *Term {
	if t.op == OInt {
		return BoolT(t.val.Sign() <= 0)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return True
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return False
	}
	if t.op == OIte && (iteLits(t, 6) > 0) {
		return Ite(t.args[0], Le0(t.args[1]), Le0(t.args[2]))
	}
	return intern(&Term{op: OLe, sort: SBool, args: []*Term{t}})
}
func Le(a, b *Term) *Term {
	if a.op == OIte && (isLit(b)) && iteLits(a, 6) > 0 {
		return Ite(a.args[0], Le(a.args[1], b), Le(a.args[2], b))
	}
	if b.op == OIte && (isLit(a)) && iteLits(b, 6) > 0 {
		return Ite(b.args[0], Le(a, b.args[1]), Le(a, b.args[2]))
	}
	return Le0(Sub(a, b))
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// Wrap reduces t to the machine range [lo,hi].
func Wrap(t *Term, bits uint, signed bool) *Term {
	lo, hi := intRange(bits, signed)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Lsh(bi(1), bits)
	var w *Term
	if signed {
		half := new(big.Int).Lsh(bi(1), bits-1)
		w = Sub(ModE(Add(t, IntB(half)), IntB(m)), IntB(half))
	} else {
		w = ModE(t, IntB(m))
	}
	if t.op == OInt {
		return w
	}
	in := And(Le(IntB(lo), t), Le(t, IntB(hi)))
	r := Ite(in, t, w)
	if r.op == OIte {
		// tighten bounds
		r.lo, r.hi = lo, hi
	}
	return r
}

func intRange(bits uint, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := new(big.Int).Lsh(bi(1), bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bi(1))
	}
	return bi(0), new(big.Int).Sub(new(big.Int).Lsh(bi(1), bits), bi(1))
}

// ---------- arrays ----------

func ConstArr(key *Sort, v *Term) *Term {
	t := &Term{op: OConstArr, sort: ArrSort(key, v.sort), args: []*Term{v}}
	if v.sort.Kind == 'A' {
		t.llo, t.lhi = v.llo, v.lhi
	} else {
		t.llo, t.lhi = v.lo, v.hi
	}
	return intern(t)
}

func keyDistinct(a, b *Term) bool { return Eq(a, b) == False }

type selKey struct{ a, i *Term }

// selMemo: arrays are shared heavily, reading them must not walk every path through them.
var selMemo = map[selKey]*Term{}

func Select(a, i *Term) *Term {
	for {
		if a.op == OStore {
			e := Eq(a.args[1], i)
			if e == True {
				return a.args[2]
			}
			if e == False {
				a = a.args[0]
				continue
			}
		}
		if a.op == OVar && a.parent != nil && i.hi != nil && i.hi.Cmp(a.parentB) <= 0 {
			a = a.parent
			continue
		}
		break
	}
	switch a.op {
	case OConstArr:
		return a.args[0]
	case OIte, OStore:
		k := selKey{a, i}
		if r, ok := selMemo[k]; ok {
			return r
		}
		var r *Term
		if a.op == OIte {
			r = Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		} else {
			// unresolved: ite unless quantified result array
			r = Ite(Eq(a.args[1], i), a.args[2], Select(a.args[0], i))
		}
		selMemo[k] = r
		return r
	}
	if i.op == OIte && a.op == OVar {
		// keep; splitting keys can blow up, but helps resolution for literals
		if iteLits(i, 4) > 0 {
			return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
		}
	}
	t := &Term{op: OSelect, sort: a.sort.Elem, args: []*Term{a, i}}
	if t.sort.Kind == 'A' {
		t.llo, t.lhi = a.llo, a.lhi
	}
	return intern(t)
}

func Store(a, i, v *Term) *Term {
	if v.sort != a.sort.Elem {
		panic("store sort mismatch: " + a.sort.name + " <- " + v.sort.name + " " + v.String())
	}
	if a.op == OStore && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	t := &Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}}
	if v.sort.Kind == 'A' {
		t.llo, t.lhi = bmin(a.llo, v.llo), bmax(a.lhi, v.lhi)
	} else {
		t.llo, t.lhi = bmin(a.llo, v.lo), bmax(a.lhi, v.hi)
	}
	return intern(t)
}

// ---------- quantifiers ----------

func Forall(vs []*Term, body *Term, pats ...*Term) *Term { return quant(OForall, vs, body, pats) }
func Exists(vs []*Term, body *Term) *Term                { return quant(OExists, vs, body, nil) }

func quant(op Op, vs []*Term, body *Term, pats []*Term) *Term {
	var used []*Term
	for _, v := range vs {
		for _, b := range body.bounds {
			if b == v {
				used = append(used, v)
				break
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	if op == OForall && body.op == OAnd {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, quant(op, used, a, nil))
		}
		return And(cs...)
	}
	if op == OExists && body.op == OOr {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, quant(op, used, a, nil))
		}
		return Or(cs...)
	}
	return intern(&Term{op: op, sort: SBool, args: []*Term{body}, bvars: used, pats: pats})
}

// ---------- strings ----------

func StrLen(s *Term) *Term {
	switch s.op {
	case OStr:
		return IntT(int64(len(s.name)))
	case OStrCat:
		r := Zero
		for _, a := range s.args {
			r = Add(r, StrLen(a))
		}
		return r
	case OIte:
		if s.args[1].op == OStr || s.args[2].op == OStr {
			return Ite(s.args[0], StrLen(s.args[1]), StrLen(s.args[2]))
		}
	}
	return intern(&Term{op: OStrLen, sort: SInt, args: []*Term{s}})
}

func StrCat(a, b *Term) *Term {
	var xs []*Term
	add := func(t *Term) {
		if t.op == OStr && t.name == "" {
			return
		}
		if len(xs) > 0 && t.op == OStr && xs[len(xs)-1].op == OStr {
			xs[len(xs)-1] = StrT(xs[len(xs)-1].name + t.name)
			return
		}
		xs = append(xs, t)
	}
	for _, t := range []*Term{a, b} {
		if t.op == OStrCat {
			for _, x := range t.args {
				add(x)
			}
		} else {
			add(t)
		}
	}
	if len(xs) == 0 {
		return StrT("")
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return intern(&Term{op: OStrCat, sort: SStr, args: xs})
}

// StrSub: s[off:off+n] (assumed in range by the caller's obligation)
func StrSub(s, off, n *Term) *Term {
	if off == Zero && n == StrLen(s) {
		return s
	}
	if n == Zero {
		return StrT("")
	}
	if s.op == OStr && off.op == OInt && n.op == OInt {
		o, l := off.val.Int64(), n.val.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.name)) {
			return StrT(s.name[o : o+l])
		}
	}
	if s.op == OIte && (s.args[1].op == OStrCat || s.args[2].op == OStrCat) {
		return Ite(s.args[0], StrSub(s.args[1], off, n), StrSub(s.args[2], off, n))
	}
	if s.op == OStrCat && s.args[0].op == OStr && off.op == OInt {
		l := int64(len(s.args[0].name))
		o := off.val.Int64()
		rest := s.args[1]
		for _, x := range s.args[2:] {
			rest = StrCat(rest, x)
		}
		if o == l && n == StrLen(rest) {
			return rest
		}
	}
	return intern(&Term{op: OStrSub, sort: SStr, args: []*Term{s, off, n}})
}

func StrIdx(s, t *Term) *Term {
	if s.op == OStr && t.op == OStr {
		return IntT(int64(strings.Index(s.name, t.name)))
	}
	return intern(&Term{op: OStrIdx, sort: SInt, args: []*Term{s, t}})
}
func StrPrefix(p, s *Term) *Term {
	if s.op == OStr && p.op == OStr {
		return BoolT(strings.HasPrefix(s.name, p.name))
	}
	if p.op == OStr && p.name == "" {
		return True
	}
	if s.op == OIte && p.op == OStr {
		return Ite(s.args[0], StrPrefix(p, s.args[1]), StrPrefix(p, s.args[2]))
	}
	if s.op == OStrCat && p.op == OStr && s.args[0].op == OStr {
		l := s.args[0].name
		if len(l) >= len(p.name) {
			return BoolT(strings.HasPrefix(l, p.name))
		}
		if !strings.HasPrefix(p.name, l) {
			return False
		}
	}
	return intern(&Term{op: OStrPre, sort: SBool, args: []*Term{p, s}})
}
func StrSuffix(p, s *Term) *Term {
	if s.op == OStr && p.op == OStr {
		return BoolT(strings.HasSuffix(s.name, p.name))
	}
	if p.op == OStr && p.name == "" {
		return True
	}
	return intern(&Term{op: OStrSuf, sort: SBool, args: []*Term{p, s}})
}
func StrAt(s, i *Term) *Term {
	if s.op == OStr && i.op == OInt && i.val.Sign() >= 0 && i.val.Int64() < int64(len(s.name)) {
		return IntT(int64(s.name[i.val.Int64()]))
	}
	if s.op == OIte {
		return Ite(s.args[0], StrAt(s.args[1], i), StrAt(s.args[2], i))
	}
	if s.op == OStrCat && s.args[0].op == OStr && i.op == OInt && i.val.Sign() >= 0 && i.val.Int64() < int64(len(s.args[0].name)) {
		return IntT(int64(s.args[0].name[i.val.Int64()]))
	}
	return intern(&Term{op: OStrAt, sort: SInt, args: []*Term{s, i}})
}
func StrLess(a, b *Term) *Term {
	if a.op == OStr && b.op == OStr {
		return BoolT(a.name < b.name)
	}
	if a == b {
		return False
	}
	return intern(&Term{op: OStrLt, sort: SBool, args: []*Term{a, b}})
}

// ---------- substitution ----------

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		r := Ite(a[0], a[1], a[2])
		if r.op == OIte && r.sort == SInt && t.lo != nil {
			if r.lo == nil {
				r.lo = t.lo
			}
			if r.hi == nil {
				r.hi = t.hi
			}
		}
		return r
	case OEq:
		return Eq(a[0], a[1])
	case OLe:
		return Le0(a[0])
	case OAdd:
		r := IntB(t.val)
		for i := range a {
			r = linComb(r, bi(1), a[i], t.coefs[i])
		}
		return r
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return DivE(a[0], a[1])
	case OMod:
		return ModE(a[0], a[1])
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OConstArr:
		return ConstArr(t.sort.Key, a[0])
	case OForall, OExists:
		return quant(t.op, t.bvars, a[0], nil)
	case OStrLen:
		return StrLen(a[0])
	case OStrCat:
		r := a[0]
		for _, x := range a[1:] {
			r = StrCat(r, x)
		}
		return r
	case OStrSub:
		return StrSub(a[0], a[1], a[2])
	case OStrIdx:
		return StrIdx(a[0], a[1])
	case OStrPre:
		return StrPrefix(a[0], a[1])
	case OStrSuf:
		return StrSuffix(a[0], a[1])
	case OStrAt:
		return StrAt(a[0], a[1])
	case OStrLt:
		return StrLess(a[0], a[1])
	case OUF:
		n := &Term{op: OUF, sort: t.sort, name: t.name, args: a}
		u := ufTab[t.name]
		if u != nil {
			if t.sort.Kind == 'A' {
				n.llo, n.lhi = u.lo, u.hi
			} else if t.sort == SInt {
				n.lo, n.hi = u.lo, u.hi
			}
		}
		return intern(n)
	}
	panic("rebuild")
}

// ---------- printing (debug) ----------

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OBool, OVar, OBound:
		return t.name
	case OInt:
		return t.val.String()
	case OStr:
		return strconv.Quote(t.name)
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var sb strings.Builder
	names := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OLe: "<=0", OAdd: "+", OMul: "*", ODiv: "div", OMod: "mod", OSelect: "select", OStore: "store", OConstArr: "K", OForall: "forall", OExists: "exists", OStrLen: "len", OStrCat: "++", OStrSub: "substr", OStrIdx: "indexof", OStrPre: "prefix", OStrSuf: "suffix", OStrAt: "at", OStrLt: "str<"}
	n := names[t.op]
	if t.op == OUF {
		n = t.name
	}
	sb.WriteString("(" + n)
	for _, v := range t.bvars {
		sb.WriteString(" " + v.name)
	}
	if t.op == OAdd && t.val.Sign() != 0 {
		sb.WriteString(" " + t.val.String())
	}
	for i, a := range t.args {
		sb.WriteString(" ")
		if t.coefs != nil && t.coefs[i].Cmp(bi(1)) != 0 {
			sb.WriteString(t.coefs[i].String() + "*")
		}
		sb.WriteString(a.str(d - 1))
	}
	sb.WriteString(")")
	return sb.String()
}
