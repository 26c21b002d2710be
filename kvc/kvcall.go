package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type foldInfo struct {
	id    int
	init  []*Term
	step  []*Term
	accs  []*Term
	idx   *Term
	leafs []Leaf
	pars  []*Term
}

// specFrame: nearest contract frame.
func (e *Eng) specFrame() *Frame {
	for i := len(e.stack) - 1; i >= 0; i-- {
		f := e.stack[i]
		if f.target != nil || f.mode == 'm' {
			return f
		}
	}
	return nil
}

func (e *Eng) specMode() byte {
	if f := e.specFrame(); f != nil {
		return f.mode
	}
	return 'v'
}

func tagsOf(name string) []string {
	i := strings.IndexByte(name, ':')
	if i < 0 {
		return nil
	}
	var out []string
	for _, p := range strings.Split(name[:i], ",") {
		if len(p) == 3 && p[0] == 'C' {
			out = append(out, p)
		}
	}
	return out
}

func litStr(t *Term) string {
	if t.op == OStr {
		return t.name
	}
	panic(unsupported("spec name must be a string literal"))
}

func hasQuant(t *Term, memo map[*Term]bool) bool {
	if t.op == OForall || t.op == OExists {
		return true
	}
	if memo[t] {
		return false
	}
	memo[t] = true
	for _, a := range t.args {
		if hasQuant(a, memo) {
			return true
		}
	}
	return false
}

// assume adds c to the path; false when contradictory.
func (e *Eng) assume(st *State, c *Term, why string) bool {
	c = simpUnder(st.guard, c)
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	if c.op == OAnd {
		for _, a := range c.args {
			if !e.assume(st, a, why) {
				return false
			}
		}
		return true
	}
	if hasQuant(c, map[*Term]bool{}) || len(c.bounds) > 0 || c.op == OOr && len(c.args) > 6 {
		e.learn(st, c, why)
		return true
	}
	var dead bool
	st.guard, dead = st.guard.add(c)
	return !dead
}

func (e *Eng) quantEval(st *State, fr *Frame, f Val, bs []Val, pos token.Pos) *Term {
	s := st.clone()
	n0 := TT.nsym
	m := e.mark()
	_ = m
	e.noObl++
	e.quant++
	sig := f.T.Underlying().(*types.Signature)
	rs, ok := e.callVal(s, fr, f, sig, bs, pos)
	e.quant--
	e.noObl--
	if !ok {
		panic(unsupported("quantifier body does not return"))
	}
	r := rs[0].L[0]
	out := map[*Term]bool{}
	symsIn(r, n0, map[*Term]bool{}, out)
	if len(out) > 0 {
		var ns []string
		for t := range out {
			ns = append(ns, t.name)
		}
		panic(unsupported("quantifier body introduces unknowns: " + strings.Join(ns, " ")))
	}
	return r
}

func (e *Eng) boundVal(t types.Type) (Val, []*Term) {
	v := Val{T: t}
	for _, l := range flatten(t) {
		lo, hi := leafBounds(l, e.epoch())
		b := NewBound(l.Sort, lo, hi)
		v.L = append(v.L, b)
	}
	return v, v.L
}

// contract, eqDeep: equality used by specifications.
func (e *Eng) eqSpec(st *State, a, b Val) *Term {
	a, b = resolveVal(st.guard, a), resolveVal(st.guard, b)
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		return And(Iff(Eq(a.L[0], Zero), Eq(b.L[0], Zero)), e.seqEq(st, a, b))
	}
	if _, ok := a.T.Underlying().(*types.Interface); ok {
		return eqVal(a, b)
	}
	return eqLeaves(a, b)
}

func (e *Eng) seqEq(st *State, a, b Val) *Term {
	et := a.T.Underlying().(*types.Slice).Elem()
	if bt, ok := et.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
		return Eq(e.strOf(st, a), e.strOf(st, b))
	}
	if eqLeaves(a, b) == True {
		return True
	}
	cs := []*Term{Eq(a.L[2], b.L[2])}
	i := NewBound(SInt, bi(0), maxLen)
	in := And(rawLe(Zero, i), Lt(i, a.L[2]))
	for j := range flatten(et) {
		x, y := e.arrOf(st, et, j, a.L[0]), e.arrOf(st, et, j, b.L[0])
		if x == y && a.L[1] == b.L[1] {
			continue
		}
		cs = append(cs, Forall([]*Term{i}, Implies(in, Eq(Select(x, Add(a.L[1], i)), Select(y, Add(b.L[1], i))))))
	}
	return And(cs...)
}

func rawLe(a, b *Term) *Term { return Le(a, b) }

func (e *Eng) mapEq(st *State, a, b Val) *Term {
	m := mapOf(a.T)
	ra, rb := resolve(st.guard, a.L[0]), resolve(st.guard, b.L[0])
	if ra == rb {
		return True
	}
	k := NewBound(m.ks, nil, nil)
	if len(m.kl) == 1 {
		lo, hi := leafBounds(m.kl[0], e.epoch())
		k = NewBound(m.ks, lo, hi)
	}
	ha, hb := e.hasKey(st, m, ra, k), e.hasKey(st, m, rb, k)
	cs := []*Term{Iff(ha, hb)}
	for i := range m.vl {
		cs = append(cs, Implies(ha, Eq(Select(e.mapValRaw(st, m, ra, i), k), Select(e.mapValRaw(st, m, rb, i), k))))
	}
	return Forall([]*Term{k}, And(cs...))
}

func (e *Eng) anyArg(st *State, v Val) Val {
	t := typeOfIface(st, v)
	if t == nil {
		tag := resolve(st.guard, v.L[0])
		if tag == Zero {
			return zeroVal(v.T)
		}
		panic(unsupported("spec argument with unknown dynamic type"))
	}
	return unbox(resolve(st.guard, v.L[1]), t)
}

// anyIface: an interface argument given to an `any` parameter keeps its own type; leaves otherwise.
func (e *Eng) ufArgs(st *State, v Val) []*Term {
	var out []*Term
	es, ok := e.sliceElems(st, v)
	if !ok {
		panic(unsupported("kv.UF with unknown number of arguments"))
	}
	for _, x := range es {
		x = resolveVal(st.guard, x)
		if x.L[0].op == OInt && x.L[0] != Zero {
			a := unbox(x.L[1], typeByID[x.L[0].val.Int64()])
			if _, ok := a.T.Underlying().(*types.Map); ok {
				// maps by content
				m := mapOf(a.T)
				ref := resolve(st.guard, a.L[0])
				out = append(out, e.mapHasRaw(st, m, ref))
				for i := range m.vl {
					out = append(out, e.mapValRaw(st, m, ref, i))
				}
				continue
			}
			if sl, ok := a.T.Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					out = append(out, e.strOf(st, a))
					continue
				}
			}
			out = append(out, a.L...)
		} else {
			out = append(out, x.L[0], x.L[1])
		}
	}
	return out
}

var ufFold = map[string]func(args []*Term) *Term{}

func kvArg(fn *ssa.Function) types.Type {
	ta := fn.TypeArgs()
	if len(ta) == 0 {
		return nil
	}
	return ta[0]
}

func (e *Eng) ufVal(name string, t types.Type, args []*Term) Val {
	v := Val{T: t}
	ls := flatten(t)
	for i, l := range ls {
		n := "uf:" + name
		if len(ls) > 1 {
			n = fmt.Sprintf("%s#%d", n, i)
		}
		if f := ufFold[name]; f != nil && len(ls) == 1 {
			if r := f(args); r != nil {
				v.L = append(v.L, r)
				continue
			}
		}
		lo, hi := leafBounds(l, bi(0))
		x := liftUF(n, l.Sort, lo, hi, args, ufFold[name])
		v.L = append(v.L, x)
	}
	e.wfRange(t, v.L)
	return v
}

// liftUF distributes over ite arguments whose branches are literals.
func liftUF(n string, s *Sort, lo, hi *big.Int, args []*Term, fold func([]*Term) *Term) *Term {
	if fold != nil {
		for i, a := range args {
			if a.op == OIte && (iteLits(a, 6) > 0 || a.args[1].op == OStr || a.args[2].op == OStr) {
				x := append([]*Term(nil), args...)
				y := append([]*Term(nil), args...)
				x[i], y[i] = a.args[1], a.args[2]
				return Ite(a.args[0], liftUF(n, s, lo, hi, x, fold), liftUF(n, s, lo, hi, y, fold))
			}
		}
		if r := fold(args); r != nil {
			return r
		}
	}
	return UF(n, s, lo, hi, args...)
}

func (e *Eng) kvCall(st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos) ([]Val, bool) {
	name := origin(fn).Name()
	if name == "init" {
		return nil, true
	}
	boolT := types.Typ[types.Bool]
	intT := types.Typ[types.Int]
	b1 := func(t *Term) ([]Val, bool) { return []Val{scalar(boolT, t)}, true }
	i1 := func(t *Term) ([]Val, bool) { return []Val{scalar(intT, t)}, true }
	var rt types.Type
	if fn.Signature.Results().Len() > 0 {
		rt = fn.Signature.Results().At(0).Type()
	}
	for i := range args {
		args[i] = resolveVal(st.guard, args[i])
	}
	mode := e.specMode()
	switch name {
	case "Requires":
		if mode == 'v' {
			return nil, e.assume(st, args[0].L[0], "requires")
		}
		who := ""
		if f := e.specFrame(); f != nil {
			who = f.fn.Name()
			if f.target != nil {
				who = fnKey(f.target)
			}
		}
		e.oblige(st, "requires", "precondition of "+who+" at call", nil, args[0].L[0], pos)
		return nil, e.assume(st, args[0].L[0], "requires")
	case "Choose":
		n := args[0].L[0]
		if n.op != OInt || mode != 'v' {
			panic(unsupported("kv.Choose"))
		}
		return i1(IntT(int64(e.choose(int(n.val.Int64())))))
	case "Assume":
		if mode == 'v' {
			e.trust("assumption at " + e.posStr(pos))
		}
		return nil, e.assume(st, args[0].L[0], "assume")
	case "Ensures":
		if mode == 'v' {
			n := litStr(args[0].L[0])
			e.oblige(st, "ensures", n, tagsOf(n), args[1].L[0], pos)
			return nil, true
		}
		return nil, e.assume(st, args[1].L[0], "ensures")
	case "Assert":
		n := litStr(args[0].L[0])
		e.oblige(st, "assert", n, tagsOf(n), args[1].L[0], pos)
		return nil, true
	case "Cover":
		if mode == 'v' && e.noObl == 0 {
			n := litStr(args[0].L[0])
			e.obls = append(e.obls, &Oblig{Name: n, Props: tagsOf(n), Kind: "cover", Guard: st.guard.term(), Goal: False, NFacts: len(e.facts), Pos: e.posStr(pos), Unit: e.unit.Name})
		}
		return nil, true
	case "Unreachable":
		n := litStr(args[0].L[0])
		e.oblige(st, "ensures", n, tagsOf(n), False, pos)
		return nil, false
	case "Stop":
		return nil, false
	case "Is":
		if mode == 'v' {
			n := litStr(args[0].L[0])
			e.oblige(st, "ensures", n, tagsOf(n), e.eqSpec(st, args[1], args[2]), pos)
			return []Val{args[1]}, true
		}
		return []Val{args[2]}, true
	case "New", "NewIf":
		x := args[1]
		c := True
		if name == "NewIf" {
			t := x.T.Underlying().(*types.Pointer).Elem()
			if c = args[2].L[0]; mode == 'v' {
				x = e.load(st, x.L[0], t)
			} else {
				x = Val{T: t, L: []*Term{Zero}}
			}
		}
		if len(x.L) != 1 || !pointerLike(x.T) {
			panic(unsupported("kv.New of " + x.T.String()))
		}
		if mode == 'v' {
			n := litStr(args[0].L[0])
			g := Gt(x.L[0], IntB(e.unitRef))
			if name == "NewIf" {
				g = Ite(c, g, Eq(x.L[0], Zero))
			}
			e.oblige(st, "ensures", n, tagsOf(n), g, pos)
			if name == "New" {
				return []Val{x}, true
			}
			return nil, true
		}
		v := Val{T: x.T, L: []*Term{e.allocRef()}}
		switch x.T.Underlying().(type) {
		case *types.Pointer, *types.Map:
			e.havocEntries(st, e.modEntries(st, box(v, x.T)))
		}
		if name == "New" {
			return []Val{v}, true
		}
		e.store(st, args[1].L[0], Val{T: x.T, L: []*Term{Ite(c, v.L[0], Zero)}})
		return nil, true
	case "Implies":
		return b1(Implies(args[0].L[0], args[1].L[0]))
	case "Iff":
		return b1(Iff(args[0].L[0], args[1].L[0]))
	case "Ite":
		return []Val{conv(iteVal(args[0].L[0], args[1], args[2]), rt)}, true
	case "Forall", "Exists":
		v, bs := e.boundVal(kvArg(fn))
		body := e.quantEval(st, fr, args[0], []Val{v}, pos)
		if name == "Forall" {
			return b1(Forall(bs, body))
		}
		return b1(Exists(bs, body))
	case "By":
		return b1(Or(Not(UF("kv.trig", SBool, nil, nil, e.ufArgs(st, args[1])...)), args[0].L[0]))
	case "ForallN", "ExistsN":
		n := args[0].L[0]
		if n.op == OInt && n.val.Int64() <= 32 {
			var cs []*Term
			for i := int64(0); i < n.val.Int64(); i++ {
				cs = append(cs, e.quantEval(st, fr, args[1], []Val{scalar(intT, IntT(i))}, pos))
			}
			if name == "ForallN" {
				return b1(And(cs...))
			}
			return b1(Or(cs...))
		}
		b := NewBound(SInt, bi(0), maxLen)
		body := e.quantEval(st, fr, args[1], []Val{scalar(intT, b)}, pos)
		if name == "ForallN" {
			return b1(Forall([]*Term{b}, Implies(Lt(b, n), body)))
		}
		return b1(Exists([]*Term{b}, And(Lt(b, n), body)))
	case "Any":
		return []Val{e.freshVal(st, kvArg(fn), "any", e.gap())}, true
	case "UF":
		n := litStr(args[0].L[0])
		return []Val{e.ufVal(n, kvArg(fn), e.ufArgs(st, args[1]))}, true
	case "MapUF":
		n := litStr(args[0].L[0])
		as := e.ufArgs(st, args[1])
		m := mapOf(rt)
		p := e.allocRef()
		has := UF("ufm:"+n+".has", ArrSort(m.ks, SBool), nil, nil, as...)
		ln := UF("ufm:"+n+".len", SInt, bi(0), maxLen, as...)
		var vals []*Term
		for i, l := range m.vl {
			lo, hi := leafBounds(l, bi(0))
			vals = append(vals, UF(fmt.Sprintf("ufm:%s.val%d", n, i), ArrSort(m.ks, l.Sort), lo, hi, as...))
		}
		e.setMap(st, m, p, has, ln, vals)
		return []Val{scalar(rt, p)}, true
	case "Snap":
		m := mapOf(args[0].T)
		p := e.allocRef()
		ref := args[0].L[0]
		has := e.mapHasRaw(st, m, ref)
		ln := e.lenMap(st, args[0].T, ref)
		var vals []*Term
		for i := range m.vl {
			vals = append(vals, e.mapValRaw(st, m, ref, i))
		}
		e.setMap(st, m, p, has, ln, vals)
		return []Val{scalar(rt, p)}, true
	case "Eq":
		return b1(e.eqSpec(st, args[0], args[1]))
	case "SeqEq":
		return b1(e.seqEq(st, args[0], args[1]))
	case "MapEq":
		return b1(e.mapEq(st, args[0], args[1]))
	case "Ghost":
		t := kvArg(fn)
		if typeOfIface(st, args[0]) == nil {
			// dynamic type unknown: the record is attached to the value itself
			return []Val{scalar(rt, ghostPtr(resolve(st.guard, args[0].L[1]), t))}, true
		}
		x := e.anyArg(st, args[0])
		p := x.L[0]
		if _, ok := x.T.Underlying().(*types.Slice); !ok && !pointerLike(x.T) {
			panic(unsupported("kv.Ghost of " + x.T.String()))
		}
		return []Val{scalar(rt, ghostPtr(p, t))}, true
	case "Field":
		x := e.anyArg(st, args[0])
		stt := deref(x.T)
		s := stt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == litStr(args[1].L[0]) {
				off, _ := fieldOff(s, i)
				return []Val{scalar(rt, fieldAddr(resolve(st.guard, x.L[0]), stt, off))}, true
			}
		}
		panic(unsupported("kv.Field: no such field"))
	case "Fold":
		return e.fold(st, fr, kvArg(fn), args, pos)
	case "Modifies":
		es, ok := e.sliceElems(st, args[0])
		if !ok {
			panic(unsupported("kv.Modifies"))
		}
		f := e.specFrame()
		for _, x := range es {
			ms := e.modEntries(st, x)
			if mode == 'v' && f != nil {
				f.modif = append(f.modif, ms...)
				f.frameCheck = true
			} else {
				e.havocEntries(st, ms)
			}
		}
		if mode == 'v' && f != nil {
			f.frameCheck = true
		}
		return nil, true
	case "ModifiesGhost":
		f := e.specFrame()
		n := "ghost:" + litStr(args[0].L[0])
		e.ghostInt(st, n)
		if mode == 'v' && f != nil {
			f.modif = append(f.modif, modEntry{reg: n})
		} else {
			e.havocEntries(st, []modEntry{{reg: n}})
		}
		return nil, true
	case "Havoc", "HavocMap":
		e.havocEntries(st, e.modEntries(st, args[0]))
		return nil, true
	case "UseMode":
		return b1(BoolT(mode != 'v'))
	case "Spawned":
		return i1(e.ghostInt(st, "ghost:spawned"))
	case "Blocking":
		return i1(e.ghostInt(st, "ghost:blocking"))
	case "RunSpawned":
		return nil, e.runSpawned(st, fr, pos, false)
	case "RunOneSpawned":
		return nil, e.runSpawned(st, fr, pos, true)
	case "Sent":
		x := e.anyArg(st, args[0])
		return i1(e.chGet(st, "sent", x.L[0], SInt, zeroInts))
	case "Received":
		x := e.anyArg(st, args[0])
		return i1(e.chGet(st, "rcvd:"+tkey(chanElem(x.T)), x.L[0], SInt, zeroInts))
	case "Awaited":
		x := e.anyArg(st, args[0])
		return b1(e.chGet(st, "offered", x.L[0], SBool, falses))
	case "SpawnedAwait":
		x := e.anyArg(st, args[0])
		r := False
		for _, s := range st.spawns {
			c := st.clone()
			c.defers = nil
			c.spawns = nil
			var dead bool
			if c.guard, dead = c.guard.add(s.cond); dead {
				continue
			}
			e.noObl++
			ok := e.runSpawn(c, fr, s, pos)
			e.noObl--
			if ok {
				r = Or(r, And(s.cond, e.chGet(c, "offered", x.L[0], SBool, falses)))
			}
		}
		return b1(r)
	case "NeverClosed":
		x := e.anyArg(st, args[0])
		e.chSet(st, "open", x.L[0], True, falses)
		return nil, true
	case "NonNil":
		x := e.anyArg(st, args[0])
		e.chSet(st, "nonnil", x.L[0], True, falses)
		return nil, true
	case "Cap":
		x := e.anyArg(st, args[0])
		return i1(e.chGet(st, "cap", x.L[0], SInt, nil))
	case "SentAt", "ReceivedAt":
		x := e.anyArg(st, args[0])
		et := kvArg(fn)
		v := Val{T: et}
		for i, l := range flatten(et) {
			what := fmt.Sprintf("elems:%s#%d", tkey(et), i)
			if name == "ReceivedAt" {
				what = fmt.Sprintf("got:%s#%d", tkey(et), i)
			}
			_, r := e.chReg(st, what, ArrSort(SInt, l.Sort), ConstArr(SInt, ConstArr(SInt, zeroLeaf(l))))
			v.L = append(v.L, Select(Select(r, x.L[0]), args[1].L[0]))
		}
		return []Val{v}, true
	case "Closed":
		x := e.anyArg(st, args[0])
		return b1(e.chGet(st, "closed:"+tkey(chanElem(x.T)), x.L[0], SBool, falses))
	case "IsNil":
		if args[0].L[0] == Zero {
			return b1(True)
		}
		t := typeOfIface(st, args[0])
		if t == nil {
			return b1(Eq(args[0].L[0], Zero))
		}
		x := unbox(args[0].L[1], t)
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice, *types.Interface:
			return b1(Eq(x.L[0], Zero))
		}
		return b1(False)
	case "Fresh":
		x := e.anyArg(st, args[0])
		ref := e.unitRef
		if f := e.specFrame(); f != nil && f.mode == 'u' {
			ref = f.ref0
			// what the callee put into its new object is unknown
			if e.quant == 0 && len(x.L) == 1 && x.L[0].op != OInt {
				switch x.T.Underlying().(type) {
				case *types.Pointer, *types.Map:
					e.havocEntries(st, e.modEntries(st, args[0]))
				}
			}
		}
		return b1(Gt(x.L[0], IntB(ref)))
	case "Same":
		if typeOfIface(st, args[0]) == nil && typeOfIface(st, args[1]) == nil && resolve(st.guard, args[0].L[0]) != Zero && resolve(st.guard, args[1].L[0]) != Zero {
			// values of unknown types are the same if they are the same object
			return b1(Eq(resolve(st.guard, args[0].L[1]), resolve(st.guard, args[1].L[1])))
		}
		x, y := e.anyArg(st, args[0]), e.anyArg(st, args[1])
		if len(x.L) == 0 || len(y.L) == 0 {
			return b1(BoolT(len(x.L) == len(y.L)))
		}
		return b1(eqLeaves(x, Val{T: x.T, L: y.L}))
	case "MapRemoveIf":
		return nil, e.mapRemoveIf(st, fr, args, pos)
	case "MapSet":
		return nil, e.mapSetSpec(st, fr, args, pos)
	case "SliceOf":
		return e.sliceOf(st, fr, kvArg(fn), args, pos)
	case "Bytes":
		return []Val{scalar(rt, e.strOf(st, args[0]))}, true
	case "OfBytes":
		return []Val{e.bytesOf(st, args[0].L[0], rt)}, true
	case "Dyn":
		return i1(args[0].L[0])
	case "Catch":
		return e.kvCatch(st, fr, args[0], pos)
	case "Held", "Pending":
		x := e.anyArg(st, args[0])
		return i1(e.load(st, x.L[0], deref(x.T)).L[0])
	case "Seen":
		if e.invIter == nil || e.invIter.key == nil && st.regs[e.invIter.reg] == nil {
			return b1(False)
		}
		m := mapOf(e.invIter.mt)
		if !types.Identical(m.mt.Key(), args[0].T) {
			return b1(False)
		}
		return b1(Select(st.regs[e.invIter.reg], m.keyTerm(args[0])))
	case "SetHeld":
		x := e.anyArg(st, args[0])
		e.store(st, x.L[0], scalar(deref(x.T), args[1].L[0]))
		return nil, true
	case "Content":
		x := e.anyArg(st, args[0])
		return []Val{scalar(rt, e.load(st, x.L[0], deref(x.T)).L[0])}, true
	case "SetContent":
		x := e.anyArg(st, args[0])
		e.store(st, x.L[0], scalar(deref(x.T), args[1].L[0]))
		return nil, true
	case "Nanos":
		return []Val{scalar(rt, args[0].L[0])}, true
	case "TimeAt":
		return []Val{scalar(rt, args[0].L[0])}, true
	case "Now":
		return []Val{scalar(rt, e.nowTerm(st))}, true
	case "GhostInt":
		return i1(e.ghostInt(st, "ghost:"+litStr(args[0].L[0])))
	case "SetGhostInt":
		e.setReg(st, "ghost:"+litStr(args[0].L[0]), args[1].L[0], nil)
		if _, ok := e.baseVars["ghost:"+litStr(args[0].L[0])]; !ok {
			e.baseVars["ghost:"+litStr(args[0].L[0])] = Zero
		}
		return nil, true
	case "Result":
		// an unknown value of the given type (contracts of functions returning several values)
		return []Val{e.freshVal(st, kvArg(fn), "res", e.gap())}, true
	case "Implements":
		t := kvArg(fn)
		return b1(e.implementsTag(args[0].L[0], t.Underlying().(*types.Interface), t))
	case "MethodTrue":
	case "Trust":
		e.trust(litStr(args[0].L[0]))
		return nil, true
	case "Prove":
		// lemma step: obligation that is then available
		n := litStr(args[0].L[0])
		e.oblige(st, "assert", n, tagsOf(n), args[1].L[0], pos)
		return nil, true
	case "StrIndex":
		return i1(StrIdx(args[0].L[0], args[1].L[0]))
	case "HasPrefix":
		return b1(StrPrefix(args[1].L[0], args[0].L[0]))
	case "HasSuffix":
		return b1(StrSuffix(args[1].L[0], args[0].L[0]))
	}
	panic(unsupported("kv." + name))
}

func ghostPtr(p *Term, t types.Type) *Term {
	if p.op == OIte {
		return Ite(p.args[0], ghostPtr(p.args[1], t), ghostPtr(p.args[2], t))
	}
	return mkIPtr(&iptr{kind: 'o', root: "G:" + tkey(t), off: 0, rt: t}, p)
}

func (e *Eng) runSpawned(st *State, fr *Frame, pos token.Pos, one bool) bool {
	sp := st.spawns
	st.spawns = nil
	// spawned code is code under verification, but where it can fail depends on what goes on meanwhile
	spec := fr.spec
	fr.spec = false
	e.noSafety++
	defer func() { fr.spec = spec; e.noSafety-- }()
	if one && len(sp) > 0 {
		c := e.choose(len(sp))
		sp = sp[c : c+1]
	}
	for _, s := range sp {
		_, ok := e.splitRun(st, s.cond, func(x *State) ([]Val, bool) {
			return nil, e.runSpawn(x, fr, s, pos)
		}, func(x *State) ([]Val, bool) { return nil, true })
		if !ok {
			return false
		}
	}
	return true
}

func (e *Eng) runSpawn(x *State, fr *Frame, s spawnRec, pos token.Pos) (ok bool) {
	if s.sfn != nil {
		_, ok = e.callFn(x, fr, s.sfn, s.args, nil, pos)
	} else {
		_, ok = e.callVal(x, fr, Val{T: s.call.Value.Type(), L: []*Term{s.fn}}, s.call.Signature(), s.args, pos)
	}
	return ok
}

func (e *Eng) kvCatch(st *State, fr *Frame, f Val, pos token.Pos) ([]Val, bool) {
	boolT := types.Typ[types.Bool]
	save := fr.panics
	fr.panics = nil
	e.catch++
	cs := e.catchSafety
	e.catchSafety = true
	s := st.clone()
	_, ok := e.callVal(s, fr, f, f.T.Underlying().(*types.Signature), nil, pos)
	e.catch--
	e.catchSafety = cs
	ps := fr.panics
	fr.panics = save
	var ins []edgeIn
	var vs []Val
	if ok {
		ins = append(ins, edgeIn{st: s})
		vs = append(vs, scalar(boolT, False))
	}
	for _, p := range ps {
		ins = append(ins, edgeIn{st: p})
		vs = append(vs, scalar(boolT, True))
	}
	if len(ins) == 0 {
		return nil, false
	}
	m, sel := e.merge(ins)
	*st = *m
	return []Val{e.mergeVals(sel, vs)}, true
}

func (e *Eng) mapRemoveIf(st *State, fr *Frame, args []Val, pos token.Pos) bool {
	m := mapOf(args[0].T)
	ref := args[0].L[0]
	if ref == Zero {
		return true
	}
	has := e.mapHas(st, m, ref)
	ln := e.mapLen(st, m, ref)
	kb, bs := e.boundVal(m.mt.Key())
	kt := m.keyTerm(kb)
	v := Val{T: m.mt.Elem()}
	for i := range m.vl {
		v.L = append(v.L, Select(e.mapVal(st, m, ref, i), kt))
	}
	body := e.quantEval(st, fr, args[1], []Val{kb, v}, pos)
	nh := NewSym("rmif", has.sort, nil, nil)
	e.fact(st, Forall(bs, Eq(Select(nh, kt), And(Select(has, kt), Not(body)))), "MapRemoveIf")
	nl := NewSym("rmiflen", SInt, bi(0), maxLen)
	e.fact(st, Le(nl, ln), "MapRemoveIf")
	e.setMap(st, m, ref, nh, nl, nil)
	return true
}

func (e *Eng) mapSetSpec(st *State, fr *Frame, args []Val, pos token.Pos) bool {
	m := mapOf(args[0].T)
	ref := args[0].L[0]
	kb, bs := e.boundVal(m.mt.Key())
	kt := m.keyTerm(kb)
	has := e.quantEval(st, fr, args[1], []Val{kb}, pos)
	nh := NewSym("mset", ArrSort(m.ks, SBool), nil, nil)
	e.fact(st, Forall(bs, Eq(Select(nh, kt), has)), "MapSet")
	// value function: evaluate leaves
	s := st.clone()
	e.noObl++
	rs, ok := e.callVal(s, fr, args[2], args[2].T.Underlying().(*types.Signature), []Val{kb}, pos)
	e.noObl--
	if !ok {
		return false
	}
	var vals []*Term
	for i, l := range m.vl {
		lo, hi := leafBounds(l, e.epoch())
		nv := NewSym("msetv", ArrSort(m.ks, l.Sort), lo, hi)
		e.fact(st, Forall(bs, Eq(Select(nv, kt), rs[0].L[i])), "MapSet")
		vals = append(vals, nv)
	}
	e.setMap(st, m, ref, nh, args[3].L[0], vals)
	return true
}

func (e *Eng) sliceOf(st *State, fr *Frame, et types.Type, args []Val, pos token.Pos) ([]Val, bool) {
	n := args[0].L[0]
	t := types.NewSlice(et)
	p := e.allocRef()
	intT := types.Typ[types.Int]
	ls := flatten(et)
	if n.op == OInt && n.val.Int64() <= 32 {
		e.initElems(st, p, et)
		for i := int64(0); i < n.val.Int64(); i++ {
			rs, ok := e.callVal(st, fr, args[1], args[1].T.Underlying().(*types.Signature), []Val{scalar(intT, IntT(i))}, pos)
			if !ok {
				return nil, false
			}
			e.store(st, elemAddr(p, IntT(i), et), rs[0])
		}
		return []Val{{T: t, L: []*Term{p, Zero, n}}}, true
	}
	b := NewBound(SInt, bi(0), maxLen)
	s := st.clone()
	n0 := TT.nsym
	e.noObl++
	e.quant++
	rs, ok := e.callVal(s, fr, args[1], args[1].T.Underlying().(*types.Signature), []Val{scalar(intT, b)}, pos)
	e.quant--
	e.noObl--
	if !ok {
		return nil, false
	}
	for i, l := range ls {
		out := map[*Term]bool{}
		symsIn(rs[0].L[i], n0, map[*Term]bool{}, out)
		if len(out) > 0 {
			panic(unsupported("kv.SliceOf body introduces unknowns"))
		}
		lo, hi := leafBounds(l, e.epoch())
		name, r := e.elemReg(st, et, i)
		a := NewSym("seq", ArrSort(SInt, l.Sort), lo, hi)
		e.fact(st, Forall([]*Term{b}, Implies(Lt(b, n), Eq(Select(a, b), rs[0].L[i]))), "SliceOf")
		e.setReg(st, name, Store(r, p, a), p)
	}
	return []Val{{T: t, L: []*Term{p, Zero, n}}}, true
}

func (e *Eng) fold(st *State, fr *Frame, t types.Type, args []Val, pos token.Pos) ([]Val, bool) {
	n := args[0].L[0]
	init := args[1]
	intT := types.Typ[types.Int]
	ls := flatten(t)
	acc := Val{T: t}
	for j, l := range ls {
		lo, hi := leafBounds(l, e.epoch())
		if l.Kind == LRef || l.Kind == LSBase || l.Kind == LIVal {
			lo, hi = nil, nil
		}
		_ = j
		acc.L = append(acc.L, NamedSym(fmt.Sprintf("foldacc#%d:%s@%d", j, l.Sort.name, e.foldDepth), l.Sort, lo, hi))
	}
	idx := NamedSym(fmt.Sprintf("foldidx@%d", e.foldDepth), SInt, bi(0), maxLen)
	n0 := TT.nsym
	s := st.clone()
	e.noObl++
	e.quant++
	e.foldDepth++
	rs, ok := e.callVal(s, fr, args[2], args[2].T.Underlying().(*types.Signature), []Val{acc, scalar(intT, idx)}, pos)
	e.foldDepth--
	e.quant--
	e.noObl--
	if !ok {
		panic(unsupported("kv.Fold step does not return"))
	}
	step := rs[0].L
	for j := range ls {
		out := map[*Term]bool{}
		symsIn(step[j], n0, map[*Term]bool{}, out)
		if len(out) > 0 {
			panic(unsupported("kv.Fold step introduces unknowns"))
		}
		if len(step[j].bounds) > 0 || len(init.L[j].bounds) > 0 {
			panic(unsupported("kv.Fold under a quantifier"))
		}
	}
	// What the step reads from its surroundings becomes a parameter, so that
	// equal surroundings give equal folds.
	open := map[*Term]bool{idx: true}
	for _, a := range acc.L {
		open[a] = true
	}
	ab := &foldAbs{open: open, closed: map[*Term]bool{}, memo: map[*Term]*Term{}, par: map[*Term]*Term{}}
	var kb strings.Builder
	gi, gs := make([]*Term, len(ls)), make([]*Term, len(ls))
	for j := range ls {
		gi[j] = ab.abs(init.L[j])
		gs[j] = ab.abs(step[j])
		fmt.Fprintf(&kb, "%d,%d;", gi[j].id, gs[j].id)
	}
	f := e.folds[kb.String()]
	if f == nil {
		f = &foldInfo{id: len(e.folds), init: gi, step: gs, accs: acc.L, idx: idx, leafs: ls, pars: ab.pars}
		e.folds[kb.String()] = f
	}
	fi := &foldInst{f, ab.vals}
	if n.op == OInt && n.val.Int64() <= 8 {
		cur := init.L
		for i := int64(0); i < n.val.Int64(); i++ {
			cur = fi.apply(cur, IntT(i))
		}
		return []Val{{T: t, L: cur}}, true
	}
	v := Val{T: t, L: fi.at(n)}
	e.unfold(fi, n)
	return []Val{v}, true
}

type foldInst struct {
	*foldInfo
	vals []*Term
}

// foldAbs replaces the largest subterms that do not depend on the accumulator or the index.
type foldAbs struct {
	open       map[*Term]bool
	closed     map[*Term]bool
	memo       map[*Term]*Term
	par        map[*Term]*Term
	pars, vals []*Term
}

func (ab *foldAbs) isClosed(t *Term) bool {
	if ab.open[t] {
		return false
	}
	if r, ok := ab.closed[t]; ok {
		return r
	}
	r := true
	for _, a := range t.args {
		if !ab.isClosed(a) {
			r = false
			break
		}
	}
	ab.closed[t] = r
	return r
}

func hasUnknown(t *Term, memo map[*Term]bool) bool {
	if t.op == OVar || t.op == OUF {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	for _, a := range t.args {
		if hasUnknown(a, memo) {
			memo[t] = true
			return true
		}
	}
	return false
}

func (ab *foldAbs) abs(t *Term) *Term {
	if ab.open[t] {
		return t
	}
	if ab.isClosed(t) && len(t.bounds) == 0 {
		if !hasUnknown(t, map[*Term]bool{}) {
			return t
		}
		if p := ab.par[t]; p != nil {
			return p
		}
		p := NamedSym(fmt.Sprintf("foldpar#%d:%s", len(ab.pars), t.sort.name), t.sort, nil, nil)
		ab.par[t] = p
		ab.pars = append(ab.pars, p)
		ab.vals = append(ab.vals, t)
		return p
	}
	if r := ab.memo[t]; r != nil {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = ab.abs(a)
		ch = ch || na[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	ab.memo[t] = r
	return r
}

func (f *foldInst) at(n *Term) []*Term {
	var out []*Term
	args := append(append([]*Term(nil), f.vals...), n)
	for j, l := range f.leafs {
		lo, hi := leafBounds(l, bi(0))
		if l.Kind == LRef || l.Kind == LSBase || l.Kind == LIVal {
			lo, hi = nil, nil
		}
		out = append(out, UF(fmt.Sprintf("fold%d#%d", f.id, j), l.Sort, lo, hi, args...))
	}
	return out
}

func (f *foldInst) apply(cur []*Term, i *Term) []*Term {
	m := map[*Term]*Term{f.idx: i}
	for j := range cur {
		m[f.accs[j]] = cur[j]
	}
	for k, p := range f.pars {
		m[p] = f.vals[k]
	}
	out := make([]*Term, len(cur))
	for j := range cur {
		out[j] = Subst(f.step[j], m)
	}
	return out
}

func (e *Eng) unfold(f *foldInst, n *Term) {
	if len(n.bounds) > 0 {
		return
	}
	cur := f.at(n)
	prev := f.at(Sub(n, One))
	nx := f.apply(prev, Sub(n, One))
	m := map[*Term]*Term{}
	for k, p := range f.pars {
		m[p] = f.vals[k]
	}
	for j := range cur {
		e.rawFact(Implies(Le(n, Zero), Eq(cur[j], Subst(f.init[j], m))), "fold")
		e.rawFact(Implies(Gt(n, Zero), Eq(cur[j], nx[j])), "fold")
	}
}

var _ = sort.Strings
