package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type retRec struct {
	st   *State
	vals []Val
	pred *ssa.BasicBlock
}

type Frame struct {
	fn         *ssa.Function
	env        map[ssa.Value]Val
	spec       bool
	id         int
	rets       []retRec
	panics     []*State
	caller     *Frame
	target     *ssa.Function // contract frames: the real function
	mode       byte          // 'v' verifying, 'u' using
	iters      map[ssa.Value]*iterInfo
	lits       map[*ssa.BasicBlock]*Term // branch conditions of the last execution
	modif      []modEntry
	frameCheck bool
	inv        map[*ssa.BasicBlock]bool
	ref0       *big.Int // allocation epoch at entry
	loops      *loopNest
	pending    map[*ssa.BasicBlock][]edgeIn
}

type iterInfo struct {
	reg  string
	mt   types.Type
	ref  *Term
	has0 *Term
	key  *Term // last key symbol
}

var nframe int

type World struct {
	P         *Prog
	contracts map[string]*Directive
	models    map[string]*ssa.Function
	loopinvs  map[string][]*Directive
	chaninvs  map[string]*Directive
	axiomDirs []*Directive
	variants  map[string][]*Directive
	guards    []*guardSpec
	monitors  []*monitorSpec
	befores   map[string][]*Directive // run before each call of a function (flag before=)
	written   map[string]bool         // globals written outside init
	init      *State
	initRef   *big.Int
	initEng   *Eng
	initFacts []Fact
	units     []*Unit
	inline    map[string]bool
	disabled  map[string]bool // helper contracts that do not hold on this tree
}

type guardSpec struct {
	typ   string // type key
	mu    string
	field map[string]bool
	props []string
}

type monitorSpec struct {
	key string
	fn  *ssa.Function
}

type Unit struct {
	Name   string
	Fn     *ssa.Function
	Props  []string
	Target *ssa.Function
	Dir    *Directive
}

var verbose bool

func (e *Eng) top() *Frame {
	if len(e.stack) == 0 {
		return nil
	}
	return e.stack[len(e.stack)-1]
}

func (w *World) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "kv" {
		return true
	}
	if !fn.Pos().IsValid() {
		return false
	}
	return w.P.specFile[w.P.fset.Position(fn.Pos()).Filename]
}

// run executes fn on st; returns results and whether the state is still alive.
func (e *Eng) run(st *State, fn *ssa.Function, args []Val, binds []Val, target *ssa.Function, mode byte) ([]Val, bool) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	if len(e.stack) > 60 {
		panic(unsupported("call depth (recursion): " + fn.String()))
	}
	nframe++
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, spec: e.W.isSpec(fn), id: nframe, caller: e.top(), target: target, mode: mode, iters: map[ssa.Value]*iterInfo{}, lits: map[*ssa.BasicBlock]*Term{}, ref0: e.epoch()}
	if target == nil && fr.caller != nil && fr.caller.mode == 'm' {
		fr.mode = 'm'
	}
	for i, p := range fn.Params {
		a := args[i]
		fr.env[p] = Val{T: p.Type(), L: a.L}
		if len(a.L) != len(flatten(p.Type())) {
			panic(fmt.Sprintf("arg %d of %s: %s vs %s", i, fn, a.T, p.Type()))
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	e.stack = append(e.stack, fr)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	entry := st.clone()
	g0 := len(st.guard)
	fr.loops = loopsOf(fn)
	in := map[*ssa.BasicBlock][]edgeIn{fn.Blocks[0]: {{st: entry}}}
	fr.pending = in
	e.runBlocks(fr, in, nil)
	fr.pending = nil
	// exceptional exits
	if len(fr.panics) > 0 {
		var outs []edgeIn
		for _, ps := range fr.panics {
			if e.runDefersOf(ps, fr) {
				outs = append(outs, edgeIn{st: ps})
			}
		}
		if len(outs) > 0 && fr.caller != nil {
			m, _ := e.merge(outs)
			fr.caller.panics = append(fr.caller.panics, m)
		}
	}
	if len(fr.rets) == 0 {
		return nil, false
	}
	var ins []edgeIn
	for _, r := range fr.rets {
		ins = append(ins, edgeIn{st: r.st})
	}
	if c := e.fork(fr, ins, func(i, j int) bool { return samePtrs(fr.rets[i].vals, fr.rets[j].vals) }); c >= 0 {
		r := fr.rets[c]
		if c > 0 {
			e.dropOthers(fr, c)
		}
		ins, fr.rets = ins[c:c+1], []retRec{r}
	}
	out, sel := e.merge(ins)
	_ = g0
	n := len(fr.rets[0].vals)
	res := make([]Val, n)
	for i := 0; i < n; i++ {
		var vs []Val
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		res[i] = e.mergeVals(sel, vs)
	}
	*st = *out
	delete(st.defers, fr)
	if st.live != nil {
		var n map[liveKey]Val
		for k, v := range st.live {
			if k.fr != fr {
				if n == nil {
					n = map[liveKey]Val{}
				}
				n[k] = v
			}
		}
		st.live = n
	}
	return res, true
}

func addIn(m map[*ssa.BasicBlock][]edgeIn, b *ssa.BasicBlock, x edgeIn) { m[b] = append(m[b], x) }

// runBlocks executes the blocks of lp (nil: whole function), starting from the states in `in`.
// It returns the states on edges back to lp's header and on edges leaving lp.
func (e *Eng) runBlocks(fr *Frame, in map[*ssa.BasicBlock][]edgeIn, lp *loop) (backs []edgeIn, outs map[*ssa.BasicBlock][]edgeIn) {
	outs = map[*ssa.BasicBlock][]edgeIn{}
	nest := fr.loops
	done := map[*ssa.BasicBlock]bool{}
	push := func(b *ssa.BasicBlock, x edgeIn) {
		if lp != nil {
			if b == lp.header {
				backs = append(backs, x)
				return
			}
			if !lp.blocks[b] {
				addIn(outs, b, x)
				return
			}
		}
		addIn(in, b, x)
	}
	for _, b := range nest.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		if done[b] {
			continue
		}
		ins := in[b]
		if len(ins) == 0 {
			continue
		}
		if l := nest.byHeader[b]; l != nil && l != lp {
			for x := range l.blocks {
				done[x] = true
			}
			ex := e.execLoop(fr, l, ins)
			for _, tb := range nest.rpo {
				for _, x := range ex[tb] {
					push(tb, x)
				}
			}
			continue
		}
		if lp == nil {
			c := e.fork(fr, ins, func(i, j int) bool {
				for _, x := range b.Instrs {
					p, ok := x.(*ssa.Phi)
					if !ok {
						return true
					}
					v, w := e.edgeVal(fr, ins[i], p.Edges[predIndex(b, ins[i].pred)]), e.edgeVal(fr, ins[j], p.Edges[predIndex(b, ins[j].pred)])
					if !samePtrs([]Val{conv(v, p.Type())}, []Val{conv(w, p.Type())}) {
						return false
					}
				}
				return true
			})
			if c >= 0 {
				if c > 0 {
					e.dropOthers(fr, c)
				}
				ins = ins[c : c+1]
			}
		}
		st, sel := e.merge(ins)
		st = st.clone()
		e.applyLive(fr, st)
		if !(lp != nil && b == lp.header) {
			e.phis(fr, b, ins, sel)
		}
		e.execBlock(fr, b, st, push)
	}
	return
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (e *Eng) phis(fr *Frame, b *ssa.BasicBlock, ins []edgeIn, sel []*Term) {
	var ps []*ssa.Phi
	var vals []Val
	for _, ins1 := range b.Instrs {
		p, ok := ins1.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, in := range ins {
			v := resolveVal(in.st.guard, e.edgeVal(fr, in, p.Edges[predIndex(b, in.pred)]))
			vs = append(vs, conv(v, p.Type()))
		}
		ps = append(ps, p)
		vals = append(vals, e.mergeVals(sel, vs))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

func conv(v Val, t types.Type) Val { return Val{T: t, L: v.L} }

func (e *Eng) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, push func(*ssa.BasicBlock, edgeIn)) {
	for _, ins := range b.Instrs {
		e.steps++
		if e.steps > 4000000 {
			panic(unsupported("step budget"))
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := simpUnder(st.guard, resolve(st.guard, e.val(fr, x.Cond).L[0]))
			fr.lits[b] = c
			if c != False {
				s := st
				if c != True {
					s = st.clone()
				}
				var dead bool
				s.guard, dead = s.guard.add(c)
				if !dead {
					push(b.Succs[0], edgeIn{st: s, pred: b})
				}
			}
			if c != True {
				s := st.clone()
				var dead bool
				s.guard, dead = s.guard.add(Not(c))
				if !dead {
					push(b.Succs[1], edgeIn{st: s, pred: b})
				}
			}
			return
		case *ssa.Jump:
			push(b.Succs[0], edgeIn{st: st, pred: b})
			return
		case *ssa.Return:
			var vs []Val
			sig := fr.fn.Signature.Results()
			for i, r := range x.Results {
				vs = append(vs, conv(resolveVal(st.guard, e.val(fr, r)), sig.At(i).Type()))
			}
			fr.rets = append(fr.rets, retRec{st: st, vals: vs, pred: b})
			return
		case *ssa.Panic:
			e.doPanic(st, fr, x.Pos(), "explicit panic")
			return
		case *ssa.RunDefers:
			if !e.runDefersOf(st, fr) {
				return
			}
		default:
			if !e.exec(st, fr, ins) {
				return
			}
		}
	}
}

// doPanic: reached a panic in state st.
func (e *Eng) doPanic(st *State, fr *Frame, pos token.Pos, what string) {
	if e.catching() {
		fr.panics = append(fr.panics, st)
		return
	}
	if !fr.spec {
		e.oblige(st, "safety", "no "+what, nil, False, pos)
	}
}

func (e *Eng) catching() bool { return e.catch > 0 }

func (e *Eng) runDefersOf(st *State, fr *Frame) bool {
	for {
		ds := st.defers[fr]
		if len(ds) == 0 {
			return true
		}
		d := ds[len(ds)-1]
		nd := map[*Frame][]deferRec{}
		for k, v := range st.defers {
			nd[k] = v
		}
		nd[fr] = ds[: len(ds)-1 : len(ds)-1]
		st.defers = nd
		c := simpUnder(st.guard, d.cond)
		if c == False {
			continue
		}
		_, ok := e.splitRun(st, c, func(s *State) ([]Val, bool) {
			return e.doCall(s, fr, d.call, d.fn, d.args, d.pos)
		}, func(s *State) ([]Val, bool) { return nil, true })
		if !ok {
			return false
		}
	}
}

// splitRun runs f where c holds and g elsewhere, merging the results into st.
func (e *Eng) splitRun(st *State, c *Term, f, g func(*State) ([]Val, bool)) ([]Val, bool) {
	c = simpUnder(st.guard, c)
	if c == True {
		return f(st)
	}
	if c == False {
		return g(st)
	}
	s1, s2 := st.clone(), st.clone()
	var d1, d2 bool
	s1.guard, d1 = s1.guard.add(c)
	s2.guard, d2 = s2.guard.add(Not(c))
	var v1, v2 []Val
	ok1, ok2 := false, false
	if !d1 {
		v1, ok1 = f(s1)
	}
	if !d2 {
		v2, ok2 = g(s2)
	}
	switch {
	case ok1 && ok2:
		m, sel := e.merge([]edgeIn{{st: s1}, {st: s2}})
		*st = *m
		if len(v1) != len(v2) {
			n := len(v1)
			if len(v2) < n {
				n = len(v2)
			}
			v1, v2 = v1[:n], v2[:n]
		}
		out := make([]Val, len(v1))
		for i := range v1 {
			out[i] = e.mergeVals(sel, []Val{v1[i], v2[i]})
		}
		return out, true
	case ok1:
		*st = *s1
		return v1, true
	case ok2:
		*st = *s2
		return v2, true
	}
	return nil, false
}

// ---- values ----

func (e *Eng) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return scalar(x.Type(), e.globalAddr(x))
	case *ssa.Function:
		return scalar(x.Type(), newClosure(&Closure{fn: x}))
	case *ssa.Builtin:
		return Val{T: x.Type()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
}

func (e *Eng) globalAddr(g *ssa.Global) *Term {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	return mkIPtr(&iptr{kind: 'g', root: name, off: 0, rt: deref(g.Type())})
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return scalar(t, BoolT(constant.BoolVal(c.Value)))
	case u.Info()&types.IsString != 0:
		return scalar(t, StrT(constant.StringVal(c.Value)))
	case u.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		bigv, _ := new(big.Int).SetString(v.ExactString(), 10)
		return scalar(t, IntB(bigv))
	case u.Info()&types.IsFloat != 0:
		f := c.Value.ExactString()
		if constant.Sign(c.Value) == 0 {
			return zeroVal(t)
		}
		return scalar(t, UF("fconst:"+f, SFloat, nil, nil))
	}
	panic(unsupported("const " + c.String()))
}

func (e *Eng) set(fr *Frame, v ssa.Value, x Val) { fr.env[v] = x }

func (e *Eng) nilCheck(st *State, fr *Frame, p *Term, pos token.Pos, what string) bool {
	p = resolve(st.guard, p)
	if nonNil(p) {
		return true
	}
	if fr.spec {
		return true
	}
	return e.safe(st, fr, Neq(p, Zero), pos, "nil dereference "+what)
}

// safe emits a safety obligation; false if the path is dead.
func (e *Eng) safe(st *State, fr *Frame, c *Term, pos token.Pos, what string) bool {
	if fr.spec {
		return true
	}
	c = simpUnder(st.guard, c)
	if c == True {
		return true
	}
	if e.catching() && e.catchSafety {
		// the panic branch is followed
		s := st.clone()
		var dead bool
		s.guard, dead = s.guard.add(Not(c))
		if !dead {
			fr.panics = append(fr.panics, s)
		}
		st.guard, dead = st.guard.add(c)
		return !dead
	}
	e.oblige(st, "safety", what, nil, c, pos)
	if c == False {
		return false
	}
	return true
}

func (e *Eng) exec(st *State, fr *Frame, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		p := e.allocRef()
		e.initAlloc(st, p, t)
		e.set(fr, x, scalar(x.Type(), p))
	case *ssa.BinOp:
		a, b := e.val(fr, x.X), e.val(fr, x.Y)
		v, ok := e.binop(st, fr, x.Op, a, b, x.Type(), x.Pos())
		if !ok {
			return false
		}
		e.set(fr, x, v)
	case *ssa.UnOp:
		return e.unop(st, fr, x)
	case *ssa.Call:
		fv, args := e.callArgs(st, fr, &x.Call)
		rs, ok := e.doCall(st, fr, &x.Call, fv, args, x.Pos())
		if !ok {
			return false
		}
		e.set(fr, x, packResults(rs, x.Type()))
	case *ssa.ChangeInterface:
		e.set(fr, x, conv(e.val(fr, x.X), x.Type()))
	case *ssa.ChangeType:
		v := e.val(fr, x.X)
		e.set(fr, x, conv(v, x.Type()))
	case *ssa.Convert:
		e.set(fr, x, e.convert(st, e.val(fr, x.X), x.Type()))
	case *ssa.MultiConvert:
		e.set(fr, x, e.convert(st, e.val(fr, x.X), x.Type()))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.Defer:
		fv, args := e.callArgs(st, fr, &x.Call)
		nd := map[*Frame][]deferRec{}
		for k, v := range st.defers {
			nd[k] = v
		}
		nd[fr] = append(nd[fr][:len(nd[fr]):len(nd[fr])], deferRec{cond: True, call: &x.Call, fn: fv, args: args, fr: fr, pos: x.Pos()})
		st.defers = nd
	case *ssa.Go:
		fv, args := e.callArgs(st, fr, &x.Call)
		e.spawn(st, fr, &x.Call, fv, args)
	case *ssa.Extract:
		tv := e.val(fr, x.Tuple)
		tt := x.Tuple.Type().(*types.Tuple)
		o := 0
		for i := 0; i < x.Index; i++ {
			o += len(flatten(tt.At(i).Type()))
		}
		n := len(flatten(tt.At(x.Index).Type()))
		e.set(fr, x, Val{T: x.Type(), L: tv.L[o : o+n]})
	case *ssa.Field:
		v := e.val(fr, x.X)
		off, n := fieldOff(x.X.Type().Underlying().(*types.Struct), x.Field)
		e.set(fr, x, Val{T: x.Type(), L: v.L[off : off+n]})
	case *ssa.FieldAddr:
		p := resolve(st.guard, e.val(fr, x.X).L[0])
		if !e.nilCheck(st, fr, p, x.Pos(), "(field)") {
			return false
		}
		stt := deref(x.X.Type())
		off, _ := fieldOff(stt.Underlying().(*types.Struct), x.Field)
		e.set(fr, x, scalar(x.Type(), fieldAddr(p, stt, off)))
	case *ssa.Index:
		a := e.val(fr, x.X)
		i := e.val(fr, x.Index).L[0]
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			if !e.safe(st, fr, And(Le(Zero, i), Lt(i, IntT(u.Len()))), x.Pos(), "index out of range") {
				return false
			}
			v := Val{T: x.Type()}
			for _, t := range a.L {
				v.L = append(v.L, Select(t, i))
			}
			e.set(fr, x, v)
		default: // string
			if !e.safe(st, fr, And(Le(Zero, i), Lt(i, StrLen(a.L[0]))), x.Pos(), "index out of range") {
				return false
			}
			e.set(fr, x, scalar(x.Type(), StrAt(a.L[0], i)))
		}
	case *ssa.IndexAddr:
		i := resolve(st.guard, e.val(fr, x.Index).L[0])
		a := resolveVal(st.guard, e.val(fr, x.X))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			if !e.safe(st, fr, And(Le(Zero, i), Lt(i, a.L[2])), x.Pos(), "index out of range") {
				return false
			}
			e.set(fr, x, scalar(x.Type(), elemAddr(a.L[0], Add(a.L[1], i), u.Elem())))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			if !e.nilCheck(st, fr, a.L[0], x.Pos(), "(array)") {
				return false
			}
			if !e.safe(st, fr, And(Le(Zero, i), Lt(i, IntT(at.Len()))), x.Pos(), "index out of range") {
				return false
			}
			if asIPtr(a.L[0]) != nil {
				panic(unsupported("index of embedded array"))
			}
			e.set(fr, x, scalar(x.Type(), elemAddr(a.L[0], i, at.Elem())))
		}
	case *ssa.Lookup:
		m := e.val(fr, x.X)
		k := e.val(fr, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			i := k.L[0]
			if !e.safe(st, fr, And(Le(Zero, i), Lt(i, StrLen(m.L[0]))), x.Pos(), "index out of range") {
				return false
			}
			e.set(fr, x, scalar(x.Type(), StrAt(m.L[0], i)))
			break
		}
		v, ok := e.lookup(st, x.X.Type(), m.L[0], k)
		v = resolveVal(st.guard, v)
		if x.CommaOk {
			e.set(fr, x, Val{T: x.Type(), L: append(append([]*Term(nil), v.L...), simpUnder(st.guard, ok))})
		} else {
			e.set(fr, x, conv(v, x.Type()))
		}
	case *ssa.MakeChan:
		p := e.allocRef()
		e.set(fr, x, scalar(x.Type(), p))
		e.chanInit(st, x.Type(), p, e.val(fr, x.Size).L[0])
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, e.val(fr, b))
		}
		e.set(fr, x, scalar(x.Type(), newClosure(c)))
	case *ssa.MakeInterface:
		e.set(fr, x, box(e.val(fr, x.X), x.Type()))
	case *ssa.MakeMap:
		p := e.allocRef()
		e.newMap(st, x.Type(), p)
		e.set(fr, x, scalar(x.Type(), p))
	case *ssa.MakeSlice:
		n := e.val(fr, x.Len).L[0]
		cp := e.val(fr, x.Cap).L[0]
		if !e.safe(st, fr, And(Le(Zero, n), Le(n, cp)), x.Pos(), "makeslice: len out of range") {
			return false
		}
		p := e.allocRef()
		et := x.Type().Underlying().(*types.Slice).Elem()
		e.initElems(st, p, et)
		e.set(fr, x, Val{T: x.Type(), L: []*Term{p, Zero, n}})
	case *ssa.MapUpdate:
		m := resolve(st.guard, e.val(fr, x.Map).L[0])
		if !e.nilCheck(st, fr, m, x.Pos(), "(map assignment)") {
			return false
		}
		e.guardMap(st, fr, x.Map, x.Pos())
		e.mapUpdate(st, x.Map.Type(), m, e.val(fr, x.Key), e.val(fr, x.Value))
	case *ssa.Next:
		return e.next(st, fr, x)
	case *ssa.Range:
		m := e.val(fr, x.X)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over string"))
		}
		mi := mapOf(mt)
		it := &iterInfo{reg: fmt.Sprintf("it:%d:%s", fr.id, x.Name()), mt: mt, ref: resolve(st.guard, m.L[0])}
		if it.ref != Zero {
			it.has0 = e.mapHasRaw(st, mi, it.ref)
		}
		fr.iters[x] = it
		st.regs[it.reg] = ConstArr(mi.ks, False)
		e.baseVars[it.reg] = ConstArr(mi.ks, False)
		e.set(fr, x, Val{T: x.Type()})
	case *ssa.Select:
		return e.selectStmt(st, fr, x)
	case *ssa.Send:
		c := resolve(st.guard, e.val(fr, x.Chan).L[0])
		e.bump(st, "ghost:blocking")
		e.chanSend(st, fr, x.Chan.Type(), c, e.val(fr, x.X), x.Pos())
	case *ssa.Slice:
		return e.sliceOp(st, fr, x)
	case *ssa.Store:
		p := resolve(st.guard, e.val(fr, x.Addr).L[0])
		if !e.nilCheck(st, fr, p, x.Pos(), "(store)") {
			return false
		}
		if !e.guardCheck(st, fr, p, x.Pos(), true) {
			return false
		}
		e.store(st, p, conv(e.val(fr, x.Val), deref(x.Addr.Type())))
	case *ssa.TypeAssert:
		return e.typeAssert(st, fr, x)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", ins, fr.fn)))
	}
	return true
}

func packResults(rs []Val, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		v := Val{T: tt}
		for _, r := range rs {
			v.L = append(v.L, r.L...)
		}
		return v
	}
	return conv(rs[0], t)
}

func fieldAddr(p *Term, stt types.Type, off int) *Term {
	if p.op == OIte {
		return Ite(p.args[0], fieldAddr(p.args[1], stt, off), fieldAddr(p.args[2], stt, off))
	}
	if ip := asIPtr(p); ip != nil {
		return mkIPtr(&iptr{kind: ip.kind, root: ip.root, off: ip.off + off, rt: ip.rt}, p.args...)
	}
	return mkIPtr(&iptr{kind: 'o', root: tkey(stt), off: off, rt: stt}, p)
}

func elemAddr(base, idx *Term, et types.Type) *Term {
	if base.op == OIte {
		return Ite(base.args[0], elemAddr(base.args[1], idx, et), elemAddr(base.args[2], idx, et))
	}
	return mkIPtr(&iptr{kind: 'e', root: tkey(et), off: 0, rt: et}, base, idx)
}

func (e *Eng) initAlloc(st *State, p *Term, t types.Type) {
	if at, ok := isArray(t); ok {
		e.initElems(st, p, at.Elem())
		return
	}
	e.store(st, p, zeroVal(t))
}

func (e *Eng) initElems(st *State, p *Term, et types.Type) {
	for i, l := range flatten(et) {
		name := fmt.Sprintf("e:%s#%d", tkey(et), i)
		r := e.reg(st, name, regSort('e', l.Sort), l)
		e.setReg(st, name, Store(r, p, ConstArr(SInt, zeroLeaf(l))), p)
	}
}

func (e *Eng) newMap(st *State, t types.Type, p *Term) {
	m := mapOf(t)
	var vals []*Term
	for _, l := range m.vl {
		vals = append(vals, ConstArr(m.ks, zeroLeaf(l)))
	}
	e.setMap(st, m, p, ConstArr(m.ks, False), Zero, vals)
}

func (e *Eng) mapHasRaw(st *State, m *mapInfo, ref *Term) *Term {
	if ref.op == OIte {
		return Ite(ref.args[0], e.mapHasRaw(st, m, ref.args[1]), e.mapHasRaw(st, m, ref.args[2]))
	}
	if ref == Zero {
		return ConstArr(m.ks, False)
	}
	h := e.mapHas(st, m, ref)
	if !nonNil(ref) && !e.isKnown(st, Neq(ref, Zero)) {
		return Ite(Eq(ref, Zero), ConstArr(m.ks, False), h)
	}
	return h
}

func (e *Eng) mapValRaw(st *State, m *mapInfo, ref *Term, i int) *Term {
	if ref.op == OIte {
		return Ite(ref.args[0], e.mapValRaw(st, m, ref.args[1], i), e.mapValRaw(st, m, ref.args[2], i))
	}
	return e.mapVal(st, m, ref, i)
}

// ---- operators ----

func (e *Eng) binop(st *State, fr *Frame, op token.Token, a, b Val, rt types.Type, pos token.Pos) (Val, bool) {
	switch op {
	case token.EQL, token.NEQ:
		a, b = resolveVal(st.guard, a), resolveVal(st.guard, b)
		c := eqVal(a, b)
		if op == token.NEQ {
			c = Not(c)
		}
		return scalar(rt, simpUnder(st.guard, c)), true
	}
	x, y := resolve(st.guard, a.L[0]), resolve(st.guard, b.L[0])
	bt, _ := a.T.Underlying().(*types.Basic)
	if bt == nil {
		panic(unsupported("binop on " + a.T.String()))
	}
	info := bt.Info()
	if info&types.IsString != 0 {
		switch op {
		case token.ADD:
			return scalar(rt, StrCat(x, y)), true
		case token.LSS:
			return scalar(rt, StrLess(x, y)), true
		case token.GTR:
			return scalar(rt, StrLess(y, x)), true
		case token.LEQ:
			return scalar(rt, Not(StrLess(y, x))), true
		case token.GEQ:
			return scalar(rt, Not(StrLess(x, y))), true
		}
	}
	if info&types.IsFloat != 0 {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return scalar(rt, UF("f"+op.String(), SBool, nil, nil, x, y)), true
		}
		return scalar(rt, UF("f"+op.String(), SFloat, nil, nil, x, y)), true
	}
	bits, signed := intBits(bt)
	if nm, _ := named(a.T); nm == "kv.Int" {
		switch op {
		case token.ADD:
			return scalar(rt, Add(x, y)), true
		case token.SUB:
			return scalar(rt, Sub(x, y)), true
		case token.MUL:
			return scalar(rt, Mul(x, y)), true
		case token.QUO:
			return scalar(rt, DivT(x, y)), true
		case token.REM:
			return scalar(rt, ModT(x, y)), true
		}
	}
	switch op {
	case token.LSS:
		return scalar(rt, simpUnder(st.guard, Lt(x, y))), true
	case token.LEQ:
		return scalar(rt, simpUnder(st.guard, Le(x, y))), true
	case token.GTR:
		return scalar(rt, simpUnder(st.guard, Gt(x, y))), true
	case token.GEQ:
		return scalar(rt, simpUnder(st.guard, Ge(x, y))), true
	case token.ADD:
		return scalar(rt, Wrap(Add(x, y), bits, signed)), true
	case token.SUB:
		return scalar(rt, Wrap(Sub(x, y), bits, signed)), true
	case token.MUL:
		return scalar(rt, Wrap(Mul(x, y), bits, signed)), true
	case token.QUO:
		if !e.safe(st, fr, Neq(y, Zero), pos, "division by zero") {
			return Val{}, false
		}
		return scalar(rt, Wrap(DivT(x, y), bits, signed)), true
	case token.REM:
		if !e.safe(st, fr, Neq(y, Zero), pos, "division by zero") {
			return Val{}, false
		}
		return scalar(rt, Wrap(ModT(x, y), bits, signed)), true
	case token.SHL:
		if y.op == OInt && y.val.IsInt64() && y.val.Int64() < 64 {
			m := new(big.Int).Lsh(bi(1), uint(y.val.Int64()))
			return scalar(rt, Wrap(Mul(x, IntB(m)), bits, signed)), true
		}
	case token.SHR:
		if y.op == OInt && y.val.IsInt64() && y.val.Int64() < 64 {
			m := new(big.Int).Lsh(bi(1), uint(y.val.Int64()))
			return scalar(rt, DivE(x, IntB(m))), true
		}
	}
	lo, hi := intRange(bits, signed)
	t := UF(fmt.Sprintf("bit%s:%d", op, bits), SInt, lo, hi, x, y)
	if x.op == OInt && y.op == OInt {
		z := new(big.Int)
		switch op {
		case token.AND:
			z.And(x.val, y.val)
		case token.OR:
			z.Or(x.val, y.val)
		case token.XOR:
			z.Xor(x.val, y.val)
		case token.AND_NOT:
			z.AndNot(x.val, y.val)
		default:
			return scalar(rt, t), true
		}
		return scalar(rt, IntB(z)), true
	}
	return scalar(rt, t), true
}

func (e *Eng) unop(st *State, fr *Frame, x *ssa.UnOp) bool {
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		p := resolve(st.guard, v.L[0])
		if !e.nilCheck(st, fr, p, x.Pos(), "(load)") {
			return false
		}
		if !e.guardCheck(st, fr, p, x.Pos(), false) {
			return false
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if gv, ok := e.externGlobal(st, g); ok {
				e.set(fr, x, gv)
				return true
			}
		}
		e.set(fr, x, e.load(st, p, x.Type()))
	case token.NOT:
		e.set(fr, x, scalar(x.Type(), Not(v.L[0])))
	case token.SUB:
		bt := x.Type().Underlying().(*types.Basic)
		if bt.Info()&types.IsFloat != 0 {
			e.set(fr, x, scalar(x.Type(), UF("fneg", SFloat, nil, nil, v.L[0])))
			return true
		}
		bits, signed := intBits(bt)
		if nm, _ := named(x.Type()); nm == "kv.Int" {
			e.set(fr, x, scalar(x.Type(), Neg(v.L[0])))
			return true
		}
		e.set(fr, x, scalar(x.Type(), Wrap(Neg(v.L[0]), bits, signed)))
	case token.XOR:
		bt := x.Type().Underlying().(*types.Basic)
		bits, signed := intBits(bt)
		e.set(fr, x, scalar(x.Type(), Wrap(Sub(Neg(v.L[0]), One), bits, signed)))
	case token.ARROW:
		e.bump(st, "ghost:blocking")
		e.chSet(st, "offered", resolve(st.guard, v.L[0]), True, falses)
		val, ok := e.chanRecv(st, x.X.Type(), resolve(st.guard, v.L[0]))
		if x.CommaOk {
			e.set(fr, x, Val{T: x.Type(), L: append(append([]*Term(nil), val.L...), ok)})
		} else {
			e.set(fr, x, val)
		}
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
	return true
}

// externGlobal: variables of packages without source are constant, non-nil unknowns.
func (e *Eng) externGlobal(st *State, g *ssa.Global) (Val, bool) {
	if e.W.P.pkgs[g.Pkg.Pkg.Path()] != nil {
		return Val{}, false
	}
	t := deref(g.Type())
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	v := Val{T: t}
	for i, l := range flatten(t) {
		lo, hi := leafBounds(l, bi(-1))
		if l.Kind == LITag {
			lo = bi(1)
		}
		if l.Kind == LIVal || l.Kind == LRef || l.Kind == LSBase {
			// distinct objects for distinct variables
			v.L = append(v.L, e.externObj(name, i))
			continue
		}
		v.L = append(v.L, NamedSym(fmt.Sprintf("X:%s#%d", name, i), l.Sort, lo, hi))
	}
	e.trust("package variable " + name + " is constant and non-nil")
	return v, true
}

var externObjs = map[string]*Term{}

func (e *Eng) externObj(name string, i int) *Term {
	k := fmt.Sprintf("%s#%d", name, i)
	if t, ok := externObjs[k]; ok {
		return t
	}
	t := IntB(new(big.Int).Add(refLo, bi(int64(1+len(externObjs)))))
	externObjs[k] = t
	return t
}

func (e *Eng) trust(s string) {
	if e.trusted != nil {
		e.trusted[s] = true
	}
}

func (e *Eng) convert(st *State, v Val, t types.Type) Val {
	from, to := v.T.Underlying(), t.Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok:
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if nm, _ := named(t); nm == "kv.Int" {
				return conv(v, t)
			}
			bits, signed := intBits(tb)
			return scalar(t, Wrap(v.L[0], bits, signed))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return conv(v, t)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return scalar(t, UF("i2f", SFloat, nil, nil, v.L[0]))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return conv(v, t)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			bits, signed := intBits(tb)
			lo, hi := intRange(bits, signed)
			return scalar(t, wholeSecs(v.L[0], func(q *Term) *Term { return Wrap(q, bits, signed) }, UF(fmt.Sprintf("f2i%d%v", bits, signed), SInt, lo, hi, v.L[0])))
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			if v.L[0].op == OInt {
				return scalar(t, StrT(string(rune(v.L[0].val.Int64()))))
			}
			return scalar(t, UF("runestr", SStr, nil, nil, v.L[0]))
		}
	case fok && fb.Info()&types.IsString != 0:
		if sl, ok := to.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return e.bytesOf(st, v.L[0], t)
			}
		}
	case tok && tb.Info()&types.IsString != 0:
		if sl, ok := from.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return scalar(t, e.strOf(st, v))
			}
		}
	}
	if len(flatten(v.T)) == len(flatten(t)) {
		return conv(v, t)
	}
	panic(unsupported("convert " + v.T.String() + " to " + t.String()))
}

func byteElemReg(t types.Type) string {
	return fmt.Sprintf("e:%s#0", tkey(t.Underlying().(*types.Slice).Elem()))
}

func bytesTerm(s *Term) *Term {
	if s.op == OUF && strings.HasPrefix(s.name, "strof.") && s.args[1] == Zero {
		return s.args[0]
	}
	return UF("bytesof", ArrSort(SInt, SInt), bi(0), bi(255), s)
}

// bytesOf: []byte(s)
func (e *Eng) bytesOf(st *State, s *Term, t types.Type) Val {
	p := e.allocRef()
	name := byteElemReg(t)
	r := e.reg(st, name, regSort('e', SInt), Leaf{Kind: LInt, Sort: SInt, lo: bi(0), hi: bi(255)})
	e.setReg(st, name, Store(r, p, bytesTerm(s)), p)
	return Val{T: t, L: []*Term{p, Zero, StrLen(s)}}
}

func strofTerm(arr, off, n *Term) *Term {
	if n == Zero {
		return StrT("")
	}
	if arr.op == OIte {
		return Ite(arr.args[0], strofTerm(arr.args[1], off, n), strofTerm(arr.args[2], off, n))
	}
	if n.op == OIte {
		return Ite(n.args[0], strofTerm(arr, off, n.args[1]), strofTerm(arr, off, n.args[2]))
	}
	if arr.op == OUF && strings.HasPrefix(arr.name, "bytesof.") && off == Zero {
		s := arr.args[0]
		if n == StrLen(s) {
			return s
		}
		return StrSub(s, Zero, n)
	}
	return UF("strof", SStr, nil, nil, arr, off, n)
}

func (e *Eng) strOf(st *State, v Val) *Term {
	v = resolveVal(st.guard, v)
	return e.strOf1(st, v.L[0], v.L[1], v.L[2], v.T)
}

func (e *Eng) strOf1(st *State, b, off, n *Term, t types.Type) *Term {
	if b.op == OIte {
		c := b.args[0]
		x, y := off, off
		if off.op == OIte && off.args[0] == c {
			x, y = off.args[1], off.args[2]
		}
		n1, n2 := n, n
		if n.op == OIte && n.args[0] == c {
			n1, n2 = n.args[1], n.args[2]
		}
		return Ite(c, e.strOf1(st, b.args[1], x, n1, t), e.strOf1(st, b.args[2], y, n2, t))
	}
	if b == Zero {
		return StrT("")
	}
	r := e.reg(st, byteElemReg(t), regSort('e', SInt), Leaf{Kind: LInt, Sort: SInt, lo: bi(0), hi: bi(255)})
	s := strofTerm(Select(r, b), off, n)
	if s.op == OUF && len(s.bounds) == 0 {
		e.rawFact(Eq(StrLen(s), n), "len of bytes")
	}
	return s
}

func (e *Eng) rawFact(c *Term, why string) {
	if c == True || len(c.bounds) > 0 || e.factSeen[c.id] {
		return
	}
	e.factSeen[c.id] = true
	e.fjournal = append(e.fjournal, c.id)
	e.facts = append(e.facts, Fact{t: c, seq: len(e.facts), why: why})
}

func (e *Eng) sliceOp(st *State, fr *Frame, x *ssa.Slice) bool {
	v := resolveVal(st.guard, e.val(fr, x.X))
	var lo, hi *Term = Zero, nil
	if x.Low != nil {
		lo = resolve(st.guard, e.val(fr, x.Low).L[0])
	}
	if x.High != nil {
		hi = resolve(st.guard, e.val(fr, x.High).L[0])
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		n := StrLen(v.L[0])
		if hi == nil {
			hi = n
		}
		if !e.safe(st, fr, And(Le(Zero, lo), Le(lo, hi), Le(hi, n)), x.Pos(), "slice bounds out of range") {
			return false
		}
		e.set(fr, x, scalar(x.Type(), StrSub(v.L[0], lo, Sub(hi, lo))))
	case *types.Slice:
		if hi == nil {
			hi = v.L[2]
		}
		if !e.safe(st, fr, And(Le(Zero, lo), Le(lo, hi), Le(hi, v.L[2])), x.Pos(), "slice bounds out of range (len)") {
			return false
		}
		e.set(fr, x, Val{T: x.Type(), L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo)}})
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if !e.nilCheck(st, fr, v.L[0], x.Pos(), "(slice of array)") {
			return false
		}
		if asIPtr(v.L[0]) != nil {
			panic(unsupported("slice of embedded array"))
		}
		n := IntT(at.Len())
		if hi == nil {
			hi = n
		}
		if !e.safe(st, fr, And(Le(Zero, lo), Le(lo, hi), Le(hi, n)), x.Pos(), "slice bounds out of range") {
			return false
		}
		e.set(fr, x, Val{T: x.Type(), L: []*Term{v.L[0], lo, Sub(hi, lo)}})
	default:
		panic(unsupported("slice of " + x.X.Type().String()))
	}
	return true
}

func (e *Eng) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) bool {
	v := resolveVal(st.guard, e.val(fr, x.X))
	tag := v.L[0]
	var ok *Term
	var out Val
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = e.implementsTag(tag, it, x.AssertedType)
		out = Val{T: x.AssertedType, L: v.L}
		if x.CommaOk {
			out = iteVal(ok, out, zeroVal(x.AssertedType))
		}
	} else {
		ok = Eq(tag, IntT(typeID(x.AssertedType)))
		out = unbox(v.L[1], x.AssertedType)
		if pointerLike(x.AssertedType) {
			// same
		}
		if x.CommaOk {
			out = iteVal(ok, out, zeroVal(x.AssertedType))
		}
	}
	ok = simpUnder(st.guard, ok)
	if x.CommaOk {
		e.set(fr, x, Val{T: x.Type(), L: append(append([]*Term(nil), out.L...), ok)})
		return true
	}
	if !e.safe(st, fr, ok, x.Pos(), "failing type assertion") {
		return false
	}
	e.set(fr, x, conv(out, x.Type()))
	return true
}

func (e *Eng) implementsTag(tag *Term, it *types.Interface, at types.Type) *Term {
	if tag == Zero {
		return False
	}
	if it.NumMethods() == 0 {
		return Neq(tag, Zero)
	}
	if tag.op == OInt {
		t := typeByID[tag.val.Int64()]
		if t != nil {
			return BoolT(types.Implements(t, it))
		}
	}
	if tag.op == OIte {
		return Ite(tag.args[0], e.implementsTag(tag.args[1], it, at), e.implementsTag(tag.args[2], it, at))
	}
	return And(Neq(tag, Zero), UF("impl:"+tkey(at), SBool, nil, nil, tag))
}

// ---- map iteration ----

func (e *Eng) next(st *State, fr *Frame, x *ssa.Next) bool {
	if x.IsString {
		panic(unsupported("range over string"))
	}
	it := fr.iters[x.Iter]
	m := mapOf(it.mt)
	vis := st.regs[it.reg]
	tt := x.Type().(*types.Tuple)
	has0 := it.has0
	if it.ref == Zero {
		has0 = ConstArr(m.ks, False)
	}
	// known empty
	if has0.op == OConstArr {
		v := Val{T: tt, L: []*Term{False}}
		v.L = append(v.L, zeroVal(tt.At(1).Type()).L...)
		v.L = append(v.L, zeroVal(tt.At(2).Type()).L...)
		e.set(fr, x, v)
		return true
	}
	has := resolve(st.guard, e.mapHasRaw(st, m, it.ref))
	ok := NewSym("next", SBool, nil, nil)
	var kv Val
	var kt *Term
	if len(m.kl) == 1 {
		lo, hi := leafBounds(m.kl[0], bi(0))
		kt = NewSym("key", m.ks, lo, hi)
		kv = scalar(m.mt.Key(), kt)
	} else {
		kt = NewSym("key", SInt, nil, nil)
		kv = unbox(kt, m.mt.Key())
	}
	it.key = kt
	e.fact(st, Implies(ok, And(Select(has, kt), Not(Select(vis, kt)))), "range")
	b := NewBound(m.ks, nil, nil)
	e.fact(st, Implies(Not(ok), Forall([]*Term{b}, Implies(And(Select(has0, b), Select(has, b)), Select(vis, b)))), "range end")
	v := Val{T: tt, L: []*Term{ok}}
	if len(flatten(tt.At(1).Type())) == len(kv.L) {
		v.L = append(v.L, kv.L...)
	} else {
		v.L = append(v.L, zeroVal(tt.At(1).Type()).L...)
	}
	if len(flatten(tt.At(2).Type())) == len(m.vl) && len(m.vl) > 0 {
		vv := Val{T: m.mt.Elem()}
		for i := range m.vl {
			vv.L = append(vv.L, Select(resolve(st.guard, e.mapValRaw(st, m, it.ref, i)), kt))
		}
		e.wfMapVal(vv, True)
		v.L = append(v.L, vv.L...)
	} else {
		v.L = append(v.L, zeroVal(tt.At(2).Type()).L...)
	}
	nv := Ite(ok, Store(vis, kt, True), vis)
	st.regs[it.reg] = nv
	for _, l := range e.logs {
		*l = append(*l, writeRec{reg: it.reg, key: nil})
	}
	e.set(fr, x, v)
	return true
}

// ---- channels ----

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func (e *Eng) chReg(st *State, what string, s *Sort, def *Term) (string, *Term) {
	name := "ch:" + what
	if t, ok := st.regs[name]; ok {
		return name, t
	}
	if t, ok := e.baseVars[name]; ok {
		return name, t
	}
	var t *Term
	if def != nil {
		t = def
	} else {
		var lo, hi *big.Int
		if s == SInt {
			lo, hi = bi(0), maxLen
		}
		t = NamedSym("R:"+name, ArrSort(SInt, s), lo, hi)
	}
	e.baseVars[name] = t
	return name, t
}

func (e *Eng) chGet(st *State, what string, c *Term, s *Sort, def *Term) *Term {
	_, r := e.chReg(st, what, s, def)
	return Select(r, c)
}
func (e *Eng) chSet(st *State, what string, c *Term, v *Term, def *Term) {
	n, r := e.chReg(st, what, v.sort, def)
	e.setReg(st, n, Store(r, c, v), c)
}

var zeroInts = ConstArr(SInt, Zero)
var falses = ConstArr(SInt, False)

func (e *Eng) chanInit(st *State, t types.Type, c, size *Term) {
	e.chSet(st, "cap", c, size, nil)
	e.chSet(st, "len", c, Zero, nil)
	e.chSet(st, "sent", c, Zero, zeroInts)
	e.chSet(st, "closed:"+tkey(chanElem(t)), c, False, falses)
}

func (e *Eng) chanSend(st *State, fr *Frame, t types.Type, c *Term, v Val, pos token.Pos) {
	e.safe(st, fr, Not(e.chGet(st, "closed:"+tkey(chanElem(t)), c, SBool, falses)), pos, "send on closed channel")
	n := e.chGet(st, "sent", c, SInt, zeroInts)
	et := chanElem(t)
	if !fr.spec {
		if g, d := e.chanInv(st, conv(v, et)); g != nil {
			e.oblige(st, "ensures", strings.Join(d.tags(), ",")+":what is sent is a proper message ("+d.Fn.Name()+")", nil, g, pos)
		}
	}
	for i, l := range flatten(et) {
		what := fmt.Sprintf("elems:%s#%d", tkey(et), i)
		_, r := e.chReg(st, what, ArrSort(SInt, l.Sort), ConstArr(SInt, ConstArr(SInt, zeroLeaf(l))))
		e.chSet(st, what, c, Store(Select(r, c), n, v.L[i]), nil)
	}
	e.chSet(st, "sent", c, Add(n, One), zeroInts)
	e.chSet(st, "len", c, Add(e.chGet(st, "len", c, SInt, nil), One), nil)
}

func (e *Eng) chanRecv(st *State, t types.Type, c *Term) (Val, *Term) {
	v := e.freshVal(st, chanElem(t), "recv", e.gap())
	ok := NewSym("recvok", SBool, nil, nil)
	e.recvInv(st, ok, v)
	v = iteVal(ok, v, zeroVal(chanElem(t)))
	e.recvFact(st, c, ok, v)
	e.chanRecvd(st, t, c, v)
	return v, ok
}

// chanInv evaluates the invariant of messages of v's type (//kv:chaninv), nil if there is none.
func (e *Eng) chanInv(st *State, v Val) (*Term, *Directive) {
	d := e.W.chaninvs[tkey(v.T)]
	if d == nil {
		return nil, nil
	}
	s := st.clone()
	s.defers = nil
	e.noObl++
	rs, ok := e.run(s, d.Fn, []Val{v}, nil, nil, 'm')
	e.noObl--
	if !ok {
		return nil, nil
	}
	return rs[0].L[0], d
}

// recvInv: what is received satisfies the invariant of its type.
func (e *Eng) recvInv(st *State, ok *Term, v Val) {
	if c, _ := e.chanInv(st, v); c != nil {
		e.fact(st, Implies(ok, c), "message invariant")
	}
}

// recvFact: a receive fails only if the channel was closed.
func (e *Eng) recvFact(st *State, c, ok *Term, v Val) {
	if len(v.L) > 0 && pointerLike(v.T) {
		e.fact(st, Implies(And(ok, e.chGet(st, "nonnil", c, SBool, falses)), Neq(v.L[0], Zero)), "recv")
	}
	other := And(NewSym("closedbyother", SBool, nil, nil), Not(e.chGet(st, "open", c, SBool, falses)))
	e.fact(st, Or(ok, e.chGet(st, "closed:"+tkey(v.T), c, SBool, falses), other), "recv")
}

// chanRecvd records a value received.
func (e *Eng) chanRecvd(st *State, t types.Type, c *Term, v Val) {
	e.bumpBy(st, "ghost:recv", One)
	e.bumpBy(st, "ghost:recv:"+tkey(chanElem(t)), One)
	n := e.chGet(st, "rcvd:"+tkey(chanElem(t)), c, SInt, zeroInts)
	et := chanElem(t)
	for i, l := range flatten(et) {
		what := fmt.Sprintf("got:%s#%d", tkey(et), i)
		_, r := e.chReg(st, what, ArrSort(SInt, l.Sort), ConstArr(SInt, ConstArr(SInt, zeroLeaf(l))))
		e.chSet(st, what, c, Store(Select(r, c), n, v.L[i]), nil)
	}
	e.chSet(st, "rcvd:"+tkey(chanElem(t)), c, Add(n, One), zeroInts)
}

func (e *Eng) bump(st *State, name string) { e.bumpBy(st, name, One) }
func (e *Eng) bumpBy(st *State, name string, d *Term) {
	t := e.ghostInt(st, name)
	e.setReg(st, name, Add(t, d), nil)
}
func (e *Eng) ghostInt(st *State, name string) *Term {
	if t, ok := st.regs[name]; ok {
		return t
	}
	e.baseVars[name] = Zero
	return Zero
}

func (e *Eng) selectStmt(st *State, fr *Frame, x *ssa.Select) bool {
	tt := x.Type().(*types.Tuple)
	idx := NewSym("select", SInt, bi(-1), bi(int64(len(x.States)-1)))
	if x.Blocking {
		idx = NewSym("select", SInt, bi(0), bi(int64(len(x.States)-1)))
		e.bump(st, "ghost:blocking")
	}
	recvOk := NewSym("recvok", SBool, nil, nil)
	var ready []*Term
	var ins []edgeIn
	var recvs []Val
	out := Val{T: tt, L: []*Term{idx, recvOk}}
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			e.chSet(st, "offered", resolve(st.guard, e.val(fr, s.Chan).L[0]), True, falses)
		}
	}
	for i, s := range x.States {
		c := resolve(st.guard, e.val(fr, s.Chan).L[0])
		var rd *Term
		if s.Dir == types.SendOnly {
			cp := e.chGet(st, "cap", c, SInt, nil)
			ln := e.chGet(st, "len", c, SInt, nil)
			w := NewSym("rcvwaiting", SBool, nil, nil)
			rd = Ite(Gt(cp, Zero), Lt(ln, cp), w)
		} else {
			rd = NewSym("ready", SBool, nil, nil)
		}
		rd = And(Neq(c, Zero), rd)
		ready = append(ready, rd)
		s1 := st.clone()
		var dead bool
		s1.guard, dead = s1.guard.add(Eq(idx, IntT(int64(i))))
		if s.Dir == types.SendOnly {
			if !dead {
				e.chanSend(s1, fr, s.Chan.Type(), c, e.val(fr, s.Send), x.Pos())
			}
		} else {
			et := chanElem(s.Chan.Type())
			v := e.freshVal(st, et, "recv", e.gap())
			if !dead {
				e.recvInv(s1, recvOk, v)
			}
			v = iteVal(recvOk, v, zeroVal(et))
			recvs = append(recvs, v)
			if !dead {
				e.recvFact(s1, c, recvOk, v)
				e.chanRecvd(s1, s.Chan.Type(), c, v)
			}
		}
		e.fact(st, Implies(Eq(idx, IntT(int64(i))), rd), "select ready")
		if !dead {
			ins = append(ins, edgeIn{st: s1})
		}
	}
	if !x.Blocking {
		s1 := st.clone()
		var dead bool
		s1.guard, dead = s1.guard.add(Eq(idx, IntT(-1)))
		e.fact(st, Implies(Eq(idx, IntT(-1)), Not(Or(ready...))), "select default")
		if !dead {
			ins = append(ins, edgeIn{st: s1})
		}
	}
	if len(ins) == 0 {
		return false
	}
	base := st.guard
	m, _ := e.merge(ins)
	m.guard = base
	*st = *m
	for _, r := range recvs {
		out.L = append(out.L, r.L...)
	}
	e.set(fr, x, out)
	return true
}

// ---- goroutines ----

func (e *Eng) spawn(st *State, fr *Frame, cc *ssa.CallCommon, fv Val, args []Val) {
	e.bump(st, "ghost:spawned")
	if f := spawnTarget(cc); f != nil {
		e.bump(st, "ghost:spawned:"+fnKey(f))
	}
	r := spawnRec{cond: True, args: args}
	if cc.IsInvoke() {
		panic(unsupported("go on interface method"))
	}
	if f := cc.StaticCallee(); f != nil && len(fv.L) == 0 {
		r.sfn = f
	} else {
		r.fn = fv.L[0]
	}
	r.call = cc
	st.spawns = append(st.spawns[:len(st.spawns):len(st.spawns)], r)
}

// spawnTarget is the function a goroutine runs, also through a closure that only calls it.
func spawnTarget(cc *ssa.CallCommon) *ssa.Function {
	f := cc.StaticCallee()
	for i := 0; f != nil && i < 3 && f.Parent() != nil; i++ {
		var callee *ssa.Function
		n := 0
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					n++
					callee = c.Call.StaticCallee()
				}
			}
		}
		if n != 1 {
			return f
		}
		f = callee
	}
	return f
}

// ---- guarded fields ----

func (e *Eng) guardCheck(st *State, fr *Frame, p *Term, pos token.Pos, write bool) bool {
	if fr.spec || len(e.W.guards) == 0 {
		return true
	}
	ip := asIPtr(p)
	if ip == nil || ip.kind != 'o' {
		return true
	}
	for _, g := range e.W.guards {
		if g.typ != ip.root {
			continue
		}
		stt := ip.rt.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			off, n := fieldOff(stt, i)
			if ip.off >= off && ip.off < off+n && g.field[stt.Field(i).Name()] {
				base := p.args[0]
				if base.op == OInt && base.val.Sign() > 0 {
					return true // object created during this unit, not yet shared
				}
				held := e.heldTerm(st, base, ip.rt, g.mu)
				if held == nil {
					return true
				}
				if write {
					e.obligeTag(st, "guard", fmt.Sprintf("lock %s held for writing when changing %s", g.mu, stt.Field(i).Name()), g.props, Eq(held, One), pos)
				} else {
					e.obligeTag(st, "guard", fmt.Sprintf("lock %s held when accessing %s", g.mu, stt.Field(i).Name()), g.props, Neq(held, Zero), pos)
				}
				return true
			}
		}
	}
	return true
}

// guardMap: a change of a map held in a guarded field needs the lock for writing.
func (e *Eng) guardMap(st *State, fr *Frame, m ssa.Value, pos token.Pos) {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		if _, ok := u.X.(*ssa.FieldAddr); ok {
			e.guardCheck(st, fr, resolve(st.guard, e.val(fr, u.X).L[0]), pos, true)
		}
	}
}

func (e *Eng) heldTerm(st *State, base *Term, rt types.Type, mu string) *Term {
	stt := rt.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == mu {
			off, _ := fieldOff(stt, i)
			a := fieldAddr(base, rt, off)
			return e.load(st, a, stt.Field(i).Type()).L[0]
		}
	}
	return nil
}

func (e *Eng) obligeTag(st *State, kind, name string, props []string, goal *Term, pos token.Pos) {
	e.oblige(st, kind, name, props, goal, pos)
}
