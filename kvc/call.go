package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pkgPrefix = "github.com/kacheio/kache/pkg/"

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func stripTP(s string) string {
	for {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			return s
		}
		d := 0
		j := i
		for ; j < len(s); j++ {
			if s[j] == '[' {
				d++
			} else if s[j] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j >= len(s) {
			return s
		}
		s = s[:i] + s[j+1:]
	}
}

func fnKey(fn *ssa.Function) string {
	return stripTP(strings.ReplaceAll(origin(fn).String(), pkgPrefix, ""))
}

// fullName: as in go/types, type arguments stripped.
func fullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return stripTP(o.Origin().FullName())
	}
	return stripTP(origin(fn).String())
}

func (e *Eng) callArgs(st *State, fr *Frame, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, resolveVal(st.guard, e.val(fr, a)))
	}
	if cc.IsInvoke() {
		return resolveVal(st.guard, e.val(fr, cc.Value)), args
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin, *ssa.Function:
		return Val{T: v.Type()}, args
	}
	return resolveVal(st.guard, e.val(fr, cc.Value)), args
}

func (e *Eng) doCall(st *State, fr *Frame, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos) ([]Val, bool) {
	if cc.IsInvoke() {
		return e.invoke(st, fr, cc.Method, cc.Value.Type(), fv, args, pos)
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(st, fr, v, cc, args, pos)
	case *ssa.Function:
		return e.callFn(st, fr, v, args, nil, pos)
	}
	return e.callVal(st, fr, fv, cc.Signature(), args, pos)
}

// callVal calls a function value.
func (e *Eng) callVal(st *State, fr *Frame, fv Val, sig *types.Signature, args []Val, pos token.Pos) ([]Val, bool) {
	f := resolve(st.guard, fv.L[0])
	if f.op == OIte {
		a, b := fv, fv
		a.L, b.L = []*Term{f.args[1]}, []*Term{f.args[2]}
		return e.splitRun(st, f.args[0], func(s *State) ([]Val, bool) {
			return e.callVal(s, fr, a, sig, args, pos)
		}, func(s *State) ([]Val, bool) {
			return e.callVal(s, fr, b, sig, args, pos)
		})
	}
	if !e.nilCheck(st, fr, f, pos, "(call of nil function)") {
		return nil, false
	}
	if c := closureOf(f); c != nil {
		return e.callClosure(st, fr, c, args, pos)
	}
	// unknown function value: model by its named type or signature
	keys := []string{}
	if n, _ := named(fv.T); n != "" {
		keys = append(keys, "func:"+n)
	}
	keys = append(keys, "func:"+types.TypeString(sig, nil))
	for _, k := range keys {
		if m := e.W.models[k]; m != nil {
			e.trust("assumed contract (model) of unknown function values " + k)
			return e.runModel(st, m, append([]Val{fv}, args...))
		}
	}
	e.trust("unknown function value of type " + keys[0] + ": arbitrary results, no effect on modelled state")
	return e.havocResults(st, "callfv", sig.Results()), true
}

func (e *Eng) callClosure(st *State, fr *Frame, c *Closure, args []Val, pos token.Pos) ([]Val, bool) {
	if c.fn == nil {
		panic(unsupported("closure without function"))
	}
	return e.callFn(st, fr, c.fn, args, c.binds, pos)
}

func (e *Eng) havocResults(st *State, hint string, res *types.Tuple) []Val {
	var out []Val
	hi := e.gap()
	for i := 0; i < res.Len(); i++ {
		out = append(out, e.freshVal(st, res.At(i).Type(), "r:"+hint, hi))
	}
	return out
}

func (e *Eng) invoke(st *State, fr *Frame, m *types.Func, it types.Type, recv Val, args []Val, pos token.Pos) ([]Val, bool) {
	tag := resolve(st.guard, recv.L[0])
	if tag.op == OIte {
		c := tag.args[0]
		mk := func(i int) Val {
			v := recv.L[1]
			if v.op == OIte && v.args[0] == c {
				v = v.args[i]
			}
			return Val{T: recv.T, L: []*Term{tag.args[i], v}}
		}
		return e.splitRun(st, c, func(s *State) ([]Val, bool) {
			return e.invoke(s, fr, m, it, mk(1), args, pos)
		}, func(s *State) ([]Val, bool) {
			return e.invoke(s, fr, m, it, mk(2), args, pos)
		})
	}
	if tag == Zero {
		if !e.safe(st, fr, False, pos, "nil dereference (method call on nil interface)") {
			return nil, false
		}
		if fr.spec {
			return e.havocResults(st, "nilcall", m.Type().(*types.Signature).Results()), true
		}
		return nil, false
	}
	if tag.op == OInt {
		t := typeByID[tag.val.Int64()]
		if t == nil {
			panic(unsupported("unknown dynamic type"))
		}
		fn := e.W.P.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			return nil, false // impossible
		}
		return e.callFn(st, fr, fn, append([]Val{unbox(recv.L[1], t)}, args...), nil, pos)
	}
	if !e.safe(st, fr, Neq(tag, Zero), pos, "nil dereference (method call on nil interface)") {
		return nil, false
	}
	name := stripTP(m.Origin().FullName())
	if f := intrinsics[name]; f != nil {
		return f(e, st, fr, append([]Val{recv}, args...), m.Type().(*types.Signature), pos)
	}
	if mf := e.W.models[name]; mf != nil {
		e.trust("assumed contract (model) of " + name)
		return e.runModel(st, mf, append([]Val{recv}, args...))
	}
	e.trust("interface method " + name + ": arbitrary results, no effect on modelled state")
	return e.havocResults(st, m.Name(), m.Type().(*types.Signature).Results()), true
}

func (e *Eng) runModel(st *State, m *ssa.Function, args []Val) ([]Val, bool) {
	if ps := m.Signature.Params(); len(args) > 0 && ps.Len() > 0 && types.IsInterface(ps.At(0).Type()) && !types.IsInterface(args[0].T) {
		// methods promoted from an embedded struct: the record belongs to the outer object
		a := args[0]
		if len(a.L) == 1 {
			if ip := asIPtr(a.L[0]); ip != nil && ip.kind == 'o' && ip.off == 0 {
				a = Val{T: a.T, L: []*Term{a.L[0].args[0]}}
			}
		}
		args = append([]Val{box(a, ps.At(0).Type())}, args[1:]...)
	}
	return e.run(st, m, args, nil, nil, 'm')
}

// sandwich finds the enclosing contract frame if fn is its target.
func (e *Eng) sandwich(fn *ssa.Function) *Frame {
	for i := len(e.stack) - 1; i >= 0; i-- {
		f := e.stack[i]
		if !f.spec {
			return nil
		}
		if f.target != nil {
			if f.target == origin(fn) {
				return f
			}
			return nil
		}
	}
	return nil
}

func isKV(fn *ssa.Function) bool {
	fn = origin(fn)
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == "kv"
}

func (e *Eng) onStack(fn *ssa.Function) int {
	n := 0
	for _, f := range e.stack {
		if origin(f.fn) == origin(fn) {
			n++
		}
	}
	return n
}

func (e *Eng) callFn(st *State, fr *Frame, fn *ssa.Function, args []Val, binds []Val, pos token.Pos) ([]Val, bool) {
	if isKV(fn) {
		return e.kvCall(st, fr, fn, args, pos)
	}
	sig := fn.Signature
	if fr.spec {
		if cf := e.sandwich(fn); cf != nil {
			if cf.mode == 'u' {
				return e.havocResults(st, fn.Name(), sig.Results()), true
			}
			return e.runTarget(st, cf, fn, args, binds)
		}
	}
	key := fnKey(fn)
	if !fr.spec {
		for _, d := range e.W.befores[key] {
			if !e.unit.flag("before=" + d.Fn.Name()) {
				continue
			}
			if _, ok := e.run(st, d.Fn, args[:len(d.Fn.Params)], nil, nil, 'i'); !ok {
				panic(unsupported(d.Fn.Name() + " does not return"))
			}
		}
	}
	if d := e.W.contracts[key]; d != nil && binds == nil && !e.W.disabled[key] && e.applyHere(d) {
		e.contracts[key] = true
		r, ok := e.run(st, d.Fn, args, nil, origin(fn), 'u')
		return r, ok
	}
	name := fullName(fn)
	// A bound method value (binds holds the receiver) runs its wrapper's body, which calls the method.
	bound := len(binds) > 0
	if f := intrinsics[name]; f != nil && !bound {
		return f(e, st, fr, args, sig, pos)
	}
	if m := e.W.models[name]; m != nil && !bound {
		e.trust("assumed contract (model) of " + name)
		return e.runModel(st, m, args)
	}
	if len(fn.Blocks) > 0 {
		if e.onStack(fn) > 1 {
			panic(unsupported("recursion without contract: " + fn.String()))
		}
		if !e.W.isSpec(fn) && fn.Synthetic == "" {
			e.inlined[key] = true
		}
		if fr.spec && !e.W.isSpec(fn) {
			e.noObl++
			defer func() { e.noObl-- }()
		}
		return e.run(st, fn, args, binds, nil, 'i')
	}
	if fn.Pkg != nil || fn.Object() != nil {
		pp := ""
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			pp = o.Pkg().Path()
		}
		if purePkgs[pp] {
			if r, ok := e.pureCall(st, name, args, sig); ok {
				return r, true
			}
		}
		e.havocked[name] = true
		if quietPkgs[pp] {
			e.trust("package " + pp + " has no effect on modelled state; arbitrary results")
		} else {
			e.trust("external function " + name + ": arbitrary results, no effect on modelled state")
		}
	}
	return e.havocResults(st, fn.Name(), sig.Results()), true
}

var quietPkgs = map[string]bool{
	"github.com/rs/zerolog": true, "github.com/rs/zerolog/log": true,
	"github.com/prometheus/client_golang/prometheus": true, "github.com/prometheus/client_golang/prometheus/promauto": true,
}

// applyHere: is the contract to be used at this call site?
func (e *Eng) applyHere(d *Directive) bool { return d.Kind == "contract" && !d.flag("verify-only") }

func (d *Directive) flag(s string) bool {
	for _, a := range d.Args {
		if a == s {
			return true
		}
	}
	return false
}

// runTarget executes the real body of the function whose contract is being verified.
func (e *Eng) runTarget(st *State, cf *Frame, fn *ssa.Function, args, binds []Val) ([]Val, bool) {
	pre := st.clone()
	ref0 := e.epoch()
	var logs []writeRec
	e.logs = append(e.logs, &logs)
	e.inTarget++
	r, ok := e.run(st, fn, args, binds, nil, 'i')
	e.inTarget--
	e.logs = e.logs[:len(e.logs)-1]
	if !ok {
		return r, false
	}
	if cf.frameCheck || e.unit.Dir != nil && e.applyHere(e.unit.Dir) {
		e.checkFrame(st, pre, cf, logs, ref0, fn)
	}
	return r, true
}

func (e *Eng) checkFrame(st, pre *State, cf *Frame, logs []writeRec, ref0 *big.Int, fn *ssa.Function) {
	type rk struct {
		reg string
		key *Term
	}
	seen := map[rk]bool{}
	for _, w := range logs {
		if strings.HasPrefix(w.reg, "it:") || seen[rk{w.reg, w.key}] {
			continue
		}
		seen[rk{w.reg, w.key}] = true
		if w.key != nil && w.key.op == OInt && w.key.val.Cmp(ref0) > 0 {
			continue
		}
		var allowed []*Term
		free := false
		for _, m := range cf.modif {
			if m.reg != w.reg {
				continue
			}
			c := True
			if m.cond != nil {
				c = m.cond
			}
			switch {
			case c == True && (m.key == nil || m.key == w.key):
				free = true
			case m.key == nil:
				allowed = append(allowed, c)
			case w.key != nil:
				allowed = append(allowed, And(c, Eq(w.key, m.key)))
			}
		}
		if free {
			continue
		}
		a, b := e.regOf(st, w.reg), e.regOf(pre, w.reg)
		if a == nil || b == nil {
			continue
		}
		var same *Term
		if w.key == nil || a.sort.Kind != 'A' {
			same = Eq(a, b)
		} else {
			// objects allocated by the call itself are not part of the frame
			if w.key.lo != nil && w.key.lo.Cmp(ref0) > 0 {
				continue
			}
			allowed = append(allowed, Gt(w.key, IntB(ref0)), Eq(w.key, Zero))
			same = Or(append(allowed, Eq(Select(a, w.key), Select(b, w.key)))...)
		}
		if strings.HasPrefix(w.reg, "ghost:spawned:"+fnKey(fn)+"$") {
			continue // counted by ghost:spawned
		}
		e.oblige(st, "frame", "frame: "+fnKey(fn)+" does not change "+w.reg, nil, same, fn.Pos())
	}
}

type modEntry struct {
	reg  string
	key  *Term
	cond *Term // nil: always
}

// modEntries lists what a value given to kv.Modifies denotes.
func (e *Eng) modEntries(st *State, v Val) []modEntry {
	t := typeOfIface(st, v)
	if t == nil {
		panic(unsupported("kv.Modifies: unknown dynamic type"))
	}
	x := unbox(v.L[1], t)
	var out []modEntry
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := resolve(st.guard, x.L[0])
		if p.op == OIte {
			arm := func(q, c *Term) {
				w := v
				w.L = append([]*Term{}, v.L...)
				w.L[1] = q
				for _, m := range e.modEntries(st, w) {
					if m.cond == nil {
						m.cond = c
					} else {
						m.cond = And(c, m.cond)
					}
					out = append(out, m)
				}
			}
			arm(p.args[1], p.args[0])
			arm(p.args[2], Not(p.args[0]))
			// one object either way: a single entry
			if len(out) == 2 && out[0].reg == out[1].reg && out[0].cond == Not(out[1].cond) && out[0].key != nil && out[1].key != nil {
				out = []modEntry{{reg: out[0].reg, key: Ite(p.args[0], out[0].key, out[1].key)}}
			}
			return out
		}
		a, _ := e.addrOf(p, u.Elem())
		for i, l := range flatten(u.Elem()) {
			switch a.kind {
			case 'A':
				n := fmt.Sprintf("e:%s#%d", a.root, i)
				e.reg(st, n, ArrSort(SInt, l.Sort), l)
				out = append(out, modEntry{reg: n, key: a.base})
			case 'g':
				e.reg(st, regName(a, i), l.Sort, l)
				out = append(out, modEntry{reg: regName(a, i)})
			default:
				e.reg(st, regName(a, i), regSort(a.kind, l.Sort), l)
				out = append(out, modEntry{reg: regName(a, i), key: a.base})
			}
		}
	case *types.Map:
		m := mapOf(t)
		e.mapHas(st, m, x.L[0])
		e.mapLen(st, m, x.L[0])
		out = append(out, modEntry{reg: m.key + ".has", key: x.L[0]}, modEntry{reg: m.key + ".len", key: x.L[0]})
		for i := range m.vl {
			e.mapVal(st, m, x.L[0], i)
			out = append(out, modEntry{reg: fmt.Sprintf("%s.val#%d", m.key, i), key: x.L[0]})
		}
	case *types.Slice:
		for i, l := range flatten(u.Elem()) {
			n := fmt.Sprintf("e:%s#%d", tkey(u.Elem()), i)
			e.reg(st, n, regSort('e', l.Sort), l)
			out = append(out, modEntry{reg: n, key: x.L[0]})
		}
	default:
		panic(unsupported("kv.Modifies of " + t.String()))
	}
	return out
}

func (e *Eng) havocEntries(st *State, ms []modEntry) {
	hi := e.gap()
	for _, m := range ms {
		r := e.regOf(st, m.reg)
		var n *Term
		if m.key == nil {
			n = e.havocLeaf(m.reg, r.sort, hi, "hv:"+m.reg)
		} else {
			n = Store(r, m.key, e.havocLeaf(m.reg, r.sort.Elem, hi, "hv:"+m.reg))
		}
		if m.cond != nil {
			n = Ite(simpUnder(st.guard, m.cond), n, r)
		}
		e.setReg(st, m.reg, n, m.key)
	}
}

func typeOfIface(st *State, v Val) types.Type {
	tag := resolve(st.guard, v.L[0])
	if tag.op == OInt {
		return typeByID[tag.val.Int64()]
	}
	return nil
}

// sliceElems returns the elements of a slice with known length.
func (e *Eng) sliceElems(st *State, v Val) ([]Val, bool) {
	n := resolve(st.guard, v.L[2])
	if n.op != OInt || n.val.Int64() > 64 {
		return nil, false
	}
	et := v.T.Underlying().(*types.Slice).Elem()
	var out []Val
	for i := int64(0); i < n.val.Int64(); i++ {
		out = append(out, e.load(st, elemAddr(v.L[0], Add(v.L[1], IntT(i)), et), et))
	}
	return out, true
}

// ---- builtins ----

func (e *Eng) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos) ([]Val, bool) {
	sig := cc.Signature()
	rt := func() types.Type { return sig.Results().At(0).Type() }
	one := func(t *Term) ([]Val, bool) { return []Val{scalar(types.Typ[types.Int], t)}, true }
	switch b.Name() {
	case "len":
		a := args[0]
		switch u := a.T.Underlying().(type) {
		case *types.Basic:
			return one(StrLen(a.L[0]))
		case *types.Slice:
			return one(a.L[2])
		case *types.Map:
			return one(e.lenMap(st, a.T, a.L[0]))
		case *types.Chan:
			return one(e.chGet(st, "len", a.L[0], SInt, nil))
		case *types.Pointer:
			return one(IntT(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Array:
			return one(IntT(u.Len()))
		}
	case "cap":
		a := args[0]
		switch a.T.Underlying().(type) {
		case *types.Slice:
			n := NewSym("cap", SInt, bi(0), maxLen)
			e.fact(st, Ge(n, a.L[2]), "cap")
			return one(n)
		case *types.Chan:
			return one(e.chGet(st, "cap", a.L[0], SInt, nil))
		}
	case "append":
		return []Val{e.appendSlice(st, args[0], args[1])}, true
	case "copy":
		return []Val{e.copySlice(st, args[0], args[1])}, true
	case "delete":
		e.guardMap(st, fr, cc.Args[0], pos)
		e.mapDelete(st, args[0].T, args[0].L[0], args[1])
		return nil, true
	case "clear":
		if _, ok := args[0].T.Underlying().(*types.Map); ok {
			m := mapOf(args[0].T)
			ref := resolve(st.guard, args[0].L[0])
			if ref == Zero {
				return nil, true
			}
			e.setMap(st, m, ref, ConstArr(m.ks, False), Zero, nil)
			return nil, true
		}
	case "close":
		c := resolve(st.guard, args[0].L[0])
		if !e.nilCheck(st, fr, c, pos, "(close of nil channel)") {
			return nil, false
		}
		if !e.safe(st, fr, Not(e.chGet(st, "closed:"+tkey(chanElem(args[0].T)), c, SBool, falses)), pos, "close of closed channel") {
			return nil, false
		}
		e.chSet(st, "closed:"+tkey(chanElem(args[0].T)), c, True, falses)
		e.bump(st, "ghost:close:"+tkey(chanElem(args[0].T)))
		return nil, true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			bt := a.T.Underlying().(*types.Basic)
			var c *Term
			switch {
			case bt.Info()&types.IsString != 0:
				c = StrLess(a.L[0], r.L[0])
			case bt.Info()&types.IsFloat != 0:
				c = UF("f<", SBool, nil, nil, a.L[0], r.L[0])
			default:
				c = Lt(a.L[0], r.L[0])
			}
			if b.Name() == "max" {
				switch {
				case bt.Info()&types.IsString != 0:
					c = StrLess(r.L[0], a.L[0])
				case bt.Info()&types.IsFloat != 0:
					c = UF("f<", SBool, nil, nil, r.L[0], a.L[0])
				default:
					c = Lt(r.L[0], a.L[0])
				}
			}
			r = iteVal(simpUnder(st.guard, c), Val{T: r.T, L: a.L}, r)
		}
		return []Val{r}, true
	case "print", "println":
		return nil, true
	case "recover":
		return []Val{zeroVal(rt())}, true
	case "panic":
		e.doPanic(st, fr, pos, "explicit panic")
		return nil, false
	case "ssa:wrapnilchk":
		if !e.nilCheck(st, fr, args[0].L[0], pos, "(method value)") {
			return nil, false
		}
		return []Val{args[0]}, true
	}
	panic(unsupported("builtin " + b.Name()))
}

func (e *Eng) elemReg(st *State, et types.Type, i int) (string, *Term) {
	l := flatten(et)[i]
	name := fmt.Sprintf("e:%s#%d", tkey(et), i)
	return name, e.reg(st, name, regSort('e', l.Sort), l)
}

func (e *Eng) arrOf(st *State, et types.Type, i int, base *Term) *Term {
	base = resolve(st.guard, base)
	if base.op == OIte {
		return Ite(base.args[0], e.arrOf(st, et, i, base.args[1]), e.arrOf(st, et, i, base.args[2]))
	}
	if base == Zero {
		return ConstArr(SInt, zeroLeaf(flatten(et)[i]))
	}
	_, r := e.elemReg(st, et, i)
	return Select(r, base)
}

func (e *Eng) appendSlice(st *State, s, t Val) Val {
	et := s.T.Underlying().(*types.Slice).Elem()
	s = resolveVal(st.guard, s)
	t = resolveVal(st.guard, t)
	if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		t = e.bytesOf(st, t.L[0], s.T)
	}
	n2 := t.L[2]
	if n2 == Zero {
		return s
	}
	ls := flatten(et)
	// byte slices: concatenation of their contents
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && !(n2.op == OInt && n2.val.Int64() <= 8) {
		c := StrCat(e.strOf(st, s), e.strOf(st, t))
		v := e.bytesOf(st, c, s.T)
		isNil := And(Eq(s.L[0], Zero), Eq(n2, Zero))
		return iteVal(isNil, s, v)
	}
	p := e.allocRef()
	if n2.op == OInt && n2.val.Int64() <= 32 {
		for i := range ls {
			name, _ := e.elemReg(st, et, i)
			arr := e.arrOf(st, et, i, s.L[0])
			src := e.arrOf(st, et, i, t.L[0])
			for j := int64(0); j < n2.val.Int64(); j++ {
				arr = Store(arr, Add(Add(s.L[1], s.L[2]), IntT(j)), Select(src, Add(t.L[1], IntT(j))))
			}
			_, r := e.elemReg(st, et, i)
			e.setReg(st, name, Store(r, p, arr), p)
		}
		return Val{T: s.T, L: []*Term{p, s.L[1], Add(s.L[2], n2)}}
	}
	for i, l := range ls {
		name, _ := e.elemReg(st, et, i)
		a1, a2 := e.arrOf(st, et, i, s.L[0]), e.arrOf(st, et, i, t.L[0])
		var arr *Term
		if s.L[2] == Zero && t.L[1] == Zero {
			arr = a2
		} else {
			arr = e.concat(a1, s.L[1], s.L[2], a2, t.L[1], l)
		}
		_, r := e.elemReg(st, et, i)
		e.setReg(st, name, Store(r, p, arr), p)
	}
	v := Val{T: s.T, L: []*Term{p, Zero, Add(s.L[2], n2)}}
	return iteVal(Eq(n2, Zero), s, v)
}

// concat: array holding a1[o1..o1+n1) followed by a2[o2..).
func (e *Eng) concat(a1, o1, n1, a2, o2 *Term, l Leaf) *Term {
	arr := UF("concat", a1.sort, a1.llo, a1.lhi, a1, o1, n1, a2, o2)
	if len(arr.bounds) == 0 {
		b := NewBound(SInt, nil, nil)
		e.rawFact(Forall([]*Term{b}, Implies(Ge(b, Zero), Eq(Select(arr, b), Ite(Lt(b, n1), Select(a1, Add(o1, b)), Select(a2, Add(o2, Sub(b, n1))))))), "concat")
	}
	return arr
}

func (e *Eng) copySlice(st *State, d, s Val) Val {
	d, s = resolveVal(st.guard, d), resolveVal(st.guard, s)
	it := types.Typ[types.Int]
	if b, ok := s.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s = e.bytesOf(st, s.L[0], d.T)
	}
	et := d.T.Underlying().(*types.Slice).Elem()
	n := Ite(Lt(d.L[2], s.L[2]), d.L[2], s.L[2])
	if d.L[0] == Zero {
		return scalar(it, Zero)
	}
	base := d.L[0]
	if base.op == OIte {
		panic(unsupported("copy to conditional slice"))
	}
	for i := range flatten(et) {
		name, r := e.elemReg(st, et, i)
		old := Select(r, base)
		src := e.arrOf(st, et, i, s.L[0])
		var arr *Term
		arr = NewSym("copy", old.sort, old.llo, old.lhi)
		b := NewBound(SInt, nil, nil)
		in := And(Le(d.L[1], b), Lt(b, Add(d.L[1], n)))
		e.fact(st, Forall([]*Term{b}, Eq(Select(arr, b), Ite(in, Select(src, Add(s.L[1], Sub(b, d.L[1]))), Select(old, b)))), "copy")
		e.setReg(st, name, Store(r, base, arr), base)
	}
	return scalar(it, n)
}
