package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"net/textproto"
	"path"
	"regexp"
	"strconv"
	"strings"
	"time"
)

type intrFn func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool)

var intrinsics map[string]intrFn

var e9 = bi(1000000000)

func fold1(f func(string) string) func([]*Term) *Term {
	return func(a []*Term) *Term {
		if len(a) == 1 && a[0].op == OStr {
			return StrT(f(a[0].name))
		}
		return nil
	}
}

func fold2(f func(a, b string) string) func([]*Term) *Term {
	return func(a []*Term) *Term {
		if len(a) == 2 && a[0].op == OStr && a[1].op == OStr {
			return StrT(f(a[0].name, a[1].name))
		}
		return nil
	}
}

func (e *Eng) nowTerm(st *State) *Term {
	if t, ok := st.regs["ghost:now"]; ok {
		return t
	}
	if t, ok := e.baseVars["ghost:now"]; ok {
		return t
	}
	// any instant between 1970 and 2262
	lo := new(big.Int).Mul(bi(62135596800), e9)
	t := NamedSym("R:ghost:now", SInt, lo, new(big.Int).Add(lo, new(big.Int).SetUint64(1<<63-1)))
	e.baseVars["ghost:now"] = t
	return t
}

// tick advances the clock by an unknown non-negative amount.
func (e *Eng) tick(st *State) *Term {
	t := e.nowTerm(st)
	base := e.baseVars["ghost:now"]
	n := NewSym("now", SInt, base.lo, base.hi)
	e.fact(st, Le(t, n), "clock is nondecreasing")
	e.setReg(st, "ghost:now", n, nil)
	return n
}

func (e *Eng) lockOp(op string, rw bool) intrFn {
	return func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		p := resolve(st.guard, args[0].L[0])
		if p.op == OIte {
			run := func(i int) func(*State) ([]Val, bool) {
				return func(s *State) ([]Val, bool) {
					return e.lockOp(op, rw)(e, s, fr, []Val{{T: args[0].T, L: []*Term{p.args[i]}}}, sig, pos)
				}
			}
			return e.splitRun(st, p.args[0], run(1), run(2))
		}
		if !e.nilCheck(st, fr, p, pos, "(mutex)") {
			return nil, false
		}
		mt := deref(args[0].T)
		cur := e.load(st, p, mt).L[0]
		spec := fr.spec
		chk := func(c *Term, what string) bool {
			if spec {
				return true
			}
			c = simpUnder(st.guard, c)
			e.obligeTag(st, "lock", what, nil, c, pos)
			return c != False
		}
		set := func(v int64) {
			e.store(st, p, scalar(mt, IntT(v)))
			if spec {
				return
			}
			if v > 0 {
				e.bump(st, "ghost:lock.acquired")
				e.bump(st, "ghost:lock.held")
			} else {
				e.bumpBy(st, "ghost:lock.held", IntT(-1))
			}
		}
		switch op {
		case "Lock":
			if !chk(Eq(cur, Zero), "lock is not already held by this goroutine") {
				return nil, false
			}
			set(1)
			e.monitor(st, fr, p, true, pos)
		case "RLock":
			if !chk(Eq(cur, Zero), "lock is not already held by this goroutine") {
				return nil, false
			}
			set(2)
			e.monitor(st, fr, p, true, pos)
		case "Unlock":
			if !chk(Eq(cur, One), "unlock of held lock") {
				return nil, false
			}
			e.monitor(st, fr, p, false, pos)
			set(0)
		case "RUnlock":
			if !chk(Eq(cur, IntT(2)), "runlock of read-locked lock") {
				return nil, false
			}
			e.monitor(st, fr, p, false, pos)
			set(0)
		case "TryLock":
			ok := NewSym("trylock", SBool, nil, nil)
			r := And(Eq(cur, Zero), ok)
			return e.splitRun(st, r, func(s *State) ([]Val, bool) {
				e.store(s, p, scalar(mt, One))
				e.bump(s, "ghost:lock.acquired")
				e.bump(s, "ghost:lock.held")
				e.monitor(s, fr, p, true, pos)
				return []Val{scalar(types.Typ[types.Bool], True)}, true
			}, func(s *State) ([]Val, bool) { return []Val{scalar(types.Typ[types.Bool], False)}, true })
		}
		return nil, true
	}
}

// monitor applies the invariant of the monitor owning the mutex at p, if the unit enables it.
func (e *Eng) monitor(st *State, fr *Frame, p *Term, acquire bool, pos token.Pos) {
	if fr.spec {
		return
	}
	ip := asIPtr(p)
	if ip == nil || ip.kind != 'o' || len(p.args) == 0 {
		return
	}
	stt, ok := ip.rt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, m := range e.W.monitors {
		if !e.unit.flag("monitor=" + m.fn.Name()) {
			continue
		}
		pt := deref(m.fn.Params[0].Type())
		if tkey(pt) != ip.root {
			continue
		}
		for i := 0; i < stt.NumFields(); i++ {
			off, _ := fieldOff(stt, i)
			if off == ip.off && stt.Field(i).Name() == m.key {
				_, ok := e.run(st, m.fn, []Val{scalar(m.fn.Params[0].Type(), p.args[0]), scalar(types.Typ[types.Bool], BoolT(acquire))}, nil, nil, 'i')
				if !ok {
					panic(unsupported("monitor " + m.fn.Name() + " does not return"))
				}
			}
		}
	}
}

func (u *Unit) flag(s string) bool { return u != nil && u.Dir != nil && u.Dir.flag(s) }

func strOfIface(e *Eng, st *State, v Val, verb string) *Term {
	v = resolveVal(st.guard, v)
	if v.L[0].op == OIte || v.L[0].op != OInt {
		return UF("fmt:"+verb, SStr, nil, nil, v.L[0], v.L[1])
	}
	t := typeByID[v.L[0].val.Int64()]
	if t == nil {
		return UF("fmt:"+verb, SStr, nil, nil, v.L[0], v.L[1])
	}
	x := unbox(v.L[1], t)
	if b, ok := t.Underlying().(*types.Basic); ok {
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil {
			switch {
			case b.Info()&types.IsString != 0 && (verb == "s" || verb == "v"):
				return x.L[0]
			case b.Info()&types.IsInteger != 0 && (verb == "d" || verb == "v"):
				return itoa(x.L[0])
			case b.Info()&types.IsFloat != 0 && verb == ".0f":
				return wholeSecs(x.L[0], itoa, UF("fmt:"+verb+":"+tkey(t), SStr, nil, nil, x.L...))
			}
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && verb == "s" {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return e.strOf(st, x)
		}
	}
	if len(x.L) == 0 {
		return UF("fmt:"+verb+":"+tkey(t), SStr, nil, nil)
	}
	return UF("fmt:"+verb+":"+tkey(t), SStr, nil, nil, x.L...)
}

// wholeSecs: f applied to the number of seconds of a duration given as float, if it is whole.
func wholeSecs(x *Term, f func(*Term) *Term, other *Term) *Term {
	if x.op == OUF && strings.HasPrefix(x.name, "dur.Seconds.") {
		d, n := x.args[0], IntT(1000000000)
		return Ite(Eq(ModT(d, n), Zero), f(DivT(d, n)), other)
	}
	return other
}

func itoa(x *Term) *Term {
	if x.op == OInt {
		return StrT(x.val.String())
	}
	return UF("itoa", SStr, nil, nil, x)
}

func (e *Eng) sprintf(st *State, f *Term, va Val) *Term {
	es, ok := e.sliceElems(st, va)
	if f.op != OStr || !ok {
		args := []*Term{f}
		if ok {
			for _, x := range es {
				args = append(args, x.L...)
			}
			return UF("sprintf", SStr, nil, nil, args...)
		}
		return NewSym("sprintf", SStr, nil, nil)
	}
	out := StrT("")
	s := f.name
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				j = len(s) - i
			}
			out = StrCat(out, StrT(s[i:i+j]))
			i += j - 1
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		verb := s[i+1 : j+1]
		i = j
		if verb == "%" {
			out = StrCat(out, StrT("%"))
			continue
		}
		if n >= len(es) {
			out = StrCat(out, StrT("%!"+verb+"(MISSING)"))
			continue
		}
		out = StrCat(out, strOfIface(e, st, es[n], verb))
		n++
	}
	return out
}

func strFn(f func(a []Val) *Term) intrFn {
	return func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		r := f(args)
		return []Val{scalar(sig.Results().At(0).Type(), simpUnder2(st, r))}, true
	}
}

func simpUnder2(st *State, t *Term) *Term {
	if t.sort == SBool {
		return simpUnder(st.guard, t)
	}
	return t
}

func ufStr(name string, rng *Sort, a ...*Term) *Term {
	var lo, hi *big.Int
	return liftUF("uf:"+name, rng, lo, hi, a, ufFold[name])
}

func (e *Eng) strSlice(st *State, t types.Type, arr, n *Term) Val {
	et := t.Underlying().(*types.Slice).Elem()
	p := e.allocRef()
	name, r := e.elemReg(st, et, 0)
	e.setReg(st, name, Store(r, p, arr), p)
	return Val{T: t, L: []*Term{p, Zero, n}}
}

func (e *Eng) litSlice(st *State, t types.Type, xs []*Term) Val {
	et := t.Underlying().(*types.Slice).Elem()
	p := e.allocRef()
	e.initElems(st, p, et)
	for i, x := range xs {
		e.store(st, elemAddr(p, IntT(int64(i)), et), scalar(et, x))
	}
	return Val{T: t, L: []*Term{p, Zero, IntT(int64(len(xs)))}}
}

func boolsV(t *Term) []Val { return []Val{scalar(types.Typ[types.Bool], t)} }

func init() {
	intrinsics = map[string]intrFn{}
	in := intrinsics
	for _, m := range []string{"Lock", "Unlock", "TryLock"} {
		in["(*sync.Mutex)."+m] = (*Eng)(nil).lockOp(m, false)
	}
	for _, m := range []string{"Lock", "Unlock", "RLock", "RUnlock", "TryLock"} {
		in["(*sync.RWMutex)."+m] = (*Eng)(nil).lockOp(m, true)
	}
	// wait groups
	wg := func(d func(cur *Term, a []Val) *Term) intrFn {
		return func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
			p := args[0].L[0]
			if !e.nilCheck(st, fr, p, pos, "(WaitGroup)") {
				return nil, false
			}
			t := deref(args[0].T)
			e.store(st, p, scalar(t, d(e.load(st, p, t).L[0], args)))
			return nil, true
		}
	}
	in["(*sync.WaitGroup).Add"] = wg(func(c *Term, a []Val) *Term { return Add(c, a[1].L[0]) })
	in["(*sync.WaitGroup).Done"] = wg(func(c *Term, a []Val) *Term { return Sub(c, One) })
	in["(*sync.WaitGroup).Wait"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		e.bump(st, "ghost:blocking")
		return nil, true
	}
	in["(*sync.Once).Do"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		p := args[0].L[0]
		t := deref(args[0].T)
		c := e.load(st, p, t).L[0]
		e.splitRun(st, Eq(c, Zero), func(s *State) ([]Val, bool) {
			e.store(s, p, scalar(t, One))
			return e.callVal(s, fr, args[1], args[1].T.Underlying().(*types.Signature), nil, pos)
		}, func(s *State) ([]Val, bool) { return nil, true })
		return nil, true
	}
	// atomics
	atomLoad := func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		if !e.nilCheck(st, fr, args[0].L[0], pos, "(atomic)") {
			return nil, false
		}
		v := e.load(st, args[0].L[0], deref(args[0].T))
		return []Val{conv(atomOut(v, sig.Results().At(0).Type()), sig.Results().At(0).Type())}, true
	}
	atomStore := func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		if !e.nilCheck(st, fr, args[0].L[0], pos, "(atomic)") {
			return nil, false
		}
		e.store(st, args[0].L[0], Val{T: deref(args[0].T), L: atomIn(args[1]).L})
		return nil, true
	}
	atomAdd := func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		if !e.nilCheck(st, fr, args[0].L[0], pos, "(atomic)") {
			return nil, false
		}
		t := deref(args[0].T)
		v := e.load(st, args[0].L[0], t)
		b, s := intBits(sig.Results().At(0).Type().Underlying().(*types.Basic))
		n := Wrap(Add(v.L[0], args[1].L[0]), b, s)
		e.store(st, args[0].L[0], scalar(t, n))
		return []Val{scalar(sig.Results().At(0).Type(), n)}, true
	}
	atomSwap := func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		if !e.nilCheck(st, fr, args[0].L[0], pos, "(atomic)") {
			return nil, false
		}
		t := deref(args[0].T)
		v := e.load(st, args[0].L[0], t)
		e.store(st, args[0].L[0], Val{T: t, L: atomIn(args[1]).L})
		return []Val{conv(atomOut(v, sig.Results().At(0).Type()), sig.Results().At(0).Type())}, true
	}
	atomCAS := func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		if !e.nilCheck(st, fr, args[0].L[0], pos, "(atomic)") {
			return nil, false
		}
		t := deref(args[0].T)
		v := e.load(st, args[0].L[0], t)
		c := Eq(v.L[0], atomIn(args[1]).L[0])
		e.store(st, args[0].L[0], scalar(t, Ite(c, atomIn(args[2]).L[0], v.L[0])))
		return boolsV(c), true
	}
	for _, t := range []string{"Pointer", "Int64", "Int32", "Uint64", "Uint32", "Bool"} {
		in["(*sync/atomic."+t+").Load"] = atomLoad
		in["(*sync/atomic."+t+").Store"] = atomStore
		in["(*sync/atomic."+t+").Add"] = atomAdd
		in["(*sync/atomic."+t+").Swap"] = atomSwap
		in["(*sync/atomic."+t+").CompareAndSwap"] = atomCAS
	}
	for _, t := range []string{"Int64", "Int32", "Uint64", "Uint32", "Pointer"} {
		in["sync/atomic.Load"+t] = atomLoad
		in["sync/atomic.Store"+t] = atomStore
		in["sync/atomic.Add"+t] = atomAdd
		in["sync/atomic.Swap"+t] = atomSwap
		in["sync/atomic.CompareAndSwap"+t] = atomCAS
	}
	// formatting
	in["fmt.Sprintf"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		return []Val{scalar(types.Typ[types.String], e.sprintf(st, args[0].L[0], args[1]))}, true
	}
	in["fmt.Sprint"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		es, ok := e.sliceElems(st, args[0])
		if ok && len(es) == 1 {
			return []Val{scalar(types.Typ[types.String], strOfIface(e, st, es[0], "v"))}, true
		}
		return []Val{scalar(types.Typ[types.String], NewSym("sprint", SStr, nil, nil))}, true
	}
	in["strconv.Itoa"] = strFn(func(a []Val) *Term { return itoa(a[0].L[0]) })
	in["strconv.FormatInt"] = strFn(func(a []Val) *Term {
		if a[1].L[0] == IntT(10) {
			return itoa(a[0].L[0])
		}
		return UF("fmtint", SStr, nil, nil, a[0].L[0], a[1].L[0])
	})
	in["strconv.FormatFloat"] = strFn(func(a []Val) *Term {
		other := UF("fmtfloat", SStr, nil, nil, a[0].L[0], a[1].L[0], a[2].L[0], a[3].L[0])
		if a[1].L[0] == IntT('f') && (a[2].L[0] == Zero || a[2].L[0] == IntT(-1)) {
			return wholeSecs(a[0].L[0], itoa, other)
		}
		return other
	})
	// strings
	ufFold["canon"] = fold1(textproto.CanonicalMIMEHeaderKey)
	ufFold["strings.ToLower"] = fold1(strings.ToLower)
	ufFold["strings.ToUpper"] = fold1(strings.ToUpper)
	ufFold["strings.TrimSpace"] = fold1(strings.TrimSpace)
	ufFold["strings.Trim"] = fold2(strings.Trim)
	ufFold["strings.TrimLeft"] = fold2(strings.TrimLeft)
	ufFold["strings.TrimRight"] = fold2(strings.TrimRight)
	ufFold["path.Clean"] = fold1(path.Clean)
	ufFold["regexp.QuoteMeta"] = fold1(regexp.QuoteMeta)
	ufFold["strings.ReplaceAll"] = func(a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OStr && a[2].op == OStr {
			return StrT(strings.ReplaceAll(a[0].name, a[1].name, a[2].name))
		}
		return nil
	}
	for _, n := range []string{"strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.ReplaceAll", "path.Clean", "regexp.QuoteMeta"} {
		n := n
		in[n] = strFn(func(a []Val) *Term {
			var ts []*Term
			for _, x := range a {
				ts = append(ts, x.L[0])
			}
			return ufStr(n, SStr, ts...)
		})
	}
	in["net/http.CanonicalHeaderKey"] = strFn(func(a []Val) *Term { return ufStr("canon", SStr, a[0].L[0]) })
	in["net/textproto.CanonicalMIMEHeaderKey"] = in["net/http.CanonicalHeaderKey"]
	in["strings.HasPrefix"] = strFn(func(a []Val) *Term { return StrPrefix(a[1].L[0], a[0].L[0]) })
	in["strings.HasSuffix"] = strFn(func(a []Val) *Term { return StrSuffix(a[1].L[0], a[0].L[0]) })
	in["strings.Index"] = strFn(func(a []Val) *Term { return StrIdx(a[0].L[0], a[1].L[0]) })
	in["strings.Contains"] = strFn(func(a []Val) *Term { return Ge(StrIdx(a[0].L[0], a[1].L[0]), Zero) })
	runeIdx := func(a []Val) *Term {
		if r := a[1].L[0]; r.op == OInt && r.val.Sign() >= 0 && r.val.Cmp(bi(128)) < 0 {
			return StrIdx(a[0].L[0], StrT(string(rune(r.val.Int64()))))
		}
		return UF("indexrune", SInt, bi(-1), maxLen, a[0].L[0], a[1].L[0])
	}
	in["strings.IndexByte"] = strFn(runeIdx)
	in["strings.IndexRune"] = strFn(runeIdx)
	in["strings.ContainsRune"] = strFn(func(a []Val) *Term { return Ge(runeIdx(a), Zero) })
	in["strings.EqualFold"] = strFn(func(a []Val) *Term {
		return Eq(ufStr("strings.ToLower", SStr, a[0].L[0]), ufStr("strings.ToLower", SStr, a[1].L[0]))
	})
	in["strings.TrimPrefix"] = strFn(func(a []Val) *Term {
		s, p := a[0].L[0], a[1].L[0]
		return Ite(StrPrefix(p, s), StrSub(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s)
	})
	in["strings.TrimSuffix"] = strFn(func(a []Val) *Term {
		s, p := a[0].L[0], a[1].L[0]
		return Ite(StrSuffix(p, s), StrSub(s, Zero, Sub(StrLen(s), StrLen(p))), s)
	})
	in["strings.Cut"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		s, p := args[0].L[0], args[1].L[0]
		i := StrIdx(s, p)
		found := Ge(i, Zero)
		e.idxFacts(s, p)
		strT := types.Typ[types.String]
		b := Ite(found, StrSub(s, Zero, i), s)
		o := Add(i, StrLen(p))
		a := Ite(found, StrSub(s, o, Sub(StrLen(s), o)), StrT(""))
		return []Val{scalar(strT, b), scalar(strT, a), scalar(types.Typ[types.Bool], found)}, true
	}
	split := func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		s, p := args[0].L[0], args[1].L[0]
		t := sig.Results().At(0).Type()
		if s.op == OStr && p.op == OStr && len(args) == 2 {
			var xs []*Term
			for _, x := range strings.Split(s.name, p.name) {
				xs = append(xs, StrT(x))
			}
			return []Val{e.litSlice(st, t, xs)}, true
		}
		if len(args) == 3 {
			if nn := args[2].L[0]; nn.op == OInt && nn.val.Sign() > 0 && nn.val.Int64() <= 4 && p.op == OStr && p.name != "" {
				xs, n := splitPieces(e, s, p, int(nn.val.Int64()))
				v := e.litSlice(st, t, xs)
				v.L[2] = n
				return []Val{v}, true
			}
			n := UF("splitn.n", SInt, bi(0), maxLen, s, p, args[2].L[0])
			arr := UF("splitn.arr", ArrSort(SInt, SStr), nil, nil, s, p, args[2].L[0])
			e.rawFact(Implies(Gt(args[2].L[0], Zero), Le(n, args[2].L[0])), "strings.SplitN")
			return []Val{e.strSlice(st, t, arr, n)}, true
		}
		n := UF("split.n", SInt, bi(0), maxLen, s, p)
		arr := UF("split.arr", ArrSort(SInt, SStr), nil, nil, s, p)
		if !(p.op == OStr && p.name != "") {
			e.rawFact(Implies(Neq(StrLen(p), Zero), Ge(n, One)), "strings.Split")
		} else {
			e.rawFact(Ge(n, One), "strings.Split")
			e.rawFact(Iff(Eq(n, One), Lt(StrIdx(s, p), Zero)), "strings.Split")
			e.rawFact(Implies(Eq(n, One), Eq(Select(arr, Zero), s)), "strings.Split")
			xs, m := splitPieces(e, s, p, 3)
			e.rawFact(Implies(Gt(n, One), Eq(Select(arr, Zero), xs[0])), "strings.Split")
			e.rawFact(Iff(Gt(n, IntT(2)), Eq(m, IntT(3))), "strings.Split")
			e.rawFact(Implies(Eq(n, IntT(2)), Eq(Select(arr, One), xs[1])), "strings.Split")
			e.rawFact(Implies(Gt(n, IntT(2)), Eq(Select(arr, One), xs[1])), "strings.Split")
		}
		return []Val{e.strSlice(st, t, arr, n)}, true
	}
	in["strings.Split"] = split
	in["strings.SplitN"] = split
	in["strings.Join"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		strT := types.Typ[types.String]
		es, ok := e.sliceElems(st, args[0])
		if ok {
			out := StrT("")
			for i, x := range es {
				if i > 0 {
					out = StrCat(out, args[1].L[0])
				}
				out = StrCat(out, x.L[0])
			}
			return []Val{scalar(strT, out)}, true
		}
		a := resolveVal(st.guard, args[0])
		jn := UF("strings.Join", SStr, nil, nil, e.arrOf(st, strT, 0, a.L[0]), a.L[1], a.L[2], args[1].L[0])
		e.rawFact(Implies(Eq(a.L[2], Zero), Eq(jn, StrT(""))), "strings.Join")
		e.rawFact(Implies(Eq(a.L[2], One), Eq(jn, Select(e.arrOf(st, strT, 0, a.L[0]), a.L[1]))), "strings.Join")
		return []Val{scalar(strT, UF("strings.Join", SStr, nil, nil, e.arrOf(st, strT, 0, a.L[0]), a.L[1], a.L[2], args[1].L[0]))}, true
	}
	in["bytes.Equal"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		return boolsV(Eq(e.strOf(st, args[0]), e.strOf(st, args[1]))), true
	}
	// strings.Builder, bytes.Buffer: their leaf is the (unread) content
	bufWrite := func(get func(e *Eng, st *State, a Val) *Term) intrFn {
		return func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
			p := args[0].L[0]
			if !e.nilCheck(st, fr, p, pos, "(buffer)") {
				return nil, false
			}
			t := deref(args[0].T)
			s := get(e, st, args[1])
			e.store(st, p, scalar(t, StrCat(e.load(st, p, t).L[0], s)))
			var out []Val
			for i := 0; i < sig.Results().Len(); i++ {
				rt := sig.Results().At(i).Type()
				if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					out = append(out, scalar(rt, StrLen(s)))
				} else {
					out = append(out, zeroVal(rt))
				}
			}
			return out, true
		}
	}
	chr := func(e *Eng, st *State, a Val) *Term {
		if a.L[0].op == OInt {
			return StrT(string(rune(a.L[0].val.Int64())))
		}
		return UF("runestr", SStr, nil, nil, a.L[0])
	}
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		in[t+"WriteString"] = bufWrite(func(e *Eng, st *State, a Val) *Term { return a.L[0] })
		in[t+"Write"] = bufWrite(func(e *Eng, st *State, a Val) *Term { return e.strOf(st, a) })
		in[t+"WriteByte"] = bufWrite(chr)
		in[t+"WriteRune"] = bufWrite(chr)
		in[t+"String"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
			return []Val{scalar(types.Typ[types.String], e.load(st, args[0].L[0], deref(args[0].T)).L[0])}, true
		}
		in[t+"Len"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
			return []Val{scalar(types.Typ[types.Int], StrLen(e.load(st, args[0].L[0], deref(args[0].T)).L[0]))}, true
		}
		in[t+"Reset"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
			t := deref(args[0].T)
			e.store(st, args[0].L[0], zeroVal(t))
			return nil, true
		}
		in[t+"Grow"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
			return nil, true
		}
		in[t+"Bytes"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
			return []Val{e.bytesOf(st, e.load(st, args[0].L[0], deref(args[0].T)).L[0], sig.Results().At(0).Type())}, true
		}
	}
	newBuf := func(bs bool) intrFn {
		return func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
			rt := sig.Results().At(0).Type()
			p := e.allocRef()
			s := args[0].L[0]
			if bs {
				s = e.strOf(st, args[0])
			}
			e.store(st, p, scalar(deref(rt), s))
			return []Val{scalar(rt, p)}, true
		}
	}
	opaqueTypes["bytes.Reader"] = LStr
	opaqueTypes["strings.Reader"] = LStr
	in["bytes.NewBuffer"] = newBuf(true)
	in["bytes.NewReader"] = newBuf(true)
	in["bytes.NewBufferString"] = newBuf(false)
	in["strings.NewReader"] = newBuf(false)
	// time
	tm := types.Typ[types.Int64]
	_ = tm
	in["time.Now"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		return []Val{scalar(sig.Results().At(0).Type(), e.tick(st))}, true
	}
	subT := func(a, b *Term) *Term {
		d := Sub(a, b)
		lo, hi := intRange(64, true)
		r := Ite(Lt(d, IntB(lo)), IntB(lo), Ite(Gt(d, IntB(hi)), IntB(hi), d))
		if r.op == OIte {
			r.lo, r.hi = lo, hi
		}
		return r
	}
	in["time.Since"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		return []Val{scalar(sig.Results().At(0).Type(), subT(e.tick(st), args[0].L[0]))}, true
	}
	in["time.Until"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		return []Val{scalar(sig.Results().At(0).Type(), subT(args[0].L[0], e.tick(st)))}, true
	}
	in["(time.Time).Sub"] = strFn(func(a []Val) *Term { return subT(a[0].L[0], a[1].L[0]) })
	in["(time.Time).Add"] = strFn(func(a []Val) *Term { return Add(a[0].L[0], a[1].L[0]) })
	in["(time.Time).Before"] = strFn(func(a []Val) *Term { return Lt(a[0].L[0], a[1].L[0]) })
	in["(time.Time).After"] = strFn(func(a []Val) *Term { return Gt(a[0].L[0], a[1].L[0]) })
	in["(time.Time).Equal"] = strFn(func(a []Val) *Term { return Eq(a[0].L[0], a[1].L[0]) })
	in["(time.Time).Compare"] = strFn(func(a []Val) *Term {
		return Ite(Lt(a[0].L[0], a[1].L[0]), IntT(-1), Ite(Eq(a[0].L[0], a[1].L[0]), Zero, One))
	})
	in["(time.Time).IsZero"] = strFn(func(a []Val) *Term { return Eq(a[0].L[0], Zero) })
	for _, m := range []string{"UTC", "Local", "In", "Round"} {
		in["(time.Time)."+m] = strFn(func(a []Val) *Term { return a[0].L[0] })
	}
	in["(time.Time).Round"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		if args[1].L[0] == Zero {
			return args[:1], true
		}
		return []Val{scalar(args[0].T, UF("time.Round", SInt, nil, nil, args[0].L[0], args[1].L[0]))}, true
	}
	in["(time.Time).Truncate"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		d := args[1].L[0]
		if d.op == OInt && d.val.Sign() > 0 {
			return []Val{scalar(args[0].T, Sub(args[0].L[0], ModE(args[0].L[0], d)))}, true
		}
		return []Val{scalar(args[0].T, UF("time.Truncate", SInt, nil, nil, args[0].L[0], d))}, true
	}
	epoch := bi(62135596800)
	in["(time.Time).Unix"] = strFn(func(a []Val) *Term {
		return Wrap(Sub(DivE(a[0].L[0], IntB(e9)), IntB(epoch)), 64, true)
	})
	in["(time.Time).UnixNano"] = strFn(func(a []Val) *Term {
		return Wrap(Sub(a[0].L[0], IntB(new(big.Int).Mul(epoch, e9))), 64, true)
	})
	in["(time.Time).UnixMilli"] = strFn(func(a []Val) *Term {
		return Wrap(Sub(DivE(a[0].L[0], IntT(1000000)), IntB(new(big.Int).Mul(epoch, bi(1000)))), 64, true)
	})
	in["time.Unix"] = strFn(func(a []Val) *Term {
		return Add(Mul(Add(a[0].L[0], IntB(epoch)), IntB(e9)), a[1].L[0])
	})
	in["time.UnixMilli"] = strFn(func(a []Val) *Term {
		return Add(Mul(a[0].L[0], IntT(1000000)), IntB(new(big.Int).Mul(epoch, e9)))
	})
	in["(time.Time).Format"] = strFn(func(a []Val) *Term { return UF("time.Format", SStr, nil, nil, a[0].L[0], a[1].L[0]) })
	in["(time.Duration).Seconds"] = strFn(func(a []Val) *Term { return UF("dur.Seconds", SFloat, nil, nil, a[0].L[0]) })
	in["(time.Duration).Nanoseconds"] = strFn(func(a []Val) *Term { return a[0].L[0] })
	in["(time.Duration).Milliseconds"] = strFn(func(a []Val) *Term { return DivT(a[0].L[0], IntT(1000000)) })
	in["(time.Duration).Truncate"] = strFn(func(a []Val) *Term {
		d := a[1].L[0]
		if d.op == OInt && d.val.Sign() > 0 {
			return Mul(DivT(a[0].L[0], d), d)
		}
		return UF("dur.Truncate", SInt, nil, nil, a[0].L[0], d)
	})
	in["(time.Duration).String"] = strFn(func(a []Val) *Term {
		if a[0].L[0].op == OInt {
			return StrT(time.Duration(a[0].L[0].val.Int64()).String())
		}
		return UF("dur.String", SStr, nil, nil, a[0].L[0])
	})
	in["time.Sleep"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		e.bump(st, "ghost:blocking")
		e.tick(st)
		return nil, true
	}
	in["errors.As"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		t := typeOfIface(st, args[1])
		if t == nil {
			panic(unsupported("errors.As target"))
		}
		p := unbox(args[1].L[1], t)
		et := deref(t)
		err := resolveVal(st.guard, args[0])
		ok := And(Neq(err.L[0], Zero), UF("errors.As:"+tkey(et), SBool, nil, nil, err.L[0], err.L[1]))
		nv := Val{T: et}
		for i, l := range flatten(et) {
			lo, hi := leafBounds(l, e.epoch())
			nv.L = append(nv.L, UF(fmt.Sprintf("errors.As:%s#%d", tkey(et), i), l.Sort, lo, hi, err.L[0], err.L[1]))
		}
		e.fact(st, Implies(ok, Neq(nv.L[0], Zero)), "errors.As")
		old := e.load(st, p.L[0], et)
		e.store(st, p.L[0], iteVal(ok, nv, old))
		return boolsV(ok), true
	}
	in["runtime.Gosched"] = func(e *Eng, st *State, fr *Frame, args []Val, sig *types.Signature, pos token.Pos) ([]Val, bool) {
		return nil, true
	}
	ufFold["strconv.Quote"] = fold1(strconv.Quote)
}

func atomOut(v Val, t types.Type) Val {
	if l := flatten(t); l[0].Kind == LBool && v.L[0].sort == SInt {
		return Val{T: t, L: []*Term{Neq(v.L[0], Zero)}}
	}
	return v
}
func atomIn(v Val) Val {
	if v.L[0].sort == SBool {
		return Val{T: v.T, L: []*Term{Ite(v.L[0], One, Zero)}}
	}
	return v
}

func (e *Eng) idxFacts(s, p *Term) {
	i := StrIdx(s, p)
	if i.op == OInt {
		return
	}
	e.rawFact(Implies(Ge(i, Zero), Le(Add(i, StrLen(p)), StrLen(s))), "strings.Index")
}

// purePkgs: functions of these packages are deterministic in their arguments.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "unicode": true, "unicode/utf8": true, "math": true,
	"path/filepath": true, "encoding/hex": true, "crypto/md5": true, "crypto/sha256": true, "crypto/sha1": true, "net/textproto": true,
	"hash/fnv": true, "encoding/base64": true, "html": true, "math/bits": true,
}

// pureCall models a call of a deterministic external function by uninterpreted functions of its arguments.
func (e *Eng) pureCall(st *State, name string, args []Val, sig *types.Signature) ([]Val, bool) {
	var ts []*Term
	for _, a := range args {
		a = resolveVal(st.guard, a)
		switch u := a.T.Underlying().(type) {
		case *types.Basic:
			ts = append(ts, a.L...)
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				ts = append(ts, e.strOf(st, a))
				continue
			}
			if es, ok := e.sliceElems(st, a); ok {
				for _, x := range es {
					ts = append(ts, x.L...)
				}
				continue
			}
			for i := range flatten(u.Elem()) {
				ts = append(ts, e.arrOf(st, u.Elem(), i, a.L[0]))
			}
			ts = append(ts, a.L[1], a.L[2])
		case *types.Array:
			ts = append(ts, a.L...)
		default:
			if nm, _ := named(a.T); opaqueTypes[nm] != 0 {
				ts = append(ts, a.L...)
				continue
			}
			return nil, false
		}
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				out = append(out, e.bytesOf(st, UF(fmt.Sprintf("pure:%s.%d", name, i), SStr, nil, nil, ts...), t))
				continue
			}
			if len(flatten(u.Elem())) == 1 {
				l := flatten(u.Elem())[0]
				lo, hi := leafBounds(l, bi(0))
				v := e.strSlice(st, t, UF(fmt.Sprintf("pure:%s.%d.arr", name, i), ArrSort(SInt, l.Sort), lo, hi, ts...), UF(fmt.Sprintf("pure:%s.%d.len", name, i), SInt, bi(0), maxLen, ts...))
				out = append(out, v)
				continue
			}
			return nil, false
		case *types.Basic, *types.Array, *types.Interface:
			v := Val{T: t}
			for j, l := range flatten(t) {
				lo, hi := leafBounds(l, bi(0))
				v.L = append(v.L, UF(fmt.Sprintf("pure:%s.%d.%d", name, i, j), l.Sort, lo, hi, ts...))
			}
			out = append(out, v)
		default:
			if nm, _ := named(t); opaqueTypes[nm] != 0 {
				v := Val{T: t}
				for j, l := range flatten(t) {
					v.L = append(v.L, UF(fmt.Sprintf("pure:%s.%d.%d", name, i, j), l.Sort, nil, nil, ts...))
				}
				out = append(out, v)
				continue
			}
			return nil, false
		}
	}
	e.trust("package function " + name + " is deterministic and without side effects")
	return out, true
}

// splitPieces: the pieces of s split by the literal p into at most n pieces, and their number.
func splitPieces(e *Eng, s, p *Term, n int) ([]*Term, *Term) {
	if n == 1 {
		return []*Term{s}, One
	}
	i := StrIdx(s, p)
	e.idxFacts(s, p)
	o := Add(i, StrLen(p))
	found := Ge(i, Zero)
	rest := StrSub(s, o, Sub(StrLen(s), o))
	xs, m := splitPieces(e, rest, p, n-1)
	return append([]*Term{Ite(found, StrSub(s, Zero, i), s)}, xs...), Ite(found, Add(m, One), One)
}
