package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	liveOut []ssa.Value
}

type loopNest struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loop
}

var nestTab = map[*ssa.Function]*loopNest{}

func loopsOf(fn *ssa.Function) *loopNest {
	if n, ok := nestTab[fn]; ok {
		return n
	}
	n := &loopNest{byHeader: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		n.rpo = append(n.rpo, post[i])
	}
	for _, b := range n.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := n.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					n.byHeader[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	// irreducible control flow check
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range n.rpo {
		pos[b] = i
	}
	for _, b := range n.rpo {
		for _, s := range b.Succs {
			if pos[s] <= pos[b] && !s.Dominates(b) {
				panic(unsupported("irreducible control flow in " + fn.String()))
			}
		}
	}
	for _, l := range n.byHeader {
		for b := range l.blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						l.liveOut = append(l.liveOut, v)
						break
					}
				}
			}
		}
	}
	nestTab[fn] = n
	return n
}

type markT struct {
	facts, obls, journal, fseen, lobl int
}

func (e *Eng) mark() markT {
	return markT{len(e.facts), len(e.obls), len(e.journal), len(e.fjournal), len(e.loopObl)}
}
func (e *Eng) rollback(m markT) {
	e.facts = e.facts[:m.facts]
	e.obls = e.obls[:m.obls]
	for _, id := range e.journal[m.journal:] {
		l := e.knownSafe[id]
		e.knownSafe[id] = l[:len(l)-1]
	}
	e.journal = e.journal[:m.journal]
	for _, id := range e.fjournal[m.fseen:] {
		delete(e.factSeen, id)
	}
	e.fjournal = e.fjournal[:m.fseen]
	e.loopObl = e.loopObl[:m.lobl]
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (e *Eng) edgeVal(fr *Frame, in edgeIn, v ssa.Value) Val {
	if in.st.live != nil {
		if x, ok := in.st.live[liveKey{fr, v}]; ok {
			return x
		}
	}
	return e.val(fr, v)
}

func (e *Eng) phiVals(fr *Frame, b *ssa.BasicBlock, ins []edgeIn, sel []*Term) []Val {
	var out []Val
	for _, p := range headerPhis(b) {
		var vs []Val
		for _, in := range ins {
			vs = append(vs, conv(resolveVal(in.st.guard, e.edgeVal(fr, in, p.Edges[predIndex(b, in.pred)])), p.Type()))
		}
		out = append(out, e.mergeVals(sel, vs))
	}
	return out
}

func (e *Eng) snapshot(fr *Frame, l *loop, outs map[*ssa.BasicBlock][]edgeIn) {
	for _, xs := range outs {
		for i := range xs {
			s := xs[i].st
			n := map[liveKey]Val{}
			for k, v := range s.live {
				n[k] = v
			}
			for _, v := range l.liveOut {
				if x, ok := fr.env[v]; ok {
					k := liveKey{fr, v}
					if _, has := n[k]; !has || true {
						n[k] = x
					}
				}
			}
			s.live = n
		}
	}
}

func (e *Eng) execLoop(fr *Frame, l *loop, ins []edgeIn) map[*ssa.BasicBlock][]edgeIn {
	e.inLoop++
	defer func() { e.inLoop-- }()
	st, sel := e.merge(ins)
	st = st.clone()
	inits := e.phiVals(fr, l.header, ins, sel)
	e.applyLive(fr, st)
	if ex, ok := e.unroll(fr, l, st, inits); ok {
		return ex
	}
	return e.cutLoop(fr, l, st, inits)
}

func (e *Eng) setPhis(fr *Frame, l *loop, vs []Val) {
	for i, p := range headerPhis(l.header) {
		fr.env[p] = vs[i]
	}
}

func (e *Eng) unroll(fr *Frame, l *loop, st0 *State, inits []Val) (map[*ssa.BasicBlock][]edgeIn, bool) {
	m := e.mark()
	ref0 := e.nextRef
	nrets, npan := len(fr.rets), len(fr.panics)
	ex := map[*ssa.BasicBlock][]edgeIn{}
	cur := st0.clone()
	vals := inits
	abort := func() (map[*ssa.BasicBlock][]edgeIn, bool) {
		e.rollback(m)
		e.nextRef = ref0
		fr.rets, fr.panics = fr.rets[:nrets], fr.panics[:npan]
		return nil, false
	}
	if e.noUnroll(fr, l, inits, cur) {
		return nil, false
	}
	for it := 0; it < 64; it++ {
		e.setPhis(fr, l, vals)
		delete(fr.lits, l.header)
		in := map[*ssa.BasicBlock][]edgeIn{l.header: {{st: cur.clone()}}}
		backs, outs := e.runBlocks(fr, in, l)
		e.snapshot(fr, l, outs)
		for b, xs := range outs {
			ex[b] = append(ex[b], xs...)
		}
		if len(backs) == 0 {
			return ex, true
		}
		c := fr.lits[l.header]
		if c != True && c != False {
			return abort()
		}
		ms, sel := e.merge(backs)
		vals = e.phiVals(fr, l.header, backs, sel)
		cur = ms.clone()
	}
	return abort()
}

// noUnroll: quick decision that the header condition cannot be constant.
func (e *Eng) noUnroll(fr *Frame, l *loop, inits []Val, st *State) bool {
	_, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	return !ok
}

type modInfo struct {
	reg   string
	total bool
	fresh bool
	keys  []*Term
}

type pointwise struct {
	reg   string
	key   *Term // nil: scalar region
	kind  byte  // 'l' linear, 'p' pointwise by index, 'm' pointwise by map key, 'o' or-accumulator, 'a' and-accumulator
	coef  *big.Int
	off   *Term // index offset for 'p'
	val   *Term // value in terms of k / key symbol
	itKey *Term
	itReg string
}

func symsIn(t *Term, from int, memo map[*Term]bool, out map[*Term]bool) {
	if t.maxSym <= from && t.op != OVar {
		if t.maxSym == 0 || t.maxSym <= from {
			return
		}
	}
	if memo[t] {
		return
	}
	memo[t] = true
	if t.op == OVar {
		if t.maxSym > from {
			out[t] = true
		}
		return
	}
	for _, a := range t.args {
		symsIn(a, from, memo, out)
	}
}

func hasLitIn(t *Term, lo, hi *big.Int, memo map[*Term]bool) bool {
	if memo[t] {
		return false
	}
	memo[t] = true
	if t.op == OInt && t.val.Cmp(lo) > 0 && t.val.Cmp(hi) <= 0 {
		return true
	}
	for _, a := range t.args {
		if hasLitIn(a, lo, hi, memo) {
			return true
		}
	}
	return false
}

// onlySyms: t depends on symbols created after `from` only through those in allow, and on no object allocated since ref0.
func (e *Eng) onlySyms(t *Term, from int, ref0 *big.Int, allow ...*Term) bool {
	out := map[*Term]bool{}
	symsIn(t, from, map[*Term]bool{}, out)
	for _, a := range allow {
		delete(out, a)
	}
	if len(out) > 0 {
		return false
	}
	return !hasLitIn(t, ref0, new(big.Int).Add(e.nextRef, bi(1)), map[*Term]bool{})
}

type loopPass struct {
	k     *Term
	hst   *State
	phis  []Val
	cells map[string]map[*Term]*Term // reg -> key -> havoc term (key nil for scalars)
	backs []edgeIn
	outs  map[*ssa.BasicBlock][]edgeIn
	back  *State // merged back state
	bphis []Val
	logs  []writeRec
	sel   []*Term
}

type phiRef struct {
	kind byte // 0 havoc, 'l' linear, 'o','a', 'i' invariant (unchanged)
	coef *big.Int
	val  *Term
	bad  bool
}

type loopCtx struct {
	fr       *Frame
	l        *loop
	outer    *Term // iteration of the enclosing loop
	st0      *State
	inits    []Val
	s0       int
	ref0     *big.Int
	mods     map[string]*modInfo
	phiref   []phiRef
	pw       map[string]*pointwise // key: reg|keyid
	pwBad    map[string]bool
	k        *Term
	search   []*Term // facts (already quantified) valid at header
	invs     []*loopInv
	seenKeys map[string]*Term // iteration key symbols by it region
	gapTop   *big.Int
	cellSyms map[string]*Term
	phiSyms  map[string]*Term
}

type loopInv struct {
	dir  *Directive
	bad  bool
	name string
	pick map[int]int // choice among the values that may stand for a parameter
	num  map[int]int // number of such values
}

// candInvs lists the candidate invariants of a loop: those given for its function, or else all
// of the package (the loop may have been moved to a helper). A parameter several values may
// stand for gives rise to one candidate for each choice.
// loopAt: l may be meant by at, "n/m": the n-th of m loops. A function with another number of
// loops has been rewritten: then any loop may be meant.
func loopAt(fn *ssa.Function, l *loop, at string) bool {
	n, m := 0, 0
	if _, err := fmt.Sscanf(at, "%d/%d", &n, &m); err != nil {
		return true
	}
	hs := loopsOf(fn).byHeader
	if len(hs) != m {
		return true
	}
	i := 1
	for h := range hs {
		if h.Index < l.header.Index {
			i++
		}
	}
	return i == n
}

func (e *Eng) candInvs(lc *loopCtx) []*loopInv {
	if lc.fr.spec {
		return nil
	}
	ds := e.W.loopinvs[fnKey(lc.fr.fn)]
	own := true
	if len(ds) == 0 {
		own = false
		for _, k := range e.W.loopinvKeys() {
			for _, d := range e.W.loopinvs[k] {
				if d.Fn != nil && d.Fn.Pkg != nil && d.Fn.Pkg == fnPkg(lc.fr.fn) {
					ds = append(ds, d)
				}
			}
		}
	}
	var out []*loopInv
	for _, d := range ds {
		if own && len(d.Args) > 1 && !loopAt(lc.fr.fn, lc.l, d.Args[1]) {
			continue
		}
		todo := []*loopInv{{dir: d, name: d.Decl.Name.Name, pick: map[int]int{}}}
		for len(todo) > 0 && len(out) < 60 {
			iv := todo[0]
			todo = todo[1:]
			iv.num = map[int]int{}
			if _, ok := e.bindInv(lc, iv, lc.st0, lc.inits, lc.k); !ok {
				if own {
					out = append(out, iv)
				}
				continue
			}
			split := -1
			for i := range d.Fn.Params {
				if _, done := iv.pick[i]; !done && iv.num[i] > 1 {
					split = i
					break
				}
			}
			if split < 0 {
				out = append(out, iv)
				continue
			}
			for c := 0; c < iv.num[split]; c++ {
				n := &loopInv{dir: d, name: iv.name, pick: map[int]int{}}
				for k, v := range iv.pick {
					n.pick[k] = v
				}
				n.pick[split] = c
				todo = append(todo, n)
			}
		}
	}
	return out
}

func (e *Eng) cutLoop(fr *Frame, l *loop, st0 *State, inits []Val) map[*ssa.BasicBlock][]edgeIn {
	lc := &loopCtx{fr: fr, l: l, st0: st0, inits: inits, mods: map[string]*modInfo{}, pw: map[string]*pointwise{}, pwBad: map[string]bool{}, seenKeys: map[string]*Term{}, cellSyms: map[string]*Term{}, phiSyms: map[string]*Term{}}
	lc.phiref = make([]phiRef, len(inits))
	for i, p := range headerPhis(l.header) {
		// phis that hold the same value on every edge
		same := true
		for _, ed := range p.Edges {
			if ed != p.Edges[0] && ed != ssa.Value(p) {
				same = false
			}
		}
		if same {
			lc.phiref[i].kind = 'i'
		}
	}
	lc.ref0 = e.epoch()
	lc.gapTop = e.gap()
	lc.s0 = TT.nsym
	lc.k = NewSym("k", SInt, bi(0), maxLen)
	if n := len(e.loopK); n > 0 {
		lc.outer = e.loopK[n-1]
	}
	e.loopK = append(e.loopK, lc.k)
	defer func() { e.loopK = e.loopK[:len(e.loopK)-1] }()
	lc.invs = e.candInvs(lc)
	nrets, npan := len(fr.rets), len(fr.panics)
	var p *loopPass
	final := false
	shaped := !hasInner(l) // nothing gained if no loop is inside
	var lastMark markT
	for pass := 0; ; pass++ {
		if pass > 40 {
			panic(unsupported("loop analysis does not stabilise in " + fr.fn.String()))
		}
		lastMark = e.mark()
		fr.rets, fr.panics = fr.rets[:nrets], fr.panics[:npan]
		refSave := e.nextRef
		// invariants (of this loop and those inside) are of interest once the shape is known
		warm := e.warming
		e.warming = warm || !shaped
		p = e.loopPass(lc)
		changed := e.refine(lc, p)
		e.warming = warm
		if !changed && !warm {
			if !shaped {
				shaped, changed = true, true
			} else {
				changed = e.houdini(lc, p)
			}
		}
		if !changed {
			final = true
			break
		}
		e.rollback(lastMark)
		e.nextRef = refSave
	}
	_ = final
	for _, iv := range lc.invs {
		if !iv.bad && !e.warming {
			e.loopObl = append(e.loopObl, &Oblig{Name: "loop invariant " + iv.name + " (init and preservation)", Kind: "inv", Result: "proved", Solver: "z3 (inline)", Unit: e.unit.Name, Pos: e.posStr(l.header.Instrs[0].Pos())})
		}
	}
	if len(p.backs) > 0 {
		e.checkVariants(lc, p)
	}
	if !e.warming {
		e.checkClaims(lc)
	}
	e.snapshot(fr, l, p.outs)
	return p.outs
}

// hasInner: a loop or call is inside l.
func hasInner(l *loop) bool {
	for h := range loopsOf(l.header.Parent()).byHeader {
		if h != l.header && l.blocks[h] {
			return true
		}
	}
	return false
}

func cellKey(reg string, key *Term) string {
	if key == nil {
		return reg + "|"
	}
	return fmt.Sprintf("%s|%d", reg, key.id)
}

func (e *Eng) havocLeaf(reg string, s *Sort, top *big.Int, hint string) *Term {
	l, ok := e.regLeaf[reg]
	lo, hi := (*big.Int)(nil), (*big.Int)(nil)
	if ok {
		lo, hi = leafBounds(l, top)
	}
	if strings.HasPrefix(reg, "ghost:") || strings.HasPrefix(reg, "ch:len") || strings.HasPrefix(reg, "ch:sent") || strings.HasPrefix(reg, "ch:rcvd") || strings.HasPrefix(reg, "ch:cap") {
		lo, hi = bi(0), maxLen
	}
	return NewSym(hint, s, lo, hi)
}

func (e *Eng) loopPass(lc *loopCtx) *loopPass {
	p := &loopPass{k: lc.k, cells: map[string]map[*Term]*Term{}}
	st := lc.st0.clone()
	st.spawns = lc.st0.spawns[:len(lc.st0.spawns):len(lc.st0.spawns)]
	// havoc regions
	regs := make([]string, 0, len(lc.mods))
	for r := range lc.mods {
		regs = append(regs, r)
	}
	sort.Strings(regs)
	for _, r := range regs {
		m := lc.mods[r]
		orig := e.regOf(lc.st0, r)
		if orig == nil {
			orig = e.baseVars[r]
		}
		if orig == nil {
			continue
		}
		sym := func(k string, s *Sort) *Term {
			if t, ok := lc.cellSyms[k]; ok {
				return t
			}
			t := e.havocLeaf(r, s, lc.gapTop, "h:"+r)
			lc.cellSyms[k] = t
			return t
		}
		p.cells[r] = map[*Term]*Term{}
		if m.total || (orig.sort.Kind != 'A') || isScalarReg(r) {
			ck := cellKey(r, nil)
			if pw := lc.pw[ck]; pw != nil && pw.kind == 'l' {
				v := Add(orig, Mul(IntB(pw.coef), lc.k))
				st.regs[r] = v
				p.cells[r][nil] = v
				continue
			} else if pw != nil && (pw.kind == 'o' || pw.kind == 'a') {
				v := e.accTerm(pw, orig, lc.k)
				st.regs[r] = v
				p.cells[r][nil] = v
				continue
			}
			v := sym(ck, orig.sort)
			st.regs[r] = v
			p.cells[r][nil] = v
			continue
		}
		base := orig
		if m.fresh {
			k := cellKey(r, nil) + "frame"
			t, ok := lc.cellSyms[k]
			if !ok {
				t = e.havocLeaf(r, orig.sort, lc.gapTop, "f:"+r)
				t.parent, t.parentB = orig, lc.ref0
				lc.cellSyms[k] = t
			}
			base = t
		}
		for _, key := range m.keys {
			ck := cellKey(r, key)
			o := Select(orig, key)
			var v *Term
			pw := lc.pw[ck]
			switch {
			case pw != nil && pw.kind == 'l':
				v = Add(o, Mul(IntB(pw.coef), lc.k))
			case pw != nil && (pw.kind == 'o' || pw.kind == 'a'):
				v = e.accTerm(pw, o, lc.k)
			default:
				v = sym(ck, o.sort)
				if pw != nil && pw.kind == 'p' {
					b := NewBound(SInt, nil, nil)
					in := And(Le(pw.off, b), Lt(b, Add(pw.off, lc.k)))
					body := Subst(pw.val, map[*Term]*Term{lc.k: Sub(b, pw.off)})
					e.facts = append(e.facts, Fact{t: Forall([]*Term{b}, Eq(Select(v, b), Ite(in, body, Select(o, b)))), why: "pointwise"})
				} else if pw != nil && pw.kind == 'm' {
					b := NewBound(pw.itKey.sort, nil, nil)
					vis := st.regs[pw.itReg]
					if t, ok := lc.cellSyms[cellKey(pw.itReg, nil)]; ok {
						vis = t
					}
					body := Subst(pw.val, map[*Term]*Term{pw.itKey: b})
					e.facts = append(e.facts, Fact{t: Forall([]*Term{b}, Eq(Select(v, b), Ite(Select(vis, b), body, Select(o, b)))), why: "pointwise map"})
				}
			}
			p.cells[r][key] = v
			base = Store(base, key, v)
		}
		st.regs[r] = base
	}
	// phis
	hp := headerPhis(lc.l.header)
	for i, ph := range hp {
		init := lc.inits[i]
		pr := lc.phiref[i]
		switch pr.kind {
		case 'i':
			p.phis = append(p.phis, init)
		case 'l':
			p.phis = append(p.phis, scalar(ph.Type(), Add(init.L[0], Mul(IntB(pr.coef), lc.k))))
		case 'o', 'a':
			p.phis = append(p.phis, scalar(ph.Type(), e.accTerm(&pointwise{kind: pr.kind, val: pr.val}, init.L[0], lc.k)))
		default:
			v := Val{T: ph.Type()}
			for j, lf := range flatten(ph.Type()) {
				kk := fmt.Sprintf("phi%d.%d", i, j)
				t, ok := lc.phiSyms[kk]
				if !ok {
					lo, hi := leafBounds(lf, lc.gapTop)
					t = NewSym("phi:"+ph.Comment+lf.Path, lf.Sort, lo, hi)
					lc.phiSyms[kk] = t
				}
				v.L = append(v.L, t)
			}
			e.wfFresh(ph.Type(), v.L)
			p.phis = append(p.phis, v)
		}
	}
	e.setPhis(lc.fr, lc.l, p.phis)
	for _, f := range lc.search {
		e.facts = append(e.facts, Fact{t: f, why: "search invariant"})
	}
	// hand invariants
	for _, iv := range lc.invs {
		if iv.bad {
			continue
		}
		c, ok := e.evalInv(lc, iv, st, p.phis, lc.k)
		if !ok {
			iv.bad = true
			continue
		}
		e.fact(st, c, "loop invariant "+iv.name)
	}
	p.hst = st.clone()
	var logs []writeRec
	e.logs = append(e.logs, &logs)
	g0 := len(st.guard)
	_ = g0
	in := map[*ssa.BasicBlock][]edgeIn{lc.l.header: {{st: st}}}
	p.backs, p.outs = e.runBlocks(lc.fr, in, lc.l)
	e.logs = e.logs[:len(e.logs)-1]
	p.logs = logs
	if len(p.backs) > 0 {
		p.back, p.sel = e.merge(p.backs)
		p.bphis = e.phiVals(lc.fr, lc.l.header, p.backs, p.sel)
	}
	for _, it := range lc.fr.iters {
		if it.key != nil && it.key.maxSym > lc.s0 {
			lc.seenKeys[it.reg] = it.key
		}
	}
	return p
}

func isScalarReg(r string) bool {
	return strings.HasPrefix(r, "g:") || strings.HasPrefix(r, "ghost:") || strings.HasPrefix(r, "it:")
}

func (e *Eng) accTerm(pw *pointwise, init, k *Term) *Term {
	b := NewBound(SInt, bi(0), maxLen)
	body := Subst(pw.val, map[*Term]*Term{k: b})
	in := Lt(b, k)
	ge := Ge(b, Zero)
	if pw.kind == 'o' {
		return Or(init, Exists([]*Term{b}, And(ge, in, body)))
	}
	return And(init, Forall([]*Term{b}, Implies(And(ge, in), body)))
}

// refine updates the loop context from the pass; true when another pass is needed.
func (e *Eng) refine(lc *loopCtx, p *loopPass) bool {
	changed := false
	// modified regions
	for _, w := range p.logs {
		m := lc.mods[w.reg]
		if m == nil {
			m = &modInfo{reg: w.reg}
			lc.mods[w.reg] = m
			changed = true
		}
		if w.key == nil {
			if !m.total {
				m.total = true
				changed = true
			}
			continue
		}
		if w.key.op == OInt && w.key.val.Cmp(lc.gapTop) > 0 {
			if !m.fresh {
				m.fresh = true
				changed = true
			}
			continue
		}
		if e.onlySyms(w.key, lc.s0, lc.ref0) {
			has := false
			for _, k := range m.keys {
				if k == w.key {
					has = true
				}
			}
			if !has {
				m.keys = append(m.keys, w.key)
				changed = true
			}
			continue
		}
		if !m.total {
			m.total = true
			changed = true
		}
	}
	if changed {
		return true
	}
	if len(p.backs) == 0 {
		return false
	}
	// phis
	hp := headerPhis(lc.l.header)
	for i := range hp {
		pr := &lc.phiref[i]
		cur, bk := p.phis[i], p.bphis[i]
		switch pr.kind {
		case 0:
			if pr.bad || len(cur.L) != 1 {
				continue
			}
			if bk.L[0] == cur.L[0] {
				pr.kind = 'i'
				changed = true
				continue
			}
			if c := linStep(cur.L[0], bk.L[0]); c != nil {
				pr.kind, pr.coef = 'l', c
				changed = true
				continue
			}
			if kind, v := accStep(cur.L[0], bk.L[0]); kind != 0 && e.onlySyms(v, lc.s0, lc.ref0, lc.k) {
				pr.kind, pr.val = kind, v
				changed = true
			}
		case 'l':
			want := Add(cur.L[0], IntB(pr.coef))
			if bk.L[0] != want {
				pr.kind, pr.bad = 0, true
				changed = true
			}
		case 'o', 'a':
			if !e.accCheck(pr.kind, pr.val, cur.L[0], bk.L[0]) {
				pr.kind, pr.bad = 0, true
				changed = true
			}
		}
	}
	if changed {
		return true
	}
	// cells
	regs := make([]string, 0, len(lc.mods))
	for r := range lc.mods {
		regs = append(regs, r)
	}
	sort.Strings(regs)
	for _, r := range regs {
		for key, cur := range p.cells[r] {
			ck := cellKey(r, key)
			if lc.pwBad[ck] {
				continue
			}
			rb := e.regOf(p.back, r)
			var bk *Term
			if key == nil {
				bk = rb
			} else {
				bk = Select(rb, key)
			}
			bk = resolve(p.back.guard, bk)
			pw := lc.pw[ck]
			if pw == nil {
				n := e.guessCell(lc, p, r, key, cur, bk)
				if n != nil {
					lc.pw[ck] = n
					changed = true
				}
				continue
			}
			ok := false
			switch pw.kind {
			case 'l':
				ok = bk == Add(cur, IntB(pw.coef))
			case 'o', 'a':
				ok = e.accCheck(pw.kind, pw.val, cur, bk)
			case 'p', 'm':
				n := e.guessCell(lc, p, r, key, cur, bk)
				ok = n != nil && n.kind == pw.kind && n.off == pw.off && e.sameVal(pw, n)
				if n != nil && pw.kind == 'm' {
					pw.itKey, pw.val = n.itKey, n.val
				}
			}
			if !ok {
				delete(lc.pw, ck)
				lc.pwBad[ck] = true
				changed = true
			}
		}
	}
	if changed {
		return true
	}
	// search facts
	ns := e.searchFacts(lc, p)
	if len(ns) != len(lc.search) {
		lc.search = ns
		return true
	}
	return false
}

func (e *Eng) sameVal(a, b *pointwise) bool {
	if a.kind == 'm' {
		return Subst(a.val, map[*Term]*Term{a.itKey: b.itKey}) == b.val
	}
	return a.val == b.val
}

func linStep(cur, bk *Term) *big.Int {
	if cur.sort != SInt {
		return nil
	}
	d := Sub(bk, cur)
	if d.op == OInt {
		return d.val
	}
	// wrapped increment
	if bk.op == OIte {
		d := Sub(bk.args[1], cur)
		if d.op == OInt && d.val.CmpAbs(bi(1<<20)) <= 0 {
			return d.val
		}
	}
	return nil
}

func accStep(cur, bk *Term) (byte, *Term) {
	if cur.sort != SBool {
		return 0, nil
	}
	if bk.op == OOr || bk.op == OAnd {
		var rest []*Term
		found := false
		for _, a := range bk.args {
			if a == cur {
				found = true
			} else {
				rest = append(rest, a)
			}
		}
		if found {
			if bk.op == OOr {
				return 'o', Or(rest...)
			}
			return 'a', And(rest...)
		}
	}
	return 0, nil
}

func (e *Eng) accCheck(kind byte, val, cur, bk *Term) bool {
	if kind == 'o' {
		return bk == Or(cur, val) || bk == Or(val, cur)
	}
	return bk == And(cur, val)
}

func (e *Eng) guessCell(lc *loopCtx, p *loopPass, reg string, key, cur, bk *Term) *pointwise {
	if bk == cur {
		return nil
	}
	if cur.sort == SInt {
		if c := linStep(cur, bk); c != nil {
			return &pointwise{kind: 'l', coef: c}
		}
		return nil
	}
	if cur.sort == SBool {
		if kind, v := accStep(cur, bk); kind != 0 && e.onlySyms(v, lc.s0, lc.ref0, lc.k) {
			return &pointwise{kind: kind, val: v}
		}
		return nil
	}
	if cur.sort.Kind == 'A' && key != nil && bk.op == OStore && bk.args[0] == cur {
		idx, v := bk.args[1], bk.args[2]
		orig := Select(e.regOf(lc.st0, reg), key)
		if lc.st0.regs[reg] == nil && e.baseVars[reg] == nil {
			return nil
		}
		v = Subst(v, map[*Term]*Term{Select(cur, idx): Select(orig, idx)})
		if cur.sort.Key == SInt {
			off := Sub(idx, lc.k)
			if e.onlySyms(off, lc.s0, lc.ref0) && e.onlySyms(v, lc.s0, lc.ref0, lc.k) {
				return &pointwise{kind: 'p', off: off, val: v}
			}
		}
		for r, ks := range lc.seenKeys {
			if idx == ks && e.onlySyms(v, lc.s0, lc.ref0, ks) {
				// every iteration must write at the key it visits; value may equal the old one
				return &pointwise{kind: 'm', val: v, itKey: ks, itReg: r}
			}
		}
	}
	return nil
}

// searchFacts: what k completed iterations tell.
func (e *Eng) searchFacts(lc *loopCtx, p *loopPass) []*Term {
	var facts []*Term
	base := len(p.hst.guard)
	collect := func(allow *Term) *Term {
		var alts []*Term
		for _, b := range p.backs {
			var cs []*Term
			if len(b.st.guard) < base {
				return True
			}
			for _, c := range b.st.guard[base:] {
				if e.onlySyms(c, lc.s0, lc.ref0, allow) {
					cs = append(cs, c)
				}
			}
			alts = append(alts, And(cs...))
		}
		return Or(alts...)
	}
	if B := collect(lc.k); B != True {
		b := NewBound(SInt, nil, nil)
		f := Forall([]*Term{b}, Implies(And(Le(Zero, b), Lt(b, lc.k)), Subst(B, map[*Term]*Term{lc.k: b})))
		facts = append(facts, f)
	}
	regs := make([]string, 0)
	for r := range lc.seenKeys {
		regs = append(regs, r)
	}
	sort.Strings(regs)
	for _, r := range regs {
		ks := lc.seenKeys[r]
		vis := p.hst.regs[r]
		if vis == nil || vis.op != OVar {
			continue
		}
		var it *iterInfo
		for _, x := range lc.fr.iters {
			if x.reg == r {
				it = x
			}
		}
		B := collect(ks)
		b := NewBound(ks.sort, nil, nil)
		cs := []*Term{Subst(B, map[*Term]*Term{ks: b})}
		if it != nil && it.has0 != nil && e.onlySyms(it.has0, lc.s0, lc.ref0) {
			mi := mapOf(it.mt)
			if m := lc.mods[mi.key+".has"]; m == nil || resolve(p.hst.guard, e.mapHasRaw(p.hst, mi, it.ref)) == it.has0 {
				cs = append(cs, Select(it.has0, b))
			}
		}
		if f := Forall([]*Term{b}, Implies(Select(vis, b), And(cs...))); f != True {
			facts = append(facts, f)
		}
	}
	return facts
}

// ---- hand invariants ----

func (e *Eng) bindInv(lc *loopCtx, iv *loopInv, st *State, phis []Val, k *Term) ([]Val, bool) {
	fn := iv.dir.Fn
	var args []Val
	used := map[ssa.Value]bool{}
	for pi, prm := range fn.Params {
		if prm.Name() == "k" && types.Identical(prm.Type(), types.Typ[types.Int]) {
			args = append(args, scalar(prm.Type(), k))
			continue
		}
		if prm.Name() == "k1" && types.Identical(prm.Type(), types.Typ[types.Int]) {
			// iteration of the enclosing loop
			if lc.outer == nil {
				return nil, false
			}
			args = append(args, scalar(prm.Type(), lc.outer))
			continue
		}
		type cand struct {
			v    ssa.Value
			val  Val
			name string
		}
		var cs []cand
		for i, p := range headerPhis(lc.l.header) {
			if types.Identical(p.Type(), prm.Type()) && !used[p] {
				cs = append(cs, cand{p, phis[i], p.Comment})
			}
		}
		for v, x := range lc.fr.env {
			if used[v] {
				continue
			}
			if f, ok := v.(*ssa.FreeVar); ok && lc.l.reads(f) {
				// a variable captured from the enclosing function
				if pt, ok := f.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), prm.Type()) && x.T != nil {
					cs = append(cs, cand{v, e.load(st, x.L[0], prm.Type()), f.Name()})
					continue
				}
			}
			if !types.Identical(v.Type(), prm.Type()) {
				continue
			}
			var blk *ssa.BasicBlock
			nm := v.Name()
			switch y := v.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
			case ssa.Instruction:
				blk = y.Block()
				if a, ok := v.(*ssa.Alloc); ok {
					nm = a.Comment
				}
			}
			if blk != nil && (lc.l.blocks[blk] || !blk.Dominates(lc.l.header)) {
				continue
			}
			if _, isphi := v.(*ssa.Phi); isphi && blk == lc.l.header {
				continue
			}
			cs = append(cs, cand{v, x, nm})
		}
		if len(cs) > 1 {
			var named []cand
			for _, c := range cs {
				if c.name == prm.Name() {
					named = append(named, c)
				}
			}
			if len(named) > 0 {
				cs = named
			}
		}
		if len(cs) > 1 {
			// prefer distinct values
			isPhi := func(v ssa.Value) bool {
				ph, ok := v.(*ssa.Phi)
				return ok && ph.Block() == lc.l.header
			}
			uniq := cs[:1]
			for _, c := range cs[1:] {
				d := true
				for _, u := range uniq {
					if !isPhi(u.v) && !isPhi(c.v) && sameVals([]Val{u.val}, []Val{c.val}) {
						d = false
					}
				}
				if d {
					uniq = append(uniq, c)
				}
			}
			cs = uniq
		}
		if len(cs) > 1 && len(cs) <= 4 && iv.num != nil {
			sort.Slice(cs, func(i, j int) bool { return cs[i].v.Pos() < cs[j].v.Pos() })
			iv.num[pi] = len(cs)
			cs = cs[iv.pick[pi]:][:1]
		}
		if len(cs) != 1 {
			if verbose {
				fmt.Printf("  loop invariant %s: %d candidates for %s\n", iv.name, len(cs), prm.Name())
			}
			return nil, false
		}
		used[cs[0].v] = true
		args = append(args, conv(cs[0].val, prm.Type()))
	}
	return args, true
}

func (e *Eng) evalInv(lc *loopCtx, iv *loopInv, st *State, phis []Val, k *Term) (*Term, bool) {
	args, ok := e.bindInv(lc, iv, st, phis, k)
	if !ok {
		return nil, false
	}
	s := st.clone()
	s.defers = nil
	was := e.invIter
	for _, in := range lc.l.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			e.invIter = lc.fr.iters[nx.Iter]
		}
	}
	rs, ok := e.run(s, iv.dir.Fn, args, nil, nil, 'i')
	e.invIter = was
	if !ok {
		return nil, false
	}
	return rs[0].L[0], true
}

// reads: the loop reads the captured variable f.
func (l *loop) reads(f *ssa.FreeVar) bool {
	for _, r := range *f.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && l.blocks[u.Block()] {
			return true
		}
	}
	return false
}

// houdini checks the candidate invariants; true when one had to be dropped.
func (e *Eng) houdini(lc *loopCtx, p *loopPass) bool {
	changed := false
	for _, iv := range lc.invs {
		if iv.bad {
			continue
		}
		m := e.mark()
		c, ok := e.evalInv(lc, iv, lc.st0, lc.inits, Zero)
		good := ok && e.prove(lc.st0, c)
		if verbose && !good {
			fmt.Printf("  loop invariant %s: init fails (%v)\n", iv.name, ok)
		}
		if good && len(p.backs) > 0 {
			c2, ok2 := e.evalInv(lc, iv, p.back, p.bphis, Add(lc.k, One))
			good = ok2 && e.prove(p.back, c2)
			if verbose && !good {
				fmt.Printf("  loop invariant %s of %s: preservation fails (%v)\n", iv.name, fnKey(lc.fr.fn), ok2)
			}
		}
		e.rollback(m)
		if !good {
			iv.bad = true
			changed = true
		}
	}
	return changed
}

// checkVariants: termination measures given by //kv:variant functions.
func (e *Eng) checkVariants(lc *loopCtx, p *loopPass) {
	for _, d := range e.W.variants[fnKey(lc.fr.fn)] {
		iv := &loopInv{dir: d, name: d.Decl.Name.Name}
		a, ok1 := e.evalInv(lc, iv, p.hst, p.phis, lc.k)
		b, ok2 := e.evalInv(lc, iv, p.back, p.bphis, Add(lc.k, One))
		if !ok1 || !ok2 {
			e.oblige(p.back, "ensures", "termination measure "+iv.name, d.tags(), False, lc.l.header.Instrs[0].Pos())
			continue
		}
		e.oblige(p.back, "ensures", "termination measure "+iv.name+" decreases", d.tags(), And(Ge(a, Zero), Lt(b, a)), lc.l.header.Instrs[0].Pos())
	}
}

// checkClaims: an invariant given with properties is claimed, and a violation if it does not hold.
func (e *Eng) checkClaims(lc *loopCtx) {
	good := map[*Directive]bool{}
	for _, iv := range lc.invs {
		good[iv.dir] = good[iv.dir] || !iv.bad
	}
	for _, iv := range lc.invs {
		d := iv.dir
		if len(d.tags()) == 0 || good[d] {
			continue
		}
		good[d] = true
		e.oblige(lc.st0, "ensures", strings.Join(d.tags(), ",")+":loop invariant "+iv.name, d.tags(), False, lc.l.header.Instrs[0].Pos())
	}
}

func (d *Directive) tags() []string {
	var out []string
	for _, a := range d.Args {
		if len(a) == 3 && a[0] == 'C' {
			out = append(out, a)
		}
	}
	return out
}
