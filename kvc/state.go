package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Guard []*Term

func (g Guard) has(t *Term) bool {
	for _, x := range g {
		if x == t {
			return true
		}
	}
	return false
}
func (g Guard) term() *Term { return And(g...) }

// add returns the extended guard, dead=true when contradictory.
func (g Guard) add(c *Term) (Guard, bool) {
	c = simpUnder(g, c)
	if c == True {
		return g, false
	}
	if c == False {
		return g, true
	}
	ng := append(g[:len(g):len(g)])
	if c.op == OAnd {
		for _, a := range c.args {
			var d bool
			ng, d = ng.add(a)
			if d {
				return ng, true
			}
		}
		return ng, false
	}
	return append(ng, c), false
}

// simpCtx remembers what a guard makes of terms.
type simpCtx struct {
	g   Guard
	set map[*Term]bool
	sm  map[simpKey]*Term
	rm  map[*Term]*Term
}
type simpKey struct {
	t *Term
	d int
}

var simpCache []*simpCtx

func ctxOf(g Guard) *simpCtx {
	for i := len(simpCache) - 1; i >= 0; i-- {
		c := simpCache[i]
		if len(c.g) == len(g) && (len(g) == 0 || &c.g[0] == &g[0]) {
			return c
		}
	}
	c := &simpCtx{g: g, set: make(map[*Term]bool, len(g)), sm: map[simpKey]*Term{}, rm: map[*Term]*Term{}}
	for _, t := range g {
		c.set[t] = true
	}
	if len(simpCache) >= 6 {
		simpCache = append(simpCache[:0:0], simpCache[1:]...)
	}
	simpCache = append(simpCache, c)
	return c
}

// simpUnder simplifies boolean t given the conjuncts of g.
func simpUnder(g Guard, t *Term) *Term { return ctxOf(g).simp(t, 4) }

func (c *simpCtx) simp(t *Term, d int) *Term {
	if t == True || t == False {
		return t
	}
	k := simpKey{t, d}
	if r, ok := c.sm[k]; ok {
		return r
	}
	r := c.simp1(t, d)
	c.sm[k] = r
	return r
}

func (g *simpCtx) simp1(t *Term, d int) *Term {
	if g.set[t] {
		return True
	}
	if g.set[Not(t)] {
		return False
	}
	if d == 0 {
		return t
	}
	switch t.op {
	case ONot:
		return Not(g.simp(t.args[0], d-1))
	case OAnd, OOr:
		if len(t.args) > 12 {
			return t
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = g.simp(a, d-1)
			if na[i] != a {
				ch = true
			}
		}
		if !ch {
			return t
		}
		if t.op == OAnd {
			return And(na...)
		}
		return Or(na...)
	case OIte:
		c := g.simp(t.args[0], d-1)
		if c == True {
			return g.simp(t.args[1], d-1)
		}
		if c == False {
			return g.simp(t.args[2], d-1)
		}
	case OEq:
		a, b := g.resolve(t.args[0]), g.resolve(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			return g.simp(Eq(a, b), d-1)
		}
	case OLe:
		a := g.resolve(t.args[0])
		if a != t.args[0] {
			return Le0(a)
		}
	}
	return t
}

// resolve follows ite terms decided by the guard.
func resolve(g Guard, t *Term) *Term {
	if t.op != OIte {
		return t
	}
	return ctxOf(g).resolve(t)
}

func (g *simpCtx) resolve(t *Term) *Term {
	if t.op != OIte {
		return t
	}
	if r, ok := g.rm[t]; ok {
		return r
	}
	r := t
	switch g.simp(t.args[0], 3) {
	case True:
		r = g.resolve(t.args[1])
	case False:
		r = g.resolve(t.args[2])
	default:
		// one arm may resolve
		a, b := g.resolve(t.args[1]), g.resolve(t.args[2])
		if a != t.args[1] || b != t.args[2] {
			r = Ite(t.args[0], a, b)
		}
	}
	g.rm[t] = r
	return r
}

func resolveVal(g Guard, v Val) Val {
	n := Val{T: v.T, L: make([]*Term, len(v.L))}
	for i, t := range v.L {
		n.L[i] = resolve(g, t)
	}
	return n
}

type deferRec struct {
	cond *Term
	call *ssa.CallCommon
	fn   Val
	args []Val
	fr   *Frame
	pos  token.Pos
}

type spawnRec struct {
	cond *Term
	fn   *Term // function value
	args []Val
	sfn  *ssa.Function
	call *ssa.CallCommon
}

type State struct {
	guard  Guard
	regs   map[string]*Term
	defers map[*Frame][]deferRec
	spawns []spawnRec
	live   map[liveKey]Val
}

type liveKey struct {
	fr *Frame
	v  ssa.Value
}

func (s *State) clone() *State {
	n := &State{guard: s.guard, regs: make(map[string]*Term, len(s.regs)), spawns: s.spawns[:len(s.spawns):len(s.spawns)], live: s.live}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	if s.defers != nil {
		n.defers = map[*Frame][]deferRec{}
		for k, v := range s.defers {
			n.defers[k] = v[:len(v):len(v)]
		}
	}
	return n
}

type Fact struct {
	t     *Term
	seq   int
	why   string
	trust bool
}

type Oblig struct {
	Name   string
	Props  []string
	Kind   string // ensures, requires, safety, inv, cover
	Guard  *Term
	Goal   *Term
	NFacts int
	Pos    string
	Unit   string
	Result string
	Solver string
	Time   float64
	Model  string
	Output string
	Parts  []*Oblig
}

type writeRec struct {
	reg  string
	key  *Term
	gsym int
}

type Eng struct {
	invIter      *iterInfo // iteration of the loop whose invariant is evaluated
	initPhase    bool
	P            *Prog
	W            *World
	facts        []Fact
	obls         []*Oblig
	nextRef      *big.Int
	logs         []*[]writeRec
	stack        []*Frame
	unit         *Unit
	verifying    *ssa.Function // real function whose contract is being verified
	trusted      map[string]bool
	contracts    map[string]bool
	inlined      map[string]bool
	havocked     map[string]bool
	baseVars     map[string]*Term
	knownSafe    map[int][]Guard
	useMode      []bool
	dry          int
	loopProved   int
	loopObl      []*Oblig
	loopK        []*Term
	warming      bool
	escaped      map[string]bool
	folds        map[string]*foldInfo
	foldDepth    int
	steps        int
	callDepth    int
	noteSeen     map[string]bool
	factSeen     map[int]bool
	fjournal     []int
	regLeaf      map[string]Leaf
	catch        int
	catchSafety  bool
	journal      []int
	noObl        int
	noSafety     int // no safety obligations
	inTarget     int
	quant        int
	unitRef      *big.Int
	inlineProofs int
	paths        bool // paths are explored one by one
	script       []int
	forks        []int
	inLoop       int
}

func (e *Eng) note(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if e.noteSeen[s] {
		return
	}
	e.noteSeen[s] = true
	if verbose {
		fmt.Println("  note:", s)
	}
}

func (e *Eng) epoch() *big.Int { return new(big.Int).Set(e.nextRef) }

func (e *Eng) allocRef() *Term {
	e.nextRef = new(big.Int).Add(e.nextRef, bi(1))
	return IntB(e.nextRef)
}

// gap reserves room for unknown objects allocated by havocked code; returns the new upper bound.
func (e *Eng) gap() *big.Int {
	e.nextRef = new(big.Int).Add(e.nextRef, bi(1000000000))
	return e.epoch()
}

func (e *Eng) fact(st *State, c *Term, why string) {
	if c == True || e.dryFact() {
		return
	}
	if st != nil {
		c = Implies(st.guard.term(), c)
	}
	if c == True || len(c.bounds) > 0 {
		return
	}
	e.facts = append(e.facts, Fact{t: c, seq: len(e.facts), why: why})
}

func (e *Eng) dryFact() bool { return false }

// ---- regions ----

func regSort(kind byte, s *Sort) *Sort {
	switch kind {
	case 'o':
		return ArrSort(SInt, s)
	case 'e':
		return ArrSort(SInt, ArrSort(SInt, s))
	}
	return s
}

func (e *Eng) reg(st *State, name string, s *Sort, l Leaf) *Term {
	if t, ok := st.regs[name]; ok {
		return t
	}
	if t, ok := e.baseVars[name]; ok {
		return t
	}
	e.regLeaf[name] = l
	lo, hi := leafBounds(l, bi(0))
	if nm, _ := named(orAny(l.T)); nm == "sync.Mutex" || nm == "sync.RWMutex" {
		// no lock is held when a unit starts
		t := zeroSort(s)
		e.baseVars[name] = t
		return t
	}
	if e.initPhase && strings.HasPrefix(name, "g:") {
		t := zeroSort(s)
		st.regs[name] = t
		return t
	}
	t := NamedSym("R:"+name, s, lo, hi)
	e.baseVars[name] = t
	return t
}

func (e *Eng) setReg(st *State, name string, t *Term, key *Term) {
	st.regs[name] = t
	for _, l := range e.logs {
		*l = append(*l, writeRec{reg: name, key: key})
	}
}

func orAny(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

type addr struct {
	kind byte
	root string
	off  int
	base *Term
	idx  *Term
}

func (e *Eng) addrOf(p *Term, pointee types.Type) (addr, bool) {
	if ip := asIPtr(p); ip != nil {
		a := addr{kind: ip.kind, root: ip.root, off: ip.off}
		if len(p.args) > 0 {
			a.base = p.args[0]
		}
		if len(p.args) > 1 {
			a.idx = p.args[1]
		}
		return a, true
	}
	if p.op == OIte {
		return addr{}, false
	}
	if at, ok := isArray(pointee); ok {
		// pointer to a whole array object: handled specially by callers
		return addr{kind: 'A', root: tkey(at.Elem()), base: p}, true
	}
	return addr{kind: 'o', root: tkey(pointee), base: p}, true
}

func regName(a addr, i int) string { return fmt.Sprintf("%c:%s#%d", a.kind, a.root, a.off+i) }

func (e *Eng) load(st *State, p *Term, t types.Type) Val {
	p = resolve(st.guard, p)
	if p.op == OIte {
		return iteVal(p.args[0], e.load(st, p.args[1], t), e.load(st, p.args[2], t))
	}
	if len(flatten(t)) == 0 {
		return Val{T: t}
	}
	a, _ := e.addrOf(p, t)
	v := Val{T: t}
	for i, l := range flatten(t) {
		v.L = append(v.L, resolve(st.guard, e.loadLeaf(st, a, i, l)))
	}
	e.wfVal(st, v)
	return v
}

func (e *Eng) loadLeaf(st *State, a addr, i int, l Leaf) *Term {
	switch a.kind {
	case 'A':
		// array object lives in the element regions; leaf sort is an array
		name := fmt.Sprintf("e:%s#%d", a.root, i)
		return Select(e.reg(st, name, ArrSort(SInt, l.Sort), l), a.base)
	case 'o':
		return Select(e.reg(st, regName(a, i), regSort('o', l.Sort), l), a.base)
	case 'e':
		return Select(Select(e.reg(st, regName(a, i), regSort('e', l.Sort), l), a.base), a.idx)
	case 'g':
		return e.reg(st, regName(a, i), l.Sort, l)
	}
	panic("loadLeaf")
}

// wfVal records well-formedness of values read from unknown memory.
func (e *Eng) wfVal(st *State, v Val) {
	e.wfRange(v.T, v.L)
}

func (e *Eng) wfRange(t types.Type, L []*Term) {
	if nm, _ := named(t); opaqueTypes[nm] != 0 || nm == "sync/atomic.Pointer" {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, n := L[0], L[2]
		if isBaseRead(b) && len(b.bounds) == 0 {
			e.rawFact(Implies(Eq(b, Zero), Eq(n, Zero)), "wf")
		}
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(flatten(u.Field(i).Type()))
			e.wfRange(u.Field(i).Type(), L[o:o+n])
			o += n
		}
	}
}

func isBaseRead(t *Term) bool {
	for t.op == OSelect {
		t = t.args[0]
	}
	return t.op == OVar || t.op == OUF
}

func (e *Eng) store(st *State, p *Term, v Val) {
	if len(v.L) == 0 {
		return
	}
	p = resolve(st.guard, p)
	if p.op == OIte {
		// conditional store
		c := p.args[0]
		s1 := st.clone()
		e.store(s1, p.args[1], v)
		s2 := st.clone()
		e.store(s2, p.args[2], v)
		e.mergeRegs(st, c, s1, s2)
		return
	}
	a, _ := e.addrOf(p, v.T)
	e.noteEscape(v)
	for i, l := range flatten(v.T) {
		e.storeLeaf(st, a, i, l, v.L[i])
	}
}

func (e *Eng) noteEscape(v Val) {
	for _, t := range v.L {
		if ip := asIPtr(t); ip != nil {
			e.escaped[tkey(v.T)] = true
		}
	}
}

func (e *Eng) storeLeaf(st *State, a addr, i int, l Leaf, x *Term) {
	switch a.kind {
	case 'A':
		name := fmt.Sprintf("e:%s#%d", a.root, i)
		r := e.reg(st, name, ArrSort(SInt, l.Sort), l)
		e.setReg(st, name, Store(r, a.base, x), a.base)
	case 'o':
		r := e.reg(st, regName(a, i), regSort('o', l.Sort), l)
		e.setReg(st, regName(a, i), Store(r, a.base, x), a.base)
	case 'e':
		r := e.reg(st, regName(a, i), regSort('e', l.Sort), l)
		in := Select(r, a.base)
		e.setReg(st, regName(a, i), Store(r, a.base, Store(in, a.idx, x)), a.base)
	case 'g':
		e.setReg(st, regName(a, i), x, nil)
	}
}

// mergeRegs sets st.regs to ite(c, s1, s2).
func (e *Eng) mergeRegs(st *State, c *Term, s1, s2 *State) {
	keys := map[string]bool{}
	for k := range s1.regs {
		keys[k] = true
	}
	for k := range s2.regs {
		keys[k] = true
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		a, b := e.regOf(s1, k), e.regOf(s2, k)
		if a == nil {
			a = e.initialOf(k, b.sort)
		}
		if b == nil {
			b = e.initialOf(k, a.sort)
		}
		if a == b {
			st.regs[k] = a
		} else {
			st.regs[k] = Ite(c, a, b)
		}
	}
}

func (e *Eng) regOf(s *State, k string) *Term {
	if t, ok := s.regs[k]; ok {
		return t
	}
	return e.baseVars[k]
}

func (e *Eng) initialOf(k string, s *Sort) *Term {
	if t, ok := e.baseVars[k]; ok {
		return t
	}
	if strings.HasPrefix(k, "it:") {
		return zeroSort(s)
	}
	// region first touched in one branch by a blind write: need its base variable
	t := NamedSym("R:"+k, s, nil, nil)
	e.baseVars[k] = t
	return t
}

type edgeIn struct {
	st   *State
	pred *ssa.BasicBlock
}

// merge joins states; sel[i] is the condition selecting edge i (last one: else).
func (e *Eng) merge(ins []edgeIn) (*State, []*Term) {
	if len(ins) == 1 {
		return ins[0].st, []*Term{True}
	}
	// common prefix of guards
	p := 0
	for {
		ok := true
		for _, in := range ins {
			if p >= len(in.st.guard) || in.st.guard[p] != ins[0].st.guard[p] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		p++
	}
	sel := make([]*Term, len(ins))
	for i, in := range ins {
		sel[i] = And(in.st.guard[p:]...)
	}
	out := ins[len(ins)-1].st.clone()
	out.guard = mergeGuards(ins, p)
	// fold from last to first
	cur := ins[len(ins)-1].st
	for i := len(ins) - 2; i >= 0; i-- {
		n := &State{regs: map[string]*Term{}}
		e.mergeRegs(n, sel[i], ins[i].st, cur)
		cur = n
	}
	out.regs = cur.regs
	// live values
	out.live = nil
	if last := ins[len(ins)-1].st; last.live != nil {
		for k := range last.live {
			var vs []Val
			all, same := true, true
			for _, in := range ins {
				v, ok := in.st.live[k]
				if !ok {
					all = false
					break
				}
				if len(vs) > 0 && !sameVals([]Val{vs[0]}, []Val{v}) {
					same = false
				}
				vs = append(vs, v)
			}
			if !all {
				continue
			}
			if out.live == nil {
				out.live = map[liveKey]Val{}
			}
			if same {
				out.live[k] = vs[0]
			} else {
				out.live[k] = e.mergeVals(sel, vs)
			}
		}
	}
	// defers
	out.defers = nil
	for i, in := range ins {
		for fr, ds := range in.st.defers {
			if out.defers == nil {
				out.defers = map[*Frame][]deferRec{}
			}
			for _, d := range ds {
				found := false
				for j, o := range out.defers[fr] {
					if o.call == d.call && sameVals(o.args, d.args) && sameVals([]Val{o.fn}, []Val{d.fn}) {
						if o.cond != d.cond {
							out.defers[fr][j].cond = Or(o.cond, And(sel[i], d.cond))
						}
						found = true
					}
				}
				if !found {
					nd := d
					all := true
					for _, in2 := range ins {
						has := false
						for _, o := range in2.st.defers[fr] {
							if o.call == d.call {
								has = true
							}
						}
						all = all && has
					}
					if !all {
						nd.cond = And(d.cond, sel[i])
					}
					out.defers[fr] = append(out.defers[fr], nd)
				}
			}
		}
	}
	// spawns: common prefix kept, rest guarded
	sp := 0
	for {
		ok := true
		for _, in := range ins {
			if sp >= len(in.st.spawns) || !sameSpawn(in.st.spawns[sp], ins[0].st.spawns[sp]) {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		sp++
	}
	out.spawns = ins[0].st.spawns[:sp:sp]
	for i, in := range ins {
		for _, s := range in.st.spawns[sp:] {
			s.cond = And(s.cond, sel[i])
			out.spawns = append(out.spawns, s)
		}
	}
	return out, sel
}

func sameVals(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i].L) != len(b[i].L) {
			return false
		}
		for j := range a[i].L {
			if a[i].L[j] != b[i].L[j] {
				return false
			}
		}
	}
	return true
}

func (e *Eng) mergeVals(sel []*Term, vs []Val) Val {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = iteVal(sel[i], vs[i], r)
	}
	return r
}

// ---- fresh values ----

func (e *Eng) freshVal(st *State, t types.Type, hint string, hi *big.Int) Val {
	v := Val{T: t}
	for _, l := range flatten(t) {
		lo, h := leafBounds(l, hi)
		v.L = append(v.L, NewSym(hint+l.Path, l.Sort, lo, h))
	}
	e.wfFresh(t, v.L)
	return v
}

func (e *Eng) wfFresh(t types.Type, L []*Term) {
	if nm, _ := named(t); opaqueTypes[nm] != 0 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e.rawFact(Implies(Eq(L[0], Zero), Eq(L[2], Zero)), "wf")
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(flatten(u.Field(i).Type()))
			e.wfFresh(u.Field(i).Type(), L[o:o+n])
			o += n
		}
	case *types.Tuple:
		o := 0
		for i := 0; i < u.Len(); i++ {
			n := len(flatten(u.At(i).Type()))
			e.wfFresh(u.At(i).Type(), L[o:o+n])
			o += n
		}
	}
}

// ---- maps ----

type mapInfo struct {
	key string
	mt  *types.Map
	ks  *Sort
	kl  []Leaf
	vl  []Leaf
}

func mapOf(t types.Type) *mapInfo {
	mt := t.Underlying().(*types.Map)
	kl := flatten(mt.Key())
	m := &mapInfo{key: "m:" + tkey(mt), mt: mt, kl: kl, vl: flatten(mt.Elem())}
	if len(kl) == 1 {
		m.ks = kl[0].Sort
	} else {
		m.ks = SInt
	}
	return m
}

func (m *mapInfo) keyTerm(k Val) *Term {
	if len(m.kl) == 1 {
		return k.L[0]
	}
	return UF("box:"+tkey(m.mt.Key()), SInt, nil, nil, k.L...)
}

func (e *Eng) mapHas(st *State, m *mapInfo, ref *Term) *Term {
	name := m.key + ".has"
	return Select(e.reg(st, name, ArrSort(SInt, ArrSort(m.ks, SBool)), Leaf{Kind: LBool, Sort: SBool}), ref)
}
func (e *Eng) mapVal(st *State, m *mapInfo, ref *Term, i int) *Term {
	name := fmt.Sprintf("%s.val#%d", m.key, i)
	return Select(e.reg(st, name, ArrSort(SInt, ArrSort(m.ks, m.vl[i].Sort)), m.vl[i]), ref)
}
func (e *Eng) mapLen(st *State, m *mapInfo, ref *Term) *Term {
	name := m.key + ".len"
	return Select(e.reg(st, name, ArrSort(SInt, SInt), Leaf{Kind: LInt, Sort: SInt, lo: bi(0), hi: maxLen}), ref)
}
func (e *Eng) setMap(st *State, m *mapInfo, ref *Term, has, ln *Term, vals []*Term) {
	if has != nil {
		name := m.key + ".has"
		r := e.reg(st, name, ArrSort(SInt, ArrSort(m.ks, SBool)), Leaf{Kind: LBool, Sort: SBool})
		e.setReg(st, name, Store(r, ref, has), ref)
	}
	if ln != nil {
		name := m.key + ".len"
		r := e.reg(st, name, ArrSort(SInt, SInt), Leaf{Kind: LInt, Sort: SInt, lo: bi(0), hi: maxLen})
		e.setReg(st, name, Store(r, ref, ln), ref)
	}
	for i, v := range vals {
		if v == nil {
			continue
		}
		name := fmt.Sprintf("%s.val#%d", m.key, i)
		r := e.reg(st, name, ArrSort(SInt, ArrSort(m.ks, m.vl[i].Sort)), m.vl[i])
		e.setReg(st, name, Store(r, ref, v), ref)
	}
}

func nonNil(ref *Term) bool {
	return (ref.lo != nil && ref.lo.Sign() > 0) || (ref.hi != nil && ref.hi.Sign() < 0)
}

func (e *Eng) hasKey(st *State, m *mapInfo, ref *Term, k *Term) *Term {
	ref = resolve(st.guard, ref)
	if ref.op == OIte {
		return Ite(ref.args[0], e.hasKey(st, m, ref.args[1], k), e.hasKey(st, m, ref.args[2], k))
	}
	if ref == Zero {
		return False
	}
	h := Select(e.mapHas(st, m, ref), k)
	if !nonNil(ref) && !e.isKnown(st, Neq(ref, Zero)) {
		h = And(Neq(ref, Zero), h)
	}
	return h
}

func (e *Eng) lookup(st *State, mt types.Type, ref *Term, k Val) (Val, *Term) {
	m := mapOf(mt)
	kt := m.keyTerm(k)
	ok := e.hasKey(st, m, ref, kt)
	v := Val{T: m.mt.Elem()}
	for i, l := range m.vl {
		x := Select(e.mapVal(st, m, ref, i), kt)
		v.L = append(v.L, Ite(ok, x, zeroLeaf(l)))
	}
	e.wfMapVal(v, ok)
	return v, ok
}

func (e *Eng) wfMapVal(v Val, ok *Term) {
	if _, is := v.T.Underlying().(*types.Slice); is && len(v.L) == 3 {
		b, n := v.L[0], v.L[2]
		if len(b.bounds) == 0 {
			e.rawFact(Implies(Eq(b, Zero), Eq(n, Zero)), "wf")
		}
	}
}

func (e *Eng) mapUpdate(st *State, mt types.Type, ref *Term, k, v Val) {
	ref = resolve(st.guard, ref)
	if ref.op == OIte {
		s1, s2 := st.clone(), st.clone()
		e.mapUpdate(s1, mt, ref.args[1], k, v)
		e.mapUpdate(s2, mt, ref.args[2], k, v)
		e.mergeRegs(st, ref.args[0], s1, s2)
		return
	}
	m := mapOf(mt)
	kt := m.keyTerm(k)
	h := e.mapHas(st, m, ref)
	ln := e.mapLen(st, m, ref)
	nl := Ite(Select(h, kt), ln, Add(ln, One))
	var vals []*Term
	for i := range m.vl {
		vals = append(vals, Store(e.mapVal(st, m, ref, i), kt, v.L[i]))
	}
	e.noteEscape(v)
	e.setMap(st, m, ref, Store(h, kt, True), nl, vals)
}

func (e *Eng) mapDelete(st *State, mt types.Type, ref *Term, k Val) {
	ref = resolve(st.guard, ref)
	if ref == Zero {
		return
	}
	if ref.op == OIte {
		s1, s2 := st.clone(), st.clone()
		e.mapDelete(s1, mt, ref.args[1], k)
		e.mapDelete(s2, mt, ref.args[2], k)
		e.mergeRegs(st, ref.args[0], s1, s2)
		return
	}
	m := mapOf(mt)
	kt := m.keyTerm(k)
	had := e.hasKey(st, m, ref, kt)
	h := e.mapHas(st, m, ref)
	ln := e.mapLen(st, m, ref)
	e.setMap(st, m, ref, Store(h, kt, False), Ite(had, Sub(ln, One), ln), nil)
}

// lenMap returns len(m) and records its relation to emptiness.
func (e *Eng) lenMap(st *State, mt types.Type, ref *Term) *Term {
	m := mapOf(mt)
	ref = resolve(st.guard, ref)
	if ref == Zero {
		return Zero
	}
	if ref.op == OIte {
		return Ite(ref.args[0], e.lenMap(st, mt, ref.args[1]), e.lenMap(st, mt, ref.args[2]))
	}
	ln := e.mapLen(st, m, ref)
	if len(ref.bounds) == 0 && ln.op != OInt {
		h := e.mapHas(st, m, ref)
		if k := -(h.id*1000003 + ln.id) - 10; !e.factSeen[k] {
			e.factSeen[k] = true
			e.fjournal = append(e.fjournal, k)
			b := NewBound(m.ks, nil, nil)
			e.facts = append(e.facts, Fact{t: Forall([]*Term{b}, Or(Not(Select(h, b)), Ge(ln, One))), why: "maplen"})
			sk := NewSym("mapwit", m.ks, nil, nil)
			e.facts = append(e.facts, Fact{t: Or(Le(ln, Zero), Select(h, sk)), why: "maplen"})
			e.facts = append(e.facts, Fact{t: Ge(ln, Zero), why: "maplen"})
		}
	}
	if !nonNil(ref) && !e.isKnown(st, Neq(ref, Zero)) {
		return Ite(Eq(ref, Zero), Zero, ln)
	}
	return ln
}

// ---- known facts (syntactic) ----

func (e *Eng) isKnown(st *State, c *Term) bool {
	if c == True {
		return true
	}
	if st.guard.has(c) {
		return true
	}
	for _, g := range e.knownSafe[c.id] {
		sub := true
		for _, x := range g {
			if !st.guard.has(x) {
				sub = false
				break
			}
		}
		if sub {
			return true
		}
	}
	return false
}

func (e *Eng) learn(st *State, c *Term, why string) {
	if c == True {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			e.learn(st, a, why)
		}
		return
	}
	e.fact(st, c, why)
	e.knownSafe[c.id] = append(e.knownSafe[c.id], append(Guard(nil), st.guard...))
	e.journal = append(e.journal, c.id)
}

// oblige adds an obligation and afterwards assumes it.
func (e *Eng) oblige(st *State, kind, name string, props []string, goal *Term, pos token.Pos) {
	if e.noObl > 0 || e.noSafety > 0 && kind == "safety" {
		return
	}
	goal = simpUnder(st.guard, goal)
	if goal == True || e.isKnown(st, goal) {
		if kind == "ensures" || kind == "assert" || kind == "requires" {
			e.obls = append(e.obls, &Oblig{Name: name, Props: props, Kind: kind, Guard: st.guard.term(), Goal: True, NFacts: len(e.facts), Pos: e.posStr(pos), Unit: e.unit.Name})
		}
		return
	}
	e.obls = append(e.obls, &Oblig{Name: name, Props: props, Kind: kind, Guard: st.guard.term(), Goal: goal, NFacts: len(e.facts), Pos: e.posStr(pos), Unit: e.unit.Name})
	if kind != "ensures" {
		e.learn(st, goal, "after "+name)
	}
}

func (e *Eng) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.P.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, e.P.repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// mergeGuards: the disjunction of the guards, recombining complementary branches.
func mergeGuards(ins []edgeIn, p int) Guard {
	gs := make([]Guard, len(ins))
	for i, in := range ins {
		gs[i] = in.st.guard
	}
	for {
		ch := false
	outer:
		for i := 0; i < len(gs); i++ {
			for j := i + 1; j < len(gs); j++ {
				a, b := gs[i], gs[j]
				q := 0
				for q < len(a) && q < len(b) && a[q] == b[q] {
					q++
				}
				r1, r2 := And(a[q:]...), And(b[q:]...)
				if r1 == True || r2 == True || r1 == Not(r2) || Or(r1, r2) == True {
					gs[i] = a[:q:q]
					gs = append(gs[:j:j], gs[j+1:]...)
					ch = true
					break outer
				}
			}
		}
		if !ch {
			break
		}
	}
	if len(gs) == 1 {
		return gs[0]
	}
	q := 0
	for {
		ok := true
		for _, g := range gs {
			if q >= len(g) || g[q] != gs[0][q] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		q++
	}
	var rs []*Term
	for _, g := range gs {
		rs = append(rs, And(g[q:]...))
	}
	out, _ := gs[0][:q:q].add(Or(rs...))
	return out
}

func (e *Eng) applyLive(fr *Frame, st *State) {
	for k, v := range st.live {
		if k.fr == fr {
			fr.env[k.v] = v
		}
	}
}

func sameSpawn(a, b spawnRec) bool {
	return a.fn == b.fn && a.sfn == b.sfn && a.cond == b.cond && a.call == b.call && sameVals(a.args, b.args)
}
