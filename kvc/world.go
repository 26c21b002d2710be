package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newEng(w *World) *Eng {
	e := &Eng{P: w.P, W: w, trusted: map[string]bool{}, contracts: map[string]bool{}, inlined: map[string]bool{}, havocked: map[string]bool{}, baseVars: map[string]*Term{}, knownSafe: map[int][]Guard{}, escaped: map[string]bool{}, folds: map[string]*foldInfo{}, noteSeen: map[string]bool{}, factSeen: map[int]bool{}, regLeaf: map[string]Leaf{}, nextRef: bi(2000000000000)}
	return e
}

type unitError struct {
	Unit  string
	Props []string
	Msg   string
}

func newWorld(P *Prog) *World {
	w := &World{P: P, contracts: map[string]*Directive{}, models: map[string]*ssa.Function{}, loopinvs: map[string][]*Directive{}, variants: map[string][]*Directive{}, chaninvs: map[string]*Directive{}, befores: map[string][]*Directive{}, written: map[string]bool{}, inline: map[string]bool{}, disabled: map[string]bool{}}
	all := allFunctions(P)
	for fn := range all {
		o := origin(fn)
		if o.Pkg == nil && o.Parent() == nil {
			continue
		}
		p := o
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg == nil || P.pkgs[p.Pkg.Pkg.Path()] == nil || w.isSpec(o) || o.Synthetic != "" {
			continue
		}
		P.names[fnKey(o)] = o
	}
	w.findWritten(all)
	for _, d := range P.dirs {
		if d.Fn == nil {
			continue
		}
		switch d.Kind {
		case "contract", "verify":
			u := &Unit{Name: d.Args[0], Fn: d.Fn, Props: d.tags(), Dir: d, Target: P.names[d.Args[0]]}
			if d.Kind == "verify" {
				u.Name += " (" + d.Fn.Name() + ")"
			} else {
				w.contracts[d.Args[0]] = d
			}
			w.units = append(w.units, u)
		case "lemma":
			w.units = append(w.units, &Unit{Name: "lemma " + d.Fn.Name(), Fn: d.Fn, Props: d.tags(), Dir: d})
		case "axiom":
			w.axiomDirs = append(w.axiomDirs, d)
		case "model":
			w.models[strings.Join(d.Args, " ")] = d.Fn
		case "loopinv":
			w.loopinvs[d.Args[0]] = append(w.loopinvs[d.Args[0]], d)
		case "chaninv":
			w.chaninvs[tkey(d.Fn.Params[0].Type())] = d
		case "variant":
			w.variants[d.Args[0]] = append(w.variants[d.Args[0]], d)
		case "monitor":
			w.monitors = append(w.monitors, &monitorSpec{key: d.Args[0], fn: d.Fn})
		case "before":
			w.befores[d.Args[0]] = append(w.befores[d.Args[0]], d)
		case "guard":
			// //kv:guard mu field,field Cxx   on a function whose first parameter is *T
			g := &guardSpec{typ: tkey(deref(d.Fn.Params[0].Type())), mu: d.Args[0], field: map[string]bool{}, props: d.tags()}
			for _, f := range strings.Split(d.Args[1], ",") {
				g.field[f] = true
			}
			w.guards = append(w.guards, g)
		default:
			panic("unknown directive " + d.Kind)
		}
	}
	w.runInit()
	for _, d := range w.axiomDirs {
		e := newEng(w)
		e.unit = &Unit{Name: "axiom " + d.Fn.Name()}
		e.nextRef = new(big.Int).Set(w.initRef)
		e.noObl = 1
		st := w.init.clone()
		rs, ok := e.run(st, d.Fn, nil, nil, nil, 'm')
		if !ok {
			panic("axiom " + d.Fn.Name())
		}
		axioms = append(axioms, axiom{trig: d.Args, t: rs[0].L[0]})
	}
	return w
}

// findWritten: globals that are assigned, or whose address is taken, outside package initialisation.
func (w *World) findWritten(all map[*ssa.Function]bool) {
	for fn := range all {
		if w.isSpec(fn) {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Name() == "init" || strings.HasPrefix(root.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				if fa, ok := ins.(*ssa.FieldAddr); ok && onlyRead(fa) {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if pk := g.Pkg; pk == nil || w.P.pkgs[pk.Pkg.Path()] == nil {
							continue
						}
						w.written[g.Pkg.Pkg.Path()+"."+g.Name()] = true
					}
				}
			}
		}
	}
}

func (w *World) runInit() {
	e := newEng(w)
	e.unit = &Unit{Name: "init"}
	st := &State{regs: map[string]*Term{}}
	e.noObl = 1
	e.trusted = nil
	e.initPhase = true
	var paths []string
	for p := range w.P.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if !strings.HasPrefix(p, w.P.modPath) {
			continue
		}
		init := w.P.pkgs[p].Func("init")
		if init == nil {
			continue
		}
		func() {
			s := st.clone()
			m := e.mark()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupErr); !ok {
						panic(r)
					}
					e.rollback(m)
					e.stack = nil
					e.noObl = 1
					w.written["init:"+p] = true
					if verbose {
						fmt.Println("init of", p, "not modelled:", r)
					}
				}
			}()
			if _, ok := e.run(s, init, nil, nil, nil, 'i'); ok {
				*st = *s
			}
		}()
	}
	st.guard = nil
	st.defers, st.live, st.spawns = nil, nil, nil
	for k := range st.regs {
		if strings.HasPrefix(k, "g:") {
			n := strings.TrimPrefix(k, "g:")
			n = n[:strings.LastIndexByte(n, '#')]
			pk := n[:strings.LastIndexByte(n, '.')]
			if w.written[n] || w.written["init:"+pk] || strings.HasSuffix(n, "init$guard") {
				delete(st.regs, k)
			}
		}
		if strings.HasPrefix(k, "ghost:") || strings.HasPrefix(k, "it:") {
			delete(st.regs, k)
		}
	}
	w.init = st
	w.initRef = e.nextRef
	for _, f := range e.facts {
		w.initFacts = append(w.initFacts, f)
	}
	w.initEng = e
}

// runUnit executes one unit symbolically and returns its engines, one per path if it is
// to be verified path by path.
func (w *World) runUnit(u *Unit) (es []*Eng, err error) {
	if u.Dir == nil || !u.Dir.flag("paths") && !u.Dir.flag("choose") {
		e, err := w.runPath(u, false, nil)
		return []*Eng{e}, err
	}
	var script []int
	if x := os.Getenv("KVC_PATH"); x != "" {
		for _, f := range strings.Fields(x) {
			n, _ := strconv.Atoi(f)
			script = append(script, n)
		}
		e, err := w.runPath(u, u.Dir.flag("paths"), script)
		return []*Eng{e}, err
	}
	for {
		e, err := w.runPath(u, u.Dir.flag("paths"), script)
		es = append(es, e)
		if verbose {
			fmt.Printf("  path %v forks %v facts %d\n", script, e.forks, len(e.facts))
		}
		if err != nil {
			return es, err
		}
		if len(es) > maxPaths {
			return es, fmt.Errorf("more than %d paths", maxPaths)
		}
		if script = nextScript(script, e.forks); script == nil {
			return es, nil
		}
	}
}

// joinPaths combines the obligations of a unit's paths.
func joinPaths(es []*Eng) *Eng {
	e := es[0]
	if len(es) == 1 {
		return e
	}
	type key struct{ kind, name, pos string }
	at := map[key]*Oblig{}
	var out []*Oblig
	for _, x := range es {
		for _, o := range x.obls {
			k := key{o.Kind, o.Name, o.Pos}
			p := at[k]
			if p == nil {
				at[k] = o
				out = append(out, o)
				continue
			}
			t := p.Time + o.Time
			better := o.Result != "proved" && p.Result == "proved"
			if o.Kind == "cover" {
				better = o.Result == "proved" && p.Result != "proved"
			}
			if better {
				*p = *o
			}
			p.Time = t
		}
		if x != e {
			e.loopProved += x.loopProved
			e.loopObl = append(e.loopObl, x.loopObl...)
			for _, m := range [][2]map[string]bool{{e.trusted, x.trusted}, {e.contracts, x.contracts}, {e.inlined, x.inlined}, {e.havocked, x.havocked}} {
				for k := range m[1] {
					m[0][k] = true
				}
			}
		}
	}
	e.obls = out
	return e
}

// runPath executes one unit symbolically and returns its engine.
func (w *World) runPath(u *Unit, paths bool, script []int) (e *Eng, err error) {
	e = newEng(w)
	e.paths, e.script = paths, script
	e.unit = u
	e.nextRef = new(big.Int).Set(w.initRef)
	for k, v := range w.initEng.baseVars {
		if !strings.HasPrefix(k, "it:") && !strings.HasPrefix(k, "ghost:") {
			e.baseVars[k] = v
		}
	}
	for k, v := range w.initEng.regLeaf {
		e.regLeaf[k] = v
	}
	e.facts = append(e.facts, w.initFacts...)
	st := w.init.clone()
	defer func() {
		if r := recover(); r != nil {
			if ue, ok := r.(unsupErr); ok {
				where := ""
				for i := len(e.stack) - 1; i >= 0; i-- {
					where += " <- " + fnKey(e.stack[i].fn)
				}
				err = fmt.Errorf("%s%s", ue.msg, where)
				return
			}
			fmt.Println("internal error in unit", u.Name)
			for i := len(e.stack) - 1; i >= 0; i-- {
				fmt.Println("   in", fnKey(e.stack[i].fn))
			}
			panic(r)
		}
	}()
	if u.Dir != nil && u.Target == nil && u.Dir.Kind != "lemma" {
		return e, fmt.Errorf("function %s under contract not found in /repo", u.Dir.Args[0])
	}
	var args []Val
	e.gap()
	for _, p := range u.Fn.Params {
		args = append(args, e.freshVal(st, p.Type(), p.Name(), bi(0)))
	}
	e.unitRef = e.epoch()
	_, ok := e.run(st, u.Fn, args, nil, u.Target, 'v')
	if !ok {
		if verbose {
			fmt.Println("  (unit does not return normally)")
		}
	}
	// vacuity: the end of the unit must be reachable
	if ok && !u.flag("noreturn") {
		e.obls = append(e.obls, &Oblig{Name: "end of contract reachable", Kind: "cover", Guard: st.guard.term(), Goal: False, NFacts: len(e.facts), Unit: u.Name})
	}
	return e, nil
}

type unitResult struct {
	u    *Unit
	e    *Eng
	err  error
	dur  time.Duration
	obls []*Oblig
}

var _ = types.Identical

// allFunctions: every function with a body that the source packages declare or reach.
func allFunctions(P *Prog) map[*ssa.Function]bool {
	all := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || all[fn] {
			return
		}
		all[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	for _, pkg := range P.pkgs {
		for _, m := range pkg.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(P.prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	return all
}

func (w *World) loopinvKeys() []string {
	var ks []string
	for k := range w.loopinvs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// fnPkg is the package of a function, also of closures.
func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn.Pkg == nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg
}

// onlyRead: the field address is used by loads only.
func onlyRead(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyRead(x) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
