package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Contracts flagged "paths" are verified path by path: at joins of the real code whose
// states differ in what pointers refer to, one incoming edge is followed per execution and
// the unit is executed again for every other edge. Every edge of every such join is
// followed by some execution.

const maxPaths = 96

// fork returns the incoming edge to follow, or -1 to merge all of them.
func (e *Eng) fork(fr *Frame, ins []edgeIn, samePhis func(i, j int) bool) int {
	if !e.paths || len(ins) < 2 || e.inLoop > 0 || e.inTarget == 0 || fr.spec || e.quant > 0 || fr.mode == 'm' {
		return -1
	}
	differ := false
	for i := 1; i < len(ins) && !differ; i++ {
		differ = !samePhis(0, i) || e.differ(ins[0].st, ins[i].st)
	}
	if !differ {
		return -1
	}
	n := len(e.forks)
	if verbose && n >= len(e.script) {
		fmt.Printf("  fork %d: %d ways in %s %s\n", n, len(ins), fnKey(fr.fn), e.forkWhy(ins))
	}
	e.forks = append(e.forks, len(ins))
	if n < len(e.script) {
		if e.script[n] >= len(ins) {
			panic(unsupported("paths: execution is not reproducible"))
		}
		return e.script[n]
	}
	return 0
}

// choose returns the value of a choice among n: the unit is executed once for every value.
func (e *Eng) choose(n int) int {
	if e.unit == nil || e.unit.Dir == nil || !e.unit.Dir.flag("choose") && !e.unit.Dir.flag("paths") || e.inLoop > 0 || e.inTarget != 0 || e.quant > 0 || n < 1 {
		panic(unsupported("kv.Choose"))
	}
	i := len(e.forks)
	e.forks = append(e.forks, n)
	if i < len(e.script) {
		if e.script[i] >= n {
			panic(unsupported("paths: execution is not reproducible"))
		}
		return e.script[i]
	}
	return 0
}

// dropOthers: everything not yet followed was left to the execution that takes edge 0.
func (e *Eng) dropOthers(fr *Frame, c int) {
	for f := fr; f != nil && !f.spec; f = f.caller {
		for b := range f.pending {
			delete(f.pending, b)
		}
		f.rets = nil
		f.panics = nil
	}
}

func ptrLeaf(l Leaf) bool {
	if l.T == nil {
		return false
	}
	switch l.T.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return l.Sort == SInt
	}
	return false
}

// ptrCell: the region holds pointer variables.
func (e *Eng) ptrCell(k string) bool {
	return strings.HasPrefix(k, "o:*") && strings.HasSuffix(k, "#0")
}

func samePtrs(a, b []Val) bool {
	for i := range a {
		for j, l := range flatten(a[i].T) {
			if ptrLeaf(l) && a[i].L[j] != b[i].L[j] {
				return false
			}
		}
	}
	return true
}

// differ: do the states disagree on a pointer held in memory?
func (e *Eng) differ(a, b *State) bool {
	for _, s := range []*State{a, b} {
		for k := range s.regs {
			if !e.ptrCell(k) {
				continue
			}
			if x, y := e.regOf(a, k), e.regOf(b, k); x != nil && y != nil && x != y {
				return true
			}
		}
	}
	return false
}

// nextScript returns the next choice sequence after an execution with the given forks.
func nextScript(script, forks []int) []int {
	s := append([]int{}, script...)
	for len(s) < len(forks) {
		s = append(s, 0)
	}
	s = s[:len(forks)]
	for i := len(s) - 1; i >= 0; i-- {
		if s[i]+1 < forks[i] {
			s[i]++
			return s[:i+1]
		}
	}
	return nil
}

func (e *Eng) forkWhy(ins []edgeIn) string {
	a := ins[0].st
	for _, in := range ins[1:] {
		for k := range in.st.regs {
			if e.ptrCell(k) {
				if x, y := e.regOf(a, k), e.regOf(in.st, k); x != nil && y != nil && x != y {
					return k
				}
			}
		}
	}
	return "phi"
}
