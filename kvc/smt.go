package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type emitter struct {
	native bool // native string theory
	sb     strings.Builder
	names  map[*Term]string // ground shared terms
	refs   map[*Term]int
	vars   map[*Term]bool
	ufs    map[string]bool
	lits   map[*Term]bool
	ground []*Term // ground int terms with bounds / string terms, in order
	seen   map[*Term]bool
	boxes  []*Term
	letN   int
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (m *emitter) sortName(s *Sort) string {
	switch s.Kind {
	case 'B':
		return "Bool"
	case 'I':
		return "Int"
	case 'S':
		if m.native {
			return "String"
		}
		return "Str"
	case 'F':
		return "Flt"
	}
	return "(Array " + m.sortName(s.Key) + " " + m.sortName(s.Elem) + ")"
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&sb, `\u{%x}`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (m *emitter) scan(t *Term) {
	m.refs[t]++
	if m.seen[t] {
		return
	}
	m.seen[t] = true
	switch t.op {
	case OVar:
		m.vars[t] = true
	case OUF:
		m.ufs[t.name] = true
		if strings.HasPrefix(t.name, "box:") && len(t.bounds) == 0 {
			m.boxes = append(m.boxes, t)
		}
	case OStr:
		m.lits[t] = true
	}
	for _, a := range t.args {
		m.scan(a)
	}
	if len(t.bounds) == 0 {
		m.ground = append(m.ground, t)
	}
}

func sym(s string) string { return "|" + s + "|" }

// ground terms get definitions; bounded ones are expanded with lets.
func (m *emitter) expr(t *Term, lets map[*Term]string) string {
	if n, ok := m.names[t]; ok {
		return n
	}
	if n, ok := lets[t]; ok {
		return n
	}
	s := m.expr1(t, lets)
	return s
}

func (m *emitter) expr1(t *Term, lets map[*Term]string) string {
	a := func(i int) string { return m.expr(t.args[i], lets) }
	switch t.op {
	case OBool:
		return t.name
	case OInt:
		return smtInt(t.val)
	case OStr:
		if m.native {
			return smtStr(t.name)
		}
		return fmt.Sprintf("lit!%d", t.id)
	case OVar, OBound:
		return sym(t.name)
	case OForall, OExists:
		return m.quant(t, lets)
	}
	var op string
	switch t.op {
	case OUF:
		if isTrig(t) {
			return "true"
		}
		if len(t.args) == 0 {
			return sym(t.name)
		}
		op = sym(t.name)
	case ONot:
		op = "not"
	case OAnd:
		op = "and"
	case OOr:
		op = "or"
	case OIte:
		op = "ite"
	case OEq:
		op = "="
	case OLe:
		return m.le(t.args[0], lets)
	case OAdd:
		var xs []string
		if t.val.Sign() != 0 {
			xs = append(xs, smtInt(t.val))
		}
		for i := range t.args {
			if t.coefs[i].Cmp(bi(1)) == 0 {
				xs = append(xs, a(i))
			} else {
				xs = append(xs, "(* "+smtInt(t.coefs[i])+" "+a(i)+")")
			}
		}
		if len(xs) == 1 {
			return xs[0]
		}
		return "(+ " + strings.Join(xs, " ") + ")"
	case OMul:
		op = "*"
	case ODiv:
		op = "div"
	case OMod:
		op = "mod"
	case OSelect:
		op = "select"
	case OStore:
		op = "store"
	case OConstArr:
		return "((as const " + m.sortName(t.sort) + ") " + a(0) + ")"
	case OStrLen:
		op = "slen"
		if m.native {
			op = "str.len"
		}
	case OStrCat:
		if m.native {
			op = "str.++"
		} else {
			r := a(0)
			for i := 1; i < len(t.args); i++ {
				r = "(scat " + r + " " + a(i) + ")"
			}
			return r
		}
	case OStrSub:
		op = "ssub"
		if m.native {
			op = "str.substr"
		}
	case OStrIdx:
		if m.native {
			return "(str.indexof " + a(0) + " " + a(1) + " 0)"
		}
		op = "sidx"
	case OStrPre:
		op = "spre"
		if m.native {
			op = "str.prefixof"
		}
	case OStrSuf:
		op = "ssuf"
		if m.native {
			op = "str.suffixof"
		}
	case OStrAt:
		if m.native {
			return "(str.to_code (str.at " + a(0) + " " + a(1) + "))"
		}
		op = "sat"
	case OStrLt:
		op = "slt"
		if m.native {
			op = "str.<"
		}
	default:
		panic("emit op")
	}
	var sb strings.Builder
	sb.WriteString("(" + op)
	for i := range t.args {
		sb.WriteString(" " + a(i))
	}
	sb.WriteString(")")
	return sb.String()
}

// le: sum <= 0, negative parts moved right.
func (m *emitter) le(t *Term, lets map[*Term]string) string {
	if t.op != OAdd || m.names[t] != "" {
		return "(<= " + m.expr(t, lets) + " 0)"
	}
	var l, r []string
	add := func(c *big.Int, s string) {
		if c.Sign() > 0 {
			if c.Cmp(bi(1)) != 0 {
				s = "(* " + smtInt(c) + " " + s + ")"
			}
			l = append(l, s)
		} else {
			n := new(big.Int).Neg(c)
			if n.Cmp(bi(1)) != 0 {
				s = "(* " + smtInt(n) + " " + s + ")"
			}
			r = append(r, s)
		}
	}
	for i, x := range t.args {
		add(t.coefs[i], m.expr(x, lets))
	}
	if t.val.Sign() > 0 {
		l = append(l, smtInt(t.val))
	} else if t.val.Sign() < 0 {
		r = append(r, smtInt(new(big.Int).Neg(t.val)))
	}
	sum := func(x []string) string {
		switch len(x) {
		case 0:
			return "0"
		case 1:
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return "(<= " + sum(l) + " " + sum(r) + ")"
}

func (m *emitter) quant(t *Term, lets map[*Term]string) string {
	scope := map[*Term]bool{}
	for _, b := range t.bvars {
		scope[b] = true
	}
	q := "forall"
	if t.op == OExists {
		q = "exists"
	}
	var vs []string
	var rng []string
	for _, b := range t.bvars {
		vs = append(vs, "("+sym(b.name)+" "+m.sortName(b.sort)+")")
		if b.lo != nil {
			rng = append(rng, "(<= "+smtInt(b.lo)+" "+sym(b.name)+")")
		}
		if b.hi != nil {
			rng = append(rng, "(<= "+sym(b.name)+" "+smtInt(b.hi)+")")
		}
	}
	// shared bounded subterms of the body
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		order = append(order, x)
	}
	walk(t.args[0])
	nl := map[*Term]string{}
	for k, v := range lets {
		nl[k] = v
	}
	inScope := map[*Term]bool{}
	for k := range scope {
		inScope[k] = true
	}
	for k := range lets {
		for _, b := range k.bounds {
			inScope[b] = true
		}
	}
	var letS []string
	for _, x := range order {
		if cnt[x] < 2 || len(x.args) == 0 || nl[x] != "" || m.names[x] != "" {
			continue
		}
		has, ok := false, true
		for _, b := range x.bounds {
			if scope[b] {
				has = true
			} else if !m.outer(b, t) {
				ok = false
			}
		}
		if !has || !ok {
			continue
		}
		s := m.expr1(x, nl)
		m.letN++
		n := fmt.Sprintf("l!%d", m.letN)
		letS = append(letS, "(let (("+n+" "+s+"))")
		nl[x] = n
	}
	body := m.expr(t.args[0], nl)
	if len(letS) > 0 {
		body = strings.Join(letS, " ") + " " + body + strings.Repeat(")", len(letS))
	}
	if len(rng) > 0 {
		if t.op == OForall {
			body = "(=> (and " + strings.Join(rng, " ") + ") " + body + ")"
		} else {
			body = "(and " + strings.Join(rng, " ") + " " + body + ")"
		}
	}
	if pats := trigsOf(t); len(pats) > 0 {
		body = "(! " + body
		for _, p := range pats {
			var ps []string
			for _, a := range p.args {
				ps = append(ps, m.expr(a, lets))
			}
			body += " :pattern (" + strings.Join(ps, " ") + ")"
		}
		body += ")"
	}
	return "(" + q + " (" + strings.Join(vs, " ") + ") " + body + ")"
}

// isTrig: kv.By, true, which gives the terms that trigger the quantifier around it.
func isTrig(t *Term) bool { return t.op == OUF && strings.HasPrefix(t.name, "kv.trig") }

// trigsOf: the triggers given for a universal quantifier.
func trigsOf(t *Term) []*Term {
	if t.op != OForall {
		return nil
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || x.op == OForall || x.op == OExists {
			return
		}
		seen[x] = true
		if isTrig(x) {
			for _, b := range t.bvars {
				ok := false
				for _, y := range x.bounds {
					ok = ok || y == b
				}
				if !ok {
					return
				}
			}
			out = append(out, x)
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t.args[0])
	return out
}

// outer: b is free in the quantified term t (bound further out).
func (m *emitter) outer(b *Term, t *Term) bool {
	for _, x := range t.bounds {
		if x == b {
			return true
		}
	}
	return false
}

func (m *emitter) boundFacts() []string {
	var out []string
	for _, t := range m.ground {
		if t.sort != SInt {
			continue
		}
		switch t.op {
		case OVar, OUF, OSelect, OStrLen, OStrIdx, OStrAt:
		default:
			continue
		}
		e := m.expr(t, nil)
		if t.op == OStrAt {
			if m.native {
				out = append(out, "(<= (- 1) "+e+")", "(<= "+e+" 255)")
			} else {
				out = append(out, "(<= 0 "+e+")", "(<= "+e+" 255)")
			}
			continue
		}
		if t.lo != nil && t.hi != nil && t.lo.Cmp(t.hi) == 0 {
			out = append(out, "(= "+e+" "+smtInt(t.lo)+")")
			continue
		}
		if t.lo != nil {
			out = append(out, "(<= "+smtInt(t.lo)+" "+e+")")
		}
		if t.hi != nil {
			out = append(out, "(<= "+e+" "+smtInt(t.hi)+")")
		}
	}
	return out
}

// query prints the satisfiability problem: asserts all of cs.
func emitQuery(cs []*Term, native bool) (string, bool) { return emitQueryV(cs, native, nil) }

// emitQueryV additionally asks for the values of the given (ground) terms.
func emitQueryV(cs []*Term, native bool, vals []*Term) (string, bool) {
	m := &emitter{native: native, names: map[*Term]string{}, refs: map[*Term]int{}, vars: map[*Term]bool{}, ufs: map[string]bool{}, lits: map[*Term]bool{}, seen: map[*Term]bool{}}
	for _, c := range cs {
		m.scan(c)
	}
	// unbox facts
	var extra []*Term
	for _, b := range m.boxes {
		// box:T.tags>I : recover type key from a registered box term
		tn := strings.TrimPrefix(b.name, "box:")
		if i := strings.LastIndexByte(tn, '>'); i >= 0 {
			tn = tn[:i]
		}
		tags := ""
		for _, a := range b.args {
			tags += "." + sortTag(a.sort)
		}
		tn = strings.TrimSuffix(tn, tags)
		for i, a := range b.args {
			u := UF(fmt.Sprintf("unbox:%s#%d", tn, i), a.sort, nil, nil, b)
			if u.op == OUF {
				extra = append(extra, Eq(u, a))
			}
		}
	}
	for _, x := range extra {
		m.scan(x)
	}
	cs = append(append([]*Term(nil), cs...), extra...)
	hasStr := false
	var strTerms []*Term
	for t := range m.seen {
		switch t.op {
		case OStrCat, OStrSub, OStrIdx, OStrPre, OStrSuf, OStrAt, OStrLt:
			hasStr = true
		}
	}
	for _, t := range m.ground {
		if t.sort == SStr {
			strTerms = append(strTerms, t)
		}
	}
	var sb strings.Builder
	if native {
		sb.WriteString("(set-logic ALL)\n")
	} else {
		sb.WriteString("(set-logic ALL)\n(declare-sort Str 0)\n")
	}
	sb.WriteString("(declare-sort Flt 0)\n")
	if !native {
		sb.WriteString("(declare-fun slen (Str) Int)\n(declare-fun scat (Str Str) Str)\n(declare-fun ssub (Str Int Int) Str)\n(declare-fun sidx (Str Str) Int)\n(declare-fun spre (Str Str) Bool)\n(declare-fun ssuf (Str Str) Bool)\n(declare-fun sat (Str Int) Int)\n(declare-fun slt (Str Str) Bool)\n")
	}
	var vs []*Term
	for v := range m.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", sym(v.name), m.sortName(v.sort))
	}
	var us []string
	for u := range m.ufs {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		i := ufTab[u]
		var ds []string
		for _, d := range i.dom {
			ds = append(ds, m.sortName(d))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", sym(u), strings.Join(ds, " "), m.sortName(i.rng))
	}
	var ls []*Term
	if !native {
		for l := range m.lits {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for _, l := range ls {
			fmt.Fprintf(&sb, "(declare-fun lit!%d () Str)\n(assert (= (slen lit!%d) %d))\n", l.id, l.id, len(l.name))
		}
		if len(ls) > 1 {
			sb.WriteString("(assert (distinct")
			for _, l := range ls {
				fmt.Fprintf(&sb, " lit!%d", l.id)
			}
			sb.WriteString("))\n")
		}
	}
	// definitions of shared ground terms (ground is in post-order)
	for _, t := range m.ground {
		if len(t.args) == 0 || m.refs[t] < 2 || m.names[t] != "" {
			continue
		}
		s := m.expr1(t, nil)
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, m.sortName(t.sort), s)
		m.names[t] = n
	}
	for _, f := range m.boundFacts() {
		sb.WriteString("(assert " + f + ")\n")
	}
	if !native {
		// ground string axioms
		ax := func(s string) { sb.WriteString("(assert " + s + ")\n") }
		emptyLit := ""
		for _, l := range ls {
			if l.name == "" {
				emptyLit = fmt.Sprintf("lit!%d", l.id)
			}
		}
		for _, t := range strTerms {
			e := m.expr(t, nil)
			if t.op != OStr {
				ax("(>= (slen " + e + ") 0)")
				if emptyLit != "" {
					ax("(=> (= (slen " + e + ") 0) (= " + e + " " + emptyLit + "))")
				}
			}
			switch t.op {
			case OStrCat:
				var xs []string
				for _, a := range t.args {
					xs = append(xs, "(slen "+m.expr(a, nil)+")")
				}
				ax("(= (slen " + e + ") (+ " + strings.Join(xs, " ") + "))")
				ax("(spre " + m.expr(t.args[0], nil) + " " + e + ")")
			case OStrSub:
				s, o, n := m.expr(t.args[0], nil), m.expr(t.args[1], nil), m.expr(t.args[2], nil)
				ax("(=> (and (<= 0 " + o + ") (<= 0 " + n + ") (<= (+ " + o + " " + n + ") (slen " + s + "))) (= (slen " + e + ") " + n + "))")
				ax("(=> (and (= 0 " + o + ") (= " + n + " (slen " + s + "))) (= " + e + " " + s + "))")
			}
		}
		litEq := map[*Term][]*Term{}
		for _, t := range m.ground {
			if t.op == OEq && t.args[0].sort == SStr {
				if x, y := t.args[0], t.args[1]; x.op == OStr && y.op != OStr {
					litEq[y] = append(litEq[y], x)
				} else if y.op == OStr && x.op != OStr {
					litEq[x] = append(litEq[x], y)
				}
			}
		}
		litPre := map[*Term][]*Term{}
		for _, t := range m.ground {
			if t.op != OStrPre && t.op != OStrSuf || t.args[0].op != OStr {
				continue
			}
			for _, l := range litEq[t.args[1]] {
				if t.op == OStrPre && strings.HasPrefix(l.name, t.args[0].name) || t.op == OStrSuf && strings.HasSuffix(l.name, t.args[0].name) {
					ax("(=> (= " + m.expr(t.args[1], nil) + " " + m.expr(l, nil) + ") " + m.expr(t, nil) + ")")
				} else {
					ax("(=> (= " + m.expr(t.args[1], nil) + " " + m.expr(l, nil) + ") (not " + m.expr(t, nil) + "))")
				}
			}
			for _, u := range litPre[t.args[1]] {
				if u.op != t.op {
					continue
				}
				has := strings.HasPrefix
				if t.op == OStrSuf {
					has = strings.HasSuffix
				}
				x, y := t.args[0].name, u.args[0].name
				switch {
				case has(x, y):
					ax("(=> " + m.expr(t, nil) + " " + m.expr(u, nil) + ")")
				case has(y, x):
					ax("(=> " + m.expr(u, nil) + " " + m.expr(t, nil) + ")")
				default:
					ax("(not (and " + m.expr(u, nil) + " " + m.expr(t, nil) + "))")
				}
			}
			litPre[t.args[1]] = append(litPre[t.args[1]], t)
		}
		for _, t := range m.ground {
			switch t.op {
			case OStrPre, OStrSuf:
				if t.args[0].op != OStr {
					ax("(=> (= " + m.expr(t.args[0], nil) + " " + m.expr(t.args[1], nil) + ") " + m.expr(t, nil) + ")")
				}
				ax("(=> " + m.expr(t, nil) + " (<= (slen " + m.expr(t.args[0], nil) + ") (slen " + m.expr(t.args[1], nil) + ")))")
			case OStrIdx:
				e := m.expr(t, nil)
				ax("(=> (>= " + e + " 0) (<= (+ " + e + " (slen " + m.expr(t.args[1], nil) + ")) (slen " + m.expr(t.args[0], nil) + ")))")
			}
		}
	}
	for _, c := range cs {
		sb.WriteString("(assert " + m.expr(c, nil) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(vals) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vals {
			sb.WriteString(m.expr(v, nil) + "\n")
		}
		sb.WriteString("))\n")
	}
	return sb.String(), hasStr
}

// explain evaluates the goal and the unknowns of a failed obligation in a solver model.
func explain(cs []*Term, goal *Term) string {
	termMu.Lock()
	seen := map[*Term]bool{}
	var vals []*Term
	var all []*Term
	var w func(t *Term, d int)
	w = func(t *Term, d int) {
		if seen[t] || len(vals) > 400 {
			return
		}
		seen[t] = true
		if t.op == OForall || t.op == OExists {
			if len(t.bounds) == 0 {
				vals = append(vals, t)
			}
			return
		}
		if len(t.bounds) == 0 && (t.sort == SBool || t.sort == SInt) && t.op != OInt && t.op != OBool {
			vals = append(vals, t)
		}
		for _, a := range t.args {
			w(a, d+1)
		}
	}
	w(goal, 0)
	for _, c := range cs {
		all = append(all, c)
	}
	// input variables of the whole query
	vs := map[*Term]bool{}
	for _, c := range cs {
		symsIn(c, -1, map[*Term]bool{}, vs)
	}
	for v := range vs {
		if (v.sort == SBool || v.sort == SInt) && !seen[v] {
			vals = append(vals, v)
		}
	}
	q, _ := emitQueryV(withAxioms(all), false, vals)
	q = "(set-option :produce-models true)\n" + q
	termMu.Unlock()
	f := writeQuery(q)
	defer os.Remove(f)
	for _, sv := range []string{"z3-new", "cvc5"} {
		_, out := runOne(context.Background(), sv, 4000, f)
		i := strings.IndexByte(out, '\n')
		if !strings.HasPrefix(out, "sat") || i < 0 {
			continue
		}
		xs := sexprs(out[i+1:])
		if len(xs) != len(vals) {
			continue
		}
		val := map[*Term]string{}
		for i, v := range vals {
			val[v] = xs[i]
		}
		var sb strings.Builder
		var names []string
		for v := range vs {
			if x, ok := val[v]; ok {
				names = append(names, v.name+" = "+x)
			}
		}
		sort.Strings(names)
		sb.WriteString("values (" + sv + "):\n")
		for _, n := range names {
			sb.WriteString("  " + n + "\n")
		}
		sb.WriteString("goal:\n")
		n := 0
		var pr func(t *Term, ind string, d int)
		pr = func(t *Term, ind string, d int) {
			n++
			if n > 300 {
				return
			}
			v := val[t]
			if len(v) > 60 {
				v = v[:60]
			}
			if d == 0 || t.sort != SBool && t.op != OIte || t.op == OForall || t.op == OExists || len(t.args) == 0 {
				sb.WriteString(ind + v + "  <- " + t.str(4) + "\n")
				return
			}
			nm := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OLe: "<=0", OUF: t.name, OSelect: "select"}[t.op]
			sb.WriteString(ind + v + "  <- " + nm + "\n")
			for _, a := range t.args {
				if t.op == OAnd && v == "false" && val[a] == "true" || t.op == OOr && v == "true" && val[a] == "false" {
					continue
				}
				if t.op == OIte && (a == t.args[1] && val[t.args[0]] == "false" || a == t.args[2] && val[t.args[0]] == "true") {
					continue
				}
				pr(a, ind+"  ", d-1)
			}
		}
		pr(goal, "  ", 12)
		return sb.String()
	}
	return ""
}

// sexprs: the second components of a get-value answer.
func sexprs(s string) []string {
	var out []string
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return nil
	}
	i++
	skip := func(i int) int { // end of the s-expression starting at i
		d := 0
		for i < len(s) {
			switch s[i] {
			case '(':
				d++
			case ')':
				d--
				if d == 0 {
					return i + 1
				}
			case '|':
				j := strings.IndexByte(s[i+1:], '|')
				i += j + 1
				if d == 0 {
					return i + 1
				}
			case '"':
				j := strings.IndexByte(s[i+1:], '"')
				i += j + 1
				if d == 0 {
					return i + 1
				}
			default:
				if d == 0 {
					for i < len(s) && !strings.ContainsRune(" \n\t()", rune(s[i])) {
						i++
					}
					return i
				}
			}
			i++
		}
		return i
	}
	ws := func(i int) int {
		for i < len(s) && strings.ContainsRune(" \n\t", rune(s[i])) {
			i++
		}
		return i
	}
	for {
		i = ws(i)
		if i >= len(s) || s[i] != '(' {
			return out
		}
		e := skip(i)
		a := ws(i + 1)
		b := ws(skip(a))
		c := skip(b)
		out = append(out, s[b:c])
		i = e
	}
}

// cone selects the facts connected to the seed terms by shared symbols.
func cone(seed []*Term, facts []Fact) []*Term {
	symsOf := func(t *Term, set map[*Term]bool, memo map[*Term]bool) {
		var w func(x *Term)
		w = func(x *Term) {
			if memo[x] {
				return
			}
			memo[x] = true
			if x.op == OVar {
				set[x] = true
				return
			}
			if x.op == OUF && len(x.bounds) == 0 {
				set[x] = true
			}
			for _, a := range x.args {
				w(a)
			}
		}
		w(t)
	}
	have := map[*Term]bool{}
	memo := map[*Term]bool{}
	for _, s := range seed {
		symsOf(s, have, memo)
	}
	fs := make([]map[*Term]bool, len(facts))
	for i, f := range facts {
		fs[i] = map[*Term]bool{}
		symsOf(f.t, fs[i], map[*Term]bool{})
	}
	in := make([]bool, len(facts))
	for ch := true; ch; {
		ch = false
		for i := range facts {
			if in[i] {
				continue
			}
			hit := len(fs[i]) == 0
			for s := range fs[i] {
				if have[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for s := range fs[i] {
					have[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f.t)
		}
	}
	return out
}

type solverRun struct {
	name string
	args []string
}

var (
	tmpDir    string
	tmpN      int64
	solverSem = make(chan struct{}, 8)
	solveTime int64 // nanoseconds
	solveN    int64
	statBy    = map[string]int{}
	statMu    sync.Mutex
)

func solverCmd(s string, ms int, file string) *exec.Cmd {
	sec := (ms + 999) / 1000
	switch s {
	case "z3-new":
		return exec.Command("z3-new", fmt.Sprintf("-T:%d", sec), "-memory:4000", file)
	case "z3-new-nombqi":
		return exec.Command("z3-new", fmt.Sprintf("-T:%d", sec), "-memory:4000", "smt.mbqi=false", "smt.auto_config=false", file)
	case "z3-new-seed":
		return exec.Command("z3-new", fmt.Sprintf("-T:%d", sec), "-memory:4000", "smt.random_seed=7", "smt.arith.solver=2", file)
	case "z3":
		return exec.Command("z3", fmt.Sprintf("-T:%d", sec), "-memory:4000", file)
	case "cvc5":
		return exec.Command("cvc5", fmt.Sprintf("--tlimit=%d", ms), "--arrays-exp", "--strings-exp", "--quiet", file)
	case "cvc5-enum":
		return exec.Command("cvc5", fmt.Sprintf("--tlimit=%d", ms), "--arrays-exp", "--strings-exp", "--enum-inst", "--quiet", file)
	}
	panic(s)
}

// runOne runs one solver; result unsat, sat, unknown.
func runOne(ctx context.Context, s string, ms int, file string) (string, string) {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown", "cancelled"
	}
	defer func() { <-solverSem }()
	c := solverCmd(s, ms, file)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	t0 := time.Now()
	if err := c.Start(); err != nil {
		return "unknown", err.Error()
	}
	done := make(chan struct{})
	go func() { c.Wait(); close(done) }()
	select {
	case <-done:
	case <-ctx.Done():
		c.Process.Kill()
		<-done
	case <-time.After(time.Duration(ms+3000) * time.Millisecond):
		c.Process.Kill()
		<-done
	}
	atomic.AddInt64(&solveTime, int64(time.Since(t0)))
	atomic.AddInt64(&solveN, 1)
	o := strings.TrimSpace(out.String())
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	switch first {
	case "unsat", "sat":
		return first, o
	}
	return "unknown", o
}

func writeQuery(q string) string {
	n := atomic.AddInt64(&tmpN, 1)
	f := filepath.Join(tmpDir, fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(f, []byte(q), 0o644)
	return f
}

// portfolio runs the configurations in parallel on the files, first unsat (or definite sat) wins.
func portfolio(jobs [][2]string, ms int, satOK map[string]bool) (res, by, out string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct{ res, by, out string }
	ch := make(chan r, len(jobs))
	for _, j := range jobs {
		go func(j [2]string) {
			a, b := runOne(ctx, j[0], ms, j[1])
			if a == "sat" && !satOK[j[1]] {
				a = "sat?"
			}
			ch <- r{a, j[0], b}
		}(j)
	}
	best := r{"unknown", "", ""}
	for range jobs {
		x := <-ch
		if x.res == "unsat" || x.res == "sat" {
			return x.res, x.by, x.out
		}
		if x.res == "sat?" || best.by == "" {
			best = x
		}
	}
	return best.res, best.by, best.out
}

func anyQuant(cs []*Term) bool {
	memo := map[*Term]bool{}
	for _, c := range cs {
		if hasQuant(c, memo) {
			return true
		}
	}
	return false
}

// decide checks unsatisfiability of cs. quick: short effort.
// axiom: a closed fact used by the queries that mention one of its trigger functions.
type axiom struct {
	trig []string
	t    *Term
}

var axioms []axiom

func withAxioms(cs []*Term) []*Term {
	if len(axioms) == 0 {
		return cs
	}
	used := make([]bool, len(axioms))
	names := map[string]bool{}
	memo := map[*Term]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if memo[x] {
			return
		}
		memo[x] = true
		if x.op == OUF {
			n := x.name
			if i := strings.LastIndexByte(n, '>'); i >= 0 {
				n = n[:i]
			}
			names[n] = true
		}
		for _, a := range x.args {
			w(a)
		}
	}
	for _, c := range cs {
		w(c)
	}
	out := append([]*Term(nil), cs...)
	for ch := true; ch; {
		ch = false
		for i, a := range axioms {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range a.trig {
				for n := range names {
					if strings.HasPrefix(n, clean("uf:"+t)+".") || strings.HasPrefix(n, clean("uf:"+t+"#")) || n == clean("uf:"+t) {
						hit = true
					}
				}
			}
			if hit {
				used[i], ch = true, true
				out = append(out, a.t)
				w(a.t)
			}
		}
	}
	return out
}

// prenex splits the assumptions and lifts quantifiers inside them, so that the solvers find
// instances of nested ones.
func prenex(cs []*Term) ([]*Term, bool) {
	var out []*Term
	changed := false
	memo := map[*Term]bool{}
	for _, c := range cs {
		ps := pieces(c, memo)
		if len(ps) > 40 || len(ps) == 1 && ps[0] == c {
			out = append(out, c)
			continue
		}
		changed = true
		out = append(out, ps...)
	}
	return out, changed
}

// pieces: terms whose conjunction is t.
func pieces(t *Term, memo map[*Term]bool) []*Term {
	if !quantIn(t, memo) {
		return []*Term{t}
	}
	switch t.op {
	case OAnd:
		var out []*Term
		for _, a := range t.args {
			out = append(out, pieces(a, memo)...)
		}
		return out
	case OForall:
		if len(t.pats) > 0 {
			break
		}
		ps := pieces(t.args[0], memo)
		if len(ps) > 40 {
			break
		}
		var out []*Term
		for _, p := range ps {
			vs, b := t.bvars, p
			for b.op == OForall && len(b.pats) == 0 {
				vs, b = append(append([]*Term{}, vs...), b.bvars...), b.args[0]
			}
			out = append(out, Forall(vs, b))
		}
		return out
	case OOr, ONot:
		args := t.args
		if t.op == ONot {
			n := t.args[0]
			if n.op == ONot {
				return pieces(n.args[0], memo)
			}
			if n.op != OAnd {
				break
			}
			args = nil
			for _, a := range n.args {
				args = append(args, Not(a))
			}
		}
		q := -1
		for i, a := range args {
			if liftable(a, memo) {
				if q >= 0 {
					return []*Term{t}
				}
				q = i
			}
		}
		if q < 0 {
			break
		}
		var rest []*Term
		for i, a := range args {
			if i != q {
				rest = append(rest, a)
			}
		}
		ps := pieces(args[q], memo)
		if len(ps) > 40 {
			break
		}
		var out []*Term
		for _, p := range ps {
			if p.op == OForall && len(p.pats) == 0 {
				out = append(out, Forall(p.bvars, Or(append(append([]*Term{}, rest...), p.args[0])...)))
			} else {
				out = append(out, Or(append(append([]*Term{}, rest...), p)...))
			}
		}
		return out
	}
	return []*Term{t}
}

// liftable: a conjunction or universal quantifier is inside.
func liftable(t *Term, memo map[*Term]bool) bool {
	if !quantIn(t, memo) {
		return false
	}
	switch t.op {
	case OAnd, OForall:
		return true
	case OOr:
		for _, a := range t.args {
			if liftable(a, memo) {
				return true
			}
		}
	case ONot:
		n := t.args[0]
		if n.op == OAnd {
			for _, a := range n.args {
				if liftable(Not(a), memo) {
					return true
				}
			}
		}
	}
	return false
}

// quantIn: a quantifier is inside t.
func quantIn(t *Term, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t.op == OForall || t.op == OExists
	for _, a := range t.args {
		r = r || quantIn(a, memo)
	}
	memo[t] = r
	return r
}

func decide(cs []*Term, ms int) (res, by, out string) {
	termMu.Lock()
	cs = withAxioms(cs)
	u, hasStr := emitQuery(cs, false)
	quant := anyQuant(cs)
	n := ""
	if hasStr {
		n, _ = emitQuery(cs, true)
	}
	pu := ""
	if quant {
		if ps, ok := prenex(cs); ok {
			pu, _ = emitQuery(ps, false)
		}
	}
	termMu.Unlock()
	fu := writeQuery(u)
	defer os.Remove(fu)
	q1 := 2000
	if ms < q1 {
		q1 = ms
	}
	first := "z3-new"
	if quant {
		first = "z3-new-nombqi"
	}
	res, by, out = portfolio([][2]string{{first, fu}}, q1, map[string]bool{fu: !hasStr})
	if res == "unsat" || res == "sat" {
		return
	}
	sat := map[string]bool{fu: !hasStr}
	var jobs [][2]string
	jobs = append(jobs, [2]string{"cvc5", fu}, [2]string{"z3", fu})
	if quant {
		jobs = append(jobs, [2]string{"z3-new-nombqi", fu}, [2]string{"cvc5-enum", fu}, [2]string{"z3-new", fu})
	}
	if hasStr {
		fn := writeQuery(n)
		defer os.Remove(fn)
		sat[fn] = true
		jobs = append([][2]string{{"cvc5", fn}, {"z3-new", fn}, {"z3", fn}}, jobs...)
	} else if !quant {
		jobs = append(jobs, [2]string{"z3-new", fu})
	}
	if pu != "" {
		fp := writeQuery(pu)
		defer os.Remove(fp)
		sat[fp] = !hasStr
		jobs = append([][2]string{{"z3-new-nombqi", fp}, {"cvc5", fp}}, jobs...)
	}
	return portfolio(jobs, ms, sat)
}

// coverDecide: can the path be shown unreachable?
func coverDecide(cs []*Term) (res, by, out string) {
	termMu.Lock()
	cs = withAxioms(cs)
	u, _ := emitQuery(cs, false)
	termMu.Unlock()
	fu := writeQuery(u)
	defer os.Remove(fu)
	return portfolio([][2]string{{"z3-new-nombqi", fu}}, 3000, map[string]bool{fu: true})
}

var termMu sync.Mutex

// prove: quick inline proof attempt during symbolic execution.
func (e *Eng) prove(st *State, goal *Term) bool {
	goal = simpUnder(st.guard, goal)
	if goal == True {
		return true
	}
	if goal == False {
		return false
	}
	seed := append(append([]*Term{}, st.guard...), Not(goal))
	cs := append(cone(seed, e.facts), seed...)
	e.inlineProofs++
	t0 := time.Now()
	res, by, _ := decide(cs, 6000)
	if d := time.Since(t0); verbose && d > time.Second {
		fmt.Printf("  inline proof took %v (%s by %s)\n", d, res, by)
	}
	if res == "unsat" {
		statMu.Lock()
		statBy[by]++
		statMu.Unlock()
		return true
	}
	if verbose {
		fmt.Printf("  inline proof failed: %s (%s) goal %s\n", res, by, goal)
	}
	if dumpDir != "" {
		q, _ := emitQuery(cs, false)
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("inline%d.smt2", e.inlineProofs)), []byte(q), 0o644)
		if ps, ok := prenex(cs); ok {
			q, _ := emitQuery(ps, false)
			os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("inline%dp.smt2", e.inlineProofs)), []byte(q), 0o644)
		}
	}
	return false
}

var dumpDir string

// discharge decides all obligations in parallel.
func discharge(e *Eng, obls []*Oblig, ms int) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var failed sync.Map // what already fails need not be tried on other paths
	for _, o := range obls {
		if o.Result != "" {
			continue
		}
		if o.Goal == True {
			o.Result, o.Solver = "proved", "simplifier"
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Oblig) {
			defer func() { <-sem; wg.Done() }()
			t0 := time.Now()
			what := o.Unit + "\x00" + o.Kind + "\x00" + o.Name + "\x00" + o.Pos
			if _, has := failed.Load(what); has && o.Kind != "cover" && dumpDir == "" {
				o.Result, o.Solver, o.Output = "failed", "not tried", "fails on another path"
				return
			}
			defer func() {
				if o.Result == "failed" {
					failed.Store(what, true)
				}
			}()
			termMu.Lock()
			neg := Not(o.Goal)
			seed := []*Term{o.Guard, neg}
			if o.Kind == "cover" {
				seed = []*Term{o.Guard}
			}
			cs := append(cone(seed, e.facts[:o.NFacts]), seed...)
			termMu.Unlock()
			var res, by, out string
			if o.Kind == "cover" {
				res, by, out = coverDecide(cs)
			} else {
				res, by, out = decide(cs, ms)
			}
			o.Time = time.Since(t0).Seconds()
			o.Solver = by
			o.Output = out
			switch {
			case o.Kind == "cover":
				o.Result = "proved"
				if res == "unsat" {
					o.Result = "failed"
					o.Output = "path unreachable: the specification is vacuous"
				}
			case res == "unsat":
				o.Result = "proved"
				statMu.Lock()
				statBy[by]++
				statMu.Unlock()
			default:
				o.Result = "failed"
				o.Model = res
				if x := explain(cs, o.Goal); x != "" {
					o.Output += "\n" + x
				}
			}
			if dumpDir != "" && o.Result != "proved" {
				termMu.Lock()
				q, hs := emitQuery(cs, false)
				if hs {
					q2, _ := emitQuery(cs, true)
					os.WriteFile(filepath.Join(dumpDir, clean(strings.ReplaceAll(strings.ReplaceAll(o.Unit+"_"+o.Name, "/", "_"), " ", "_"))+".str.smt2"), []byte(q2), 0o644)
				}
				termMu.Unlock()
				os.WriteFile(filepath.Join(dumpDir, clean(strings.ReplaceAll(strings.ReplaceAll(o.Unit+"_"+o.Name, "/", "_"), " ", "_"))+".smt2"), []byte(q), 0o644)
			}
		}(o)
	}
	wg.Wait()
}
