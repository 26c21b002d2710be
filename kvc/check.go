package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// failure is one undischarged obligation (or a unit the verifier could not process).
type failure struct {
	Unit, Name, Pos, Kind, Reason, Output string
}

func (f failure) key() string { return f.Unit + " | " + f.Name }

type unitRun struct {
	u   *Unit
	e   *Eng
	err error
	sec float64
}

func (w *World) verifyUnit(u *Unit, ms int, id string) *unitRun {
	t0 := time.Now()
	es, err := w.runUnit(u)
	if err == nil {
		for _, e := range es {
			if u.flag("verify-only") {
				// nobody relies on the other clauses
				var obls []*Oblig
				for _, o := range e.obls {
					if relevant(o, u, id, has(u.Props, id)) {
						obls = append(obls, o)
					}
				}
				e.obls = obls
			}
			discharge(e, e.obls, ms)
		}
	}
	return &unitRun{u, joinPaths(es), err, time.Since(t0).Seconds()}
}

// relevant: does the failure of o count against property id?
func relevant(o *Oblig, u *Unit, id string, direct bool) bool {
	if !direct || len(o.Props) == 0 {
		return true
	}
	return has(o.Props, id)
}

func (r *unitRun) failures(id string, direct bool) []failure {
	if r.err != nil {
		return []failure{{Unit: r.u.Name, Name: "unit outside the verifier's reach", Kind: "unsupported", Reason: r.err.Error()}}
	}
	var out []failure
	for _, o := range r.e.obls {
		if o.Result == "proved" || !relevant(o, r.u, id, direct) {
			continue
		}
		out = append(out, failure{Unit: r.u.Name, Name: o.Name, Pos: o.Pos, Kind: o.Kind, Reason: fmt.Sprintf("solver answer: %s (%s, %.1fs)", o.Model, o.Solver, o.Time), Output: o.Output})
	}
	return out
}

type knownEntry struct{ prop, key, text string }

func loadKnown() []knownEntry {
	var out []knownEntry
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=Cxx obligation=<unit> | <name> :: text
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		i := strings.Index(rest, " obligation=")
		j := strings.Index(rest, " :: ")
		if i < 0 || j < 0 {
			continue
		}
		out = append(out, knownEntry{rest[:i], rest[i+len(" obligation=") : j], rest[j+4:]})
	}
	return out
}

func check(id string, ms int) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier == "thorough" {
		ms *= 4
	}
	var fails []failure
	var runs []*unitRun
	w, err := load()
	if err != nil {
		fails = append(fails, failure{Unit: "load", Name: "the repository and its contracts load", Kind: "load", Reason: err.Error()})
	}
	var disabled []string
	if w != nil {
		cache := map[*Unit]*unitRun{}
		for {
			fails, runs = nil, nil
			done := map[*Unit]bool{}
			direct := map[*Unit]bool{}
			var queue []*Unit
			for _, u := range w.units {
				if has(u.Props, id) && !(w.disabled[u.Dir.Args0()] && u.flag("optional")) {
					queue = append(queue, u)
					direct[u] = true
				}
			}
			again := false
			for len(queue) > 0 && !again {
				u := queue[0]
				queue = queue[1:]
				if done[u] {
					continue
				}
				done[u] = true
				r := cache[u]
				if r == nil {
					r = w.verifyUnit(u, ms, id)
					cache[u] = r
				}
				runs = append(runs, r)
				isC := u.Dir.Kind == "contract"
				fs := r.failures(id, direct[u])
				if all := r.failures(id, false); len(all) > 0 && isC && !w.disabled[u.Dir.Args[0]] && (len(fs) == 0 || !direct[u] || u.flag("optional")) {
					// A contract that does not hold in full, but whose failure does not by itself
					// concern this property: callers are verified against the body instead.
					w.disabled[u.Dir.Args[0]] = true
					disabled = append(disabled, u.Name+": "+all[0].Name)
					for v, c := range cache {
						if c.e == nil || c.e.contracts[u.Dir.Args[0]] {
							delete(cache, v)
						}
					}
					again = true
					break
				}
				fails = append(fails, fs...)
				var used []string
				for k := range r.e.contracts {
					used = append(used, k)
				}
				sort.Strings(used)
				for _, k := range used {
					for _, v := range w.units {
						if v.Dir.Kind == "contract" && v.Dir.Args[0] == k && !done[v] {
							queue = append(queue, v)
						}
					}
				}
			}
			if !again {
				break
			}
		}
		for _, d := range w.P.droppedDirs {
			if has(d.tags(), id) && !d.flag("optional") && (d.Kind == "contract" || d.Kind == "verify" || d.Kind == "lemma") {
				fails = append(fails, failure{Unit: d.Args[0], Name: "contract no longer applies to the code", Kind: "dropped", Reason: d.Msg})
			}
		}
		n := 0
		for _, r := range runs {
			if r.e != nil {
				n += len(r.e.obls)
			}
		}
		if n == 0 && len(fails) == 0 {
			fails = append(fails, failure{Unit: "check", Name: "at least one obligation is generated", Kind: "vacuous"})
		}
	}
	// known findings
	known := loadKnown()
	var open []failure
	seenK := map[string]bool{}
	for _, f := range fails {
		hit := false
		for _, k := range known {
			if k.prop == id && k.key == f.key() {
				hit = true
				if !seenK[k.key] {
					seenK[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	violations := 0
	rc := 0
	var rep *replayResult
	if len(open) > 0 {
		rc = 1
		violations = 1
		rep = replay(id, tier)
		path := filepath.Join(verifDir, "out", "replay", id+".txt")
		writeReplayFile(path, id, open, rep)
		suffix := " no-failing-input-found"
		if rep.failed {
			suffix = ""
		}
		for _, f := range open {
			fmt.Printf("undischarged: %s: %s at %s (%s %s)\n", f.Unit, f.Name, f.Pos, f.Kind, f.Reason)
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, path, suffix)
	} else if tier == "thorough" {
		// thorough also runs the replay oracle as an independent sanity check of the contracts
		rep = replay(id, tier)
		if rep.failed {
			rc = 1
			violations = 1
			path := filepath.Join(verifDir, "out", "replay", id+".txt")
			writeReplayFile(path, id, nil, rep)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
	}
	writeEvidence(id, tier, seed, w, runs, disabled, open, violations, rep, time.Since(t0).Seconds())
	if rc == 0 {
		n := 0
		for _, r := range runs {
			n += len(r.e.obls)
		}
		fmt.Printf("%s: %d units, %d obligations discharged, %.1fs\n", id, len(runs), n, time.Since(t0).Seconds())
	}
	return rc
}

func (d *Directive) Args0() string {
	if d == nil || len(d.Args) == 0 {
		return ""
	}
	return d.Args[0]
}

type replayResult struct {
	ran    bool
	failed bool
	out    string
	cmd    string
}

// replay runs the property's oracle test against the real code (go test with an overlay).
// Lines "<id> <file>" of /verif/replay/index name the files; the first line of a file,
// "// overlay: <package directory>", names the package it is laid over as a test file.
func replay(id, tier string) *replayResult {
	r := &replayResult{}
	var files []string
	ix, _ := os.ReadFile(filepath.Join(verifDir, "replay", "index"))
	for _, l := range strings.Split(string(ix), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == id {
			files = append(files, filepath.Join(verifDir, "replay", f[1]))
		}
	}
	if len(files) == 0 {
		return r
	}
	sort.Strings(files)
	ov := map[string]string{}
	pkgs := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		first := strings.SplitN(string(b), "\n", 2)[0]
		dir := strings.TrimSpace(strings.TrimPrefix(first, "// overlay:"))
		if !strings.HasPrefix(first, "// overlay:") {
			continue
		}
		ov[filepath.Join(repoDir, dir, "zz_verif_"+filepath.Base(f))] = f
		pkgs["./"+dir] = true
	}
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	ofile := filepath.Join(tmpDir, "overlay.json")
	if err := os.WriteFile(ofile, js, 0o644); err != nil {
		return r
	}
	args := []string{"test", "-vet=off", "-count=1", "-timeout", "100s", "-overlay", ofile, "-run", "^TestVerif" + id, "-v"}
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	args = append(args, ps...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(goEnv(), "VERIF_TIER="+tier, "GOFLAGS=")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		r.out = err.Error()
		return r
	}
	tm := time.AfterFunc(170*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	tm.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	r.ran = true
	r.out = buf.String()
	r.cmd = "go " + strings.Join(args, " ")
	// only a failing test that names its input counts as a failing input
	if err != nil && (strings.Contains(r.out, "--- FAIL: TestVerif") || strings.Contains(r.out, "panic: ") || strings.Contains(r.out, "fatal error: ")) && !strings.Contains(r.out, "[build failed]") && !strings.Contains(r.out, "test timed out") {
		r.failed = true
	}
	return r
}

func writeReplayFile(path, id string, fs []failure, rep *replayResult) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", id)
	for _, f := range fs {
		fmt.Fprintf(&b, "failed obligation: %s\n  unit: %s\n  at: %s\n  kind: %s\n  %s\n", f.Name, f.Unit, f.Pos, f.Kind, f.Reason)
		if f.Output != "" {
			fmt.Fprintf(&b, "  verifier output:\n%s\n", indent(f.Output, "    "))
		}
		b.WriteString("\n")
	}
	if rep != nil && rep.ran {
		fmt.Fprintf(&b, "replay against the real code: %s\nfailing input found: %v\n%s\n", rep.cmd, rep.failed, tail(rep.out, 20000))
	} else {
		b.WriteString("no replay of a concrete input was possible\n")
	}
	os.WriteFile(path, []byte(b.String()), 0o644)
}

func tail(s string, n int) string {
	if len(s) > n {
		return "...\n" + s[len(s)-n:]
	}
	return s
}

func indent(s, p string) string {
	if len(s) > 8000 {
		s = s[:8000] + "\n..."
	}
	return p + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n"+p)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func writeEvidence(id, tier string, seed int, w *World, runs []*unitRun, disabled []string, open []failure, violations int, rep *replayResult, wall float64) {
	obl, dis, loops, covers := 0, 0, 0, 0
	by := map[string]int{}
	solver := 0.0
	trusted, inlined, contracts := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var units []map[string]any
	for _, r := range runs {
		if r.e == nil {
			continue
		}
		n, d := 0, 0
		kinds := map[string]int{}
		for _, o := range r.e.obls {
			if o.Kind == "cover" {
				covers++
				continue
			}
			n++
			kinds[o.Kind]++
			if o.Result == "proved" {
				d++
				by[o.Solver]++
			}
			solver += o.Time
		}
		for range r.e.loopObl {
			loops++
		}
		obl += n + len(r.e.loopObl)
		dis += d + len(r.e.loopObl)
		for t := range r.e.trusted {
			trusted[t] = true
		}
		for t := range r.e.inlined {
			inlined[t] = true
		}
		for t := range r.e.contracts {
			contracts[t] = true
		}
		m := map[string]any{"unit": r.u.Name, "obligations": n, "discharged": d, "kinds": kinds, "loop_invariants": len(r.e.loopObl), "seconds": round2(r.sec)}
		if r.err != nil {
			m["error"] = r.err.Error()
		}
		units = append(units, m)
	}
	cov := map[string]any{
		"obligations":               obl,
		"discharged":                dis,
		"checker_cmd":               "./check.sh " + id,
		"trusted_base":              append(sortedKeys(trusted), baseTrust...),
		"functions_under_contract":  units,
		"callee_contracts_used":     sortedKeys(contracts),
		"inlined_bodies":            sortedKeys(inlined),
		"loop_invariants_proved":    loops,
		"reachability_covers":       covers,
		"discharged_by":             by,
		"solver_seconds":            round2(solver),
		"solver_runs":               solveN,
		"helper_contracts_disabled": disabled,
	}
	if rep != nil && rep.ran {
		cov["replay_oracle_ran"] = true
		cov["replay_oracle_failed"] = rep.failed
	}
	if len(open) > 0 {
		var names []string
		for _, f := range open {
			names = append(names, f.key()+" ("+f.Reason+")")
		}
		cov["undischarged"] = names
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": append(sortedKeys(trusted), baseAssumptions...), "wall_s": round2(wall), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

var baseTrust = []string{
	"the verifier itself (kvc: Go SSA symbolic executor and verification condition generator)",
	"golang.org/x/tools/go/ssa and go/types (front end)",
	"SMT solvers z3 and cvc5",
}

var baseAssumptions = []string{
	"strings are byte sequences; machine integers are modelled exactly with wrap-around; floating point is uninterpreted",
	"no two parameters alias through interior pointers; slices given to a unit start at their backing array's beginning; append never overwrites an array shared with another live slice",
	"slice, string and map sizes are below 2^48",
	"package-level variables that no function assigns keep the value given by package initialisation",
	"external functions without a model return arbitrary results and do not change modelled state",
	"a unit is verified as sequential code; interference is covered only where a monitor or guard directive says so",
	"monotonic clock readings and time zones are ignored; the wall clock does not go backwards within a call",
}
