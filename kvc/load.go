package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/ssa"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
}

type Directive struct {
	Kind string   // verify, contract, model, loopinv, opaque...
	Args []string // rest
	Decl *ast.FuncDecl
	Pkg  string
	Fn   *ssa.Function
	File string
	Msg  string
}

type Prog struct {
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package // built from source
	tpkgs       map[string]*types.Package
	dirs        []*Directive
	droppedDirs []*Directive
	dropped     []string // contract declarations dropped because they no longer type-check
	repo        string
	modPath     string
	specFile    map[string]bool
	names       map[string]*ssa.Function // full name -> function
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOENV=off", "GOTOOLCHAIN=local", "GOWORK=off")
	return env
}

func loadProg(repo, contracts, kvdir string, extra []string) (*Prog, error) {
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Imports,ImportMap,Standard,Module", "./pkg/..."}
	args = append(args, extra...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	all := map[string]*listPkg{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pp := p
		all[p.ImportPath] = &pp
		order = append(order, p.ImportPath)
	}
	P := &Prog{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, repo: repo, specFile: map[string]bool{}, names: map[string]*ssa.Function{}}
	src := map[string]bool{"kv": true}
	extraSrc := map[string]bool{}
	for _, e := range extra {
		extraSrc[e] = true
	}
	for path, p := range all {
		if p.Module != nil && !p.Standard && strings.HasPrefix(p.Dir, repo+"/") {
			src[path] = true
			P.modPath = p.Module.Path
		}
		if extraSrc[path] {
			src[path] = true
		}
	}
	all["kv"] = &listPkg{ImportPath: "kv", Dir: kvdir, GoFiles: []string{"kv.go"}}
	kvm := &listPkg{ImportPath: "kvm", Dir: filepath.Join(contracts, "kvm")}
	if fs, _ := filepath.Glob(filepath.Join(contracts, "kvm", "*.go")); len(fs) > 0 {
		for _, f := range fs {
			kvm.GoFiles = append(kvm.GoFiles, filepath.Base(f))
		}
		all["kvm"] = kvm
		src["kvm"] = true
		order = append([]string{"kvm"}, order...)
	}

	imports := map[string]*types.Package{}
	var imp func(path string) (*types.Package, error)
	type checked struct {
		files []*ast.File
		info  *types.Info
	}
	res := map[string]*checked{}
	var srcOrder []string
	imp = func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if src[path] {
			if p := P.tpkgs[path]; p != nil {
				return p, nil
			}
			lp := all[path]
			files, specs, err := parsePkg(P, lp, contracts)
			if err != nil {
				return nil, err
			}
			var pkg *types.Package
			var info *types.Info
			for attempt := 0; ; attempt++ {
				info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
				var errs []types.Error
				gv := ""
				if lp.Module != nil && lp.Module.GoVersion != "" {
					gv = "go" + lp.Module.GoVersion
				}
				conf := types.Config{GoVersion: gv, Importer: importerFunc(func(ip string) (*types.Package, error) {
					if m, ok := lp.ImportMap[ip]; ok {
						ip = m
					}
					return imp(ip)
				}), Error: func(err error) {
					if te, ok := err.(types.Error); ok {
						errs = append(errs, te)
					}
				}}
				pkg, err = conf.Check(path, P.fset, files, info)
				if len(errs) == 0 && err == nil {
					break
				}
				// errors in contract files: drop the declarations concerned, retry
				if attempt > 50 {
					return nil, fmt.Errorf("type-check %s: %v", path, err)
				}
				progress := false
				for _, te := range errs {
					fn := P.fset.Position(te.Pos).Filename
					sf := specs[fn]
					if sf == nil {
						return nil, fmt.Errorf("type-check %s: %v: %v", path, P.fset.Position(te.Pos), te.Msg)
					}
					if dropDecl(P, sf, te.Pos, te.Msg) {
						progress = true
					}
				}
				if !progress {
					return nil, fmt.Errorf("type-check %s (contracts): %v", path, errs)
				}
			}
			P.tpkgs[path] = pkg
			imports[path] = pkg
			res[path] = &checked{files, info}
			srcOrder = append(srcOrder, path)
			return pkg, nil
		}
		if p := imports[path]; p != nil && p.Complete() {
			return p, nil
		}
		lp := all[path]
		if lp == nil || lp.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		f, err := os.Open(lp.Export)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		r, err := gcexportdata.NewReader(bufio.NewReader(f))
		if err != nil {
			return nil, err
		}
		return gcexportdata.Read(r, P.fset, imports, path)
	}
	// load in dependency order so that source packages are known before export data mention them
	for _, path := range append([]string{"kv"}, order...) {
		if src[path] {
			if _, err := imp(path); err != nil {
				return nil, err
			}
		}
	}
	P.prog = ssa.NewProgram(P.fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	created := map[*types.Package]bool{}
	var createAll func(pkgs []*types.Package)
	createAll = func(pkgs []*types.Package) {
		for _, p := range pkgs {
			if created[p] {
				continue
			}
			created[p] = true
			createAll(p.Imports())
			if r := res[p.Path()]; r != nil && P.tpkgs[p.Path()] == p {
				sp := P.prog.CreatePackage(p, r.files, r.info, true)
				P.pkgs[p.Path()] = sp
			} else {
				P.prog.CreatePackage(p, nil, nil, true)
			}
		}
	}
	for _, path := range srcOrder {
		createAll([]*types.Package{P.tpkgs[path]})
	}
	for _, path := range srcOrder {
		P.pkgs[path].Build()
	}
	// directives
	for _, path := range srcOrder {
		r := res[path]
		for _, f := range r.files {
			fn := P.fset.Position(f.Package).Filename
			if !strings.HasPrefix(fn, contracts) {
				continue
			}
			P.specFile[fn] = true
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//kv:") {
						continue
					}
					fs := strings.Fields(strings.TrimPrefix(c.Text, "//kv:"))
					obj, _ := r.info.Defs[fd.Name].(*types.Func)
					dd := &Directive{Kind: fs[0], Args: fs[1:], Decl: fd, Pkg: path, File: fn}
					if obj != nil {
						dd.Fn = P.prog.FuncValue(obj)
					}
					P.dirs = append(P.dirs, dd)
				}
			}
		}
	}
	return P, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func parsePkg(P *Prog, lp *listPkg, contracts string) ([]*ast.File, map[string]*ast.File, error) {
	var files []*ast.File
	specs := map[string]*ast.File{}
	for _, g := range lp.GoFiles {
		f, err := parser.ParseFile(P.fset, filepath.Join(lp.Dir, g), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, nil, err
		}
		files = append(files, f)
	}
	if P.repo != "" && strings.HasPrefix(lp.Dir, P.repo+"/") {
		rel, _ := filepath.Rel(P.repo, lp.Dir)
		ms, _ := filepath.Glob(filepath.Join(contracts, rel, "*.go"))
		sort.Strings(ms)
		for _, m := range ms {
			f, err := parser.ParseFile(P.fset, m, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, nil, err
			}
			files = append(files, f)
			specs[m] = f
		}
	}
	return files, specs, nil
}

// dropDecl removes the contract declaration containing pos.
func dropDecl(P *Prog, f *ast.File, pos token.Pos, msg string) bool {
	for i, d := range f.Decls {
		if d.Pos() <= pos && pos < d.End() {
			name := "declaration"
			switch x := d.(type) {
			case *ast.FuncDecl:
				name = x.Name.Name
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					// unused import after a drop: remove that spec only
					var keep []ast.Spec
					ch := false
					for _, s := range x.Specs {
						if s.Pos() <= pos && pos < s.End() {
							ch = true
							continue
						}
						keep = append(keep, s)
					}
					x.Specs = keep
					var ki []*ast.ImportSpec
					for _, s := range f.Imports {
						if !(s.Pos() <= pos && pos < s.End()) {
							ki = append(ki, s)
						}
					}
					f.Imports = ki
					return ch
				}
			}
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//kv:") {
						fs := strings.Fields(strings.TrimPrefix(c.Text, "//kv:"))
						P.droppedDirs = append(P.droppedDirs, &Directive{Kind: fs[0], Args: fs[1:], Msg: msg})
					}
				}
			}
			P.dropped = append(P.dropped, fmt.Sprintf("%s: %s (%s)", filepath.Base(P.fset.Position(pos).Filename), name, msg))
			f.Decls = append(f.Decls[:i:i], f.Decls[i+1:]...)
			return true
		}
	}
	return false
}
