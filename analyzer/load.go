package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"vsacheck/eng"
)

// Prog is the loaded, type-checked program under analysis.
type Prog struct {
	Dir    string
	Module string
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	ByPath map[string]*ssa.Package // path relative to the module ("." for the root)
	Funcs  []*ssa.Function         // every source function and closure of the module
	named  map[string]*ssa.Function
}

func load(dir string) (*Prog, error) {
	env := append(os.Environ(),
		"PATH=/opt/veriftools/go1.24.13/bin:/usr/local/bin:/usr/bin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	p := &Prog{Dir: dir, Pkgs: ps, ByPath: map[string]*ssa.Package{}, named: map[string]*ssa.Function{}}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, pk := range ps {
		if pk.Module != nil {
			p.Module = pk.Module.Path
		}
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
	}
	for i, pk := range ps {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, p.Module), "/")
		if rel == "" {
			rel = "."
		}
		p.ByPath[rel] = spkgs[i]
	}
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.ByPath {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				if n, ok := x.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.pos(p.Funcs[i].Pos()) < p.pos(p.Funcs[j].Pos()) })
	for _, f := range p.Funcs {
		p.named[eng.FuncName(f)] = f
	}
	return p, nil
}

func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	ps := p.SSA.Fset.Position(x)
	if r, err := filepath.Rel(p.Dir, ps.Filename); err == nil {
		ps.Filename = r
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (p *Prog) pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	r := strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), p.Module), "/")
	if r == "" {
		return "."
	}
	return r
}

// fn finds a function ("New") or method ("VSA.Update") of a package.
func (p *Prog) fn(pkg, name string) *ssa.Function {
	sp := p.ByPath[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		t, ok := sp.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			return nil
		}
		for j := 0; j < n.NumMethods(); j++ {
			if n.Method(j).Name() == name[i+1:] {
				return p.SSA.FuncValue(n.Method(j))
			}
		}
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

func (p *Prog) typ(pkg, name string) *types.Named {
	sp := p.ByPath[pkg]
	if sp == nil {
		return nil
	}
	t, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func (p *Prog) fields(pkg, name string) []*types.Var {
	n := p.typ(pkg, name)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i))
	}
	return out
}
