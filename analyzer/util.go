package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

// stripAs removes interface wrapping and type assertions.
func stripAs(t *eng.Term) *eng.Term {
	for t != nil && (t.Op == "iface" || t.Op == "as") {
		t = t.Args[0]
	}
	return t
}

// errNil evaluates "err == nil" on a path: 1 yes, -1 no, 0 not decided.
func errNil(p *eng.Path, err *eng.Term) int {
	if err == nil {
		return 0
	}
	if err.Op == "glob" && err.Typ != nil && err.Typ.String() == "error" {
		return -1 // a sentinel error variable
	}
	return p.F.Eval(eng.Eq(err, eng.Nil, nil))
}

// isField: addr is the address of field f of some object.
func isField(addr *eng.Term, f *types.Var) bool {
	return addr != nil && addr.Op == "fa" && f != nil && addr.Obj == types.Object(f)
}

// opaque marks every named function of the packages as not inlined.
func (c *Ctx) opaque(e *eng.Engine, pkgs ...string) {
	for _, f := range c.Funcs {
		if f.Parent() != nil {
			continue
		}
		for _, p := range pkgs {
			if c.pkgOf(f) == p {
				e.Opaque[eng.FuncName(f)] = true
			}
		}
	}
}

// not, and, or are Kleene's three-valued connectives over {-1, 0, 1}.
func not3(a int) int { return -a }
func and3(a ...int) int {
	r := 1
	for _, x := range a {
		if x < r {
			r = x
		}
	}
	return r
}
func or3(a ...int) int {
	r := -1
	for _, x := range a {
		if x > r {
			r = x
		}
	}
	return r
}

// paramIndex finds a parameter by position and checks its type name.
func fieldFromParam(c *Ctx, fn *ssa.Function, st *types.Named, idx int) *types.Var {
	for _, p := range c.run(c.engine(), fn, nil, nil, nil) {
		if p.End != "return" || len(p.Ret) == 0 || idx >= len(p.Params) {
			continue
		}
		obj := p.Ret[0].Unwrap()
		s := st.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if p.LoadField(obj, s.Field(i), i) == p.Params[idx] {
				return s.Field(i)
			}
		}
	}
	return nil
}

// heldField: a mutex that is field f of some object is held at ev.
func heldField(ev *eng.Event, f *types.Var) bool {
	for _, a := range ev.Held {
		if isField(a, f) {
			return true
		}
	}
	return false
}

func hasSuffix(name string, ss ...string) bool {
	for _, s := range ss {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}
