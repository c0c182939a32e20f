package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

// graph is the static call graph of the module: direct calls, closures and
// function values mentioned by a function, and module methods an interface call
// can reach.
type graph struct {
	p    *Prog
	out  map[*ssa.Function]map[*ssa.Function]bool
	in   map[*ssa.Function]map[*ssa.Function]bool
	chaM map[*types.Func][]*ssa.Function
	sync map[*ssa.Function]map[*ssa.Function]bool // the part of out that is not only a go statement
}

var graphOf = map[*Prog]*graph{}

func (p *Prog) graph() *graph {
	if g := graphOf[p]; g != nil {
		return g
	}
	g := &graph{p: p, out: map[*ssa.Function]map[*ssa.Function]bool{}, in: map[*ssa.Function]map[*ssa.Function]bool{}, chaM: map[*types.Func][]*ssa.Function{}, sync: map[*ssa.Function]map[*ssa.Function]bool{}}
	async := false
	graphOf[p] = g
	edge := func(a, b *ssa.Function) {
		if b == nil {
			return
		}
		if b.Origin() != nil {
			b = b.Origin()
		}
		// look through synthetic wrappers and bound methods
		if b.Synthetic != "" && b.Object() != nil {
			if o, ok := b.Object().(*types.Func); ok {
				if r := p.SSA.FuncValue(o); r != nil {
					b = r
				}
			}
		}
		if g.out[a] == nil {
			g.out[a] = map[*ssa.Function]bool{}
		}
		if g.in[b] == nil {
			g.in[b] = map[*ssa.Function]bool{}
		}
		g.out[a][b] = true
		if !async {
			if g.sync[a] == nil {
				g.sync[a] = map[*ssa.Function]bool{}
			}
			g.sync[a][b] = true
		}
		g.in[b][a] = true
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				_, async = in.(*ssa.Go)
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Referrers() != nil {
					async = true
					for _, r := range nonDebug(*mc.Referrers()) {
						gi, isGo := r.(*ssa.Go)
						async = async && isGo && gi.Call.Value == ssa.Value(mc)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cc := ci.Common(); cc.IsInvoke() {
						for _, m := range g.cha(cc.Method) {
							edge(f, m)
						}
					}
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op != nil && *op != nil {
						if fn, ok := (*op).(*ssa.Function); ok {
							edge(f, fn)
						}
					}
				}
			}
		}
	}
	return g
}

// onlyFrom: nothing but root, what is written in it, and helpers of it uses f.
func (g *graph) onlyFrom(f, root *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == root {
		return true
	}
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Parent() != nil {
		return g.onlyFrom(f.Parent(), root, seen)
	}
	if o := f.Object(); o == nil || o.Exported() || len(g.in[f]) == 0 {
		return false
	}
	for u := range g.in[f] {
		if !g.onlyFrom(u, root, seen) {
			return false
		}
	}
	return true
}

// cha lists the module methods an interface method call can reach.
func (g *graph) cha(m *types.Func) []*ssa.Function {
	if r, ok := g.chaM[m]; ok {
		return r
	}
	var out []*ssa.Function
	recv := m.Type().(*types.Signature).Recv()
	iface, _ := recv.Type().Underlying().(*types.Interface)
	if iface != nil {
		for _, sp := range g.p.ByPath {
			for _, mem := range sp.Members {
				t, ok := mem.(*ssa.Type)
				if !ok || types.IsInterface(t.Type()) {
					continue
				}
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if types.Implements(tt, iface) {
						if f := g.p.SSA.LookupMethod(tt, m.Pkg(), m.Name()); f != nil {
							if o, ok := f.Object().(*types.Func); ok && f.Synthetic != "" {
								if r := g.p.SSA.FuncValue(o); r != nil {
									f = r
								}
							}
							out = append(out, f)
							break
						}
					}
				}
			}
		}
	}
	g.chaM[m] = out
	return out
}

func (g *graph) reach(from ...*ssa.Function) map[*ssa.Function]bool { return reachIn(g.out, from) }

// reachSync leaves out what is only started as a goroutine.
func (g *graph) reachSync(from ...*ssa.Function) map[*ssa.Function]bool {
	return reachIn(g.sync, from)
}

func reachIn(out map[*ssa.Function]map[*ssa.Function]bool, from []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range from {
		if f != nil {
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		for o := range out[f] {
			work = append(work, o)
		}
	}
	return seen
}

// callers lists every function from which f is reachable, f included.
func (g *graph) callers(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		for o := range g.in[f] {
			work = append(work, o)
		}
	}
	return seen
}

// entries lists the outermost functions through which f can be reached: exported
// functions and methods of f's package, or functions nobody in the module calls.
// Reaching stops at the first such function.
func (g *graph) entries(f *ssa.Function) []*ssa.Function { return g.entriesIn(f, false) }

// threads is entries with functions that are started as goroutines as entries of their own.
func (g *graph) threads(f *ssa.Function) []*ssa.Function { return g.entriesIn(f, true) }

func (g *graph) entriesIn(f *ssa.Function, threads bool) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var rec func(x *ssa.Function)
	rec = func(x *ssa.Function) {
		if seen[x] {
			return
		}
		seen[x] = true
		exported := x.Parent() == nil && x.Object() != nil && x.Object().Exported()
		if exported || len(g.in[x]) == 0 {
			out = append(out, x)
			return
		}
		started := false
		for o := range g.in[x] {
			if threads && !g.sync[o][x] {
				started = true
				continue
			}
			rec(o)
		}
		if started {
			out = append(out, x)
		}
	}
	rec(f)
	sort.Slice(out, func(i, j int) bool { return eng.FuncName(out[i]) < eng.FuncName(out[j]) })
	return out
}
