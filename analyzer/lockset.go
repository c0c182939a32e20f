package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

// A lockset analysis over the module: for every function the locks it holds relative to
// its entry at every instruction (per path class, merged only when equal), what it does to
// locks by the time it returns, and the locks held on entry at all (or at some) call sites.
// Locks are named by access paths: a root (parameter, global, variable) and its fields.

type lockOp struct {
	key  string
	cls  string // field or variable: the lock's class, for ordering
	mode int    // 1 exclusive, 2 shared
	in   ssa.Instruction
}

type lockFrame struct {
	rel  map[string]int // relative to entry: 1, 2 held; -1 released; 0 absent
	defs []ssa.Instruction
}

func (s *lockFrame) id() string {
	var ks []string
	for k, v := range s.rel {
		if v != 0 {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	for _, d := range s.defs {
		ks = append(ks, fmt.Sprintf("%p", d))
	}
	return strings.Join(ks, ";")
}

func (s *lockFrame) clone() *lockFrame {
	n := &lockFrame{rel: map[string]int{}, defs: append([]ssa.Instruction(nil), s.defs...)}
	for k, v := range s.rel {
		n.rel[k] = v
	}
	return n
}

type lockProblem struct {
	in   token.Pos
	fn   *ssa.Function
	key  string
	what string
}

type lockset struct {
	c       *Ctx
	before  map[ssa.Instruction][]*lockFrame // states before each call, store, load
	net     map[*ssa.Function]map[string]int // effect at return
	ops     map[*ssa.Function][]lockOp       // locks it takes itself
	probs   []lockProblem
	must    map[*ssa.Function]map[string]int // held at every entry (nil: unknown yet)
	may     map[*ssa.Function]map[string]int
	cls     map[string]string // class of a lock named by a key
	touches map[*ssa.Function]bool
	over    []*ssa.Function
	sites   map[*ssa.Function][]lockSite
}

type lockSite struct {
	fn   *ssa.Function // caller
	in   ssa.Instruction
	args []ssa.Value
	up   []ssa.Value // arguments of the caller's own call, when locks are named as seen there
	root bool        // entered with nothing held: go statement, or from outside
}

var syncLocks = map[string]int{
	"(*sync.Mutex).Lock": 1, "(*sync.RWMutex).Lock": 1, "(*sync.RWMutex).RLock": 2,
	"(*sync.Mutex).Unlock": -1, "(*sync.RWMutex).Unlock": -1, "(*sync.RWMutex).RUnlock": -2,
	"(*sync.Mutex).TryLock": 11, "(*sync.RWMutex).TryLock": 11, "(*sync.RWMutex).TryRLock": 12,
	"(sync.Locker).Lock": 1, "(sync.Locker).Unlock": -1,
}

// lockCall: the lock operation of a call, if it is one.
func lockCall(cc *ssa.CallCommon) (kind int, recv ssa.Value) {
	if cc.IsInvoke() {
		if k := syncLocks["(sync.Locker)."+cc.Method.Name()]; k != 0 && isNamed(cc.Value.Type(), "sync", "Locker") {
			v := cc.Value
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			return k, v
		}
		return 0, nil
	}
	f := cc.StaticCallee()
	if f == nil {
		return 0, nil
	}
	k := syncLocks[eng.FuncName(f)]
	if k == 0 {
		// a wrapper of an embedded mutex's method
		if f.Synthetic != "" && f.Object() != nil {
			if o, ok := f.Object().(*types.Func); ok {
				k = syncLocks[o.FullName()]
			}
		}
		if k == 0 {
			return 0, nil
		}
	}
	if len(cc.Args) == 0 { // bound
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == 1 {
			return k, mc.Bindings[0]
		}
		return 0, nil
	}
	return k, cc.Args[0]
}

func (ls *lockset) key(v ssa.Value) string {
	k, cls := ls.path(v, 0)
	if cls != "" {
		ls.cls[k] = cls
	}
	return k
}

func (ls *lockset) path(v ssa.Value, depth int) (key, cls string) {
	if depth > 20 {
		return fmt.Sprintf("?%p", v), ""
	}
	rel := func(f *ssa.Function) string { return eng.FuncName(f) }
	switch v := v.(type) {
	case *ssa.Global:
		n := v.Pkg.Pkg.Path() + "." + v.Name()
		return "g:" + n, n
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return fmt.Sprintf("p:%s:%d", rel(v.Parent()), i), ""
			}
		}
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			return ls.path(b, depth+1)
		}
	case *ssa.FieldAddr:
		k, _ := ls.path(v.X, depth+1)
		f := structField(v)
		return k + "." + f.Name(), fieldClass(v, f)
	case *ssa.Field:
		k, _ := ls.path(v.X, depth+1)
		return fmt.Sprintf("%s.%d", k, v.Field), ""
	case *ssa.IndexAddr:
		k, _ := ls.path(v.X, depth+1)
		i := fmt.Sprintf("%p", v.Index)
		if c, ok := v.Index.(*ssa.Const); ok {
			i = c.Value.ExactString()
		}
		return k + "[" + i + "]", ""
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.FreeVar); ok {
				if b := bindingOf(a); b != nil {
					if al, ok := b.(*ssa.Alloc); ok {
						if s := onlyStore(al); s != nil {
							return ls.path(s, depth+1)
						}
					}
				}
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					return ls.path(s, depth+1)
				}
			}
			k, _ := ls.path(v.X, depth+1)
			return k + "*", ""
		}
	case *ssa.MakeInterface:
		return ls.path(v.X, depth+1)
	case *ssa.ChangeType:
		return ls.path(v.X, depth+1)
	case *ssa.ChangeInterface:
		return ls.path(v.X, depth+1)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return ls.path(v.X, depth+1)
		}
	case *ssa.Alloc:
		return fmt.Sprintf("a:%s:%s:%d", rel(v.Parent()), v.Comment, v.Pos()), ""
	}
	n := "?"
	if v.Parent() != nil {
		n = rel(v.Parent())
	}
	return "v:" + n + ":" + v.Name(), ""
}

func fieldClass(fa *ssa.FieldAddr, f *types.Var) string {
	t := fa.X.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() }) + "." + f.Name()
}

// bindingOf is what a captured variable is bound to where its closure is made.
func bindingOf(v *ssa.FreeVar) ssa.Value {
	f := v.Parent()
	if f.Parent() == nil {
		return nil
	}
	idx := -1
	for i, x := range f.FreeVars {
		if x == v {
			idx = i
		}
	}
	var out ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && idx >= 0 {
				if out != nil && out != mc.Bindings[idx] {
					return nil
				}
				out = mc.Bindings[idx]
			}
		}
	}
	return out
}

// onlyStore is the one value ever stored to a local variable, or nil.
func onlyStore(a *ssa.Alloc) ssa.Value {
	var out ssa.Value
	var scan func(refs *[]ssa.Instruction, self ssa.Value) bool
	scan = func(refs *[]ssa.Instruction, self ssa.Value) bool {
		if refs == nil {
			return true
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == self {
					if out != nil && out != r.Val {
						return false
					}
					out = r.Val
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				g := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == self && !scan(g.FreeVars[i].Referrers(), g.FreeVars[i]) {
						return false
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return false
			default:
				return false
			}
		}
		return true
	}
	if !scan(a.Referrers(), a) {
		return nil
	}
	return out
}

func (c *Ctx) lockset() *lockset {
	ls := &lockset{c: c, before: map[ssa.Instruction][]*lockFrame{}, net: map[*ssa.Function]map[string]int{}, ops: map[*ssa.Function][]lockOp{},
		must: map[*ssa.Function]map[string]int{}, may: map[*ssa.Function]map[string]int{}, cls: map[string]string{}, sites: map[*ssa.Function][]lockSite{}}
	// callees first; recursion is cut (no function of a cycle may change locks)
	done := map[*ssa.Function]int{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if done[f] != 0 {
			return
		}
		done[f] = 1
		for g := range c.graph().out[f] {
			if g != nil && len(g.Blocks) > 0 {
				visit(g)
			}
		}
		ls.flow(f)
		done[f] = 2
	}
	for _, f := range c.Funcs {
		visit(f)
	}
	ls.contexts()
	return ls
}

// translate renames a callee's lock to the caller's name for it; "" when it has none.
func (ls *lockset) translate(key string, g *ssa.Function, args []ssa.Value) string {
	pre := "p:" + eng.FuncName(g) + ":"
	if strings.HasPrefix(key, pre) {
		rest := key[len(pre):]
		n, i := 0, 0
		for i < len(rest) && rest[i] >= '0' && rest[i] <= '9' {
			n = n*10 + int(rest[i]-'0')
			i++
		}
		if n < len(args) {
			return ls.key(args[n]) + rest[i:]
		}
		return ""
	}
	if strings.HasPrefix(key, "v:"+eng.FuncName(g)+":") || strings.HasPrefix(key, "a:"+eng.FuncName(g)+":") {
		return ""
	}
	return key
}

func calleeOf(cc *ssa.CallCommon) *ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		if f.Origin() != nil && len(f.Blocks) == 0 {
			return f.Origin()
		}
		return f
	}
	// a closure held in a variable that is assigned once
	v := cc.Value
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); ok {
			v = onlyStore(a)
		} else if fv, ok := u.X.(*ssa.FreeVar); ok {
			if a, ok := bindingOf(fv).(*ssa.Alloc); ok {
				v = onlyStore(a)
			}
		}
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		v = bindingOf(fv)
	}
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.Function:
		return v
	}
	return nil
}

func (ls *lockset) flow(f *ssa.Function) {
	in := make([]map[string]*lockFrame, len(f.Blocks))
	work := []*ssa.BasicBlock{}
	push := func(b *ssa.BasicBlock, s *lockFrame) {
		if in[b.Index] == nil {
			in[b.Index] = map[string]*lockFrame{}
		}
		id := s.id()
		if in[b.Index][id] != nil {
			return
		}
		if len(in[b.Index]) > 32 {
			if len(ls.over) == 0 || ls.over[len(ls.over)-1] != f {
				ls.over = append(ls.over, f)
			}
			return
		}
		in[b.Index][id] = s
		work = append(work, b)
	}
	if len(f.Blocks) == 0 {
		return
	}
	push(f.Blocks[0], &lockFrame{rel: map[string]int{}})
	seen := map[string]bool{}
	rep := map[string]bool{}
	problem := func(pos token.Pos, key, what string) {
		id := fmt.Sprint(pos, key, what)
		if !rep[id] {
			rep[id] = true
			ls.probs = append(ls.probs, lockProblem{pos, f, key, what})
		}
	}
	opSeen := map[ssa.Instruction]bool{}
	var rets []*lockFrame
	var retPos []token.Pos
	apply := func(s *lockFrame, kind int, recv ssa.Value, in ssa.Instruction) {
		k := ls.key(recv)
		switch kind {
		case 1, 2:
			if !opSeen[in] {
				opSeen[in] = true
				ls.ops[f] = append(ls.ops[f], lockOp{k, ls.cls[k], kind, in})
			}
			switch {
			case s.rel[k] == 1 || s.rel[k] == 2 && kind == 1:
				problem(in.Pos(), k, "locked although the same path already holds it")
			case s.rel[k] < 0:
				s.rel[k] = 0
				return
			}
			s.rel[k] = kind
		case -1, -2:
			switch {
			case s.rel[k] == -kind:
				s.rel[k] = 0
			case s.rel[k] == 0:
				s.rel[k] = kind
			case s.rel[k] > 0:
				problem(in.Pos(), k, "released in a mode it is not held in")
				s.rel[k] = 0
			default:
				problem(in.Pos(), k, "released twice")
			}
		}
	}
	call := func(s *lockFrame, cc *ssa.CallCommon, in ssa.Instruction) {
		if kind, recv := lockCall(cc); kind != 0 {
			if kind < 10 {
				apply(s, kind, recv, in)
			}
			return
		}
		g := calleeOf(cc)
		if g == nil {
			return
		}
		for k, n := range ls.net[g] {
			tk := ls.translate(k, g, cc.Args)
			if tk == "" {
				continue
			}
			if ls.cls[tk] == "" {
				ls.cls[tk] = ls.cls[k]
			}
			switch {
			case n > 0 && s.rel[tk] > 0:
				problem(in.Pos(), tk, "locked although the same path already holds it")
			case n > 0:
				s.rel[tk] = n
			case s.rel[tk] == -n:
				s.rel[tk] = 0
			case s.rel[tk] == 0:
				s.rel[tk] = n
			default:
				problem(in.Pos(), tk, "released twice or in a mode it is not held in")
			}
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for id, s0 := range in[b.Index] {
			if seen[fmt.Sprint(b.Index, "|", id)] {
				continue
			}
			seen[fmt.Sprint(b.Index, "|", id)] = true
			s := s0.clone()
			for _, instr := range b.Instrs {
				ls.before[instr] = append(ls.before[instr], s.clone())
				switch x := instr.(type) {
				case *ssa.Call:
					call(s, x.Common(), x)
				case *ssa.Defer:
					dup := false
					for _, d := range s.defs {
						dup = dup || d == x
					}
					if !dup {
						s.defs = append(s.defs, x)
					}
				case *ssa.RunDefers:
					for i := len(s.defs) - 1; i >= 0; i-- {
						// the state a deferred call runs in
						ls.before[s.defs[i]] = append(ls.before[s.defs[i]], s.clone())
						call(s, s.defs[i].(*ssa.Defer).Common(), s.defs[i])
					}
					s.defs = nil
				case *ssa.Return:
					rets = append(rets, s.clone())
					retPos = append(retPos, x.Pos())
				}
			}
			// a successful TryLock
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				cond, neg := iff.Cond, false
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, neg = u.X, !neg
				}
				if cl, ok := cond.(*ssa.Call); ok {
					if kind, recv := lockCall(cl.Common()); kind > 10 {
						t, e := 0, 1
						if neg {
							t, e = 1, 0
						}
						n := s.clone()
						apply(n, kind-10, recv, cl)
						push(b.Succs[t], n)
						push(b.Succs[e], s)
						continue
					}
				}
			}
			for _, n := range b.Succs {
				push(n, s)
			}
		}
	}
	// the effect at return
	net := map[string]int{}
	keys := map[string]bool{}
	for _, s := range rets {
		for k := range s.rel {
			keys[k] = true
		}
	}
	for k := range keys {
		v, same := 0, true
		for i, s := range rets {
			if i == 0 {
				v = s.rel[k]
			}
			same = same && s.rel[k] == v
		}
		if !same {
			for i, s := range rets {
				if s.rel[k] > 0 {
					problem(retPos[i], k, "still held on a way out, and not on another")
				} else if s.rel[k] < 0 {
					problem(retPos[i], k, "released on a way out without having been taken, and not on another")
				}
			}
			continue
		}
		if v != 0 {
			net[k] = v
		}
	}
	ls.net[f] = net
}

// syncHOF: the function runs its callback before it returns.
func syncHOF(name string) bool {
	return hasSuffix(name, "(*sync.Map).Range", "(*sync.Once).Do") || strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "strings.")
}

// contexts computes what is held on entry.
func (ls *lockset) contexts() {
	for _, f := range ls.c.Funcs {
		root := f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Pkg.Pkg.Name() != "main" || f.Name() == "main" || f.Name() == "init"
		if root {
			ls.sites[f] = append(ls.sites[f], lockSite{root: true})
		}
	}
	for _, f := range ls.c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				taken := map[ssa.Value]bool{}
				if isCall {
					cc := ci.Common()
					_, isGo := in.(*ssa.Go)
					if g := calleeOf(cc); g != nil && len(g.Blocks) > 0 {
						if isGo {
							ls.sites[g] = append(ls.sites[g], lockSite{root: true})
						} else {
							ls.sites[g] = append(ls.sites[g], lockSite{fn: f, in: in, args: cc.Args})
						}
						taken[cc.Value] = true
					} else if cc.IsInvoke() {
						for _, m := range ls.c.graph().cha(cc.Method) {
							ls.sites[m] = append(ls.sites[m], lockSite{fn: f, in: in, args: append([]ssa.Value{cc.Value}, cc.Args...)})
						}
					}
					name := ""
					if g := cc.StaticCallee(); g != nil {
						name = eng.FuncName(g)
					}
					for _, a := range cc.Args {
						if g := funcValue(a); g != nil && len(g.Blocks) > 0 {
							taken[a] = true
							switch {
							case !isGo && syncHOF(name):
								ls.sites[g] = append(ls.sites[g], lockSite{fn: f, in: in})
							case !isGo && ls.passesThrough(cc, a, g, f):
							default:
								ls.sites[g] = append(ls.sites[g], lockSite{root: true})
							}
						}
					}
				}
				// any other use of a function as a value
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil || taken[*op] {
						continue
					}
					if g := funcValue(*op); g != nil && len(g.Blocks) > 0 {
						if st, ok := in.(*ssa.Store); ok && isLocal(st.Addr) {
							continue // its calls are found where they are made
						}
						ls.sites[g] = append(ls.sites[g], lockSite{root: true})
					}
				}
			}
		}
	}
	for _, f := range ls.c.Funcs {
		if len(ls.sites[f]) == 0 {
			ls.sites[f] = []lockSite{{root: true}}
		}
	}
	for n := 0; n < 50; n++ {
		changed := false
		for _, f := range ls.c.Funcs {
			var must map[string]int
			may := map[string]int{}
			known := false
			for _, s := range ls.sites[f] {
				if s.root {
					must, known = map[string]int{}, true
					continue
				}
				if n == 0 || ls.must[s.fn] == nil {
					continue
				}
				h, m := ls.heldAt(s.fn, s.in)
				th, tm := map[string]int{}, map[string]int{}
				conv := func(m map[string]int) map[string]int {
					if s.up == nil {
						return m
					}
					o := map[string]int{}
					for k, v := range m {
						if t := ls.translate(k, s.fn, s.up); t != "" {
							o[t] = v
						}
					}
					return o
				}
				h, m = conv(h), conv(m)
				for k, v := range h {
					if t := ls.into(k, f, s.args); t != "" {
						th[t] = v
					}
				}
				for k, v := range m {
					if t := ls.into(k, f, s.args); t != "" {
						tm[t] = v
					}
				}
				if !known {
					must, known = th, true
				} else {
					for k := range must {
						if th[k] == 0 {
							delete(must, k)
						}
					}
				}
				for k, v := range tm {
					may[k] = v
				}
			}
			if !known {
				continue
			}
			if ls.must[f] == nil || len(ls.must[f]) != len(must) || len(ls.may[f]) != len(may) {
				changed = true
			}
			ls.must[f], ls.may[f] = must, may
		}
		if !changed && n > 1 {
			break
		}
	}
}

// passesThrough: a module function calls the function value it is given while it runs; the
// value's own call sites then lie in that function.
func (ls *lockset) passesThrough(cc *ssa.CallCommon, a ssa.Value, g, caller *ssa.Function) bool {
	h := cc.StaticCallee()
	if h == nil || len(h.Blocks) == 0 {
		return false
	}
	found := false
	for i, x := range cc.Args {
		if x != a || i >= len(h.Params) {
			continue
		}
		for _, r := range *h.Params[i].Referrers() {
			ci, ok := r.(*ssa.Call)
			if !ok || ci.Common().Value != h.Params[i] {
				return false
			}
			found = true
			ls.sites[g] = append(ls.sites[g], lockSite{fn: h, in: ci, up: cc.Args})
		}
	}
	return found
}

func isLocal(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return onlyStore(v) != nil
	}
	return false
}

func funcValue(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.Function:
		return v
	case *ssa.ChangeType:
		return funcValue(v.X)
	case *ssa.MakeInterface:
		return funcValue(v.X)
	}
	return nil
}

// into renames a caller's lock to the callee's name for it.
func (ls *lockset) into(key string, g *ssa.Function, args []ssa.Value) string {
	best, n := "", -1
	for i, a := range args {
		if i >= len(g.Params) {
			break
		}
		if _, ok := a.(*ssa.Const); ok {
			continue
		}
		ak := ls.key(a)
		if (key == ak || strings.HasPrefix(key, ak+".") || strings.HasPrefix(key, ak+"*") || strings.HasPrefix(key, ak+"[")) && len(ak) > n {
			best, n = fmt.Sprintf("p:%s:%d%s", eng.FuncName(g), i, key[len(ak):]), len(ak)
		}
	}
	if best != "" {
		if ls.cls[best] == "" {
			ls.cls[best] = ls.cls[key]
		}
		return best
	}
	return key // as it is: a global, or a variable of an enclosing function
}

// heldAt: what is held before an instruction on every path, and on some path.
func (ls *lockset) heldAt(f *ssa.Function, in ssa.Instruction) (must, may map[string]int) {
	must, may = map[string]int{}, map[string]int{}
	for i, s := range ls.before[in] {
		here := map[string]int{}
		for k, v := range ls.must[f] {
			if s.rel[k] >= 0 {
				here[k] = v
			}
		}
		for k, v := range s.rel {
			if v > 0 {
				here[k] = v
			}
		}
		if i == 0 {
			for k, v := range here {
				must[k] = v
			}
		} else {
			for k := range must {
				if here[k] == 0 {
					delete(must, k)
				} else if here[k] == 2 {
					must[k] = 2
				}
			}
		}
		for k, v := range ls.may[f] {
			if s.rel[k] >= 0 {
				may[k] = v
			}
		}
		for k, v := range here {
			may[k] = v
		}
	}
	return
}
