package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

func init() {
	reg("G01", ruleG01)
	reg("G02", ruleG02)
	reg("G03", ruleG03)
	reg("G04", ruleG04)
	reg("G05", ruleG05)
	reg("G06", ruleG06)
	reg("G07", ruleG07)
}

// atomicArg: the call is a sync/atomic function on an address.
func atomicArg(in ssa.Instruction) ssa.Value {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	f := ci.Common().StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync/atomic" || f.Signature.Recv() != nil || len(ci.Common().Args) == 0 {
		return nil
	}
	return ci.Common().Args[0]
}

// variableOf is the field, global or captured variable an address denotes.
func variableOf(v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return structField(v)
	case *ssa.Global:
		return v
	case *ssa.Alloc:
		return v
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			return variableOf(b)
		}
	case *ssa.IndexAddr:
		return variableOf(loadedFrom(v.X))
	}
	return nil
}

func loadedFrom(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

func ruleG01(c *Ctx) {
	c.rule("atomic-only", "a variable that is accessed with sync/atomic anywhere is accessed with it everywhere, except on an object not yet shared")
	c.rule("no-torn-update", "no atomic variable is updated by storing a value computed from an earlier load of it, unless by compare-and-swap")
	used := map[any]token.Pos{}
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a := atomicArg(in); a != nil {
					v := variableOf(a)
					if c.check(v != nil, "atomic-only", fname(f)+":operand", in.Pos(), "the variable of this atomic operation cannot be told") {
						used[v] = in.Pos()
					}
				}
			}
		}
	}
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				switch v.(type) {
				case *ssa.FieldAddr, *ssa.Alloc, *ssa.IndexAddr:
				default:
					continue
				}
				x := variableOf(v)
				if x == nil || used[x] == token.NoPos && !isUsed(used, x) {
					continue
				}
				c.plainUses(f, v, x)
			}
		}
		for _, fv := range f.FreeVars {
			if x := variableOf(fv); x != nil && isUsed(used, x) {
				c.plainUses(f, fv, x)
			}
		}
	}
	for x := range used {
		if g, ok := x.(*ssa.Global); ok {
			for _, f := range c.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						var ops [16]*ssa.Value
						for _, op := range in.Operands(ops[:0]) {
							if op != nil && *op == ssa.Value(g) && f.Name() != "init" {
								c.check(atomicArg(in) == ssa.Value(g), "atomic-only", g.Name(), in.Pos(), "%s is accessed with sync/atomic elsewhere, but not here", g.Name())
							}
						}
					}
				}
			}
		}
	}
	c.tornUpdates()
	c.min("atomic-only", 3)
}

func isUsed(m map[any]token.Pos, x any) bool { _, ok := m[x]; return ok }

func varString(x any) string {
	switch x := x.(type) {
	case *types.Var:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	}
	return "?"
}

func (c *Ctx) plainUses(f *ssa.Function, v ssa.Value, x any) {
	fresh := false
	if fa, ok := v.(*ssa.FieldAddr); ok {
		fresh = freshHere(fa.X, fa)
	}
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.MakeClosure:
			continue
		case *ssa.Store:
			if _, isAlloc := v.(*ssa.Alloc); isAlloc && r.Addr == v {
				// its declaration
				if _, ok := r.Val.(*ssa.Const); ok {
					continue
				}
			}
		}
		c.check(fresh || atomicArg(r) == v, "atomic-only", fname(f)+":"+varString(x), r.Pos(), "%s is accessed with sync/atomic elsewhere, but not here", varString(x))
	}
}

// freshHere: the object was made in this function and is not yet known to anyone else when
// the instruction runs.
func freshHere(base ssa.Value, at ssa.Instruction) bool {
	a, ok := base.(*ssa.Alloc)
	if !ok {
		// the one value of a local variable
		if u, ok2 := base.(*ssa.UnOp); ok2 && u.Op == token.MUL {
			if l, ok3 := u.X.(*ssa.Alloc); ok3 {
				if s := onlyStore(l); s != nil {
					if a2, ok4 := s.(*ssa.Alloc); ok4 {
						return freshHere(a2, at)
					}
				}
			}
		}
		if fa, ok2 := base.(*ssa.FieldAddr); ok2 {
			return freshHere(fa.X, at)
		}
		return false
	}
	if a.Parent() != at.Parent() {
		return false
	}
	// shared from the first instruction that gives it away
	shared := map[ssa.Instruction]bool{}
	var gives func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	gives = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef, *ssa.UnOp, *ssa.Return:
			case *ssa.Store:
				if r.Val == v {
					if l, ok := r.Addr.(*ssa.Alloc); ok && !l.Heap {
						// a local variable: look at what is loaded from it
						for _, lr := range *l.Referrers() {
							if u, ok := lr.(*ssa.UnOp); ok {
								gives(u)
							}
						}
						continue
					}
					shared[r] = true
				}
			case *ssa.Call:
				// a call may keep it only if it is a method or function that starts something: assume it shares
				shared[r] = true
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Phi:
				gives(r.(ssa.Value))
			default:
				shared[r.(ssa.Instruction)] = true
			}
		}
	}
	gives(a)
	for s := range shared {
		if reaches(s, at) {
			return false
		}
	}
	return true
}

// reaches: at can run after s within one call of their function.
func reaches(s, at ssa.Instruction) bool { return reachesPast(s, at, nil) }

// reachesPast is reaches on paths that do not enter a block again.
func reachesPast(s, at ssa.Instruction, barred *ssa.BasicBlock) bool {
	if s != at && s.Block() == at.Block() {
		for _, in := range s.Block().Instrs {
			if in == s {
				return true
			}
			if in == at {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), s.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || b == barred {
			continue
		}
		seen[b] = true
		if b == at.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

// atomicOp names a method or function on an atomic variable or concurrent map: Load, Store...
func atomicOp(cc *ssa.CallCommon) (op string, addr ssa.Value, args []ssa.Value) {
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil || len(cc.Args) == 0 {
		return
	}
	n := f.Name()
	switch f.Pkg.Pkg.Path() {
	case "sync/atomic":
		for _, s := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
			if strings.HasPrefix(n, s) {
				return s, cc.Args[0], cc.Args[1:]
			}
		}
	case "sync":
		if f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type().(*types.Pointer).Elem(), "sync", "Map") {
			return n, cc.Args[0], cc.Args[1:]
		}
	}
	return
}

// tornUpdates looks for a value that is loaded, changed and stored back in separate steps.
func (c *Ctx) tornUpdates() {
	ls := c.lockset()
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				op, addr, args := atomicOp(st.Common())
				if op != "Store" && op != "Swap" || len(args) == 0 {
					continue
				}
				c.ob("no-torn-update", fname(f))
				key := ls.key(addr)
				val := args[len(args)-1]
				ld := computedFromLoad(val, func(cl *ssa.Call) bool {
					o, a, _ := atomicOp(cl.Common())
					return (o == "Load" || o == "LoadOrStore") && ls.key(a) == key
				}, map[ssa.Value]bool{}, false)
				if ld == nil {
					continue
				}
				m1, _ := ls.heldAt(f, ld)
				m2, _ := ls.heldAt(f, st)
				common := freshHere(addrBase(addr), st)
				for k := range m1 {
					common = common || m2[k] == 1
				}
				c.check(common, "no-torn-update", fname(f), st.Pos(), "what is stored here was computed from a value loaded earlier: a change made in between is lost")
			}
		}
	}
	c.min("no-torn-update", 8)
}

func addrBase(v ssa.Value) ssa.Value {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return fa.X
	}
	return v
}

// computedFromLoad finds the load v was computed from by arithmetic.
func computedFromLoad(v ssa.Value, is func(*ssa.Call) bool, seen map[ssa.Value]bool, changed bool) *ssa.Call {
	if seen[v] {
		return nil
	}
	seen[v] = true
	try := func(changed bool, vs ...ssa.Value) *ssa.Call {
		for _, x := range vs {
			if x == nil {
				continue
			}
			if r := computedFromLoad(x, is, seen, changed); r != nil {
				return r
			}
		}
		return nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		if is(x) {
			if changed {
				return x
			}
			return nil
		}
		if _, ok := x.Common().Value.(*ssa.Builtin); ok {
			return try(true, x.Common().Args...)
		}
		if g := x.Common().StaticCallee(); g != nil {
			return try(true, x.Common().Args...)
		}
	case *ssa.BinOp:
		return try(true, x.X, x.Y)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a := allocOf(x.X); a != nil {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						if r := try(changed, s.Val); r != nil {
							return r
						}
					}
				}
			}
			return nil
		}
		return try(true, x.X)
	case *ssa.Convert:
		return try(changed, x.X)
	case *ssa.ChangeType:
		return try(changed, x.X)
	case *ssa.MakeInterface:
		return try(changed, x.X)
	case *ssa.TypeAssert:
		return try(changed, x.X)
	case *ssa.Extract:
		return try(changed, x.Tuple)
	case *ssa.Phi:
		return try(changed, x.Edges...)
	}
	return nil
}

func ruleG02(c *Ctx) {
	c.rule("balanced", "every lock that is taken is released on every way out, in the mode it was taken, exactly once")
	c.rule("no-self-lock", "no lock is taken by a path that already holds it")
	ls := c.lockset()
	for _, f := range c.Funcs {
		if len(ls.ops[f]) == 0 && len(ls.net[f]) == 0 {
			continue
		}
		c.ob("balanced", fname(f))
		c.ob("no-self-lock", fname(f))
		for k, n := range ls.net[f] {
			for _, s := range ls.sites[f] {
				c.check(!s.root, "balanced", fname(f), f.Pos(), "returns with %s %s, and is not only called from within the module", lockName(k), map[bool]string{true: "held", false: "released"}[n > 0])
			}
		}
		// a lock taken with the same one held by every or some caller
		for _, o := range ls.ops[f] {
			_, may := ls.heldAt(f, o.in)
			c.check(may[o.key] == 0 || may[o.key] == 2 && o.mode == 2, "no-self-lock", fname(f), o.in.Pos(), "%s is taken although a caller already holds it", lockName(o.key))
		}
	}
	for _, p := range ls.probs {
		rule := "balanced"
		if strings.Contains(p.what, "already") {
			rule = "no-self-lock"
		}
		c.check(false, rule, fname(p.fn), p.in, "%s: %s", lockName(p.key), p.what)
	}
	for _, f := range ls.over {
		c.check(false, "balanced", fname(f), f.Pos(), "too many combinations of locks to follow")
	}
	c.min("balanced", 20)
}

func lockName(k string) string {
	i := strings.LastIndexAny(k, ":/")
	return strings.TrimLeft(k[i+1:], "0123456789.*")
}

func ruleG03(c *Ctx) {
	c.rule("no-copy", "no lock, wait group, once, atomic variable or structure holding one is copied after it was made")
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						c.site("loads")
						if holdsLock(x.Type(), nil) {
							c.check(onlyRead(x), "no-copy", fname(f), x.Pos(), "a %s is copied", short(x.Type()))
						}
					}
				case *ssa.Store:
					if holdsLock(x.Val.Type(), nil) {
						_, zero := x.Val.(*ssa.Const)
						_, fresh := x.Addr.(*ssa.Alloc)
						c.check(zero && fresh || freshHere(x.Addr, x), "no-copy", fname(f), x.Pos(), "a %s that may be in use is overwritten", short(x.Val.Type()))
					}
				case *ssa.MakeInterface:
					c.check(!holdsLock(x.X.Type(), nil), "no-copy", fname(f), x.Pos(), "a %s is copied", short(x.X.Type()))
				}
			}
		}
		for _, p := range f.Params {
			c.check(!holdsLock(p.Type(), nil), "no-copy", fname(f)+":"+p.Name(), p.Pos(), "a %s is passed by value", short(p.Type()))
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			c.check(!holdsLock(f.Signature.Results().At(i).Type(), nil), "no-copy", fname(f)+":result", f.Pos(), "a %s is returned by value", short(f.Signature.Results().At(i).Type()))
		}
	}
	c.min("no-copy", 100)
}

// onlyRead: the loaded value is used for nothing but reading its fields.
func onlyRead(v *ssa.UnOp) bool {
	for _, r := range *v.Referrers() {
		if f, ok := r.(*ssa.Field); ok && !holdsLock(f.Type(), nil) {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

func short(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func holdsLock(t types.Type, seen map[types.Type]bool) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync":
			switch n.Obj().Name() {
			case "Mutex", "RWMutex", "WaitGroup", "Once", "Map", "Pool", "Cond":
				return true
			}
		case "sync/atomic":
			return true
		}
	}
	if seen == nil {
		seen = map[types.Type]bool{}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsLock(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return holdsLock(u.Elem(), seen)
	}
	return false
}

func ruleG04(c *Ctx) {
	c.rule("acyclic", "the locks of the module are taken in one order: no lock is waited for while holding one that is elsewhere held while waiting for it")
	ls := c.lockset()
	type edge struct{ a, b string }
	edges := map[edge]ssa.Instruction{}
	fns := map[edge]*ssa.Function{}
	n := 0
	for _, f := range c.Funcs {
		for _, o := range ls.ops[f] {
			n++
			b := ls.class(o.key)
			c.ob("acyclic", b)
			_, may := ls.heldAt(f, o.in)
			for k := range may {
				if a := ls.class(k); k != o.key {
					e := edge{a, b}
					if edges[e] == nil {
						edges[e], fns[e] = o.in, f
					}
				}
			}
		}
	}
	next := map[string][]string{}
	for e := range edges {
		next[e.a] = append(next[e.a], e.b)
	}
	for e, in := range edges {
		// does b lead back to a?
		seen := map[string]bool{}
		work := []string{e.b}
		back := false
		for len(work) > 0 && !back {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if x == e.a {
				back = true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			work = append(work, next[x]...)
		}
		c.check(!back, "acyclic", fname(fns[e])+":"+lockName(e.b), in.Pos(), "%s is taken while %s is held, and elsewhere it is the other way round", e.b, e.a)
	}
	c.min("acyclic", 10)
}

func (ls *lockset) class(k string) string {
	if c := ls.cls[k]; c != "" {
		return c
	}
	return k
}

// access is one use of a variable.
type access struct {
	fn    *ssa.Function
	in    ssa.Instruction
	write bool
	base  string // name of the object it is a field of
	v     any
	fresh bool
}

// accesses lists the uses of every field and package variable of the module, contents of
// maps and slices included.
func (c *Ctx) accesses(ls *lockset) []access {
	var out []access
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					v := structField(x)
					if v.Pkg() == nil || !strings.HasPrefix(v.Pkg().Path(), c.Module) {
						continue
					}
					k, _ := ls.path(x.X, 0)
					fresh := freshHere(x.X, x)
					c.usesOf(f, x, func(at ssa.Instruction, write bool) {
						out = append(out, access{f, at, write, k, v, fresh && freshHere(x.X, at)})
					})
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok && strings.HasPrefix(g.Pkg.Pkg.Path(), c.Module) {
						c.useOf(f, g, in, func(at ssa.Instruction, write bool) {
							out = append(out, access{f, at, write, "", g, f.Name() == "init"})
						}, 0)
					}
				}
			}
		}
	}
	return out
}

func (c *Ctx) usesOf(f *ssa.Function, addr ssa.Value, use func(ssa.Instruction, bool)) {
	for _, r := range *addr.Referrers() {
		c.useOf(f, addr, r, use, 0)
	}
}

// useOf classifies one use of an address.
func (c *Ctx) useOf(f *ssa.Function, addr ssa.Value, r ssa.Instruction, use func(ssa.Instruction, bool), depth int) {
	switch r := r.(type) {
	case *ssa.DebugRef:
	case *ssa.Store:
		if r.Addr == addr {
			use(r, true)
		} else {
			use(r, true) // its address is kept
		}
	case *ssa.UnOp:
		use(r, false)
		// what is done with its contents
		c.contents(f, r, use, 0)
	case *ssa.FieldAddr:
		// a field of a structure held in place: counted as a use of it
		if !syncType(r.Type()) {
			for _, rr := range *r.Referrers() {
				c.useOf(f, r, rr, use, depth+1)
			}
		}
	case *ssa.IndexAddr:
		for _, rr := range *r.Referrers() {
			c.useOf(f, r, rr, use, depth+1)
		}
	case *ssa.Slice:
		use(r, false)
		c.contents(f, r, use, 0)
	case *ssa.MakeClosure:
		// uses of the captured address inside the closure
		g := r.Fn.(*ssa.Function)
		for i, b := range r.Bindings {
			if b == addr {
				for _, rr := range *g.FreeVars[i].Referrers() {
					c.useOf(g, g.FreeVars[i], rr, use, depth+1)
				}
			}
		}
	default:
		use(r, true) // its address is given away
	}
}

func (c *Ctx) contents(f *ssa.Function, v ssa.Value, use func(ssa.Instruction, bool), depth int) {
	if depth > 4 {
		return
	}
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		if unsafeObject(v.Type()) {
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case ssa.CallInstruction:
					use(r, true)
				case *ssa.FieldAddr:
					use(r, true)
				case *ssa.MakeInterface:
					use(r, true)
				}
			}
		}
		return
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v {
				use(r, true)
			}
		case *ssa.Lookup:
			if r.X == v {
				use(r, false)
				if !r.CommaOk {
					c.contents(f, r, use, depth+1)
				}
			}
		case *ssa.Range:
			use(r, false)
			for _, n := range *r.Referrers() {
				if in, ok := n.(*ssa.Next); ok {
					use(in, false)
				}
			}
		case *ssa.IndexAddr:
			if r.X == v {
				for _, rr := range *r.Referrers() {
					switch rr := rr.(type) {
					case *ssa.Store:
						use(rr, rr.Addr == ssa.Value(r))
					case *ssa.UnOp:
						use(rr, false)
					}
				}
			}
		case *ssa.Slice:
			c.contents(f, r, use, depth+1)
		case *ssa.Phi:
			c.contents(f, r, use, depth+1)
		case *ssa.Call:
			if b, ok := r.Common().Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear":
					use(r, true)
				case "append":
					use(r, r.Common().Args[0] == v)
				case "copy":
					use(r, r.Common().Args[0] == v)
				}
			}
		}
	}
}

// unsafeObject: a pointer to a library object that must not be used by two goroutines at once.
func unsafeObject(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "container/list", "container/ring", "bufio", "bytes", "encoding/json", "math/rand", "math/rand/v2":
		return true
	}
	return n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

// syncType: a lock, an atomic variable or the like, which needs no protection of its own.
func syncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func ruleG05(c *Ctx) {
	c.rule("guarded-field", "in a structure with a lock, a field that changes after construction is accessed only with that lock held, exclusively when it is changed")
	c.rule("settled-field", "in a structure made to be shared (one that holds a lock, atomic variable, channel, or another such structure) and without a lock for it, no field changes once another goroutine can see it")
	c.rule("guarded-global", "a package variable that changes while the program runs is accessed only under one lock, exclusively when it is changed")
	ls := c.lockset()
	all := c.accesses(ls)
	by := map[any][]access{}
	for _, a := range all {
		by[a.v] = append(by[a.v], a)
	}
	atomicUsed := map[any]bool{}
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a := atomicArg(in); a != nil {
					atomicUsed[variableOf(a)] = true
				}
			}
		}
	}
	for _, pk := range c.Pkgs {
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			locks := locksOf(st, 0)
			for i := 0; i < st.NumFields(); i++ {
				v := st.Field(i)
				if syncType(v.Type()) || holdsLock(v.Type(), nil) || atomicUsed[v] {
					continue
				}
				changed := false
				for _, a := range by[v] {
					changed = changed || a.write && !a.fresh
				}
				if !changed || len(locks) == 0 && !c.concurrent(tn.Type(), nil) {
					continue
				}
				construct := tn.Name() + "." + v.Name()
				// settled before anything else can see it
				var late *access
				for j, a := range by[v] {
					if a.write && !a.fresh && !c.beforeGoroutines(a, by[v]) {
						late = &by[v][j]
					}
				}
				if late == nil {
					c.ob("settled-field", construct)
					continue
				}
				if len(locks) == 0 {
					c.check(false, "settled-field", fname(late.fn)+":"+construct, late.in.Pos(), "%s is changed while others may use it, and its structure has no lock", construct)
					continue
				}
				// the one lock all its uses hold
				ok := false
				var worst *access
				for _, l := range locks {
					good := true
					for j, a := range by[v] {
						if a.fresh {
							continue
						}
						must, _ := ls.heldAt(a.fn, a.in)
						m := must[a.base+"."+l]
						if m == 0 || a.write && m != 1 {
							good = false
							if worst == nil || !worst.write {
								worst = &by[v][j]
							}
						}
					}
					ok = ok || good
				}
				if ok {
					c.ob("guarded-field", construct)
				} else {
					c.check(false, "guarded-field", fname(worst.fn)+":"+construct, worst.in.Pos(), "%s is used without the lock of its structure, and changes after construction", construct)
				}
			}
		}
	}
	var gs []*ssa.Global
	for v := range by {
		if g, ok := v.(*ssa.Global); ok {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		if syncType(g.Type()) || holdsLock(g.Type().(*types.Pointer).Elem(), nil) || atomicUsed[g] {
			continue
		}
		changed := false
		for _, a := range by[g] {
			changed = changed || a.write && !a.fresh
		}
		if !changed {
			continue
		}
		var common map[string]int
		for _, a := range by[g] {
			if a.fresh {
				continue
			}
			must, _ := ls.heldAt(a.fn, a.in)
			if common == nil {
				common = map[string]int{}
				for k := range must {
					common[k] = 1
				}
			}
			for k := range common {
				if must[k] == 0 || a.write && must[k] != 1 {
					delete(common, k)
				}
			}
		}
		if len(common) > 0 {
			c.ob("guarded-global", g.Name())
			continue
		}
		a := by[g][0]
		c.check(false, "guarded-global", g.Name(), a.in.Pos(), "%s changes while the program runs, and no one lock is held at all its uses", g.Name())
	}
	c.min("guarded-field", 10)
}

// locksOf names the locks a structure holds, directly, by pointer, or in a structure within it.
func locksOf(st *types.Struct, depth int) (out []string) {
	for i := 0; i < st.NumFields() && depth < 3; i++ {
		f := st.Field(i)
		t, star := f.Type(), ""
		if p, ok := t.(*types.Pointer); ok {
			t, star = p.Elem(), "*"
		}
		if isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") {
			out = append(out, f.Name()+star)
		} else if n, ok := t.Underlying().(*types.Struct); ok && star == "" {
			for _, l := range locksOf(n, depth+1) {
				out = append(out, f.Name()+"."+l)
			}
		}
	}
	return
}

// concurrent: a structure made to be shared.
func (c *Ctx) concurrent(t types.Type, seen map[types.Type]bool) bool {
	if seen == nil {
		seen = map[types.Type]bool{}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	n, _ := t.(*types.Named)
	if n != nil && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), c.Module)) {
		return syncType(t)
	}
	if n != nil {
		// it serves requests
		for i := 0; i < n.NumMethods(); i++ {
			if p := n.Method(i).Type().(*types.Signature).Params(); p.Len() == 2 && isNamed(p.At(0).Type(), "net/http", "ResponseWriter") {
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if syncType(ft) {
				return true
			}
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			switch ft.Underlying().(type) {
			case *types.Chan:
				return true
			case *types.Struct, *types.Array:
				if c.concurrent(ft, seen) {
					return true
				}
			}
		}
	case *types.Array:
		return syncType(u.Elem()) || c.concurrent(u.Elem(), seen)
	}
	return false
}

// beforeGoroutines: the access lies in main, where nothing has been started yet that uses the
// variable too.
func (c *Ctx) beforeGoroutines(a access, all []access) bool {
	if a.fn.Name() != "main" || a.fn.Parent() != nil {
		return false
	}
	uses := map[*ssa.Function]bool{}
	for _, o := range all {
		uses[o.fn] = true
	}
	for _, b := range a.fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !reaches(in, a.in) {
				continue
			}
			if c.starts(ci, uses) {
				return false
			}
		}
	}
	return true
}

// starts: the call may start a goroutine, or register a handler, that runs one of the functions.
func (c *Ctx) starts(ci ssa.CallInstruction, uses map[*ssa.Function]bool) bool {
	runs := func(f *ssa.Function) bool {
		if f == nil {
			return true
		}
		for g := range c.graph().reach(f) {
			if uses[g] {
				return true
			}
		}
		return false
	}
	var spawn func(cc *ssa.CallCommon) bool
	spawn = func(cc *ssa.CallCommon) bool {
		if f := calleeOf(cc); f != nil {
			return runs(f)
		}
		if cc.IsInvoke() {
			for _, m := range c.graph().cha(cc.Method) {
				if runs(m) {
					return true
				}
			}
			return false
		}
		return true
	}
	if g, ok := ci.(*ssa.Go); ok {
		return spawn(g.Common())
	}
	cc := ci.Common()
	var into []*ssa.Function
	if f := calleeOf(cc); f != nil {
		into = append(into, f)
	} else if cc.IsInvoke() {
		into = c.graph().cha(cc.Method)
	}
	for _, a := range cc.Args {
		if f := funcValue(a); f != nil {
			if g := cc.StaticCallee(); (g == nil || len(g.Blocks) == 0 && !syncHOF(eng.FuncName(g))) && runs(f) {
				return true // kept by other code, which may run it in a goroutine of its own
			}
			into = append(into, f)
		}
	}
	for _, f := range into {
		for g := range c.graph().reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Go); ok && spawn(x.Common()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func ruleG06(c *Ctx) {
	c.rule("captured", "a variable captured by a goroutine and changed on either side is accessed under a common lock, or its accesses are ordered: before the start, or after waiting for the end")
	ls := c.lockset()
	n := 0
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				n++
				c.ob("captured", fname(f)+":go")
				target := calleeOf(g.Common())
				mc, _ := g.Common().Value.(*ssa.MakeClosure)
				if mc == nil || target == nil {
					continue
				}
				for i, bd := range mc.Bindings {
					fv := target.FreeVars[i]
					if _, isPtr := bd.Type().Underlying().(*types.Pointer); !isPtr {
						continue
					}
					al := allocOf(bd)
					if al == nil || syncType(al.Type()) || holdsLock(al.Type().(*types.Pointer).Elem(), nil) {
						continue
					}
					if _, isCell := bd.(*ssa.Alloc); !isCell {
						if _, isFV := bd.(*ssa.FreeVar); !isFV {
							continue
						}
					}
					inside := c.cellUses(target, fv, nil)
					outside := c.cellUses(al.Parent(), al, target)
					loop := reaches(g, g) && !sameIteration(al, g)
					c.ob("captured", fname(f)+":"+al.Comment)
					for _, x := range inside {
						if loop && x.write {
							m1, _ := ls.heldAt(x.fn, x.in)
							c.check(len(m1) > 0, "captured", fname(f)+":"+al.Comment, x.in.Pos(), "%s is changed by several goroutines at once", al.Comment)
						}
						for _, y := range outside {
							if !x.write && !y.write {
								continue
							}
							if y.fn == f && !reaches(g, y.in) {
								continue // before it is started
							}
							if y.fn == f && y.in.Block() == g.Block() && !reaches(g, y.in) {
								continue
							}
							if y.fn == f && sameIteration(al, g) && !reachesPast(g, y.in, al.Block()) {
								continue // a later iteration has a variable of its own
							}
							if y.fn == f && c.joined(f, g, y.in, target) {
								continue
							}
							if y.fn != f && !c.concurrentWith(y.fn, f, g) {
								continue
							}
							m1, _ := ls.heldAt(x.fn, x.in)
							m2, _ := ls.heldAt(y.fn, y.in)
							common := false
							for k := range m1 {
								common = common || m2[k] != 0
							}
							c.check(common, "captured", fname(f)+":"+al.Comment, y.in.Pos(), "%s is used here while a goroutine that uses it may run (%s), and one of them changes it", al.Comment, c.SSA.Fset.Position(x.in.Pos()))
						}
					}
				}
			}
		}
	}
	c.check(n >= 10, "captured", "goroutines", c.mustFn(churnPkg, "Enable").Pos(), "fewer goroutines are started than expected")
	c.min("captured", 10)
}

func allocOf(v ssa.Value) *ssa.Alloc {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			return allocOf(b)
		}
	}
	return nil
}

// sameIteration: the variable is made anew in every iteration that starts the goroutine.
func sameIteration(al *ssa.Alloc, g *ssa.Go) bool {
	return al.Parent() == g.Parent() && reaches(al, al) && al.Block().Dominates(g.Block())
}

type cellUse struct {
	fn    *ssa.Function
	in    ssa.Instruction
	write bool
}

// cellUses lists loads and stores of a captured variable, in closures too, except below one.
func (c *Ctx) cellUses(f *ssa.Function, v ssa.Value, except *ssa.Function) (out []cellUse) {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				out = append(out, cellUse{f, r, true})
			}
		case *ssa.UnOp:
			out = append(out, cellUse{f, r, false})
		case *ssa.FieldAddr:
			for _, rr := range *r.Referrers() {
				switch rr := rr.(type) {
				case *ssa.Store:
					out = append(out, cellUse{f, rr, rr.Addr == ssa.Value(r)})
				case *ssa.UnOp:
					out = append(out, cellUse{f, rr, false})
				}
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			if g == except {
				continue
			}
			for i, b := range r.Bindings {
				if b == v {
					out = append(out, c.cellUses(g, g.FreeVars[i], except)...)
				}
			}
		}
	}
	return
}

// concurrentWith: the closure y may run after the goroutine was started; it does unless all
// it is used for lies before.
func (c *Ctx) concurrentWith(y, f *ssa.Function, g *ssa.Go) bool {
	for y.Parent() != nil && y.Parent() != f {
		y = y.Parent()
	}
	if y.Parent() != f {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != y {
				continue
			}
			for _, r := range *mc.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				ci, ok := r.(*ssa.Call)
				if ok && !reaches(g, ci) {
					continue
				}
				if ok && c.joined(f, g, ci, calleeOf(g.Common())) {
					continue
				}
				return true
			}
		}
	}
	return false
}

// joined: between the start of the goroutine and at, the function always waits for its end.
func (c *Ctx) joined(f *ssa.Function, g *ssa.Go, at ssa.Instruction, target *ssa.Function) bool {
	ends := c.endSignals(target)
	isJoin := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Call:
			s := x.Common().StaticCallee()
			if s != nil && hasSuffix(eng.FuncName(s), "(*sync.WaitGroup).Wait") {
				return ends[variableOf(x.Common().Args[0])]
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return ends[variableOf(loadedFrom(x.X))] || ends[chanOf(x.X)]
			}
		}
		return false
	}
	// forward from the start, stopping at joins
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool // reaches at without a join
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if in == at {
				return true
			}
			if isJoin(in) {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range g.Block().Instrs {
		if in == ssa.Instruction(g) {
			return !walk(g.Block(), i+1)
		}
	}
	return false
}

// endSignals: the wait groups a goroutine is done with, and channels it closes or sends on, last.
func (c *Ctx) endSignals(f *ssa.Function) map[any]bool {
	out := map[any]bool{}
	last := func(in ssa.Instruction) bool { // deferred, or nothing but returning follows
		if _, ok := in.(*ssa.Defer); ok {
			return true
		}
		on := false
		for _, x := range in.Block().Instrs {
			if x == in {
				on = true
				continue
			}
			if on {
				switch x.(type) {
				case *ssa.Return, *ssa.RunDefers, *ssa.DebugRef, *ssa.Jump:
				default:
					return false
				}
			}
		}
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				if s := cc.StaticCallee(); s != nil && hasSuffix(eng.FuncName(s), "(*sync.WaitGroup).Done") && last(in) {
					out[variableOf(cc.Args[0])] = true
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "close" && last(in) {
					out[variableOf(loadedFrom(cc.Args[0]))] = true
					out[chanOf(cc.Args[0])] = true
				}
			case *ssa.Send:
				if last(in) {
					out[variableOf(loadedFrom(x.Chan))] = true
					out[chanOf(x.Chan)] = true
				}
			}
		}
	}
	delete(out, nil)
	return out
}

// chanOf is the place a channel was made, through captured variables.
func chanOf(v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.MakeChan:
		return v
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			return chanOf(b)
		}
	case *ssa.UnOp:
		if a := allocOf(v.X); a != nil {
			if s := onlyStore(a); s != nil {
				return chanOf(s)
			}
		}
	case *ssa.ChangeType:
		return chanOf(v.X)
	}
	return nil
}
