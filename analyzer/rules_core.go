package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

const (
	corePkg  = "internal/ratelimiter/core"
	churnPkg = "internal/ratelimiter/telemetry/churn"
)

const evCommitBatch = "core.Persister).CommitBatch"

// coreRoles names the parts of the store and the worker by what they do.
type coreRoles struct {
	store, managed, worker          *types.Named
	counters                        *types.Var
	inst, last, armed               *types.Var
	bools                           []*types.Var // atomic.Bool fields of an entry
	thr, low, interval, maxAge, age *types.Var
	evInterval, wstore, persister   *types.Var
	cycles                          []*ssa.Function
	kind                            map[*ssa.Function]string // commit, final, evict
	loops                           []loopInfo
}

type loopInfo struct {
	goEv *eng.Event
	fn   *ssa.Function
	ps   []*eng.Path
}

var coreCache = map[*Prog]*coreRoles{}

func (c *Ctx) core() *coreRoles {
	if r := coreCache[c.Prog]; r != nil {
		return r
	}
	r := &coreRoles{kind: map[*ssa.Function]string{}}
	r.store, r.worker = c.typ(corePkg, "Store"), c.typ(corePkg, "Worker")
	c.must(r.store != nil && r.worker != nil, "core.Store/core.Worker", "the store or worker type does not exist")
	for _, f := range c.fields(corePkg, "Store") {
		if isNamed(f.Type(), "sync", "Map") {
			r.counters = f
		}
	}
	c.must(r.counters != nil, "core.Store counters", "the store has no concurrent map")
	// the entry type is what the store publishes in its map
	for _, f := range c.Funcs {
		if c.pkgOf(f) != corePkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				pt, ok := ta.AssertedType.(*types.Pointer)
				if !ok {
					continue
				}
				n, ok := pt.Elem().(*types.Named)
				if !ok {
					continue
				}
				if st, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if p, ok := st.Field(i).Type().(*types.Pointer); ok && isNamed(p.Elem(), c.Module, "VSA") {
							r.managed = n
						}
					}
				}
			}
		}
	}
	c.must(r.managed != nil, "core entry type", "no map entry type holding a *vsa.VSA was found")
	st := r.managed.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case isNamed(f.Type(), "sync/atomic", "Bool"):
			r.bools = append(r.bools, f)
		case isBasicInt(f.Type()) || isNamed(f.Type(), "sync/atomic", "Int64"):
			r.last = f
		default:
			if p, ok := f.Type().(*types.Pointer); ok && isNamed(p.Elem(), c.Module, "VSA") {
				r.inst = f
			}
		}
	}
	c.must(r.inst != nil && r.last != nil, "core entry fields", "the entry has no instance or last-access field")
	goc := c.mustFn(corePkg, "Store.GetOrCreate")
	for _, p := range c.corePaths(goc) {
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Store" && isTrue(ev.Arg(0)) {
				for _, f := range r.bools {
					if isField(ev.Addr, f) {
						r.armed = f
					}
				}
			}
		}
	}
	c.must(r.armed != nil, "core entry armed flag", "no flag is set when an entry is created")
	nw := c.mustFn(corePkg, "NewWorker")
	f := func(i int, what string) *types.Var {
		v := fieldFromParam(c, nw, r.worker, i)
		c.must(v != nil, "NewWorker "+what, "parameter "+what+" is not kept in the worker")
		return v
	}
	r.wstore, r.persister = f(0, "store"), f(1, "persister")
	r.thr, r.low = f(2, "commitThreshold"), f(3, "lowCommitThreshold")
	r.interval, r.maxAge, r.age, r.evInterval = f(4, "commitInterval"), f(5, "commitMaxAge"), f(6, "evictionAge"), f(7, "evictionInterval")
	// cycles: the topmost functions that reach the persister and do not wait on channels
	g := c.graph()
	waits := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Select:
					return true
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						return true
					}
				}
			}
		}
		return false
	}
	commits := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && hasSuffix(ci.Common().Method.FullName(), evCommitBatch) {
					return true
				}
			}
		}
		return false
	}
	cand := map[*ssa.Function]bool{}
	var all []*ssa.Function
	for _, f := range c.Funcs {
		if c.pkgOf(f) == corePkg {
			all = append(all, f)
		}
	}
	for _, f := range all {
		rs := g.reach(f)
		ok, bad := false, false
		for h := range rs {
			if c.pkgOf(h) == corePkg {
				ok = ok || commits(h)
				bad = bad || waits(h)
			}
		}
		if (ok || commits(f)) && !bad && !waits(f) {
			cand[f] = true
		}
	}
	for f := range cand {
		top := true
		for h := range g.in[f] {
			if cand[h] {
				top = false
			}
		}
		if f.Parent() != nil && cand[f.Parent()] {
			top = false
		}
		if top {
			r.cycles = append(r.cycles, f)
		}
	}
	sort.Slice(r.cycles, func(i, j int) bool { return r.cycles[i].Pos() < r.cycles[j].Pos() })
	c.must(len(r.cycles) > 0, "core cycles", "no function persists batches")
	coreCache[c.Prog] = r
	// the goroutines Start launches and which cycle each event leads to
	start := c.mustFn(corePkg, "Worker.Start")
	isCycle := map[string]bool{}
	for _, f := range r.cycles {
		isCycle[eng.FuncName(f)] = true
	}
	seen := map[string]bool{}
	for _, p := range c.run(c.startEngine(), start, nil, nil, nil) {
		for _, ev := range p.Events {
			if ev.Kind != "go" {
				continue
			}
			fn, args, bind := goTarget(ev)
			if fn == nil {
				continue
			}
			// one launch per place and per function handed to it
			k := fmt.Sprint(ev.Pos)
			for _, t := range append(append([]*eng.Term(nil), args...), bind...) {
				v := t
				if cell := p.Mem[t.K]; cell != nil && cell.Val != nil {
					v = cell.Val
				}
				if v.Fn != nil {
					k += "|" + eng.FuncName(v.Fn)
				}
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			e := c.engine()
			for n := range isCycle {
				e.Opaque[n] = true
			}
			r.loops = append(r.loops, loopInfo{ev, fn, c.run(e, fn, args, bind, p.Mem)})
		}
	}
	for _, l := range r.loops {
		for _, p := range l.ps {
			stop := false
			for _, ev := range p.Events {
				if ev.Kind == "recv" {
					stop = !isTickRecv(ev)
				}
				if ev.Kind == "call" && isCycle[ev.Name] {
					for _, f := range r.cycles {
						if eng.FuncName(f) == ev.Name {
							k := "commit"
							if stop {
								k = "final"
							} else if c.deletes(f, r) {
								k = "evict"
							}
							if r.kind[f] == "" {
								r.kind[f] = k
							}
						}
					}
				}
			}
		}
	}
	return r
}

// startEngine follows Start through loops over literal lists of functions.
func (c *Ctx) startEngine() *eng.Engine {
	e := c.engine()
	e.Alias, e.MaxIter = true, 8
	return e
}

// goTarget is the function a go event runs, with its arguments and bindings.
func goTarget(ev *eng.Event) (*ssa.Function, []*eng.Term, []*eng.Term) {
	t := ev.Recv
	if t == nil {
		t = ev.Addr
	}
	if t != nil && (t.Op == "closure" || t.Op == "func") && t.Fn != nil {
		return t.Fn, ev.Args, t.Args
	}
	return ev.Fn, ev.Args, nil
}

// deadTick is the first wait for ticks of a ticker the path stopped before.
func deadTick(p *eng.Path) *eng.Event {
	halted := map[*eng.Term]bool{}
	for _, ev := range p.Events {
		switch {
		case ev.Kind == "call" && (ev.Name == "(*time.Ticker).Stop" || ev.Name == "(*time.Timer).Stop"):
			halted[ev.Recv] = true
		case ev.Kind == "call" && (ev.Name == "(*time.Ticker).Reset" || ev.Name == "(*time.Timer).Reset"):
			delete(halted, ev.Recv)
		case ev.Kind == "recv" || ev.Kind == "select":
			for _, a := range append([]*eng.Term{ev.Addr}, ev.Args...) {
				if a != nil && a.Derived(func(x *eng.Term) bool { return halted[x] }) {
					return ev
				}
			}
		}
	}
	return nil
}

// isTickRecv: the channel belongs to a ticker or timer.
func isTickRecv(ev *eng.Event) bool {
	return ev.Addr != nil && ev.Addr.Derived(func(t *eng.Term) bool {
		if t.Ev != nil && (t.Ev.Name == "time.NewTicker" || t.Ev.Name == "time.After" || t.Ev.Name == "time.Tick" || t.Ev.Name == "time.NewTimer") {
			return true
		}
		v, ok := t.Obj.(*types.Var)
		return ok && v.Pkg() != nil && v.Pkg().Path() == "time"
	})
}

// deletes: f reaches a deletion from the store's map.
func (c *Ctx) deletes(f *ssa.Function, r *coreRoles) bool {
	rs := c.graph().reach(f)
	rs[f] = true
	for h := range rs {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && isMapDelete(eng.FuncName(cal)) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isMapDelete(n string) bool {
	switch n {
	case "(*sync.Map).LoadAndDelete", "(*sync.Map).Delete", "(*sync.Map).CompareAndDelete", "(*sync.Map).Clear":
		return true
	}
	return false
}

var corePathCache = map[string][]*eng.Path{}

// corePaths walks a core function with the accumulator and telemetry kept opaque.
func (c *Ctx) corePaths(f *ssa.Function) []*eng.Path {
	k := fmt.Sprint(c.Dir, eng.FuncName(f), f.Pos(), c.Thorough)
	e := c.engine()
	if ps := corePathCache[k]; ps != nil {
		c.nPaths += len(ps)
		c.funcs[eng.FuncName(f)] = true
		return ps
	}
	c.opaque(e, ".", churnPkg)
	ps := c.run(e, f, nil, nil, nil)
	corePathCache[k] = ps
	return ps
}

// managedOf is the entry an instance value was read from.
func (c *Ctx) managedOf(inst *eng.Term) *eng.Term {
	r := c.core()
	inst = inst.Unwrap()
	if inst.Op == "fld" && inst.Obj == types.Object(r.inst) {
		return inst.Args[0].Unwrap()
	}
	return nil
}

// keyOf is the map key an entry was found under.
func keyOf(m *eng.Term) *eng.Term {
	v := stripAs(m)
	if v == nil || v.Ev == nil {
		return nil
	}
	switch v.Ev.Kind {
	case "iter":
		if len(v.Ev.Res) == 2 && v == v.Ev.Res[1] {
			return stripAs(v.Ev.Res[0])
		}
	case "call":
		if strings.HasPrefix(v.Ev.Name, "(*sync.Map).") && len(v.Ev.Args) > 0 {
			return stripAs(v.Ev.Args[0])
		}
	}
	return nil
}

// row is one (key, vector) pair handed to the persister, with the entry its vector was
// read from.
type row struct {
	key, vec *eng.Term
	m        *eng.Term // entry
	state    *eng.Event
}

// rows lists the batch of a CommitBatch call; ok is false when it is not known element by
// element.
func (c *Ctx) rows(ev *eng.Event) ([]row, bool) {
	els, ok := eng.ListOf(ev.Arg(0))
	if !ok {
		return nil, false
	}
	var out []row
	for _, e := range els {
		r := row{key: eng.FieldNamed(e, "Key"), vec: eng.FieldNamed(e, "Vector")}
		if r.key == nil || r.vec == nil {
			return nil, false
		}
		if s := r.vec.Ev; s != nil && s.Name == "(*vsa.VSA).State" && len(s.Res) == 2 && s.Res[1] == r.vec {
			r.state = s
			r.m = c.managedOf(s.Recv)
		}
		out = append(out, r)
	}
	return out, true
}

func isCommitBatch(ev *eng.Event) bool {
	return ev.Kind == "call" && hasSuffix(ev.Name, evCommitBatch)
}

func (c *Ctx) kindCycles(kinds ...string) []*ssa.Function {
	r := c.core()
	var out []*ssa.Function
	for _, f := range r.cycles {
		for _, k := range kinds {
			if r.kind[f] == k {
				out = append(out, f)
			}
		}
	}
	return out
}

func (c *Ctx) mustCycles() []*ssa.Function {
	r := c.core()
	for _, k := range []string{"commit", "final", "evict"} {
		if len(c.kindCycles(k)) == 0 {
			c.failAt("anchor", k+"-cycle", "?", "no function started by Worker.Start performs the "+k+" cycle")
			panic(abort{})
		}
	}
	return r.cycles
}

func init() {
	reg("C01", ruleC01)
	reg("C02", ruleC02)
	reg("C03", ruleC03)
	reg("C04", ruleC04)
	reg("C05", ruleC05)
	reg("C06", ruleC06)
	reg("C07", ruleC07)
	reg("C08", ruleC08)
	reg("C09", ruleC09)
	reg("C11", ruleC11)
}

// ---- C01: one live instance per key ----

func ruleC01(c *Ctx) {
	r := c.core()
	c.rule("published-instance", "GetOrCreate returns the instance that is in the map under the requested key on that path: the one loaded, the winner of LoadOrStore, or the one it stored itself")
	c.rule("fresh-config", "a newly created instance is built from the store's configured limit and options, which the constructors keep unchanged")
	c.rule("loser-closed", "an instance that lost the race is closed and never returned, the published one is not closed")
	c.rule("entry-ready", "a new entry carries its instance, is armed and has a last-access time before it is published, and an existing one has its last-access time refreshed")
	c.rule("map-operations", "nothing in the module puts an entry into the store's map except LoadOrStore (no Store, Swap or CompareAndSwap that could replace a live entry)")
	goc := c.mustFn(corePkg, "Store.GetOrCreate")
	// constructor wiring
	limitF := fieldFromParam(c, c.mustFn(corePkg, "NewStoreWithOptions"), r.store, 0)
	optF := fieldFromParam(c, c.mustFn(corePkg, "NewStoreWithOptions"), r.store, 1)
	c.check(limitF != nil && optF != nil, "fresh-config", "core.NewStoreWithOptions", goc.Pos(), "the configured limit or options are not kept")
	c.check(fieldFromParam(c, c.mustFn(corePkg, "NewStore"), r.store, 0) == limitF && limitF != nil, "fresh-config", "core.NewStore", goc.Pos(), "NewStore does not keep the configured limit")
	newN, loadN := 0, 0
	for _, p := range c.corePaths(goc) {
		if p.End != "return" {
			if p.End == "panic" {
				continue
			}
			c.fail("published-instance", "GetOrCreate:"+p.End, p.EndPos, "a path does not return")
			continue
		}
		key := p.Params[1]
		ret := p.Ret[0].Unwrap()
		var created []*eng.Event
		closed := map[*eng.Term]bool{}
		var pub *eng.Term // the entry in the map at the end of the path
		var los *eng.Event
		fresh := map[*eng.Term]bool{}
		touched := map[*eng.Term]bool{}
		armed := map[*eng.Term]bool{}
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "call" && (ev.Name == "vsa.NewWithOptions" || ev.Name == "vsa.New"):
				created = append(created, ev)
				if limitF != nil && optF != nil {
					ok := ev.Name == "vsa.NewWithOptions" && ev.Arg(0) == eng.FieldOf(p.Params[0], limitF) && ev.Arg(1) == eng.FieldOf(p.Params[0], optF)
					c.check(ok, "fresh-config", c.pos(ev.Pos), ev.Pos, "a new instance is built with (%s, %s) instead of the store's limit and options", ev.Arg(0), ev.Arg(1))
				}
			case ev.Kind == "call" && ev.Name == "(*vsa.VSA).Close":
				closed[ev.Recv.Unwrap()] = true
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*sync.Map).") && isField(ev.Recv, r.counters):
				c.site("map-op")
				c.check(stripAs(ev.Arg(0)) == key, "published-instance", c.pos(ev.Pos)+":key", ev.Pos, "the map is used with a key that is not the requested one: %s", ev.Arg(0))
				switch ev.Name {
				case "(*sync.Map).Load":
					if p.F.Eval(ev.Res[1]) == 1 {
						pub = ev.Res[0]
					}
				case "(*sync.Map).LoadOrStore":
					los = ev
					nm := stripAs(ev.Arg(1))
					if p.F.Eval(ev.Res[1]) == 1 {
						pub = ev.Res[0]
					} else if p.F.Eval(ev.Res[1]) == -1 {
						pub = nm
						fresh[nm] = true
					} else {
						pub = nil
						c.fail("published-instance", c.pos(ev.Pos)+":loaded", ev.Pos, "whether another goroutine's entry won is not examined")
					}
					c.check(armed[nm], "entry-ready", c.pos(ev.Pos)+":armed", ev.Pos, "the entry is published before it is armed")
				}
			case ev.Kind == "atomic" && ev.Name == "Store" && isField(ev.Addr, r.armed):
				armed[ev.Addr.Args[0]] = isTrue(ev.Arg(0))
				c.check(isTrue(ev.Arg(0)) || los == nil, "entry-ready", c.pos(ev.Pos), ev.Pos, "an access clears the armed flag")
			case ev.Kind == "atomic" && isField(ev.Addr, r.last) && (ev.Name == "Store" || ev.Name == "Swap"):
				touched[stripAs(ev.Addr.Args[0])] = isNow(ev.Arg(0))
			}
		}
		if pub == nil {
			c.fail("published-instance", "GetOrCreate:unpublished", p.EndPos, "a path returns an instance that is not in the map: %s", c.cond(p))
			continue
		}
		entry := stripAs(pub)
		var want *eng.Term
		if fresh[pub] || fresh[entry] {
			newN++
			for i, f := range structFields(r.managed) {
				if f == r.inst {
					want = p.LoadField(entry, f, i).Unwrap()
				}
				if f == r.last {
					lt := p.LoadField(entry, f, i)
					c.check(touched[entry] || isNow(lt), "entry-ready", "GetOrCreate:new-last-access", goc.Pos(), "a new entry is published with last access %s", lt)
				}
			}
			isNew := false
			for _, n := range created {
				isNew = isNew || n.Res[0].Unwrap() == want
			}
			c.check(isNew, "published-instance", "GetOrCreate:new-entry", goc.Pos(), "the published entry does not hold a newly created instance: %s", want)
		} else {
			loadN++
			c.check(touched[entry], "entry-ready", "GetOrCreate:touch", goc.Pos(), "an existing entry is returned without refreshing its last access time: %s", c.cond(p))
			if m := c.managedOf(ret); m != nil && stripAs(m) == entry {
				want = ret
			}
		}
		c.check(want != nil && ret == want, "published-instance", fmt.Sprintf("GetOrCreate:ret@%s", c.pos(retPos(p))), goc.Pos(), "returns %s while the map holds %v: %s", ret, want, c.cond(p))
		c.check(!closed[ret], "loser-closed", "GetOrCreate:returned", goc.Pos(), "the returned instance has been closed")
		for _, n := range created {
			if in := n.Res[0].Unwrap(); in != want {
				c.check(closed[in], "loser-closed", "GetOrCreate:loser", n.Pos, "an instance that lost the race is left open (its aggregator would run forever): %s", c.cond(p))
			}
		}
	}
	c.check(newN > 0 && loadN > 1, "published-instance", "GetOrCreate:cases", goc.Pos(), "expected paths that find, create and lose the race (found %d creating, %d loading)", newN, loadN)
	// whole-module use of the map
	n := 0
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					if fa, ok := in.(*ssa.FieldAddr); ok && structField(fa) == r.counters {
						for _, ref := range *fa.Referrers() {
							if cc, ok := ref.(ssa.CallInstruction); ok && cc.Common().StaticCallee() != nil {
								continue
							}
							if _, ok := ref.(*ssa.DebugRef); ok {
								continue
							}
							c.fail("map-operations", fname(f)+":escape", fa.Pos(), "the store's map escapes from its methods")
						}
					}
					continue
				}
				cal := ci.Common().StaticCallee()
				if cal == nil || !strings.HasPrefix(eng.FuncName(cal), "(*sync.Map).") {
					continue
				}
				if len(ci.Common().Args) == 0 {
					continue
				}
				fa, ok := ci.Common().Args[0].(*ssa.FieldAddr)
				if !ok || structField(fa) != r.counters {
					continue
				}
				n++
				op := cal.Name()
				okOp := op == "Load" || op == "LoadOrStore" || op == "LoadAndDelete" || op == "Range" || op == "CompareAndDelete" || op == "Delete"
				c.check(okOp, "map-operations", fname(f)+":"+op, ci.Pos(), "%s can replace the live entry of a key", op)
			}
		}
	}
	c.min("map-operations", 4)
}

// structFields lists the fields of a named struct type.
func structFields(n *types.Named) []*types.Var {
	st := n.Underlying().(*types.Struct)
	var out []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i))
	}
	return out
}

func retPos(p *eng.Path) token.Pos {
	for i := len(p.Events) - 1; i >= 0; i-- {
		if p.Events[i].Pos.IsValid() && p.Events[i].Kind != "ret" {
			return p.Events[i].Pos
		}
	}
	return p.EndPos
}

// isNow: the value is a current time in nanoseconds.
func isNow(t *eng.Term) bool {
	if t == nil {
		return false
	}
	nano := false
	now := t.Derived(func(u *eng.Term) bool { return u.Ev != nil && u.Ev.Name == "time.Now" })
	t.Walk(func(u *eng.Term) bool {
		if u.Name == "(time.Time).UnixNano" || (u.Ev != nil && u.Ev.Name == "(time.Time).UnixNano") {
			nano = true
		}
		return true
	})
	return now && nano
}

// ---- C02: entries end closed ----

func ruleC02(c *Ctx) {
	r := c.core()
	c.rule("delete-closes", "every removal of an entry from the map closes the instance that was removed, and only on the path where something was removed")
	c.rule("visit-all", "callbacks given to the map's Range never stop the iteration early, so commits, flushes and shutdown reach every key")
	c.rule("close-all", "CloseAll closes the instance of every entry it visits")
	c.rule("close-owner", "an instance is closed only where its entry has been removed, at shutdown, or when it was never published")
	del := c.mustFn(corePkg, "Store.Delete")
	for _, p := range c.corePaths(del) {
		if p.End != "return" {
			continue
		}
		var removed *eng.Term
		for _, ev := range p.Events {
			if ev.Kind == "call" && isMapDelete(ev.Name) && isField(ev.Recv, r.counters) {
				c.check(stripAs(ev.Arg(0)) == p.Params[1], "delete-closes", "Store.Delete:key", ev.Pos, "the removed key is not the requested one")
				if ev.Name != "(*sync.Map).LoadAndDelete" {
					continue
				}
				if p.F.Eval(ev.Res[1]) != -1 {
					removed = ev.Res[0]
				}
			}
		}
		n := 0
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == "(*vsa.VSA).Close" {
				n++
				m := c.managedOf(ev.Recv)
				c.check(m != nil && removed != nil && stripAs(m) == stripAs(removed), "delete-closes", "Store.Delete:which", ev.Pos, "closes an instance that was not removed on this path")
			}
		}
		if removed != nil {
			c.check(n >= 1, "delete-closes", "Store.Delete:closed", del.Pos(), "an entry is removed without closing its instance: %s", c.cond(p))
		}
	}
	// Delete must remove on some path
	all := c.mustFn(corePkg, "Store.CloseAll")
	visited := false
	for _, p := range c.corePaths(all) {
		var its []*eng.Event
		closed := map[*eng.Term]bool{}
		for _, ev := range p.Events {
			if ev.Kind == "iter" {
				its = append(its, ev)
			}
			if ev.Kind == "call" && ev.Name == "(*vsa.VSA).Close" {
				if m := c.managedOf(ev.Recv); m != nil {
					closed[stripAs(m)] = true
				}
			}
		}
		for _, it := range its {
			visited = true
			c.check(len(it.Res) == 2 && closed[it.Res[1]], "close-all", "Store.CloseAll", it.Pos, "an entry is visited without closing its instance: %s", c.cond(p))
		}
	}
	c.check(visited, "close-all", "Store.CloseAll:visits", all.Pos(), "CloseAll visits no entry")
	// every Range over the map
	fe := c.mustFn(corePkg, "Store.ForEach")
	fns := append([]*ssa.Function{fe, all}, c.mustCycles()...)
	for _, f := range fns {
		for _, p := range c.corePaths(f) {
			for _, ev := range p.Events {
				if ev.Kind == "maprange" || ev.Kind == "iterend" {
					c.check(!(ev.Kind == "iterend" && ev.Mode == "stopped"), "visit-all", fname(f)+"@"+c.pos(ev.Pos), ev.Pos, "the callback can stop the iteration: %s", c.cond(p))
				}
			}
		}
	}
	// ForEach hands the callback each entry with its own key
	for _, p := range c.corePaths(fe) {
		for _, ev := range p.Events {
			if ev.Kind != "iter" {
				continue
			}
			ok := false
			for _, cl := range p.Events[ev.Seq:] {
				if cl.Kind == "call" && len(cl.Args) == 2 && stripAs(cl.Args[0]) == ev.Res[0] && stripAs(cl.Args[1]) == ev.Res[1] {
					ok = true
				}
			}
			c.check(ok, "visit-all", "Store.ForEach:callback", ev.Pos, "an entry is visited without being handed to the caller: %s", c.cond(p))
		}
	}
	// who closes
	for _, f := range c.Funcs {
		pk := c.pkgOf(f)
		if pk == "." || strings.HasPrefix(pk, "benchmarks") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if cal := ci.Common().StaticCallee(); cal != nil && eng.FuncName(cal) == "(*vsa.VSA).Close" {
					okc := false
					for _, o := range []*ssa.Function{c.mustFn(corePkg, "Store.GetOrCreate"), del, all} {
						okc = okc || f == o || f.Parent() == o || onlyFrom(c, f, o)
					}
					c.check(okc || pk != corePkg, "close-owner", fname(f), ci.Pos(), "an instance still in the map may be closed here")
				}
			}
		}
	}
}

// onlyFrom: every entry chain to f goes through o.
func onlyFrom(c *Ctx, f, o *ssa.Function) bool {
	if f == o {
		return true
	}
	g := c.graph()
	in := g.in[f]
	if len(in) == 0 {
		return false
	}
	for h := range in {
		if h != o && h.Parent() != o && !(h != f && onlyFromD(g, h, o, 4)) {
			return false
		}
	}
	return true
}

func onlyFromD(g *graph, f, o *ssa.Function, d int) bool {
	if d == 0 || len(g.in[f]) == 0 {
		return false
	}
	for h := range g.in[f] {
		if h != o && h.Parent() != o && !onlyFromD(g, h, o, d-1) {
			return false
		}
	}
	return true
}

// ---- C03: persist, then apply, exactly once ----

func ruleC03(c *Ctx) {
	c.rule("own-vector", "each persisted row pairs a key with the vector read by State from the instance that is in the map under that key")
	c.rule("applied-once", "after CommitBatch returned nil, every row's vector is applied to that row's own instance exactly once before the cycle ends")
	c.rule("only-after-success", "Commit on an instance happens only after a successful CommitBatch containing that instance's key with exactly that vector")
	c.rule("no-empty-row", "no row with a zero vector is handed to the persister")
	c.rule("no-other-commit", "nothing outside the worker's cycles applies a commit to an accumulator held by the store")
	cycles := c.mustCycles()
	for _, f := range cycles {
		nb := 0
		for _, p := range c.corePaths(f) {
			if p.End == "cut" {
				continue
			}
			type pend struct {
				r    row
				b    *eng.Event
				done int
			}
			var pends []*pend
			for _, ev := range p.Events {
				if isCommitBatch(ev) {
					nb++
					rs, ok := c.rows(ev)
					if !c.check(ok, "own-vector", fname(f)+":rows", ev.Pos, "the batch handed to the persister is not traceable to entries") {
						continue
					}
					en := errNil(p, ev.Res[0])
					c.check(en != 0, "only-after-success", fname(f)+":checked", ev.Pos, "the error of CommitBatch is not examined: %s", c.cond(p))
					seenKey := map[*eng.Term]bool{}
					for _, r := range rs {
						c.check(p.F.Eval(eng.Eq0(r.vec)) == -1, "no-empty-row", fname(f), ev.Pos, "a row is handed to the persister although its vector may be zero: %s", c.cond(p))
						ok := r.m != nil && keyOf(r.m) != nil && keyOf(r.m) == stripAs(r.key)
						c.check(ok, "own-vector", fname(f)+":pair", ev.Pos, "row (%s, %s) does not pair a key with the vector of its own instance", r.key, r.vec)
						c.check(!seenKey[stripAs(r.key)], "own-vector", fname(f)+":duplicate", ev.Pos, "the same key is in one batch twice: %s", r.key)
						seenKey[stripAs(r.key)] = true
						if en == 1 {
							pends = append(pends, &pend{r, ev, 0})
						}
					}
				}
				if ev.Kind == "call" && ev.Name == "(*vsa.VSA).Commit" {
					m := c.managedOf(ev.Recv)
					var hit *pend
					for _, q := range pends {
						if m != nil && q.r.m == m && q.r.vec == ev.Arg(0) && hit == nil {
							hit = q
						}
					}
					if c.check(hit != nil, "only-after-success", fname(f)+":commit", ev.Pos, "%s.Commit(%s) has no successful CommitBatch of that vector before it: %s", ev.Recv, ev.Arg(0), c.cond(p)) {
						hit.done++
					}
				}
				if ev.Kind == "call" && ev.Name == "(*vsa.VSA).State" {
					// reading the state again while a persisted vector is unapplied would
					// make the same consumption durable twice
					for _, q := range pends {
						if q.done == 0 && c.managedOf(ev.Recv) == q.r.m {
							used := false
							for _, e2 := range p.Events[ev.Seq:] {
								if isCommitBatch(e2) {
									if rs, ok := c.rows(e2); ok {
										for _, r2 := range rs {
											used = used || r2.state == ev
										}
									}
								}
							}
							c.check(!used, "applied-once", fname(f)+":reread", ev.Pos, "an instance is read for another batch before the persisted vector was applied")
						}
					}
				}
			}
			if p.End != "return" {
				continue
			}
			for _, q := range pends {
				c.check(q.done == 1, "applied-once", fname(f)+":rows", q.b.Pos, "a persisted vector is applied %d times: %s", q.done, c.cond(p))
			}
		}
		c.check(nb > 0, "own-vector", fname(f)+":persists", f.Pos(), "the cycle never reaches the persister")
	}
	isC := map[*ssa.Function]bool{}
	g := c.graph()
	for _, f := range cycles {
		isC[f] = true
		for h := range g.reach(f) {
			isC[h] = true
		}
	}
	for _, f := range c.Funcs {
		pk := c.pkgOf(f)
		if pk == "." || strings.HasPrefix(pk, "benchmarks") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && eng.FuncName(cal) == "(*vsa.VSA).Commit" {
						c.check(isC[f], "no-other-commit", fname(f), ci.Pos(), "a commit is applied outside the worker's cycles")
					}
				}
			}
		}
	}
}

// boolAt evaluates an atomic flag of entry m as the path first saw it, and as it left it.
func boolAt(p *eng.Path, f *types.Var, m *eng.Term, from, to int) (first, final int, read bool) {
	first, final = 0, 0
	written := false
	for _, ev := range p.Events {
		if ev.Seq < from || ev.Seq > to || ev.Kind != "atomic" || !isField(ev.Addr, f) || stripAs(ev.Addr.Args[0]) != stripAs(m) {
			continue
		}
		val := func(t *eng.Term) int {
			if isTrue(t) {
				return 1
			}
			if isFalse(t) {
				return -1
			}
			return p.F.Eval(t)
		}
		switch ev.Name {
		case "Load":
			if !written {
				first = val(ev.Res[0])
				final = first
				read = true
			}
		case "Store":
			final = val(ev.Arg(0))
			written = true
		case "Swap":
			if !written {
				first = val(ev.Res[0])
				read = true
			}
			final = val(ev.Arg(0))
			written = true
		case "CompareAndSwap":
			ok := p.F.Eval(ev.Res[0])
			old := val(ev.Arg(0))
			if !written {
				read = true
				if ok == 1 {
					first = old
				} else if ok == -1 {
					first = -old
				}
				final = first
			}
			if ok == 1 {
				final = val(ev.Arg(1))
				written = true
			}
		}
	}
	return
}

// ageAtLeast evaluates "now - last >= limit" (or >, the difference of one nanosecond is not
// observable) from whatever form the code compares times in.
func (c *Ctx) ageAtLeast(p *eng.Path, last *eng.Event, limit *eng.Term) int {
	l := last.Res[0]
	best := 0
	use := func(age *eng.Term) {
		if v := p.F.Eval(eng.Ge(age, limit)); v != 0 {
			best = v
		} else if v := p.F.Eval(eng.Gt(age, limit)); v != 0 {
			best = v
		}
	}
	// lastT: the wall clock time the stored nanoseconds stand for, plus what was added to it
	var stamp func(t *eng.Term, d int) (base string, plus *eng.Term)
	stamp = func(t *eng.Term, d int) (string, *eng.Term) {
		if t == nil || t.Ev == nil || t.Ev.Kind != "call" || d > 6 {
			return "", nil
		}
		ev := t.Ev
		switch ev.Name {
		case "time.Now":
			return "now", eng.Int(0)
		case "time.Unix":
			if z, ok := ev.Arg(0).IsInt(); ok && z == 0 && p.F.Eval(eng.Eq0(eng.Sub(ev.Arg(1), l))) == 1 {
				return "last", eng.Int(0)
			}
			split := func(t *eng.Term, op string) bool {
				return t.Op == op && len(t.Args) == 2 && t.Args[0] == l && t.Args[1] == eng.Int(1e9)
			}
			if split(ev.Arg(0), "/") && split(ev.Arg(1), "%") {
				return "last", eng.Int(0)
			}
		case "(time.Time).Add":
			b, q := stamp(ev.Recv, d+1)
			if b != "" {
				return b, eng.Add(q, ev.Arg(0))
			}
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round":
			if ev.Name == "(time.Time).Round" {
				if z, ok := ev.Arg(0).IsInt(); !ok || z != 0 {
					return "", nil
				}
			}
			return stamp(ev.Recv, d+1)
		}
		return "", nil
	}
	// diff is x - y as an age (now - last + something), sign tells which way round it is
	age := func(x, y *eng.Term, res *eng.Term) (*eng.Term, bool) {
		bx, px := stamp(x, 0)
		by, py := stamp(y, 0)
		off := eng.Int(0)
		if px != nil && py != nil {
			off = eng.Sub(py, px)
		}
		switch {
		case bx == "now" && by == "last":
			return eng.Add(res, off), true
		case bx == "last" && by == "now":
			return eng.Sub(eng.Neg(res), off), true
		}
		return nil, false
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		switch ev.Name {
		case "(time.Time).Sub":
			if a, ok := age(ev.Recv, ev.Arg(0), ev.Res[0]); ok {
				use(a)
			}
		case "time.Since", "time.Until":
			if b, q := stamp(ev.Arg(0), 0); b == "last" {
				if ev.Name == "time.Since" {
					use(eng.Add(ev.Res[0], q))
				} else {
					use(eng.Sub(q, ev.Res[0]))
				}
			}
		case "(time.Time).UnixNano":
			if b, q := stamp(ev.Recv, 0); b == "now" {
				use(eng.Sub(eng.Sub(ev.Res[0], q), l))
			}
		case "(time.Time).Before", "(time.Time).After", "(time.Time).Compare":
			a, b := ev.Recv, ev.Arg(0)
			ba, pa := stamp(a, 0)
			bb, pb := stamp(b, 0)
			if ba == "" || bb == "" || ba == bb {
				continue
			}
			// lim: by how much the last access is put off against now
			lim, neg := eng.Sub(pa, pb), false
			if ba == "now" {
				lim, neg = eng.Sub(pb, pa), true
			}
			if p.F.Eval(eng.Eq0(eng.Sub(lim, limit))) != 1 {
				continue
			}
			v := 0
			switch ev.Name {
			case "(time.Time).Before":
				v = p.F.Eval(ev.Res[0])
			case "(time.Time).After":
				v = -p.F.Eval(ev.Res[0])
			default:
				switch {
				case p.F.Eval(eng.Gt(eng.Int(0), ev.Res[0])) == 1:
					v = 1
				case p.F.Eval(eng.Ge(ev.Res[0], eng.Int(0))) == 1:
					v = -1
				}
			}
			if neg {
				v = -v
			}
			if v != 0 {
				best = v
			}
		}
	}
	return best
}

// ---- C04: what a commit cycle persists ----

func ruleC04(c *Ctx) {
	r := c.core()
	c.rule("selection", "a key is in the batch if and only if its vector is non-zero and (its magnitude reached the high watermark while armed or without hysteresis, or max-age is on and the key is that old, or a previous write of it failed)")
	c.rule("disarm", "with hysteresis on, a selected key leaves the cycle disarmed")
	c.rule("rearm", "a disarmed key is re-armed exactly when its magnitude is at or below the low watermark (and under the high one)")
	c.rule("mark", "the mark of a failed write is gone from every key whose vector was stored and is set on no key that was not written")
	for _, f := range c.kindCyclesMust("commit") {
		incl, excl := 0, 0
		seen := map[string]bool{}
		for _, p := range c.corePaths(f) {
			if p.End == "panic" {
				continue
			}
			w := p.Params[0]
			thr, low, maxAge := eng.FieldOf(w, r.thr), eng.FieldOf(w, r.low), eng.FieldOf(w, r.maxAge)
			var its []*eng.Event
			var iend, batch *eng.Event
			for _, ev := range p.Events {
				if ev.Kind == "iter" {
					its = append(its, ev)
				}
				if ev.Kind == "iterend" && iend == nil {
					iend = ev
				}
				if isCommitBatch(ev) && batch == nil {
					batch = ev
				}
			}
			if len(its) == 0 || iend == nil {
				continue
			}
			included := map[*eng.Term]row{}
			if batch != nil {
				rs, ok := c.rows(batch)
				if !ok {
					c.fail("selection", fname(f)+":rows", batch.Pos, "the batch handed to the persister is not traceable to entries")
					continue
				}
				for _, q := range rs {
					if q.m != nil {
						included[stripAs(q.m)] = q
					}
				}
			}
			for i, it := range its {
				if len(it.Res) != 2 {
					continue
				}
				m := it.Res[1]
				if q, in := included[m]; p.End == "return" {
					for _, b := range r.bools {
						if b == r.armed {
							continue
						}
						first, final, _ := boolAt(p, b, m, 0, len(p.Events))
						if in && errNil(p, batch.Res[0]) == 1 {
							c.check(final == -1, "mark", fname(f)+":cleared", batch.Pos, "a key keeps the mark of a failed write although its vector %s was stored: it would be written again below the watermark", q.vec)
						}
						if !in {
							c.check(final != 1 || first == 1, "mark", fname(f)+":set", it.Pos, "a key gets the mark of a failed write although nothing was written for it: %s", c.cond(p))
						}
					}
				}
				end := iend.Seq
				if i+1 < len(its) {
					end = its[i+1].Seq - 1
				}
				var vec *eng.Term
				var last *eng.Event
				for _, ev := range p.Events[it.Seq:end] {
					if ev.Kind == "call" && ev.Name == "(*vsa.VSA).State" && vec == nil {
						if mm := c.managedOf(ev.Recv); mm != nil && stripAs(mm) == m {
							vec = ev.Res[1]
						}
					}
					if ev.Kind == "atomic" && ev.Name == "Load" && isField(ev.Addr, r.last) && stripAs(ev.Addr.Args[0]) == m {
						last = ev
					}
				}
				q, in := included[m]
				if in {
					vec = q.vec
				}
				if vec == nil {
					c.fail("selection", fname(f)+":unread", it.Pos, "a key is passed over without reading its vector: %s", c.cond(p))
					continue
				}
				armedFirst, armedFinal, armedRead := boolAt(p, r.armed, m, it.Seq, end)
				retry := -1
				anyRetry := false
				for _, b := range r.bools {
					if b == r.armed {
						continue
					}
					anyRetry = true
					rv, _, read := boolAt(p, b, m, it.Seq, end)
					if !read {
						rv = 0
					}
					retry = or3(retry, rv)
				}
				if !anyRetry {
					retry = -1
				}
				if !armedRead {
					armedFirst = 0
				}
				nz := -p.F.Eval(eng.Eq0(vec))
				big := or3(p.F.Eval(eng.Ge(vec, thr)), p.F.Eval(eng.Ge(eng.Neg(vec), thr)))
				lowOff := p.F.Eval(eng.Ge(eng.Int(0), low))
				ageOn := p.F.Eval(eng.Gt(maxAge, eng.Int(0)))
				aged := 0
				if last != nil {
					aged = c.ageAtLeast(p, last, maxAge)
				}
				E := and3(nz, or3(and3(big, or3(lowOff, armedFirst)), and3(ageOn, aged), retry))
				key := fmt.Sprint(in, nz, big, lowOff, armedFirst, ageOn, aged, retry)
				c.ob("selection", fname(f)+":"+key)
				if seen[key] && ((in && E == 1) || (!in && E == -1)) {
					// the same abstract case; still fall through to the flag checks
				}
				seen[key] = true
				desc := fmt.Sprintf("vec≠0:%s |vec|≥high:%s low≤0:%s armed:%s max-age on:%s aged:%s retry:%s", tv(nz), tv(big), tv(lowOff), tv(armedFirst), tv(ageOn), tv(aged), tv(retry))
				if in {
					incl++
					if E != 1 {
						c.fail("selection", fname(f)+":included", batch.Pos, "a key is persisted although the selection rule does not establish it (%s)", desc)
					}
					if lowOff != 1 {
						c.check(armedFinal == -1, "disarm", fname(f), batch.Pos, "a selected key stays armed with hysteresis on (%s)", desc)
					}
				} else {
					excl++
					if E != -1 {
						c.fail("selection", fname(f)+":excluded", it.Pos, "a key is left out although the selection rule does not exclude it (%s)", desc)
					}
					small := and3(p.F.Eval(eng.Ge(low, vec)), p.F.Eval(eng.Ge(low, eng.Neg(vec))))
					if small == 1 && lowOff == -1 && big == -1 {
						c.check(armedFinal == 1, "rearm", fname(f)+":rearmed", it.Pos, "a key back under the low watermark is not re-armed (%s)", desc)
					}
					if small == 0 && lowOff == -1 && big == -1 {
						c.check(armedFinal == 1 || armedFirst == 1, "rearm", fname(f)+":rearmed", it.Pos, "a key that may be at the low watermark is not re-armed (%s)", desc)
					}
					if armedFinal == 1 && armedFirst != 1 && lowOff != 1 && writesBool(p, r.armed, m) {
						c.check(small == 1, "rearm", fname(f)+":early", it.Pos, "a key above the low watermark is re-armed (%s)", desc)
					}
				}
			}
		}
		c.check(incl > 0 && excl > 0, "selection", fname(f)+":cases", f.Pos(), "expected both selected and skipped keys (%d, %d)", incl, excl)
	}
}

func tv(v int) string { return [...]string{"no", "?", "yes"}[v+1] }

func (c *Ctx) kindCyclesMust(k ...string) []*ssa.Function {
	c.mustCycles()
	return c.kindCycles(k...)
}

// ---- C05: lifecycle of the worker ----

func ruleC05(c *Ctx) {
	r := c.core()
	cycles := c.mustCycles()
	c.rule("flush-everything", "the final flush puts every key with a non-zero vector into its batch")
	c.rule("flush-on-stop", "a loop ends only after the stop channel is closed, and the loop that persists runs the final flush after that and before it ends")
	c.rule("tick-runs-cycle", "every tick of the commit (eviction) interval runs the commit (eviction) cycle before the loop waits again")
	c.rule("stop-waits", "Stop closes the stop channel at most once over all calls and then waits for every goroutine Start launched")
	c.rule("waitgroup", "Start adds exactly the number of goroutines it launches and each one signals Done on every way out")
	c.rule("tick-interval", "a positive configured interval is the period of its ticker")
	c.rule("ticker-positive", "the tickers are created with a positive period whatever the configuration")
	for _, f := range c.kindCycles("final") {
		n := 0
		for _, p := range c.corePaths(f) {
			if p.End == "panic" {
				continue
			}
			in := map[*eng.Term]bool{}
			batch := false
			for _, ev := range p.Events {
				if isCommitBatch(ev) {
					batch = true
					rs, ok := c.rows(ev)
					c.check(ok, "flush-everything", fname(f)+":rows", ev.Pos, "the batch is not traceable to entries")
					for _, q := range rs {
						if q.m != nil {
							in[stripAs(q.m)] = true
						}
					}
				}
			}
			_ = batch
			for i, ev := range p.Events {
				if ev.Kind != "iter" {
					continue
				}
				// the last iteration of a cut path is incomplete
				var vec *eng.Term
				for _, e2 := range p.Events[i:] {
					if e2.Kind == "call" && e2.Name == "(*vsa.VSA).State" {
						if m := c.managedOf(e2.Recv); m != nil && stripAs(m) == ev.Res[1] {
							vec = e2.Res[1]
						}
					}
				}
				n++
				if in[ev.Res[1]] || p.End == "cut" {
					continue
				}
				c.check(vec != nil && p.F.Eval(eng.Eq0(vec)) == 1, "flush-everything", fname(f)+":keys", ev.Pos, "a key is left out of the final flush although its vector may be non-zero: %s", c.cond(p))
			}
		}
		c.check(n > 0, "flush-everything", fname(f)+":visits", f.Pos(), "the final flush visits no key")
	}
	// loops
	start := c.mustFn(corePkg, "Worker.Start")
	stop := c.mustFn(corePkg, "Worker.Stop")
	finals := map[string]bool{}
	for _, f := range c.kindCycles("final") {
		finals[eng.FuncName(f)] = true
	}
	isCycle := map[string]*ssa.Function{}
	for _, f := range cycles {
		isCycle[eng.FuncName(f)] = f
	}
	var stopF, wgF *types.Var
	for _, f := range structFields(r.worker) {
		if _, ok := f.Type().Underlying().(*types.Chan); ok {
			stopF = f
		}
		if isNamed(f.Type(), "sync", "WaitGroup") {
			wgF = f
		}
	}
	c.must(stopF != nil && wgF != nil, "Worker stop channel / wait group", "not found")
	isStop := func(t *eng.Term) bool { return t != nil && (t.Op == "fld" && t.Obj == types.Object(stopF)) }
	c.check(len(r.loops) >= 2, "tick-runs-cycle", "Worker.Start:loops", start.Pos(), "expected the commit and eviction loops, found %d goroutines", len(r.loops))
	flushes := false
	ticked := map[string]bool{}
	for _, l := range r.loops {
		ended := false
		for _, p := range l.ps {
			var stopped bool
			var pending *eng.Event // tick not yet served
			var wantKind string
			flushed := false
			done := 0
			halted := map[*eng.Term]bool{} // tickers stopped so far
			for _, ev := range p.Events {
				if done > 0 && (ev.Kind == "recv" || ev.Kind == "select" || ev.Kind == "call" && isCycle[ev.Name] != nil) {
					c.fail("waitgroup", fname(l.fn)+":early-Done", ev.Pos, "the goroutine still works after it signalled Done: Stop does not wait for it")
					break
				}
				switch {
				case ev.Kind == "call" && (ev.Name == "(*time.Ticker).Stop" || ev.Name == "(*time.Timer).Stop"):
					halted[ev.Recv] = true
				case ev.Kind == "call" && ev.Name == "time.NewTicker":
					c.check(p.F.Eval(eng.Gt(ev.Arg(0), eng.Int(0))) == 1, "ticker-positive", c.pos(ev.Pos), ev.Pos, "the period %s is not shown positive (NewTicker panics): %s", ev.Arg(0), c.cond(p))
				case ev.Kind == "recv":
					if isTickRecv(ev) {
						if pending != nil {
							c.fail("tick-runs-cycle", fname(l.fn)+":missed", ev.Pos, "a tick passes without running its cycle: %s", c.cond(p))
						}
						pending = ev
						for h := range halted {
							if ev.Addr.Contains(h) {
								c.fail("tick-runs-cycle", fname(l.fn)+":halted", ev.Pos, "the loop waits for a ticker that has been stopped")
							}
						}
						wantKind = c.tickKind(p, ev, r)
						ticked[wantKind] = true
						if tk := c.tickerOf(p, ev); tk != nil && wantKind != "" {
							var cfg *eng.Term
							find := func(t *eng.Term) bool {
								if t.Op == "fld" && (wantKind == "commit" && t.Obj == types.Object(r.interval) || wantKind == "evict" && t.Obj == types.Object(r.evInterval)) {
									cfg = t
								}
								return cfg != nil
							}
							if !tk.Arg(0).Derived(find) {
								for _, l := range p.Log {
									l.Cond.Derived(find)
								}
							}
							if cfg != nil && p.F.Eval(eng.Gt(cfg, eng.Int(0))) != -1 {
								c.check(tk.Arg(0) == cfg, "tick-interval", fname(l.fn), tk.Pos, "the period is %s although the configured interval may be positive: %s", tk.Arg(0), c.cond(p))
							}
						}
						if wantKind == "" {
							c.fail("tick-runs-cycle", fname(l.fn)+":interval", ev.Pos, "the ticker's period does not come from the configured commit or eviction interval")
						}
						c.check(!stopped, "flush-on-stop", fname(l.fn)+":continues", ev.Pos, "the loop keeps running after stop")
					} else if isStop(ev.Addr) {
						stopped = true
					}
				case ev.Kind == "select" && pending != nil:
					c.fail("tick-runs-cycle", fname(l.fn)+":missed", ev.Pos, "a tick passes without running its cycle: %s", c.cond(p))
					pending = nil
				case ev.Kind == "call" && isCycle[ev.Name] != nil:
					k := r.kind[isCycle[ev.Name]]
					c.ob("tick-runs-cycle", fname(l.fn)+":"+k)
					if pending != nil && k == wantKind {
						pending = nil
					}
					if k == "final" && stopped {
						flushed = true
						flushes = true
					}
				case (ev.Kind == "call" || ev.Kind == "wg") && ev.Name == "(*sync.WaitGroup).Done":
					done++
				}
			}
			if p.End == "return" {
				ended = true
				c.check(stopped, "flush-on-stop", fname(l.fn)+":early-end", l.fn.Pos(), "the loop can end without stop having been requested: %s", c.cond(p))
				c.check(done == 1, "waitgroup", fname(l.fn)+":Done", l.fn.Pos(), "the goroutine signals Done %d times on a way out", done)
				if c.loopPersists(l, finals) {
					c.check(flushed, "flush-on-stop", fname(l.fn)+":flush", l.fn.Pos(), "the commit loop ends without the final flush: %s", c.cond(p))
				}
			}
			if p.End == "panic" {
				c.fail("flush-on-stop", fname(l.fn)+":panic", p.EndPos, "the loop can panic")
			}
		}
		c.check(ended, "flush-on-stop", fname(l.fn)+":ends", l.fn.Pos(), "the loop never ends on stop")
	}
	c.check(flushes, "flush-on-stop", "Worker.Start:flush", start.Pos(), "no loop runs the final flush on stop")
	c.check(ticked["commit"] && ticked["evict"], "tick-runs-cycle", "Worker.Start:tickers", start.Pos(), "the commit or eviction interval drives no loop")
	// wait group arithmetic
	for _, p := range c.run(c.startEngine(), start, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		add := eng.Int(0)
		gos := 0
		for _, ev := range p.Events {
			if ev.Kind == "go" {
				gos++
				c.check(p.F.Eval(eng.Ge(add, eng.Int(int64(gos)))) == 1 || isGo125(ev), "waitgroup", "Worker.Start:before", ev.Pos, "a goroutine is launched before it is added to the wait group")
			}
			if ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Add" && isField(ev.Recv, wgF) {
				add = eng.Add(add, ev.Arg(0))
			}
		}
		n, ok := add.IsInt()
		c.check(ok && int(n) == gos, "waitgroup", "Worker.Start:Add", start.Pos(), "adds %s for %d goroutines", add, gos)
	}
	// Stop
	closes := false
	for _, p := range c.run(c.engine(), stop, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		guard, closed, waited := false, 0, false
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "atomic" && ev.Name == "CompareAndSwap" && p.F.Eval(ev.Res[0]) == 1 && ev.Arg(0) != ev.Arg(1):
				guard = true
				c.gateOpens("stop-waits", "Worker.Stop", ev)
			case ev.Kind == "atomic" && ev.Name == "Swap" && ev.Addr != nil:
				g := p.F.Eval(ev.Res[0])
				if g == -1 || p.F.Eval(eng.Eq(ev.Res[0], eng.Int(0), types.Typ[types.Int64])) == 1 {
					guard = true
				}
			case ev.Kind == "once":
				for _, l := range p.Log {
					if l.Cond.Op == "oncedone" && !l.Val && l.Cond.Args[0] == ev.Addr {
						guard = true
					}
				}
			case ev.Kind == "close" && isStop(ev.Addr):
				closed++
				closes = true
				c.check(guard, "stop-waits", "Worker.Stop:once", ev.Pos, "nothing prevents a second Stop from closing the channel again: %s", c.cond(p))
			case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait":
				if closed > 0 {
					waited = true
				} else if guard {
					c.fail("stop-waits", "Worker.Stop:order", ev.Pos, "Stop waits before it asks the loops to stop")
				}
			}
		}
		if guard {
			c.check(closed == 1 && waited, "stop-waits", "Worker.Stop:first", stop.Pos(), "the first Stop closes %d times, waits: %v", closed, waited)
		}
	}
	c.check(closes, "stop-waits", "Worker.Stop:closes", stop.Pos(), "Stop never closes the stop channel")
	// the guard starts open
	for _, p := range c.run(c.engine(), c.mustFn(corePkg, "NewWorker"), nil, nil, nil) {
		if p.End == "return" {
			ch := p.LoadField(p.Ret[0].Unwrap(), stopF, fieldIndex(r.worker, stopF))
			c.check(ch.Op == "mkchan", "stop-waits", "NewWorker:stop-channel", token.NoPos, "the stop channel is not created: %s", ch)
		}
	}
}

func isGo125(ev *eng.Event) bool { return ev.Mode == "wg.Go" }

func fieldIndex(n *types.Named, f *types.Var) int {
	for i, g := range structFields(n) {
		if g == f {
			return i
		}
	}
	return -1
}

// tickerOf is the call that made the ticker behind a receive.
func (c *Ctx) tickerOf(p *eng.Path, recv *eng.Event) *eng.Event {
	for _, ev := range p.Events {
		if ev.Kind == "call" && (ev.Name == "time.NewTicker" || ev.Name == "time.After" || ev.Name == "time.NewTimer") && recv.Addr.Derived(func(t *eng.Term) bool { return t.Ev == ev }) {
			return ev
		}
	}
	return nil
}

// tickKind is the cycle the ticker behind a receive is meant for.
func (c *Ctx) tickKind(p *eng.Path, recv *eng.Event, r *coreRoles) string {
	kind := ""
	for _, ev := range p.Events {
		if ev.Kind == "call" && (ev.Name == "time.NewTicker" || ev.Name == "time.After" || ev.Name == "time.NewTimer") {
			mine := recv.Addr.Derived(func(t *eng.Term) bool { return t.Ev == ev })
			if !mine {
				continue
			}
			// either the period is a configured interval, or the default used when it is not positive
			for f, k := range map[*types.Var]string{r.interval: "commit", r.evInterval: "evict"} {
				if ev.Arg(0).Derived(func(t *eng.Term) bool { return t.Op == "fld" && t.Obj == types.Object(f) }) {
					kind = k
				}
				for _, l := range p.Log {
					if l.Cond.Derived(func(t *eng.Term) bool { return t.Op == "fld" && t.Obj == types.Object(f) }) && kind == "" {
						kind = k
					}
				}
			}
		}
	}
	return kind
}

// loopPersists: the loop is the one meant to run the final flush.
func (c *Ctx) loopPersists(l loopInfo, finals map[string]bool) bool {
	r := c.core()
	for _, p := range l.ps {
		for _, ev := range p.Events {
			if ev.Kind == "call" {
				for _, f := range r.cycles {
					if eng.FuncName(f) == ev.Name && r.kind[f] != "evict" {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- C06: eviction loses nothing ----

func ruleC06(c *Ctx) {
	r := c.core()
	c.rule("evict-empty-only", "an entry is removed only if, after the last write for it, its vector was read again and is zero")
	c.rule("evict-stale-only", "an entry is removed only if its last access, read after the last write for it, is older than the eviction age")
	c.rule("evict-own-entry", "both re-checks read the entry that is in the map under the removed key")
	c.rule("evict-happens", "a key that is stale and empty at every check of the cycle is removed")
	for _, f := range c.kindCyclesMust("evict") {
		removals := 0
		for _, p := range c.corePaths(f) {
			if p.End == "panic" {
				continue
			}
			w := p.Params[0]
			limit := eng.FieldOf(w, r.age)
			removedKeys := map[*eng.Term]bool{}
			for _, ev := range p.Events {
				if !(ev.Kind == "call" && isMapDelete(ev.Name) && isField(ev.Recv, r.counters)) {
					continue
				}
				removals++
				if ev.Arg(0) == nil {
					c.fail("evict-own-entry", fname(f), ev.Pos, "entries are removed wholesale")
					continue
				}
				key := stripAs(ev.Arg(0))
				removedKeys[key] = true
				lastWrite := -1
				for _, e2 := range p.Events[:ev.Seq] {
					if isCommitBatch(e2) || (e2.Kind == "call" && e2.Name == "(*vsa.VSA).Commit") {
						lastWrite = e2.Seq
					}
				}
				var st, la *eng.Event
				for _, e2 := range p.Events[:ev.Seq] {
					if e2.Kind == "call" && e2.Name == "(*vsa.VSA).State" {
						if m := c.managedOf(e2.Recv); m != nil && keyOf(m) == key {
							st = e2
						}
					}
					if e2.Kind == "atomic" && e2.Name == "Load" && isField(e2.Addr, r.last) && keyOf(e2.Addr.Args[0]) == key {
						la = e2
					}
				}
				okS := st != nil && st.Seq > lastWrite && p.F.Eval(eng.Eq0(st.Res[1])) == 1
				c.check(okS, "evict-empty-only", fname(f), ev.Pos, "the entry is removed without a zero vector read after the last write: what was consumed during the write is lost: %s", c.cond(p))
				okA := la != nil && la.Seq > lastWrite && c.ageAtLeast(p, la, limit) == 1
				c.check(okA, "evict-stale-only", fname(f), ev.Pos, "the entry is removed without re-checking its last access after the last write: %s", c.cond(p))
				own := st != nil && la != nil
				c.check(own, "evict-own-entry", fname(f), ev.Pos, "the checks do not read the removed entry")
			}
			if p.End != "return" {
				continue
			}
			// liveness: keys stale and empty throughout
			type keyState struct {
				loaded, seen bool
				ok           bool
			}
			ks := map[*eng.Term]*keyState{}
			get := func(k *eng.Term) *keyState {
				if ks[k] == nil {
					ks[k] = &keyState{ok: true}
				}
				return ks[k]
			}
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "iter" && len(ev.Res) == 2:
					get(stripAs(ev.Res[0])).seen = true
				case ev.Kind == "call" && ev.Name == "(*sync.Map).Load" && isField(ev.Recv, r.counters):
					k := get(stripAs(ev.Arg(0)))
					k.loaded = true
					if p.F.Eval(ev.Res[1]) != 1 {
						k.ok = false
					}
				case ev.Kind == "call" && ev.Name == "(*vsa.VSA).State":
					if m := c.managedOf(ev.Recv); m != nil && keyOf(m) != nil {
						if p.F.Eval(eng.Eq0(ev.Res[1])) != 1 {
							get(keyOf(m)).ok = false
						}
					}
				case ev.Kind == "atomic" && ev.Name == "Load" && isField(ev.Addr, r.last):
					if k := keyOf(ev.Addr.Args[0]); k != nil && c.ageAtLeast(p, ev, limit) == -1 {
						get(k).ok = false
					}
				}
			}
			for k, s := range ks {
				if s.ok && s.seen {
					c.check(removedKeys[k], "evict-happens", fname(f), f.Pos(), "a key stale and empty at every check is kept: %s", c.cond(p))
				}
			}
		}
		c.check(removals > 0, "evict-happens", fname(f)+":removes", f.Pos(), "the eviction cycle never removes a key")
	}
	// nothing else removes entries
	g := c.graph()
	allowed := map[*ssa.Function]bool{}
	for _, f := range c.kindCycles("evict") {
		allowed[f] = true
		for h := range g.reach(f) {
			allowed[h] = true
		}
	}
	c.rule("evict-only-here", "entries are removed from the map only by the eviction cycle")
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || !isMapDelete(eng.FuncName(ci.Common().StaticCallee())) {
					continue
				}
				if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok && structField(fa) == r.counters {
					c.check(allowed[f], "evict-only-here", fname(f), ci.Pos(), "an entry can be removed outside the eviction cycle")
				}
			}
		}
	}
	if del := c.fn(corePkg, "Store.Delete"); del != nil {
		for h := range g.in[del] {
			c.check(allowed[h], "evict-only-here", "Store.Delete<-"+fname(h), h.Pos(), "an entry can be removed outside the eviction cycle")
		}
	}
}

// ---- C07: cycles do not overlap ----

func ruleC07(c *Ctx) {
	r := c.core()
	c.rule("cycle-exclusive", "one and the same mutex of the worker is held without interruption from the first State read of a cycle to its last Commit or removal, in every cycle that persists")
	var mus []*types.Var
	for _, f := range structFields(r.worker) {
		if isNamed(f.Type(), "sync", "Mutex") || isNamed(f.Type(), "sync", "RWMutex") {
			mus = append(mus, f)
		}
	}
	ok := map[*types.Var]bool{}
	why := ""
	var whyPos token.Pos
	for _, mu := range mus {
		ok[mu] = true
	}
	for _, f := range c.mustCycles() {
		c.ob("cycle-exclusive", fname(f))
		for _, p := range c.corePaths(f) {
			for _, mu := range mus {
				if !ok[mu] {
					continue
				}
				first, lastE := -1, -1
				for _, ev := range p.Events {
					rel := isCommitBatch(ev) || ev.Kind == "call" && (ev.Name == "(*vsa.VSA).State" || ev.Name == "(*vsa.VSA).Commit" || (isMapDelete(ev.Name) && isField(ev.Recv, r.counters)))
					if !rel {
						continue
					}
					if !heldField(ev, mu) {
						ok[mu] = false
						why, whyPos = fmt.Sprintf("%s: %s runs without it", fname(f), ev.Name), ev.Pos
					}
					if first < 0 {
						first = ev.Seq
					}
					lastE = ev.Seq
				}
				if first >= 0 {
					for _, ev := range p.Events[first:lastE] {
						if (ev.Kind == "unlock" || ev.Kind == "runlock") && isField(ev.Addr, mu) {
							ok[mu] = false
							why, whyPos = fmt.Sprintf("%s: released in the middle", fname(f)), ev.Pos
						}
						if ev.Kind == "rlock" && isField(ev.Addr, mu) {
							ok[mu] = false
							why, whyPos = fmt.Sprintf("%s: only a read lock", fname(f)), ev.Pos
						}
					}
				}
			}
		}
	}
	any := false
	for _, v := range ok {
		any = any || v
	}
	c.check(any, "cycle-exclusive", "worker-mutex", whyPos, "no mutex serialises the cycles (%s): the final flush and the eviction loop can persist the same vector twice", why)
}

// ---- C08: failed writes ----

func ruleC08(c *Ctx) {
	r := c.core()
	c.rule("error-examined", "no error returned by a Persister is discarded anywhere in the module")
	c.rule("error-counted", "a failed batch is counted and is not reported as committed")
	c.rule("error-retried", "after a failed batch each of its keys is left in a state in which the next commit cycle selects it again")
	c.rule("mark-kept", "the mark a failed write leaves on a key is cleared only for a key that is written (or has nothing to write)")
	c.rule("error-keeps-state", "after a failed batch nothing is applied to or removed from the store for its keys")
	for _, f := range c.mustCycles() {
		errs := 0
		for _, p := range c.corePaths(f) {
			if p.End == "cut" {
				continue
			}
			failed := 0
			counted := eng.Int(0)
			for i, ev := range p.Events {
				if ev.Kind == "call" && hasSuffix(ev.Name, "churn.ObserveCommitError") {
					counted = eng.Add(counted, ev.Arg(0))
				}
				if !isCommitBatch(ev) {
					continue
				}
				en := errNil(p, ev.Res[0])
				c.check(en != 0, "error-examined", fname(f), ev.Pos, "the error of CommitBatch is not examined: %s", c.cond(p))
				if en != -1 {
					continue
				}
				errs++
				rs, _ := c.rows(ev)
				failed++
				for _, e2 := range p.Events[i+1:] {
					if isCommitBatch(e2) {
						break
					}
					if e2.Kind != "call" {
						continue
					}
					if hasSuffix(e2.Name, "churn.ObserveCommit", "churn.ObserveBatch") {
						c.fail("error-counted", fname(f)+":reported", e2.Pos, "a failed batch is reported as committed: %s", c.cond(p))
					}
					if e2.Name == "(*vsa.VSA).Commit" {
						for _, q := range rs {
							if c.managedOf(e2.Recv) == q.m {
								c.fail("error-keeps-state", fname(f)+":applied", e2.Pos, "a vector that was not persisted is applied")
							}
						}
					}
					if isMapDelete(e2.Name) && isField(e2.Recv, r.counters) {
						for _, q := range rs {
							if e2.Arg(0) == nil || stripAs(e2.Arg(0)) == stripAs(q.key) {
								c.fail("error-keeps-state", fname(f)+":removed", e2.Pos, "an entry whose vector was not persisted is removed")
							}
						}
					}
				}
				c.ob("error-keeps-state", fname(f))
				if r.kind[f] == "commit" && p.End == "return" {
					for _, q := range rs {
						if q.m == nil {
							continue
						}
						again := false
						touched := false
						for _, b := range r.bools {
							_, fin, _ := boolAt(p, b, q.m, 0, len(p.Events))
							if b == r.armed {
								touched = writesBool(p, b, q.m)
							} else if fin == 1 {
								again = true
							}
						}
						c.check(again || !touched, "error-retried", fname(f), ev.Pos, "a key whose write failed is not marked for the next cycle and may not be written again until it crosses the watermarks anew: %s", c.cond(p))
					}
				}
			}
			if p.End == "return" && len(p.Events) > 0 {
				c.check(p.F.Eval(eng.Eq0(eng.Sub(counted, eng.Int(int64(failed))))) == 1, "error-counted", fname(f)+":counted", retPos(p), "%d failed batches are counted as %s commit errors: %s", failed, counted, c.cond(p))
			}
		}
		c.check(errs > 0, "error-examined", fname(f)+":error-path", f.Pos(), "the cycle has no path for a failed batch")
	}
	// the mark of a failed write survives until the key is in a batch
	inCycle := c.graph().reach(c.mustCycles()...)
	for _, f := range c.mustCycles() {
		for _, p := range c.corePaths(f) {
			if p.End != "return" {
				continue
			}
			for _, ev := range p.Events {
				b, ok := c.clearsRetry(ev)
				if !ok {
					continue
				}
				m := stripAs(ev.Addr.Args[0])
				fine := false
				for _, e2 := range p.Events {
					if isCommitBatch(e2) && (r.kind[f] == "commit" || errNil(p, e2.Res[0]) == 1) {
						rs, _ := c.rows(e2)
						for _, q := range rs {
							fine = fine || q.m != nil && stripAs(q.m) == m
						}
					}
					if e2.Kind == "call" && e2.Name == "(*vsa.VSA).State" && e2.Seq < ev.Seq {
						if mm := c.managedOf(e2.Recv); mm != nil && stripAs(mm) == m {
							fine = fine || p.F.Eval(eng.Eq0(e2.Res[1])) == 1
						}
					}
				}
				if first, _, read := boolAt(p, b, m, 0, ev.Seq-1); read && first == -1 {
					fine = true
				}
				c.check(fine, "mark-kept", fname(f), ev.Pos, "the mark that a key's write has failed is cleared although the key is not written: %s", c.cond(p))
			}
		}
	}
	for _, f := range c.Funcs {
		if inCycle[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || len(ci.Common().Args) == 0 {
					continue
				}
				fa, ok := ci.Common().Args[0].(*ssa.FieldAddr)
				if !ok || !c.isRetry(structField(fa)) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				switch ci.Common().StaticCallee().Name() {
				case "Store", "Swap", "CompareAndSwap":
					c.fail("mark-kept", "write@"+fname(f), in.Pos(), "the mark that a key's write has failed is changed outside the cycles")
				}
			}
		}
	}
	c.ob("mark-kept", "module")
	// module-wide: results of Persister.CommitBatch and the adapters' entry points
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				name := ""
				if cc.IsInvoke() {
					name = cc.Method.FullName()
				} else if s := cc.StaticCallee(); s != nil {
					name = eng.FuncName(s)
				}
				if !hasSuffix(name, ").CommitBatch") {
					continue
				}
				v, isV := in.(*ssa.Call)
				used := isV && v.Referrers() != nil && len(nonDebug(*v.Referrers())) > 0
				c.check(used, "error-examined", "call@"+fname(f), ci.Pos(), "the error of %s is discarded", name)
			}
		}
	}
}

func (c *Ctx) isRetry(v *types.Var) bool {
	r := c.core()
	for _, b := range r.bools {
		if b == v && b != r.armed {
			return true
		}
	}
	return false
}

// clearsRetry reports whether the event clears a flag of an entry other than the hysteresis flag.
func (c *Ctx) clearsRetry(ev *eng.Event) (*types.Var, bool) {
	if ev.Kind != "atomic" || ev.Addr == nil || ev.Addr.Op != "fa" {
		return nil, false
	}
	v, ok := ev.Addr.Obj.(*types.Var)
	if !ok || !c.isRetry(v) {
		return nil, false
	}
	switch ev.Name {
	case "Store", "Swap":
		return v, !isTrue(ev.Arg(0))
	case "CompareAndSwap":
		return v, !isTrue(ev.Arg(1))
	}
	return nil, false
}

// writesBool reports whether the path writes the flag of the entry.
func writesBool(p *eng.Path, f *types.Var, m *eng.Term) bool {
	for _, ev := range p.Events {
		if ev.Kind == "atomic" && isField(ev.Addr, f) && stripAs(ev.Addr.Args[0]) == stripAs(m) && ev.Name != "Load" {
			return true
		}
	}
	return false
}

func nonDebug(rs []ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range rs {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

// ---- C09: commit telemetry ----

func ruleC09(c *Ctx) {
	c.rule("batch-observed", "each successful batch is observed once with its number of rows")
	c.rule("rows-observed", "each persisted row is observed exactly once with its own key and vector, and nothing else is")
	for _, f := range c.mustCycles() {
		n := 0
		for _, p := range c.corePaths(f) {
			if p.End != "return" {
				continue
			}
			var bs []*eng.Event
			for _, ev := range p.Events {
				if isCommitBatch(ev) {
					bs = append(bs, ev)
				}
			}
			for i, b := range bs {
				end := len(p.Events)
				if i+1 < len(bs) {
					end = bs[i+1].Seq
				}
				if errNil(p, b.Res[0]) != 1 {
					continue
				}
				n++
				rs, ok := c.rows(b)
				if !ok {
					c.fail("rows-observed", fname(f)+":rows", b.Pos, "the batch is not traceable to entries")
					continue
				}
				batch := 0
				left := append([]row(nil), rs...)
				for _, ev := range p.Events[b.Seq:end] {
					if ev.Kind != "call" {
						continue
					}
					if hasSuffix(ev.Name, "churn.ObserveBatch") {
						batch++
						v, ok := ev.Arg(0).IsInt()
						c.check(ok && int(v) == len(rs), "batch-observed", fname(f)+":size", ev.Pos, "a batch of %d rows is observed as %s", len(rs), ev.Arg(0))
					}
					if hasSuffix(ev.Name, "churn.ObserveCommit") {
						hit := false
						for j, q := range left {
							if stripAs(q.key) == stripAs(ev.Arg(0)) && q.vec == ev.Arg(1) {
								left = append(left[:j:j], left[j+1:]...)
								hit = true
								break
							}
						}
						c.check(hit, "rows-observed", fname(f)+":extra", ev.Pos, "observes (%s, %s), which is not a row still to be observed", ev.Arg(0), ev.Arg(1))
					}
				}
				c.check(batch == 1, "batch-observed", fname(f), b.Pos, "a successful batch is observed %d times: %s", batch, c.cond(p))
				c.check(len(left) == 0, "rows-observed", fname(f), b.Pos, "%d persisted rows are not observed: %s", len(left), c.cond(p))
			}
			// observations without any batch
			for _, ev := range p.Events {
				if ev.Kind == "call" && hasSuffix(ev.Name, "churn.ObserveCommit", "churn.ObserveBatch") && (len(bs) == 0 || ev.Seq < bs[0].Seq) {
					c.fail("rows-observed", fname(f)+":before", ev.Pos, "a commit is observed before it was persisted")
				}
			}
		}
		c.check(n > 0, "batch-observed", fname(f)+":paths", f.Pos(), "no successful batch path")
	}
}

// ---- C11: final metrics ----

func ruleC11(c *Ctx) {
	c.rule("record-totals", "RecordAttempt/RecordAdmit/RecordRefund add exactly the positive amount to their own counter and getEventTotals returns the three in that order")
	c.rule("mock-totals", "the demo persister adds, per non-empty batch, the number of rows, the sum of magnitudes and one batch, under its mutex, and never fails")
	g := map[string]*eng.Term{}
	for _, n := range []string{"RecordAttempt", "RecordAdmit", "RecordRefund"} {
		f := c.mustFn(corePkg, n)
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			pos := p.F.Eval(eng.Gt(p.Params[0], eng.Int(0)))
			sum := eng.Int(0)
			for _, ev := range p.Events {
				if ev.Kind == "atomic" && ev.Name != "Load" {
					c.check(ev.Name == "Add" && (g[n] == nil || g[n] == ev.Addr), "record-totals", n+":counter", ev.Pos, "%s of %s", ev.Name, ev.Addr)
					g[n] = ev.Addr
					if ev.Name == "Add" {
						sum = eng.Add(sum, ev.Arg(0))
					}
				}
			}
			switch pos {
			case 1:
				c.check(sum == p.Params[0], "record-totals", n+":amount", f.Pos(), "adds %s for a positive amount", sum)
			default:
				z, ok := sum.IsInt()
				c.check(ok && z == 0, "record-totals", n+":negative", f.Pos(), "adds %s for a non-positive amount", sum)
				c.check(pos == -1, "record-totals", n+":dropped", f.Pos(), "adds nothing although the amount may be positive: %s", c.cond(p))
			}
		}
	}
	names := []string{"RecordAttempt", "RecordAdmit", "RecordRefund"}
	for i, n := range names {
		for _, m := range names[:i] {
			c.check(g[n] != g[m], "record-totals", n+"/"+m, token.NoPos, "both use the same counter")
		}
		c.check(g[n] != nil, "record-totals", n+":adds", token.NoPos, "no counter is updated")
	}
	get := c.mustFn(corePkg, "getEventTotals")
	for _, p := range c.run(c.engine(), get, nil, nil, nil) {
		for i, n := range names {
			ok := i < len(p.Ret) && p.Ret[i].Ev != nil && p.Ret[i].Ev.Kind == "atomic" && p.Ret[i].Ev.Name == "Load" && p.Ret[i].Ev.Addr == g[n]
			c.check(ok, "record-totals", "getEventTotals:"+n, get.Pos(), "result %d is not that counter's total", i)
		}
	}
	// demo persister: found through its constructor
	var mp *types.Named
	for _, p := range c.run(c.engine(), c.mustFn(corePkg, "NewMockPersister"), nil, nil, nil) {
		if t := p.Ret[0].Unwrap().Typ; t != nil {
			if pt, ok := t.(*types.Pointer); ok {
				mp, _ = pt.Elem().(*types.Named)
			}
		}
	}
	c.must(mp != nil, "NewMockPersister", "the demo persister's type is not known")
	cb := c.mustFn(corePkg, mp.Obj().Name()+".CommitBatch")
	counts := 0
	for _, p := range c.run(c.engine(), cb, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		c.check(p.Ret[0].Op == "nil", "mock-totals", "CommitBatch:error", cb.Pos(), "the demo persister fails")
		rows := p.Params[1]
		n := p.F.Eval(eng.Eq0(lenOfParam(rows)))
		writes := map[*types.Var]*eng.Term{}
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr != nil && ev.Addr.Op == "fa" && ev.Addr.Args[0] == p.Params[0] {
				held := false
				for _, a := range ev.Held {
					held = held || a.Op == "fa" && a.Args[0] == p.Params[0]
				}
				c.check(held, "mock-totals", "CommitBatch:lock:"+ev.Addr.Obj.Name(), ev.Pos, "a total is updated without the mutex")
				f := ev.Addr.Obj.(*types.Var)
				d := eng.Sub(ev.Arg(0), eng.FieldOf(p.Params[0], f))
				writes[f] = d
			}
		}
		if n == 1 {
			c.check(len(writes) == 0, "mock-totals", "CommitBatch:empty", cb.Pos(), "an empty batch changes the totals")
			continue
		}
		counts++
		one, rowsN := 0, 0
		for _, d := range writes {
			if v, ok := d.IsInt(); ok && v == 1 {
				one++
			} else if d == lenOfParam(rows) || p.F.Eval(eng.Eq0(eng.Sub(d, lenOfParam(rows)))) == 1 {
				rowsN++
			}
		}
		c.check(rowsN+one >= 2, "mock-totals", "CommitBatch:totals", cb.Pos(), "the totals do not advance by the number of rows and one batch: %s", c.cond(p))
	}
	c.check(counts > 0, "mock-totals", "CommitBatch:counts", cb.Pos(), "no batch is counted")
}

// lenOfParam is the length of a slice parameter.
func lenOfParam(t *eng.Term) *eng.Term { return eng.LenOf(t) }
