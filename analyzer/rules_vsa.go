package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

// vsaRoles names the parts of the accumulator by what they do, not by how they
// are called.
type vsaRoles struct {
	typ                      *types.Named
	scalar, approx, offset   *types.Var
	stripes, groups          *types.Var // slice fields
	mu                       *types.Var
	ctor, newFn              *ssa.Function
	update, commit           *ssa.Function
	consume, refund          *ssa.Function
	available, state, checkC *ssa.Function
	closeFn                  *ssa.Function
	groupCond                []*eng.Term // conditions true exactly when group sums are read
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isAtomicInt(t types.Type) bool {
	return isNamed(t, "sync/atomic", "Int64") || isNamed(t, "sync/atomic", "Uint64")
}

func (c *Ctx) vsa() *vsaRoles {
	if c.roles != nil {
		return c.roles
	}
	r := &vsaRoles{typ: c.typ(".", "VSA")}
	c.must(r.typ != nil, "vsa.VSA", "the accumulator type does not exist")
	r.ctor, r.newFn = c.mustFn(".", "NewWithOptions"), c.mustFn(".", "New")
	m := func(n string) *ssa.Function { return c.mustFn(".", "VSA."+n) }
	r.update, r.commit, r.consume, r.refund = m("Update"), m("Commit"), m("TryConsume"), m("TryRefund")
	r.available, r.state, r.checkC, r.closeFn = m("Available"), m("State"), m("CheckCommit"), m("Close")
	var mus []*types.Var
	for _, f := range c.fields(".", "VSA") {
		if isNamed(f.Type(), "sync", "Mutex") || isNamed(f.Type(), "sync", "RWMutex") {
			mus = append(mus, f)
		}
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if isAtomicInt(sl.Elem()) {
				r.groups = f
			} else if st, ok := sl.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if isAtomicInt(st.Field(i).Type()) {
						r.stripes = f
					}
				}
			}
		}
	}
	c.must(len(mus) == 1, "VSA mutex", "expected exactly one mutex field")
	r.mu = mus[0]
	c.must(r.stripes != nil && r.groups != nil, "VSA counters", "striped counters or group sums not found")
	c.roles = r
	// scalar: the atomic that receives the initial value
	e := c.engine()
	for _, p := range c.ctorPaths() {
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Store" && ev.Arg(0) == p.Params[0] && ev.Addr.Op == "fa" {
				r.scalar = ev.Addr.Obj.(*types.Var)
			}
		}
	}
	c.must(r.scalar != nil, "VSA scalar", "no atomic field receives the initial scalar")
	e = c.engine()
	for _, p := range c.run(e, r.update, nil, nil, nil) {
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Add" && ev.Arg(0) == p.Params[1] && ev.Addr.Op == "fa" && c.vsaField(ev.Addr) != nil {
				r.approx = ev.Addr.Obj.(*types.Var)
			}
		}
	}
	c.must(r.approx != nil, "VSA approximate net", "no single counter tracks the net vector in Update")
	e = c.engine()
	for _, p := range c.run(e, r.commit, nil, nil, nil) {
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name != "Load" && ev.Addr.Op == "fa" {
				if f := c.vsaField(ev.Addr); f != nil && f != r.scalar && f != r.approx {
					r.offset = f
				}
			}
		}
	}
	c.must(r.offset != nil, "VSA committed offset", "Commit does not move a committed offset")
	// the condition under which group sums stand for the stripes
	conds := map[string]*eng.Term{}
	e = c.engine()
	for _, p := range c.run(e, r.state, nil, nil, nil) {
		grp, str := false, false
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Load" {
				switch c.counter(ev.Addr) {
				case "group":
					grp = true
				case "stripe":
					str = true
				}
			}
		}
		if grp && !str {
			for _, l := range p.Log {
				cond := l.Cond
				if !l.Val {
					cond = eng.Not(cond)
				}
				conds[cond.K] = cond
			}
		}
	}
	for _, p := range c.run(e, r.state, nil, nil, nil) {
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Load" && c.counter(ev.Addr) == "stripe" {
				for k, cond := range conds {
					if p.F.Eval(cond) != -1 {
						delete(conds, k)
					}
				}
			}
		}
	}
	for _, t := range conds {
		r.groupCond = append(r.groupCond, t)
	}
	sort.Slice(r.groupCond, func(i, j int) bool { return r.groupCond[i].K < r.groupCond[j].K })
	return r
}

// vsaField returns the field of VSA an address denotes directly, or nil.
func (c *Ctx) vsaField(addr *eng.Term) *types.Var {
	if addr == nil || addr.Op != "fa" {
		return nil
	}
	v, _ := addr.Obj.(*types.Var)
	if c.isVSAField(v) {
		return v
	}
	return nil
}

var vsaFieldSet = map[*Prog]map[*types.Var]bool{}

func (c *Ctx) isVSAField(v *types.Var) bool {
	m := vsaFieldSet[c.Prog]
	if m == nil {
		m = map[*types.Var]bool{}
		for _, f := range c.fields(".", "VSA") {
			m[f] = true
		}
		vsaFieldSet[c.Prog] = m
	}
	return m[v]
}

func (c *Ctx) vsaValue(t *eng.Term) *types.Var {
	if t == nil || t.Op != "fld" {
		return nil
	}
	v, _ := t.Obj.(*types.Var)
	if c.isVSAField(v) {
		return v
	}
	return nil
}

// counter classifies an atomic's address: scalar, approx, offset, stripe, group or "".
func (c *Ctx) counter(addr *eng.Term) string {
	r := c.roles
	if f := c.vsaField(addr); f != nil {
		switch f {
		case r.scalar:
			return "scalar"
		case r.approx:
			return "approx"
		case r.offset:
			return "offset"
		}
		return ""
	}
	if addr.Op == "fa" && addr.Args[0].Op == "ia" && c.vsaValue(addr.Args[0].Args[0]) == r.stripes {
		return "stripe"
	}
	if addr.Op == "ia" && c.vsaValue(addr.Args[0]) == r.groups {
		return "group"
	}
	return ""
}

func counterIndex(addr *eng.Term) *eng.Term {
	if addr.Op == "fa" {
		addr = addr.Args[0]
	}
	return addr.Args[1]
}

// delta is one change of a counter on a path.
type delta struct {
	kind string
	d    *eng.Term // nil: an overwrite
	ev   *eng.Event
}

// deltas lists the successful counter changes of a path in order.
func (c *Ctx) deltas(p *eng.Path) []delta {
	var out []delta
	for _, ev := range p.Events {
		if ev.Kind == "store" {
			// overwriting the slices or a counter by plain assignment
			if f := c.vsaField(ev.Addr); f == c.roles.stripes || f == c.roles.groups || f != nil && c.counter(ev.Addr) != "" {
				out = append(out, delta{"store", nil, ev})
			}
			continue
		}
		if ev.Kind != "atomic" || ev.Name == "Load" {
			continue
		}
		k := c.counter(ev.Addr)
		if k == "" {
			continue
		}
		switch ev.Name {
		case "Add":
			out = append(out, delta{k, ev.Arg(0), ev})
		case "CompareAndSwap":
			switch p.F.Eval(ev.Res[0]) {
			case -1:
			case 1:
				out = append(out, delta{k, eng.Sub(ev.Arg(1), ev.Arg(0)), ev})
			default:
				out = append(out, delta{k, nil, ev})
			}
		default:
			out = append(out, delta{k, nil, ev})
		}
	}
	return out
}

func sum(ds []delta, kind string) (*eng.Term, bool) {
	t := eng.Int(0)
	for _, d := range ds {
		if d.kind == kind {
			if d.d == nil {
				return nil, false
			}
			t = eng.Add(t, d.d)
		}
	}
	return t, true
}

// netCandidate is an exact reading of the net vector on a path.
type netCandidate struct {
	net         *eng.Term
	first, last *eng.Event
	n           int
	group       bool
	idx         []*eng.Term
}

// nets finds every place a path sums the stripes (or the groups) and takes the
// committed offset off.
func (c *Ctx) nets(p *eng.Path) []netCandidate {
	type seg struct {
		sum         *eng.Term
		idx         []*eng.Term
		first, last *eng.Event
		groups, str bool
	}
	cur := seg{sum: eng.Int(0)}
	var segs []seg
	var offs []*eng.Event
	for _, ev := range p.Events {
		if ev.Kind != "atomic" || ev.Name != "Load" {
			continue
		}
		switch c.counter(ev.Addr) {
		case "stripe", "group":
			if cur.first == nil {
				cur.first = ev
			}
			cur.last = ev
			cur.sum = eng.Add(cur.sum, ev.Res[0])
			cur.idx = append(cur.idx, counterIndex(ev.Addr))
			if c.counter(ev.Addr) == "group" {
				cur.groups = true
			} else {
				cur.str = true
			}
		case "offset":
			segs = append(segs, cur)
			offs = append(offs, ev)
			cur = seg{sum: eng.Int(0)}
		}
	}
	segs = append(segs, cur)
	var out []netCandidate
	for i, o := range offs {
		for _, s := range []seg{segs[i], segs[i+1]} {
			if s.groups && s.str {
				continue
			}
			f, l := o, o
			if s.first != nil && s.first.Seq < f.Seq {
				f = s.first
			}
			if s.last != nil && s.last.Seq > l.Seq {
				l = s.last
			}
			out = append(out, netCandidate{eng.Sub(s.sum, o.Res[0]), f, l, len(s.idx), s.groups, s.idx})
		}
	}
	return out
}

// complete reports whether a candidate covers every stripe (or group) once.
func (c *Ctx) complete(p *eng.Path, n netCandidate) bool {
	seen := map[int64]bool{}
	for _, i := range n.idx {
		k, ok := i.IsInt()
		if !ok || seen[k] || k < 0 || k >= int64(len(n.idx)) {
			return false
		}
		seen[k] = true
	}
	return c.boundedBy(p, n)
}

// boundedBy: the path's loop conditions bound the number of cells by what was read.
func (c *Ctx) boundedBy(p *eng.Path, n netCandidate) bool {
	slice := c.roles.stripes
	if n.group {
		slice = c.roles.groups
	}
	for _, l := range p.Log {
		ok := false
		l.Cond.Walk(func(t *eng.Term) bool {
			if t.Op == "len" && c.vsaValue(t.Args[0]) == slice && p.F.Eval(eng.Ge(eng.Int(int64(n.n)), t)) == 1 {
				ok = true
			}
			// the configured number of groups (V08 ties it to the slice)
			if n.group && t.Op == "fld" && c.vsaValue(t) != nil && c.isGroupCount(t) && p.F.Eval(eng.Ge(eng.Int(int64(n.n)), t)) == 1 {
				ok = true
			}
			return true
		})
		if ok {
			return true
		}
	}
	return n.n == 0 && !n.group && p.F.Eval(eng.Ge(eng.Int(0), c.lenOf(p, slice))) == 1
}

func (c *Ctx) lenOf(p *eng.Path, slice *types.Var) *eng.Term {
	return eng.App("len", nil, eng.FieldOf(p.Params[0], slice))
}

// groupCountField is the int field the constructor sets to the length of the group sums.
func (c *Ctx) isGroupCount(t *eng.Term) bool {
	for _, g := range c.groupCountFields() {
		if c.vsaValue(t) == g {
			return true
		}
	}
	return false
}

var gcCache = map[*Prog][]*types.Var{}

func (c *Ctx) groupCountFields() []*types.Var {
	if r, ok := gcCache[c.Prog]; ok {
		return r
	}
	r := c.roles
	cand := map[*types.Var]int{}
	total := 0
	for _, p := range c.ctorPaths() {
		if p.End != "return" {
			continue
		}
		vals := c.ctorFields(p)
		g := vals[r.groups]
		if g == nil || g.Op != "mkslice" {
			continue
		}
		total++
		for f, v := range vals {
			if v == g.Args[0] && types.Identical(f.Type(), types.Typ[types.Int]) {
				cand[f]++
			}
		}
	}
	var out []*types.Var
	for f, n := range cand {
		if n == total {
			out = append(out, f)
		}
	}
	gcCache[c.Prog] = out
	return out
}

// ctorFields reads the fields of the object a constructor path returns.
func (c *Ctx) ctorFields(p *eng.Path) map[*types.Var]*eng.Term {
	out := map[*types.Var]*eng.Term{}
	if len(p.Ret) == 0 {
		return out
	}
	obj := p.Ret[0].Unwrap()
	for i, f := range c.fields(".", "VSA") {
		out[f] = p.LoadField(obj, f, i)
	}
	return out
}

func (c *Ctx) holdsMu(ev *eng.Event) bool {
	for _, a := range ev.Held {
		if c.vsaField(a) == c.roles.mu {
			return true
		}
	}
	return false
}

// heldThrough: the mutex is held at both events and not released in between.
func (c *Ctx) heldThrough(p *eng.Path, a, b *eng.Event) bool {
	if !c.holdsMu(a) || !c.holdsMu(b) {
		return false
	}
	for _, ev := range p.Events[a.Seq : b.Seq+1] {
		if ev.Kind == "unlock" && c.vsaField(ev.Addr) == c.roles.mu {
			return false
		}
	}
	return true
}

func (c *Ctx) mutators() []*ssa.Function {
	r := c.roles
	return []*ssa.Function{r.update, r.commit, r.consume, r.refund}
}

func (c *Ctx) vsaPaths(f *ssa.Function) []*eng.Path {
	e := c.engine()
	e.MaxPaths = 200000
	e.TraceDiv = true
	if f == c.roles.consume {
		e.MaxIter = 1
	}
	return c.run(e, f, nil, nil, nil)
}

func implied(p *eng.Path, cond *eng.Term) bool { return p.F.Eval(cond) == 1 }

// absLE: |x| <= y is implied.
func absLE(p *eng.Path, x, y *eng.Term) bool {
	return implied(p, eng.Ge(y, x)) && implied(p, eng.Ge(y, eng.Neg(x)))
}

func isTrue(t *eng.Term) bool  { v, ok := t.IsBool(); return ok && v }
func isFalse(t *eng.Term) bool { v, ok := t.IsBool(); return ok && !v }

func trunc(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// lazyCond renders a path's branch decisions only when a report needs them.
type lazyCond struct{ p *eng.Path }

func (c *Ctx) cond(p *eng.Path) lazyCond { return lazyCond{p} }

func (l lazyCond) String() string {
	p := l.p
	var o []string
	for _, l := range p.Log {
		if l.Val {
			o = append(o, l.Cond.String())
		} else {
			o = append(o, "!"+l.Cond.String())
		}
	}
	if os.Getenv("VSA_DEBUG") == "2" {
		return strings.Join(o, " && ")
	}
	return trunc(strings.Join(o, " && "))
}

func init() {
	reg("V01", ruleV01)
	reg("V02", ruleV02)
	reg("V03", ruleV03)
	reg("V04", ruleV04)
	reg("V05", ruleV05)
	reg("V06", ruleV06)
	reg("V07", ruleV07)
	reg("V08", ruleV08)
	reg("V09", ruleV09)
	reg("V10", ruleV10)
	reg("V11", ruleV11)
	reg("V12", ruleV12)
}

// ---- V01: no oversubscription ----

func ruleV01(c *Ctx) {
	r := c.vsa()
	c.rule("exact-reservation", "on every path where a consumption is granted, the net counter is moved exactly once by compare-and-swap from a value old to old+n, the scalar S was read after old, S-|old|>=n is established by the branch conditions, and S is either re-read unchanged after the swap or protected by the mutex from its read to the swap")
	c.rule("net-writers", "the net counter admissions compare against is changed only by code reachable from the update, consumption, refund and commit operations (or the constructors)")
	c.rule("commit-order", "a commit lowers the scalar before it lowers the net counter, so a lock-free reader can only underestimate availability")
	granted := 0
	for _, p := range c.vsaPaths(r.consume) {
		if p.End != "return" || isFalse(p.Ret[0]) {
			continue
		}
		granted++
		n := p.Params[1]
		var adm []delta
		net := eng.Int(0)
		for _, d := range c.deltas(p) {
			if d.kind != "approx" {
				continue
			}
			if d.d == nil {
				c.fail("exact-reservation", fname(r.consume), d.ev.Pos, "the net counter is overwritten on a granting path")
				return
			}
			net = eng.Add(net, d.d)
			if d.ev.Name == "CompareAndSwap" {
				adm = append(adm, d)
			}
		}
		c.ob("exact-reservation", fname(r.consume))
		if eng.Sub(net, n) != eng.Int(0) || len(adm) == 0 {
			c.fail("exact-reservation", fname(r.consume), p.EndPos, "a path grants n units but moves the net counter by %s in %d compare-and-swap steps: %s", net, len(adm), c.cond(p))
			continue
		}
		last := adm[len(adm)-1]
		old := last.ev.Arg(0)
		ok := false
		why := "no read of the scalar between the read of the net counter and the swap establishes S-|net|>=n"
		for _, sv := range p.Events {
			if sv.Kind != "atomic" || sv.Name != "Load" || c.counter(sv.Addr) != "scalar" || sv.Seq >= last.ev.Seq {
				continue
			}
			if old.Ev == nil || old.Ev.Kind != "atomic" || old.Ev.Name != "Load" || c.counter(old.Ev.Addr) != "approx" || old.Ev.Seq > sv.Seq {
				continue
			}
			S := sv.Res[0]
			if !absLE(p, old, eng.Sub(S, n)) {
				continue
			}
			why = "the scalar is neither re-read unchanged after the swap nor protected by the mutex"
			if c.heldThrough(p, old.Ev, last.ev) {
				ok = true
			}
			for _, re := range p.Events[last.ev.Seq+1:] {
				if re.Kind == "atomic" && re.Name == "Load" && c.counter(re.Addr) == "scalar" && implied(p, eng.Eq0(eng.Sub(re.Res[0], S))) {
					ok = true
				}
			}
		}
		if !ok {
			c.fail("exact-reservation", fname(r.consume), last.ev.Pos, "%s: %s", why, c.cond(p))
		}
	}
	c.site("granting paths")
	c.sites["granting paths"] = granted
	if granted == 0 {
		c.fail("exact-reservation", "no-grant", r.consume.Pos(), "no path grants a consumption")
	}
	c.fieldWriters("net-writers", map[*types.Var]bool{r.approx: true}, map[*ssa.Function]bool{r.update: true, r.consume: true, r.refund: true, r.commit: true, r.ctor: true, r.newFn: true})
	for _, p := range c.vsaPaths(r.commit) {
		lowered := false
		for _, d := range c.deltas(p) {
			switch d.kind {
			case "scalar":
				lowered = true
			case "approx", "offset":
				c.check(lowered, "commit-order", fname(r.commit)+"/"+d.kind, d.ev.Pos, "the %s is adjusted before the scalar is lowered: a concurrent admission can see freed units twice", d.kind)
			}
		}
	}
	c.min("commit-order", 2)
}

// ---- V02: representations agree ----

func ruleV02(c *Ctx) {
	r := c.vsa()
	c.rule("net-agreement", "on every path of an operation the change of the net counter equals the change of the striped counters minus the change of the committed offset")
	c.rule("group-agreement", "a change of a stripe is mirrored by the same change of the group sum of that stripe, unless the branch conditions show that readers do not use group sums")
	c.must(len(r.groupCond) > 0, "VSA group condition", "readers do not choose between stripes and group sums on a configuration condition")
	for _, f := range append(c.mutators(), append(c.otherEntries(), c.aggregators()...)...) {
		for _, p := range c.vsaPathsOf(f) {
			if p.End == "cut" && len(c.deltas(p)) == 0 || p.End == "cut" && c.isMutator(f) {
				continue
			}
			ds := c.deltas(p)
			st, ok1 := sum(ds, "stripe")
			gr, ok2 := sum(ds, "group")
			ap, ok3 := sum(ds, "approx")
			of, ok4 := sum(ds, "offset")
			for _, d := range ds {
				if d.kind == "store" {
					ok1 = false
				}
			}
			c.ob("net-agreement", fname(f))
			c.ob("group-agreement", fname(f))
			if !ok1 || !ok2 || !ok3 || !ok4 {
				c.fail("net-agreement", fname(f), p.EndPos, "a counter is overwritten or swapped with an unknown result instead of being moved by a known amount: %s", c.cond(p))
				continue
			}
			if ap != eng.Sub(st, of) {
				c.fail("net-agreement", fname(f), p.EndPos, "a path changes the net counter by %s but the stripes by %s and the committed offset by %s: %s", ap, st, of, c.cond(p))
			}
			unused := true
			for _, g := range r.groupCond {
				if p.F.Eval(g) != -1 {
					unused = false
				}
			}
			if st != gr && !(unused && gr == eng.Int(0)) {
				c.fail("group-agreement", fname(f), p.EndPos, "a path changes the stripes by %s and the group sums by %s while group sums may be in use: %s", st, gr, c.cond(p))
			}
			// each stripe change has its own group change at index stripe/stride
			for _, d := range ds {
				if d.kind != "group" {
					continue
				}
				gi := counterIndex(d.ev.Addr)
				match := false
				for _, s := range ds {
					if s.kind == "stripe" && s.d == d.d && gi.Op == "/" && gi.Args[0] == counterIndex(s.ev.Addr) && c.vsaValue(gi.Args[1]) != nil {
						match = true
					}
				}
				c.check(match, "group-agreement", fname(f)+"/index", d.ev.Pos, "the group sum %s does not belong to the stripe that was changed", d.ev.Addr)
			}
		}
	}
	c.min("net-agreement", 4)
	c.min("group-agreement", 4)
}

func (c *Ctx) isMutator(f *ssa.Function) bool {
	for _, m := range c.mutators() {
		if m == f {
			return true
		}
	}
	return false
}

// vsaPathsOf bounds the endless loop of a background goroutine.
func (c *Ctx) vsaPathsOf(f *ssa.Function) []*eng.Path {
	for _, a := range c.aggregators() {
		if a == f {
			e := c.engine()
			e.MaxIter = 1
			return c.run(e, f, nil, nil, nil)
		}
	}
	return c.vsaPaths(f)
}

// otherEntries are the accumulator's exported methods that are no mutators.
func (c *Ctx) otherEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.Funcs {
		if c.pkgOf(f) != "." || f.Parent() != nil || f.Signature.Recv() == nil || f.Object() == nil || !f.Object().Exported() || c.isMutator(f) {
			continue
		}
		if n, ok := deref(f.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Name() == "VSA" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// fieldWriters reports writes of the given fields reachable from outside the allowed functions.
func (c *Ctx) fieldWriters(rule string, want map[*types.Var]bool, allowed map[*ssa.Function]bool) {
	g := c.graph()
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !want[structField(fa)] {
					continue
				}
				fld := structField(fa)
				for _, ref := range *fa.Referrers() {
					c.site("accesses of " + fld.Name())
					if ci, ok := ref.(ssa.CallInstruction); ok {
						if cal := ci.Common().StaticCallee(); cal != nil && strings.HasPrefix(eng.FuncName(cal), "(*sync/atomic.") && cal.Name() == "Load" {
							continue
						}
					}
					if ld, ok := ref.(*ssa.UnOp); ok && ld.Op == token.MUL {
						continue
					}
					for _, en := range g.threads(f) {
						c.check(allowed[en], rule, fname(f)+" from "+fname(en), ref.Pos(), "%s is changed in %s, which is reachable from %s", fld.Name(), fname(f), fname(en))
					}
				}
			}
		}
	}
}

// ---- V03: a commit preserves availability ----

func ruleV03(c *Ctx) {
	r := c.vsa()
	c.rule("commit-amount", "every path of a commit either changes nothing because the committed vector or the current net is zero, or moves the offset by d with the sign of the net read under the mutex, |d|=min(|committed|,|net|), and lowers the scalar by |d|, all while holding the mutex")
	f := r.commit
	applied, skipped := 0, 0
	for _, p := range c.vsaPaths(f) {
		if p.End != "return" {
			continue
		}
		cv := p.Params[1]
		ds := c.deltas(p)
		c.ob("commit-amount", fname(f))
		var cands []netCandidate
		for _, n := range c.nets(p) {
			if c.holdsMu(n.first) && c.complete(p, n) {
				cands = append(cands, n)
			}
		}
		if len(ds) == 0 {
			ok := implied(p, eng.Eq0(cv))
			for _, n := range cands {
				ok = ok || implied(p, eng.Eq0(n.net))
			}
			if !ok {
				c.fail("commit-amount", fname(f), p.EndPos, "a path skips the commit although neither the committed vector nor the net is known to be zero: %s", c.cond(p))
			}
			skipped++
			continue
		}
		applied++
		d, ok1 := sum(ds, "offset")
		s, ok2 := sum(ds, "scalar")
		ok := false
		why := "no reading of the net under the mutex bounds the committed amount"
		if ok1 && ok2 {
			for _, n := range cands {
				if !c.heldThrough(p, n.first, ds[len(ds)-1].ev) {
					why = "the mutex is not held from the reading of the net to the last adjustment"
					continue
				}
				pos := implied(p, eng.Ge(d, eng.Int(0))) && implied(p, eng.Ge(n.net, d)) && implied(p, eng.Eq0(eng.Add(s, d)))
				neg := implied(p, eng.Ge(eng.Int(0), d)) && implied(p, eng.Ge(d, n.net)) && implied(p, eng.Eq0(eng.Sub(s, d)))
				full := d == n.net || implied(p, eng.Eq0(eng.Sub(d, n.net)))
				asked := implied(p, eng.Eq0(eng.Sub(d, cv))) || implied(p, eng.Eq0(eng.Add(d, cv)))
				// |d| <= |cv|
				notMore := asked || implied(p, eng.Ge(cv, d)) && implied(p, eng.Ge(cv, eng.Neg(d))) || implied(p, eng.Ge(eng.Neg(cv), d)) && implied(p, eng.Ge(eng.Neg(cv), eng.Neg(d)))
				if (pos || neg) && (full || asked) && notMore {
					ok = true
				}
			}
		}
		if !ok {
			c.fail("commit-amount", fname(f), p.EndPos, "offset changes by %s and scalar by %s: %s: %s", d, s, why, c.cond(p))
		}
	}
	c.sites["applying paths"], c.sites["skipping paths"] = applied, skipped
	if applied == 0 {
		c.fail("commit-amount", "never-applies", f.Pos(), "no path of Commit applies anything")
	}
}

// ---- V04: who may write scalar and offset ----

func ruleV04(c *Ctx) {
	r := c.vsa()
	c.rule("scalar-writers", "the scalar and the committed offset are changed only by code reachable from Commit (or the constructors)")
	c.rule("consume-leaves-scalar", "no path of an update, consumption, refund or read operation changes the scalar or the committed offset")
	c.fieldWriters("scalar-writers", map[*types.Var]bool{r.scalar: true, r.offset: true}, map[*ssa.Function]bool{r.commit: true, r.ctor: true, r.newFn: true})
	for _, f := range []*ssa.Function{r.update, r.consume, r.refund, r.available, r.state, r.checkC, r.closeFn} {
		for _, p := range c.vsaPaths(f) {
			c.ob("consume-leaves-scalar", fname(f))
			for _, d := range c.deltas(p) {
				if d.kind == "scalar" || d.kind == "offset" {
					c.fail("consume-leaves-scalar", fname(f), d.ev.Pos, "%s changes the %s", fname(f), d.kind)
				}
			}
		}
	}
	c.min("scalar-writers", 2)
	c.min("consume-leaves-scalar", 7)
}

// ---- V05: refusals change nothing ----

func ruleV05(c *Ctx) {
	r := c.vsa()
	c.rule("refusal-neutral", "on every path where a consumption or refund is refused the counters change by zero in total, and no path grants a non-positive amount; reads change no counter")
	for _, f := range []*ssa.Function{r.consume, r.refund} {
		ref := 0
		for _, p := range c.vsaPaths(f) {
			if p.End != "return" {
				continue
			}
			n := p.Params[1]
			c.ob("refusal-neutral", fname(f))
			if !isFalse(p.Ret[0]) {
				if !isTrue(p.Ret[0]) || !implied(p, eng.Ge(n, eng.Int(1))) {
					c.fail("refusal-neutral", fname(f), p.EndPos, "a path may grant a non-positive amount: %s", c.cond(p))
				}
				continue
			}
			ref++
			ds := c.deltas(p)
			for _, ev := range p.Events {
				if ev.Kind == "atomic" && ev.Name != "Load" && c.counter(ev.Addr) == "" && c.readInConsume(c.vsaField(ev.Addr)) {
					c.fail("refusal-neutral", fname(f)+"/gate", ev.Pos, "a refusing path changes %s, which decides later admissions", ev.Addr)
				}
			}
			for _, k := range []string{"stripe", "group", "approx", "offset", "scalar"} {
				if t, ok := sum(ds, k); !ok || t != eng.Int(0) {
					c.fail("refusal-neutral", fname(f), p.EndPos, "a refusing path leaves the %s changed: %s", k, c.cond(p))
				}
			}
		}
		if ref == 0 {
			c.fail("refusal-neutral", fname(f)+"/never", f.Pos(), "no path refuses")
		}
	}
	for _, f := range []*ssa.Function{r.available, r.state, r.checkC, r.closeFn} {
		c.ob("refusal-neutral", fname(f))
		for _, p := range c.vsaPaths(f) {
			for _, d := range c.deltas(p) {
				c.fail("refusal-neutral", fname(f), d.ev.Pos, "a read operation changes the %s", d.kind)
			}
		}
	}
	c.min("refusal-neutral", 6)
}

// ---- V06: refunds are clamped ----

func ruleV06(c *Ctx) {
	r := c.vsa()
	c.rule("refund-amount", "a granted refund takes m with 1<=m<=net and m=min(n,net) off one stripe, net being read under the mutex that is held to the last change; a refused one has n<=0 or net<=0")
	f := r.refund
	grant := 0
	for _, p := range c.vsaPaths(f) {
		if p.End != "return" {
			continue
		}
		n := p.Params[1]
		c.ob("refund-amount", fname(f))
		var cands []netCandidate
		for _, x := range c.nets(p) {
			if c.holdsMu(x.first) && c.complete(p, x) {
				cands = append(cands, x)
			}
		}
		if isFalse(p.Ret[0]) {
			ok := implied(p, eng.Ge(eng.Int(0), n))
			for _, x := range cands {
				ok = ok || implied(p, eng.Ge(eng.Int(0), x.net))
			}
			if !ok {
				c.fail("refund-amount", fname(f), p.EndPos, "a refund is refused although n>0 and the net is not known to be <=0: %s", c.cond(p))
			}
			continue
		}
		grant++
		ds := c.deltas(p)
		st, ok1 := sum(ds, "stripe")
		ok := false
		if ok1 {
			m := eng.Neg(st)
			for _, x := range cands {
				if len(ds) > 0 && !c.heldThrough(p, x.first, ds[len(ds)-1].ev) {
					continue
				}
				isMin := implied(p, eng.Eq0(eng.Sub(m, n))) || implied(p, eng.Eq0(eng.Sub(m, x.net)))
				if implied(p, eng.Ge(m, eng.Int(1))) && implied(p, eng.Ge(x.net, m)) && implied(p, eng.Ge(n, m)) && isMin {
					ok = true
				}
			}
		}
		if !ok {
			c.fail("refund-amount", fname(f), p.EndPos, "a refund changes the stripes by %s, which the branch conditions do not bound by the request and by the positive net read under the mutex: %s", st, c.cond(p))
		}
	}
	c.sites["granting paths"] = grant
	if grant == 0 {
		c.fail("refund-amount", "never", f.Pos(), "no path refunds")
	}
}

// ---- V07: lock discipline ----

func ruleV07(c *Ctx) {
	r := c.vsa()
	c.rule("mutex-released", "no path of a public operation ends with the mutex held or releases a mutex it does not hold")
	c.rule("guarded-field", "plain (non-atomic) fields that are written after construction are read and written only while the mutex is held")
	c.rule("update-lock-free", "no path of Update acquires a lock or blocks")
	g := c.graph()
	ctorOnly := func(f *ssa.Function) bool {
		for _, en := range g.entries(f) {
			if en != r.ctor && en != r.newFn {
				return false
			}
		}
		return true
	}
	mutable := map[*types.Var]bool{}
	for _, f := range c.Funcs {
		if ctorOnly(f) && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				for _, v := range c.fields(".", "VSA") {
					if s.Field(fa.Field) == v && f != r.ctor {
						mutable[v] = true
					}
				}
			}
		}
	}
	ops := append(c.mutators(), r.available, r.state, r.checkC, r.closeFn)
	for _, f := range c.Funcs {
		if c.pkgOf(f) == "." && f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() != nil {
			dup := false
			for _, o := range ops {
				dup = dup || o == f
			}
			if !dup {
				ops = append(ops, f)
			}
		}
	}
	// background goroutines the constructor starts
	for _, b := range r.ctor.Blocks {
		for _, in := range b.Instrs {
			if gi, ok := in.(*ssa.Go); ok {
				if cal := gi.Common().StaticCallee(); cal != nil {
					ops = append(ops, cal)
				}
			}
		}
	}
	for _, f := range ops {
		e := c.engine()
		e.MaxPaths = 200000
		e.TraceLoads = true
		e.MaxIter = 1
		for _, p := range c.run(e, f, nil, nil, nil) {
			c.ob("mutex-released", fname(f))
			if p.End == "return" && len(p.Held) > 0 {
				c.fail("mutex-released", fname(f), p.EndPos, "the path returns with %v held: %s", p.Held, c.cond(p))
			}
			for _, ev := range p.Events {
				switch ev.Kind {
				case "unlock":
					if ev.Mode == "unheld" {
						c.fail("mutex-released", fname(f), ev.Pos, "a mutex is released that is not held")
					}
				case "load", "store":
					fld := c.vsaField(ev.Addr)
					if fld == nil || !mutable[fld] {
						continue
					}
					c.site("guarded accesses")
					c.check(c.holdsMu(ev), "guarded-field", fname(f)+"."+fld.Name(), ev.Pos, "field %s is accessed without the mutex", fld.Name())
				}
				if f == r.update {
					c.ob("update-lock-free", fname(f))
					switch ev.Kind {
					case "lock", "rlock", "trylock", "send", "recv", "select", "once":
						c.fail("update-lock-free", fname(f), ev.Pos, "Update performs a %s", ev.Kind)
					case "call":
						switch {
						case ev.Name == "time.Sleep" || strings.HasPrefix(ev.Name, "(*sync.WaitGroup)") || strings.HasPrefix(ev.Name, "(*sync.Cond)"):
							c.fail("update-lock-free", fname(f), ev.Pos, "Update calls %s", ev.Name)
						}
					}
				}
			}
			// procPin must be undone
			pins := 0
			for _, ev := range p.Events {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, "procPin") {
					pins++
				}
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, "procUnpin") {
					pins--
				}
			}
			if pins != 0 && p.End == "return" {
				c.fail("mutex-released", fname(f)+"/pin", p.EndPos, "the goroutine stays pinned to its processor")
			}
		}
	}
	c.min("mutex-released", 8)
	c.min("guarded-field", 2)
	c.min("update-lock-free", 1)
}

var ctorCache = map[*Prog][]*eng.Path{}

func (c *Ctx) ctorPaths() []*eng.Path {
	if ps, ok := ctorCache[c.Prog]; ok {
		return ps
	}
	e := c.engine()
	e.MaxPaths = 200000
	ps := c.run(e, c.mustFn(".", "NewWithOptions"), nil, nil, nil)
	ctorCache[c.Prog] = ps
	return ps
}

// opt is the value of an exported construction option on a constructor path.
func (c *Ctx) opt(p *eng.Path, name string) *eng.Term {
	t := eng.FieldNamed(p.Params[1], name)
	c.must(t != nil, "Options."+name, "the construction option does not exist")
	return t
}

// ---- V08: layout and index bounds ----

func ruleV08(c *Ctx) {
	r := c.vsa()
	c.rule("layout", "every constructor path makes the stripes, sets the index mask to len(stripes)-1, stores the initial scalar and, when group sums are configured, makes as many group sums as recorded with a stride of at least max(1,ceil(stripes/groups)); the layout fields are never assigned afterwards")
	c.rule("divisor-non-zero", "every integer division or remainder of an operation has a divisor that the branch conditions before it, together with the constructor's layout, keep away from zero")
	c.rule("index-in-range", "every access to a stripe or group sum uses an index that is masked with the layout mask, divided by the stride, or bounded by the loop condition")
	var mask, stride *types.Var
	n := 0
	for _, p := range c.ctorPaths() {
		if p.End != "return" {
			continue
		}
		n++
		vals := c.ctorFields(p)
		st := vals[r.stripes]
		if !c.check(st != nil && st.Op == "mkslice", "layout", "stripes", r.ctor.Pos(), "the stripes are not allocated: %s", c.cond(p)) {
			return
		}
		S := st.Args[0]
		if mask == nil {
			for f, v := range vals {
				if v == eng.Sub(S, eng.Int(1)) && isBasicInt(f.Type()) {
					mask = f
				}
			}
		}
		if !c.check(mask != nil && vals[mask] == eng.Sub(S, eng.Int(1)), "layout", "mask", r.ctor.Pos(), "no index mask equals len(stripes)-1: %s", c.cond(p)) {
			return
		}
		stored := false
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Store" && c.counter(ev.Addr) == "scalar" {
				stored = ev.Arg(0) == p.Params[0]
			}
			if ev.Kind == "atomic" && ev.Name != "Load" {
				if k := c.counter(ev.Addr); k != "" && k != "scalar" {
					c.fail("layout", "initial-"+k, ev.Pos, "the constructor changes the %s", k)
				}
			}
		}
		c.check(stored, "layout", "scalar", r.ctor.Pos(), "a constructor path does not store the initial scalar: %s", c.cond(p))
		g := vals[r.groups]
		hg := c.groupCountFields()
		c.must(len(hg) > 0, "VSA group count", "no field records the number of group sums")
		if g.Op == "nil" {
			ok := false
			for _, f := range hg {
				ok = ok || vals[f] == eng.Int(0)
			}
			c.check(ok, "layout", "no-groups", r.ctor.Pos(), "group sums are absent but their number is recorded as non-zero: %s", c.cond(p))
			continue
		}
		if !c.check(g.Op == "mkslice", "layout", "groups", r.ctor.Pos(), "the group sums are not allocated") {
			return
		}
		h := g.Args[0]
		isStride := func(v *eng.Term) bool {
			if v == nil {
				return false
			}
			if si, ok1 := S.IsInt(); ok1 {
				if hi, ok2 := h.IsInt(); ok2 && hi > 0 {
					k, ok3 := v.IsInt()
					return ok3 && k == (si+hi-1)/hi
				}
			}
			if v.Op == "/" && v.Args[1] == h && eng.Sub(v.Args[0], S) == eng.Sub(h, eng.Int(1)) {
				return true
			}
			if w := eng.Sub(v, eng.Int(1)); w.Op == "/" && w.Args[1] == h && w.Args[0] == eng.Sub(S, eng.Int(1)) {
				return true
			}
			return false
		}
		if fs := c.strideFields(); stride == nil && len(fs) > 0 {
			stride = fs[0]
		}
		if !c.check(stride != nil, "layout", "stride", r.ctor.Pos(), "the group stride is not ceil(stripes/groups): a stripe index divided by it can exceed the group sums") {
			return
		}
		v := vals[stride]
		ok := isStride(v) && (implied(p, eng.Ge(v, eng.Int(1))) || implied(p, eng.Ge(S, eng.Int(1))) && implied(p, eng.Ge(h, eng.Int(1))))
		if k, isInt := v.IsInt(); isInt && k >= 1 {
			// max(1, ceil(..)) resolved to its lower bound
			for _, l := range p.Log {
				l.Cond.Walk(func(t *eng.Term) bool {
					if isStride(t) && implied(p, eng.Ge(v, t)) {
						ok = true
					}
					return true
				})
			}
		}
		c.check(ok, "layout", "stride>=1", r.ctor.Pos(), "the group stride %s is not at least max(1,ceil(stripes/groups)): %s", v, c.cond(p))
		c.check(implied(p, eng.Ge(h, eng.Int(1))), "layout", "groups>=1", r.ctor.Pos(), "the number of group sums may be zero: %s", c.cond(p))
	}
	c.sites["constructor paths"] = n
	c.must(stride != nil && mask != nil, "VSA layout", "mask or stride not established")
	// layout fields are assigned by the constructor only
	layout := map[*types.Var]bool{mask: true, stride: true, r.stripes: true, r.groups: true}
	for _, f := range c.groupCountFields() {
		layout[f] = true
	}
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fld := structField(fa)
				if !layout[fld] {
					continue
				}
				c.site("layout field accesses")
				for _, ref := range *fa.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == fa {
						for _, en := range c.graph().entries(f) {
							c.check(en == r.ctor || en == r.newFn, "layout", "assign "+fld.Name()+" in "+fname(f), st.Pos(), "layout field %s is reassigned outside the constructor", fld.Name())
						}
					}
				}
			}
		}
	}
	fs := append(c.mutators(), r.available, r.state, r.checkC)
	fs = append(fs, c.aggregators()...)
	divs := map[*ssa.Function][]*eng.Path{}
	for _, f := range fs {
		divs[f] = c.vsaPaths(f)
		for _, p := range divs[f] {
			for _, ev := range p.Events {
				if ev.Kind != "atomic" {
					continue
				}
				k := c.counter(ev.Addr)
				if k != "stripe" && k != "group" {
					continue
				}
				i := counterIndex(ev.Addr)
				slice := r.stripes
				if k == "group" {
					slice = r.groups
				}
				masked := func(t *eng.Term) bool {
					return t.Op == "&" && (c.vsaValue(t.Args[0]) == mask || c.vsaValue(t.Args[1]) == mask)
				}
				ok := k == "stripe" && masked(i)
				if k == "group" && i.Op == "/" && masked(i.Args[0]) && c.vsaValue(i.Args[1]) == stride {
					// only meaningful when groups exist
					for _, g := range r.groupCond {
						ok = ok || factsAt(p, ev, g)
					}
				}
				base := ev.Addr
				if base.Op == "fa" {
					base = base.Args[0]
				}
				ln := eng.App("len", types.Typ[types.Int], base.Args[0])
				if implied(p, eng.Ge(ln, eng.Add(i, eng.Int(1)))) {
					ok = true
				}
				if k == "group" {
					for _, hf := range c.groupCountFields() {
						owner := base.Args[0].Args[0]
						if implied(p, eng.Ge(eng.FieldOf(owner, hf), eng.Add(i, eng.Int(1)))) {
							ok = true
						}
					}
				}
				_ = slice
				c.check(ok, "index-in-range", fname(f)+"/"+k+"/"+ev.Name, ev.Pos, "index %s of a %s is not shown to be in range: %s", i, k, c.cond(p))
			}
		}
	}
	c.min("index-in-range", 8)
	c.min("layout", 6)
	c.divisions(fs, divs)
}

// divisions: every integer division or remainder of an operation has a divisor that the branch
// conditions before it and the constructor's layout keep away from zero.
func (c *Ctx) divisions(fs []*ssa.Function, paths map[*ssa.Function][]*eng.Path) {
	r := c.roles
	isLen := func(t *eng.Term) bool { return t.Op == "len" && c.vsaValue(t.Args[0]) == r.stripes }
	var ctors []*eng.Path
	for _, p := range c.ctorPaths() {
		if p.End == "return" {
			ctors = append(ctors, p)
		}
	}
	// positive: in every constructor outcome that agrees with what is known at the division,
	// the layout field holds at least 1
	ctorVals := make([]map[*types.Var]*eng.Term, len(ctors))
	for i, p := range ctors {
		ctorVals[i] = c.ctorFields(p)
	}
	posMemo := map[string]bool{}
	var decide func(f *types.Var, known []eng.FactEntry) bool
	positive := func(f *types.Var, log []eng.FactEntry) bool {
		// only decisions about the configuration say which constructor outcome this is
		var known []eng.FactEntry
		key := f.Name()
		for _, k := range log {
			cfg := false
			k.Cond.Walk(func(t *eng.Term) bool {
				if v := c.vsaValue(t); v != nil {
					cfg = true
					return false
				}
				return true
			})
			if cfg {
				known = append(known, k)
				key += fmt.Sprint("|", k.Cond.ID, k.Val)
			}
		}
		r, ok := posMemo[key]
		if !ok {
			r = decide(f, known)
			posMemo[key] = r
		}
		return r
	}
	decide = func(f *types.Var, known []eng.FactEntry) bool {
		for i, p := range ctors {
			vals := ctorVals[i]
			conflict := false
			for _, k := range known {
				cond := eng.Subst(k.Cond, func(t *eng.Term) *eng.Term {
					if isLen(t) {
						if s := vals[r.stripes]; s != nil && s.Op == "mkslice" {
							return s.Args[0]
						}
					}
					if v := c.vsaValue(t); v != nil && vals[v] != nil {
						return vals[v]
					}
					return nil
				})
				if v := p.F.Eval(cond); v == 1 && !k.Val || v == -1 && k.Val {
					conflict = true
				}
			}
			if !conflict && (vals[f] == nil || p.F.Eval(eng.Ge(vals[f], eng.Int(1))) != 1) {
				return false
			}
		}
		return len(ctors) > 0
	}
	for _, f := range fs {
		for _, p := range paths[f] {
			for _, ev := range p.Events {
				if ev.Kind != "div" {
					continue
				}
				y := ev.Arg(1)
				if n, ok := y.IsInt(); ok && n != 0 {
					continue
				}
				c.ob("divisor-non-zero", fname(f))
				known := p.Log[:min(ev.NFacts, len(p.Log))]
				fx := eng.NewFacts()
				for _, k := range known {
					fx.Assume(k.Cond, k.Val)
				}
				fields := map[*types.Var]bool{}
				look := func(t *eng.Term) bool {
					if v := c.vsaValue(t); v != nil && isBasicInt(v.Type()) && !fields[v] {
						fields[v] = true
						if positive(v, known) {
							fx.Assume(eng.Ge(t, eng.Int(1)), true)
						}
					}
					if isLen(t) {
						fx.Assume(eng.Ge(t, eng.Int(1)), true)
					}
					return true
				}
				y.Walk(look)
				y.Walk(func(t *eng.Term) bool {
					// a remainder is smaller than its positive divisor
					if t.Op == "%" && fx.Eval(eng.Ge(t.Args[1], eng.Int(1))) == 1 {
						fx.Assume(eng.Gt(t.Args[1], t), true)
					}
					return true
				})
				ok := fx.Eval(eng.Ge(y, eng.Int(1))) == 1 || fx.Eval(eng.Eq0(y)) == -1
				c.check(ok, "divisor-non-zero", fname(f), ev.Pos, "the divisor %s may be zero: %s", y, c.cond(p))
			}
		}
	}
}

func factsAt(p *eng.Path, ev *eng.Event, cond *eng.Term) bool { return p.F.Eval(cond) == 1 }

func isBasicInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func structField(fa *ssa.FieldAddr) *types.Var {
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// strideFields are the fields stripe indices are divided by to find a group sum.
func (c *Ctx) strideFields() []*types.Var {
	var out []*types.Var
	for _, p := range c.vsaPaths(c.roles.update) {
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && c.counter(ev.Addr) == "group" {
				if i := counterIndex(ev.Addr); i.Op == "/" {
					if f := c.vsaValue(i.Args[1]); f != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

// aggregators are the methods of the accumulator the constructor starts as goroutines.
func (c *Ctx) aggregators() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, p := range c.ctorPaths() {
		for _, ev := range p.Events {
			if ev.Kind == "go" {
				f := ev.Fn
				if f == nil && ev.Recv != nil {
					f = ev.Recv.Fn
				}
				if f != nil && !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// ---- V09: what the reads return ----

func ruleV09(c *Ctx) {
	r := c.vsa()
	c.rule("full-sum", "every reading of the net sums each stripe (or each group sum) exactly once, from index 0 to the end, and takes the committed offset off")
	c.rule("available", "Available returns S-|net| for one reading of the scalar and one complete reading of the net")
	c.rule("state", "State returns the scalar and a complete reading of the net")
	c.rule("check-commit", "CheckCommit returns true with the net exactly when |net| reaches the threshold")
	scal := func(p *eng.Path) []*eng.Term {
		var o []*eng.Term
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Load" && c.counter(ev.Addr) == "scalar" {
				o = append(o, ev.Res[0])
			}
		}
		return o
	}
	for _, f := range []*ssa.Function{r.available, r.state, r.checkC, r.commit, r.refund} {
		for _, p := range c.vsaPaths(f) {
			if p.End != "return" {
				continue
			}
			ns := c.nets(p)
			var full []netCandidate
			for _, n := range ns {
				if c.complete(p, n) {
					full = append(full, n)
				}
			}
			if len(ns) > 0 {
				c.check(len(full) > 0, "full-sum", fname(f), p.EndPos, "a path computes the net from %d cells that are not shown to be all of them: %s", ns[0].n, c.cond(p))
			}
			ok := false
			switch f {
			case r.available:
				for _, n := range full {
					for _, s := range scal(p) {
						ok = ok || p.Ret[0] == eng.Sub(s, n.net) && implied(p, eng.Ge(n.net, eng.Int(0)))
						ok = ok || p.Ret[0] == eng.Add(s, n.net) && implied(p, eng.Ge(eng.Int(0), n.net))
					}
				}
				c.check(ok, "available", fname(f), p.EndPos, "returns %s, which is not S-|net|: %s", p.Ret[0], c.cond(p))
			case r.state:
				for _, n := range full {
					for _, s := range scal(p) {
						ok = ok || p.Ret[0] == s && p.Ret[1] == n.net
					}
				}
				c.check(ok, "state", fname(f), p.EndPos, "returns (%s, %s)", p.Ret[0], p.Ret[1])
			case r.checkC:
				th := p.Params[1]
				for _, n := range full {
					for _, s := range []int64{1, -1} {
						m := eng.Scale(n.net, s)
						if !implied(p, eng.Ge(m, eng.Int(0))) {
							continue
						}
						if isTrue(p.Ret[0]) && p.Ret[1] == n.net && implied(p, eng.Ge(m, th)) {
							ok = true
						}
						if isFalse(p.Ret[0]) && implied(p, eng.Gt(th, m)) {
							ok = true
						}
					}
				}
				c.check(ok, "check-commit", fname(f), p.EndPos, "returns (%s, %s): %s", p.Ret[0], p.Ret[1], c.cond(p))
			}
		}
	}
	c.min("full-sum", 5)
	c.min("available", 1)
	c.min("state", 1)
	c.min("check-commit", 1)
}

// ---- V10: background aggregator ----

func ruleV10(c *Ctx) {
	r := c.vsa()
	c.rule("aggregator-start", "the constructor starts the background refresher exactly when the cached gate is enabled, after making its stop channel, with a positive refresh interval")
	c.rule("aggregator-stop", "every wait of the refresher also waits for the stop channel, receiving from it ends the refresher, and its ticker is stopped on every exit")
	c.rule("aggregator-value", "the refresher publishes a complete reading of the net")
	c.rule("gate-writers", "the cached net the gate reads is written only by the refresher (or the constructors)")
	c.rule("close-once", "the stop channel is closed only by Close, at most once over all calls, and always when the refresher may be running")
	ags := c.aggregators()
	c.must(len(ags) == 1, "VSA refresher", "the constructor does not start exactly one kind of background goroutine")
	ag := ags[0]
	// fields the ticker interval and the stop channel come from
	var interval []*types.Var
	var stop *types.Var
	for _, f := range c.fields(".", "VSA") {
		if _, ok := f.Type().Underlying().(*types.Chan); ok {
			stop = f
		}
	}
	c.must(stop != nil, "VSA stop channel", "no channel field")
	e := c.engine()
	e.MaxIter = 1
	for _, p := range c.run(e, ag, nil, nil, nil) {
		tickers, stopped := 0, 0
		stopSeen := false
		if dead := deadTick(p); dead != nil {
			c.fail("aggregator-stop", fname(ag)+"/halted", dead.Pos, "the refresher waits for a ticker that has been stopped: the cached net is never refreshed again")
		}
		for _, ev := range p.Events {
			switch ev.Kind {
			case "call":
				switch ev.Name {
				case "time.NewTicker":
					tickers++
					c.check(ev.Arg(0) != nil && c.vsaValue(ev.Arg(0)) != nil, "aggregator-start", "ticker interval", ev.Pos, "the refresh interval %s is not a configured field", ev.Arg(0))
					interval = append(interval, c.vsaValue(ev.Arg(0)))
				case "(*time.Ticker).Stop":
					stopped++
				case "time.Sleep":
					c.fail("aggregator-stop", fname(ag), ev.Pos, "the refresher sleeps without watching the stop channel")
				}
			case "select":
				has := false
				for _, ch := range ev.Args {
					if c.vsaValue(ch) == stop {
						has = true
					}
				}
				c.check(has, "aggregator-stop", fname(ag), ev.Pos, "a wait does not include the stop channel")
				if stopSeen {
					c.fail("aggregator-stop", fname(ag)+"/after-stop", ev.Pos, "the refresher waits again after it was told to stop")
				}
			case "recv":
				if ev.Mode != "select" {
					c.check(c.vsaValue(ev.Addr) == stop, "aggregator-stop", fname(ag), ev.Pos, "a blocking receive does not watch the stop channel")
				}
				if c.vsaValue(ev.Addr) == stop {
					stopSeen = true
				}
			case "lock", "rlock":
				c.fail("aggregator-value", fname(ag)+"/lock", ev.Pos, "the refresher takes a lock")
			}
		}
		if stopSeen {
			c.check(p.End == "return", "aggregator-stop", fname(ag)+"/exit", p.EndPos, "the refresher does not return after the stop signal")
		}
		if p.End == "return" {
			c.check(stopSeen, "aggregator-stop", fname(ag)+"/early", p.EndPos, "the refresher can end although it was not told to stop: %s", c.cond(p))
			c.check(stopped >= tickers, "aggregator-stop", fname(ag)+"/ticker", p.EndPos, "the ticker is not stopped")
		}
		// published value
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Store" && ev.Addr.Op == "fa" {
				f := c.vsaField(ev.Addr)
				if f == nil || f == r.scalar || f == r.offset || f == r.approx {
					c.fail("aggregator-value", fname(ag), ev.Pos, "the refresher overwrites %s", ev.Addr)
					continue
				}
				if !c.readInConsume(f) {
					continue
				}
				ok := false
				for _, n := range c.nets(p) {
					ok = ok || n.net == ev.Arg(0) && c.complete(p, n)
				}
				c.check(ok, "aggregator-value", fname(ag)+"."+f.Name(), ev.Pos, "the published value %s is not a complete reading of the net: %s", ev.Arg(0), c.cond(p))
			}
		}
	}
	// nobody else writes what the gate reads
	gate := map[*types.Var]bool{}
	for _, f := range c.fields(".", "VSA") {
		if f != r.scalar && f != r.offset && f != r.approx && c.readInConsume(f) {
			gate[f] = true
		}
	}
	c.fieldWriters("gate-writers", gate, map[*ssa.Function]bool{ag: true, r.ctor: true, r.newFn: true})
	for _, p := range c.ctorPaths() {
		if p.End != "return" {
			continue
		}
		en := c.opt(p, "UseCachedGate")
		var started *eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "go" {
				started = ev
			}
		}
		vals := c.ctorFields(p)
		if started == nil {
			c.check(p.F.Eval(en) == -1, "aggregator-start", "disabled", p.EndPos, "the cached gate is enabled but its refresher is not started: %s", c.cond(p))
			continue
		}
		c.check(p.F.Eval(en) == 1, "aggregator-start", "enabled", started.Pos, "the refresher is started although the cached gate is off")
		c.check(vals[stop].Op == "mkchan", "aggregator-start", "stop channel", started.Pos, "the refresher is started without a stop channel")
		for _, ev := range p.Events {
			if ev.Kind == "lstore" && c.vsaField(ev.Addr) == stop && ev.Seq > started.Seq {
				c.fail("aggregator-start", "stop channel", ev.Pos, "the stop channel is made after the refresher was started")
			}
		}
		for _, f := range interval {
			if f == nil {
				continue
			}
			v := vals[f]
			c.check(implied(p, eng.Ge(v, eng.Int(1))), "aggregator-start", "interval>0", started.Pos, "the refresh interval %s may be zero or negative, which panics the refresher: %s", v, c.cond(p))
			ci := c.opt(p, "CacheInterval")
			if implied(p, eng.Ge(ci, eng.Int(1))) {
				c.check(v == ci, "aggregator-start", "interval=option", started.Pos, "a positive CacheInterval is not used")
			}
		}
	}
	// closing
	g := c.graph()
	closers := 0
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || structField(fa) != stop {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if ld, ok := ref.(*ssa.UnOp); ok {
						for _, u := range *ld.Referrers() {
							if call, ok := u.(ssa.CallInstruction); ok {
								if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
									closers++
									for _, en := range g.entries(f) {
										c.check(en == r.closeFn, "close-once", "closed from "+fname(en), u.Pos(), "the stop channel is closed from %s", fname(en))
									}
								}
							}
						}
					}
					if st, ok := ref.(*ssa.Store); ok && st.Addr == fa {
						for _, en := range g.entries(f) {
							c.check(en == r.ctor || en == r.newFn, "close-once", "assigned in "+fname(f), st.Pos(), "the stop channel is replaced outside the constructor")
						}
					}
				}
			}
		}
	}
	for _, p := range c.vsaPaths(r.closeFn) {
		if p.End != "return" {
			continue
		}
		var cl []*eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "close" {
				cl = append(cl, ev)
			}
		}
		done := 0
		once := 0
		for _, l := range p.Log {
			if l.Cond.Op == "oncedone" {
				once++
				if l.Val {
					done = 1
				}
			}
		}
		nilCh := false
		for _, l := range p.Log {
			if l.Cond.Op == "eq" && l.Val && (c.vsaValue(l.Cond.Args[0]) == stop && l.Cond.Args[1] == eng.Nil || c.vsaValue(l.Cond.Args[1]) == stop && l.Cond.Args[0] == eng.Nil) {
				nilCh = true
			}
		}
		swapped := c.wonSwap(p)
		for _, ev := range p.Events {
			c.gateOpens("close-once", fname(r.closeFn), ev)
		}
		first := once > 0 && done == 0 || swapped == 1
		c.ob("close-once", fname(r.closeFn))
		switch {
		case len(cl) > 1:
			c.fail("close-once", fname(r.closeFn), cl[1].Pos, "Close closes the channel twice")
		case len(cl) == 1 && !first:
			c.fail("close-once", fname(r.closeFn), cl[0].Pos, "Close closes the channel without a once-guard: a second Close panics")
		case len(cl) == 1 && nilCh:
			c.fail("close-once", fname(r.closeFn), cl[0].Pos, "Close closes a nil channel")
		case len(cl) == 1:
			notNil := false
			for _, l := range p.Log {
				if l.Cond.Op == "eq" && !l.Val && l.Cond.Contains(cl[0].Addr) {
					notNil = true
				}
			}
			c.check(notNil, "close-once", fname(r.closeFn)+"/nil", cl[0].Pos, "Close closes the channel without checking that there is one: closing a nil channel panics")
		case len(cl) == 0 && first && !nilCh:
			c.fail("close-once", fname(r.closeFn), p.EndPos, "the first Close does not close the stop channel: the refresher leaks: %s", c.cond(p))
		case len(cl) == 0 && once == 0 && swapped == 0 && !nilCh:
			c.fail("close-once", fname(r.closeFn), p.EndPos, "Close may return without closing the stop channel: %s", c.cond(p))
		}
	}
	c.min("close-once", 3)
	c.min("aggregator-start", 4)
	c.min("aggregator-value", 1)
	c.min("aggregator-stop", 3)
}

// wonSwap: 1 when the path won a compare-and-swap, -1 when it lost one, 0 without any.
func (c *Ctx) wonSwap(p *eng.Path) int {
	for _, ev := range p.Events {
		if ev.Kind == "atomic" && ev.Name == "CompareAndSwap" {
			if p.F.Eval(ev.Res[0]) == 1 {
				return 1
			}
			return -1
		}
	}
	return 0
}

var ricCache = map[*Prog]map[*types.Var]bool{}

// readInConsume: TryConsume reads the atomic field.
func (c *Ctx) readInConsume(f *types.Var) bool {
	m := ricCache[c.Prog]
	if m == nil {
		m = map[*types.Var]bool{}
		for _, p := range c.vsaPathsCached(c.roles.consume) {
			for _, ev := range p.Events {
				if ev.Kind == "atomic" && ev.Name == "Load" && c.vsaField(ev.Addr) != nil {
					m[c.vsaField(ev.Addr)] = true
				}
			}
		}
		ricCache[c.Prog] = m
	}
	return m[f]
}

func (c *Ctx) vsaPathsCached(f *ssa.Function) []*eng.Path {
	if p, ok := pathCache[f]; ok {
		return p
	}
	p := c.vsaPaths(f)
	pathCache[f] = p
	return p
}

var pathCache = map[*ssa.Function][]*eng.Path{}

// ---- V11: configured safety margins ----

type vsaConf struct {
	guard, cached, slack, cachedNet *types.Var
}

func (c *Ctx) conf() vsaConf {
	r := c.vsa()
	var v vsaConf
	for _, p := range c.ctorPaths() {
		if p.End != "return" {
			continue
		}
		vals := c.ctorFields(p)
		g, cg, sl := c.opt(p, "FastPathGuard"), c.opt(p, "UseCachedGate"), c.opt(p, "CacheSlack")
		for f, t := range vals {
			switch {
			case t == g:
				v.guard = f
			case t == cg:
				v.cached = f
			case t == sl:
				v.slack = f
			}
		}
	}
	c.must(v.guard != nil, "VSA guard", "FastPathGuard is not kept")
	c.must(v.cached != nil, "VSA cached gate", "UseCachedGate is not kept")
	c.must(v.slack != nil, "VSA slack", "CacheSlack is not kept")
	// the cached net: the atomic the refresher publishes and TryConsume reads
	for _, ag := range c.aggregators() {
		e := c.engine()
		e.MaxIter = 1
		for _, p := range c.run(e, ag, nil, nil, nil) {
			for _, ev := range p.Events {
				if ev.Kind == "atomic" && ev.Name == "Store" {
					if f := c.vsaField(ev.Addr); f != nil && c.readInConsume(f) {
						v.cachedNet = f
					}
				}
			}
		}
	}
	c.must(v.cachedNet != nil, "VSA cached net", "no published net is read by TryConsume")
	_ = r
	return v
}

func ruleV11(c *Ctx) {
	r := c.vsa()
	cf := c.conf()
	c.rule("margin-kept", "the constructor keeps a positive fast-path guard as given (and none otherwise), the cached-gate switch, and a slack that is the sum of the configured cache slack and group slack")
	c.rule("fast-path-margin", "a consumption granted without the mutex has the guard configured and leaves at least the guard available")
	c.rule("cached-slack", "with the cached gate enabled, a consumption granted under the mutex fits the cached availability minus the slack")
	for _, p := range c.ctorPaths() {
		if p.End != "return" {
			continue
		}
		vals := c.ctorFields(p)
		g, cg, sl := c.opt(p, "FastPathGuard"), c.opt(p, "UseCachedGate"), c.opt(p, "CacheSlack")
		gc, gs := c.opt(p, "GroupCount"), c.opt(p, "GroupSlack")
		gv := vals[cf.guard]
		c.check(gv == g && implied(p, eng.Ge(g, eng.Int(1))) || gv == eng.Int(0) && implied(p, eng.Ge(eng.Int(0), g)) || gv == g && p.F.Eval(eng.Ge(g, eng.Int(1))) == 0,
			"margin-kept", "guard", r.ctor.Pos(), "the fast-path guard becomes %s: %s", gv, c.cond(p))
		c.check(vals[cf.cached] == cg || p.F.Eval(eng.Eq(vals[cf.cached], cg, types.Typ[types.Bool])) == 1 || vals[cf.cached] == eng.Bool(p.F.Eval(cg) == 1), "margin-kept", "cached-gate", r.ctor.Pos(), "the cached gate switch becomes %s", vals[cf.cached])
		want := eng.Int(0)
		if p.F.Eval(cg) == 1 {
			want = eng.Add(want, sl)
		}
		if implied(p, eng.Ge(gc, eng.Int(2))) {
			want = eng.Add(want, gs)
		}
		got := vals[cf.slack]
		// with the gate off the cache slack is not used, so keeping it is fine
		c.check(got == want || p.F.Eval(cg) == -1 && got == eng.Add(want, sl) || implied(p, eng.Ge(got, want)) && got != nil && got.Op != "sym" && implied(p, eng.Ge(want, got)), "margin-kept", "slack", r.ctor.Pos(), "the slack becomes %s instead of %s: %s", got, want, c.cond(p))
	}
	fast, cachedN := 0, 0
	for _, p := range c.vsaPathsCached(r.consume) {
		if p.End != "return" || isFalse(p.Ret[0]) {
			continue
		}
		n := p.Params[1]
		v := p.Params[0]
		var last *eng.Event
		for _, d := range c.deltas(p) {
			if d.kind == "approx" && d.ev.Name == "CompareAndSwap" {
				last = d.ev
			}
		}
		if last == nil {
			c.fail("fast-path-margin", fname(r.consume), p.EndPos, "granted without a reservation: %s", c.cond(p))
			continue
		}
		if !c.holdsMu(last) {
			fast++
			G := eng.FieldOf(v, cf.guard)
			ok := implied(p, eng.Ge(G, eng.Int(1)))
			fit := false
			for _, sv := range p.Events {
				if sv.Kind == "atomic" && sv.Name == "Load" && c.counter(sv.Addr) == "scalar" && absLE(p, last.Arg(0), eng.Sub(eng.Sub(sv.Res[0], n), G)) {
					fit = true
				}
			}
			c.check(ok && fit, "fast-path-margin", fname(r.consume), last.Pos, "a lock-free grant does not keep the configured guard: %s", c.cond(p))
			continue
		}
		if p.F.Eval(eng.FieldOf(v, cf.cached)) != -1 {
			cachedN++
			fit := false
			sl := eng.FieldOf(v, cf.slack)
			for _, cv := range p.Events {
				if cv.Kind != "atomic" || cv.Name != "Load" || c.vsaField(cv.Addr) != cf.cachedNet {
					continue
				}
				for _, sv := range p.Events {
					if sv.Kind == "atomic" && sv.Name == "Load" && c.counter(sv.Addr) == "scalar" && absLE(p, cv.Res[0], eng.Sub(eng.Sub(sv.Res[0], n), sl)) {
						fit = true
					}
				}
			}
			c.check(fit, "cached-slack", fname(r.consume), p.EndPos, "a grant with the cached gate enabled does not keep the slack: %s", c.cond(p))
		}
	}
	c.sites["lock-free grants"], c.sites["cached-gate grants"] = fast, cachedN
	c.min("fast-path-margin", 1)
	c.min("cached-slack", 1)
	c.min("margin-kept", 3)
}

// ---- V12: no needless refusal ----

func ruleV12(c *Ctx) {
	r := c.vsa()
	cf := c.conf()
	c.rule("refusal-justified", "every path that refuses a positive amount has found S-|net|<n for an exact or live net reading (less the slack and against the cached net only when the cached gate is on); estimates and the fast-path guard alone never refuse")
	n0 := 0
	for _, p := range c.vsaPathsCached(r.consume) {
		if p.End != "return" || !isFalse(p.Ret[0]) {
			continue
		}
		n := p.Params[1]
		v := p.Params[0]
		c.ob("refusal-justified", fname(r.consume))
		if implied(p, eng.Ge(eng.Int(0), n)) {
			continue
		}
		n0++
		short := func(S, x, margin *eng.Term) bool {
			a := eng.Sub(S, margin)
			return implied(p, eng.Ge(x, eng.Int(0))) && implied(p, eng.Gt(n, eng.Sub(a, x))) ||
				implied(p, eng.Ge(eng.Int(0), x)) && implied(p, eng.Gt(n, eng.Add(a, x)))
		}
		ok := false
		var full []netCandidate
		for _, x := range c.nets(p) {
			if c.complete(p, x) {
				full = append(full, x)
			}
		}
		for _, sv := range p.Events {
			if ok || sv.Kind != "atomic" || sv.Name != "Load" || c.counter(sv.Addr) != "scalar" {
				continue
			}
			S := sv.Res[0]
			for _, xv := range p.Events {
				// giving units back also tells what is left
				back := xv.Name == "Add" && c.counter(xv.Addr) == "approx" && implied(p, eng.Ge(eng.Int(0), xv.Arg(0)))
				if xv.Kind != "atomic" || xv.Name != "Load" && !back {
					continue
				}
				if c.counter(xv.Addr) == "approx" {
					ok = ok || short(S, xv.Res[0], eng.Int(0))
				}
				if c.vsaField(xv.Addr) == cf.cachedNet && implied(p, eng.FieldOf(v, cf.cached)) {
					ok = ok || short(S, xv.Res[0], eng.FieldOf(v, cf.slack))
				}
			}
			for _, x := range full {
				ok = ok || short(S, x.net, eng.Int(0))
			}
		}
		if !ok {
			c.fail("refusal-justified", fname(r.consume), p.EndPos, "a positive amount is refused although no reading shows too little available: %s", c.cond(p))
		}
	}
	c.sites["refusing paths"] = n0
	if n0 == 0 {
		c.fail("refusal-justified", "never", r.consume.Pos(), "no path refuses")
	}
}
