package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

func init() {
	reg("T09", ruleT09)
}

// implementers lists the module's methods name of types that implement the interface iface.
func (c *Ctx) implementers(pkg, iface, name string) []*ssa.Function {
	it, ok := c.typ(pkg, iface).Underlying().(*types.Interface)
	c.must(ok, iface, "not an interface")
	var out []*ssa.Function
	for _, f := range c.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Name() != name || f.Blocks == nil || f.Synthetic != "" || !c.inModule(f) {
			continue
		}
		if types.Implements(r.Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

// knownLen is the length of t when the path determines it (at most max), or -1.
func knownLen(p *eng.Path, t *eng.Term, max int64) int {
	for n := int64(0); n <= max; n++ {
		if p.F.Eval(eng.Eq0(eng.Sub(eng.LenOf(t), eng.Int(n)))) == 1 {
			return int(n)
		}
	}
	return -1
}

func eqv(f *eng.Facts, a, b *eng.Term) int {
	if a == nil || b == nil {
		return 0
	}
	return f.Eval(eng.Eq(a, b, a.Typ))
}

func ruleT09(c *Ctx) {
	c.rule("conserve", "per key and bucket, the deltas of the compressed batches sum to those of the batches given: each amount appears in exactly one output batch of its own key and bucket, or its position sums to zero and is dropped")
	c.rule("marker", "an output batch carries the largest sequence marker of the batches merged into it")
	c.rule("merge", "no key and bucket is reported twice")
	c.rule("zero", "no batch of zero is returned")
	max := int64(3)
	fs := c.implementers(tfdPkg, "VSATransformer", "Compress")
	c.must(len(fs) > 0, "VSATransformer", "no transformer exists")
	c.rule("progress", "no loop of a transformer goes on without changing what decides its end")
	c.rule("room", "a transformer's own table has room for every batch, and positions are reduced to its power-of-two size")
	for _, f := range fs {
		reach := c.graph().reachSync(f)
		if !c.progress("progress", reach) || !c.scratchTable("room", reach) {
			return
		}
	}
	for _, f := range fs {
		e := c.engine()
		e.Alias, e.SplitMask = true, true
		e.MaxIter = 2
		for e.MaxIter < int(max)*2 {
			e.MaxIter *= 2
		}
		e.FreeLen = 8
		pi := 0
		if f.Signature.Recv() != nil {
			pi = 1
		}
		e.Pre = func(ps []*eng.Term) []*eng.Term { return []*eng.Term{eng.Ge(eng.Int(max), eng.LenOf(ps[pi]))} }
		seen := map[string]bool{}
		for _, p := range c.run(e, f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			in, pos := p.Params[pi], retPos(p)
			out := p.Ret[0]
			if out == in {
				c.check(true, "conserve", fname(f), pos, "")
				c.check(p.F.Eval(eng.Gt(eng.LenOf(in), eng.Int(0))) == -1, "zero", fname(f), pos, "the batches are returned as they are, also those of zero (where %s)", c.cond(p))
				continue
			}
			if out.Ev != nil && out.Ev.Kind == "call" && out.Ev.Fn == nil && shortCall(out.Ev.Name) == "Compress" && out.Ev.Arg(0) == in {
				c.check(true, "conserve", fname(f)+":delegated", pos, "")
				seen["2"] = true
				continue
			}
			l, ok := eng.ListOf(out)
			n := knownLen(p, in, max)
			if !c.check(ok && n >= 0, "conserve", fname(f)+":input", pos, "on the path where %s the result does not depend on all of the input", c.cond(p)) {
				continue
			}
			seen[fmt.Sprint(n)] = true
			ent := make([]*eng.Term, n)
			for i := range ent {
				ent[i] = eng.App("elem", in.Typ.Underlying().(*types.Slice).Elem(), in, eng.Int(int64(i)))
			}
			same := func(a, b *eng.Term) int {
				return and3(eqv(p.F, eng.FieldNamed(a, "KeyID"), eng.FieldNamed(b, "KeyID")), eqv(p.F, eng.FieldNamed(a, "BucketID"), eng.FieldNamed(b, "BucketID")))
			}
			got := make([]int, n)
			for x, o := range l {
				rest := eng.FieldNamed(o, "NetDelta")
				seq := eng.FieldNamed(o, "SeqEnd")
				member := false
				for j, t := range ent {
					d := eng.FieldNamed(t, "NetDelta")
					if r := eng.Sub(rest, d); size(r) < size(rest) {
						rest = r
						got[j]++
						c.check(same(o, t) == 1, "conserve", fname(f)+":identity", pos, "an amount is put in a batch of another key or bucket (where %s)", c.cond(p))
						s := eng.FieldNamed(t, "SeqEnd")
						c.check(p.F.Eval(eng.Ge(seq, s)) == 1, "marker", fname(f), pos, "the marker %s of an output batch is not at least %s, which was merged into it (where %s)", seq, s, c.cond(p))
						member = member || seq == s
					}
				}
				c.check(eqv(p.F, eng.FieldNamed(o, "NetDelta"), eng.Int(0)) == -1, "zero", fname(f), pos, "a batch of %s is returned although that may be zero (where %s)", eng.FieldNamed(o, "NetDelta"), c.cond(p))
				z, isc := rest.IsInt()
				c.check(isc && z == 0, "conserve", fname(f)+":sum", pos, "an output batch carries %s, which is not a sum of input deltas of its key (where %s)", eng.FieldNamed(o, "NetDelta"), c.cond(p))
				c.check(member, "marker", fname(f)+":member", pos, "the marker %s of an output batch is not one of those merged into it", seq)
				for _, o2 := range l[:x] {
					c.check(same(o, o2) != 1, "merge", fname(f), pos, "a key and bucket is reported twice (where %s)", c.cond(p))
				}
			}
			done := make([]bool, n)
			for j, t := range ent {
				c.check(got[j] <= 1, "conserve", fname(f)+":twice", pos, "an amount is counted %d times (where %s)", got[j], c.cond(p))
				if got[j] > 0 || done[j] {
					continue
				}
				sum := eng.FieldNamed(t, "NetDelta")
				for k := j + 1; k < n; k++ {
					if got[k] == 0 && !done[k] && same(t, ent[k]) == 1 {
						sum = eng.Add(sum, eng.FieldNamed(ent[k], "NetDelta"))
						done[k] = true
					}
				}
				c.check(p.F.Eval(eng.Eq0(sum)) == 1, "conserve", fname(f)+":lost", pos, "the amount of an input batch is lost (where %s)", c.cond(p))
			}
		}
		c.check(seen["2"], "conserve", fname(f)+":covered", f.Pos(), "no path with two input batches was decided")
	}
	c.min("conserve", 5)
	c.min("marker", 2)
	c.min("merge", 1)
}

func init() { reg("T10", ruleT10) }

// deltaOf are the key, bucket and amount an element stands for.
func deltaOf(el *eng.Term) (key, bucket, amount *eng.Term) {
	if d := eng.FieldNamed(el, "NetDelta"); d != nil {
		return eng.FieldNamed(el, "KeyID"), eng.FieldNamed(el, "BucketID"), d
	}
	fp := eng.FieldNamed(el, "Footprint")
	return eng.FieldNamed(fp, "KeyID"), eng.FieldNamed(eng.FieldNamed(fp, "Time"), "BucketID"), eng.FieldNamed(el, "Delta")
}

func ruleT10(c *Ctx) {
	c.rule("apply", "after applying batches and envelopes, the value of every key and bucket is what it was plus the amounts of the elements of that key and bucket, each counted exactly once; nothing else changes")
	c.rule("order", "ordered envelopes of a key are applied in the order of their sequence markers")
	max := int64(2)
	for _, name := range []string{"State.Reconstruct", "State.BaselineApply"} {
		f := c.mustFn(tfdPkg, name)
		e := c.engine()
		e.Alias = true
		e.MaxIter = 2
		e.Pre = func(ps []*eng.Term) []*eng.Term {
			var l []*eng.Term
			for _, p := range ps[1:] {
				l = append(l, eng.Ge(eng.Int(max), eng.LenOf(p)))
			}
			return l
		}
		full := false
		for _, p := range c.run(e, f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			pos := retPos(p)
			var els []*eng.Term
			ok := true
			for _, a := range p.Params[1:] {
				n := knownLen(p, a, max)
				ok = ok && n >= 0
				for i := 0; i < n; i++ {
					els = append(els, eng.App("elem", a.Typ.Underlying().(*types.Slice).Elem(), a, eng.Int(int64(i))))
				}
			}
			if !c.check(ok, "apply", name+":input", pos, "on the path where %s the result does not depend on all of the input", c.cond(p)) {
				continue
			}
			full = full || len(els) == int(max)*(len(p.Params)-1)
			got := make([]int, len(els))
			for _, cell := range p.Mem {
				if cell.Addr.Op != "mapelem" {
					continue
				}
				m, k := cell.Addr.Args[0], cell.Addr.Args[1]
				if !c.check(m.Op == "fld" && m.Args[0] == p.Params[0] && k.Op == "arr" && len(k.Args) == 2, "apply", name+":target", pos, "a value is put under %s, which is not a key and bucket of the state", k) {
					continue
				}
				rest := eng.Sub(cell.Val, eng.App("mapelem", cell.Val.Typ, m, k))
				if cell.Val.Op == "lin" || cell.Val.Typ == nil {
					rest = eng.Sub(cell.Val, eng.App("mapelem", types.Typ[types.Int64], m, k))
				}
				old := eng.App("mapelem", types.Typ[types.Int64], m, k)
				if r := eng.Add(rest, old); size(r) < size(rest) && p.F.Eval(eng.App("maphas", types.Typ[types.Bool], m, k)) == -1 {
					rest = r // a key that is not there counts as zero
				}
				for j, el := range els {
					key, b, d := deltaOf(el)
					r := eng.Sub(rest, d)
					if size(r) >= size(rest) {
						continue
					}
					rest = r
					got[j]++
					c.check(and3(eqv(p.F, k.Args[0], key), eqv(p.F, k.Args[1], b)) == 1, "apply", name+":identity", pos, "an amount is added under another key or bucket (where %s)", c.cond(p))
				}
				z, isc := rest.IsInt()
				c.check(isc && z == 0, "apply", name+":sum", pos, "the value of a key becomes %s, which is not its old value plus the amounts of its elements (where %s)", cell.Val, c.cond(p))
			}
			for j, n := range got {
				c.check(n == 1, "apply", name+":once", pos, "the amount of %s is applied %d times (where %s)", els[j], n, c.cond(p))
			}
		}
		c.check(full, "apply", name+":covered", f.Pos(), "no path with all elements was decided")
	}
	// order
	f := c.mustFn(tfdPkg, "State.Reconstruct")
	for _, p := range c.run(c.engine(), f, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		vs := p.Params[2]
		var sorted *eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && copyOf(ev.Arg(0), vs) && len(ev.Args) == 2 {
				switch ev.Name {
				case "sort.Slice", "sort.SliceStable":
					sorted = ev
					c.lessBySeq(p, ev, ev.Arg(0).Unwrap())
				case "slices.SortFunc", "slices.SortStableFunc":
					sorted = ev
					c.cmpBySeq(ev)
				}
			}
			if ev.Kind == "mapset" && ev.Arg(1).Derived(func(t *eng.Term) bool { return t.Op == "elem" && t.Args[0] == vs }) {
				c.check(sorted != nil, "order", "Reconstruct:sorted", ev.Pos, "envelopes are applied without having been ordered by their sequence marker")
			}
		}
	}
	c.min("apply", 8)
	c.min("order", 2)
}

// copyOf: t is the slice s or a copy of it.
func copyOf(t, s *eng.Term) bool {
	t = stripConv(t).Unwrap()
	for t.Op == "append" && t != s {
		if l, ok := eng.ListOf(t.Args[0]); !ok || len(l) > 0 {
			return false
		}
		t = t.Args[1]
	}
	return t == s
}

func fnOf(t *eng.Term) *ssa.Function {
	if t != nil && (t.Op == "closure" || t.Op == "func") {
		return t.Fn
	}
	return nil
}

// lessBySeq: among envelopes of one key the comparison orders by sequence marker.
func (c *Ctx) lessBySeq(at *eng.Path, ev *eng.Event, vs *eng.Term) {
	fn := fnOf(ev.Arg(1).Unwrap())
	if !c.check(fn != nil, "order", "Reconstruct:less", ev.Pos, "the ordering function is not known") {
		return
	}
	el := vs.Typ.Underlying().(*types.Slice).Elem()
	for _, p := range c.run(c.engine(), fn, nil, ev.Arg(1).Unwrap().Args, at.Mem) {
		if p.End != "return" {
			continue
		}
		for vs.Op == "append" {
			vs = vs.Args[1]
		}
		a, b := eng.App("elem", el, vs, p.Params[0]), eng.App("elem", el, vs, p.Params[1])
		c.bySeq(p, a, b, func(f *eng.Facts) int { return f.Eval(p.Ret[0]) }, eng.Not(p.Ret[0]))
	}
}

func (c *Ctx) cmpBySeq(ev *eng.Event) {
	fn := fnOf(ev.Arg(1).Unwrap())
	if !c.check(fn != nil, "order", "Reconstruct:less", ev.Pos, "the ordering function is not known") {
		return
	}
	e := c.engine()
	for _, p := range c.run(e, fn, nil, ev.Arg(1).Unwrap().Args, nil) {
		if p.End != "return" {
			continue
		}
		r := p.Ret[0]
		c.bySeq(p, p.Params[0], p.Params[1], func(f *eng.Facts) int { return f.Eval(eng.Gt(eng.Int(0), r)) }, nil)
	}
}

func (c *Ctx) bySeq(p *eng.Path, a, b *eng.Term, less func(*eng.Facts) int, _ *eng.Term) {
	ka, _, _ := deltaOf(a)
	kb, _, _ := deltaOf(b)
	sa, sb := eng.FieldNamed(a, "SeqEnd"), eng.FieldNamed(b, "SeqEnd")
	for _, want := range []bool{true, false} {
		f := p.F.Clone()
		if !f.Assume(eng.Eq0(eng.Sub(ka, kb)), true) || f.Eval(eng.Eq0(eng.Sub(ka, kb))) == -1 {
			continue
		}
		lt := eng.Gt(sb, sa)
		if !want {
			lt = eng.Ge(sa, sb)
		}
		if f.Eval(lt) == -1 || !f.Assume(lt, true) {
			continue
		}
		c.check((less(f) == 1) == want && less(f) != 0, "order", "Reconstruct:less", retPos(p), "envelopes of one key are not ordered by their sequence marker (where %s)", c.cond(p))
	}
}
