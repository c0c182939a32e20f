package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

const (
	tfdPkg   = "plugin/tfd"
	sinksPkg = "internal/sinks"
)

func init() {
	reg("T02", ruleT02)
	reg("T03", ruleT03)
}

// cellRole is one column of a shard's table: an array field, or a field of its elements.
type cellRole struct{ cont, sub *types.Var }

func (r cellRole) String() string {
	if r.sub == nil {
		return r.cont.Name()
	}
	return r.cont.Name() + "." + r.sub.Name()
}

// cellOf recognises a value read from a table position as it was on entry.
func cellOf(t, recv *eng.Term) (cellRole, *eng.Term, bool) {
	var sub *types.Var
	t = stripConv(t)
	if t != nil && t.Op == "fld" && len(t.Args) == 1 && t.Args[0].Op == "elem" {
		sub, _ = t.Obj.(*types.Var)
		t = t.Args[0]
	}
	if t == nil || t.Op != "elem" {
		return cellRole{}, nil, false
	}
	a := t.Args[0]
	if a.Op != "fld" || a.Args[0] != recv {
		return cellRole{}, nil, false
	}
	v, ok := a.Obj.(*types.Var)
	return cellRole{v, sub}, t.Args[1], ok
}

// shardRoles names the columns of the S-lane table by what Flush emits.
type shardRoles struct {
	shard                   *types.Named
	key, bucket, sum, seq   cellRole
	occ                     cellRole
	used                    *types.Var
	ingest, flush, flushKey *ssa.Function
	conts                   map[*types.Var]bool
}

var shardCache = map[*Prog]*shardRoles{}

func (c *Ctx) shard() *shardRoles {
	if r := shardCache[c.Prog]; r != nil {
		return r
	}
	r := &shardRoles{conts: map[*types.Var]bool{}}
	r.shard = c.typ(tfdPkg, "SShard")
	c.must(r.shard != nil, tfdPkg+".SShard", "the shard type does not exist")
	r.ingest, r.flush = c.mustFn(tfdPkg, "SShard.Ingest"), c.mustFn(tfdPkg, "SShard.Flush")
	r.flushKey = c.fn(tfdPkg, "SShard.FlushKey")
	e := c.engine()
	for _, p := range c.run(e, r.flush, nil, nil, nil) {
		for _, b := range emitted(p) {
			for n, dst := range map[string]*cellRole{"KeyID": &r.key, "BucketID": &r.bucket, "NetDelta": &r.sum, "SeqEnd": &r.seq} {
				if role, _, ok := cellOf(eng.FieldNamed(b.val, n), p.Params[0]); ok && dst.cont == nil {
					*dst = role
				}
			}
		}
	}
	for n, x := range map[string]cellRole{"KeyID": r.key, "BucketID": r.bucket, "NetDelta": r.sum, "SeqEnd": r.seq} {
		c.must(x.cont != nil, "SShard column "+n, "no emitted batch takes its "+n+" from the table")
		r.conts[x.cont] = true
	}
	// the column that says whether a position is in use decides the emission
	for _, p := range c.run(c.engine(), r.flush, nil, nil, nil) {
		if len(emitted(p)) == 0 {
			continue
		}
		for _, l := range p.Log {
			l.Cond.Walk(func(t *eng.Term) bool {
				if role, _, ok := cellOf(t, p.Params[0]); ok && r.occ.cont == nil && role != r.key && role != r.bucket && role != r.sum && role != r.seq {
					r.occ = role
				}
				return true
			})
		}
	}
	c.must(r.occ.cont != nil, "SShard column in-use", "no column decides whether a position is emitted")
	r.conts[r.occ.cont] = true
	// the number of positions in use: the integer field Ingest increments
	e = c.engine()
	e.MaxIter = 1
	for _, p := range c.run(e, r.ingest, nil, nil, nil) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr.Op == "fa" && ev.Addr.Args[0] == p.Params[0] {
				v, _ := ev.Addr.Obj.(*types.Var)
				if v != nil && isBasicInt(v.Type()) && eng.Sub(ev.Arg(0), eng.FieldOf(p.Params[0], v)) == eng.Int(1) {
					r.used = v
				}
			}
		}
	}
	c.must(r.used != nil, "SShard count", "no field counts the positions in use")
	shardCache[c.Prog] = r
	return r
}

// emission is one batch appended to an output slice.
type emission struct {
	val *eng.Term
	ev  *eng.Event
}

func emitted(p *eng.Path) []emission {
	var out []emission
	for _, ev := range p.Events {
		if ev.Kind != "append" {
			continue
		}
		l, ok := eng.ListOf(ev.Arg(0))
		if !ok {
			continue
		}
		for _, x := range l {
			if eng.FieldNamed(x, "NetDelta") != nil {
				out = append(out, emission{x, ev})
			}
		}
	}
	return out
}

func (c *Ctx) finalSlice(p *eng.Path, r *shardRoles, v *types.Var) *eng.Term {
	return p.LoadField(p.Params[0], v, fieldIndex(r.shard, v))
}

// entryCell is the content of a position when the function was entered.
func entryCell(p *eng.Path, role cellRole, i *eng.Term) *eng.Term {
	return eng.LoadAt(nil, eng.FieldOf(p.Params[0], role.cont), i, role.sub)
}

func (c *Ctx) finalCell(p *eng.Path, r *shardRoles, role cellRole, i *eng.Term) *eng.Term {
	s := c.finalSlice(p, r, role.cont)
	for _, j := range eng.WrittenAt(p.Mem, s) {
		if j == i || p.F.Eval(eng.Eq(i, j, types.Typ[types.Int])) == 1 {
			return eng.LoadAt(p.Mem, s, j, role.sub)
		}
	}
	return eng.LoadAt(p.Mem, s, i, role.sub)
}

// inUse evaluates whether the in-use column value says "used".
func inUse(p *eng.Path, v *eng.Term) int {
	if b, ok := v.IsBool(); ok {
		if b {
			return 1
		}
		return -1
	}
	if t, ok := v.Typ.(types.Type); ok && t != nil {
		if b, isB := t.Underlying().(*types.Basic); isB && b.Info()&types.IsBoolean != 0 {
			return p.F.Eval(v)
		}
	}
	return -p.F.Eval(eng.Eq0(v))
}

func (c *Ctx) written(p *eng.Path, r *shardRoles) []*eng.Term {
	seen := map[*eng.Term]bool{}
	var out []*eng.Term
	for v := range r.conts {
		for _, i := range eng.WrittenAt(p.Mem, c.finalSlice(p, r, v)) {
			dup := seen[i]
			for _, j := range out {
				dup = dup || p.F.Eval(eng.Eq(i, j, types.Typ[types.Int])) == 1
			}
			if !dup {
				seen[i] = true
				out = append(out, i)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// member is one contribution to a position: its identity, amount and marker.
type member struct {
	key, bucket, amount, seq *eng.Term
	what                     string
}

// tableStep checks that the table after path p holds what it held before plus extra:
// every amount is in exactly one position with the same key and bucket, no marker went back,
// and the count of positions in use is right.
func (c *Ctx) tableStep(p *eng.Path, r *shardRoles, rule, construct string, extra []member) {
	recv := p.Params[0]
	pos := retPos(p)
	grown := c.finalSlice(p, r, r.sum.cont) != eng.FieldOf(recv, r.sum.cont)
	for v := range r.conts {
		g := c.finalSlice(p, r, v) != eng.FieldOf(recv, v)
		if !c.check(g == grown, rule, construct+":columns", pos, "on the path where %s the table columns are replaced only in part", c.cond(p)) {
			return
		}
	}
	slots := c.written(p, r)
	// the positions of the old table that matter
	var old []member
	nOld := 0
	if grown {
		n0 := eng.LenOf(eng.FieldOf(recv, r.occ.cont))
		k := int64(0)
		for ; p.F.Eval(eng.Gt(n0, eng.Int(k))) == 1; k++ {
			i := eng.Int(k)
			switch inUse(p, entryCell(p, r.occ, i)) {
			case 1:
				nOld++
				old = append(old, member{entryCell(p, r.key, i), entryCell(p, r.bucket, i), entryCell(p, r.sum, i), entryCell(p, r.seq, i), fmt.Sprintf("old position %d", k)})
			case 0:
				c.check(false, rule, construct+":rehash", pos, "position %d of the old table is dropped without looking whether it is in use (on the path where %s)", k, c.cond(p))
				return
			}
		}
		if !c.check(p.F.Eval(eng.Ge(eng.Int(k), n0)) == 1, rule, construct+":rehash", pos, "the old table is not carried over completely: only its first %d positions are looked at where %s", k, c.cond(p)) {
			return
		}
	} else {
		for _, i := range slots {
			switch inUse(p, entryCell(p, r.occ, i)) {
			case 1:
				nOld++
				old = append(old, member{entryCell(p, r.key, i), entryCell(p, r.bucket, i), entryCell(p, r.sum, i), entryCell(p, r.seq, i), "the position's previous content"})
			case 0:
				c.check(false, rule, construct+":position", pos, "a position is written without knowing whether it is in use (on the path where %s)", c.cond(p))
				return
			}
		}
	}
	all := append(append([]member(nil), old...), extra...)
	got := map[int]int{}
	used := 0
	for _, i := range slots {
		f := func(x cellRole) *eng.Term { return c.finalCell(p, r, x, i) }
		if inUse(p, f(r.occ)) != 1 {
			c.check(false, rule, construct+":in-use", pos, "an amount is put in a position that is not marked as in use (where %s)", c.cond(p))
			return
		}
		used++
		rest := f(r.sum)
		// an unused position holds no amount
		if !grown && inUse(p, entryCell(p, r.occ, i)) == -1 {
			if t := eng.Sub(rest, entryCell(p, r.sum, i)); size(t) < size(rest) {
				rest = t
			}
		}
		for n, m := range all {
			t := eng.Sub(rest, m.amount)
			if size(t) >= size(rest) {
				continue
			}
			rest = t
			got[n]++
			same := and3(p.F.Eval(eng.Eq(f(r.key), m.key, m.key.Typ)), p.F.Eval(eng.Eq(f(r.bucket), m.bucket, m.bucket.Typ)))
			c.check(same == 1, rule, construct+":identity", pos, "the amount of %s is added to a position whose key and bucket are not the same (where %s)", m.what, c.cond(p))
			seq := f(r.seq)
			if !grown && inUse(p, entryCell(p, r.occ, i)) == -1 && seq == entryCell(p, r.seq, i) {
				seq = eng.Int(0) // an unused position holds no marker
			}
			fs := p.F
			c.check(fs.Eval(eng.Ge(seq, m.seq)) == 1 || seq == eng.Int(0) && fs.Eval(eng.Ge(eng.Int(0), m.seq)) == 1 || unusedSeq(p, seq, m.seq, r, i), rule, construct+":marker", pos, "the sequence marker of a position falls behind that of %s (%s against %s, where %s)", m.what, seq, m.seq, c.cond(p))
		}
		n, isc := rest.IsInt()
		c.check(isc && n == 0, rule, construct+":sum", pos, "a position's amount is %s, which is not the sum of what belongs there (where %s)", f(r.sum), c.cond(p))
		// the marker is one of the members' markers
		ms := false
		for n, m := range all {
			ms = ms || got[n] > 0 && f(r.seq) == m.seq
		}
		if s := f(r.seq); !ms {
			z, isz := s.IsInt()
			ms = isz && z == 0 || s == entryCell(p, r.seq, i)
		}
		c.check(ms, rule, construct+":marker", pos, "the sequence marker %s of a position is not one of those merged into it", f(r.seq))
	}
	for n, m := range all {
		c.check(got[n] == 1, rule, construct+":conserved", pos, "the amount of %s is counted %d times on the path where %s", m.what, got[n], c.cond(p))
	}
	du := eng.Sub(p.LoadField(recv, r.used, fieldIndex(r.shard, r.used)), eng.FieldOf(recv, r.used))
	d, ok := du.IsInt()
	c.check(ok && int(d) == used-nOld, rule, construct+":count", pos, "the count of positions in use changes by %s while the positions in use change by %d (where %s)", du, used-nOld, c.cond(p))
}

// unusedSeq: the marker left in a position that was free is zero, so it is fine when the
// path established that the new marker does not exceed it.
func unusedSeq(p *eng.Path, seq, m *eng.Term, r *shardRoles, i *eng.Term) bool {
	e := entryCell(p, r.seq, i)
	return seq == eng.Int(0) && p.F.Eval(eng.Ge(e, m)) == 1
}

// size counts the symbols of an affine value.
func size(t *eng.Term) int {
	if _, ok := t.IsInt(); ok {
		return 0
	}
	if t.Op == "lin" {
		return len(t.Co)
	}
	return 1
}

// replacers lists the methods that replace the table's arrays.
func (c *Ctx) replacers(r *shardRoles) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.Funcs {
		if c.pkgOf(f) != tfdPkg || f.Parent() != nil || f.Signature.Recv() == nil {
			continue
		}
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && r.conts[structField(fa)] {
						hit = true
					}
				}
			}
		}
		if hit {
			out = append(out, f)
		}
	}
	return out
}

func ruleT02(c *Ctx) {
	c.rule("conserve", "after merging an S-envelope the table holds exactly what it held plus the envelope's delta, every amount in a position with its own key and bucket; a table that is replaced carries every position over")
	c.rule("marker", "the sequence marker of a position never falls behind a marker merged into it")
	c.rule("room", "a free position is left after every merge, so that probing always ends, and probing visits every position (odd stride, masked by the table size)")
	c.rule("ctor", "all columns of a new table have the same power-of-two length, the mask is that length minus one")
	c.rule("progress", "no loop of the table goes on without changing what decides its end, and probing visits every position")
	for _, name := range []string{"SShard.Ingest", "SShard.Flush", "SShard.FlushKey"} {
		if f := c.fn(tfdPkg, name); f != nil && !c.progress("progress", c.graph().reachSync(f)) {
			return
		}
	}
	r := c.shard()
	e := c.engine()
	e.Alias, e.MaxIter = true, 1
	n, claimed := 0, false
	for _, p := range c.run(e, r.ingest, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		recv := p.Params[0]
		used0, n0 := eng.FieldOf(recv, r.used), eng.LenOf(eng.FieldOf(recv, r.occ.cont))
		// what every merge preserves may be assumed before it
		if !p.F.Assume(eng.Ge(used0, eng.Int(0)), true) || !p.F.Assume(eng.Gt(n0, used0), true) {
			continue
		}
		n++
		env := p.Params[1]
		fp := eng.FieldNamed(env, "Footprint")
		tm := eng.FieldNamed(fp, "Time")
		c.tableStep(p, r, "conserve", "Ingest", []member{{eng.FieldNamed(fp, "KeyID"), eng.FieldNamed(tm, "BucketID"), eng.FieldNamed(env, "Delta"), eng.FieldNamed(env, "SeqEnd"), "the envelope"}})
		n1 := eng.LenOf(c.finalSlice(p, r, r.occ.cont))
		if m := c.maskField(r); m != nil {
			mv, m0 := p.LoadField(recv, m, fieldIndex(r.shard, m)), eng.FieldOf(recv, m)
			d := eng.Sub(mv, eng.AddK(n1, eng.Int(1), -1))
			okMask := mv == m0 && n1 == n0
			for k := int64(-4); k <= 4 && !okMask; k++ {
				// the mask on entry is the length on entry minus one
				z, isz := eng.AddK(d, eng.Sub(eng.AddK(n0, eng.Int(1), -1), m0), k).IsInt()
				okMask = isz && z == 0
			}
			c.check(okMask, "room", "Ingest:mask", retPos(p), "after a merge the mask is %s while the table has %s positions (where %s)", mv, n1, c.cond(p))
		}
		if c.maskField(r) != nil {
			c.check(n1 == n0 || doubled(n1, n0), "room", "Ingest:size", retPos(p), "a table of %s positions is replaced by one of %s: masking skips positions of a size that is not a power of two", n0, n1)
		}
		used1 := p.LoadField(recv, r.used, fieldIndex(r.shard, r.used))
		if n1 == n0 && eng.Sub(used1, used0) == eng.Int(1) {
			for _, i := range c.written(p, r) {
				claimed = claimed || p.F.Eval(eng.Eq0(eng.Sub(entryCell(p, r.key, i), eng.FieldNamed(fp, "KeyID")))) != 1
			}
		}
		c.check(p.F.Eval(eng.Gt(n1, used1)) == 1, "room", "Ingest", retPos(p), "a merge can leave the table without a free position (where %s): the next lookup of a new cell never ends", c.cond(p))
		for _, i := range c.written(p, r) {
			c.check(c.masked(p, r, i, 3), "room", "Ingest:probe", retPos(p), "the position %s written is not reduced to the table size, or probing does not visit every position", i)
		}
	}
	c.must(n > 3, "SShard.Ingest", "no path merges an envelope")
	c.check(claimed, "room", "Ingest:free", r.ingest.Pos(), "a free position is only taken when it already names the envelope's key: probing for a new key never ends")
	for _, f := range c.replacers(r) {
		if f == r.ingest {
			continue
		}
		e := c.engine()
		e.Alias = true
		for _, p := range c.run(e, f, nil, nil, nil) {
			if p.End == "return" && len(p.Params) == 1 {
				c.tableStep(p, r, "conserve", fname(f), nil)
			}
		}
	}
	// construction
	for _, f := range c.Funcs {
		if c.pkgOf(f) != tfdPkg || f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), r.shard) {
			continue
		}
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			obj := p.Ret[0].Unwrap()
			var l *eng.Term
			for v := range r.conts {
				s := p.LoadField(obj, v, fieldIndex(r.shard, v))
				n := eng.LenOf(s)
				if l == nil {
					l = n
				}
				c.check(n == l, "ctor", fname(f)+":"+v.Name(), retPos(p), "the columns of a new table differ in length")
			}
			if m := c.maskField(r); m != nil && l != nil {
				c.check(p.LoadField(obj, m, fieldIndex(r.shard, m)) == eng.AddK(l, eng.Int(1), -1), "ctor", fname(f)+":mask", retPos(p), "the mask is not the table size minus one")
				c.check(pow2(l), "ctor", fname(f)+":size", retPos(p), "the table size %s is not a power of two, so that the mask skips positions", l)
			}
			used := p.LoadField(obj, r.used, fieldIndex(r.shard, r.used))
			z, ok := used.IsInt()
			c.check(ok && z == 0, "ctor", fname(f)+":count", retPos(p), "a new table does not start with no position in use")
		}
	}
	if c.maskField(r) != nil {
		c.min("ctor", 4)
	}
	c.min("conserve", 5)
	c.min("room", 2)
}

// maskField is the integer field used to reduce positions to the table size.
func (c *Ctx) maskField(r *shardRoles) *types.Var {
	for _, f := range c.fields(tfdPkg, "SShard") {
		if f == r.used || !isBasicInt(f.Type()) {
			continue
		}
		for _, g := range c.Funcs {
			if c.pkgOf(g) != tfdPkg {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					bo, ok := in.(*ssa.BinOp)
					if !ok || bo.Op != token.AND {
						continue
					}
					for _, x := range []ssa.Value{bo.X, bo.Y} {
						if cv, ok := x.(*ssa.Convert); ok {
							x = cv.X
						}
						if ld, ok := x.(*ssa.UnOp); ok {
							if fa, ok := ld.X.(*ssa.FieldAddr); ok && structField(fa) == f {
								return f
							}
						}
					}
				}
			}
		}
	}
	return nil
}

// pow2: 1 shifted left, or twice a power of two.
func pow2(t *eng.Term) bool {
	if n, ok := t.IsInt(); ok {
		return n > 0 && n&(n-1) == 0
	}
	return t.Op == "<<" && pow2(t.Args[0])
}

// doubled: the first length is the second times a power of two.
func doubled(n1, n0 *eng.Term) bool {
	if n1.Op == "<<" && n1.Args[0] == n0 {
		return true
	}
	return n1.Op == "lin" && n1.C == 0 && len(n1.Co) == 1 && n1.Co[0].T == n0 && n1.Co[0].N > 0 && n1.Co[0].N&(n1.Co[0].N-1) == 0
}

// masked: the position is some value reduced by the mask (or the table length), advanced by
// an odd stride.
func (c *Ctx) masked(p *eng.Path, r *shardRoles, i *eng.Term, d int) bool {
	m := c.maskField(r)
	n := eng.LenOf(c.finalSlice(p, r, r.occ.cont))
	if k, ok := i.IsInt(); ok {
		return p.F.Eval(eng.Gt(n, eng.Int(k))) == 1 && k >= 0
	}
	var arg *eng.Term
	grown := c.finalSlice(p, r, r.sum.cont) != eng.FieldOf(p.Params[0], r.sum.cont)
	switch i.Op {
	case "&":
		for k, a := range i.Args {
			if m != nil && (a == eng.FieldOf(p.Params[0], m) && !grown || a == p.LoadField(p.Params[0], m, fieldIndex(r.shard, m)) || a == eng.AddK(n, eng.Int(1), -1)) {
				arg = i.Args[1-k]
			}
		}
	case "lin":
		// the position after a reduced one, with the wrap to zero handled by a comparison
		if len(i.Co) == 1 && i.Co[0].N == 1 && i.C > 0 && i.C%2 == 1 && (i.Co[0].T.Op == "&" || i.Co[0].T.Op == "%" || i.Co[0].T.Op == "conv") && d > 0 {
			lim := eng.AddK(n, eng.Int(1), -1)
			in := p.F.Eval(eng.Gt(n, i)) == 1
			if m != nil && !in {
				mv := p.LoadField(p.Params[0], m, fieldIndex(r.shard, m))
				in = (mv == lim || !grown) && p.F.Eval(eng.Ge(mv, i)) == 1
			}
			return in && c.masked(p, r, i.Co[0].T, d-1)
		}
		return false
	case "%":
		if i.Args[1] == n {
			arg = i.Args[0]
		}
	case "conv":
		return c.masked(p, r, i.Args[0], d)
	}
	if arg == nil {
		return false
	}
	// the next position: previous + odd
	if arg.Op == "lin" && len(arg.Co) == 1 && arg.Co[0].N == 1 && (arg.Co[0].T.Op == "&" || arg.Co[0].T.Op == "%") {
		return arg.C%2 != 0 && d > 0 && c.masked(p, r, arg.Co[0].T, d-1)
	}
	return true
}

func ruleT03(c *Ctx) {
	c.rule("emit", "flushing emits every position in use exactly once, with its own key, bucket, amount and marker, and leaves it free with no amount and no marker; flushing one key does so for the positions of that key and leaves the others as they were")
	c.rule("all-shards", "flushing the accumulator flushes every shard into the slice that is returned")
	c.rule("shards", "an accumulator has at least one shard and every one of them is constructed")
	c.rule("route", "an S-envelope goes to exactly one existing shard, chosen from its key and bucket alone")
	r := c.shard()
	fns := []*ssa.Function{r.flush}
	if r.flushKey != nil && len(r.flushKey.Blocks) > 0 {
		fns = append(fns, r.flushKey)
	}
	for _, f := range fns {
		n := 0
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			c.flushStep(p, r, f)
			n += len(emitted(p))
		}
		c.check(n > 0, "emit", fname(f)+":emits", f.Pos(), "nothing is ever emitted")
	}
	// the accumulator
	fa := c.mustFn(tfdPkg, "SAccumulator.FlushAll")
	e := c.engine()
	e.Opaque[eng.FuncName(r.flush)] = true
	seen := false
	for _, p := range c.run(e, fa, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		var shards *eng.Term
		flushed := map[string]int{}
		k := int64(0)
		var out *eng.Term
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == eng.FuncName(r.flush) {
				seen = true
				rv := ev.Recv
				if rv.Op == "elem" {
					shards = rv.Args[0]
					flushed[rv.Args[1].String()]++
				}
				k++
				if out == nil {
					out = ev.Arg(0)
				}
				c.check(out == ev.Arg(0), "all-shards", "FlushAll:out", ev.Pos, "the shards are flushed into different slices")
			}
		}
		if shards == nil {
			// no iteration: only when there are no shards
			z := false
			for _, l := range p.Log {
				l.Cond.Walk(func(t *eng.Term) bool {
					if t.Op == "len" && p.F.Eval(eng.Eq0(t)) == 1 {
						z = true
					}
					return true
				})
			}
			c.check(z, "all-shards", "FlushAll", retPos(p), "a flush ends without flushing the shards (where %s)", c.cond(p))
			continue
		}
		c.check(p.F.Eval(eng.Ge(eng.Int(k), eng.LenOf(shards))) == 1 && len(flushed) == int(k), "all-shards", "FlushAll", retPos(p), "not every shard is flushed exactly once where %s", c.cond(p))
		c.check(len(p.Ret) == 1 && out != nil && p.Ret[0].Op == "mem" && p.Ret[0].Args[0] == out, "all-shards", "FlushAll:returned", retPos(p), "the slice that is returned is not the one the shards were flushed into (%s)", p.Ret[0])
	}
	c.check(seen, "all-shards", "FlushAll:calls", fa.Pos(), "no shard is flushed")
	c.accShards(r)
	// routing
	ai := c.mustFn(tfdPkg, "SAccumulator.Ingest")
	e = c.engine()
	e.Opaque[eng.FuncName(r.ingest)] = true
	routed := false
	for _, p := range c.run(e, ai, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		env := p.Params[1]
		scalar := p.F.Eval(eng.Eq0(eng.Sub(eng.FieldNamed(env, "Channel"), c.constOf(tfdPkg, "ChannelScalar"))))
		var calls []*eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == eng.FuncName(r.ingest) {
				calls = append(calls, ev)
			}
		}
		if scalar != 1 {
			c.check(len(calls) == 0, "route", "SAccumulator.Ingest:vector", retPos(p), "an envelope is merged into the table without knowing that it is scalar")
			if scalar == -1 {
				continue
			}
			if len(calls) > 0 {
				routed = true
				continue
			}
		}
		if !c.check(len(calls) == 1 && calls[0].Arg(0) == env, "route", "SAccumulator.Ingest", retPos(p), "a scalar envelope is merged %d times (or changed) where %s", len(calls), c.cond(p)) {
			continue
		}
		routed = true
		rv := calls[0].Recv
		if !c.check(rv.Op == "elem", "route", "SAccumulator.Ingest:shard", calls[0].Pos, "the shard is not taken from the accumulator's shards") {
			continue
		}
		idx, n := rv.Args[1], eng.LenOf(rv.Args[0])
		inRange := idx.Op == "%" && idx.Args[1] == n && isUnsignedTerm(idx)
		if z, ok := idx.IsInt(); ok {
			inRange = z == 0
		}
		c.check(inRange, "route", "SAccumulator.Ingest:index", calls[0].Pos, "the shard index %s is not an unsigned value modulo the number of shards", idx)
		det := true
		idx.Walk(func(t *eng.Term) bool {
			if t.Op == "fld" {
				if v, ok := t.Obj.(*types.Var); ok && t.Derived(func(x *eng.Term) bool { return x == env }) {
					det = det && (v.Name() == "KeyID" || v.Name() == "BucketID" || v.Name() == "Footprint" || v.Name() == "Time")
				}
			}
			if t.Ev != nil && t.Ev.Kind == "call" {
				det = false
			}
			return true
		})
		c.check(det, "route", "SAccumulator.Ingest:choice", calls[0].Pos, "the shard depends on more than the key and the bucket (%s)", idx)
	}
	c.check(routed, "route", "SAccumulator.Ingest:routes", ai.Pos(), "no scalar envelope is merged")
	c.min("emit", 5)
	c.min("all-shards", 3)
	c.min("route", 4)
}

func isUnsignedTerm(t *eng.Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// constOf is the value of a package constant.
func (c *Ctx) constOf(pkg, name string) *eng.Term {
	sp := c.ByPath[pkg]
	if sp != nil {
		if k, ok := sp.Members[name].(*ssa.NamedConst); ok {
			return eng.Int(k.Value.Int64())
		}
	}
	c.must(false, pkg+"."+name, "the constant does not exist")
	return nil
}

func (c *Ctx) flushStep(p *eng.Path, r *shardRoles, f *ssa.Function) {
	recv := p.Params[0]
	pos := retPos(p)
	name := fname(f)
	var only *eng.Term
	for _, q := range p.Params[1:] {
		if b, ok := q.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			only = q
		}
	}
	em := emitted(p)
	used0 := eng.FieldOf(recv, r.used)
	if p.F.Eval(eng.Eq0(used0)) == 1 && len(em) == 0 {
		c.check(len(c.written(p, r)) == 0, "emit", name+":empty", pos, "the table is changed although nothing is in use")
		return
	}
	n0 := eng.LenOf(eng.FieldOf(recv, r.occ.cont))
	k := int64(0)
	count := 0
	at := map[*eng.Term][]emission{}
	for _, x := range em {
		_, i, ok := cellOf(eng.FieldNamed(x.val, "NetDelta"), recv)
		if !c.check(ok, "emit", name+":amount", x.ev.Pos, "a batch is emitted with the amount %s, which is no position's amount", eng.FieldNamed(x.val, "NetDelta")) {
			return
		}
		at[i] = append(at[i], x)
		for n, role := range map[string]cellRole{"KeyID": r.key, "BucketID": r.bucket, "NetDelta": r.sum, "SeqEnd": r.seq} {
			c.check(eng.FieldNamed(x.val, n) == entryCell(p, role, i), "emit", name+":"+n, x.ev.Pos, "a batch is emitted with %s %s instead of the position's own %s", n, eng.FieldNamed(x.val, n), entryCell(p, role, i))
		}
		c.check(x.ev.Addr.Op == "deref" && x.ev.Addr.Args[0] == p.Params[len(p.Params)-1] || x.ev.Addr.Op == "append", "emit", name+":out", x.ev.Pos, "the batch is not appended to the output slice")
	}
	var handed *eng.Term
	for _, ev := range p.Events {
		if ev.Kind == "store" && ev.Addr == p.Params[len(p.Params)-1] {
			handed = ev.Arg(0)
		}
	}
	if len(em) > 0 {
		c.check(handed != nil && handed == em[len(em)-1].ev.Res[0], "emit", name+":handed", pos, "what was emitted is not stored in the caller's slice")
	}
	for ; p.F.Eval(eng.Gt(n0, eng.Int(k))) == 1; k++ {
		i := eng.Int(k)
		occ := inUse(p, entryCell(p, r.occ, i))
		mine := 1
		if only != nil {
			mine = p.F.Eval(eng.Eq(entryCell(p, r.key, i), only, only.Typ))
		}
		want := and3(occ, mine)
		if want == 0 {
			c.check(false, "emit", name+":looked", pos, "position %d is passed over without looking whether it is in use (where %s)", k, c.cond(p))
			return
		}
		if want == 1 {
			count++
			c.check(len(at[i]) == 1, "emit", name+":once", pos, "a position in use is emitted %d times (where %s)", len(at[i]), c.cond(p))
			c.check(inUse(p, c.finalCell(p, r, r.occ, i)) == -1, "emit", name+":freed", pos, "an emitted position stays in use, so that it is emitted again by the next flush")
			for _, role := range []cellRole{r.sum, r.seq} {
				z, ok := c.finalCell(p, r, role, i).IsInt()
				c.check(ok && z == 0, "emit", name+":cleared:"+role.String(), pos, "an emitted position keeps its %s, which the next cell stored there inherits", role)
			}
		} else {
			c.check(len(at[i]) == 0, "emit", name+":foreign", pos, "a position that is not due is emitted (where %s)", c.cond(p))
			for _, role := range []cellRole{r.occ, r.key, r.bucket, r.sum, r.seq} {
				v := c.finalCell(p, r, role, i)
				z, isc := v.IsInt()
				c.check(v == entryCell(p, role, i) || occ == -1 && isc && z == 0, "emit", name+":kept:"+role.String(), pos, "the %s of a position that is not due is changed", role)
			}
		}
	}
	if only != nil || true {
		c.check(p.F.Eval(eng.Ge(eng.Int(k), n0)) == 1, "emit", name+":complete", pos, "only the first %d positions are looked at where %s", k, c.cond(p))
	}
	u := p.LoadField(recv, r.used, fieldIndex(r.shard, r.used))
	z, isc := u.IsInt()
	ok := eng.Sub(used0, u) == eng.Int(int64(count))
	if only == nil {
		ok = ok || isc && z == 0
	}
	c.check(ok, "emit", name+":count", pos, "the count of positions in use becomes %s after %d positions were emitted", u, count)
}

var _ = strings.TrimSpace

// accShards checks that a new accumulator has at least one shard and that all exist.
func (c *Ctx) accShards(r *shardRoles) {
	acc := c.typ(tfdPkg, "SAccumulator")
	c.must(acc != nil, "SAccumulator", "the accumulator type does not exist")
	var shards *types.Var
	for _, f := range c.fields(tfdPkg, "SAccumulator") {
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if pt, ok := sl.Elem().(*types.Pointer); ok && types.Identical(pt.Elem(), r.shard) {
				shards = f
			}
		}
	}
	if shards == nil {
		return
	}
	ctor := c.mustFn(tfdPkg, "NewSAccumulator")
	e := c.engine()
	for _, f := range c.Funcs {
		// the tables themselves are another rule's business
		if c.pkgOf(f) == tfdPkg && f.Parent() == nil && f.Signature.Results().Len() == 1 {
			if pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), r.shard) {
				e.Opaque[eng.FuncName(f)] = true
			}
		}
	}
	n := 0
	for _, p := range c.run(e, ctor, nil, nil, nil) {
		if p.End == "panic" {
			c.check(false, "shards", "NewSAccumulator:panic", ctor.Pos(), "constructing an accumulator panics where %s", c.cond(p))
			continue
		}
		if p.End != "return" || len(p.Ret) != 1 {
			continue
		}
		n++
		obj := p.Ret[0].Unwrap()
		s := p.LoadField(obj, shards, fieldIndex(acc, shards))
		l := eng.LenOf(s)
		c.check(p.F.Eval(eng.Ge(l, eng.Int(1))) == 1, "shards", "NewSAccumulator:some", retPos(p), "an accumulator can have no shard (%s of them)", l)
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr.Op == "ia" && ev.Addr.Args[0] == s {
				c.check(p.F.Eval(eng.Ge(ev.Addr.Args[1], l)) != 1, "shards", "NewSAccumulator:outside", ev.Pos, "shard %s of %s is constructed: an accumulator cannot be built", ev.Addr.Args[1], l)
			}
		}
		k := int64(0)
		for ; k < 8 && p.F.Eval(eng.Gt(l, eng.Int(k))) == 1; k++ {
			v := eng.LoadElem(p.Mem, s, k)
			c.check(v != nil && (v.Ev != nil || v.Op == "new" || v.Op == "alloc") && p.F.Eval(eng.Eq(v, eng.Nil, nil)) != 1, "shards", "NewSAccumulator:each", retPos(p), "shard %d of %s is not constructed (%s)", k, l, v)
		}
		c.check(k == 8 || p.F.Eval(eng.Ge(eng.Int(k), l)) == 1, "shards", "NewSAccumulator:all", retPos(p), "construction ends before every shard exists (%d of %s, where %s)", k, l, c.cond(p))
	}
	c.min("shards", 2)
}
