package eng

import (
	"go/types"
	"math"
	"sort"
)

// Facts is the branch-condition domain: truth of opaque booleans plus interval,
// equality and disequality constraints on affine forms.
type Facts struct {
	b   map[string]bool
	bt  map[string]*Term
	lin map[string]*rng
	all []form // the inequalities of lin, rebuilt on demand
}

type rng struct {
	form   *Term // affine form without constant, first coefficient positive
	lo, hi int64
	ne     []int64
}

func newFacts() *Facts {
	return &Facts{b: map[string]bool{}, bt: map[string]*Term{}, lin: map[string]*rng{}}
}

func (f *Facts) clone() *Facts {
	n := newFacts()
	for k, v := range f.b {
		n.b[k] = v
	}
	for k, v := range f.bt {
		n.bt[k] = v
	}
	for k, v := range f.lin {
		c := *v
		c.ne = append([]int64(nil), v.ne...)
		n.lin[k] = &c
	}
	return n
}

// norm splits t into s*form + c with a canonical form.
func norm(t *Term) (form *Term, s, c int64) {
	co, c := parts(t)
	m := map[*Term]int64{}
	s = 1
	if co[0].N < 0 {
		s = -1
	}
	for _, x := range co {
		m[x.T] = s * x.N
	}
	return mkLin(m, 0, nil), s, c
}

const inf = math.MaxInt64

func (f *Facts) get(form *Term) (lo, hi int64, ne []int64) {
	lo, hi = -inf, inf
	if r, ok := f.lin[form.K]; ok {
		lo, hi, ne = r.lo, r.hi, r.ne
	}
	if form.Op == "len" || form.Op == "cap" {
		if lo < 0 {
			lo = 0
		}
	}
	if form.Op == "&" { // masked by a constant
		for _, a := range form.Args {
			if n, ok := a.IsInt(); ok && n >= 0 {
				lo, hi = max(lo, 0), min(hi, n)
			}
		}
	}
	return
}

func (f *Facts) set(form *Term, lo, hi int64, ne []int64) bool {
	for changed := true; changed; {
		changed = false
		for _, n := range ne {
			if n == lo && lo != -inf {
				lo++
				changed = true
			}
			if n == hi && hi != inf {
				hi--
				changed = true
			}
		}
	}
	f.lin[form.K] = &rng{form, lo, hi, ne}
	f.all = nil
	return lo <= hi
}

// Assume adds cond (or its negation) and reports whether the result is feasible.
func (f *Facts) Assume(cond *Term, val bool) bool {
	if v, ok := cond.IsBool(); ok {
		return v == val
	}
	switch cond.Op {
	case "not":
		return f.Assume(cond.Args[0], !val)
	case "ge0":
		t := cond.Args[0]
		if !val {
			t = AddK(Neg(t), Int(1), -1)
		}
		form, s, c := norm(t)
		lo, hi, ne := f.get(form)
		if s > 0 { // form + c >= 0
			if -c > lo {
				lo = -c
			}
		} else if c < hi { // -form + c >= 0
			hi = c
		}
		return f.set(form, lo, hi, ne) && f.pairOK(form)
	case "eq0":
		form, s, c := norm(cond.Args[0])
		v := -c * s
		lo, hi, ne := f.get(form)
		if val {
			if v < lo || v > hi {
				return false
			}
			for _, n := range ne {
				if n == v {
					return false
				}
			}
			return f.set(form, v, v, ne) && f.pairOK(form)
		}
		return f.set(form, lo, hi, append(append([]int64(nil), ne...), v))
	}
	if old, ok := f.b[cond.K]; ok {
		return old == val
	}
	if cond.Op == "and" {
		open := -1
		for i, x := range cond.Args {
			if val {
				if !f.Assume(x, true) {
					return false
				}
				continue
			}
			switch f.Eval(x) {
			case -1:
				return true
			case 0:
				if open >= 0 {
					f.b[cond.K] = false
					f.bt[cond.K] = cond
					return true
				}
				open = i
			}
		}
		return val || open >= 0 && f.Assume(cond.Args[open], false)
	}
	if cond.Op == "eq" && val {
		// equal to one constant: different from the others
		for i := 0; i < 2; i++ {
			if cond.Args[i].Op != "const" && cond.Args[i].Op != "nil" {
				continue
			}
			x := cond.Args[1-i]
			for k, t := range f.bt {
				if t.Op == "eq" && f.b[k] && t != cond {
					for j := 0; j < 2; j++ {
						if t.Args[1-j] == x && (t.Args[j].Op == "const" || t.Args[j].Op == "nil") && t.Args[j] != cond.Args[i] {
							return false
						}
					}
				}
			}
		}
	}
	f.b[cond.K] = val
	f.bt[cond.K] = cond
	if l := emptiness(cond); l != nil {
		// x == "" says that len(x) == 0
		lo, hi, ne := f.get(l)
		if val {
			hi = min(hi, 0)
		} else {
			lo = max(lo, 1)
		}
		return f.set(l, lo, hi, ne) && f.pairOK(l)
	}
	return true
}

// emptiness is len(x) when cond is x == "".
func emptiness(cond *Term) *Term {
	if cond.Op != "eq" {
		return nil
	}
	for i, a := range cond.Args {
		if v, ok := a.IsStr(); ok && v == "" {
			if x := cond.Args[1-i]; x.Op != "const" {
				return mk(Term{Op: "len", Args: []*Term{x}, Typ: types.Typ[types.Int]})
			}
		}
	}
	return nil
}

// pairOK looks for a contradiction between the constraint just added and each
// other constraint (two affine inequalities summing to a negative constant).
func (f *Facts) pairOK(form *Term) bool {
	a := f.lin[form.K]
	for _, t := range bounds(a) {
		// t >= 0 was just added: infeasible if -t-1 >= 0 follows from the rest
		if f.impliesGe0(AddK(Neg(t), Int(1), -1)) {
			return false
		}
	}
	return true
}

// bounds lists the inequalities t >= 0 a range stands for.
func bounds(r *rng) []*Term {
	var out []*Term
	if r.lo != -inf {
		out = append(out, AddK(r.form, Int(r.lo), -1))
	}
	if r.hi != inf {
		out = append(out, Sub(Int(r.hi), r.form))
	}
	return out
}

// Eval returns 1 if cond is implied, -1 if its negation is, 0 otherwise.
func (f *Facts) Eval(cond *Term) int {
	if v, ok := cond.IsBool(); ok {
		if v {
			return 1
		}
		return -1
	}
	switch cond.Op {
	case "not":
		return -f.Eval(cond.Args[0])
	case "ge0":
		if f.impliesGe0(cond.Args[0]) {
			return 1
		}
		if f.impliesGe0(AddK(Neg(cond.Args[0]), Int(1), -1)) {
			return -1
		}
		return 0
	case "eq0":
		t := cond.Args[0]
		if f.impliesGe0(t) && f.impliesGe0(Neg(t)) {
			return 1
		}
		if f.impliesGe0(AddK(t, Int(1), -1)) || f.impliesGe0(AddK(Neg(t), Int(1), -1)) {
			return -1
		}
		form, s, c := norm(t)
		if r, ok := f.lin[form.K]; ok {
			for _, n := range r.ne {
				if n == -c*s {
					return -1
				}
			}
		}
		return 0
	}
	if v, ok := f.b[cond.K]; ok {
		if v {
			return 1
		}
		return -1
	}
	if l := emptiness(cond); l != nil {
		if r, ok := f.lin[l.K]; ok {
			if r.lo >= 1 {
				return -1
			}
			if r.hi <= 0 {
				return 1
			}
			for _, n := range r.ne {
				if n == 0 {
					return -1
				}
			}
		}
	}
	if cond.Op == "and" {
		r := 1
		for _, x := range cond.Args {
			if v := f.Eval(x); v < r {
				r = v
			}
		}
		return r
	}
	if cond.Op == "eq" {
		for i := 0; i < 2; i++ {
			if cond.Args[i].Op != "const" && cond.Args[i].Op != "nil" {
				continue
			}
			x := cond.Args[1-i]
			for k, t := range f.bt {
				if t.Op == "eq" && f.b[k] {
					for j := 0; j < 2; j++ {
						if t.Args[1-j] == x && (t.Args[j].Op == "const" || t.Args[j].Op == "nil") && t.Args[j] != cond.Args[i] {
							return -1
						}
					}
				}
			}
		}
	}
	return 0
}

// form is an affine form outside the intern table.
type form struct {
	m map[*Term]int64
	c int64
}

func formOf(t *Term) form {
	co, c := parts(t)
	m := make(map[*Term]int64, len(co))
	for _, x := range co {
		m[x.T] = x.N
	}
	return form{m, c}
}

// impliesGe0 decides t >= 0 by rewriting t as a sum of at most four known
// inequalities (with small positive multipliers) plus a non-negative constant.
func (f *Facts) impliesGe0(t *Term) bool {
	if n, ok := t.IsInt(); ok {
		return n >= 0
	}
	if f.all == nil {
		f.all = []form{}
		var rs []*rng
		for _, r := range f.lin {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].form.ID < rs[j].form.ID })
		for _, r := range rs {
			if r.lo != -inf {
				g := formOf(r.form)
				g.c -= r.lo
				f.all = append(f.all, g)
			}
			if r.hi != inf {
				g := formOf(r.form)
				for k, v := range g.m {
					g.m[k] = -v
				}
				g.c = r.hi - g.c
				f.all = append(f.all, g)
			}
		}
		sort.SliceStable(f.all, func(i, j int) bool { return len(f.all[i].m) < len(f.all[j].m) })
	}
	all := f.all
	extra := false
	add := func(g form) {
		if !extra {
			all = append([]form(nil), all...)
			extra = true
		}
		all = append(all, g)
	}
	seen := map[*Term]bool{}
	nn := map[*Term]int{}
	var nonneg func(x *Term) bool
	nonneg = func(x *Term) bool {
		if v, ok := nn[x]; ok {
			return v == 1
		}
		nn[x] = 0
		r := false
		switch x.Op {
		case "len", "cap":
			r = true
		case "|", ">>":
			r = nonneg(x.Args[0]) && (x.Op == ">>" || nonneg(x.Args[1]))
		case "&":
			r = nonneg(x.Args[0]) || nonneg(x.Args[1])
		}
		if !r {
			if n, ok := x.IsInt(); ok {
				r = n >= 0
			} else {
				n := deduceBudget
				r = deduce(formOf(x), f.all, 3, &n)
			}
		}
		if r {
			nn[x] = 1
		}
		return r
	}
	t.Walk(func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		switch x.Op {
		case "len", "cap":
			add(form{map[*Term]int64{x: 1}, 0})
		case "|":
			if nonneg(x.Args[0]) && nonneg(x.Args[1]) {
				for _, a := range x.Args {
					g := formOf(a)
					for k, v := range g.m {
						g.m[k] = -v
					}
					g.c = -g.c
					g.m[x]++
					add(g)
				}
			}
		case "&":
			for _, a := range x.Args {
				if nonneg(a) {
					add(form{map[*Term]int64{x: 1}, 0})
					g := formOf(a)
					g.m[x]--
					add(g)
				}
			}
		case ">>":
			if nonneg(x.Args[0]) {
				add(form{map[*Term]int64{x: 1}, 0})
			}
		}
		return true
	})
	d := 4
	if extra {
		d = 10
	}
	n := deduceBudget
	return deduce(formOf(t), all, d, &n)
}

// deduceBudget bounds the combinations one question may try.
const deduceBudget = 4000

func deduce(t form, all []form, depth int, budget *int) bool {
	if len(t.m) == 0 {
		return t.c >= 0
	}
	*budget--
	if depth == 0 || *budget < 0 {
		return false
	}
	// pick the symbol with the smallest id: some inequality must cancel it
	var v *Term
	for x := range t.m {
		if v == nil || x.ID < v.ID {
			v = x
		}
	}
	k := t.m[v]
	for _, a := range all {
		ka := a.m[v]
		if ka == 0 || (ka > 0) != (k > 0) || k%ka != 0 {
			continue
		}
		q := k / ka
		n := form{make(map[*Term]int64, len(t.m)+len(a.m)), t.c - q*a.c}
		for x, y := range t.m {
			n.m[x] = y
		}
		for x, y := range a.m {
			if z := n.m[x] - q*y; z == 0 {
				delete(n.m, x)
			} else {
				n.m[x] = z
			}
		}
		if deduce(n, all, depth-1, budget) {
			return true
		}
	}
	return false
}

// Clone copies a set of facts, for rules that look at a case of their own.
func (f *Facts) Clone() *Facts { return f.clone() }

// value is the value of t when the facts leave one of 0..max.
func (f *Facts) value(t *Term, max int64) (int64, bool) {
	for v := int64(0); v <= max; v++ {
		if f.Eval(Eq0(Sub(t, Int(v)))) == 1 {
			return v, true
		}
	}
	return 0, false
}

// NewFacts is an empty set of facts.
func NewFacts() *Facts { return newFacts() }
