package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"vsacheck/eng"

	"golang.org/x/tools/go/ssa"
)

// Loops that can never end, and open-addressed tables whose probing skips positions.

type natLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	back []*ssa.BasicBlock
}

func natLoops(f *ssa.Function) []*natLoop {
	var out []*natLoop
	for _, h := range f.Blocks {
		l := &natLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
		for _, b := range h.Preds {
			if !h.Dominates(b) {
				continue
			}
			l.back = append(l.back, b)
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
		if len(l.back) > 0 {
			out = append(out, l)
		}
	}
	return out
}

// effects: the loop can change what its own loads see, or waits for others.
func (l *natLoop) effects() bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap" || bi.Name() == "min" || bi.Name() == "max") {
					continue
				}
				return true
			case *ssa.Store, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.Next, *ssa.Go, *ssa.Defer, *ssa.RunDefers:
				return true
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return true
				}
			}
		}
	}
	return false
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func unconv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// step classifies what one round does to a phi: "same", "even" (an even stride under a mask)
// or "" (it moves, or is not decided).
func step(phi *ssa.Phi, v ssa.Value) string {
	v = unconv(v)
	if v == ssa.Value(phi) {
		return "same"
	}
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return ""
	}
	switch bo.Op {
	case token.ADD, token.SUB:
		x, k := bo.X, bo.Y
		if _, isc := constInt(k); !isc && bo.Op == token.ADD {
			x, k = bo.Y, bo.X
		}
		if n, isc := constInt(k); isc && unconv(x) == ssa.Value(phi) {
			switch {
			case n == 0:
				return "same"
			case n%2 == 0:
				return "evenadd"
			}
		}
	case token.AND, token.REM:
		x := unconv(bo.X)
		s := ""
		if ib, ok := x.(*ssa.BinOp); ok {
			s = step(phi, ib)
		} else if ib, ok := unconv(bo.Y).(*ssa.BinOp); ok && bo.Op == token.AND {
			s = step(phi, ib)
		} else if x == ssa.Value(phi) {
			s = "same"
		}
		if s == "evenadd" || s == "even" {
			return "even"
		}
		return s
	case token.SHL:
		if n, ok := constInt(bo.Y); ok && unconv(bo.X) == ssa.Value(phi) && (n == 0 || startsAtZero(phi)) {
			return "same"
		}
	case token.MUL:
		x, k := bo.X, bo.Y
		if _, isc := constInt(k); !isc {
			x, k = bo.Y, bo.X
		}
		if n, ok := constInt(k); ok && unconv(x) == ssa.Value(phi) && (n == 1 || startsAtZero(phi)) {
			return "same"
		}
	}
	return ""
}

func startsAtZero(phi *ssa.Phi) bool {
	for _, e := range phi.Edges {
		if n, ok := constInt(e); ok && n == 0 {
			return true
		}
	}
	return false
}

// fixed: the value cannot change from one round of the loop to the next.
// stable says which fields never change after the structure was made.
func (l *natLoop) fixed(v ssa.Value, eff bool, stable map[*types.Var]bool, seen map[ssa.Value]bool) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.body[in.Block()] {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() != l.head {
			for _, e := range x.Edges {
				if !l.fixed(e, eff, stable, seen) {
					return false
				}
			}
			// which edge is taken could still vary
			return len(x.Edges) == 0
		}
		for i, p := range l.head.Preds {
			if l.body[p] && step(x, x.Edges[i]) != "same" {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return l.fixed(x.X, eff, stable, seen) && l.fixed(x.Y, eff, stable, seen)
	case *ssa.Convert:
		return l.fixed(x.X, eff, stable, seen)
	case *ssa.ChangeType:
		return l.fixed(x.X, eff, stable, seen)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && stable[structField(fa)] {
			return l.fixed(x.X, eff, stable, seen)
		}
		if x.Op == token.ARROW || x.Op == token.MUL && eff {
			return false
		}
		return l.fixed(x.X, eff, stable, seen)
	case *ssa.IndexAddr:
		return l.fixed(x.X, eff, stable, seen) && l.fixed(x.Index, eff, stable, seen)
	case *ssa.Index:
		return l.fixed(x.X, eff, stable, seen) && l.fixed(x.Index, eff, stable, seen)
	case *ssa.FieldAddr:
		return l.fixed(x.X, eff, stable, seen)
	case *ssa.Field:
		return l.fixed(x.X, eff, stable, seen)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return l.fixed(x.Call.Args[0], eff, stable, seen)
		}
		// a swap that failed fails again with the same expectation
		if isSwap(x) {
			old := x.Call.Args[1]
			_, lit := old.(*ssa.Const)
			return !lit && l.fixed(x.Call.Args[0], eff, stable, seen) && l.fixed(old, eff, stable, seen)
		}
	}
	return false
}

func isSwap(x *ssa.Call) bool {
	cf := x.Call.StaticCallee()
	return cf != nil && cf.Pkg != nil && cf.Pkg.Pkg.Path() == "sync/atomic" && strings.HasPrefix(cf.Name(), "CompareAndSwap")
}

// stableFields are the fields of the module's structures that only the function that makes a
// structure sets.
func (c *Ctx) stableFields() map[*types.Var]bool {
	changed := map[*types.Var]bool{}
	all := map[*types.Var]bool{}
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				v := structField(fa)
				all[v] = true
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if u, ok := ref.(*ssa.UnOp); !ok || u.Op != token.MUL {
						changed[v] = true
					}
				}
			}
		}
	}
	for v := range changed {
		delete(all, v)
	}
	return all
}

func ruleG07(c *Ctx) {
	c.rule("progress", "every loop has an exit whose condition can change from one round to the next, or waits for somebody else")
	fns := map[*ssa.Function]bool{}
	n := 0
	for _, f := range c.Funcs {
		if len(natLoops(f)) > 0 {
			fns[f] = true
			n++
		}
	}
	c.progress("progress", fns)
	c.check(n >= 20, "progress", "loops", token.NoPos, "only %d functions with loops were found", n)
	c.min("progress", 30)
}

// progress reports loops none of whose exits can open once a round did not take it, and
// probing that skips positions.
func (c *Ctx) progress(rule string, fns map[*ssa.Function]bool) bool {
	good := true
	is := func(ok bool, construct string, pos token.Pos, f string) {
		good = c.check(ok, rule, construct, pos, "%s", f) && good
	}
	stable := c.stableFields()
	for f := range fns {
		for _, l := range natLoops(f) {
			pos := f.Pos()
			for _, in := range l.head.Instrs {
				if in.Pos().IsValid() {
					pos = in.Pos()
					break
				}
			}
			eff := l.effects()
			exits, open := 0, false
			for b := range l.body {
				out := false
				for _, s := range b.Succs {
					out = out || !l.body[s]
				}
				if !out {
					continue
				}
				exits++
				if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					open = open || !l.fixed(i.Cond, eff, stable, map[ssa.Value]bool{})
				} else {
					open = true
				}
			}
			if exits == 0 && !eff {
				open = false
			} else if exits == 0 {
				open = true
			}
			for b := range l.body {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok && isSwap(call) {
						again := l.fixed(call, eff, stable, map[ssa.Value]bool{})
						is(!again, fname(f)+":retry", call.Pos(), "a compare-and-swap that failed is tried again with the value expected before: once another goroutine was faster it never succeeds")
					}
				}
			}
			is(open, fname(f)+":loop", pos, "the loop makes no progress: what decides its end never changes")
			for _, in := range l.head.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok || !types.Identical(phi.Type().Underlying(), types.Typ[types.Int]) && !isBasicInt(phi.Type()) {
					continue
				}
				for i, p := range l.head.Preds {
					if l.body[p] {
						is(step(phi, phi.Edges[i]) != "even", fname(f)+":stride", pos, "probing advances by an even stride under a mask and skips every other position")
					}
				}
			}
		}
	}
	return good
}

// powerOfTwo: a table size that is built by doubling from a power of two.
// 1 yes, -1 no, 0 not decided.
func powerOfTwo(v ssa.Value, seen map[ssa.Value]bool) int {
	v = unconv(v)
	if seen[v] {
		return 1
	}
	seen[v] = true
	if n, ok := constInt(v); ok {
		if n > 0 && n&(n-1) == 0 {
			return 1
		}
		return -1
	}
	switch x := v.(type) {
	case *ssa.Phi:
		r := 1
		for _, e := range x.Edges {
			r = and3(r, powerOfTwo(e, seen))
		}
		return r
	case *ssa.BinOp:
		switch x.Op {
		case token.SHL:
			return powerOfTwo(x.X, seen)
		case token.MUL:
			return and3(powerOfTwo(x.X, seen), powerOfTwo(x.Y, seen))
		}
	}
	return 0
}

// scratchTable checks a local open-addressed table: positions stay inside it, its size is a
// power of two when it is masked, and it has room for every key of the input.
func (c *Ctx) scratchTable(rule string, fns map[*ssa.Function]bool) bool {
	good := true
	is := func(ok bool, construct string, pos token.Pos, f string) {
		good = c.check(ok, rule, construct, pos, "%s", f) && good
	}

	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.AND || !indexes(bo) {
					continue
				}
				tab, _ := tableOf(bo)
				mk, ok := tab.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				for _, m := range []ssa.Value{bo.Y} {
					m = unconv(m)
					lim := false
					switch x := m.(type) {
					case *ssa.BinOp:
						one, isc := constInt(x.Y)
						size := unconv(x.X)
						lim = x.Op == token.SUB && isc && one == 1 && (size == unconv(mk.Len) || isLenOf(size, mk))
						is(lim, fname(f)+":mask", bo.Pos(), "positions are reduced by something else than the table size minus one")
					case *ssa.Phi, *ssa.Convert, *ssa.Call:
						is(m != unconv(mk.Len) && !isLenOf(m, mk), fname(f)+":mask", bo.Pos(), "positions are reduced by the table size instead of the size minus one")
					}
				}
				is(powerOfTwo(mk.Len, map[ssa.Value]bool{}) != -1, fname(f)+":size", mk.Pos(), "the size of a masked table is not a power of two")
				is(roomFor(mk.Len) != -1, fname(f)+":room", mk.Pos(), "the table can have fewer positions than there are keys, so that probing never ends")
			}
		}
	}
	return good
}

// indexes: the value is used as a position, directly or through a phi.
func indexes(v ssa.Value) bool { t, _ := tableOf(v); return t != nil }

func tableOf(v ssa.Value) (ssa.Value, bool) {
	var found ssa.Value
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 3 {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				if r.Index == v && found == nil {
					found = r.X
				}
			case *ssa.Phi:
				walk(r, d+1)
			case *ssa.Convert:
				walk(r, d+1)
			}
		}
	}
	walk(v, 0)
	return found, found != nil
}

func isLenOf(v ssa.Value, of ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == of
}

// roomFor: the size is the first of a doubling sequence that is not below what the loop
// compares it with; that must not be less than the length of the input.
func roomFor(v ssa.Value) int {
	phi, ok := unconv(v).(*ssa.Phi)
	if !ok || phi.Referrers() == nil {
		return 0
	}
	for _, r := range *phi.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS && bo.Op != token.LEQ || bo.X != ssa.Value(phi) {
			continue
		}
		if x, ok := unconv(bo.Y).(*ssa.BinOp); ok {
			k, isc := constInt(x.Y)
			switch {
			case (x.Op == token.QUO && isc && k > 1) || (x.Op == token.SHR && isc && k > 0):
				return -1
			case x.Op == token.SUB && isc && k > 0 && bo.Op == token.LSS && k > 1:
				return -1
			}
		}
		return 1
	}
	return 0
}

// neverHolds: the structure field v is only ever given literal values, and want is not among
// them nor what it starts with, so a compare-and-swap that expects want never succeeds.
func (c *Ctx) neverHolds(v *types.Var, want *eng.Term) bool {
	lit := func(x ssa.Value) (string, bool) {
		k, ok := unconv(x).(*ssa.Const)
		if !ok {
			return "", false
		}
		if k.Value == nil {
			return "0", true
		}
		switch k.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(k.Value) {
				return "1", true
			}
			return "0", true
		case constant.Int:
			return k.Value.ExactString(), true
		}
		return "", false
	}
	var w string
	if n, ok := want.IsInt(); ok {
		w = strconv.FormatInt(n, 10)
	} else if isTrue(want) {
		w = "1"
	} else if isFalse(want) {
		w = "0"
	} else {
		return false
	}
	held := map[string]bool{}
	set := false // by the function that makes the structure
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || structField(fa) != v {
					continue
				}
				_, fresh := fa.X.(*ssa.Alloc)
				for _, ref := range *fa.Referrers() {
					var val ssa.Value
					switch ref := ref.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if ref.Addr != ssa.Value(fa) {
							return false
						}
						val = ref.Val
						set = set || fresh
					case *ssa.Call:
						cf := ref.Call.StaticCallee()
						if cf == nil || cf.Pkg == nil || cf.Pkg.Pkg.Path() != "sync/atomic" {
							return false
						}
						switch {
						case strings.HasPrefix(cf.Name(), "Load"):
							continue
						case strings.HasPrefix(cf.Name(), "Store"), strings.HasPrefix(cf.Name(), "Swap"):
							val = ref.Call.Args[1]
						case strings.HasPrefix(cf.Name(), "CompareAndSwap"):
							val = ref.Call.Args[2]
							if old, ok := lit(ref.Call.Args[1]); ok && old == w {
								continue // only happens when it succeeds
							}
						default:
							return false
						}
					default:
						return false
					}
					k, ok := lit(val)
					if !ok {
						return false
					}
					held[k] = true
				}
			}
		}
	}
	if !set {
		held["0"] = true
	}
	return !held[w]
}

// gateOpens reports a one-time gate that can never be won.
func (c *Ctx) gateOpens(rule, construct string, ev *eng.Event) {
	if ev.Kind != "atomic" || ev.Name != "CompareAndSwap" || ev.Addr == nil || ev.Addr.Op != "fa" {
		return
	}
	if v, ok := ev.Addr.Obj.(*types.Var); ok {
		c.check(!c.neverHolds(v, ev.Arg(0)), rule, construct+":gate", ev.Pos, "%s never holds %s, so that this is never reached", v.Name(), ev.Arg(0))
	}
}
