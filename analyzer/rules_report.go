package main

import (
	"go/types"
	"strings"

	"vsacheck/eng"

	"golang.org/x/tools/go/ssa"
)

// ---- C12: the final report ----

func init() { reg("C12", ruleC12) }

// printed is one value of a report with the text in front of it.
type printed struct {
	label string
	val   *eng.Term
	verb  byte
	ev    *eng.Event
}

// printedValues are the values a path prints, in order, each with the literal text that
// precedes it (constants printed through a verb count as text).
func printedValues(p *eng.Path) []printed {
	var out []printed
	label := ""
	add := func(v *eng.Term, verb byte, ev *eng.Event) {
		if s, ok := stripAs(v).IsStr(); ok && (figure(s) != "" || figure(label) == "") {
			label += " " + s
			return
		}
		out = append(out, printed{label, stripAs(v), verb, ev})
		label = ""
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		n := strings.TrimPrefix(ev.Name, "fmt.")
		if n == ev.Name || !strings.Contains(n, "rint") || strings.HasPrefix(n, "S") {
			continue
		}
		args := ev.Args
		if strings.HasPrefix(n, "F") {
			args = args[1:]
		}
		if !strings.HasSuffix(n, "f") {
			if len(args) == 1 {
				l, _ := eng.ListOf(args[0])
				for _, v := range l {
					add(v, 'v', ev)
				}
			}
			if strings.HasSuffix(n, "ln") {
				label = ""
			}
			continue
		}
		if len(args) != 2 {
			continue
		}
		f, ok := args[0].IsStr()
		l, _ := eng.ListOf(args[1])
		if !ok {
			continue
		}
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] == '\n' {
				label = ""
				continue
			}
			if f[i] != '%' {
				label += string(f[i])
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("0123456789.+-# *", f[i]) >= 0 {
				i++
			}
			if i < len(f) && f[i] != '%' {
				if k < len(l) {
					add(l[k], f[i], ev)
				}
				k++
			}
		}
	}
	return out
}

// figure tells which figure of the report a text names.
func figure(label string) string {
	l := strings.ToLower(label)
	for _, w := range [][2]string{{"reduction", "reduction"}, {"attempt", "attempt"}, {"event", "events"}, {"admit", "admit"}, {"refund", "refund"}, {"batches", "batch"}, {"writes", "write"}} {
		if strings.Contains(l, w[0]) {
			return w[1]
		}
	}
	return ""
}

func ruleC12(c *Ctx) {
	c.rule("figures", "each figure of the demo persister's report is the one its label names: attempts, admissions and refunds are the recorded totals, events the sum of admissions and refunds, writes and batches the totals its batches advanced")
	c.rule("reduction", "the write reduction is one minus writes per event, kept between 0 and 100 percent, and not computed without events")
	c.rule("settings", "a setting is recorded under its own name with its own value, and the report lists every recorded setting with its value")
	ctr := map[string]*eng.Term{}
	for _, n := range []string{"Attempt", "Admit", "Refund"} {
		for _, p := range c.run(c.engine(), c.mustFn(corePkg, "Record"+n), nil, nil, nil) {
			for _, ev := range p.Events {
				if ev.Kind == "atomic" && ev.Name == "Add" {
					ctr[n] = ev.Addr
				}
			}
		}
		c.must(ctr[n] != nil, "Record"+n, "no counter is updated")
	}
	var mp *types.Named
	for _, p := range c.run(c.engine(), c.mustFn(corePkg, "NewMockPersister"), nil, nil, nil) {
		if pt, ok := p.Ret[0].Unwrap().Typ.(*types.Pointer); ok {
			mp, _ = pt.Elem().(*types.Named)
		}
	}
	c.must(mp != nil, "NewMockPersister", "the demo persister's type is not known")
	name := mp.Obj().Name()
	// the totals of the persister, by how a batch advances them
	cb := c.mustFn(corePkg, name+".CommitBatch")
	kind := map[*types.Var]string{}
	for _, p := range c.run(c.engine(), cb, nil, nil, nil) {
		if p.End != "return" || p.F.Eval(eng.Gt(lenOfParam(p.Params[1]), eng.Int(1))) != 1 {
			continue
		}
		for _, f := range c.fields(corePkg, name) {
			if !isBasicInt(f.Type()) {
				continue
			}
			d := eng.Sub(p.LoadField(p.Params[0], f, fieldIndex(mp, f)), eng.FieldOf(p.Params[0], f))
			k := ""
			if v, ok := d.IsInt(); ok && v == 1 {
				k = "batch"
			} else if d == lenOfParam(p.Params[1]) || p.F.Eval(eng.Eq0(eng.Sub(d, lenOfParam(p.Params[1])))) == 1 {
				k = "write"
			}
			if o, ok := kind[f]; ok && o != k {
				k = ""
			}
			kind[f] = k
		}
	}
	rep := c.mustFn(corePkg, name+".PrintFinalMetrics")
	source := func(p *eng.Path, t *eng.Term) string {
		if t.Ev != nil && t.Ev.Kind == "atomic" && t.Ev.Name == "Load" {
			for n, a := range ctr {
				if t.Ev.Addr == a {
					return strings.ToLower(n)
				}
			}
		}
		if t.Op == "fld" && t.Args[0] == p.Params[0] {
			if v, ok := t.Obj.(*types.Var); ok {
				return kind[v]
			}
		}
		return ""
	}
	sources := func(p *eng.Path, t *eng.Term) map[string]bool {
		s := map[string]bool{}
		t.Derived(func(x *eng.Term) bool {
			if k := source(p, x); k != "" {
				s[k] = true
			}
			return false
		})
		return s
	}
	is := func(s map[string]bool, want ...string) bool {
		for _, w := range want {
			if !s[w] {
				return false
			}
		}
		return len(s) == len(want)
	}
	e := c.engine()
	e.MaxIter = 2
	seen := map[string]bool{}
	listed, full := 0, false
	for _, p := range c.run(e, rep, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		vals := printedValues(p)
		has := map[string]int{}
		for _, v := range vals {
			s := sources(p, v.val)
			what := figure(v.label)
			switch what {
			case "reduction":
				full = c.reduction(p, v, s, is, source) || full
			case "events":
				ok := is(s, "admit", "refund")
				if v.val.Op == "lin" {
					for _, co := range v.val.Co {
						ok = ok && co.N == 1
					}
					ok = ok && v.val.C == 0
				}
				c.check(ok, "figures", what, v.ev.Pos, "the number of events shown is %s", v.val)
			case "":
			default:
				c.check(is(s, what), "figures", what, v.ev.Pos, "the number of %ss shown is %s", what, v.val)
			}
			if what != "" {
				has[what]++
				seen[what] = true
				c.check(v.verb == 'd' || v.verb == 'v' || v.verb == 's', "figures", what+":format", v.ev.Pos, "a figure is shown with %%%c", v.verb)
			}
		}
		for _, w := range []string{"attempt", "admit", "refund", "write", "batch", "reduction"} {
			c.check(has[w] == 1, "figures", w+":once", retPos(p), "the report shows %s %d times (where %s)", w, has[w], c.cond(p))
		}
		// every recorded setting
		for i, ev := range p.Events {
			if ev.Kind != "next" || len(ev.Res) < 3 || p.F.Eval(ev.Res[0]) != 1 {
				continue
			}
			k := ev.Res[1]
			if ev.Addr != nil && ev.Addr.Op == "mkmap" {
				// a copy holds only what was put into it
				filled := false
				for _, o := range p.Events[:i] {
					filled = filled || o.Kind == "mapset" && o.Addr == ev.Addr
				}
				if !filled {
					continue
				}
			}
			if b, ok := k.Typ.Underlying().(*types.Basic); k.Typ != nil && (!ok || b.Info()&types.IsString == 0) {
				continue
			}
			ok := false
			for _, o := range p.Events[i+1:] {
				if o.Kind == "mapset" && o.Arg(0) == k && o.Arg(1) == ev.Res[2] {
					ok = true
				}
			}
			for j, v := range vals {
				if v.val == k && j+1 < len(vals) {
					w := vals[j+1].val
					ok = ok || w == ev.Res[2] || w.Op == "mapelem" && w.Args[1] == k && w.Args[0] == ev.Addr
				}
			}
			if c.check(ok, "settings", "report:listed", ev.Pos, "a recorded setting is missing from the report, or shown with another value (where %s)", c.cond(p)) {
				listed++
			}
		}
	}
	c.check(full, "reduction", "computed", rep.Pos(), "the write reduction is never computed from the writes and events")
	c.check(seen["events"] || seen["reduction"], "figures", "report", rep.Pos(), "the report shows no figures")
	c.check(listed > 0, "settings", "report:settings", rep.Pos(), "the report never lists a setting")
	c.settings()
	c.min("figures", 10)
	c.min("reduction", 3)
	c.min("settings", 5)
}

// reduction checks the value of the write reduction on one path; it tells whether it was
// computed (and not replaced by a bound or a placeholder).
func (c *Ctx) reduction(p *eng.Path, v printed, s map[string]bool, is func(map[string]bool, ...string) bool, source func(*eng.Path, *eng.Term) string) bool {
	src := func(t *eng.Term) map[string]bool {
		m := map[string]bool{}
		t.Walk(func(x *eng.Term) bool {
			if k := source(p, x); k != "" {
				m[k] = true
			}
			return true
		})
		return m
	}
	// the division, in the value or in what decided a bound
	var divs []*eng.Term
	look := func(t *eng.Term) bool {
		if t.Op == "/" && len(src(t)) > 0 {
			divs = append(divs, t)
		}
		return false
	}
	v.val.Derived(look)
	for _, l := range p.Log {
		l.Cond.Derived(look)
	}
	for _, d := range divs {
		c.check(is(src(d.Args[1]), "admit", "refund"), "reduction", "per-event", v.ev.Pos, "the writes are divided by %s instead of the events", d.Args[1])
		num := src(d.Args[0])
		c.check(num["write"] && !num["batch"] && !num["attempt"], "reduction", "writes", v.ev.Pos, "the write reduction is computed from %s", d.Args[0])
		ev := stripConv(d.Args[1])
		for ev.Op == "int->float" {
			ev = ev.Args[0]
		}
		c.check(p.F.Eval(eng.Gt(ev, eng.Int(0))) == 1 || p.F.Eval(eng.Eq0(ev)) == -1, "reduction", "no-events", v.ev.Pos, "the write reduction is computed without events (where %s)", c.cond(p))
	}
	// as a percentage, and the bounds
	var shown *eng.Term
	if v.val.Ev != nil && v.val.Ev.Name == "fmt.Sprintf" {
		f, _ := v.val.Ev.Arg(0).IsStr()
		if l, ok := eng.ListOf(v.val.Ev.Arg(1)); ok && len(l) == 1 && strings.HasSuffix(f, "%%") {
			if t := stripAs(l[0]); t.Op == "*" && len(t.Args) == 2 {
				shown = t.Args[0]
				if shown.String() == "100" {
					shown = t.Args[1]
				} else {
					c.check(t.Args[1].String() == "100", "reduction", "percent", v.ev.Pos, "the percentage shown is %s", t)
				}
			}
		}
	}
	if shown != nil {
		for _, l := range p.Log {
			if l.Cond.Op != "flt" || !l.Val || len(l.Cond.Args) != 2 {
				continue
			}
			a, b := l.Cond.Args[0], l.Cond.Args[1]
			if b.String() == "0" && len(src(a)) > 0 {
				c.check(shown.String() == "0", "reduction", "bound", v.ev.Pos, "a negative write reduction is shown as %s", shown)
			}
			if a.String() == "1" && len(src(b)) > 0 {
				c.check(shown.String() == "1", "reduction", "bound", v.ev.Pos, "a write reduction above one is shown as %s", shown)
			}
		}
	}
	if len(s) == 0 {
		// a bound or a placeholder
		if len(divs) == 0 {
			sum := eng.Int(0)
			for _, ev := range p.Events {
				if ev.Kind == "atomic" && len(ev.Res) == 1 {
					if k := source(p, ev.Res[0]); k == "admit" || k == "refund" {
						sum = eng.Add(sum, ev.Res[0])
					}
				}
			}
			c.check(p.F.Eval(eng.Gt(sum, eng.Int(0))) == -1, "reduction", "placeholder", v.ev.Pos, "no write reduction is shown although there may have been events (where %s)", c.cond(p))
		}
		return false
	}
	c.check(is(s, "write", "admit", "refund"), "reduction", "value", v.ev.Pos, "the write reduction shown is %s", v.val)
	one := false
	v.val.Derived(func(t *eng.Term) bool {
		if t.Op == "-" && len(t.Args) == 2 {
			for _, d := range divs {
				// 1 - writes/events
				one = one || t.Args[1] == d && t.Args[0].String() == "1" && is(src(d.Args[0]), "write")
			}
		}
		for _, d := range divs {
			// (events - writes)/events
			one = one || t == d && is(src(d.Args[0]), "write", "admit", "refund")
		}
		return false
	})
	c.check(one, "reduction", "formula", v.ev.Pos, "the write reduction shown is %s, which is not one minus writes per event", v.val)
	return true
}

// settings checks the setters of reported settings.
func (c *Ctx) settings() {
	base := c.mustFn(corePkg, "SetThreshold")
	var fns []*ssa.Function
	for _, f := range c.Funcs {
		if c.pkgOf(f) == corePkg && f.Parent() == nil && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "SetThreshold") && f.Signature.Params().Len() == 2 {
			fns = append(fns, f)
		}
	}
	var table *eng.Term
	for _, f := range append([]*ssa.Function{base}, fns...) {
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			n := 0
			for _, ev := range p.Events {
				if ev.Kind != "mapset" {
					continue
				}
				n++
				if table == nil {
					table = ev.Addr
				}
				c.check(ev.Addr == table && ev.Arg(0) == p.Params[0], "settings", f.Name()+":name", ev.Pos, "the setting is recorded under %s in %s", ev.Arg(0), ev.Addr)
				v := ev.Arg(1)
				own := v == p.Params[1] || v.Derived(func(t *eng.Term) bool { return t == p.Params[1] })
				c.check(own, "settings", f.Name()+":value", ev.Pos, "the setting is recorded with the value %s", v)
				if v.Ev != nil && v.Ev.Name == "fmt.Sprintf" {
					c.check(plainVerb(v.Ev.Arg(0)), "settings", f.Name()+":format", ev.Pos, "the setting is recorded in the form %s", v.Ev.Arg(0))
				}
			}
			c.check(n == 1, "settings", f.Name(), retPos(p), "the setting is recorded %d times", n)
		}
	}
}

// plainVerb: the format shows one value in full and nothing else.
func plainVerb(f *eng.Term) bool {
	s, ok := f.IsStr()
	if !ok {
		return false
	}
	switch s {
	case "%d", "%v", "%t", "%g", "%s", "%f":
		return true
	}
	return false
}
