package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

func init() { reg("T15", ruleT15) }

// counterName is the name of the metric a term is.
func counterName(t *eng.Term) string {
	if t == nil {
		return ""
	}
	t = t.Unwrap()
	if t.Ev == nil || !strings.Contains(t.Ev.Name, "prometheus.New") && !strings.Contains(t.Ev.Name, "promauto.") {
		return ""
	}
	for _, a := range t.Ev.Args {
		if f := eng.FieldNamed(a.Unwrap(), "Name"); f != nil {
			if s, ok := f.IsStr(); ok {
				return s
			}
		}
	}
	return ""
}

// counts lists how often each metric is incremented within a stretch of a path; Add is
// listed with what is added.
func counts(p *eng.Path, from, to int) (incs map[string]int, adds map[string][]*eng.Term) {
	incs, adds = map[string]int{}, map[string][]*eng.Term{}
	for _, ev := range p.Events {
		if ev.Seq <= from || ev.Seq >= to || ev.Kind != "call" {
			continue
		}
		n := counterName(ev.Recv)
		if n == "" {
			continue
		}
		switch ev.Name[strings.LastIndexByte(ev.Name, '.')+1:] {
		case "Inc":
			incs[n]++
		case "Add":
			if k, ok := stripConv(ev.Arg(0)).IsInt(); ok {
				incs[n] += int(k)
				continue
			}
			adds[n] = append(adds[n], ev.Arg(0))
		}
	}
	return
}

func ruleT15(c *Ctx) {
	c.rule("lanes", "an operation that reached the S lane is counted as one S operation, one that reached the V lane as one V operation, a refused one as neither; each ingestion that found the buffer full is counted once")
	c.rule("total", "each generated operation is counted once in the total (a refused one at most once)")
	c.rule("compression", "each compression adds the number of batches it was given and the number it returned, and returns what the transformer it wraps returned for all it was given")
	c.rule("registered", "every metric that is counted is registered, and the tools serve their metrics")
	c.rule("coverage", "generated operations are made for the S lane exactly when the random draw is below the configured coverage")
	m := c.mustFn(simPkg, "main")
	check := func(what string, p *eng.Path, cl *eng.Event, from, to int, gen bool) {
		incs, _ := counts(p, from, to)
		pos := cl.Pos
		failed := 0
		for _, ev := range calls(p, "tfd.SService).TryIngest") {
			if ev.Seq > cl.Seq && ev.Seq < to && len(ev.Res) == 1 && p.F.Eval(ev.Res[0]) == -1 {
				failed++
			}
		}
		s, v := 0, 0
		if errNil(p, errOf(cl)) == 1 {
			if p.F.Eval(eng.Eq0(eng.Sub(cl.Res[0], c.constOf(tfdPkg, "ChannelScalar")))) == 1 {
				s = 1
			} else {
				v = 1
			}
		}
		at, _ := counts(p, cl.Seq, to)
		c.check(at["tfd_s_ops"] == s && at["tfd_v_ops"] == v, "lanes", what+":lane", pos, "one operation is counted as %d S and %d V operations instead of %d and %d (where %s)", at["tfd_s_ops"], at["tfd_v_ops"], s, v, c.cond(p))
		c.check(at["tfd_try_ingest_fail_total"] == failed, "lanes", what+":full", pos, "%d ingestions that found the buffer full are counted %d times (where %s)", failed, at["tfd_try_ingest_fail_total"], c.cond(p))
		if refused := errNil(p, errOf(cl)) == -1; gen {
			c.check(incs["tfd_total_ops"] == 1 || refused && incs["tfd_total_ops"] == 0, "total", what, pos, "one generated operation is counted %d times in the total (where %s)", incs["tfd_total_ops"], c.cond(p))
		}
	}
	n := 0
	for _, p := range c.toolRoute(simPkg, "/consume", 0) {
		if cl := calls(p, "tfd.Classify"); p.End == "return" && len(cl) == 1 && errNil(p, errOf(cl[0])) != 0 {
			n++
			check("tfd-sim/consume", p, cl[0], -1, len(p.Events), false)
		}
	}
	c.check(n > 1, "lanes", "tfd-sim/consume:paths", m.Pos(), "no request was decided")
	// generator
	evs, end := c.goBodies(simPkg)
	n = 0
	for _, g := range evs {
		fn, args, bind := goTarget(g)
		if fn == nil || !c.reaches(fn, "tfd.Classify") {
			continue
		}
		e := c.engine()
		e.MaxIter = 2
		c.opaque(e, tfdPkg, sinksPkg)
		for _, p := range c.run(e, fn, args, bind, g.Mem) {
			cl := calls(p, "tfd.Classify")
			from := -1
			for i, ev := range cl {
				to := len(p.Events)
				if i+1 < len(cl) {
					// what is counted in advance for the next operation belongs to that one
					to = cl[i+1].Seq
					for _, x := range p.Events {
						if x.Seq > ev.Seq && x.Seq < to && x.Kind == "call" && (strings.HasPrefix(x.Name, "math/rand.") || strings.HasPrefix(x.Name, "(*math/rand.") || counterName(x.Recv) == "tfd_total_ops" && c.handedOrRefused(p, ev, x.Seq)) {
							to = x.Seq
							break
						}
					}
				} else if p.End == "cut" {
					break
				}
				if errNil(p, errOf(ev)) == 0 {
					from = to - 1
					continue
				}
				n++
				check("tfd-sim:generator", p, ev, from, to, true)
				c.coverage(p, ev, from)
				from = to - 1
			}
		}
	}
	c.check(n > 0, "total", "tfd-sim:generator", m.Pos(), "the simulator generates no operations")
	// compression
	n = 0
	if end != nil {
		for _, ev := range calls(end, "tfd.NewSService", "tfd.NewPipeline") {
			for _, a := range ev.Args {
				tr := a.Unwrap()
				if f := eng.FieldNamed(tr, "VSA"); f != nil {
					tr = f.Unwrap()
				}
				for _, f := range c.implementers(tfdPkg, "VSATransformer", "Compress") {
					if c.pkgOf(f) != simPkg || tr.Typ == nil || !types.Identical(deref(tr.Typ), deref(f.Params[0].Type())) {
						continue
					}
					n++
					c.compression(end, f, tr)
				}
			}
		}
	}
	c.check(n > 0, "compression", "tfd-sim", m.Pos(), "no counting transformer is used")
	// registration
	used := map[string]bool{"tfd_total_ops": true, "tfd_s_ops": true, "tfd_v_ops": true, "tfd_try_ingest_fail_total": true, "tfd_s_batches_in_total": true, "tfd_s_batches_out_total": true, "tfd_s_flush_interval_seconds": true}
	for _, p := range c.mainPaths(simPkg, tfdPkg, sinksPkg) {
		if p.End != "return" {
			continue
		}
		regd := map[string]int{}
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			if strings.Contains(ev.Name, "promauto.") && len(ev.Res) == 1 {
				regd[counterName(ev.Res[0])]++
			}
			if hasSuffix(ev.Name, "Registerer).MustRegister", "prometheus.MustRegister", "Registry).MustRegister", "Registerer).Register", "prometheus.Register", "Registry).Register") {
				for _, a := range ev.Args {
					l, ok := eng.ListOf(a)
					if !ok {
						l = []*eng.Term{a}
					}
					for _, x := range l {
						if k := counterName(x); k != "" {
							regd[k]++
						}
					}
				}
			}
		}
		for k := range used {
			c.check(regd[k] == 1, "registered", k, m.Pos(), "the metric %s is registered %d times", k, regd[k])
		}
	}
	for _, pkg := range []string{simPkg, proxyPkg} {
		ok := false
		for _, p := range c.mainPaths(pkg, tfdPkg, sinksPkg) {
			for _, ev := range p.Events {
				if ev.Kind == "call" && hasSuffix(ev.Name, "net/http.Handle", "net/http.ServeMux).Handle", "net/http.HandleFunc", "net/http.ServeMux).HandleFunc") {
					n := len(ev.Args)
					if s, is := ev.Arg(n - 2).IsStr(); is && (s == "/metrics" || s == "GET /metrics") {
						ok = ok || ev.Arg(n-1).Derived(func(t *eng.Term) bool {
							return t.Ev != nil && hasSuffix(t.Ev.Name, "promhttp.Handler", "promhttp.HandlerFor")
						})
					}
				}
			}
		}
		c.check(ok, "registered", pkg[4:]+":served", c.mustFn(pkg, "main").Pos(), "the metrics are not served at /metrics")
	}
	c.min("lanes", 4)
	c.min("total", 1)
	c.min("compression", 2)
	c.min("registered", 8)
	c.min("coverage", 1)
}

// handedOrRefused: before seq, the operation cl classified was dealt with.
func (c *Ctx) handedOrRefused(p *eng.Path, cl *eng.Event, seq int) bool {
	if errNil(p, errOf(cl)) == -1 {
		return true
	}
	for _, ev := range calls(p, "tfd.SService).Ingest", "tfd.SService).TryIngest", "VEnvFileSink).Append", "tfd.Pipeline).Handle") {
		if ev.Seq > cl.Seq && ev.Seq < seq {
			return true
		}
	}
	return false
}

// coverage: the lane an operation is made for follows the random draw.
func (c *Ctx) coverage(p *eng.Path, cl *eng.Event, from int) {
	drawn := func(x *eng.Term) bool {
		return x.Derived(func(u *eng.Term) bool {
			return u.Ev != nil && u.Ev.Seq > from && (strings.HasPrefix(u.Ev.Name, "(*math/rand") || strings.HasPrefix(u.Ev.Name, "math/rand"))
		})
	}
	// isDraw: t compares a draw with the coverage; below says what its truth means
	isDraw := func(t *eng.Term) (is, below bool) {
		if t.Op != "flt" && t.Op != "fle" || len(t.Args) != 2 {
			return
		}
		covered := func(x *eng.Term) bool {
			return flagIn(x, "s_coverage") || x.Op == "const"
		}
		switch {
		case drawn(t.Args[0]) && covered(t.Args[1]):
			return true, true
		case drawn(t.Args[1]) && covered(t.Args[0]):
			return true, false
		}
		return
	}
	draws := map[*eng.Term]bool{}
	pos := cl.Pos
	note := func(t *eng.Term) {
		for t.Op == "not" {
			t = t.Args[0]
		}
		if is, _ := isDraw(t); is {
			draws[t] = true
		}
	}
	for _, le := range p.Log {
		if le.Seq > from && le.Seq <= cl.Seq {
			note(le.Cond)
		}
	}
	op := cl.Arg(0)
	for _, n := range append([]string{"IsSingleKey", "IsConservativeDelta"}, vectorFlags...) {
		if f := eng.FieldNamed(op, n); f != nil {
			f.Derived(func(u *eng.Term) bool { note(u); return false })
		}
	}
	if !c.check(len(draws) == 1, "coverage", "tfd-sim:draw", pos, "an operation's lane is drawn %d times (where %s)", len(draws), c.cond(p)) {
		return
	}
	for t := range draws {
		_, below := isDraw(t)
		for _, v := range []bool{true, false} {
			f := p.F.Clone()
			if p.F.Eval(t) == map[bool]int{true: -1, false: 1}[v] || !f.Assume(t, v) {
				continue
			}
			lane, want := laneOf(op, f), -1
			if v == below {
				want = 1
			}
			c.check(lane == want, "coverage", "tfd-sim:generator", pos, "an operation drawn %s the coverage is made for lane %s", map[bool]string{true: "below", false: "above"}[v == below], map[int]string{1: "S", -1: "V", 0: "S or V"}[lane])
		}
	}
}

// compression: the counting transformer f, as wired, counts and passes on.
func (c *Ctx) compression(end *eng.Path, f *ssa.Function, tr *eng.Term) {
	e := c.engine()
	c.opaque(e, tfdPkg, sinksPkg)
	in := eng.App("batches", f.Params[1].Type())
	for _, p := range c.run(e, f, []*eng.Term{tr, in}, nil, end.Mem) {
		if p.End != "return" || len(p.Ret) != 1 || nilCounter(p) {
			continue
		}
		var inner *eng.Event
		k := 0
		for _, ev := range calls(p, ".Compress") {
			if ev.Arg(len(ev.Args)-1) == in {
				inner = ev
				k++
			}
		}
		pos := retPos(p)
		if !c.check(k == 1 && len(inner.Res) == 1 && p.Ret[0] == inner.Res[0], "compression", fname(f)+":inner", pos, "the batches are not compressed, once and all of them, by the wrapped transformer") {
			continue
		}
		_, adds := counts(p, -1, len(p.Events))
		one := func(name string, of *eng.Term) {
			l := adds[name]
			c.check(len(l) == 1 && stripConv(l[0]) == eng.LenOf(of), "compression", fname(f)+":"+name, pos, "%s is not advanced by the number of batches (where %s)", name, c.cond(p))
		}
		one("tfd_s_batches_in_total", in)
		one("tfd_s_batches_out_total", inner.Res[0])
	}
}

// nilCounter: the path takes a metric that was made to be missing.
func nilCounter(p *eng.Path) bool {
	for _, le := range p.Log {
		t, v := le.Cond, le.Val
		for t.Op == "not" {
			t, v = t.Args[0], !v
		}
		if !v || t.Op != "eq" && t.Op != "isnil" {
			continue
		}
		isNil, ctr := t.Op == "isnil", false
		for _, a := range t.Args {
			if a.Unwrap() == eng.Nil {
				isNil = true
			}
			ctr = ctr || counterName(a) != ""
		}
		if isNil && ctr {
			return true
		}
	}
	return false
}
