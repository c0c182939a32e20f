package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

func init() {
	reg("K01", ruleK01)
	reg("K02", ruleK02)
	reg("K03", ruleK03)
	reg("K04", ruleK04)
	reg("K05", ruleK05)
}

// churn is what the telemetry rules know about the package.
type churn struct {
	metric map[string]string // variable holding a metric -> metric name
	flag   *eng.Term         // address of the on/off switch
	hash   *ssa.Function     // the key hash, when it is a function of its own
	obs    []*ssa.Function   // what records: exported functions that reach a metric or the aggregates
}

func isMetricCall(ev *eng.Event) bool {
	return ev.Kind == "call" && strings.HasPrefix(ev.Name, "(github.com/prometheus/client_golang/prometheus.")
}

func (c *Ctx) churn() *churn {
	t := &churn{metric: map[string]string{}}
	pkg := c.mustFn(churnPkg, "Enable").Pkg
	for _, p := range c.run(c.engine(), pkg.Func("init"), nil, nil, nil) {
		for _, st := range p.Events {
			if st.Kind != "store" {
				continue
			}
			ev := st.Arg(0).Unwrap().Ev
			if ev == nil || !strings.HasPrefix(ev.Name, "github.com/prometheus/client_golang/prometheus.New") {
				continue
			}
			if s, ok := eng.FieldNamed(ev.Arg(0), "Name").IsStr(); ok {
				t.metric[strings.TrimPrefix(st.Addr.String(), "&")] = s
			}
		}
	}
	for _, f := range c.Funcs {
		if c.pkgOf(f) == churnPkg && f.Parent() == nil && f.Signature.Recv() == nil && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1 {
			if isBasic(f.Signature.Params().At(0).Type(), types.String) && isBasic(f.Signature.Results().At(0).Type(), types.Uint64) {
				t.hash = f
			}
		}
	}
	for _, p := range c.enablePaths() {
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Store" && len(p.Params) == 1 && ev.Arg(0) == eng.FieldNamed(p.Params[0], "Enabled") {
				t.flag = ev.Addr
			}
		}
		if t.flag != nil {
			break
		}
	}
	c.must(t.flag != nil, "switch", "Enable does not store its switch")
	for _, f := range c.Funcs {
		if c.pkgOf(f) == churnPkg && f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil && f.Name() != "Enable" && f.Signature.Params().Len() > 0 {
			t.obs = append(t.obs, f)
		}
	}
	return t
}

func isBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// enablePaths are the paths of Enable; what only looks at the environment is not followed.
func (c *Ctx) enablePaths() []*eng.Path {
	e := c.engine()
	for _, f := range c.Funcs {
		if c.pkgOf(f) == churnPkg && c.reachesCall(f, "os.Getenv") && !c.reachesKind(f, func(in ssa.Instruction) bool {
			switch in.(type) {
			case *ssa.Go, *ssa.Send, *ssa.MapUpdate, *ssa.Select:
				return true
			}
			return false
		}) {
			e.Opaque[eng.FuncName(f)] = true
		}
	}
	return c.run(e, c.mustFn(churnPkg, "Enable"), nil, nil, nil)
}

func (c *Ctx) reachesKind(f *ssa.Function, is func(ssa.Instruction) bool) bool {
	for g := range c.graph().reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					return true
				}
			}
		}
	}
	return false
}

func (t *churn) name(ev *eng.Event) string {
	if ev.Recv == nil {
		return ""
	}
	return t.metric[strings.TrimPrefix(ev.Recv.String(), "&")]
}

// enabled: 1 when the path saw the switch on, -1 off, 0 not looked at.
func (t *churn) enabled(p *eng.Path) int {
	for _, ev := range p.Events {
		if ev.Kind == "atomic" && ev.Name == "Load" && ev.Addr == t.flag {
			if r := p.F.Eval(ev.Res[0]); r != 0 {
				return r
			}
		}
	}
	return 0
}

// hashed: h is the hash of the whole key.
func (t *churn) hashed(p *eng.Path, h, key *eng.Term) bool {
	if h == nil || h.Ev == nil {
		return false
	}
	if t.hash != nil && h.Ev.Name == eng.FuncName(t.hash) {
		return h.Ev.Arg(0) == key
	}
	if !hasSuffix(h.Ev.Name, "hash.Hash64).Sum64") {
		return false
	}
	n := 0
	for _, ev := range p.Events[:h.Ev.Seq] {
		if ev.Kind == "call" && ev.Recv == h.Ev.Recv && hasSuffix(ev.Name, ".Write", ".WriteString") {
			n++
			if stripConv(ev.Arg(0)) != key && !(len(ev.Arg(0).Args) == 1 && ev.Arg(0).Args[0] == key) {
				return false
			}
		}
	}
	return n == 1
}

func (c *Ctx) obsPaths(t *churn, f *ssa.Function) []*eng.Path {
	e := c.engine()
	if t.hash != nil {
		e.Opaque[eng.FuncName(t.hash)] = true
	}
	return c.run(e, f, nil, nil, nil)
}

// effect: the event changes something outside the call, or may block.
func effect(ev *eng.Event) bool {
	switch ev.Kind {
	case "store", "mapset", "mapdel", "send", "recv", "select", "go", "lock", "rlock", "close", "panic", "maprange":
		return true
	case "atomic":
		return ev.Name != "Load"
	case "call":
		return !hasSuffix(ev.Name, "time.Now", "time.Time).UnixNano") && !strings.HasPrefix(ev.Name, "hash/") && !strings.HasPrefix(ev.Name, "math.")
	}
	return false
}

func ruleK01(c *Ctx) {
	c.rule("off", "with the switch off, nothing an observer does changes a metric, an aggregate or anything else")
	c.rule("nonblocking", "no observer takes a lock of the module, waits on a channel, sleeps, prints or starts a goroutine")
	t := c.churn()
	for _, f := range t.obs {
		on := false
		for _, p := range c.obsPaths(t, f) {
			if p.End != "return" {
				continue
			}
			en := t.enabled(p)
			on = on || en == 1
			for _, ev := range p.Events {
				if en != 1 {
					c.check(!effect(ev) || ev.Kind == "call" && t.hash != nil && ev.Name == eng.FuncName(t.hash), "off", fname(f), ev.Pos, "%s %s although telemetry is off, or without looking (where %s)", ev.Kind, ev.Name, c.cond(p))
				}
				blocks := false
				switch ev.Kind {
				case "lock", "rlock", "send", "recv", "select", "go":
					blocks = true
				case "call":
					blocks = hasSuffix(ev.Name, "time.Sleep") || strings.HasPrefix(ev.Name, "fmt.Print") || strings.HasPrefix(ev.Name, "fmt.Fprint") || strings.HasPrefix(ev.Name, "log.") || strings.Contains(ev.Name, "net/http") || strings.Contains(ev.Name, "sync.WaitGroup).Wait") || strings.HasPrefix(ev.Name, "(*os.File)") || strings.HasPrefix(ev.Name, "runtime.")
				}
				c.check(!blocks, "nonblocking", fname(f), ev.Pos, "an observer may block: %s %s", ev.Kind, ev.Name)
			}
		}
		c.check(on, "off", fname(f)+":on", f.Pos(), "the observer does nothing when telemetry is on")
	}
	c.min("off", 8)
	c.min("nonblocking", 4)
}

func ruleK02(c *Ctx) {
	c.rule("hashed", "a key given to telemetry reaches nothing but its hash: no metric, label, aggregate, log line or other variable holds it")
	c.rule("no-labels", "no metric has labels")
	t := c.churn()
	keyed := 0
	for _, f := range t.obs {
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if !isBasic(f.Signature.Params().At(i).Type(), types.String) {
				continue
			}
			keyed++
			for _, p := range c.obsPaths(t, f) {
				key := p.Params[i]
				raw := func(x *eng.Term) bool {
					return x != nil && x.Derived(func(y *eng.Term) bool { return y == key })
				}
				for _, ev := range p.Events {
					leak := false
					switch ev.Kind {
					case "enter", "leave", "defer", "ret":
						continue
					case "call":
						if t.hash != nil && ev.Name == eng.FuncName(t.hash) || hashCall(ev) {
							continue
						}
					case "lstore":
						continue
					}
					for _, a := range append([]*eng.Term{ev.Recv, ev.Addr}, ev.Args...) {
						leak = leak || raw(a) && !hashedOnly(a, key, t)
					}
					c.check(!leak, "hashed", fname(f)+":"+f.Signature.Params().At(i).Name(), ev.Pos, "the key itself is handed to %s %s", ev.Kind, ev.Name)
				}
			}
		}
	}
	c.check(keyed >= 2, "hashed", "keyed observers", c.mustFn(churnPkg, "Enable").Pos(), "fewer observers take a key than expected")
	if t.hash != nil {
		c.pure(t.hash, "hashed")
		c.wholeInput(t.hash, "hashed")
		for _, p := range c.run(c.engine(), t.hash, nil, nil, nil) {
			for _, ev := range p.Events {
				switch ev.Kind {
				case "call":
					if hashCall(ev) || hasSuffix(ev.Name, ".Sum64") {
						continue
					}
				case "store", "mapset", "send", "atomic":
				default:
					continue
				}
				for _, a := range append([]*eng.Term{ev.Recv}, ev.Args...) {
					c.check(a == nil || !a.Derived(func(y *eng.Term) bool { return y == p.Params[0] }), "hashed", fname(t.hash)+":"+ev.Kind, ev.Pos, "the key hash hands the key to %s", ev.Name)
				}
			}
		}
	}
	for _, f := range c.Funcs {
		if c.pkgOf(f) != churnPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						n := eng.FuncName(g)
						c.check(!strings.HasPrefix(n, "github.com/prometheus/") || !strings.HasSuffix(n, "Vec"), "no-labels", fname(f), in.Pos(), "a metric with labels is created: %s", n)
						c.check(!hasSuffix(n, ".WithLabelValues", ").With"), "no-labels", fname(f), in.Pos(), "a metric is used with labels: %s", n)
					}
				}
			}
		}
	}
	c.min("hashed", 3)
}

func hashCall(ev *eng.Event) bool {
	return strings.HasPrefix(ev.Name, "hash/") || hasSuffix(ev.Name, "(io.Writer).Write", "(io.StringWriter).WriteString") && ev.Recv != nil && ev.Recv.Ev != nil && strings.HasPrefix(ev.Recv.Ev.Name, "hash/")
}

// hashedOnly: every occurrence of the key in a is inside a call that hashes it.
func hashedOnly(a, key *eng.Term, t *churn) bool {
	bad := false
	a.Walk(func(x *eng.Term) bool {
		if x == key {
			bad = true
		}
		return !bad
	})
	return !bad
}

func ruleK03(c *Ctx) {
	c.rule("serial", "the exporter is stopped, awaited and started only under one lock, and at most one is started by a call")
	c.rule("restart", "a running exporter is told to stop and has ended before another is started or the configuration without one is in force")
	c.rule("wanted", "no exporter is started when telemetry is off or the interval is not positive, and one is started otherwise")
	c.rule("ticker-positive", "the exporter's ticker never gets a period that is not positive, whatever other calls configure meanwhile")
	c.rule("loop", "the exporter publishes at ticks, ends when it is told to, and then reports its end on every way out")
	en := c.mustFn(churnPkg, "Enable")
	started, decided := 0, 0
	seen := map[string]bool{}
	// what the code takes as a sign that an exporter runs
	running := map[*eng.Term]int{}
	paths := c.enablePaths()
	stopSlots, doneSlots := map[string]bool{}, map[string]bool{}
	for _, p := range paths {
		for _, ev := range p.Events {
			if ev.Kind == "close" {
				stopSlots[slotName(ev.Addr)] = true
			}
			if ev.Kind == "recv" {
				doneSlots[slotName(ev.Addr)] = true
			}
		}
	}
	for _, p := range paths {
		for _, ev := range p.Events {
			if ev.Kind != "close" {
				continue
			}
			for _, l := range p.Log {
				if l.Seq <= ev.Seq && l.Cond.Derived(func(x *eng.Term) bool {
					return x.Op == "glob" || x.Op == "atLoad" || x.Op == "sym" && x.Ev != nil && x.Ev.Kind == "atomic"
				}) {
					running[l.Cond] = map[bool]int{true: 1, false: -1}[l.Val]
				}
			}
			break
		}
	}
	for _, p := range paths {
		if p.End != "return" {
			continue
		}
		cfg := p.Params[0]
		on := p.F.Eval(eng.FieldNamed(cfg, "Enabled"))
		pos := p.F.Eval(eng.Gt(eng.FieldNamed(cfg, "LogInterval"), eng.Int(0)))
		var loop *eng.Event
		for _, ev := range p.Events {
			if ev.Kind != "go" {
				continue
			}
			g, _, _ := goTarget(ev)
			if g == nil || !c.reachesCall(g, "time.NewTicker") && !c.reachesCall(g, "time.Tick") {
				continue
			}
			c.check(loop == nil, "serial", "once", ev.Pos, "one call starts two exporters")
			loop = ev
		}
		switch {
		case loop != nil:
			started++
			c.check(on == 1 && pos == 1, "wanted", "start", loop.Pos, "an exporter is started although telemetry need not be on with a positive interval (where %s)", c.cond(p))
		case and3(on, pos) != -1:
			c.check(false, "wanted", "none", retPos(p), "no exporter is started although telemetry is on with a positive interval (where %s)", c.cond(p))
		default:
			c.ob("wanted", "none")
		}
		// the exporter that ran before
		var stop, wait *eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "close" && stop == nil {
				stop = ev
			}
			if ev.Kind == "recv" && wait == nil {
				wait = ev
			}
			if ev.Kind == "close" || ev.Kind == "recv" || ev == loop || ev.Kind == "store" && ev.Addr != nil && ev.Addr.Typ != nil && strings.Contains(ev.Addr.Typ.String(), "chan") {
				c.check(len(ev.Held) > 0, "serial", ev.Kind, ev.Pos, "the exporter's state is used without its lock")
			}
		}
		if stop != nil {
			decided++
			c.check(stop.Addr.Op != "glob" || p.F.Eval(eng.Eq(stop.Addr, eng.Nil, nil)) == -1, "restart", "nil", stop.Pos, "the request to stop is made although there need not be an exporter: closing a channel that is nil panics (where %s)", c.cond(p))
			forgotten := false
			for _, ev := range p.Events[stop.Seq:] {
				forgotten = forgotten || ev.Kind == "store" && ev.Addr.Op == "global" && stop.Addr != nil && ev.Addr.String() == "&"+stop.Addr.String() && ev.Arg(0) != stop.Addr
			}
			c.check(forgotten || stop.Addr.Op != "glob", "restart", "forget", stop.Pos, "the request to stop is left in place, so that it is made again, and panics, with the next call (where %s)", c.cond(p))
			if c.check(wait != nil && wait.Seq > stop.Seq, "restart", "wait", stop.Pos, "an exporter is told to stop, but its end is not waited for") && loop != nil {
				c.check(loop.Seq > wait.Seq, "restart", "order", loop.Pos, "a second exporter is started before the first has ended")
			}
		} else {
			none := false
			for _, l := range p.Log {
				none = none || running[l.Cond] != 0 && (running[l.Cond] > 0) != l.Val
			}
			c.check(none, "restart", "stopped", retPos(p), "an exporter that runs is not stopped (where %s)", c.cond(p))
		}
		if loop == nil {
			continue
		}
		// what is started
		g, args, bind := goTarget(loop)
		key := fname(g)
		for _, a := range append(append([]*eng.Term(nil), args...), bind...) {
			key += "|" + a.String()
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		e := c.engine()
		for _, f := range c.Funcs {
			if c.pkgOf(f) == churnPkg && f != g && c.setsMetric(f) && !c.reachesCall(f, "time.NewTicker") && !c.reachesCall(f, "time.Tick") {
				e.Opaque[eng.FuncName(f)] = true
			}
		}
		pub := false
		for _, q := range c.run(e, g, args, bind, loop.Mem) {
			for _, ev := range calls(q, "time.NewTicker", "time.Tick", "time.Ticker).Reset") {
				good := q.F.Eval(eng.Gt(ev.Arg(0), eng.Int(0))) == 1 || p.F.Eval(eng.Gt(ev.Arg(0), eng.Int(0))) == 1
				c.check(good, "ticker-positive", fname(g), ev.Pos, "the period %s need not be positive when the exporter gets to run, in which case NewTicker panics", ev.Arg(0))
				want := eng.Eq(ev.Arg(0), eng.FieldNamed(cfg, "LogInterval"), nil)
				c.check(p.F.Eval(want) == 1 || q.F.Eval(want) == 1, "loop", fname(g)+":period", ev.Pos, "the exporter publishes every %s, not at the interval it was enabled with", ev.Arg(0))
			}
			var last *eng.Event
			stopped := false
			for i, ev := range q.Events {
				switch ev.Kind {
				case "call":
					stopped = stopped || hasSuffix(ev.Name, "time.Ticker).Stop")
				case "select":
					c.check(!stopped, "loop", fname(g)+":ticks", ev.Pos, "the exporter waits for ticks of a ticker that was stopped")
					ok := false
					for _, ch := range ev.Args {
						ok = ok || c.stopOf(p, ch, stopSlots)
					}
					c.check(ok && ev.Mode == "blocking", "loop", fname(g)+":listens", ev.Pos, "the exporter waits without listening for the request to stop")
				case "recv":
					last = ev
					if ev.Mode != "select" {
						c.check(c.stopOf(p, ev.Addr, stopSlots), "loop", fname(g)+":listens", ev.Pos, "the exporter waits without listening for the request to stop")
					}
					if isTickRecv(ev) {
						// published before the next wait
						for _, x := range q.Events[i+1:] {
							if x.Kind == "select" || x.Kind == "recv" || x.Kind == "ret" {
								break
							}
							if x.Kind == "call" && x.Fn != nil && c.pkgOf(x.Fn) == churnPkg && c.setsMetric(x.Fn) {
								pub = true
							}
						}
					}
				}
			}
			if q.End == "return" {
				c.check(last != nil && c.stopOf(p, last.Addr, stopSlots), "loop", fname(g)+":ends", retPos(q), "the exporter ends without being told to")
				closed := false
				for _, ev := range q.Events {
					closed = closed || (ev.Kind == "close" || ev.Kind == "send") && c.stopOf(p, ev.Addr, doneSlots)
				}
				c.check(closed, "loop", fname(g)+":reports", retPos(q), "the exporter ends without reporting it: the next Enable waits forever")
			} else if q.End == "panic" {
				c.check(false, "loop", fname(g)+":panic", g.Pos(), "the exporter may panic (where %s)", c.cond(q))
			}
		}
		c.check(pub, "loop", fname(g)+":publishes", g.Pos(), "nothing is published at a tick")
	}
	c.check(started > 0 && decided > 0, "restart", "paths", en.Pos(), "Enable never starts or never stops an exporter")
	c.min("loop", 4)
}

// stopOf: ch is a channel made or stored by the spawning path (not a ticker's).
func (c *Ctx) stopOf(p *eng.Path, ch *eng.Term, slots map[string]bool) bool {
	ch = stripConv(ch)
	if ch == nil || ch.Op != "mkchan" {
		return false
	}
	for _, ev := range p.Events {
		if ev.Kind != "store" {
			continue
		}
		if stripConv(ev.Arg(0)) == ch && slots[slotName(ev.Addr)] {
			return true
		}
		v := ev.Arg(0).Unwrap()
		if n := derefNamed(v.Typ); v.Typ != nil && v.Op != "struct" && n != nil {
			if st, ok := n.Underlying().(*types.Struct); ok {
				for k := 0; k < st.NumFields(); k++ {
					if slots[st.Field(k).Name()] && stripConv(p.LoadField(v, st.Field(k), k)) == ch {
						return true
					}
				}
			}
		}
		if v.Op == "struct" && v.Typ != nil {
			if st, ok := v.Typ.Underlying().(*types.Struct); ok {
				for k := range v.Args {
					if stripConv(v.Args[k]) == ch && slots[st.Field(k).Name()] {
						return true
					}
				}
			}
		}
	}
	return false
}

// slotName is the variable or field a location or a value loaded from it belongs to.
func slotName(t *eng.Term) string {
	t = stripConv(t)
	if t == nil {
		return ""
	}
	s := t.String()
	return strings.TrimLeft(s[strings.LastIndexByte(s, '.')+1:], "&*")
}

func (c *Ctx) setsMetric(f *ssa.Function) bool {
	return c.reachesKind(f, func(in ssa.Instruction) bool {
		call, ok := in.(ssa.CallInstruction)
		if !ok || !call.Common().IsInvoke() {
			return false
		}
		m := call.Common().Method
		return m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), "github.com/prometheus/") && m.Name() == "Set"
	})
}

// metricDelta is how much a path adds to a metric; nil when it does something else with it.
func (t *churn) metricDelta(p *eng.Path, name string) *eng.Term {
	sum := eng.Int(0)
	for _, ev := range p.Events {
		if !isMetricCall(ev) || t.name(ev) != name {
			continue
		}
		switch {
		case hasSuffix(ev.Name, ".Inc"):
			sum = eng.Add(sum, eng.Int(1))
		case hasSuffix(ev.Name, ".Add", ".Observe"):
			sum = eng.Add(sum, unfloat(ev.Arg(0)))
		default:
			return nil
		}
	}
	return sum
}

func unfloat(t *eng.Term) *eng.Term {
	t = stripConv(t)
	if t != nil && t.Op == "int->float" {
		return t.Args[0]
	}
	if t != nil && t.Op == "const" && t.Val.Kind() == constant.Float {
		if v := constant.ToInt(t.Val); v.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v); ok {
				return eng.Int(n)
			}
		}
	}
	return t
}

func addDelta(p *eng.Path, addr *eng.Term) *eng.Term {
	sum := eng.Int(0)
	for _, ev := range p.Events {
		if ev.Kind == "atomic" && ev.Addr == addr && ev.Name != "Load" {
			if ev.Name != "Add" {
				return nil
			}
			sum = eng.Add(sum, ev.Arg(0))
		}
	}
	return sum
}

// kpi is what a snapshot computes its ratios from.
type kpi struct {
	naive, commits, abs, net *eng.Term // addresses of the counters
	last                     types.Object
}

// snapshots runs the functions that set the KPI gauges.
func (c *Ctx) snapshots(t *churn, iter int) (f *ssa.Function, paths []*eng.Path) {
	for _, g := range c.Funcs {
		if c.pkgOf(g) != churnPkg || g.Parent() != nil || !c.setsMetric(g) {
			continue
		}
		sub := false // the outermost one that is not the exporter's loop
		for _, h := range c.Funcs {
			if h != g && c.pkgOf(h) == churnPkg && c.setsMetric(h) && !c.reachesCall(h, "time.NewTicker") && h.Parent() == nil && c.graph().reach(h)[g] {
				sub = true
			}
		}
		if !sub && !c.reachesCall(g, "time.NewTicker") {
			c.must(f == nil, "snapshot", "two functions publish")
			f = g
		}
	}
	c.must(f != nil, "snapshot", "no function publishes the gauges")
	e := c.engine()
	e.MaxIter = iter
	e.MaxPaths = 300000
	for _, g := range c.Funcs {
		if c.pkgOf(g) != churnPkg || g.Parent() != nil || g == f || c.setsMetric(g) {
			continue
		}
		// presentation: works on text only
		text := false
		sig := g.Signature
		for _, tup := range []*types.Tuple{sig.Params(), sig.Results()} {
			for i := 0; i < tup.Len(); i++ {
				text = text || isBasic(tup.At(i).Type(), types.String)
			}
		}
		if text {
			e.Opaque[eng.FuncName(g)] = true
		}
	}
	return f, c.run(e, f, nil, nil, nil)
}

func (t *churn) gauge(p *eng.Path, name string) (evs []*eng.Event) {
	for _, ev := range p.Events {
		if isMetricCall(ev) && t.name(ev) == name {
			evs = append(evs, ev)
		}
	}
	return
}

func (c *Ctx) kpi(t *churn, paths []*eng.Path) *kpi {
	k := &kpi{}
	load := func(x *eng.Term) *eng.Term {
		var a *eng.Term
		x.Derived(func(y *eng.Term) bool {
			if a == nil && y.Ev != nil && y.Ev.Kind == "atomic" && y.Ev.Name == "Load" && y.Ev.Addr.Op == "global" {
				a = y.Ev.Addr
			}
			return false
		})
		return a
	}
	for _, p := range paths {
		for i, name := range []string{"vsa_write_reduction_ratio", "vsa_churn_ratio"} {
			for _, ev := range t.gauge(p, name) {
				q := ev.Arg(0)
				if i == 0 {
					if q == nil || q.Op != "-" || len(q.Args) != 2 {
						continue
					}
					q = q.Args[1]
				}
				if q == nil || q.Op != "/" || len(q.Args) != 2 {
					continue
				}
				n, d := load(q.Args[0]), load(q.Args[1])
				if i == 0 {
					k.commits, k.naive = pick(k.commits, n), pick(k.naive, d)
				} else {
					k.abs, k.net = pick(k.abs, n), pick(k.net, d)
				}
			}
		}
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Load" && ev.Addr.Op == "fa" && k.last == nil {
				// the time of the last update is compared with a point in time
				for _, l := range p.Log {
					if l.Cond.Op == "ge0" && l.Cond.Derived(func(x *eng.Term) bool { return x == ev.Res[0] }) && strings.Contains(l.Cond.String(), "time.Time") {
						k.last = ev.Addr.Obj
					}
				}
			}
		}
	}
	return k
}

func pick(a, b *eng.Term) *eng.Term {
	if a == nil {
		return b
	}
	return a
}

// recOf is the hash whose shared per-key record addr is a part of.
func recOf(addr *eng.Term) *eng.Term {
	if addr == nil || addr.Op != "fa" {
		return nil
	}
	r := stripConv(addr.Args[0])
	if r == nil || r.Ev == nil || !hasSuffix(r.Ev.Name, "sync.Map).Load", "sync.Map).LoadOrStore") || r != r.Ev.Res[0] {
		return nil
	}
	return stripConv(r.Ev.Arg(0))
}

func ruleK04(c *Ctx) {
	c.rule("request", "an admitted request adds one to the admitted counter and to the baseline of the ratio, whatever the sampling; a rejected one adds nothing")
	c.rule("batch", "a committed batch adds its size to the row counter, the batch histogram and the ratio's row count, and an empty one nothing; failed batches are counted")
	c.rule("per-key", "a sampled key's shared record is looked up by the key's hash, and gets one for an admitted request and the magnitude of a committed vector, as do the global sums; other keys add nothing")
	c.rule("sampled", "whether a key is sampled depends only on its hash and the threshold: exactly the hashes up to the threshold, and none when it is zero")
	c.rule("threshold", "the threshold is zero for rates up to zero, the largest hash for rates from one, and follows the rate in between")
	c.rule("config", "the configuration in force has a rate within bounds and positive limits and window, with the documented defaults")
	t := c.churn()
	_, snaps := c.snapshots(t, 1)
	k := c.kpi(t, snaps)
	c.must(k.naive != nil && k.commits != nil && k.abs != nil && k.net != nil, "kpi counters", "the ratios are not computed from shared counters")
	thr := c.threshold(t)
	fields := map[string]types.Object{}
	for _, f := range t.obs {
		name := fname(f)
		for _, p := range c.obsPaths(t, f) {
			if p.End != "return" || t.enabled(p) != 1 {
				continue
			}
			d := func(m string) *eng.Term { return t.metricDelta(p, m) }
			pos := retPos(p)
			zero := eng.Int(0)
			var key *eng.Term
			var amount, want *eng.Term
			field := ""
			wN, wC, wA, wM := zero, zero, zero, zero
			wn, wr, wb, we := zero, zero, zero, zero
			rule := "batch"
			ok := true
			switch f.Name() {
			case "ObserveRequest":
				rule = "request"
				key, amount, field = p.Params[0], eng.Int(1), "abs"
				switch p.F.Eval(p.Params[1]) {
				case 1:
					wN, wn, want = eng.Int(1), eng.Int(1), eng.Int(1)
				case 0:
					ok = false
				}
			case "ObserveBatch":
				switch p.F.Eval(eng.Gt(p.Params[0], zero)) {
				case 1:
					wC, wr, wb = p.Params[0], p.Params[0], p.Params[0]
				case 0:
					ok = d("vsa_commits_rows_total") == p.Params[0] // adding a zero changes nothing
				}
			case "ObserveCommitError":
				switch p.F.Eval(eng.Gt(p.Params[0], zero)) {
				case 1:
					we = p.Params[0]
				case 0:
					ok = false
				}
			case "ObserveCommit":
				rule = "per-key"
				key, field = p.Params[0], "net"
				v := p.Params[1]
				switch {
				case p.F.Eval(eng.Eq0(v)) == 1:
				case p.F.Eval(eng.Gt(v, zero)) == 1 || p.F.Eval(eng.Ge(v, zero)) == 1:
					amount, want = v, v
				case p.F.Eval(eng.Gt(zero, v)) == 1 || p.F.Eval(eng.Ge(zero, v)) == 1:
					amount, want = eng.Neg(v), eng.Neg(v)
				default:
					amount, want = nil, v // undecided: must not matter
				}
			default:
				continue
			}
			c.check(ok, rule, name+":decided", pos, "what is recorded does not depend on the outcome (where %s)", c.cond(p))
			// is the key sampled on this path?
			if key != nil {
				s := -emptyKey(p, key)
				if s != -1 {
					s = and3(s, t.sampledOn(p, key, thr))
				}
				if s == 0 && want != nil && want != zero {
					// not looked at
					n := addDelta(p, k.abs)
					m := addDelta(p, k.net)
					c.check(n == zero && m == zero, "sampled", name, pos, "a key is recorded without looking at whether it is sampled (where %s)", c.cond(p))
					c.check(n != zero || m != zero, "sampled", name, pos, "a key that may be sampled is not recorded (where %s)", c.cond(p))
					continue
				}
				if s == 1 && want != nil {
					if field == "abs" {
						wA = want
					} else {
						wM = want
					}
				} else {
					amount = zero
				}
				c.ob("sampled", name)
				// the shared record
				got := zero
				for _, ev := range p.Events {
					if ev.Kind != "atomic" || ev.Addr.Op != "fa" || ev.Name == "Load" {
						continue
					}
					h := recOf(ev.Addr)
					if !c.check(h != nil && t.hashed(p, h, key), "per-key", name+":record", ev.Pos, "what is updated is not the shared record of the key's hash") {
						continue
					}
					if ev.Name == "Store" {
						c.check(k.last != nil && ev.Addr.Obj == k.last && timeDerived(ev.Arg(0)), "per-key", name+":store", ev.Pos, "a sum of the record is overwritten")
						continue
					}
					c.check(ev.Name == "Add" && ev.Addr.Obj != k.last, "per-key", name+":add", ev.Pos, "the record is not added to")
					got = eng.Add(got, ev.Arg(0))
					if fields[field] == nil {
						fields[field] = ev.Addr.Obj
					}
					c.check(fields[field] == ev.Addr.Obj, "per-key", name+":field", ev.Pos, "different sums of the record are updated")
				}
				if s == 1 && want != nil {
					c.check(got == want && amount != nil, "per-key", name+":amount", pos, "the key's record gets %s instead of %s (where %s)", got, want, c.cond(p))
					fresh := false
					for _, ev := range p.Events {
						fresh = fresh || ev.Kind == "atomic" && ev.Name == "Store" && ev.Addr.Op == "fa" && ev.Addr.Obj == k.last
					}
					c.check(fresh, "per-key", name+":fresh", pos, "the record's last update is not noted, so an active key is dropped as idle")
				} else {
					c.check(got == zero, "per-key", name+":amount", pos, "a key that is not sampled, or a request that was rejected, adds %s to its record (where %s)", got, c.cond(p))
				}
			}
			same := func(what string, got, want *eng.Term) {
				c.check(got == want, rule, name+":"+what, pos, "%s gets %s instead of %s (where %s)", what, got, want, c.cond(p))
			}
			same("admitted counter", d("vsa_naive_writes_total"), wn)
			same("row counter", d("vsa_commits_rows_total"), wr)
			same("error counter", d("vsa_commit_errors_total"), we)
			same("batch histogram", d("vsa_rows_per_batch"), wb)
			same("baseline", addDelta(p, k.naive), wN)
			same("row count", addDelta(p, k.commits), wC)
			same("sum of updates", addDelta(p, k.abs), wA)
			same("sum of commits", addDelta(p, k.net), wM)
		}
	}
	c.check(fields["abs"] != nil && fields["net"] != nil && fields["abs"] != fields["net"], "per-key", "fields", c.mustFn(churnPkg, "Enable").Pos(), "updates and commits of a key are not kept apart")
	c.thresholds(t, thr)
	if t.hash != nil {
		c.pure(t.hash, "sampled")
	}
	c.min("request", 8)
	c.min("batch", 16)
	c.min("per-key", 10)
	c.min("threshold", 3)
	c.min("config", 4)
}

// threshold is the address of the sampling threshold: what Enable derives from the rate.
func (c *Ctx) threshold(t *churn) *eng.Term {
	for _, p := range c.enablePaths() {
		for _, ev := range p.Events {
			if ev.Kind == "atomic" && ev.Name == "Store" && ev.Addr.Op == "global" && ev.Addr.Typ != nil && strings.Contains(ev.Addr.Typ.String(), "atomic.Uint64") {
				return ev.Addr
			}
		}
	}
	c.must(false, "threshold", "Enable stores no sampling threshold")
	return nil
}

// sampledOn: 1 when the path knows that the key's hash is within the threshold, -1 when it
// is not.
func (t *churn) sampledOn(p *eng.Path, key, thr *eng.Term) int {
	for _, ev := range p.Events {
		if ev.Kind != "atomic" || ev.Name != "Load" || ev.Addr != thr {
			continue
		}
		v := ev.Res[0]
		if p.F.Eval(eng.Eq0(v)) == 1 {
			return -1
		}
		r := 0
		for _, l := range p.Log {
			l.Cond.Walk(func(x *eng.Term) bool {
				if x.Ev != nil && t.hashed(p, x, key) && r == 0 {
					r = p.F.Eval(eng.Ge(v, x))
				}
				return true
			})
		}
		if r != 0 {
			if r == 1 && p.F.Eval(eng.Eq0(v)) != -1 {
				return 0 // a hash of zero would pass with a zero threshold
			}
			return r
		}
	}
	return 0
}

func (c *Ctx) thresholds(t *churn, thr *eng.Term) {
	en := c.mustFn(churnPkg, "Enable")
	seen := map[string]bool{}
	for _, p := range c.enablePaths() {
		if p.End != "return" {
			continue
		}
		cfg := p.Params[0]
		rate := eng.FieldNamed(cfg, "SampleRate")
		F := func(op string, a, b *eng.Term) int { return p.F.Eval(eng.App(op, nil, a, b)) }
		low := F("fle", rate, eng.Float(0))
		if low == 0 && F("flt", rate, eng.Float(0)) == 1 {
			low = 1
		}
		high := F("fle", eng.Float(1), rate)
		if high == 0 && F("flt", eng.Float(1), rate) == 1 {
			high = 1
		}
		n := 0
		for _, ev := range p.Events {
			if ev.Kind != "atomic" || ev.Name != "Store" || ev.Addr != thr {
				continue
			}
			n++
			v := ev.Arg(0)
			cv, isC := v.IsInt()
			switch {
			case low == 1:
				seen["low"] = true
				c.check(isC && cv == 0, "threshold", "low", ev.Pos, "with a rate of zero or less the threshold is %s", v)
			case high == 1:
				seen["high"] = true
				c.check(isMaxU64(v), "threshold", "high", ev.Pos, "with a rate of one or more the threshold is %s, so some keys are left out", v)
			case low == -1 && high == -1:
				seen["mid"] = true
				c.check(isC && cv == 0 || c.follows(v, rate), "threshold", "mid", ev.Pos, "the threshold %s is not the rate's part of the hash space", v)
			default:
				c.check(false, "threshold", "bounds", ev.Pos, "the threshold is computed for a rate that may be out of bounds (where %s)", c.cond(p))
			}
		}
		c.check(n == 1, "threshold", "stored", retPos(p), "the threshold is set %d times", n)
		// the configuration in force
		m := 0
		for _, ev := range p.Events {
			if ev.Kind != "atomic" || ev.Name != "Store" || ev.Arg(0) == nil || eng.FieldNamed(ev.Arg(0).Unwrap(), "TopN") == nil {
				continue
			}
			m++
			in := ev.Arg(0).Unwrap()
			for f, def := range map[string]int64{"TopN": 50, "KeyHashLen": 8, "Window": 60000000000} {
				given, got := eng.FieldNamed(cfg, f), eng.FieldNamed(in, f)
				switch p.F.Eval(eng.Gt(given, eng.Int(0))) {
				case 1:
					c.check(got == given, "config", f, ev.Pos, "%s is %s instead of what was configured", f, got)
				case -1:
					c.check(got == eng.Int(def), "config", f, ev.Pos, "%s is %s instead of its default %d", f, got, def)
				default:
					c.check(false, "config", f, ev.Pos, "%s need not be positive", f)
				}
			}
			for _, f := range []string{"Enabled", "LogInterval"} {
				c.check(eng.FieldNamed(in, f) == eng.FieldNamed(cfg, f), "config", f, ev.Pos, "%s is not what was configured", f)
			}
			r := eng.FieldNamed(in, "SampleRate")
			switch {
			case low == 1:
				c.check(r == eng.Float(0) || r == rate && F("flt", rate, eng.Float(0)) == -1, "config", "SampleRate", ev.Pos, "the rate in force is %s for a negative one", r)
			case high == 1:
				c.check(r == eng.Float(1) || r == rate && F("flt", eng.Float(1), rate) == -1, "config", "SampleRate", ev.Pos, "the rate in force is %s for one above 1", r)
			default:
				c.check(r == rate, "config", "SampleRate", ev.Pos, "the rate in force is %s", r)
			}
		}
		c.check(m == 1, "config", "stored", retPos(p), "the configuration is put in force %d times", m)
	}
	for _, s := range []string{"low", "mid", "high"} {
		c.check(seen[s], "threshold", s+":seen", en.Pos(), "no path sets the threshold for such a rate")
	}
}

func isMaxU64(t *eng.Term) bool {
	s := stripConv(t).String()
	return s == "18446744073709551615" || s == "-1"
}

// follows: v is the rate times the size of the hash space, less one.
func (c *Ctx) follows(v, rate *eng.Term) bool {
	mul := func(x *eng.Term) bool {
		x = stripConv(x)
		if x == nil || x.Op != "*" || len(x.Args) != 2 {
			return false
		}
		a, b := x.Args[0], x.Args[1]
		if b == rate {
			a, b = b, a
		}
		k := constExpr(b)
		f := 0.0
		if k != nil {
			f, _ = constant.Float64Val(k)
		}
		return a == rate && f == 1<<64
	}
	ok := false
	v.Walk(func(x *eng.Term) bool {
		ok = ok || mul(x)
		return true
	})
	return ok && !mul(v)
}

// constExpr is the value of an arithmetic expression over constants, or nil.
func constExpr(t *eng.Term) constant.Value {
	if t == nil {
		return nil
	}
	if n, ok := t.IsInt(); ok {
		return constant.MakeInt64(n)
	}
	switch t.Op {
	case "const":
		if t.Val != nil && (t.Val.Kind() == constant.Int || t.Val.Kind() == constant.Float) {
			return t.Val
		}
	case "conv":
		return constExpr(t.Args[0])
	case "+", "-", "*":
		a, b := constExpr(t.Args[0]), constExpr(t.Args[1])
		if a != nil && b != nil {
			return constant.BinaryOp(a, map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL}[t.Op], b)
		}
	}
	return nil
}

// window is what a snapshot leaves in the list of points: what was there before, less the
// first drop points, and its own point.
type window struct {
	kept *eng.Term // the list left behind
	own  *eng.Term // the snapshot's own point
	base *eng.Term // a list that the dropped points are counted in
	drop int64
}

func (w *window) oldest(x *eng.Term) bool {
	if x == nil || x.Op != "elem" {
		return false
	}
	i, ok := x.Args[1].IsInt()
	if !ok {
		return false
	}
	if x.Args[0] == w.kept {
		return i == 0
	}
	b, k, ok := flat(x.Args[0])
	return ok && b == w.base && k+i == w.drop
}

// flat resolves slicing from a constant index to the end.
func flat(t *eng.Term) (base *eng.Term, drop int64, ok bool) {
	for t != nil && t.Op == "slice" && len(t.Args) >= 3 && t.Args[2].Op == "nil" {
		if t.Args[1].Op != "nil" {
			n, ok := t.Args[1].IsInt()
			if !ok {
				return nil, 0, false
			}
			drop += n
		}
		t = t.Args[0]
	}
	return t, drop, t != nil
}

// unappended is the list that one element was appended to.
func unappended(t *eng.Term) *eng.Term {
	if t != nil && t.Op == "append" {
		if b, k, ok := flat(t.Args[0]); ok && k == 0 {
			return b
		}
	}
	return t
}

func windowOf(p *eng.Path, addr *eng.Term) *window {
	var kept *eng.Term
	for _, ev := range p.Events {
		if ev.Kind == "store" && ev.Addr == addr {
			kept = ev.Arg(0)
		}
	}
	if kept == nil {
		return nil
	}
	w := &window{kept: kept}
	b, k, ok := flat(kept)
	if !ok || b.Op != "append" || len(b.Args) != 2 || b.Args[1].Op != "list" || len(b.Args[1].Args) != 1 {
		return nil
	}
	w.own, w.base, w.drop = b.Args[1].Args[0], b, k
	if pre, k, ok := flat(b.Args[0]); ok && k > 0 {
		if w.drop != 0 {
			return nil
		}
		w.base, w.drop = pre, k
		b = pre
	} else if !ok {
		return nil
	} else {
		b = pre
	}
	if b.Op != "glob" || "&"+b.String() != addr.String() {
		return nil
	}
	return w
}

// lin splits a linear term: what it adds, subtracts and its constant.
func lin(t *eng.Term) (m map[*eng.Term]int64, k int64) {
	m = map[*eng.Term]int64{}
	if t == nil {
		return
	}
	if t.Op != "lin" {
		m[t] = 1
		return
	}
	for _, c := range t.Co {
		m[c.T] += c.N
	}
	return m, t.C
}

// delta: t is a field of the snapshot's own point less the same field of the oldest; it
// returns what the own field holds.
func (w *window) delta(t *eng.Term) *eng.Term {
	m, k := lin(t)
	if k != 0 || len(m) != 2 {
		return nil
	}
	for a, n := range m {
		if n != -1 || a.Op != "fld" || !w.oldest(a.Args[0]) {
			continue
		}
		own := eng.FieldNamed(w.own, a.Obj.Name())
		if own != nil && m[own] == 1 {
			return own
		}
	}
	return nil
}

// atLeast1: d is the larger of 1 and x (or x's magnitude).
func atLeast1(p *eng.Path, d *eng.Term, abs bool, is func(*eng.Term) bool) (x *eng.Term) {
	one := eng.Int(1)
	d = stripConv(d)
	if d.Ev != nil && hasSuffix(d.Ev.Name, "math.Max") {
		a, b := d.Ev.Arg(0), d.Ev.Arg(1)
		if a != eng.Float(1) {
			a, b = b, a
		}
		if a != eng.Float(1) {
			return nil
		}
		if b.Ev != nil && hasSuffix(b.Ev.Name, "math.Abs") && abs {
			b = b.Ev.Arg(0)
			if y := unfloat(b); is(eng.Neg(y)) {
				return eng.Neg(y)
			}
		} else if abs {
			return nil
		}
		if y := unfloat(b); is(y) {
			return y
		}
		return nil
	}
	d = unfloat(d)
	if n, ok := d.IsInt(); ok || d == eng.Float(1) {
		if ok && n != 1 {
			return nil
		}
		// some difference the path knows not to exceed one
		for _, l := range p.Log {
			if l.Cond.Op != "ge0" && l.Cond.Op != "eq0" {
				continue
			}
			m, k := lin(l.Cond.Args[0])
			y := eng.Int(0)
			for t, n := range m {
				y = eng.AddK(y, t, n)
			}
			_ = k
			for _, z := range []*eng.Term{y, eng.Neg(y)} {
				if is(z) && p.F.Eval(eng.Ge(one, z)) == 1 && (!abs || p.F.Eval(eng.Ge(one, eng.Neg(z))) == 1) {
					return z
				}
			}
		}
		return nil
	}
	for _, z := range []*eng.Term{d, eng.Neg(d)} {
		if is(z) && p.F.Eval(eng.Ge(d, one)) == 1 && (abs || z == d) {
			return z
		}
	}
	return nil
}

func ruleK05(c *Ctx) {
	c.rule("ratios", "a snapshot sets the write reduction to one less the rows per admitted request and the churn to the updates per committed magnitude, over the window: from its oldest point to now, dividing by one at least")
	c.rule("window", "exactly the points that are older than the window are dropped, the snapshot's own is kept, and the list is changed under its lock")
	c.rule("idle", "a key's record is dropped exactly when it was last updated longer ago than twice the window")
	c.rule("tracked", "the number of tracked keys is the number of records left, all of which were looked at")
	t := c.churn()
	f, paths := c.snapshots(t, 2)
	k := c.kpi(t, paths)
	c.must(k.naive != nil && k.commits != nil && k.abs != nil && k.net != nil && k.last != nil, "kpi counters", "the ratios are not computed from shared counters")
	// the list of points
	var list *eng.Term
	for _, p := range paths {
		for _, ev := range p.Events {
			if ev.Kind == "append" && ev.Arg(0) != nil && ev.Arg(0).Op == "list" && len(ev.Arg(0).Args) == 1 && ev.Arg(0).Args[0].Derived(func(x *eng.Term) bool { return x.Ev != nil && x.Ev.Kind == "atomic" && x.Ev.Addr == k.naive }) {
				for _, st := range p.Events[ev.Seq:] {
					if list == nil && st.Kind == "store" && st.Addr.Op == "global" && st.Arg(0).Derived(func(x *eng.Term) bool { return x == ev.Res[0] }) {
						list = st.Addr
					}
				}
			}
		}
	}
	c.must(list != nil, "window", "no list of points")
	windowField := func(x *eng.Term) bool { return x.Op == "fld" && x.Obj.Name() == "Window" }
	seen := map[string]bool{}
	for _, p := range paths {
		if p.End == "panic" {
			c.check(false, "ratios", fname(f)+":panic", f.Pos(), "a snapshot may panic (where %s)", c.cond(p))
		}
		if p.End != "return" {
			continue
		}
		pos := retPos(p)
		w := windowOf(p, list)
		if !c.check(w != nil, "window", "shape", pos, "the list of points is not what it was with its oldest points dropped and the snapshot's own added") {
			continue
		}
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == list {
				c.check(len(ev.Held) > 0, "window", "locked", ev.Pos, "the list of points is changed without its lock")
			}
		}
		// what was dropped and what was kept
		old := func(i int64) int {
			for _, l := range p.Log {
				ev := l.Cond.Ev
				neg := false
				if l.Cond.Op == "not" {
					ev, neg = l.Cond.Args[0].Ev, true
				}
				if ev == nil {
					continue
				}
				ts, lim := ev.Recv, ev.Arg(0)
				switch {
				case hasSuffix(ev.Name, "time.Time).Before"):
				case hasSuffix(ev.Name, "time.Time).After"):
					ts, lim = lim, ts
				default:
					continue
				}
				if ts == nil || ts.Op != "fld" || lim == nil || lim.Ev == nil || !hasSuffix(lim.Ev.Name, "time.Time).Add") || lim.Ev.Recv == nil || !timeDerived(lim.Ev.Recv) {
					continue
				}
				m, kk := lin(lim.Ev.Arg(0))
				good := kk == 0 && len(m) == 1
				for x, n := range m {
					good = good && windowField(x) && n == -1
				}
				e := ts.Args[0]
				if !good || e.Op != "elem" {
					continue
				}
				j, ok := e.Args[1].IsInt()
				b, d, ok2 := flat(e.Args[0])
				base := w.base
				if b != base { // the same point before the snapshot's own is added
					b, base = unappended(b), unappended(base)
				}
				if ok && ok2 && b == base && d+j == i {
					if l.Val != neg {
						return 1
					}
					return -1
				}
			}
			return 0
		}
		n := eng.App("len", types.Typ[types.Int], w.base)
		if w.base.Op == "append" {
			n = eng.Add(eng.App("len", types.Typ[types.Int], w.base.Args[0]), eng.Int(1))
		}
		aged := int64(0)
		for old(aged) == 1 {
			aged++
		}
		if aged > 0 && w.base.Op == "append" && p.F.Eval(eng.Ge(eng.Int(aged), n)) == 1 {
			continue // its own point would be older than the window
		}
		good := true
		for i := int64(0); i < w.drop; i++ {
			good = good && c.check(old(i) == 1, "window", "dropped", pos, "a point is dropped that is not known to be older than the window (where %s)", c.cond(p))
		}
		if !good {
			continue
		}
		if p.F.Eval(eng.Ge(eng.Int(w.drop), n)) == 1 && w.base.Op == "append" {
			continue // its own point would be older than the window
		}
		before := n
		if w.base.Op == "append" {
			before = eng.Sub(n, eng.Int(1))
		}
		all := p.F.Eval(eng.Ge(eng.Int(w.drop), before)) == 1 // only its own is left
		c.check(all || old(w.drop) == -1, "window", "kept", pos, "the oldest point kept need not be within the window (where %s)", c.cond(p))
		// the ratios
		sets := func(name string) *eng.Event {
			evs := t.gauge(p, name)
			if !c.check(len(evs) == 1 && hasSuffix(evs[0].Name, ".Set"), "ratios", name+":once", pos, "%s is not set once", name) {
				return nil
			}
			return evs[0]
		}
		from := func(x, addr *eng.Term) bool {
			o := w.delta(x)
			return o != nil && o.Ev != nil && o.Ev.Kind == "atomic" && o.Ev.Name == "Load" && o.Ev.Addr == addr
		}
		if ev := sets("vsa_write_reduction_ratio"); ev != nil {
			q := ev.Arg(0)
			ok := q.Op == "-" && (q.Args[0] == eng.Float(1) || q.Args[0] == eng.Int(1)) && q.Args[1].Op == "/"
			if c.check(ok, "ratios", "reduction:shape", ev.Pos, "the write reduction is %s, not one less a ratio", q) {
				r := q.Args[1]
				c.check(from(unfloat(r.Args[0]), k.commits), "ratios", "reduction:rows", ev.Pos, "what is divided is not the rows committed in the window")
				x := atLeast1(p, r.Args[1], false, func(x *eng.Term) bool { return from(x, k.naive) })
				c.check(x != nil, "ratios", "reduction:baseline", ev.Pos, "it is not divided by the admitted requests in the window, and at least one (%s where %s)", r.Args[1], c.cond(p))
			}
		}
		if ev := sets("vsa_churn_ratio"); ev != nil {
			r := ev.Arg(0)
			if c.check(r.Op == "/", "ratios", "churn:shape", ev.Pos, "the churn is not a ratio: %s", r) {
				c.check(from(unfloat(r.Args[0]), k.abs), "ratios", "churn:updates", ev.Pos, "what is divided is not the updates in the window")
				x := atLeast1(p, r.Args[1], true, func(x *eng.Term) bool { return from(x, k.net) })
				c.check(x != nil, "ratios", "churn:commits", ev.Pos, "it is not divided by the magnitude committed in the window, and at least one (%s where %s)", r.Args[1], c.cond(p))
			}
		}
		// no other figure is divided by less than one either
		divs := map[*eng.Term]bool{}
		for _, ev := range p.Events {
			for _, a := range ev.Args {
				if a != nil {
					a.Derived(func(x *eng.Term) bool {
						if x.Op == "/" && len(x.Args) == 2 {
							divs[x] = true
						}
						return false
					})
				}
			}
		}
		for x := range divs {
			any := func(*eng.Term) bool { return true }
			d := unfloat(x.Args[1])
			good := atLeast1(p, x.Args[1], false, any) != nil || atLeast1(p, x.Args[1], true, any) != nil || p.F.Eval(eng.Ge(d, eng.Int(1))) == 1
			if v, ok := d.IsInt(); ok {
				good = v >= 1
			}
			c.check(good, "ratios", "divisor", pos, "%s is divided by %s, which may be less than one (where %s)", x.Args[0], x.Args[1], c.cond(p))
		}
		// the records
		left := int64(0)
		for i, ev := range p.Events {
			if ev.Kind != "iter" || !hasSuffix(ev.Name, "sync.Map).Range") {
				continue
			}
			seen["iter"] = true
			deleted, idle, dated := false, 0, false
			for _, x := range p.Events[i+1:] {
				if x.Kind == "iterend" || x.Kind == "iter" {
					c.check(x.Mode != "stopped", "tracked", "all", x.Pos, "records are left out")
					break
				}
				if x.Kind == "call" && hasSuffix(x.Name, "sync.Map).Delete", "sync.Map).LoadAndDelete", "sync.Map).CompareAndDelete") {
					deleted = true
					c.check(x.Recv == ev.Addr && stripConv(x.Arg(0)) == stripConv(ev.Res[0]), "idle", "own", x.Pos, "another record than the one looked at is dropped")
				}
				if x.Kind == "atomic" && x.Name == "Load" && x.Addr.Op == "fa" && x.Addr.Obj == k.last {
					idle = c.idle(p, x.Res[0])
					dated = p.F.Eval(eng.Gt(x.Res[0], eng.Int(0))) == 1 // zero: being created
				}
			}
			if deleted {
				seen["deleted"] = true
				c.check(idle == 1 && dated, "idle", "dropped", ev.Pos, "a record is dropped that is not known to be idle for twice the window (where %s)", c.cond(p))
			} else {
				left++
				c.check(idle == -1, "idle", "kept", ev.Pos, "a record is kept although it may be idle for longer than twice the window (where %s)", c.cond(p))
			}
		}
		if ev := sets("vsa_keys_tracked"); ev != nil {
			c.check(unfloat(ev.Arg(0)) == eng.Int(left) || ev.Arg(0) == eng.Float(left), "tracked", "count", ev.Pos, "the number of tracked keys is %s where %d records are left", ev.Arg(0), left)
		}
	}
	c.check(seen["deleted"], "idle", "drops", f.Pos(), "idle records are never dropped")
	c.min("ratios", 8)
	c.min("window", 4)
	c.min("idle", 3)
	c.min("tracked", 2)
}

// idle: whether the path knows that last lies further back than twice the window (1) or not (-1).
func (c *Ctx) idle(p *eng.Path, last *eng.Term) int {
	r := 0
	for _, l := range p.Log {
		cond, val := l.Cond, l.Val
		if cond.Op == "not" {
			cond, val = cond.Args[0], !val
		}
		if (cond.Op == "ge0" || cond.Op == "eq0") && len(lessTerms(cond.Args[0])) == 1 && lessTerms(cond.Args[0])[0] == last {
			if p.F.Eval(eng.Gt(last, eng.Int(0))) == -1 {
				return -1
			}
			continue
		}
		if cond.Op != "ge0" {
			continue
		}
		m, _ := lin(cond.Args[0])
		sign, win, now := int64(0), int64(0), int64(0)
		odd := false
		for x, n := range m {
			switch {
			case x == last:
				sign = n
			case x.Op == "fld" && x.Obj.Name() == "Window":
				win += n
			case x.Ev != nil && hasSuffix(x.Ev.Name, "time.Time).UnixNano"):
				now = n
				y := x.Ev.Recv
				if y != nil && y.Ev != nil && hasSuffix(y.Ev.Name, "time.Time).Add") {
					mm, _ := lin(y.Ev.Arg(0))
					for z, nn := range mm {
						if z.Op == "fld" && z.Obj.Name() == "Window" {
							win += n * nn
						} else {
							odd = true
						}
					}
					y = y.Ev.Recv
				}
				odd = odd || !timeDerived(y)
			default:
				odd = true
			}
		}
		if sign == 0 || odd {
			continue
		}
		// now - k*Window - last >= ... with k = 2
		switch {
		case sign == -1 && now == 1 && win == -2:
			if val {
				r = 1
			} else {
				return -1
			}
		case sign == 1 && now == -1 && win == 2:
			if val {
				return -1
			}
			r = 1
		}
	}
	return r
}

func lessTerms(t *eng.Term) (ts []*eng.Term) {
	m, _ := lin(t)
	for x := range m {
		ts = append(ts, x)
	}
	return
}
