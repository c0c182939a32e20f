package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

const (
	proxyPkg = "cmd/tfd-proxy"
	simPkg   = "cmd/tfd-sim"
)

func init() {
	reg("T13", ruleT13)
	reg("T14", ruleT14)
}

// toolRoute runs the handler registered for a pattern in a tool's main.
func (c *Ctx) toolRoute(pkg, pattern string, maxIter int) []*eng.Path {
	for _, p := range c.mainPaths(pkg, tfdPkg, sinksPkg) {
		if p.End != "return" {
			continue
		}
		for _, r := range routesOf(p) {
			if r.pattern != pattern && !strings.HasSuffix(r.pattern, " "+pattern) {
				continue
			}
			c.must(r.fn != nil, "route "+pkg+pattern, "the handler is not a function of the module")
			e := c.engine()
			if maxIter > 0 {
				e.MaxIter = maxIter
			}
			c.opaque(e, tfdPkg, sinksPkg)
			return c.run(e, r.fn, nil, r.bind, p.Mem)
		}
	}
	c.failAt("anchor", "route "+pkg+pattern, "?", "no handler is registered for "+pattern)
	panic(abort{})
}

// param is the value of a query parameter read on the path.
func param(p *eng.Path, name string) *eng.Term {
	for _, ev := range p.Events {
		if ev.Kind == "call" && (ev.Name == "(net/url.Values).Get" || ev.Name == "(*net/http.Request).FormValue") {
			if s, ok := ev.Arg(0).IsStr(); ok && s == name {
				return ev.Res[0]
			}
		}
	}
	return nil
}

// amountOf checks that t is sign times the count asked for: the parsed parameter, or one
// when it is missing or not a number.
func (c *Ctx) amountOf(p *eng.Path, t *eng.Term, sign int64) bool {
	n := eng.Scale(t, sign)
	arg := param(p, "n")
	var parse *eng.Event
	for _, ev := range p.Events {
		if ev.Kind == "call" && (ev.Name == "strconv.ParseInt" || ev.Name == "strconv.Atoi") && ev.Arg(0) == arg && arg != nil {
			parse = ev
		}
	}
	if v, ok := n.IsInt(); ok {
		return v == 1 && (arg != nil && emptyKey(p, arg) == 1 || parse != nil && errNil(p, errOf(parse)) == -1)
	}
	if parse == nil || n != parse.Res[0] {
		return false
	}
	if parse.Name == "strconv.ParseInt" {
		b, ok1 := parse.Arg(1).IsInt()
		w, ok2 := parse.Arg(2).IsInt()
		if !ok1 || !ok2 || b != 10 || w != 64 && w != 0 {
			return false
		}
	}
	return errNil(p, errOf(parse)) == 1
}

// opSpec is what an endpoint's operation has to be.
type opSpec struct {
	pkg, pattern string
	sign         int64 // 0: no amount
	bucket       bool
	scalar       bool
}

var vectorFlags = []string{"IsBackdated", "IsCrossKey", "ChangesPolicy", "NeedsExternalDecision", "IsGlobal"}

// laneOf is the lane the literal flags of an operation select: 1 scalar, -1 vector, 0 unknown.
func laneOf(op *eng.Term, f *eng.Facts) int {
	r := 1
	for _, n := range vectorFlags {
		r = and3(r, -f.Eval(eng.FieldNamed(op, n)))
	}
	return and3(r, f.Eval(eng.FieldNamed(op, "IsSingleKey")), f.Eval(eng.FieldNamed(op, "IsConservativeDelta")))
}

// calls lists the calls of a path whose name ends in one of the suffixes.
func calls(p *eng.Path, suffixes ...string) []*eng.Event {
	var out []*eng.Event
	for _, ev := range p.Events {
		if ev.Kind == "call" && hasSuffix(ev.Name, suffixes...) {
			out = append(out, ev)
		}
	}
	return out
}

// isBound: t is the method name bound to a value made by the constructor ctor.
func isBound(t *eng.Term, method, ctor string) bool {
	t = t.Unwrap()
	if t == nil || t.Op != "closure" && t.Op != "func" || t.Fn == nil {
		return false
	}
	return strings.HasPrefix(t.Fn.Name(), method) && len(t.Args) == 1 && madeBy(t.Args[0], ctor)
}

func madeBy(t *eng.Term, ctor string) bool {
	t = t.Unwrap()
	return t != nil && t.Ev != nil && hasSuffix(t.Ev.Name, ctor)
}

// routed checks that one classified operation reaches exactly its lane, once.
func (c *Ctx) routed(p *eng.Path, cl *eng.Event, until int, what string) {
	errv := errOf(cl)
	op := cl.Arg(0)
	window := func(suffixes ...string) []*eng.Event {
		var out []*eng.Event
		for _, ev := range calls(p, suffixes...) {
			if ev.Seq > cl.Seq && ev.Seq < until {
				out = append(out, ev)
			}
		}
		return out
	}
	handle := window("tfd.Pipeline).Handle")
	try, ing := window("tfd.SService).TryIngest"), window("tfd.SService).Ingest")
	enq := window("tfd.VActor).Enqueue")
	app := window("VEnvFileSink).Append", "VEnvFileSink).AppendAll")
	pos := cl.Pos
	switch errNil(p, errv) {
	case -1:
		c.check(len(handle)+len(try)+len(ing)+len(enq)+len(app) == 0, "route", what+":refused", pos, "a refused operation is applied (where %s)", c.cond(p))
		return
	case 0:
		c.check(false, "route", what+":refused", pos, "an operation is applied without looking at whether it was refused")
		return
	}
	env := func(t *eng.Term, at *eng.Event) {
		if t == nil {
			return
		}
		good := eng.FieldNamed(t, "Channel") == cl.Res[0] && sameRec(eng.FieldNamed(t, "Footprint"), cl.Res[1]) && eng.FieldNamed(t, "Delta") == cl.Res[2]
		c.check(good, "route", what+":envelope", at.Pos, "the envelope does not carry the lane, footprint and delta the operation was classified with")
		seq := eng.FieldNamed(t, "SeqEnd")
		c.check(seq == eng.FieldNamed(op, "SeqEnd") || timeDerived(seq), "route", what+":sequence", at.Pos, "the envelope's sequence marker is neither the operation's nor the current time")
	}
	if len(handle) > 0 {
		if c.check(len(handle) == 1 && len(try)+len(ing)+len(enq)+len(app) == 0, "route", what+":once", pos, "an operation is applied %d times (where %s)", len(handle), c.cond(p)) {
			env(handle[0].Arg(0), handle[0])
			c.check(madeBy(handle[0].Recv, "tfd.NewPipeline"), "route", what+":pipeline", handle[0].Pos, "the operation is not handed to the tool's pipeline")
			c.check(isBound(handle[0].Arg(1), "Append", "sinks.NewVEnvFileSink") || c.appends(p, handle[0].Arg(1)), "route", what+":persist", handle[0].Pos, "ordered operations are not persisted to the V log")
		}
		return
	}
	scalar := p.F.Eval(eng.Eq0(eng.Sub(cl.Res[0], c.constOf(tfdPkg, "ChannelScalar"))))
	if scalar == 1 {
		got := 0
		for _, ev := range try {
			env(ev.Arg(0), ev)
			if len(ev.Res) == 1 && p.F.Eval(ev.Res[0]) == 1 {
				got++
			} else if len(ev.Res) != 1 || p.F.Eval(ev.Res[0]) == 0 {
				got = 100
			}
		}
		for _, ev := range ing {
			env(ev.Arg(0), ev)
			got++
		}
		c.check(got == 1 && len(enq)+len(app) == 0, "route", what+":scalar", pos, "a scalar operation does not reach the S lane exactly once (where %s)", c.cond(p))
		return
	}
	if !c.check(scalar == -1 && len(try)+len(ing) == 0 && len(enq) == 1 && len(app) == 1, "route", what+":vector", pos, "an ordered operation does not reach its actor and the V log exactly once (where %s)", c.cond(p)) {
		return
	}
	env(enq[0].Arg(0), enq[0])
	r := enq[0].Recv
	c.check(r != nil && r.Ev != nil && hasSuffix(r.Ev.Name, "tfd.VRouter).Route") && r.Ev.Arg(0) == eng.FieldNamed(cl.Res[1], "KeyID"), "route", what+":actor", enq[0].Pos, "an ordered operation is not handed to the actor of its key")
	c.check(madeBy(app[0].Recv, "sinks.NewVEnvFileSink") && app[0].Arg(0) == enq[0].Res[0], "route", what+":persist", app[0].Pos, "what is appended to the V log is not the envelope the actor linked")
}

// appends: f is a function that appends what it is given to the V log, once.
func (c *Ctx) appends(p *eng.Path, f *eng.Term) bool {
	f = f.Unwrap()
	if f == nil || f.Op != "closure" && f.Op != "func" || f.Fn == nil {
		return false
	}
	e := c.engine()
	c.opaque(e, tfdPkg, sinksPkg)
	var bind []*eng.Term
	if f.Op == "closure" {
		bind = f.Args
	}
	n := 0
	for _, q := range c.run(e, f.Fn, nil, bind, p.Mem) {
		if q.End != "return" || len(q.Params) == 0 {
			return false
		}
		ap := calls(q, "VEnvFileSink).Append", "VEnvFileSink).AppendAll")
		if len(ap) != 1 || !madeBy(ap[0].Recv, "sinks.NewVEnvFileSink") || !sameRec(ap[0].Arg(0), q.Params[len(q.Params)-1]) {
			return false
		}
		n++
	}
	return n > 0
}

func timeDerived(t *eng.Term) bool {
	return t != nil && t.Derived(func(x *eng.Term) bool { return x.Ev != nil && hasSuffix(x.Ev.Name, "time.Now") })
}

func ruleT13(c *Ctx) {
	c.rule("operation", "each endpoint submits the operation it documents: key, bucket and amount of the request (one when missing or not a number), negated for a reversal, with flags that select its lane")
	c.rule("route", "an operation that was classified reaches exactly one lane once, carrying what it was classified with; a refused one reaches none")
	c.rule("answer", "a refused operation is answered with status 400 and an accepted one with 202, after it was handed over; the proxy's answer names the lane the operation took, its key, bucket and sequence number")
	c.rule("state", "the state endpoint flushes the S lane, then both logs, then reads both logs and replays all of what was read; a failed read is answered with status 500")
	c.rule("sum", "a sum counts exactly the cells of the key asked for, and of the bucket asked for when there is one")
	for _, s := range []opSpec{{proxyPkg, "/consume", 1, true, true}, {proxyPkg, "/reverse", -1, true, false}, {proxyPkg, "/set_limit", 0, false, false}, {simPkg, "/consume", 1, true, true}} {
		what := s.pkg[4:] + s.pattern
		n := 0
		for _, p := range c.toolRoute(s.pkg, s.pattern, 0) {
			if p.End != "return" {
				continue
			}
			cl := calls(p, "tfd.Classify")
			if !c.check(len(cl) == 1, "operation", what, retPos(p), "%d operations are submitted for one request (where %s)", len(cl), c.cond(p)) {
				continue
			}
			n++
			op, ev := cl[0].Arg(0), cl[0]
			k := param(p, "key")
			c.check(k != nil && eng.FieldNamed(op, "Key") == k, "operation", what+":key", ev.Pos, "the operation's key is not the request's")
			if s.bucket {
				b := param(p, "bucket")
				c.check(b != nil && eng.FieldNamed(op, "Bucket") == b, "operation", what+":bucket", ev.Pos, "the operation's bucket is not the request's")
			}
			a := eng.FieldNamed(op, "Amount")
			if s.sign == 0 {
				z, ok := a.IsInt()
				c.check(ok && z == 0, "operation", what+":amount", ev.Pos, "a policy change carries an amount")
			} else {
				c.check(c.amountOf(p, a, s.sign), "operation", what+":amount", ev.Pos, "the operation's amount %s is not the request's (where %s)", a, c.cond(p))
			}
			lane := laneOf(op, p.F)
			c.check(lane == 1 && s.scalar || lane == -1 && !s.scalar, "operation", what+":lane", ev.Pos, "the operation's flags do not select the lane the endpoint documents")
			c.routed(p, ev, len(p.Events), what)
			r := responseOf(p)
			if errNil(p, errOf(ev)) == -1 {
				c.check(r.status == 400, "answer", what+":refused", retPos(p), "a refused operation is answered with %d", r.status)
			} else {
				last := 0
				for _, x := range calls(p, "tfd.Pipeline).Handle", "tfd.SService).TryIngest", "tfd.SService).Ingest", "VEnvFileSink).Append") {
					last = x.Seq
				}
				c.opAnswer(p, what, s, ev)
				c.check(r.status == 202 && !r.double && r.first > last, "answer", what+":accepted", retPos(p), "an accepted operation is answered with %d, or before it was handed over", r.status)
			}
		}
		c.check(n > 1, "operation", what+":paths", c.mustFn(s.pkg, "main").Pos(), "the endpoint submits nothing")
	}
	c.simGenerator()
	c.stateEndpoint()
	c.min("operation", 14)
	c.min("route", 16)
	c.min("answer", 8)
	c.min("state", 6)
	c.min("sum", 3)
}

// opAnswer: what an accepted operation is answered with describes that operation.
func (c *Ctx) opAnswer(p *eng.Path, what string, s opSpec, cl *eng.Event) {
	enc := calls(p, "encoding/json.Encoder).Encode")
	if s.pkg != proxyPkg {
		return
	}
	if !c.check(len(enc) == 1, "answer", what+":body", retPos(p), "%d bodies are sent for one operation", len(enc)) {
		return
	}
	body := mapBody(p, enc[0])
	field := func(name string, ok func(*eng.Term) bool, missing bool) {
		v := body[name]
		if v == nil {
			c.check(missing, "answer", what+":"+name, enc[0].Pos, "the answer has no %q", name)
			return
		}
		c.check(ok(v.Unwrap()), "answer", what+":"+name, enc[0].Pos, "the answer's %q is %s (where %s)", name, v, c.cond(p))
	}
	field("accepted", func(t *eng.Term) bool { b, ok := t.IsBool(); return ok && b }, false)
	fp := cl.Res[1]
	field("key_id", func(t *eng.Term) bool { return t == eng.FieldNamed(fp, "KeyID") }, false)
	field("bucket_id", func(t *eng.Term) bool { return t == eng.FieldNamed(eng.FieldNamed(fp, "Time"), "BucketID") }, !s.bucket)
	field("seq_end", func(t *eng.Term) bool { return t == eng.FieldNamed(cl.Arg(0), "SeqEnd") || timeDerived(t) }, false)
	scalar := p.F.Eval(eng.Eq0(eng.Sub(cl.Res[0], c.constOf(tfdPkg, "ChannelScalar"))))
	if scalar == 0 {
		scalar = laneOf(cl.Arg(0), p.F)
	}
	field("channel", func(t *eng.Term) bool {
		n, ok := t.IsStr()
		return ok && (n == "S") == (scalar == 1) && (n == "V") == (scalar == -1)
	}, false)
}

// goBodies lists the functions a main starts as goroutines, with their environment.
func (c *Ctx) goBodies(pkg string) (out []*eng.Event, end *eng.Path) {
	for _, p := range c.mainPaths(pkg, tfdPkg, sinksPkg) {
		if p.End != "return" {
			continue
		}
		var evs []*eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "go" {
				evs = append(evs, ev)
			}
		}
		if len(evs) >= len(out) {
			out, end = evs, p
		}
	}
	return
}

// simGenerator: operations the simulator makes up itself are routed like requests.
func (c *Ctx) simGenerator() {
	evs, _ := c.goBodies(simPkg)
	n := 0
	for _, g := range evs {
		fn, args, bind := goTarget(g)
		if fn == nil || !c.reaches(fn, "tfd.Classify") {
			continue
		}
		e := c.engine()
		e.MaxIter = 1
		c.opaque(e, tfdPkg, sinksPkg)
		for _, p := range c.run(e, fn, args, bind, g.Mem) {
			cl := calls(p, "tfd.Classify")
			for i, ev := range cl {
				until := len(p.Events)
				if i+1 < len(cl) {
					until = cl[i+1].Seq
				} else if p.End == "cut" && !handedOver(p, ev) {
					continue // the path was cut before the operation was handed over
				}
				if p.F.Eval(eng.Eq(errOf(ev), eng.Nil, nil)) == 0 {
					continue
				}
				n++
				c.routed(p, ev, until, "tfd-sim:generator")
			}
		}
	}
	c.check(n > 0, "route", "tfd-sim:generator", c.mustFn(simPkg, "main").Pos(), "the simulator generates no operations")
}

func handedOver(p *eng.Path, cl *eng.Event) bool {
	for _, ev := range calls(p, "tfd.SService).Ingest", "VEnvFileSink).Append", "tfd.Pipeline).Handle") {
		if ev.Seq > cl.Seq {
			return true
		}
	}
	for _, ev := range calls(p, "tfd.SService).TryIngest") {
		if ev.Seq > cl.Seq && p.F.Eval(ev.Res[0]) == 1 {
			return true
		}
	}
	return false
}

// reaches: f calls, directly or through the module, a function with the given name.
func (c *Ctx) reaches(f *ssa.Function, suffix string) bool {
	for g := range c.graph().reach(f) {
		if hasSuffix(eng.FuncName(g), suffix) {
			return true
		}
	}
	return false
}

func (c *Ctx) stateEndpoint() {
	answered := map[string]bool{}
	for _, p := range c.toolRoute(proxyPkg, "/state", 2) {
		if p.End != "return" {
			continue
		}
		pos := retPos(p)
		last := func(evs []*eng.Event) *eng.Event {
			if len(evs) == 0 {
				return nil
			}
			return evs[len(evs)-1]
		}
		fl := last(calls(p, "tfd.Pipeline).FlushS"))
		sf, vf := last(calls(p, "SBatchFileSink).Flush")), last(calls(p, "VEnvFileSink).Flush"))
		rs, rv := calls(p, "sinks.ReadAllSLog"), calls(p, "sinks.ReadAllVLog")
		if c.check(fl != nil && sf != nil && vf != nil, "state", "flush", pos, "the state is read without flushing the S lane and both logs") {
			c.check(madeBy(fl.Recv, "tfd.NewPipeline") && madeBy(sf.Recv, "NewSBatchFileSink") && madeBy(vf.Recv, "NewVEnvFileSink"), "state", "flush:which", fl.Pos, "what is flushed is not the tool's pipeline and logs")
			c.check(fl.Seq < sf.Seq, "state", "flush:order", sf.Pos, "the S log is flushed before the S lane, whose last batches stay in the buffer")
			for _, r := range rs {
				c.check(sf.Seq < r.Seq, "state", "read:S", r.Pos, "the S log is read before it was flushed")
				c.check(madeBy(sf.Recv, "NewSBatchFileSink") && r.Arg(0) == sf.Recv.Unwrap().Ev.Arg(0), "state", "read:Spath", r.Pos, "the S log read is not the one written")
			}
			for _, r := range rv {
				c.check(vf.Seq < r.Seq, "state", "read:V", r.Pos, "the V log is read before it was flushed")
				c.check(madeBy(vf.Recv, "NewVEnvFileSink") && r.Arg(0) == vf.Recv.Unwrap().Ev.Arg(0), "state", "read:Vpath", r.Pos, "the V log read is not the one written")
			}
		}
		failed := false
		for _, r := range append(append([]*eng.Event(nil), rs...), rv...) {
			switch errNil(p, errOf(r)) {
			case -1:
				failed = true
			case 0:
				c.check(false, "state", "read:error", r.Pos, "whether reading a log failed is not looked at")
			}
		}
		resp := responseOf(p)
		if failed {
			c.check(resp.status == 500, "state", "read:failed", pos, "a failed read is answered with %d", resp.status)
			c.check(len(calls(p, "encoding/json.Encoder).Encode", "tfd.State).Reconstruct")) == 0 && !resp.double, "state", "read:failed:only", pos, "after a failed read a state is answered as well")
			continue
		}
		c.check(resp.status == 0 || resp.status == 200, "state", "answer", pos, "the state is answered with %d", resp.status)
		rec := calls(p, "tfd.State).Reconstruct")
		if !c.check(len(rec) == 1 && len(rs) == 1 && len(rv) == 1, "state", "replay", pos, "the logs are not replayed once (where %s)", c.cond(p)) {
			continue
		}
		c.check(rec[0].Arg(0) == rs[0].Res[0] && rec[0].Arg(1) == rv[0].Res[0] && madeBy(rec[0].Recv, "tfd.NewState"), "state", "replay:all", rec[0].Pos, "what is replayed into an empty state is not all of what was read")
		// the cells visited, with what was decided about them
		var cells []*eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "next" && len(ev.Res) == 3 && p.F.Eval(ev.Res[0]) == 1 {
				cells = append(cells, ev)
				c.check(ev.Addr.Ev != nil && hasSuffix(ev.Addr.Ev.Name, "tfd.State).Cells") && ev.Addr.Ev.Recv == rec[0].Recv && ev.Addr.Ev.Seq > rec[0].Seq, "state", "cells", ev.Pos, "the cells looked at are not those of the replayed state")
			}
		}
		enc := calls(p, "encoding/json.Encoder).Encode")
		if !c.check(len(enc) == 1, "state", "body", pos, "%d bodies are sent", len(enc)) {
			continue
		}
		key, bucket, sumq := param(p, "key"), param(p, "bucket"), param(p, "sum")
		if key == nil {
			c.check(false, "sum", "key", pos, "the key asked for is not looked at")
			continue
		}
		keyed := -emptyKey(p, key)
		match := func(ev *eng.Event, bk bool) int {
			h := func(i int, s *eng.Term) int {
				k := eng.App("elem", types.Typ[types.Uint64], ev.Res[1], eng.Int(int64(i)))
				for _, x := range calls(p, "tfd.HashKey") {
					if x.Arg(0) == s {
						return eqv(p.F, k, x.Res[0])
					}
				}
				return 0
			}
			m := h(0, key)
			if bk {
				m = and3(m, h(1, bucket))
			}
			return m
		}
		body := mapBody(p, enc[0])
		isSum := sumq != nil && p.F.Eval(eng.Eq(sumq, eng.Str("1"), types.Typ[types.String])) == 1
		if keyed == 1 && isSum {
			answered["sum"] = true
			ok := true
			var want *eng.Term
			for _, bk := range []bool{false, true} {
				if bucket != nil && (bk && emptyKey(p, bucket) == 1 || !bk && emptyKey(p, bucket) == -1) {
					continue // no such request takes the path
				}
				w := eng.Int(0)
				for _, ev := range cells {
					m := -1
					if bucket != nil || !bk {
						m = match(ev, bk)
					} else if match(ev, false) != -1 {
						m = 0
					}
					switch m {
					case 1:
						w = eng.Add(w, ev.Res[2])
						answered["sum:bucket"] = answered["sum:bucket"] || bk
					case 0:
						ok = false
					}
				}
				ok = ok && (want == nil || want == w)
				want = w
			}
			c.check(ok && len(body) == 1 && body["sum"] == want, "sum", "sum", pos, "the sum answered is %v, not the sum %s of the cells asked for (where %s)", body["sum"], want, c.cond(p))
			continue
		}
		// cells by name
		n := 0
		ok := keyed != 0
		for _, ev := range cells {
			m := 1
			if keyed == 1 {
				m = match(ev, false)
			}
			if m == 0 {
				ok = false
			}
			hit := false
			for _, v := range setCells(p, enc[0]) {
				hit = hit || v.val == ev.Res[2] && cellKey(p, v.key, ev.Res[1])
			}
			if m == 1 {
				n++
			}
			c.check(hit == (m == 1), "sum", "cells", pos, "the cells answered are not those asked for (where %s)", c.cond(p))
		}
		answered["cells"] = true
		c.check(ok && len(setCells(p, enc[0])) == n, "sum", "cells:count", pos, "%d cells are answered instead of %d (where %s)", len(setCells(p, enc[0])), n, c.cond(p))
	}
	for _, k := range []string{"sum", "sum:bucket", "cells"} {
		c.check(answered[k], "sum", k+":answered", c.mustFn(proxyPkg, "main").Pos(), "the state endpoint has no %s answer", k)
	}
}

// cellKey: t is made from both parts of the key k of a cell, in their order.
func cellKey(p *eng.Path, t, k *eng.Term) bool {
	part := func(i int64) bool {
		el := eng.App("elem", types.Typ[types.Uint64], k, eng.Int(i))
		return t.Derived(func(x *eng.Term) bool { return x == el })
	}
	if part(0) || part(1) {
		at := [2]int{-1, -1}
		for n, sp := range strParts(p, t) {
			for i := range at {
				el := eng.App("elem", types.Typ[types.Uint64], k, eng.Int(int64(i)))
				if sp.val != nil && at[i] < 0 && sp.val.Derived(func(x *eng.Term) bool { return x == el }) {
					at[i] = n
				}
			}
		}
		return part(0) && part(1) && at[0] <= at[1]
	}
	return t.Derived(func(x *eng.Term) bool { return x == k })
}

type cellSet struct{ key, val *eng.Term }

// setCells lists what was put in the map that is sent.
func setCells(p *eng.Path, enc *eng.Event) []cellSet {
	m := enc.Arg(0).Unwrap()
	var out []cellSet
	for _, ev := range p.Events {
		if ev.Kind == "mapset" && ev.Addr == m {
			out = append(out, cellSet{ev.Arg(0), ev.Arg(1)})
		}
	}
	return out
}

// mapBody is the map sent, by constant name.
func mapBody(p *eng.Path, enc *eng.Event) map[string]*eng.Term {
	out := map[string]*eng.Term{}
	for _, s := range setCells(p, enc) {
		k, ok := s.key.IsStr()
		if !ok {
			k = s.key.String()
		}
		out[k] = s.val
	}
	return out
}

func ruleT14(c *Ctx) {
	c.rule("stop-order", "after a termination signal (or the end of the run) the S lane is stopped, which flushes it, before its sink is closed; the proxy stops serving before that")
	c.rule("closed", "both logs are closed on every way out of a run")
	c.rule("started", "the S lane runs before requests are served")
	c.rule("wiring", "the logs, the lane and the transformer are the ones configured, and each flag configures its own parameter, or the documented default when it is not positive")
	c.rule("ticker-positive", "no ticker is created with a period that is not positive")
	c.rule("serving-ends", "the goroutine that serves ends the process only after an error that is not the regular end of serving")
	c.rule("run-end", "the simulator runs until a signal or, when -duration is positive, for that long; it then tells its generator to stop before it stops the S lane, and a generator told to stop ends")
	c.rule("interval", "the simulator's flush interval metric observes only intervals between two writes")
	proxyF := map[string]string{"Shards": "shards", "OrderPow2": "order_pow2", "CountThresh": "count_thresh", "TimeCap": "time_cap", "FlushInterval": "flush"}
	for _, pkg := range []string{proxyPkg, simPkg} {
		name := pkg[4:]
		m := c.mustFn(pkg, "main")
		n := 0
		for _, p := range c.mainPaths(pkg, tfdPkg, sinksPkg) {
			if p.End != "return" {
				over := false
				for _, ev := range p.Events {
					over = over || isSignalRecv(p, ev) || ev.Kind == "select"
				}
				if over && p.End != "cut" {
					ev := p.Events[len(p.Events)-1]
					c.check(false, "closed", name+":exit", ev.Pos, "the run ends (%s) without stopping the S lane and closing the logs (where %s)", p.End, c.cond(p))
				}
				continue
			}
			one := func(suffixes ...string) *eng.Event {
				evs := calls(p, suffixes...)
				if len(evs) == 0 {
					return nil
				}
				return evs[0]
			}
			ss, vs := one("sinks.NewSBatchFileSink"), one("sinks.NewVEnvFileSink")
			if !c.check(ss != nil && vs != nil, "closed", name+":logs", m.Pos(), "a run has no S log or no V log") {
				continue
			}
			if errNil(p, errOf(ss)) != 1 || errNil(p, errOf(vs)) != 1 {
				st := one("tfd.Pipeline).Start", "tfd.SService).Start")
				c.check(st == nil, "closed", name+":unopened", ss.Pos, "the tool runs although it is not known that its logs could be opened (where %s)", c.cond(p))
				continue
			}
			n++
			c.parsedFirst(p, "wiring", name)
			down := one("http.Server).Shutdown", "http.Server).Close")
			if down != nil {
				c.gracefulStop("stop-order", name+":", p, down)
				a := memField(down.Mem, down.Recv.Unwrap(), "Addr")
				s, lit := a.IsStr()
				if lit {
					def, bad := defaultOf(p, "http")
					d, isS := def.IsStr()
					lit = bad && isS && s == d
				}
				c.check(a != nil && (isFlag(a, "http") || lit), "wiring", name+":http", down.Pos, "the server listens on %s, not on the value of -http", a)
			}
			start := one("tfd.Pipeline).Start", "tfd.SService).Start")
			stop := one("tfd.Pipeline).Stop", "tfd.SService).Stop")
			sc, vc := one("SBatchFileSink).Close"), one("VEnvFileSink).Close")
			var sig, listen *eng.Event
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Name == "os/signal.Notify" {
					c.signalChannel("stop-order", name+":", ev)
				}
				if sig == nil && (isSignalRecv(p, ev) || ev.Kind == "select" || ev.Kind == "recv") {
					sig = ev
				}
				if ev.Kind == "go" {
					if gf, _, _ := goTarget(ev); gf != nil && listens(c, gf) && listen == nil {
						listen = ev
						if pkg == proxyPkg {
							c.listenerEnds("serving-ends", p, ev)
						}
					}
				}
			}
			pos := retPos(p)
			c.check(sc != nil && vc != nil && vc.Recv == vs.Res[0] && sc.Recv == ss.Res[0], "closed", name, pos, "a run ends without closing both logs (where %s)", c.cond(p))
			if vc != nil && sig != nil {
				c.check(vc.Seq > sig.Seq, "stop-order", name+":v-early", vc.Pos, "the V log is closed before the run ends: what is appended afterwards is lost")
			}
			if c.check(stop != nil && sc != nil && stop.Seq < sc.Seq, "stop-order", name+":stop", pos, "the S lane is not stopped before its log is closed: what it still holds is lost") {
				c.check(sig != nil && stop.Seq > sig.Seq, "stop-order", name+":signal", stop.Pos, "the S lane is stopped before the run ends")
				c.check(start != nil && start.Recv == stop.Recv, "stop-order", name+":same", stop.Pos, "the lane stopped is not the one started")
			}
			if pkg == simPkg && sig != nil && stop != nil {
				c.runEnds(p, sig, stop)
			}
			if pkg == proxyPkg {
				c.check(down != nil && sig != nil && down.Seq > sig.Seq && stop != nil && down.Seq < stop.Seq && vc != nil && down.Seq < vc.Seq, "stop-order", name+":serving", pos, "the lane is stopped or a log closed while requests are still served")
			}
			c.check(start != nil && listen != nil && start.Seq < listen.Seq, "started", name, pos, "requests are served before the S lane runs")
			// wiring
			path := func(ev *eng.Event, flag string) {
				got, ok := flagOf(ev.Arg(0))
				s, lit := ev.Arg(0).IsStr()
				if lit {
					def, bad := defaultOf(p, flag)
					d, isS := def.IsStr()
					lit = bad && isS && s == d
				}
				c.check(ok && got == flag || lit, "wiring", name+":"+flag, ev.Pos, "the log opened is %s, not the value of -%s", ev.Arg(0), flag)
			}
			path(ss, "s_log")
			path(vs, "v_log")
			intFlag := func(what string, t *eng.Term, flag string, ev *eng.Event) {
				got, ok := flagOf(t)
				if ok && got == flag {
					c.check(p.F.Eval(eng.Gt(t, eng.Int(0))) == 1, "wiring", name+":"+what+":positive", ev.Pos, "%s may be given a value of -%s that is not positive", what, flag)
					return
				}
				v, isc := t.IsInt()
				def, bad := defaultOf(p, flag)
				if c.check(isc && v > 0, "wiring", name+":"+what, ev.Pos, "%s receives %s instead of the value of -%s", what, t, flag) {
					d, ok := def.IsInt()
					c.check(bad && ok && d == v, "wiring", name+":"+what+":default", ev.Pos, "%s receives %d although -%s (default %s) need not be out of range (where %s)", what, v, flag, def, c.cond(p))
				}
			}
			if np := one("tfd.NewPipeline"); np != nil {
				o := np.Arg(0)
				for f, flag := range proxyF {
					intFlag(f, eng.FieldNamed(o, f), flag, np)
				}
				c.check(eng.FieldNamed(o, "SSink").Unwrap() == ss.Res[0], "wiring", name+":sink", np.Pos, "the S lane does not write to the S log")
				tr := eng.FieldNamed(o, "VSA")
				c.check(tr != nil && p.F.Eval(eng.Eq(tr, eng.Nil, nil)) == -1, "wiring", name+":transformer", np.Pos, "the S lane has no transformer")
			} else if na, ns := one("tfd.NewSAccumulator"), one("tfd.NewSService"); c.check(na != nil && ns != nil, "wiring", name+":lane", pos, "a run has no S lane") {
				for i, f := range []string{"Shards", "OrderPow2", "CountThresh", "TimeCap"} {
					intFlag(f, na.Arg(i), proxyF[f], na)
				}
				intFlag("FlushInterval", eng.FieldNamed(ns.Arg(3), "FlushInterval"), "flush", ns)
				if tr := ns.Arg(1).Unwrap(); tr != nil && tr.Typ != nil {
					if st, ok := deref(tr.Typ).Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if named, ok := st.Field(i).Type().(*types.Named); ok && named.Obj().Name() == "VSATransformer" {
								v := eng.FieldNamed(tr, st.Field(i).Name())
								if tr.Op == "new" || tr.Op == "alloc" {
									v = memField(ns.Mem, tr, st.Field(i).Name())
								}
								c.check(v == nil || p.F.Eval(eng.Eq(v, eng.Nil, nil)) != 1, "wiring", name+":transformer", ns.Pos, "the transformer wraps none: the first flush panics")
							}
						}
					}
				}
				c.check(ns.Arg(0) == na.Res[0], "wiring", name+":accumulator", ns.Pos, "the service does not run the accumulator that was configured")
				inner := ns.Arg(2).Unwrap()
				ok := inner == ss.Res[0]
				for _, st := range p.Events[:ns.Seq] {
					if (st.Kind == "lstore" || st.Kind == "store") && st.Addr.Op == "fa" && st.Addr.Args[0] == inner {
						ok = ok || st.Arg(0).Unwrap() == ss.Res[0]
					}
				}
				c.check(ok, "wiring", name+":sink", ns.Pos, "the S lane does not write to the S log")
			}
		}
		c.check(n > 0, "closed", name+":paths", m.Pos(), "no complete run was decided")
	}
	// tickers of the tools
	nt := 0
	for _, pkg := range []string{proxyPkg, simPkg} {
		evs, _ := c.goBodies(pkg)
		for _, g := range evs {
			fn, args, bind := goTarget(g)
			if fn == nil || !c.reachesCall(fn, "time.NewTicker") {
				continue
			}
			e := c.engine()
			e.MaxIter = 0
			c.opaque(e, tfdPkg, sinksPkg)
			for _, p := range c.run(e, fn, args, bind, g.Mem) {
				for _, ev := range calls(p, "time.NewTicker", "time.Tick") {
					nt++
					c.check(p.F.Eval(eng.Gt(ev.Arg(0), eng.Int(0))) == 1, "ticker-positive", fname(fn), ev.Pos, "the period %s need not be positive, in which case NewTicker panics (where %s)", ev.Arg(0), c.cond(p))
				}
			}
		}
	}
	c.check(nt > 0, "ticker-positive", "tickers", c.mustFn(simPkg, "main").Pos(), "no ticker was found")
	c.generatorEnds()
	c.flushIntervals()
	c.min("run-end", 3)
	c.min("stop-order", 6)
	c.min("closed", 4)
	c.min("wiring", 10)
	c.min("interval", 2)
}

// runEnds: what a run of the simulator waits for, and that it ends the generator.
func (c *Ctx) runEnds(p *eng.Path, wait, stop *eng.Event) {
	chans := wait.Args
	if wait.Kind == "recv" {
		chans = []*eng.Term{wait.Addr}
	}
	var timer *eng.Event
	heard := false
	for _, ch := range chans {
		for _, n := range p.Events[:wait.Seq] {
			if n.Kind == "call" && (n.Name == "os/signal.Notify" && stripConv(n.Arg(0)) == stripConv(ch) || n.Name == "os/signal.NotifyContext" && ch.Derived(func(t *eng.Term) bool { return t.Ev == n })) {
				heard = true
			}
		}
		ch.Derived(func(t *eng.Term) bool {
			if t.Ev != nil && hasSuffix(t.Ev.Name, "time.After", "time.NewTimer", "time.Tick", "time.NewTicker") {
				timer = t.Ev
			}
			return false
		})
	}
	c.check(heard, "run-end", "tfd-sim:signal", wait.Pos, "the run does not end at a signal")
	if timer != nil {
		c.check(isFlag(timer.Arg(0), "duration") && p.F.Eval(eng.Gt(timer.Arg(0), eng.Int(0))) == 1, "run-end", "tfd-sim:duration", timer.Pos, "the run ends after %s, not after -duration, or although -duration need not be positive (where %s)", timer.Arg(0), c.cond(p))
	} else {
		short := false
		for _, le := range p.Log {
			le.Cond.Derived(func(t *eng.Term) bool {
				if (t.Op == "deref" || t.Op == "mem") && isFlag(t, "duration") {
					short = short || p.F.Eval(eng.Gt(t, eng.Int(0))) == -1
				}
				return false
			})
		}
		c.check(short, "run-end", "tfd-sim:forever", wait.Pos, "the run does not end after -duration although it may be positive (where %s)", c.cond(p))
	}
	told := false
	for _, ev := range p.Events {
		told = told || ev.Seq < stop.Seq && (ev.Kind == "close" || ev.Kind == "send" || ev.Kind == "call" && ev.Recv != nil && ev.Recv.Ev != nil && hasSuffix(ev.Recv.Ev.Name, "context.WithCancel"))
	}
	c.check(told, "run-end", "tfd-sim:stop", stop.Pos, "the S lane is stopped while the generator has not been told to stop")
}

// generatorEnds: a generator that was told to stop generates nothing more.
func (c *Ctx) generatorEnds() {
	evs, _ := c.goBodies(simPkg)
	n := 0
	for _, g := range evs {
		fn, args, bind := goTarget(g)
		if fn == nil || !c.reaches(fn, "tfd.Classify") {
			continue
		}
		e := c.engine()
		e.MaxIter = 1
		c.opaque(e, tfdPkg, sinksPkg)
		for _, p := range c.run(e, fn, args, bind, g.Mem) {
			if dead := deadTick(p); dead != nil {
				c.fail("run-end", "tfd-sim:halted", dead.Pos, "the generator waits for ticks of a ticker that was stopped: it generates nothing")
			}
			for i, ev := range p.Events {
				if ev.Kind != "recv" || isTickRecv(ev) {
					continue
				}
				n++
				more := p.End != "return"
				for _, x := range p.Events[i+1:] {
					more = more || x.Kind == "recv" || x.Kind == "select" || x.Kind == "call" && hasSuffix(x.Name, "tfd.Classify")
				}
				c.check(!more, "run-end", "tfd-sim:generator", ev.Pos, "the generator goes on after it was told to stop")
				break
			}
		}
	}
	c.check(n > 0, "run-end", "tfd-sim:listens", c.mustFn(simPkg, "main").Pos(), "the generator never listens for being told to stop")
}

// defaultOf is the default a flag was registered with, and whether the path knows the value
// given for it to be out of range: not positive, or empty.
func defaultOf(p *eng.Path, flag string) (def *eng.Term, bad bool) {
	def = eng.Nil
	for _, ev := range p.Events {
		if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "flag.") {
			continue
		}
		for i, a := range ev.Args {
			if s, ok := a.IsStr(); ok && s == flag && i+1 < len(ev.Args) {
				def = ev.Args[i+1]
				break
			}
		}
	}
	for _, le := range p.Log {
		le.Cond.Walk(func(t *eng.Term) bool {
			if isFlag(t, flag) {
				if t.Typ != nil && isStringType(t.Typ) {
					bad = bad || emptyKey(p, t) == 1
				} else {
					bad = bad || p.F.Eval(eng.Gt(t, eng.Int(0))) == -1
				}
				return false
			}
			return true
		})
	}
	return
}

// parsedFirst: no flag is read before the command line has been parsed.
func (c *Ctx) parsedFirst(p *eng.Path, rule, name string) {
	parse := -1
	for _, ev := range p.Events {
		if ev.Kind == "call" && (ev.Name == "flag.Parse" || hasSuffix(ev.Name, "flag.FlagSet).Parse")) {
			parse = ev.Seq
			break
		}
	}
	if !c.check(parse >= 0, rule, name+":parsed", retPos(p), "the command line is never parsed") {
		return
	}
	for _, le := range p.Log {
		early := false
		if le.Seq <= parse {
			le.Cond.Walk(func(t *eng.Term) bool {
				_, f := flagOf(t)
				early = early || f
				return !f
			})
		}
		if early {
			c.check(false, rule, name+":parsed", le.Pos, "a flag is read before the command line is parsed")
			return
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *Ctx) reachesCall(f *ssa.Function, name string) bool {
	for g := range c.graph().reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if cf := call.Common().StaticCallee(); cf != nil && eng.FuncName(cf) == name {
						return true
					}
				}
			}
		}
	}
	return false
}

// flushIntervals: wrappers of a sink pass every batch on, and observe only real intervals.
func (c *Ctx) flushIntervals() {
	for _, f := range c.implementers(tfdPkg, "SBatchesSink", "OnSBatches") {
		if c.pkgOf(f) == sinksPkg {
			continue
		}
		for _, p := range c.run(func() *eng.Engine { e := c.engine(); c.opaque(e, sinksPkg, tfdPkg); return e }(), f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			fw := 0
			for _, ev := range p.Events {
				if ev.Kind == "call" && hasSuffix(ev.Name, ".OnSBatches") && ev.Arg(0) == p.Params[1] {
					fw++
				}
				if ev.Kind == "call" && hasSuffix(ev.Name, ".Observe") {
					prev := false
					for _, o := range p.Events[:ev.Seq] {
						if o.Kind == "atomic" && len(o.Res) > 0 && p.F.Eval(eng.Eq0(o.Res[0])) == -1 {
							prev = true
						}
					}
					c.check(prev, "interval", fname(f), ev.Pos, "an interval is observed although there was no write before (where %s)", c.cond(p))
				}
			}
			c.check(fw == 1, "interval", fname(f)+":forward", retPos(p), "a batch is passed on %d times", fw)
		}
	}
}
