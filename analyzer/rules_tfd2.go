package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

func init() {
	reg("T01", ruleT01)
	reg("T04", ruleT04)
	reg("T05", ruleT05)
	reg("T06", ruleT06)
	reg("T07", ruleT07)
	reg("T11", ruleT11)
}

// pureCallees are packages whose functions depend on their arguments only.
var pureCallees = map[string]bool{"hash": true, "hash/fnv": true, "hash/crc32": true, "hash/crc64": true, "hash/adler32": true, "encoding/binary": true, "math/bits": true, "math": true, "strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/md5": true, "crypto/sha512": true, "io": true, "slices": true, "unsafe": true}

// pure checks that the result of fn depends on nothing but its arguments.
func (c *Ctx) pure(fn *ssa.Function, rule string) {
	for f := range c.graph().reach(fn) {
		if f.Pkg == nil && f.Parent() == nil {
			continue
		}
		if !strings.HasPrefix(c.pkgOf(f)+"/", tfdPkg+"/") && f != fn {
			if f.Pkg != nil && !c.inModule(f) {
				continue
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						el := g.Type().(*types.Pointer).Elem()
						st, isS := el.Underlying().(*types.Struct)
						c.check(isS && st.NumFields() == 0 || c.constGlobal(g), rule, fname(fn)+":global:"+g.Name(), in.Pos(), "the identity computed by %s depends on the variable %s", fname(fn), g.Name())
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if cc.IsInvoke() {
					p := cc.Method.Pkg()
					c.check(p != nil && pureCallees[p.Path()], rule, fname(fn)+":calls:"+cc.Method.Name(), in.Pos(), "the identity computed by %s depends on %s", fname(fn), cc.Method.FullName())
					continue
				}
				if cf := cc.StaticCallee(); cf != nil && cf.Pkg != nil && !c.inModule(cf) {
					c.check(pureCallees[cf.Pkg.Pkg.Path()], rule, fname(fn)+":calls:"+cf.Name(), in.Pos(), "the identity computed by %s depends on %s", fname(fn), cf.String())
				}
			}
		}
	}
}

func (c *Ctx) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && (f.Pkg.Pkg.Path() == c.Module || strings.HasPrefix(f.Pkg.Pkg.Path(), c.Module+"/"))
}

// constGlobal: no function of the module but the initialiser stores to the variable.
func (c *Ctx) constGlobal(g *ssa.Global) bool {
	for _, f := range c.Funcs {
		if f.Name() == "init" && f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					return false
				}
			}
		}
	}
	// an initialiser that is not a constant expression may differ from run to run
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				_, isC := st.Val.(*ssa.Const)
				return isC
			}
		}
	}
	return true
}

func ruleT01(c *Ctx) {
	c.rule("lane", "an operation is classified Scalar exactly when it has a key, none of the ordering flags, and both eligibility flags; everything else is Vector")
	c.rule("nokey", "an error is returned exactly for an operation without a key")
	c.rule("footprint", "the footprint carries the hash of the operation's key, the hash of its bucket or the all-buckets flag when it has none, and the lane; the delta is the operation's amount")
	c.rule("stable-id", "the identity of a string is a pure function of the whole string")
	f, h := c.mustFn(tfdPkg, "Classify"), c.mustFn(tfdPkg, "HashKey")
	scalar, vector := c.constOf(tfdPkg, "ChannelScalar"), c.constOf(tfdPkg, "ChannelVector")
	e := c.engine()
	e.Opaque[eng.FuncName(h)] = true
	nS := 0
	for _, p := range c.run(e, f, nil, nil, nil) {
		if p.End != "return" || !c.check(len(p.Ret) == 4, "nokey", "Classify", f.Pos(), "Classify does not return four results") {
			continue
		}
		op := p.Params[0]
		pos := retPos(p)
		key := emptyKey(p, eng.FieldNamed(op, "Key"))
		en := errNil(p, p.Ret[3])
		if !c.check(key != 0 && en != 0 && en == -key, "nokey", "Classify:error", pos, "the error does not say whether the operation has a key (where %s)", c.cond(p)) {
			continue
		}
		ch := p.Ret[0]
		if key == 1 {
			c.check(ch == vector, "lane", "Classify:nokey", pos, "an operation without a key is not sent to the ordered lane")
			continue
		}
		flag := func(n string) int { return p.F.Eval(eng.FieldNamed(op, n)) }
		want := and3(-flag("IsBackdated"), -flag("IsCrossKey"), -flag("ChangesPolicy"), -flag("NeedsExternalDecision"), -flag("IsGlobal"), flag("IsSingleKey"), flag("IsConservativeDelta"))
		c.check(ch == scalar && want == 1 || ch == vector && want == -1, "lane", "Classify:lane", pos, "the lane is %s although the flags on this path (%s) do not decide it so", ch, c.cond(p))
		if ch == scalar {
			nS++
		}
		fp := p.Ret[1]
		c.check(hashOf(p, eng.FieldNamed(fp, "KeyID"), eng.FieldNamed(op, "Key"), h), "footprint", "Classify:key", pos, "the footprint's key is not the hash of the operation's key")
		tm := eng.FieldNamed(fp, "Time")
		bk := eng.FieldNamed(op, "Bucket")
		if eb := emptyKey(p, bk); eb == 1 {
			z, ok := eng.FieldNamed(tm, "BucketID").IsInt()
			c.check(p.F.Eval(eng.FieldNamed(tm, "All")) == 1 && ok && z == 0, "footprint", "Classify:all", pos, "an operation without a bucket does not cover all buckets")
		} else {
			c.check(eb == -1 && p.F.Eval(eng.FieldNamed(tm, "All")) == -1 && hashOf(p, eng.FieldNamed(tm, "BucketID"), bk, h), "footprint", "Classify:bucket", pos, "the footprint's bucket is not the hash of the operation's bucket (where %s)", c.cond(p))
		}
		c.check(eng.FieldNamed(fp, "Scope") == ch, "footprint", "Classify:scope", pos, "the footprint's scope %s is not the lane %s", eng.FieldNamed(fp, "Scope"), ch)
		c.check(p.Ret[2] == eng.FieldNamed(op, "Amount"), "footprint", "Classify:delta", pos, "the delta is %s, not the operation's amount", p.Ret[2])
	}
	c.check(nS > 0, "lane", "Classify:scalar", f.Pos(), "no operation is ever scalar")
	c.wholeInput(h, "stable-id")
	c.pure(h, "stable-id")
	c.min("lane", 3)
	c.min("footprint", 5)
	c.min("nokey", 1)
	c.min("stable-id", 1)
}

// hashOf: t is the result of the identity function on arg.
func hashOf(p *eng.Path, t, arg *eng.Term, h *ssa.Function) bool {
	return t != nil && t.Ev != nil && t.Ev.Kind == "call" && t.Ev.Name == eng.FuncName(h) && t.Ev.Arg(0) == arg
}

// wholeInput: the identity takes in all of its argument.
func (c *Ctx) wholeInput(h *ssa.Function, rule string) {
	for _, p := range c.run(c.engine(), h, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		s := p.Params[0]
		whole := false
		var at *eng.Event
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			for _, a := range ev.Args {
				if x := a; x == s || x.Op == "conv" && x.Args[0] == s || stripConv(x) == s {
					whole, at = true, ev
				}
			}
		}
		used := false
		if at != nil {
			p.Ret[0].Derived(func(t *eng.Term) bool {
				used = used || t.Ev != nil && (t.Ev == at || t.Ev.Seq > at.Seq && t.Ev.Recv != nil && (t.Ev.Recv == at.Recv || t.Ev.Recv == at.Arg(0)))
				return false
			})
			used = used || p.Ret[0].Ev == at
		}
		if !whole {
			// written out by hand: every byte contributes
			k := int64(0)
			for ; p.Ret[0].Derived(func(t *eng.Term) bool {
				return t.Op == "elem" && stripConv(t.Args[0]) == s && t.Args[1] == eng.Int(k)
			}); k++ {
			}
			whole = p.F.Eval(eng.Ge(eng.Int(k), eng.LenOf(s))) == 1
			used = true
		}
		c.check(whole && used, rule, fname(h)+":whole", retPos(p), "the identity of a string does not take in the whole string")
	}
}

func ruleT11(c *Ctx) {
	c.rule("disjoint", "two footprints are disjoint exactly when both are scalar and they name different keys, or different buckets of a key with neither covering all buckets")
	f := c.mustFn(tfdPkg, "Footprint.Disjoint")
	scalar := c.constOf(tfdPkg, "ChannelScalar")
	for _, p := range c.run(c.engine(), f, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		a, b := p.Params[0], p.Params[1]
		for _, v := range []bool{true, false} {
			fs := p.F.Clone()
			if !fs.Assume(p.Ret[0], v) {
				continue
			}
			both := and3(fs.Eval(eng.Eq0(eng.Sub(eng.FieldNamed(a, "Scope"), scalar))), fs.Eval(eng.Eq0(eng.Sub(eng.FieldNamed(b, "Scope"), scalar))))
			key := fs.Eval(eng.Eq0(eng.Sub(eng.FieldNamed(a, "KeyID"), eng.FieldNamed(b, "KeyID"))))
			ta, tb := eng.FieldNamed(a, "Time"), eng.FieldNamed(b, "Time")
			all := or3(fs.Eval(eng.FieldNamed(ta, "All")), fs.Eval(eng.FieldNamed(tb, "All")))
			bk := fs.Eval(eng.Eq0(eng.Sub(eng.FieldNamed(ta, "BucketID"), eng.FieldNamed(tb, "BucketID"))))
			want := and3(both, or3(-key, and3(-all, -bk)))
			c.check(want != 0 && (want == 1) == v, "disjoint", "Disjoint", retPos(p), "Disjoint answers %v where %s, which does not follow from scope, key, all-flag and bucket", v, c.cond(p))
		}
	}
	c.min("disjoint", 1)
}

// serviceRoles are the parts of the S-lane service.
type serviceRoles struct {
	typ                          *types.Named
	acc, vsa, sink, in, reqs     *types.Var
	stop, done                   *types.Var
	start, stopFn, flush, worker *ssa.Function
	accIngest, accFlush          *ssa.Function

	// how the worker is started
	args, bind []*eng.Term
	mem        map[string]*eng.Cell
	recv       *eng.Term
}

func (c *Ctx) svc() *serviceRoles {
	r := &serviceRoles{typ: c.typ(tfdPkg, "SService")}
	c.must(r.typ != nil, tfdPkg+".SService", "the service type does not exist")
	isT := func(t types.Type, name string) bool {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == name
	}
	for _, f := range c.fields(tfdPkg, "SService") {
		switch {
		case isT(f.Type(), "SAccumulator"):
			r.acc = f
		case isT(f.Type(), "VSATransformer"):
			r.vsa = f
		case isT(f.Type(), "SBatchesSink"):
			r.sink = f
		}
		if ch, ok := f.Type().Underlying().(*types.Chan); ok {
			if isT(ch.Elem(), "Envelope") {
				r.in = f
			} else if _, ok := ch.Elem().Underlying().(*types.Chan); ok {
				r.reqs = f
			}
		}
	}
	r.start, r.stopFn, r.flush = c.mustFn(tfdPkg, "SService.Start"), c.mustFn(tfdPkg, "SService.Stop"), c.mustFn(tfdPkg, "SService.Flush")
	r.accIngest, r.accFlush = c.mustFn(tfdPkg, "SAccumulator.Ingest"), c.mustFn(tfdPkg, "SAccumulator.FlushAll")
	for _, p := range c.run(c.engine(), r.start, nil, nil, nil) {
		for _, ev := range p.Events {
			if ev.Kind == "go" {
				r.worker, r.args, r.bind = goTarget(ev)
				r.mem, r.recv = ev.Mem, p.Params[0]
			}
		}
	}
	for _, p := range c.run(c.engine(), r.stopFn, nil, nil, nil) {
		for _, ev := range p.Events {
			if v := chanField(ev.Addr, p.Params[0]); v != nil {
				switch ev.Kind {
				case "close":
					r.stop = v
				case "recv":
					r.done = v
				}
			}
		}
	}
	for n, ok := range map[string]bool{"acc": r.acc != nil, "vsa": r.vsa != nil, "sink": r.sink != nil, "in": r.in != nil, "requests": r.reqs != nil, "stop": r.stop != nil, "done": r.done != nil, "worker": r.worker != nil} {
		c.must(ok, "SService:"+n, "the service has no recognisable "+n)
	}
	return r
}

// chanField is the field of recv that holds the channel an operation is made on.
func chanField(a, recv *eng.Term) *types.Var {
	if a == nil || a.Op != "fld" || a.Args[0] != recv {
		return nil
	}
	v, _ := a.Obj.(*types.Var)
	return v
}

// workerPaths are the paths of the service goroutine with the accumulator's operations as events.
func (c *Ctx) workerPaths(r *serviceRoles) []*eng.Path {
	e := c.engine()
	e.MaxIter = 1
	e.Opaque[eng.FuncName(r.accIngest)] = true
	e.Opaque[eng.FuncName(r.accFlush)] = true
	return c.run(e, r.worker, r.args, r.bind, r.mem)
}

// once: the event happens at most once per service, however often the function is called.
func (c *Ctx) onceGuarded(p *eng.Path, ev *eng.Event) bool {
	for _, l := range p.Log {
		if l.Seq > ev.Seq {
			break
		}
		if l.Cond.Op == "oncedone" && !l.Val {
			return true
		}
	}
	for _, o := range p.Events[:ev.Seq] {
		if o.Kind == "atomic" && o.Name == "CompareAndSwap" && len(o.Res) == 1 && p.F.Eval(o.Res[0]) == 1 && p.Params[0] != nil && o.Addr != nil && o.Addr.Op == "fa" && o.Addr.Args[0] == p.Params[0] && o.Arg(0) != o.Arg(1) {
			if v, _ := o.Addr.Obj.(*types.Var); v != nil && c.neverHolds(v, o.Arg(0)) {
				return false
			}
			return true
		}
		// a flag tested and set under a lock that is held throughout
		if o.Kind == "store" && o.Addr.Op == "fa" && o.Addr.Args[0] == p.Params[0] && isTrue(o.Arg(0)) && len(o.Held) > 0 {
			v, _ := o.Addr.Obj.(*types.Var)
			if v != nil && p.F.Eval(eng.FieldOf(p.Params[0], v)) == -1 {
				return true
			}
		}
	}
	for _, o := range p.Events[ev.Seq:] {
		if o.Kind == "store" && o.Addr.Op == "fa" && o.Addr.Args[0] == p.Params[0] && isTrue(o.Arg(0)) && len(o.Held) > 0 && len(ev.Held) > 0 {
			v, _ := o.Addr.Obj.(*types.Var)
			if v != nil && p.F.Eval(eng.FieldOf(p.Params[0], v)) == -1 {
				return true
			}
		}
	}
	return false
}

func ruleT04(c *Ctx) {
	c.rule("one-worker", "the service starts its goroutine at most once, and nothing else runs its body")
	c.rule("owner", "the accumulator and its shards, which have no lock, are used by the service's goroutine only")
	c.rule("exclusive", "an accumulator handed to a service is used for nothing else")
	r := c.svc()
	n := 0
	for _, f := range c.Funcs {
		if c.pkgOf(f) != tfdPkg || f.Parent() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && f != r.start && g.Call.StaticCallee() == r.worker {
					c.check(c.graph().onlyFrom(f, r.start, nil), "one-worker", fname(f), g.Pos(), "the worker is started outside Start")
				}
			}
		}
	}
	for _, p := range c.run(c.engine(), r.start, nil, nil, nil) {
		k := 0
		for _, ev := range p.Events {
			if ev.Kind == "go" {
				k++
				n++
				c.check(c.onceGuarded(p, ev), "one-worker", "Start", ev.Pos, "a second Start runs a second worker on the same accumulator")
			}
		}
		c.check(k <= 1, "one-worker", "Start:count", r.start.Pos(), "Start runs %d workers", k)
	}
	c.check(n > 0, "one-worker", "Start:starts", r.start.Pos(), "Start never runs the worker")
	// calls of the worker body
	g := c.graph()
	for cl := range g.callers(r.worker) {
		if cl == r.worker {
			continue
		}
		ok := false
		for x := cl; x != nil; x = x.Parent() {
			ok = ok || x == r.start
		}
		for _, b := range cl.Blocks {
			for _, in := range b.Instrs {
				if call, is := in.(ssa.CallInstruction); is && call.Common().StaticCallee() == r.worker {
					_, isGo := in.(*ssa.Go)
					c.check(isGo || ok && cl.Parent() != nil, "one-worker", fname(cl), in.Pos(), "the worker's body is run outside its goroutine")
				}
			}
		}
	}
	// ownership
	own := map[string]bool{"SAccumulator": true, "SShard": true}
	isOwn := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Signature.Recv() == nil {
			return false
		}
		t := f.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		nt, ok := t.(*types.Named)
		return ok && own[nt.Obj().Name()] && nt.Obj().Pkg() != nil && strings.HasSuffix(nt.Obj().Pkg().Path(), tfdPkg)
	}
	inWorker := map[*ssa.Function]bool{}
	for f := range g.reach(r.worker) {
		inWorker[f] = true
	}
	for _, f := range c.Funcs {
		if isOwn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					cf := call.Common().StaticCallee()
					if cf == nil || !isOwn(cf) {
						continue
					}
					c.ob("owner", fname(f)+"->"+cf.Name())
					ok := inWorker[f] && onlyFrom(c, f, r.worker)
					if _, isGo := in.(*ssa.Go); isGo {
						ok = false
					}
					c.check(ok, "owner", fname(f)+"->"+cf.Name(), in.Pos(), "%s uses the unlocked accumulator outside the service's goroutine", fname(f))
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if v := structField(fa); v == r.acc && !inWorker[f] && fname(f) != "NewSService" {
						if al, isA := fa.X.(*ssa.Alloc); isA && al.Heap {
							continue // construction
						}
						c.check(false, "owner", fname(f)+":acc", fa.Pos(), "%s takes the accumulator of a running service", fname(f))
					}
				}
			}
		}
	}
	// the accumulator handed over
	ctor := c.mustFn(tfdPkg, "NewSService")
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != ctor {
					continue
				}
				v := call.Common().Args[0]
				fresh := false
				if cl, ok := v.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && cl.Call.StaticCallee().Name() == "NewSAccumulator" {
					fresh = true
					for _, ref := range nonDebug(*cl.Referrers()) {
						fresh = fresh && ref == in
					}
				}
				c.check(fresh, "exclusive", fname(f), in.Pos(), "the accumulator given to the service is also used elsewhere")
				// not inside a loop over the same accumulator: the call that makes it is in the same block run
			}
		}
	}
	c.min("owner", 2)
	c.min("exclusive", 2)
	c.min("one-worker", 2)
}

// blocking operations of a path: those that wait for another goroutine.
func waits(ev *eng.Event) bool {
	return (ev.Kind == "select" && ev.Mode == "blocking") || (ev.Kind == "recv" || ev.Kind == "send") && ev.Mode != "select"
}

func ruleT05(c *Ctx) {
	c.rule("stop", "Stop signals the worker once, makes sure a worker runs, and returns only after the worker has finished")
	c.rule("final", "the worker finishes only after a stop signal, after taking everything that was queued and flushing it, and tells so afterwards")
	c.rule("ack", "a flush request is acknowledged exactly once, after everything queued before it was taken and flushed")
	c.rule("request", "Flush waits for its own acknowledgement, or for the end of the worker")
	c.rule("no-hang", "no operation of the service waits for something that never happens: callers also wait for the end of the worker, the worker always listens to stop, tick and flush requests")
	c.rule("ctor", "the channels exist and the flush interval is positive")
	r := c.svc()
	// Stop
	for _, p := range c.run(c.engine(), r.stopFn, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		recv := p.Params[0]
		signalled, started, waited := false, false, false
		closes := 0
		for _, l := range p.Log {
			if l.Cond.Op == "oncedone" && l.Val {
				signalled = true // one of the guards says it was done before; refined below
			}
		}
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "close" && chanField(ev.Addr, recv) == r.stop:
				closes++
				signalled = true
				c.check(!waited, "stop", "Stop:order", ev.Pos, "Stop waits before it signals")
				c.check(c.onceGuarded(p, ev), "stop", "Stop:twice", ev.Pos, "a second Stop closes the channel again, which panics")
			case ev.Kind == "enter" && ev.Name == eng.FuncName(r.start), ev.Kind == "go":
				started = started || !waited
			case waits(ev):
				ch := chanField(ev.Addr, recv)
				c.check(ch == r.done && ev.Kind == "recv", "no-hang", "Stop", ev.Pos, "Stop waits for something else than the end of the worker (%s)", ev.Addr)
				waited = waited || ch == r.done
			}
		}
		c.check(signalled && waited, "stop", "Stop:waits", retPos(p), "Stop returns without having signalled the worker and waited for it (where %s)", c.cond(p))
		c.check(started, "stop", "Stop:started", retPos(p), "Stop waits for a worker that may never have been started")
		c.check(closes <= 1, "stop", "Stop:close", retPos(p), "Stop closes the channel %d times", closes)
	}
	// Flush
	for _, p := range c.run(c.engine(), r.flush, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		recv := p.Params[0]
		var sent *eng.Term
		got, ended := false, false
		n := 0
		for _, ev := range p.Events {
			c.callerWait(ev, recv, r, "Flush")
			switch ev.Kind {
			case "send":
				if chanField(ev.Addr, recv) == r.reqs {
					n++
					sent = ev.Arg(0)
					c.check(sent.Op == "mkchan" || strings.HasPrefix(sent.String(), "mkchan"), "request", "Flush:own", ev.Pos, "the acknowledgement channel is shared with other requests")
				}
			case "recv":
				got = got || sent != nil && ev.Addr == sent
				ended = ended || chanField(ev.Addr, recv) == r.done
			}
		}
		c.check(ended || got, "request", "Flush", retPos(p), "Flush returns before it is acknowledged (where %s)", c.cond(p))
		c.check(n <= 1, "request", "Flush:once", retPos(p), "Flush makes %d requests", n)
	}
	// the worker
	ret, acks := 0, 0
	for _, p := range c.workerPaths(r) {
		c.workerStep(p, r, &ret, &acks)
	}
	c.check(ret > 0, "final", "worker:returns", r.worker.Pos(), "the worker never finishes")
	c.check(acks > 0, "ack", "worker:acks", r.worker.Pos(), "no flush request is ever acknowledged")
	// construction
	ctor := c.mustFn(tfdPkg, "NewSService")
	for _, p := range c.run(c.engine(), ctor, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		obj := p.Ret[0].Unwrap()
		for _, f := range []*types.Var{r.in, r.reqs, r.stop, r.done} {
			v := p.LoadField(obj, f, fieldIndex(r.typ, f))
			c.check(strings.HasPrefix(v.String(), "mkchan"), "ctor", "NewSService:"+f.Name(), retPos(p), "the channel %s is not made", f.Name())
		}
		for _, wp := range c.workerPaths(r)[:1] {
			for _, ev := range wp.Events {
				if ev.Kind == "call" && ev.Name == "time.NewTicker" {
					a := ev.Arg(0)
					v := fieldValue(p, obj, a, r.recv)
					c.check(v != nil && p.F.Eval(eng.Gt(v, eng.Int(0))) == 1, "ctor", "NewSService:interval", retPos(p), "the flush interval %s need not be positive, so that the worker panics or never ticks", a)
				}
			}
		}
	}
	c.min("stop", 3)
	c.min("final", 3)
	c.min("ack", 3)
	c.min("request", 2)
	c.min("no-hang", 3)
	c.min("ctor", 5)
}

// fieldValue rewrites a chain of field reads from root into the final value in the
// constructor's memory.
func fieldValue(p *eng.Path, obj, t, root *eng.Term) *eng.Term {
	if t == root {
		return obj
	}
	if t.Op != "fld" {
		return nil
	}
	v, ok := t.Obj.(*types.Var)
	if !ok {
		return nil
	}
	if t.Args[0] == root {
		return memField(p.Mem, obj, v.Name())
	}
	b := fieldValue(p, obj, t.Args[0], root)
	if b == nil {
		return nil
	}
	return eng.FieldNamed(b, v.Name())
}

// callerWait: a caller that waits must also notice the end of the worker.
func (c *Ctx) callerWait(ev *eng.Event, recv *eng.Term, r *serviceRoles, who string) {
	if !waits(ev) {
		return
	}
	ok := ev.Kind == "recv" && chanField(ev.Addr, recv) == r.done
	if ev.Kind == "select" {
		for _, a := range ev.Args {
			ok = ok || chanField(a, recv) == r.done
		}
	}
	c.check(ok, "no-hang", who, ev.Pos, "%s waits without noticing the end of the worker: it hangs when the service is stopped", who)
}

// workerStep checks one path of the service goroutine.
func (c *Ctx) workerStep(p *eng.Path, r *serviceRoles, ret, acks *int) {
	recv := r.recv
	isIn := func(a *eng.Term) bool { return chanField(a, recv) == r.in }
	stopAt, doneAt := -1, -1
	halted := map[*eng.Term]bool{}
	emptyAt, flushAt := -1, -1 // last time the queue was seen empty (and nothing taken since), last flush after that
	var pending *eng.Term
	reqAt := -1
	for i, ev := range p.Events {
		switch {
		case ev.Kind == "select" && ev.Mode == "blocking":
			have := map[*types.Var]bool{}
			tick := false
			for _, a := range ev.Args {
				if v := chanField(a, recv); v != nil {
					have[v] = true
				}
				off := false
				for t := range halted {
					off = off || a.Derived(func(x *eng.Term) bool { return x == t })
				}
				tick = tick || isTickRecv(&eng.Event{Addr: a}) && !off
			}
			c.check(have[r.in] && have[r.stop] && have[r.reqs] && tick, "no-hang", "worker:select", ev.Pos, "the worker waits without listening to its queue, stop, tick and flush requests")
			c.check(pending == nil, "ack", "worker:answered", ev.Pos, "the worker takes up other work before it answers a flush request")
		case ev.Kind == "call" && (ev.Name == "(*time.Ticker).Stop" || ev.Name == "(*time.Timer).Stop"):
			halted[ev.Recv] = true
		case ev.Kind == "call" && (ev.Name == "(*time.Ticker).Reset" || ev.Name == "(*time.Timer).Reset"):
			delete(halted, ev.Recv)
		case waits(ev):
			c.check(false, "no-hang", "worker:wait", ev.Pos, "the worker waits for %s", ev.Addr)
		case ev.Kind == "select" && ev.Mode == "default":
			for _, a := range ev.Args {
				if isIn(a) {
					emptyAt, flushAt = i, -1
				}
			}
		case ev.Kind == "recv" && isIn(ev.Addr):
			emptyAt, flushAt = -1, -1
		case ev.Kind == "recv" && chanField(ev.Addr, recv) == r.stop:
			stopAt = i
			emptyAt, flushAt = -1, -1
		case ev.Kind == "recv" && chanField(ev.Addr, recv) == r.reqs:
			pending, reqAt = ev.Res[0], i
			emptyAt, flushAt = -1, -1
		case ev.Kind == "call" && ev.Name == eng.FuncName(r.accFlush):
			if emptyAt >= 0 {
				flushAt = i
			}
		case ev.Kind == "close" || ev.Kind == "send":
			if pending != nil && ev.Addr == pending {
				*acks++
				c.check(emptyAt > reqAt && flushAt > emptyAt, "ack", "worker:flushed", ev.Pos, "a flush request is acknowledged before everything queued before it was taken and flushed (where %s)", c.cond(p))
				c.check(ev.Kind == "close" || ev.Mode == "select", "no-hang", "worker:ack", ev.Pos, "the worker waits for the requester to take the acknowledgement")
				c.check(!c.sinkLater(p, i, r), "ack", "worker:sunk", ev.Pos, "a flush request is acknowledged before the sink has what was flushed")
				pending = nil
			} else if chanField(ev.Addr, recv) == r.done {
				doneAt = i
				c.check(stopAt >= 0 && emptyAt > stopAt && flushAt > emptyAt, "final", "worker:done", ev.Pos, "the worker reports its end before everything queued was taken and flushed")
				c.check(!c.sinkLater(p, i, r), "final", "worker:sunk", ev.Pos, "the worker reports its end before the sink has what was flushed")
			} else if ev.Kind == "close" {
				c.check(false, "ack", "worker:close", ev.Pos, "the worker closes %s", ev.Addr)
			}
		}
	}
	if p.End == "return" {
		*ret++
		c.check(stopAt >= 0, "final", "worker:signal", retPos(p), "the worker finishes without a stop signal (where %s)", c.cond(p))
		c.check(doneAt >= 0, "final", "worker:reports", retPos(p), "the worker finishes without saying so: Stop hangs")
		c.check(emptyAt > stopAt && flushAt > emptyAt, "final", "worker:flushed", retPos(p), "the worker finishes without taking and flushing everything that was queued (where %s)", c.cond(p))
	} else {
		c.check(doneAt < 0, "final", "worker:early", r.worker.Pos(), "the worker reports its end and goes on")
	}
}

// sinkLater: a batch reaches the sink only after event i.
func (c *Ctx) sinkLater(p *eng.Path, i int, r *serviceRoles) bool {
	for _, ev := range p.Events[i+1:] {
		if ev.Kind == "select" && ev.Mode == "blocking" {
			return false
		}
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".OnSBatches") {
			return true
		}
	}
	return false
}

// envChannel decides the lane of an envelope on a path: 1 scalar, -1 vector.
func (c *Ctx) envChannel(p *eng.Path, env *eng.Term) int {
	ch := eng.FieldNamed(env, "Channel")
	fs := p.F.Clone()
	fs.Assume(eng.Ge(ch, eng.Int(0)), true)
	fs.Assume(eng.Ge(eng.Int(1), ch), true)
	return fs.Eval(eng.Eq0(eng.Sub(ch, c.constOf(tfdPkg, "ChannelScalar"))))
}

func ruleT06(c *Ctx) {
	c.rule("accept", "a scalar envelope is queued exactly once and unchanged, or the caller learns that it was not; a vector envelope is never queued on the S-lane")
	c.rule("lane", "the pipeline gives every envelope to exactly one lane: scalar ones to the S-lane (waiting when the queue is full), vector ones to their key's actor and then once to the persister")
	c.rule("merge", "every envelope taken from the queue is merged into the accumulator exactly once and unchanged")
	c.rule("deliver", "everything flushed goes through the configured transformer and once to the sink")
	c.rule("tick", "the accumulator is flushed at every tick")
	r := c.svc()
	scalarOnly := func(name string) {
		f := c.mustFn(tfdPkg, name)
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			recv, env := p.Params[0], p.Params[1]
			sent, ended := 0, false
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "send" && chanField(ev.Addr, recv) == r.in:
					sent++
					c.check(ev.Arg(0) == env, "accept", name+":changed", ev.Pos, "the envelope queued is not the one given")
				case ev.Kind == "recv" && chanField(ev.Addr, recv) == r.done:
					ended = true
				}
				c.callerWait2(ev, recv, r, name)
			}
			ch := c.envChannel(p, env)
			if len(p.Ret) == 1 {
				ok := isTrue(p.Ret[0])
				c.check(ok || isFalse(p.Ret[0]), "accept", name+":answer", retPos(p), "the answer is not decided")
				switch ch {
				case -1:
					c.check(sent == 0 && ok, "accept", name+":vector", retPos(p), "a vector envelope is queued on the S-lane or refused")
				default:
					c.check(ch == 1 && (ok && sent == 1 || !ok && sent == 0), "accept", name, retPos(p), "an envelope is queued %d times while the caller is told %v (where %s)", sent, ok, c.cond(p))
				}
				for _, ev := range p.Events {
					c.check(!waits(ev), "accept", name+":waits", ev.Pos, "%s waits", name)
				}
			} else {
				switch ch {
				case -1:
					c.check(sent == 0, "accept", name+":vector", retPos(p), "a vector envelope is queued on the S-lane")
				default:
					c.check(ch == 1 && (sent == 1 || sent == 0 && ended), "accept", name, retPos(p), "an envelope is queued %d times (where %s)", sent, c.cond(p))
				}
			}
		}
	}
	scalarOnly("SService.Ingest")
	scalarOnly("SService.TryIngest")
	c.handle(r)
	mayNil := c.serviceBuilt(r)
	// the worker
	merged, delivered := 0, 0
	for _, p := range c.workerPaths(r) {
		recv := r.recv
		var have *eng.Term
		used := map[*eng.Term]bool{}
		ticked := false
		var batch *eng.Term
		flushed := func(pos token.Pos) {
			if batch == nil {
				return
			}
			none := p.F.Eval(eng.Eq0(eng.LenOf(batch))) == 1 || p.F.Eval(eng.Eq(eng.FieldOf(recv, r.sink), eng.Nil, nil)) == 1
			c.check(none, "deliver", "worker:lost", pos, "flushed batches never reach the sink (where %s)", c.cond(p))
			batch = nil
		}
		taken := func(pos token.Pos) {
			if have != nil {
				c.check(c.envChannel(p, have) == -1, "merge", "worker:lost", pos, "an envelope taken from the queue is not merged (where %s)", c.cond(p))
			}
			have = nil
		}
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "select":
				taken(ev.Pos)
				flushed(ev.Pos)
				c.check(!ticked, "tick", "worker:tick", ev.Pos, "a tick passes without a flush")
				ticked = false
			case ev.Kind == "recv" && chanField(ev.Addr, recv) == r.in:
				taken(ev.Pos)
				have = ev.Res[0]
			case ev.Kind == "recv" && isTickRecv(ev):
				ticked = true
			case ev.Kind == "call" && ev.Name == eng.FuncName(r.accIngest):
				merged++
				c.check(have != nil && ev.Arg(0) == have && !used[have], "merge", "worker:twice", ev.Pos, "something else than the envelope just taken is merged, or it is merged twice")
				if have != nil {
					used[have] = true
				}
				c.check(ev.Recv == eng.FieldOf(recv, r.acc), "merge", "worker:acc", ev.Pos, "the envelope is merged into another accumulator")
				have = nil
			case ev.Kind == "call" && ev.Name == eng.FuncName(r.accFlush):
				taken(ev.Pos)
				flushed(ev.Pos)
				ticked = false
				batch = ev.Res[0]
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Compress"):
				c.check(!mayNil[r.vsa] || ev.Recv != eng.FieldOf(recv, r.vsa) || p.F.Eval(eng.Eq(ev.Recv, eng.Nil, nil)) == -1, "deliver", "worker:no-transformer", ev.Pos, "the transformer is called when none is configured: the worker panics")
				c.check(batch != nil && ev.Arg(0) == batch, "deliver", "worker:compress", ev.Pos, "the transformer is given something else than what was flushed")
				batch = ev.Res[0]
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, ".OnSBatches"):
				delivered++
				c.check(!mayNil[r.sink] || ev.Recv != eng.FieldOf(recv, r.sink) || p.F.Eval(eng.Eq(ev.Recv, eng.Nil, nil)) == -1, "deliver", "worker:no-sink", ev.Pos, "the sink is called when none is configured: the worker panics")
				c.check(batch != nil && ev.Arg(0) == batch, "deliver", "worker:sink", ev.Pos, "the sink is given something else than what was flushed (%s)", ev.Arg(0))
				if p.F.Eval(eng.Eq(eng.FieldOf(recv, r.vsa), eng.Nil, nil)) != 1 && batch != nil {
					c.check(batch.Ev != nil && strings.HasSuffix(batch.Ev.Name, ".Compress"), "deliver", "worker:transformer", ev.Pos, "batches reach the sink without passing the configured transformer")
				}
				c.check(ev.Recv == eng.FieldOf(recv, r.sink), "deliver", "worker:other", ev.Pos, "the batches are given to something else than the configured sink")
				batch = nil
			}
		}
		if p.End == "return" {
			taken(retPos(p))
			flushed(retPos(p))
		}
	}
	c.check(merged > 0, "merge", "worker:merges", r.worker.Pos(), "nothing is ever merged")
	c.check(delivered > 0, "deliver", "worker:delivers", r.worker.Pos(), "nothing ever reaches the sink")
	c.min("accept", 4)
	c.min("lane", 4)
	c.min("merge", 3)
	c.min("deliver", 3)
	c.min("tick", 1)
}

func (c *Ctx) callerWait2(ev *eng.Event, recv *eng.Term, r *serviceRoles, who string) {
	if !waits(ev) {
		return
	}
	ok := false
	for _, a := range ev.Args {
		ok = ok || ev.Kind == "select" && chanField(a, recv) == r.done
	}
	c.check(ok, "accept", who+":hang", ev.Pos, "%s waits without noticing the end of the worker: it hangs when the service is stopped", who)
}

// serviceBuilt checks that a service works with what it was given, and that a pipeline passes
// on its options and its calls. It tells which of the service's fields can be nil.
func (c *Ctx) serviceBuilt(r *serviceRoles) map[*types.Var]bool {
	c.rule("configured", "the service works on the accumulator, transformer, sink, queue size and flush interval it was given, and a pipeline passes these and its shards on")
	c.rule("forward", "starting, stopping and flushing a pipeline do that to its service once")
	var tick *eng.Term
	for _, wp := range c.workerPaths(r)[:1] {
		for _, ev := range wp.Events {
			if ev.Kind == "call" && ev.Name == "time.NewTicker" && tick == nil {
				tick = ev.Arg(0)
			}
		}
	}
	mayNil := map[*types.Var]bool{}
	// given: the field holds what was given, unless that is known to be absent
	kept := func(p *eng.Path, svc *eng.Term, what string, v *types.Var, given *eng.Term, who string) {
		if given == nil {
			return
		}
		got := p.LoadField(svc, v, fieldIndex(r.typ, v))
		c.check(got == given || p.F.Eval(eng.Eq(given, eng.Nil, nil)) == 1, "configured", who+":"+what, retPos(p), "the service works with another %s (%s) than the one it was given (where %s)", what, got, c.cond(p))
	}
	size := func(p *eng.Path, svc *eng.Term, buf, iv *eng.Term, who string) {
		if ch := p.LoadField(svc, r.in, fieldIndex(r.typ, r.in)); buf != nil && ch.Op == "mkchan" {
			n := ch.Args[0]
			c.check(p.F.Eval(eng.Ge(n, eng.Int(0))) == 1, "configured", who+":negative", retPos(p), "the queue is made with %s places, which may be negative: that panics (where %s)", n, c.cond(p))
			c.check(stripConv(n) == buf || p.F.Eval(eng.Gt(buf, eng.Int(0))) == -1, "configured", who+":buffer", retPos(p), "the queue holds %s envelopes although %s were configured (where %s)", n, buf, c.cond(p))
		}
		if tick != nil && iv != nil {
			v := fieldValue(p, svc, tick, r.recv)
			c.check(v == iv || p.F.Eval(eng.Gt(iv, eng.Int(0))) == -1, "configured", who+":interval", retPos(p), "the service flushes every %s although %s was configured (where %s)", v, iv, c.cond(p))
		}
	}
	paramOf := func(p *eng.Path, f *ssa.Function, t types.Type) *eng.Term {
		for i, q := range f.Params {
			if types.Identical(q.Type(), t) {
				return p.Params[i]
			}
		}
		return nil
	}
	ctor := c.mustFn(tfdPkg, "NewSService")
	for _, p := range c.run(c.engine(), ctor, nil, nil, nil) {
		if p.End != "return" || len(p.Ret) != 1 {
			continue
		}
		svc := p.Ret[0].Unwrap()
		for what, v := range map[string]*types.Var{"accumulator": r.acc, "transformer": r.vsa, "sink": r.sink} {
			kept(p, svc, what, v, paramOf(p, ctor, v.Type()), "NewSService")
			if p.F.Eval(eng.Eq(p.LoadField(svc, v, fieldIndex(r.typ, v)), eng.Nil, nil)) != -1 {
				mayNil[v] = true
			}
		}
		if o := c.typ(tfdPkg, "SServiceOptions"); o != nil {
			if opts := paramOf(p, ctor, o); opts != nil {
				size(p, svc, eng.FieldNamed(opts, "Buffer"), eng.FieldNamed(opts, "FlushInterval"), "NewSService")
			}
		}
	}
	// the pipeline
	pt := c.typ(tfdPkg, "Pipeline")
	var sv *types.Var
	for _, f := range c.fields(tfdPkg, "Pipeline") {
		if q, ok := f.Type().(*types.Pointer); ok && types.Identical(q.Elem(), r.typ) {
			sv = f
		}
	}
	np := c.fn(tfdPkg, "NewPipeline")
	if pt == nil || sv == nil || np == nil || len(np.Params) != 1 {
		return mayNil
	}
	sh := c.shard()
	for _, p := range c.run(c.engine(), np, nil, nil, nil) {
		if p.End != "return" || len(p.Ret) != 1 {
			continue
		}
		opts := p.Params[0]
		svc := p.LoadField(p.Ret[0].Unwrap(), sv, fieldIndex(pt, sv)).Unwrap()
		kept(p, svc, "transformer", r.vsa, eng.FieldNamed(opts, "VSA"), "NewPipeline")
		kept(p, svc, "sink", r.sink, eng.FieldNamed(opts, "SSink"), "NewPipeline")
		size(p, svc, eng.FieldNamed(opts, "Buffer"), eng.FieldNamed(opts, "FlushInterval"), "NewPipeline")
		accT := c.typ(tfdPkg, "SAccumulator")
		acc := p.LoadField(svc, r.acc, fieldIndex(r.typ, r.acc)).Unwrap()
		for _, f := range c.fields(tfdPkg, "SAccumulator") {
			sl, ok := f.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			q, ok := sl.Elem().(*types.Pointer)
			if !ok || !types.Identical(q.Elem(), sh.shard) {
				continue
			}
			s := p.LoadField(acc, f, fieldIndex(accT, f))
			want := eng.FieldNamed(opts, "Shards")
			c.check(stripConv(eng.LenOf(s)) == want || p.F.Eval(eng.Eq0(eng.Sub(eng.LenOf(s), want))) == 1 || p.F.Eval(eng.Gt(want, eng.Int(0))) == -1, "configured", "NewPipeline:shards", retPos(p), "the pipeline has %s shards although %s were configured", eng.LenOf(s), want)
			if first := eng.LoadElem(p.Mem, s, 0); first != nil {
				l := eng.LenOf(p.LoadField(first.Unwrap(), sh.occ.cont, fieldIndex(sh.shard, sh.occ.cont)))
				ord := eng.FieldNamed(opts, "OrderPow2")
				from := l.Derived(func(t *eng.Term) bool { return t == ord })
				c.check(from || p.F.Eval(eng.Gt(ord, eng.Int(0))) == -1 || p.F.Eval(eng.Gt(eng.LenOf(s), eng.Int(0))) != 1, "configured", "NewPipeline:order", retPos(p), "the tables have %s positions although the order %s was configured", l, ord)
			}
		}
	}
	for name, target := range map[string]*ssa.Function{"Start": r.start, "Stop": r.stopFn, "FlushS": r.flush} {
		f := c.fn(tfdPkg, "Pipeline."+name)
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		e := c.engine()
		for _, g := range []*ssa.Function{r.start, r.stopFn, r.flush} {
			e.Opaque[eng.FuncName(g)] = true
		}
		for _, p := range c.run(e, f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			n := 0
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Name == eng.FuncName(target) && ev.Recv == eng.FieldOf(p.Params[0], sv) {
					n++
				}
			}
			c.check(n == 1 || p.F.Eval(eng.Eq(eng.FieldOf(p.Params[0], sv), eng.Nil, nil)) == 1, "forward", "Pipeline."+name, retPos(p), "%s reaches the pipeline's service %d times", name, n)
		}
	}
	c.min("configured", 6)
	return mayNil
}

// handle checks the pipeline's dispatch.
func (c *Ctx) handle(r *serviceRoles) {
	f := c.mustFn(tfdPkg, "Pipeline.Handle")
	route, enq := c.mustFn(tfdPkg, "VRouter.Route"), c.mustFn(tfdPkg, "VActor.Enqueue")
	e := c.engine()
	e.Opaque[eng.FuncName(route)] = true
	e.Opaque[eng.FuncName(enq)] = true
	kinds := map[int]int{}
	for _, p := range c.run(e, f, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		env, persist := p.Params[1], p.Params[2]
		var actor, queued *eng.Term
		sends, ended, enqs, persisted := 0, false, 0, 0
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "send":
				sends++
				c.check(ev.Addr.Op == "fld" && ev.Addr.Obj == types.Object(r.in) && ev.Arg(0) == env, "lane", "Handle:send", ev.Pos, "something else than the envelope is queued")
			case ev.Kind == "recv":
				ended = ended || ev.Addr.Op == "fld" && ev.Addr.Obj == types.Object(r.done)
			case ev.Kind == "call" && ev.Name == eng.FuncName(route):
				actor = ev.Res[0]
				c.check(ev.Arg(0) == eng.FieldNamed(eng.FieldNamed(env, "Footprint"), "KeyID"), "lane", "Handle:key", ev.Pos, "the envelope is routed by %s, not its key", ev.Arg(0))
			case ev.Kind == "call" && ev.Name == eng.FuncName(enq):
				enqs++
				c.check(actor != nil && ev.Recv == actor && ev.Arg(0) == env, "lane", "Handle:enqueue", ev.Pos, "the envelope is queued changed, or with another actor than its key's")
				queued = ev.Res[0]
			case ev.Kind == "call" && ev.Recv == persist:
				persisted++
				c.check(queued != nil && ev.Arg(0) == queued, "lane", "Handle:persist", ev.Pos, "the envelope handed to the persister is not the one that was queued, with its audit link")
			}
		}
		ch := c.envChannel(p, env)
		kinds[ch]++
		switch ch {
		case 1:
			c.check(enqs == 0 && persisted == 0 && (sends == 1 || sends == 0 && ended), "lane", "Handle:scalar", retPos(p), "a scalar envelope is queued %d times on the S-lane and %d times on the V-lane (where %s)", sends, enqs, c.cond(p))
		case -1:
			want := 1
			if n := p.F.Eval(eng.Eq(persist, eng.Nil, nil)); n == 1 {
				want = 0
			} else if n == 0 {
				want = -1
			}
			c.check(sends == 0 && enqs == 1 && persisted == want, "lane", "Handle:vector", retPos(p), "a vector envelope is queued %d times on the V-lane, %d times on the S-lane, and persisted %d times (where %s)", enqs, sends, persisted, c.cond(p))
		default:
			c.check(false, "lane", "Handle", retPos(p), "an envelope is dispatched without looking at its lane")
		}
	}
	c.check(kinds[1] > 0 && kinds[-1] > 0, "lane", "Handle:both", f.Pos(), "one of the lanes is never used")
	dr := c.mustFn(tfdPkg, "Pipeline.DrainV")
	drain := c.mustFn(tfdPkg, "VActor.Drain")
	e = c.engine()
	e.Opaque[eng.FuncName(route)] = true
	e.Opaque[eng.FuncName(drain)] = true
	for _, p := range c.run(e, dr, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		ok := len(p.Ret) == 1 && p.Ret[0].Ev != nil && p.Ret[0].Ev.Name == eng.FuncName(drain)
		if ok {
			a := p.Ret[0].Ev.Recv
			ok = a.Ev != nil && a.Ev.Name == eng.FuncName(route) && a.Ev.Arg(0) == p.Params[1]
		}
		c.check(ok, "lane", "DrainV", retPos(p), "DrainV does not return what the key's actor drained")
	}
}

func ruleT07(c *Ctx) {
	c.rule("link", "a queued envelope is the given one with its audit link set to the digest of its key and sequence marker, and that very envelope is returned")
	c.rule("fifo", "envelopes are appended at the end of the actor's queue, and draining returns all of them in order and empties the queue in one critical section")
	c.rule("actor", "a key has one actor: it is looked up and, when missing, created and stored under the key in one critical section; actors are never replaced or removed")
	c.rule("digest", "the audit digest is a pure function of all of its inputs")
	enq, drain, route := c.mustFn(tfdPkg, "VActor.Enqueue"), c.mustFn(tfdPkg, "VActor.Drain"), c.mustFn(tfdPkg, "VRouter.Route")
	h := c.mustFn(tfdPkg, "Hash128")
	c.rule("progress", "draining does not loop without changing what decides its end")
	if !c.progress("progress", c.graph().reachSync(drain)) {
		return
	}
	var queue *types.Var
	for _, f := range c.fields(tfdPkg, "VActor") {
		t := f.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if isNamed(t, "container/list", "List") {
			queue = f
		} else if _, ok := t.Underlying().(*types.Slice); ok {
			queue = f
		}
	}
	c.must(queue != nil, "VActor queue", "the actor has no recognisable queue")
	var mu *types.Var
	for _, f := range c.fields(tfdPkg, "VActor") {
		if isNamed(f.Type(), "sync", "Mutex") || isNamed(f.Type(), "sync", "RWMutex") {
			mu = f
		}
	}
	c.must(mu != nil, "VActor mutex", "the actor has no mutex")
	e := c.engine()
	e.Opaque[eng.FuncName(h)] = true
	pushedEver := false
	for _, p := range c.run(e, enq, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		recv, env := p.Params[0], p.Params[1]
		var pushed []*eng.Event
		var val *eng.Term
		for _, ev := range p.Events {
			q := eng.FieldOf(recv, queue)
			switch {
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*container/list.List)."):
				m := shortCall(ev.Name)
				if m == "PushBack" && (ev.Recv == q || ev.Recv.Op == "fa" && ev.Recv.Obj == types.Object(queue)) {
					pushed = append(pushed, ev)
					val = stripAs(ev.Arg(0))
				} else {
					c.check(m == "Len" || m == "Back" || m == "Front", "fifo", "Enqueue:"+m, ev.Pos, "the queue is changed by %s", m)
				}
			case ev.Kind == "store" && isField(ev.Addr, queue):
				pushed = append(pushed, ev)
				val = nil
				for _, o := range p.Events {
					if o.Kind == "append" && o.Addr == q && len(o.Res) == 1 && ev.Arg(0) == o.Res[0] {
						if l, ok := eng.ListOf(o.Arg(0)); ok && len(l) == 1 {
							val = stripAs(l[0])
						}
					}
				}
			}
		}
		if c.envChannel(p, env) == -1 || len(pushed) > 0 {
			pushedEver = true
			if !c.check(len(pushed) == 1 && val != nil, "fifo", "Enqueue", retPos(p), "a vector envelope is appended %d times (where %s)", len(pushed), c.cond(p)) {
				continue
			}
			c.check(heldField(pushed[0], mu), "fifo", "Enqueue:lock", pushed[0].Pos, "the queue is changed without the actor's lock")
			for _, n := range []string{"Channel", "Footprint", "Delta", "SeqEnd"} {
				c.check(eng.FieldNamed(val, n) == eng.FieldNamed(env, n), "link", "Enqueue:"+n, pushed[0].Pos, "the queued envelope has another %s than the given one", n)
			}
			l := eng.FieldNamed(val, "HashPrev")
			ok := l != nil && l.Ev != nil && l.Ev.Kind == "call" && l.Ev.Name == eng.FuncName(h)
			if ok {
				args, isL := eng.ListOf(l.Ev.Arg(0))
				ok = isL && len(args) == 2 && args[1] == eng.FieldNamed(env, "SeqEnd") && (args[0] == eng.FieldNamed(eng.FieldNamed(env, "Footprint"), "KeyID") || args[0].Op == "fld" && args[0].Args[0] == recv && isBasicInt(args[0].Typ))
			}
			c.check(ok, "link", "Enqueue:HashPrev", pushed[0].Pos, "the audit link is %s, not the digest of the key and the sequence marker", l)
			c.check(len(p.Ret) == 1 && p.Ret[0] == val, "link", "Enqueue:returned", retPos(p), "the envelope returned is not the one queued")
		} else {
			c.check(len(p.Ret) == 1 && p.Ret[0] == env, "link", "Enqueue:scalar", retPos(p), "a scalar envelope is changed")
			c.check(c.envChannel(p, env) == 1, "fifo", "Enqueue:dropped", retPos(p), "a vector envelope is dropped (where %s)", c.cond(p))
		}
	}
	c.check(pushedEver, "fifo", "Enqueue:pushes", enq.Pos(), "nothing is ever queued")
	c.drainStep(drain, queue, mu)
	// routing
	var actors, rmu *types.Var
	for _, f := range c.fields(tfdPkg, "VRouter") {
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			actors = f
		}
		if isNamed(f.Type(), "sync", "Mutex") || isNamed(f.Type(), "sync", "RWMutex") {
			rmu = f
		}
	}
	c.must(actors != nil && rmu != nil, "VRouter", "the router has no recognisable map and mutex")
	for _, p := range c.run(c.engine(), route, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		recv, key := p.Params[0], p.Params[1]
		m := eng.FieldOf(recv, actors)
		var get, set *eng.Event
		released := false
		for _, ev := range p.Events {
			switch ev.Kind {
			case "mapget":
				if ev.Addr == m && ev.Arg(0) == key {
					get, released = ev, false
					c.check(heldField(ev, rmu), "actor", "Route:lookup", ev.Pos, "the actors are looked up without the lock")
				}
			case "unlock", "runlock":
				released = released || isField(ev.Addr, rmu)
			case "mapset":
				if ev.Addr == m {
					c.check(set == nil && ev.Arg(0) == key, "actor", "Route:store", ev.Pos, "an actor is stored under another key")
					set = ev
					gone := get != nil && !released && heldField(ev, rmu) && (p.F.Eval(eng.Eq(get.Res[0], eng.Nil, nil)) == 1 || len(get.Res) > 1 && p.F.Eval(get.Res[1]) == -1)
					c.check(gone, "actor", "Route:race", ev.Pos, "an actor is stored although another one may exist: two callers get different actors for one key")
				}
			}
		}
		if len(p.Ret) != 1 {
			continue
		}
		if set != nil {
			c.check(p.Ret[0] == set.Arg(1), "actor", "Route:returned", retPos(p), "the actor returned is not the one stored")
			for _, f := range c.fields(tfdPkg, "VActor") {
				if isBasicInt(f.Type()) {
					c.check(p.LoadField(p.Ret[0].Unwrap(), f, fieldIndex(c.typ(tfdPkg, "VActor"), f)) == key, "actor", "Route:key", set.Pos, "the new actor carries another key")
				}
			}
			q := p.LoadField(p.Ret[0].Unwrap(), queue, fieldIndex(c.typ(tfdPkg, "VActor"), queue))
			if _, isSl := queue.Type().Underlying().(*types.Slice); !isSl {
				c.check(q != eng.Nil && p.F.Eval(eng.Eq(q, eng.Nil, nil)) != 1, "actor", "Route:queue", set.Pos, "the new actor has no queue")
			}
		} else {
			c.check(get != nil && p.Ret[0] == get.Res[0] && p.F.Eval(eng.Eq(get.Res[0], eng.Nil, nil)) == -1 || get != nil && len(get.Res) > 1 && p.Ret[0] == get.Res[0] && p.F.Eval(get.Res[1]) == 1, "actor", "Route:found", retPos(p), "the actor returned is not the key's (where %s)", c.cond(p))
		}
	}
	// nobody else changes the map
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var mv ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					mv = x.Map
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						mv = x.Call.Args[0]
						if ld, ok := mv.(*ssa.UnOp); ok {
							if fa, ok := ld.X.(*ssa.FieldAddr); ok && structField(fa) == actors {
								c.check(false, "actor", fname(f)+":"+bi.Name(), in.Pos(), "actors are removed: the next envelope of the key gets another actor and what was queued is lost")
							}
						}
						mv = nil
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && structField(fa) == actors {
						if al, ok := fa.X.(*ssa.Alloc); !ok || !al.Heap {
							c.check(false, "actor", fname(f)+":replaced", in.Pos(), "the actors are replaced as a whole")
						}
					}
				}
				if ld, ok := mv.(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && structField(fa) == actors {
						c.check(onlyFrom(c, f, route), "actor", fname(f)+":stores", in.Pos(), "actors are stored outside Route")
					}
				}
			}
		}
	}
	// the digest
	c.pure(h, "digest")
	for _, p := range c.run(c.engine(), h, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, ").PutUint64") {
				c.check(p.F.Eval(eng.Gt(eng.Int(8), eng.LenOf(ev.Arg(0)))) != 1, "digest", "Hash128:buffer", ev.Pos, "the buffer is too small for the value: building the digest panics")
			}
		}
		k := int64(0)
		for p.F.Eval(eng.Gt(eng.LenOf(p.Params[0]), eng.Int(k))) == 1 {
			x := eng.LoadElem(nil, p.Params[0], k)
			put := -1
			written := false
			for i, ev := range p.Events {
				if ev.Kind != "call" {
					continue
				}
				for _, a := range ev.Args {
					if a == x || stripConv(a) == x {
						put = i
					}
				}
				if put >= 0 && i > put && shortCall(ev.Name) == "Write" {
					written = true
				}
				if put >= 0 && i > put && !written && strings.HasPrefix(shortCall(ev.Name), "PutUint") && ev.Arg(0).Op != "slice" && p.Events[put].Arg(0).Op != "slice" {
					break // overwritten before it was written
				}
				if put >= 0 && i == put && shortCall(ev.Name) == "Write" {
					written = true
				}
			}
			c.check(put >= 0 && written, "digest", "Hash128:part", retPos(p), "input %d does not enter the digest", k)
			k++
		}
		c.check(p.F.Eval(eng.Ge(eng.Int(k), eng.LenOf(p.Params[0]))) == 1, "digest", "Hash128:all", retPos(p), "not all inputs enter the digest")
	}
	c.min("link", 5)
	c.min("fifo", 4)
	c.min("actor", 5)
	c.min("digest", 3)
}

// drainStep checks that draining returns everything in order and leaves nothing.
func (c *Ctx) drainStep(f *ssa.Function, queue, mu *types.Var) {
	_, isSlice := queue.Type().Underlying().(*types.Slice)
	for _, p := range c.run(c.engine(), f, nil, nil, nil) {
		if p.End != "return" || len(p.Ret) != 1 {
			continue
		}
		recv := p.Params[0]
		q := eng.FieldOf(recv, queue)
		pos := retPos(p)
		released := false
		for _, ev := range p.Events {
			if ev.Kind == "unlock" && isField(ev.Addr, mu) {
				released = true
			}
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*container/list.") || ev.Kind == "store" && isField(ev.Addr, queue) {
				c.check(heldField(ev, mu) && !released, "fifo", "Drain:lock", ev.Pos, "the queue is read and emptied in more than one critical section, or without the lock")
			}
		}
		if isSlice {
			fin := p.LoadField(recv, queue, fieldIndex(c.typ(tfdPkg, "VActor"), queue))
			z, ok := eng.LenOf(fin).IsInt()
			c.check(fin == eng.Nil || ok && z == 0, "fifo", "Drain:empties", pos, "the queue is not empty after draining")
			c.check(p.Ret[0] == q || p.F.Eval(eng.Eq0(eng.LenOf(q))) == 1 || c.copyOf(p, p.Ret[0], q), "fifo", "Drain:returns", pos, "draining does not return the queue")
			if p.Ret[0] == q {
				c.check(fin == eng.Nil, "fifo", "Drain:shared", pos, "the slice returned shares its memory with the queue")
			}
			continue
		}
		// container/list: front, then next (or removal of the front) until none is left
		var cur *eng.Term
		var vals []*eng.Term
		cleared := false
		removed := map[*eng.Term]bool{}
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.Name == "(*container/list.List).Front" && ev.Recv == q:
				cur = ev.Res[0]
			case ev.Name == "(*container/list.Element).Next":
				c.check(ev.Recv == cur && !removed[cur], "fifo", "Drain:walk", ev.Pos, "the queue is not walked in order")
				cur = ev.Res[0]
			case ev.Name == "(*container/list.List).Init" && ev.Recv == q:
				cleared = true
				c.check(cur != nil && p.F.Eval(eng.Eq(cur, eng.Nil, nil)) == 1, "fifo", "Drain:early", ev.Pos, "the queue is emptied before everything in it was taken")
			case ev.Name == "(*container/list.List).Remove" && ev.Recv == q:
				removed[ev.Arg(0)] = true
			case strings.HasPrefix(ev.Name, "(*container/list."):
				m := shortCall(ev.Name)
				c.check(m == "Len" || m == "Front", "fifo", "Drain:"+m, ev.Pos, "draining uses %s", m)
			}
			if cur != nil && (len(vals) == 0 || vals[len(vals)-1] != cur) && p.F.Eval(eng.Eq(cur, eng.Nil, nil)) != 1 {
				vals = append(vals, cur)
			}
		}
		empty := false
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == "(*container/list.List).Len" && p.F.Eval(eng.Eq0(ev.Res[0])) == 1 {
				empty = true
			}
		}
		allRemoved := len(removed) == len(vals)
		for _, v := range vals {
			allRemoved = allRemoved && removed[v]
		}
		c.check(empty || cur != nil && p.F.Eval(eng.Eq(cur, eng.Nil, nil)) == 1, "fifo", "Drain:all", pos, "draining stops before the end of the queue (where %s)", c.cond(p))
		c.check(cleared || allRemoved, "fifo", "Drain:empties", pos, "the queue is not emptied: what was drained is drained again")
		l, ok := eng.ListOf(p.Ret[0])
		if p.Ret[0] == eng.Nil {
			l, ok = nil, true
		}
		if !c.check(ok && len(l) == len(vals), "fifo", "Drain:returns", pos, "draining returns %d of %d envelopes (where %s)", len(l), len(vals), c.cond(p)) {
			continue
		}
		for i, x := range l {
			x = stripAs(x)
			c.check(x.Op == "fld" && x.Args[0] == vals[i], "fifo", "Drain:order", pos, "envelope %d of the result is not envelope %d of the queue", i, i)
		}
	}
}

// copyOf: t holds the elements of q in order.
func (c *Ctx) copyOf(p *eng.Path, t, q *eng.Term) bool {
	l, ok := eng.ListOf(t)
	if !ok {
		return false
	}
	for i, x := range l {
		if x != eng.LoadElem(nil, q, int64(i)) {
			return false
		}
	}
	return p.F.Eval(eng.Ge(eng.Int(int64(len(l))), eng.LenOf(q))) == 1
}
