package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

const apiPkg = "internal/ratelimiter/api"

func init() {
	reg("A01", ruleA01)
	reg("A02", ruleA02)
	reg("A03", ruleA03)
	reg("A04", ruleA04)
	reg("A05", ruleA05)
	reg("A06", ruleA06)
	reg("M01", ruleM01)
	reg("M02", ruleM02)
}

// route is one pattern registered on a mux with the function serving it.
type route struct {
	pattern string
	fn      *ssa.Function
	bind    []*eng.Term
	ev      *eng.Event
	path    *eng.Path
	handler *eng.Term
}

// routesOf lists the patterns a path registers.
func routesOf(p *eng.Path) []route {
	var out []route
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		switch ev.Name {
		case "(*net/http.ServeMux).HandleFunc", "net/http.HandleFunc", "(*net/http.ServeMux).Handle", "net/http.Handle":
			pat, ok := ev.Arg(0).IsStr()
			if !ok {
				continue
			}
			r := route{pattern: pat, ev: ev, path: p, handler: ev.Arg(1)}
			h := ev.Arg(1)
			h = stripAs(h)
			for h != nil && h.Op == "conv" {
				h = h.Args[0]
			}
			if h != nil && (h.Op == "closure" || h.Op == "func") {
				r.fn, r.bind = h.Fn, h.Args
			}
			out = append(out, r)
		}
	}
	return out
}

func (c *Ctx) apiRoutes() []route {
	reg := c.mustFn(apiPkg, "Server.RegisterRoutes")
	var out []route
	e := c.engine()
	e.Alias, e.MaxIter = true, 8
	ps := c.run(e, reg, nil, nil, nil)
	for _, p := range ps {
		if p.End == "return" {
			out = routesOf(p)
		}
	}
	return out
}

// handlerPaths walks the handler of a pattern with the store, the accumulator and the
// telemetry kept opaque.
func (c *Ctx) handlerPaths(pattern string) ([]*eng.Path, route) {
	for _, r := range c.apiRoutes() {
		if r.pattern == pattern || strings.HasSuffix(r.pattern, " "+pattern) {
			c.must(r.fn != nil, "route "+pattern, "the handler of "+pattern+" is not a function of the module")
			e := c.engine()
			c.opaque(e, ".", corePkg, churnPkg)
			return c.run(e, r.fn, nil, r.bind, nil), r
		}
	}
	c.failAt("anchor", "route "+pattern, "?", "no handler is registered for "+pattern)
	panic(abort{})
}

// response is what a handler path sends.
type response struct {
	status  int64 // -1 unknown, 0 nothing sent (net/http sends 200)
	first   int   // event index of the first header or body write
	headers map[string]*eng.Event
	late    []*eng.Event // header changes after the status was sent
	double  bool
}

func responseOf(p *eng.Path) response {
	r := response{first: len(p.Events), headers: map[string]*eng.Event{}}
	sent := false
	send := func(ev *eng.Event, st int64) {
		if sent {
			return
		}
		sent = true
		r.status = st
		r.first = ev.Seq
	}
	isW := func(t *eng.Term) bool {
		t = stripAs(t)
		return t != nil && t.Typ != nil && strings.HasSuffix(t.Typ.String(), "net/http.ResponseWriter")
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case hasSuffix(ev.Name, "http.ResponseWriter).WriteHeader"):
			st, ok := ev.Arg(0).IsInt()
			if !ok {
				st = -1
			}
			if sent {
				r.double = true
			}
			send(ev, st)
		case ev.Name == "net/http.Error":
			st, ok := ev.Arg(2).IsInt()
			if !ok {
				st = -1
			}
			if sent {
				r.double = true
			}
			send(ev, st)
		case ev.Name == "net/http.NotFound":
			send(ev, 404)
		case ev.Name == "(net/http.Header).Set" || ev.Name == "(net/http.Header).Add":
			if k, ok := ev.Arg(0).IsStr(); ok {
				if sent {
					r.late = append(r.late, ev)
				} else {
					r.headers[strings.ToLower(k)] = ev
				}
			}
		case ev.Name == "(net/http.Header).Del":
			if k, ok := ev.Arg(0).IsStr(); ok && !sent {
				delete(r.headers, strings.ToLower(k))
			}
		case hasSuffix(ev.Name, "http.ResponseWriter).Write") || (len(ev.Args) > 0 && isW(ev.Args[0]) && (strings.HasPrefix(ev.Name, "fmt.Fprint") || ev.Name == "io.WriteString" || ev.Name == "io.Copy")):
			send(ev, 200)
		case ev.Name == "encoding/json.NewEncoder" && isW(ev.Arg(0)):
			// the encoder's first Encode sends the header
		case hasSuffix(ev.Name, "json.Encoder).Encode"):
			if ev.Recv != nil && ev.Recv.Ev != nil && isW(ev.Recv.Ev.Arg(0)) {
				send(ev, 200)
			}
		}
	}
	return r
}

// queryKey is the value of the api_key query parameter on a path.
func queryKey(p *eng.Path) *eng.Term {
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Name == "(net/url.Values).Get" {
			if s, ok := ev.Arg(0).IsStr(); ok && s == "api_key" {
				return ev.Res[0]
			}
		}
	}
	return nil
}

// emptyKey: 1 the key is empty on this path, -1 it is not, 0 not decided.
func emptyKey(p *eng.Path, key *eng.Term) int {
	if v := p.F.Eval(eng.Eq(key, eng.Str(""), types.Typ[types.String])); v != 0 {
		return v
	}
	return p.F.Eval(eng.Eq0(eng.LenOf(key)))
}

const (
	evGetOrCreate = "core.Store).GetOrCreate"
	evTryConsume  = "(*vsa.VSA).TryConsume"
	evTryRefund   = "(*vsa.VSA).TryRefund"
)

// stateful: the call touches limiter state or its accounting.
func stateful(ev *eng.Event) bool {
	return ev.Kind == "call" && (strings.HasPrefix(ev.Name, "(*vsa.VSA).") && !hasSuffix(ev.Name, "Available", "State") || strings.HasPrefix(ev.Name, "(*vsa/"+corePkg+".Store).") || strings.HasPrefix(ev.Name, "vsa/"+corePkg+".Record") || strings.HasPrefix(ev.Name, "vsa/"+churnPkg+".Observe"))
}

// one runs the checks shared by the consuming and the refunding handler: the key is taken
// from the query, an empty key is refused without touching state, and exactly one operation
// of amount one is made on that key's instance.
func (c *Ctx) oneOperation(pattern, op, rule400, ruleOp string) []*eng.Path {
	ps, r := c.handlerPaths(pattern)
	var ok []*eng.Path
	refused := 0
	for _, p := range ps {
		if p.End != "return" {
			c.check(p.End != "panic", ruleOp, pattern+":panic", p.EndPos, "the handler can panic: %s", c.cond(p))
			continue
		}
		rs := responseOf(p)
		key := queryKey(p)
		touched := false
		for _, ev := range p.Events {
			touched = touched || stateful(ev)
		}
		if key == nil || emptyKey(p, key) == 1 || rs.status == 400 {
			refused++
			c.check(rs.status == 400, rule400, pattern+":status", r.ev.Pos, "a request without a key is answered %d: %s", rs.status, c.cond(p))
			c.check(!touched, rule400, pattern+":state", r.ev.Pos, "a refused request touches limiter state: %s", c.cond(p))
			c.check(key == nil || emptyKey(p, key) != -1, rule400, pattern+":valid", r.ev.Pos, "a request with a key is refused as malformed: %s", c.cond(p))
			continue
		}
		c.check(emptyKey(p, key) == -1, rule400, pattern+":unchecked", r.ev.Pos, "the handler goes on without having excluded an empty key: %s", c.cond(p))
		var inst *eng.Term
		n := 0
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			if hasSuffix(ev.Name, evGetOrCreate) {
				c.check(ev.Arg(0) == key, ruleOp, pattern+":key", ev.Pos, "the limiter is looked up for %s instead of the request's key", ev.Arg(0))
				if inst == nil {
					inst = ev.Res[0]
				}
			}
			if strings.HasPrefix(ev.Name, "(*vsa.VSA).") && !hasSuffix(ev.Name, ".Available", ".State", ".CheckCommit") {
				n++
				good := ev.Name == op && ev.Arg(0) == eng.Int(1) && ev.Recv != nil && inst != nil && ev.Recv.Ev != nil && hasSuffix(ev.Recv.Ev.Name, evGetOrCreate)
				c.check(good, ruleOp, pattern+":operation", ev.Pos, "the handler performs %s(%s) on %s", ev.Name, ev.Arg(0), ev.Recv)
			}
		}
		c.check(n == 1, ruleOp, pattern+":count", r.ev.Pos, "a request performs %d operations on the accumulator: %s", n, c.cond(p))
		ok = append(ok, p)
	}
	c.check(refused > 0, rule400, pattern+":refuses", r.ev.Pos, "a request without a key is never refused")
	c.check(len(ok) > 0, ruleOp, pattern+":serves", r.ev.Pos, "no request is served")
	return ok
}

func opResult(p *eng.Path, op string) int {
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Name == op {
			return p.F.Eval(ev.Res[0])
		}
	}
	return 0
}

// ---- A01 ----

func ruleA01(c *Ctx) {
	c.rule("missing-key", "a /check without api_key is answered 400 and touches no limiter state")
	c.rule("one-consume", "a /check with a key makes exactly one TryConsume(1), on the instance the store holds for that key")
	c.rule("status", "the answer is 200 exactly when TryConsume succeeded and 429 exactly when it failed, and the status is sent once")
	yes, no := 0, 0
	for _, p := range c.oneOperation("/check", evTryConsume, "missing-key", "one-consume") {
		rs := responseOf(p)
		c.check(!rs.double, "status", "/check:once", p.Events[0].Pos, "two statuses are sent: %s", c.cond(p))
		switch opResult(p, evTryConsume) {
		case 1:
			yes++
			c.check(rs.status == 200 || (rs.status == 0), "status", "/check:admitted", p.Events[0].Pos, "an admitted request is answered %d: %s", rs.status, c.cond(p))
		case -1:
			no++
			c.check(rs.status == 429, "status", "/check:denied", p.Events[0].Pos, "a denied request is answered %d: %s", rs.status, c.cond(p))
		default:
			c.fail("status", "/check:ignored", p.Events[0].Pos, "the result of TryConsume does not decide the answer: %s", c.cond(p))
		}
	}
	c.check(yes > 0 && no > 0, "status", "/check:cases", token.NoPos, "expected admitted and denied paths (%d, %d)", yes, no)
}

// ---- A02 ----

func ruleA02(c *Ctx) {
	c.rule("headers-sent", "every /check answer to a request with a key carries X-RateLimit-Limit, -Remaining and -Status, and a denial also Retry-After, all set before the status or body is written")
	c.rule("header-values", "Limit is the configured limit, Remaining is Available of the same instance read after the decision, Status is OK when admitted and Exceeded when denied")
	srv := c.typ(apiPkg, "Server")
	ns := c.mustFn(apiPkg, "NewServer")
	lim := fieldFromParam(c, ns, srv, 1)
	c.check(lim != nil, "header-values", "NewServer:limit", ns.Pos(), "the configured limit is not kept")
	c.check(fieldFromParam(c, ns, srv, 0) != nil, "header-values", "NewServer:store", ns.Pos(), "the store is not kept")
	for _, p := range c.oneOperation("/check", evTryConsume, "headers-sent", "headers-sent") {
		rs := responseOf(p)
		res := opResult(p, evTryConsume)
		var con *eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == evTryConsume {
				con = ev
			}
		}
		if con == nil {
			continue
		}
		who := map[int]string{1: "admitted", -1: "denied", 0: "undecided"}[res]
		want := []string{"X-RateLimit-Limit", "X-RateLimit-Remaining", "X-RateLimit-Status"}
		if res == -1 {
			want = append(want, "Retry-After")
		}
		for _, h := range want {
			ev := rs.headers[strings.ToLower(h)]
			if !c.check(ev != nil, "headers-sent", who+":"+h, con.Pos, "%s is not set before the answer is sent: %s", h, c.cond(p)) {
				continue
			}
			v := ev.Arg(1)
			switch h {
			case "X-RateLimit-Limit":
				ok := lim != nil && v.Derived(func(t *eng.Term) bool { return t.Op == "fld" && t.Obj == types.Object(lim) }) && plainDecimal(v)
				c.check(ok, "header-values", who+":"+h, ev.Pos, "the limit header is %s", v)
			case "X-RateLimit-Remaining":
				ok := plainDecimal(v) && v.Derived(func(t *eng.Term) bool {
					return t.Ev != nil && t.Ev.Name == "(*vsa.VSA).Available" && len(t.Ev.Res) == 1 && t == t.Ev.Res[0] && t.Ev.Recv == con.Recv && t.Ev.Seq > con.Seq
				})
				c.check(ok, "header-values", who+":"+h, ev.Pos, "the remaining header is %s", v)
			case "X-RateLimit-Status":
				s, _ := v.IsStr()
				c.check(res == 1 && s == "OK" || res == -1 && s == "Exceeded", "header-values", who+":"+h, ev.Pos, "the status header is %s", v)
			case "Retry-After":
				s, ok := v.IsStr()
				c.check(!ok || (s != "" && strings.Trim(s, "0123456789") == ""), "header-values", who+":"+h, ev.Pos, "Retry-After is %s", v)
			}
		}
		for _, ev := range rs.late {
			c.fail("headers-sent", who+":late", ev.Pos, "a header is set after the status was sent")
		}
	}
}

// plainDecimal: the string is one integer printed in decimal, unmodified.
func plainDecimal(v *eng.Term) bool {
	v = stripAs(v)
	var args []*eng.Term
	name := v.Name
	args = v.Args
	if v.Ev != nil && len(args) == 0 {
		name, args = v.Ev.Name, v.Ev.Args
	}
	ints := func(t *eng.Term) bool {
		t = stripAs(t)
		for t.Op == "conv" {
			t = t.Args[0]
		}
		return t.Op != "lin" && t.Op != "*" && t.Op != "/"
	}
	switch name {
	case "fmt.Sprintf":
		f, ok := args[0].IsStr()
		l, ok2 := eng.ListOf(args[1])
		return ok && ok2 && (f == "%d" || f == "%v") && len(l) == 1 && ints(l[0])
	case "fmt.Sprint":
		l, ok := eng.ListOf(args[0])
		return ok && len(l) == 1 && ints(l[0])
	case "strconv.FormatInt":
		b, ok := args[1].IsInt()
		return ok && b == 10 && ints(args[0])
	case "strconv.Itoa":
		return ints(args[0])
	}
	return false
}

// ---- A03 ----

func ruleA03(c *Ctx) {
	c.rule("missing-key", "a /release without api_key is answered 400 and touches no limiter state")
	c.rule("one-refund", "a /release with a key makes exactly one TryRefund(1), on the instance the store holds for that key, and consumes nothing")
	c.rule("status", "a /release with a key is answered 204")
	c.rule("refund-recorded", "a refund is counted exactly when TryRefund succeeded, with amount one")
	yes, no := 0, 0
	for _, p := range c.oneOperation("/release", evTryRefund, "missing-key", "one-refund") {
		rs := responseOf(p)
		c.check(rs.status == 204 && !rs.double, "status", "/release", p.Events[0].Pos, "the answer is %d: %s", rs.status, c.cond(p))
		rec := eng.Int(0)
		for _, ev := range p.Events {
			if ev.Kind == "call" && hasSuffix(ev.Name, corePkg+".RecordRefund") {
				rec = eng.Add(rec, ev.Arg(0))
			}
			if ev.Kind == "call" && hasSuffix(ev.Name, corePkg+".RecordAdmit", corePkg+".RecordAttempt") {
				c.fail("refund-recorded", "/release:other", ev.Pos, "a release is counted as %s", ev.Name)
			}
		}
		n, ok := rec.IsInt()
		switch opResult(p, evTryRefund) {
		case 1:
			yes++
			c.check(ok && n == 1, "refund-recorded", "/release:success", p.Events[0].Pos, "a refund is counted as %s: %s", rec, c.cond(p))
		case -1:
			no++
			c.check(ok && n == 0, "refund-recorded", "/release:failure", p.Events[0].Pos, "a refund that did not happen is counted: %s", c.cond(p))
		default:
			c.fail("refund-recorded", "/release:ignored", p.Events[0].Pos, "the result of TryRefund is not examined: %s", c.cond(p))
		}
	}
	c.check(yes > 0 && no > 0, "refund-recorded", "/release:cases", token.NoPos, "expected successful and failed refunds")
}

// ---- A04 ----

func ruleA04(c *Ctx) {
	c.rule("attempt-counted", "every /check with a key counts one attempt")
	c.rule("admit-counted", "an admission is counted exactly when TryConsume succeeded, with amount one, and no refund is counted")
	c.rule("churn-observed", "the request is handed to telemetry exactly once with its key and the decision")
	for _, p := range c.oneOperation("/check", evTryConsume, "attempt-counted", "attempt-counted") {
		res := opResult(p, evTryConsume)
		who := map[int]string{1: "admitted", -1: "denied", 0: "undecided"}[res]
		sum := map[string]*eng.Term{"Attempt": eng.Int(0), "Admit": eng.Int(0), "Refund": eng.Int(0)}
		obs := 0
		key := queryKey(p)
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			for k := range sum {
				if hasSuffix(ev.Name, corePkg+".Record"+k) {
					sum[k] = eng.Add(sum[k], ev.Arg(0))
				}
			}
			if hasSuffix(ev.Name, churnPkg+".ObserveRequest") {
				obs++
				d := p.F.Eval(ev.Arg(1))
				if isTrue(ev.Arg(1)) {
					d = 1
				}
				if isFalse(ev.Arg(1)) {
					d = -1
				}
				c.check(ev.Arg(0) == key && d == res && res != 0, "churn-observed", who+":values", ev.Pos, "telemetry gets (%s, %s) for a request that was %s", ev.Arg(0), ev.Arg(1), who)
			}
		}
		is := func(t *eng.Term, n int64) bool { v, ok := t.IsInt(); return ok && v == n }
		c.check(is(sum["Attempt"], 1), "attempt-counted", who, p.Events[0].Pos, "counts %s attempts: %s", sum["Attempt"], c.cond(p))
		c.check(is(sum["Refund"], 0), "admit-counted", who+":refund", p.Events[0].Pos, "counts a refund: %s", c.cond(p))
		want := int64(0)
		if res == 1 {
			want = 1
		}
		c.check(is(sum["Admit"], want), "admit-counted", who, p.Events[0].Pos, "counts %s admissions: %s", sum["Admit"], c.cond(p))
		c.check(obs == 1, "churn-observed", who, p.Events[0].Pos, "hands the request to telemetry %d times: %s", obs, c.cond(p))
	}
}

// ---- A05 ----

func ruleA05(c *Ctx) {
	c.rule("no-durable-io", "no function a /check or /release handler can call reaches the persister, a persistence client, a network dial, a file or a sleep")
	c.rule("no-waiting", "no function a handler can call waits for another goroutine: no blocking channel operation, WaitGroup or Cond wait")
	c.rule("no-shared-lock", "no mutex acquired on the request path is held anywhere while the persister is called")
	g := c.graph()
	var hs []*ssa.Function
	for _, r := range c.apiRoutes() {
		if r.fn == nil {
			continue
		}
		hs = append(hs, r.fn)
		if o, ok := r.fn.Object().(*types.Func); ok && r.fn.Synthetic != "" {
			if f := c.SSA.FuncValue(o); f != nil {
				hs = append(hs, f)
			}
		}
	}
	c.must(len(hs) >= 2, "routes", "the request handlers were not found")
	reach := g.reach(hs...)
	for _, h := range hs {
		reach[h] = true
	}
	waits := g.reachSync(hs...)
	bad := func(name string) bool {
		switch name {
		case "time.Sleep", "net.Dial", "net.DialTimeout", "(*net/http.Client).Do", "net/http.Get", "net/http.Post", "os.Create", "os.OpenFile", "os.WriteFile", "(*os.File).Write", "(*os.File).WriteString", "(*os.File).Sync":
			return true
		}
		return strings.HasPrefix(name, "(*database/sql.") || strings.HasPrefix(name, "os/exec.")
	}
	c.ob("no-waiting", "handlers")
	locks := map[types.Object]token.Pos{}
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return eng.FuncName(fs[i]) < eng.FuncName(fs[j]) })
	for _, f := range fs {
		c.ob("no-durable-io", fname(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				what := ""
				switch x := in.(type) {
				case *ssa.Send:
					what = "a channel send"
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						what = "a channel receive"
					}
				case *ssa.Select:
					if x.Blocking {
						what = "a select"
					}
				}
				c.check(what == "" || !waits[f], "no-waiting", fname(f)+":"+what, in.Pos(), "the request path waits in %s", what)
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				cc := ci.Common()
				name := ""
				if cc.IsInvoke() {
					name = cc.Method.FullName()
					if hasSuffix(name, evCommitBatch) || strings.Contains(name, "internal/ratelimiter/persistence.") {
						c.fail("no-durable-io", fname(f)+":"+name, ci.Pos(), "the request path reaches durable storage through %s", name)
					}
				} else if s := cc.StaticCallee(); s != nil {
					name = eng.FuncName(s)
				}
				if bad(name) {
					c.fail("no-durable-io", fname(f)+":"+name, ci.Pos(), "the request path performs blocking I/O: %s", name)
				}
				if waits[f] && name == "(*sync.WaitGroup).Wait" || waits[f] && name == "(*sync.Cond).Wait" {
					c.fail("no-waiting", fname(f)+":"+name, ci.Pos(), "the request path waits: %s", name)
				}
				if hasSuffix(name, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock") && len(cc.Args) > 0 {
					if fa, ok := cc.Args[0].(*ssa.FieldAddr); ok {
						locks[structField(fa)] = ci.Pos()
					}
					if gl, ok := cc.Args[0].(*ssa.Global); ok {
						locks[gl.Object()] = ci.Pos()
					}
				}
			}
		}
	}
	for o := range locks {
		c.ob("no-shared-lock", o.Name())
	}
	for _, f := range c.mustCycles() {
		c.ob("no-shared-lock", fname(f))
		for _, p := range c.corePaths(f) {
			for _, ev := range p.Events {
				if !isCommitBatch(ev) {
					continue
				}
				for _, a := range ev.Held {
					if a.Obj != nil {
						if pos, shared := locks[a.Obj]; shared {
							c.fail("no-shared-lock", fname(f)+":"+a.Obj.Name(), pos, "the request path waits for a mutex that is held during a durable write")
						}
					}
				}
			}
		}
	}
}

// ---- A06 ----

func ruleA06(c *Ctx) {
	c.rule("routes", "the server registers /check, /release and /metrics once each on the mux it is given")
	c.rule("own-handler", "/check is bound to the handler that consumes, /release to the one that refunds, and /metrics to one that does neither")
	c.rule("served-mux", "ListenAndServe and the API binary serve a mux on which exactly these routes were registered")
	c.rule("endpoint", "telemetry that is given a metrics address, and only then, starts a listener on that address which serves the metrics")
	c.rule("listener", "ListenAndServe listens on the address given, with read, write and idle timeouts, and returns the listener's error")
	reg := c.mustFn(apiPkg, "Server.RegisterRoutes")
	n := map[string]int{}
	er := c.engine()
	er.Alias, er.MaxIter = true, 8
	for _, p := range c.run(er, reg, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		n = map[string]int{}
		for _, r := range routesOf(p) {
			n[r.pattern]++
			c.check(r.ev.Recv == p.Params[1], "routes", r.pattern+":mux", r.ev.Pos, "%s is registered on another mux", r.pattern)
		}
		for _, pat := range []string{"/check", "/release", "/metrics"} {
			c.check(n[pat] == 1, "routes", pat, reg.Pos(), "%s is registered %d times", pat, n[pat])
		}
	}
	for pat, own := range map[string]string{"/check": evTryConsume, "/release": evTryRefund, "/metrics": ""} {
		plain := false
		for _, r := range c.apiRoutes() {
			plain = plain || r.pattern == pat && r.fn == nil
			if r.pattern == "/metrics" {
				c.check(servesMetrics(r.handler) || r.fn != nil && (c.reachesCall(reg, promHandler) || c.reachesCall(reg, promHandler+"For")), "own-handler", pat+":served", r.ev.Pos, "/metrics is bound to %s, which does not serve the metrics", r.handler)
			}
		}
		if n[pat] != 1 || own == "" && plain {
			continue
		}
		has := map[string]bool{}
		ps, r := c.handlerPaths(pat)
		for _, p := range ps {
			for _, ev := range p.Events {
				if ev.Kind == "call" {
					has[ev.Name] = true
				}
			}
		}
		c.check(own == "" || has[own], "own-handler", pat, r.ev.Pos, "%s is bound to a handler that does not perform %s", pat, own)
		for _, other := range []string{evTryConsume, evTryRefund} {
			c.check(other == own || !has[other], "own-handler", pat+":other", r.ev.Pos, "%s is bound to a handler that performs %s", pat, other)
		}
	}
	srv := c.typ(apiPkg, "Server")
	fn := eng.FuncName(reg)
	for _, f := range []*ssa.Function{c.mustFn(apiPkg, "Server.ListenAndServe"), c.mustFn("cmd/ratelimiter-api", "main")} {
		e := c.engine()
		c.opaque(e, ".", corePkg, churnPkg, "internal/ratelimiter/persistence")
		e.Opaque[fn] = true
		served := 0
		for _, p := range c.run(e, f, nil, nil, nil) {
			var regs []*eng.Event
			check := func(ev *eng.Event, h *eng.Term) {
				served++
				ok := false
				for _, r := range regs {
					ok = ok || stripAs(h) == stripAs(r.Arg(0))
				}
				c.check(ok, "served-mux", fname(f), ev.Pos, "the served handler is %s, on which the routes were not registered", h)
			}
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Name == fn {
					regs = append(regs, ev)
				}
				if ev.Kind == "go" {
					// the server object is what the goroutine listens on
					gf, args, bind := goTarget(ev)
					if gf == nil || len(gf.Blocks) == 0 || !listens(c, gf) {
						continue
					}
					e2 := c.engine()
					for _, q := range c.run(e2, gf, args, bind, ev.Mem) {
						for _, ev2 := range q.Events {
							if ev2.Kind == "call" && ev2.Name == "(*net/http.Server).ListenAndServe" {
								check(ev, memField(ev2.Mem, ev2.Recv.Unwrap(), "Handler"))
							}
						}
					}
				}
				if ev.Kind == "call" && ev.Name == "(*net/http.Server).ListenAndServe" {
					o := ev.Recv.Unwrap()
					check(ev, memField(ev.Mem, o, "Handler"))
					if len(p.Params) == 2 {
						c.check(memField(ev.Mem, o, "Addr") == p.Params[1], "listener", "address", ev.Pos, "the server listens on %s instead of the address given", memField(ev.Mem, o, "Addr"))
						for _, t := range []string{"ReadTimeout", "WriteTimeout", "IdleTimeout"} {
							n, ok := memField(ev.Mem, o, t).IsInt()
							c.check(ok && n > 0, "listener", t, ev.Pos, "the server has no %s: a slow client holds its connection for ever", t)
						}
					}
					if p.End == "return" && len(p.Ret) == 1 {
						c.check(p.Ret[0] == ev.Res[0] || p.F.Eval(eng.Eq(ev.Res[0], eng.Nil, nil)) == 1 || p.Ret[0].Derived(func(t *eng.Term) bool { return t == ev.Res[0] }), "listener", "result", ev.Pos, "the error of the listener is not returned")
					}
				}
				if ev.Kind == "call" && ev.Name == "net/http.ListenAndServe" {
					check(ev, ev.Arg(1))
				}
			}
		}
		c.check(served > 0, "served-mux", fname(f)+":listens", f.Pos(), "nothing is served")
	}
	_ = srv
	c.metricsEndpoint()
}

const promHandler = "github.com/prometheus/client_golang/prometheus/promhttp.Handler"

// metricsEndpoint: the separate listener for the metrics.
func (c *Ctx) metricsEndpoint() {
	enable := c.mustFn(churnPkg, "Enable")
	var field *types.Var
	for _, v := range c.fields(churnPkg, "Config") {
		if strings.HasSuffix(v.Name(), "Addr") {
			field = v
		}
	}
	if !c.check(field != nil, "endpoint", "field", enable.Pos(), "the configuration has no address for the metrics") {
		return
	}
	e := c.engine()
	listensIn := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if c.pkgOf(f) == churnPkg && f.Parent() == nil && f != enable && !c.reachesCall(f, "(*net/http.Server).ListenAndServe") && !c.reachesCall(f, "net/http.ListenAndServe") {
			e.Opaque[eng.FuncName(f)] = !strings.Contains(f.Signature.Results().String(), "net/http.")
		}
		listensIn[f] = c.reachesCall(f, "(*net/http.Server).ListenAndServe") || c.reachesCall(f, "net/http.ListenAndServe")
	}
	served, none := 0, 0
	for _, p := range c.run(e, enable, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		addr := eng.FieldOf(p.Params[0], field)
		set := p.F.Eval(eng.Eq(addr, eng.Str(""), nil))
		var regs []route
		regs = append(regs, routesOf(p)...)
		n := 0
		for _, ev := range p.Events {
			if ev.Kind != "go" {
				c.check(ev.Kind != "call" || !hasSuffix(ev.Name, "ListenAndServe"), "endpoint", "blocks", ev.Pos, "enabling telemetry waits for the metrics listener to end")
				continue
			}
			gf, args, bind := goTarget(ev)
			direct := hasSuffix(ev.Name, "net/http.Server).ListenAndServe", "net/http.ListenAndServe")
			if !direct && (gf == nil || !listensIn[gf]) {
				continue
			}
			n++
			ended := false
			started := []*eng.Path{{Events: []*eng.Event{ev}}}
			if !direct {
				started = c.run(c.engine(), gf, args, bind, ev.Mem)
			}
			for _, q := range started {
				for _, x := range q.Events {
					var at, h *eng.Term
					switch {
					case hasSuffix(x.Name, "net/http.Server).ListenAndServe"):
						o := x.Recv
						if x.Kind == "go" {
							o = x.Arg(0)
						}
						at, h = memField(x.Mem, o.Unwrap(), "Addr"), memField(x.Mem, o.Unwrap(), "Handler")
					case x.Name == "net/http.ListenAndServe":
						at, h = x.Arg(0), x.Arg(1)
					default:
						continue
					}
					ended = true
					c.check(stripAs(at) == addr, "endpoint", "address", x.Pos, "the metrics are served on %s instead of the address given", at)
					ok := servesMetrics(h)
					for _, r := range append(routesOf(q), regs...) {
						ok = ok || r.pattern == "/metrics" && servesMetrics(r.handler) && (stripAs(h) == stripAs(r.ev.Recv) || r.ev.Recv == nil && (h == nil || h == eng.Nil))
					}
					c.check(ok, "endpoint", "handler", x.Pos, "the metrics listener does not serve the metrics")
				}
			}
			c.check(ended, "endpoint", "listens", ev.Pos, "the metrics listener never listens")
		}
		switch set {
		case 1:
			none++
			c.check(n == 0, "endpoint", "unasked", retPos(p), "a metrics listener is started without an address")
		case -1:
			served++
			c.check(n == 1, "endpoint", "started", retPos(p), "%d metrics listeners are started for an address (where %s)", n, c.cond(p))
		default:
			c.check(n == 0, "endpoint", "unasked", retPos(p), "a metrics listener is started whether or not there is an address (where %s)", c.cond(p))
		}
	}
	c.check(served > 0, "endpoint", "address:served", enable.Pos(), "no metrics listener is ever started")
	c.check(none > 0, "endpoint", "address:none", enable.Pos(), "the address is not looked at")
}

// servesMetrics: a handler that comes from the Prometheus library.
func servesMetrics(h *eng.Term) bool {
	return h != nil && h.Derived(func(t *eng.Term) bool {
		return t.Ev != nil && strings.Contains(t.Ev.Name, "prometheus/promhttp.") || strings.Contains(t.Name, "prometheus/promhttp.")
	})
}

// listenerEnds: a goroutine that serves must not end the process because of the regular
// http.ErrServerClosed, or the shutdown it belongs to is cut short.
func (c *Ctx) listenerEnds(rule string, p *eng.Path, g *eng.Event) {
	gf, args, bind := goTarget(g)
	if gf == nil || len(gf.Blocks) == 0 {
		return
	}
	c.ob(rule, fname(gf))
	told := false
	defer func() {
		c.check(told, "listen-fails", fname(gf), gf.Pos(), "nobody learns that the listener failed: the binary goes on without serving")
	}()
	for _, q := range c.run(c.engine(), gf, args, bind, g.Mem) {
		never := false // serving only ends with an error
		for _, ev := range q.Events {
			if ev.Kind == "call" && hasSuffix(ev.Name, "ListenAndServe", "http.Server).Serve", "ListenAndServeTLS", "net/http.Serve") {
				never = never || errNil(q, errOf(ev)) == 1
			}
		}
		if never {
			continue
		}
		for _, ev := range q.Events {
			told = told || ev.Kind == "send" || ev.Kind == "close" || ev.Kind == "call" && ev.Mode == "dynamic"
		}
		told = told || q.End == "exit" || q.End == "panic"
		if q.End != "exit" && q.End != "panic" {
			continue
		}
		var ls *eng.Event
		for _, ev := range q.Events {
			if ev.Kind == "call" && hasSuffix(ev.Name, "ListenAndServe", "http.Server).Serve", "ListenAndServeTLS", "net/http.Serve") {
				ls = ev
			}
		}
		if ls == nil {
			continue
		}
		told := false
		for _, l := range q.Log {
			err, closed := false, false
			l.Cond.Walk(func(t *eng.Term) bool {
				err = err || t.Ev == ls
				closed = closed || t.Obj != nil && t.Obj.Name() == "ErrServerClosed"
				if t.Ev != nil && t.Ev.Name == "errors.Is" {
					for _, a := range t.Ev.Args {
						a.Walk(func(u *eng.Term) bool {
							err = err || u.Ev == ls
							closed = closed || u.Obj != nil && u.Obj.Name() == "ErrServerClosed"
							return true
						})
					}
				}
				return true
			})
			told = told || err && closed && !l.Val
		}
		c.check(told, rule, fname(gf), q.EndPos, "the process ends (and nothing is flushed) although serving ended because of the shutdown: %s", c.cond(q))
	}
}

func listens(c *Ctx, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if s := ci.Common().StaticCallee(); s != nil && hasSuffix(eng.FuncName(s), "ListenAndServe") {
					return true
				}
			}
		}
	}
	return false
}

// memField is the value of a field, by name, of an object in a memory snapshot.
func memField(mem map[string]*eng.Cell, obj *eng.Term, name string) *eng.Term {
	for _, c := range mem {
		if c.Addr.Op == "fa" && obj != nil && c.Addr.Args[0] == obj && c.Addr.Obj != nil && c.Addr.Obj.Name() == name {
			return c.Val
		}
	}
	return eng.Nil
}

// signalChannel: both ways of stopping a process are waited for, on a channel that keeps one.
func (c *Ctx) signalChannel(rule, pre string, ev *eng.Event) {
	sigs := map[string]bool{}
	if l, ok := eng.ListOf(ev.Arg(1)); ok {
		for _, s := range l {
			s = stripConv(s)
			if v, ok := s.IsInt(); ok {
				sigs[fmt.Sprint(v)] = true
			} else {
				sigs[s.String()] = true
			}
		}
		has := func(n, name string) bool {
			if sigs[n] {
				return true
			}
			for k := range sigs {
				if strings.Contains(k, name) {
					return true
				}
			}
			return false
		}
		c.check(len(l) == 0 || (has("2", "Interrupt") && has("15", "SIGTERM")), rule, pre+"Notify", ev.Pos, "main does not wait for both SIGINT and SIGTERM")
	}
	ch := stripConv(ev.Arg(0))
	if ch.Op == "mkchan" && len(ch.Args) > 0 {
		n, ok := ch.Args[0].IsInt()
		c.check(!ok || n >= 1, rule, pre+"channel", ev.Pos, "the signal channel is unbuffered: a signal can be lost")
	}
}

// gracefulStop: the time a server is given to finish its requests has not run out before.
func (c *Ctx) gracefulStop(rule, pre string, p *eng.Path, ev *eng.Event) {
	if ev.Name != "(*net/http.Server).Shutdown" || ev.Arg(0).Ev == nil {
		return
	}
	mk := ev.Arg(0).Ev
	if !strings.HasPrefix(mk.Name, "context.With") || len(mk.Res) != 2 {
		return
	}
	for _, o := range p.Events {
		if o.Kind == "call" && o.Seq > mk.Seq && o.Seq < ev.Seq && o.Recv == mk.Res[1] {
			c.check(false, rule, pre+"shutdown-context", o.Pos, "the context of the shutdown is cancelled before the shutdown: requests still being served are not waited for")
			return
		}
	}
	ok := true
	if mk.Name == "context.WithTimeout" {
		d := mk.Arg(1)
		ok = p.F.Eval(eng.Gt(d, eng.Int(0))) != -1
		if _, flag := flagOf(d); !flag {
			ok = ok && p.F.Eval(eng.Gt(d, eng.Int(0))) == 1
		}
	}
	c.check(ok, rule, pre+"shutdown-context", mk.Pos, "the shutdown is given no time")
}

// ---- M01: shutdown of the API binary ----

func (c *Ctx) mainPaths(pkg string, opaque ...string) []*eng.Path {
	e := c.engine()
	c.opaque(e, opaque...)
	if pkg != "cmd/ratelimiter-api" {
		oddSettings(e, map[bool]int{false: 1, true: 2}[c.Thorough])
	}
	return c.run(e, c.mustFn(pkg, "main"), nil, nil, nil)
}

// oddSettings lets at most n flags have a value on which the code decides otherwise than on
// the flag's default, on one path. Mains that clamp many flags have too many combinations.
func oddSettings(e *eng.Engine, n int) {
	e.MaxOdd = n
	e.Odd = func(cond *eng.Term) (string, int) {
		var flag *eng.Term
		many := false
		cond.Walk(func(t *eng.Term) bool {
			if _, ok := flagOf(t); ok && (t.Op == "deref" || t.Op == "mem") {
				many = many || flag != nil && flag != t
				flag = t
				return false
			}
			return true
		})
		if flag == nil || many {
			return "", 0
		}
		ev := flag.Ev
		if flag.Op == "deref" {
			ev = flag.Args[0].Ev
		}
		name, _ := flagOf(flag)
		var def *eng.Term
		for i, a := range ev.Args {
			if s, ok := a.IsStr(); ok && s == name && i+1 < len(ev.Args) {
				def = ev.Args[i+1]
				break
			}
		}
		if def == nil {
			return "", 0
		}
		f := eng.NewFacts()
		if !f.Assume(eng.Eq(flag, def, flag.Typ), true) {
			return "", 0
		}
		return name, f.Eval(cond)
	}
}

// isSignalRecv: the receive waits for an operating system signal.
func isSignalRecv(p *eng.Path, ev *eng.Event) bool {
	if ev.Kind != "recv" || ev.Addr == nil {
		return false
	}
	for _, n := range p.Events {
		if n.Kind != "call" || n.Seq > ev.Seq {
			continue
		}
		if n.Name == "os/signal.Notify" && stripConv(n.Arg(0)) == stripConv(ev.Addr) {
			return true
		}
		if n.Name == "os/signal.NotifyContext" && ev.Addr.Derived(func(t *eng.Term) bool { return t.Ev == n }) {
			return true
		}
	}
	return false
}

func stripConv(t *eng.Term) *eng.Term {
	t = stripAs(t)
	for t != nil && (t.Op == "conv" || t.Op == "iface" || t.Op == "as") {
		t = t.Args[0]
	}
	return t
}

func ruleM01(c *Ctx) {
	c.rule("stop-after-signal", "after the stop signal every path out of main stops the worker (final flush), also when the HTTP shutdown reports an error")
	c.rule("serve-then-flush", "the HTTP server is shut down before the worker's final flush, so no admitted request misses it, and the final metrics and CloseAll come after the flush")
	c.rule("serving-ends", "the goroutine that serves ends the process only after an error that is not the regular end of serving, which the shutdown itself causes")
	c.rule("signals", "main waits for SIGINT and SIGTERM on a channel that can hold one")
	c.rule("started", "the worker is started before requests are served")
	c.rule("ending", "a regular end prints the final metrics and closes the accumulators")
	c.rule("persister", "requests are only served with a persister that could be built")
	c.rule("listen-fails", "a listener that fails ends the process or tells main")
	m := c.mustFn("cmd/ratelimiter-api", "main")
	signalled := 0
	for _, p := range c.mainPaths("cmd/ratelimiter-api", ".", corePkg, churnPkg, apiPkg, "internal/ratelimiter/persistence") {
		idx := map[string]int{}
		var sig *eng.Event
		first := func(k string, ev *eng.Event) {
			if _, ok := idx[k]; !ok {
				idx[k] = ev.Seq
			}
		}
		for _, ev := range p.Events {
			if sig == nil && isSignalRecv(p, ev) {
				sig = ev
			}
			if ev.Kind == "go" {
				if gf, _, _ := goTarget(ev); gf != nil && listens(c, gf) {
					first("listen", ev)
					c.listenerEnds("serving-ends", p, ev)
				}
			}
			if ev.Kind != "call" {
				continue
			}
			switch {
			case hasSuffix(ev.Name, "core.Worker).Start"):
				first("start", ev)
			case hasSuffix(ev.Name, "core.Worker).Stop"):
				first("stop", ev)
			case ev.Name == "(*net/http.Server).Shutdown" || ev.Name == "(*net/http.Server).Close":
				first("shutdown", ev)
				c.gracefulStop("serve-then-flush", "", p, ev)
			case hasSuffix(ev.Name, ".PrintFinalMetrics"):
				first("metrics", ev)
			case hasSuffix(ev.Name, "core.Store).CloseAll"):
				first("closeall", ev)
			case ev.Name == "(*net/http.Server).ListenAndServe":
				first("listen", ev)
			case ev.Name == "os/signal.Notify":
				c.signalChannel("signals", "", ev)
			}
		}
		if sig == nil {
			continue
		}
		signalled++
		stop, okS := idx["stop"]
		c.check(okS && stop > sig.Seq, "stop-after-signal", "main", sig.Pos, "a path ends without stopping the worker: the last vectors are never written: %s", c.cond(p))
		sd, okD := idx["shutdown"]
		c.check(okD && okS && sd < stop && sd > sig.Seq, "serve-then-flush", "shutdown", sig.Pos, "the worker's final flush runs while requests are still admitted")
		if mt, ok := idx["metrics"]; ok {
			c.check(mt > stop, "serve-then-flush", "metrics", sig.Pos, "the final metrics are printed before the final flush")
		}
		if ca, ok := idx["closeall"]; ok {
			c.check(ca > stop, "serve-then-flush", "closeall", sig.Pos, "the store is closed before the final flush")
		}
		if p.End == "return" {
			_, hasM := idx["metrics"]
			_, hasC := idx["closeall"]
			c.check(hasM, "ending", "metrics", sig.Pos, "the binary ends without printing the final metrics: %s", c.cond(p))
			c.check(hasC, "ending", "closeall", sig.Pos, "the binary ends without closing the accumulators: %s", c.cond(p))
		}
		for _, ev := range p.Events[:sig.Seq] {
			if ev.Kind == "call" && hasSuffix(ev.Name, "persistence.BuildPersister") && len(ev.Res) == 2 {
				c.check(p.F.Eval(eng.Eq(ev.Res[1], eng.Nil, nil)) == 1, "persister", "main", ev.Pos, "requests are served although the persister could not be built")
			}
		}
		st, okT := idx["start"]
		ls, okL := idx["listen"]
		c.check(okT && okL && st < ls || okT && !okL && false, "started", "main", m.Pos(), "requests are served before the worker runs, or nothing is served")
	}
	c.check(signalled > 0, "stop-after-signal", "main:waits", m.Pos(), "main never waits for a stop signal")
}

// ---- M02: flags reach what they configure ----

// flagOf is the name of the one command line flag a value is the unmodified value of.
func flagOf(t *eng.Term) (string, bool) {
	t = stripAs(t)
	for t.Op == "conv" {
		t = t.Args[0]
	}
	name := func(ev *eng.Event) (string, bool) {
		if ev == nil || !strings.HasPrefix(ev.Name, "flag.") && !strings.HasPrefix(ev.Name, "(*flag.FlagSet).") {
			return "", false
		}
		for _, a := range ev.Args {
			if s, ok := a.IsStr(); ok {
				return s, true
			}
		}
		return "", false
	}
	switch t.Op {
	case "deref":
		return name(t.Args[0].Ev)
	case "mem":
		return name(t.Ev)
	}
	return "", false
}

func ruleM02(c *Ctx) {
	c.rule("flag-sink", "each configuration parameter of the store, the worker, the API server, the persister, the telemetry and the HTTP listener receives exactly the value of its own flag, after parsing, and each reported threshold is the value of the flag it is named after")
	c.rule("reported", "the limit, watermark, interval, age, address and telemetry settings are recorded for the final report")
	c.rule("shared-parts", "the worker and the API server use the one store, and the worker the persister that was built")
	m := c.mustFn("cmd/ratelimiter-api", "main")
	optT := map[string]string{
		"Stripes": "vsa_stripes", "CheapUpdateChooser": "vsa_cheap_update_chooser", "PerPUpdateChooser": "vsa_per_p_update_chooser",
		"UseCachedGate": "vsa_use_cached_gate", "CacheInterval": "vsa_cache_interval", "CacheSlack": "vsa_cache_slack",
		"GroupCount": "vsa_group_count", "GroupSlack": "vsa_group_slack", "FastPathGuard": "vsa_fast_path_guard", "HierarchicalGroups": "vsa_hierarchical_groups",
	}
	demoT := map[string]string{"RedisMarkerTTL": "redis_marker_ttl", "RedisAddr": "redis_addr", "KafkaTopic": "kafka_topic"}
	churnT := map[string]string{"Enabled": "churn_metrics", "SampleRate": "churn_sample", "MetricsAddr": "metrics_addr", "LogInterval": "churn_log_interval", "TopN": "churn_top_n", "KeyHashLen": "churn_key_hash_len"}
	sink := func(what string, t *eng.Term, flag string, pos token.Pos) {
		got, ok := flagOf(t)
		c.check(ok && got == flag, "flag-sink", what, pos, "%s receives %s instead of the value of -%s", what, t, flag)
	}
	strct := func(what string, t *eng.Term, tab map[string]string, pos token.Pos) {
		var ks []string
		for k := range tab {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f := eng.FieldNamed(t, k)
			if f == nil {
				c.fail("flag-sink", what+"."+k, pos, "no field %s", k)
				continue
			}
			sink(what+"."+k, f, tab[k], pos)
		}
	}
	seen := map[string]bool{}
	for _, p := range c.mainPaths("cmd/ratelimiter-api", ".", corePkg, churnPkg, apiPkg, "internal/ratelimiter/persistence") {
		parse := -1
		var store, pers *eng.Term
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			n := ev.Name
			if n == "flag.Parse" {
				parse = ev.Seq
			}
			known := true
			switch {
			case hasSuffix(n, "core.NewStoreWithOptions"):
				sink("store limit", ev.Arg(0), "rate_limit", ev.Pos)
				strct("vsa.Options", ev.Arg(1), optT, ev.Pos)
				store = ev.Res[0]
			case hasSuffix(n, "core.NewWorker"):
				for i, f := range []string{"commit_threshold", "commit_low_watermark", "commit_interval", "commit_max_age", "eviction_age", "eviction_interval"} {
					sink("worker "+f, ev.Arg(i+2), f, ev.Pos)
				}
				c.check(store != nil && ev.Arg(0) == store, "shared-parts", "worker store", ev.Pos, "the worker watches another store")
				c.check(pers != nil && stripAs(ev.Arg(1)) == stripAs(pers), "shared-parts", "worker persister", ev.Pos, "the worker does not use the persister that was built")
			case hasSuffix(n, "api.NewServer"):
				c.check(store != nil && ev.Arg(0) == store, "shared-parts", "server store", ev.Pos, "the server consumes from another store than the worker commits")
				sink("server limit", ev.Arg(1), "rate_limit", ev.Pos)
			case hasSuffix(n, "persistence.BuildPersister"):
				sink("adapter", ev.Arg(0), "persistence_adapter", ev.Pos)
				strct("DemoOptions", ev.Arg(1), demoT, ev.Pos)
				pers = ev.Res[0]
			case strings.HasPrefix(n, "vsa/"+corePkg+".SetThreshold"):
				if name, ok := ev.Arg(0).IsStr(); ok {
					sink("reported "+name, ev.Arg(1), name, ev.Pos)
					seen["reported "+name] = true
				} else {
					seen["reported *"] = true // names that are computed are not told apart
				}
				known = false
			case hasSuffix(n, "churn.Enable"):
				strct("churn.Config", ev.Arg(0), churnT, ev.Pos)
			default:
				known = false
			}
			if known {
				seen[shortCall(n)] = true
				c.check(parse >= 0, "flag-sink", shortCall(n)+":parsed", ev.Pos, "flags are used before flag.Parse")
			}
		}
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == "(*net/http.Server).Shutdown" {
				seen["http.Server"] = true
				sink("http.Server.Addr", memField(ev.Mem, ev.Recv.Unwrap(), "Addr"), "http_addr", m.Pos())
			}
		}
	}
	for _, n := range []string{"NewStoreWithOptions", "NewWorker", "NewServer", "BuildPersister", "Enable", "http.Server"} {
		c.check(seen[n], "flag-sink", "main:"+n, m.Pos(), "main never configures %s", n)
	}
	for _, n := range []string{"rate_limit", "commit_threshold", "commit_low_watermark", "commit_interval", "commit_max_age", "eviction_age", "eviction_interval", "http_addr", "churn_metrics", "metrics_addr", "churn_sample", "churn_log_interval", "churn_top_n", "churn_key_hash_len"} {
		c.check(seen["reported "+n] || seen["reported *"], "reported", n, m.Pos(), "the setting %s is not recorded for the final report", n)
	}
}

func shortCall(n string) string { return n[strings.LastIndex(n, ".")+1:] }
