package main

import (
	"go/token"
	"go/types"
	"strings"

	"vsacheck/eng"
)

const loadgenPkg = "tools/http-loadgen"

func init() { reg("L01", ruleL01) }

// flagIn: t depends on the value of the flag.
func flagIn(t *eng.Term, name string) bool {
	return t != nil && t.Derived(func(u *eng.Term) bool {
		if u.Op != "deref" && u.Op != "mem" {
			return false
		}
		n, ok := flagOf(u)
		return ok && n == name
	})
}

// isFlag: t is the value of the flag.
func isFlag(t *eng.Term, name string) bool {
	n, ok := flagOf(t)
	return ok && n == name
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// both is what holds on a path of a goroutine started on another path; nil if nothing can.
func both(outer, inner *eng.Path) *eng.Facts {
	f := outer.F.Clone()
	for _, le := range inner.Log {
		if v := f.Eval(le.Cond); v == 1 && !le.Val || v == -1 && le.Val || !f.Assume(le.Cond, le.Val) {
			return nil
		}
	}
	return f
}

// modeIs tells whether the mode asked for is the one named.
func modeIs(f *eng.Facts, paths []*eng.Path, name string) int {
	res := 0
	for _, p := range paths {
		for _, le := range p.Log {
			le.Cond.Walk(func(t *eng.Term) bool {
				if _, c := t.IsStr(); !c && t.Typ != nil && isStringType(t.Typ) && flagIn(t, "mode") {
					if v := f.Eval(eng.Eq(t, eng.Str(name), types.Typ[types.String])); v != 0 {
						res = v
					}
				}
				return true
			})
		}
	}
	return res
}

// euclid writes remainders as what a division leaves and n for the flag named.
func euclid(t *eng.Term, flag string, n int64, rems map[*eng.Term]*eng.Term) *eng.Term {
	var rec func(t *eng.Term) *eng.Term
	rec = func(t *eng.Term) *eng.Term {
		return eng.Subst(t, func(u *eng.Term) *eng.Term {
			if isFlag(u, flag) {
				return eng.Int(n)
			}
			if len(u.Args) != 2 {
				return nil
			}
			switch u.Op {
			case "*":
				a, b := rec(u.Args[0]), rec(u.Args[1])
				if k, ok := a.IsInt(); ok {
					return eng.Scale(b, k)
				}
				if k, ok := b.IsInt(); ok {
					return eng.Scale(a, k)
				}
			case "/", "%":
				a, b := rec(u.Args[0]), rec(u.Args[1])
				if k, ok := b.IsInt(); ok && k >= 1 {
					q := a
					if k > 1 {
						q = eng.App("/", a.Typ, a, b)
					}
					rems[eng.Sub(a, eng.Scale(q, k))] = b
					if u.Op == "/" {
						return q
					}
					return eng.Sub(a, eng.Scale(q, k))
				}
			}
			return nil
		})
	}
	return rec(t)
}

// sends are the requests a path makes.
type lgSend struct {
	ev          *eng.Event
	method, url *eng.Term
	resp, err   *eng.Term
	made        *eng.Event
}

func lgSends(p *eng.Path) []lgSend {
	var out []lgSend
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		s := lgSend{ev: ev}
		switch ev.Name {
		case "(*net/http.Client).Do", "(*net/http.Transport).RoundTrip":
			r := ev.Arg(0).Unwrap()
			if r.Ev != nil {
				s.made = r.Ev
				switch r.Ev.Name {
				case "net/http.NewRequestWithContext":
					s.method, s.url = r.Ev.Arg(1), r.Ev.Arg(2)
				case "net/http.NewRequest":
					s.method, s.url = r.Ev.Arg(0), r.Ev.Arg(1)
				}
			}
		case "(*net/http.Client).Get", "net/http.Get":
			s.method, s.url = eng.Str("GET"), ev.Arg(0)
		case "(*net/http.Client).Post", "net/http.Post":
			s.method, s.url = eng.Str("POST"), ev.Arg(0)
		default:
			continue
		}
		if len(ev.Res) == 2 {
			s.resp, s.err = ev.Res[0], ev.Res[1]
		}
		out = append(out, s)
	}
	return out
}

func ruleL01(c *Ctx) {
	c.rule("split", "the counts the workers are given add up to the number of requests asked for")
	c.rule("turns", "a worker makes one request per turn, as many as its count, and stops earlier only when the time is up")
	c.rule("request", "each request goes to the configured URL with the key and the method of the mode")
	c.rule("cold-keys", "the cold key is numbered from one to the configured count, and its number does not come from a value that is always a multiple of the skew period")
	c.rule("body", "the body of every response is read to its end and closed")
	c.rule("wait", "the run waits for every worker before it reports")
	m := c.mustFn(loadgenPkg, "main")
	started, hot, cold := 0, 0, 0
	for _, mp := range c.mainPaths(loadgenPkg) {
		if mp.End != "return" {
			continue
		}
		var gos []*eng.Event
		for _, ev := range mp.Events {
			if ev.Kind == "go" {
				gos = append(gos, ev)
			}
		}
		k := int64(len(gos))
		if !c.check(k > 0, "wait", "main:workers", m.Pos(), "a run reports without having started a worker (where %s)", c.cond(mp)) || k > 2 {
			continue
		}
		c.parsedFirst(mp, "request", "main")
		// waiting
		var wait *eng.Event
		var added *eng.Term
		for _, ev := range mp.Events {
			if ev.Kind == "call" && hasSuffix(ev.Name, "sync.WaitGroup).Wait") && ev.Seq > gos[k-1].Seq {
				wait = ev
			}
			if ev.Kind == "call" && hasSuffix(ev.Name, "sync.WaitGroup).Add") {
				if added == nil {
					added = eng.Int(0)
				}
				added = eng.Add(added, ev.Arg(0))
			}
		}
		c.check(wait != nil, "wait", "main:wait", retPos(mp), "the run ends without waiting for its workers")
		if added != nil {
			c.check(mp.F.Eval(eng.Eq0(eng.Sub(added, eng.Int(k)))) == 1, "wait", "main:add", retPos(mp), "%s workers are waited for, %d are started", added, k)
		}
		total := eng.Int(0)
		known := true
		for _, g := range gos {
			gf, args, bind := goTarget(g)
			if !c.check(gf != nil && len(gf.Blocks) > 0, "turns", "worker", g.Pos, "the worker is not a function of the module") {
				return
			}
			e := c.engine()
			b := c.lgWorker(mp, c.run(e, gf, nil, bind, g.Mem), g.Pos, &hot, &cold)
			if b == nil {
				known = false
				continue
			}
			started++
			// the count as this worker was given it
			ps := c.run(e, gf, nil, bind, g.Mem)[0].Params
			total = eng.Add(total, eng.Subst(b, func(u *eng.Term) *eng.Term {
				for i, q := range ps {
					if u == q && i < len(args) {
						return args[i]
					}
				}
				return nil
			}))
		}
		if !known {
			continue
		}
		rems := map[*eng.Term]*eng.Term{}
		f := mp.F.Clone()
		var n *eng.Term
		total.Walk(func(u *eng.Term) bool {
			if isFlag(u, "n") {
				n = u
			}
			return true
		})
		ok := n != nil
		if ok {
			sum := euclid(total, "c", k, rems)
			for _, le := range mp.Log {
				if cd := euclid(le.Cond, "c", k, rems); f.Eval(cd) == map[bool]int{true: -1, false: 1}[le.Val] || !f.Assume(cd, le.Val) {
					n = nil // no number of requests takes this path
				}
			}
			if n == nil {
				continue
			}
			for r, d := range rems {
				f.Assume(eng.Ge(r, eng.Int(0)), true)
				f.Assume(eng.Gt(d, r), true)
			}
			ok = f.Eval(eng.Eq0(eng.Sub(sum, n))) == 1
		}
		c.check(ok, "split", "main:counts", gos[0].Pos, "with %d workers the counts add up to %s, not to the number of requests asked for", k, total)
	}
	c.check(hot > 0 && cold > 0, "request", "worker:skew", m.Pos(), "zipf mode does not use both the hot key and cold keys")
	c.min("split", 1)
	c.min("turns", 1)
	c.min("request", 4)
	c.min("body", 1)
	c.min("cold-keys", 1)
}

// lgWorker checks the paths of a worker; the result is the count it works off.
func (c *Ctx) lgWorker(mp *eng.Path, paths []*eng.Path, pos token.Pos, hot, cold *int) *eng.Term {
	var cand []*eng.Term
	first := true
	type run struct {
		f *eng.Facts
		n int64
		p *eng.Path
	}
	var runs []run
	for _, p := range paths {
		f := both(mp, p)
		if f == nil || p.End == "cut" {
			continue
		}
		sends := lgSends(p)
		doneAt := -1
		for _, ev := range p.Events {
			if ev.Kind == "recv" && ev.Addr != nil && ev.Addr.Ev != nil && hasSuffix(ev.Addr.Ev.Name, "context.Context).Done") {
				doneAt = ev.Seq
			}
			if ev.Kind == "call" && hasSuffix(ev.Name, "context.Context).Err") && len(ev.Res) == 1 && f.Eval(eng.Eq(ev.Res[0], eng.Nil, nil)) == -1 {
				doneAt = ev.Seq
			}
		}
		pp := []*eng.Path{mp, p}
		release, single := modeIs(f, pp, "release"), modeIs(f, pp, "single")
		used := map[*eng.Event]bool{}
		for i, s := range sends {
			at := s.ev.Pos
			if !c.check(s.url != nil, "request", "worker:request", at, "what is sent is not a request made for this turn") {
				continue
			}
			if s.made != nil {
				c.check(!used[s.made], "request", "worker:once", at, "one request is sent twice")
				used[s.made] = true
			}
			want := "GET"
			if release == 1 {
				want = "POST"
			}
			ms, ok := s.method.IsStr()
			if ms == "" && ok {
				ms = "GET"
			}
			if release != 0 || ok && ms != "GET" {
				c.check(ok && ms == want, "request", "worker:method", at, "mode release is %v and the method is %s", release == 1, s.method)
			}
			key := c.lgURL(p, s)
			if key == nil {
				continue
			}
			switch {
			case release == 1 || single == 1:
				c.check(isFlag(key, "key"), "request", "worker:key", at, "the request is for %s instead of the configured key", key)
			case isFlag(key, "hot_key"):
				*hot++
			default:
				okc := lgColdIndex(key) != nil && key.Derived(func(t *eng.Term) bool {
					l, ok := t.IsStr()
					return ok && (l == "cold-" || l == "cold-%d" || l == "cold-%v")
				})
				if !c.check(okc, "request", "worker:zipf-key", at, "in zipf mode the request is for %s, neither the hot key nor a cold one", key) {
					continue
				}
				*cold++
				idx := lgColdIndex(key)
				inner := eng.Sub(idx, eng.Int(1))
				mod := inner.Op == "%" && isFlag(inner.Args[1], "cold_keys")
				if mod {
					c.check(true, "cold-keys", "worker:range", at, "")
					x := inner.Args[0]
					if _, isC := x.IsInt(); !isC {
						same := false
						for _, le := range p.Log {
							if le.Val && le.Cond.Op == "eq0" {
								r := le.Cond.Args[0]
								same = same || r.Op == "%" && r.Args[0] == x && isFlag(r.Args[1], "hot_every")
							}
						}
						c.check(!same, "cold-keys", "worker:coverage", at, "the cold key's number is taken from %s, which is a multiple of the skew period whenever a cold key is due: where that period and the number of cold keys have a common divisor, the others are never used", x)
					}
				} else {
					in := f.Eval(eng.Ge(idx, eng.Int(1))) == 1
					c.check(in, "cold-keys", "worker:range", at, "the cold key's number %s is not between one and the configured count", idx)
				}
			}
			// the response
			if s.err != nil && f.Eval(eng.Eq(s.err, eng.Nil, nil)) == 1 {
				var read, closed *eng.Event
				next := 1 << 30
				if i+1 < len(sends) {
					next = sends[i+1].ev.Seq
				}
				for _, ev := range p.Events {
					if ev.Seq <= s.ev.Seq {
						continue
					}
					if ev.Kind == "defer" && hasSuffix(ev.Name, ".Close") {
						continue
					}
					of := func(t *eng.Term) bool {
						return t != nil && t.Derived(func(u *eng.Term) bool { return u == s.resp })
					}
					if ev.Kind == "call" && (ev.Name == "io.Copy" && of(ev.Arg(1)) || ev.Name == "io.ReadAll" && of(ev.Arg(0)) || hasSuffix(ev.Name, ").WriteTo", ").ReadFrom") && (of(ev.Recv) || of(ev.Arg(0)))) {
						read = ev
					}
					if ev.Kind == "call" && hasSuffix(ev.Name, "Closer).Close", "ReadCloser).Close") && of(ev.Recv) {
						closed = ev
					}
				}
				c.check(read != nil && closed != nil && read.Seq < closed.Seq && closed.Seq < next, "body", "worker:body", at, "a response's body is not read to its end and closed in the turn that got it")
			}
		}
		if p.End != "return" {
			c.check(p.End != "panic" && p.End != "exit", "turns", "worker:end", p.EndPos, "a worker ends with %s", p.End)
			continue
		}
		bad := false
		for _, ev := range calls(p, "net/http.NewRequestWithContext", "net/http.NewRequest") {
			bad = bad || errOf(ev) != nil && f.Eval(eng.Eq(errOf(ev), eng.Nil, nil)) == -1
		}
		if doneAt >= 0 || bad {
			continue // no request can be made from what was configured
		}
		runs = append(runs, run{f, int64(len(sends)), p})
		if len(sends) == 0 {
			continue
		}
		var here []*eng.Term
		for _, le := range p.Log {
			t := le.Cond
			for t.Op == "not" {
				t = t.Args[0]
			}
			if t.Op != "ge0" && t.Op != "eq0" {
				continue
			}
			b := t.Args[0]
			if k, ok := eng.Subst(b, func(*eng.Term) *eng.Term { return nil }).IsInt(); ok {
				_ = k
				continue
			}
			for _, x := range []*eng.Term{lgVarPart(b), eng.Scale(lgVarPart(b), -1)} {
				if f.Eval(eng.Eq0(eng.Sub(x, eng.Int(int64(len(sends)))))) == 1 {
					here = append(here, x)
				}
			}
		}
		if first {
			cand, first = here, false
			continue
		}
		var keep []*eng.Term
		for _, x := range cand {
			for _, y := range here {
				if x == y {
					keep = append(keep, x)
					break
				}
			}
		}
		cand = keep
	}
	var b *eng.Term
	for _, x := range cand {
		ok := true
		for _, r := range runs {
			if r.n == 0 {
				ok = ok && r.f.Eval(eng.Gt(x, eng.Int(0))) != 1 && r.f.Eval(eng.Ge(eng.Int(0), x)) == 1
			}
		}
		if ok {
			b = x
			break
		}
	}
	c.check(b != nil, "turns", "worker:count", pos, "with time left, a worker does not make as many requests as its count says")
	return b
}

// lgVarPart is a linear term without its constant.
func lgVarPart(t *eng.Term) *eng.Term {
	if t.Op == "lin" {
		return eng.Sub(t, eng.Int(t.C))
	}
	return t
}

// lgColdIndex is the number in a cold key's name.
func lgColdIndex(key *eng.Term) *eng.Term {
	var idx *eng.Term
	n := 0
	look := func(t *eng.Term) {
		for _, a := range t.Args {
			if l, ok := eng.ListOf(a); ok && len(l) == 1 {
				idx, n = stripConv(l[0].Unwrap()), n+1
			}
		}
	}
	key.Walk(func(t *eng.Term) bool {
		switch {
		case t.Op == "call" && t.Name == "fmt.Sprintf" || t.Op == "call" && t.Name == "fmt.Sprint":
			look(t)
			return false
		case t.Op == "call" && (t.Name == "strconv.Itoa" || t.Name == "strconv.FormatInt"):
			idx, n = stripConv(t.Args[0].Unwrap()), n+1
			return false
		}
		return true
	})
	if n != 1 {
		return nil
	}
	return idx
}

// lgURL checks a request's URL and returns the key it carries.
func (c *Ctx) lgURL(p *eng.Path, s lgSend) *eng.Term {
	var parts []*eng.Term
	var flat func(t *eng.Term)
	flat = func(t *eng.Term) {
		if (t.Op == "+" || t.Op == "concat" || t.Op == "strcat") && len(t.Args) > 1 {
			for _, a := range t.Args {
				flat(a)
			}
			return
		}
		if t.Op == "call" && t.Name == "fmt.Sprintf" && len(t.Args) == 2 {
			if l, ok := eng.ListOf(t.Args[1]); ok {
				for _, a := range l {
					flat(a.Unwrap())
				}
				return
			}
		}
		parts = append(parts, t)
	}
	flat(s.url)
	at := s.ev.Pos
	base, path, query := -1, -1, -1
	var key *eng.Term
	for i, t := range parts {
		if base < 0 && flagIn(t, "base") {
			base = i
		}
		if path < 0 && flagIn(t, "path") {
			path = i
		}
		if t.Ev != nil && strings.HasSuffix(t.Ev.Name, "net/url.Values).Encode") {
			query = i
			vals := t.Ev.Recv
			if vals == nil {
				vals = t.Ev.Arg(0)
			}
			for _, ev := range p.Events {
				if ev.Seq > t.Ev.Seq {
					break
				}
				var k, v *eng.Term
				switch {
				case ev.Kind == "mapset" && ev.Addr == vals:
					k, v = ev.Arg(0), ev.Arg(1)
					if l, ok := eng.ListOf(v.Unwrap()); ok && len(l) == 1 {
						v = l[0]
					}
				case ev.Kind == "call" && hasSuffix(ev.Name, "net/url.Values).Set", "net/url.Values).Add") && (ev.Recv == vals || ev.Recv == nil):
					n := len(ev.Args)
					k, v = ev.Arg(n-2), ev.Arg(n-1)
				default:
					continue
				}
				if isFlag(k, "param") {
					key = v.Unwrap()
				}
			}
		}
		if (t.Op == "call" && t.Name == "net/url.QueryEscape" || t.Ev != nil && t.Ev.Name == "net/url.QueryEscape") && i > 0 {
			a := t.Args
			if t.Ev != nil {
				a = t.Ev.Args
			}
			if len(a) == 1 && !isFlag(a[0], "param") {
				query, key = i, a[0].Unwrap()
			}
		}
	}
	c.check(base >= 0 && path >= base && query > path, "request", "worker:url", at, "the request is not sent to the configured base and path: %s", s.url)
	c.check(key != nil, "request", "worker:param", at, "the key is not sent, escaped, in the configured parameter: %s", s.url)
	return key
}
