package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callInfo struct {
	fnv     *Term
	callee  *ssa.Function
	method  *types.Func // interface method
	recv    *Term
	args    []*Term
	builtin string
	pos     token.Pos
	ret     string
	val     ssa.Value
	instr   ssa.Instruction
	common  *ssa.CallCommon
}

func (c callInfo) name() string {
	if c.builtin != "" {
		return "builtin " + c.builtin
	}
	if c.callee != nil {
		return FuncName(c.callee)
	}
	if c.method != nil {
		return c.method.FullName()
	}
	return "dynamic"
}

func (en *Engine) resolve(s *state, cc *ssa.CallCommon) callInfo {
	ci := callInfo{common: cc}
	for _, a := range cc.Args {
		ci.args = append(ci.args, en.val(s, a))
	}
	if cc.IsInvoke() {
		ci.recv = en.val(s, cc.Value)
		ci.method = cc.Method
		if ci.recv.Op == "iface" {
			if m := en.Prog.LookupMethod(ci.recv.Typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				ci.callee = m
				ci.args = append([]*Term{ci.recv.Args[0]}, ci.args...)
				ci.recv = nil
			}
		}
		return ci
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ci.builtin = b.Name()
		return ci
	}
	if f := cc.StaticCallee(); f != nil {
		ci.callee = f
		if _, ok := cc.Value.(*ssa.MakeClosure); ok {
			ci.fnv = en.val(s, cc.Value)
		}
		return ci
	}
	v := en.val(s, cc.Value)
	ci.fnv = v
	if v.Op == "closure" || v.Op == "func" {
		ci.callee = v.Fn
	}
	return ci
}

// isMod reports whether f belongs to the analysed module and has a body.
func (en *Engine) isMod(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil && f.Parent() != nil {
		return en.isMod(f.Parent())
	}
	if p == nil {
		// wrappers and bound-method thunks
		if f.Synthetic != "" {
			return true
		}
		return false
	}
	path := p.Pkg.Path()
	return path == en.Module || strings.HasPrefix(path, en.Module+"/")
}

func (en *Engine) inlinable(s *state, f *ssa.Function) bool {
	if !en.isMod(f) || en.Opaque[FuncName(f)] {
		return false
	}
	if en.InlineOnly != nil && !en.InlineOnly(f) {
		return false
	}
	if len(s.frames) > 24 {
		return false
	}
	for _, fr := range s.frames {
		if fr.fn == f {
			return false
		}
	}
	return true
}

func bindParams(fr *frame, f *ssa.Function, fnv *Term, args []*Term) {
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	if fnv != nil && fnv.Op == "closure" {
		for i, v := range f.FreeVars {
			fr.env[v] = fnv.Args[i]
		}
	}
}

func (en *Engine) push(s *state, f *ssa.Function, fnv *Term, args []*Term, ci callInfo) *frame {
	fr := &frame{fn: f, env: map[ssa.Value]*Term{}, blk: f.Blocks[0], iters: map[int]int{}, ret: ci.ret, call: ci.val, inDefer: ci.ret == "defer"}
	bindParams(fr, f, fnv, args)
	s.frames = append(s.frames, fr)
	en.Funcs[f] = true
	return fr
}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "time.Unix": true, "(time.Time).Sub": true, "(time.Time).UnixNano": true,
	"(time.Time).Add": true, "(time.Time).UnixMilli": true, "strings.TrimRight": true, "strings.ToLower": true, "(time.Duration).Seconds": true,
	"(time.Time).Before": true, "(time.Time).After": true, "strconv.FormatInt": true, "strconv.Itoa": true, "(time.Time).IsZero": true,
	"(time.Duration).String": true, "(net/url.Values).Get": true, "(*net/url.URL).Query": true, "encoding/hex.EncodeToString": true,
	"(*net/http.Request).FormValue": true, "(*net/http.Request).Context": true, "strings.HasPrefix": true,
	"strconv.Quote": true, "(time.Duration).Milliseconds": true, "strings.Repeat": true, "(time.Time).Equal": true, "(time.Time).Compare": true, "(time.Duration).Abs": true,
}

// readOnlyArgs are functions that do not change what their arguments point to.
var readOnlyArgs = map[string]bool{"(*encoding/json.Encoder).Encode": true, "encoding/json.Marshal": true, "encoding/json.MarshalIndent": true}

func atomicOp(name string) (op string, method bool, ok bool) {
	const p = "sync/atomic."
	if strings.HasPrefix(name, "(*"+p) {
		i := strings.LastIndex(name, ").")
		return name[i+2:], true, true
	}
	if strings.HasPrefix(name, p) {
		n := name[len(p):]
		for _, o := range []string{"CompareAndSwap", "Load", "Store", "Add", "Swap", "And", "Or"} {
			if strings.HasPrefix(n, o) {
				return o, false, true
			}
		}
	}
	return "", false, false
}

func (en *Engine) setRes(s *state, ci callInfo, res []*Term) {
	if ci.val == nil {
		return
	}
	fr := s.top()
	switch len(res) {
	case 0:
	case 1:
		fr.env[ci.val] = res[0]
	default:
		fr.env[ci.val] = mk(Term{Op: "tuple", Args: res})
	}
}

func (en *Engine) advance(s *state, ci callInfo) {
	if ci.ret == "call" {
		s.top().idx++
	}
	// "defer": stay on RunDefers
}

func (en *Engine) doCall(s *state, ci callInfo) ([]*state, string) {
	if ci.builtin != "" {
		return en.doBuiltin(s, ci)
	}
	name := ci.name()
	if op, method, ok := atomicOp(name); ok {
		_ = method
		a := ci.args[0]
		ev := s.emit(&Event{Kind: "atomic", Name: op, Addr: a, Args: s.snaps(ci.args[1:]), Pos: ci.pos, Instr: ci.instr, InDefer: ci.ret == "defer"})
		sig := ci.callee.Signature
		var res []*Term
		if sig.Results().Len() == 1 {
			rt := sig.Results().At(0).Type()
			// an atomic in an unpublished local object keeps its value
			res = []*Term{s.fresh("at"+op+":"+a.String(), rt, ev)}
		}
		ev.Res = res
		en.setRes(s, ci, res)
		en.advance(s, ci)
		return nil, ""
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		k := "lock"
		if strings.HasSuffix(name, "RLock") {
			k = "rlock"
		}
		s.emit(&Event{Kind: k, Name: name, Addr: ci.args[0], Pos: ci.pos, Instr: ci.instr})
		s.locks = append(s.locks, lock{ci.args[0], k == "rlock"})
		en.advance(s, ci)
		return nil, ""
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		found := "unlock"
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].addr == ci.args[0] && s.locks[i].r == strings.HasSuffix(name, "RUnlock") {
				s.locks = append(append([]lock(nil), s.locks[:i]...), s.locks[i+1:]...)
				found = ""
				break
			}
		}
		ev := s.emit(&Event{Kind: "unlock", Name: name, Addr: ci.args[0], Pos: ci.pos, Instr: ci.instr})
		if found != "" {
			ev.Mode = "unheld"
		}
		en.advance(s, ci)
		return nil, ""
	case "cmp.Compare":
		if len(ci.args) == 2 && isIntType(ci.args[0].Typ) && isIntType(ci.args[1].Typ) {
			return en.threeWay(s, ci), ""
		}
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		ev := s.emit(&Event{Kind: "trylock", Name: name, Addr: ci.args[0], Pos: ci.pos, Instr: ci.instr})
		b := s.clone()
		s.locks = append(s.locks, lock{ci.args[0], false})
		ev.Res = []*Term{True}
		en.setRes(s, ci, []*Term{True})
		en.advance(s, ci)
		en.setRes(b, ci, []*Term{False})
		en.advance(b, ci)
		return []*state{s, b}, ""
	case "(*sync.Once).Do":
		s.emit(&Event{Kind: "once", Name: name, Addr: ci.args[0], Pos: ci.pos, Instr: ci.instr})
		f := ci.args[1]
		if s.once[ci.args[0].K] {
			en.advance(s, ci)
			return nil, ""
		}
		if (f.Op == "closure" || f.Op == "func") && en.inlinable(s, f.Fn) {
			b := s.clone()
			en.advance(b, ci)
			b.log = append(b.log, FactEntry{mk(Term{Op: "oncedone", Args: []*Term{ci.args[0]}}), true, len(b.events), ci.pos})
			s.log = append(s.log, FactEntry{mk(Term{Op: "oncedone", Args: []*Term{ci.args[0]}}), false, len(s.events), ci.pos})
			s.once[ci.args[0].K] = true
			c2 := ci
			c2.val = nil
			if ci.ret == "defer" {
				fr := en.push(s, f.Fn, f, nil, c2)
				_ = fr
			} else {
				c2.ret = "call"
				en.push(s, f.Fn, f, nil, c2)
			}
			return []*state{s, b}, ""
		}
	case "(*sync.Map).Range":
		f := ci.args[1]
		if (f.Op == "closure" || f.Op == "func") && en.inlinable(s, f.Fn) {
			ev := s.emit(&Event{Kind: "maprange", Name: name, Addr: ci.args[0], Args: []*Term{f}, Pos: ci.pos, Instr: ci.instr})
			b := s.clone()
			en.advance(b, ci)
			b.emit(&Event{Kind: "iterend", Addr: ci.args[0], Pos: ci.pos, Name: name})
			en.pushRange(s, ci, f, ev, 1)
			return []*state{s, b}, ""
		}
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		s.emit(&Event{Kind: "call", Name: name, Fn: ci.callee, Args: s.snaps(ci.args), Pos: ci.pos, Instr: ci.instr})
		return nil, "exit"
	}
	if ci.callee != nil && en.inlinable(s, ci.callee) {
		fnv := ci.fnv
		if fnv != nil && fnv.Op != "closure" {
			fnv = nil
		}
		if len(ci.callee.FreeVars) == 0 || fnv != nil {
			s.emit(&Event{Kind: "enter", Name: name, Fn: ci.callee, Args: s.snaps(ci.args), Pos: ci.pos, Instr: ci.instr})
			en.push(s, ci.callee, fnv, ci.args, ci)
			return nil, ""
		}
	}
	// opaque call
	ev := s.emit(&Event{Kind: "call", Name: name, Fn: ci.callee, Recv: ci.recv, Args: s.snaps(ci.args), Pos: ci.pos, Instr: ci.instr, InDefer: ci.ret == "defer" || s.top().inDefer})
	if ci.fnv != nil && ci.callee == nil {
		ev.Recv = ci.fnv
	}
	if ci.recv == nil && ci.callee != nil && ci.callee.Signature.Recv() != nil && len(ev.Args) > 0 {
		ev.Recv = ev.Args[0]
		ev.Args = ev.Args[1:]
	} else if ci.method != nil && ci.recv != nil {
		ev.Recv = ci.recv
	}
	if ci.callee != nil && ci.method != nil {
		ev.Name = FuncName(ci.callee)
		ev.Mode = ci.method.FullName()
	}
	var sig *types.Signature
	if ci.common != nil {
		sig = ci.common.Signature()
	} else if ci.callee != nil {
		sig = ci.callee.Signature
	}
	var res []*Term
	if sig != nil {
		rs := sig.Results()
		for i := 0; i < rs.Len(); i++ {
			var t *Term
			if pureFuncs[name] {
				args := ev.Args
				if ev.Recv != nil {
					args = append([]*Term{ev.Recv}, args...)
				}
				t = mk(Term{Op: "call", Name: name, Args: args, N: i, Typ: rs.At(i).Type(), Ev: ev})
			} else if name == "fmt.Errorf" || name == "errors.New" {
				s.n++
				t = mk(Term{Op: "call", Name: name, Args: ev.Args, N: ev.UID*8 + i + 1, Typ: rs.At(i).Type(), Ev: ev})
			} else {
				t = s.fresh(shortName(name)+fmt.Sprintf(".r%d", i), rs.At(i).Type(), ev)
			}
			res = append(res, t)
		}
	}
	ev.Res = res
	// a callee may write local memory it is given the address of
	for _, a := range ci.args {
		x := a.Unwrap()
		if x.Op == "slice" {
			x = x.Args[0]
		}
		if !pureFuncs[name] && !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "(*sync.Map).") && (root(x).Op == "alloc" || root(x).Op == "mkslice") {
			r := root(x)
			for k, cl := range s.mem {
				if root(cl.Addr) == r {
					if ev.Mem == nil {
						ev.Mem = map[string]*Cell{}
					}
					ev.Mem[k] = cl
				}
			}
			if !readOnlyArgs[name] {
				s.havocAddr(x, ev)
			}
		}
		if x.Op == "closure" && !pureFuncs[name] {
			// an opaque callee may run the closure: captured variables change
			for i, bnd := range x.Args {
				if root(bnd).Op == "alloc" && !readOnlyVar(x.Fn, i) {
					s.havocAddr(bnd, ev)
				}
			}
		}
	}
	en.setRes(s, ci, res)
	en.advance(s, ci)
	return nil, ""
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (en *Engine) pushRange(s *state, ci callInfo, f *Term, ev *Event, count int) {
	sig := f.Fn.Signature
	it := s.emit(&Event{Kind: "iter", Addr: ev.Addr, Pos: ev.Pos, Name: ev.Name})
	k := s.fresh("rk", sig.Params().At(0).Type(), it)
	v := s.fresh("rv", sig.Params().At(1).Type(), it)
	it.Res = []*Term{k, v}
	c := ci
	fr := en.push(s, f.Fn, f, []*Term{k, v}, c)
	if len(fr.fn.Params) > 2 { // bound receiver
		fr.env = map[ssa.Value]*Term{}
		bindParams(fr, f.Fn, f, []*Term{k, v})
	}
	fr.ret = "range:" + ci.ret
	fr.hofCount = count
	fr.hofFn = f
	fr.hofEv = ev
}

func (en *Engine) doReturn(s *state, ret []*Term, pos token.Pos) ([]*state, string) {
	fr := s.top()
	if fr.ret == "root" {
		s.emit(&Event{Kind: "ret", Res: ret, Pos: pos, Name: FuncName(fr.fn)})
		rootRet[s] = ret
		return nil, "return"
	}
	if strings.HasPrefix(fr.ret, "range:") {
		outer := strings.TrimPrefix(fr.ret, "range:")
		s.frames = s.frames[:len(s.frames)-1]
		cont := True
		if len(ret) > 0 {
			cont = ret[0]
		}
		ci := callInfo{ret: outer, val: fr.call, pos: pos}
		outs, vals := en.branch(s, cont, pos, 0)
		var res []*state
		for i, o := range outs {
			if !vals[i] {
				o.emit(&Event{Kind: "iterend", Addr: fr.hofEv.Addr, Pos: pos, Name: fr.hofEv.Name, Mode: "stopped"})
				en.advance(o, ci)
				res = append(res, o)
				continue
			}
			if fr.hofCount < en.MaxIter {
				b := o.clone()
				en.pushRange(b, ci, fr.hofFn, fr.hofEv, fr.hofCount+1)
				res = append(res, b)
			}
			o.emit(&Event{Kind: "iterend", Addr: fr.hofEv.Addr, Pos: pos, Name: fr.hofEv.Name})
			en.advance(o, ci)
			res = append(res, o)
		}
		if len(res) == 0 {
			return nil, "infeasible"
		}
		return res, ""
	}
	s.emit(&Event{Kind: "leave", Name: FuncName(fr.fn), Fn: fr.fn, Res: ret, Pos: pos})
	s.frames = s.frames[:len(s.frames)-1]
	ci := callInfo{ret: fr.ret, val: fr.call}
	en.setRes(s, ci, ret)
	en.advance(s, ci)
	return nil, ""
}

func (en *Engine) doBuiltin(s *state, ci callInfo) ([]*state, string) {
	var res *Term
	var typ types.Type
	if ci.val != nil {
		typ = ci.val.Type()
	}
	switch ci.builtin {
	case "len":
		res = lenTerm(s, ci.args[0])
	case "cap":
		res = mk(Term{Op: "cap", Args: []*Term{ci.args[0]}, Typ: typ})
	case "append":
		a := ci.args[0]
		var b *Term = mk(Term{Op: "list", Typ: typ})
		if len(ci.args) > 1 {
			b = s.snapshot(ci.args[1])
		}
		la, lb := listOf(a), listOf(b)
		switch {
		case la != nil && lb != nil:
			res = mk(Term{Op: "list", Args: append(append([]*Term(nil), la...), lb...), Typ: typ})
		default:
			res = mk(Term{Op: "append", Args: []*Term{a, b}, Typ: typ})
		}
		s.emit(&Event{Kind: "append", Addr: a, Args: []*Term{b}, Res: []*Term{res}, Pos: ci.pos, Instr: ci.instr})
	case "close":
		s.emit(&Event{Kind: "close", Addr: ci.args[0], Pos: ci.pos, Instr: ci.instr, InDefer: ci.ret == "defer"})
	case "delete":
		s.emit(&Event{Kind: "mapdel", Addr: ci.args[0], Args: ci.args[1:], Pos: ci.pos, Instr: ci.instr})
		delete(s.mem, "map|"+ci.args[0].K+"|"+ci.args[1].K)
	case "copy":
		ev := s.emit(&Event{Kind: "copy", Addr: ci.args[0], Args: s.snaps(ci.args[1:]), Pos: ci.pos, Instr: ci.instr})
		x := ci.args[0].Unwrap()
		if x.Op == "slice" {
			x = x.Args[0]
		}
		s.havocAddr(x, ev)
		res = s.fresh("copied", typ, ev)
	case "min", "max":
		// fold through comparisons like an if
		x, y := ci.args[0], ci.args[1]
		if len(ci.args) == 2 && typ != nil && isIntType(typ) {
			cond := Ge(x, y)
			outs, vals := en.branch(s, cond, ci.pos, 0)
			for i, o := range outs {
				r := y
				if vals[i] == (ci.builtin == "max") {
					r = x
				}
				en.setRes(o, ci, []*Term{r})
				en.advance(o, ci)
			}
			if len(outs) == 1 && outs[0] == s {
				return nil, ""
			}
			return outs, ""
		}
		res = App(ci.builtin, typ, ci.args...)
	case "panic":
		s.emit(&Event{Kind: "panic", Args: ci.args, Pos: ci.pos})
		return nil, "panic"
	case "recover":
		s.emit(&Event{Kind: "recover", Pos: ci.pos})
		res = Nil
	case "clear":
		s.emit(&Event{Kind: "clear", Addr: ci.args[0], Pos: ci.pos})
	default:
		res = s.fresh("builtin."+ci.builtin, typ, nil)
	}
	if res != nil {
		en.setRes(s, ci, []*Term{res})
	}
	en.advance(s, ci)
	return nil, ""
}

func (en *Engine) doSelect(s *state, in *ssa.Select) ([]*state, string) {
	var outs []*state
	n := len(in.States)
	tt := in.Type().(*types.Tuple)
	mkRes := func(st *state, idx int64, okT *Term, recvIdx int, rv *Term) {
		args := []*Term{Int(idx), okT}
		k := 0
		for i, sc := range in.States {
			if sc.Dir == types.RecvOnly {
				if i == recvIdx {
					args = append(args, rv)
				} else {
					args = append(args, Zero(tt.At(2+k).Type()))
				}
				k++
			}
		}
		st.top().env[in] = mk(Term{Op: "tuple", Args: args})
		st.top().idx++
	}
	// chans offered
	var chans []*Term
	for _, sc := range in.States {
		chans = append(chans, en.val(s, sc.Chan))
	}
	mode := "nonblocking"
	if in.Blocking {
		mode = "blocking"
	}
	for i := 0; i < n; i++ {
		b := s.clone()
		sc := in.States[i]
		b.emit(&Event{Kind: "select", Addr: chans[i], Args: chans, Mode: mode, Pos: in.Pos(), Instr: in})
		if sc.Dir == types.RecvOnly {
			ev := b.emit(&Event{Kind: "recv", Addr: chans[i], Pos: sc.Pos, Mode: "select", Instr: in})
			et := sc.Chan.Type().Underlying().(*types.Chan).Elem()
			rv := b.fresh("recv", et, ev)
			okT := b.fresh("recvok", types.Typ[types.Bool], ev)
			ev.Res = []*Term{rv, okT}
			mkRes(b, int64(i), okT, i, rv)
		} else {
			b.emit(&Event{Kind: "send", Addr: chans[i], Args: []*Term{b.snapshot(en.val(b, sc.Send))}, Pos: sc.Pos, Mode: "select", Instr: in})
			mkRes(b, int64(i), False, -1, nil)
		}
		outs = append(outs, b)
	}
	if !in.Blocking {
		s.emit(&Event{Kind: "select", Args: chans, Mode: "default", Pos: in.Pos(), Instr: in})
		mkRes(s, -1, False, -1, nil)
		outs = append(outs, s)
	}
	if len(outs) == 0 {
		return nil, "cut"
	}
	return outs, ""
}

// readOnlyVar: the function only ever reads its i-th captured variable.
func readOnlyVar(f *ssa.Function, i int) bool {
	if f == nil || i >= len(f.FreeVars) {
		return false
	}
	for _, r := range *f.FreeVars[i].Referrers() {
		switch in := r.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			g, _ := in.Fn.(*ssa.Function)
			for j, b := range in.Bindings {
				if b == f.FreeVars[i] && !readOnlyVar(g, j) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// threeWay decides an ordered comparison of integers: -1, 0 or 1.
func (en *Engine) threeWay(s *state, ci callInfo) []*state {
	x, y := ci.args[0], ci.args[1]
	var res []*state
	done := func(st *state, r int64) {
		en.setRes(st, ci, []*Term{Int(r)})
		en.advance(st, ci)
		res = append(res, st)
	}
	outs, eq := en.branch(s, Eq0(Sub(x, y)), ci.pos, 0)
	for i, o := range outs {
		if eq[i] {
			done(o, 0)
			continue
		}
		ls, less := en.branch(o, Gt(y, x), ci.pos, 0)
		for j, l := range ls {
			if less[j] {
				done(l, -1)
			} else {
				done(l, 1)
			}
		}
	}
	return res
}
