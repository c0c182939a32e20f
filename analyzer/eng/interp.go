package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step on an abstract path.
type Event struct {
	Kind    string // call enter leave atomic lock unlock rlock runlock trylock send recv close go store mapset mapdel mapget select iter iterend once ret panic defer
	Name    string // callee full name, or operation for atomics
	Fn      *ssa.Function
	Recv    *Term
	Addr    *Term
	Args    []*Term
	Res     []*Term
	Locks   []string
	Held    map[string]*Term
	Pos     token.Pos
	Stack   []*ssa.Function
	Seq     int
	UID     int
	NFacts  int
	Mem     map[string]*Cell // memory at a go statement; at an opaque call, the objects it was handed
	Mode    string           // select: "blocking"; defer: "deferred"
	Instr   ssa.Instruction
	InDefer bool
}

func (e *Event) Arg(i int) *Term {
	if i < len(e.Args) {
		return e.Args[i]
	}
	return nil
}

// Callers reports whether the event happened inside (a callee of) fn.
func (e *Event) Inside(name string) bool {
	for _, f := range e.Stack {
		if FuncName(f) == name {
			return true
		}
	}
	return false
}

type Cell struct {
	Addr, Val *Term
}

// FactEntry logs one branch decision.
type FactEntry struct {
	Cond *Term
	Val  bool
	Seq  int // number of events before the decision
	Pos  token.Pos
}

// Path is one abstract path through an entry function.
type Path struct {
	Events []*Event
	F      *Facts
	Log    []FactEntry
	Ret    []*Term
	End    string // return panic cut exit
	Held   []string
	Params []*Term
	EndPos token.Pos
	Mem    map[string]*Cell
}

// Has reports the value (1/-1/0) of cond at the end of the path.
func (p *Path) Has(cond *Term) int { return p.F.Eval(cond) }

// Prog is a loaded program with naming helpers.
type Engine struct {
	Prog       *ssa.Program
	Module     string
	Opaque     map[string]bool // full names never inlined
	InlineOnly func(*ssa.Function) bool
	MaxIter    int
	MaxPaths   int
	MaxSteps   int
	NoFork     bool
	Truncated  bool
	Over       bool                      // path budget exceeded
	Funcs      map[*ssa.Function]bool    // functions walked
	TraceDiv   bool                      // emit "div" events for integer divisions and remainders
	TraceLoads bool                      // emit "load" events for reads of shared fields
	SplitMask  bool                      // with Alias: decide the value of x & small constant
	Odd        func(*Term) (string, int) // the setting a condition is about, and its usual outcome
	MaxOdd     int                       // how many settings may have an unusual outcome on one path
	FreeLen    int64                     // comparisons of a length with a larger constant may go either way
	Pre        func([]*Term) []*Term     // facts assumed about the parameters
	Alias      bool                      // decide whether array cells and map keys at different symbolic positions coincide
}

func New(prog *ssa.Program, module string) *Engine {
	return &Engine{Prog: prog, Module: module, Opaque: map[string]bool{}, MaxIter: 2, MaxPaths: 60000, MaxSteps: 30000000, Funcs: map[*ssa.Function]bool{}}
}

func FuncName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if o, ok := f.Object().(*types.Func); ok {
		return o.FullName()
	}
	return f.String()
}

type deferred struct {
	instr   *ssa.Defer
	fnv     *Term
	callee  *ssa.Function
	method  *types.Func
	recv    *Term
	args    []*Term
	builtin string
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	blk    *ssa.BasicBlock
	idx    int
	prev   *ssa.BasicBlock
	defers []*deferred
	iters  map[int]int
	// how to continue in the caller
	ret      string // call defer range once root
	call     ssa.Value
	hofCount int
	hofFn    *Term
	hofEv    *Event
	inDefer  bool
}

type state struct {
	frames []*frame
	mem    map[string]*Cell
	havoc  map[string]*Event // alloc key -> event that wrote it
	f      *Facts
	events []*Event
	log    []FactEntry
	locks  []lock
	n      int
	once   map[string]bool
	params []*Term
	odd    map[string]bool // settings with an unusual outcome, shared
}

type lock struct {
	addr *Term
	r    bool
}

func (s *state) top() *frame { return s.frames[len(s.frames)-1] }

func (s *state) clone() *state {
	n := &state{mem: make(map[string]*Cell, len(s.mem)), havoc: map[string]*Event{}, f: s.f.clone(), n: s.n, params: s.params, odd: s.odd, once: map[string]bool{}}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.havoc {
		n.havoc[k] = v
	}
	for k, v := range s.once {
		n.once[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	n.log = s.log[:len(s.log):len(s.log)]
	n.locks = append([]lock(nil), s.locks...)
	for _, f := range s.frames {
		c := *f
		c.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			c.env[k] = v
		}
		c.iters = make(map[int]int, len(f.iters))
		for k, v := range f.iters {
			c.iters[k] = v
		}
		c.defers = append([]*deferred(nil), f.defers...)
		n.frames = append(n.frames, &c)
	}
	return n
}

type heldEntry struct {
	keys []string
	m    map[string]*Term
}

var heldSets = map[string]*heldEntry{}

// heldSet shares the description of a lock set between events.
func heldSet(ls []lock) ([]string, map[string]*Term) {
	var b strings.Builder
	for _, l := range ls {
		fmt.Fprintf(&b, "%d,", l.addr.ID)
	}
	h := heldSets[b.String()]
	if h == nil {
		h = &heldEntry{m: map[string]*Term{}}
		for _, l := range ls {
			h.keys = append(h.keys, l.addr.K)
			h.m[l.addr.K] = l.addr
		}
		sort.Strings(h.keys)
		heldSets[b.String()] = h
	}
	return h.keys, h.m
}

var stackSets = map[string][]*ssa.Function{}

func stackOf(fs []*frame) []*ssa.Function {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%d,", fnID(f.fn))
	}
	st := stackSets[b.String()]
	if st == nil {
		for _, f := range fs {
			st = append(st, f.fn)
		}
		stackSets[b.String()] = st
	}
	return st
}

func (s *state) stack() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range s.frames {
		out = append(out, f.fn)
	}
	return out
}

func (s *state) heldKeys() []string {
	var out []string
	for _, l := range s.locks {
		out = append(out, l.addr.K)
	}
	sort.Strings(out)
	return out
}

var eventUID int

func (s *state) emit(e *Event) *Event {
	e.Locks, e.Held = heldSet(s.locks)
	e.Stack = stackOf(s.frames)
	e.Seq = len(s.events)
	eventUID++
	e.UID = eventUID
	e.NFacts = len(s.log)
	if len(s.frames) > 0 {
		for _, f := range s.frames {
			if f.inDefer {
				e.InDefer = true
			}
		}
	}
	s.events = append(s.events, e)
	return e
}

// fresh makes a new symbol. One produced by an event is named after that event, so that
// events of different paths never share a symbol.
func (s *state) fresh(prefix string, typ types.Type, ev *Event) *Term {
	s.n++
	if ev != nil {
		return Sym(fmt.Sprintf("%s#%d.e%d", prefix, s.n, ev.UID), typ, ev)
	}
	return Sym(fmt.Sprintf("%s#%d.%d", prefix, s.n, len(s.events)), typ, nil)
}

// Run enumerates the abstract paths of fn. args may be nil (fresh symbols).
func (en *Engine) Run(fn *ssa.Function, args []*Term, bind []*Term, mem map[string]*Cell) []*Path {
	st := &state{mem: map[string]*Cell{}, havoc: map[string]*Event{}, f: newFacts(), once: map[string]bool{}}
	for k, v := range mem {
		st.mem[k] = v
	}
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, blk: fn.Blocks[0], iters: map[int]int{}, ret: "root"}
	for i, p := range fn.Params {
		var t *Term
		if i < len(args) && args[i] != nil {
			t = args[i]
		} else {
			t = Sym(p.Name(), p.Type(), nil)
			if t.Typ == nil || !types.Identical(t.Typ, p.Type()) {
				t = Sym(p.Name()+":"+p.Type().String(), p.Type(), nil)
			}
		}
		fr.env[p] = t
		st.params = append(st.params, t)
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) && bind[i] != nil {
			fr.env[v] = bind[i]
		} else {
			fr.env[v] = mk(Term{Op: "sym", Name: "&" + v.Name(), Typ: v.Type()})
		}
	}
	st.frames = []*frame{fr}
	if en.Pre != nil {
		for _, t := range en.Pre(st.params) {
			st.f.Assume(t, true)
		}
	}
	en.Funcs[fn] = true
	var out []*Path
	work := []*state{st}
	steps := 0
	en.Over = false
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			steps++
			if steps > en.MaxSteps || len(out) > en.MaxPaths {
				en.Over = true
				return out
			}
			forks, end := en.step(s)
			if end != "" {
				p := &Path{Events: s.events, F: s.f, Log: s.log, End: end, Params: s.params, Held: s.heldKeys(), Mem: s.mem}
				if end == "return" {
					p.Ret = retTerms(s)
				}
				if fr := s.frames; len(fr) > 0 {
					f := fr[len(fr)-1]
					if f.idx < len(f.blk.Instrs) {
						p.EndPos = f.blk.Instrs[f.idx].Pos()
					}
				}
				if end != "infeasible" {
					out = append(out, p)
				}
				break
			}
			if forks != nil {
				for i := len(forks) - 1; i >= 0; i-- {
					work = append(work, forks[i])
				}
				break
			}
		}
	}
	return out
}

var rootRet = map[*state][]*Term{}

func retTerms(s *state) []*Term {
	r := rootRet[s]
	delete(rootRet, s)
	return r
}

func (en *Engine) val(s *state, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Function:
		return mk(Term{Op: "func", Fn: c, Typ: c.Type()})
	case *ssa.Global:
		return mk(Term{Op: "global", Obj: c.Object(), Name: c.String(), Typ: c.Type()})
	case *ssa.Builtin:
		return mk(Term{Op: "builtin", Name: c.Name()})
	}
	t := s.top().env[v]
	if t == nil {
		t = s.fresh("undef."+v.Name(), v.Type(), nil)
		s.top().env[v] = t
	}
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.Int:
		if isIntType(c.Type()) {
			if n, ok := constant.Int64Val(c.Value); ok {
				return Int(n)
			}
			return mk(Term{Op: "const", Val: c.Value})
		}
		return mk(Term{Op: "const", Val: constant.ToFloat(c.Value), Name: "f"})
	case constant.Float:
		return mk(Term{Op: "const", Val: c.Value, Name: "f"})
	}
	return mk(Term{Op: "const", Val: c.Value})
}

// ---- memory ----

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (s *state) explicit(addr *Term) (*Term, bool) {
	if c, ok := s.mem[addr.K]; ok {
		return c.Val, true
	}
	if addr.Op == "fa" {
		if pv, ok := s.explicit(addr.Args[0]); ok {
			return Field(pv, addr.N-1), true
		}
	}
	if addr.Op == "ia" && (addr.Args[0].Op == "alloc" || addr.Args[0].Op == "fa" || addr.Args[0].Op == "ia") {
		if pv, ok := s.explicit(addr.Args[0]); ok {
			if l := parts2(pv); l != nil {
				if n, ok := addr.Args[1].IsInt(); ok && n >= 0 && int(n) < len(l) {
					return l[n], true
				}
			}
			if pv.Op == "zeroarr" {
				return Zero(pv.Typ.Underlying().(*types.Array).Elem()), true
			}
			return mk(Term{Op: "elem", Args: []*Term{pv, addr.Args[1]}, Typ: deref(addr.Typ)}), true
		}
	}
	return nil, false
}

func root(addr *Term) *Term {
	for addr.Op == "fa" || addr.Op == "ia" {
		addr = addr.Args[0]
	}
	return addr
}

func (s *state) load(addr *Term, typ types.Type) *Term {
	if c, ok := s.mem[addr.K]; ok {
		return c.Val
	}
	if typ != nil {
		if st, ok := typ.Underlying().(*types.Struct); ok {
			over := false
			for _, c := range s.mem {
				if (c.Addr.Op == "fa" || c.Addr.Op == "ia") && within(c.Addr, addr) {
					over = true
					break
				}
			}
			if over {
				args := make([]*Term, st.NumFields())
				for i := range args {
					args[i] = s.load(fieldAddr(addr, st.Field(i), i), st.Field(i).Type())
				}
				return mk(Term{Op: "struct", Name: typ.String(), Args: args, Typ: typ})
			}
		}
		if at, ok := typ.Underlying().(*types.Array); ok && at.Len() <= maxArr {
			for _, c := range s.mem {
				if c.Addr.Op != "mapelem" && c.Addr != addr && within(c.Addr, addr) {
					args := make([]*Term, at.Len())
					for i := range args {
						args[i] = s.load(mk(Term{Op: "ia", Args: []*Term{addr, Int(int64(i))}, Typ: types.NewPointer(at.Elem())}), at.Elem())
					}
					return mk(Term{Op: "arr", Name: typ.String(), Args: args, Typ: typ})
				}
			}
		}
	}
	if v, ok := s.explicit(addr); ok {
		return v
	}
	r := root(addr)
	if ev, ok := s.havoc[r.K]; ok {
		return mk(Term{Op: "mem", Args: []*Term{addr}, N: ev.UID, Ev: ev, Typ: typ})
	}
	if r.Op == "alloc" || r.Op == "mkslice" {
		if typ != nil {
			return Zero(typ)
		}
	}
	switch addr.Op {
	case "fa":
		p := addr.Args[0]
		for p.Op == "fa" {
			p = p.Args[0]
		}
		if p.Op == "ia" && listOf(p.Args[0]) != nil {
			// a field of an element whose value is known
			if v := s.load(addr.Args[0], deref(addr.Args[0].Typ)); v.Op == "struct" && addr.N-1 < len(v.Args) {
				return v.Args[addr.N-1]
			}
		}
		return mk(Term{Op: "fld", Args: []*Term{base(addr.Args[0], s)}, Obj: addr.Obj, Typ: typ})
	case "ia":
		a := addr.Args[0]
		if i, ok := addr.Args[1].IsInt(); ok {
			if l := listOf(a); l != nil && i >= 0 && int(i) < len(l) {
				return l[i]
			}
		}
		a = copied(a)
		return mk(Term{Op: "elem", Args: []*Term{a, addr.Args[1]}, Typ: typ})
	case "global":
		return mk(Term{Op: "glob", Obj: addr.Obj, Name: addr.Name, Typ: typ})
	}
	return mk(Term{Op: "deref", Args: []*Term{addr}, Typ: typ})
}

// base turns an address used as the base of a nested field into the value it
// denotes, so that x.a.b reads the same however it is reached.
func base(addr *Term, s *state) *Term {
	switch addr.Op {
	case "fa":
		return mk(Term{Op: "fld", Args: []*Term{base(addr.Args[0], s)}, Obj: addr.Obj, Typ: deref(addr.Typ)})
	case "ia":
		return mk(Term{Op: "elem", Args: []*Term{copied(addr.Args[0]), addr.Args[1]}, Typ: deref(addr.Typ)})
	case "global":
		return mk(Term{Op: "glob", Obj: addr.Obj, Name: addr.Name, Typ: deref(addr.Typ)})
	}
	return addr
}

// copied: a copy holds what it was copied from.
func copied(a *Term) *Term {
	for a.Op == "append" && listOf(a.Args[0]) != nil && len(listOf(a.Args[0])) == 0 {
		a = a.Args[1]
	}
	return a
}

func within(a, parent *Term) bool {
	for {
		if a == parent {
			return true
		}
		if a.Op != "fa" && a.Op != "ia" {
			return false
		}
		a = a.Args[0]
	}
}

func fieldAddr(b *Term, f *types.Var, idx int) *Term {
	return mk(Term{Op: "fa", Args: []*Term{b}, Obj: f, N: idx + 1, Typ: types.NewPointer(f.Type())})
}

func (s *state) store(addr, val *Term) {
	for k, c := range s.mem {
		if c.Addr != addr && within(c.Addr, addr) {
			delete(s.mem, k)
		}
	}
	if addr.Op == "fa" {
		if pv, ok := s.explicit(addr.Args[0]); ok {
			if st, ok := deref(addr.Args[0].Typ).Underlying().(*types.Struct); ok {
				args := make([]*Term, st.NumFields())
				for i := range args {
					args[i] = Field(pv, i)
				}
				args[addr.N-1] = val
				s.store(addr.Args[0], mk(Term{Op: "struct", Name: deref(addr.Args[0].Typ).String(), Args: args, Typ: deref(addr.Args[0].Typ)}))
				return
			}
		}
	}
	if addr.Op == "ia" {
		if pv, ok := s.explicit(addr.Args[0]); ok {
			if l := parts2(pv); l != nil {
				if n, ok := addr.Args[1].IsInt(); ok && n >= 0 && int(n) < len(l) {
					l = append([]*Term(nil), l...)
					l[n] = val
					s.store(addr.Args[0], mk(Term{Op: "arr", Name: pv.Typ.String(), Args: l, Typ: pv.Typ}))
					return
				}
			}
		}
	}
	s.mem[addr.K] = &Cell{addr, val}
}

func (s *state) havocAddr(addr *Term, ev *Event) {
	r := root(addr)
	if r.Op != "alloc" && r.Op != "mkslice" {
		return
	}
	for k, c := range s.mem {
		if root(c.Addr) == r {
			delete(s.mem, k)
		}
	}
	s.havoc[r.K] = ev
}

// listOf returns the elements of a slice value when they are all known.
func listOf(t *Term) []*Term {
	t = t.Unwrap()
	switch t.Op {
	case "list":
		if t.Args == nil {
			return []*Term{}
		}
		return t.Args
	case "nil":
		return []*Term{}
	}
	return nil
}

// ListOf is listOf for rules: nil, false when the slice is not fully known.
func ListOf(t *Term) ([]*Term, bool) {
	if t == nil {
		return nil, false
	}
	l := listOf(t)
	return l, l != nil
}

func lenTerm(s *state, t *Term) *Term {
	t = t.Unwrap()
	if l := listOf(t); l != nil {
		return Int(int64(len(l)))
	}
	if v, ok := t.IsStr(); ok {
		return Int(int64(len(v)))
	}
	switch t.Op {
	case "append":
		n := lenTerm(s, t.Args[0])
		return Add(n, lenTerm(s, t.Args[1]))
	case "mkslice":
		return t.Args[0]
	case "slice":
		if t.Args[1].Op != "nil" && t.Args[2].Op != "nil" {
			return Sub(t.Args[2], t.Args[1])
		}
		if t.Args[2].Op == "nil" && t.Args[1].Op == "nil" {
			return lenTerm(s, t.Args[0])
		}
		if t.Args[2].Op == "nil" {
			return Sub(lenTerm(s, t.Args[0]), t.Args[1])
		}
		return t.Args[2]
	case "alloc":
		if d := deref(t.Typ); d != nil {
			if a, ok := d.Underlying().(*types.Array); ok {
				return Int(a.Len())
			}
		}
	case "zeroarr":
		if a, ok := t.Typ.Underlying().(*types.Array); ok {
			return Int(a.Len())
		}
	}
	return mk(Term{Op: "len", Args: []*Term{t}, Typ: types.Typ[types.Int]})
}

// snapshot makes a value independent of later memory writes for use in events.
func (s *state) snapshot(t *Term) *Term {
	if t.Op == "slice" && t.Args[0].Op == "alloc" {
		a := t.Args[0]
		if at, ok := deref(a.Typ).Underlying().(*types.Array); ok && at.Len() <= 64 {
			if _, h := s.havoc[a.K]; h {
				whole := mk(Term{Op: "slicemem", Args: []*Term{s.load(a, deref(a.Typ))}, Typ: t.Typ, Ev: s.havoc[a.K]})
				lo, ok1 := bound(t.Args[1], 0)
				hi, ok2 := bound(t.Args[2], at.Len())
				if ok1 && ok2 && lo == 0 && hi == at.Len() {
					return whole
				}
				return mk(Term{Op: "slice", Args: append([]*Term{whole}, t.Args[1:]...), Typ: t.Typ})
			}
			lo, ok1 := bound(t.Args[1], 0)
			hi, ok2 := bound(t.Args[2], at.Len())
			if ok1 && ok2 && lo <= hi && hi <= at.Len() {
				var l []*Term
				for i := lo; i < hi; i++ {
					l = append(l, s.load(mk(Term{Op: "ia", Args: []*Term{a, Int(i)}, Typ: types.NewPointer(at.Elem())}), at.Elem()))
				}
				return mk(Term{Op: "list", Args: l, Typ: t.Typ})
			}
		}
	}
	if t.Op == "iface" {
		in := s.snapshot(t.Args[0])
		if in != t.Args[0] {
			return mk(Term{Op: "iface", Args: []*Term{in}, Typ: t.Typ})
		}
	}
	return t
}

func bound(t *Term, def int64) (int64, bool) {
	if t.Op == "nil" {
		return def, true
	}
	return t.IsInt()
}

// ---- loops ----

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// Loops maps loop headers to their natural loop bodies.
func Loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := out[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					out[h] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopCache[fn] = out
	return out
}

const hardIter = 70

func (en *Engine) jump(s *state, to *ssa.BasicBlock) string {
	fr := s.top()
	from := fr.blk
	loops := Loops(fr.fn)
	if body, ok := loops[to]; ok {
		if body[from] {
			fr.iters[to.Index]++
			n := fr.iters[to.Index]
			exits := false
			if len(to.Succs) == 2 {
				exits = !body[to.Succs[0]] || !body[to.Succs[1]]
			}
			for _, in := range to.Instrs {
				if _, ok := in.(*ssa.Select); ok {
					exits = false // a select forks by itself, leaving the loop included
				}
			}
			if n > hardIter || en.Alias && n > en.MaxIter+1 || (n >= en.MaxIter+1 && !exits) {
				return "cut"
			}
		} else {
			fr.iters[to.Index] = 0
		}
	}
	// phis are evaluated in parallel
	fr.prev = from
	fr.blk = to
	fr.idx = 0
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == from {
				vals = append(vals, en.val(s, phi.Edges[i]))
				break
			}
		}
		phis = append(phis, phi)
	}
	for i, phi := range phis {
		fr.env[phi] = vals[i]
		fr.idx++
	}
	return ""
}

// branch decides a condition, forking when both outcomes are feasible.
func (en *Engine) branch(s *state, cond *Term, pos token.Pos, preferExit int) (outs []*state, vals []bool) {
	if en.FreeLen > 0 && bigLen(cond, en.FreeLen) {
		return []*state{s, s.clone()}, []bool{true, false}
	}
	switch s.f.Eval(cond) {
	case 1:
		return []*state{s}, []bool{true}
	case -1:
		return []*state{s}, []bool{false}
	}
	try := func(st *state, v bool) bool {
		ok := st.f.Assume(cond, v)
		lc, lv := cond, v
		if lc.Op == "not" {
			lc, lv = lc.Args[0], !lv
		}
		st.log = append(st.log, FactEntry{lc, lv, len(st.events), pos})
		return ok
	}
	if preferExit != 0 {
		v := preferExit > 0
		if try(s, v) {
			return []*state{s}, []bool{v}
		}
		return nil, nil
	}
	okT, okF := true, true
	var name string
	usual := 0
	if en.Odd != nil {
		if name, usual = en.Odd(cond); usual != 0 && !s.odd[name] && len(s.odd) >= en.MaxOdd {
			okT, okF = usual > 0, usual < 0
		}
	}
	b := s.clone()
	mark := func(st *state, v bool) {
		if usual != 0 && v != (usual > 0) {
			m := map[string]bool{name: true}
			for k := range st.odd {
				m[k] = true
			}
			st.odd = m
		}
	}
	mark(s, true)
	mark(b, false)
	if okT && try(s, true) {
		outs = append(outs, s)
		vals = append(vals, true)
	}
	if okF && try(b, false) {
		outs = append(outs, b)
		vals = append(vals, false)
	}
	return
}

// bigLen: cond compares a length with a constant beyond n.
func bigLen(cond *Term, n int64) bool {
	for cond.Op == "not" {
		cond = cond.Args[0]
	}
	if cond.Op != "ge0" && cond.Op != "eq0" {
		return false
	}
	co, c := parts(cond.Args[0])
	return len(co) == 1 && co[0].T.Op == "len" && (co[0].N == 1 || co[0].N == -1) && (c > n || c < -n)
}

// Zero0 is Zero for a type that may be missing.
func Zero0(t types.Type) *Term {
	if t == nil || t == types.Typ[types.Invalid] {
		return Nil
	}
	return Zero(t)
}

// step executes one instruction. It returns forked states (the state itself
// must be among them to continue), or a non-empty end marker.
func (en *Engine) step(s *state) ([]*state, string) {
	fr := s.top()
	if fr.idx >= len(fr.blk.Instrs) {
		return nil, "cut"
	}
	instr := fr.blk.Instrs[fr.idx]
	if en.Alias {
		if cond := en.aliasCond(s, instr); cond != nil {
			outs, _ := en.branch(s, cond, instr.Pos(), 0)
			if len(outs) == 0 {
				return nil, "infeasible"
			}
			if len(outs) == 1 && outs[0] == s {
				return nil, ""
			}
			return outs, ""
		}
	}
	switch in := instr.(type) {
	case *ssa.Jump:
		if e := en.jump(s, fr.blk.Succs[0]); e != "" {
			return nil, e
		}
		return nil, ""
	case *ssa.If:
		cond := en.val(s, in.Cond)
		pe := 0
		if body, ok := Loops(fr.fn)[fr.blk]; ok && fr.iters[fr.blk.Index] >= en.MaxIter {
			t, f := body[fr.blk.Succs[0]], body[fr.blk.Succs[1]]
			if t && !f {
				pe = -1
			} else if f && !t {
				pe = 1
			}
		}
		outs, vals := en.branch(s, cond, in.Cond.Pos(), pe)
		if len(outs) == 0 {
			return nil, "infeasible"
		}
		var res []*state
		blk := fr.blk
		for i, o := range outs {
			succ := blk.Succs[1]
			if vals[i] {
				succ = blk.Succs[0]
			}
			if e := en.jump(o, succ); e != "" {
				if len(outs) == 1 {
					return nil, e
				}
				// represent the cut as an ended state
				o.top().idx = 1 << 30
			}
			res = append(res, o)
		}
		if len(res) == 1 && res[0] == s {
			return nil, ""
		}
		return res, ""
	case *ssa.Return:
		var ret []*Term
		for _, r := range in.Results {
			t := s.snapshot(en.val(s, r))
			if fr.ret == "root" && isBoolType(r.Type()) {
				// a boolean outcome is decided on every path
				if _, known := t.IsBool(); !known {
					outs, vals := en.branch(s, t, in.Pos(), 0)
					if len(outs) != 1 || outs[0] != s {
						if len(outs) == 0 {
							return nil, "infeasible"
						}
						return outs, "" // each comes back here with the outcome known
					}
					t = Bool(vals[0])
				}
			}
			ret = append(ret, t)
		}
		return en.doReturn(s, ret, in.Pos())
	case *ssa.Panic:
		s.emit(&Event{Kind: "panic", Args: []*Term{en.val(s, in.X)}, Pos: in.Pos()})
		return nil, "panic"
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.idx++
			return nil, ""
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		return en.doCall(s, callInfo{fnv: d.fnv, callee: d.callee, method: d.method, recv: d.recv, args: d.args, builtin: d.builtin, pos: d.instr.Pos(), ret: "defer", instr: d.instr, common: d.instr.Common()})
	case *ssa.Defer:
		ci := en.resolve(s, in.Common())
		fr.defers = append(fr.defers, &deferred{instr: in, fnv: ci.fnv, callee: ci.callee, method: ci.method, recv: ci.recv, args: ci.args, builtin: ci.builtin})
		s.emit(&Event{Kind: "defer", Name: ci.name(), Fn: ci.callee, Recv: ci.recv, Args: ci.args, Pos: in.Pos(), Instr: in})
		fr.idx++
		return nil, ""
	case *ssa.Go:
		ci := en.resolve(s, in.Common())
		m := map[string]*Cell{}
		for k, v := range s.mem {
			m[k] = v
		}
		fnv := ci.fnv
		if fnv == nil && ci.callee != nil {
			fnv = mk(Term{Op: "func", Fn: ci.callee})
		}
		s.emit(&Event{Kind: "go", Name: ci.name(), Fn: ci.callee, Recv: fnv, Args: s.snaps(ci.args), Pos: in.Pos(), Mem: m, Instr: in})
		fr.idx++
		return nil, ""
	case *ssa.Call:
		ci := en.resolve(s, in.Common())
		ci.pos = in.Pos()
		ci.ret = "call"
		ci.val = in
		ci.instr = in
		ci.common = in.Common()
		return en.doCall(s, ci)
	case *ssa.Select:
		return en.doSelect(s, in)
	case *ssa.Store:
		a, v := en.canon(s, en.val(s, in.Addr)), en.val(s, in.Val)
		r := root(a)
		s.store(a, v)
		if r.Op != "alloc" || len(s.frames) == 0 {
			s.emit(&Event{Kind: "store", Addr: a, Args: []*Term{s.snapshot(v)}, Pos: in.Pos(), Instr: in})
		} else if a.Op != "alloc" && a.Op != "ia" {
			s.emit(&Event{Kind: "lstore", Addr: a, Args: []*Term{s.snapshot(v)}, Pos: in.Pos(), Instr: in})
		}
		fr.idx++
		return nil, ""
	case *ssa.MapUpdate:
		m, v := en.val(s, in.Map), en.val(s, in.Value)
		k := en.canonKey(s, m, en.val(s, in.Key))
		s.emit(&Event{Kind: "mapset", Addr: m, Args: []*Term{k, s.snapshot(v)}, Pos: in.Pos(), Instr: in})
		s.mem["map|"+m.K+"|"+k.K] = &Cell{mk(Term{Op: "mapelem", Args: []*Term{m, k}}), v}
		fr.idx++
		return nil, ""
	case *ssa.Send:
		s.emit(&Event{Kind: "send", Addr: en.val(s, in.Chan), Args: []*Term{s.snapshot(en.val(s, in.X))}, Pos: in.Pos(), Instr: in})
		fr.idx++
		return nil, ""
	case *ssa.DebugRef:
		fr.idx++
		return nil, ""
	}
	// value-producing instructions
	v, ok := instr.(ssa.Value)
	if !ok {
		fr.idx++
		return nil, ""
	}
	t := en.eval(s, v)
	fr.env[v] = t
	fr.idx++
	return nil, ""
}

// splitIndex takes an address apart into its innermost indexed part.
func splitIndex(addr *Term) *Term {
	for addr != nil && addr.Op == "fa" {
		addr = addr.Args[0]
	}
	if addr != nil && addr.Op == "ia" {
		return addr
	}
	return nil
}

// siblings lists the other positions of the same array that hold explicit values.
func (s *state) siblings(ia *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, c := range s.mem {
		for a := c.Addr; a != nil && (a.Op == "fa" || a.Op == "ia"); a = a.Args[0] {
			if a.Op == "ia" && a.Args[0] == ia.Args[0] && a.Args[1] != ia.Args[1] && !seen[a.Args[1]] {
				seen[a.Args[1]] = true
				out = append(out, a.Args[1])
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func (s *state) siblingKeys(m, k *Term) []*Term {
	var out []*Term
	for _, c := range s.mem {
		if c.Addr.Op == "mapelem" && c.Addr.Args[0] == m && c.Addr.Args[1] != k {
			out = append(out, c.Addr.Args[1])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// aliasCond is an equality of positions that must be decided before the instruction runs.
func (en *Engine) aliasCond(s *state, instr ssa.Instruction) *Term {
	var addr, m, k *Term
	switch in := instr.(type) {
	case *ssa.Store:
		addr = en.val(s, in.Addr)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			addr = en.val(s, in.X)
		}
	case *ssa.MapUpdate:
		m, k = en.val(s, in.Map), en.val(s, in.Key)
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			m, k = en.val(s, in.X), en.val(s, in.Index)
		}
	}
	if b, ok := instr.(*ssa.BinOp); ok && en.SplitMask && b.Op == token.AND && isIntType(b.Type()) {
		// a value under a small mask is decided, so that positions in a small table are
		t := en.binop(s, b.Op, en.val(s, b.X), en.val(s, b.Y), b.X.Type(), b.Type())
		if n := smallMask(t); n > 0 {
			if _, ok := s.f.value(t, n); !ok {
				for v := int64(0); v <= n; v++ {
					c := Eq0(Sub(t, Int(v)))
					if s.f.Eval(c) == 0 {
						return c
					}
				}
			}
		}
		return nil
	}
	if ia := splitIndex(addr); ia != nil && root(ia).Op != "global" {
		for _, j := range s.siblings(ia) {
			c := Eq(ia.Args[1], j, types.Typ[types.Int])
			switch s.f.Eval(c) {
			case 1:
				return nil
			case 0:
				return c
			}
		}
	}
	if m != nil {
		if _, ok := s.mem["map|"+m.K+"|"+k.K]; ok {
			return nil
		}
		for _, j := range s.siblingKeys(m, k) {
			c := eqDeep(k, j)
			switch s.f.Eval(c) {
			case 1:
				return nil
			case 0:
				return c
			}
		}
	}
	return nil
}

// smallMask is the largest value of x & constant when it is small.
func smallMask(t *Term) int64 {
	if t.Op != "&" {
		return 0
	}
	for _, a := range t.Args {
		if n, ok := a.IsInt(); ok && n > 0 && n < 16 {
			return n
		}
	}
	return 0
}

// eqDeep compares two values, lists of the same length by their elements.
func eqDeep(a, b *Term) *Term {
	return Eq(a, b, a.Typ)
}

// canon replaces the index of an address by one that is known to be equal and holds a value.
func (en *Engine) canon(s *state, addr *Term) *Term {
	if !en.Alias {
		return addr
	}
	ia := splitIndex(addr)
	if ia == nil || root(ia).Op == "global" {
		return addr
	}
	for _, j := range s.siblings(ia) {
		if s.f.Eval(Eq(ia.Args[1], j, types.Typ[types.Int])) == 1 {
			var re func(a *Term) *Term
			re = func(a *Term) *Term {
				if a == ia {
					return mk(Term{Op: "ia", Args: []*Term{ia.Args[0], j}, Typ: ia.Typ})
				}
				c := *a
				c.Args = []*Term{re(a.Args[0])}
				return mk(c)
			}
			return re(addr)
		}
	}
	return addr
}

func (en *Engine) canonKey(s *state, m, k *Term) *Term {
	if !en.Alias {
		return k
	}
	if _, ok := s.mem["map|"+m.K+"|"+k.K]; ok {
		return k
	}
	for _, j := range s.siblingKeys(m, k) {
		if s.f.Eval(eqDeep(k, j)) == 1 {
			return j
		}
	}
	return k
}

func (s *state) snaps(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, s.snapshot(t))
	}
	return out
}

func (en *Engine) eval(s *state, v ssa.Value) *Term {
	fr := s.top()
	switch in := v.(type) {
	case *ssa.Alloc:
		// a fresh object per dynamic occurrence on this path
		s.n++
		t := mk(Term{Op: "alloc", Name: fmt.Sprintf("%s:%s", fr.fn.Name(), in.Comment), N: s.n*1000 + len(s.events)%1000 + 1, Typ: in.Type()})
		for k, c := range s.mem {
			if root(c.Addr) == t {
				delete(s.mem, k)
			}
		}
		return t
	case *ssa.BinOp:
		if t := en.beyond(s, in); t != nil {
			return t
		}
		t := en.binop(s, in.Op, en.val(s, in.X), en.val(s, in.Y), in.X.Type(), in.Type())
		if en.TraceDiv && (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.Type()) {
			s.emit(&Event{Kind: "div", Args: []*Term{en.val(s, in.X), en.val(s, in.Y)}, Pos: in.Pos(), Instr: in})
		}
		if n := smallMask(t); n > 0 && en.Alias && en.SplitMask {
			if v, ok := s.f.value(t, n); ok {
				return Int(v)
			}
		}
		return t
	case *ssa.UnOp:
		x := en.val(s, in.X)
		switch in.Op {
		case token.MUL:
			x = en.canon(s, x)
			v := s.load(x, in.Type())
			if en.TraceLoads && root(x).Op != "alloc" {
				s.emit(&Event{Kind: "load", Addr: x, Res: []*Term{v}, Pos: in.Pos(), Instr: in})
			}
			return v
		case token.NOT:
			return Not(x)
		case token.SUB:
			if isIntType(in.Type()) {
				return Neg(x)
			}
			return App("neg", in.Type(), x)
		case token.XOR:
			return App("compl", in.Type(), x)
		case token.ARROW:
			ev := s.emit(&Event{Kind: "recv", Addr: x, Pos: in.Pos(), Instr: in})
			if in.CommaOk {
				tt := in.Type().(*types.Tuple)
				a, b := s.fresh("recv", tt.At(0).Type(), ev), s.fresh("recvok", types.Typ[types.Bool], ev)
				ev.Res = []*Term{a, b}
				return mk(Term{Op: "tuple", Args: ev.Res})
			}
			r := s.fresh("recv", in.Type(), ev)
			ev.Res = []*Term{r}
			return r
		}
	case *ssa.FieldAddr:
		st := deref(in.X.Type()).Underlying().(*types.Struct)
		return fieldAddr(en.val(s, in.X), st.Field(in.Field), in.Field)
	case *ssa.Field:
		x := en.val(s, in.X)
		if x.Typ == nil {
			st := in.X.Type().Underlying().(*types.Struct)
			return mk(Term{Op: "fld", Args: []*Term{x}, Obj: st.Field(in.Field), Typ: in.Type()})
		}
		return Field(x, in.Field)
	case *ssa.IndexAddr:
		x := en.val(s, in.X)
		// slicing a whole array or slice addresses the same cells
		if x.Op == "slice" && x.Args[1].Op == "nil" {
			x = x.Args[0]
		}
		return mk(Term{Op: "ia", Args: []*Term{x, en.val(s, in.Index)}, Typ: in.Type()})
	case *ssa.Index:
		x, i := en.val(s, in.X), en.val(s, in.Index)
		if n, ok := i.IsInt(); ok && n >= 0 {
			if x.Op == "list" && int(n) < len(x.Args) {
				return x.Args[n]
			}
			if l := parts2(x); int(n) < len(l) {
				return l[n]
			}
		}
		return mk(Term{Op: "elem", Args: []*Term{x, i}, Typ: in.Type()})
	case *ssa.Lookup:
		x, k := en.val(s, in.X), en.val(s, in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			return mk(Term{Op: "elem", Args: []*Term{x, k}, Typ: in.Type()})
		}
		k = en.canonKey(s, x, k)
		ev := s.emit(&Event{Kind: "mapget", Addr: x, Args: []*Term{k}, Pos: in.Pos(), Instr: in})
		if c, ok := s.mem["map|"+x.K+"|"+k.K]; ok {
			ev.Res = []*Term{c.Val, True}
			if in.CommaOk {
				return mk(Term{Op: "tuple", Args: ev.Res})
			}
			return c.Val
		}
		mt := in.X.Type().Underlying().(*types.Map)
		val := mk(Term{Op: "mapelem", Args: []*Term{x, k}, Typ: mt.Elem()})
		okT := mk(Term{Op: "maphas", Args: []*Term{x, k}, Typ: types.Typ[types.Bool]})
		if x.Op == "mkmap" && (en.Alias || !s.mapWritten(x)) {
			val, okT = Zero(mt.Elem()), False
		}
		ev.Res = []*Term{val, okT}
		if in.CommaOk {
			return mk(Term{Op: "tuple", Args: ev.Res})
		}
		return val
	case *ssa.Extract:
		x := en.val(s, in.Tuple)
		if x.Op == "tuple" && in.Index < len(x.Args) {
			return x.Args[in.Index]
		}
		return mk(Term{Op: "extract", Args: []*Term{x}, N: in.Index + 1, Typ: in.Type(), Ev: x.Ev})
	case *ssa.ChangeType:
		return retype(en.val(s, in.X), in.Type())
	case *ssa.Convert:
		x := en.val(s, in.X)
		from, to := in.X.Type(), in.Type()
		if isIntType(from) && isIntType(to) {
			if _, c := x.IsInt(); !c && intSize(to) < intSize(from) {
				return mk(Term{Op: "conv", Name: "narrow:" + to.Underlying().String(), Args: []*Term{x}, Typ: to, Ev: x.Ev})
			}
			return x
		}
		if types.Identical(from.Underlying(), to.Underlying()) {
			return retype(x, to)
		}
		if x.Op == "const" && x.Name == "f" && isIntType(to) {
			if n, ok := constant.Int64Val(constant.ToInt(x.Val)); ok {
				return Int(n)
			}
		}
		return mk(Term{Op: "conv", Name: convName(from, to), Args: []*Term{s.snapshot(x)}, Typ: to, Ev: x.Ev})
	case *ssa.ChangeInterface:
		return en.val(s, in.X)
	case *ssa.MakeInterface:
		return mk(Term{Op: "iface", Args: []*Term{en.val(s, in.X)}, Typ: in.X.Type()})
	case *ssa.TypeAssert:
		x := en.val(s, in.X)
		res := x
		ok := s.fresh("isT", types.Typ[types.Bool], nil)
		if x.Op == "iface" {
			if types.Identical(x.Typ, in.AssertedType) {
				res, ok = x.Args[0], True
			} else if !types.IsInterface(in.AssertedType) {
				res, ok = Zero(in.AssertedType), False
			}
		} else if !types.IsInterface(in.AssertedType) {
			res = mk(Term{Op: "as", Name: in.AssertedType.String(), Args: []*Term{x}, Typ: in.AssertedType, Ev: x.Ev})
		}
		if in.CommaOk {
			return mk(Term{Op: "tuple", Args: []*Term{res, ok}})
		}
		return res
	case *ssa.MakeClosure:
		var b []*Term
		for _, x := range in.Bindings {
			b = append(b, en.val(s, x))
		}
		return mk(Term{Op: "closure", Fn: in.Fn.(*ssa.Function), Args: b, Typ: in.Type()})
	case *ssa.MakeSlice:
		s.n++
		l := en.val(s, in.Len)
		if n, ok := l.IsInt(); ok && n == 0 {
			return mk(Term{Op: "list", Typ: in.Type()})
		}
		return mk(Term{Op: "mkslice", Args: []*Term{l}, N: s.n*1000 + len(s.events)%1000 + 1, Typ: in.Type()})
	case *ssa.MakeMap:
		s.n++
		return mk(Term{Op: "mkmap", N: s.n*1000 + len(s.events)%1000 + 1, Typ: in.Type()})
	case *ssa.MakeChan:
		s.n++
		return mk(Term{Op: "mkchan", Args: []*Term{en.val(s, in.Size)}, N: s.n*1000 + len(s.events)%1000 + 1, Typ: in.Type()})
	case *ssa.Slice:
		x := en.val(s, in.X)
		g := func(v ssa.Value) *Term {
			if v == nil {
				return Nil
			}
			return en.val(s, v)
		}
		lo, hi := g(in.Low), g(in.High)
		if n, ok := lo.IsInt(); ok && n == 0 {
			lo = Nil
		}
		if hi.Op == "len" && len(hi.Args) == 1 && hi.Args[0] == x {
			hi = Nil
		}
		switch in.X.Type().Underlying().(type) {
		case *types.Slice, *types.Basic:
			if lo == Nil && hi == Nil {
				return x // all of it
			}
		}
		if x.Op == "list" {
			a, ok1 := bound(lo, 0)
			b, ok2 := bound(hi, int64(len(x.Args)))
			if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(x.Args)) {
				return mk(Term{Op: "list", Args: x.Args[a:b], Typ: in.Type()})
			}
		}
		if n, ok := hi.IsInt(); ok && n == 0 {
			if _, isSlice := in.X.Type().Underlying().(*types.Slice); isSlice {
				// x[:0]: an empty slice that reuses x's storage
				return mk(Term{Op: "list", Typ: in.Type(), Name: "reuse"})
			}
		}
		if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "makeslice" {
			if n, ok := hi.IsInt(); ok && n == 0 {
				return mk(Term{Op: "list", Typ: in.Type()}) // make([]T, 0, cap)
			}
		}
		t := mk(Term{Op: "slice", Args: []*Term{x, lo, hi}, Typ: in.Type()})
		// composite literals: freeze when every element was stored
		if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "slicelit" || ok && al.Comment == "varargs" {
			return s.snapshot(t)
		}
		return t
	case *ssa.Range:
		return mk(Term{Op: "range", Args: []*Term{en.val(s, in.X)}, N: s.n*1000 + len(s.events)%1000 + 1})
	case *ssa.Next:
		it := en.val(s, in.Iter)
		if it.Args[0].Op == "mkmap" && (en.Alias || literalMap(in)) {
			// the contents of a map made on this path are known
			m, c := it.Args[0], s.mem["rng|"+it.K]
			if c == nil {
				l := mk(Term{Op: "list", Args: s.siblingKeys(m, nil)})
				c = &Cell{mk(Term{Op: "rng", Args: []*Term{it}}), l}
			}
			tt := in.Type().(*types.Tuple)
			res := []*Term{False, Zero0(tt.At(1).Type()), Zero0(tt.At(2).Type())}
			if len(c.Val.Args) > 0 {
				k := c.Val.Args[0]
				c = &Cell{c.Addr, mk(Term{Op: "list", Args: c.Val.Args[1:]})}
				res = []*Term{True, k, s.mem["map|"+m.K+"|"+k.K].Val}
			}
			s.mem["rng|"+it.K] = c
			s.emit(&Event{Kind: "next", Addr: m, Res: res, Pos: in.Pos(), Instr: in})
			return mk(Term{Op: "tuple", Args: res})
		}
		ev := s.emit(&Event{Kind: "next", Addr: it.Args[0], Pos: in.Pos(), Instr: in})
		tt := in.Type().(*types.Tuple)
		ok := s.fresh("next", types.Typ[types.Bool], ev)
		kt := tt.At(1).Type()
		vt := tt.At(2).Type()
		k, val := s.fresh("k", kt, ev), s.fresh("v", vt, ev)
		if _, isMap := it.Args[0].Typ.Underlying().(*types.Map); isMap {
			mt := it.Args[0].Typ.Underlying().(*types.Map)
			k = s.fresh("k", mt.Key(), ev)
			val = mk(Term{Op: "mapelem", Args: []*Term{it.Args[0], k}, Typ: mt.Elem()})
		}
		ev.Res = []*Term{ok, k, val}
		return mk(Term{Op: "tuple", Args: ev.Res})
	case *ssa.SliceToArrayPointer:
		return en.val(s, in.X)
	}
	return s.fresh("v."+v.Name(), v.Type(), nil)
}

// literalMap: what is iterated over is a map that is only filled under constant keys and
// read in the function that makes it.
func literalMap(in *ssa.Next) bool {
	r, ok := in.Iter.(*ssa.Range)
	if !ok {
		return false
	}
	m, ok := r.X.(*ssa.MakeMap)
	if !ok {
		return false
	}
	for _, u := range *m.Referrers() {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			if _, ok := u.Key.(*ssa.Const); !ok || u.Map != m || u.Value == m {
				return false
			}
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (s *state) mapWritten(m *Term) bool {
	for k := range s.mem {
		if strings.HasPrefix(k, "map|"+m.K+"|") {
			return true
		}
	}
	return false
}

func retype(t *Term, typ types.Type) *Term {
	if t.Op == "closure" || t.Op == "func" || t.Op == "lin" || t.Op == "const" || t.Op == "nil" {
		return t
	}
	return t
}

func intSize(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t.Underlying())
}

func convName(from, to types.Type) string {
	f := func(t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsInteger != 0:
				return "int"
			case u.Info()&types.IsFloat != 0:
				return "float"
			case u.Info()&types.IsString != 0:
				return "string"
			}
		case *types.Slice:
			return "bytes"
		}
		return "x"
	}
	return f(from) + "->" + f(to)
}

// beyond: a comparison of a growing length or counter with a constant that the bounded
// exploration cannot reach is left open, so that both of its outcomes are followed.
func (en *Engine) beyond(s *state, in *ssa.BinOp) *Term {
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
	default:
		return nil
	}
	for _, p := range in.Block().Preds {
		if in.Block().Dominates(p) {
			return nil // what ends a loop
		}
	}
	for _, o := range [2][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
		v, k := o[0], o[1]
		if !isIntType(k.Type()) {
			return nil
		}
		lim, ok1 := en.val(s, k).IsInt()
		n, ok2 := en.val(s, v).IsInt()
		if !ok1 || !ok2 || lim <= 4 || n >= lim {
			continue
		}
		var what *Term
		if c, ok := v.(*ssa.Call); ok {
			b, isB := c.Common().Value.(*ssa.Builtin)
			if !isB || b.Name() != "len" {
				continue
			}
			what = en.val(s, c.Common().Args[0])
			if what.Op != "list" || !grown(c.Common().Args[0]) {
				continue
			}
		} else if counts(v) {
			what = Int(n)
		} else {
			continue
		}
		return App("beyond", types.Typ[types.Bool], what, Int(lim), Str(in.Op.String()), Str(fmt.Sprint(in.Pos())))
	}
	return nil
}

// grown: the slice is not simply a literal of this function.
func grown(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Slice:
		return grown(v.X)
	case *ssa.Alloc:
		return v.Comment != "slicelit" && v.Comment != "varargs"
	case *ssa.Const:
		return false
	}
	return true
}

// counts: the variable is stepped by addition somewhere.
func counts(v ssa.Value) bool {
	step := func(x, self ssa.Value) bool {
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		if b.X == self {
			return true
		}
		l, ok := b.X.(*ssa.UnOp)
		return ok && l.Op == token.MUL && l.X == self
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if step(e, v) {
				return true
			}
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			if _, ok := v.Y.(*ssa.Const); ok {
				return counts(v.X)
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		switch c := v.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			for _, r := range *c.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == c && step(st.Val, c) {
					return true
				}
			}
		}
	}
	return false
}

func (en *Engine) binop(s *state, op token.Token, x, y *Term, xt, rt types.Type) *Term {
	isInt := isIntType(xt)
	switch op {
	case token.ADD:
		if isInt {
			if x.Op != "const" && y.Op != "const" {
				return Add(x, y)
			}
		}
		if a, ok := x.IsStr(); ok {
			if b, ok := y.IsStr(); ok {
				return Str(a + b)
			}
		}
		if a, ok := x.IsStr(); ok && a == "" {
			return y
		}
		if b, ok := y.IsStr(); ok && b == "" {
			return x
		}
		return App("+", rt, x, y)
	case token.SUB:
		if isInt && x.Op != "const" && y.Op != "const" {
			return Sub(x, y)
		}
		return App("-", rt, x, y)
	case token.MUL:
		if isInt {
			if n, ok := y.IsInt(); ok {
				return Scale(x, n)
			}
			if n, ok := x.IsInt(); ok {
				return Scale(y, n)
			}
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return App("*", rt, x, y)
	case token.EQL:
		return Eq(x, y, xt)
	case token.NEQ:
		return Not(Eq(x, y, xt))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt && x.Op != "const" && y.Op != "const" {
			switch op {
			case token.LSS:
				return Gt(y, x)
			case token.LEQ:
				return Ge(y, x)
			case token.GTR:
				return Gt(x, y)
			}
			return Ge(x, y)
		}
		if cx, cy := constVal(x), constVal(y); cx != nil && cy != nil {
			return Bool(constant.Compare(cx, op, cy))
		}
		switch op {
		case token.LSS:
			return App("flt", nil, x, y)
		case token.GTR:
			return App("flt", nil, y, x)
		case token.LEQ:
			return App("fle", nil, x, y)
		}
		return App("fle", nil, y, x)
	}
	if isInt {
		a, ok1 := x.IsInt()
		b, ok2 := y.IsInt()
		if ok1 && ok2 {
			switch op {
			case token.QUO:
				if b != 0 {
					return Int(a / b)
				}
			case token.REM:
				if b != 0 {
					return Int(a % b)
				}
			case token.AND:
				return Int(a & b)
			case token.OR:
				return Int(a | b)
			case token.XOR:
				return Int(a ^ b)
			case token.SHL:
				if b >= 0 && b < 63 && a>>uint(62-b) == 0 && a >= 0 {
					return Int(a << uint(b))
				}
			case token.SHR:
				if b >= 0 && b < 64 {
					return Int(a >> uint(b))
				}
			}
		}
		if op == token.SHL && ok2 && b >= 0 && b < 32 && isSigned(xt) {
			return Scale(x, 1<<uint(b))
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR:
		if x.ID > y.ID {
			x, y = y, x
		}
	}
	return App(op.String(), rt, x, y)
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// FieldOf is the value of a field of the object base points to.
func FieldOf(base *Term, f *types.Var) *Term {
	return mk(Term{Op: "fld", Args: []*Term{base}, Obj: f, Typ: f.Type()})
}

// LoadField reads a field of an object from the memory at the end of a path.
func (p *Path) LoadField(obj *Term, f *types.Var, idx int) *Term {
	s := &state{mem: p.Mem, havoc: map[string]*Event{}}
	return s.load(fieldAddr(obj, f, idx), f.Type())
}

// LenOf is the length of a slice, string or map value.
func LenOf(t *Term) *Term { return lenTerm(nil, t) }

// LoadElem reads element i of a slice object from a memory snapshot.
func LoadElem(mem map[string]*Cell, slice *Term, i int64) *Term {
	s := &state{mem: mem, havoc: map[string]*Event{}}
	for slice.Op == "slice" && len(slice.Args) > 0 {
		slice = slice.Args[0]
	}
	st, ok := slice.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return s.load(mk(Term{Op: "ia", Args: []*Term{slice, Int(i)}, Typ: types.NewPointer(st.Elem())}), st.Elem())
}

// LoadAt reads element i of a slice, or a field of it, from a memory snapshot.
func LoadAt(mem map[string]*Cell, slice, i *Term, sub *types.Var) *Term {
	s := &state{mem: mem, havoc: map[string]*Event{}}
	for slice.Op == "slice" && len(slice.Args) > 0 {
		slice = slice.Args[0]
	}
	st, ok := slice.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	a := mk(Term{Op: "ia", Args: []*Term{slice, i}, Typ: types.NewPointer(st.Elem())})
	if sub == nil {
		return s.load(a, st.Elem())
	}
	if str, ok := st.Elem().Underlying().(*types.Struct); ok {
		for n := 0; n < str.NumFields(); n++ {
			if str.Field(n) == sub {
				return s.load(fieldAddr(a, sub, n), sub.Type())
			}
		}
	}
	return nil
}

// WrittenAt lists the positions of a slice that hold explicit values.
func WrittenAt(mem map[string]*Cell, slice *Term) []*Term {
	s := &state{mem: mem}
	return s.siblings(mk(Term{Op: "ia", Args: []*Term{slice, mk(Term{Op: "none"})}}))
}

// LoadMem reads the value at an address from a memory snapshot.
func LoadMem(mem map[string]*Cell, addr *Term, typ types.Type) *Term {
	s := &state{mem: mem, havoc: map[string]*Event{}}
	return s.load(addr, typ)
}

// HeldField reports whether the lock in field f of obj is held at an event.
func (p *Path) HeldField(ev *Event, obj *Term, f *types.Var) bool {
	for _, a := range ev.Held {
		if a != nil && (a.Op == "fa" || a.Op == "fld") && a.Obj == types.Object(f) && a.Args[0] == obj {
			return true
		}
	}
	return false
}

// constVal is the numeric or string value of a constant term, or nil.
func constVal(t *Term) constant.Value {
	if n, ok := t.IsInt(); ok {
		return constant.MakeInt64(n)
	}
	if t.Op != "const" || t.Val == nil {
		return nil
	}
	switch t.Val.Kind() {
	case constant.Int, constant.Float, constant.String:
		return t.Val
	}
	return nil
}
