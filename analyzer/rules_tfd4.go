package main

import (
	"bufio"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

func init() { reg("T12", ruleT12) }

// argValue is the value an argument stands for: what it points to at the time of the call.
func argValue(ev *eng.Event, a *eng.Term) *eng.Term {
	a = a.Unwrap()
	if a.Typ == nil {
		return a
	}
	pt, ok := a.Typ.Underlying().(*types.Pointer)
	if !ok {
		return a
	}
	if a.Op == "ia" && a.Args[0].Op != "alloc" {
		if len(ev.Mem) == 0 {
			return eng.App("elem", pt.Elem(), a.Args...)
		}
	}
	return eng.LoadMem(ev.Mem, a, pt.Elem())
}

// loggers are the functions of the package that write records of the given type to the log.
type logger struct {
	f     *ssa.Function
	param int
	slice bool
}

func (c *Ctx) loggers(rec string) []logger {
	var out []logger
	t := c.typ(tfdPkg, rec)
	for _, f := range c.Funcs {
		if c.pkgOf(f) != sinksPkg || f.Parent() != nil || f.Signature.Recv() == nil || !f.Object().Exported() {
			continue
		}
		for i, p := range f.Params {
			if types.Identical(p.Type(), t) {
				out = append(out, logger{f, i, false})
			}
			if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), t) {
				out = append(out, logger{f, i, true})
			}
		}
	}
	return out
}

// written is a record handed to the log's writer.
type written struct {
	val *eng.Term
	err *eng.Term
	ev  *eng.Event
	to  *eng.Term
}

// writes lists the records encoded on a path.
func writes(p *eng.Path) []written {
	var out []written
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case ev.Name == "(*encoding/json.Encoder).Encode":
			w := written{val: argValue(ev, ev.Arg(0)), err: errOf(ev), ev: ev}
			if r := ev.Recv; r != nil && r.Ev != nil && r.Ev.Name == "encoding/json.NewEncoder" {
				w.to = r.Ev.Arg(0).Unwrap()
			}
			out = append(out, w)
		case hasSuffix(ev.Name, ".Write", ".WriteString") && len(ev.Args) == 1:
			var m *eng.Event
			nl := false
			ev.Arg(0).Derived(func(t *eng.Term) bool {
				if t.Ev != nil && t.Ev.Name == "encoding/json.Marshal" {
					m = t.Ev
				}
				n, ok := t.IsInt()
				nl = nl || ok && n == '\n'
				s, ok := t.IsStr()
				nl = nl || ok && s == "\n"
				return false
			})
			if m == nil {
				continue
			}
			for _, x := range p.Events[ev.Seq+1:] {
				if x.Kind != "call" || nl {
					break
				}
				if n, ok := x.Arg(0).IsInt(); hasSuffix(x.Name, ".WriteByte") && ok && n == '\n' && x.Recv == ev.Recv {
					nl = true
				}
				break
			}
			if nl {
				out = append(out, written{val: argValue(m, m.Arg(0)), err: errOf(ev), ev: ev, to: ev.Recv})
			}
		}
	}
	return out
}

func ruleT12(c *Ctx) {
	c.rule("write", "every record handed to a sink is encoded to the sink's writer once, in order and unchanged; a record is encoded again only after encoding it failed")
	c.rule("lock", "the sink's writer is used only with the sink's lock held")
	c.rule("flush", "Flush writes everything out; Close writes everything out and then closes the file; both report failure")
	c.rule("open", "the sink appends to the file at the given path and never truncates it")
	c.rule("read", "a reader returns every decodable line of the file in order, each decoded into a fresh record, and reports a read error")
	c.rule("format", "every field of a record survives being written and read back")
	c.rule("periodic", "a write that comes more than a tenth of a second after the last flush is flushed before it returns; only a flush restarts that time")
	for _, rec := range []string{"SBatch", "Envelope"} {
		c.roundTrip(c.typ(tfdPkg, rec), map[types.Type]bool{})
		ls := c.loggers(rec)
		c.must(len(ls) > 0, "sink:"+rec, "no sink writes "+rec+" records")
		owners := map[*types.Named]bool{}
		for _, l := range ls {
			if n := derefNamed(l.f.Signature.Recv().Type()); n != nil {
				owners[n] = true
			}
			c.logWrites(l)
		}
		for n := range owners {
			c.sinkLife(n)
		}
		for _, f := range c.Funcs {
			if c.pkgOf(f) != sinksPkg || f.Parent() != nil || f.Signature.Results().Len() != 2 {
				continue
			}
			s, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice)
			if ok && types.Identical(s.Elem(), c.typ(tfdPkg, rec)) {
				c.logReader(f)
			}
		}
	}
	c.min("write", 6)
	c.min("lock", 6)
	c.min("flush", 4)
	c.min("open", 2)
	c.min("read", 4)
	c.min("format", 8)
	c.min("periodic", 4)
}

func derefNamed(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// roundTrip: JSON keeps every field.
func (c *Ctx) roundTrip(t types.Type, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Struct:
		names := map[string]string{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			name := strings.Split(tag, ",")[0]
			if name == "" {
				name = f.Name()
			}
			c.check(f.Exported() && tag != "-" && !strings.Contains(tag, ",string") || f.Exported() && strings.Contains(tag, ",string"), "format", t.String()+"."+f.Name(), f.Pos(), "the field %s is not written to the log", f.Name())
			low := strings.ToLower(name)
			c.check(names[low] == "", "format", t.String()+"."+f.Name()+":name", f.Pos(), "the fields %s and %s are written under one name", names[low], f.Name())
			names[low] = f.Name()
			c.roundTrip(f.Type(), seen)
		}
	case *types.Array:
		c.roundTrip(u.Elem(), seen)
	case *types.Slice:
		c.roundTrip(u.Elem(), seen)
	case *types.Basic:
		c.check(u.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0, "format", t.String(), token.NoPos, "values of type %s do not survive JSON exactly", t)
	default:
		c.check(false, "format", t.String(), token.NoPos, "values of type %s do not survive JSON", t)
	}
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, m)
		c.check(o == nil, "format", t.String()+":"+m, token.NoPos, "%s has its own %s", t, m)
	}
}

// sinkWriter: the buffered writer and lock fields of a sink.
func (c *Ctx) sinkFields(n *types.Named) (w, file, lock *types.Var) {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().String() {
		case "*bufio.Writer":
			w = st.Field(i)
		case "*os.File":
			file = st.Field(i)
		case "sync.Mutex", "*sync.Mutex", "sync.RWMutex":
			lock = st.Field(i)
		}
	}
	return
}

func isFieldOf(t, obj *eng.Term, f *types.Var) bool {
	t = t.Unwrap()
	return t != nil && t.Op == "fld" && t.Args[0] == obj && t.Obj == types.Object(f)
}

func (c *Ctx) logWrites(l logger) {
	n := derefNamed(l.f.Signature.Recv().Type())
	w, _, lock := c.sinkFields(n)
	name := fname(l.f)
	if !c.check(w != nil && lock != nil, "lock", name+":fields", l.f.Pos(), "the sink has no writer or no lock") {
		return
	}
	e := c.engine()
	max := int64(2)
	if l.slice {
		e.Pre = func(ps []*eng.Term) []*eng.Term { return []*eng.Term{eng.Ge(eng.Int(max), eng.LenOf(ps[l.param]))} }
	}
	most := 0
	for _, p := range c.run(e, l.f, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		pos := retPos(p)
		in := p.Params[l.param]
		els := []*eng.Term{in}
		if l.slice {
			els = nil
			k := knownLen(p, in, max)
			if !c.check(k >= 0, "write", name+":input", pos, "on the path where %s not all records are looked at", c.cond(p)) {
				continue
			}
			for i := 0; i < k; i++ {
				els = append(els, eng.App("elem", in.Typ.Underlying().(*types.Slice).Elem(), in, eng.Int(int64(i))))
			}
		}
		if len(els) > most {
			most = len(els)
		}
		ws := writes(p)
		next := 0
		var last *written
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == "encoding/json.Marshal" && errNil(p, errOf(ev)) == -1 {
				v := argValue(ev, ev.Arg(0)) // a record that cannot be encoded
				for i, el := range els {
					if sameRec(v, el) {
						els = append(append([]*eng.Term(nil), els[:i]...), els[i+1:]...)
						break
					}
				}
			}
		}
		for i := range ws {
			x := &ws[i]
			c.check(isFieldOf(x.to, p.Params[0], w), "write", name+":writer", x.ev.Pos, "a record is not written to the sink's writer")
			c.check(p.HeldField(x.ev, p.Params[0], lock), "lock", name, x.ev.Pos, "a record is written without the sink's lock")
			if next < len(els) && sameRec(x.val, els[next]) {
				next++
				last = x
				continue
			}
			if last != nil && sameRec(x.val, last.val) {
				c.check(errNil(p, last.err) == -1, "write", name+":twice", x.ev.Pos, "a record that was written is written again (where %s)", c.cond(p))
				last = x
				continue
			}
			c.check(false, "write", name+":order", x.ev.Pos, "what is written is not the next record given: %s", x.val)
		}
		c.check(next == len(els), "write", name+":all", pos, "%d of %d records are written (where %s)", next, len(els), c.cond(p))
		if last != nil {
			c.periodic(p, n, w, last.ev, name, pos)
		}
	}
	c.check(most == 1 && !l.slice || most == int(max), "write", name+":covered", l.f.Pos(), "no path with records was decided")
}

// periodic: what was written is flushed, unless the last flush is recent.
func (c *Ctx) periodic(p *eng.Path, n *types.Named, w *types.Var, last *eng.Event, name string, pos token.Pos) {
	var since *eng.Term
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		if ev.Name == "(*bufio.Writer).Flush" && isFieldOf(ev.Recv, p.Params[0], w) && ev.Seq > last.Seq {
			c.check(true, "periodic", name, pos, "")
			return
		}
		stamp := func(t *eng.Term) bool {
			t = t.Unwrap()
			return t != nil && t.Op == "fld" && t.Args[0] == p.Params[0]
		}
		switch ev.Name {
		case "time.Since":
			if stamp(ev.Arg(0)) {
				since = ev.Res[0]
			}
		case "(time.Time).Sub":
			if stamp(ev.Arg(0)) {
				since = ev.Res[0]
			}
		}
	}
	c.check(since != nil && p.F.Eval(eng.Ge(eng.Int(int64(100*time.Millisecond)), since)) == 1, "periodic", name, pos, "records are left in the buffer although the last flush was longer than a tenth of a second ago (where %s)", c.cond(p))
}

// sameRec: the value written is the record, as a whole or field by field.
func sameRec(v, rec *eng.Term) bool {
	if v == rec {
		return true
	}
	if v == nil || v.Op != "struct" || v.Typ == nil || rec.Typ == nil || !types.Identical(v.Typ, rec.Typ) {
		return false
	}
	for i := range v.Args {
		if v.Args[i] != eng.Field(rec, i) && !sameRec(v.Args[i], eng.Field(rec, i)) {
			return false
		}
	}
	return true
}

// sinkLife: constructor, Flush and Close of a sink.
func (c *Ctx) sinkLife(n *types.Named) {
	w, file, lock := c.sinkFields(n)
	nm := n.Obj().Name()
	c.must(w != nil && file != nil && lock != nil, nm, "the sink has no writer, file or lock")
	for _, m := range []string{"Flush", "Close"} {
		f := c.mustFn(sinksPkg, nm+"."+m)
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			pos := retPos(p)
			var fl, cl *eng.Event
			for _, ev := range p.Events {
				if ev.Kind != "call" {
					continue
				}
				switch {
				case ev.Name == "(*bufio.Writer).Flush" && isFieldOf(ev.Recv, p.Params[0], w):
					c.check(cl == nil, "flush", nm+"."+m+":order", ev.Pos, "the buffer is written out after the file was closed")
					c.check(p.HeldField(ev, p.Params[0], lock), "lock", nm+"."+m, ev.Pos, "the buffer is written out without the sink's lock")
					fl = ev
				case ev.Name == "(*os.File).Close" && isFieldOf(ev.Recv, p.Params[0], file):
					c.check(p.HeldField(ev, p.Params[0], lock), "lock", nm+"."+m+":close", ev.Pos, "the file is closed without the sink's lock")
					cl = ev
				}
			}
			if !c.check(fl != nil, "flush", nm+"."+m+":flush", pos, "%s returns without writing the buffer out (where %s)", m, c.cond(p)) {
				continue
			}
			evs := []*eng.Event{fl}
			if m == "Close" {
				if !c.check(cl != nil, "flush", nm+"."+m+":close", pos, "Close returns without closing the file (where %s)", c.cond(p)) {
					continue
				}
				evs = append(evs, cl)
			}
			if j := retErr(p); joined(j) {
				in := func(x *eng.Term) bool {
					l, _ := eng.ListOf(j.Ev.Arg(0))
					for _, y := range l {
						if y == x {
							return true
						}
					}
					return false
				}
				for _, ev := range evs {
					c.check(in(errOf(ev)), "flush", nm+"."+m+":error", pos, "%s does not report the failure of a call", m)
				}
				continue
			}
			// success exactly when every call succeeded
			ret := retErr(p)
			for _, ok := range []bool{true, false} {
				f := p.F.Clone()
				if !f.Assume(eng.Eq(ret, eng.Nil, nil), ok) || errNil(p, ret) != 0 && (errNil(p, ret) == 1) != ok {
					continue
				}
				all := 1
				for _, ev := range evs {
					all = and3(all, f.Eval(eng.Eq(errOf(ev), eng.Nil, nil)))
				}
				c.check(ok && all == 1 || !ok && (all == -1 || len(evs) == 1), "flush", nm+"."+m+":error", pos, "%s does not report failure exactly when a call failed (where %s)", m, c.cond(p))
			}
		}
	}
	// the time of the last flush
	for _, f := range c.Funcs {
		if c.pkgOf(f) != sinksPkg || f.Parent() != nil || f.Signature.Recv() == nil || derefNamed(f.Signature.Recv().Type()) != n {
			continue
		}
		e := c.engine()
		e.MaxIter = 1
		for _, p := range c.run(e, f, nil, nil, nil) {
			if p.End != "return" {
				continue
			}
			var set *eng.Event
			flushed := false
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "store" && ev.Addr != nil && ev.Addr.Obj != nil && ev.Addr.Obj.Type().String() == "time.Time":
					set = ev
				case ev.Kind == "call" && ev.Name == "(*bufio.Writer).Flush":
					flushed = true
				}
			}
			if set != nil {
				c.check(flushed, "periodic", fname(f)+":time", set.Pos, "the time of the last flush is restarted without a flush (where %s)", c.cond(p))
			}
		}
	}
	// constructor
	for _, f := range c.Funcs {
		if c.pkgOf(f) != sinksPkg || f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || derefNamed(f.Signature.Results().At(0).Type()) != n {
			continue
		}
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			if p.End != "return" || errNil(p, retErr(p)) != 1 {
				continue
			}
			pos := retPos(p)
			obj := p.Ret[0]
			wr := p.LoadField(obj, w, fieldIndex(n, w))
			fl := p.LoadField(obj, file, fieldIndex(n, file))
			var open *eng.Event
			if fl.Ev != nil && fl.Ev.Name == "os.OpenFile" {
				open = fl.Ev
			}
			if !c.check(open != nil, "open", nm+":open", pos, "the sink's file is not one opened for appending") {
				continue
			}
			flags, ok := open.Arg(1).IsInt()
			c.check(ok && flags&int64(0x400) != 0 && flags&0x40 != 0 && flags&0x200 == 0 && flags&3 != 0, "open", nm+":flags", open.Pos, "the file is not opened for appending, created when missing, without truncating it (flags %s)", open.Arg(1))
			c.check(open.Arg(0) == p.Params[0], "open", nm+":path", open.Pos, "the file opened is not the one asked for")
			c.check(errNil(p, errOf(open)) == 1, "open", nm+":error", pos, "the sink is returned although opening its file failed")
			c.check(wr.Ev != nil && hasSuffix(wr.Ev.Name, "bufio.NewWriter", "bufio.NewWriterSize") && wr.Ev.Arg(0).Unwrap() == fl, "open", nm+":writer", pos, "the sink's writer does not write to the file")
		}
	}
}

func joined(t *eng.Term) bool { return t != nil && t.Ev != nil && t.Ev.Name == "errors.Join" }

// logReader: a reader of a log.
func (c *Ctx) logReader(f *ssa.Function) {
	name := fname(f)
	e := c.engine()
	e.MaxIter = 2
	decoded := false
	for _, p := range c.run(e, f, nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		pos := retPos(p)
		var scan, dec, last, closed *eng.Event
		limit := int64(bufio.MaxScanTokenSize)
		var want []*eng.Event
		allocs := map[*eng.Term]bool{}
		pending := false
		bad := false
		end := func() {
			if pending {
				bad = true
			}
		}
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Name {
			case "(*os.File).Close":
				closed = ev
			case "(*bufio.Scanner).Buffer":
				if n, ok := ev.Arg(1).IsInt(); ok {
					limit = n
				}
			case "(*bufio.Scanner).Scan":
				end()
				scan = ev
				c.check(closed == nil, "read", name+":closed", ev.Pos, "the file is closed before it is read")
				c.check(limit >= 8<<20, "read", name+":long", ev.Pos, "a line of more than %d bytes, which the sink writes for a long key, ends the reading", limit)
				src := ev.Recv
				good := src != nil && src.Ev != nil && src.Ev.Name == "bufio.NewScanner" && src.Ev.Arg(0) != nil
				if good {
					o := src.Ev.Arg(0).Unwrap()
					good = o.Ev != nil && hasSuffix(o.Ev.Name, "os.Open", "os.OpenFile") && o.Ev.Arg(0) == p.Params[0]
				}
				c.check(good, "read", name+":path", ev.Pos, "what is read is not the file at the given path")
				pending = p.F.Eval(ev.Res[0]) == 1
			case "encoding/json.Unmarshal":
				dec = ev
				a := ev.Arg(0)
				c.check(scan != nil && a.Ev != nil && hasSuffix(a.Ev.Name, "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text") && a.Ev.Seq > scan.Seq || isTextOf(a, scan), "read", name+":line", ev.Pos, "what is decoded is not the line just read")
				o := ev.Arg(1).Unwrap()
				c.check(!allocs[o], "read", name+":fresh", ev.Pos, "lines are decoded into one record, which keeps fields of the line before")
				allocs[o] = true
				pending = false
				if errNil(p, errOf(ev)) == 1 {
					want = append(want, ev)
				}
			case "(*bufio.Scanner).Err":
				last = ev
			}
		}
		end()
		c.check(!bad, "read", name+":skipped", pos, "a line is skipped (where %s)", c.cond(p))
		if scan == nil {
			c.check(errNil(p, retErr(p)) == -1, "read", name+":open", pos, "the reader succeeds without having read the file (where %s)", c.cond(p))
			continue
		}
		c.check(closed != nil, "read", name+":leak", pos, "the file is left open (where %s)", c.cond(p))
		c.check(p.F.Eval(scan.Res[0]) == -1, "read", name+":end", pos, "reading stops before the end of the file (where %s)", c.cond(p))
		re := retErr(p)
		c.check(last != nil && last.Seq > scan.Seq && (re == errOf(last) || errNil(p, errOf(last)) == 1 && errNil(p, re) == 1 || errNil(p, errOf(last)) == -1 && errNil(p, re) == -1), "read", name+":error", pos, "a read error is not reported (where %s)", c.cond(p))
		l, ok := eng.ListOf(p.Ret[0])
		good := ok && len(l) == len(want)
		for i := range l {
			good = good && l[i].Derived(func(t *eng.Term) bool { return t.Ev == want[i] })
		}
		c.check(good, "read", name+":all", pos, "the records returned are not those decoded (where %s)", c.cond(p))
		decoded = decoded || len(want) == 2
		_ = dec
	}
	c.check(decoded, "read", name+":covered", f.Pos(), "no path with decoded lines was decided")
}

func isTextOf(a *eng.Term, scan *eng.Event) bool {
	return a.Op == "conv" && a.Args[0].Ev != nil && scan != nil && hasSuffix(a.Args[0].Ev.Name, "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes") && a.Args[0].Ev.Seq > scan.Seq
}
