package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

const persPkg = "internal/ratelimiter/persistence"

func init() {
	reg("P01", ruleP01)
	reg("P02", ruleP02)
	reg("P03", ruleP03)
	reg("P04", ruleP04)
	reg("P05", ruleP05)
	reg("P06", ruleP06)
	reg("P07", ruleP07)
	reg("P08", ruleP08)
	reg("P09", ruleP09)
	reg("P10", ruleP10)
	reg("P11", ruleP11)
}

// adapter is one implementation of the idempotent persister.
type adapter struct {
	typ     *types.Named
	fn      *ssa.Function
	kind    string // sql eval produce
	paths   []*eng.Path
	entries *eng.Term
	ctx     *eng.Term
}

var adapterCache = map[*Prog]map[bool][]*adapter{}

// adapters lists the types of the persistence package that commit batches of entries.
func (c *Ctx) adapters() []*adapter {
	if adapterCache[c.Prog] == nil {
		adapterCache[c.Prog] = map[bool][]*adapter{}
	}
	if as, ok := adapterCache[c.Prog][c.Thorough]; ok {
		for _, a := range as {
			c.nPaths += len(a.paths)
			c.funcs[eng.FuncName(a.fn)] = true
		}
		return as
	}
	entry := c.typ(persPkg, "CommitEntry")
	c.must(entry != nil, persPkg+".CommitEntry", "the entry type does not exist")
	var out []*adapter
	for _, f := range c.Funcs {
		if f.Parent() != nil || c.pkgOf(f) != persPkg || f.Name() != "CommitBatch" || f.Signature.Recv() == nil || len(f.Params) != 3 {
			continue
		}
		sl, ok := f.Params[2].Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), entry) {
			continue
		}
		rt := f.Signature.Recv().Type()
		if pt, ok := rt.(*types.Pointer); ok {
			rt = pt.Elem()
		}
		nt, _ := rt.(*types.Named)
		if nt == nil {
			continue
		}
		a := &adapter{typ: nt, fn: f}
		a.paths = c.run(c.engine(), f, nil, nil, nil)
		for _, p := range a.paths {
			a.entries, a.ctx = p.Params[2], p.Params[1]
			for _, ev := range p.Events {
				if k := effectKind(ev); k != "" && a.kind == "" {
					a.kind = k
				}
			}
		}
		out = append(out, a)
	}
	kinds := map[string]int{}
	for _, a := range out {
		kinds[a.kind]++
	}
	for _, k := range []string{"sql", "eval", "produce"} {
		c.must(kinds[k] > 0, "adapter:"+k, "no adapter that commits entries by "+k+" was found")
	}
	c.must(kinds[""] == 0, "adapter:unknown", "an adapter whose way of writing is not recognised")
	sort.Slice(out, func(i, j int) bool { return out[i].typ.Obj().Name() < out[j].typ.Obj().Name() })
	adapterCache[c.Prog][c.Thorough] = out
	return out
}

// effectKind classifies a call that reaches the backend.
func effectKind(ev *eng.Event) string {
	if ev.Kind != "call" {
		return ""
	}
	switch ev.Name {
	case "(*database/sql.Tx).ExecContext", "(*database/sql.Tx).Exec", "(*database/sql.DB).ExecContext", "(*database/sql.DB).Exec", "(*database/sql.Conn).ExecContext",
		"(*database/sql.Tx).QueryRowContext", "(*database/sql.Tx).QueryContext", "(*database/sql.DB).QueryRowContext", "(*database/sql.DB).QueryContext", "(*database/sql.Stmt).ExecContext", "(*database/sql.Stmt).Exec":
		return "sql"
	}
	if strings.HasPrefix(ev.Name, "(vsa/"+persPkg+".RedisEvaler).") {
		return "eval"
	}
	if strings.HasPrefix(ev.Name, "(vsa/"+persPkg+".KafkaProducer).") {
		return "produce"
	}
	return ""
}

// entryOf is the entry a value is taken from.
func entryOf(t, entries *eng.Term) *eng.Term {
	var r *eng.Term
	if t != nil {
		t.Walk(func(x *eng.Term) bool {
			if x.Op == "elem" && x.Args[0] == entries {
				r = x
			}
			return r == nil
		})
	}
	return r
}

// entryField: t is field name of an entry.
func entryField(t, entries *eng.Term, name string) bool {
	t = stripConv(stripAs(t))
	return t != nil && t.Op == "fld" && t.Obj != nil && t.Obj.Name() == name && t.Args[0].Op == "elem" && t.Args[0].Args[0] == entries
}

// entriesOf lists the entries an event's arguments are taken from.
func entriesOf(ev *eng.Event, entries *eng.Term) []*eng.Term {
	seen := map[*eng.Term]bool{}
	var out []*eng.Term
	for _, a := range ev.Args {
		a.Derived(func(x *eng.Term) bool {
			if x.Op == "elem" && x.Args[0] == entries && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
			return false
		})
	}
	return out
}

func (c *Ctx) commitID(el *eng.Term) *eng.Term { return eng.FieldNamed(el, "CommitID") }

// idEmpty: 1 the entry's id is empty on the path, -1 it is not.
func (c *Ctx) idEmpty(p *eng.Path, el *eng.Term) int {
	id := c.commitID(el)
	if id == nil {
		return 0
	}
	if v := p.F.Eval(eng.Eq(id, eng.Str(""), types.Typ[types.String])); v != 0 {
		return v
	}
	return p.F.Eval(eng.Eq0(eng.LenOf(id)))
}

// batchSize is the number of entries on a path, -1 when not decided.
func batchSize(p *eng.Path, entries *eng.Term) int {
	for k := 0; k <= 6; k++ {
		if p.F.Eval(eng.Eq(eng.LenOf(entries), eng.Int(int64(k)), types.Typ[types.Int])) == 1 {
			return k
		}
	}
	return -1
}

// element k of the entries parameter.
func elemAt(p *eng.Path, entries *eng.Term, k int) *eng.Term {
	var r *eng.Term
	look := func(t *eng.Term) {
		if t == nil || r != nil {
			return
		}
		t.Walk(func(x *eng.Term) bool {
			if x.Op == "elem" && x.Args[0] == entries {
				if n, ok := x.Args[1].IsInt(); ok && n == int64(k) {
					r = x
				}
			}
			return r == nil
		})
	}
	for _, ev := range p.Events {
		for _, a := range ev.Args {
			look(a)
			if els, ok := eng.ListOf(a); ok {
				for _, e := range els {
					look(stripAs(e))
				}
			}
		}
	}
	for _, l := range p.Log {
		look(l.Cond)
	}
	return r
}

// errOf is the error result of a call.
func errOf(ev *eng.Event) *eng.Term {
	for i := len(ev.Res) - 1; i >= 0; i-- {
		if ev.Res[i].Typ != nil && ev.Res[i].Typ.String() == "error" {
			return ev.Res[i]
		}
	}
	return nil
}

// retErr is the returned error.
func retErr(p *eng.Path) *eng.Term {
	if len(p.Ret) == 0 {
		return nil
	}
	return p.Ret[len(p.Ret)-1]
}

// ---- statements of the SQL adapter ----

type sqlExec struct {
	ev   *eng.Event
	st   *sqlStmt
	args []*eng.Term
	err  string
}

func (c *Ctx) execs(p *eng.Path) []sqlExec {
	var out []sqlExec
	for _, ev := range p.Events {
		if effectKind(ev) != "sql" {
			continue
		}
		x := sqlExec{ev: ev}
		i := 0
		for i < len(ev.Args) {
			if _, ok := ev.Args[i].IsStr(); ok {
				break
			}
			i++
		}
		if i >= len(ev.Args) {
			x.err = "the statement is not a constant"
		} else {
			q, _ := ev.Args[i].IsStr()
			st, err := parseSQL(q)
			if err != nil {
				x.err = err.Error()
			}
			x.st = st
			if i+1 < len(ev.Args) {
				if els, ok := eng.ListOf(ev.Args[i+1]); ok {
					for _, e := range els {
						x.args = append(x.args, stripAs(e))
					}
				}
			}
		}
		out = append(out, x)
	}
	return out
}

func (x sqlExec) arg(n *sqlNode) *eng.Term {
	if n != nil && n.op == "param" && n.n >= 1 && n.n <= len(x.args) {
		return x.args[n.n-1]
	}
	return nil
}

func (x sqlExec) col(name string) *sqlNode {
	for i, cn := range x.st.cols {
		if cn == name && i < len(x.st.vals) {
			return x.st.vals[i]
		}
	}
	return nil
}

// role: marker, create, scalar, token or ?.
func (x sqlExec) role() string {
	if x.st == nil {
		return "?"
	}
	switch {
	case x.st.verb == "insert" && x.st.table == "applied_commits":
		return "marker"
	case x.st.verb == "insert" && x.st.table == "counters":
		return "create"
	case x.st.verb == "update" && x.st.table == "counters":
		_, s := x.st.set["scalar"]
		_, t := x.st.set["last_token"]
		switch {
		case s && t:
			return "scalar+token"
		case s:
			return "scalar"
		case t:
			return "token"
		}
	}
	return "?"
}

// whereKey: the statement is limited to one key; other conjuncts are returned.
func (x sqlExec) whereKey() (*eng.Term, []*sqlNode) {
	var key *eng.Term
	var rest []*sqlNode
	for _, n := range conjuncts(x.st.where) {
		if n.op == "bin" && n.s == "=" {
			a, b := n.kids[0], n.kids[1]
			if b.op == "col" {
				a, b = b, a
			}
			if a.op == "col" && a.s == "key" && b.op == "param" && key == nil {
				key = x.arg(b)
				continue
			}
		}
		rest = append(rest, n)
	}
	return key, rest
}

// affected: whether the statement is known to have changed a row (1) or none (-1), and the
// RowsAffected event that says so.
func affected(p *eng.Path, ev *eng.Event) (int, *eng.Event) {
	for _, r := range p.Events {
		if r.Kind == "call" && strings.HasSuffix(r.Name, "database/sql.Result).RowsAffected") && len(ev.Res) > 0 && r.Recv == ev.Res[0] {
			n := r.Res[0]
			if v := p.F.Eval(eng.Eq0(n)); v != 0 {
				return -v, r
			}
			if p.F.Eval(eng.Gt(n, eng.Int(0))) == 1 {
				return 1, r
			}
			if p.F.Eval(eng.Gt(n, eng.Int(0))) == -1 {
				return -1, r
			}
			return 0, r
		}
	}
	return 0, nil
}

// ---- P01: idempotence ----

func ruleP01(c *Ctx) {
	c.rule("sql-marker-gates", "a counter row is changed for an entry only after its marker row was inserted by this transaction and the insert reported a new row; an entry whose marker was new is applied exactly once before a successful return")
	c.rule("sql-duplicate-noop", "when the marker insert reports no new row nothing is changed for the entry")
	c.rule("script-marker-gates", "on every path of the Redis script the counter is changed exactly once if the marker was newly set and not at all otherwise, and the marker is set in the same script")
	c.rule("script-keys", "the script gets the entry's counter key and a marker key built from its key and its commit id")
	c.rule("message-id", "every produced message carries the entry's commit id as its key")
	for _, a := range c.adapters() {
		switch a.kind {
		case "sql":
			c.sqlIdempotent(a)
		case "eval":
			c.scriptIdempotent(a)
		case "produce":
			n := 0
			for _, p := range a.paths {
				for _, ev := range p.Events {
					if effectKind(ev) != "produce" {
						continue
					}
					n++
					k := stripConv(ev.Arg(2))
					ok := entryField(k, a.entries, "CommitID")
					c.check(ok, "message-id", fname(a.fn)+":key", ev.Pos, "the message key is %s", ev.Arg(2))
				}
			}
			c.check(n > 0, "message-id", fname(a.fn)+":produced", a.fn.Pos(), "nothing is produced")
		}
	}
}

func (c *Ctx) sqlIdempotent(a *adapter) {
	fn := fname(a.fn)
	applied := 0
	for _, p := range a.paths {
		if p.End != "return" {
			continue
		}
		xs := c.execs(p)
		marker := map[*eng.Term]*sqlExec{}
		count := map[*eng.Term]int{}
		for i := range xs {
			x := &xs[i]
			if x.err != "" {
				c.fail("sql-marker-gates", fn+":statement", x.ev.Pos, "a statement could not be decided: %s", x.err)
				continue
			}
			switch r := x.role(); r {
			case "marker":
				el := entryOf(x.arg(x.col("commit_id")), a.entries)
				ok := el != nil && entryField(x.arg(x.col("commit_id")), a.entries, "CommitID")
				c.check(ok, "sql-marker-gates", fn+":marker-id", x.ev.Pos, "the marker row does not carry the entry's commit id")
				c.check(x.st.conflict == "nothing", "sql-marker-gates", fn+":marker-conflict", x.ev.Pos, "the marker insert does not ignore an existing row")
				if el != nil {
					c.check(marker[el] == nil, "sql-marker-gates", fn+":marker-once", x.ev.Pos, "two markers are inserted for one entry")
					marker[el] = x
				}
			case "scalar", "token", "scalar+token":
				k, _ := x.whereKey()
				el := entryOf(k, a.entries)
				if el == nil {
					c.fail("sql-marker-gates", fn+":target", x.ev.Pos, "a counter update is not limited to the entry's key")
					continue
				}
				m := marker[el]
				if !c.check(m != nil, "sql-marker-gates", fn+":"+r+":marker-first", x.ev.Pos, "the counter of an entry is changed before its marker was inserted: %s", c.cond(p)) {
					continue
				}
				st, ra := affected(p, m.ev)
				c.check(st == 1 && ra != nil && ra.Seq < x.ev.Seq, "sql-marker-gates", fn+":"+r+":new-marker", x.ev.Pos, "the counter is changed without knowing that the marker was new (rows affected: %s): %s", tv(st), c.cond(p))
				c.check(m.ev.Recv == x.ev.Recv, "sql-marker-gates", fn+":"+r+":same-tx", x.ev.Pos, "marker and update use different connections")
				if r != "token" {
					count[el]++
				}
			case "create":
			default:
				c.fail("sql-marker-gates", fn+":unknown-statement", x.ev.Pos, "the adapter issues a statement this rule does not know")
			}
		}
		for el, n := range count {
			c.check(n == 1, "sql-marker-gates", fn+":applied-once", a.fn.Pos(), "entry %s is applied %d times: %s", el, n, c.cond(p))
		}
		if errNil(p, retErr(p)) != -1 {
			for el, m := range marker {
				st, _ := affected(p, m.ev)
				switch st {
				case 1:
					applied++
					c.check(count[el] == 1, "sql-marker-gates", fn+":new-applied", m.ev.Pos, "an entry whose marker is new is not applied: %s", c.cond(p))
				case -1:
					c.check(count[el] == 0, "sql-duplicate-noop", fn+":known-skipped", m.ev.Pos, "an entry that was already applied is applied again: %s", c.cond(p))
				default:
					c.fail("sql-marker-gates", fn+":unread", m.ev.Pos, "success is reported without reading whether the marker was new: %s", c.cond(p))
				}
			}
		}
	}
	c.check(applied > 0, "sql-marker-gates", fn+":applies", a.fn.Pos(), "no path applies an entry")
}

// goKeys splits the Go side of a script call: script text, keys, args.
func scriptCall(ev *eng.Event) (script string, keys, args []*eng.Term, ok bool) {
	script, ok = ev.Arg(1).IsStr()
	if !ok {
		return
	}
	k, ok1 := eng.ListOf(ev.Arg(2))
	v, ok2 := eng.ListOf(ev.Arg(3))
	if !ok1 || !ok2 {
		return script, nil, nil, false
	}
	for _, x := range k {
		keys = append(keys, stripAs(x))
	}
	for _, x := range v {
		args = append(args, stripAs(x))
	}
	return script, keys, args, true
}

// keyOfVal maps a script value to the Go value passed for it.
func luaGo(v *luaVal, keys, args []*eng.Term) *eng.Term {
	switch v.op {
	case "key":
		if i := int(v.n) - 1; i >= 0 && i < len(keys) {
			return keys[i]
		}
	case "argv":
		if i := int(v.n) - 1; i >= 0 && i < len(args) {
			return args[i]
		}
	}
	return nil
}

// luaDelta is a script number as a Go term.
func luaDelta(v *luaVal, args []*eng.Term) *eng.Term {
	m, ok := luaLin(v)
	if !ok {
		return nil
	}
	r := eng.Int(0)
	for k, co := range m {
		if co != float64(int64(co)) {
			return nil
		}
		if k == "" {
			r = eng.Add(r, eng.Int(int64(co)))
			continue
		}
		var i int
		if _, err := fmt.Sscanf(k, "ARGV[%d]", &i); err != nil || i < 1 || i > len(args) {
			return nil
		}
		r = eng.AddK(r, args[i-1], int64(co))
	}
	return r
}

// scriptWrite is one state change of a script path.
type scriptWrite struct {
	cmd  luaCmd
	what string // scalar expire other
}

// markerOutcome: 1 the marker was newly set on this path, -1 it was present, 0 unknown.
func markerOutcome(p *luaPath, marker *luaVal) (int, int) {
	for i, cm := range p.cmds {
		if len(cm.args) == 0 || cm.args[0].String() != marker.String() {
			continue
		}
		switch cm.name {
		case "SETNX":
			return p.replyIs(cm.res, 1), i
		case "SET":
			nx := false
			for _, a := range cm.args[1:] {
				if a.op == "str" && strings.EqualFold(a.s, "NX") {
					nx = true
				}
			}
			if nx {
				return p.truthy(cm.res), i
			}
			// a plain SET counts when the path knows the marker did not exist
			for j := 0; j < i; j++ {
				e := p.cmds[j]
				if len(e.args) > 0 && e.args[0].String() == marker.String() {
					if e.name == "EXISTS" && p.replyIs(e.res, 0) == 1 || e.name == "GET" && p.truthy(e.res) == -1 {
						return 1, i
					}
				}
			}
			return 0, i
		}
	}
	for i, cm := range p.cmds {
		if len(cm.args) > 0 && cm.args[0].String() == marker.String() {
			if cm.name == "EXISTS" && p.replyIs(cm.res, 1) == 1 || cm.name == "GET" && p.truthy(cm.res) == 1 {
				return -1, i
			}
		}
	}
	return 0, -1
}

func isRead(name string) bool {
	switch name {
	case "GET", "HGET", "EXISTS", "TTL", "PTTL", "HEXISTS", "TYPE":
		return true
	}
	return false
}

// markerKeyOf: the script key whose Go value contains both the entry's key and its id.
func (c *Ctx) markerKeyOf(a *adapter, p *eng.Path, keys []*eng.Term) (marker, counter int) {
	marker, counter = -1, -1
	for i, k := range keys {
		hasID := k.Derived(func(t *eng.Term) bool { return entryField(t, a.entries, "CommitID") })
		hasKey := k.Derived(func(t *eng.Term) bool { return entryField(t, a.entries, "Key") })
		for _, x := range strParts(p, k) {
			hasID = hasID || x.val != nil && entryField(x.val, a.entries, "CommitID")
			hasKey = hasKey || x.val != nil && entryField(x.val, a.entries, "Key")
		}
		if hasID && hasKey {
			marker = i
		} else if hasKey && !hasID {
			counter = i
		}
	}
	return
}

func (c *Ctx) scriptIdempotent(a *adapter) {
	fn := fname(a.fn)
	seen := map[string]bool{}
	for _, p := range a.paths {
		for _, ev := range p.Events {
			if effectKind(ev) != "eval" {
				continue
			}
			script, keys, args, ok := scriptCall(ev)
			if !c.check(ok, "script-keys", fn+":call", ev.Pos, "the script call could not be decided") {
				continue
			}
			mk, ck := c.markerKeyOf(a, p, keys)
			if !c.check(mk >= 0, "script-keys", fn+":marker", ev.Pos, "no script key is built from both the entry's key and its commit id") ||
				!c.check(ck >= 0, "script-keys", fn+":counter", ev.Pos, "no script key is built from the entry's key alone") {
				continue
			}
			c.check(readsBack(p, keys[mk], a.entries, "Key", "CommitID"), "script-keys", fn+":marker-whole", ev.Pos, "the marker key does not hold the entry's whole key and commit id and nothing that varies: %s", keys[mk])
			c.check(readsBack(p, keys[ck], a.entries, "Key"), "script-keys", fn+":counter-whole", ev.Pos, "the counter key does not hold the entry's whole key and nothing that varies: %s", keys[ck])
			me, ce := entriesOf(ev, a.entries), entryOf2(keys, a.entries)
			c.check(len(me) == 1 && len(ce) == 1, "script-keys", fn+":one-entry", ev.Pos, "the script mixes values of several entries")
			c.check(distinctPrefix(p, keys[mk], keys[ck]), "script-keys", fn+":namespaces", ev.Pos, "counter and marker keys do not start with different constant prefixes: %s, %s", keys[ck], keys[mk])
			sig := fmt.Sprint(script, mk, ck, len(args))
			if seen[sig] {
				continue
			}
			seen[sig] = true
			lps, err := luaPaths(script)
			if err != nil {
				c.fail("script-marker-gates", fn+":script", ev.Pos, "the script could not be decided: %v", err)
				continue
			}
			mv := &luaVal{op: "key", n: float64(mk + 1)}
			cv := &luaVal{op: "key", n: float64(ck + 1)}
			yes, no := 0, 0
			for _, lp := range lps {
				out, at := markerOutcome(lp, mv)
				writes := 0
				other := 0
				before := false
				for i, cm := range lp.cmds {
					if isRead(cm.name) || len(cm.args) == 0 {
						continue
					}
					switch cm.args[0].String() {
					case cv.String():
						if cm.name == "HINCRBY" {
							writes++
							before = before || i < at
						} else {
							other++
						}
					case mv.String():
						switch cm.name {
						case "SETNX", "SET":
						case "EXPIRE", "PEXPIRE":
							if out != 1 {
								other++
							}
						default:
							other++
						}
					default:
						other++
					}
				}
				where := strings.Join(lp.conds, "; ")
				switch out {
				case 1:
					yes++
					c.check(writes == 1, "script-marker-gates", fn+":script:new", ev.Pos, "with a new marker the script changes the counter %d times [%s]", writes, where)
					c.check(!before, "script-marker-gates", fn+":script:order", ev.Pos, "the counter is changed before the marker is set; a script that fails in between applies the commit without a marker")
				case -1:
					no++
					c.check(writes == 0, "script-marker-gates", fn+":script:known", ev.Pos, "with an existing marker the script changes the counter %d times [%s]", writes, where)
				default:
					c.check(writes == 0, "script-marker-gates", fn+":script:ungated", ev.Pos, "the script changes the counter without deciding whether the marker is new [%s]", where)
				}
				c.check(other == 0, "script-marker-gates", fn+":script:other", ev.Pos, "the script changes state this rule does not expect [%s]", where)
				c.site("script-path")
			}
			c.check(yes > 0 && no > 0, "script-marker-gates", fn+":script:cases", ev.Pos, "the script does not distinguish a new marker from an existing one")
		}
	}
	c.check(len(seen) > 0, "script-marker-gates", fn+":evaluated", a.fn.Pos(), "no script is evaluated")
}

func entryOf2(ts []*eng.Term, entries *eng.Term) []*eng.Term {
	seen := map[*eng.Term]bool{}
	var out []*eng.Term
	for _, t := range ts {
		t.Derived(func(x *eng.Term) bool {
			if x.Op == "elem" && x.Args[0] == entries && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
			return false
		})
	}
	return out
}

// constPrefix is the constant text a formatted or concatenated string starts with.
func constPrefix(p *eng.Path, t *eng.Term) string {
	r := ""
	for _, x := range strParts(p, t) {
		if x.val != nil {
			break
		}
		r += x.lit
	}
	return r
}

func distinctPrefix(p *eng.Path, a, b *eng.Term) bool {
	x, y := constPrefix(p, a), constPrefix(p, b)
	return x != "" && y != "" && !strings.HasPrefix(x, y) && !strings.HasPrefix(y, x)
}

// ---- P02: an entry without an id ----

func ruleP02(c *Ctx) {
	c.rule("id-required", "nothing is stored for an entry whose commit id is not known to be non-empty (for the SQL adapter: no transaction that saw such an entry is committed)")
	c.rule("id-error", "a batch in which an entry with an empty id was met ends with an error")
	for _, a := range c.adapters() {
		fn := fname(a.fn)
		bad := 0
		for _, p := range a.paths {
			if p.End != "return" {
				continue
			}
			met := false
			n := batchSize(p, a.entries)
			for k := 0; k < 4; k++ {
				el := elemAt(p, a.entries, k)
				if el != nil && c.idEmpty(p, el) == 1 && (n < 0 || k < n) {
					met = true
				}
			}
			if met {
				bad++
				c.check(errNil(p, retErr(p)) == -1, "id-error", fn+":error", retPos(p), "an entry without a commit id is accepted: %s", c.cond(p))
			}
			for _, ev := range p.Events {
				if a.kind != "sql" && effectKind(ev) != "" {
					for _, el := range entriesOf(ev, a.entries) {
						c.check(c.idEmpty(p, el) == -1, "id-required", fn+":guard", ev.Pos, "an entry is written without its id being known to be non-empty: %s", c.cond(p))
					}
				}
				if a.kind == "sql" && ev.Kind == "call" && ev.Name == "(*database/sql.Tx).Commit" {
					c.check(!met, "id-required", fn+":committed", ev.Pos, "a transaction with an id-less entry is committed: %s", c.cond(p))
				}
			}
			if a.kind == "sql" {
				for _, x := range c.execs(p) {
					if x.st != nil && x.role() != "create" {
						for _, el := range entriesOf(x.ev, a.entries) {
							c.check(c.idEmpty(p, el) == -1, "id-required", fn+":guard", x.ev.Pos, "an entry is written without its id being known to be non-empty: %s", c.cond(p))
						}
					}
				}
			}
		}
		c.check(bad > 0, "id-error", fn+":refuses", a.fn.Pos(), "an entry without a commit id is never refused")
	}
}

// ---- P03: errors ----

func ruleP03(c *Ctx) {
	c.rule("errors-reported", "when CommitBatch returns nil every backend call it made is known to have returned a nil error")
	c.rule("all-entries", "when CommitBatch returns nil every entry of the batch was handed to the backend, exactly once")
	c.rule("empty-batch", "an empty batch returns nil without touching the backend")
	c.rule("row-changed", "when CommitBatch returns nil every counter update is known to have met a row: the number of affected rows was read and is not zero, or the same transaction created the row before")
	c.rule("failure-is-backend", "an error is returned only for an empty id, a failed backend call or marshalling, or a refused fencing token")
	for _, a := range c.adapters() {
		fn := fname(a.fn)
		sizes := map[int]bool{}
		for _, p := range a.paths {
			if p.End != "return" {
				c.check(p.End == "cut", "errors-reported", fn+":end", p.EndPos, "CommitBatch can end by %s: %s", p.End, c.cond(p))
				continue
			}
			rn := errNil(p, retErr(p))
			n := batchSize(p, a.entries)
			nEff := 0
			failed := false
			for _, ev := range p.Events {
				if ev.Kind != "call" || ev.InDefer {
					continue
				}
				if effectKind(ev) != "" || strings.HasPrefix(ev.Name, "(*database/sql.") || strings.HasSuffix(ev.Name, "Result).RowsAffected") || ev.Name == "encoding/json.Marshal" {
					nEff++
					er := errOf(ev)
					if er == nil {
						continue
					}
					st := errNil(p, er)
					if st == -1 {
						failed = true
					}
					if ev.Name == "(*database/sql.Tx).Rollback" {
						continue
					}
					if rn != -1 {
						same := retErr(p) == er
						c.check(st == 1 || same, "errors-reported", fn+":"+shortCall(ev.Name), ev.Pos, "success is reported although the error of %s is not known to be nil: %s", shortCall(ev.Name), c.cond(p))
						if same && st == 0 {
							rn = 0
						}
					}
				}
			}
			if n == 0 {
				c.check(rn == 1 && nEff == 0, "empty-batch", fn+":empty", retPos(p), "an empty batch is not a no-op: %s", c.cond(p))
				continue
			}
			if rn == -1 {
				ok := failed
				for k := 0; k < 4; k++ {
					if el := elemAt(p, a.entries, k); el != nil && c.idEmpty(p, el) == 1 {
						ok = true
					}
				}
				if a.kind == "sql" {
					for _, x := range c.execs(p) {
						if x.st != nil && strings.Contains(x.role(), "token") {
							if st, _ := affected(p, x.ev); st == -1 {
								ok = true
							}
						}
						if x.st != nil && strings.Contains(x.role(), "scalar") {
							if st, _ := affected(p, x.ev); st == -1 {
								ok = true
							}
						}
					}
				}
				c.check(ok, "failure-is-backend", fn+":error", retPos(p), "an error is returned although nothing failed: %s", c.cond(p))
				continue
			}
			// success: all entries were written
			if !c.check(n > 0, "all-entries", fn+":size", retPos(p), "success is reported without the end of the batch having been reached: %s", c.cond(p)) {
				continue
			}
			sizes[n] = true
			if a.kind == "sql" {
				made := map[*eng.Term]bool{}
				for _, x := range c.execs(p) {
					if x.st == nil {
						continue
					}
					switch r := x.role(); {
					case r == "create":
						if el := entryOf(x.arg(x.col("key")), a.entries); el != nil {
							made[el] = true
						}
					case strings.Contains(r, "scalar"):
						k, _ := x.whereKey()
						st, _ := affected(p, x.ev)
						c.check(st == 1 || made[entryOf(k, a.entries)], "row-changed", fn, x.ev.Pos, "success is reported although the update may have met no row: the vector is lost and its marker keeps it from being applied later: %s", c.cond(p))
					}
				}
			}
			for k := 0; k < n; k++ {
				w := 0
				for _, ev := range p.Events {
					if effectKind(ev) == "" {
						continue
					}
					if a.kind == "sql" {
						continue
					}
					for _, el := range entriesOf(ev, a.entries) {
						if i, ok := el.Args[1].IsInt(); ok && i == int64(k) {
							w++
						}
					}
				}
				if a.kind == "sql" {
					for _, x := range c.execs(p) {
						if x.st != nil && x.role() == "marker" {
							for _, el := range entriesOf(x.ev, a.entries) {
								if i, ok := el.Args[1].IsInt(); ok && i == int64(k) {
									w++
								}
							}
						}
					}
				}
				c.check(w == 1, "all-entries", fn+":entry", retPos(p), "entry %d of a batch of %d is written %d times on a successful path: %s", k, n, w, c.cond(p))
			}
		}
		c.check(sizes[1] && sizes[2], "all-entries", fn+":sizes", a.fn.Pos(), "no successful path for batches of one and two entries was found")
	}
}

// ---- P04: one transaction ----

func ruleP04(c *Ctx) {
	c.rule("one-transaction", "every statement of a batch runs on the one transaction the call began, and no statement follows the commit")
	c.rule("commit-or-rollback", "success is returned only after a successful commit, which happens once and last; when an error is returned the transaction was not committed, and every begun transaction that was not committed is rolled back before returning")
	for _, a := range c.adapters() {
		if a.kind != "sql" {
			continue
		}
		fn := fname(a.fn)
		for _, p := range a.paths {
			if p.End != "return" {
				continue
			}
			var begin, commit *eng.Event
			rolled := false
			began := false
			for _, ev := range p.Events {
				if ev.Kind != "call" {
					continue
				}
				switch ev.Name {
				case "(*database/sql.DB).BeginTx", "(*database/sql.DB).Begin", "(*database/sql.Conn).BeginTx":
					c.check(begin == nil, "one-transaction", fn+":begin", ev.Pos, "two transactions are begun: %s", c.cond(p))
					begin = ev
					began = errNil(p, errOf(ev)) != -1
				case "(*database/sql.Tx).Commit":
					c.check(commit == nil, "commit-or-rollback", fn+":commit-once", ev.Pos, "the transaction is committed twice: %s", c.cond(p))
					c.check(begin != nil && ev.Recv == begin.Res[0], "one-transaction", fn+":commit-tx", ev.Pos, "another transaction is committed")
					commit = ev
				case "(*database/sql.Tx).Rollback":
					if begin != nil && ev.Recv == begin.Res[0] {
						rolled = true
						c.check(commit != nil || errNil(p, retErr(p)) != 1, "commit-or-rollback", fn+":rollback-first", ev.Pos, "the transaction is rolled back and success reported: %s", c.cond(p))
					}
				}
				if effectKind(ev) == "sql" {
					c.check(begin != nil && ev.Recv == begin.Res[0] && began, "one-transaction", fn+":statement", ev.Pos, "a statement runs outside the batch's transaction")
					c.check(commit == nil, "one-transaction", fn+":after-commit", ev.Pos, "a statement follows the commit")
				}
			}
			n := batchSize(p, a.entries)
			rn := errNil(p, retErr(p))
			ok := commit != nil && errNil(p, errOf(commit)) == 1
			if commit != nil && retErr(p) == errOf(commit) {
				// return tx.Commit(): success is the commit's success
				continue
			}
			if n != 0 && rn == 1 {
				c.check(ok, "commit-or-rollback", fn+":success", retPos(p), "success is reported without a successful commit: %s", c.cond(p))
			}
			if rn == -1 {
				c.check(!ok, "commit-or-rollback", fn+":failure", retPos(p), "the transaction is committed although an error is reported: %s", c.cond(p))
				c.check(commit == nil || errNil(p, errOf(commit)) == -1, "commit-or-rollback", fn+":failure-commit", retPos(p), "the transaction may have been committed although an error is reported: %s", c.cond(p))
			}
			if began && !ok {
				c.check(rolled, "commit-or-rollback", fn+":rollback", retPos(p), "a transaction is left open: %s", c.cond(p))
			}
		}
	}
}

// ---- P05: what is stored ----

func ruleP05(c *Ctx) {
	c.rule("sql-values", "the marker row holds the entry's id, key and vector; the counter row of the entry's key, and only it, changes by minus the entry's vector; pre-created counters start at zero and never overwrite")
	c.rule("created-if-configured", "with creation of missing counters on, the counter row of every entry is pre-created before it is updated; with it off none is; the constructor keeps the connection and the setting it was given")
	c.rule("script-values", "the script changes field scalar of the entry's counter by minus the entry's vector, and expires the marker after the configured time when that is positive")
	c.rule("message-values", "the message holds the entry's key, vector, id and token under their documented names, goes to the configured topic and is what was marshalled for that entry")
	for _, a := range c.adapters() {
		fn := fname(a.fn)
		for _, p := range a.paths {
			switch a.kind {
			case "sql":
				if flag := boolField(a.typ); flag != nil {
					on := p.F.Eval(eng.FieldOf(p.Params[0], flag))
					made := map[*eng.Term]bool{}
					for _, x := range c.execs(p) {
						if x.st == nil {
							continue
						}
						switch r := x.role(); {
						case r == "create":
							c.check(on == 1, "created-if-configured", fn+":off", x.ev.Pos, "a counter is created although that may not be configured: %s", c.cond(p))
							if el := entryOf(x.arg(x.col("key")), a.entries); el != nil {
								made[el] = true
							}
						case r == "scalar" || r == "token" || r == "scalar+token":
							k, _ := x.whereKey()
							c.check(on == -1 || made[entryOf(k, a.entries)], "created-if-configured", fn+":on", x.ev.Pos, "a counter is updated that may be missing although missing counters are to be created: %s", c.cond(p))
						}
					}
				}
				for _, x := range c.execs(p) {
					if x.st == nil {
						c.fail("sql-values", fn+":statement", x.ev.Pos, "a statement could not be decided: %s", x.err)
						continue
					}
					els := entriesOf(x.ev, a.entries)
					c.check(len(els) == 1, "sql-values", fn+":"+x.role()+":one-entry", x.ev.Pos, "a statement mixes %d entries", len(els))
					switch x.role() {
					case "marker":
						c.check(entryField(x.arg(x.col("commit_id")), a.entries, "CommitID"), "sql-values", fn+":marker:commit_id", x.ev.Pos, "commit_id is not the entry's id")
						c.check(entryField(x.arg(x.col("key")), a.entries, "Key"), "sql-values", fn+":marker:key", x.ev.Pos, "key is not the entry's key")
						c.check(entryField(x.arg(x.col("vc")), a.entries, "Vector"), "sql-values", fn+":marker:vc", x.ev.Pos, "vc is not the entry's vector")
					case "create":
						c.check(entryField(x.arg(x.col("key")), a.entries, "Key"), "sql-values", fn+":create:key", x.ev.Pos, "the pre-created row is not for the entry's key")
						z := x.col("scalar")
						c.check(z == nil || z.op == "num" && z.n == 0 || x.arg(z) == eng.Int(0), "sql-values", fn+":create:zero", x.ev.Pos, "a pre-created counter does not start at zero")
						c.check(x.st.conflict == "nothing", "sql-values", fn+":create:keep", x.ev.Pos, "pre-creating a counter overwrites an existing one")
					case "scalar", "scalar+token":
						k, rest := x.whereKey()
						c.check(entryField(k, a.entries, "Key"), "sql-values", fn+":scalar:key", x.ev.Pos, "the update is not limited to the entry's key")
						if x.role() == "scalar" {
							c.check(len(rest) == 0, "sql-values", fn+":scalar:where", x.ev.Pos, "the update carries a further condition")
						}
						c.check(scalarMinusVector(x, a), "sql-values", fn+":scalar:value", x.ev.Pos, "the update does not set scalar to scalar minus the entry's vector")
						c.check(len(x.st.set) == 1 || x.role() != "scalar", "sql-values", fn+":scalar:columns", x.ev.Pos, "the update changes further columns")
					case "token":
						k, _ := x.whereKey()
						c.check(entryField(k, a.entries, "Key"), "sql-values", fn+":token:key", x.ev.Pos, "the token update is not limited to the entry's key")
					default:
						c.fail("sql-values", fn+":unknown-statement", x.ev.Pos, "an unknown statement")
					}
				}
			case "eval":
				for _, ev := range p.Events {
					if effectKind(ev) == "eval" {
						c.scriptValues(a, p, ev)
					}
				}
			case "produce":
				for _, ev := range p.Events {
					if effectKind(ev) == "produce" {
						c.messageValues(a, p, ev)
					}
				}
			}
		}
	}
	for _, a := range c.adapters() {
		if a.kind == "sql" {
			c.sqlConstructor(a)
		}
	}
	c.min("sql-values", 9)
	c.min("script-values", 3)
	c.min("message-values", 6)
}

// sizeOf is the number of elements of a slice, also of one over a whole array.
func sizeOf(t *eng.Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if t.Op == "slicemem" && len(t.Args) == 1 && t.Args[0].Typ != nil {
		if at, ok := t.Args[0].Typ.Underlying().(*types.Array); ok {
			return at.Len(), true
		}
	}
	return eng.LenOf(t).IsInt()
}

// boolField is the adapter's only setting of type bool.
func boolField(n *types.Named) *types.Var {
	var out *types.Var
	for _, f := range structFields(n) {
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if out != nil {
				return nil
			}
			out = f
		}
	}
	return out
}

// sqlConstructor: what the adapter is built with is what it uses.
func (c *Ctx) sqlConstructor(a *adapter) {
	for _, f := range c.Funcs {
		if c.pkgOf(f) != persPkg || f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || f.Blocks == nil {
			continue
		}
		pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), a.typ) {
			continue
		}
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			if p.End != "return" || p.Ret[0].Op == "nil" {
				continue
			}
			for i, fl := range structFields(a.typ) {
				var want *eng.Term
				nw := 0
				for j := 0; j < f.Signature.Params().Len(); j++ {
					if types.Identical(f.Signature.Params().At(j).Type(), fl.Type()) {
						want = p.Params[j]
						nw++
					}
				}
				if nw != 1 {
					continue
				}
				got := p.LoadField(p.Ret[0].Unwrap(), fl, i)
				same := got == want || fl == boolField(a.typ) && p.F.Eval(got) != 0 && p.F.Eval(got) == p.F.Eval(want)
				c.check(same, "created-if-configured", fname(f)+":"+fl.Name(), f.Pos(), "the adapter keeps %s instead of the %s it was given", got, fl.Name())
			}
		}
	}
}

func scalarMinusVector(x sqlExec, a *adapter) bool {
	m, ok := linSQL(x.st.set["scalar"])
	if !ok || m["col:scalar"] != 1 || len(m) != 2 {
		return false
	}
	for k, co := range m {
		if k == "col:scalar" {
			continue
		}
		var i int
		if _, err := fmt.Sscanf(k, "$%d", &i); err != nil || i < 1 || i > len(x.args) {
			return false
		}
		return minusVector(eng.Scale(x.args[i-1], int64(co)), a)
	}
	return false
}

// minusVector: t is minus the vector of an entry.
func minusVector(t *eng.Term, a *adapter) bool {
	if t == nil {
		return false
	}
	n := eng.Neg(t)
	return entryField(n, a.entries, "Vector")
}

func (c *Ctx) scriptValues(a *adapter, p *eng.Path, ev *eng.Event) {
	fn := fname(a.fn)
	script, keys, args, ok := scriptCall(ev)
	if !ok {
		c.fail("script-values", fn+":call", ev.Pos, "the script call could not be decided")
		return
	}
	mk, ck := c.markerKeyOf(a, p, keys)
	lps, err := luaPaths(script)
	if err != nil || mk < 0 || ck < 0 {
		c.fail("script-values", fn+":script", ev.Pos, "the script could not be decided: %v", err)
		return
	}
	els := entriesOf(ev, a.entries)
	c.check(readsBack(p, keys[ck], a.entries, "Key"), "script-values", fn+":counter-key", ev.Pos, "the counter key does not hold the entry's whole key: %s", keys[ck])
	c.check(len(els) == 1, "script-values", fn+":one-entry", ev.Pos, "the script call mixes %d entries", len(els))
	mv := &luaVal{op: "key", n: float64(mk + 1)}
	ttlField := func(t *eng.Term) bool {
		return t.Op == "fld" && t.Typ != nil && t.Typ.String() == "time.Duration"
	}
	for _, lp := range lps {
		out, _ := markerOutcome(lp, mv)
		expire, posTTL := false, true
		for _, cm := range lp.cmds {
			switch cm.name {
			case "HINCRBY":
				if len(cm.args) != 3 {
					c.fail("script-values", fn+":hincrby", ev.Pos, "HINCRBY with %d arguments", len(cm.args))
					continue
				}
				c.check(cm.args[1].op == "str" && cm.args[1].s == "scalar", "script-values", fn+":field", ev.Pos, "the script changes field %s", cm.args[1])
				d := luaDelta(cm.args[2], args)
				c.check(d != nil && minusVector(d, a), "script-values", fn+":delta", ev.Pos, "the counter changes by %v, not by minus the entry's vector", d)
				k := luaGo(cm.args[0], keys, args)
				c.check(k == keys[ck], "script-values", fn+":counter", ev.Pos, "the script changes %s", cm.args[0])
			case "EXPIRE", "PEXPIRE":
				if len(cm.args) >= 2 && cm.args[0].String() == mv.String() {
					v := luaGo(rawArg(cm.args[1]), keys, args)
					unit := int64(1e9)
					if cm.name == "PEXPIRE" {
						unit = 1e6
					}
					okv := v != nil && ttlOK(v, ttlField, unit)
					c.check(okv, "script-values", fn+":ttl", ev.Pos, "the marker's time to live is %s", cm.args[1])
					expire = true
				}
			case "SET", "SETNX":
				for i, x := range cm.args {
					if x.op == "str" && (strings.EqualFold(x.s, "EX") || strings.EqualFold(x.s, "PX")) && i+1 < len(cm.args) {
						v := luaGo(rawArg(cm.args[i+1]), keys, args)
						unit := int64(1e9)
						if strings.EqualFold(x.s, "PX") {
							unit = 1e6
						}
						c.check(v != nil && ttlOK(v, ttlField, unit), "script-values", fn+":ttl", ev.Pos, "the marker's time to live is %s", cm.args[i+1])
						expire = true
					}
				}
			}
		}
		for _, cd := range lp.conds {
			if strings.HasSuffix(cd, "=false") && strings.Contains(cd, "cmp:>") || strings.HasSuffix(cd, "=true") && strings.Contains(cd, "cmp:<") {
				posTTL = false
			}
		}
		if out == 1 && posTTL {
			c.check(expire, "script-values", fn+":expires", ev.Pos, "a new marker never expires [%s]", strings.Join(lp.conds, "; "))
		}
	}
}

// rawArg undoes tonumber.
func rawArg(v *luaVal) *luaVal {
	if v.op == "lin" && len(v.co) == 1 {
		for k, co := range v.co {
			var i int
			if _, err := fmt.Sscanf(k, "ARGV[%d]", &i); err == nil && co == 1 {
				return &luaVal{op: "argv", n: float64(i)}
			}
		}
	}
	return v
}

func (c *Ctx) messageValues(a *adapter, p *eng.Path, ev *eng.Event) {
	fn := fname(a.fn)
	val := ev.Arg(3)
	src := val
	if src != nil && src.Ev != nil && src.Ev.Name == "encoding/json.Marshal" && len(src.Ev.Res) > 0 && src.Ev.Res[0] == src {
		m := src.Ev.Arg(0)
		msg := m.Unwrap()
		if m.Op == "iface" && msg.Op == "alloc" {
			// a pointer to the message
			if mm := src.Ev.Mem; mm != nil {
				if pt, ok := m.Typ.Underlying().(*types.Pointer); ok {
					msg = eng.LoadMem(mm, msg, pt.Elem())
				}
			}
		}
		var st *types.Struct
		if m.Typ != nil {
			t := m.Typ
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			st, _ = t.Underlying().(*types.Struct)
		}
		if !c.check(st != nil && msg != nil, "message-values", fn+":payload", ev.Pos, "the payload is not a marshalled struct: %s", m) {
			return
		}
		want := map[string]string{"key": "Key", "vc": "Vector", "commit_id": "CommitID", "fencing_token": "FencingToken"}
		got := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			name, opts, _ := strings.Cut(tag, ",")
			if f := want[name]; f != "" {
				v := eng.Field(msg, i)
				ok := entryField(v, a.entries, f)
				c.check(ok, "message-values", fn+":"+name, ev.Pos, "%s of the message is %s", name, v)
				got[name] = ok
				if name != "fencing_token" {
					c.check(!strings.Contains(opts, "omitempty"), "message-values", fn+":"+name+":kept", ev.Pos, "%s is dropped when it is zero", name)
				}
				c.check(!strings.Contains(opts, "string"), "message-values", fn+":"+name+":type", ev.Pos, "%s is sent as a string", name)
				if el := entryOf(v, a.entries); el != nil {
					c.check(entryOf(stripConv(ev.Arg(2)), a.entries) == el, "message-values", fn+":same-entry", ev.Pos, "message key and payload belong to different entries")
				}
			}
		}
		for n := range want {
			c.check(got[n], "message-values", fn+":has:"+n, ev.Pos, "the message has no %s", n)
		}
	} else {
		c.fail("message-values", fn+":payload", ev.Pos, "the message is not the marshalled entry: %s", val)
	}
	tp := ev.Arg(1)
	c.check(tp != nil && tp.Op == "fld" && tp.Args[0] == p.Params[0], "message-values", fn+":topic", ev.Pos, "the topic is %s", tp)
}

// ---- P06: bounded backend calls ----

func ruleP06(c *Ctx) {
	c.rule("bounded", "every backend call of an adapter with a default timeout gets a context that has a deadline: the caller's, or one derived from it with the default timeout")
	c.rule("positive-default", "the default timeout is a positive constant set by the constructor")
	c.rule("released", "a derived context is cancelled on every return, and not before the last backend call")
	c.rule("never-nil", "no backend call gets a nil context")
	for _, a := range c.adapters() {
		fn := fname(a.fn)
		var tmo *types.Var
		st, _ := a.typ.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Type().String() == "time.Duration" && a.kind != "eval" {
				tmo = st.Field(i)
			}
		}
		if a.kind == "eval" {
			// the Redis client bounds its calls itself: the caller's context is passed on
			for _, p := range a.paths {
				for _, ev := range p.Events {
					if effectKind(ev) == "eval" {
						ok := ev.Arg(0) == a.ctx || derivedCtx(ev.Arg(0), a.ctx)
						c.check(ok, "bounded", fn+":caller-context", ev.Pos, "the caller's context is not passed on: %s", ev.Arg(0))
					}
				}
			}
			continue
		}
		if !c.check(tmo != nil, "positive-default", fn+":timeout", a.fn.Pos(), "the adapter has no default timeout") {
			continue
		}
		// constructor
		for _, f := range c.Funcs {
			if f.Parent() != nil || c.pkgOf(f) != persPkg || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 {
				continue
			}
			rt := f.Signature.Results().At(0).Type()
			pt, ok := rt.(*types.Pointer)
			if !ok || !types.Identical(pt.Elem(), a.typ) {
				continue
			}
			for _, p := range c.run(c.engine(), f, nil, nil, nil) {
				if p.End == "return" {
					v := p.LoadField(p.Ret[0].Unwrap(), tmo, fieldIndex(a.typ, tmo))
					c.check(p.F.Eval(eng.Gt(v, eng.Int(0))) == 1, "positive-default", fname(f), f.Pos(), "the default timeout is %s", v)
				}
			}
		}
		for _, p := range a.paths {
			if p.End != "return" {
				continue
			}
			var derived, cancel *eng.Event
			last := -1
			for _, ev := range p.Events {
				if ev.Kind == "call" && (ev.Name == "context.WithTimeout" || ev.Name == "context.WithDeadline") {
					derived = ev
				}
				if derived != nil && ev.Kind == "call" && ev.Recv != nil && len(derived.Res) > 1 && ev.Recv == derived.Res[1] {
					cancel = ev
				}
				isB := effectKind(ev) != "" || ev.Kind == "call" && (strings.HasPrefix(ev.Name, "(*database/sql.DB).Begin") || strings.HasPrefix(ev.Name, "(*database/sql.Tx).Exec"))
				if isB {
					last = ev.Seq
					x := ev.Arg(0)
					c.check(x != nil && isCtx(x), "bounded", fn+":context", ev.Pos, "%s gets no context", shortCall(ev.Name))
					if x == nil || !isCtx(x) {
						continue
					}
					okd := false
					if derived != nil && x == derived.Res[0] {
						par := derived.Arg(0)
						okp := par == a.ctx || par.Ev != nil && par.Ev.Name == "context.Background" && p.F.Eval(eng.Eq(a.ctx, eng.Nil, nil)) == 1
						c.check(okp, "bounded", fn+":parent", derived.Pos, "the derived context does not come from the caller's: %s", par)
						c.check(par != a.ctx || p.F.Eval(eng.Eq(a.ctx, eng.Nil, nil)) == -1, "never-nil", fn+":parent", derived.Pos, "a context is derived from one that may be nil: %s", c.cond(p))
						c.check(derived.Arg(1) != nil && (isFld(derived.Arg(1), tmo) || positiveConst(derived.Arg(1))), "bounded", fn+":duration", derived.Pos, "the timeout is %s", derived.Arg(1))
						okd = true
					} else {
						for _, d := range p.Events {
							if d.Kind == "call" && strings.HasSuffix(d.Name, "context.Context).Deadline") && d.Recv == x && len(d.Res) == 2 && p.F.Eval(d.Res[1]) == 1 {
								okd = true
							}
						}
						// without a configured default nothing is promised
						for _, l := range p.Log {
							if l.Cond.Contains(fldOf(p, tmo)) {
								if v := p.F.Eval(eng.Gt(fldOf(p, tmo), eng.Int(0))); v == -1 {
									okd = true
								}
							}
						}
						if x == a.ctx {
							c.check(p.F.Eval(eng.Eq(a.ctx, eng.Nil, nil)) == -1, "never-nil", fn+":caller", ev.Pos, "the caller's context is used although it may be nil: %s", c.cond(p))
						}
					}
					c.check(okd, "bounded", fn+":deadline", ev.Pos, "%s gets a context without a deadline: %s", shortCall(ev.Name), c.cond(p))
				}
			}
			if derived != nil {
				c.check(cancel != nil, "released", fn+":cancel", derived.Pos, "the derived context is not cancelled: %s", c.cond(p))
				c.check(cancel == nil || cancel.Seq > last, "released", fn+":early", derived.Pos, "the derived context is cancelled before the last backend call: %s", c.cond(p))
			}
		}
	}
	c.min("bounded", 6)
}

func isCtx(t *eng.Term) bool {
	t = stripAs(t)
	return t.Typ != nil && t.Typ.String() == "context.Context" || t == eng.Nil || t.Ev != nil && strings.HasPrefix(t.Ev.Name, "context.")
}

func derivedCtx(t, ctx *eng.Term) bool {
	return t != nil && t.Ev != nil && strings.HasPrefix(t.Ev.Name, "context.With") && (t.Ev.Arg(0) == ctx || derivedCtx(t.Ev.Arg(0), ctx))
}

func isFld(t *eng.Term, f *types.Var) bool {
	return t != nil && t.Op == "fld" && t.Obj == types.Object(f)
}

func positiveConst(t *eng.Term) bool { n, ok := t.IsInt(); return ok && n > 0 }

// fldOf is a field of the receiver.
func fldOf(p *eng.Path, f *types.Var) *eng.Term { return eng.FieldOf(p.Params[0], f) }

// ---- P07: the shim ----

func (c *Ctx) shimFn() *ssa.Function {
	for _, f := range c.Funcs {
		if f.Parent() == nil && c.pkgOf(f) == persPkg && f.Name() == "CommitBatch" && f.Signature.Recv() != nil && len(f.Params) == 2 {
			if sl, ok := f.Params[1].Type().Underlying().(*types.Slice); ok && strings.HasSuffix(sl.Elem().String(), corePkg+".Commit") {
				return f
			}
		}
	}
	c.failAt("anchor", "shim", "?", "no adapter from core commits to entries")
	panic(abort{})
}

func ruleP07(c *Ctx) {
	c.rule("one-to-one", "the entries handed to the idempotent persister are the commits of the batch, in number, key and vector, each exactly once")
	c.rule("unique-id", "every entry's commit id is generated for that entry alone from at least 16 bytes of crypto/rand output, with nothing of it cut off")
	c.rule("verdict", "the persister is called exactly once for a non-empty batch and its error is returned; an empty batch returns nil without a call")
	f := c.shimFn()
	sizes := map[int]bool{}
	for _, p := range c.run(c.engine(), f, nil, nil, nil) {
		if p.End != "return" {
			c.check(p.End == "cut", "verdict", "end", p.EndPos, "the shim can end by %s: %s", p.End, c.cond(p))
			continue
		}
		commits := p.Params[1]
		n := batchSize(p, commits)
		var calls []*eng.Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && hasSuffix(ev.Name, "IdempotentPersister).CommitBatch") {
				calls = append(calls, ev)
			}
		}
		if n == 0 {
			c.check(len(calls) == 0 && errNil(p, retErr(p)) == 1, "verdict", "empty", retPos(p), "an empty batch is not a no-op")
			continue
		}
		if !c.check(len(calls) == 1, "verdict", "one-call", retPos(p), "the persister is called %d times: %s", len(calls), c.cond(p)) {
			continue
		}
		ev := calls[0]
		er := errOf(ev)
		same := retErr(p) == er || errNil(p, er) != 0 && errNil(p, er) == errNil(p, retErr(p))
		c.check(same, "verdict", "error", retPos(p), "the persister's error is not returned: %s", retErr(p))
		els := sliceElems(p, ev, ev.Arg(1))
		if !c.check(n > 0 && els != nil, "one-to-one", "batch", ev.Pos, "the entries handed over could not be decided: %s", c.cond(p)) {
			continue
		}
		sizes[n] = true
		for _, e2 := range p.Events {
			if e2.Kind == "call" && e2.Name == "encoding/hex.Encode" {
				d, ok1 := sizeOf(e2.Arg(0))
				b, ok2 := sizeOf(e2.Arg(1))
				c.check(ok1 && ok2 && d >= 2*b, "unique-id", "encode", e2.Pos, "%s bytes are encoded into a buffer of %s: the encoding panics", eng.LenOf(e2.Arg(1)), eng.LenOf(e2.Arg(0)))
			}
		}
		if l, ok := eng.LenOf(ev.Arg(1)).IsInt(); ok {
			c.check(int(l) == n, "one-to-one", "length", ev.Pos, "%d entries are handed over for %d commits", l, n)
		} else {
			c.check(p.F.Eval(eng.Eq(eng.LenOf(ev.Arg(1)), eng.LenOf(commits), types.Typ[types.Int])) == 1, "one-to-one", "length", ev.Pos, "the number of entries is %s", eng.LenOf(ev.Arg(1)))
		}
		c.check(len(els) == n, "one-to-one", "all", ev.Pos, "%d entries are filled for %d commits: %s", len(els), n, c.cond(p))
		used := map[string]bool{}
		ids := map[*eng.Event]bool{}
		for _, e := range els {
			k, v, id := eng.FieldNamed(e, "Key"), eng.FieldNamed(e, "Vector"), eng.FieldNamed(e, "CommitID")
			if !c.check(k != nil && v != nil && id != nil, "one-to-one", "fields", ev.Pos, "an entry could not be decided: %s", e) {
				continue
			}
			ke, ve := entryOf(k, commits), entryOf(v, commits)
			ok := ke != nil && ke == ve && entryField(k, commits, "Key") && entryField(v, commits, "Vector")
			c.check(ok, "one-to-one", "pairing", ev.Pos, "an entry pairs key %s with vector %s", k, v)
			if ke != nil {
				c.check(!used[ke.K], "one-to-one", "distinct", ev.Pos, "a commit is handed over twice")
				used[ke.K] = true
			}
			c.uniqueID(p, id, ids, ev.Pos)
		}
	}
	c.check(sizes[1] && sizes[2], "one-to-one", "sizes", f.Pos(), "no path for batches of one and two commits was found")
}

// sliceElems lists the elements of a slice handed to a call.
func sliceElems(p *eng.Path, ev *eng.Event, s *eng.Term) []*eng.Term {
	if els, ok := eng.ListOf(s); ok {
		return els
	}
	byIdx := map[int64]*eng.Term{}
	for _, cl := range ev.Mem {
		a := cl.Addr
		if a.Op == "ia" && stripSliceOf(a.Args[0]) == stripSliceOf(s) {
			n, ok := a.Args[1].IsInt()
			if !ok {
				return nil
			}
			byIdx[n] = cl.Val
		}
	}
	fields := map[int64]map[string]*eng.Term{}
	for _, cl := range ev.Mem {
		a := cl.Addr
		if a.Op == "fa" && a.Args[0].Op == "ia" && stripSliceOf(a.Args[0].Args[0]) == stripSliceOf(s) {
			if n, ok := a.Args[0].Args[1].IsInt(); ok {
				if fields[n] == nil {
					fields[n] = map[string]*eng.Term{}
				}
				fields[n][a.Obj.Name()] = cl.Val
			}
		}
	}
	for n := range fields {
		if byIdx[n] == nil {
			a := eng.LoadElem(ev.Mem, s, n)
			if a != nil {
				byIdx[n] = a
			}
		}
	}
	var out []*eng.Term
	for i := int64(0); ; i++ {
		v := byIdx[i]
		if v == nil {
			break
		}
		out = append(out, v)
	}
	if len(out) != len(byIdx) {
		return nil
	}
	return out
}

func stripSliceOf(t *eng.Term) *eng.Term {
	for t != nil && t.Op == "slice" && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// uniqueID checks where an id comes from.
func (c *Ctx) uniqueID(p *eng.Path, id *eng.Term, seen map[*eng.Event]bool, pos token.Pos) {
	var src *eng.Event
	cut := ""
	var walk func(t *eng.Term, d int)
	visited := map[*eng.Term]bool{}
	walk = func(t *eng.Term, d int) {
		if t == nil || visited[t] || d > 12 {
			return
		}
		visited[t] = true
		if t.Op == "slice" || t.Op == "substr" {
			cut = t.String()
		}
		if ev := t.Ev; ev != nil {
			if ev.Name == "crypto/rand.Read" || ev.Name == "crypto/rand.Text" || ev.Name == "io.ReadFull" {
				src = ev
				return
			}
			for _, a := range ev.Args {
				walk(a, d+1)
			}
		}
		for _, a := range t.Args {
			walk(a, d+1)
		}
		for _, co := range t.Co {
			walk(co.T, d+1)
		}
	}
	walk(id, 0)
	if !c.check(src != nil, "unique-id", "source", pos, "the commit id %s does not come from crypto/rand", id) {
		return
	}
	c.check(cut == "", "unique-id", "whole", pos, "only part of the random id is used: %s", cut)
	if src.Name != "crypto/rand.Text" {
		buf := src.Arg(0)
		if src.Name == "io.ReadFull" {
			buf = src.Arg(1)
		}
		n, ok := eng.LenOf(buf).IsInt()
		c.check(ok && n >= 16, "unique-id", "length", src.Pos, "the commit id is made of %s random bytes", eng.LenOf(buf))
	}
	c.check(!seen[src], "unique-id", "per-entry", src.Pos, "two entries share one id: %s", c.cond(p))
	seen[src] = true
}

// ---- P08: adapter selection ----

func ruleP08(c *Ctx) {
	c.rule("selection", "each adapter name builds its own adapter (the empty name the mock) and nothing else; postgres and unknown names are refused with an error and no persister")
	c.rule("wiring", "the Redis adapter uses a real client for exactly the configured address and the logging client only without one, the marker time to live is the configured one when positive and otherwise a positive default, the Kafka topic is the configured one or vsa-commits")
	f := c.mustFn(persPkg, "BuildPersister")
	e := c.engine()
	seen := map[string]bool{}
	adapterOf := func(p *eng.Path) (string, bool) {
		if len(p.Params) == 0 {
			return "", false
		}
		a := p.Params[0]
		for _, s := range []string{"", "mock", "redis", "kafka", "postgres"} {
			if p.F.Eval(eng.Eq(a, eng.Str(s), types.Typ[types.String])) == 1 {
				return s, true
			}
		}
		for _, s := range []string{"", "mock", "redis", "kafka"} {
			if p.F.Eval(eng.Eq(a, eng.Str(s), types.Typ[types.String])) != -1 {
				return "?", true
			}
		}
		return "other", true
	}
	for _, p := range c.run(e, f, nil, nil, nil) {
		if p.End != "return" {
			c.check(false, "selection", "end", p.EndPos, "BuildPersister can end by %s: %s", p.End, c.cond(p))
			continue
		}
		name, _ := adapterOf(p)
		seen[name] = true
		rn := errNil(p, p.Ret[1])
		obj := p.Ret[0]
		dyn := ""
		if obj.Op == "iface" && obj.Typ != nil {
			dyn = types.TypeString(obj.Typ, func(pk *types.Package) string { return pk.Name() })
		}
		switch name {
		case "", "mock":
			c.check(rn == 1 && strings.HasSuffix(strings.ToLower(dyn), "mockpersister"), "selection", "mock", retPos(p), "adapter %q builds %s, error nil: %s", name, dyn, tv(rn))
		case "redis", "kafka":
			okk := rn == 1 && obj.Op == "iface"
			var impl *eng.Term
			if okk {
				impl = fieldBy(p, obj.Unwrap(), obj.Typ, func(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok })
			}
			if !c.check(okk && impl != nil && impl.Op == "iface", "selection", name, retPos(p), "adapter %q builds %s, error nil: %s", name, dyn, tv(rn)) {
				continue
			}
			in := types.TypeString(impl.Typ, func(pk *types.Package) string { return "" })
			cl := fieldBy(p, impl.Unwrap(), impl.Typ, func(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok })
			clt := ""
			if cl != nil && cl.Op == "iface" {
				clt = types.TypeString(cl.Typ, func(pk *types.Package) string { return "" })
			}
			if name == "redis" {
				c.check(strings.Contains(in, "Redis"), "selection", name+":adapter", retPos(p), "adapter %q builds %s", name, in)
				addr := optField(p, "RedisAddr")
				em := p.F.Eval(eng.Eq(addr, eng.Str(""), types.Typ[types.String]))
				real := ""
				for _, ev := range p.Events {
					if ev.Kind == "call" && strings.HasSuffix(ev.Name, "go-redis/v9.NewClient") {
						if v := memField(ev.Mem, ev.Arg(0).Unwrap(), "Addr"); v == addr {
							real = "addr"
						} else {
							real = "other"
						}
					}
				}
				switch em {
				case 1:
					c.check(strings.Contains(clt, "Logging") && real == "", "wiring", "redis:no-address", retPos(p), "without an address the client is %s", clt)
				case -1:
					c.check(strings.Contains(clt, "GoRedis") && real == "addr", "wiring", "redis:address", retPos(p), "with an address the client is %s (%s)", clt, real)
				default:
					c.fail("wiring", "redis:undecided", retPos(p), "the address does not decide the client: %s", c.cond(p))
				}
				ttl := fieldBy(p, impl.Unwrap(), impl.Typ, func(t types.Type) bool { return t.String() == "time.Duration" })
				want := optField(p, "RedisMarkerTTL")
				if p.F.Eval(eng.Gt(want, eng.Int(0))) == 1 {
					c.check(ttl == want, "wiring", "redis:ttl", retPos(p), "the marker time to live is %s", ttl)
				} else if ttl != want || p.F.Eval(eng.Gt(want, eng.Int(0))) == -1 {
					c.check(ttl != nil && p.F.Eval(eng.Gt(want, eng.Int(0))) == -1 && p.F.Eval(eng.Gt(ttl, eng.Int(0))) == 1, "wiring", "redis:ttl-default", retPos(p), "the default marker time to live is %s: %s", ttl, c.cond(p))
				}
			} else {
				c.check(strings.Contains(in, "Kafka"), "selection", name+":adapter", retPos(p), "adapter %q builds %s", name, in)
				tp := fieldBy(p, impl.Unwrap(), impl.Typ, func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String })
				want := optField(p, "KafkaTopic")
				if p.F.Eval(eng.Eq(want, eng.Str(""), types.Typ[types.String])) == -1 {
					c.check(tp == want, "wiring", "kafka:topic", retPos(p), "the topic is %s", tp)
				} else {
					s, _ := tp.IsStr()
					c.check(s == "vsa-commits", "wiring", "kafka:topic-default", retPos(p), "the default topic is %s", tp)
				}
				c.check(cl != nil && cl.Op == "iface", "wiring", "kafka:client", retPos(p), "the adapter has no producer")
			}
		case "postgres", "other":
			c.check(rn == -1, "selection", name, retPos(p), "adapter %s is accepted", name)
			c.check(obj == eng.Nil || obj.Unwrap() == eng.Nil, "selection", name+":nil", retPos(p), "a persister is returned with the error")
		default:
			c.fail("selection", "undecided", retPos(p), "the adapter name does not decide what is built: %s", c.cond(p))
		}
	}
	for _, s := range []string{"", "mock", "redis", "kafka", "other"} {
		c.check(seen[s], "selection", "case:"+s, f.Pos(), "no path for adapter %q", s)
	}
	// the exported constructor keeps a usable time to live
	for _, p := range c.run(c.engine(), c.mustFn(persPkg, "NewRedisPersister"), nil, nil, nil) {
		if p.End != "return" {
			continue
		}
		obj := p.Ret[0].Unwrap()
		ttl := fieldBy(p, obj, p.Ret[0].Typ, func(t types.Type) bool { return t.String() == "time.Duration" })
		if ttl == nil {
			ttl = fieldBy(p, obj, c.mustFn(persPkg, "NewRedisPersister").Signature.Results().At(0).Type(), func(t types.Type) bool { return t.String() == "time.Duration" })
		}
		in := p.Params[1]
		if p.F.Eval(eng.Gt(in, eng.Int(0))) == 1 {
			c.check(ttl == in, "wiring", "NewRedisPersister:ttl", retPos(p), "the marker time to live is %s", ttl)
		} else {
			c.check(ttl != nil && p.F.Eval(eng.Gt(in, eng.Int(0))) == -1 && p.F.Eval(eng.Gt(ttl, eng.Int(0))) == 1, "wiring", "NewRedisPersister:default", retPos(p), "a non-positive time to live becomes %s", ttl)
		}
	}
}

func optField(p *eng.Path, name string) *eng.Term { return eng.FieldNamed(p.Params[1], name) }

// fieldBy is the value of the only field of an object whose type matches.
func fieldBy(p *eng.Path, obj *eng.Term, t types.Type, ok func(types.Type) bool) *eng.Term {
	ptr := false
	if pt, k := t.(*types.Pointer); k {
		t, ptr = pt.Elem(), true
	}
	st, k := t.Underlying().(*types.Struct)
	if !k {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i).Type()) {
			if ptr {
				return p.LoadField(obj, st.Field(i), i)
			}
			return eng.Field(obj, i)
		}
	}
	return nil
}

// ---- P09: fencing ----

func ruleP09(c *Ctx) {
	c.rule("fence-checked", "an entry with a fencing token changes the counter only after a statement guarded by that token changed the counter row, in the same transaction")
	c.rule("fence-guard", "the guarded statement accepts the token exactly when none is stored or the stored one is not larger, and then stores the token")
	c.rule("fence-refused", "a refused token is an error (nothing of the batch is committed)")
	c.rule("fence-optional", "an entry without a token neither reads nor changes the stored token")
	for _, a := range c.adapters() {
		if a.kind != "sql" {
			continue
		}
		fn := fname(a.fn)
		with, without, refused := 0, 0, 0
		for _, p := range a.paths {
			if p.End != "return" {
				continue
			}
			xs := c.execs(p)
			tok := map[*eng.Term]*sqlExec{}
			for i := range xs {
				x := &xs[i]
				if x.st == nil {
					continue
				}
				r := x.role()
				if r == "token" || r == "scalar+token" {
					k, rest := x.whereKey()
					el := entryOf(k, a.entries)
					if el == nil {
						c.fail("fence-guard", fn+":key", x.ev.Pos, "the token update is not limited to the entry's key")
						continue
					}
					tok[el] = x
					ft := eng.FieldNamed(el, "FencingToken")
					c.check(p.F.Eval(eng.Eq(ft, eng.Nil, nil)) == -1, "fence-optional", fn+":nil-token", x.ev.Pos, "the stored token is changed for an entry without a token: %s", c.cond(p))
					c.check(tokenGuard(x, rest, ft), "fence-guard", fn+":guard", x.ev.Pos, "the statement does not accept exactly tokens that are not smaller than the stored one, storing the accepted token")
					st, _ := affected(p, x.ev)
					if st == -1 {
						refused++
						c.check(errNil(p, retErr(p)) == -1, "fence-refused", fn+":error", x.ev.Pos, "a refused token is not an error: %s", c.cond(p))
					}
				}
				if r == "scalar" || r == "scalar+token" {
					k, _ := x.whereKey()
					el := entryOf(k, a.entries)
					if el == nil {
						continue
					}
					ft := eng.FieldNamed(el, "FencingToken")
					switch p.F.Eval(eng.Eq(ft, eng.Nil, nil)) {
					case 1:
						without++
						c.check(tok[el] == nil, "fence-optional", fn+":no-token", x.ev.Pos, "an entry without a token is fenced")
					case -1:
						with++
						t := tok[el]
						if !c.check(t != nil, "fence-checked", fn+":fenced", x.ev.Pos, "an entry with a token is applied without checking it: %s", c.cond(p)) {
							continue
						}
						if t.ev == x.ev {
							continue
						}
						st, ra := affected(p, t.ev)
						c.check(st == 1 && ra.Seq < x.ev.Seq, "fence-checked", fn+":accepted", x.ev.Pos, "the counter is changed without knowing that the token was accepted: %s", c.cond(p))
						c.check(t.ev.Recv == x.ev.Recv, "fence-checked", fn+":same-tx", x.ev.Pos, "the token is checked outside the transaction")
					default:
						c.fail("fence-checked", fn+":ignored", x.ev.Pos, "the counter is changed without looking at the entry's token: %s", c.cond(p))
					}
				}
			}
		}
		c.check(with > 0 && without > 0 && refused > 0, "fence-checked", fn+":cases", a.fn.Pos(), "expected fenced, unfenced and refused entries (%d, %d, %d)", with, without, refused)
	}
}

// tokenGuard decides the guard and the stored value over the orderings of the stored token and
// the entry's token.
func tokenGuard(x *sqlExec, rest []*sqlNode, ft *eng.Term) bool {
	par := map[int]sqlVal{}
	for i, a := range x.args {
		v := stripConv(a)
		if v == ft || v != nil && v.Op == "deref" && v.Args[0] == ft {
			par[i+1] = sqlVal{n: 5}
		}
	}
	if len(par) == 0 {
		return false
	}
	for _, old := range []sqlVal{{null: true}, {n: 3}, {n: 5}, {n: 7}} {
		col := map[string]sqlVal{"last_token": old}
		acc := true
		for _, g := range rest {
			v, ok := evalSQL(g, col, par)
			if !ok {
				return false
			}
			if v.null || v.n == 0 {
				acc = false
			}
		}
		want := old.null || old.n <= 5
		if acc != want {
			return false
		}
		if acc {
			v, ok := evalSQL(x.st.set["last_token"], col, par)
			if !ok || v.null || v.n != 5 {
				return false
			}
		}
	}
	return true
}

// ---- P10: clients ----

func ruleP10(c *Ctx) {
	c.rule("pass-through", "the Redis client wrapper forwards context, script, keys and arguments unchanged, once, and returns the client's result and error")
	c.rule("configured-client", "the wrapper connects to the configured address")
	c.rule("cancelled", "the logging clients return the context's error when it is already done, and otherwise succeed after one log line")
	n := 0
	for _, f := range c.Funcs {
		if f.Parent() != nil || c.pkgOf(f) != persPkg || f.Signature.Recv() == nil || (f.Name() != "Eval" && f.Name() != "Produce") {
			continue
		}
		fn := fname(f)
		logging := strings.Contains(fn, "Logging")
		done, ok := 0, 0
		for _, p := range c.run(c.engine(), f, nil, nil, nil) {
			if p.End != "return" {
				c.check(p.End == "cut", "cancelled", fn+":end", p.EndPos, "the client can end by %s: %s", p.End, c.cond(p))
				continue
			}
			if !logging {
				var ev *eng.Event
				k := 0
				for _, e := range p.Events {
					if e.Kind == "call" && (strings.HasSuffix(e.Name, ".Eval") || strings.HasSuffix(e.Name, ".Produce") || strings.HasSuffix(e.Name, ").Do")) {
						ev = e
						k++
					}
				}
				if !c.check(k == 1, "pass-through", fn+":once", f.Pos(), "the client is called %d times: %s", k, c.cond(p)) {
					continue
				}
				for i := 1; i < len(p.Params); i++ {
					c.check(ev.Arg(i-1) == p.Params[i], "pass-through", fmt.Sprintf("%s:arg%d", fn, i), ev.Pos, "argument %d is %s", i, ev.Arg(i-1))
				}
				er := retErr(p)
				okr := er != nil && er.Ev != nil && (er.Ev == ev || er.Ev.Recv != nil && er.Ev.Recv.Ev == ev)
				if errNil(p, er) == 1 {
					// returned as nil after the client's own error was found nil
					okr = false
					for _, e := range p.Events {
						if x := errOf(e); e.Kind == "call" && x != nil && (e == ev || e.Recv != nil && e.Recv.Ev == ev) && errNil(p, x) == 1 {
							okr = true
						}
					}
				}
				c.check(okr, "pass-through", fn+":error", retPos(p), "the client's error is not returned: %s", er)
				n++
				continue
			}
			isDone := false
			for _, e := range p.Events {
				if e.Kind == "recv" && e.Addr != nil && e.Addr.Ev != nil && strings.HasSuffix(e.Addr.Ev.Name, "context.Context).Done") && e.Addr.Ev.Recv == p.Params[1] {
					isDone = true
				}
				if e.Kind == "call" && strings.HasSuffix(e.Name, "context.Context).Err") && e.Recv == p.Params[1] && len(e.Res) == 1 && errNil(p, e.Res[0]) == -1 {
					isDone = true
				}
			}
			er := retErr(p)
			if isDone {
				done++
				good := er != nil && er.Ev != nil && (strings.HasSuffix(er.Ev.Name, "context.Context).Err") || er.Ev.Name == "context.Cause")
				c.check(good, "cancelled", fn+":done", retPos(p), "with a done context the client returns %s", er)
			} else {
				ok++
				c.check(errNil(p, er) == 1, "cancelled", fn+":live", retPos(p), "with a live context the client returns %s: %s", er, c.cond(p))
			}
			n++
		}
		if logging {
			c.check(done > 0 && ok > 0, "cancelled", fn+":cases", f.Pos(), "the client does not look at the context")
		}
	}
	nf := c.mustFn(persPkg, "NewGoRedisEvaler")
	for _, p := range c.run(c.engine(), nf, nil, nil, nil) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "go-redis/v9.NewClient") {
				v := memField(ev.Mem, ev.Arg(0).Unwrap(), "Addr")
				c.check(v == p.Params[0], "configured-client", fname(nf), ev.Pos, "the client connects to %s", v)
			}
		}
	}
	c.min("configured-client", 1)
	c.check(n >= 5, "cancelled", "clients", token.NoPos, "expected three clients")
}

// ---- P11: retries through the shim ----

func ruleP11(c *Ctx) {
	c.rule("retry-idempotent", "the same batch handed to the shim again after an error must carry the same commit ids, or the adapter below must store a batch entirely or not at all; otherwise entries stored before the error are applied twice")
	f := c.shimFn()
	stable := true
	at := f.Pos()
	for _, p := range c.run(c.engine(), f, nil, nil, nil) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !hasSuffix(ev.Name, "IdempotentPersister).CommitBatch") {
				continue
			}
			for _, e := range sliceElems(p, ev, ev.Arg(1)) {
				id := eng.FieldNamed(e, "CommitID")
				if id == nil || freshPerCall(id) {
					stable = false
					at = ev.Pos
				}
			}
		}
	}
	for _, a := range c.adapters() {
		atomic := a.kind == "sql" // one transaction (rule P04)
		if a.kind != "sql" {
			// one backend call for the whole batch would be atomic as well
			atomic = true
			for _, p := range a.paths {
				n := 0
				for _, ev := range p.Events {
					if effectKind(ev) != "" {
						n++
					}
				}
				if n > 1 {
					atomic = false
				}
			}
		}
		c.check(stable || atomic, "retry-idempotent", fname(f)+"->"+a.typ.Obj().Name(), at, "commit ids are generated anew on every call while %s stores entry by entry: after a partial failure the retried batch applies the stored entries again", a.typ.Obj().Name())
	}
}

// freshPerCall: the value depends on randomness or the clock of this call.
func freshPerCall(t *eng.Term) bool {
	fresh := false
	visited := map[*eng.Term]bool{}
	var walk func(t *eng.Term)
	walk = func(t *eng.Term) {
		if t == nil || visited[t] {
			return
		}
		visited[t] = true
		if t.Ev != nil {
			if strings.HasPrefix(t.Ev.Name, "crypto/rand.") || strings.HasPrefix(t.Ev.Name, "math/rand") || t.Ev.Name == "time.Now" {
				fresh = true
			}
			for _, a := range t.Ev.Args {
				walk(a)
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, co := range t.Co {
			walk(co.T)
		}
	}
	walk(t)
	return fresh
}

// strPart is a constant or a value that appears in full in a string.
type strPart struct {
	lit string
	val *eng.Term
}

// strParts splits a string built by concatenation, Sprintf, Join or a Builder into constants
// and values that can be read back from it; nil when it cannot be decided.
func strParts(p *eng.Path, t *eng.Term) []strPart {
	t = stripAs(t)
	if t == nil {
		return nil
	}
	if s, ok := t.IsStr(); ok {
		return []strPart{{lit: s}}
	}
	join := func(ts []*eng.Term, sep string) []strPart {
		out := []strPart{}
		for i, x := range ts {
			if i > 0 && sep != "" {
				out = append(out, strPart{lit: sep})
			}
			ps := strParts(p, x)
			if ps == nil {
				return nil
			}
			out = append(out, ps...)
		}
		return out
	}
	switch t.Op {
	case "+", "concat", "strcat":
		return join(t.Args, "")
	case "conv":
		return strParts(p, t.Args[0])
	case "fld", "elem", "deref", "param", "load":
		return []strPart{{val: t}}
	}
	name, args := "", []*eng.Term(nil)
	var recv *eng.Term
	if t.Op == "call" {
		name, args = t.Name, t.Args
	} else if t.Ev != nil && t.Ev.Kind == "call" {
		name, args, recv = t.Ev.Name, t.Ev.Args, t.Ev.Recv
	}
	switch name {
	case "fmt.Sprintf":
		f, ok := args[0].IsStr()
		var vs []*eng.Term
		if len(args) > 1 {
			var ok2 bool
			vs, ok2 = eng.ListOf(args[1])
			ok = ok && ok2
		}
		if !ok {
			return nil
		}
		out := []strPart{}
		k := 0
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				out = append(out, strPart{lit: f})
				break
			}
			if i > 0 {
				out = append(out, strPart{lit: f[:i]})
			}
			if i+1 >= len(f) {
				return nil
			}
			switch v := f[i+1]; v {
			case '%':
				out = append(out, strPart{lit: "%"})
			case 's', 'v', 'q', 'x', 'd':
				if k >= len(vs) {
					return nil
				}
				ps := strParts(p, vs[k])
				if ps == nil {
					return nil
				}
				out = append(out, ps...)
				k++
			default:
				return nil // widths and precisions may cut or merge
			}
			f = f[i+2:]
		}
		if k != len(vs) {
			return nil
		}
		return out
	case "fmt.Sprint", "strings.Join":
		if vs, ok := eng.ListOf(args[0]); ok {
			sep := ""
			if name == "strings.Join" {
				if sep, ok = args[1].IsStr(); !ok {
					return nil
				}
			}
			return join(vs, sep)
		}
	case "strconv.Quote", "net/url.QueryEscape", "net/url.PathEscape", "strings.Clone", "strconv.Itoa":
		return strParts(p, args[0])
	case "encoding/hex.EncodeToString":
		return strParts(p, args[0])
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		out := []strPart{}
		for _, ev := range p.Events {
			if ev == t.Ev {
				return out
			}
			if ev.Kind != "call" || recv == nil || ev.Recv != recv {
				if ev.Kind == "call" && ev.Name == "fmt.Fprintf" && stripAs(ev.Arg(0)) == recv {
					return nil
				}
				continue
			}
			switch m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]; m {
			case "WriteString", "Write":
				ps := strParts(p, ev.Arg(0))
				if ps == nil {
					return nil
				}
				out = append(out, ps...)
			case "WriteByte", "WriteRune":
				n, ok := ev.Arg(0).IsInt()
				if !ok {
					return nil
				}
				out = append(out, strPart{lit: string(rune(n))})
			case "Grow", "Len", "Cap":
			default:
				return nil
			}
		}
	}
	return nil
}

// readsBack: the string holds each named field of an entry in full, and nothing else that varies
// from one delivery of the entry to the next.
func readsBack(p *eng.Path, t, entries *eng.Term, names ...string) bool {
	parts := strParts(p, t)
	if parts == nil {
		return false
	}
	for _, n := range names {
		ok := false
		for _, x := range parts {
			ok = ok || x.val != nil && entryField(x.val, entries, n)
		}
		if !ok {
			return false
		}
	}
	for _, x := range parts {
		if x.val == nil {
			continue
		}
		named := false
		for _, n := range names {
			named = named || entryField(x.val, entries, n)
		}
		if !named && !(x.val.Op == "fld" && entryOf(x.val, entries) == nil) && !(x.val.Op == "load" && entryOf(x.val, entries) == nil) {
			return false
		}
	}
	return true
}

// ttlUnits lists the units (in nanoseconds) a duration is turned into a number with.
func ttlUnits(v *eng.Term, dur func(*eng.Term) bool) map[int64]bool {
	out := map[int64]bool{}
	v.Derived(func(t *eng.Term) bool {
		name := ""
		var in []*eng.Term
		if t.Op == "call" {
			name, in = t.Name, t.Args
		} else if t.Ev != nil && t.Ev.Kind == "call" {
			name, in = t.Ev.Name, append([]*eng.Term{t.Ev.Recv}, t.Ev.Args...)
		}
		of := false
		for _, x := range append(in, t.Args...) {
			of = of || x != nil && (dur(stripConv(x)))
		}
		if !of {
			return false
		}
		switch name {
		case "(time.Duration).Seconds":
			out[1e9] = true
		case "(time.Duration).Milliseconds":
			out[1e6] = true
		case "(time.Duration).Microseconds":
			out[1e3] = true
		case "(time.Duration).Nanoseconds":
			out[1] = true
		case "(time.Duration).Minutes":
			out[60e9] = true
		case "(time.Duration).Hours":
			out[3600e9] = true
		}
		if (t.Op == "/" || t.Op == "quo") && len(t.Args) == 2 {
			if n, ok := t.Args[1].IsInt(); ok && dur(stripConv(t.Args[0])) {
				out[n] = true
			}
		}
		return false
	})
	if len(out) == 0 && v != nil && v.Derived(dur) {
		out[1] = true
	}
	return out
}

// ttlOK: the value is the configured duration in the given unit.
func ttlOK(v *eng.Term, dur func(*eng.Term) bool, unit int64) bool {
	us := ttlUnits(v, dur)
	return len(us) == 1 && us[unit]
}
