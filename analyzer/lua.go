package main

import (
	"fmt"
	"strconv"
	"strings"
)

// A small path enumerator for the Redis scripts embedded in the adapters: the script text is a
// constant of the program, its paths are walked with symbolic KEYS and ARGV.

type luaVal struct {
	op   string // key argv num str nil bool call neg lin cmp table opaque
	n    float64
	s    string
	args []*luaVal
	co   map[string]float64 // for lin: coefficients over symbols; "" is the constant
}

func (v *luaVal) String() string {
	switch v.op {
	case "key":
		return fmt.Sprintf("KEYS[%d]", int(v.n))
	case "argv":
		return fmt.Sprintf("ARGV[%d]", int(v.n))
	case "num":
		return strconv.FormatFloat(v.n, 'g', -1, 64)
	case "str":
		return strconv.Quote(v.s)
	case "nil":
		return "nil"
	case "bool":
		return fmt.Sprint(v.n != 0)
	case "lin":
		return fmt.Sprint(v.co)
	}
	var a []string
	for _, x := range v.args {
		a = append(a, x.String())
	}
	return v.op + ":" + v.s + "(" + strings.Join(a, ",") + ")"
}

// luaCmd is one redis command on a path.
type luaCmd struct {
	name string
	args []*luaVal
	res  *luaVal
}

type luaPath struct {
	cmds  []luaCmd
	conds []string
	env   map[string]*luaVal
	facts map[string]bool
	done  bool
	ret   *luaVal
}

func (p *luaPath) clone() *luaPath {
	q := &luaPath{cmds: append([]luaCmd(nil), p.cmds...), conds: append([]string(nil), p.conds...), env: map[string]*luaVal{}, facts: map[string]bool{}, done: p.done, ret: p.ret}
	for k, v := range p.env {
		q.env[k] = v
	}
	for k, v := range p.facts {
		q.facts[k] = v
	}
	return q
}

// ---- lexer ----

type luaTok struct{ kind, s string }

func luaLex(src string) ([]luaTok, error) {
	var out []luaTok
	i := 0
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == ';':
			i++
		case strings.HasPrefix(src[i:], "--[["):
			j := strings.Index(src[i:], "]]")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 2
		case strings.HasPrefix(src[i:], "--"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case ch == '\'' || ch == '"':
			j := i + 1
			var b strings.Builder
			for j < len(src) && src[j] != ch {
				if src[j] == '\\' && j+1 < len(src) {
					j++
				}
				b.WriteByte(src[j])
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, luaTok{"str", b.String()})
			i = j + 1
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.' || src[j] == 'e' || src[j] == 'x') {
				j++
			}
			out = append(out, luaTok{"num", src[i:j]})
			i = j
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			w := src[i:j]
			k := "id"
			switch w {
			case "and", "or", "not", "if", "then", "else", "elseif", "end", "local", "return", "nil", "true", "false", "do", "while", "for", "repeat", "until", "function", "break", "in":
				k = "kw"
			}
			out = append(out, luaTok{k, w})
			i = j
		default:
			for _, op := range []string{"..", "==", "~=", "<=", ">="} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, luaTok{"op", op})
					i += len(op)
					goto next
				}
			}
			out = append(out, luaTok{"op", string(ch)})
			i++
		next:
		}
	}
	return out, nil
}

// ---- syntax tree ----

type luaNode struct {
	kind string // local assign if return expr do | num str id bin un call index nil bool
	s    string
	kids []*luaNode
	body [][]*luaNode
}

type luaParser struct {
	t []luaTok
	i int
}

type luaError struct{ msg string }

func (p *luaParser) peek() luaTok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return luaTok{"eof", ""}
}
func (p *luaParser) next() luaTok { t := p.peek(); p.i++; return t }
func (p *luaParser) is(s string) bool {
	t := p.peek()
	return (t.kind == "kw" || t.kind == "op") && t.s == s
}
func (p *luaParser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *luaParser) expect(s string) {
	if !p.accept(s) {
		panic(luaError{fmt.Sprintf("expected %q, found %q", s, p.peek().s)})
	}
}

func (p *luaParser) block() []*luaNode {
	var out []*luaNode
	for {
		t := p.peek()
		if t.kind == "eof" || p.is("end") || p.is("else") || p.is("elseif") {
			return out
		}
		switch {
		case p.accept("do"):
			b := p.block()
			p.expect("end")
			out = append(out, &luaNode{kind: "do", body: [][]*luaNode{b}})
		case p.accept("local"):
			var names []string
			names = append(names, p.next().s)
			for p.accept(",") {
				names = append(names, p.next().s)
			}
			n := &luaNode{kind: "local", s: strings.Join(names, ",")}
			if p.accept("=") {
				n.kids = append(n.kids, p.expr(0))
				for p.accept(",") {
					n.kids = append(n.kids, p.expr(0))
				}
			}
			out = append(out, n)
		case p.accept("return"):
			n := &luaNode{kind: "return"}
			if p.peek().kind != "eof" && !p.is("end") && !p.is("else") && !p.is("elseif") {
				n.kids = append(n.kids, p.expr(0))
				for p.accept(",") {
					n.kids = append(n.kids, p.expr(0))
				}
			}
			out = append(out, n)
		case p.accept("if"):
			n := &luaNode{kind: "if"}
			n.kids = append(n.kids, p.expr(0))
			p.expect("then")
			n.body = append(n.body, p.block())
			for {
				if p.accept("elseif") {
					n.kids = append(n.kids, p.expr(0))
					p.expect("then")
					n.body = append(n.body, p.block())
					continue
				}
				if p.accept("else") {
					n.body = append(n.body, p.block())
				}
				p.expect("end")
				break
			}
			out = append(out, n)
		case t.kind == "id":
			e := p.expr(0)
			if p.accept("=") {
				if e.kind != "id" {
					panic(luaError{"assignment to " + e.kind})
				}
				out = append(out, &luaNode{kind: "assign", s: e.s, kids: []*luaNode{p.expr(0)}})
			} else {
				out = append(out, &luaNode{kind: "expr", kids: []*luaNode{e}})
			}
		default:
			panic(luaError{"unsupported statement at " + t.s})
		}
	}
}

var luaPrec = map[string]int{"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "==": 3, "..": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

func (p *luaParser) expr(min int) *luaNode {
	var l *luaNode
	switch {
	case p.accept("not"):
		l = &luaNode{kind: "un", s: "not", kids: []*luaNode{p.expr(7)}}
	case p.accept("-"):
		l = &luaNode{kind: "un", s: "-", kids: []*luaNode{p.expr(7)}}
	case p.accept("#"):
		l = &luaNode{kind: "un", s: "#", kids: []*luaNode{p.expr(7)}}
	default:
		l = p.primary()
	}
	for {
		t := p.peek()
		if t.kind != "op" && t.kind != "kw" {
			return l
		}
		pr, ok := luaPrec[t.s]
		if !ok || pr <= min {
			return l
		}
		p.i++
		l = &luaNode{kind: "bin", s: t.s, kids: []*luaNode{l, p.expr(pr)}}
	}
}

func (p *luaParser) primary() *luaNode {
	t := p.next()
	var n *luaNode
	switch {
	case t.kind == "num":
		return &luaNode{kind: "num", s: t.s}
	case t.kind == "str":
		return &luaNode{kind: "str", s: t.s}
	case t.kind == "kw" && t.s == "nil":
		return &luaNode{kind: "nil"}
	case t.kind == "kw" && (t.s == "true" || t.s == "false"):
		return &luaNode{kind: "bool", s: t.s}
	case t.kind == "op" && t.s == "(":
		n = p.expr(0)
		p.expect(")")
	case t.kind == "op" && t.s == "{":
		n = &luaNode{kind: "table"}
		for !p.accept("}") {
			n.kids = append(n.kids, p.expr(0))
			p.accept(",")
		}
	case t.kind == "id":
		n = &luaNode{kind: "id", s: t.s}
	default:
		panic(luaError{"unsupported expression at " + t.s})
	}
	for {
		switch {
		case p.accept("["):
			k := p.expr(0)
			p.expect("]")
			n = &luaNode{kind: "index", kids: []*luaNode{n, k}}
		case p.accept("."):
			n = &luaNode{kind: "index", kids: []*luaNode{n, {kind: "str", s: p.next().s}}}
		case p.accept("("):
			c := &luaNode{kind: "call", kids: []*luaNode{n}}
			for !p.accept(")") {
				c.kids = append(c.kids, p.expr(0))
				p.accept(",")
			}
			n = c
		default:
			return n
		}
	}
}

// ---- path enumeration ----

// luaPaths lists the paths of a script; every redis call may succeed or find its key present.
func luaPaths(src string) (out []*luaPath, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(luaError); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	toks, err := luaLex(src)
	if err != nil {
		return nil, err
	}
	ps := &luaParser{t: toks}
	b := ps.block()
	if ps.peek().kind != "eof" {
		return nil, fmt.Errorf("unexpected %q", ps.peek().s)
	}
	out = luaBlock([]*luaPath{{env: map[string]*luaVal{}, facts: map[string]bool{}}}, b)
	if len(out) > 4096 {
		return nil, fmt.Errorf("too many paths")
	}
	return out, nil
}

func luaBlock(in []*luaPath, b []*luaNode) []*luaPath {
	for _, st := range b {
		var nx []*luaPath
		for _, p := range in {
			if p.done {
				nx = append(nx, p)
				continue
			}
			nx = append(nx, luaStmt(p, st)...)
		}
		in = nx
	}
	return in
}

func luaStmt(p *luaPath, st *luaNode) []*luaPath {
	switch st.kind {
	case "do":
		return luaBlock([]*luaPath{p}, st.body[0])
	case "local":
		names := strings.Split(st.s, ",")
		for i, n := range names {
			if i < len(st.kids) {
				p.env[n] = luaEval(p, st.kids[i])
			} else {
				p.env[n] = &luaVal{op: "nil"}
			}
		}
		return []*luaPath{p}
	case "assign":
		p.env[st.s] = luaEval(p, st.kids[0])
		return []*luaPath{p}
	case "expr":
		luaEval(p, st.kids[0])
		return []*luaPath{p}
	case "return":
		if len(st.kids) > 0 {
			p.ret = luaEval(p, st.kids[0])
		}
		p.done = true
		return []*luaPath{p}
	case "if":
		var out []*luaPath
		cur := []*luaPath{p}
		for i, cnd := range st.kids {
			var no []*luaPath
			for _, q := range cur {
				t, f := luaBranch(q, cnd)
				out = append(out, luaBlock(t, st.body[i])...)
				no = append(no, f...)
			}
			cur = no
		}
		if len(st.body) > len(st.kids) {
			out = append(out, luaBlock(cur, st.body[len(st.body)-1])...)
		} else {
			out = append(out, cur...)
		}
		return out
	}
	panic(luaError{"unsupported statement " + st.kind})
}

// luaBranch splits a path on a condition.
func luaBranch(p *luaPath, c *luaNode) (yes, no []*luaPath) {
	switch {
	case c.kind == "un" && c.s == "not":
		n, y := luaBranch(p, c.kids[0])
		return y, n
	case c.kind == "bin" && c.s == "and":
		y1, n1 := luaBranch(p, c.kids[0])
		no = n1
		for _, q := range y1 {
			y, n := luaBranch(q, c.kids[1])
			yes, no = append(yes, y...), append(no, n...)
		}
		return
	case c.kind == "bin" && c.s == "or":
		y1, n1 := luaBranch(p, c.kids[0])
		yes = y1
		for _, q := range n1 {
			y, n := luaBranch(q, c.kids[1])
			yes, no = append(yes, y...), append(no, n...)
		}
		return
	}
	v := luaEval(p, c)
	t := p
	f := p.clone()
	tv, fv := luaAssume(t, v, true), luaAssume(f, v, false)
	if tv {
		yes = append(yes, t)
	}
	if fv {
		no = append(no, f)
	}
	return
}

// luaAssume records a condition on a path; false when it contradicts what is known.
func luaAssume(p *luaPath, v *luaVal, want bool) bool {
	switch v.op {
	case "bool":
		return (v.n != 0) == want
	case "nil":
		return !want
	case "num", "str", "key", "table":
		return want
	case "lin", "argv":
		return want // numbers and strings are true in Lua
	}
	k := v.String()
	if v.op == "cmp" && v.s == "~=" {
		k = (&luaVal{op: "cmp", s: "==", args: v.args}).String()
		want = !want
	}
	if old, ok := p.facts[k]; ok {
		return old == want
	}
	// r == 1 and r == 0 exclude each other for the integer replies
	if v.op == "cmp" && (v.s == "==" || v.s == "~=") && want {
		if c, n, ok := luaCallEq(v); ok {
			for o := range p.facts {
				if p.facts[o] && strings.HasPrefix(o, "eq:"+c+"=") && o != fmt.Sprintf("eq:%s=%v", c, n) {
					return false
				}
			}
			p.facts[fmt.Sprintf("eq:%s=%v", c, n)] = true
		}
	}
	if v.op == "cmp" && (v.s == "==" || v.s == "~=") && !want {
		// replies known to be 0 or 1
		if c, n, ok := luaCallEq(v); ok && luaBinary(v) {
			o := 1 - n
			if p.facts[fmt.Sprintf("eq:%s=%v", c, n)] {
				return false
			}
			p.facts[fmt.Sprintf("eq:%s=%v", c, o)] = true
		}
	}
	p.facts[k] = want
	p.conds = append(p.conds, fmt.Sprintf("%s=%v", k, want))
	return true
}

func luaCallEq(v *luaVal) (string, float64, bool) {
	a, b := v.args[0], v.args[1]
	if a.op == "num" {
		a, b = b, a
	}
	if a.op == "call" && b.op == "num" {
		return a.String(), b.n, true
	}
	return "", 0, false
}

func luaBinary(v *luaVal) bool {
	for _, a := range v.args {
		if a.op == "call" {
			switch a.s[strings.LastIndex(a.s, " ")+1:] {
			case "SETNX", "EXISTS", "EXPIRE", "PEXPIRE", "HSETNX":
				return true
			}
		}
	}
	return false
}

func luaLin(v *luaVal) (map[string]float64, bool) {
	switch v.op {
	case "num":
		return map[string]float64{"": v.n}, true
	case "lin":
		return v.co, true
	case "argv":
		return map[string]float64{v.String(): 1}, true
	case "str":
		if f, err := strconv.ParseFloat(v.s, 64); err == nil {
			return map[string]float64{"": f}, true
		}
	}
	return nil, false
}

func luaMkLin(m map[string]float64) *luaVal {
	for k, v := range m {
		if v == 0 && k != "" {
			delete(m, k)
		}
	}
	if len(m) == 0 || len(m) == 1 && hasKey(m, "") {
		return &luaVal{op: "num", n: m[""]}
	}
	if len(m) == 2 && m[""] == 0 && hasKey(m, "") {
		delete(m, "")
	}
	return &luaVal{op: "lin", co: m}
}

func hasKey(m map[string]float64, k string) bool { _, ok := m[k]; return ok }

func luaEval(p *luaPath, n *luaNode) *luaVal {
	switch n.kind {
	case "num":
		f, err := strconv.ParseFloat(n.s, 64)
		if err != nil {
			panic(luaError{"number " + n.s})
		}
		return &luaVal{op: "num", n: f}
	case "str":
		return &luaVal{op: "str", s: n.s}
	case "nil":
		return &luaVal{op: "nil"}
	case "bool":
		b := 0.0
		if n.s == "true" {
			b = 1
		}
		return &luaVal{op: "bool", n: b}
	case "table":
		v := &luaVal{op: "table"}
		for _, k := range n.kids {
			v.args = append(v.args, luaEval(p, k))
		}
		return v
	case "id":
		if v, ok := p.env[n.s]; ok {
			return v
		}
		return &luaVal{op: "opaque", s: n.s}
	case "index":
		b := n.kids[0]
		k := luaEval(p, n.kids[1])
		if b.kind == "id" && k.op == "num" {
			switch b.s {
			case "KEYS":
				return &luaVal{op: "key", n: k.n}
			case "ARGV":
				return &luaVal{op: "argv", n: k.n}
			}
		}
		return &luaVal{op: "opaque", s: "index", args: []*luaVal{luaEval(p, b), k}}
	case "un":
		v := luaEval(p, n.kids[0])
		switch n.s {
		case "-":
			if m, ok := luaLin(v); ok {
				r := map[string]float64{}
				for k, c := range m {
					r[k] = -c
				}
				return luaMkLin(r)
			}
		case "not":
			return &luaVal{op: "opaque", s: "not", args: []*luaVal{v}}
		}
		return &luaVal{op: "opaque", s: n.s, args: []*luaVal{v}}
	case "bin":
		if n.s == "and" || n.s == "or" {
			// as a value: only the common default idiom is needed
			a, b := luaEval(p, n.kids[0]), luaEval(p, n.kids[1])
			if n.s == "or" && (a.op == "lin" || a.op == "argv" || a.op == "num") {
				return a
			}
			return &luaVal{op: "opaque", s: n.s, args: []*luaVal{a, b}}
		}
		a, b := luaEval(p, n.kids[0]), luaEval(p, n.kids[1])
		switch n.s {
		case "+", "-", "*":
			x, ok1 := luaLin(a)
			y, ok2 := luaLin(b)
			if ok1 && ok2 {
				r := map[string]float64{}
				if n.s == "*" {
					if b.op == "num" {
						x, y = y, x
					} else if a.op != "num" {
						break
					}
					for k, c := range y {
						r[k] = c * x[""]
					}
					return luaMkLin(r)
				}
				sg := 1.0
				if n.s == "-" {
					sg = -1
				}
				for k, c := range x {
					r[k] += c
				}
				for k, c := range y {
					r[k] += sg * c
				}
				return luaMkLin(r)
			}
		case "==", "~=", "<", ">", "<=", ">=":
			if a.op == "num" && b.op == "num" {
				ok := map[string]bool{"==": a.n == b.n, "~=": a.n != b.n, "<": a.n < b.n, ">": a.n > b.n, "<=": a.n <= b.n, ">=": a.n >= b.n}[n.s]
				r := &luaVal{op: "bool"}
				if ok {
					r.n = 1
				}
				return r
			}
			return &luaVal{op: "cmp", s: n.s, args: []*luaVal{a, b}}
		}
		return &luaVal{op: "opaque", s: n.s, args: []*luaVal{a, b}}
	case "call":
		f := n.kids[0]
		var args []*luaVal
		for _, k := range n.kids[1:] {
			args = append(args, luaEval(p, k))
		}
		if f.kind == "id" && f.s == "tonumber" && len(args) == 1 {
			if m, ok := luaLin(args[0]); ok {
				return luaMkLin(m)
			}
			return args[0]
		}
		if f.kind == "id" && f.s == "tostring" && len(args) == 1 {
			return args[0]
		}
		if f.kind == "index" && f.kids[0].kind == "id" && f.kids[0].s == "redis" && f.kids[1].kind == "str" && (f.kids[1].s == "call" || f.kids[1].s == "pcall") {
			if len(args) == 0 || args[0].op != "str" {
				panic(luaError{"a redis command whose name is not a constant"})
			}
			cmd := strings.ToUpper(args[0].s)
			r := &luaVal{op: "call", s: fmt.Sprintf("#%d %s", len(p.cmds), cmd), args: args[1:]}
			if f.kids[1].s == "pcall" {
				r.s = fmt.Sprintf("#%d p %s", len(p.cmds), cmd)
			}
			p.cmds = append(p.cmds, luaCmd{cmd, args[1:], r})
			return r
		}
		panic(luaError{"unsupported call"})
	}
	panic(luaError{"unsupported expression " + n.kind})
}

// luaTruth: what a path knows about a reply: 1 equal to n, -1 different, 0 unknown.
func (p *luaPath) replyIs(r *luaVal, n float64) int {
	if p.facts[fmt.Sprintf("eq:%s=%v", r.String(), n)] {
		return 1
	}
	if p.facts[fmt.Sprintf("eq:%s=%v", r.String(), 1-n)] {
		return -1
	}
	for _, k := range []string{(&luaVal{op: "cmp", s: "==", args: []*luaVal{r, {op: "num", n: n}}}).String(), (&luaVal{op: "cmp", s: "==", args: []*luaVal{{op: "num", n: n}, r}}).String()} {
		if v, ok := p.facts[k]; ok {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// truthy: whether a reply is true as a condition on the path.
func (p *luaPath) truthy(r *luaVal) int {
	if v, ok := p.facts[r.String()]; ok {
		if v {
			return 1
		}
		return -1
	}
	// compared with nil or false
	for _, lit := range []*luaVal{{op: "nil"}, {op: "bool", n: 0}} {
		for _, k := range []string{(&luaVal{op: "cmp", s: "==", args: []*luaVal{r, lit}}).String(), (&luaVal{op: "cmp", s: "==", args: []*luaVal{lit, r}}).String()} {
			if v, ok := p.facts[k]; ok {
				if v {
					return -1
				}
				return 1
			}
		}
	}
	return 0
}
