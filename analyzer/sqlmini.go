package main

import (
	"fmt"
	"strconv"
	"strings"
)

// A parser for the two statement forms the Postgres adapter uses.

type sqlNode struct {
	op   string // num str param col null call bin un
	s    string
	n    int
	kids []*sqlNode
}

type sqlStmt struct {
	verb     string // insert update
	table    string
	cols     []string
	vals     []*sqlNode
	conflict string // "", "nothing", "update"
	set      map[string]*sqlNode
	where    *sqlNode
}

func sqlLex(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r' || ch == ';':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case ch == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				j++
			}
			out = append(out, s[i:min(j+1, len(s))])
			i = j + 1
		case ch == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return append(out, "?")
			}
			out = append(out, strings.ToLower(s[i+1:i+1+j]))
			i += j + 2
		case ch == '$' || ch == '_' || ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
			out = append(out, strings.ToLower(s[i:j]))
			i = j
		default:
			for _, op := range []string{"<>", "!=", "<=", ">=", "::"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, op)
					i += len(op)
					goto next
				}
			}
			out = append(out, string(ch))
			i++
		next:
		}
	}
	return out
}

type sqlParser struct {
	t []string
	i int
}

type sqlError struct{ msg string }

func (p *sqlParser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}
func (p *sqlParser) next() string { s := p.peek(); p.i++; return s }
func (p *sqlParser) accept(ws ...string) bool {
	for k, w := range ws {
		if p.i+k >= len(p.t) || p.t[p.i+k] != w {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *sqlParser) expect(ws ...string) {
	if !p.accept(ws...) {
		panic(sqlError{fmt.Sprintf("expected %v at %q", ws, p.peek())})
	}
}

func parseSQL(src string) (st *sqlStmt, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(sqlError); ok {
				st, err = nil, fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	p := &sqlParser{t: sqlLex(src)}
	st = &sqlStmt{set: map[string]*sqlNode{}}
	switch {
	case p.accept("insert", "into"):
		st.verb = "insert"
		st.table = p.table()
		p.expect("(")
		for !p.accept(")") {
			st.cols = append(st.cols, p.next())
			p.accept(",")
		}
		p.expect("values", "(")
		for !p.accept(")") {
			st.vals = append(st.vals, p.expr())
			p.accept(",")
		}
		if p.accept("on", "conflict") {
			if p.accept("(") {
				for !p.accept(")") {
					if p.next() == "" {
						panic(sqlError{"unbalanced"})
					}
				}
			}
			if p.accept("do", "nothing") {
				st.conflict = "nothing"
			} else {
				st.conflict = "update"
				p.i = len(p.t)
			}
		}
	case p.accept("update"):
		st.verb = "update"
		st.table = p.table()
		p.expect("set")
		for {
			col := p.next()
			if p.accept(".") {
				col = p.next()
			}
			p.expect("=")
			st.set[col] = p.expr()
			if !p.accept(",") {
				break
			}
		}
		if p.accept("where") {
			st.where = p.expr()
		}
	default:
		panic(sqlError{"neither an insert nor an update"})
	}
	if p.peek() != "" {
		panic(sqlError{fmt.Sprintf("unexpected %q", p.peek())})
	}
	return st, nil
}

func (p *sqlParser) table() string {
	t := p.next()
	for p.accept(".") {
		t = p.next()
	}
	return t
}

func bin(op string, a, b *sqlNode) *sqlNode {
	return &sqlNode{op: "bin", s: op, kids: []*sqlNode{a, b}}
}

func (p *sqlParser) expr() *sqlNode {
	l := p.and()
	for p.accept("or") {
		l = bin("or", l, p.and())
	}
	return l
}
func (p *sqlParser) and() *sqlNode {
	l := p.not()
	for p.accept("and") {
		l = bin("and", l, p.not())
	}
	return l
}
func (p *sqlParser) not() *sqlNode {
	if p.accept("not") {
		return &sqlNode{op: "un", s: "not", kids: []*sqlNode{p.not()}}
	}
	l := p.add()
	switch w := p.peek(); w {
	case "=", "<>", "!=", "<", "<=", ">", ">=":
		p.i++
		if w == "!=" {
			w = "<>"
		}
		return bin(w, l, p.add())
	case "is":
		p.i++
		if p.accept("not", "null") {
			return &sqlNode{op: "un", s: "not", kids: []*sqlNode{{op: "un", s: "isnull", kids: []*sqlNode{l}}}}
		}
		p.expect("null")
		return &sqlNode{op: "un", s: "isnull", kids: []*sqlNode{l}}
	}
	return l
}
func (p *sqlParser) add() *sqlNode {
	l := p.mul()
	for {
		switch {
		case p.accept("+"):
			l = bin("+", l, p.mul())
		case p.accept("-"):
			l = bin("-", l, p.mul())
		default:
			return l
		}
	}
}
func (p *sqlParser) mul() *sqlNode {
	l := p.unary()
	for p.accept("*") {
		l = bin("*", l, p.unary())
	}
	return l
}
func (p *sqlParser) unary() *sqlNode {
	if p.accept("-") {
		return bin("-", &sqlNode{op: "num"}, p.unary())
	}
	n := p.prim()
	for p.accept("::") {
		p.next()
	}
	return n
}
func (p *sqlParser) prim() *sqlNode {
	t := p.next()
	switch {
	case t == "(":
		n := p.expr()
		p.expect(")")
		return n
	case t == "null":
		return &sqlNode{op: "null"}
	case strings.HasPrefix(t, "$"):
		n, err := strconv.Atoi(t[1:])
		if err != nil {
			panic(sqlError{"parameter " + t})
		}
		return &sqlNode{op: "param", n: n}
	case t != "" && t[0] >= '0' && t[0] <= '9':
		n, err := strconv.Atoi(t)
		if err != nil {
			panic(sqlError{"number " + t})
		}
		return &sqlNode{op: "num", n: n}
	case t != "" && t[0] == '\'':
		return &sqlNode{op: "str", s: t}
	case t == "" || t == "select" || t == "exists" || t == "case":
		panic(sqlError{"unsupported " + t})
	case t[0] == '_' || t[0] >= 'a' && t[0] <= 'z':
		if p.accept("(") {
			n := &sqlNode{op: "call", s: t}
			for !p.accept(")") {
				n.kids = append(n.kids, p.expr())
				p.accept(",")
			}
			return n
		}
		for p.accept(".") {
			t = p.next()
		}
		return &sqlNode{op: "col", s: t}
	}
	panic(sqlError{"unexpected " + t})
}

// sqlVal is a value with SQL's null.
type sqlVal struct {
	null bool
	n    int
}

func sqlBool(b bool) sqlVal {
	if b {
		return sqlVal{n: 1}
	}
	return sqlVal{}
}

// evalSQL interprets an expression over an abstract row (columns) and parameters: used on the
// orderings of a token and the stored token, and to normalise arithmetic.
func evalSQL(n *sqlNode, col map[string]sqlVal, par map[int]sqlVal) (sqlVal, bool) {
	switch n.op {
	case "num":
		return sqlVal{n: n.n}, true
	case "null":
		return sqlVal{null: true}, true
	case "col":
		v, ok := col[n.s]
		return v, ok
	case "param":
		v, ok := par[n.n]
		return v, ok
	case "un":
		v, ok := evalSQL(n.kids[0], col, par)
		if !ok {
			return v, false
		}
		if n.s == "isnull" {
			return sqlBool(v.null), true
		}
		if v.null {
			return v, true
		}
		return sqlBool(v.n == 0), true
	case "call":
		var vs []sqlVal
		for _, k := range n.kids {
			v, ok := evalSQL(k, col, par)
			if !ok {
				return v, false
			}
			vs = append(vs, v)
		}
		switch n.s {
		case "coalesce":
			for _, v := range vs {
				if !v.null {
					return v, true
				}
			}
			return sqlVal{null: true}, true
		case "greatest", "least":
			r := sqlVal{null: true}
			for _, v := range vs {
				if v.null {
					continue
				}
				if r.null || n.s == "greatest" && v.n > r.n || n.s == "least" && v.n < r.n {
					r = v
				}
			}
			return r, true
		}
		return sqlVal{}, false
	case "bin":
		a, ok := evalSQL(n.kids[0], col, par)
		if !ok {
			return a, false
		}
		b, ok := evalSQL(n.kids[1], col, par)
		if !ok {
			return b, false
		}
		switch n.s {
		case "and":
			if !a.null && a.n == 0 || !b.null && b.n == 0 {
				return sqlBool(false), true
			}
			if a.null || b.null {
				return sqlVal{null: true}, true
			}
			return sqlBool(true), true
		case "or":
			if !a.null && a.n != 0 || !b.null && b.n != 0 {
				return sqlBool(true), true
			}
			if a.null || b.null {
				return sqlVal{null: true}, true
			}
			return sqlBool(false), true
		}
		if a.null || b.null {
			return sqlVal{null: true}, true
		}
		switch n.s {
		case "+":
			return sqlVal{n: a.n + b.n}, true
		case "-":
			return sqlVal{n: a.n - b.n}, true
		case "*":
			return sqlVal{n: a.n * b.n}, true
		case "=":
			return sqlBool(a.n == b.n), true
		case "<>":
			return sqlBool(a.n != b.n), true
		case "<":
			return sqlBool(a.n < b.n), true
		case "<=":
			return sqlBool(a.n <= b.n), true
		case ">":
			return sqlBool(a.n > b.n), true
		case ">=":
			return sqlBool(a.n >= b.n), true
		}
	}
	return sqlVal{}, false
}

// conjuncts splits a WHERE clause.
func conjuncts(n *sqlNode) []*sqlNode {
	if n == nil {
		return nil
	}
	if n.op == "bin" && n.s == "and" {
		return append(conjuncts(n.kids[0]), conjuncts(n.kids[1])...)
	}
	return []*sqlNode{n}
}

// linSQL is an expression as coefficients over "col:x" and "$n" (constant under "").
func linSQL(n *sqlNode) (map[string]int, bool) {
	switch n.op {
	case "num":
		return map[string]int{"": n.n}, true
	case "col":
		return map[string]int{"col:" + n.s: 1}, true
	case "param":
		return map[string]int{fmt.Sprintf("$%d", n.n): 1}, true
	case "bin":
		a, ok1 := linSQL(n.kids[0])
		b, ok2 := linSQL(n.kids[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		r := map[string]int{}
		k := 1
		switch n.s {
		case "-":
			k = -1
		case "+":
		case "*":
			if len(a) == 1 && len(b) > 0 && hasIntKey(a, "") {
				for x, v := range b {
					r[x] = v * a[""]
				}
				return r, true
			}
			if len(b) == 1 && hasIntKey(b, "") {
				for x, v := range a {
					r[x] = v * b[""]
				}
				return r, true
			}
			return nil, false
		default:
			return nil, false
		}
		for x, v := range a {
			r[x] += v
		}
		for x, v := range b {
			r[x] += k * v
		}
		for x, v := range r {
			if v == 0 {
				delete(r, x)
			}
		}
		return r, true
	}
	return nil, false
}

func hasIntKey(m map[string]int, k string) bool { _, ok := m[k]; return ok }
