// Package eng is a path-sensitive, interprocedural dataflow engine over the
// SSA form of the analysed program. Values are abstracted by value-numbered
// terms (affine forms over opaque symbols), memory by a term store, branch
// conditions by an interval/equality domain over affine forms. Nothing is
// executed and no solver is involved: infeasible branches are pruned only by
// the abstract domain itself.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value.
type Term struct {
	Op   string
	Args []*Term
	Name string
	Val  constant.Value
	Obj  types.Object
	Fn   *ssa.Function
	Typ  types.Type
	Co   []Coef // for Op "lin"
	C    int64  // for Op "lin"
	Ev   *Event // event that produced the value, if any
	N    int
	ID   int
	K    string
}

// Coef is one addend of an affine form.
type Coef struct {
	T *Term
	N int64
}

var interned = map[string]*Term{}
var objIDs = map[types.Object]int{}
var fnIDs = map[*ssa.Function]int{}

func objID(o types.Object) int {
	if o == nil {
		return 0
	}
	if v, ok := o.(*types.Var); ok {
		o = v.Origin()
	}
	id, ok := objIDs[o]
	if !ok {
		id = len(objIDs) + 1
		objIDs[o] = id
	}
	return id
}

func fnID(f *ssa.Function) int {
	id, ok := fnIDs[f]
	if !ok {
		id = len(fnIDs) + 1
		fnIDs[f] = id
	}
	return id
}

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	if t.Name != "" {
		b.WriteString("'" + t.Name)
	}
	if t.Obj != nil {
		fmt.Fprintf(&b, "@%d%s", objID(t.Obj), t.Obj.Name())
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "$%d", fnID(t.Fn))
	}
	if t.N != 0 {
		fmt.Fprintf(&b, "~%d", t.N)
	}
	if t.Val != nil {
		b.WriteString("=" + t.Val.ExactString())
	}
	if t.Op == "lin" {
		for _, c := range t.Co {
			fmt.Fprintf(&b, "%+d*%d", c.N, c.T.ID)
		}
		fmt.Fprintf(&b, "%+d", t.C)
	}
	switch t.Op {
	case "iface", "alloc", "mkslice", "mkmap", "mkchan":
		// the numbering of objects is per path: objects of different paths may share a number
		if t.Typ != nil {
			b.WriteString(":" + t.Typ.String())
		}
	}
	if len(t.Args) > 0 {
		b.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Itoa(a.ID))
		}
		b.WriteByte(')')
	}
	k := b.String()
	if o, ok := interned[k]; ok {
		if o.Ev == nil {
			o.Ev = t.Ev
		}
		return o
	}
	t.K = k
	t.ID = len(interned) + 1
	n := t
	interned[k] = &n
	return &n
}

// ---- constructors ----

func Int(n int64) *Term { return mk(Term{Op: "lin", C: n}) }

var (
	Nil   = mk(Term{Op: "nil"})
	True  = mk(Term{Op: "bool", N: 1})
	False = mk(Term{Op: "bool", N: 2})
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Str(s string) *Term { return mk(Term{Op: "const", Val: constant.MakeString(s)}) }

func Sym(name string, typ types.Type, ev *Event) *Term {
	return mk(Term{Op: "sym", Name: name, Typ: typ, Ev: ev})
}

func App(op string, typ types.Type, args ...*Term) *Term {
	return mk(Term{Op: op, Args: args, Typ: typ})
}

func (t *Term) IsInt() (int64, bool) {
	if t.Op == "lin" && len(t.Co) == 0 {
		return t.C, true
	}
	return 0, false
}

func (t *Term) IsStr() (string, bool) {
	if t.Op == "const" && t.Val != nil && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

func (t *Term) IsBool() (val, ok bool) {
	if t.Op == "bool" {
		return t.N == 1, true
	}
	return false, false
}

// Unwrap strips interface wrappers.
func (t *Term) Unwrap() *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func parts(t *Term) ([]Coef, int64) {
	if t.Op == "lin" {
		return t.Co, t.C
	}
	return []Coef{{t, 1}}, 0
}

func mkLin(m map[*Term]int64, c int64, typ types.Type) *Term {
	var co []Coef
	for t, n := range m {
		if n != 0 {
			co = append(co, Coef{t, n})
		}
	}
	sort.Slice(co, func(i, j int) bool { return co[i].T.ID < co[j].T.ID })
	if len(co) == 1 && co[0].N == 1 && c == 0 {
		return co[0].T
	}
	return mk(Term{Op: "lin", Co: co, C: c, Typ: typ})
}

// Add returns a + k*b.
func AddK(a, b *Term, k int64) *Term {
	m := map[*Term]int64{}
	ca, c1 := parts(a)
	cb, c2 := parts(b)
	for _, x := range ca {
		m[x.T] += x.N
	}
	for _, x := range cb {
		m[x.T] += k * x.N
	}
	typ := a.Typ
	if typ == nil {
		typ = b.Typ
	}
	return mkLin(m, c1+k*c2, typ)
}

func Add(a, b *Term) *Term { return AddK(a, b, 1) }
func Sub(a, b *Term) *Term { return AddK(a, b, -1) }
func Neg(a *Term) *Term    { return AddK(Int(0), a, -1) }
func Scale(a *Term, k int64) *Term {
	return AddK(Int(0), a, k)
}

// Ge0 is the condition t >= 0.
func Ge0(t *Term) *Term {
	if n, ok := t.IsInt(); ok {
		return Bool(n >= 0)
	}
	if g, co, c := common(t); g > 1 {
		// g*form + c >= 0 exactly when form + floor(c/g) >= 0
		q := c / g
		if c%g < 0 {
			q--
		}
		t = mkLin(co, q, t.Typ)
	}
	return App("ge0", nil, t)
}

// common divides the coefficients of a linear term by their greatest common divisor.
func common(t *Term) (g int64, m map[*Term]int64, c int64) {
	co, c := parts(t)
	for _, x := range co {
		a, b := g, x.N
		for b != 0 {
			a, b = b, a%b
		}
		g = max(a, -a)
	}
	if g > 1 {
		m = map[*Term]int64{}
		for _, x := range co {
			m[x.T] = x.N / g
		}
	}
	return g, m, c
}

// Ge is the condition a >= b.
func Ge(a, b *Term) *Term { return Ge0(Sub(a, b)) }

// Gt is the condition a > b.
func Gt(a, b *Term) *Term { return Ge0(AddK(Sub(a, b), Int(1), -1)) }

// Eq0 is t == 0 for integer terms.
func Eq0(t *Term) *Term {
	if n, ok := t.IsInt(); ok {
		return Bool(n == 0)
	}
	co, _ := parts(t)
	if co[0].N < 0 {
		t = Neg(t)
	}
	if g, co, c := common(t); g > 1 {
		if c%g != 0 {
			return Bool(false)
		}
		t = mkLin(co, c/g, t.Typ)
	}
	return App("eq0", nil, t)
}

func Not(t *Term) *Term {
	if v, ok := t.IsBool(); ok {
		return Bool(!v)
	}
	switch t.Op {
	case "not":
		return t.Args[0]
	case "ge0":
		return Ge0(AddK(Neg(t.Args[0]), Int(1), -1))
	}
	return App("not", nil, t)
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// Eq builds an equality condition.
func Eq(a, b *Term, typ types.Type) *Term {
	if typ != nil && isIntType(typ) {
		return Eq0(Sub(a, b))
	}
	if typ != nil && isBoolType(typ) {
		if v, ok := a.IsBool(); ok {
			a, b = b, a
			_ = v
		}
		if v, ok := b.IsBool(); ok {
			if v {
				return a
			}
			return Not(a)
		}
	}
	if a == b {
		return True
	}
	if a.Op == "const" && b.Op == "const" {
		return Bool(constant.Compare(a.Val, token.EQL, b.Val))
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	if b.Op == "nil" && nonNil(a) {
		return False
	}
	if x, y := parts2(a), parts2(b); x != nil && len(x) == len(y) {
		var cs []*Term
		for i := range x {
			cs = append(cs, Eq(x[i], y[i], x[i].eqTyp(y[i])))
		}
		return And(cs...)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return App("eq", nil, a, b)
}

// parts2 lists the components of a composite value (array or struct) that is known in full.
func parts2(t *Term) []*Term {
	switch t.Op {
	case "arr":
		return t.Args
	case "zeroarr":
		at := t.Typ.Underlying().(*types.Array)
		if at.Len() > maxArr {
			return nil
		}
		var l []*Term
		for i := int64(0); i < at.Len(); i++ {
			l = append(l, Zero(at.Elem()))
		}
		return l
	}
	return nil
}

const maxArr = 8

// eqTyp is the type to compare a and b at.
func (a *Term) eqTyp(b *Term) types.Type {
	if a.Op == "lin" || b.Op == "lin" {
		return types.Typ[types.Int]
	}
	if a.Typ != nil {
		return a.Typ
	}
	return b.Typ
}

// And is the conjunction of conditions.
func And(cs ...*Term) *Term {
	var l []*Term
	for _, c := range cs {
		if v, ok := c.IsBool(); ok {
			if !v {
				return False
			}
			continue
		}
		l = append(l, c)
	}
	switch len(l) {
	case 0:
		return True
	case 1:
		return l[0]
	}
	return App("and", nil, l...)
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "mkslice", "mkmap", "mkchan", "closure", "func", "iface", "fa", "ia", "global", "list":
		return true
	case "call":
		switch t.Name {
		case "fmt.Errorf", "errors.New":
			return true
		}
	}
	return false
}

// Zero returns the zero value of a type.
func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsNumeric != 0:
			return mk(Term{Op: "const", Val: constant.MakeInt64(0), Name: "f"})
		}
		return Nil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = Zero(u.Field(i).Type())
		}
		return mk(Term{Op: "struct", Name: t.String(), Args: args, Typ: t})
	case *types.Array:
		return mk(Term{Op: "zeroarr", Name: t.String(), Typ: t})
	}
	return Nil
}

// Field projects a struct value.
func Field(t *Term, idx int) *Term {
	t2 := t
	if t2.Op == "iface" {
		t2 = t2.Args[0]
	}
	if t2.Op == "struct" {
		return t2.Args[idx]
	}
	if t2.Typ == nil {
		return mk(Term{Op: "fldn", Args: []*Term{t2}, N: idx + 1})
	}
	typ := t2.Typ
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	st, ok := typ.Underlying().(*types.Struct)
	if !ok || idx >= st.NumFields() {
		return mk(Term{Op: "fldn", Args: []*Term{t2}, N: idx + 1})
	}
	f := st.Field(idx)
	if t2.Op == "deref" {
		t2 = t2.Args[0] // the field of a copied object is the object's field
	}
	return mk(Term{Op: "fld", Args: []*Term{t2}, Obj: f, Typ: f.Type()})
}

// FieldNamed projects a struct value by field name (nil if absent).
func FieldNamed(t *Term, name string) *Term {
	t = t.Unwrap()
	if t.Typ == nil {
		return nil
	}
	st, ok := t.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return Field(t, i)
		}
	}
	return nil
}

// String renders a term for reports.
func (t *Term) varName() string {
	if t.Obj == nil {
		return t.Name
	}
	return t.Obj.Name()
}

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	switch t.Op {
	case "lin":
		if len(t.Co) == 0 {
			return fmt.Sprint(t.C)
		}
		var b strings.Builder
		for i, c := range t.Co {
			switch {
			case c.N == 1 && i == 0:
			case c.N == 1:
				b.WriteString("+")
			case c.N == -1:
				b.WriteString("-")
			default:
				fmt.Fprintf(&b, "%+d*", c.N)
			}
			b.WriteString(c.T.String())
		}
		if t.C != 0 {
			fmt.Fprintf(&b, "%+d", t.C)
		}
		return b.String()
	case "nil":
		return "nil"
	case "bool":
		return fmt.Sprint(t.N == 1)
	case "const":
		return t.Val.ExactString()
	case "sym":
		return t.Name
	case "fld", "fa":
		s := t.Args[0].String() + "." + t.Obj.Name()
		if t.Op == "fa" {
			return "&" + strings.TrimPrefix(s, "&")
		}
		return s
	case "elem", "ia":
		s := t.Args[0].String() + "[" + t.Args[1].String() + "]"
		if t.Op == "ia" {
			return "&" + strings.TrimPrefix(s, "&")
		}
		return s
	case "global":
		return "&" + t.varName()
	case "glob":
		return t.varName()
	case "alloc":
		return "new" + t.Name
	case "ge0":
		return "(" + t.Args[0].String() + ">=0)"
	case "eq0":
		return "(" + t.Args[0].String() + "==0)"
	case "eq":
		return "(" + t.Args[0].String() + "==" + t.Args[1].String() + ")"
	case "not":
		return "!" + t.Args[0].String()
	case "closure", "func":
		return "func:" + t.Fn.Name()
	case "iface":
		return t.Args[0].String()
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.String())
	}
	n := t.Op
	if t.Name != "" && t.Op != "struct" {
		n = t.Name
	}
	if t.N > 0 {
		n += fmt.Sprintf("#%d", t.N)
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// Walk visits t and its sub-terms.
func (t *Term) Walk(f func(*Term) bool) {
	if t == nil || !f(t) {
		return
	}
	for _, a := range t.Args {
		a.Walk(f)
	}
	for _, c := range t.Co {
		c.T.Walk(f)
	}
}

// Contains reports whether u occurs in t.
func (t *Term) Contains(u *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x == u {
			found = true
		}
		return !found
	})
	return found
}

// Derived reports whether t is computed (also through the events that produced
// its symbols) from a term satisfying f.
func (t *Term) Derived(f func(*Term) bool) bool {
	seenE := map[*Event]bool{}
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		for _, c := range t.Co {
			if rec(c.T) {
				return true
			}
		}
		if t.Ev != nil && !seenE[t.Ev] {
			seenE[t.Ev] = true
			for _, a := range t.Ev.Args {
				if rec(a) {
					return true
				}
			}
			if rec(t.Ev.Recv) || rec(t.Ev.Addr) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Float is a floating-point constant.
func Float(n int64) *Term {
	return mk(Term{Op: "const", Val: constant.ToFloat(constant.MakeInt64(n)), Name: "f"})
}

// Subst rebuilds t with f applied to every subterm; f returns nil to leave one as it is.
func Subst(t *Term, f func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	if r := f(t); r != nil {
		return r
	}
	switch t.Op {
	case "lin":
		r := Int(t.C)
		for _, c := range t.Co {
			r = AddK(r, Subst(c.T, f), c.N)
		}
		return r
	case "not":
		return Not(Subst(t.Args[0], f))
	case "ge0":
		return Ge0(Subst(t.Args[0], f))
	case "eq0":
		return Eq0(Subst(t.Args[0], f))
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = Subst(a, f)
		changed = changed || args[i] != a
	}
	if !changed {
		return t
	}
	n := *t
	n.Args, n.K, n.ID = args, "", 0
	return mk(n)
}
