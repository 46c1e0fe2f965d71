package model

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/types"
)

// Expr is a value expression.
//
//	K = "const": V holds the single typed value of type T
//	K = "var":   the label read as T
//	K = "list":  T is a list type ("li"), A the elements
//	K = "fn":    Name applied to A, T is the result type
//	K = "bi":    built-in notation Name ("==") applied to A[0]; top level only
//
// Types are d i u b s y and their lists ld li lu lb ls ly.
type Expr struct {
	K    string  `json:"k"`
	T    string  `json:"t,omitempty"`
	V    *Label  `json:"v,omitempty"`
	Name string  `json:"n,omitempty"`
	A    []*Expr `json:"a,omitempty"`
}

func Const(l Label) *Expr {
	return &Expr{K: "const", T: l.onlyType(), V: &l}
}
func Var(t string) *Expr              { return &Expr{K: "var", T: t} }
func List(t string, a ...*Expr) *Expr { return &Expr{K: "list", T: t, A: a} }
func Fn(t, name string, a ...*Expr) *Expr {
	return &Expr{K: "fn", T: t, Name: name, A: a}
}
func BI(sym string, a *Expr) *Expr { return &Expr{K: "bi", T: "b", Name: sym, A: []*Expr{a}} }

func (l Label) onlyType() string {
	switch {
	case l.D != nil:
		return "d"
	case l.I != nil:
		return "i"
	case l.U != nil:
		return "u"
	case l.B != nil:
		return "b"
	case l.S != nil:
		return "s"
	case l.Y != nil:
		return "y"
	}
	return ""
}

// Val is the result of evaluating an expression; Err means evaluation failed.
type Val struct {
	T   string
	Err bool
	D   float64
	I   int64
	U   uint64
	B   bool
	S   string // strings and bytes
	L   []Val
}

func (v Val) key() string {
	if v.Err {
		return "E"
	}
	return fmt.Sprintf("%s|%v|%d|%d|%v|%q|%v", v.T, v.D, v.I, v.U, v.B, v.S, v.L)
}

func bval(b bool) Val { return Val{T: "b", B: b} }

var errVal = Val{Err: true}

// Outcome is the set of results an implementation may give. It has one element unless an evaluation
// error occurred below a connective, where the order of evaluation and folding is not specified.
type Outcome struct {
	Vs []Val
	// Taint: an error occurred somewhere below and was absorbed.
	Taint bool
}

func one(v Val) Outcome { return Outcome{Vs: []Val{v}} }

func (o *Outcome) add(v Val) {
	for _, x := range o.Vs {
		if x.key() == v.key() {
			return
		}
	}
	o.Vs = append(o.Vs, v)
}

func (o Outcome) MayErr() bool {
	for _, v := range o.Vs {
		if v.Err {
			return true
		}
	}
	return false
}

// Exact returns the single non-error result, if there is one and nothing was absorbed.
func (o Outcome) Exact() (Val, bool) {
	if len(o.Vs) == 1 && !o.Vs[0].Err && !o.Taint {
		return o.Vs[0], true
	}
	return Val{}, false
}

func (o Outcome) Allows(b bool, err bool) bool {
	for _, v := range o.Vs {
		if v.Err == err && (err || v.B == b) {
			return true
		}
	}
	return false
}

func (o Outcome) String() string {
	var ss []string
	for _, v := range o.Vs {
		switch {
		case v.Err:
			ss = append(ss, "error")
		case v.T == "b":
			ss = append(ss, fmt.Sprint(v.B))
		default:
			ss = append(ss, v.key())
		}
	}
	return strings.Join(ss, " or ")
}

func labelVal(l Label, t string) Val {
	switch {
	case t == "d" && l.D != nil:
		return Val{T: t, D: float64(*l.D)}
	case t == "i" && l.I != nil:
		return Val{T: t, I: *l.I}
	case t == "u" && l.U != nil:
		return Val{T: t, U: *l.U}
	case t == "b" && l.B != nil:
		return Val{T: t, B: *l.B}
	case t == "s" && l.S != nil:
		return Val{T: t, S: string(*l.S)}
	case t == "y" && l.Y != nil:
		return Val{T: t, S: string(*l.Y)}
	}
	return errVal
}

// Desugar turns built-in notation into the function it abbreviates.
func (e *Expr) Desugar() *Expr {
	if e.K != "bi" {
		return e
	}
	r := e.A[0]
	switch e.Name {
	case "~=":
		return Fn("b", "regex", r, Var("s"))
	case "::":
		return Fn("b", "type", r)
	}
	vt := r.T
	if strings.HasPrefix(vt, "l") {
		vt = vt[1:]
	}
	return Fn("b", symName[e.Name], Var(vt), r)
}

var symName = map[string]string{"==": "eq", "!=": "ne", "<": "lt", ">": "gt", "<=": "le", ">=": "ge",
	"*=": "contains", "^=": "hasPrefix", "$=": "hasSuffix", "~=": "regex", "::": "type"}

// Eval evaluates a well-typed expression on a label.
func (e *Expr) Eval(l Label) Outcome {
	e = e.Desugar()
	switch e.K {
	case "const":
		return one(labelVal(*e.V, e.T))
	case "var":
		return one(labelVal(l, e.T))
	case "list":
		return product(e.A, l, func(vs []Val) Val { return Val{T: e.T, L: append([]Val{}, vs...)} })
	}
	switch e.Name {
	case "and":
		return connective(e.A[0].Eval(l), e.A[1].Eval(l), func(a, b bool) bool { return a && b }, false)
	case "or":
		return connective(e.A[0].Eval(l), e.A[1].Eval(l), func(a, b bool) bool { return a || b }, true)
	case "not":
		o := e.A[0].Eval(l)
		var r Outcome
		r.Taint = o.Taint
		for _, v := range o.Vs {
			if v.Err {
				r.Taint = true
				r.add(bval(true))
			} else {
				r.add(bval(!v.B))
			}
		}
		if o.Taint || len(o.Vs) > 1 {
			r.add(errVal)
		}
		return r
	case "eq", "ne", "lt", "le", "gt", "ge":
		o1, o2 := e.A[0].Eval(l), e.A[1].Eval(l)
		r := Outcome{Taint: o1.Taint || o2.Taint}
		for _, a := range o1.Vs {
			for _, b := range o2.Vs {
				if a.Err || b.Err {
					r.add(bval(false)) // documented: a comparison with an unavailable side is false
				} else {
					r.add(bval(compareVals(e.Name, a, b)))
				}
			}
		}
		if r.Taint {
			r.add(bval(false))
		}
		return r
	case "type":
		o := e.A[0].Eval(l)
		r := Outcome{Taint: o.Taint}
		for _, v := range o.Vs {
			r.add(bval(!v.Err))
		}
		if o.Taint {
			r.add(bval(true))
			r.add(bval(false))
		}
		return r
	}
	return product(e.A, l, func(vs []Val) Val { return apply(e, vs) })
}

func connective(a, b Outcome, f func(a, b bool) bool, dominant bool) Outcome {
	r := Outcome{Taint: a.Taint || b.Taint}
	for _, x := range a.Vs {
		for _, y := range b.Vs {
			if !x.Err && !y.Err {
				r.add(bval(f(x.B, y.B)))
				continue
			}
			r.Taint = true
			r.add(bval(f(x.B && !x.Err, y.B && !y.Err)))
			if (!x.Err && x.B == dominant) || (!y.Err && y.B == dominant && dominant) {
				continue // short circuit, from either side for or
			}
			r.add(errVal)
		}
	}
	if a.Taint || b.Taint {
		r.add(errVal)
	}
	return r
}

func product(args []*Expr, l Label, f func([]Val) Val) Outcome {
	outs := make([]Outcome, len(args))
	r := Outcome{}
	for i, a := range args {
		outs[i] = a.Eval(l)
		r.Taint = r.Taint || outs[i].Taint
	}
	vs := make([]Val, len(args))
	var rec func(i int)
	rec = func(i int) {
		if i == len(args) {
			for _, v := range vs {
				if v.Err {
					r.add(errVal)
					return
				}
			}
			r.add(f(vs))
			return
		}
		for _, v := range outs[i].Vs {
			vs[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	if r.Taint {
		r.add(errVal)
	}
	return r
}

func compareVals(op string, a, b Val) bool {
	c := 0
	switch a.T {
	case "d":
		switch op {
		case "eq":
			return a.D == b.D
		case "ne":
			return a.D != b.D
		case "lt":
			return a.D < b.D
		case "le":
			return a.D <= b.D
		case "gt":
			return a.D > b.D
		case "ge":
			return a.D >= b.D
		}
	case "i":
		c = cmp(a.I < b.I, a.I > b.I)
	case "u":
		c = cmp(a.U < b.U, a.U > b.U)
	case "b":
		c = cmp(!a.B && b.B, a.B && !b.B)
	case "s", "y":
		c = bytes.Compare([]byte(a.S), []byte(b.S))
	}
	switch op {
	case "eq":
		return c == 0
	case "ne":
		return c != 0
	case "lt":
		return c < 0
	case "le":
		return c <= 0
	case "gt":
		return c > 0
	}
	return c >= 0
}

func cmp(lt, gt bool) int {
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	return 0
}

// pyIndex maps a negative index into the list by Euclidean remainder.
func pyIndex(i int64, n int) int64 {
	if i < 0 {
		i %= int64(n)
		if i < 0 {
			i += int64(n)
		}
	}
	return i
}

func apply(e *Expr, v []Val) Val {
	if IsUser(e.Name) {
		return UserApply(e.Name, e.T, Ctx, v)
	}
	switch e.Name {
	case "print":
		return v[0]
	case "contains":
		if e.A[1].T == "s" {
			return bval(strings.Contains(v[0].S, v[1].S))
		}
		for _, x := range v[1].L {
			if compareVals("eq", v[0], x) {
				return bval(true)
			}
		}
		return bval(false)
	case "hasPrefix":
		return bval(strings.HasPrefix(v[0].S, v[1].S))
	case "hasSuffix":
		return bval(strings.HasSuffix(v[0].S, v[1].S))
	case "eqFold":
		return bval(strings.EqualFold(v[0].S, v[1].S))
	case "toLower":
		return Val{T: "s", S: strings.ToLower(v[0].S)}
	case "toUpper":
		return Val{T: "s", S: strings.ToUpper(v[0].S)}
	case "regex":
		re, err := regexp.Compile(v[0].S)
		if err != nil {
			return errVal
		}
		return bval(re.MatchString(v[1].S))
	case "length":
		if v[0].L != nil || strings.HasPrefix(v[0].T, "l") {
			return Val{T: "i", I: int64(len(v[0].L))}
		}
		return Val{T: "i", I: int64(len(v[0].S))}
	case "elem":
		n := len(v[0].L)
		if n == 0 {
			return errVal
		}
		i := pyIndex(v[1].I, n)
		if i >= int64(n) {
			return errVal
		}
		return v[0].L[i]
	case "range":
		n := len(v[0].L)
		if n == 0 {
			return errVal
		}
		from, to := pyIndex(v[1].I, n), pyIndex(v[2].I, n)
		if from > int64(n) || to > int64(n) || from > to {
			return errVal
		}
		return Val{T: e.T, L: append([]Val{}, v[0].L[from:to]...)}
	}
	panic("model: unknown function " + e.Name)
}

// HasVar reports whether a variable occurs.
func (e *Expr) HasVar() bool {
	if e.K == "var" || e.K == "bi" || e.K == "fn" && strings.HasPrefix(e.Name, "ctx_") {
		return true
	}
	for _, a := range e.A {
		if a.HasVar() {
			return true
		}
	}
	return false
}

// Composable reports whether a well-typed expression composes (constant parameters must be constant and valid).
func (e *Expr) Composable() bool {
	d := e.Desugar()
	for _, a := range d.A {
		if !a.Composable() {
			return false
		}
	}
	if d.K == "fn" && d.Name == "regex" {
		o := d.A[0].Eval(Label{})
		if d.A[0].HasVar() || o.MayErr() {
			return false
		}
		if _, err := regexp.Compile(o.Vs[0].S); err != nil {
			return false
		}
	}
	if d.K == "fn" && strings.HasPrefix(d.Name, "ufc_") && !d.A[0].HasVar() {
		if o := d.A[0].Eval(Label{}); !o.MayErr() && o.Vs[0].S == "b" {
			return false
		}
	}
	if d.K == "fn" && d.Name == "contains" && strings.HasPrefix(d.A[1].T, "l") {
		if d.A[1].HasVar() || d.A[1].Eval(Label{}).MayErr() {
			return false
		}
	}
	return true
}

// Impure reports whether a constant parameter calls print or now, which need not be foldable.
func (e *Expr) Impure() bool {
	effect := func(e *Expr) (r bool) {
		e.Walk(func(x *Expr) { r = r || x.K == "fn" && (x.Name == "print" || x.Name == "now") })
		return r
	}
	r := false
	e.Walk(func(x *Expr) {
		d := x.Desugar()
		r = r || d.K == "fn" && d.Name == "regex" && effect(d.A[0])
		r = r || d.K == "fn" && strings.HasPrefix(d.Name, "ufc_") && effect(d.A[0])
		r = r || d.K == "fn" && d.Name == "contains" && strings.HasPrefix(d.A[1].T, "l") && effect(d.A[1])
	})
	return r
}

// Size counts expression nodes.
func (e *Expr) Size() int {
	n := 1
	for _, a := range e.A {
		n += a.Size()
	}
	return n
}

func (e *Expr) Walk(f func(*Expr)) {
	f(e)
	for _, a := range e.A {
		a.Walk(f)
	}
}

var AstType = map[string]types.Type{
	"d": types.SINGLE_DOUBLE, "i": types.SINGLE_INT, "u": types.SINGLE_UINT, "b": types.SINGLE_BOOL, "s": types.SINGLE_STRING, "y": types.SINGLE_BYTES,
	"ld": types.LIST_DOUBLE, "li": types.LIST_INT, "lu": types.LIST_UINT, "lb": types.LIST_BOOL, "ls": types.LIST_STRING, "ly": types.LIST_BYTES,
}

func keyword(s string) *ast.Keyword { return &ast.Keyword{Value: s} }

// ToAST builds the expression with the constructor functions.
func (e *Expr) ToAST(top bool) *ast.Expr {
	var x *ast.Expr
	switch e.K {
	case "const":
		switch e.T {
		case "d":
			x = ast.NewDoubleConst(float64(*e.V.D))
		case "i":
			x = ast.NewIntConst(*e.V.I)
		case "u":
			x = ast.NewUintConst(*e.V.U)
		case "b":
			if *e.V.B {
				x = ast.NewTrue()
			} else {
				x = ast.NewFalse()
			}
		case "s":
			x = ast.NewStringConst(string(*e.V.S))
		case "y":
			x = ast.NewBytesConst(bareBytes(*e.V.Y))
		}
	case "var":
		x = ast.NewVar(AstType[e.T])
	case "list":
		as := make([]*ast.Expr, len(e.A))
		for i := range e.A {
			as[i] = e.A[i].ToAST(false)
		}
		x = ast.NewList(AstType[e.T], as...)
	case "fn":
		as := make([]*ast.Expr, len(e.A))
		for i := range e.A {
			as[i] = e.A[i].ToAST(false)
		}
		if top {
			return ast.NewFunction(e.Name, as...)
		}
		return ast.NewNestedFunction(e.Name, as...)
	case "bi":
		a := e.A[0].ToAST(false)
		switch e.Name {
		case "==":
			return ast.NewEqual(a)
		case "!=":
			return ast.NewNotEqual(a)
		case "<":
			return ast.NewLessThan(a)
		case "<=":
			return ast.NewLessEqual(a)
		case ">":
			return ast.NewGreaterThan(a)
		case ">=":
			return ast.NewGreaterEqual(a)
		case "~=":
			return ast.NewRegex(a)
		case "*=":
			return ast.NewHasElem(a)
		case "^=":
			return ast.NewHasPrefix(a)
		case "$=":
			return ast.NewHasSuffix(a)
		case "::":
			return ast.NewType(a)
		}
	}
	if x == nil {
		panic(fmt.Sprintf("model: bad expr %+v", e))
	}
	if top {
		x.RightArrow = keyword("->")
	}
	return x
}
