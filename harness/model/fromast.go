package model

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/types"
)

// FromAST reads a grammar of the code under test, field by field, into the model.
// Nested operators of one kind are flattened (they are associative).
func FromAST(g *ast.Grammar) (*Grammar, error) {
	r := &Grammar{}
	if g.TopPattern == nil {
		for _, d := range g.PatternDecls {
			if d.Name == "main" {
				p, err := PatternFromAST(d.Pattern)
				if err != nil {
					return nil, err
				}
				r.Main = p
			}
		}
		if r.Main == nil {
			return nil, fmt.Errorf("model: grammar without a main pattern")
		}
	} else {
		p, err := PatternFromAST(g.TopPattern)
		if err != nil {
			return nil, err
		}
		r.Main = p
	}
	for _, d := range g.PatternDecls {
		if d.Name == "main" {
			continue
		}
		p, err := PatternFromAST(d.Pattern)
		if err != nil {
			return nil, err
		}
		r.Decls = append(r.Decls, Decl{Name: d.Name, P: p})
	}
	return r, nil
}

func flatten(k string, ps ...*Pattern) *Pattern {
	r := &Pattern{K: k}
	for _, p := range ps {
		if p.K == k {
			r.A = append(r.A, p.A...)
		} else {
			r.A = append(r.A, p)
		}
	}
	return r
}

func PatternFromAST(p *ast.Pattern) (*Pattern, error) {
	if p == nil {
		return nil, fmt.Errorf("model: nil pattern")
	}
	one := func(k string, q *ast.Pattern) (*Pattern, error) {
		x, err := PatternFromAST(q)
		if err != nil {
			return nil, err
		}
		return &Pattern{K: k, A: []*Pattern{x}}, nil
	}
	two := func(k string, a, b *ast.Pattern) (*Pattern, error) {
		x, err := PatternFromAST(a)
		if err != nil {
			return nil, err
		}
		y, err := PatternFromAST(b)
		if err != nil {
			return nil, err
		}
		return flatten(k, x, y), nil
	}
	switch {
	case p.Empty != nil:
		return PEmpty(), nil
	case p.ZAny != nil:
		return PAny(), nil
	case p.TreeNode != nil:
		n, err := NameFromAST(p.TreeNode.Name)
		if err != nil {
			return nil, err
		}
		x, err := PatternFromAST(p.TreeNode.Pattern)
		if err != nil {
			return nil, err
		}
		return PNode(n, x), nil
	case p.LeafNode != nil:
		e, err := ExprFromAST(p.LeafNode.Expr)
		if err != nil {
			return nil, err
		}
		return PLeaf(e), nil
	case p.Concat != nil:
		return two("concat", p.Concat.LeftPattern, p.Concat.RightPattern)
	case p.Or != nil:
		return two("or", p.Or.LeftPattern, p.Or.RightPattern)
	case p.And != nil:
		return two("and", p.And.LeftPattern, p.And.RightPattern)
	case p.Interleave != nil:
		return two("inter", p.Interleave.LeftPattern, p.Interleave.RightPattern)
	case p.ZeroOrMore != nil:
		return one("star", p.ZeroOrMore.Pattern)
	case p.Reference != nil:
		return PRef(p.Reference.Name), nil
	case p.Not != nil:
		return one("not", p.Not.Pattern)
	case p.Contains != nil:
		return one("contains", p.Contains.Pattern)
	case p.Optional != nil:
		return one("opt", p.Optional.Pattern)
	}
	return nil, fmt.Errorf("model: empty pattern")
}

func NameFromAST(n *ast.NameExpr) (*Name, error) {
	if n == nil {
		return nil, fmt.Errorf("model: nil name")
	}
	switch {
	case n.AnyName != nil:
		return NAny(), nil
	case n.AnyNameExcept != nil:
		x, err := NameFromAST(n.AnyNameExcept.Except)
		if err != nil {
			return nil, err
		}
		return NExcept(x), nil
	case n.NameChoice != nil:
		x, err := NameFromAST(n.NameChoice.Left)
		if err != nil {
			return nil, err
		}
		y, err := NameFromAST(n.NameChoice.Right)
		if err != nil {
			return nil, err
		}
		return NChoice(x, y).flat(), nil
	case n.Name != nil:
		v := n.Name
		switch {
		case v.DoubleValue != nil:
			return NLit(LD(*v.DoubleValue)), nil
		case v.IntValue != nil:
			return NLit(LI(*v.IntValue)), nil
		case v.UintValue != nil:
			return NLit(LU(*v.UintValue)), nil
		case v.BoolValue != nil:
			return NLit(LB(*v.BoolValue)), nil
		case v.StringValue != nil:
			return NLit(LS(*v.StringValue)), nil
		case v.BytesValue != nil:
			return NLit(LY(string(v.BytesValue))), nil
		}
	}
	return nil, fmt.Errorf("model: empty name")
}

func (n *Name) flat() *Name {
	if n.K == "except" {
		return NExcept(n.A[0].flat())
	}
	if n.K != "choice" {
		return n
	}
	r := &Name{K: "choice"}
	for _, a := range n.A {
		if a = a.flat(); a.K == "choice" {
			r.A = append(r.A, a.A...)
		} else {
			r.A = append(r.A, a)
		}
	}
	if len(r.A) == 1 {
		return r.A[0]
	}
	return r
}

var modelType = map[types.Type]string{}

func init() {
	for k, v := range AstType {
		modelType[v] = k
	}
}

// FnResult is the result type of a built-in function ("" if the function or its arity is unknown).
func FnResult(name string, args []*Expr) string {
	if IsUser(name) || strings.HasPrefix(name, "UF_") {
		in := make([]string, len(args))
		for i := range args {
			in[i] = args[i].T
		}
		return UserOut(name, in)
	}
	switch name {
	case "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "contains", "hasPrefix", "hasSuffix", "eqFold", "regex":
		if len(args) == 2 {
			return "b"
		}
	case "not", "type":
		if len(args) == 1 {
			return "b"
		}
	case "toLower", "toUpper":
		if len(args) == 1 {
			return "s"
		}
	case "length":
		if len(args) == 1 {
			return "i"
		}
	case "print":
		if len(args) == 1 {
			return args[0].T
		}
	case "elem":
		if len(args) == 2 && strings.HasPrefix(args[0].T, "l") {
			return args[0].T[1:]
		}
	case "range":
		if len(args) == 3 {
			return args[0].T
		}
	}
	return ""
}

func ExprFromAST(e *ast.Expr) (*Expr, error) {
	if e == nil {
		return nil, fmt.Errorf("model: nil expression")
	}
	many := func(es []*ast.Expr) ([]*Expr, error) {
		var r []*Expr
		for _, x := range es {
			y, err := ExprFromAST(x)
			if err != nil {
				return nil, err
			}
			r = append(r, y)
		}
		return r, nil
	}
	switch {
	case e.Terminal != nil:
		t := e.Terminal
		switch {
		case t.DoubleValue != nil:
			return Const(LD(*t.DoubleValue)), nil
		case t.IntValue != nil:
			return Const(LI(*t.IntValue)), nil
		case t.UintValue != nil:
			return Const(LU(*t.UintValue)), nil
		case t.BoolValue != nil:
			return Const(LB(*t.BoolValue)), nil
		case t.StringValue != nil:
			return Const(LS(*t.StringValue)), nil
		case t.BytesValue != nil:
			return Const(LY(string(t.BytesValue))), nil
		case t.Variable != nil:
			return Var(modelType[t.Variable.Type]), nil
		}
	case e.List != nil:
		as, err := many(e.List.Elems)
		if err != nil {
			return nil, err
		}
		return &Expr{K: "list", T: modelType[e.List.Type], A: as}, nil
	case e.Function != nil:
		as, err := many(e.Function.Params)
		if err != nil {
			return nil, err
		}
		t := FnResult(e.Function.Name, as)
		return &Expr{K: "fn", T: t, Name: e.Function.Name, A: as}, nil
	case e.BuiltIn != nil:
		x, err := ExprFromAST(e.BuiltIn.Expr)
		if err != nil {
			return nil, err
		}
		return BI(e.BuiltIn.Symbol.GetValue(), x), nil
	}
	return nil, fmt.Errorf("model: empty expression")
}

// Canon is a textual canonical form: equal exactly for grammars that differ only in how associative
// operators are nested and in the order of declarations' spelling (declaration order is kept).
func (g *Grammar) Canon() string {
	c := &Grammar{Main: g.Main.flat()}
	for _, d := range g.Decls {
		c.Decls = append(c.Decls, Decl{d.Name, d.P.flat()})
	}
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (p *Pattern) flat() *Pattern {
	r := &Pattern{K: p.K, E: p.E, Ref: p.Ref}
	if p.N != nil {
		r.N = p.N.flat()
	}
	for _, a := range p.A {
		a = a.flat()
		switch {
		case a.K == p.K && (p.K == "concat" || p.K == "or" || p.K == "and" || p.K == "inter"):
			r.A = append(r.A, a.A...)
		default:
			r.A = append(r.A, a)
		}
	}
	if len(r.A) == 1 && (p.K == "concat" || p.K == "or" || p.K == "and" || p.K == "inter") {
		return r.A[0]
	}
	return r
}

// Canon of a pattern.
func (p *Pattern) Canon() string {
	b, err := json.Marshal(p.flat())
	if err != nil {
		panic(err)
	}
	return string(b)
}
