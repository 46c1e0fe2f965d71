package checks

import (
	"encoding/json"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/combinator"
	rparser "github.com/katydid/katydid/relapse/parser"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// combCase is a grammar within the reach of the combinators, with documents.
// Share makes equal expressions and patterns one Go value, used in several places.
type combCase struct {
	gd
	Share bool `json:"share"`
}

// combName draws a name a combinator can spell: a string, an element, any, any except a string, or a choice of strings.
func combName(t T) *model.Name {
	str := func() *model.Name {
		s := gen.Str(gen.Pick(t, "a", "b", "c", "a b", "", "int"))
		return model.NLit(model.Label{S: &s})
	}
	switch gen.W(t, 6, 2, 2, 2, 2) {
	case 1:
		i := int64(gen.N(t, 4))
		if gen.Chance(t, 1, 8) {
			i = gen.Pick(t, int64(-1), -4, 1<<31-1, 1<<31, 1<<31+1, 1<<32, 1<<32+3, 1<<53+1, 1<<63-1)
		}
		return model.NLit(model.Label{I: &i})
	case 2:
		return model.NAny()
	case 3:
		return model.NExcept(str())
	case 4:
		n := model.NChoice(str(), str())
		for gen.Chance(t, 1, 3) {
			n.A = append(n.A, str())
		}
		return n
	}
	return str()
}

func combOperand(t T, typ string, depth int) *model.Expr {
	if typ == "i" && depth > 0 && gen.Chance(t, 1, 4) {
		return model.Fn("i", "length", combLengthy(t))
	}
	if gen.Chance(t, 1, 2) {
		return model.Var(typ)
	}
	return model.Const(gen.Const(t, typ))
}

func combLengthy(t T) *model.Expr {
	if gen.Chance(t, 1, 3) {
		return combList(t, gen.Pick(t, "d", "i", "u", "b", "s", "y"))
	}
	return combOperand(t, gen.Pick(t, "s", "y"), 0)
}

func combList(t T, typ string) *model.Expr {
	n := gen.N(t, 4)
	as := make([]*model.Expr, n)
	for i := range as {
		as[i] = model.Const(gen.Const(t, typ))
	}
	return model.List("l"+typ, as...)
}

// combExpr draws a predicate built from the function combinators.
func combExpr(t T, depth int) *model.Expr {
	if depth > 0 {
		switch gen.W(t, 4, 1, 1, 1) {
		case 1:
			return model.Fn("b", "and", combExpr(t, depth-1), combExpr(t, depth-1))
		case 2:
			return model.Fn("b", "or", combExpr(t, depth-1), combExpr(t, depth-1))
		case 3:
			return model.Fn("b", "not", combExpr(t, depth-1))
		}
	}
	two := func(name, typ string) *model.Expr {
		return model.Fn("b", name, combOperand(t, typ, depth), combOperand(t, typ, depth))
	}
	switch gen.W(t, 1, 4, 5, 2, 2, 2, 2, 1, 1) {
	case 0:
		return combOperand(t, "b", 0)
	case 1:
		return two(gen.Pick(t, "eq", "eq", "ne"), gen.Pick(t, "d", "i", "u", "b", "s", "y"))
	case 2:
		return two(gen.Pick(t, "lt", "le", "gt", "ge"), gen.Pick(t, "d", "i", "u", "y"))
	case 3:
		return two("contains", "s")
	case 4:
		typ := gen.Pick(t, "i", "u", "s")
		return model.Fn("b", "contains", combOperand(t, typ, depth), combList(t, typ))
	case 5:
		s := gen.Str(gen.Pick(t, "a", "^a", "b$", "a.*b", "[ab]+", "", "^$"))
		return model.Fn("b", "regex", model.Const(model.Label{S: &s}), combOperand(t, "s", 0))
	case 6:
		return two(gen.Pick(t, "hasPrefix", "hasSuffix"), "s")
	case 7:
		return two("eqFold", "s")
	}
	return model.Fn("b", "type", combOperand(t, gen.Pick(t, "d", "i", "u", "b", "s", "y"), 0))
}

// combForm turns a pattern into one the combinators can build.
func combForm(t T, p *model.Pattern) {
	for _, a := range p.A {
		combForm(t, a)
	}
	switch p.K {
	case "empty":
		*p = *model.POpt(model.PNot(model.PAny()))
	case "contains":
		if p.A[0].K != "node" { // only paths can be looked for anywhere
			p.A[0] = model.PNode(model.NAny(), p.A[0])
		}
		switch p.A[0].N.K {
		case "any":
		default:
			s := gen.Str(gen.Pick(t, "a", "b", "c"))
			p.A[0].N = model.NLit(model.Label{S: &s})
		}
	case "node":
		p.N = combName(t)
	case "leaf":
		p.E = combExpr(t, gen.N(t, 3))
	}
}

func genComb(t T) combCase {
	var g *model.Grammar
	for d := 1 + gen.N(t, 4); d > 0; d-- {
		g = gen.Grammar(t, gen.GConf{Depth: d, Decls: 2, OnlyStrings: true, Expr: gen.EConf{Depth: 0}})
		combForm(t, g.Main)
		for _, d := range g.Decls {
			combForm(t, d.P)
		}
		if g.Size() <= 60 {
			break
		}
	}
	x := combCase{gd{G: g}, gen.Chance(t, 1, 2)}
	n := 1 + gen.N(t, 4)
	for i := 0; i < n; i++ {
		x.Docs = append(x.Docs, gen.Doc(t, g, 6))
	}
	return x
}

// combiner builds with the combinators what the model describes.
type combiner struct {
	share bool
	es    map[string]*ast.Expr
	ps    map[string]*ast.Pattern
}

func (c *combiner) pattern(p *model.Pattern) *ast.Pattern {
	k := ""
	if c.share {
		b, _ := json.Marshal(p)
		k = string(b)
		if q, ok := c.ps[k]; ok {
			return q
		}
	}
	q := c.build(p)
	if c.share {
		c.ps[k] = q
	}
	return q
}

func (c *combiner) all(ps []*model.Pattern) []*ast.Pattern {
	as := make([]*ast.Pattern, len(ps))
	for i := range ps {
		as[i] = c.pattern(ps[i])
	}
	return as
}

func (c *combiner) build(p *model.Pattern) *ast.Pattern {
	switch p.K {
	case "any":
		return combinator.Any()
	case "concat":
		as := c.all(p.A)
		return combinator.InOrder(as[0], as[1:]...)
	case "or":
		return combinator.AnyOf(c.all(p.A)...)
	case "and":
		return combinator.AllOf(c.all(p.A)...)
	case "inter":
		as := c.all(p.A)
		return combinator.InAnyOrder(as[0], as[1:]...)
	case "not":
		if p.A[0].K == "any" {
			return combinator.None()
		}
		return combinator.OppositeOf(c.pattern(p.A[0]))
	case "star":
		return combinator.Many(c.pattern(p.A[0]))
	case "opt":
		return combinator.Maybe(c.pattern(p.A[0]))
	case "ref":
		return combinator.Eval(p.Ref)
	case "leaf":
		return combinator.Value(c.expr(p.E))
	case "contains", "node":
		in := p
		if p.K == "contains" {
			in = p.A[0]
		}
		children := in.A
		if in.A[0].K == "concat" { // a combinator takes an ordered list
			children = in.A[0].A
		}
		as := c.all(children)
		if p.K == "contains" {
			if in.N.K == "any" {
				return combinator.InAnyPath(as[0], as[1:]...)
			}
			return combinator.InPath(string(*in.N.V.S), as[0], as[1:]...)
		}
		switch in.N.K {
		case "any":
			return combinator.InAny(as[0], as[1:]...)
		case "except":
			return combinator.InAnyExcept(string(*in.N.A[0].V.S), as[0], as[1:]...)
		case "choice":
			var names []string
			for _, n := range in.N.A {
				names = append(names, string(*n.V.S))
			}
			return combinator.InAnyOf(names, as[0], as[1:]...)
		}
		if in.N.V.I != nil {
			return combinator.Elem(int(*in.N.V.I), as[0], as[1:]...)
		}
		return combinator.In(string(*in.N.V.S), as[0], as[1:]...)
	}
	panic(&core.HarnessError{Msg: "no combinator for " + p.K})
}

func (c *combiner) expr(e *model.Expr) *ast.Expr {
	k := ""
	if c.share {
		b, _ := json.Marshal(e)
		k = string(b)
		if q, ok := c.es[k]; ok {
			return q
		}
	}
	q := c.buildExpr(e)
	if c.share {
		c.es[k] = q
	}
	return q
}

func (c *combiner) buildExpr(e *model.Expr) *ast.Expr {
	switch e.K {
	case "const":
		l := *e.V
		switch {
		case l.D != nil:
			return combinator.DoubleConst(float64(*l.D))
		case l.I != nil:
			return combinator.IntConst(*l.I)
		case l.U != nil:
			return combinator.UintConst(*l.U)
		case l.B != nil:
			return combinator.BoolConst(*l.B)
		case l.S != nil:
			return combinator.StringConst(string(*l.S))
		case l.Y != nil:
			return combinator.BytesConst([]byte(*l.Y))
		}
	case "var":
		switch e.T {
		case "d":
			return combinator.DoubleVar()
		case "i":
			return combinator.IntVar()
		case "u":
			return combinator.UintVar()
		case "b":
			return combinator.BoolVar()
		case "s":
			return combinator.StringVar()
		case "y":
			return combinator.BytesVar()
		}
	case "list":
		switch e.T {
		case "ld":
			xs := []float64{}
			for _, a := range e.A {
				xs = append(xs, float64(*a.V.D))
			}
			return combinator.DoublesConst(xs)
		case "li":
			xs := []int64{}
			for _, a := range e.A {
				xs = append(xs, *a.V.I)
			}
			return combinator.IntsConst(xs)
		case "lu":
			xs := []uint64{}
			for _, a := range e.A {
				xs = append(xs, *a.V.U)
			}
			return combinator.UintsConst(xs)
		case "lb":
			xs := []bool{}
			for _, a := range e.A {
				xs = append(xs, *a.V.B)
			}
			return combinator.BoolsConst(xs)
		case "ls":
			xs := []string{}
			for _, a := range e.A {
				xs = append(xs, string(*a.V.S))
			}
			return combinator.StringsConst(xs)
		case "ly":
			xs := [][]byte{}
			for _, a := range e.A {
				xs = append(xs, []byte(*a.V.Y))
			}
			return combinator.ListOfBytesConst(xs)
		}
	case "fn":
		as := make([]*ast.Expr, len(e.A))
		for i := range as {
			as[i] = c.expr(e.A[i])
		}
		switch e.Name {
		case "eq":
			return combinator.Eq(as[0], as[1])
		case "ne": // has no combinator
			return ast.NewFunction("ne", as[0], as[1])
		case "lt":
			return combinator.LT(as[0], as[1])
		case "le":
			return combinator.LE(as[0], as[1])
		case "gt":
			return combinator.GT(as[0], as[1])
		case "ge":
			return combinator.GE(as[0], as[1])
		case "and":
			return combinator.And(as[0], as[1])
		case "or":
			return combinator.Or(as[0], as[1])
		case "not":
			return combinator.Not(as[0])
		case "contains":
			return combinator.Contains(as[0], as[1])
		case "length":
			return combinator.Length(as[0])
		case "regex":
			return combinator.Regex(as[0], as[1])
		case "type":
			return combinator.Type(as[0])
		case "eqFold":
			return combinator.EqualFold(as[0], as[1])
		case "hasPrefix":
			return combinator.HasPrefix(as[0], as[1])
		case "hasSuffix":
			return combinator.HasSuffix(as[0], as[1])
		}
	}
	panic(&core.HarnessError{Msg: "no combinator for expression " + e.K + e.T + e.Name})
}

func runComb(c combCase, o *core.Obs) error {
	b := &combiner{c.Share, map[string]*ast.Expr{}, map[string]*ast.Pattern{}}
	m := combinator.G{"main": b.pattern(c.G.Main)}
	for _, d := range c.G.Decls {
		m[d.Name] = b.pattern(d.P)
	}
	g := m.Grammar()
	text := g.String()
	if again := m.Grammar().String(); again != text {
		return errf("the same map gives two grammars: %s and %s", text, again)
	}
	parsed, err := rparser.ParseGrammar(text)
	if err != nil {
		return errf("combinators of %s print as %q, which does not parse: %v", show(c.G), text, err)
	}
	names := map[string]bool{}
	for _, d := range g.PatternDecls {
		names[d.Name] = true
	}
	if len(g.PatternDecls) != len(c.G.Decls) || len(names) != len(c.G.Decls) {
		return errf("declarations of %s: %d, want %d", text, len(g.PatternDecls), len(c.G.Decls))
	}
	mt := model.NewMatcher(c.G)
	var verdicts []bool
	for _, ts := range c.Docs {
		mayErr, ambiguous := c.G.ExprStatus(ts)
		if ambiguous {
			o.Label("ambiguous-skipped")
			continue
		}
		want := mt.Match(ts)
		verdicts = append(verdicts, want)
		for i, gr := range []*ast.Grammar{g, parsed} {
			for _, e := range []engine{engInterp, engMem} {
				v, err := e.prep(gr)
				if err != nil {
					return errf("%s refuses the combined grammar %s: %v", e.name, text, err)
				}
				got, err := v(model.NewTreeParser(ts))
				if err != nil && mayErr {
					continue
				}
				if err != nil || got != want {
					return errf("%s of %s: %v, %v, want %v\nbuilt from: %s\ndocument: %s", e.name,
						[]string{"the combined grammar ", "the printed and parsed grammar "}[i]+text, got, err, want, show(c.G), model.ForestString(ts))
				}
			}
		}
	}
	if g.String() != text {
		return errf("using the grammar changed its text from %s to %s", text, g.String())
	}
	o.LabelIf(c.Share, "shared")
	o.LabelIf(strings.Contains(text, "$"), "variable")
	observe(o, c.G, c.Docs, verdicts)
	return nil
}

// combValueCase is a predicate built with combinators with labels to try.
type combValueCase struct {
	E     *model.Expr   `json:"e"`
	Share bool          `json:"share"`
	Ls    []model.Label `json:"ls"`
}

func init() {
	core.Register(core.Spec{Prop: "S07", Name: "grammars", Quick: 20000, Thorough: 500000,
		Rule: "random grammars in the reach of the combinators, built with them (half of the time with equal operands as one Go value), verdicts compared with the model on the built grammar and on its printed and parsed text; non-trivial: an operator and a document with a node"},
		genComb, runComb)
	core.Register(core.Spec{Prop: "S07", Name: "values", Quick: 30000, Thorough: 800000,
		Rule: "predicates from the function combinators given to Value, verdicts on single values (some constants of the predicate and their neighbours); non-trivial: both verdicts occur"},
		func(t T) combValueCase {
			c := combValueCase{E: combExpr(t, gen.N(t, 3)), Share: gen.Chance(t, 1, 2)}
			for i := 0; i < 4; i++ {
				l := gen.LabelFor(t, c.E)
				if gen.Chance(t, 1, 3) {
					l = gen.Neighbour(t, l)
				}
				c.Ls = append(c.Ls, l)
			}
			return c
		},
		func(c combValueCase, o *core.Obs) error {
			g := &model.Grammar{Main: model.PLeaf(c.E)}
			x := combCase{gd{G: g}, c.Share}
			yes, no := false, false
			for _, l := range c.Ls {
				ts := []model.Tree{{L: l, Leaf: true}}
				x.Docs = append(x.Docs, ts)
				if model.NewMatcher(g).Match(ts) {
					yes = true
				} else {
					no = true
				}
			}
			err := runComb(x, o)
			o.NonTrivialIf(yes && no)
			return err
		})
}
