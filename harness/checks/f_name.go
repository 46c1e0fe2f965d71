package checks

import (
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/name"
	"github.com/katydid/katydid/relapse/parser"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// ---------------------------------------------------------------- F05

type nameCase struct {
	N  *model.Name   `json:"n"`
	Ls []model.Label `json:"ls"`
}

// nameLits are the literals of a name expression.
func nameLits(n *model.Name) (r []model.Label) {
	if n.V != nil {
		r = append(r, *n.V)
	}
	for _, a := range n.A {
		r = append(r, nameLits(a)...)
	}
	return r
}

// nameLabels draws labels near the literals of a name, some readable as several types.
func nameLabels(t T, n *model.Name, max int) []model.Label {
	lits := nameLits(n)
	var ls []model.Label
	for i := 0; i < max; i++ {
		switch {
		case len(lits) > 0 && gen.Chance(t, 1, 2):
			ls = append(ls, lits[gen.N(t, len(lits))])
		case len(lits) > 0 && gen.Chance(t, 1, 2):
			ls = append(ls, gen.Neighbour(t, lits[gen.N(t, len(lits))]))
		case len(lits) > 1 && gen.Chance(t, 1, 3):
			ls = append(ls, gen.Merge(lits[gen.N(t, len(lits))], lits[gen.N(t, len(lits))]))
		default:
			ls = append(ls, gen.AnyLabel(t))
		}
	}
	return ls
}

func genNameCase(t T) nameCase {
	c := gen.GConf{WildNames: gen.Chance(t, 1, 2)}
	n := gen.Name(t, c, gen.N(t, 5))
	return nameCase{n, nameLabels(t, n, 6)}
}

// relatedNameCase draws names over very few literals, so that simplifications meet.
func relatedNameCase(t T) nameCase {
	n := relatedName(t)
	if gen.Chance(t, 2, 3) {
		n = choiceName(t, 1+gen.N(t, 5))
	}
	return nameCase{n, nameLabels(t, n, 6)}
}

// nestedName combines few literals by nested exceptions and choices.
func choiceName(t T, depth int) *model.Name {
	if depth == 0 {
		return relatedName(t)
	}
	switch gen.N(t, 5) {
	case 0, 1:
		return model.NExcept(choiceName(t, depth-1))
	case 2:
		return relatedName(t)
	}
	return model.NChoice(choiceName(t, depth-1), choiceName(t, gen.N(t, depth)))
}

// labelCond draws a condition on a label from comparisons of few constants.
func labelCond(t T, typ string, depth int) *model.Expr {
	if depth == 0 || gen.Chance(t, 1, 6) {
		if gen.Chance(t, 1, 10) {
			return model.Const(model.LB(gen.Chance(t, 1, 2)))
		}
		if gen.Chance(t, 1, 4) {
			typ = gen.Pick(t, "s", "i", "u", "d", "b", "y")
		}
		var l model.Label
		switch typ {
		case "s":
			l = model.LS(gen.Pick(t, "a", "b", "c", "d", ""))
		case "i":
			l = model.LI(int64(gen.N(t, 4)))
		case "u":
			l = model.LU(uint64(gen.N(t, 4)))
		case "d":
			l = model.LD(float64(gen.N(t, 4)))
		case "b":
			l = model.LB(gen.Chance(t, 1, 2))
		default:
			l = model.LY(gen.Pick(t, "a", "b", "c"))
		}
		v, k := model.Var(typ), model.Const(l)
		switch gen.N(t, 8) {
		case 0:
			return model.Fn("b", "eq", k, v)
		case 1:
			return model.Fn("b", "ne", v, k)
		}
		return model.Fn("b", "eq", v, k)
	}
	switch gen.N(t, 5) {
	case 0:
		return model.Fn("b", "not", labelCond(t, typ, depth-1))
	case 1, 2:
		return model.Fn("b", "and", labelCond(t, typ, depth-1), labelCond(t, typ, gen.N(t, depth)))
	}
	return model.Fn("b", "or", labelCond(t, typ, gen.N(t, depth)), labelCond(t, typ, depth-1))
}

// runFuncName decompiles a condition to a name.
func runFuncName(c exprCase, o *core.Obs) error {
	orig := exprString(c.E)
	f, err := compose.NewBool(c.E.ToAST(true))
	if err != nil {
		return errf("%s does not compose: %v", orig, err)
	}
	n, err := name.FuncToName(f)
	if err != nil { // not every condition is a name
		o.Label("no name")
		return nil
	}
	m, err := model.NameFromAST(n)
	if err != nil {
		return errf("%s decompiles to a broken name: %v", orig, err)
	}
	yes, no := 0, 0
	for _, l := range c.Ls {
		want := c.E.Eval(l)
		if want.Allows(true, true) || want.Allows(false, true) {
			continue // names have no errors
		}
		got := m.Matches(l)
		if !want.Allows(got, false) {
			return errf("%s composes to %s, which decompiles to the name %s: on label %v got %v, want %v", orig, f, n, l, got, want)
		}
		if g2 := name.EvalName(n, l.Value()); g2 != got {
			return errf("name %s on label %v: got %v, want %v", n, l, g2, got)
		}
		if got {
			yes++
		} else {
			no++
		}
	}
	o.LabelIf(yes > 0 && no > 0, "both")
	o.NonTrivialIf(c.E.Size() > 3 && yes+no > 0)
	o.Sample("%s is the name %s", orig, n)
	return nil
}

func nameRun(c nameCase, o *core.Obs) error {
	a := c.N.ToAST()
	text := a.String()
	f := name.NameToFunc(a)
	if f2 := name.NameToFunc(a); !funcs.Equal(f, f2) {
		return errf("compiling %s twice gives different predicates %s and %s", text, f, f2)
	}
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return errf("%s: %v", text, err)
	}
	back, err := name.FuncToName(f)
	if err != nil {
		return errf("%s compiles to %s, which does not decompile: %v", text, f, err)
	}
	mback, err := model.NameFromAST(back)
	if err != nil {
		return errf("%s decompiles to a broken name: %v", text, err)
	}
	yes, no := 0, 0
	for _, l := range c.Ls {
		want := c.N.Matches(l)
		if got := name.EvalName(a, l.Value()); got != want {
			return errf("name %s on label %v: got %v, want %v", text, l, got, want)
		}
		if got, err := b.Eval(l.Value()); err != nil || got != want {
			return errf("name %s compiled to %s on label %v: got %v, %v, want %v", text, f, l, got, err, want)
		}
		if mback.Matches(l) != want {
			return errf("name %s decompiles from %s to %s, which describes other names: on label %v want %v", text, f, back, l, want)
		}
		if got := name.EvalName(back, l.Value()); got != want {
			return errf("name %s decompiles to %s, which on label %v gives %v, want %v", text, back, l, got, want)
		}
		if want {
			yes++
		} else {
			no++
		}
	}
	if (funcs.IsTrue(f) && no > 0) || (funcs.IsFalse(f) && yes > 0) {
		return errf("name %s compiles to the constant %s", text, f)
	}
	o.LabelIf(yes > 0 && no > 0, "both")
	o.NonTrivialIf(c.N.Size() > 1 || yes > 0)
	o.Sample("%s on %v", text, c.Ls)
	return nil
}

// ---------------------------------------------------------------- F08

// flips reports whether the predicate compares a constant on the left with the variable on the right by order,
// which the short notation writes the wrong way round (a known finding, pinned by an existing test).
func flips(x *ast.Expr) bool {
	f := x.GetFunction()
	if f == nil || len(f.Params) != 2 {
		return false
	}
	switch f.Name {
	case "lt", "le", "gt", "ge":
		l, r := f.Params[0].GetTerminal(), f.Params[1].GetTerminal()
		return l != nil && l.Variable == nil && r.GetVariable() != nil
	}
	return false
}

func parseBack(text string, e *model.Expr, ls []model.Label, orig string) (*ast.Expr, error) {
	x, err := parser.NewParser().ParseExpr(text)
	if err != nil {
		return nil, errf("%s prints as %s, which does not parse: %v", orig, text, err)
	}
	f, err := compose.NewBool(x)
	if err != nil {
		return nil, errf("%s prints as %s, which does not compose: %v", orig, text, err)
	}
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return nil, err
	}
	for _, l := range ls {
		want := e.Eval(l)
		got, err := b.Eval(l.Value())
		if !want.Allows(got, err != nil) {
			return nil, errf("%s prints as %s, which on label %v gives %v, %v, want %v", orig, text, l, got, err, want)
		}
	}
	return x, nil
}

func funcTextRun(c exprCase, o *core.Obs) error {
	if !c.E.Composable() || c.E.Impure() {
		o.Label("not-composable")
		return nil
	}
	orig := exprString(c.E)
	f, err := compose.NewBool(c.E.ToAST(true))
	if err != nil {
		return errf("%s does not compose: %v", orig, err)
	}
	x, err := parseBack("->"+f.String(), c.E, c.Ls, orig)
	if err != nil {
		return err
	}
	if flips(x) {
		o.Label("flips")
		return nil
	}
	s := funcs.Sprint(f)
	o.LabelIf(s != "->"+f.String(), "shorthand")
	if _, err := parseBack(s, c.E, c.Ls, orig); err != nil {
		return err
	}
	o.NonTrivialIf(c.E.Size() > 1)
	o.Sample("%s prints %s", orig, s)
	return nil
}

type flipCase struct {
	Op   string `json:"op"`
	Type string `json:"type"`
}

func flipRun(c flipCase, o *core.Obs) error {
	e := model.Fn("b", c.Op, model.Const(flipConst[c.Type]), model.Var(c.Type))
	f, err := compose.NewBool(e.ToAST(true))
	if err != nil {
		return errf("%s does not compose: %v", exprString(e), err)
	}
	o.NonTrivial()
	o.Sample("%s", exprString(e))
	_, err = parseBack(funcs.Sprint(f), e, flipLabels[c.Type], exprString(e))
	return err
}

var flipConst = map[string]model.Label{"i": model.LI(2), "u": model.LU(2), "d": model.LD(2), "y": model.LY("b")}
var flipLabels = map[string][]model.Label{
	"i": {model.LI(1), model.LI(2), model.LI(3)}, "u": {model.LU(1), model.LU(2), model.LU(3)},
	"d": {model.LD(1), model.LD(2), model.LD(3)}, "y": {model.LY("a"), model.LY("b"), model.LY("c")},
}

func init() {
	core.Register(core.Spec{Prop: "F05", Name: "names", Quick: 60000, Thorough: 1500000,
		Rule: "a random name expression, half of them with literals of any type and value, on 6 labels near its literals; non-trivial: more than one part, or some label matches"},
		genNameCase, nameRun)
	core.Register(core.Spec{Prop: "F05", Name: "related", Quick: 40000, Thorough: 1000000,
		Rule: "nested exceptions and choices over few literals, where rewriting of complements and choices meets; same oracle; non-trivial: more than one part, or some label matches"},
		relatedNameCase, nameRun)
	core.Register(core.Spec{Prop: "F05", Name: "conditions", Quick: 40000, Thorough: 1000000,
		Rule: "conditions on labels made of comparisons of few constants by and, or and not, composed and decompiled to a name (where there is one): it matches the labels on which the condition holds; non-trivial: more than one comparison, and some label gives no error"},
		func(t T) exprCase {
			e := labelCond(t, gen.Pick(t, "s", "s", "i", "u", "d", "b", "y"), 1+gen.N(t, 4))
			c := genExprCase(t, e, 4)
			for _, s := range []string{"a", "b", "c", "d"} {
				c.Ls = append(c.Ls, model.LS(s))
			}
			return c
		}, runFuncName)
	core.Register(core.Spec{Prop: "F08", Name: "text", Quick: 60000, Thorough: 1200000,
		Rule: "a well-typed expression composed, its text parsed and composed again, evaluated on 4 labels against the model; non-trivial: more than one node"},
		func(t T) exprCase {
			e := gen.BoolExpr(t, gen.EConf{Depth: gen.N(t, 4), MayErr: true, Wild: gen.Chance(t, 1, 2)})
			return genExprCase(t, e, 4)
		}, funcTextRun)
	core.Register(core.Spec{Prop: "F08", Name: "matrix", Quick: 30000, Thorough: 500000,
		Rule: "every function signature with constants, variables and lists; same oracle; non-trivial: more than one node"},
		func(t T) exprCase { return genExprCase(t, gen.Matrix(t), 4) }, funcTextRun)
	core.Register(core.Spec{Prop: "F08", Name: "flip", Quick: 200, Thorough: 400,
		Rule: "a constant compared with the variable on its right, by each order comparison and type (16 cases); non-trivial: all"},
		func(t T) flipCase {
			return flipCase{gen.Pick(t, "ge", "gt", "le", "lt"), gen.Pick(t, "i", "u", "d", "y")}
		}, flipRun)
}
