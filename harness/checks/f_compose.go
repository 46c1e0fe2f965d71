package checks

import (
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/parser"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// ---------------------------------------------------------------- F04

func composeTotal(x *ast.Expr, e *model.Expr, ls []model.Label, text string, o *core.Obs) error {
	want := gen.InferTop(e) == "b"
	f, err := compose.NewBool(x)
	if !want {
		if err == nil {
			return errf("%s composes, although it is not a well-typed Boolean expression", text)
		}
		o.Label("refused")
		return nil
	}
	if e.Impure() {
		o.Label("impure-constant")
		return nil
	}
	if !e.Composable() {
		o.Label("refused-constant")
		if err == nil {
			return errf("%s composes, although a constant parameter is missing or invalid", text)
		}
		return nil
	}
	if err != nil {
		return errf("%s is refused: %v", text, err)
	}
	o.Label("accepted")
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return errf("%s: %v", text, err)
	}
	_ = f.String()
	for _, l := range ls {
		b.Eval(l.Value())
	}
	return nil
}

func composeRun(c exprCase, o *core.Obs) error {
	o.NonTrivialIf(c.E.Size() > 1)
	o.Sample("%s", exprString(c.E))
	x := c.E.ToAST(true)
	e, err := model.ExprFromAST(x) // with the types of the replaced parts
	if err != nil {
		return errf("%s: %v", exprString(c.E), err)
	}
	return composeTotal(x, e, c.Ls, exprString(c.E), o)
}

type textCase struct {
	S  Str           `json:"s"`
	Ls []model.Label `json:"ls"`
}

var exprTokens = []string{"->", "==", "!=", "<", "<=", ">", ">=", "~=", "*=", "^=", "$=", "::", "(", ")", "{", "}", ",", "$int", "$string", "$uint", "$double", "$bool", "$[]byte",
	"[]int", "[]string", "[]uint", "[]double", "[]bool", "[][]byte", "[]byte", "0", "1", "-1", "int(7)", "uint(3)", "double(1.5)", "true", "false", "\"a\"", "`b`", "[]byte{1}", "eq", "and", "or", "not", "contains", "elem", "length", "regex", "type", "range", "print", "now", "x", " ", "[", "]"}

func genExprText(t T) textCase {
	e := gen.BoolExpr(t, gen.EConf{Depth: 2, MayErr: true})
	if gen.Chance(t, 1, 3) {
		e = gen.Break(t, e)
	}
	s := exprString(e)
	for n := gen.N(t, 3); n > 0; n-- {
		toks := splitTokens(s)
		if len(toks) == 0 {
			break
		}
		i := gen.N(t, len(toks))
		switch gen.N(t, 3) {
		case 0:
			toks[i] = gen.Pick(t, exprTokens...)
		case 1:
			toks = append(toks[:i], toks[i+1:]...)
		case 2:
			toks = append(toks[:i], append([]string{gen.Pick(t, exprTokens...)}, toks[i:]...)...)
		}
		s = strings.Join(toks, "")
	}
	return textCase{Str(s), genLabels(t, []*model.Expr{e}, 2)}
}

// splitTokens cuts a text at the borders of its words.
func splitTokens(s string) []string {
	var r []string
	word := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$' || c == '.' || c == '-' || c >= 0x80
	}
	for i := 0; i < len(s); {
		j := i + 1
		if word(s[i]) {
			for j < len(s) && word(s[j]) {
				j++
			}
		}
		r = append(r, s[i:j])
		i = j
	}
	return r
}

func composeTextRun(c textCase, o *core.Obs) error {
	x, err := parser.NewParser().ParseExpr(string(c.S))
	if err != nil {
		o.Label("unparsable")
		return nil
	}
	o.NonTrivial()
	o.Sample("%s", c.S)
	e, err := model.ExprFromAST(x)
	if err != nil {
		return errf("%q parses to an incomplete expression: %v", c.S, err)
	}
	return composeTotal(x, e, c.Ls, string(c.S), o)
}

func init() {
	core.Register(core.Spec{Prop: "F04", Name: "broken", Quick: 80000, Thorough: 1500000,
		Rule: "well-typed expressions with up to 3 places replaced regardless of types, against an independent table of signatures: accepted exactly if well-typed and Boolean; non-trivial: more than one node"},
		func(t T) exprCase {
			e := gen.BoolExpr(t, gen.EConf{Depth: 2, MayErr: true})
			if gen.Chance(t, 1, 3) {
				e = gen.Matrix(t)
			}
			for i := gen.N(t, 3); i >= 0; i-- {
				e = gen.Break(t, e)
			}
			return exprCase{E: e, Ls: genLabels(t, []*model.Expr{e}, 3)}
		}, composeRun)
	core.Register(core.Spec{Prop: "F04", Name: "text", Quick: 30000, Thorough: 600000,
		Rule: "printed expressions with tokens replaced, removed or inserted; what parses must compose or be refused as its types say; non-trivial: the text parses"},
		genExprText, composeTextRun)
}
