package checks

import (
	"math"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
	rparser "github.com/katydid/katydid/relapse/parser"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

type litCase struct {
	Lit   core.Str     `json:"lit"`
	Place int          `json:"place"`          // 0 built-in, 1 parameter, 2 list element, 3 name, 4 name in a choice, 5 after the arrow
	Near  *model.Label `json:"near,omitempty"` // another label
}

func (c litCase) text() string {
	l := string(c.Lit)
	switch c.Place {
	case 0:
		return "== " + l
	case 1:
		return "->f(" + l + ")"
	case 2:
		return "->f([]bool{true, " + l + "})"
	case 3:
		return l + ":*"
	case 4:
		return "(a | " + l + " | !(" + l + ")): *"
	}
	return "-> " + l
}

// sameLit compares two literal values bit by bit, except for the sign of zero.
func sameLit(a, b model.Label) bool {
	if a.D != nil && b.D != nil && *a.D == 0 && *b.D == 0 {
		return true
	}
	return zero(jsonOf(a)) == zero(jsonOf(b))
}

func runLiteral(c litCase, o *core.Obs) error {
	text := c.text()
	toks, ok := model.Tokens(string(c.Lit))
	if !ok || len(toks) != 1 || unclear(string(c.Lit)) {
		o.Label("no single token")
		return nil
	}
	want, ok := model.LitValue(toks[0].K, toks[0].Lit)
	g, err := rparser.ParseGrammar(text)
	o.Sample("%q = %v (%v)", string(c.Lit), want, ok)
	if !ok {
		o.NonTrivial()
		o.Label("no value")
		if err == nil {
			return errf("a literal without a value is accepted: %q\nread as: %q", text, g.String())
		}
		return nil
	}
	if err != nil {
		return errf("a literal is rejected: %v\ntext: %q\nvalue: %v", err, text, want)
	}
	check := func(g *ast.Grammar, what string) error {
		var got []model.Label
		r, err := readingOf(g)
		if err != nil {
			return errf("%s: %v", what, err)
		}
		var names func(n *model.Name)
		names = func(n *model.Name) {
			if n.K == "lit" {
				got = append(got, *n.V)
			}
			for _, a := range n.A {
				names(a)
			}
		}
		r.Top.Walk(func(p *model.Pattern) {
			if p.N != nil {
				names(p.N)
			}
			if p.E != nil {
				p.E.Walk(func(e *model.Expr) {
					if e.K == "const" {
						got = append(got, *e.V)
					}
				})
			}
		})
		var all []model.Label
		switch c.Place {
		case 2:
			all = []model.Label{model.LB(true), want}
		case 4:
			all = []model.Label{model.LS("a"), want, want}
		default:
			all = []model.Label{want}
		}
		if len(got) != len(all) {
			return errf("%s: %d literals, want %d\ntext: %q", what, len(got), len(all), text)
		}
		for i := range got {
			if !sameLit(got[i], all[i]) {
				return errf("%s: literal %d is %v, want %v\ntext: %q", what, i, got[i], all[i], text)
			}
		}
		return nil
	}
	if err := check(g, "parsed"); err != nil {
		return err
	}
	printed := g.String()
	g2, err := rparser.ParseGrammar(printed)
	if err != nil {
		return errf("the printed literal is rejected: %v\ntext: %q\nprinted: %q", err, text, printed)
	}
	if err := check(g2, "printed and parsed"); err != nil {
		return err
	}
	g.Format()
	if err := check(g, "formatted"); err != nil {
		return err
	}
	o.NonTrivialIf(len(c.Lit) > 1)
	o.Label(toks[0].K)
	return nil
}

// runLiteralMatch validates a label against the literal: as value and as name it matches exactly its own value.
func runLiteralMatch(c litCase, o *core.Obs) error {
	toks, ok := model.Tokens(string(c.Lit))
	if !ok || len(toks) != 1 || unclear(string(c.Lit)) {
		return nil
	}
	want, ok := model.LitValue(toks[0].K, toks[0].Lit)
	if !ok {
		return nil
	}
	labels := []model.Label{want}
	if c.Near != nil {
		labels = append(labels, *c.Near)
	}
	labels = append(labels, neighbours(want)...)
	for _, l := range labels {
		for _, name := range []bool{false, true} {
			text, doc := "a == "+string(c.Lit), []model.Tree{{L: model.LS("a"), C: []model.Tree{{L: l, Leaf: true}}}}
			m := model.PNode(model.NLit(model.LS("a")), model.PLeaf(model.BI("==", model.Const(want))))
			if name {
				text, doc = string(c.Lit)+": a == 1", []model.Tree{{L: l, C: []model.Tree{{L: model.LS("a"), C: []model.Tree{{L: model.LI(1), Leaf: true}}}}}}
				m = model.PNode(model.NLit(want), model.PNode(model.NLit(model.LS("a")), model.PLeaf(model.BI("==", model.Const(model.LI(1))))))
			}
			g, err := rparser.ParseGrammar(text)
			if err != nil {
				return errf("%v: %q", err, text)
			}
			mg := &model.Grammar{Main: m}
			if _, amb := mg.ExprStatus(doc); amb {
				continue
			}
			exp := model.NewMatcher(mg).Match(doc)
			got, err := interp.Interpret(g, model.NewTreeParser(doc))
			if err != nil {
				return errf("%v\ngrammar: %q\ndocument: %s", err, text, model.ForestString(doc))
			}
			if got != exp {
				return errf("verdict %v, want %v\ngrammar: %q\ndocument: %s\nvalue of the literal: %v", got, exp, text, model.ForestString(doc), want)
			}
			o.LabelIf(exp, "match")
		}
	}
	o.NonTrivial()
	o.Sample("%q = %v", string(c.Lit), want)
	return nil
}

// neighbours are labels that differ as little as possible, and the same value of other types.
func neighbours(l model.Label) (r []model.Label) {
	switch {
	case l.I != nil:
		r = append(r, model.LI(*l.I+1), model.LI(*l.I-1), model.LI(-*l.I), model.LU(uint64(*l.I)), model.LD(float64(*l.I)))
	case l.U != nil:
		r = append(r, model.LU(*l.U+1), model.LU(*l.U-1), model.LI(int64(*l.U)), model.LD(float64(*l.U)))
	case l.D != nil:
		d := float64(*l.D)
		r = append(r, model.LD(math.Nextafter(d, math.Inf(1))), model.LD(math.Nextafter(d, math.Inf(-1))), model.LD(-d))
	case l.B != nil:
		r = append(r, model.LB(!*l.B), model.LS("true"))
	case l.S != nil:
		s := string(*l.S)
		r = append(r, model.LS(s+"\x00"), model.LS(strings.ToUpper(s)), model.LY(s), model.LS(strings.ToValidUTF8(s, "\ufffd")))
	case l.Y != nil:
		s := string(*l.Y)
		r = append(r, model.LY(s+"\x00"), model.LS(s))
		if s != "" {
			r = append(r, model.LY(s[1:]), model.LY(s[:len(s)-1]))
		}
	}
	return r
}

func init() {
	core.Register(core.Spec{Prop: "S05", Name: "values", Quick: 80000, Thorough: 2000000, Terminates: true,
		Rule: "random texts of the lexical grammar of literals, as value, parameter, list element and name: parsed, printed and formatted they have the value of an independent reading of the literal, or are rejected if there is none; non-trivial: no value, or longer than a character"},
		func(t T) litCase {
			return litCase{Lit: core.Str(gen.AnyLiteral(t)), Place: gen.N(t, 6)}
		}, runLiteral)
	core.Register(core.Spec{Prop: "S05", Name: "spelled", Quick: 30000, Thorough: 500000, Terminates: true,
		Rule: "random values of every type spelled in one of their notations; same oracle; non-trivial: longer than a character"},
		func(t T) litCase {
			return litCase{Lit: core.Str(gen.Literal(t, gen.Wild(t), false)), Place: gen.N(t, 6)}
		}, runLiteral)
	core.Register(core.Spec{Prop: "S05", Name: "match", Quick: 15000, Thorough: 300000, Terminates: true,
		Rule: "a literal compared with labels of its value, its neighbours and the same value of other types, as value and as name; non-trivial: all with a value"},
		func(t T) litCase {
			c := litCase{Lit: core.Str(gen.AnyLiteral(t))}
			if gen.Chance(t, 1, 3) {
				c.Lit = core.Str(gen.Literal(t, gen.Wild(t), false))
			}
			if gen.Chance(t, 1, 2) {
				l := gen.AnyLabel(t)
				c.Near = &l
			}
			return c
		}, runLiteralMatch)
}
