package checks

import (
	"reflect"
	"sort"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	rparser "github.com/katydid/katydid/relapse/parser"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// gtextCase is a grammar with a text that stands for it.
type gtextCase struct {
	G *model.Grammar `json:"g"`
	T gen.Text       `json:"t"`
}

func genTextGrammar(t T) *model.Grammar {
	c := gen.GConf{Depth: 1 + gen.N(t, 4), Decls: 3, WildNames: true, Expr: gen.EConf{Depth: gen.N(t, 4), MayErr: true}}
	g := gen.Grammar(t, c)
	wide(t, g)
	nestBuiltins(t, g)
	for i := range g.Decls {
		if gen.Chance(t, 1, 6) {
			old := g.Decls[i].Name
			name := gen.Pick(t, "int", "uint_", "e", "empty", "d0", "A_b", "true1", "_x", "double", "elem") + "_" + old
			g.Walk(func(p *model.Pattern) {
				if p.K == "ref" && p.Ref == old {
					p.Ref = name
				}
			})
			g.Decls[i].Name = name
		}
	}
	return g
}

// wide gives every operator at least two operands (the notation has no other).
func wide(t T, g *model.Grammar) {
	g.Walk(func(p *model.Pattern) {
		switch p.K {
		case "concat", "or", "and", "inter":
			for len(p.A) < 2 {
				p.A = append(p.A, model.PAny())
			}
		}
		if p.N != nil {
			wideName(p.N)
		}
	})
}

func wideName(n *model.Name) {
	for n.K == "choice" && len(n.A) < 2 {
		n.A = append(n.A, model.NAny())
	}
	for _, a := range n.A {
		wideName(a)
	}
}

// nestBuiltins puts built-in notations inside of expressions, which the syntax allows.
func nestBuiltins(t T, g *model.Grammar) {
	g.Walk(func(p *model.Pattern) {
		if p.K != "leaf" || !gen.Chance(t, 1, 5) {
			return
		}
		p.E = gen.CloneExpr(p.E)
		p.E.Walk(func(x *model.Expr) {
			for i := range x.A {
				if gen.Chance(t, 1, 6) {
					x.A[i] = model.BI(gen.Pick(t, "==", "!=", "<", "<=", ">", ">=", "~=", "*=", "^=", "$=", "::"), x.A[i])
				}
			}
		})
		retype(p.E)
	})
}

func retype(e *model.Expr) {
	for _, a := range e.A {
		retype(a)
	}
	if e.K == "fn" {
		e.T = model.FnResult(e.Name, e.A)
	}
}

func genGText(t T) gtextCase {
	g := genTextGrammar(t)
	return gtextCase{g, gen.GrammarText(t, g, gen.RandomLayout(t))}
}

// spaceOf collects the comments of a parsed grammar in print order, from its text.
func commentsIn(s string) []string {
	var cs []string
	for i := 0; i < len(s); {
		switch {
		case strings.HasPrefix(s[i:], "//"):
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				return append(cs, s[i:])
			}
			cs = append(cs, s[i:i+j+1])
			i += j + 1
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return append(cs, s[i:])
			}
			cs = append(cs, s[i:i+j+4])
			i += j + 4
		case s[i] == '"' || s[i] == '\'':
			q := s[i]
			i++
			if q == '\'' && i < len(s) && s[i] == '\'' { // the character '
				i += 2
				continue
			}
			for i < len(s) && s[i] != q {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			i++
		case s[i] == '`':
			j := strings.IndexByte(s[i+1:], '`')
			if j < 0 {
				return cs
			}
			i += j + 2
		default:
			i++
		}
	}
	return cs
}

func sameComments(got []string, want []core.Str, trim bool) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		a, b := got[i], string(want[i])
		if trim {
			a, b = strings.TrimSpace(a), strings.TrimSpace(b)
		}
		if a != b {
			return false
		}
	}
	return true
}

// same compares a parsed grammar with the model.
func sameGrammar(what string, got *ast.Grammar, want *model.Grammar) error {
	m, err := model.FromAST(got)
	if err != nil {
		return errf("%s: %v", what, err)
	}
	if a, b := m.Canon(), want.Canon(); a != b {
		return errf("%s: stands for another grammar\ngot  %s\nwant %s", what, a, b)
	}
	return nil
}

func runPrintParse(c gtextCase, o *core.Obs) error {
	text := string(c.T.S)
	g1, err := rparser.ParseGrammar(text)
	if err != nil {
		return errf("does not parse: %v\ntext: %q", err, text)
	}
	if err := sameGrammar("parsed", g1, c.G); err != nil {
		return errf("%v\ntext: %q", err, text)
	}
	s1 := g1.String()
	if got := commentsIn(s1); !sameComments(got, c.T.Comments, false) {
		return errf("comments of the printed grammar are %q, want %q\ntext: %q\nprinted: %q", got, c.T.Comments, text, s1)
	}
	if a, b := spaces(text), spaces(s1); a != b {
		return errf("whitespace did not survive printing\ntext: %q\nprinted: %q", text, s1)
	}
	g2, err := rparser.ParseGrammar(s1)
	if err != nil {
		return errf("the printed grammar does not parse: %v\ntext: %q\nprinted: %q", err, text, s1)
	}
	if err := sameGrammar("printed and parsed", g2, c.G); err != nil {
		return errf("%v\ntext: %q\nprinted: %q", err, text, s1)
	}
	s2 := g2.String()
	if s2 != s1 {
		return errf("printing is not a fixed point\nfirst:  %q\nsecond: %q", s1, s2)
	}
	g3, err := rparser.ParseGrammar(s2)
	if err != nil {
		return err
	}
	if !g3.Equal(g2) || !g2.Equal(g3) {
		return errf("parsing one text twice gives different grammars\ntext: %q", s2)
	}
	o.NonTrivialIf(c.G.Size() > 2)
	o.LabelIf(len(c.T.Comments) > 0, "comments")
	o.Sample("%s", text)
	return nil
}

// spaces is the sequence of all pieces of space of a text without its comments and strings.
func spaces(s string) string {
	for _, c := range commentsIn(s) {
		s = strings.Replace(s, c, "", 1)
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', '`':
			q := s[i]
			for i++; i < len(s) && s[i] != q; i++ {
				if s[i] == '\\' && q == '"' {
					i++
				}
			}
		case '[': // a list of bytes may have its own spaces and characters
			if strings.HasPrefix(s[i:], "[]byte{") {
				i += len("[]byte{")
				for i < len(s) && s[i] != '}' {
					if s[i] == '\'' {
						i++
						if i < len(s) && s[i] == '\\' {
							i++
						}
						i++
						for i < len(s) && s[i] != '\'' {
							i++
						}
					}
					i++
				}
			}
		case ' ', '\n', '\t', '\r':
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func runFormat(c gtextCase, o *core.Obs) error {
	text := string(c.T.S)
	g, err := rparser.ParseGrammar(text)
	if err != nil {
		return errf("does not parse: %v\ntext: %q", err, text)
	}
	g.Format()
	f1 := g.String()
	g2, err := rparser.ParseGrammar(f1)
	if err != nil {
		return errf("the formatted grammar does not parse: %v\ntext: %q\nformatted: %q", err, text, f1)
	}
	if err := sameGrammar("formatted", g2, c.G); err != nil {
		return errf("%v\ntext: %q\nformatted: %q", err, text, f1)
	}
	if err := sameGrammar("formatted in place", g, c.G); err != nil {
		return errf("%v\ntext: %q\nformatted: %q", err, text, f1)
	}
	if got := commentsIn(f1); !sameComments(got, c.T.Comments, true) {
		return errf("comments of the formatted grammar are %q, want %q\ntext: %q\nformatted: %q", got, c.T.Comments, text, f1)
	}
	g2.Format()
	if f2 := g2.String(); f2 != f1 {
		return errf("formatting is not idempotent\ntext:   %q\nfirst:  %q\nsecond: %q", text, f1, f2)
	}
	g.Format()
	if f2 := g.String(); f2 != f1 {
		return errf("formatting in place again changed the grammar\ntext:   %q\nfirst:  %q\nsecond: %q", text, f1, f2)
	}
	o.NonTrivialIf(f1 != text && c.G.Size() > 2)
	o.LabelIf(len(c.T.Comments) > 0, "comments")
	o.Sample("%q -> %q", text, f1)
	return nil
}

// spacesOf lists the pieces of space of a parsed grammar.
func spacesOf(g interface{}) []*ast.Space {
	var sp []*ast.Space
	reach(reflect.ValueOf(g), "", func(_ string, v reflect.Value) {
		if s, ok := v.Interface().(*ast.Space); ok && s != nil {
			sp = append(sp, s)
		}
	})
	return sp
}

// runComments reads the comments of a parsed grammar from its pieces of space.
func runComments(c gtextCase, o *core.Obs) error {
	text := string(c.T.S)
	g, err := rparser.ParseGrammar(text)
	if err != nil {
		return errf("does not parse: %v\ntext: %q", err, text)
	}
	for round := 0; round < 2; round++ {
		trim := round == 1
		var want, got []string
		for _, k := range c.T.Comments {
			s := string(k)
			if trim {
				s = strings.TrimSpace(s)
			}
			want = append(want, s)
		}
		for _, sp := range spacesOf(g) {
			all := sp.GetComments()
			if sp.HasComment() != (len(all) > 0) {
				return errf("HasComment() is %v for a space with the comments %q: %q\ntext: %q", sp.HasComment(), all, sp.Space, text)
			}
			var last ast.Comment
			for _, k := range all {
				s, body := string(k), ""
				if strings.HasPrefix(s, "//") {
					body = strings.TrimSuffix(s[2:], "\n")
				} else {
					body = s[2 : len(s)-2]
				}
				if k.GetContent() != body {
					return errf("the content of the comment %q is %q\ntext: %q", s, k.GetContent(), text)
				}
				if trim {
					s = strings.TrimSpace(s)
				}
				got, last = append(got, s), k
			}
			// attached: the last comment, if nothing but the end of its line is between it and what follows
			at := sp.GetAttachedComment()
			if sp.HasAttachedComment() != (at != "") || at != "" && at != last {
				return errf("the attached comment is %q (%v) in the space %q\ntext: %q", at, sp.HasAttachedComment(), sp.Space, text)
			}
			if last != "" && sp.Space[len(sp.Space)-1] == string(last) {
				o.Label("attached")
				if at != last {
					return errf("the attached comment is %q in the space %q\ntext: %q", at, sp.Space, text)
				}
			} else if last == "" || strings.HasPrefix(string(last), "//") && strings.Contains(sp.Space[len(sp.Space)-1], "\n") {
				o.Label("detached")
				if at != "" {
					return errf("the attached comment is %q in the space %q\ntext: %q", at, sp.Space, text)
				}
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if !reflect.DeepEqual(want, got) {
			return errf("the comments are %q, want %q (formatted: %v)\ntext: %q", got, want, trim, text)
		}
		// formatting every piece of space by itself
		for _, sp := range spacesOf(g) {
			sp.Format()
			once := append([]string{}, sp.Space...)
			if sp.Format(); strings.Join(once, "") != strings.Join(sp.Space, "") {
				return errf("formatting the space %q again gives %q\ntext: %q", once, sp.Space, text)
			}
		}
	}
	o.NonTrivialIf(len(c.T.Comments) > 0)
	o.Sample("%q", c.T.Comments)
	return nil
}

// runFormatParts formats the patterns of a grammar by themselves.
func runFormatParts(c gtextCase, o *core.Obs) error {
	text := string(c.T.S)
	g, err := rparser.ParseGrammar(text)
	if err != nil {
		return errf("does not parse: %v\ntext: %q", err, text)
	}
	var ps []*ast.Pattern
	reach(reflect.ValueOf(g), "", func(_ string, v reflect.Value) {
		if p, ok := v.Interface().(*ast.Pattern); ok && p != nil {
			ps = append(ps, p)
		}
	})
	sum := 0
	for _, p := range ps {
		before := p.String()
		sum += len(before)
		if sum > 20000 {
			break
		}
		if _, err := rparser.ParseGrammar(before); err != nil {
			continue // the rest of a list of operands
		}
		p.Format()
		once := p.String()
		q, err := rparser.ParseGrammar(once)
		if err != nil {
			return errf("the formatted pattern does not parse: %v\npattern: %q\nformatted: %q\ntext: %q", err, before, once, text)
		}
		a, err1 := model.FromAST(&ast.Grammar{TopPattern: p})
		b, err2 := model.FromAST(q)
		if err1 != nil || err2 != nil || a.Canon() != b.Canon() {
			return errf("the formatted pattern stands for another\npattern: %q\nformatted: %q\ntext: %q", before, once, text)
		}
		if a, b := commentsIn(before), commentsIn(once); !sameTrimmed(a, b) {
			return errf("comments of the formatted pattern are %q, want %q\ntext: %q", b, a, text)
		}
		if p.Format(); p.String() != once {
			return errf("formatting is not idempotent\nfirst:  %q\nsecond: %q\ntext: %q", once, p.String(), text)
		}
		o.LabelIf(once != before, "changed")
	}
	if err := sameGrammar("formatted in parts", g, c.G); err != nil {
		return errf("%v\ntext: %q", err, text)
	}
	o.NonTrivialIf(len(ps) > 2)
	return nil
}

func sameTrimmed(a, b []string) bool {
	var w []core.Str
	for _, s := range b {
		w = append(w, core.Str(s))
	}
	return sameComments(a, w, true)
}

type astCase struct {
	G    *model.Grammar `json:"g"`
	Bare bool           `json:"bare,omitempty"` // without arrows, which the constructors add
}

// runAST prints a grammar built with the constructor functions.
func runAST(c astCase, o *core.Obs) error {
	model.Bare = c.Bare
	g := c.G.ToAST()
	model.Bare = false
	text := g.String()
	g2, err := rparser.ParseGrammar(text)
	if err != nil {
		return errf("the printed grammar does not parse: %v\nprinted: %q", err, text)
	}
	if err := sameGrammar("printed and parsed", g2, c.G); err != nil {
		return errf("%v\nprinted: %q", err, text)
	}
	if s := g2.String(); s != text {
		return errf("printing the parsed grammar gives another text\nprinted: %q\nagain:   %q", text, s)
	}
	g.Format()
	f := g.String()
	g3, err := rparser.ParseGrammar(f)
	if err != nil {
		return errf("the formatted grammar does not parse: %v\nformatted: %q", err, f)
	}
	if err := sameGrammar("formatted", g3, c.G); err != nil {
		return errf("%v\nformatted: %q", err, f)
	}
	ops, _ := opCount(c.G)
	o.NonTrivialIf(ops > 0)
	o.Sample("%s", text)
	return nil
}

type exprTextCase struct {
	E *model.Expr `json:"e"`
	T gen.Text    `json:"t"`
}

// runExprText parses the text of a value expression alone.
func runExprText(c exprTextCase, o *core.Obs) error {
	text := string(c.T.S)
	want := jsonOf(c.E)
	check := func(what, s string) (*ast.Expr, error) {
		x, err := rparser.NewParser().ParseExpr(s)
		if err != nil {
			return nil, errf("%s does not parse as an expression: %v\ntext: %q", what, err, s)
		}
		m, err := model.ExprFromAST(x)
		if err != nil {
			return nil, errf("%s: %v\ntext: %q", what, err, s)
		}
		if got := jsonOf(m); got != want {
			return nil, errf("%s stands for another expression\ntext: %q\ngot  %s\nwant %s", what, s, got, want)
		}
		return x, nil
	}
	x, err := check("the text", text)
	if err != nil {
		return err
	}
	s1 := x.String()
	y, err := check("the printed expression", s1)
	if err != nil {
		return err
	}
	if s2 := y.String(); s2 != s1 {
		return errf("printing is not a fixed point\nfirst:  %q\nsecond: %q", s1, s2)
	}
	if n, m := x.HasVar(), exprHasVar(c.E); n != m {
		return errf("HasVar is %v for %q", n, text)
	}
	if got := commentsIn(s1); !sameComments(got, c.T.Comments[:len(got)], false) {
		return errf("comments of the printed expression are %q, want %q", got, c.T.Comments)
	}
	o.NonTrivialIf(c.E.Size() > 1)
	o.Sample("%s", text)
	return nil
}

// exprHasVar reports whether a variable or a built-in notation, which stands for one, occurs.
func exprHasVar(e *model.Expr) (r bool) {
	e.Walk(func(x *model.Expr) { r = r || x.K == "var" || x.K == "bi" })
	return r
}

func init() {
	core.Register(core.Spec{Prop: "S01", Name: "exprs", Quick: 30000, Thorough: 500000, Terminates: true,
		Rule: "random expressions with literals in every notation written with random layout and comments, parsed alone, compared with the model, printed and parsed again; non-trivial: more than one node"},
		func(t T) exprTextCase {
			p := model.PLeaf(gen.BoolExpr(t, gen.EConf{Depth: gen.N(t, 5), MayErr: true}))
			if gen.Chance(t, 1, 4) {
				nestBuiltins(t, &model.Grammar{Main: p})
			}
			return exprTextCase{p.E, gen.ExprText(t, p.E, gen.RandomLayout(t))}
		}, runExprText)
	ruleT := "random grammars (all operators, names and expressions with literals in every notation) written with random layout and comments; "
	core.Register(core.Spec{Prop: "S01", Name: "grammars", Quick: 30000, Thorough: 800000, Terminates: true,
		Rule: ruleT + "parse, compare with the model, print, compare comments and whitespace, parse again, print again; non-trivial: more than 2 pattern nodes"}, genGText, runPrintParse)
	core.Register(core.Spec{Prop: "S03", Name: "grammars", Quick: 30000, Thorough: 800000, Terminates: true,
		Rule: ruleT + "format, parse, compare with the model and the comments, format again; non-trivial: formatting changed a grammar of more than 2 pattern nodes"}, genGText, runFormat)
	core.Register(core.Spec{Prop: "S01", Name: "comments", Quick: 20000, Thorough: 500000, Terminates: true,
		Rule: ruleT + "the comments read from the pieces of space of the parsed grammar, before and after formatting, are the ones written, with their contents; a comment right before what follows is attached, one on a line before an empty line is not; non-trivial: has comments"}, genGText, runComments)
	core.Register(core.Spec{Prop: "S03", Name: "parts", Quick: 15000, Thorough: 300000, Terminates: true,
		Rule: ruleT + "every pattern formatted by itself, outer patterns first: parses as the same pattern, keeps its comments, formatted again it stays; non-trivial: more than 2 patterns"}, genGText, runFormatParts)
	core.Register(core.Spec{Prop: "S02", Name: "grammars", Quick: 30000, Thorough: 800000, Terminates: true,
		Rule: "random grammars built with the constructor functions, printed, parsed and compared with the model, also after formatting; non-trivial: an operator besides node and value"},
		func(t T) astCase {
			g := gen.Grammar(t, gen.GConf{Depth: 1 + gen.N(t, 4), Decls: 3, WildNames: true, Expr: gen.EConf{Depth: gen.N(t, 4), MayErr: true}})
			if gen.Chance(t, 1, 3) {
				nestBuiltins(t, g)
			}
			return astCase{g, gen.Chance(t, 1, 3)}
		}, runAST)
}
