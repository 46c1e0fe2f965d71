package checks

import (
	"errors"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	rerrors "github.com/katydid/katydid/relapse/errors"
	"github.com/katydid/katydid/relapse/lexer"
	rparser "github.com/katydid/katydid/relapse/parser"
	"github.com/katydid/katydid/relapse/token"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

type rawText struct {
	S core.Str `json:"s"`
}

// readingOf is what a parsed grammar stands for.
func readingOf(g *ast.Grammar) (*model.Reading, error) {
	r := &model.Reading{}
	if g.TopPattern != nil {
		p, err := model.PatternFromAST(g.TopPattern)
		if err != nil {
			return nil, err
		}
		r.Top = p
	}
	for _, d := range g.PatternDecls {
		p, err := model.PatternFromAST(d.Pattern)
		if err != nil {
			return nil, err
		}
		r.Decls = append(r.Decls, model.Decl{Name: d.Name, P: p})
	}
	return r, nil
}

// zero ignores the sign of zero.
func zero(s string) string { return strings.ReplaceAll(s, `{"d":"-0"}`, `{"d":"0"}`) }

// unclear: the notation does not say what text that is not UTF-8 stands for.
func unclear(s string) bool { return strings.ToValidUTF8(s, "") != s }

func runParse(c rawText, o *core.Obs) error { return parseText(string(c.S), o, false) }

func parseText(text string, o *core.Obs, strict bool) error {
	g, err := rparser.ParseGrammar(text)
	if (g == nil) == (err == nil) {
		return errf("ParseGrammar returned grammar %v and error %v\ntext: %q", g, err, text)
	}
	want, why := model.ReadNotation(text)
	o.Sample("%q accepted=%v", cut(text, 300), err == nil)
	o.LabelIf(err == nil, "accepted")
	if err != nil {
		if want != nil && !unclear(text) && (strict || !glued(text)) {
			return errf("a grammar is rejected: %v\ntext: %q\nreading: %s", err, text, want.Canon())
		}
		o.NonTrivialIf(strings.TrimSpace(text) != "")
		return nil
	}
	o.NonTrivialIf(len(text) > 3)
	if want == nil {
		return errf("accepted, but it is no grammar (%s)\ntext: %q\nread as: %q", why, text, g.String())
	}
	got, err := readingOf(g)
	if err != nil {
		return errf("%v\ntext: %q", err, text)
	}
	if unclear(text) {
		return nil
	}
	if a, b := zero(got.Canon()), zero(want.Canon()); a != b {
		return errf("read as another grammar\ntext: %q\ngot:  %s\nwant: %s", text, a, b)
	}
	printed := g.String()
	again, why := model.ReadNotation(printed)
	if again == nil || zero(again.Canon()) != zero(want.Canon()) {
		return errf("prints as another grammar (%s)\ntext: %q\nprinted: %q", why, text, printed)
	}
	if a, b := strings.Join(commentsIn(text), "|"), strings.Join(commentsIn(printed), "|"); a != b {
		return errf("the comments did not survive printing\ntext: %q\nprinted: %q", text, printed)
	}
	// an expression alone is a grammar that is only a value
	x, err := rparser.ParseExpr(text)
	if isLeaf := want.Top != nil && want.Top.K == "leaf" && len(want.Decls) == 0; isLeaf != (err == nil) {
		return errf("ParseExpr returned error %v\ntext: %q", err, text)
	}
	if err == nil {
		o.Label("expression")
		m, err := model.ExprFromAST(x)
		if err != nil {
			return err
		}
		if a, b := zero(model.CanonExpr(m)), zero(model.CanonExpr(want.Top.E)); a != b {
			return errf("read as another expression\ntext: %q\ngot:  %s\nwant: %s", text, a, b)
		}
	}
	return nil
}

// gluedTok: the token is the start of another one that the text seems to begin (<e of <empty>, int( of a
// literal, [] of a list type). The generated lexer does not go back to the shorter token. The cases that
// matter are decided by S04/glued.
func gluedTok(ts []model.Tok, i int) bool {
	next := ""
	if i+1 < len(ts) {
		next = ts[i+1].Lit
	}
	switch ts[i].Lit {
	case "<":
		return strings.HasPrefix(next, "e")
	case "int", "uint", "double":
		return next == "("
	case "[":
		return next == "]"
	}
	return false
}

func glued(text string) bool {
	ts, _ := model.Tokens(text)
	for i := range ts {
		if gluedTok(ts, i) {
			return true
		}
	}
	return false
}

type gluedCase struct {
	Op string `json:"op"`
	X  string `json:"x"`
}

// runGlued parses a built-in notation written without a space.
func runGlued(c gluedCase, o *core.Obs) error {
	o.NonTrivial()
	return parseText("a"+c.Op+c.X, o, true)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runLexer compares the tokens of the lexer with those of the notation.
func runLexer(c rawText, o *core.Obs) error {
	text := string(c.S)
	want, ok := model.Tokens(text)
	l := lexer.NewLexer([]byte(text))
	pos := 0
	for i := 0; ; i++ {
		if i > len(text)+1 {
			return errf("the lexer does not end\ntext: %q", text)
		}
		tok := l.Scan()
		if tok.Pos.Offset != pos {
			return errf("token %d is at %d, but the one before ended at %d\ntext: %q", i, tok.Pos.Offset, pos, text)
		}
		if tok.Type == token.EOF {
			if pos != len(text) || len(tok.Lit) != 0 {
				return errf("the lexer ends at %d of %d\ntext: %q", pos, len(text), text)
			}
			if i != len(want) || !ok {
				return errf("the lexer ends after %d tokens, want %d (valid %v)\ntext: %q", i, len(want), ok, text)
			}
			break
		}
		if len(tok.Lit) == 0 || !strings.HasPrefix(text[pos:], string(tok.Lit)) {
			return errf("token %d has the text %q\ntext: %q", i, tok.Lit, text)
		}
		pos += len(tok.Lit)
		if tok.Type == token.INVALID {
			if (ok || i != len(want)) && !(i < len(want) && gluedTok(want, i)) {
				return errf("token %d %q is invalid\ntext: %q", i, tok.Lit, text)
			}
			o.Label("invalid")
			o.NonTrivialIf(i > 0)
			return nil
		}
		if i >= len(want) || want[i].Lit != string(tok.Lit) || !sameKind(want[i].K, token.TokMap.Id(tok.Type)) {
			return errf("token %d is %s %q, want %v\ntext: %q", i, token.TokMap.Id(tok.Type), tok.Lit, at(want, i), text)
		}
	}
	o.NonTrivialIf(len(want) > 1)
	o.Sample("%q: %d tokens", cut(text, 200), len(want))
	return nil
}

func at(ts []model.Tok, i int) interface{} {
	if i < len(ts) {
		return ts[i]
	}
	return "none"
}

func sameKind(k, id string) bool {
	switch k {
	case "int":
		return id == "int_lit"
	case "uint", "double", "bytes":
		return id == k+"_cast_lit"
	case "string":
		return id == "string_lit"
	case "var":
		return strings.HasSuffix(id, "_var")
	}
	return k == id
}

type textsCase struct {
	S []core.Str `json:"s"`
	X []bool     `json:"x"` // as an expression
}

// runReuse gives one parser many texts.
func runReuse(c textsCase, o *core.Obs) error {
	p := rparser.NewParser()
	failed, after := false, false
	for i, s := range c.S {
		text := string(s)
		var got, want string
		if c.X[i] {
			x, err := p.ParseExpr(text)
			y, err2 := rparser.ParseExpr(text)
			if (err == nil) != (err2 == nil) {
				return errf("text %d of %q: a parser used before returns error %v, a new one %v", i, c.S, err, err2)
			}
			if err == nil {
				got, want = x.String(), y.String()
			}
			failed, after = failed || err != nil, after || failed && err == nil
		} else {
			x, err := p.ParseGrammar(text)
			y, err2 := rparser.ParseGrammar(text)
			if (err == nil) != (err2 == nil) {
				return errf("text %d of %q: a parser used before returns error %v, a new one %v", i, c.S, err, err2)
			}
			if err == nil {
				got, want = x.String(), y.String()
				if !x.Equal(y) {
					return errf("text %d of %q: a parser used before returns another grammar", i, c.S)
				}
			}
			failed, after = failed || err != nil, after || failed && err == nil
		}
		if got != want {
			return errf("text %d of %q: a parser used before returns %q, a new one %q", i, c.S, got, want)
		}
	}
	o.NonTrivialIf(after)
	o.Sample("%q", c.S)
	return nil
}

type posCase struct {
	S   core.Str `json:"s"`
	At  int      `json:"at"`  // which token, counted from the end if it is beyond
	Cut bool     `json:"cut"` // cut the text off there, instead of inserting something that is no token
}

// runPosition: the error of a text that is wrong in a known place names the place.
func runPosition(c posCase, o *core.Obs) error {
	text := string(c.S)
	ts, ok := model.Tokens(text)
	if !ok || len(ts) == 0 || glued(text) {
		return nil
	}
	off := ts[c.At%len(ts)].Off
	if c.Cut {
		text = text[:off]
	} else {
		text = text[:off] + "%" + text[off:]
	}
	_, err := rparser.ParseGrammar(text)
	if err == nil {
		if !c.Cut {
			return errf("accepted: %q", text)
		}
		o.Label("complete")
		return nil
	}
	if strings.TrimSpace(err.Error()) == "" {
		return errf("an error without a text\ntext: %q", text)
	}
	var e *rerrors.Error
	if !errors.As(err, &e) || e.ErrorToken == nil {
		return errf("the error has no position: %v\ntext: %q", err, text)
	}
	tok := e.ErrorToken
	line := 1 + strings.Count(text[:off], "\n")
	if tok.Pos.Offset != off || tok.Pos.Line != line {
		return errf("the error is at %d in line %d, want %d in line %d: %v\ntext: %q", tok.Pos.Offset, tok.Pos.Line, off, line, err, text)
	}
	if !strings.Contains(err.Error(), tok.Pos.String()) {
		return errf("the text of the error does not have the position: %v\ntext: %q", err, text)
	}
	if e.String() == "" || len(e.ExpectedTokens) == 0 && e.Err == nil {
		return errf("the error does not tell what is expected: %v\ntext: %q", err, text)
	}
	o.NonTrivialIf(off > 0)
	o.LabelIf(line > 1, "not in the first line")
	o.LabelIf(c.Cut, "cut off")
	o.Sample("%q: %v", cut(text, 200), err)
	return nil
}

type deepCase struct {
	Depth int      `json:"depth"`
	Wrap  []string `json:"wrap"` // pairs around #
	In    core.Str `json:"in"`
	Cut   int      `json:"cut"` // bytes dropped at the end
	Pre   string   `json:"pre,omitempty"`
	Post  string   `json:"post,omitempty"`
}

func (c deepCase) text() string {
	var a, b []string
	for i := 0; i < c.Depth; i++ {
		w := strings.SplitN(c.Wrap[i%len(c.Wrap)], "#", 2)
		a, b = append(a, w[0]), append(b, w[1])
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	s := c.Pre + strings.Join(a, "") + string(c.In) + strings.Join(b, "") + c.Post
	if c.Cut < len(s) {
		s = s[:len(s)-c.Cut]
	}
	return s
}

func runDeep(c deepCase, o *core.Obs) error {
	if err := runParse(rawText{core.Str(c.text())}, o); err != nil {
		return err
	}
	o.NonTrivialIf(c.Depth > 20)
	o.LabelIf(c.Depth > 200, "deeper than 200")
	return nil
}

func plainText(t T) string { return string(genGText(t).T.S) }

func genNear(t T) rawText {
	var s string
	if gen.Chance(t, 1, 4) {
		p := model.PLeaf(gen.BoolExpr(t, gen.EConf{Depth: gen.N(t, 4), MayErr: true}))
		s = string(gen.ExprText(t, p.E, gen.RandomLayout(t)).S)
	} else {
		s = plainText(t)
	}
	if gen.Chance(t, 9, 10) {
		s = gen.NearText(t, s)
	}
	return rawText{core.Str(s)}
}

func genTokens(t T) rawText {
	var b strings.Builder
	for n := gen.N(t, 14); n > 0; n-- {
		b.WriteString(gen.Token(t))
		b.WriteString(gen.Pick(t, "", "", " ", "\n", "/**/"))
	}
	return rawText{core.Str(b.String())}
}

func genBytes(t T) rawText {
	set := gen.Pick(t, "", "()[]{},;|&:*!_.@#=->?$~^a1\"`'\\ ", "[]byte{}0x1'\\ ,", "int(-0x78)double(.e+E)uint", "\"\\xuU0123dDfF`")
	var b []byte
	for n := gen.N(t, 24); n > 0; n-- {
		if set == "" {
			b = append(b, byte(gen.N(t, 256)))
		} else {
			b = append(b, set[gen.N(t, len(set))])
		}
	}
	return rawText{core.Str(b)}
}

func init() {
	near := "random grammar texts and expressions with a few tokens or bytes deleted, repeated, exchanged, inserted or cut off; "
	rule := "accepted exactly if an independent reader of the notation accepts, with the same meaning, and printed with the same meaning and comments; ParseExpr agrees; "
	core.Register(core.Spec{Prop: "S04", Name: "near", Quick: 40000, Thorough: 1000000, Terminates: true,
		Rule: near + rule + "non-trivial: longer than 3 bytes"}, genNear, runParse)
	core.Register(core.Spec{Prop: "S04", Name: "tokens", Quick: 40000, Thorough: 1000000, Terminates: true,
		Rule: "random sequences of tokens; " + rule + "non-trivial: not only space"}, genTokens, runParse)
	core.Register(core.Spec{Prop: "S04", Name: "bytes", Quick: 40000, Thorough: 1000000, Terminates: true,
		Rule: "random bytes of all or of a few characters of the notation; " + rule + "non-trivial: not only space"}, genBytes, runParse)
	core.Register(core.Spec{Prop: "S04", Name: "deep", Quick: 1500, Thorough: 20000, Terminates: true,
		Rule: "nestings of operators up to 600 deep, some cut off; " + rule + "non-trivial: deeper than 20"},
		func(t T) deepCase {
			all := []string{"(#)*", "(#)?", "!(#)", "(#|*)", "(*|#)", "(*|*|#)", "[#,*]", "[*,#,]", "{#;*}", "{*;*;#}", "(#&*)", "(*&#)", ".#", "a:#", "_:#", "(a|b):#", "!(a):#", " a : #", "a.#", "a[#,*]"}
			c := deepCase{In: "*"}
			for n := 1 + gen.N(t, 3); n > 0; n-- {
				c.Wrap = append(c.Wrap, all[gen.N(t, len(all))])
			}
			switch gen.N(t, 6) {
			case 0:
				c.Pre, c.Wrap, c.In = "->", []string{gen.Pick(t, "not(#)", "== #", "and(#,true)", " []bool{#}", "type( #)", "length(#)")}, core.Str(gen.Pick(t, "true", "$int", "1"))
			case 1:
				c.Wrap, c.In, c.Post = []string{gen.Pick(t, "!(#)", "(#|a)", "(a|#)")}, "_", ":*"
			}
			c.Depth = 1 + gen.N(t, gen.Pick(t, 50, 600))
			if gen.Chance(t, 1, 3) {
				c.Cut = gen.N(t, 4)
			}
			return c
		}, runDeep)
	core.Register(core.Spec{Prop: "S04", Name: "lexer", Quick: 40000, Thorough: 1000000, Terminates: true,
		Rule: near + "the lexer finds the tokens of the notation (longest match), one after the other up to the end or the first text that is no token; non-trivial: more than one token"},
		func(t T) rawText {
			switch gen.N(t, 4) {
			case 0:
				return genTokens(t)
			case 1:
				return genBytes(t)
			}
			return genNear(t)
		}, runLexer)
	core.Register(core.Spec{Prop: "S04", Name: "position", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "random grammar texts with a character that begins no token inserted between two tokens, or cut off between two tokens: the error carries the offset and the line of the place; non-trivial: not at the beginning"},
		func(t T) posCase {
			return posCase{core.Str(plainText(t)), gen.N(t, 200), gen.Chance(t, 1, 3)}
		}, runPosition)
	core.Register(core.Spec{Prop: "S04", Name: "glued", Quick: 2000, Thorough: 4000, Terminates: true,
		Rule: "every built-in symbol directly followed by every kind of expression; " + rule + "non-trivial: all"},
		func(t T) gluedCase {
			return gluedCase{gen.Pick(t, "==", "!=", "<", ">", ">=", "<=", "~=", "*=", "^=", "$=", "::"),
				gen.Pick(t, "1", "int(1)", "uint(1)", "double(1.5)", "-1", `"a"`, "`a`", "[]byte{1}", "true", "$int", "$[]byte", "[]int{1}", "[][]byte{}", "not(true)", "f(1)", "elem([]int{1},0)", "eq(1,1)", "eqFold($string,\"a\")", "empty(1)")}
		}, runGlued)
	core.Register(core.Spec{Prop: "S04", Name: "reuse", Quick: 8000, Thorough: 100000, Terminates: true,
		Rule: "one parser given up to six texts, valid and not, as grammars and expressions, answers like a new parser; non-trivial: a text is accepted after another was rejected"},
		func(t T) textsCase {
			var c textsCase
			for n := 2 + gen.N(t, 5); n > 0; n-- {
				s := genNear(t).S
				if gen.Chance(t, 1, 3) {
					s = core.Str(plainText(t))
				}
				c.S, c.X = append(c.S, s), append(c.X, gen.Chance(t, 1, 4))
			}
			return c
		}, runReuse)
}
