package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// Text is a grammar text with what it stands for.
type Text struct {
	S        Str   `json:"s"`
	Comments []Str `json:"c,omitempty"`
}

// Layout says how a text is written.
type Layout struct {
	Space    int // of 8: how often there is space where none is needed
	Comments int // of 8: how often a piece of space is a comment
	Plain    bool
}

func RandomLayout(t *rapid.T) Layout {
	switch W(t, 2, 3, 3, 2) {
	case 0:
		return Layout{Plain: true}
	case 1:
		return Layout{Space: 1 + N(t, 4)}
	case 2:
		return Layout{Space: 1 + N(t, 5), Comments: 1 + N(t, 4)}
	}
	return Layout{Space: 8, Comments: N(t, 8)}
}

type texter struct {
	t        *rapid.T
	l        Layout
	b        strings.Builder
	last     string
	comments []Str
	glued    bool // no space may come before the next token
}

func idChar(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// apart reports whether two tokens must not touch.
func apart(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := a[len(a)-1], b[0]
	switch {
	case idChar(x) && idChar(y):
		return true
	case x == ':' && y == ':':
		return true
	case a == "<" && y == 'e':
		return true
	case y == '=' && strings.IndexByte("<>=!~*^$", x) >= 0:
		return true
	}
	return false
}

var commentTexts = []string{" c ", "", " a note", "*", " * ", "/", " \"quoted\" ", " 'q' `r` ", " #x = * ", " ä ", "\t", " trailing  ", "//", "**"}

func (w *texter) space() string {
	var b strings.Builder
	for n := 1 + W(w.t, 6, 2, 1, 1); n > 0; n-- {
		if N(w.t, 8) < w.l.Comments {
			c := Pick(w.t, commentTexts...)
			if Chance(w.t, 1, 3) {
				c += Pick(w.t, commentTexts...)
			}
			if Chance(w.t, 1, 2) {
				c = "//" + c + "\n"
			} else {
				if Chance(w.t, 1, 4) {
					c += "\n" + Pick(w.t, commentTexts...)
				}
				c = "/*" + strings.ReplaceAll(c, "/", "") + "*/"
			}
			b.WriteString(c)
			w.comments = append(w.comments, Str(c))
			continue
		}
		b.WriteString(Pick(w.t, " ", "\n", "\t", "  ", "\n\n", "\r\n", " \n ", "\n\n\n"))
	}
	return b.String()
}

// tok writes a token, with space before it where that is needed or wanted.
func (w *texter) tok(s string) {
	if w.glued {
		w.glued = false
	} else if w.l.Space > 0 && N(w.t, 8) < w.l.Space {
		w.b.WriteString(w.space())
	} else if apart(w.last, s) {
		w.b.WriteString(" ")
	}
	w.b.WriteString(s)
	w.last = s
}

func (w *texter) glue(s string) { w.glued = true; w.tok(s) }

// GrammarText writes a grammar. The text stands for exactly the grammar, up to the nesting of associative operators.
func GrammarText(t *rapid.T, g *model.Grammar, l Layout) Text {
	w := &texter{t: t, l: l}
	decls := g.Decls
	if Chance(t, 1, 4) { // #main = among the declarations
		i := N(t, len(decls)+1)
		decls = append(append(append([]model.Decl{}, decls[:i]...), model.Decl{Name: "main", P: g.Main}), decls[i:]...)
	} else {
		w.pattern(g.Main)
	}
	for _, d := range decls {
		w.tok("#")
		w.tok(d.Name)
		w.tok("=")
		w.pattern(d.P)
	}
	if w.l.Space > 0 && N(t, 8) < w.l.Space {
		w.b.WriteString(w.space())
	}
	return Text{Str(w.b.String()), w.comments}
}

// ExprText writes a value expression as it stands for a value, with arrow or as built-in.
func ExprText(t *rapid.T, e *model.Expr, l Layout) Text {
	w := &texter{t: t, l: l}
	w.leaf(e)
	if w.l.Space > 0 && N(t, 8) < w.l.Space {
		w.b.WriteString(w.space())
	}
	return Text{Str(w.b.String()), w.comments}
}

func (w *texter) leaf(e *model.Expr) {
	if e.K != "bi" || !w.l.Plain && Chance(w.t, 1, 6) {
		w.tok("->")
	}
	w.expr(e)
}

func (w *texter) pattern(p *model.Pattern) {
	switch p.K {
	case "empty":
		w.tok("<empty>")
	case "any":
		w.tok("*")
	case "node":
		w.name(p.N)
		q := p.A[0]
		short := q.K == "leaf" || q.K == "concat" && len(q.A) > 1 || q.K == "inter" && len(q.A) > 1 || q.K == "contains"
		if !short || Chance(w.t, 1, 2) {
			w.tok(":")
		}
		w.pattern(q)
	case "leaf":
		w.leaf(p.E)
	case "contains":
		w.tok(".")
		w.pattern(p.A[0])
	case "concat":
		w.many(p.A, "[", ",", "]", "*", true)
	case "inter":
		w.many(p.A, "{", ";", "}", "*", true)
	case "or":
		w.many(p.A, "(", "|", ")", "", false)
	case "and":
		w.many(p.A, "(", "&", ")", "", false)
	case "star", "opt":
		w.tok("(")
		w.pattern(p.A[0])
		w.tok(")")
		if p.K == "star" {
			w.tok("*")
		} else {
			w.tok("?")
		}
	case "not":
		w.tok("!")
		w.tok("(")
		w.pattern(p.A[0])
		w.tok(")")
	case "ref":
		w.tok("@")
		w.glue(p.Ref)
	default:
		panic("gen: no text for " + p.K)
	}
}

func (w *texter) many(ps []*model.Pattern, open, sep, cls, _ string, extra bool) {
	if len(ps) < 2 {
		panic(fmt.Sprintf("gen: operator %s with %d operands", sep, len(ps)))
	}
	w.tok(open)
	for i, p := range ps {
		if i > 0 {
			w.tok(sep)
		}
		w.pattern(p)
	}
	if extra && !w.l.Plain && Chance(w.t, 1, 5) {
		w.tok(sep)
	}
	w.tok(cls)
}

func (w *texter) name(n *model.Name) {
	switch n.K {
	case "any":
		w.tok("_")
	case "except":
		w.tok("!")
		w.tok("(")
		w.name(n.A[0])
		w.tok(")")
	case "choice":
		w.tok("(")
		for i, a := range n.A {
			if i > 0 {
				w.tok("|")
			}
			w.name(a)
		}
		w.tok(")")
	default:
		if n.V.S != nil && isID(string(*n.V.S)) && !Chance(w.t, 1, 5) {
			w.tok(string(*n.V.S))
			return
		}
		w.tok(Literal(w.t, *n.V, w.l.Plain))
	}
}

func isID(s string) bool {
	if s == "" || s == "_" || s == "true" || s == "false" || s[0] >= '0' && s[0] <= '9' {
		return false
	}
	for i := range []byte(s) {
		if !idChar(s[i]) {
			return false
		}
	}
	return true
}

var varText = map[string]string{"d": "$double", "i": "$int", "u": "$uint", "b": "$bool", "s": "$string", "y": "$[]byte"}
var listText = map[string]string{"ld": "[]double", "li": "[]int", "lu": "[]uint", "lb": "[]bool", "ls": "[]string", "ly": "[][]byte"}

func (w *texter) expr(e *model.Expr) {
	switch e.K {
	case "const":
		w.tok(Literal(w.t, *e.V, w.l.Plain))
	case "var":
		w.tok(varText[e.T])
	case "list", "fn":
		if e.K == "list" {
			w.tok(listText[e.T])
			w.tok("{")
		} else {
			w.tok(e.Name)
			w.tok("(")
		}
		for i, a := range e.A {
			if i > 0 {
				w.tok(",")
			}
			w.expr(a)
		}
		if e.K == "list" {
			w.tok("}")
		} else {
			w.tok(")")
		}
	case "bi":
		w.tok(e.Name)
		w.expr(e.A[0])
	}
}

// Literal writes a single typed label in one of its notations.
func Literal(t *rapid.T, l model.Label, plain bool) string {
	k := func(n int) int {
		if plain {
			return 0
		}
		return N(t, n)
	}
	hex := func(u uint64) string {
		s := fmt.Sprintf(Pick(t, "0x%x", "0X%x", "0x%X", "0x0%x", "0x000%x"), u)
		return s
	}
	oct := func(u uint64) string { return fmt.Sprintf(Pick(t, "0%o", "0%o", "000%o"), u) }
	switch {
	case l.I != nil:
		i := *l.I
		neg, abs := "", uint64(i)
		if i < 0 {
			neg, abs = "-", -uint64(i)
		}
		switch k(6) {
		case 3:
			return "int(" + neg + oct(abs) + ")"
		case 4:
			return "int(" + neg + hex(abs) + ")"
		case 5:
			return "int(" + strconv.FormatInt(i, 10) + ")"
		}
		return strconv.FormatInt(i, 10)
	case l.U != nil:
		switch k(4) {
		case 2:
			return "uint(" + oct(*l.U) + ")"
		case 3:
			return "uint(" + hex(*l.U) + ")"
		}
		return "uint(" + strconv.FormatUint(*l.U, 10) + ")"
	case l.D != nil:
		return "double(" + DoubleText(t, float64(*l.D), plain) + ")"
	case l.B != nil:
		return strconv.FormatBool(*l.B)
	case l.S != nil:
		return StringText(t, string(*l.S), plain)
	case l.Y != nil:
		return BytesText(t, string(*l.Y), plain)
	}
	panic("gen: no literal")
}

func DoubleText(t *rapid.T, f float64, plain bool) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if plain {
		return s
	}
	if f == math.Trunc(f) && math.Abs(f) <= 1<<53 && (f != 0 || !math.Signbit(f)) {
		neg, u := "", uint64(math.Abs(f))
		if f < 0 {
			neg = "-"
		}
		switch N(t, 6) {
		case 0:
			return s + ".0"
		case 1:
			return neg + fmt.Sprintf("0x%x", u)
		case 2:
			return neg + fmt.Sprintf("0%o", u)
		case 3:
			return neg + fmt.Sprintf("%d.e0", u)
		}
	}
	switch N(t, 5) {
	case 0:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 1:
		return strings.ToUpper(strconv.FormatFloat(f, 'e', -1, 64))
	case 2:
		if strings.Contains(s, ".") {
			return s + "00"
		}
	case 3:
		for _, p := range []string{"0.", "-0."} {
			if strings.HasPrefix(s, p) {
				return p[:len(p)-2] + s[len(p)-1:]
			}
		}
	}
	return s
}

// StringText quotes a string in one of the notations.
func StringText(t *rapid.T, s string, plain bool) string {
	if plain {
		return strconv.Quote(s)
	}
	switch N(t, 5) {
	case 0:
		return strconv.QuoteToASCII(s)
	case 1:
		if utf8.ValidString(s) && !strings.ContainsAny(s, "`\r") {
			return "`" + s + "`"
		}
	case 2, 3:
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); {
			r, n := utf8.DecodeRuneInString(s[i:])
			b.WriteString(charText(t, r, n, s[i], '"'))
			i += n
		}
		b.WriteByte('"')
		return b.String()
	}
	return strconv.Quote(s)
}

var escapes = map[byte]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`, '\\': `\\`, '"': `\"`, '\'': `\'`}

// charText writes one character of a quoted string; bytes that are not UTF-8 only as escapes.
func charText(t *rapid.T, r rune, n int, c byte, quote byte) string {
	if n == 1 && (r == utf8.RuneError || Chance(t, 1, 3)) {
		if Chance(t, 1, 2) {
			return fmt.Sprintf(Pick(t, `\x%02x`, `\x%02X`), c)
		}
		return fmt.Sprintf(`\%03o`, c)
	}
	if n == 1 {
		if e, ok := escapes[c]; ok && (c != '\'' && c != '"' || c == quote) {
			return e
		}
		if c < ' ' || c == 0x7f {
			return fmt.Sprintf(`\u%04x`, c)
		}
		if !Chance(t, 1, 4) {
			return string(r)
		}
	} else if Chance(t, 1, 2) && r != '\u2028' {
		return string(r)
	}
	if r <= 0xffff && Chance(t, 2, 3) {
		return fmt.Sprintf(`\u%04x`, r)
	}
	return fmt.Sprintf(`\U%08X`, r)
}

// BytesText writes a list of bytes with every element in one of the notations.
func BytesText(t *rapid.T, s string, plain bool) string {
	var b strings.Builder
	b.WriteString("[]byte{")
	ws := func() {
		if !plain && Chance(t, 1, 6) {
			b.WriteString(Pick(t, " ", "\n", "\t", "  "))
		}
	}
	ws()
	for i := range []byte(s) {
		if i > 0 {
			b.WriteString(",")
			ws()
		}
		k := 0
		if !plain {
			k = N(t, 6)
		}
		c := s[i]
		switch k {
		case 0:
			fmt.Fprintf(&b, "0x%x", c)
		case 1:
			fmt.Fprintf(&b, "%d", c)
		case 2:
			fmt.Fprintf(&b, "0%o", c)
		case 3:
			fmt.Fprintf(&b, "0X%02X", c)
		default:
			b.WriteString("'" + ByteChar(t, c) + "'")
		}
		ws()
	}
	b.WriteString("}")
	return b.String()
}

// ByteChar writes a byte as the inside of a character literal.
func ByteChar(t *rapid.T, c byte) string {
	switch N(t, 4) {
	case 0:
		return fmt.Sprintf(`\x%02x`, c)
	case 1:
		return fmt.Sprintf(`\%03o`, c)
	case 2:
		if e, ok := escapes[c]; ok {
			return e
		}
		return fmt.Sprintf(`\u%04x`, c)
	}
	if c >= ' ' && c < 0x7f && c != '\\' && c != '\'' {
		return string(rune(c))
	}
	if e, ok := escapes[c]; ok {
		return e
	}
	return fmt.Sprintf(`\U%08x`, c)
}
