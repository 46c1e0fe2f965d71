package model

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// An independent reading of the notation of grammars, written from relapse/bnf (the lexical and the
// context free grammar) and the meaning Go gives to literals.

// Tok is a token of the notation; the space tokens are those that separate.
type Tok struct {
	K   string // space, id, int, uint, double, string, bytes, var, list, or the keyword itself
	Lit string
	Off int
}

type tokRule struct {
	k string
	r *regexp.Regexp
}

const (
	reDec    = `[1-9][0-9]*`
	reOct    = `0[0-7]*`
	reHex    = `0[xX][0-9a-fA-F]+`
	reInt    = `(?:` + reDec + `|` + reOct + `|` + reHex + `)`
	reExp    = `[eE][+-]?[0-9]+`
	reFloat  = `(?:[0-9]+\.[0-9]+` + reExp + `|[0-9]+\.(?:[0-9]+|` + reExp + `)|\.(?:[0-9]+|` + reExp + `)|[0-9]+` + reExp + `)`
	reEsc    = `\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8}|\\x[0-9a-fA-F]{2}|\\[0-7]{3}|\\[abfnrtv\\'"]`
	reChar   = `'(?:[^\\]|` + reEsc + `)'`
	reWS     = `[ \t\n\r]*`
	reElem   = `(?:` + reInt + `|` + reChar + `)`
	reBytes  = `\[\]byte\{` + reWS + `(?:` + reElem + `(?:` + reWS + `,` + reWS + reElem + `)*)?` + reWS + `\}`
	reString = "`[^`]*`" + `|"(?:[^"\\]|` + reEsc + `)*"`
	reSpace  = `//[^\n]*\n|/\*(?:[^*]|\*+[^*/])*\*+/|[ \t\n\r]+`
)

var keywords = []string{"=", "(", ")", "{", "}", ",", ";", "#", "&", "|", "[", "]", ":", "!", "*", "_", ".", "@", "->",
	"==", "!=", "<", ">", "<=", ">=", "~=", "*=", "^=", "$=", "::", "?", "<empty>", "true", "false",
	"[]bool", "[]int", "[]uint", "[]double", "[]string", "[][]byte"}

var tokRules = func() (rs []tokRule) {
	add := func(k, re string) {
		r := regexp.MustCompile(`^(?s:` + re + `)`)
		r.Longest()
		rs = append(rs, tokRule{k, r})
	}
	for _, k := range keywords { // they win over identifiers of the same length
		add(k, regexp.QuoteMeta(k))
	}
	add("space", reSpace)
	add("int", `int\(-?`+reInt+`\)|0|-?`+reDec)
	add("uint", `uint\(`+reInt+`\)`)
	add("double", `double\(-?(?:`+reFloat+`|`+reInt+`)\)`)
	add("string", reString)
	add("bytes", reBytes)
	add("var", `\$double|\$int|\$uint|\$bool|\$string|\$\[\]byte`)
	add("id", `[A-Za-z_][A-Za-z_0-9]*`)
	return rs
}()

// Tokens splits a text; ok is false if a part of it is no token.
func Tokens(text string) (ts []Tok, ok bool) {
	for off := 0; off < len(text); {
		best, kind := 0, ""
		for _, r := range tokRules {
			if m := r.r.FindStringIndex(text[off:]); m != nil && m[1] > best {
				best, kind = m[1], r.k
			}
		}
		if best == 0 {
			return ts, false
		}
		ts = append(ts, Tok{kind, text[off : off+best], off})
		off += best
	}
	return ts, true
}

// LitValue is the value of a literal token; ok is false if there is no such value.
func LitValue(k, lit string) (Label, bool) {
	inside := func(s string) string {
		if i := strings.IndexByte(s, '('); i >= 0 {
			return s[i+1 : len(s)-1]
		}
		return s
	}
	switch k {
	case "true":
		return LB(true), true
	case "false":
		return LB(false), true
	case "int":
		if n := intValue(inside(lit)); n.IsInt64() {
			return LI(n.Int64()), true
		}
	case "uint":
		if n := intValue(inside(lit)); n.IsUint64() {
			return LU(n.Uint64()), true
		}
	case "double":
		if f, ok := floatValue(inside(lit)); ok {
			return LD(f), true
		}
	case "string":
		if lit[0] == '`' {
			return LS(strings.Replace(lit[1:len(lit)-1], "\r", "", -1)), true
		}
		var b []byte
		for s := lit[1 : len(lit)-1]; s != ""; {
			r, raw, n, ok := charValue(s)
			if !ok || s[0] == '\n' || strings.HasPrefix(s, `\'`) {
				return Label{}, false
			}
			if raw {
				b = append(b, byte(r))
			} else {
				b = append(b, string(r)...)
			}
			s = s[n:]
		}
		return LS(string(b)), true
	case "bytes":
		var b []byte
		s := lit[strings.IndexByte(lit, '{')+1:]
		for {
			s = strings.TrimLeft(s, " \t\n\r,")
			switch {
			case s == "}":
				return LY(string(b)), true
			case s[0] == '\'':
				r, _, n, ok := charValue(s[1:])
				if !ok || r > 255 {
					return Label{}, false
				}
				b = append(b, byte(r))
				s = s[1+n+1:]
			default:
				i := strings.IndexAny(s, " \t\n\r,}")
				n := intValue(s[:i])
				if n.BitLen() > 8 {
					return Label{}, false
				}
				b = append(b, byte(n.Uint64()))
				s = s[i:]
			}
		}
	}
	return Label{}, false
}

// intValue reads a signed decimal, octal or hexadecimal integer digit by digit.
func intValue(s string) *big.Int {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	base := int64(10)
	switch {
	case strings.HasPrefix(s, "0x"), strings.HasPrefix(s, "0X"):
		s, base = s[2:], 16
	case strings.HasPrefix(s, "0"):
		base = 8
	}
	n := new(big.Int)
	for _, c := range strings.ToLower(s) {
		d := int64(c - '0')
		if c >= 'a' {
			d = int64(c-'a') + 10
		}
		n.Add(n.Mul(n, big.NewInt(base)), big.NewInt(d))
	}
	if neg {
		n.Neg(n)
	}
	return n
}

// floatValue is the nearest double of the exact value of the notation.
func floatValue(s string) (float64, bool) {
	abs := strings.ToLower(strings.TrimPrefix(s, "-"))
	hex := strings.HasPrefix(abs, "0x")
	if hex || !strings.ContainsAny(abs, ".e") {
		f, _ := new(big.Float).SetInt(intValue(s)).Float64()
		return f, f-f == 0
	}
	exp := int64(0)
	mant := abs
	if i := strings.IndexByte(abs, 'e'); i >= 0 {
		mant = abs[:i]
		e, err := strconv.ParseInt(abs[i+1:], 10, 64)
		if err != nil || e > 100000 || e < -100000 {
			if e = 100000; abs[i+1] == '-' {
				e = -e
			}
		}
		exp = e
	}
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		exp -= int64(len(mant) - i - 1)
		mant = mant[:i] + mant[i+1:]
	}
	if mant == "" { // .e5 has no digits
		return 0, false
	}
	n, _ := new(big.Int).SetString(mant, 10)
	r := new(big.Rat)
	if n.Sign() != 0 {
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(max64(exp, -exp)), nil)
		if exp < 0 {
			r.SetFrac(n, p)
		} else {
			r.SetInt(n.Mul(n, p))
		}
	}
	f, _ := r.Float64()
	if strings.HasPrefix(s, "-") {
		f = -f
	}
	return f, f-f == 0
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// charValue reads one character of a quoted text: a character, an escape, or (raw) a byte as an escape.
func charValue(s string) (r rune, raw bool, n int, ok bool) {
	if s[0] != '\\' {
		r, n = utf8.DecodeRuneInString(s)
		return r, false, n, true
	}
	num := func(from, to int, base rune) (v rune) {
		for _, c := range strings.ToLower(s[from:to]) {
			d := c - '0'
			if c >= 'a' {
				d = c - 'a' + 10
			}
			if v > 0x110000 {
				return v
			}
			v = v*base + d
		}
		return v
	}
	switch s[1] {
	case 'x':
		return num(2, 4, 16), true, 4, true
	case 'u':
		r, n = num(2, 6, 16), 6
		return r, false, n, r < 0xd800 || r > 0xdfff
	case 'U':
		r, n = num(2, 10, 16), 10
		return r, false, n, (r < 0xd800 || r > 0xdfff) && r <= 0x10ffff
	case '0', '1', '2', '3', '4', '5', '6', '7':
		r = num(1, 4, 8)
		return r, true, 4, r <= 255
	}
	i := strings.IndexByte(`abfnrtv\'"`, s[1])
	return rune("\a\b\f\n\r\t\v\\'\""[i]), false, 2, true
}

// Reading is what a text stands for.
type Reading struct {
	Top   *Pattern
	Decls []Decl
}

func (r *Reading) Canon() string {
	var b strings.Builder
	if r.Top != nil {
		b.WriteString(r.Top.Canon())
	}
	for _, d := range r.Decls {
		fmt.Fprintf(&b, "\n#%s=%s", d.Name, d.P.Canon())
	}
	return b.String()
}

type nres struct {
	end int
	v   interface{}
}

type nkey struct {
	rule string
	pos  int
}

// notation is a parser that finds all readings of all rules at all positions.
type notation struct {
	ts   []Tok
	memo map[nkey][]nres
	bad  bool // a reading met a literal without a value
}

// ReadNotation reads a text as a grammar. Several readings are an error of the reader itself.
func ReadNotation(text string) (r *Reading, why string) {
	all, ok := Tokens(text)
	if !ok {
		return nil, "no token at " + strconv.Itoa(len(all))
	}
	// where space is allowed it is allowed in any amount: only its presence is kept
	n := &notation{memo: map[nkey][]nres{}}
	for _, t := range all {
		if t.K == "space" && len(n.ts) > 0 && n.ts[len(n.ts)-1].K == "space" {
			continue
		}
		n.ts = append(n.ts, t)
	}
	var found []*Reading
	for _, x := range n.grammar() {
		if n.sp(x.end) == len(n.ts) {
			found = append(found, x.v.(*Reading))
		}
	}
	switch len(found) {
	case 0:
		return nil, "no reading"
	case 1:
		return found[0], ""
	}
	panic("model: the notation is ambiguous: " + strconv.Quote(text))
}

// sp skips space.
func (n *notation) sp(i int) int {
	if i < len(n.ts) && n.ts[i].K == "space" {
		return i + 1
	}
	return i
}

// tok reads a token after optional space: its position after, or -1.
func (n *notation) tok(i int, k string) int {
	if i < 0 {
		return -1
	}
	if i = n.sp(i); i < len(n.ts) && n.ts[i].K == k {
		return i + 1
	}
	return -1
}

func (n *notation) memoized(rule string, i int, f func() []nres) []nres {
	k := nkey{rule, i}
	if r, ok := n.memo[k]; ok {
		return r
	}
	n.memo[k] = nil // no rule is left recursive here
	r := f()
	n.memo[k] = r
	return r
}

func (n *notation) grammar() (rs []nres) {
	decls := func(i int, top *Pattern) {
		r := &Reading{Top: top}
		// the declarations follow one another; a pattern's end decides where the next begins
		var more func(i int, ds []Decl)
		more = func(i int, ds []Decl) {
			if top != nil || len(ds) > 0 {
				rs = append(rs, nres{i, &Reading{Top: r.Top, Decls: append([]Decl(nil), ds...)}})
			}
			j := n.tok(i, "#")
			if j < 0 {
				return
			}
			k := n.tok(j, "id")
			e := n.tok(k, "=")
			if e < 0 {
				return
			}
			for _, p := range n.pattern(e) {
				more(p.end, append(ds[:len(ds):len(ds)], Decl{n.ts[k-1].Lit, p.v.(*Pattern)}))
			}
		}
		more(i, nil)
	}
	decls(0, nil)
	for _, p := range n.pattern(0) {
		decls(p.end, p.v.(*Pattern))
	}
	return rs
}

func (n *notation) pattern(i int) []nres {
	return n.memoized("p", i, func() (rs []nres) {
		if j := n.tok(i, "<empty>"); j >= 0 {
			rs = append(rs, nres{j, PEmpty()})
		}
		if j := n.tok(i, "*"); j >= 0 {
			rs = append(rs, nres{j, PAny()})
		}
		if j := n.tok(i, "@"); j >= 0 && j < len(n.ts) && n.ts[j].K == "id" { // no space within
			rs = append(rs, nres{j + 1, PRef(n.ts[j].Lit)})
		}
		if j := n.tok(n.tok(i, "!"), "("); j >= 0 {
			for _, p := range n.pattern(j) {
				if e := n.tok(p.end, ")"); e >= 0 {
					rs = append(rs, nres{e, PNot(p.v.(*Pattern))})
				}
			}
		}
		if j := n.tok(i, "("); j >= 0 {
			rs = append(rs, n.many(j, "or", "|", ")", false)...)
			rs = append(rs, n.many(j, "and", "&", ")", false)...)
			for _, p := range n.pattern(j) {
				if e := n.tok(p.end, ")"); e >= 0 {
					if f := n.tok(e, "*"); f >= 0 {
						rs = append(rs, nres{f, PStar(p.v.(*Pattern))})
					}
					if f := n.tok(e, "?"); f >= 0 {
						rs = append(rs, nres{f, POpt(p.v.(*Pattern))})
					}
				}
			}
		}
		for _, m := range n.name(i) {
			name := m.v.(*Name)
			if j := n.tok(m.end, ":"); j >= 0 {
				for _, p := range n.pattern(j) {
					rs = append(rs, nres{p.end, PNode(name, p.v.(*Pattern))})
				}
			}
			for _, p := range n.depth(m.end) {
				rs = append(rs, nres{p.end, PNode(name, p.v.(*Pattern))})
			}
		}
		return append(rs, n.depth(i)...)
	})
}

// depth: the patterns that can follow a name without a colon.
func (n *notation) depth(i int) []nres {
	return n.memoized("d", i, func() (rs []nres) {
		if j := n.tok(i, "["); j >= 0 {
			rs = append(rs, n.many(j, "concat", ",", "]", true)...)
		}
		if j := n.tok(i, "{"); j >= 0 {
			rs = append(rs, n.many(j, "inter", ";", "}", true)...)
		}
		if j := n.tok(i, "."); j >= 0 {
			for _, p := range n.pattern(j) {
				rs = append(rs, nres{p.end, PContains(p.v.(*Pattern))})
			}
		}
		if j := n.tok(i, "->"); j >= 0 {
			for _, e := range n.expr(j) {
				rs = append(rs, nres{e.end, PLeaf(e.v.(*Expr))})
			}
		}
		for _, e := range n.builtin(i) {
			rs = append(rs, nres{e.end, PLeaf(e.v.(*Expr))})
		}
		return rs
	})
}

// many: two or more patterns with a separator between (and, if extra, one optional at the end).
func (n *notation) many(i int, k, sep, cls string, extra bool) (rs []nres) {
	var more func(i int, ps []*Pattern)
	more = func(i int, ps []*Pattern) {
		for _, p := range n.pattern(i) {
			qs := append(ps[:len(ps):len(ps)], p.v.(*Pattern))
			if e := n.tok(p.end, cls); e >= 0 && len(qs) > 1 {
				rs = append(rs, nres{e, &Pattern{K: k, A: qs}})
			}
			if s := n.tok(p.end, sep); s >= 0 {
				if e := n.tok(s, cls); e >= 0 && extra && len(qs) > 1 {
					rs = append(rs, nres{e, &Pattern{K: k, A: qs}})
				}
				more(s, qs)
			}
		}
	}
	more(i, nil)
	return rs
}

// literal reads a literal with a value after optional space.
func (n *notation) literal(i int) (Label, int) {
	if i = n.sp(i); i < len(n.ts) {
		switch t := n.ts[i]; t.K {
		case "true", "false", "int", "uint", "double", "string", "bytes":
			if l, ok := LitValue(t.K, t.Lit); ok {
				return l, i + 1
			}
			n.bad = true
		}
	}
	return Label{}, -1
}

func (n *notation) name(i int) []nres {
	return n.memoized("n", i, func() (rs []nres) {
		if j := n.tok(i, "_"); j >= 0 {
			rs = append(rs, nres{j, NAny()})
		}
		if l, j := n.literal(i); j >= 0 {
			rs = append(rs, nres{j, NLit(l)})
		}
		if j := n.tok(i, "id"); j >= 0 {
			rs = append(rs, nres{j, NLit(LS(n.ts[j-1].Lit))})
		}
		if j := n.tok(n.tok(i, "!"), "("); j >= 0 {
			for _, m := range n.name(j) {
				if e := n.tok(m.end, ")"); e >= 0 {
					rs = append(rs, nres{e, NExcept(m.v.(*Name))})
				}
			}
		}
		if j := n.tok(i, "("); j >= 0 {
			var more func(i int, ms []*Name)
			more = func(i int, ms []*Name) {
				for _, m := range n.name(i) {
					qs := append(ms[:len(ms):len(ms)], m.v.(*Name))
					if e := n.tok(m.end, ")"); e >= 0 && len(qs) > 1 {
						rs = append(rs, nres{e, NChoice(qs...)})
					}
					if s := n.tok(m.end, "|"); s >= 0 {
						more(s, qs)
					}
				}
			}
			more(j, nil)
		}
		return rs
	})
}

func (n *notation) builtin(i int) (rs []nres) {
	for _, k := range []string{"==", "!=", "<", ">", ">=", "<=", "~=", "*=", "^=", "$=", "::"} {
		if j := n.tok(i, k); j >= 0 {
			for _, e := range n.expr(j) {
				rs = append(rs, nres{e.end, BI(k, e.v.(*Expr))})
			}
		}
	}
	return rs
}

var notationVar = map[string]string{"$double": "d", "$int": "i", "$uint": "u", "$bool": "b", "$string": "s", "$[]byte": "y"}
var notationList = map[string]string{"[]double": "ld", "[]int": "li", "[]uint": "lu", "[]bool": "lb", "[]string": "ls", "[][]byte": "ly"}

func (n *notation) expr(i int) []nres {
	return n.memoized("e", i, func() (rs []nres) {
		if l, j := n.literal(i); j >= 0 {
			rs = append(rs, nres{j, Const(l)})
		}
		if j := n.tok(i, "var"); j >= 0 {
			rs = append(rs, nres{j, Var(notationVar[n.ts[j-1].Lit])})
		}
		rs = append(rs, n.builtin(i)...)
		if j := n.tok(i, "id"); j >= 0 {
			for _, a := range n.exprs(n.tok(j, "("), ")") {
				as := a.v.([]*Expr)
				rs = append(rs, nres{a.end, &Expr{K: "fn", T: FnResult(n.ts[j-1].Lit, as), Name: n.ts[j-1].Lit, A: as}})
			}
		}
		for k, t := range notationList {
			if j := n.tok(i, k); j >= 0 {
				for _, a := range n.exprs(n.tok(j, "{"), "}") {
					rs = append(rs, nres{a.end, &Expr{K: "list", T: t, A: a.v.([]*Expr)}})
				}
			}
		}
		return rs
	})
}

// exprs: any number of expressions with commas between, and the closing token.
func (n *notation) exprs(i int, cls string) (rs []nres) {
	if i < 0 {
		return nil
	}
	if e := n.tok(i, cls); e >= 0 {
		rs = append(rs, nres{e, []*Expr(nil)})
	}
	var more func(i int, es []*Expr)
	more = func(i int, es []*Expr) {
		for _, x := range n.expr(i) {
			qs := append(es[:len(es):len(es)], x.v.(*Expr))
			if e := n.tok(x.end, cls); e >= 0 {
				rs = append(rs, nres{e, qs})
			}
			if s := n.tok(x.end, ","); s >= 0 {
				more(s, qs)
			}
		}
	}
	more(i, nil)
	return rs
}

// CanonExpr is a textual canonical form of an expression.
func CanonExpr(e *Expr) string {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	return string(b)
}
