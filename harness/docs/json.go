// Package docs generates documents of the formats the parsers read and says, without the code under test,
// which tree each document denotes.
package docs

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

type T = *rapid.T
type Tree = model.Tree

// JConf bounds a JSON text.
type JConf struct {
	Depth, Width int
	Plain        bool // no notations that change a value on its way through an encoder (duplicate names, invalid UTF-8)
	Compact      bool
}

type jw struct {
	b bytes.Buffer
	t T
	c JConf
	// sp: how often there is space
	sp int
}

// JSON draws a valid JSON text.
func JSON(t T, c JConf) core.Str {
	w := &jw{t: t, c: c, sp: gen.Pick(t, 0, 1, 3)}
	if c.Compact {
		w.sp = 0
	}
	w.space()
	w.value(c.Depth)
	w.space()
	return core.Str(w.b.String())
}

func (w *jw) space() {
	if w.sp == 0 {
		return
	}
	for gen.Chance(w.t, w.sp, 6) {
		w.b.WriteString(gen.Pick(w.t, " ", "\n", "\t", "\r", "  "))
	}
}

func (w *jw) value(depth int) {
	t := w.t
	if depth <= 0 {
		w.scalar()
		return
	}
	switch gen.W(t, 2, 4, 3) {
	case 0:
		w.scalar()
	case 1:
		w.b.WriteByte('{')
		n := gen.N(t, w.c.Width+1)
		w.space()
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			if i > 0 {
				w.b.WriteByte(',')
				w.space()
			}
			s := JSONString(t, !w.c.Plain)
			if w.c.Plain {
				for {
					var v string
					if err := json.Unmarshal([]byte(s), &v); err != nil {
						panic(&core.HarnessError{Msg: "bad string " + s})
					}
					if !used[v] {
						used[v] = true
						break
					}
					s = s[:len(s)-1] + fmt.Sprint(i) + `"`
				}
			}
			w.b.WriteString(s)
			w.space()
			w.b.WriteByte(':')
			w.space()
			w.value(depth - 1)
			w.space()
		}
		w.b.WriteByte('}')
	default:
		w.b.WriteByte('[')
		n := gen.N(t, w.c.Width+1)
		w.space()
		for i := 0; i < n; i++ {
			if i > 0 {
				w.b.WriteByte(',')
				w.space()
			}
			w.value(depth - 1)
			w.space()
		}
		w.b.WriteByte(']')
	}
}

func (w *jw) scalar() {
	t := w.t
	switch gen.W(t, 4, 6, 1, 1, 1) {
	case 0:
		w.b.WriteString(JSONString(t, !w.c.Plain))
	case 1:
		w.b.WriteString(JSONNumber(t))
	case 2:
		w.b.WriteString("true")
	case 3:
		w.b.WriteString("false")
	default:
		w.b.WriteString("null")
	}
}

// JSONNumber draws a number in any notation.
func JSONNumber(t T) string {
	switch gen.W(t, 6, 3, 2, 3) {
	case 0:
		return gen.Pick(t, "0", "1", "2", "3", "-1", "10", "-0", "7", "127", "-128", "255")
	case 1:
		return gen.Pick(t, "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
			"18446744073709551615", "18446744073709551616", "9007199254740993", "123456789012345678901234567890",
			"1e400", "-1e400", "1e-400", "1E5", "1e+08", "1e-2", "100e-2", "0.0", "-0.0", "0e0", "1.5", "-1.50", "9223372036854775807.0",
			"9.223372036854775807e18", "1.8446744073709551615e19", "-9.223372036854775808E+18", "1e18", "1e19", "1e20", "0.1", "2.5e1", "4294967296", "2147483648", "-2147483649")
	case 2:
		return strconv.FormatInt(gen.Int(t), 10)
	}
	// any number of the grammar
	s := gen.Pick(t, "", "", "-")
	digits := func(max int) string {
		r := ""
		for i := 1 + gen.N(t, max); i > 0; i-- {
			r += string(rune('0' + gen.N(t, 10)))
		}
		return r
	}
	if gen.Chance(t, 1, 3) {
		s += "0"
	} else {
		s += string(rune('1' + gen.N(t, 9)))
		if gen.Chance(t, 1, 2) {
			s += digits(4)
		}
	}
	if gen.Chance(t, 1, 2) {
		s += "." + digits(4)
	}
	if gen.Chance(t, 1, 3) {
		s += gen.Pick(t, "e", "E") + gen.Pick(t, "", "+", "-") + digits(2)
	}
	return s
}

// JSONString draws a string literal with every kind of escape and with characters that mean something outside of strings.
func JSONString(t T, invalid bool) string {
	var b strings.Builder
	b.WriteByte('"')
	if gen.Chance(t, 1, 2) {
		b.WriteString(gen.Pick(t, "a", "b", "c", "ab", "", "A"))
	} else {
		for i := gen.N(t, 6); i > 0; i-- {
			switch gen.W(t, 4, 3, 2, 3, 2, 1) {
			case 0:
				b.WriteString(gen.Pick(t, "a", "b", "0", " ", "1"))
			case 1:
				b.WriteString(gen.Pick(t, "{", "}", "[", "]", ",", ":", "'", "//", "null"))
			case 2:
				b.WriteString(gen.Pick(t, `\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`))
			case 3:
				b.WriteString(`\u`)
				x := gen.Pick(t, 0x41, 0xe9, 0x20ac, 0, 0x22, 0x5c, 0x7b, 0x5d, 0xbbbb, 0xffff, 0x2028, 0xd7ff, 0xe000)
				if invalid && gen.Chance(t, 1, 4) {
					x = gen.Pick(t, 0xd83d, 0xde00, 0xd800, 0xdfff)
				}
				f := gen.Pick(t, "%04x", "%04X")
				fmt.Fprintf(&b, f, x)
				if gen.Chance(t, 1, 4) {
					b.WriteString(gen.Pick(t, `\ud83d\ude00`, `\uD834\uDD1E`))
				}
			case 4:
				b.WriteString(gen.Pick(t, "ä", "日", "😀", "\u2028", "\x7f", "é"))
			default:
				if invalid {
					b.WriteString(gen.Pick(t, "\xff", "\xc3", "\xed\xa0\x80", "\x80"))
				} else {
					b.WriteString("z")
				}
			}
		}
	}
	b.WriteByte('"')
	return b.String()
}

// NumberLabel is the label of a number in the notation of JSON.
func NumberLabel(s string) model.Label {
	var l model.Label
	f, ferr := strconv.ParseFloat(s, 64)
	if ferr == nil {
		x := core.F64(f)
		l.D = &x
	}
	if !strings.ContainsAny(s, ".eE") { // an integer has exactly its value
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			l.I = &i
		}
		neg := strings.HasPrefix(s, "-")
		if u, err := strconv.ParseUint(strings.TrimPrefix(s, "-"), 10, 64); err == nil && (!neg || u == 0) {
			l.U = &u
		}
		return l
	}
	if ferr == nil && f == math.Trunc(f) { // another notation has the value of its nearest double
		if f >= -(1<<63) && f < 1<<63 {
			i := int64(f)
			l.I = &i
		}
		if f >= 0 && f < 1<<64 {
			u := uint64(f)
			l.U = &u
		}
	}
	return l
}

var errDeep = errors.New("too deep")

// JSONTree reads a JSON text with encoding/json. An error means that the text is not valid JSON.
func JSONTree(b []byte) ([]Tree, error) {
	if !json.Valid(b) {
		return nil, errors.New("not valid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	return jsonValue(d, tok, 0)
}

func jsonValue(d *json.Decoder, tok json.Token, depth int) ([]Tree, error) {
	if depth > 9000 {
		return nil, errDeep
	}
	leaf := func(l model.Label) ([]Tree, error) { return []Tree{{L: l, Leaf: true}}, nil }
	switch v := tok.(type) {
	case nil:
		return leaf(model.Label{})
	case bool:
		return leaf(model.LB(v))
	case string:
		return leaf(model.LS(v))
	case json.Number:
		return leaf(NumberLabel(string(v)))
	case json.Delim:
		var res []Tree
		for i := 0; ; i++ {
			tok, err := d.Token()
			if err != nil {
				return nil, err
			}
			if e, ok := tok.(json.Delim); ok && (e == ']' || e == '}') {
				return res, nil
			}
			n := Tree{L: model.LI(int64(i))}
			if v == '{' {
				n.L = model.LS(tok.(string))
				if tok, err = d.Token(); err != nil {
					return nil, err
				}
			}
			if n.C, err = jsonValue(d, tok, depth+1); err != nil {
				return nil, err
			}
			res = append(res, n)
		}
	}
	return nil, io.ErrUnexpectedEOF
}

// Mutate damages a text: it truncates, deletes, repeats, inserts and replaces.
func Mutate(t T, b []byte, alphabet []string) []byte {
	b = append([]byte{}, b...)
	for i := 1 + gen.N(t, 3); i > 0; i-- {
		n := len(b)
		at := gen.N(t, n+1)
		switch gen.W(t, 3, 3, 4, 3, 1) {
		case 0: // truncate
			b = b[:at]
		case 1: // delete
			to := min(at+1+gen.N(t, 4), n)
			b = append(b[:at:at], b[to:]...)
		case 2: // insert
			s := gen.Pick(t, alphabet...)
			b = append(b[:at:at], append([]byte(s), b[at:]...)...)
		case 3: // replace
			if at < n {
				s := gen.Pick(t, alphabet...)
				b = append(b[:at:at], append([]byte(s), b[at+1:]...)...)
			}
		default: // repeat
			to := min(at+1+gen.N(t, 8), n)
			b = append(b[:to:to], b[at:]...)
		}
		if len(b) > 1<<12 {
			b = b[:1<<12]
		}
	}
	return b
}

// JSONAlphabet is what damaged and random JSON texts are made of.
var JSONAlphabet = []string{"{", "}", "[", "]", ",", ":", `"`, "\\", "0", "1", "-", "+", ".", "e", "E", "t", "true", "false", "null", "nul", " ", "\n", "a", `"a"`, `"a":`, "u", `\u12`, "\x00", "\x1f", "\xff", "'", "/", "é", "\f", "\v", "\b", "\u0085", "\u00a0", "\u2028", "\ufeff", "\x7f"}

// Valid UTF-8 helper for other formats.
func ValidUTF8(s string) bool { return utf8.ValidString(s) }
