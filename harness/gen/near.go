package gen

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// Token is a random token of the notation of grammars, some of them almost one.
func Token(t *rapid.T) string {
	switch W(t, 12, 3, 3, 4, 2) {
	case 0:
		return Pick(t, "=", "(", ")", "{", "}", ",", ";", "#", "&", "|", "[", "]", ":", "!", "*", "_", ".", "@", "->",
			"==", "!=", "<", ">", "<=", ">=", "~=", "*=", "^=", "$=", "::", "?", "<empty>")
	case 1:
		return Pick(t, "$double", "$int", "$uint", "$bool", "$string", "$[]byte", "[]bool", "[]int", "[]uint", "[]double", "[]string", "[][]byte")
	case 2:
		return Pick(t, "a", "b", "main", "true", "false", "_x", "eq", "contains", "int", "double", "B9", "x_", "empty", "e5")
	case 3:
		return AnyLiteral(t)
	}
	return Pick(t, "-", "$", "~", "^", "/", "\"", "`", "'", "\\", "%", "+", "1.5", "-0", "<emp", "[]byte", "[]byte{", "[]", "int(", "uint(-1)", "é", "\x00", "\xff", "//", "/*", "*/", "0x", "007", "// c\n", "/* c */", "/***/", "/*/", "\ufeff")
}

// AnyLiteral is a random text of the lexical grammar of literals: it need not have a value.
func AnyLiteral(t *rapid.T) string {
	digits := func(set string, min int) string {
		n := min + W(t, 4, 4, 2, 1, 1)
		if Chance(t, 1, 12) {
			n = 15 + N(t, 12)
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(set[N(t, len(set))])
		}
		return b.String()
	}
	dec := func() string {
		switch N(t, 8) {
		case 0:
			return Pick(t, "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "255", "256", "4294967296", "9007199254740993")
		}
		return Pick(t, "1", "2", "9") + digits("0123456789", 0)
	}
	integer := func() string {
		switch W(t, 3, 2, 2) {
		case 1:
			return "0" + Pick(t, "", "777777777777777777777", "1777777777777777777777", "2000000000000000000000", digits("01234567", 0))
		case 2:
			return Pick(t, "0x", "0X") + Pick(t, "7fffffffffffffff", "8000000000000000", "FFFFFFFFFFFFFFFF", "10000000000000000", digits("0123456789abcdefABCDEF", 1))
		}
		return dec()
	}
	exp := func() string {
		return Pick(t, "e", "E") + Pick(t, "", "+", "-") + Pick(t, "0", "1", "05", "10", "22", "300", "308", "309", "323", "324", "325", "400", "9999", digits("0123456789", 1))
	}
	d := func() string { return digits("0123456789", 1) }
	float := func() string {
		switch N(t, 8) {
		case 0:
			return d() + "." + d() + exp()
		case 1:
			return d() + "." + exp()
		case 2:
			return d() + exp()
		case 3:
			return "." + d()
		case 4:
			return Pick(t, "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "9007199254740993.0", "0.1", "1.e5", "."+exp())
		}
		return d() + "." + d()
	}
	chr := func(q byte) string {
		switch W(t, 6, 2, 2, 2, 2, 1) {
		case 1:
			return `\` + Pick(t, "a", "b", "f", "n", "r", "t", "v", `\`, "'", `"`)
		case 2:
			return `\x` + digits("0123456789abcdefABCDEF", 9)[:2]
		case 3:
			return `\` + digits("01234567", 9)[:3]
		case 4:
			if Chance(t, 1, 2) {
				return `\u` + digits("0123456789abcdefABCDEF", 9)[:4]
			}
			return `\U000` + Pick(t, "0", "1") + digits("0123456789abcdefABCDEF", 9)[:4]
		case 5:
			return Pick(t, `\ud800`, `\udfff`, `\ue000`, `\U0010ffff`, `\U00110000`, `\Uffffffff`, `\400`, `\377`, `\xff`, `\u00ff`, `\u0100`, `\x80`)
		}
		c := Pick(t, "a", "b", " ", "é", "ÿ", "Ā", "世", "😀", ",", "}", "{", "(", ")", "//", "/*", "int", "uint", "double", "'", "`", "\"", "\n", "\t", "\r", "0", "#", "\x7f", "\u2028")
		if c[0] == q {
			return "q"
		}
		return c
	}
	switch N(t, 7) {
	case 0:
		if Chance(t, 1, 2) {
			return Pick(t, "", "-") + dec()
		}
		return "int(" + Pick(t, "", "", "-") + integer() + ")"
	case 1:
		return "uint(" + integer() + ")"
	case 2, 3:
		if Chance(t, 1, 4) {
			return "double(" + Pick(t, "", "-") + integer() + ")"
		}
		return "double(" + Pick(t, "", "", "-") + float() + ")"
	case 4:
		q := Pick(t, byte('"'), byte('"'), byte('`'))
		s := string(q)
		for i := N(t, 6); i > 0; i-- {
			if q == '`' {
				s += strings.Replace(chr('`'), "`", "", -1)
			} else {
				s += chr('"')
			}
		}
		return s + string(q)
	case 5:
		ws := func() string { return Pick(t, "", "", "", " ", "\n", "\t ", "\r\n") }
		s := "[]byte{" + ws()
		for i, n := 0, N(t, 5); i < n; i++ {
			if i > 0 {
				s += ws() + "," + ws()
			}
			if Chance(t, 1, 2) {
				s += Pick(t, fmt.Sprint(N(t, 300)), integer(), fmt.Sprintf("0x%x", N(t, 260)), fmt.Sprintf("0%o", N(t, 260)), "255", "256", "0377", "0400")
			} else {
				c := chr(0)
				if len(c) > 1 && c[0] != '\\' {
					c = "'"
				}
				s += "'" + c + "'"
			}
		}
		return s + ws() + "}"
	}
	return Pick(t, "true", "false", "0", "-1", "1", `""`, "``", "[]byte{}", "uint(0)", "double(0)", "int(0)", "int(-0)")
}

// NearText changes a text a little.
func NearText(t *rapid.T, s string) string {
	for n := 1 + N(t, 3); n > 0; n-- {
		if toks, _ := model.Tokens(s); len(toks) > 0 && Chance(t, 1, 2) {
			lits := make([]string, len(toks))
			for i := range toks {
				lits[i] = toks[i].Lit
			}
			i, j := N(t, len(lits)), N(t, len(lits))
			switch N(t, 6) {
			case 0:
				lits[i] = ""
			case 1:
				lits[i] += Pick(t, "", " ") + lits[i]
			case 2:
				lits[i], lits[j] = lits[j], lits[i]
			case 3:
				lits[i] = Token(t)
			case 4:
				lits[i] += Pick(t, "", " ", "\n") + Token(t)
			case 5:
				lits[i] += lits[j]
			}
			s = strings.Join(lits, "")
			continue
		}
		i := N(t, len(s)+1)
		j := i + N(t, 4)
		if j > len(s) {
			j = len(s)
		}
		switch N(t, 5) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:i] + s[i:j] + s[i:]
		case 2:
			s = s[:i]
		case 3:
			s = s[:i] + Token(t) + s[i:]
		case 4:
			s = s[:i] + Token(t) + s[j:]
		}
	}
	return s
}
