package model

import (
	"hash/fnv"
	"strings"
)

// User functions are registered with the code under test by the checks and modelled here: every one computes a value
// from a digest of its name and its arguments (and of the current context, for the ctx family).
//
//	uf_T(A...)  pure, of every parameter list
//	ctx_T(A...) reads the context, of no parameter or one
//	ufc_T(s)    its constructor refuses the constant "b"

// Ctx is the context that ctx functions see; 0 is none, with which they fail.
var Ctx int64

var AllTypes = []string{"d", "i", "u", "b", "s", "y", "ld", "li", "lu", "lb", "ls", "ly"}

// IsUser reports whether a name is of a registered user function.
func IsUser(name string) bool {
	return strings.HasPrefix(name, "uf") || strings.HasPrefix(name, "UF_") || strings.HasPrefix(name, "ctx_")
}

// UserOut is the result type of a user function by its name and parameter types, or "".
func UserOut(name string, in []string) string {
	known := func(t string) bool {
		for _, x := range AllTypes {
			if x == t {
				return true
			}
		}
		return false
	}
	for _, t := range in {
		if !known(t) {
			return ""
		}
	}
	pre, out, ok := strings.Cut(name, "_")
	if !ok || !known(out) {
		return ""
	}
	switch pre {
	case "uf":
		switch len(in) {
		case 0, 1:
			return out
		case 2:
			if out == "b" || out == "i" {
				return out
			}
		case 3:
			if out == "s" && in[0] == "i" && in[2] == "lb" {
				return out
			}
		}
	case "UF": // a name that differs in case only, for few parameters
		if len(in) == 1 && in[0] == "s" && out == "s" {
			return out
		}
	case "ufc":
		if len(in) == 1 && in[0] == "s" && (out == "b" || out == "s") {
			return out
		}
	case "ctx":
		if len(in) == 0 || len(in) == 1 && in[0] == out {
			return out
		}
	}
	return ""
}

func (v Val) digest(b *strings.Builder) { b.WriteString(v.key()); b.WriteByte(0) }

// UserApply computes the value of a user function; Err for some digests.
func UserApply(name, out string, ctx int64, args []Val) Val {
	var b strings.Builder
	b.WriteString(name)
	if strings.HasPrefix(name, "ctx_") {
		if ctx == 0 {
			return errVal
		}
		Val{T: "i", I: ctx}.digest(&b)
	}
	for _, a := range args {
		a.digest(&b)
	}
	h := fnv.New64a()
	h.Write([]byte(b.String()))
	d := h.Sum64()
	d ^= d >> 29
	if len(args) > 0 && d%11 == 0 {
		return errVal
	}
	return userValue(out, d/11)
}

func userValue(t string, d uint64) Val {
	if strings.HasPrefix(t, "l") {
		v := Val{T: t, L: []Val{}}
		for n := d % 4; n > 0; n-- {
			d /= 7
			v.L = append(v.L, userValue(t[1:], d))
		}
		return v
	}
	switch t {
	case "d":
		return Val{T: t, D: []float64{0, 1, 2, 0.5, -1}[d%5]}
	case "i":
		return Val{T: t, I: int64(d%5) - 1}
	case "u":
		return Val{T: t, U: d % 4}
	case "b":
		return Val{T: t, B: d%2 == 1}
	case "s":
		return Val{T: t, S: []string{"a", "b", "c", "ab", "", "A"}[d%6]}
	}
	return Val{T: t, S: []string{"a", "b", "", "ab"}[d%4]}
}

// HasUser reports whether a function whose name has the prefix occurs.
func (e *Expr) HasUser(prefix string) (r bool) {
	e.Walk(func(x *Expr) { r = r || x.K == "fn" && strings.HasPrefix(x.Name, prefix) && IsUser(x.Name) })
	return r
}
