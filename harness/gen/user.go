package gen

import (
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// InjectCalls replaces up to n parts of a well-typed expression by calls of registered functions of the same type
// ("uf" or "ctx", see model/user.go). Parameters that must be constant are left alone by ctx calls.
func InjectCalls(t *rapid.T, e *model.Expr, kind string, n int) *model.Expr {
	e = CloneExpr(e)
	for ; n > 0; n-- {
		type slot struct{ x *model.Expr }
		var slots []slot
		var walk func(x *model.Expr, ok bool)
		walk = func(x *model.Expr, ok bool) {
			if ok && x.K != "bi" {
				slots = append(slots, slot{x})
			}
			for i, a := range x.A {
				aok := ok
				switch {
				case x.K == "fn" && x.Name == "regex" && i == 0, x.K == "bi" && x.Name == "~=":
					aok = false // a regular expression must also be a valid one
				case x.K == "fn" && x.Name == "contains" && i == 1 && strings.HasPrefix(a.T, "l"), x.K == "bi" && x.Name == "*=" && strings.HasPrefix(a.T, "l"):
					aok = ok && kind != "ctx"
				case x.K == "bi" && x.Name == "::":
					aok = false
				}
				walk(a, aok)
			}
		}
		walk(e, true)
		if len(slots) == 0 {
			return e
		}
		s := slots[N(t, len(slots))]
		old := CloneExpr(s.x)
		*s.x = *Call(t, old, kind)
	}
	return e
}

// Call draws a call of a registered function with the type of an expression, which may become a parameter.
func Call(t *rapid.T, old *model.Expr, kind string) *model.Expr {
	name := kind + "_" + old.T
	if kind == "ctx" {
		if Chance(t, 1, 3) {
			return model.Fn(old.T, name, old)
		}
		return model.Fn(old.T, name)
	}
	if old.T == "s" && Chance(t, 1, 5) {
		return model.Fn("s", "ufc_s", old)
	}
	if old.T == "s" && Chance(t, 1, 10) {
		return model.Fn("s", "UF_s", old)
	}
	if old.T == "b" && Chance(t, 1, 5) {
		return model.Fn("b", "ufc_b", arg(t, "s", true))
	}
	any := func() *model.Expr { return arg(t, model.AllTypes[N(t, len(model.AllTypes))], true) }
	if (old.T == "b" || old.T == "i") && Chance(t, 1, 3) {
		if Chance(t, 1, 2) {
			return model.Fn(old.T, name, old, any())
		}
		return model.Fn(old.T, name, any(), any())
	}
	if old.T == "s" && Chance(t, 1, 6) {
		return model.Fn("s", name, arg(t, "i", true), any(), arg(t, "lb", true))
	}
	switch N(t, 4) {
	case 0:
		return model.Fn(old.T, name, any())
	case 1:
		return model.Fn(old.T, name)
	}
	return model.Fn(old.T, name, old)
}

// InjectGrammar injects calls into values of a grammar and reports how many values got one.
func InjectGrammar(t *rapid.T, g *model.Grammar, kind string, num, den int) int {
	n := 0
	g.Walk(func(p *model.Pattern) {
		if p.K == "leaf" && Chance(t, num, den) {
			p.E = InjectCalls(t, p.E, kind, 1+N(t, 2))
			n++
		}
	})
	return n
}

// Arg draws an argument of a type: a constant, a variable or a list of these.
func Arg(t *rapid.T, typ string) *model.Expr { return arg(t, typ, true) }
