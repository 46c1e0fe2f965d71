package gen

import (
	"regexp"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// EConf tunes the expression generator.
type EConf struct {
	Depth    int
	MayErr   bool // functions that can fail on labels (variables outside comparisons, element access)
	Wild     bool // constants from the whole value range
	NoList   bool
	Simple   bool // mostly single comparisons
	NoPrint  bool
	ConstFns bool // whole expressions over constants only are likely
}

func (c EConf) deeper() EConf { c.Depth--; return c }

func (c EConf) constant(t *rapid.T, typ string) *model.Expr {
	if c.Wild {
		return model.Const(Const(t, typ))
	}
	return model.Const(Small(t, typ))
}

// Regexps are valid regular expressions; the first are simplest.
var Regexps = []string{"a", "^a", "b$", "a*", "^[ab]+$", "(a|b)c?", "", ".", "^$", "\\x61", "(?i)A", "[^a]", "a{2}", "\\d+", "\\.", "a\"b", "`", "\\Qa.b\\E"}

// BoolExpr draws an expression for a leaf pattern; at the top level built-in notation may be used.
func BoolExpr(t *rapid.T, c EConf) *model.Expr {
	switch W(t, 8, 3, 6) {
	case 0:
		return Builtin(t, c)
	case 1:
		return model.Fn("b", "type", model.Var(Type(t)))
	}
	return Expr(t, "b", c)
}

func Builtin(t *rapid.T, c EConf) *model.Expr {
	typ := Type(t)
	sub := func(typ string) *model.Expr {
		if c.Depth <= 1 || !Chance(t, 1, 5) {
			return c.constant(t, typ)
		}
		return Expr(t, typ, c.deeper())
	}
	switch W(t, 8, 3, 5, 2, 2, 2, 2, 3) {
	case 0:
		return model.BI("==", sub(typ))
	case 1:
		return model.BI("!=", sub(typ))
	case 2:
		return model.BI(Pick(t, "<", "<=", ">", ">="), sub(Pick(t, "i", "u", "d", "y")))
	case 3:
		if !c.MayErr {
			return model.BI("==", sub(typ))
		}
		if !c.NoList && Chance(t, 1, 2) {
			lt := Pick(t, "i", "s", "u")
			return model.BI("*=", ConstList(t, lt, c))
		}
		return model.BI("*=", sub("s"))
	case 4:
		if !c.MayErr {
			return model.BI("==", sub(typ))
		}
		return model.BI(Pick(t, "^=", "$="), sub("s"))
	case 5:
		if !c.MayErr {
			return model.BI("!=", sub(typ))
		}
		return model.BI("~=", model.Const(model.LS(Pick(t, Regexps...))))
	case 6:
		return model.BI("::", model.Var(typ))
	}
	return model.BI("==", model.Const(Small(t, typ)))
}

// ConstList draws a list of constants of the single type.
func ConstList(t *rapid.T, typ string, c EConf) *model.Expr {
	n := N(t, 4)
	l := &model.Expr{K: "list", T: "l" + typ}
	for i := 0; i < n; i++ {
		l.A = append(l.A, c.constant(t, typ))
	}
	return l
}

// Expr draws a well-typed composable expression of the type.
func Expr(t *rapid.T, typ string, c EConf) *model.Expr {
	if len(typ) == 2 {
		return listExpr(t, typ, c)
	}
	base := func() *model.Expr {
		if c.MayErr && Chance(t, 1, 2) {
			return model.Var(typ)
		}
		return c.constant(t, typ)
	}
	d := c.deeper()
	if typ != "b" {
		if c.Depth <= 0 || !Chance(t, 1, 2) {
			if Chance(t, 2, 3) { // an unavailable variable is absorbed by the enclosing comparison, or MayErr holds
				return model.Var(typ)
			}
			return base()
		}
		switch typ {
		case "i":
			if Chance(t, 1, 2) {
				return model.Fn("i", "length", Expr(t, Pick(t, "s", "y", "ls", "li", "lu", "lb", "ld", "ly"), d))
			}
		case "s":
			if Chance(t, 1, 2) {
				return model.Fn("s", Pick(t, "toLower", "toUpper"), Expr(t, "s", d))
			}
		}
		if !c.NoPrint && Chance(t, 1, 8) {
			return model.Fn(typ, "print", Expr(t, typ, d))
		}
		if c.NoList {
			return base()
		}
		if Chance(t, 1, 2) {
			return model.Fn(typ, "elem", Expr(t, "l"+typ, d), index(t, d))
		}
		return base()
	}
	if c.Depth <= 0 {
		if c.MayErr && Chance(t, 1, 3) {
			return model.Var("b")
		}
		if Chance(t, 1, 2) {
			return comparison(t, c, true)
		}
		return c.constant(t, "b")
	}
	switch W(t, 10, 3, 3, 3, 3, 2, 1, 2) {
	case 0:
		return comparison(t, c, false)
	case 1:
		return model.Fn("b", "and", Expr(t, "b", d), Expr(t, "b", d))
	case 2:
		return model.Fn("b", "or", Expr(t, "b", d), Expr(t, "b", d))
	case 3:
		return model.Fn("b", "not", Expr(t, "b", d))
	case 4:
		if !c.MayErr {
			return comparison(t, c, false)
		}
		switch W(t, 3, 2, 2, 2, 2) {
		case 0:
			return model.Fn("b", "contains", Expr(t, "s", d), Expr(t, "s", d))
		case 1:
			return model.Fn("b", "hasPrefix", Expr(t, "s", d), Expr(t, "s", d))
		case 2:
			return model.Fn("b", "hasSuffix", Expr(t, "s", d), Expr(t, "s", d))
		case 3:
			if Chance(t, 1, 2) {
				return model.Fn("b", "eqFold", foldArg(t, d), foldArg(t, d))
			}
			return model.Fn("b", "eqFold", Expr(t, "s", d), Expr(t, "s", d))
		}
		return model.Fn("b", "regex", constRegex(t, d), Expr(t, "s", d))
	case 5:
		if !c.MayErr || c.NoList {
			return model.Fn("b", "type", model.Var(Type(t)))
		}
		lt := Pick(t, "i", "s", "u")
		return model.Fn("b", "contains", Expr(t, lt, d), ConstList(t, lt, c))
	case 6:
		if !c.MayErr {
			return c.constant(t, "b")
		}
		if !c.NoPrint && Chance(t, 1, 3) {
			return model.Fn("b", "print", Expr(t, "b", d))
		}
		if !c.NoList && Chance(t, 1, 2) {
			return model.Fn("b", "elem", Expr(t, "lb", d), index(t, d))
		}
		return base()
	}
	return model.Fn("b", "type", Pick(t, model.Var(Type(t)), Expr(t, Type(t), d)))
}

// Folds has letters with more than two forms, and letters with forms of other lengths.
var Folds = []string{"\u03c3", "\u03c2", "\u03a3", "s", "\u017f", "S", "k", "\u212a", "K", "\u00e5", "\u212b", "\u00df", "\u1e9e", "ss", "i", "I", "\u0130", "\u0131", "\u01c5", "\u01c6", "\u03b8\u03f4", "\u03d1\u0398"}

// foldArg draws an argument for a comparison in which case does not matter.
func foldArg(t *rapid.T, c EConf) *model.Expr {
	if Chance(t, 1, 3) {
		return model.Fn("s", Pick(t, "toLower", "toUpper"), model.Const(model.LS(Pick(t, Folds...))))
	}
	if Chance(t, 1, 3) {
		return Expr(t, "s", c)
	}
	return model.Const(model.LS(Pick(t, Folds...)))
}

func constRegex(t *rapid.T, c EConf) *model.Expr {
	r := Pick(t, Regexps...)
	if Chance(t, 1, 8) {
		s := String(t)
		if _, err := regexp.Compile(s); err == nil {
			r = s
		}
	}
	return model.Const(model.LS(r))
}

func index(t *rapid.T, c EConf) *model.Expr {
	if Chance(t, 1, 5) {
		return Expr(t, "i", c)
	}
	return model.Const(model.LI(Pick(t, int64(0), 1, 2, -1, -2, 3, -3, -4, 100, -100)))
}

func comparison(t *rapid.T, c EConf, flat bool) *model.Expr {
	op := Pick(t, "eq", "ne", "lt", "le", "gt", "ge")
	var typ string
	if op == "eq" || op == "ne" {
		typ = Type(t)
	} else {
		typ = Pick(t, "i", "u", "d", "y")
	}
	v := model.Var(typ)
	var other *model.Expr
	if flat || c.Depth <= 1 || !Chance(t, 1, 3) {
		other = c.constant(t, typ)
	} else {
		other = Expr(t, typ, c.deeper())
	}
	if Chance(t, 1, 6) {
		if c.Depth >= 1 && !flat {
			v = Expr(t, typ, c.deeper())
		} else {
			v = c.constant(t, typ)
		}
	}
	if Chance(t, 1, 3) {
		return model.Fn("b", op, other, v)
	}
	return model.Fn("b", op, v, other)
}

func listExpr(t *rapid.T, typ string, c EConf) *model.Expr {
	if c.Depth > 0 && Chance(t, 1, 4) {
		d := c.deeper()
		return model.Fn(typ, "range", listExpr(t, typ, d), index(t, d), index(t, d))
	}
	if c.Depth > 0 && !c.NoPrint && Chance(t, 1, 10) {
		return model.Fn(typ, "print", listExpr(t, typ, c.deeper()))
	}
	n := N(t, 4)
	l := &model.Expr{K: "list", T: typ}
	for i := 0; i < n; i++ {
		if c.Depth > 0 && Chance(t, 1, 3) {
			l.A = append(l.A, Expr(t, typ[1:], c.deeper()))
		} else {
			l.A = append(l.A, c.constant(t, typ[1:]))
		}
	}
	return l
}

// LabelFor draws a label on which the expression is likely to be interesting: its constants, their
// neighbours, labels of its variables' types, or anything.
func LabelFor(t *rapid.T, e *model.Expr) model.Label {
	var cands []model.Label
	e.Desugar().Walk(func(x *model.Expr) {
		if x.K == "const" {
			cands = append(cands, *x.V)
		}
		if x.K == "var" {
			cands = append(cands, Const(t, x.T))
		}
	})
	switch {
	case len(cands) > 0 && Chance(t, 2, 5):
		return cands[N(t, len(cands))]
	case len(cands) > 0 && Chance(t, 1, 2):
		return Neighbour(t, cands[N(t, len(cands))])
	case len(cands) > 1 && Chance(t, 1, 2):
		l := model.Label{}
		for _, c := range cands {
			if Chance(t, 2, 3) {
				l = Merge(l, c)
			}
		}
		return l
	}
	return AnyLabel(t)
}

// fnSig is one function of the language.
type fnSig struct {
	name string
	out  string
	in   []string
}

var allTypes = []string{"s", "i", "u", "d", "b", "y"}

// Sigs are all signatures of the built-in functions (now and the constant-parameter ones included).
var Sigs = func() []fnSig {
	var r []fnSig
	for _, n := range []string{"ge", "gt", "le", "lt"} {
		for _, t := range []string{"d", "i", "u", "y"} {
			r = append(r, fnSig{n, "b", []string{t, t}})
		}
	}
	for _, n := range []string{"eq", "ne"} {
		for _, t := range allTypes {
			r = append(r, fnSig{n, "b", []string{t, t}})
		}
	}
	for _, t := range allTypes {
		r = append(r, fnSig{"elem", t, []string{"l" + t, "i"}}, fnSig{"elem", t, []string{"l" + t, "i"}},
			fnSig{"range", "l" + t, []string{"l" + t, "i", "i"}}, fnSig{"range", "l" + t, []string{"l" + t, "i", "i"}},
			fnSig{"length", "i", []string{"l" + t}},
			fnSig{"print", t, []string{t}}, fnSig{"print", "l" + t, []string{"l" + t}}, fnSig{"type", "b", []string{t}})
	}
	r = append(r, fnSig{"length", "i", []string{"s"}}, fnSig{"length", "i", []string{"y"}},
		fnSig{"contains", "b", []string{"s", "s"}}, fnSig{"contains", "b", []string{"i", "li"}}, fnSig{"contains", "b", []string{"u", "lu"}}, fnSig{"contains", "b", []string{"s", "ls"}},
		fnSig{"not", "b", []string{"b"}}, fnSig{"and", "b", []string{"b", "b"}}, fnSig{"or", "b", []string{"b", "b"}},
		fnSig{"regex", "b", []string{"s", "s"}}, fnSig{"toLower", "s", []string{"s"}}, fnSig{"toUpper", "s", []string{"s"}},
		fnSig{"eqFold", "b", []string{"s", "s"}}, fnSig{"hasPrefix", "b", []string{"s", "s"}}, fnSig{"hasSuffix", "b", []string{"s", "s"}})
	return r
}()

// Matrix draws one function applied to variables, constants and small lists, wrapped into a comparison.
func Matrix(t *rapid.T) *model.Expr {
	s := Sigs[N(t, len(Sigs))]
	e := call(t, s)
	if e.T != "b" && len(e.T) == 2 { // observe a list through its length or an element
		if Chance(t, 1, 3) {
			e = model.Fn("i", "length", e)
		} else {
			e = model.Fn(e.T[1:], "elem", e, model.Const(model.LI(Pick(t, int64(0), 1, -1, 2))))
		}
	}
	if e.T == "b" {
		if Chance(t, 1, 3) {
			return e
		}
		return model.Fn("b", Pick(t, "eq", "ne"), e, arg(t, "b", false))
	}
	var want *model.Expr
	if o := e.Eval(model.Label{}); !o.MayErr() && !e.HasVar() && Chance(t, 2, 3) {
		want = model.Const(valLabel(o.Vs[0])) // the exact result
	} else {
		want = arg(t, e.T, false)
	}
	op := Pick(t, "eq", "ne", "eq")
	if (e.T == "i" || e.T == "u" || e.T == "d" || e.T == "y") && Chance(t, 1, 3) {
		op = Pick(t, "lt", "le", "gt", "ge")
	}
	return model.Fn("b", op, e, want)
}

func valLabel(v model.Val) model.Label {
	switch v.T {
	case "d":
		return model.LD(v.D)
	case "i":
		return model.LI(v.I)
	case "u":
		return model.LU(v.U)
	case "b":
		return model.LB(v.B)
	case "s":
		return model.LS(v.S)
	}
	return model.LY(v.S)
}

func call(t *rapid.T, s fnSig) *model.Expr {
	as := make([]*model.Expr, len(s.in))
	for i, typ := range s.in {
		as[i] = arg(t, typ, true)
		if typ == "i" && i > 0 && (s.name == "elem" || s.name == "range") && !Chance(t, 1, 8) {
			as[i] = model.Const(model.LI(Pick(t, int64(0), 1, 2, 3, -1, -2, -3, 4, -4, 9, -9)))
		}
	}
	if s.name == "regex" {
		as[0] = model.Const(model.LS(Pick(t, Regexps...)))
	}
	if s.name == "contains" && s.in[1] != "s" {
		as[1] = ConstList(t, s.in[1][1:], EConf{Wild: Chance(t, 1, 2)})
	}
	return model.Fn(s.out, s.name, as...)
}

func arg(t *rapid.T, typ string, vars bool) *model.Expr {
	if len(typ) == 2 {
		l := &model.Expr{K: "list", T: typ}
		for i, n := 0, N(t, 5); i < n; i++ {
			l.A = append(l.A, arg(t, typ[1:], vars && Chance(t, 1, 3)))
		}
		return l
	}
	if vars && Chance(t, 1, 2) {
		return model.Var(typ)
	}
	return model.Const(Const(t, typ))
}

// MutateExpr changes one place of an expression, keeping it well typed where types allow it.
func MutateExpr(t *rapid.T, e *model.Expr) *model.Expr {
	e = CloneExpr(e)
	var all []*model.Expr
	e.Walk(func(x *model.Expr) { all = append(all, x) })
	x := all[N(t, len(all))]
	switch x.K {
	case "const":
		l := Neighbour(t, *x.V)
		if Chance(t, 1, 3) {
			l = Const(t, x.T)
		}
		x.V = &l
	case "var":
		if Chance(t, 1, 2) {
			*x = *model.Const(Small(t, x.T))
		}
	case "list":
		switch {
		case len(x.A) > 0 && Chance(t, 1, 2):
			i := N(t, len(x.A))
			x.A = append(append([]*model.Expr{}, x.A[:i]...), x.A[i+1:]...)
		case len(x.A) > 1 && Chance(t, 1, 2):
			i := N(t, len(x.A)-1)
			x.A[i], x.A[i+1] = x.A[i+1], x.A[i]
		default:
			x.A = append(x.A, model.Const(Small(t, x.T[1:])))
		}
	case "fn", "bi":
		switch {
		case x.K == "bi":
			switch x.Name {
			case "==", "!=":
				x.Name = Pick(t, "==", "!=")
			case "<", "<=", ">", ">=":
				x.Name = Pick(t, "<", "<=", ">", ">=")
			}
		case len(x.A) == 2 && x.A[0].T == x.A[1].T && x.Name != "regex" && x.Name != "contains" && Chance(t, 1, 2):
			x.A[0], x.A[1] = x.A[1], x.A[0]
		default:
			var alts []string
			for _, s := range Sigs {
				if s.out != x.T || len(s.in) != len(x.A) || s.name == "regex" || x.Name == "regex" {
					continue
				}
				ok := true
				for i := range s.in {
					ok = ok && s.in[i] == x.A[i].T
				}
				if ok {
					alts = append(alts, s.name)
				}
			}
			if len(alts) > 0 {
				x.Name = Pick(t, alts...)
			}
		}
	}
	return e
}

func CloneExpr(e *model.Expr) *model.Expr {
	c := *e
	c.A = make([]*model.Expr, len(e.A))
	for i := range e.A {
		c.A[i] = CloneExpr(e.A[i])
	}
	if len(c.A) == 0 {
		c.A = nil
	}
	return &c
}

// SigOf finds the result type of a function on parameter types ("" if there is none).
func SigOf(name string, in []string) string {
next:
	for _, s := range Sigs {
		if s.name != name || len(s.in) != len(in) {
			continue
		}
		for i := range in {
			if s.in[i] != in[i] {
				continue next
			}
		}
		return s.out
	}
	if name == "now" && len(in) == 0 {
		return "i"
	}
	return model.UserOut(name, in)
}

// Infer is the type of an expression, or "" if it has none: an unknown function, parameters of other types,
// list elements of another type, or shorthand notation inside of an expression.
func Infer(e *model.Expr) string {
	switch e.K {
	case "const", "var":
		return e.T
	case "list":
		for _, a := range e.A {
			if Infer(a) != e.T[1:] {
				return ""
			}
		}
		return e.T
	case "fn":
		in := make([]string, len(e.A))
		for i := range e.A {
			if in[i] = Infer(e.A[i]); in[i] == "" {
				return ""
			}
		}
		return SigOf(e.Name, in)
	}
	return ""
}

// InferTop also accepts shorthand notation.
func InferTop(e *model.Expr) string {
	if e.K != "bi" {
		return Infer(e)
	}
	t := Infer(e.A[0])
	if t == "" {
		return ""
	}
	c := *e
	c.A = []*model.Expr{{K: e.A[0].K, T: t, V: e.A[0].V, Name: e.A[0].Name, A: e.A[0].A}}
	return Infer(c.Desugar())
}

// Break changes one place of an expression without regard for types.
func Break(t *rapid.T, e *model.Expr) *model.Expr {
	e = CloneExpr(e)
	var all []*model.Expr
	e.Walk(func(x *model.Expr) { all = append(all, x) })
	x := all[N(t, len(all))]
	some := func() *model.Expr {
		switch W(t, 3, 3, 3, 1, 1) {
		case 0:
			return model.Var(Type(t))
		case 1:
			return model.Const(Const(t, Type(t)))
		case 2:
			return Expr(t, Pick(t, "b", "i", "s", "li", "ls", "lb", "d", "u", "y", "ly", "lu", "ld"), EConf{Depth: 1, MayErr: true})
		case 3:
			return Builtin(t, EConf{Depth: 1})
		}
		return CloneExpr(all[N(t, len(all))])
	}
	if len(x.A) > 0 && Chance(t, 2, 3) {
		i := N(t, len(x.A))
		switch W(t, 5, 1, 1, 1) {
		case 1:
			if x.K != "bi" {
				x.A = append(append([]*model.Expr{}, x.A[:i]...), x.A[i+1:]...)
				return e
			}
		case 2:
			if x.K != "bi" {
				x.A = append(x.A, some())
				return e
			}
		case 3:
			if x.K == "list" {
				x.T = "l" + Type(t)
				return e
			}
			if x.K == "fn" {
				x.Name = Pick(t, Sigs...).name
				if Chance(t, 1, 6) {
					x.Name = Pick(t, "Eq", "unknown", "x", "now", "fn")
				}
				return e
			}
			x.Name = Pick(t, "==", "!=", "<", ">", "<=", ">=", "*=", "^=", "$=", "~=", "::")
			return e
		}
		x.A[i] = some()
		return e
	}
	*x = *some()
	return e
}
