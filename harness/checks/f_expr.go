package checks

import (
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

func exprString(e *model.Expr) string { return e.ToAST(true).String() }

// ---------------------------------------------------------------- F01

type exprCase struct {
	E  *model.Expr   `json:"e"`
	Ls []model.Label `json:"ls"`
	H  []int         `json:"h,omitempty"` // order of evaluation
}

func specialDouble(t T) model.Label {
	return model.LD(gen.Pick(t, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0))
}

func genLabels(t T, es []*model.Expr, n int) []model.Label {
	var ls []model.Label
	for i := 0; i < n; i++ {
		if gen.Chance(t, 1, 25) {
			ls = append(ls, specialDouble(t))
			continue
		}
		ls = append(ls, gen.LabelFor(t, es[gen.N(t, len(es))]))
	}
	return ls
}

func exprRun(c exprCase, o *core.Obs) error {
	f, err := compose.NewBool(c.E.ToAST(true))
	if !c.E.Composable() {
		o.Label("not-composable")
		if err == nil {
			return errf("%s composes, although a constant parameter is missing or invalid", exprString(c.E))
		}
		return nil
	}
	if err != nil {
		return errf("%s does not compose: %v", exprString(c.E), err)
	}
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return errf("%s: %v", exprString(c.E), err)
	}
	yes, no, fails := 0, 0, 0
	for _, h := range c.H {
		l := c.Ls[h%len(c.Ls)]
		want := c.E.Eval(l)
		got, err := b.Eval(l.Value())
		if !want.Allows(got, err != nil) {
			return errf("%s on label %v: got %v, %v, want %v", exprString(c.E), l, got, err, want)
		}
		switch {
		case err != nil:
			fails++
		case got:
			yes++
		default:
			no++
		}
		o.LabelIf(len(want.Vs) > 1, "several-allowed")
	}
	o.LabelIf(yes > 0, "true")
	o.LabelIf(no > 0, "false")
	o.LabelIf(yes > 0 && no > 0, "both")
	o.LabelIf(fails > 0, "error")
	c.E.Desugar().Walk(func(x *model.Expr) {
		if x.K == "fn" {
			o.Label("fn-" + x.Name)
		}
	})
	o.NonTrivialIf(c.E.HasVar() || c.E.Size() > 2)
	o.Sample("%s on %v", exprString(c.E), c.Ls[0])
	return nil
}

func genExprCase(t T, e *model.Expr, n int) exprCase {
	c := exprCase{E: e, Ls: genLabels(t, []*model.Expr{e}, n)}
	for i := 0; i < n+3; i++ {
		c.H = append(c.H, gen.N(t, n))
	}
	return c
}

type nowCase struct {
	Delta int64 `json:"d"` // nanoseconds from the present
	Op    string
	Swap  bool
}

// now() is compared with labels far before or after the present.
func nowRun(c nowCase, o *core.Obs) error {
	var e *model.Expr
	if c.Swap {
		e = model.Fn("b", c.Op, model.Var("i"), model.Fn("i", "now"))
	} else {
		e = model.Fn("b", c.Op, model.Fn("i", "now"), model.Var("i"))
	}
	f, err := compose.NewBool(e.ToAST(true))
	if err != nil {
		return errf("%s does not compose: %v", exprString(e), err)
	}
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return err
	}
	for i := 0; i < 2; i++ {
		lo := time.Now().UnixNano()
		v := lo + c.Delta
		got, err := b.Eval(model.LI(v).Value())
		if err != nil {
			return errf("%s: %v", exprString(e), err)
		}
		hi := time.Now().UnixNano()
		x, y := lo, v // the operands in order, for the sign of their difference (|Delta| is an hour at least)
		if c.Swap {
			x, y = v, lo
		}
		if hi-lo > int64(30*time.Minute) {
			return nil
		}
		var want bool
		switch c.Op {
		case "lt", "le":
			want = x < y
		case "gt", "ge":
			want = x > y
		case "ne":
			want = true
		}
		if got != want {
			return errf("%s on the present%+dns: got %v, want %v", exprString(e), c.Delta, got, want)
		}
	}
	o.NonTrivial()
	o.Sample("%s at %+d", exprString(e), c.Delta)
	return nil
}

// ---------------------------------------------------------------- F02

// laterCase is a comparison of now() with a time that is soon over, inside of a formula.
type laterCase struct {
	Wait int    `json:"ms"`
	Op   string `json:"op"`
	Swap bool   `json:"swap"`
	Wrap []int  `json:"wrap"`
}

// laterRun evaluates an expression without variables before and after its answer changes.
func laterRun(c laterCase, o *core.Obs) error {
	at := time.Now().Add(time.Duration(c.Wait) * time.Millisecond).UnixNano()
	now, then := model.Fn("i", "now"), model.Const(model.LI(at))
	ops := []*model.Expr{now, then}
	later := c.Op == "gt" || c.Op == "ge" // when the time is over
	if c.Swap {
		ops, later = []*model.Expr{then, now}, !later
	}
	e := model.Fn("b", c.Op, ops...)
	t, f := model.Const(model.LB(true)), model.Const(model.LB(false))
	for _, w := range c.Wrap {
		switch w {
		case 0:
			e, later = model.Fn("b", "not", e), !later
		case 1:
			e = model.Fn("b", "and", e, t)
		case 2:
			e = model.Fn("b", "or", f, e)
		case 3:
			e = model.Fn("b", "and", e, e)
		case 4:
			e = model.Fn("b", "or", e, e)
		case 5:
			e = model.Fn("b", "eq", e, t)
		}
	}
	fn, err := compose.NewBool(e.ToAST(true))
	if err != nil {
		return errf("%s does not compose: %v", exprString(e), err)
	}
	b, err := compose.NewBoolFunc(fn)
	if err != nil {
		return err
	}
	early := false
	for done := false; !done; {
		lo := time.Now().UnixNano()
		got, err := b.Eval(model.LI(0).Value())
		hi := time.Now().UnixNano()
		if err != nil {
			return errf("%s: %v", exprString(e), err)
		}
		if hi < at-1e6 {
			early = true
			if got == later {
				return errf("%s is %v before the time", exprString(e), got)
			}
		}
		if done = lo > at+1e6; done && got != later {
			return errf("%s is %v after the time", exprString(e), got)
		}
		if !done {
			time.Sleep(time.Duration(at-hi) + 2*time.Millisecond)
		}
	}
	o.NonTrivialIf(early)
	o.Sample("%s in %d ms", exprString(e), c.Wait)
	return nil
}

type formula struct {
	K    string `json:"k"` // atom and or not
	Atom int    `json:"a,omitempty"`
	L    *formula
	R    *formula
}

type boolCase struct {
	Atoms []*model.Expr `json:"atoms"`
	Fs    []*formula    `json:"fs"`
	Ls    []model.Label `json:"ls"`
}

// relatedAtoms draws predicates that imply, exclude or negate one another.
func relatedAtoms(t T, n int) []*model.Expr {
	typ := gen.Pick(t, "s", "i", "u", "d", "b", "y")
	var as []*model.Expr
	for i := 0; i < n; i++ {
		switch gen.W(t, 8, 2, 2, 2, 1, 1) {
		case 0: // variable against constant, one type
			op := gen.Pick(t, "eq", "ne", "eq", "ne", "lt", "le", "gt", "ge")
			if typ == "s" || typ == "b" {
				op = gen.Pick(t, "eq", "ne")
			}
			v, k := model.Var(typ), model.Const(gen.Small(t, typ))
			if gen.Chance(t, 1, 3) {
				v, k = k, v
			}
			as = append(as, model.Fn("b", op, v, k))
		case 1:
			as = append(as, gen.BoolExpr(t, gen.EConf{Depth: 1, MayErr: true, NoPrint: true}))
		case 2:
			if len(as) > 0 {
				as = append(as, gen.MutateExpr(t, gen.Pick(t, as...)))
			} else {
				as = append(as, model.Const(model.LB(gen.Chance(t, 1, 2))))
			}
		case 3:
			as = append(as, gen.Expr(t, "b", gen.EConf{Depth: 2, MayErr: true, NoPrint: true}))
		case 4:
			as = append(as, model.Const(model.LB(gen.Chance(t, 1, 2))))
		case 5:
			as = append(as, model.Var("b"))
		}
	}
	return as
}

func genFormula(t T, atoms, depth int) *formula {
	if depth == 0 || gen.Chance(t, 1, 6) {
		return &formula{K: "atom", Atom: gen.N(t, atoms)}
	}
	switch gen.W(t, 3, 3, 2) {
	case 0:
		return &formula{K: "and", L: genFormula(t, atoms, depth-1), R: genFormula(t, atoms, depth-1)}
	case 1:
		return &formula{K: "or", L: genFormula(t, atoms, depth-1), R: genFormula(t, atoms, depth-1)}
	}
	return &formula{K: "not", L: genFormula(t, atoms, depth-1)}
}

func (f *formula) expr(atoms []*model.Expr) *model.Expr {
	switch f.K {
	case "atom":
		return atoms[f.Atom].Desugar()
	case "not":
		return model.Fn("b", "not", f.L.expr(atoms))
	}
	return model.Fn("b", f.K, f.L.expr(atoms), f.R.expr(atoms))
}

func genBoolCase(t T) boolCase {
	c := boolCase{Atoms: relatedAtoms(t, 2+gen.N(t, 3))}
	for i, n := 0, 1+gen.N(t, 3); i < n; i++ {
		c.Fs = append(c.Fs, genFormula(t, len(c.Atoms), 1+gen.N(t, 3)))
	}
	c.Ls = genLabels(t, c.Atoms, 8)
	return c
}

func boolRun(c boolCase, o *core.Obs) error {
	atoms := make([]funcs.Bool, len(c.Atoms))
	for i, a := range c.Atoms {
		if !a.Composable() {
			return nil
		}
		f, err := compose.NewBool(a.ToAST(true))
		if err != nil {
			return errf("%s does not compose: %v", exprString(a), err)
		}
		atoms[i] = f
	}
	type built struct {
		f funcs.Bool
		e *model.Expr
	}
	var all []built
	for i := range atoms {
		all = append(all, built{atoms[i], c.Atoms[i]})
	}
	var build func(f *formula) funcs.Bool
	build = func(f *formula) funcs.Bool {
		var r funcs.Bool
		switch f.K {
		case "atom":
			return atoms[f.Atom]
		case "and":
			r = funcs.And(build(f.L), build(f.R))
		case "or":
			r = funcs.Or(build(f.L), build(f.R))
		case "not":
			r = funcs.Not(build(f.L))
		}
		all = append(all, built{r, f.expr(c.Atoms)})
		if tr := funcs.TrimBool(r); tr != r {
			all = append(all, built{tr, f.expr(c.Atoms)})
		}
		return r
	}
	ops := 0
	for _, f := range c.Fs {
		build(f)
		e := f.expr(c.Atoms)
		ops += e.Size()
		g, err := compose.NewBool(e.ToAST(true))
		if err != nil {
			return errf("%s does not compose: %v", exprString(e), err)
		}
		all = append(all, built{g, e})
	}
	yes, no := 0, 0
	for _, l := range c.Ls {
		// every predicate built, also the parts of later ones
		for _, b := range all {
			want := b.e.Eval(l)
			bf, err := compose.NewBoolFunc(b.f)
			if err != nil {
				return err
			}
			got, err := bf.Eval(l.Value())
			if !want.Allows(got, err != nil) {
				return errf("%s built as %s on label %v: got %v, %v, want %v", exprString(b.e), b.f.String(), l, got, err, want)
			}
			if (funcs.IsTrue(b.f) && (!got || err != nil)) || (funcs.IsFalse(b.f) && (got || err != nil)) {
				return errf("%s is reported constant as %s, but on label %v it gives %v, %v", exprString(b.e), b.f.String(), l, got, err)
			}
			if got {
				yes++
			} else {
				no++
			}
		}
	}
	for _, b := range all {
		o.LabelIf(funcs.IsTrue(b.f), "constant-true")
		o.LabelIf(funcs.IsFalse(b.f), "constant-false")
	}
	o.LabelIf(yes > 0 && no > 0, "both")
	o.NonTrivialIf(ops >= 3)
	o.Sample("%s on %v", exprString(c.Fs[0].expr(c.Atoms)), c.Ls[0])
	return nil
}

// ---------------------------------------------------------------- F03

type lawCase struct {
	Es []*model.Expr `json:"es"`
	Ls []model.Label `json:"ls"`
}

// Values whose 31-polynomial hashes collide or that print alike.
var collide = map[string][]model.Label{
	"s": {model.LS("Aa"), model.LS("BB"), model.LS("AaAa"), model.LS("BBBB"), model.LS("AaBB"), model.LS("a"), model.LS("b"), model.LS("B"), model.LS("1"), model.LS("`"), model.LS("")},
	"y": {model.LY("\x01\x00"), model.LY("\x00\x1f"), model.LY("Aa"), model.LY("BB"), model.LY(""), model.LY("\x11")},
	"i": {model.LI(0), model.LI(31), model.LI(1), model.LI(-31), model.LI(-1), model.LI(17)},
	"u": {model.LU(0), model.LU(31), model.LU(1), model.LU(17), model.LU(1 << 63)},
	"d": {model.LD(0), model.LD(1), model.LD(1.0000001), model.LD(1.00000001), model.LD(1e-9), model.LD(2e-9), model.LD(1e300)},
	"b": {model.LB(true), model.LB(false)},
}

func genLaw(t T) lawCase {
	var c lawCase
	n := 3 + gen.N(t, 4)
	typ := gen.Type(t)
	for i := 0; i < n; i++ {
		switch gen.W(t, 4, 4, 3, 2, 4) {
		case 4:
			a, b := colliding(t)
			c.Es = append(c.Es, a, b)
		case 0:
			c.Es = append(c.Es, gen.Expr(t, "b", gen.EConf{Depth: 1, MayErr: true, Wild: gen.Chance(t, 1, 3)}))
		case 1:
			if len(c.Es) > 0 {
				c.Es = append(c.Es, gen.MutateExpr(t, gen.Pick(t, c.Es...)))
				continue
			}
			c.Es = append(c.Es, gen.Matrix(t))
		case 2: // values with colliding hashes
			e := model.Fn("b", gen.Pick(t, "eq", "ne"), model.Var(typ), model.Const(gen.Pick(t, collide[typ]...)))
			if gen.Chance(t, 1, 3) {
				e.A[0], e.A[1] = e.A[1], e.A[0]
			}
			if gen.Chance(t, 1, 3) {
				l := &model.Expr{K: "list", T: "l" + typ}
				for j, m := 0, gen.N(t, 4); j < m; j++ {
					l.A = append(l.A, model.Const(gen.Pick(t, collide[typ]...)))
				}
				if (typ == "i" || typ == "u" || typ == "s") && gen.Chance(t, 1, 2) {
					e = model.Fn("b", "contains", model.Var(typ), l)
				} else {
					e = model.Fn("b", "eq", model.Fn(typ, "elem", l, model.Var("i")), model.Var(typ))
				}
			}
			c.Es = append(c.Es, e)
		case 3:
			c.Es = append(c.Es, gen.Matrix(t))
		}
	}
	c.Ls = genLabels(t, c.Es, 6)
	return c
}

// colliding draws two expressions that differ in constants only, in such a way that their hashes are probably equal.
func colliding(t T) (a, b *model.Expr) {
	switch gen.W(t, 3, 2, 2) {
	case 0:
		a = gen.Matrix(t)
	case 1:
		a = gen.Expr(t, "b", gen.EConf{Depth: 2})
	default:
		typ := gen.Pick(t, "i", "u", "s", "y")
		part := func() *model.Expr {
			name := gen.Pick(t, "lt", "le", "gt", "ge", "eq", "ne")
			if typ == "s" {
				name = gen.Pick(t, "contains", "hasPrefix", "hasSuffix", "eqFold", "eq", "ne")
			}
			if typ == "y" {
				name = gen.Pick(t, "eq", "ne")
			}
			return model.Fn("b", name, model.Var(typ), model.Const(gen.Pick(t, collide[typ]...)))
		}
		a = model.Fn("b", gen.Pick(t, "and", "or"), part(), part())
		if gen.Chance(t, 1, 3) {
			a = model.Fn("b", "not", a)
		}
	}
	a = gen.CloneExpr(a)
	var cs []*model.Expr
	a.Walk(func(x *model.Expr) {
		if x.K == "const" {
			if x.T == "s" && gen.Chance(t, 2, 3) {
				l := model.LS(gen.Pick(t, "Aa", "BB", "AaAa", "AaBB", "xAa", "bC"))
				x.V = &l
			}
			if x.T == "y" && gen.Chance(t, 2, 3) {
				l := model.LY(gen.Pick(t, "Aa", "BB", "\x01\x00", "\x02\x20"))
				x.V = &l
			}
			if x.T == "i" || x.T == "u" || x.T == "s" || x.T == "y" {
				cs = append(cs, x)
			}
		}
	})
	b = gen.CloneExpr(a)
	if len(cs) == 0 {
		return a, b
	}
	cs = nil
	b.Walk(func(x *model.Expr) {
		if x.K == "const" && (x.T == "i" || x.T == "u" || x.T == "s" || x.T == "y") {
			cs = append(cs, x)
		}
	})
	swap := map[core.Str]core.Str{"Aa": "BB", "BB": "Aa", "AaAa": "BBBB", "AaBB": "BBAa", "xAa": "xBB", "bC": "ab", "\x01\x00": "\x00\x1f", "\x02\x20": "\x03\x01"}
	set := func(x *model.Expr, by int64) {
		var l model.Label
		switch x.T {
		case "i":
			l = model.LI(*x.V.I + by)
		case "u":
			l = model.LU(*x.V.U + uint64(by))
		case "s":
			l = model.LS(string(*x.V.S))
			if w, ok := swap[*x.V.S]; ok {
				l = model.LS(string(w))
			}
		case "y":
			l = model.LY(string(*x.V.Y))
			if w, ok := swap[*x.V.Y]; ok {
				l = model.LY(string(w))
			}
		}
		x.V = &l
	}
	i := gen.N(t, len(cs))
	switch cs[i].T {
	case "s", "y":
		set(cs[i], 0)
	default:
		if i+1 < len(cs) && cs[i+1].T == cs[i].T {
			set(cs[i], 1)
			set(cs[i+1], -31)
		} else {
			set(cs[i], gen.Pick(t, int64(31), -31, 1, 31*31, 1<<32))
		}
	}
	return a, b
}

func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

var comparableTyp = reflect.TypeOf((*funcs.Comparable)(nil)).Elem()

func lawRun(c lawCase, o *core.Obs) error {
	type item struct {
		f    funcs.Comparable
		e    *model.Expr
		eval compose.Bool
	}
	var items []item
	seen := map[string]bool{}
	for _, e := range c.Es {
		if !e.Composable() {
			continue
		}
		for k := 0; k < 2; k++ { // two independent compositions of one expression
			f, err := compose.NewBool(e.ToAST(true))
			if err != nil {
				return errf("%s does not compose: %v", exprString(e), err)
			}
			b, err := compose.NewBoolFunc(f)
			if err != nil {
				return err
			}
			items = append(items, item{f, e, b})
			if k == 1 {
				a, b := items[len(items)-2].f, f
				if a.Compare(b) != 0 || !funcs.Equal(a, b) {
					return errf("two compositions of %s compare %d, equal %v", exprString(e), a.Compare(b), funcs.Equal(a, b))
				}
			}
			if s := exprString(e); seen[s] {
				break
			} else if k == 1 {
				seen[s] = true
			}
		}
	}
	// the operands take part in comparisons of their functions: constants and variables of every type
	for _, it := range items {
		for _, f := range compose.FuncImplements(it.f, comparableTyp) {
			if cf, ok := f.(funcs.Comparable); ok && cf != it.f && len(items) < 24 {
				items = append(items, item{cf, nil, nil})
			}
		}
	}
	eqPairs, hashEq := 0, 0
	cmp := make([][]int, len(items))
	for i, a := range items {
		cmp[i] = make([]int, len(items))
		for j, b := range items {
			cmp[i][j] = sign(a.f.Compare(b.f))
			eq := funcs.Equal(a.f, b.f)
			if eq != (cmp[i][j] == 0) {
				return errf("Equal(%s, %s) is %v but Compare gives %d", a.f, b.f, eq, cmp[i][j])
			}
			if eq && a.f.Hash() != b.f.Hash() {
				return errf("%s and %s are equal but their hashes differ", a.f, b.f)
			}
			if i != j && a.f.Hash() == b.f.Hash() && cmp[i][j] != 0 {
				hashEq++
			}
			if !eq || i == j {
				continue
			}
			eqPairs++
			if x, y := a.f.String(), b.f.String(); x != y && (a.eval == nil || b.eval == nil) {
				return errf("%s and %s compare equal", x, y)
			}
			if a.eval == nil || b.eval == nil {
				continue
			}
			for _, l := range c.Ls {
				x, ex := a.eval.Eval(l.Value())
				y, ey := b.eval.Eval(l.Value())
				if x != y || (ex == nil) != (ey == nil) {
					return errf("%s and %s compare equal but on %v give %v, %v and %v, %v", exprString(a.e), exprString(b.e), l, x, ex, y, ey)
				}
			}
		}
	}
	for i := range items {
		for j := range items {
			if cmp[i][j] != -cmp[j][i] {
				return errf("Compare(%s, %s) is %d but the reverse is %d", items[i].f, items[j].f, cmp[i][j], cmp[j][i])
			}
			for k := range items {
				if cmp[i][j] <= 0 && cmp[j][k] <= 0 && cmp[i][k] > 0 {
					return errf("Compare is not transitive on %s, %s, %s", items[i].f, items[j].f, items[k].f)
				}
			}
		}
	}
	o.LabelIf(hashEq > 0, "hash-collision")
	o.LabelIf(eqPairs > 2*len(c.Es), "equal-pairs")
	o.NonTrivialIf(len(items) >= 3)
	if len(c.Es) > 1 {
		o.Sample("%s ; %s", exprString(c.Es[0]), exprString(c.Es[1]))
	}
	return nil
}

type patLawCase struct {
	Ps []*model.Pattern `json:"ps"`
}

func genPatLaw(t T) patLawCase {
	conf := gen.GConf{Depth: 2, WildNames: true, Expr: gen.EConf{Depth: 1, Wild: true}, Decls: 0}
	var c patLawCase
	n := 3 + gen.N(t, 4)
	for i := 0; i < n; i++ {
		if len(c.Ps) > 0 && gen.Chance(t, 3, 5) {
			c.Ps = append(c.Ps, gen.MutatePattern(t, conf, gen.Pick(t, c.Ps...)))
		} else {
			c.Ps = append(c.Ps, gen.Pattern(t, conf, gen.N(t, 3)))
		}
	}
	return c
}

// nesting decides what the constructors build: operators of two operands, nested to the right.
func nested(p *model.Pattern) string {
	var sb strings.Builder
	var rec func(p *model.Pattern)
	rec = func(p *model.Pattern) {
		switch p.K {
		case "concat", "or", "and", "inter":
			a := p.A
			for len(a) > 1 {
				sb.WriteString(p.K + "(")
				rec(a[0])
				a = a[1:]
			}
			rec(a[0])
			return
		}
		sb.WriteString(p.K)
		if p.N != nil {
			sb.WriteString(jsonOf(p.N))
		}
		if p.E != nil {
			sb.WriteString(jsonOf(p.E))
		}
		sb.WriteString(p.Ref + "(")
		for _, a := range p.A {
			rec(a)
		}
		sb.WriteString(")")
	}
	rec(p)
	return sb.String()
}

func patLawRun(c patLawCase, o *core.Obs) error {
	type item struct {
		p *ast.Pattern
		n string
	}
	var items []item
	for _, p := range c.Ps {
		items = append(items, item{p.ToAST(), nested(p)}, item{p.ToAST(), nested(p)})
	}
	str := func(i int) string { return items[i].p.String() }
	cmp := make([][]int, len(items))
	diff := 0
	for i, a := range items {
		cmp[i] = make([]int, len(items))
		for j, b := range items {
			cmp[i][j] = sign(a.p.Compare(b.p))
			eq := a.p.Equal(b.p)
			if want := a.n == b.n; eq != want {
				return errf("Equal(%s, %s) is %v", str(i), str(j), eq)
			}
			if eq != (cmp[i][j] == 0) {
				return errf("Equal(%s, %s) is %v but Compare gives %d", str(i), str(j), eq, cmp[i][j])
			}
			if eq && a.p.Hash() != b.p.Hash() {
				return errf("%s and %s are equal but their hashes differ", str(i), str(j))
			}
			if !eq {
				diff++
			}
		}
	}
	for i := range items {
		for j := range items {
			if cmp[i][j] != -cmp[j][i] {
				return errf("Compare(%s, %s) is %d but the reverse is %d", str(i), str(j), cmp[i][j], cmp[j][i])
			}
			for k := range items {
				if cmp[i][j] <= 0 && cmp[j][k] <= 0 && cmp[i][k] > 0 {
					return errf("Compare is not transitive on %s, %s, %s", str(i), str(j), str(k))
				}
			}
		}
	}
	// names and terminals have their own comparisons
	var names []*model.Name
	for _, p := range c.Ps {
		p.Walk(func(x *model.Pattern) {
			if x.N != nil && len(names) < 6 {
				names = append(names, x.N)
			}
		})
	}
	for _, n := range names {
		for _, m := range names {
			a, b := n.ToAST(), m.ToAST()
			want := nestedName(n) == nestedName(m)
			if a.Equal(b) != want || (a.Compare(b) == 0) != want || sign(a.Compare(b)) != -sign(b.Compare(a)) {
				return errf("names %s and %s: Equal %v, Compare %d and %d", a, b, a.Equal(b), a.Compare(b), b.Compare(a))
			}
		}
	}
	o.NonTrivialIf(diff > 0)
	o.Sample("%s ; %s", str(0), str(2))
	return nil
}

func nestedName(n *model.Name) string {
	switch n.K {
	case "choice":
		s := ""
		for i, a := range n.A {
			if i+1 < len(n.A) {
				s += "|("
			}
			s += nestedName(a)
		}
		return s
	case "except":
		return "!(" + nestedName(n.A[0]) + ")"
	}
	return jsonOf(n)
}

func init() {
	core.Register(core.Spec{Prop: "F01", Name: "nested", Quick: 60000, Thorough: 1500000,
		Rule: "random well-typed expressions up to depth 3 of all functions, each evaluated on 6 labels in random order with repetition; non-trivial: has a variable or a nested function"},
		func(t T) exprCase {
			return genExprCase(t, gen.BoolExpr(t, gen.EConf{Depth: 1 + gen.N(t, 3), MayErr: gen.Chance(t, 2, 3), Wild: gen.Chance(t, 1, 3)}), 6)
		}, exprRun)
	core.Register(core.Spec{Prop: "F01", Name: "matrix", Quick: 120000, Thorough: 3000000,
		Rule: "one function of a uniformly drawn signature on variables, constants and lists of the whole value range, observed through a comparison with its exact or another result"},
		func(t T) exprCase { return genExprCase(t, gen.Matrix(t), 4) }, exprRun)
	core.Register(core.Spec{Prop: "F01", Name: "builtin", Quick: 30000, Thorough: 400000,
		Rule: "every shorthand notation on constants of the whole range and list constants"},
		func(t T) exprCase {
			return genExprCase(t, gen.Builtin(t, gen.EConf{Depth: 1, MayErr: true, Wild: true}), 5)
		}, exprRun)
	core.Register(core.Spec{Prop: "F01", Name: "now", Quick: 200, Thorough: 2000,
		Rule: "now() compared with labels at least an hour before or after the present"},
		func(t T) nowCase {
			h := int64(time.Hour)
			d := gen.Pick(t, h, -h, 24*h, -24*h, 1000*h, -1000*h, 100000*h, -100000*h)
			return nowCase{d, gen.Pick(t, "lt", "le", "gt", "ge", "eq", "ne"), gen.Chance(t, 1, 2)}
		}, nowRun)
	core.Register(core.Spec{Prop: "F02", Name: "later", Quick: 400, Thorough: 4000,
		Rule: "now() compared with a time some milliseconds ahead, inside of formulas that can be trimmed; evaluated before and after that time; non-trivial: an evaluation ended before it"},
		func(t T) laterCase {
			c := laterCase{Wait: 2 + gen.N(t, 8), Op: gen.Pick(t, "lt", "le", "gt", "ge"), Swap: gen.Chance(t, 1, 2)}
			for i := gen.N(t, 4); i > 0; i-- {
				c.Wrap = append(c.Wrap, gen.N(t, 6))
			}
			return c
		}, laterRun)
	core.Register(core.Spec{Prop: "F02", Name: "formulas", Quick: 30000, Thorough: 800000,
		Rule: "random formulas of and/or/not over 2 to 4 related predicates (same variable against constants, negations, constants), each part checked on 8 labels; non-trivial: at least 3 operators and atoms"},
		genBoolCase, boolRun)
	core.Register(core.Spec{Prop: "F03", Name: "functions", Quick: 20000, Thorough: 400000,
		Rule: "all pairs and triples of up to 24 related predicates and their operands, with values of colliding hashes; non-trivial: at least 3 functions"},
		genLaw, lawRun)
	core.Register(core.Spec{Prop: "F03", Name: "patterns", Quick: 12000, Thorough: 300000,
		Rule: "all pairs and triples of up to 12 related patterns, each built twice; Equal must be structural equality; non-trivial: some pair differs"},
		genPatLaw, patLawRun)
}
