package checks

import (
	"io"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/mem"
	rparser "github.com/katydid/katydid/relapse/parser"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// ---------------------------------------------------------------- F06

// ctxStep sets a new context (Set), changes the value inside of the current one (Put), or validates a document.
type ctxStep struct {
	Op  string `json:"op"`
	Ctx int64  `json:"c,omitempty"`
	Doc int    `json:"d,omitempty"`
}

type ctxCase struct {
	gd
	Record bool      `json:"record,omitempty"`
	Early  bool      `json:"early,omitempty"` // the context is set before the grammar is added
	Steps  []ctxStep `json:"steps"`
}

func genCtxSteps(t T, docs int) []ctxStep {
	var r []ctxStep
	if !gen.Chance(t, 1, 6) {
		r = append(r, ctxStep{Op: "set", Ctx: 1})
	}
	for n := 2 + gen.N(t, 6); n > 0; n-- {
		switch gen.W(t, 4, 1, 1) {
		case 0:
			r = append(r, ctxStep{Op: "doc", Doc: gen.N(t, docs)})
		case 1:
			r = append(r, ctxStep{Op: "set", Ctx: 1 + int64(gen.N(t, 4))})
		case 2:
			r = append(r, ctxStep{Op: "put", Ctx: 1 + int64(gen.N(t, 4))})
		}
	}
	return append(r, ctxStep{Op: "doc", Doc: gen.N(t, docs)})
}

func genCtx(t T, record bool) ctxCase {
	c := ctxCase{Record: record, Early: gen.Chance(t, 1, 3)}
	if record {
		c.gd = genRecord(t)
	} else {
		c.gd = genSized(t, gen.GConf{Depth: 3, Decls: 2, Expr: gen.EConf{Depth: 1 + gen.N(t, 2)}}, 3, 5, 24)
	}
	gen.InjectGrammar(t, c.G, "ctx", 3, 4)
	var es []*model.Expr
	c.G.Walk(func(p *model.Pattern) {
		if p.K == "leaf" {
			es = append(es, p.E)
		}
	})
	if len(es) > 0 { // labels that the injected expressions are about
		for i := range c.Docs {
			c.Docs[i] = relabelLeaves(t, c.Docs[i], es)
			if record {
				c.Docs[i] = recordLimit(c.G, c.Docs[i])
			}
		}
	}
	c.Steps = genCtxSteps(t, len(c.Docs))
	return c
}

func relabelLeaves(t T, ts []model.Tree, es []*model.Expr) []model.Tree {
	r := model.CloneForest(ts)
	var walk func(ts []model.Tree)
	walk = func(ts []model.Tree) {
		for i := range ts {
			if ts[i].Leaf && gen.Chance(t, 1, 3) {
				ts[i].L = gen.LabelFor(t, es[gen.N(t, len(es))])
			}
			walk(ts[i].C)
		}
	}
	walk(r)
	return r
}

// ctxTarget is something prepared that accepts contexts.
type ctxTarget struct {
	name string
	prep func(g *ast.Grammar, record bool, early *funcs.Context) (validator, func(*funcs.Context), error)
}

var ctxMem = ctxTarget{"mem", func(g *ast.Grammar, record bool, early *funcs.Context) (validator, func(*funcs.Context), error) {
	mk := mem.New
	if record {
		mk = mem.NewRecord
	}
	m, err := mk(g)
	if err != nil {
		return nil, nil, err
	}
	if early != nil {
		m.SetContext(early)
	}
	return m.Validate, m.SetContext, nil
}}

// derivForest follows a parser with the exported derivative functions of the intern package.
func derivForest(c intern.Construct, ps []*intern.Pattern, p parser.Interface) ([]*intern.Pattern, error) {
	for {
		if err := p.Next(); err == io.EOF {
			return ps, nil
		} else if err != nil {
			return nil, err
		}
		ifs := intern.DeriveCalls(c, ps)
		children := make([]*intern.Pattern, len(ifs))
		for i, x := range ifs {
			b, err := compose.NewBoolFunc(x.Cond)
			if err != nil {
				return nil, err
			}
			yes, err := b.Eval(p)
			if err != nil {
				return nil, err
			}
			children[i] = x.Els
			if yes {
				children[i] = x.Thn
			}
		}
		if !p.IsLeaf() {
			p.Down()
			var err error
			if children, err = derivForest(c, children, p); err != nil {
				return nil, err
			}
			p.Up()
		}
		nulls := make([]bool, len(children))
		for i := range children {
			nulls[i] = children[i].Nullable()
		}
		var err error
		if ps, err = intern.DeriveReturns(c, ps, nulls); err != nil {
			return nil, err
		}
	}
}

var ctxIntern = ctxTarget{"intern", func(g *ast.Grammar, record bool, early *funcs.Context) (validator, func(*funcs.Context), error) {
	c := intern.NewConstructor()
	if record {
		c = intern.NewConstructorOptimizedForRecords()
	}
	if early != nil {
		c.SetContext(early)
	}
	main, err := c.AddGrammar(g)
	if err != nil {
		return nil, nil, err
	}
	return func(p parser.Interface) (bool, error) {
		ps, err := derivForest(c, []*intern.Pattern{main}, p)
		if err != nil {
			return false, err
		}
		return ps[0].Nullable(), nil
	}, c.SetContext, nil
}}

func ctxRun(c ctxCase, o *core.Obs, targets ...ctxTarget) error {
	defer func() { model.Ctx = 0 }()
	calls := 0
	c.G.Walk(func(p *model.Pattern) {
		if p.K == "leaf" && p.E.HasUser("ctx_") {
			calls++
		}
	})
	for _, tg := range targets {
		model.Ctx = 0
		var cur *funcs.Context
		steps := c.Steps
		if c.Early && len(steps) > 0 && steps[0].Op == "set" {
			cur = &funcs.Context{Value: steps[0].Ctx}
			model.Ctx = steps[0].Ctx
			steps = steps[1:]
		}
		v, set, err := tg.prep(c.G.ToAST(), c.Record, cur)
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", tg.name, err, show(c.G))
		}
		seen := map[int]map[int64]bool{} // document -> context -> verdict
		for i, s := range steps {
			switch s.Op {
			case "set":
				cur = &funcs.Context{Value: s.Ctx}
				set(cur)
				model.Ctx = s.Ctx
			case "put":
				if cur != nil {
					cur.Value = s.Ctx
					model.Ctx = s.Ctx
				}
			case "doc":
				ts := c.Docs[s.Doc]
				mayErr, ambiguous := c.G.ExprStatus(ts)
				if ambiguous {
					o.Label("ambiguous-skipped")
					continue
				}
				want := model.NewMatcher(c.G).Match(ts)
				got, err := v(model.NewTreeParser(ts))
				if e := judge(tg.name, got, err, want, mayErr, c.G, ts); e != nil {
					return errf("step %d, context %d: %v", i, model.Ctx, e)
				}
				o.LabelIf(err != nil, "err")
				if seen[s.Doc] == nil {
					seen[s.Doc] = map[int64]bool{}
				}
				seen[s.Doc][model.Ctx] = want
				other, ok := seen[s.Doc][firstKey(seen[s.Doc])]
				o.LabelIf(ok && other != want, "verdict-depends-on-context")
			}
		}
	}
	o.NonTrivialIf(calls > 0)
	o.LabelIf(c.Early, "early")
	o.Sample("%s with %v", show(c.G), c.Steps)
	return nil
}

func firstKey(m map[int64]bool) int64 {
	var best int64 = 1 << 62
	for k := range m {
		if k < best {
			best = k
		}
	}
	return best
}

type ctxExprCase struct {
	exprCase
	Ctxs []int64 `json:"ctxs"`
	Not  bool    `json:"not,omitempty"`
}

// ctxExprRun sets contexts on a composed predicate directly.
func ctxExprRun(c ctxExprCase, o *core.Obs) error {
	defer func() { model.Ctx = 0 }()
	e := c.E
	if !e.Composable() {
		return nil
	}
	f, err := compose.NewBool(e.ToAST(true))
	if err != nil {
		return errf("%s does not compose: %v", exprString(e), err)
	}
	if c.Not {
		f = funcs.Not(f)
		e = model.Fn("b", "not", e)
	}
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return err
	}
	for _, k := range c.Ctxs {
		compose.SetContext(f, &funcs.Context{Value: k})
		model.Ctx = k
		for _, l := range c.Ls {
			want := e.Eval(l)
			got, err := b.Eval(l.Value())
			if !want.Allows(got, err != nil) {
				return errf("%s with context %d on label %v: got %v, %v, want %v", exprString(e), k, l, got, err, want)
			}
		}
	}
	o.NonTrivialIf(e.HasUser("ctx_"))
	o.Sample("%s with %v", exprString(e), c.Ctxs)
	return nil
}

// ---------------------------------------------------------------- F07

func userRun(c exprCase, o *core.Obs) error {
	if !c.E.HasUser("") {
		o.Label("no-call")
	}
	if c.E.Impure() {
		return nil
	}
	if err := exprRun(c, o); err != nil {
		return err
	}
	if !c.E.Composable() {
		return nil
	}
	// also through the text
	x, err := rparser.NewParser().ParseExpr(exprString(c.E.Desugar()))
	if err != nil {
		return errf("%s does not parse: %v", exprString(c.E), err)
	}
	f, err := compose.NewBool(x)
	if err != nil {
		return errf("%s does not compose from text: %v", exprString(c.E), err)
	}
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return err
	}
	for _, l := range c.Ls {
		want := c.E.Eval(l)
		got, err := b.Eval(l.Value())
		if !want.Allows(got, err != nil) {
			return errf("%s from text on label %v: got %v, %v, want %v", exprString(c.E), l, got, err, want)
		}
	}
	return nil
}

// genSignature draws a call with a random parameter list, mostly of a registered signature.
func genSignature(t T) exprCase {
	in := make([]string, gen.W(t, 1, 4, 6, 2))
	for i := range in {
		in[i] = model.AllTypes[gen.N(t, len(model.AllTypes))]
	}
	out := model.AllTypes[gen.N(t, len(model.AllTypes))]
	switch {
	case len(in) == 2 && gen.Chance(t, 3, 4):
		out = gen.Pick(t, "b", "i")
	case len(in) == 3 && gen.Chance(t, 3, 4):
		out, in[0], in[2] = "s", "i", "lb"
	}
	name := gen.Pick(t, "uf", "uf", "uf", "uf", "uf", "ufc", "UF", "Uf", "u", "uf_", "ctx") + "_" + out
	args := make([]*model.Expr, len(in))
	for i := range in {
		args[i] = gen.Arg(t, in[i])
	}
	e := model.Fn(out, name, args...)
	if len(out) == 2 {
		e = model.Fn(out[1:], "elem", e, model.Const(model.LI(gen.Pick(t, int64(0), 1, -1))))
	}
	if e.T != "b" || gen.Chance(t, 1, 3) {
		e = model.Fn("b", gen.Pick(t, "eq", "ne"), e, gen.Arg(t, e.T))
	}
	return exprCase{E: e, Ls: genLabels(t, []*model.Expr{e}, 4)}
}

func signatureRun(c exprCase, o *core.Obs) error {
	x := c.E.ToAST(true)
	e, err := model.ExprFromAST(x)
	if err != nil {
		return errf("%s: %v", exprString(c.E), err)
	}
	if err := composeTotal(x, e, nil, exprString(c.E), o); err != nil {
		return err
	}
	o.NonTrivial()
	o.Sample("%s", exprString(c.E))
	if gen.InferTop(e) != "b" || !e.Composable() || e.Impure() {
		return nil
	}
	c.E = e
	return exprRun(c, o)
}

func genUserGrammar(t T) gd {
	x := genSized(t, gen.GConf{Depth: 3, Decls: 1, Expr: gen.EConf{Depth: 1 + gen.N(t, 2), NoPrint: true}, MaxInter: 3}, 3, 5, 16)
	gen.InjectGrammar(t, x.G, "uf", 2, 3)
	return x
}

func composableGrammar(g *model.Grammar) bool {
	r := true
	g.Walk(func(p *model.Pattern) { r = r && (p.K != "leaf" || p.E.Composable() && !p.E.Impure()) })
	return r
}

func init() {
	core.Register(core.Spec{Prop: "F06", Name: "mem", Quick: 12000, Thorough: 400000,
		Rule: "random grammars with calls of context functions in their values, histories of setting contexts, changing the value inside of the current one and validating documents, against the denotation under the current context; non-trivial: a context function occurs"},
		func(t T) ctxCase { return genCtx(t, false) }, func(c ctxCase, o *core.Obs) error { return ctxRun(c, o, ctxMem) })
	core.Register(core.Spec{Prop: "F06", Name: "record", Quick: 6000, Thorough: 200000,
		Rule: "the same with record grammars and the record optimised variants of both prepared forms; non-trivial: a context function occurs"},
		func(t T) ctxCase { return genCtx(t, true) }, func(c ctxCase, o *core.Obs) error { return ctxRun(c, o, ctxMem, ctxIntern) })
	core.Register(core.Spec{Prop: "F06", Name: "intern", Quick: 6000, Thorough: 200000,
		Rule: "the same on a constructor and the exported derivative functions, with the context set before or after the grammar is added; non-trivial: a context function occurs"},
		func(t T) ctxCase { return genCtx(t, false) }, func(c ctxCase, o *core.Obs) error { return ctxRun(c, o, ctxIntern) })
	core.Register(core.Spec{Prop: "F06", Name: "predicate", Quick: 20000, Thorough: 500000,
		Rule: "a composed expression with calls of context functions at any depth (in lists, calls, comparisons, under complement), 3 contexts in turn; non-trivial: a context function occurs"},
		func(t T) ctxExprCase {
			e := gen.BoolExpr(t, gen.EConf{Depth: 1 + gen.N(t, 3), MayErr: true})
			if gen.Chance(t, 1, 4) {
				e = gen.Matrix(t)
			}
			e = gen.InjectCalls(t, e, "ctx", 1+gen.N(t, 3))
			return ctxExprCase{exprCase{E: e, Ls: genLabels(t, []*model.Expr{e}, 3)}, []int64{1, 2, 1 + int64(gen.N(t, 4))}, gen.Chance(t, 1, 3)}
		}, ctxExprRun)
	core.Register(core.Spec{Prop: "F07", Name: "calls", Quick: 40000, Thorough: 1000000,
		Rule: "well-typed expressions with up to 3 parts replaced by calls of registered functions (0 to 3 parameters of all 12 types), composed from the tree and from text, on 4 labels against the model; non-trivial: a variable or more than two nodes"},
		func(t T) exprCase {
			e := gen.BoolExpr(t, gen.EConf{Depth: 1 + gen.N(t, 2), MayErr: true})
			if gen.Chance(t, 1, 4) {
				e = gen.Matrix(t)
			}
			return genExprCase(t, gen.InjectCalls(t, e, "uf", 1+gen.N(t, 3)), 4)
		}, userRun)
	core.Register(core.Spec{Prop: "F07", Name: "signatures", Quick: 40000, Thorough: 1000000,
		Rule: "one call with a random parameter list and name: accepted exactly if registered under that name and parameter types, and evaluated on 4 labels; non-trivial: all"},
		genSignature, signatureRun)
	core.Register(core.Spec{Prop: "F07", Name: "engines", Quick: 6000, Thorough: 150000,
		Rule: "random grammars with calls of registered functions in their values, on every engine against the denotation; non-trivial: as for grammars and documents"},
		func(t T) gd { return genUserGrammar(t) }, func(c gd, o *core.Obs) error {
			if !composableGrammar(c.G) {
				o.Label("not-composable")
				return nil
			}
			return runEngines(c, o, engInterp, engIntern, engMem, engAuto)
		})
}
