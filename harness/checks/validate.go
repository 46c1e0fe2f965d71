package checks

import (
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

func observe(o *core.Obs, g *model.Grammar, docs [][]model.Tree, verdicts []bool) {
	ops, kinds := opCount(g)
	acc, rej := 0, 0
	for i, v := range verdicts {
		if v {
			acc++
		} else {
			rej++
		}
		_ = i
	}
	nodes := 0
	for _, d := range docs {
		nodes += model.Size(d)
	}
	o.LabelIf(acc > 0, "some-accepted")
	o.LabelIf(rej > 0, "some-rejected")
	o.LabelIf(acc > 0 && rej > 0, "both-verdicts")
	for k := range kinds {
		o.Label("op-" + k)
	}
	o.NonTrivialIf(ops >= 1 && nodes >= 1 && len(verdicts) > 0)
	if len(verdicts) > 0 {
		o.Sample("%s on %s: %v", show(g), model.ForestString(docs[0]), verdicts[0])
	}
}

// runEngines checks every document of the case on every engine against the denotation.
func runEngines(c gd, o *core.Obs, engs ...engine) error {
	m := model.NewMatcher(c.G)
	var verdicts []bool
	vs := make([]validator, len(engs))
	for i, e := range engs {
		v, err := e.prep(c.G.ToAST())
		if err == errStates {
			o.Label(e.name + "-too-many-states")
			continue
		}
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", e.name, err, show(c.G))
		}
		vs[i] = v
	}
	for _, ts := range c.Docs {
		mayErr, ambiguous := c.G.ExprStatus(ts)
		o.LabelIf(mayErr, "may-err")
		if ambiguous {
			o.Label("ambiguous-skipped")
			continue
		}
		want := m.Match(ts)
		verdicts = append(verdicts, want)
		for i, e := range engs {
			if vs[i] == nil {
				continue
			}
			got, err := vs[i](model.NewTreeParser(ts))
			o.LabelIf(err != nil, "err")
			if err := judge(e.name, got, err, want, mayErr, c.G, ts); err != nil {
				return err
			}
		}
	}
	observe(o, c.G, c.Docs, verdicts)
	return nil
}

const ruleGD = "random grammars (all operators, up to 3 declarations, no left recursion) with trees sampled from the grammar, mutated or random; non-trivial: the grammar has an operator besides node/value/any/empty and the documents have a node"

func confSmall() gen.GConf { return gen.GConf{Depth: 3, Decls: 2, Expr: gen.EConf{Depth: 1}} }

func confExpr() gen.GConf {
	return gen.GConf{Depth: 2, Decls: 1, Expr: gen.EConf{Depth: 2, MayErr: true, NoPrint: true}}
}

func confBool() gen.GConf { // flat patterns over few names: interplay of the operators
	return gen.GConf{Depth: 4, Decls: 1, OnlyStrings: true, NoExcept: true, Names: []string{"a", "b"}, Expr: gen.EConf{Depth: 0}}
}

func confInter() gen.GConf {
	return gen.GConf{Depth: 3, Decls: 0, NoNot: true, OnlyStrings: true, Names: []string{"a", "b"}, Expr: gen.EConf{Depth: 0}}
}

func confCollide() gen.GConf {
	return gen.GConf{Depth: 3, Decls: 2, OnlyStrings: true, Names: []string{"a", "b", "c"}, Expr: gen.EConf{Depth: 1}, Collide: true}
}

func confDeep() gen.GConf { return gen.GConf{Depth: 5, Decls: 3, Expr: gen.EConf{Depth: 1}} }

func genSized(t T, c gen.GConf, docs, width, maxSize int) gd {
	x := genGD(t, c, docs, width)
	for x.G.Size() > maxSize && c.Depth > 1 {
		c.Depth--
		x = genGD(t, c, docs, width)
	}
	return x
}

func init() {
	type eng struct {
		prop string
		engs []engine
	}
	for _, e := range []eng{{"V01", []engine{engInterp}}, {"V02", []engine{engIntern}}} {
		e := e
		run := func(c gd, o *core.Obs) error { return runEngines(c, o, e.engs...) }
		core.Register(core.Spec{Prop: e.prop, Name: "small", Quick: 24000, Thorough: 400000, Rule: ruleGD},
			func(t T) gd { return genSized(t, confSmall(), 5, 6, 40) }, run)
		core.Register(core.Spec{Prop: e.prop, Name: "bool", Quick: 24000, Thorough: 400000, Rule: ruleGD + "; two names, nested operators"},
			func(t T) gd { return genSized(t, confBool(), 5, 5, 40) }, run)
		core.Register(core.Spec{Prop: e.prop, Name: "inter", Quick: 16000, Thorough: 200000, Rule: ruleGD + "; interleave, contains and repetition over two names"},
			func(t T) gd { return genSized(t, confInter(), 5, 6, 25) }, run)
		core.Register(core.Spec{Prop: e.prop, Name: "expr", Quick: 24000, Thorough: 400000, Rule: ruleGD + "; nested value expressions that may fail"},
			func(t T) gd { return genSized(t, confExpr(), 5, 5, 40) }, run)
		core.Register(core.Spec{Prop: e.prop, Name: "names", Quick: 16000, Thorough: 300000, Rule: ruleGD + "; arrangements of nodes whose names imply or exclude one another"},
			func(t T) gd { return genNamesHist(t).gd }, run)
		core.Register(core.Spec{Prop: e.prop, Name: "collide", Quick: 10000, Thorough: 200000, Rule: ruleGD + "; names, constants and references with equal hashes"},
			func(t T) gd { return genSized(t, confCollide(), 5, 6, 40) }, run)
		core.Register(core.Spec{Prop: e.prop, Name: "deep", Quick: 6000, Thorough: 150000, Rule: ruleGD + "; deeper grammars with recursion through nodes"},
			func(t T) gd { return genSized(t, confDeep(), 3, 6, 80) }, run)
	}
}
