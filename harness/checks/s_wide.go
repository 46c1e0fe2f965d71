package checks

import (
	"fmt"
	"sort"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// longGrammar is a grammar with an operator, a name, an expression or a list of declarations of many parts.
func longGrammar(t T) *model.Grammar {
	n := gen.Pick(t, 5, 17, 33, 64, 65, 100, 129, 255, 256, 257, 300, 513, 700)
	few := func(m int) int { return min(n, m) }
	small := func() *model.Pattern {
		return gen.Grammar(t, gen.GConf{Depth: gen.N(t, 2), Expr: gen.EConf{Depth: gen.N(t, 2), MayErr: true}}).Main
	}
	var pool []*model.Pattern
	for i := 0; i < 4; i++ {
		pool = append(pool, small())
	}
	part := func(i int) *model.Pattern {
		if i%7 == 3 {
			return model.PNode(model.NLit(model.LS(fmt.Sprint("n", i))), model.PAny())
		}
		return pool[gen.N(t, len(pool))]
	}
	parts := func(m int) (ps []*model.Pattern) {
		for i := 0; i < m; i++ {
			ps = append(ps, part(i))
		}
		return ps
	}
	g := &model.Grammar{}
	switch gen.N(t, 7) {
	case 0:
		w, _ := gen.Wide(t, gen.WConf{Max: few(200), Inter: 5, Conds: gen.Chance(t, 1, 2)})
		g = w
	case 1:
		g.Main = model.POr(parts(n)...)
	case 2:
		g.Main = model.PAnd(parts(n)...)
	case 3:
		g.Main = model.PConcat(parts(n)...)
	case 4: // a tower
		p := small()
		for i := 0; i < few(300); i++ {
			switch gen.N(t, 6) {
			case 0:
				p = model.PNot(p)
			case 1:
				p = model.PStar(p)
			case 2:
				p = model.PContains(p)
			case 3:
				p = model.POr(part(i), p)
			case 4:
				p = model.PConcat(p, part(i))
			default:
				p = model.PNode(model.NLit(model.LS(fmt.Sprint("k", i))), p)
			}
		}
		g.Main = p
	case 5: // many declarations
		g.Main = small()
		for i := 0; i < n; i++ {
			g.Decls = append(g.Decls, model.Decl{Name: fmt.Sprintf("d%03d", i), P: part(i)})
			if i%11 == 5 {
				g.Main = model.POr(g.Main, model.PRef(fmt.Sprintf("d%03d", i)))
			}
		}
	default: // a name of many choices
		var ns []*model.Name
		for i := 0; i < n; i++ {
			ns = append(ns, gen.Pick(t, model.NLit(model.LS(fmt.Sprint("c", i))), model.NAny(), model.NExcept(model.NLit(model.LI(int64(i))))))
		}
		g.Main = model.PNode(model.NChoice(ns...), small())
	}
	wide(t, g)
	sort.Slice(g.Decls, func(i, j int) bool { return g.Decls[i].Name < g.Decls[j].Name })
	return g
}

func longText(t T) gtextCase {
	g := longGrammar(t)
	return gtextCase{g, gen.GrammarText(t, g, gen.RandomLayout(t))}
}

func init() {
	how := "grammars with one operator, name or list of declarations of up to 700 parts or a tower of up to 300 operators, written with random layout; "
	core.Register(core.Spec{Prop: "S01", Name: "wide", Quick: 2000, Thorough: 40000, Terminates: true, Rule: how + "as in S01/grammars"}, longText, runPrintParse)
	core.Register(core.Spec{Prop: "S03", Name: "wide", Quick: 1500, Thorough: 30000, Terminates: true, Rule: how + "as in S03/grammars"}, longText, runFormat)
	core.Register(core.Spec{Prop: "S02", Name: "wide", Quick: 2000, Thorough: 40000, Terminates: true, Rule: how + "built with the constructors, as in S02/grammars"},
		func(t T) astCase { return astCase{longGrammar(t), gen.Chance(t, 1, 3)} }, runAST)
	core.Register(core.Spec{Prop: "S06", Name: "wide", Quick: 400, Thorough: 8000, Terminates: true, Rule: how + "cloned, as in S06/clone"},
		func(t T) astTextCase {
			c := longText(t)
			return astTextCase{G: c.G, T: c.T, Build: gen.Chance(t, 1, 4), Format: gen.Chance(t, 1, 5), Sites: []int{gen.N(t, 1000)}}
		}, runClone)
}
