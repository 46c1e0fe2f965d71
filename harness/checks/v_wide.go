package checks

import (
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

const ruleWide = "operators of 5 to 200 operands (choices, intersections, sequences, complements, repetitions of choices; many conditions on one label, or many different patterns behind few conditions; also behind as many declarations), with up to 6 documents sampled from the parts or the whole, or mutated; non-trivial: the documents have a node"

func genWide(t T, c gen.WConf, width int) gd {
	g, parts := gen.Wide(t, c)
	x := gd{G: g}
	for i := 1 + gen.N(t, 6); i > 0; i-- {
		x.Docs = append(x.Docs, gen.WideDoc(t, g, parts, width))
	}
	return x
}

func genWideHist(t T) histCase {
	c := histCase{gd: genWide(t, wideConf(t), 8)}
	for i := 2 + gen.N(t, 8); i > 0; i-- {
		s := histStep{Doc: gen.N(t, len(c.Docs))}
		if gen.Chance(t, 1, 6) {
			s.FailAt, s.Err = 1+gen.N(t, 8), gen.N(t, len(model.Faults))
		}
		c.Hist = append(c.Hist, s)
	}
	return c
}

func wideConf(t T) gen.WConf { return gen.WConf{Max: 200, Inter: 5, Conds: gen.Chance(t, 1, 2)} }

func init() {
	reg := func(prop string, quick, thorough int, engs ...engine) {
		core.Register(core.Spec{Prop: prop, Name: "wide", Quick: quick, Thorough: thorough, Rule: ruleWide},
			func(t T) gd { return genWide(t, wideConf(t), 8) },
			func(c gd, o *core.Obs) error { return runEngines(c, o, engs...) })
	}
	reg("V01", 1600, 30000, engInterp)
	reg("V02", 5000, 100000, engIntern)
	core.Register(core.Spec{Prop: "V03", Name: "wide", Quick: 5000, Thorough: 100000, Rule: ruleWide + "; a history of up to 9 validations on one validator"},
		genWideHist, func(c histCase, o *core.Obs) error { return runHist(c, o, engMem) })
	core.Register(core.Spec{Prop: "V05", Name: "wide", Quick: 5000, Thorough: 100000, Rule: ruleWide + "; documents reduced to records"},
		func(t T) gd {
			x := genWide(t, wideConf(t), 8)
			for i := range x.Docs {
				x.Docs[i] = recordLimit(x.G, x.Docs[i])
			}
			return x
		}, func(c gd, o *core.Obs) error { return runEngines(c, o, engInternRec, engMemRec) })
	core.Register(core.Spec{Prop: "V08", Name: "wide", Quick: 1600, Thorough: 30000, Rule: ruleWide + "; simplified, as in V08/small"},
		func(t T) simpCase { return simpCase{gd: genWide(t, wideConf(t), 8)} }, runSimplify)
}
