package checks

import (
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// states is a grammar that needs many states, with a history of documents for one validator.
// The verdicts follow from counting, so the documents can have any size.
type states struct {
	Covers bool       `json:"covers,omitempty"`
	Fields []stField  `json:"fields"`
	Neg    bool       `json:"neg,omitempty"` // the complement of the grammar
	Docs   [][]stItem `json:"docs"`
}

type stField struct {
	Min int  `json:"min,omitempty"`
	Max int  `json:"max,omitempty"` // -1: any number
	Mod int  `json:"mod,omitempty"` // the number is a multiple of this
	Val int  `json:"val,omitempty"` // the value that each has; 0: any
	Neg bool `json:"neg,omitempty"` // covers: no node has it
}

type stItem struct {
	F int `json:"f"` // the field; covers: the set of the names below
	V int `json:"v"`
}

func stName(i int) *model.Name { return model.NLit(model.LS(string(rune('a' + i)))) }

func (c states) grammar() *model.Grammar {
	var ps []*model.Pattern
	for i, f := range c.Fields {
		var p *model.Pattern
		if c.Covers {
			p = model.PContains(model.PNode(model.NAny(), model.PContains(model.PNode(stName(i), model.PAny()))))
			if f.Neg {
				p = model.PNot(p)
			}
			ps = append(ps, p)
			continue
		}
		child := model.PAny()
		if f.Val > 0 {
			child = model.PLeaf(model.Fn("b", "eq", model.Var("i"), model.Const(model.LI(int64(f.Val)))))
		}
		node := model.PNode(stName(i), child)
		seq := func(n int, rest ...*model.Pattern) *model.Pattern {
			for ; n > 0; n-- {
				rest = append([]*model.Pattern{node}, rest...)
			}
			if len(rest) == 0 {
				return model.PEmpty()
			}
			if len(rest) == 1 {
				return rest[0]
			}
			return model.PConcat(rest...)
		}
		switch {
		case f.Mod > 0:
			p = model.PStar(seq(f.Mod))
		case f.Max < 0:
			p = seq(f.Min, model.PStar(node))
		case f.Max > f.Min:
			opts := []*model.Pattern{}
			for n := f.Min; n < f.Max; n++ {
				opts = append(opts, model.POpt(node))
			}
			p = seq(f.Min, opts...)
		default:
			p = seq(f.Min)
		}
		ps = append(ps, p)
	}
	var p *model.Pattern
	switch {
	case len(ps) == 1:
		p = ps[0]
	case c.Covers:
		p = model.PAnd(ps...)
	default:
		p = model.PInter(ps...)
	}
	if c.Neg {
		p = model.PNot(p)
	}
	return &model.Grammar{Main: p}
}

func (c states) doc(items []stItem) []model.Tree {
	var ts []model.Tree
	for _, it := range items {
		if !c.Covers {
			ts = append(ts, model.Tree{L: model.LS(string(rune('a' + it.F))), C: []model.Tree{{L: model.LI(int64(it.V))}}})
			continue
		}
		n := model.Tree{L: model.LI(int64(it.V))}
		for i := range c.Fields {
			if it.F>>uint(i)&1 == 1 {
				n.C = append(n.C, model.Tree{L: model.LS(string(rune('a' + i)))})
			}
		}
		ts = append(ts, n)
	}
	return ts
}

func (c states) want(items []stItem) bool {
	res := true
	if c.Covers {
		all := 0
		for _, it := range items {
			all |= it.F
		}
		for i, f := range c.Fields {
			res = res && (all>>uint(i)&1 == 1) != f.Neg
		}
		return res != c.Neg
	}
	counts := make([]int, 64)
	for _, it := range items {
		counts[it.F]++
		res = res && it.F < len(c.Fields) && (c.Fields[it.F].Val == 0 || c.Fields[it.F].Val == it.V)
	}
	for i, f := range c.Fields {
		n := counts[i]
		if f.Mod > 0 {
			res = res && n%f.Mod == 0
		} else {
			res = res && n >= f.Min && (f.Max < 0 || n <= f.Max)
		}
	}
	return res != c.Neg
}

func genStates(t T) states {
	c := states{Covers: gen.Chance(t, 1, 3), Neg: gen.Chance(t, 1, 6)}
	k := 2 + gen.N(t, 8)
	if gen.Chance(t, 1, 2) {
		k = 7 + gen.N(t, 4)
	}
	total := 1
	for i := 0; i < k && total < 3000; i++ {
		f := stField{Neg: gen.Chance(t, 1, 6)}
		switch gen.W(t, 3, 3, 2, 3, 2) {
		case 0:
			f.Min, f.Max = 1, 1
		case 1:
			f.Max = 1
		case 2:
			f.Min, f.Max = gen.N(t, 2), -1
		case 3:
			f.Mod = 2 + gen.N(t, 4)
		case 4:
			f.Min = gen.N(t, 3)
			f.Max = f.Min + gen.N(t, 3)
		}
		if gen.Chance(t, 1, 3) {
			f.Val = 1 + gen.N(t, 3)
		}
		total *= max(2, f.Mod, f.Max+1)
		c.Fields = append(c.Fields, f)
	}
	k = len(c.Fields)
	for n := gen.Pick(t, 2, 10, 40, 120, 400); n > 0; n-- {
		var items []stItem
		if c.Covers {
			for m := gen.N(t, gen.Pick(t, 3, 10)); m > 0; m-- {
				it := stItem{F: gen.N(t, 1<<uint(k)), V: gen.N(t, 2)}
				if gen.Chance(t, 1, 2) {
					it.F &= gen.N(t, 1<<uint(k))
				}
				for i, f := range c.Fields {
					if f.Neg && !gen.Chance(t, 1, 12) {
						it.F &^= 1 << uint(i)
					}
				}
				items = append(items, it)
			}
		} else {
			wrong := gen.Chance(t, 1, 3)
			for i, f := range c.Fields {
				n := f.Min
				switch {
				case f.Mod > 0:
					n = f.Mod * gen.N(t, 3)
				case f.Max < 0:
					n += gen.N(t, 4)
				case f.Max > f.Min:
					n += gen.N(t, f.Max-f.Min+1)
				}
				if wrong && gen.Chance(t, 1, 2*k) {
					n = max(0, n+gen.Pick(t, -1, 1))
				}
				for ; n > 0; n-- {
					it := stItem{F: i, V: gen.Pick(t, 1, 2, 3)}
					if f.Val > 0 && !(wrong && gen.Chance(t, 1, 4*k)) {
						it.V = f.Val
					}
					items = append(items, it)
				}
			}
			if wrong && gen.Chance(t, 1, 8) {
				items = append(items, stItem{F: k})
			}
			for i := len(items) - 1; i > 0; i-- {
				j := gen.N(t, i+1)
				items[i], items[j] = items[j], items[i]
			}
		}
		c.Docs = append(c.Docs, items)
	}
	return c
}

func runStates(c states, o *core.Obs) error {
	if len(c.Fields) == 0 {
		return nil
	}
	g := c.grammar()
	v, err := engMem.prep(g.ToAST())
	if err != nil {
		return errf("cannot prepare %s: %v", g.ToAST(), err)
	}
	yes := 0
	for i, items := range c.Docs {
		doc := c.doc(items)
		want := c.want(items)
		if want {
			yes++
		}
		got, err := v(model.NewTreeParser(doc))
		if err != nil || got != want {
			return errf("document %d: want %v, got %v, %v\ngrammar: %s\ndocument: %s", i, want, got, err, g.ToAST(), model.ForestString(doc))
		}
		if i%16 == 7 {
			got, err := engIntern.once(g, doc)
			if err != nil || got != want {
				return errf("without history, document %d: want %v, got %v, %v\ngrammar: %s\ndocument: %s", i, want, got, err, g.ToAST(), model.ForestString(doc))
			}
		}
	}
	o.NonTrivialIf(len(c.Docs) > 1 && yes > 0 && yes < len(c.Docs))
	o.LabelIf(len(c.Docs) >= 40, "at least 40 documents")
	o.LabelIf(len(c.Fields) >= 7, "at least 7 fields")
	o.Sample("%s on %d documents, %d of them valid", g.ToAST(), len(c.Docs), yes)
	return nil
}

func (e engine) once(g *model.Grammar, ts []model.Tree) (bool, error) {
	v, err := e.prep(g.ToAST())
	if err != nil {
		return false, err
	}
	return v(model.NewTreeParser(ts))
}

func init() {
	core.Register(core.Spec{Prop: "V03", Name: "states", Quick: 3000, Thorough: 150000, Rule: "an interleave of up to 10 counted fields in any order, or an intersection of up to 10 names that must occur somewhere, with thousands of reachable states, and a history of up to 400 documents on one validator; the verdict by counting; non-trivial: some of the documents are valid and some are not"},
		genStates, runStates)
}
