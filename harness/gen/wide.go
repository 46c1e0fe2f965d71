package gen

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// WConf bounds a wide grammar.
type WConf struct {
	Max   int  // parts
	Inter int  // interleaved parts; 0: none
	Conds bool // many different conditions on one label
}

// Wide draws a grammar with an operator of up to hundreds of operands that are all tried on the same nodes.
func Wide(t *rapid.T, c WConf) (*model.Grammar, []*model.Pattern) {
	n := min(c.Max, Pick(t, 5, 8, 9, 12, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 66, 70, 96, 127, 128, 129, 130, 200))
	op := Pick(t, "or", "or", "and", "concat", "star", "nots", "inter", "holds", "deep")
	if op == "inter" {
		if c.Inter == 0 {
			op = "or"
		}
		n = min(n, c.Inter)
	}
	g := &model.Grammar{}
	content := N(t, 7)
	names := N(t, 4)
	part := func(i int) *model.Pattern {
		nm := model.NLit(model.LS("a"))
		switch {
		case names == 1 && c.Conds:
			nm = model.NLit(model.LS(fmt.Sprint("n", i)))
		case names == 2:
			nm = Pick(t, nm, model.NAny(), model.NExcept(model.NLit(model.LS("b"))), model.NChoice(nm, model.NLit(model.LS("b"))))
		case names == 3 && i%5 == 4:
			nm = model.NLit(model.LS("b"))
		}
		k := content
		if Chance(t, 1, 8) {
			k = N(t, 7)
		}
		lit := func(s string) *model.Name { return model.NLit(model.LS(fmt.Sprint(s, i))) }
		if !c.Conds { // few conditions, many patterns
			bits := func(y, z *model.Pattern) *model.Pattern {
				var ps []*model.Pattern
				for x := i + 1; x > 0; x /= 2 {
					if x%2 == 1 {
						ps = append(ps, y)
					} else {
						ps = append(ps, z)
					}
				}
				return many(model.PConcat, ps)
			}
			y, z := model.PNode(model.NLit(model.LS("y")), model.PAny()), model.PNode(model.NLit(model.LS("z")), model.PAny())
			var p *model.Pattern
			switch k {
			case 0, 1:
				p = bits(y, z)
			case 2:
				p = model.PConcat(bits(y, z), model.PAny())
			case 3:
				p = bits(model.PStar(y), z)
			case 4:
				p = bits(y, model.POpt(z))
			case 5:
				p = model.PConcat(model.PAny(), bits(y, z))
			default:
				r := fmt.Sprint("w", i)
				g.Decls = append(g.Decls, model.Decl{Name: r, P: bits(y, z)})
				p = model.PRef(r)
			}
			return model.PNode(nm, p)
		}
		var p *model.Pattern
		switch k {
		case 0:
			p = model.PLeaf(model.Fn("b", "eq", model.Var("s"), model.Const(model.LS(fmt.Sprint("v", i)))))
		case 1:
			p = model.PNode(lit("c"), model.PAny())
		case 2:
			p = model.PConcat(model.PNode(model.NLit(model.LS("x")), model.PAny()), model.PNode(lit("y"), model.PAny()))
		case 3:
			p = model.PLeaf(model.Fn("b", Pick(t, "eq", "eq", "ge"), model.Var("i"), model.Const(model.LI(int64(i)))))
		case 4:
			p = model.PStar(model.PNode(lit("c"), model.PEmpty()))
		case 5:
			p = model.POpt(model.PNode(lit("c"), model.PAny()))
		default:
			r := fmt.Sprint("w", i)
			g.Decls = append(g.Decls, model.Decl{Name: r, P: model.PNode(lit("c"), model.PAny())})
			p = model.PRef(r)
		}
		return model.PNode(nm, p)
	}
	ps := make([]*model.Pattern, n)
	for i := range ps {
		ps[i] = part(i)
	}
	for i := len(ps) - 1; i > 0 && Chance(t, 9, 10); i-- {
		j := N(t, i+1)
		ps[i], ps[j] = ps[j], ps[i]
	}
	parts := ps
	each := func(f func(*model.Pattern) *model.Pattern) []*model.Pattern {
		res := make([]*model.Pattern, len(ps))
		for i, p := range ps {
			res[i] = f(p)
		}
		return res
	}
	switch op {
	case "or":
		g.Main = model.POr(ps...)
		if Chance(t, 1, 3) {
			g.Main = model.PConcat(g.Main, g.Main)
		}
	case "and":
		g.Main = model.PAnd(each(func(p *model.Pattern) *model.Pattern { return model.PNot(p) })...)
	case "concat":
		g.Main = model.PConcat(each(func(p *model.Pattern) *model.Pattern {
			if Chance(t, 1, 4) {
				return p
			}
			return model.POpt(p)
		})...)
	case "star":
		g.Main = model.PStar(model.POr(ps...))
	case "nots":
		g.Main = model.PNot(model.POr(ps...))
	case "inter":
		g.Main = model.PInter(each(func(p *model.Pattern) *model.Pattern { return model.POpt(p) })...)
	case "holds": // every part from one on has to be there
		i := N(t, len(ps))
		ps = ps[i:min(len(ps), i+8)]
		hs := each(func(p *model.Pattern) *model.Pattern { return model.PContains(p) })
		g.Main = model.PAnd(append(hs, model.PAny())...)
	default:
		g.Main = model.PNode(model.NLit(model.LS("in")), model.POr(ps...))
		if Chance(t, 1, 2) {
			g.Main = model.PStar(g.Main)
		}
	}
	return g, parts
}

// WideDoc draws a document for a wide grammar and its parts.
func WideDoc(t *rapid.T, g *model.Grammar, parts []*model.Pattern, maxWidth int) []model.Tree {
	var ts []model.Tree
	if Chance(t, 1, 2) {
		ts = Sample(t, g, maxWidth)
	} else {
		for i := Pick(t, 1, 1, 1, 2, 2, 3, 6); i > 0; i-- {
			s := &sampler{t, g, 24, maxWidth}
			ts = append(ts, s.sample(parts[N(t, len(parts))])...)
		}
		if Chance(t, 1, 4) {
			ts = []model.Tree{{L: model.LS("in"), C: ts}}
		}
	}
	if Chance(t, 1, 3) {
		ts = Mutate(t, ts)
	}
	return Limit(ts, maxWidth)
}
