package gen

import (
	"pgregory.net/rapid"

	"verif/harness/model"
)

// DConf tunes Describe.
type DConf struct {
	Types   string // the types that values may be compared as, in this order of preference; default "iudbsy"
	NoIndex bool   // integer labels are not named
	Wrong   int    // one in so many parts is wrong (0: none)
	Wide    bool   // lists of any length, without interleaving more than two parts
	NoErr   bool   // no expressions that can fail
	Flat    bool   // no intersections, complements and contains
}

// Describe draws a pattern that is made from a forest and matches it, unless wrong parts are allowed.
func Describe(t *rapid.T, c DConf, ts []model.Tree) *model.Pattern {
	if c.Types == "" {
		c.Types = "iudbsy"
	}
	return c.forest(t, ts, true)
}

func (c DConf) wrong(t *rapid.T) bool { return c.Wrong > 0 && Chance(t, 1, c.Wrong) }

func (c DConf) view(l model.Label) (string, model.Label) {
	for _, r := range c.Types {
		switch {
		case r == 'i' && l.I != nil:
			return "i", model.Label{I: l.I}
		case r == 'u' && l.U != nil:
			return "u", model.Label{U: l.U}
		case r == 'd' && l.D != nil:
			return "d", model.Label{D: l.D}
		case r == 'b' && l.B != nil:
			return "b", model.Label{B: l.B}
		case r == 's' && l.S != nil:
			return "s", model.Label{S: l.S}
		case r == 'y' && l.Y != nil:
			return "y", model.Label{Y: l.Y}
		}
	}
	return "", model.Label{}
}

func (c DConf) name(t *rapid.T, l model.Label) *model.Name {
	typ, v := c.view(l)
	if typ == "" || typ != "s" && c.NoIndex || typ == "d" && *v.D != *v.D {
		return model.NAny()
	}
	other := model.NLit(model.LS(Pick(t, "zz", "a", "B")))
	if typ == "i" && Chance(t, 1, 2) {
		other = model.NLit(model.LI(*v.I + 1))
	}
	if other.Matches(l) {
		other = model.NLit(model.LS("other"))
	}
	if c.wrong(t) {
		return other
	}
	switch W(t, 8, 3, 2, 2) {
	case 1:
		return model.NAny()
	case 2:
		return model.NChoice(other, model.NLit(v))
	case 3:
		return model.NExcept(other)
	}
	return model.NLit(v)
}

func (c DConf) value(t *rapid.T, l model.Label) *model.Pattern {
	typ, v := c.view(l)
	if typ == "" {
		return model.PAny()
	}
	va, k := model.Var(typ), model.Const(v)
	if c.wrong(t) {
		return model.PLeaf(model.Fn("b", "ne", va, k))
	}
	if typ == "d" && *v.D != *v.D { // not a number
		return model.PLeaf(model.Fn("b", "type", va))
	}
	switch W(t, 6, 2, 2, 2) {
	case 1:
		return model.PLeaf(model.Fn("b", "type", va))
	case 2:
		if typ == "s" && c.NoErr {
			break
		}
		if typ == "s" {
			s := string(*v.S)
			return model.PLeaf(model.Fn("b", Pick(t, "contains", "hasPrefix", "hasSuffix"), va, model.Const(model.LS(Pick(t, s, "")))))
		}
		if typ != "b" {
			return model.PLeaf(model.Fn("b", Pick(t, "le", "ge"), va, k))
		}
	case 3:
		return model.PAny()
	}
	return model.PLeaf(model.Fn("b", "eq", va, k))
}

func (c DConf) node(t *rapid.T, x model.Tree) *model.Pattern {
	if x.Leaf {
		return c.value(t, x.L)
	}
	if Chance(t, 1, 10) {
		return model.PNode(c.name(t, x.L), model.PAny())
	}
	return model.PNode(c.name(t, x.L), c.forest(t, x.C, false))
}

func many(f func(...*model.Pattern) *model.Pattern, ps []*model.Pattern) *model.Pattern {
	if len(ps) == 1 {
		return ps[0]
	}
	return f(ps...)
}

func (c DConf) forest(t *rapid.T, ts []model.Tree, top bool) *model.Pattern {
	if len(ts) == 0 {
		return Pick(t, model.PEmpty(), model.PAny())
	}
	all := func() []*model.Pattern {
		ps := make([]*model.Pattern, len(ts))
		for i := range ts {
			ps[i] = c.node(t, ts[i])
		}
		return ps
	}
	concat := func() *model.Pattern { return many(model.PConcat, all()) }
	if len(ts) == 1 && Chance(t, 1, 2) {
		return c.node(t, ts[0])
	}
	i := N(t, len(ts))
	w := []int{6, 4, 4, 3, 2, 2, 2, 2, 2}
	if c.Flat {
		w[2], w[4], w[5], w[7] = 0, 0, 0, 0
	}
	if top {
		w[3] = 1
	}
	switch W(t, w...) {
	case 1: // interleave two or three groups
		n := 2
		if !c.Wide && len(ts) < 6 {
			n += N(t, 2)
		}
		groups := make([][]*model.Pattern, n)
		for _, p := range all() {
			g := N(t, n)
			groups[g] = append(groups[g], p)
		}
		var ps []*model.Pattern
		for _, g := range groups {
			if len(g) > 0 {
				ps = append(ps, many(model.PConcat, g))
			}
		}
		return many(model.PInter, ps)
	case 2:
		return model.PContains(c.node(t, ts[i]))
	case 3:
		ps := all()
		if len(ps) > 8 {
			ps = append(ps[:6:6], model.PAny())
		}
		return model.PStar(many(model.POr, ps))
	case 4:
		return model.PAnd(model.PContains(c.node(t, ts[i])), concat())
	case 5:
		x := model.CloneForest(ts)
		x[N(t, len(x))].L = model.LS("zzz")
		y := c
		y.Wrong = 0
		return model.PNot(model.PAnd(concat(), y.literal(x)))
	case 6:
		return model.POr(concat(), model.PConcat(c.node(t, ts[i]), model.PEmpty()))
	case 7:
		return model.PNot(model.PNot(concat()))
	case 8:
		ps := make([]*model.Pattern, 0, i+2)
		for j := 0; j <= i; j++ {
			ps = append(ps, c.node(t, ts[j]))
		}
		return model.PConcat(append(ps, model.PAny())...)
	}
	return concat()
}

// literal is the pattern of exactly the names of a forest, down to one level.
func (c DConf) literal(ts []model.Tree) *model.Pattern {
	ps := make([]*model.Pattern, len(ts))
	for i, x := range ts {
		n := model.NAny()
		if x.L.S != nil {
			n = model.NLit(model.LS(string(*x.L.S)))
		}
		ps[i] = model.PNode(n, model.PAny())
	}
	return many(model.PConcat, ps)
}
