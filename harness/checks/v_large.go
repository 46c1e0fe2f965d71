package checks

import (
	"errors"
	"fmt"
	"runtime/debug"
	"slices"
	"time"

	"github.com/katydid/katydid/parser"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// big describes a document made of many copies of small ones.
type big struct {
	Pool [][]model.Tree `json:"pool"`
	Seq  []run          `json:"seq"`
	Wrap bool           `json:"wrap,omitempty"` // every copy is the content of a node
	Deep int            `json:"deep,omitempty"` // the whole is nested this deep
}

type run struct {
	D int `json:"d"`
	N int `json:"n"`
}

const sepName, deepName, endName = "sep", "deep", "end"

func sep() *model.Name  { return model.NLit(model.LS(sepName)) }
func deep() *model.Name { return model.NLit(model.LS(deepName)) }
func end() *model.Name  { return model.NLit(model.LS(endName)) }

func (b big) forest() []model.Tree {
	var ts []model.Tree
	for _, r := range b.Seq {
		for i := 0; i < r.N; i++ {
			if b.Wrap {
				ts = append(ts, model.Tree{L: model.LS(sepName), C: b.Pool[r.D]})
			} else {
				ts = append(ts, b.Pool[r.D]...)
			}
		}
	}
	if b.Deep > 0 {
		ts = []model.Tree{{L: model.LS(endName), C: ts}}
		for i := 0; i < b.Deep; i++ {
			ts = []model.Tree{{L: model.LS(deepName), C: ts}}
		}
	}
	return ts
}

func genSeq(t T, pool int) []run {
	var rs []run
	n := 1 + gen.N(t, 6)
	for i := 0; i < n; i++ {
		rs = append(rs, run{gen.N(t, pool), gen.Pick(t, 1, 2, 3, 10, 50, 150)})
	}
	return rs
}

// timed gives up on documents that take an engine too long (which is no verdict on it).
type timed struct {
	parser.Interface
	until time.Time
	calls int
}

var errSlow = errors.New("gave up")

func (p *timed) Next() error {
	p.calls++
	if p.calls%16 == 0 && time.Now().After(p.until) {
		return errSlow
	}
	return p.Interface.Next()
}

func verdict(e engine, g *model.Grammar, ts []model.Tree, wait time.Duration) (bool, error) {
	v, err := e.prep(g.ToAST())
	if err != nil {
		return false, err
	}
	return v(&timed{model.NewTreeParser(ts), time.Now().Add(wait), 0})
}

func largeEngines(ts []model.Tree) []engine {
	if model.Size(ts) < 60 {
		return []engine{engMem, engIntern, engInterp}
	}
	return []engine{engMem, engIntern}
}

// ---------------------------------------------------------------- laws

type largeCase struct {
	G    *model.Grammar `json:"g"`
	H    *model.Grammar `json:"h"` // G rewritten
	K    *model.Grammar `json:"k"` // another grammar
	Laws []string       `json:"laws"`
	Doc  big            `json:"doc"`
}

type law struct {
	name string
	on   string // kind of pattern, or empty for all
	f    func(t T, p *model.Pattern) *model.Pattern
}

func small(t T) *model.Pattern {
	return gen.Pattern(t, gen.GConf{Depth: 1, OnlyStrings: true, NoRefs: true, NoInter: true, Expr: gen.EConf{Depth: 0}}, 1)
}

func cp(p *model.Pattern) *model.Pattern { return gen.ClonePattern(p) }

func cps(ps []*model.Pattern) []*model.Pattern {
	res := make([]*model.Pattern, len(ps))
	for i := range ps {
		res[i] = cp(ps[i])
	}
	return res
}

func opOf(k string, ps ...*model.Pattern) *model.Pattern { return &model.Pattern{K: k, A: ps} }

func regroup(t T, p *model.Pattern) *model.Pattern {
	if len(p.A) < 3 {
		return p
	}
	i := 1 + gen.N(t, len(p.A)-1)
	group := func(ps []*model.Pattern) *model.Pattern {
		if len(ps) == 1 {
			return ps[0]
		}
		return opOf(p.K, ps...)
	}
	return opOf(p.K, group(p.A[:i]), group(p.A[i:]))
}

func shuffle(t T, p *model.Pattern) *model.Pattern {
	as := append([]*model.Pattern{}, p.A...)
	for i := len(as) - 1; i > 0; i-- {
		j := gen.N(t, i+1)
		as[i], as[j] = as[j], as[i]
	}
	return opOf(p.K, as...)
}

// flattenOnce merges nested operands of the same associative operator.
func flattenOnce(t T, p *model.Pattern) *model.Pattern {
	var as []*model.Pattern
	for _, a := range p.A {
		if a.K == p.K {
			as = append(as, a.A...)
		} else {
			as = append(as, a)
		}
	}
	return opOf(p.K, as...)
}

// over distributes an operator over one of its alternatives.
func over(t T, p *model.Pattern) *model.Pattern {
	for i, a := range p.A {
		if a.K != "or" {
			continue
		}
		var alts []*model.Pattern
		for _, x := range a.A {
			as := cps(p.A)
			as[i] = cp(x)
			alts = append(alts, opOf(p.K, as...))
		}
		return model.POr(alts...)
	}
	return p
}

var laws []law

func init() {
	for _, k := range []string{"or", "and", "concat", "inter"} {
		laws = append(laws, law{"assoc-" + k, k, regroup}, law{"flatten-" + k, k, flattenOnce})
		if k != "concat" {
			laws = append(laws, law{"commute-" + k, k, shuffle})
		}
		if k != "or" {
			laws = append(laws, law{"distribute-" + k, k, over})
		}
	}
	none := func() *model.Pattern { return model.PNot(model.PAny()) }
	laws = append(laws,
		law{"de-morgan-or", "or", func(t T, p *model.Pattern) *model.Pattern {
			var as []*model.Pattern
			for _, a := range p.A {
				as = append(as, model.PNot(a))
			}
			return model.PNot(model.PAnd(as...))
		}},
		law{"de-morgan-and", "and", func(t T, p *model.Pattern) *model.Pattern {
			var as []*model.Pattern
			for _, a := range p.A {
				as = append(as, model.PNot(a))
			}
			return model.PNot(model.POr(as...))
		}},
		law{"double-not", "", func(t T, p *model.Pattern) *model.Pattern { return model.PNot(model.PNot(p)) }},
		law{"idempotent-or", "", func(t T, p *model.Pattern) *model.Pattern { return model.POr(p, cp(p)) }},
		law{"idempotent-and", "", func(t T, p *model.Pattern) *model.Pattern { return model.PAnd(p, cp(p)) }},
		law{"or-none", "", func(t T, p *model.Pattern) *model.Pattern { return model.POr(p, none()) }},
		law{"and-any", "", func(t T, p *model.Pattern) *model.Pattern { return model.PAnd(model.PAny(), p) }},
		law{"concat-empty", "", func(t T, p *model.Pattern) *model.Pattern { return model.PConcat(p, model.PEmpty()) }},
		law{"empty-concat", "", func(t T, p *model.Pattern) *model.Pattern { return model.PConcat(model.PEmpty(), p) }},
		law{"inter-empty", "", func(t T, p *model.Pattern) *model.Pattern { return model.PInter(p, model.PEmpty()) }},
		law{"absorb-or", "", func(t T, p *model.Pattern) *model.Pattern { return model.POr(p, model.PAnd(cp(p), small(t))) }},
		law{"absorb-and", "", func(t T, p *model.Pattern) *model.Pattern { return model.PAnd(model.POr(small(t), p), cp(p)) }},
		law{"or-all", "any", func(t T, p *model.Pattern) *model.Pattern { return model.POr(small(t), p) }},
		law{"excluded-middle", "any", func(t T, p *model.Pattern) *model.Pattern {
			q := small(t)
			return model.POr(q, model.PNot(cp(q)))
		}},
		law{"any-nodes", "any", func(t T, p *model.Pattern) *model.Pattern {
			return model.PStar(model.PNode(model.NAny(), model.PAny()))
		}},
		law{"any-any", "any", func(t T, p *model.Pattern) *model.Pattern { return model.PConcat(p, cp(p)) }},
		law{"star-unfold", "star", func(t T, p *model.Pattern) *model.Pattern {
			return model.POr(model.PEmpty(), model.PConcat(cp(p.A[0]), p))
		}},
		law{"star-unfold-end", "star", func(t T, p *model.Pattern) *model.Pattern {
			return model.POpt(model.PConcat(p, cp(p.A[0])))
		}},
		law{"star-star", "star", func(t T, p *model.Pattern) *model.Pattern { return model.PStar(p) }},
		law{"star-empty", "star", func(t T, p *model.Pattern) *model.Pattern {
			return model.PStar(model.POr(p.A[0], model.PEmpty()))
		}},
		law{"star-twice", "star", func(t T, p *model.Pattern) *model.Pattern { return model.PConcat(p, cp(p)) }},
		law{"star-pairs", "star", func(t T, p *model.Pattern) *model.Pattern {
			return model.PConcat(model.PStar(model.PConcat(p.A[0], cp(p.A[0]))), model.POpt(cp(p.A[0])))
		}},
		law{"opt", "opt", func(t T, p *model.Pattern) *model.Pattern { return model.POr(model.PEmpty(), p.A[0]) }},
		law{"contains", "contains", func(t T, p *model.Pattern) *model.Pattern {
			return model.PConcat(model.PAny(), p.A[0], model.PAny())
		}},
		law{"contains-or", "contains", func(t T, p *model.Pattern) *model.Pattern {
			if p.A[0].K != "or" {
				return p
			}
			var as []*model.Pattern
			for _, a := range p.A[0].A {
				as = append(as, model.PContains(a))
			}
			return model.POr(as...)
		}},
		law{"node-or", "node", func(t T, p *model.Pattern) *model.Pattern {
			if p.A[0].K != "or" {
				return p
			}
			var as []*model.Pattern
			for _, a := range p.A[0].A {
				as = append(as, model.PNode(gen.CloneName(p.N), a))
			}
			return model.POr(as...)
		}},
		law{"node-and", "node", func(t T, p *model.Pattern) *model.Pattern {
			if p.A[0].K != "and" {
				return p
			}
			var as []*model.Pattern
			for _, a := range p.A[0].A {
				as = append(as, model.PNode(gen.CloneName(p.N), a))
			}
			return model.PAnd(as...)
		}},
		law{"node-choice", "node", func(t T, p *model.Pattern) *model.Pattern {
			if p.N.K != "choice" {
				return p
			}
			var as []*model.Pattern
			for _, a := range p.N.A {
				as = append(as, model.PNode(gen.CloneName(a), cp(p.A[0])))
			}
			return model.POr(as...)
		}},
		law{"node-any-name", "node", func(t T, p *model.Pattern) *model.Pattern {
			if p.N.K != "any" {
				return p
			}
			n := gen.Name(t, gen.GConf{}, 1)
			return model.POr(model.PNode(n, p.A[0]), model.PNode(model.NExcept(gen.CloneName(n)), cp(p.A[0])))
		}},
		law{"node-not-not-name", "node", func(t T, p *model.Pattern) *model.Pattern {
			return model.PNode(model.NExcept(model.NExcept(p.N)), p.A[0])
		}},
		law{"not-node", "not", func(t T, p *model.Pattern) *model.Pattern {
			q := p.A[0]
			if q.K != "node" {
				return p
			}
			return model.POr(model.PNot(model.PNode(gen.CloneName(q.N), model.PAny())), model.PNode(q.N, model.PNot(q.A[0])))
		}},
	)
}

// rewrite applies laws at random places.
func rewrite(t T, g *model.Grammar, n, maxSize int) (*model.Grammar, []string) {
	h := &model.Grammar{Main: cp(g.Main)}
	for _, d := range g.Decls {
		h.Decls = append(h.Decls, model.Decl{Name: d.Name, P: cp(d.P)})
	}
	var names []string
	for i := 0; i < n; i++ {
		var all []*model.Pattern
		h.Walk(func(p *model.Pattern) { all = append(all, p) })
		if len(all) > maxSize {
			break
		}
		x := all[gen.N(t, len(all))]
		switch gen.W(t, 12, 1, 1, 1, 1) {
		case 1: // name a part
			name := fmt.Sprintf("n%d", i)
			h.Decls = append(h.Decls, model.Decl{Name: name, P: &model.Pattern{K: x.K, N: x.N, E: x.E, Ref: x.Ref, A: x.A}})
			*x = *model.PRef(name)
			names = append(names, "name")
			continue
		case 2: // unfold a reference
			if x.K == "ref" {
				*x = *cp(h.Lookup(x.Ref))
				names = append(names, "unfold")
			}
			continue
		case 3: // an unused declaration, possibly equal to a part of the grammar
			name := fmt.Sprintf("u%d", i)
			p := small(t)
			if gen.Chance(t, 1, 2) {
				p = cp(x)
			}
			h.Decls = append(h.Decls, model.Decl{Name: name, P: p})
			names = append(names, "unused")
			continue
		case 4: // rename
			if len(h.Decls) > 0 {
				d := &h.Decls[gen.N(t, len(h.Decls))]
				to := fmt.Sprintf("%s_%d", gen.Pick(t, "a", "z", "m"), i)
				from := d.Name
				d.Name = to
				h.Walk(func(p *model.Pattern) {
					if p.K == "ref" && p.Ref == from {
						p.Ref = to
					}
				})
				names = append(names, "rename")
			}
			continue
		}
		var can []law
		for _, l := range laws {
			if l.on == x.K {
				can = append(can, l, l)
			} else if l.on == "" {
				can = append(can, l)
			}
		}
		l := can[gen.N(t, len(can))]
		y := l.f(t, &model.Pattern{K: x.K, N: x.N, E: x.E, Ref: x.Ref, A: x.A})
		*x = *y
		names = append(names, l.name)
	}
	return h, names
}

// genLarge draws a grammar that holds for long documents now and then.
func genLarge(t T) *model.Grammar {
	var g *model.Grammar
	for d := 3; d > 0; d-- {
		c := gen.GConf{Depth: d, Decls: 1, OnlyStrings: true, MaxInter: 3, Names: []string{"a", "b", "c"}, Expr: gen.EConf{Depth: 0}}
		g = gen.Grammar(t, c)
		if g.Size() <= 14 {
			break
		}
	}
	switch gen.W(t, 2, 4, 1, 1, 1) {
	case 1:
		g.Main = model.PStar(g.Main)
	case 2:
		g.Main = model.PConcat(model.PStar(g.Main), model.PAny())
	case 3:
		g.Main = model.PConcat(model.PAny(), model.PStar(g.Main))
	case 4:
		g.Main = model.POr(g.Main, model.PStar(model.PNode(model.NAny(), small(t))))
	}
	return g
}

func genLargeLaw(t T) largeCase {
	c := largeCase{G: genLarge(t)}
	c.H, c.Laws = rewrite(t, c.G, 1+gen.N(t, 5), 40)
	c.K = &model.Grammar{Main: gen.Pick(t, c.G.Main, genLarge(t).Main)}
	if hasRef(c.K.Main) {
		c.K.Main = small(t)
	}
	for i := 1 + gen.N(t, 3); i > 0; i-- {
		c.Doc.Pool = append(c.Doc.Pool, gen.Doc(t, c.G, 4))
	}
	c.Doc.Seq = genSeq(t, len(c.Doc.Pool))
	return c
}

func hasRef(p *model.Pattern) bool {
	r := false
	p.Walk(func(x *model.Pattern) { r = r || x.K == "ref" })
	return r
}

// under puts the grammar's main pattern under a name, so that another can take its place.
func under(g *model.Grammar, name string) []model.Decl {
	var ds []model.Decl
	add := func(n string, p *model.Pattern) {
		p = cp(p)
		p.Walk(func(x *model.Pattern) {
			if x.K == "ref" && x.Ref == "main" {
				x.Ref = name
			}
		})
		ds = append(ds, model.Decl{Name: n, P: p})
	}
	add(name, g.Main)
	for _, d := range g.Decls {
		add(d.Name, d.P)
	}
	return ds
}

func runLargeLaw(c largeCase, o *core.Obs) error {
	ts := c.Doc.forest()
	for _, g := range []*model.Grammar{c.G, c.H, c.K} {
		for _, p := range c.Doc.Pool {
			if mayErr, amb := g.ExprStatus(p); mayErr || amb {
				o.Label("may-err-skipped")
				return nil
			}
		}
	}
	wait := 3 * time.Second
	mg, mh := model.NewMatcher(c.G), model.NewMatcher(c.H)
	for _, p := range c.Doc.Pool { // the laws are laws of the model
		if mg.Match(p) != mh.Match(p) {
			return &core.HarnessError{Msg: fmt.Sprintf("a law (%v) is wrong on %s: %s is not %s", c.Laws, model.ForestString(p), show(c.G), show(c.H))}
		}
	}
	// the interleaved parts that a rewrite multiplies can make an engine's states explode
	if gen.Weight(c.H) > 8 {
		o.Label("heavy-skipped")
		return nil
	}
	gd, kd := under(c.G, "left"), under(c.K, "right")
	ds := append(gd, kd...)
	ref := model.PRef
	gs := []*model.Grammar{c.G, c.H, c.K,
		{Main: model.PNot(ref("left")), Decls: ds},
		{Main: model.PAnd(ref("left"), ref("right")), Decls: ds},
		{Main: model.POr(ref("left"), ref("right")), Decls: ds},
		{Main: model.PAnd(ref("left"), model.PNot(ref("right"))), Decls: ds},
		{Main: model.POr(model.PNot(ref("right")), ref("left")), Decls: ds},
	}
	for _, e := range largeEngines(ts) {
		vs := make([]bool, len(gs))
		for i, g := range gs {
			v, err := verdict(e, g, ts, wait)
			if err != nil && errors.Is(err, errSlow) {
				o.Label("slow-skipped")
				return nil
			}
			if err != nil {
				return errf("%s: %v\ngrammar: %s", e.name, err, show(g))
			}
			vs[i] = v
		}
		a, b := vs[0], vs[2]
		for i, want := range []bool{a, a, b, !a, a && b, a || b, a && !b, !b || a} {
			if vs[i] != want {
				return errf("%s: the verdict on a document of %d nodes is %v, want %v, because it is %v for the left and %v for the right grammar (laws: %v)\ngrammar: %s\nleft: %s\nright: %s\ndocument: %v of %v",
					e.name, model.Size(ts), vs[i], want, a, b, c.Laws, show(gs[i]), show(c.G), show(c.K), c.Doc.Seq, c.Doc.Pool)
			}
		}
		o.LabelIf(a, "accepted")
		o.LabelIf(!a, "rejected")
		o.LabelIf(a != b, "operands-differ")
	}
	for _, l := range c.Laws {
		o.Label(l)
	}
	n := model.Size(ts)
	o.LabelIf(n >= 100, "100-nodes")
	o.LabelIf(n >= 500, "500-nodes")
	o.NonTrivialIf(n >= 30 && len(c.Laws) > 0)
	o.Sample("%s rewritten (%v) to %s on %d nodes", show(c.G), c.Laws, show(c.H), n)
	return nil
}

// ---------------------------------------------------------------- composition

// compCase is two grammars over small documents, whose verdicts the model knows, and a composition of them over a large one.
type compCase struct {
	G   *model.Grammar `json:"g"`
	K   *model.Grammar `json:"k"`
	Doc big            `json:"doc"`
	// Only chooses compositions for a long document; empty: all
	Only []int `json:"only,omitempty"`
}

// genLong draws a few compositions over a document of tens of thousands of parts.
func genLong(t T) compCase {
	c := genComp(t)
	for i := range c.Doc.Seq {
		c.Doc.Seq[i].N = gen.Pick(t, 1, 2, 1000, 5000, 20000, 20000)
	}
	c.Doc.Deep = min(c.Doc.Deep, 1)
	for i := 2; i > 0; i-- {
		c.Only = append(c.Only, gen.N(t, 20))
	}
	return c
}

func runLong(c compCase, o *core.Obs) error {
	defer debug.SetMaxStack(debug.SetMaxStack(longStack))
	return runComp(c, o)
}

func genComp(t T) compCase {
	conf := gen.GConf{Depth: 1 + gen.N(t, 3), Decls: 1, OnlyStrings: true, MaxInter: 3, Names: []string{"a", "b"}, Expr: gen.EConf{Depth: 1}}
	c := compCase{G: gen.Grammar(t, conf)}
	for c.G.Size() > 20 && conf.Depth > 1 {
		conf.Depth--
		c.G = gen.Grammar(t, conf)
	}
	conf.Decls = 0
	conf.Depth = 2
	c.K = &model.Grammar{Main: gen.Pattern(t, conf, 2)}
	if c.K.Size() > 12 {
		c.K = &model.Grammar{Main: small(t)}
	}
	gen.Tame(c.K, 3)
	for i := 1 + gen.N(t, 4); i > 0; i-- {
		g := c.G
		if gen.Chance(t, 1, 3) {
			g = c.K
		}
		c.Doc.Pool = append(c.Doc.Pool, gen.Doc(t, g, 5))
	}
	c.Doc.Seq = genSeq(t, len(c.Doc.Pool))
	c.Doc.Wrap = true
	if gen.Chance(t, 1, 3) {
		c.Doc.Deep = gen.Pick(t, 1, 5, 40, 300)
	}
	return c
}

func runComp(c compCase, o *core.Obs) error {
	for _, g := range []*model.Grammar{c.G, c.K} {
		for _, p := range c.Doc.Pool {
			if mayErr, amb := g.ExprStatus(p); mayErr || amb {
				o.Label("may-err-skipped")
				return nil
			}
		}
		// the labels around the documents
		if mayErr, amb := g.ExprStatus([]model.Tree{{L: model.LS(sepName)}, {L: model.LS(deepName)}, {L: model.LS(endName)}}); mayErr || amb {
			o.Label("may-err-skipped")
			return nil
		}
	}
	mg, mk := model.NewMatcher(c.G), model.NewMatcher(c.K)
	var gp, kp []bool
	for _, p := range c.Doc.Pool {
		gp, kp = append(gp, mg.Match(p)), append(kp, mk.Match(p))
	}
	var gv, kv []bool // one verdict for each part of the document
	for _, r := range c.Doc.Seq {
		for i := 0; i < r.N; i++ {
			gv, kv = append(gv, gp[r.D]), append(kv, kp[r.D])
		}
	}
	count := func(f func(i int) bool) (n int) {
		for i := range gv {
			if f(i) {
				n++
			}
		}
		return
	}
	all := func(f func(i int) bool) bool { return count(f) == len(gv) }
	some := func(f func(i int) bool) bool { return count(f) > 0 }
	left := func(i int) bool { return gv[i] }
	right := func(i int) bool { return kv[i] }
	first, lastR := len(gv), -1 // the first left one, the last right one
	lefts, rights := 0, 0       // the lengths of the prefix of left ones and of the suffix of right ones
	for i := range gv {
		if gv[i] && first == len(gv) {
			first = i
		}
		if kv[i] {
			lastR = i
		}
		if gv[i] && lefts == i {
			lefts++
		}
		if kv[len(kv)-1-i] && rights == i {
			rights++
		}
	}
	split := lefts+rights >= len(gv) // a prefix of left ones and a suffix of right ones
	ordered := first < lastR         // a left one somewhere before a right one
	evens := len(gv)%2 == 0
	for i := range gv {
		if i%2 == 0 && !gv[i] || i%2 == 1 && !kv[i] {
			evens = false
		}
	}
	ref := model.PRef
	L := func() *model.Pattern { return model.PNode(sep(), ref("left")) }
	R := func() *model.Pattern { return model.PNode(sep(), ref("right")) }
	type comp struct {
		name string
		p    *model.Pattern
		want bool
	}
	star, contains, not, or, and, concat, any := model.PStar, model.PContains, model.PNot, model.POr, model.PAnd, model.PConcat, model.PAny
	last := len(gv) - 1
	comps := []comp{
		{"all", star(L()), all(left)},
		{"some", contains(L()), some(left)},
		{"none", not(contains(L())), !some(left)},
		{"all-by-none", not(contains(model.PNode(sep(), not(ref("left"))))), all(left)},
		{"some-somewhere", concat(any(), L(), any()), some(left)},
		{"both", and(contains(L()), contains(R())), some(left) && some(right)},
		{"either", or(contains(L()), contains(R())), some(left) || some(right)},
		{"each", star(or(L(), R())), all(func(i int) bool { return gv[i] || kv[i] })},
		{"each-both", star(model.PNode(sep(), and(ref("left"), ref("right")))), all(func(i int) bool { return gv[i] && kv[i] })},
		{"one-both", contains(and(L(), R())), some(func(i int) bool { return gv[i] && kv[i] })},
		{"split", concat(star(L()), star(R())), split},
		{"ordered", concat(any(), L(), any(), R(), any()), ordered},
		{"alternate", star(concat(L(), R())), evens},
		{"first", concat(L(), any()), gv[0]},
		{"last", concat(any(), L()), gv[last]},
		{"last-by-star", concat(star(model.PNode(model.NAny(), any())), L()), gv[last]},
		{"interleaved", model.PInter(star(L()), star(R())), all(func(i int) bool { return gv[i] || kv[i] })},
		{"interleaved-one", model.PInter(L(), star(R())), count(func(i int) bool { return !kv[i] && gv[i] }) <= 1 && all(func(i int) bool { return gv[i] || kv[i] }) && some(left)},
		{"implies", or(not(contains(L())), contains(R())), !some(left) || some(right)},
		{"optional", concat(model.POpt(L()), star(R())), false},
	}
	for i := range comps {
		if comps[i].name == "optional" { // at most the first one is not right
			w := all(right)
			if !w && gv[0] {
				w = true
				for j := 1; j < len(kv); j++ {
					w = w && kv[j]
				}
			}
			comps[i].want = w
		}
	}
	ds := append(under(c.G, "left"), under(c.K, "right")...)
	ts := c.Doc.forest()
	wait := 3 * time.Second
	if len(c.Only) > 0 {
		wait = 1500 * time.Millisecond
	}
	for i, cm := range comps {
		if len(c.Only) > 0 && !slices.Contains(c.Only, i) {
			continue
		}
		g := &model.Grammar{Main: cm.p, Decls: ds}
		if c.Doc.Deep > 0 {
			inner := model.Decl{Name: "inner", P: cm.p}
			g = &model.Grammar{Main: or(model.PNode(end(), ref("inner")), model.PNode(deep(), ref("main"))), Decls: append(append([]model.Decl{}, ds...), inner)}
		}
		engs := largeEngines(ts)
		if len(c.Only) > 0 {
			engs = []engine{engMem, engIntern, engInterp, engAuto}
		}
		for j, e := range engs {
			if len(c.Only) == 0 && j > 0 && model.Size(ts) > 300 && (i+len(gv))%4 != 0 {
				continue // the interning engine keeps nothing from one node to the next
			}
			got, err := verdict(e, g, ts, wait)
			if err != nil && errors.Is(err, errSlow) {
				o.Label("slow-skipped")
				continue
			}
			if errors.Is(err, errStates) {
				o.Label("too-many-states")
				continue
			}
			if err != nil || got != cm.want {
				return errf("%s: %s (%s) is %v, %v, want %v\ngrammar: %s\ndocument: %v of %v, left: %v, right: %v", e.name, cm.name, show(&model.Grammar{Main: cm.p}), got, err, cm.want, show(g), c.Doc.Seq, c.Doc.Pool, gp, kp)
			}
		}
		if cm.want {
			o.Label(cm.name)
		} else {
			o.Label("not-" + cm.name)
		}
	}
	n := model.Size(ts)
	o.LabelIf(n >= 100, "100-nodes")
	o.LabelIf(n >= 500, "500-nodes")
	o.LabelIf(n >= 10000, "10000-nodes")
	o.NonTrivialIf(n >= 30 && (some(left) && !all(left) || some(right) && !all(right)))
	o.Sample("%s and %s on %v of %v", show(c.G), show(c.K), c.Doc.Seq, c.Doc.Pool)
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "V10", Name: "laws", Quick: 4000, Thorough: 150000,
		Rule: "small random grammars rewritten by up to 5 laws at random places and combined with another grammar, on documents that repeat sampled ones up to thousands of nodes; verdicts of the rewritten grammar, the complement, intersection, union and difference follow from those of the operands; non-trivial: at least 30 nodes and a law applied"},
		genLargeLaw, runLargeLaw)
	core.Register(core.Spec{Prop: "V10", Name: "compose", Quick: 1500, Thorough: 60000,
		Rule: "20 compositions of two grammars over a list of up to hundreds of parts, possibly nested hundreds deep, whose verdicts follow from the model's verdict on each part; non-trivial: at least 30 nodes and some but not all parts match"},
		genComp, runComp)
	core.Register(core.Spec{Prop: "V10", Name: "long", Quick: 64, Thorough: 4000,
		Rule: "compositions of two grammars over lists of up to tens of thousands of parts, on a stack of 16 MB, which suffices unless the stack grows with every node; four engines, each gives up after 1.5 seconds; non-trivial: at least 30 nodes and some but not all parts match"},
		genLong, runLong)
}
