package gen

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// GConf tunes the grammar generator.
type GConf struct {
	Depth       int
	Decls       int // at most this many declarations besides main
	Expr        EConf
	OnlyStrings bool // names are string literals, any, exceptions and choices of them
	NoExcept    bool
	NoNot       bool
	NoInter     bool
	NoRefs      bool
	NoContains  bool
	Names       []string // pool of string names
	UnsafeRefs  bool     // references may be left recursive
	MaxInter    int      // bound on what is interleaved at once (see Tame); 0 is 5
	WildNames   bool     // literals of every type and value
	Collide     bool     // names, constants and references whose polynomial hashes are equal
}

func DefaultG() GConf {
	return GConf{Depth: 4, Decls: 2, Expr: EConf{Depth: 1}}
}

// Name draws a name expression.
func Name(t *rapid.T, c GConf, depth int) *model.Name {
	lit := func() *model.Name {
		if c.WildNames && Chance(t, 1, 2) {
			return model.NLit(Const(t, Type(t)))
		}
		if !c.OnlyStrings && Chance(t, 1, 5) {
			typ := Pick(t, "i", "u", "d", "b", "y", "s")
			return model.NLit(Small(t, typ))
		}
		pool := c.Names
		if len(pool) == 0 {
			pool = []string{"a", "b", "c"}
		}
		return model.NLit(model.LS(Pick(t, pool...)))
	}
	if depth <= 0 {
		if Chance(t, 1, 6) {
			return model.NAny()
		}
		return lit()
	}
	switch W(t, 10, 4, 2, 3) {
	case 1:
		return model.NAny()
	case 2:
		if c.NoExcept {
			return lit()
		}
		return model.NExcept(Name(t, c, depth-1))
	case 3:
		n := 2 + N(t, 2)
		ns := make([]*model.Name, n)
		for i := range ns {
			ns[i] = Name(t, c, depth-1)
		}
		return model.NChoice(ns...)
	}
	return lit()
}

// gctx is the position of a pattern while generating.
type gctx struct {
	decl    int  // index of the declaration being generated; -1 is main
	n       int  // number of declarations
	guarded bool // below a node
}

func declName(i int) string { return fmt.Sprintf("r%d", i) }

// Grammar draws a grammar; unless UnsafeRefs is set, it has no left recursion by construction: outside
// of a node a declaration refers only to later ones.
func Grammar(t *rapid.T, c GConf) *model.Grammar {
	n := 0
	if !c.NoRefs && c.Decls > 0 {
		n = N(t, c.Decls+1)
	}
	g := &model.Grammar{}
	g.Main = pattern(t, c, gctx{-1, n, false}, c.Depth)
	for i := 0; i < n; i++ {
		d := c.Depth - 1
		if d < 1 {
			d = 1
		}
		g.Decls = append(g.Decls, model.Decl{Name: declName(i), P: pattern(t, c, gctx{i, n, false}, d)})
	}
	if c.MaxInter == 0 {
		c.MaxInter = 5
	}
	Tame(g, c.MaxInter)
	if c.Collide {
		collide(t, g)
	}
	return g
}

// collide renames everything to strings that share their hashes (31 times the previous plus the next character).
func collide(t *rapid.T, g *model.Grammar) {
	to := map[string]string{"a": "Aa", "b": "BB", "c": "AaBB", "ab": "BBAa", "A": "AaAa", "": "BBBB"}
	if Chance(t, 1, 3) { // a list of two of these has the hash of a list of two others
		to = map[string]string{"a": "a", "b": "b", "c": "B", "ab": "A", "A": "c", "": "C"}
	}
	refs := map[string]string{"main": "main", "r0": "Aa", "r1": "BB"}
	if Chance(t, 1, 3) {
		refs = map[string]string{"main": "main", "r0": "r0", "r1": "qO"} // 31*'r'+'0' = 31*'q'+'O'
	}
	rename := func(l *model.Label) {
		if l != nil && l.S != nil {
			if s, ok := to[string(*l.S)]; ok {
				*l = model.LS(s)
			}
		}
		if l != nil && l.Y != nil {
			if s, ok := to[string(*l.Y)]; ok {
				*l = model.LY(s)
			}
		}
	}
	var name func(n *model.Name)
	name = func(n *model.Name) {
		rename(n.V)
		for _, a := range n.A {
			name(a)
		}
	}
	g.Walk(func(p *model.Pattern) {
		if p.N != nil {
			name(p.N)
		}
		if p.E != nil {
			p.E.Walk(func(e *model.Expr) {
				if e.K == "const" {
					rename(e.V)
				}
			})
		}
		if r, ok := refs[p.Ref]; ok && p.K == "ref" {
			p.Ref = r
		}
	})
	for i := range g.Decls {
		if r, ok := refs[g.Decls[i].Name]; ok {
			g.Decls[i].Name = r
		}
	}
}

// Pattern draws a pattern without references.
func Pattern(t *rapid.T, c GConf, depth int) *model.Pattern {
	return pattern(t, c, gctx{-1, 0, false}, depth)
}

func leafP(t *rapid.T, c GConf) *model.Pattern { return model.PLeaf(BoolExpr(t, c.Expr)) }

// valueOf draws the common content of a node: one value.
func node(t *rapid.T, c GConf, x gctx, depth int) *model.Pattern {
	x.guarded = true
	d := 1
	if Chance(t, 1, 5) {
		d = 2 + N(t, 2)
	}
	return model.PNode(Name(t, c, d), pattern(t, c, x, depth-1))
}

func pattern(t *rapid.T, c GConf, x gctx, depth int) *model.Pattern {
	ref := func() *model.Pattern {
		var cands []string
		for j := 0; j < x.n; j++ {
			if x.guarded || c.UnsafeRefs || j > x.decl {
				cands = append(cands, declName(j))
			}
		}
		if x.guarded || c.UnsafeRefs {
			cands = append(cands, "main")
		}
		if len(cands) == 0 || c.NoRefs || (x.n == 0 && !Chance(t, 1, 3)) {
			return nil
		}
		return model.PRef(Pick(t, cands...))
	}
	if depth <= 0 {
		switch W(t, 2, 4, 4, 2) {
		case 0:
			return model.PEmpty()
		case 1:
			return model.PAny()
		case 2:
			return leafP(t, c)
		}
		if r := ref(); r != nil {
			return r
		}
		return model.PAny()
	}
	sub := func() *model.Pattern { return pattern(t, c, x, depth-1) }
	many := func() []*model.Pattern {
		n := 2
		if Chance(t, 1, 3) {
			n = 3
		}
		if Chance(t, 1, 20) {
			n = 4
		}
		ps := make([]*model.Pattern, n)
		for i := range ps {
			ps[i] = sub()
			if i > 0 && Chance(t, 1, 10) {
				ps[i] = ps[i-1] // duplicates are where merging and deduplication can go wrong
			}
		}
		return ps
	}
	switch W(t, 1, 1, 9, 4, 5, 4, 3, 3, 4, 3, 3, 4, 3) {
	case 0:
		return model.PEmpty()
	case 1:
		return model.PAny()
	case 2:
		return node(t, c, x, depth)
	case 3:
		return leafP(t, c)
	case 4:
		return model.PConcat(many()...)
	case 5:
		return model.POr(many()...)
	case 6:
		return model.PAnd(many()...)
	case 7:
		if c.NoNot {
			return node(t, c, x, depth)
		}
		return model.PNot(sub())
	case 8:
		return model.PStar(sub())
	case 9:
		return model.POpt(sub())
	case 10:
		if c.NoContains {
			return node(t, c, x, depth)
		}
		return model.PContains(sub())
	case 11:
		if c.NoInter {
			return model.PConcat(many()...)
		}
		return model.PInter(many()...)
	}
	if r := ref(); r != nil {
		return r
	}
	return node(t, c, x, depth)
}

// ---------------------------------------------------------------- forests from grammars

type sampler struct {
	t    *rapid.T
	g    *model.Grammar
	fuel int
	maxW int
}

// Sample draws a forest that the grammar is likely to accept.
func Sample(t *rapid.T, g *model.Grammar, maxWidth int) []model.Tree {
	s := &sampler{t, g, 24, maxWidth}
	return s.sample(g.Main)
}

func (s *sampler) cut(ts []model.Tree) []model.Tree {
	if len(ts) > s.maxW {
		return ts[:s.maxW]
	}
	return ts
}

func (s *sampler) sample(p *model.Pattern) []model.Tree {
	t := s.t
	s.fuel--
	if s.fuel < 0 {
		return nil
	}
	switch p.K {
	case "empty":
		return nil
	case "any":
		return s.cut(Forest(t, 2, 2))
	case "node":
		l := s.label(p.N)
		c := s.sample(p.A[0])
		tr := model.Tree{L: l, C: c}
		if len(c) == 0 {
			tr.Leaf = Chance(t, 1, 2)
		}
		return []model.Tree{tr}
	case "leaf":
		return []model.Tree{{L: s.value(p.E), Leaf: !Chance(t, 1, 10)}}
	case "concat":
		var res []model.Tree
		for _, a := range p.A {
			res = append(res, s.sample(a)...)
		}
		return s.cut(res)
	case "or", "and":
		if p.K == "and" && Chance(t, 1, 2) { // what several patterns ask for
			var res []model.Tree
			for _, a := range p.A {
				if a.K == "contains" {
					res = append(res, s.sample(a.A[0])...)
				} else if Chance(t, 1, 2) {
					res = append(res, s.sample(a)...)
				}
			}
			return s.cut(res)
		}
		return s.sample(p.A[N(t, len(p.A))])
	case "not":
		if Chance(t, 1, 2) {
			return s.cut(Mutate(t, s.sample(p.A[0])))
		}
		return s.cut(Forest(t, 2, 2))
	case "star":
		n := N(t, 4)
		var res []model.Tree
		for i := 0; i < n; i++ {
			res = append(res, s.sample(p.A[0])...)
		}
		return s.cut(res)
	case "opt":
		if Chance(t, 1, 3) {
			return nil
		}
		return s.sample(p.A[0])
	case "contains":
		res := Forest(t, 1, 1)
		res = append(res, s.sample(p.A[0])...)
		return s.cut(append(res, Forest(t, 1, 1)...))
	case "inter":
		var res []model.Tree
		for _, a := range p.A {
			res = merge(t, res, s.sample(a))
		}
		return s.cut(res)
	case "ref":
		if q := s.g.Lookup(p.Ref); q != nil {
			return s.sample(q)
		}
		return nil
	}
	panic("gen: bad pattern " + p.K)
}

func merge(t *rapid.T, a, b []model.Tree) []model.Tree {
	var res []model.Tree
	for len(a) > 0 && len(b) > 0 {
		if Chance(t, 1, 2) {
			res = append(res, b[0])
			b = b[1:]
		} else {
			res = append(res, a[0])
			a = a[1:]
		}
	}
	return append(append(res, a...), b...)
}

func (s *sampler) label(n *model.Name) model.Label {
	t := s.t
	switch n.K {
	case "lit":
		l := *n.V
		if Chance(t, 1, 8) {
			l = Merge(AnyLabel(t), l)
		}
		if l.I != nil && *l.I >= 0 && Chance(t, 1, 3) {
			l = model.LNum(*l.I)
		}
		return l
	case "choice":
		return s.label(n.A[N(t, len(n.A))])
	case "except":
		for i := 0; i < 4; i++ {
			if l := NameLabel(t); n.Matches(l) {
				return l
			}
		}
	}
	return NameLabel(t)
}

// value draws a label that satisfies the expression, if one is found among its constants and their neighbours.
func (s *sampler) value(e *model.Expr) model.Label {
	t := s.t
	var cands []model.Label
	e.Walk(func(x *model.Expr) {
		if x.K == "const" {
			cands = append(cands, *x.V)
		}
		if x.K == "var" {
			cands = append(cands, Small(t, x.T))
		}
	})
	ok := func(l model.Label) bool {
		b, exact := e.Eval(l).Exact()
		return exact && b.B
	}
	var good []model.Label
	for _, c := range cands {
		if ok(c) {
			good = append(good, c)
		}
	}
	for i := 0; i < 4; i++ {
		var l model.Label
		if len(cands) > 0 && Chance(t, 2, 3) {
			l = Neighbour(t, cands[N(t, len(cands))])
		} else {
			l = AnyLabel(t)
		}
		if ok(l) {
			good = append(good, l)
		}
	}
	if len(good) > 0 && !Chance(t, 1, 5) {
		return good[N(t, len(good))]
	}
	if len(cands) > 0 { // a near miss
		return Neighbour(t, cands[N(t, len(cands))])
	}
	return AnyLabel(t)
}

// Neighbour draws a label near l.
func Neighbour(t *rapid.T, l model.Label) model.Label {
	switch {
	case l.I != nil:
		return model.LI(*l.I + Pick(t, int64(0), 1, -1))
	case l.U != nil:
		return model.LU(*l.U + Pick(t, uint64(0), 1, ^uint64(0)))
	case l.D != nil:
		return model.LD(float64(*l.D) + Pick(t, 0, 0.5, -0.5, 1, -1))
	case l.B != nil:
		return model.LB(*l.B != Chance(t, 1, 2))
	case l.S != nil:
		return model.LS(Pick(t, "", "a", "b") + string(*l.S) + Pick(t, "", "a", "c"))
	case l.Y != nil:
		return model.LY(string(*l.Y) + Pick(t, "", "a"))
	}
	return l
}

// Mutate changes a forest a little.
func Mutate(t *rapid.T, ts []model.Tree) []model.Tree {
	ts = model.CloneForest(ts)
	if len(ts) == 0 {
		return []model.Tree{{L: NameLabel(t), Leaf: Chance(t, 1, 2)}}
	}
	i := N(t, len(ts))
	switch W(t, 4, 2, 2, 2, 2, 1) {
	case 0:
		if len(ts[i].C) > 0 {
			ts[i].C = Mutate(t, ts[i].C)
			return ts
		}
		ts[i].L = NameLabel(t)
	case 1:
		ts = append(ts[:i], ts[i+1:]...)
	case 2:
		d := model.CloneForest(ts[i : i+1])
		ts = append(ts[:i+1], append(d, ts[i+1:]...)...)
	case 3:
		if i+1 < len(ts) {
			ts[i], ts[i+1] = ts[i+1], ts[i]
		} else {
			ts[i].L = AnyLabel(t)
		}
	case 4:
		ts = append(ts, model.Tree{L: NameLabel(t), Leaf: Chance(t, 1, 2)})
	case 5:
		if len(ts[i].C) == 0 {
			ts[i].Leaf = !ts[i].Leaf
		} else {
			ts[i].L = Neighbour(t, ts[i].L)
		}
	}
	return ts
}

// Doc draws a document for a grammar: sampled from it, mutated, or random.
func Doc(t *rapid.T, g *model.Grammar, maxWidth int) []model.Tree {
	var ts []model.Tree
	switch W(t, 6, 4, 1) {
	case 0:
		ts = Sample(t, g, maxWidth)
	case 1:
		ts = Mutate(t, Limit(Sample(t, g, maxWidth), maxWidth))
		if Chance(t, 1, 3) {
			ts = Mutate(t, ts)
		}
	case 2:
		ts = Forest(t, 3, 3)
	}
	return Limit(ts, maxWidth)
}

// Limit truncates every sibling list.
func Limit(ts []model.Tree, w int) []model.Tree {
	if len(ts) > w {
		ts = ts[:w]
	}
	for i := range ts {
		ts[i].C = Limit(ts[i].C, w)
	}
	return ts
}

// Tame turns interleaves into concatenations until no run of siblings has to track more than about max
// interleaved operands at once: the engines' states grow exponentially with them.
func Tame(g *model.Grammar, max int) {
	for round := 0; round < 50; round++ {
		changed := false
		var region func(p *model.Pattern)
		region = func(p *model.Pattern) {
			for interWeight(g, p, 0) > max {
				q := outerInter(g, p, 0)
				if q == nil {
					break
				}
				q.K = "concat"
				changed = true
			}
			var nodes func(x *model.Pattern)
			nodes = func(x *model.Pattern) {
				if x.K == "node" {
					region(x.A[0])
					return
				}
				for _, a := range x.A {
					nodes(a)
				}
			}
			nodes(p)
		}
		region(g.Main)
		for _, d := range g.Decls {
			region(d.P)
		}
		if !changed {
			return
		}
	}
}

func interWeight(g *model.Grammar, p *model.Pattern, depth int) int {
	if p.K == "node" || depth > 40 {
		return 0
	}
	if p.K == "ref" {
		if q := g.Lookup(p.Ref); q != nil {
			return interWeight(g, q, depth+8)
		}
		return 0
	}
	w := 0
	for _, a := range p.A {
		w += interWeight(g, a, depth+1)
	}
	switch p.K {
	case "inter":
		w += len(p.A) - 1
		for _, a := range p.A {
			w += branching(g, a, depth+1)
		}
	case "star", "contains", "not":
		w *= 2
	}
	return w
}

// branching counts the repetitions and searches below an interleaved operand.
func branching(g *model.Grammar, p *model.Pattern, depth int) int {
	if p.K == "node" || depth > 40 {
		return 0
	}
	if p.K == "ref" {
		if q := g.Lookup(p.Ref); q != nil {
			return branching(g, q, depth+8)
		}
		return 0
	}
	w := 0
	if p.K == "contains" || p.K == "star" && p.A[0].K != "node" && p.A[0].K != "leaf" {
		w = 1
	}
	for _, a := range p.A {
		w += branching(g, a, depth+1)
	}
	return w
}

func outerInter(g *model.Grammar, p *model.Pattern, depth int) *model.Pattern {
	if p.K == "inter" {
		return p
	}
	if p.K == "node" || depth > 40 {
		return nil
	}
	if p.K == "ref" {
		if q := g.Lookup(p.Ref); q != nil {
			return outerInter(g, q, depth+8)
		}
		return nil
	}
	for _, a := range p.A {
		if q := outerInter(g, a, depth+1); q != nil {
			return q
		}
	}
	return nil
}

// ClonePattern is a deep copy.
func ClonePattern(p *model.Pattern) *model.Pattern {
	c := *p
	c.A = nil
	for _, a := range p.A {
		c.A = append(c.A, ClonePattern(a))
	}
	if p.N != nil {
		c.N = CloneName(p.N)
	}
	if p.E != nil {
		c.E = CloneExpr(p.E)
	}
	return &c
}

func CloneName(n *model.Name) *model.Name {
	c := *n
	c.A = nil
	for _, a := range n.A {
		c.A = append(c.A, CloneName(a))
	}
	return &c
}

// MutatePattern changes one place of a pattern.
func MutatePattern(t *rapid.T, c GConf, p *model.Pattern) *model.Pattern {
	p = ClonePattern(p)
	var all []*model.Pattern
	p.Walk(func(x *model.Pattern) { all = append(all, x) })
	x := all[N(t, len(all))]
	switch {
	case x.N != nil && Chance(t, 1, 2):
		x.N = MutateName(t, c, x.N)
	case x.E != nil:
		x.E = MutateExpr(t, x.E)
	case x.K == "ref" && Chance(t, 1, 2):
		x.Ref += "x"
	case len(x.A) == 1 && x.K != "node":
		x.K = Pick(t, "star", "opt", "contains", "not")
	case len(x.A) > 1:
		switch N(t, 3) {
		case 0:
			i := N(t, len(x.A)-1)
			x.A[i], x.A[i+1] = x.A[i+1], x.A[i]
		case 1:
			x.K = Pick(t, "concat", "or", "and", "inter")
		default:
			x.A = append(x.A, ClonePattern(x.A[N(t, len(x.A))]))
		}
	default:
		*x = *pattern(t, c, gctx{-1, 0, false}, 1)
	}
	return p
}

func MutateName(t *rapid.T, c GConf, n *model.Name) *model.Name {
	n = CloneName(n)
	var all []*model.Name
	var walk func(n *model.Name)
	walk = func(n *model.Name) {
		all = append(all, n)
		for _, a := range n.A {
			walk(a)
		}
	}
	walk(n)
	x := all[N(t, len(all))]
	if x.K == "lit" && Chance(t, 1, 2) {
		l := Neighbour(t, *x.V)
		x.V = &l
		return n
	}
	*x = *Name(t, c, 1)
	return n
}

// Weight is the greatest number of interleaved parts (roughly) that one list of siblings has to track.
func Weight(g *model.Grammar) int {
	max := 0
	see := func(p *model.Pattern) {
		if w := interWeight(g, p, 0); w > max {
			max = w
		}
	}
	see(g.Main)
	for _, d := range g.Decls {
		see(d.P)
	}
	g.Walk(func(p *model.Pattern) {
		if p.K == "node" {
			see(p.A[0])
		}
	})
	return max
}
