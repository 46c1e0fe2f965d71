package model

import (
	"fmt"
	"sort"

	"github.com/katydid/katydid/relapse/ast"
)

// Name is a name expression: K = lit (V), any, except (A[0]), choice (A, at least 2).
type Name struct {
	K string  `json:"k"`
	V *Label  `json:"v,omitempty"`
	A []*Name `json:"a,omitempty"`
}

func NLit(l Label) *Name        { return &Name{K: "lit", V: &l} }
func NAny() *Name               { return &Name{K: "any"} }
func NExcept(n *Name) *Name     { return &Name{K: "except", A: []*Name{n}} }
func NChoice(ns ...*Name) *Name { return &Name{K: "choice", A: ns} }

// Matches is the set meaning of a name.
func (n *Name) Matches(l Label) bool {
	switch n.K {
	case "any":
		return true
	case "except":
		return !n.A[0].Matches(l)
	case "choice":
		for _, a := range n.A {
			if a.Matches(l) {
				return true
			}
		}
		return false
	}
	v := n.V
	switch {
	case v.D != nil:
		return l.D != nil && float64(*l.D) == float64(*v.D)
	case v.I != nil:
		return l.I != nil && *l.I == *v.I
	case v.U != nil:
		return l.U != nil && *l.U == *v.U
	case v.B != nil:
		return l.B != nil && *l.B == *v.B
	case v.S != nil:
		return l.S != nil && *l.S == *v.S
	case v.Y != nil:
		return l.Y != nil && *l.Y == *v.Y
	}
	panic("model: empty literal name")
}

func (n *Name) Size() int {
	s := 1
	for _, a := range n.A {
		s += a.Size()
	}
	return s
}

func (n *Name) ToAST() *ast.NameExpr {
	switch n.K {
	case "any":
		return ast.NewAnyName()
	case "except":
		return ast.NewAnyNameExcept(n.A[0].ToAST())
	case "choice":
		as := make([]*ast.NameExpr, len(n.A))
		for i := range n.A {
			as[i] = n.A[i].ToAST()
		}
		return ast.NewNameChoice(as...)
	}
	v := n.V
	switch {
	case v.D != nil:
		return ast.NewDoubleName(float64(*v.D))
	case v.I != nil:
		return ast.NewIntName(*v.I)
	case v.U != nil:
		return ast.NewUintName(*v.U)
	case v.B != nil:
		return ast.NewBoolName(*v.B)
	case v.S != nil:
		return ast.NewStringName(string(*v.S))
	case v.Y != nil:
		return ast.NewBytesName(bareBytes(*v.Y))
	}
	panic("model: empty literal name")
}

// Pattern K: empty any node leaf concat or and not star opt contains inter ref.
type Pattern struct {
	K   string     `json:"k"`
	N   *Name      `json:"n,omitempty"`
	E   *Expr      `json:"e,omitempty"`
	Ref string     `json:"r,omitempty"`
	A   []*Pattern `json:"a,omitempty"`
}

func PEmpty() *Pattern                   { return &Pattern{K: "empty"} }
func PAny() *Pattern                     { return &Pattern{K: "any"} }
func PNode(n *Name, p *Pattern) *Pattern { return &Pattern{K: "node", N: n, A: []*Pattern{p}} }
func PLeaf(e *Expr) *Pattern             { return &Pattern{K: "leaf", E: e} }
func PConcat(ps ...*Pattern) *Pattern    { return &Pattern{K: "concat", A: ps} }
func POr(ps ...*Pattern) *Pattern        { return &Pattern{K: "or", A: ps} }
func PAnd(ps ...*Pattern) *Pattern       { return &Pattern{K: "and", A: ps} }
func PInter(ps ...*Pattern) *Pattern     { return &Pattern{K: "inter", A: ps} }
func PNot(p *Pattern) *Pattern           { return &Pattern{K: "not", A: []*Pattern{p}} }
func PStar(p *Pattern) *Pattern          { return &Pattern{K: "star", A: []*Pattern{p}} }
func POpt(p *Pattern) *Pattern           { return &Pattern{K: "opt", A: []*Pattern{p}} }
func PContains(p *Pattern) *Pattern      { return &Pattern{K: "contains", A: []*Pattern{p}} }
func PRef(name string) *Pattern          { return &Pattern{K: "ref", Ref: name} }

func (p *Pattern) Size() int {
	n := 1
	for _, a := range p.A {
		n += a.Size()
	}
	return n
}

func (p *Pattern) Walk(f func(*Pattern)) {
	f(p)
	for _, a := range p.A {
		a.Walk(f)
	}
}

// Decl is one named declaration.
type Decl struct {
	Name string   `json:"name"`
	P    *Pattern `json:"p"`
}

// Grammar has a main pattern and declarations.
type Grammar struct {
	Main  *Pattern `json:"main"`
	Decls []Decl   `json:"decls,omitempty"`
}

func (g *Grammar) Lookup(name string) *Pattern {
	if name == "main" {
		return g.Main
	}
	for _, d := range g.Decls {
		if d.Name == name {
			return d.P
		}
	}
	return nil
}

func (g *Grammar) Walk(f func(*Pattern)) {
	g.Main.Walk(f)
	for _, d := range g.Decls {
		d.P.Walk(f)
	}
}

func (g *Grammar) Size() int {
	n := g.Main.Size()
	for _, d := range g.Decls {
		n += d.P.Size()
	}
	return n
}

// Bare makes ToAST build value patterns without arrows, and empty bytes from nil.
var Bare bool

func bareBytes(s Str) []byte {
	if Bare && s == "" {
		return nil
	}
	return []byte(s)
}

func (p *Pattern) ToAST() *ast.Pattern {
	as := make([]*ast.Pattern, len(p.A))
	for i := range p.A {
		as[i] = p.A[i].ToAST()
	}
	switch p.K {
	case "empty":
		return ast.NewEmpty()
	case "any":
		return ast.NewZAny()
	case "node":
		return ast.NewTreeNode(p.N.ToAST(), as[0])
	case "leaf":
		return ast.NewLeafNode(p.E.ToAST(!Bare))
	case "concat":
		return ast.NewConcat(as...)
	case "or":
		return ast.NewOr(as...)
	case "and":
		return ast.NewAnd(as...)
	case "inter":
		return ast.NewInterleave(as...)
	case "not":
		return ast.NewNot(as[0])
	case "star":
		return ast.NewZeroOrMore(as[0])
	case "opt":
		return ast.NewOptional(as[0])
	case "contains":
		return ast.NewContains(as[0])
	case "ref":
		return ast.NewReference(p.Ref)
	}
	panic(fmt.Sprintf("model: bad pattern %q", p.K))
}

// ToAST builds the grammar with the constructor functions.
func (g *Grammar) ToAST() *ast.Grammar {
	m := map[string]*ast.Pattern{"main": g.Main.ToAST()}
	for _, d := range g.Decls {
		m[d.Name] = d.P.ToAST()
	}
	return ast.NewGrammar(m)
}

// LeftRecursive reports whether some declaration can reach itself without passing a node.
func (g *Grammar) LeftRecursive() bool {
	names := []string{"main"}
	for _, d := range g.Decls {
		names = append(names, d.Name)
	}
	edges := map[string]map[string]bool{}
	var collect func(from string, p *Pattern)
	collect = func(from string, p *Pattern) {
		if p.K == "node" {
			return
		}
		if p.K == "ref" {
			edges[from][p.Ref] = true
		}
		for _, a := range p.A {
			collect(from, a)
		}
	}
	for _, n := range names {
		edges[n] = map[string]bool{}
		collect(n, g.Lookup(n))
	}
	// transitive closure
	for range names {
		for _, a := range names {
			for b := range edges[a] {
				for c := range edges[b] {
					edges[a][c] = true
				}
			}
		}
	}
	for _, n := range names {
		if edges[n][n] {
			return true
		}
	}
	return false
}

// ExprStatus reports whether some value expression of the grammar can fail on some label of the forest,
// and whether some expression's truth depends on the unspecified order in which failures are absorbed.
func (g *Grammar) ExprStatus(ts []Tree) (mayErr, ambiguous bool) {
	g.Walk(func(p *Pattern) {
		if p.K != "leaf" || ambiguous {
			return
		}
		AllLabels(ts, func(l Label) {
			o := p.E.Eval(l)
			if o.MayErr() || o.Taint {
				mayErr = true
			}
			yes, no := false, false
			for _, v := range o.Vs {
				if !v.Err && v.B {
					yes = true
				} else {
					no = true
				}
			}
			if yes && no {
				ambiguous = true
			}
		})
	})
	return
}

// ---------------------------------------------------------------- matcher

// Matcher decides membership of forests in pattern languages directly from the denotation.
// A set of siblings is a bit mask over one sibling list; concatenation splits the ordered members of
// the mask, interleave splits it into any two submasks. Nothing is derived or simplified.
type Matcher struct {
	g     *Grammar
	ids   map[*Pattern]int
	lists [][]Tree
	memo  map[mkey]bool
	inter map[*Pattern][]*Pattern
	Steps int
}

type mkey struct {
	p    int
	list int
	mask uint32
}

// MaxSiblings bounds the sibling lists a Matcher handles.
const MaxSiblings = 12

func NewMatcher(g *Grammar) *Matcher {
	return &Matcher{g: g, ids: map[*Pattern]int{}, memo: map[mkey]bool{}}
}

// Match decides whether the forest is in the language of the grammar.
func (m *Matcher) Match(ts []Tree) bool { return m.MatchPattern(m.g.Main, ts) }

func (m *Matcher) MatchPattern(p *Pattern, ts []Tree) bool {
	return m.match(p, m.list(ts), full(len(ts)))
}

func full(n int) uint32 {
	if n > MaxSiblings {
		panic("model: too many siblings for the reference matcher")
	}
	return uint32(1)<<uint(n) - 1
}

func (m *Matcher) list(ts []Tree) int {
	m.lists = append(m.lists, ts)
	return len(m.lists) - 1
}

func (m *Matcher) id(p *Pattern) int {
	id, ok := m.ids[p]
	if !ok {
		id = len(m.ids)
		m.ids[p] = id
	}
	return id
}

func popcount(x uint32) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

func (m *Matcher) match(p *Pattern, list int, mask uint32) bool {
	k := mkey{m.id(p), list, mask}
	if r, ok := m.memo[k]; ok {
		return r
	}
	m.Steps++
	r := m.match1(p, list, mask)
	m.memo[k] = r
	return r
}

// prefixes calls f with every split of the ordered members of mask until f returns true.
func prefixes(mask uint32, f func(pre, post uint32) bool) bool {
	pre := uint32(0)
	for {
		if f(pre, mask&^pre) {
			return true
		}
		rest := mask &^ pre
		if rest == 0 {
			return false
		}
		pre |= rest & -rest
	}
}

func (m *Matcher) match1(p *Pattern, list int, mask uint32) bool {
	switch p.K {
	case "empty":
		return mask == 0
	case "any":
		return true
	case "node", "leaf":
		if popcount(mask) != 1 {
			return false
		}
		i := 0
		for mask>>uint(i)&1 == 0 {
			i++
		}
		t := m.lists[list][i]
		if p.K == "leaf" {
			if len(t.C) != 0 {
				return false
			}
			o := p.E.Eval(t.L)
			for _, v := range o.Vs {
				if v.Err || !v.B {
					continue
				}
				return true
			}
			return false
		}
		if !p.N.Matches(t.L) {
			return false
		}
		return m.match(p.A[0], m.list(t.C), full(len(t.C)))
	case "concat":
		return m.seq(p, p.A, list, mask)
	case "or":
		for _, a := range p.A {
			if m.match(a, list, mask) {
				return true
			}
		}
		return false
	case "and":
		for _, a := range p.A {
			if !m.match(a, list, mask) {
				return false
			}
		}
		return true
	case "not":
		return !m.match(p.A[0], list, mask)
	case "star":
		if mask == 0 {
			return true
		}
		return prefixes(mask, func(pre, post uint32) bool {
			return pre != 0 && m.match(p.A[0], list, pre) && m.match(p, list, post)
		})
	case "opt":
		return mask == 0 || m.match(p.A[0], list, mask)
	case "contains":
		return prefixes(mask, func(pre, post uint32) bool {
			return prefixes(post, func(mid, _ uint32) bool { return m.match(p.A[0], list, mid) })
		})
	case "inter":
		return m.inters(p.A, list, mask)
	case "ref":
		q := m.g.Lookup(p.Ref)
		if q == nil {
			panic("model: undefined reference " + p.Ref)
		}
		return m.match(q, list, mask)
	}
	panic("model: bad pattern " + p.K)
}

func (m *Matcher) seq(p *Pattern, ps []*Pattern, list int, mask uint32) bool {
	if len(ps) == 1 {
		return m.match(ps[0], list, mask)
	}
	return prefixes(mask, func(pre, post uint32) bool {
		return m.match(ps[0], list, pre) && m.seq(p, ps[1:], list, post)
	})
}

func (m *Matcher) inters(ps []*Pattern, list int, mask uint32) bool {
	if len(ps) == 1 {
		return m.match(ps[0], list, mask)
	}
	for sub := mask; ; sub = (sub - 1) & mask {
		if m.match(ps[0], list, sub) && m.inters(ps[1:], list, mask&^sub) {
			return true
		}
		if sub == 0 {
			return false
		}
	}
}

// RefNames lists the names referenced by the grammar.
func (g *Grammar) RefNames() []string {
	m := map[string]bool{}
	g.Walk(func(p *Pattern) {
		if p.K == "ref" {
			m[p.Ref] = true
		}
	})
	var r []string
	for n := range m {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}
