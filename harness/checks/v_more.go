package checks

import (
	"fmt"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// ---------------------------------------------------------------- V03

type histStep struct {
	Doc    int `json:"d"`
	FailAt int `json:"f,omitempty"`
	Err    int `json:"e,omitempty"` // which fault
}

type histCase struct {
	gd
	Hist []histStep `json:"hist"`
}

func genHist(t T, c gen.GConf, docs, width, size, steps int) histCase {
	x := histCase{gd: genSized(t, c, docs, width, size)}
	n := 2 + gen.N(t, steps)
	for i := 0; i < n; i++ {
		s := histStep{Doc: gen.N(t, len(x.Docs))}
		if gen.Chance(t, 1, 5) {
			s.FailAt, s.Err = 1+gen.N(t, 8), gen.N(t, len(model.Faults))
		}
		x.Hist = append(x.Hist, s)
	}
	return x
}

// runHist replays the history on one prepared validator and compares each answer with the model and with a fresh validator's.
func runHist(c histCase, o *core.Obs, eng engine) error {
	m := model.NewMatcher(c.G)
	v, err := eng.prep(c.G.ToAST())
	if err == errStates {
		o.Label("too-many-states")
		return nil
	}
	if err != nil {
		return errf("%s: preparing failed: %v\ngrammar: %s", eng.name, err, show(c.G))
	}
	type answer struct {
		ok  bool
		err string
	}
	es := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	fresh := make([]*answer, len(c.Docs))
	var verdicts []bool
	fails, errs := 0, 0
	for i, s := range c.Hist {
		ts := c.Docs[s.Doc]
		p := model.NewTreeParser(ts)
		p.FailAt, p.FailErr = s.FailAt, model.Faults[s.Err%len(model.Faults)]
		got, err := v(p)
		if p.Failed {
			fails++
			if !p.Surfaced(err) {
				return errf("%s: step %d: the parser failed but the answer was %v, %v\ngrammar: %s\ndocument: %s", eng.name, i, got, err, show(c.G), model.ForestString(ts))
			}
			continue
		}
		mayErr, ambiguous := c.G.ExprStatus(ts)
		if !ambiguous {
			want := m.Match(ts)
			verdicts = append(verdicts, want)
			if e := judge(fmt.Sprintf("%s: step %d", eng.name, i), got, err, want, mayErr, c.G, ts); e != nil {
				return e
			}
		}
		if err != nil {
			errs++
		}
		if s.FailAt > 0 {
			continue // the fault was not reached; the answer is judged above
		}
		if fresh[s.Doc] == nil {
			fv, ferr := eng.prep(c.G.ToAST())
			if ferr == errStates {
				// the bound is near and the order of compilation is not always the same
				fresh[s.Doc] = &answer{ok: got, err: es(err)}
				o.Label("too-many-states-again")
				continue
			}
			if ferr != nil {
				return errf("%s: preparing a second time failed: %v", eng.name, ferr)
			}
			ok, ferr := fv(model.NewTreeParser(ts))
			fresh[s.Doc] = &answer{ok, es(ferr)}
		}
		if f := fresh[s.Doc]; mayErr && eng.name == engAuto.name && (err != nil || f.err != "") {
			o.Label("error-by-order-of-compilation") // which of the values are asked depends on the order of the declarations
		} else if f.ok != got || (f.err == "") != (err == nil) {
			return errf("%s: step %d: answer %v, %v after %d earlier documents, but a fresh validator answers %v, %q\ngrammar: %s\ndocument: %s", eng.name, i, got, err, i, f.ok, f.err, show(c.G), model.ForestString(ts))
		}
	}
	o.LabelIf(fails > 0, "injected")
	o.LabelIf(errs > 0, "errors-in-history")
	observe(o, c.G, c.Docs, verdicts)
	return nil
}

// ---------------------------------------------------------------- V04

// limitLeaves bounds the nodes and values of a grammar, on whose number compilation depends exponentially.
func limitLeaves(g *model.Grammar, max int) bool {
	n := 0
	g.Walk(func(p *model.Pattern) {
		if p.K == "node" || p.K == "leaf" || p.K == "ref" {
			n++
		}
	})
	return n <= max
}

func genSmallHist(t T, c gen.GConf, docs, width, leaves, steps int) histCase {
	c.MaxInter = 3
	for i := 0; ; i++ {
		x := genHist(t, c, docs, width, 16, steps)
		if limitLeaves(x.G, leaves) {
			return x
		}
		if i == 4 {
			c.Depth = 1
		}
		if i > 6 {
			x.G = &model.Grammar{Main: model.PConcat(model.PNode(model.NLit(model.LS("a")), model.PAny()), model.PAny())}
			return x
		}
	}
}

// genChain draws a long chain of nodes and documents along it, some of them with one change.
func genChain(t T) histCase {
	type link struct {
		down bool
		name string
	}
	links := make([]link, 1+gen.N(t, 100))
	down := gen.N(t, 5)
	for i, run := 0, 0; i < len(links); i++ {
		links[i] = link{gen.N(t, 4) < down || run == model.MaxSiblings-3, gen.Pick(t, "a", "b")}
		if run++; links[i].down {
			run = 0
		}
	}
	leafs := []model.Tree{{L: model.LS("x"), Leaf: true}, {L: model.LS("y"), Leaf: true}, {L: model.LI(1), Leaf: true}}
	end := gen.Pick(t, model.PEmpty(), model.PAny(), model.PLeaf(model.Fn("b", "eq", model.Var("s"), model.Const(model.LS("x")))))
	p := end
	for i := len(links) - 1; i >= 0; i-- {
		n := model.NLit(model.LS(links[i].name))
		if links[i].down {
			p = model.PNode(n, p)
		} else {
			p = model.PConcat(model.PNode(n, end), p)
		}
	}
	x := histCase{gd: gd{G: &model.Grammar{Main: p}}}
	for d := 2 + gen.N(t, 3); d > 0; d-- {
		wrong := gen.N(t, 2*len(links))
		if gen.Chance(t, 1, 2) {
			wrong = len(links) + gen.N(t, 3)
		}
		last := func() []model.Tree {
			if end.K == "empty" {
				return nil
			}
			return []model.Tree{leafs[0]}
		}
		doc := last()
		for i := len(links) - 1; i >= 0; i-- {
			name := links[i].name
			if i == wrong {
				name = gen.Pick(t, "a", "b", "c")
			}
			n := model.Tree{L: model.LS(name)}
			if links[i].down {
				n.C = doc
				doc = []model.Tree{n}
				continue
			}
			n.C = last()
			if i == wrong-1 {
				n.C = []model.Tree{gen.Pick(t, leafs...)}
			}
			doc = append([]model.Tree{n}, doc...)
		}
		x.Docs = append(x.Docs, doc)
	}
	for i := 2 + gen.N(t, 4); i > 0; i-- {
		x.Hist = append(x.Hist, histStep{Doc: gen.N(t, len(x.Docs))})
	}
	return x
}

// genTwins draws alternatives of short sequences, of which the nodes have contents that differ in a word only. The words
// have equal hashes, and so have the contents: nothing but the tail of a sequence tells which of them was found.
func genTwins(t T) histCase {
	words := gen.Pick(t, []string{"Aa", "BB"}, []string{"AaAa", "AaBB", "BBAa", "BBBB"}, []string{"Aa", "BB", "C#"})
	shape := gen.N(t, 6)
	content := func(w string) *model.Pattern {
		v, c := model.Var("s"), model.Const(model.LS(w))
		word, x := model.NLit(model.LS(w)), model.NLit(model.LS("x"))
		switch shape {
		case 0:
			return model.PLeaf(model.Fn("b", "eq", v, c))
		case 1:
			return model.PLeaf(model.Fn("b", "not", model.Fn("b", "eq", v, c)))
		case 2:
			return model.PNode(word, model.PAny())
		case 3:
			return model.PNode(x, model.PLeaf(model.Fn("b", "eq", v, c)))
		case 4:
			return model.PNot(model.PNode(word, model.PEmpty()))
		}
		return model.PConcat(model.PNode(x, model.PAny()), model.PNode(word, model.PEmpty()))
	}
	wrap := func(ps []*model.Pattern) *model.Pattern {
		switch gen.W(t, 6, 1, 1, 1) {
		case 1:
			return model.PInter(ps...)
		case 2:
			return model.PConcat(append(ps, model.PAny())...)
		case 3:
			return model.PNot(model.PConcat(ps...))
		}
		return model.PConcat(ps...)
	}
	var alts []*model.Pattern
	for i := 2 + gen.N(t, 2); i > 0; i-- {
		var ps []*model.Pattern
		for j := 1 + gen.N(t, 2); j > 0; j-- {
			ps = append(ps, model.PNode(model.NLit(model.LS(gen.Pick(t, "a", "a", "b"))), content(gen.Pick(t, words...))))
		}
		tail := model.PLeaf(model.Fn("b", "eq", model.Var("s"), model.Const(model.LS(gen.Pick(t, "y", "z")))))
		alts = append(alts, wrap(append(ps, model.PNode(model.NLit(model.LS("d")), tail))))
	}
	main := model.POr(alts...)
	if gen.Chance(t, 1, 6) {
		main = model.PAnd(alts...)
	}
	x := histCase{gd: gd{G: &model.Grammar{Main: main}}}
	str := func(s string, c ...model.Tree) model.Tree { return model.Tree{L: model.LS(s), C: c} }
	leaf := func(s string) model.Tree { return model.Tree{L: model.LS(s), Leaf: true} }
	for i := 4 + gen.N(t, 4); i > 0; i-- {
		var doc []model.Tree
		for j := 1 + gen.N(t, 2); j > 0; j-- {
			w := gen.Pick(t, words...)
			var c []model.Tree
			switch shape {
			case 0, 1:
				c = []model.Tree{leaf(w)}
			case 2, 4:
				c = []model.Tree{str(w)}
			case 3:
				c = []model.Tree{str("x", leaf(w))}
			default:
				c = []model.Tree{str("x"), str(w)}
			}
			doc = append(doc, str(gen.Pick(t, "a", "a", "b"), c...))
		}
		x.Docs = append(x.Docs, append(doc, str("d", leaf(gen.Pick(t, "y", "z")))))
	}
	for i := 3 + gen.N(t, 6); i > 0; i-- {
		x.Hist = append(x.Hist, histStep{Doc: gen.N(t, len(x.Docs))})
	}
	return x
}

// relatedName draws a name that likely implies, excludes or repeats others.
func relatedName(t T) *model.Name {
	lit := func() *model.Name {
		return model.NLit(gen.Pick(t, model.LS("a"), model.LS("b"), model.LS("a"), model.LS("b"), model.LS("c"), model.LI(0), model.LI(1), model.LU(1)))
	}
	switch gen.W(t, 6, 5, 1, 1, 1) {
	case 1:
		return model.NExcept(lit())
	case 2:
		return model.NExcept(model.NChoice(lit(), lit()))
	case 3:
		return model.NChoice(lit(), lit())
	case 4:
		return model.NAny()
	}
	return lit()
}

// relatedPattern draws an arrangement of 2 to 5 nodes with related names and telling contents.
func relatedPattern(t T, depth int) *model.Pattern {
	n := 2 + gen.N(t, 4)
	var ps []*model.Pattern
	for i := 0; i < n; i++ {
		var c *model.Pattern
		switch gen.W(t, 3, 3, 2, 2) {
		case 0:
			c = model.PEmpty()
		case 1:
			c = model.PAny()
		case 2:
			c = model.PLeaf(gen.BoolExpr(t, gen.EConf{Depth: 0}))
		case 3:
			if depth > 0 {
				c = relatedPattern(t, depth-1)
			} else {
				c = model.PNode(relatedName(t), model.PAny())
			}
		}
		p := model.PNode(relatedName(t), c)
		switch gen.W(t, 4, 3, 2, 1, 1, 1) {
		case 1:
			p = model.PStar(p)
		case 2:
			p = model.POpt(p)
		case 3:
			p = model.PContains(p)
		case 4:
			p = model.PNot(p)
		case 5:
			if len(ps) > 0 {
				p = gen.Pick(t, ps...)
			}
		}
		ps = append(ps, p)
	}
	switch gen.W(t, 4, 3, 2, 1) {
	case 1:
		return model.POr(ps...)
	case 2:
		return model.PAnd(ps...)
	case 3:
		return model.PInter(ps[:2]...)
	}
	return model.PConcat(ps...)
}

func genNamesHist(t T) histCase {
	var x histCase
	x.G = &model.Grammar{Main: relatedPattern(t, 1)}
	for i := 0; i < 6; i++ {
		x.Docs = append(x.Docs, gen.Doc(t, x.G, 5))
	}
	for i := 0; i < 8; i++ {
		x.Hist = append(x.Hist, histStep{Doc: gen.N(t, len(x.Docs))})
	}
	return x
}

// ---------------------------------------------------------------- V05

// recordLimit drops siblings until every literal name of the grammar matches at most one sibling.
func recordLimit(g *model.Grammar, ts []model.Tree) []model.Tree {
	var lits []*model.Name
	var collect func(n *model.Name)
	collect = func(n *model.Name) {
		if n.K == "lit" {
			lits = append(lits, n)
		}
		for _, a := range n.A {
			collect(a)
		}
	}
	g.Walk(func(p *model.Pattern) {
		if p.N != nil {
			collect(p.N)
		}
	})
	var lim func(ts []model.Tree) []model.Tree
	lim = func(ts []model.Tree) []model.Tree {
		var res []model.Tree
		seen := make([]bool, len(lits))
		keys := map[string]bool{}
	next:
		for _, t := range ts {
			if k := t.L.String(); keys[k] && len(lits) > 0 {
				continue
			} else {
				keys[k] = true
			}
			for i, l := range lits {
				if l.Matches(t.L) && seen[i] {
					continue next
				}
			}
			for i, l := range lits {
				if l.Matches(t.L) {
					seen[i] = true
				}
			}
			t.C = lim(t.C)
			res = append(res, t)
		}
		return res
	}
	return lim(ts)
}

// engInterpRec interprets the grammar as simplified for records.
var engInterpRec = engine{"interp-record", func(g *ast.Grammar) (validator, error) {
	return engInterp.prep(interp.NewSimplifier(g).OptimizeForRecord().Grammar())
}}

// confRecord: many contains and intersections over few names.
func confRecord() gen.GConf {
	return gen.GConf{Depth: 4, Decls: 1, OnlyStrings: true, NoExcept: true, Names: []string{"a", "b"}, Expr: gen.EConf{Depth: 0}}
}

// recordPattern draws the shapes the record optimisation rewrites: combinations of .name:p.
func recordPattern(t T, depth int) *model.Pattern {
	complex := func(n *model.Name) *model.Name {
		return gen.Pick(t, model.NAny(), model.NExcept(n), model.NChoice(n, model.NLit(model.LS("b"))), model.NChoice(model.NLit(model.LS("a")), model.NLit(model.LS("b"))))
	}
	var common *model.Name // of many of the fields
	if gen.Chance(t, 1, 4) {
		common = complex(model.NLit(model.LS(gen.Pick(t, "a", "b", "c"))))
	}
	field := func() *model.Pattern {
		n := model.NLit(model.LS(gen.Pick(t, "a", "b", "c")))
		if gen.Chance(t, 1, 8) {
			n = model.NLit(gen.Pick(t, model.LI(0), model.LI(1), model.LU(1)))
		}
		if gen.Chance(t, 1, 8) {
			n = complex(n)
		}
		if common != nil && gen.Chance(t, 1, 2) {
			n = common
		}
		var p *model.Pattern
		if depth > 0 && gen.Chance(t, 1, 2) {
			p = recordPattern(t, depth-1)
		} else {
			p = gen.Pattern(t, confInter(), 1)
		}
		return model.PNode(n, p)
	}
	elem := func() *model.Pattern {
		switch gen.W(t, 8, 2, 1, 1) {
		case 0:
			return model.PContains(field())
		case 1:
			return field()
		case 2:
			return model.PLeaf(gen.BoolExpr(t, gen.EConf{Depth: 0}))
		}
		return model.PContains(model.PLeaf(gen.BoolExpr(t, gen.EConf{Depth: 0})))
	}
	many := func() []*model.Pattern {
		n := 2 + gen.N(t, 3)
		ps := make([]*model.Pattern, n)
		for i := range ps {
			ps[i] = elem()
			if depth > 0 && gen.Chance(t, 1, 4) {
				ps[i] = recordPattern(t, depth-1)
			}
		}
		return ps
	}
	switch gen.W(t, 4, 4, 2, 1, 1, 1, 1) {
	case 0:
		return model.PAnd(many()...)
	case 1:
		return model.POr(many()...)
	case 2:
		return model.PInter(many()...)
	case 3:
		return model.PConcat(many()...)
	case 4:
		return model.PNot(model.POr(many()...))
	case 5:
		return model.PAnd(append(many(), model.PNot(elem()))...)
	}
	return elem()
}

func genRecord(t T) gd {
	var x gd
	if gen.Chance(t, 1, 3) {
		x = genSized(t, confRecord(), 4, 6, 40)
	} else {
		x.G = &model.Grammar{Main: recordPattern(t, 1)}
		for i := 0; i < 4; i++ {
			x.Docs = append(x.Docs, gen.Doc(t, x.G, 6))
		}
	}
	for i := range x.Docs {
		x.Docs[i] = recordLimit(x.G, x.Docs[i])
	}
	return x
}

// mergePattern draws nested alternatives and conjunctions of fields over very few names, with repetitions, so that
// the record optimisation merges merged patterns.
func mergePattern(t T, depth, leaves int) *model.Pattern {
	name := func() *model.Name {
		a, b := model.NLit(model.LS("a")), model.NLit(model.LS("b"))
		switch gen.W(t, 8, 8, 2, 1, 1) {
		case 0:
			return a
		case 1:
			return b
		case 2:
			return model.NChoice(a, b)
		case 3:
			return model.NExcept(a)
		}
		return model.NAny()
	}
	if depth == 0 || gen.Chance(t, 1, 8) {
		n := name
		switch gen.W(t, 2, 2, 2, 1, 1, 1) {
		case 0:
			return model.PEmpty()
		case 1:
			return model.PNode(n(), model.PAny())
		case 2:
			return model.PNode(n(), model.PEmpty())
		case 3:
			return model.PContains(model.PNode(n(), model.PEmpty()))
		case 4:
			return model.PLeaf(gen.BoolExpr(t, gen.EConf{Depth: 0}))
		}
		return model.PStar(model.PNode(n(), model.PAny()))
	}
	k := 2 + gen.N(t, leaves)
	ps := make([]*model.Pattern, k)
	for i := range ps {
		if i > 0 && gen.Chance(t, 1, 4) {
			ps[i] = ps[gen.N(t, i)] // a duplicate
			continue
		}
		f := model.PNode(name(), mergePattern(t, depth-1, leaves-1))
		switch gen.W(t, 6, 2, 1, 1) {
		case 0:
			ps[i] = model.PContains(f)
		case 1:
			ps[i] = f
		case 2:
			ps[i] = model.PNot(model.PContains(f))
		case 3:
			ps[i] = mergePattern(t, 0, 0)
		}
	}
	switch gen.W(t, 5, 5, 1, 1) {
	case 0:
		return model.POr(ps...)
	case 1:
		return model.PAnd(ps...)
	case 2:
		return model.PInter(ps...)
	}
	return model.PConcat(ps...)
}

func genMerge(t T) histCase {
	var x histCase
	x.G = &model.Grammar{Main: mergePattern(t, 2+gen.N(t, 2), 3)}
	for i := 0; i < 6; i++ {
		var ts []model.Tree
		if i > 0 && gen.Chance(t, 1, 2) {
			ts = gen.Limit(gen.Mutate(t, x.Docs[gen.N(t, i)]), 6)
		} else {
			ts = gen.Doc(t, x.G, 6)
		}
		x.Docs = append(x.Docs, recordLimit(x.G, ts))
	}
	for i := 0; i < 10; i++ {
		x.Hist = append(x.Hist, histStep{Doc: gen.N(t, len(x.Docs))})
	}
	return x
}

// engKept keeps one constructor for all documents and follows them with the exported derivative functions.
func engKept(record bool) engine {
	name := "intern-kept"
	if record {
		name += "-record"
	}
	return engine{name, func(g *ast.Grammar) (validator, error) {
		v, _, err := ctxIntern.prep(g, record, nil)
		return v, err
	}}
}

// ---------------------------------------------------------------- V06 V07

func allEngines(small bool) []engine {
	es := []engine{engInterp, engIntern, engMem, engInternRec, engMemRec}
	if small {
		es = append(es, engAuto, engAutoRec)
	}
	return es
}

func runProtocol(c gd, o *core.Obs, engs ...engine) error {
	early, down := false, false
	for _, e := range engs {
		v, err := e.prep(c.G.ToAST())
		if err == errStates {
			continue
		}
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", e.name, err, show(c.G))
		}
		for rep := 0; rep < 2; rep++ {
			for _, ts := range c.Docs {
				p := model.NewTreeParser(ts)
				p.MaxCalls = 2*model.Size(ts) + 2 // each level is read to its end at most once
				_, err := v(p)
				where := fmt.Sprintf("%s\ngrammar: %s\ndocument: %s", e.name, show(c.G), model.ForestString(ts))
				if p.Breach != "" {
					return errf("%s: %s", p.Breach, where)
				}
				if err == nil && !p.Balanced() {
					return errf("a verdict was returned with %d descents not matched by ascents: %s", p.Downs-p.Ups, where)
				}
				early = early || p.SkippedLevels > 0
				down = down || p.Downs > 0
			}
		}
	}
	o.NonTrivialIf(down)
	o.LabelIf(early, "level-left-early")
	o.Sample("%s on %s", show(c.G), model.ForestString(c.Docs[0]))
	return nil
}

func runInjected(c gd, o *core.Obs, engs ...engine) error {
	faults := 0
	for _, e := range engs {
		v, err := e.prep(c.G.ToAST())
		if err == errStates {
			continue
		}
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", e.name, err, show(c.G))
		}
		for _, ts := range c.Docs {
			p := model.NewTreeParser(ts)
			if _, err := v(p); err != nil {
				continue
			}
			for k := 1; k <= p.Calls; k++ {
				q := model.NewTreeParser(ts)
				q.FailAt, q.FailErr = k, model.Faults[(len(c.Docs[0])+k)%len(model.Faults)]
				got, err := v(q)
				if !q.Failed {
					return errf("%s: the run is not repeatable: call %d of %d was not made\ngrammar: %s\ndocument: %s", e.name, k, p.Calls, show(c.G), model.ForestString(ts))
				}
				faults++
				if !q.Surfaced(err) {
					return errf("%s: the parser failed at call %d with %v but the answer was %v, %v\ngrammar: %s\ndocument: %s", e.name, k, q.Fault(), got, err, show(c.G), model.ForestString(ts))
				}
			}
		}
	}
	o.NonTrivialIf(faults >= 2)
	o.LabelIf(faults >= 10, "10-faults")
	o.Sample("%d faults: %s on %s", faults, show(c.G), model.ForestString(c.Docs[0]))
	return nil
}

// ---------------------------------------------------------------- V08

type simpCase struct {
	gd
	Record bool `json:"rec,omitempty"`
}

// shareSubpatterns copies sub-patterns between declarations, so that simplification can replace them by references.
func shareSubpatterns(t T, g *model.Grammar) {
	if len(g.Decls) == 0 || !gen.Chance(t, 1, 2) {
		return
	}
	var sites []*model.Pattern
	g.Main.Walk(func(p *model.Pattern) { sites = append(sites, p) })
	d := g.Decls[gen.N(t, len(g.Decls))]
	bad := false
	d.P.Walk(func(p *model.Pattern) { bad = bad || p.K == "ref" })
	if bad {
		return
	}
	s := sites[gen.N(t, len(sites))]
	*s = *clonePattern(d.P)
}

// genSimpLaw draws the neighbourhood of the simplification rules.
func genSimpLaw(t T) simpCase {
	a, b := model.NLit(model.LS("a")), model.NLit(model.LS("b"))
	atom := func(refs bool) *model.Pattern {
		k := 10
		if refs {
			k = 13
		}
		switch gen.N(t, k) {
		case 0, 1:
			return model.PEmpty()
		case 2, 3:
			return model.PAny()
		case 4:
			return model.PNot(model.PAny())
		case 5, 6:
			return model.PNode(a, model.PAny())
		case 7:
			return model.PNode(b, model.PAny())
		case 8:
			return model.PNode(gen.Pick(t, a, b, model.NAny(), model.NExcept(a)), gen.Pick(t, model.PEmpty(), model.PNot(model.PAny()), model.PAny()))
		case 9:
			return model.PLeaf(gen.BoolExpr(t, gen.EConf{Depth: 0}))
		case 10:
			return model.PRef("r0")
		case 11:
			return model.PRef("r1")
		}
		return model.PRef("r2")
	}
	var pat func(depth int, refs bool) *model.Pattern
	pat = func(depth int, refs bool) *model.Pattern {
		if depth == 0 || gen.Chance(t, 1, 6) {
			return atom(refs)
		}
		sub := func() *model.Pattern { return pat(depth-1, refs) }
		switch gen.N(t, 10) {
		case 0, 1:
			return model.POr(sub(), sub())
		case 2:
			return model.PAnd(sub(), sub())
		case 3, 4:
			return model.PConcat(sub(), sub())
		case 5:
			return model.PInter(sub(), sub())
		case 6:
			return model.PNot(sub())
		case 7:
			return model.PStar(sub())
		case 8:
			return model.PContains(sub())
		}
		return model.POpt(sub())
	}
	g := &model.Grammar{Main: pat(2+gen.N(t, 2), true)}
	for i := 0; i < 3; i++ {
		d := pat(1, false)
		if i == 0 { // one of them is nullable
			d = gen.Pick(t, model.PStar, model.POpt)(d)
		}
		g.Decls = append(g.Decls, model.Decl{Name: fmt.Sprintf("r%d", i), P: d})
	}
	gen.Tame(g, 4)
	x := simpCase{gd: gd{G: g}, Record: false}
	ts := []model.Tree{{L: model.LS("a")}, {L: model.LS("b"), C: []model.Tree{{L: model.LI(1), Leaf: true}}}, {L: model.LI(1), Leaf: true}}
	var all func(prefix []model.Tree, n int)
	all = func(prefix []model.Tree, n int) {
		x.Docs = append(x.Docs, prefix)
		if n == 0 {
			return
		}
		for _, tr := range ts {
			all(append(prefix[:len(prefix):len(prefix)], tr), n-1)
		}
	}
	all(nil, 3)
	return x
}

func clonePattern(p *model.Pattern) *model.Pattern {
	q := *p
	q.A = make([]*model.Pattern, len(p.A))
	for i := range p.A {
		q.A[i] = clonePattern(p.A[i])
	}
	return &q
}

func runSimplify(c simpCase, o *core.Obs) error {
	g := c.G.ToAST()
	before := g.String()
	orig := c.G.ToAST()
	s := interp.NewSimplifier(g)
	if c.Record {
		s = s.OptimizeForRecord()
	}
	m := model.NewMatcher(c.G)
	var verdicts []bool
	check := func(what string, sg *model.Grammar) error {
		sm := model.NewMatcher(sg)
		for _, ts := range c.Docs {
			// expressions may be folded or combined, so a document whose labels make an expression fail is only compared where the truth is the same in every order
			if _, amb := c.G.ExprStatus(ts); amb {
				o.Label("ambiguous-skipped")
				continue
			}
			if _, amb := sg.ExprStatus(ts); amb {
				o.Label("ambiguous-skipped")
				continue
			}
			want := m.Match(ts)
			verdicts = append(verdicts, want)
			if got := sm.Match(ts); got != want {
				return errf("%s: the simplified pattern says %v, the original %v\noriginal: %s\nsimplified: %s\ndocument: %s", what, got, want, before, show(sg), model.ForestString(ts))
			}
		}
		return nil
	}
	// every declaration and main, through Grammar()
	simple := s.Grammar()
	if g.String() != before || !g.Equal(orig) {
		return errf("simplification modified its input: %s became %s", before, g.String())
	}
	sg, err := model.FromAST(simple)
	if err != nil {
		return errf("simplified grammar is malformed: %v\noriginal: %s", err, before)
	}
	if err := check("Grammar", sg); err != nil {
		return err
	}
	changed := sg.Canon() != c.G.Canon()
	o.LabelIf(changed, "changed")
	// a pattern on its own: its references keep the meaning of the original declarations
	lookup := ast.NewRefLookup(g)
	main := lookup["main"]
	mainBefore := main.String()
	sp := s.Simplify(main)
	if main.String() != mainBefore {
		return errf("Simplify modified its input: %s became %s", mainBefore, main.String())
	}
	mp, err := model.PatternFromAST(sp)
	if err != nil {
		return errf("simplified pattern is malformed: %v\noriginal: %s", err, before)
	}
	if !(mp.K == "ref" && mp.Ref == "main") { // the main pattern may be named instead of spelled
		g2 := &model.Grammar{Main: substMain(mp), Decls: append([]model.Decl{{Name: "main_", P: c.G.Main}}, c.G.Decls...)}
		g2 = renameMain(g2)
		if err := check("Simplify", g2); err != nil {
			return err
		}
		sp2 := s.Simplify(sp)
		mp2, err := model.PatternFromAST(sp2)
		if err != nil {
			return errf("twice simplified pattern is malformed: %v\noriginal: %s", err, before)
		}
		g3 := renameMain(&model.Grammar{Main: substMain(mp2), Decls: append([]model.Decl{{Name: "main_", P: c.G.Main}}, c.G.Decls...)})
		if err := check("Simplify twice", g3); err != nil {
			return err
		}
	}
	o.NonTrivialIf(changed && len(verdicts) > 0)
	o.Sample("%s became %s", before, simple.String())
	return nil
}

// substMain and renameMain make references to main refer to the original main pattern under another name.
func substMain(p *model.Pattern) *model.Pattern {
	q := clonePattern(p)
	q.Walk(func(x *model.Pattern) {
		if x.K == "ref" && x.Ref == "main" {
			x.Ref = "main_"
		}
	})
	return q
}

func renameMain(g *model.Grammar) *model.Grammar {
	for i := range g.Decls {
		g.Decls[i].P = substMain(g.Decls[i].P)
	}
	return g
}

// ---------------------------------------------------------------- V09

func genRecursive(t T) gd {
	c := confSmall()
	c.Decls = 4
	c.UnsafeRefs = true
	x := genSized(t, c, 2, 3, 30)
	return x
}

func runRecursion(c gd, o *core.Obs) error {
	g := c.G.ToAST()
	want := c.G.LeftRecursive()
	got := interp.HasRecursion(g)
	if got != want {
		return errf("HasRecursion is %v, but some reference can reach itself without passing a node: %v\ngrammar: %s", got, want, show(c.G))
	}
	refs := len(c.G.RefNames())
	o.NonTrivialIf(refs >= 1)
	o.LabelIf(want, "recursive")
	o.LabelIf(refs >= 2, "2-references")
	o.Sample("%v: %s", want, show(c.G))
	if want {
		return nil
	}
	for _, e := range []engine{engInterp, engIntern, engMem} {
		v, err := e.prep(c.G.ToAST())
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", e.name, err, show(c.G))
		}
		for _, ts := range c.Docs {
			p := model.NewTreeParser(ts)
			p.MaxCalls = 2*model.Size(ts) + 2
			if _, err := v(p); err != nil {
				if may, _ := c.G.ExprStatus(ts); !may {
					return errf("%s: error %v\ngrammar: %s", e.name, err, show(c.G))
				}
			}
		}
	}
	return nil
}

func init() {
	memHist := func(c histCase, o *core.Obs) error { return runHist(c, o, engMem) }
	ruleH := ruleGD + "; a history of 2 to 12 validations of these documents on one validator, some with an injected parser error, each compared with the denotation and with a fresh validator"
	core.Register(core.Spec{Prop: "V03", Name: "small", Quick: 16000, Thorough: 300000, Rule: ruleH},
		func(t T) histCase { return genHist(t, confSmall(), 5, 6, 40, 10) }, memHist)
	core.Register(core.Spec{Prop: "V03", Name: "bool", Quick: 16000, Thorough: 300000, Rule: ruleH + "; two names, nested operators"},
		func(t T) histCase { return genHist(t, confBool(), 6, 5, 40, 10) }, memHist)
	core.Register(core.Spec{Prop: "V03", Name: "expr", Quick: 16000, Thorough: 300000, Rule: ruleH + "; value expressions that may fail"},
		func(t T) histCase { return genHist(t, confExpr(), 6, 5, 40, 10) }, memHist)
	core.Register(core.Spec{Prop: "V03", Name: "names", Quick: 12000, Thorough: 200000, Rule: ruleH + "; names of every type with exceptions and choices over few literals"},
		func(t T) histCase {
			if gen.Chance(t, 2, 3) {
				return genNamesHist(t)
			}
			c := confSmall()
			c.Names = []string{"a", "b"}
			c.NoInter, c.NoContains = true, true
			return genHist(t, c, 6, 5, 40, 10)
		}, memHist)
	core.Register(core.Spec{Prop: "V03", Name: "collide", Quick: 10000, Thorough: 200000, Rule: ruleH + "; names, constants and references with equal hashes"},
		func(t T) histCase { return genHist(t, confCollide(), 5, 6, 40, 8) }, memHist)
	twins := "alternatives of sequences whose contents have equal hashes, so that only what follows tells them apart; a history as above; non-trivial as for V01"
	core.Register(core.Spec{Prop: "V02", Name: "twins", Quick: 6000, Thorough: 150000, Rule: twins},
		genTwins, func(c histCase, o *core.Obs) error { return runEngines(c.gd, o, engIntern) })
	core.Register(core.Spec{Prop: "V03", Name: "twins", Quick: 5000, Thorough: 150000, Rule: twins}, genTwins, memHist)
	core.Register(core.Spec{Prop: "V03", Name: "deep", Quick: 4000, Thorough: 100000, Rule: ruleH + "; deeper grammars"},
		func(t T) histCase { return genHist(t, confDeep(), 4, 6, 80, 8) }, memHist)

	autoHist := func(c histCase, o *core.Obs) error { return runHist(c, o, engAuto) }
	ruleA := ruleGD + "; at most 9 nodes, values and references, because compilation enumerates sets of them; a history of 2 to 8 documents on one automaton"
	core.Register(core.Spec{Prop: "V04", Name: "small", Quick: 5000, Thorough: 150000, Rule: ruleA},
		func(t T) histCase { return genSmallHist(t, confSmall(), 5, 5, 9, 6) }, autoHist)
	core.Register(core.Spec{Prop: "V04", Name: "bool", Quick: 5000, Thorough: 150000, Rule: ruleA + "; two names"},
		func(t T) histCase { return genSmallHist(t, confBool(), 5, 5, 9, 6) }, autoHist)
	core.Register(core.Spec{Prop: "V04", Name: "expr", Quick: 5000, Thorough: 150000, Rule: ruleA + "; value expressions that may fail"},
		func(t T) histCase { return genSmallHist(t, confExpr(), 5, 5, 9, 6) }, autoHist)

	core.Register(core.Spec{Prop: "V04", Name: "collide", Quick: 4000, Thorough: 100000, Rule: ruleA + "; names, constants and references with equal hashes"},
		func(t T) histCase { return genSmallHist(t, confCollide(), 5, 5, 9, 6) }, autoHist)
	core.Register(core.Spec{Prop: "V04", Name: "names", Quick: 6000, Thorough: 150000, Rule: ruleA + "; sequences of optional and repeated nodes whose names imply or exclude one another"},
		func(t T) histCase { return genNamesHist(t) }, autoHist)

	core.Register(core.Spec{Prop: "V04", Name: "twins", Quick: 3000, Thorough: 80000, Rule: twins}, genTwins, autoHist)
	core.Register(core.Spec{Prop: "V04", Name: "chain", Quick: 3000, Thorough: 60000, Rule: "chains of up to 100 nodes, below and after one another, so that some states are far from the start; the history as above; non-trivial as for V01"},
		genChain, autoHist)

	recRule := "grammars rich in .name:pattern under and, or, interleave and complement, and random grammars; documents reduced until no two siblings have equal labels or satisfy one literal name; non-trivial as for V01"
	core.Register(core.Spec{Prop: "V05", Name: "intern", Quick: 16000, Thorough: 300000, Rule: recRule},
		func(t T) gd { return genRecord(t) }, func(c gd, o *core.Obs) error { return runEngines(c, o, engInternRec) })
	core.Register(core.Spec{Prop: "V05", Name: "mem", Quick: 16000, Thorough: 300000, Rule: recRule},
		func(t T) gd { return genRecord(t) }, func(c gd, o *core.Obs) error { return runEngines(c, o, engMemRec) })
	mergeRule := "nested alternatives and conjunctions of fields over two names with repetitions; a history of 10 validations of 6 record documents on one validator; non-trivial as for V01"
	core.Register(core.Spec{Prop: "V05", Name: "merge", Quick: 10000, Thorough: 300000, Rule: mergeRule},
		genMerge, func(c histCase, o *core.Obs) error {
			if err := runHist(c, o, engMemRec); err != nil {
				return err
			}
			return runHist(c, o, engKept(true))
		})
	core.Register(core.Spec{Prop: "V02", Name: "kept", Quick: 10000, Thorough: 300000, Rule: ruleGD + "; a history of documents on one kept constructor with the exported derivative functions, each compared with the denotation and a fresh constructor"},
		func(t T) histCase {
			if gen.Chance(t, 1, 3) {
				return genMerge(t)
			}
			return genHist(t, gen.Pick(t, confSmall(), confBool()), 5, 6, 40, 8)
		}, func(c histCase, o *core.Obs) error { return runHist(c, o, engKept(false)) })
	core.Register(core.Spec{Prop: "V05", Name: "interp", Quick: 12000, Thorough: 200000, Rule: recRule + "; the grammar simplified for records, interpreted"},
		func(t T) gd { return genRecord(t) }, func(c gd, o *core.Obs) error { return runEngines(c, o, engInterpRec) })
	core.Register(core.Spec{Prop: "V05", Name: "auto", Quick: 6000, Thorough: 100000, Rule: recRule + "; compiled, at most 9 nodes and values"},
		func(t T) gd {
			for i := 0; i < 6; i++ {
				if x := genRecord(t); limitLeaves(x.G, 9) {
					return x
				}
			}
			x := gd{G: &model.Grammar{Main: recordPattern(t, 0)}}
			if !limitLeaves(x.G, 9) {
				x.G.Main = model.PAnd(model.PContains(model.PNode(model.NLit(model.LS("a")), model.PAny())), model.PAny())
			}
			for i := 0; i < 4; i++ {
				x.Docs = append(x.Docs, recordLimit(x.G, gen.Doc(t, x.G, 6)))
			}
			return x
		}, func(c gd, o *core.Obs) error { return runEngines(c, o, engAutoRec) })

	core.Register(core.Spec{Prop: "V06", Name: "all", Quick: 8000, Thorough: 150000, Rule: ruleGD + "; every engine twice over every document, with a monitoring parser that also bounds the number of moves; non-trivial: some engine descended"},
		func(t T) gd { return genSized(t, confSmall(), 4, 6, 40) }, func(c gd, o *core.Obs) error { return runProtocol(c, o, allEngines(false)...) })
	core.Register(core.Spec{Prop: "V06", Name: "expr", Quick: 6000, Thorough: 100000, Rule: ruleGD + "; as all, with expressions that may fail"},
		func(t T) gd { return genSized(t, confExpr(), 4, 6, 40) }, func(c gd, o *core.Obs) error { return runProtocol(c, o, allEngines(false)...) })
	core.Register(core.Spec{Prop: "V06", Name: "auto", Quick: 5000, Thorough: 80000, Rule: ruleA + "; as all, on compiled automata"},
		func(t T) gd { return genSmallHist(t, confSmall(), 5, 5, 8, 1).gd }, func(c gd, o *core.Obs) error { return runProtocol(c, o, engAuto, engAutoRec) })

	core.Register(core.Spec{Prop: "V07", Name: "engines", Quick: 6000, Thorough: 100000, Rule: ruleGD + "; every engine, with a parser error injected at every Next call of the run in turn; non-trivial: at least two faults were injected"},
		func(t T) gd { return genSized(t, confSmall(), 3, 5, 40) }, func(c gd, o *core.Obs) error { return runInjected(c, o, allEngines(false)...) })
	core.Register(core.Spec{Prop: "V07", Name: "auto", Quick: 4000, Thorough: 60000, Rule: ruleA + "; as engines, on compiled automata"},
		func(t T) gd { return genSmallHist(t, confSmall(), 4, 5, 8, 1).gd }, func(c gd, o *core.Obs) error { return runInjected(c, o, engAuto, engAutoRec) })

	simpRule := ruleGD + "; the simplifier's grammar and patterns are read back into the model and compared with the original on every document; non-trivial: simplification changed the grammar"
	genSimp := func(c gen.GConf, size int) func(t T) simpCase {
		return func(t T) simpCase {
			x := simpCase{gd: genSized(t, c, 5, 6, size)}
			shareSubpatterns(t, x.G)
			for x.G.LeftRecursive() {
				x.G.Decls, x.G.Main = nil, model.PAny()
			}
			return x
		}
	}
	core.Register(core.Spec{Prop: "V08", Name: "small", Quick: 16000, Thorough: 300000, Rule: simpRule}, genSimp(confSmall(), 40), runSimplify)
	core.Register(core.Spec{Prop: "V08", Name: "bool", Quick: 16000, Thorough: 300000, Rule: simpRule}, genSimp(confBool(), 40), runSimplify)
	core.Register(core.Spec{Prop: "V08", Name: "laws", Quick: 12000, Thorough: 300000, Rule: "one or two operators over small operands (the empty, any and impossible patterns, fields, references to nullable and other patterns, and combinations of these), compared on all 40 documents of up to 3 fields over 3 trees; non-trivial: simplification changed the grammar"},
		genSimpLaw, runSimplify)
	core.Register(core.Spec{Prop: "V08", Name: "expr", Quick: 16000, Thorough: 300000, Rule: simpRule}, genSimp(confExpr(), 40), runSimplify)

	core.Register(core.Spec{Prop: "V09", Name: "refs", Quick: 20000, Thorough: 400000, Terminates: true, Rule: "random grammars with up to 4 declarations and references placed anywhere; HasRecursion against reachability without passing a node; when it is false, every engine must finish on two documents; non-trivial: a reference occurs"},
		func(t T) gd { return genRecursive(t) }, runRecursion)
}
