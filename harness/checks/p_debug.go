package checks

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/debug"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// shown is the value that the debug package shows for a label: the first type it is readable as.
func shown(l model.Label) any {
	switch {
	case l.I != nil:
		return *l.I
	case l.U != nil:
		return *l.U
	case l.D != nil:
		return float64(*l.D)
	case l.B != nil:
		return *l.B
	case l.S != nil:
		return string(*l.S)
	case l.Y != nil:
		return []byte(*l.Y)
	}
	return nil
}

func nodesOf(ts []model.Tree) debug.Nodes {
	ns := debug.Nodes{}
	for _, t := range ts {
		n := debug.Node{Label: fmt.Sprintf("%v", shown(t.L))}
		if !t.Leaf {
			n.Children = nodesOf(t.C)
		}
		ns = append(ns, n)
	}
	return ns
}

func nodesEqual(a, b debug.Nodes) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Label != b[i].Label || !nodesEqual(a[i].Children, b[i].Children) {
			return false
		}
	}
	return true
}

type walkCase struct {
	Ts    []model.Tree `json:"ts"`
	Other []model.Tree `json:"other"`
	R     moves        `json:"r"`
	Next  int          `json:"next"`
	Down  int          `json:"down"`
}

// script is a source of random numbers.
type script struct{ pl *player }

func (s script) Intn(n int) int { return int(s.pl.next()) % n }

// randomWalk is what a random walk sees by the same numbers.
func randomWalk(ts []model.Tree, r script, next, down int) debug.Nodes {
	ns := debug.Nodes{}
	for i := 0; ; i++ {
		if r.Intn(next) == 0 || i >= len(ts) {
			return ns
		}
		n := debug.Node{Label: fmt.Sprintf("%#v", shown(ts[i].L))}
		if !ts[i].Leaf && r.Intn(down) != 0 {
			n.Children = randomWalk(ts[i].C, r, next, down)
		}
		ns = append(ns, n)
	}
}

func genWalk(t T) walkCase {
	c := walkCase{Ts: gen.Forest(t, 3, 3), Next: 1 + gen.N(t, 10), Down: 1 + gen.N(t, 4), R: genMoves(t, 30)}
	c.Other = c.Ts
	if gen.Chance(t, 2, 3) {
		c.Other = gen.Mutate(t, c.Ts)
	}
	return c
}

func runWalk(c walkCase, o *core.Obs) error {
	tp := model.NewTreeParser(c.Ts)
	got := debug.Walk(tp)
	want := nodesOf(c.Ts)
	if !nodesEqual(got, want) {
		return errf("Walk: want %v, got %v\ntree: %s", want, got, model.ForestString(c.Ts))
	}
	if tp.Breach != "" || !tp.Balanced() {
		return errf("Walk breaks the protocol of the parser: %s\ntree: %s", tp.Breach, model.ForestString(c.Ts))
	}
	other := nodesOf(c.Other)
	if eq := got.Equal(other); eq != nodesEqual(got, other) {
		return errf("Nodes.Equal of %v and %v is %v", got, other, eq)
	}
	if (got.String() == other.String()) != nodesEqual(got, other) && !ambiguousNodes(c.Ts) && !ambiguousNodes(c.Other) {
		return errf("Nodes.String of %v and %v", got, other)
	}
	for i, n := range got {
		// nodes whose labels are in the notation of trees
		flat := append(append(debug.Nodes{}, got[:i]...), debug.Node{Label: n.String()})
		flat = append(flat, got[i+1:]...)
		whole := debug.Nodes{{Label: got.String()}}
		for _, other := range []debug.Nodes{flat, whole} {
			if want := nodesEqual(got, other); got.Equal(other) != want || other.Equal(got) != want || n.Equal(other[0]) != nodesEqual(debug.Nodes{n}, other[:1]) {
				return errf("Nodes.Equal of %v and %#v is not %v", got, other, want)
			}
		}
		if !n.Equal(n) || !flat.Equal(flat) {
			return errf("%v does not equal itself", n)
		}
	}
	tp = model.NewTreeParser(c.Ts)
	got = debug.RandomWalk(tp, script{c.R.player()}, c.Next, c.Down)
	want = randomWalk(c.Ts, script{c.R.player()}, c.Next, c.Down)
	if !nodesEqual(got, want) {
		return errf("RandomWalk: want %v, got %v\ntree: %s", want, got, model.ForestString(c.Ts))
	}
	if tp.Breach != "" || !tp.Balanced() {
		return errf("RandomWalk breaks the protocol of the parser: %s\ntree: %s", tp.Breach, model.ForestString(c.Ts))
	}
	if got := debug.RandomWalk(model.NewTreeParser(c.Ts), debug.NewRand(), c.Next, c.Down); !prefixOf(got, c.Ts) {
		return errf("RandomWalk sees %v\ntree: %s", got, model.ForestString(c.Ts))
	}
	o.NonTrivialIf(model.Size(c.Ts) > 2)
	o.LabelIf(len(want) > 0, "random walk sees something")
	o.Sample("%s: %v", model.ForestString(c.Ts), want)
	return nil
}

// prefixOf tells whether a random walk could see these nodes.
func prefixOf(ns debug.Nodes, ts []model.Tree) bool {
	if len(ns) > len(ts) {
		return false
	}
	for i, n := range ns {
		if n.Label != fmt.Sprintf("%#v", shown(ts[i].L)) || !prefixOf(n.Children, ts[i].C) {
			return false
		}
	}
	return true
}

// ambiguousNodes tells whether the text of the nodes does not determine them: a node without children is shown
// like a leaf, and labels may contain the separators.
func ambiguousNodes(ts []model.Tree) bool {
	for _, t := range ts {
		if s, ok := shown(t.L).(string); ok && (s == "" || strings.ContainsAny(s, "{},:")) || !t.Leaf && len(t.C) == 0 || ambiguousNodes(t.C) {
			return true
		}
	}
	return false
}

// lines collects what is logged.
type lines struct{ ss []string }

func (l *lines) Printf(format string, v ...any) { l.ss = append(l.ss, fmt.Sprintf(format, v...)) }

type logCase struct {
	Ts    []model.Tree `json:"ts"`
	Moves moves        `json:"moves"`
	Fail  int          `json:"fail,omitempty"`
}

func genLog(t T) logCase {
	c := logCase{Ts: gen.Forest(t, 3, 3), Moves: genMoves(t, 40)}
	if gen.Chance(t, 1, 4) {
		c.Fail = 1 + gen.N(t, 6)
	}
	return c
}

// twin runs every call on two parsers and compares the answers.
type twin struct {
	a, b parser.Interface // a: wrapped
	diff string
	n    int
}

func twinValue[E any](w *twin, name string, a, b func() (E, error)) {
	w.n++
	x, ex := a()
	y, ey := b()
	if ex != ey || fmt.Sprintf("%#v", x) != fmt.Sprintf("%#v", y) {
		w.diff = fmt.Sprintf("%s: wrapped (%#v, %v), not wrapped (%#v, %v)", name, x, ex, y, ey)
	}
}

func runLog(c logCase, o *core.Obs) error {
	a, b := model.NewTreeParser(c.Ts), model.NewTreeParser(c.Ts)
	a.FailAt, b.FailAt = c.Fail, c.Fail
	a.FailErr = model.Faults[c.Fail%len(model.Faults)]
	b.FailErr = a.FailErr
	log := &lines{}
	w := &twin{a: debug.NewLogger(a, log), b: b}
	pl := c.Moves.player()
	state := []int{0} // per level: 0 before the first node, 1 on a node, 2 ended
	for k := 0; k < 60 && w.diff == ""; k++ {
		cur := &state[len(state)-1]
		lines := len(log.ss)
		switch x := pl.next() % 12; {
		case x < 4:
			if *cur == 2 {
				continue
			}
			w.n++
			ea, eb := w.a.Next(), w.b.Next()
			if ea != eb {
				w.diff = fmt.Sprintf("Next: wrapped %v, not wrapped %v", ea, eb)
			}
			*cur = 1
			if ea != nil {
				*cur = 2
			}
		case x == 4:
			if len(state) == 1 {
				continue
			}
			w.n++
			w.a.Up()
			w.b.Up()
			state = state[:len(state)-1]
		case *cur != 1:
			continue
		case x == 5:
			twinValue(w, "Double", w.a.Double, w.b.Double)
		case x == 6:
			twinValue(w, "Int", w.a.Int, w.b.Int)
		case x == 7:
			twinValue(w, "Uint", w.a.Uint, w.b.Uint)
		case x == 8:
			twinValue(w, "Bool", w.a.Bool, w.b.Bool)
		case x == 9:
			twinValue(w, "String", w.a.String, w.b.String)
		case x == 10:
			twinValue(w, "Bytes", w.a.Bytes, w.b.Bytes)
		default:
			w.n++
			la, lb := w.a.IsLeaf(), w.b.IsLeaf()
			if la != lb {
				w.diff = fmt.Sprintf("IsLeaf: wrapped %v, not wrapped %v", la, lb)
			}
			if !lb && pl.next()%4 != 0 {
				w.n++
				lines++
				w.a.Down()
				w.b.Down()
				state = append(state, 0)
			}
		}
		if w.diff == "" && len(log.ss) != lines+1 {
			w.diff = fmt.Sprintf("call %d logged %d lines", w.n, len(log.ss)-lines)
		}
	}
	if w.diff != "" {
		return errf("%s\ntree: %s\nlog: %s", w.diff, model.ForestString(c.Ts), strings.Join(log.ss, "; "))
	}
	if a.Calls != b.Calls || a.Downs != b.Downs || a.Ups != b.Ups || a.ValuesRead != b.ValuesRead {
		return errf("the wrapper makes other calls than it gets\ntree: %s", model.ForestString(c.Ts))
	}
	o.NonTrivialIf(w.n > 5 && a.Calls > 1)
	o.LabelIf(a.Failed, "parser error")
	o.Sample("%s: %d calls, log %s", model.ForestString(c.Ts), w.n, strings.Join(log.ss, "; "))
	return nil
}

// runValue wraps a value and reads it.
func runValue(c valueCase, o *core.Obs) error {
	o.NonTrivial()
	only := func(what string, v parser.Value, l model.Label) error {
		var err error
		check := func(kind string, has bool, want, got any, e, not error) {
			if has && (e != nil || fmt.Sprintf("%#v", want) != fmt.Sprintf("%#v", got)) || !has && e != not {
				err = errf("%s of %s: %s() is (%#v, %v)", what, l, kind, got, e)
			}
		}
		b, e := v.Bool()
		check("Bool", l.B != nil, deref(l.B), b, e, parser.ErrNotBool)
		i, e := v.Int()
		check("Int", l.I != nil, deref(l.I), i, e, parser.ErrNotInt)
		u, e := v.Uint()
		check("Uint", l.U != nil, deref(l.U), u, e, parser.ErrNotUint)
		d, e := v.Double()
		check("Double", l.D != nil, float64(deref(l.D)), d, e, parser.ErrNotDouble)
		s, e := v.String()
		check("String", l.S != nil, string(deref(l.S)), s, e, parser.ErrNotString)
		y, e := v.Bytes()
		check("Bytes", l.Y != nil, []byte(deref(l.Y)), y, e, parser.ErrNotBytes)
		return err
	}
	l := c.L
	var vs []parser.Value
	var ls []model.Label
	wrap := func(v parser.Value, l model.Label) { vs, ls = append(vs, v), append(ls, l) }
	if l.B != nil {
		wrap(debug.NewBoolValue(*l.B), model.LB(*l.B))
	}
	if l.I != nil {
		wrap(debug.NewIntValue(*l.I), model.LI(*l.I))
	}
	if l.U != nil {
		wrap(debug.NewUintValue(*l.U), model.LU(*l.U))
	}
	if l.D != nil {
		wrap(debug.NewDoubleValue(float64(*l.D)), model.LD(float64(*l.D)))
	}
	if l.S != nil {
		wrap(debug.NewStringValue(string(*l.S)), model.LS(string(*l.S)))
	}
	if l.Y != nil {
		wrap(debug.NewBytesValue([]byte(*l.Y)), model.LY(string(*l.Y)))
	}
	tp := model.NewTreeParser([]model.Tree{{L: l, Leaf: true}})
	if err := tp.Next(); err != nil {
		return &core.HarnessError{Msg: err.Error()}
	}
	wrap(debug.NewLogger(tp, &lines{}), l)
	for i, v := range vs {
		if err := only(fmt.Sprintf("wrapper %T", v), v, ls[i]); err != nil {
			return err
		}
		// the text of a value is the Go notation of one of its readings
		got, ok := parser.Sprint(v), false
		for _, w := range readings(ls[i]) {
			ok = ok || got == fmt.Sprintf("%#v", shown(w))
		}
		if !ok {
			return errf("Sprint(%s) is %s", ls[i], got)
		}
	}
	o.LabelIf(len(vs) > 2, "several types")
	o.Sample("%s: %s", l, parser.Sprint(vs[0]))
	return nil
}

// readings lists the values of a label, each as a label of one type.
func readings(l model.Label) (ls []model.Label) {
	if l.I != nil {
		ls = append(ls, model.LI(*l.I))
	}
	if l.U != nil {
		ls = append(ls, model.LU(*l.U))
	}
	if l.D != nil {
		ls = append(ls, model.LD(float64(*l.D)))
	}
	if l.B != nil {
		ls = append(ls, model.LB(*l.B))
	}
	if l.S != nil {
		ls = append(ls, model.LS(string(*l.S)))
	}
	if l.Y != nil {
		ls = append(ls, model.LY(string(*l.Y)))
	}
	if ls == nil {
		ls = []model.Label{{}}
	}
	return ls
}

func deref[E any](p *E) (v E) {
	if p != nil {
		v = *p
	}
	return v
}

type valueCase struct {
	L model.Label `json:"l"`
}

// runLines compares what the line logger writes with the calls.
func runLines(c logCase, o *core.Obs) error {
	f, err := os.CreateTemp("", "verif-lines-")
	if err != nil {
		return &core.HarnessError{Msg: err.Error()}
	}
	defer os.Remove(f.Name())
	defer f.Close()
	old := os.Stderr
	os.Stderr = f
	a, b := debug.NewLineLogger(), debug.NewDelayLogger(0)
	os.Stderr = old
	p := debug.NewLogger(model.NewTreeParser(c.Ts), a)
	q := debug.NewLogger(model.NewTreeParser(c.Ts), b)
	var want []string
	depth, line := 0, 0
	here := func(off int, text string) {
		_, _, line, _ = runtime.Caller(1)
		want = append(want, fmt.Sprintf("p_debug.go:%d: parser.%s", line+off, text), fmt.Sprintf("p_debug.go:%d: parser.%s", line+off+1, text))
	}
	pl := c.Moves.player()
	for k := 0; k < 12; k++ {
		here(1, "Next()")
		err := p.Next()
		q.Next()
		if err != nil {
			if depth == 0 {
				break
			}
			here(1, "Up()")
			p.Up()
			q.Up()
			depth--
			continue
		}
		here(1, "IsLeaf()")
		leaf := p.IsLeaf()
		q.IsLeaf()
		here(1, "String()")
		p.String()
		q.String()
		if !leaf && pl.next()%4 != 0 {
			here(1, "Down()")
			p.Down()
			q.Down()
			depth++
		}
	}
	text, err := os.ReadFile(f.Name())
	if err != nil {
		return &core.HarnessError{Msg: err.Error()}
	}
	// a value may have line breaks in it
	rest := string(text)
	for i, w := range want {
		j := strings.Index(rest, w)
		if j < 0 || i == 0 && j > 0 || j > 0 && rest[j-1] != '\n' {
			return errf("call %d: no line %q in what follows: %q\ntree: %s", i/2, w, rest, model.ForestString(c.Ts))
		}
		rest = rest[j+len(w):]
	}
	if strings.Contains(rest, "p_debug.go:") {
		return errf("more lines than calls: %q\ntree: %s", rest, model.ForestString(c.Ts))
	}
	o.NonTrivialIf(len(want) > 6)
	o.Sample("%s: %s", model.ForestString(c.Ts), text)
	return nil
}

func runLogEngines(c gd, o *core.Obs) error {
	m := model.NewMatcher(c.G)
	var verdicts []bool
	for _, e := range []engine{engInterp, engIntern, engMem, engAuto} {
		v, err := e.prep(c.G.ToAST())
		if err == errStates {
			continue
		}
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", e.name, err, show(c.G))
		}
		for _, ts := range c.Docs {
			mayErr, ambiguous := c.G.ExprStatus(ts)
			if ambiguous {
				continue
			}
			log := &lines{}
			got, err := v(debug.NewLogger(model.NewTreeParser(ts), log))
			if err := judge(e.name+" through a logger", got, err, m.Match(ts), mayErr, c.G, ts); err != nil {
				return err
			}
			verdicts = append(verdicts, m.Match(ts))
		}
	}
	observe(o, c.G, c.Docs, verdicts)
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "P13", Name: "walk", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random trees walked by debug.Walk and, with a scripted source of numbers, by debug.RandomWalk; the nodes are compared with the tree, Nodes.Equal and String with the nodes of a mutated tree; non-trivial: more than 2 nodes"},
		genWalk, runWalk)
	core.Register(core.Spec{Prop: "P13", Name: "logger", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random legal sequences of up to 60 calls on a parser and on the same parser behind a logger, with injected errors: equal answers, the same calls reach the parser, one line is logged for each; non-trivial: more than 5 calls"},
		genLog, runLog)
	core.Register(core.Spec{Prop: "P13", Name: "values", Quick: 60000, Thorough: 2000000, Terminates: true,
		Rule: "random values of one or several types: the wrappers of package debug and the logger are readable as exactly those types and values, with the error of the type otherwise, and parser.Sprint shows one of the readings; non-trivial: all"},
		func(t T) valueCase { return valueCase{gen.AnyLabel(t)} }, runValue)
	core.Register(core.Spec{Prop: "P13", Name: "lines", Quick: 4000, Thorough: 40000, Terminates: true,
		Rule: "random calls on parsers that log to the line and the delay logger: the standard error output has one line for each with the file and line of the caller; non-trivial: more than 3 calls"},
		genLog, runLines)
	core.Register(core.Spec{Prop: "P13", Name: "verdict", Quick: 1500, Thorough: 60000, Terminates: true,
		Rule: ruleGD + "; every engine reads the document through a logger"},
		func(t T) gd { return genGD(t, confSmall(), 2, 3) }, runLogEngines)
}
