package checks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/sets"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// zipCase is lists of patterns, each by its position among the patterns of a grammar and their derivatives;
// -1 is any and -2 is none.
type zipCase struct {
	G     *model.Grammar `json:"g"`
	Lists [][]int        `json:"lists"`
}

func genZip(t T, lists int) zipCase {
	c := gen.Pick(t, confSmall(), confBool(), confCollide())
	g := gen.Grammar(t, c)
	x := zipCase{G: g}
	n := 1 + gen.N(t, lists)
	for i := 0; i < n; i++ {
		if i > 0 && gen.Chance(t, 1, 4) { // again, or nearly
			l := append([]int{}, x.Lists[gen.N(t, i)]...)
			if len(l) > 0 {
				switch gen.N(t, 4) {
				case 1:
					l[gen.N(t, len(l))] = gen.N(t, 12) - 2
				case 2:
					l[0], l[len(l)-1] = l[len(l)-1], l[0]
				case 3:
					l = l[:len(l)-1]
				}
			}
			x.Lists = append(x.Lists, l)
			continue
		}
		m := gen.N(t, 8)
		if gen.Chance(t, 1, 20) {
			m = 60 + gen.N(t, 80) // more than a word of bits
		}
		l := make([]int, m)
		for j := range l {
			l[j] = gen.N(t, 12) - 2
			if j > 0 && gen.Chance(t, 1, 3) {
				l[j] = l[gen.N(t, j)]
			}
		}
		x.Lists = append(x.Lists, l)
	}
	return x
}

// internKey is the structure of an interned pattern.
func internKey(p *intern.Pattern) string {
	var w strings.Builder
	var walk func(p *intern.Pattern)
	walk = func(p *intern.Pattern) {
		fmt.Fprintf(&w, "(%d %q", p.Type, p.Ref)
		if p.Func != nil {
			fmt.Fprintf(&w, " %q %d", funcs.Sprint(p.Func), p.Func.Hash()) // the text alone hides the order of operands
		}
		for _, q := range p.Patterns {
			walk(q)
		}
		w.WriteString(")")
	}
	walk(p)
	return w.String()
}

func internKeys(ps []*intern.Pattern) []string {
	ks := make([]string, len(ps))
	for i := range ps {
		ks[i] = internKey(ps[i])
	}
	return ks
}

func astKey(p *ast.Pattern) (string, error) {
	m, err := model.PatternFromAST(p)
	if err != nil {
		return "", err
	}
	b, err := json.Marshal(m)
	return string(b), err
}

// internPool interns the patterns of the grammar, each twice from separate copies, and their derivatives.
func internPool(g *model.Grammar) ([]*intern.Pattern, intern.Construct, error) {
	c := intern.NewConstructor()
	if _, err := c.AddGrammar(g.ToAST()); err != nil {
		return nil, nil, err
	}
	var pool []*intern.Pattern
	var err error
	g.Walk(func(p *model.Pattern) {
		if err != nil || len(pool) > 40 {
			return
		}
		var q *intern.Pattern
		if q, err = c.NewPattern(p.ToAST()); err == nil {
			pool = append(pool, q)
		}
	})
	if err != nil {
		return nil, nil, err
	}
	for _, ie := range intern.DeriveCalls(c, pool) {
		pool = append(pool, ie.Thn, ie.Els)
	}
	return pool, c, nil
}

var (
	internAny  = fmt.Sprintf("(%d %q)", intern.ZAny, "")
	internNone = fmt.Sprintf("(%d %q%s)", intern.Not, "", internAny)
)

func trivialIntern(k string) bool { return k == internAny || k == internNone }

func pickIntern(pool []*intern.Pattern, c intern.Construct, l []int) []*intern.Pattern {
	ps := make([]*intern.Pattern, len(l))
	for i, j := range l {
		switch {
		case j == -1:
			ps[i] = c.NewZAny()
		case j == -2:
			ps[i] = c.NewNotZAny()
		default:
			ps[i] = pool[j*7%len(pool)]
			if j%2 == 1 { // an equal pattern that is another object
				d := *ps[i]
				ps[i] = &d
			}
		}
	}
	return ps
}

func runInternZip(c zipCase, o *core.Obs) error {
	pool, con, err := internPool(c.G)
	if err != nil {
		return errf("interning %s: %v", show(c.G), err)
	}
	some := false
	for _, l := range c.Lists {
		ps := pickIntern(pool, con, l)
		before := internKeys(ps)
		z := intern.Zip(ps)
		for i, k := range internKeys(ps) {
			if k != before[i] {
				return errf("zipping changed its argument at %d from %s to %s", i, before[i], k)
			}
		}
		un := z.Unzip()
		if err := sameKeys(before, internKeys(un)); err != nil {
			return errf("unzip(zip(%v)): %v\nlist: %v\ngrammar: %s", ps, err, l, show(c.G))
		}
		zk := internKeys(z.Patterns)
		if err := zipped(before, zk, trivialIntern); err != nil {
			return errf("zip(%v) = %v: %v\ngrammar: %s", ps, z.Patterns, err, show(c.G))
		}
		if err := checkBits(before, zk, z.Indexes, c.Lists, trivialIntern, internAny); err != nil {
			return errf("zip(%v) = %v %v: %v\ngrammar: %s", ps, z.Patterns, z.Indexes, err, show(c.G))
		}
		if len(zk) > 0 && len(zk) < len(ps) {
			some = true
		}
		o.Sample("zip(%v) = %v %v", ps, z.Patterns, z.Indexes)
	}
	o.NonTrivialIf(some)
	return nil
}

func sameKeys(want, got []string) error {
	if len(want) != len(got) {
		return errf("length %d, want %d", len(got), len(want))
	}
	for i := range want {
		if want[i] != got[i] {
			return errf("position %d is %s, want %s", i, got[i], want[i])
		}
	}
	return nil
}

// zipped: nothing is left but one of each of the patterns that are not trivial.
func zipped(orig, zk []string, trivial func(string) bool) error {
	in := map[string]bool{}
	for _, k := range orig {
		if !trivial(k) {
			in[k] = true
		}
	}
	seen := map[string]bool{}
	for _, k := range zk {
		if !in[k] {
			return errf("%s is kept", k)
		}
		if seen[k] {
			return errf("%s occurs twice", k)
		}
		seen[k] = true
	}
	if len(seen) != len(in) {
		return errf("%d patterns are kept, want %d", len(seen), len(in))
	}
	return nil
}

// checkBits unzips bit vectors and compares them with the position each bit belongs to.
func checkBits(orig, zk []string, indexes []int, lists [][]int, trivial func(string) bool, anyKey string) error {
	for round := 0; round < 3; round++ {
		b := sets.NewBits(len(zk))
		val := map[string]bool{}
		for i, k := range zk {
			v := (i*(round+3)+len(lists)*round+len(orig))%3 == round%3
			b.Set(i, v)
			val[k] = v
		}
		got := sets.UnzipBits(b, indexes)
		if len(got) != len(orig) {
			return errf("unzipped %d bits, want %d", len(got), len(orig))
		}
		for i, k := range orig {
			want := val[k]
			if trivial(k) {
				want = k == anyKey
			}
			if got[i] != want {
				return errf("bit %d of the unzipped vector (for %s) is %v, want %v", i, k, got[i], want)
			}
		}
	}
	return nil
}

func runSetsZip(c zipCase, o *core.Obs) error {
	var pool []*ast.Pattern
	c.G.Walk(func(p *model.Pattern) { pool = append(pool, p.ToAST()) })
	anyKey, err := astKey(ast.NewZAny())
	if err != nil {
		return err
	}
	noneKey, err := astKey(ast.NewNot(ast.NewZAny()))
	if err != nil {
		return err
	}
	trivial := func(k string) bool { return k == anyKey || k == noneKey }
	keys := func(ps []*ast.Pattern) ([]string, error) {
		ks := make([]string, len(ps))
		for i := range ps {
			if ks[i], err = astKey(ps[i]); err != nil {
				return nil, err
			}
		}
		return ks, nil
	}
	set := sets.NewPatterns()
	index := map[string]int{}
	some := false
	for _, l := range c.Lists {
		ps := make([]*ast.Pattern, len(l))
		for i, j := range l {
			switch {
			case j == -1:
				ps[i] = ast.NewZAny()
			case j == -2:
				ps[i] = ast.NewNot(ast.NewZAny())
			default:
				ps[i] = pool[j*7%len(pool)]
				if j%2 == 1 {
					ps[i] = ps[i].Clone()
				}
			}
		}
		before, err := keys(ps)
		if err != nil {
			return err
		}
		zs, is := sets.Zip(ps)
		after, err := keys(ps)
		if err != nil {
			return err
		}
		if err := sameKeys(before, after); err != nil {
			return errf("zipping changed its argument: %v", err)
		}
		un, err := keys(sets.Unzip(zs, is))
		if err != nil {
			return err
		}
		if err := sameKeys(before, un); err != nil {
			return errf("unzip(zip(%v)): %v", ps, err)
		}
		zk, err := keys(zs)
		if err != nil {
			return err
		}
		if err := zipped(before, zk, trivial); err != nil {
			return errf("zip(%v) = %v: %v", ps, zs, err)
		}
		if err := checkBits(before, zk, is, c.Lists, trivial, anyKey); err != nil {
			return errf("zip(%v) = %v %v: %v", ps, zs, is, err)
		}
		if len(zk) > 0 && len(zk) < len(ps) {
			some = true
		}
		k := strings.Join(before, "\n")
		want, ok := index[k]
		if got := set.Index(ps); ok && got != want || !ok && got != -1 {
			return errf("index of %v is %d, want %d (known: %v)", ps, got, want, ok)
		}
		if !ok {
			want = len(index)
			index[k] = want
		}
		if got := set.Add(ps); got != want {
			return errf("adding %v gives the index %d, want %d", ps, got, want)
		}
		if got := set.Index(ps); got != want {
			return errf("index of %v after adding it is %d, want %d", ps, got, want)
		}
		o.Sample("zip(%v) = %v %v", ps, zs, is)
	}
	o.NonTrivialIf(some)
	return nil
}

// runSetOfPatterns adds lists to the state set of the validator and compares every stored fact with the list itself.
func runSetOfPatterns(c zipCase, o *core.Obs) error {
	pool, con, err := internPool(c.G)
	if err != nil {
		return errf("interning %s: %v", show(c.G), err)
	}
	set := intern.NewSetOfPatterns()
	index := map[string]int{}
	lists := map[int][]*intern.Pattern{}
	again := false
	key := func(ps []*intern.Pattern) string {
		if ps == nil { // no list may be told from the empty list: that makes no difference to the outcome
			return "nil"
		}
		return strings.Join(internKeys(ps), "\n")
	}
	verify := func(i int) error {
		ps, s := lists[i], set.Get(i)
		if s.Index != i {
			return errf("state %d has the index %d", i, s.Index)
		}
		keys := internKeys(ps)
		if err := sameKeys(keys, internKeys(s.Patterns)); err != nil {
			return errf("state %d: %v", i, err)
		}
		bits := set.SetOfBits[s.NullIndex]
		escapable := false
		for j, p := range ps {
			if bits.Get(j) != p.Nullable() {
				return errf("state %d: nullability of %v is %v in the state", i, p, bits.Get(j))
			}
			if !trivialIntern(keys[j]) {
				escapable = true
			}
		}
		if s.Escapable != escapable {
			return errf("state %d of %v: escapable is %v", i, ps, s.Escapable)
		}
		if s.Accept != (len(ps) == 1 && ps[0].Nullable()) {
			return errf("state %d of %v: accept is %v", i, ps, s.Accept)
		}
		z := &intern.ZippedPatterns{Patterns: set.Get(s.IndexOfZippedPatterns).Patterns, Indexes: set.SetOfZipIndexes[s.IndexOfZippedIndexes]}
		if err := sameKeys(keys, internKeys(z.Unzip())); err != nil {
			return errf("state %d of %v: unzipping its zipped state: %v", i, ps, err)
		}
		un := sets.UnzipBits(set.SetOfBits[set.Get(s.IndexOfZippedPatterns).NullIndex], z.Indexes)
		for j, p := range ps {
			if un[j] != p.Nullable() {
				return errf("state %d of %v: unzipped nullability of %v is %v", i, ps, p, un[j])
			}
		}
		return nil
	}
	for _, l := range c.Lists {
		ps := pickIntern(pool, con, l)
		k := key(ps)
		got := set.Add(ps)
		want, ok := index[k]
		if ok {
			again = true
			if got != want {
				return errf("adding %v again gives the index %d, want %d\ngrammar: %s", ps, got, want, show(c.G))
			}
		} else {
			if _, used := lists[got]; used {
				return errf("adding %v gives the index %d of %v\ngrammar: %s", ps, got, lists[got], show(c.G))
			}
			index[k], lists[got] = got, ps
		}
		if n := set.Add(ps); n != got {
			return errf("adding %v twice gives the indexes %d and %d", ps, got, n)
		}
		// the zipped list of a state is a state as well
		for i := set.Get(got).IndexOfZippedPatterns; ; i = set.Get(i).IndexOfZippedPatterns {
			if _, ok := lists[i]; ok {
				break
			}
			lists[i] = set.Get(i).Patterns
			k := key(lists[i])
			if j, ok := index[k]; ok {
				return errf("%v has the indexes %d and %d\ngrammar: %s", lists[i], i, j, show(c.G))
			}
			index[k] = i
		}
	}
	_, nilState := index["nil"]
	_, emptyState := index[""]
	var is []int
	for i := range lists {
		is = append(is, i)
	}
	sort.Ints(is)
	for _, i := range is {
		if err := verify(i); err != nil {
			return errf("%v\ngrammar: %s", err, show(c.G))
		}
	}
	if n := len(set.List); n != len(index) && !(n+1 == len(index) && nilState && emptyState) {
		return errf("%d states for %d distinct lists\ngrammar: %s", len(set.List), len(index), show(c.G))
	}
	o.LabelIf(again, "re-added")
	o.NonTrivialIf(len(index) > 2)
	o.Sample("%d lists, %d states", len(c.Lists), len(set.List))
	return nil
}

type bitsOp struct {
	K string `json:"k"` // set clear inc
	I int    `json:"i,omitempty"`
}

type bitsCase struct {
	Size int      `json:"size"`
	Ops  []bitsOp `json:"ops"`
}

// runBits replays operations on a bit vector and on a list of booleans, collecting every state in a set.
func runBits(c bitsCase, o *core.Obs) error {
	b := sets.NewBits(c.Size)
	ref := make([]bool, c.Size)
	set := sets.NewBitsSet()
	index := map[string]int{}
	copied := func() sets.Bits {
		d := sets.NewBits(c.Size)
		for i, v := range ref {
			d.Set(i, v)
		}
		return d
	}
	check := func(what string) error {
		for i, v := range ref {
			if b.Get(i) != v {
				return errf("after %s: bit %d of %d is %v, want %v", what, i, c.Size, b.Get(i), v)
			}
		}
		d := copied()
		if !b.Equal(d) || !d.Equal(b) {
			return errf("after %s: not equal to the same bits", what)
		}
		if c.Size > 0 {
			for _, i := range []int{0, c.Size / 2, c.Size - 1} {
				d.Set(i, !ref[i])
				if b.Equal(d) || d.Equal(b) {
					return errf("after %s: equal to bits that differ in bit %d", what, i)
				}
				d.Set(i, ref[i])
			}
		}
		if b.Equal(sets.NewBits(c.Size+1)) || b.Equal(sets.NewBits(c.Size+64)) {
			return errf("equal to a longer vector")
		}
		k := fmt.Sprint(ref)
		want, ok := index[k]
		if !ok {
			want = len(index)
			if got := set.Index(b); got != -1 {
				return errf("after %s: index %d of an unknown vector", what, got)
			}
			index[k] = want
		}
		if got := set.Add(copied()); got != want {
			return errf("after %s: index %d, want %d", what, got, want)
		}
		if got := set.Index(b); got != want {
			return errf("after %s: looked up index %d, want %d", what, got, want)
		}
		return nil
	}
	if err := check("creation"); err != nil {
		return err
	}
	for _, op := range c.Ops {
		switch op.K {
		case "set", "clear":
			if c.Size == 0 {
				continue
			}
			b.Set(op.I%c.Size, op.K == "set")
			ref[op.I%c.Size] = op.K == "set"
		case "ones": // carries
			for i := 0; i < c.Size && i < op.I; i++ {
				b.Set(i, true)
				ref[i] = true
			}
		case "inc":
			full := true
			for _, v := range ref {
				full = full && v
			}
			if full {
				continue
			}
			old := b
			b = b.Inc()
			for i, v := range ref {
				if old.Get(i) != v {
					return errf("counting up changed bit %d of the %d bits counted up from", i, c.Size)
				}
			}
			for i := range ref {
				ref[i] = !ref[i]
				if ref[i] {
					break
				}
			}
		}
		if err := check(fmt.Sprintf("%s %d", op.K, op.I)); err != nil {
			return err
		}
	}
	for _, i := range []int{-1, c.Size, c.Size + 1, c.Size + 63} { // beyond its end there are no bits
		if !panics(func() { b.Get(i) }) || !panics(func() { d := copied(); d.Set(i, true) }) {
			return errf("bit %d of %d exists", i, c.Size)
		}
	}
	o.NonTrivialIf(len(index) > 1)
	o.LabelIf(c.Size > 64, "words")
	o.Sample("%d bits, %v", c.Size, c.Ops)
	return nil
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

type indexCase struct {
	Lists [][]int `json:"lists"`
}

func runIndex(c indexCase, o *core.Obs) error {
	ints, pairs := sets.NewInts(), sets.NewPairs()
	ik, pk := map[string]int{}, map[sets.Pair]int{}
	again := false
	for _, l := range c.Lists {
		k := fmt.Sprint(l)
		want, ok := ik[k]
		if !ok {
			if got := ints.Index(l); got != -1 {
				return errf("index %d of the unknown list %v", got, l)
			}
			want = len(ik)
			ik[k] = want
		}
		again = again || ok
		if got := ints.Add(append([]int{}, l...)); got != want {
			return errf("list %v has the index %d, want %d", l, got, want)
		}
		if got := ints.Index(l); got != want {
			return errf("list %v is found at %d, want %d", l, got, want)
		}
		if len(l) >= 2 {
			p := sets.Pair{First: l[0], Second: l[1]}
			want, ok := pk[p]
			if !ok {
				if got := pairs.Index(p); got != -1 {
					return errf("index %d of the unknown pair %v", got, p)
				}
				want = len(pk)
				pk[p] = want
			}
			if got := pairs.Add(p); got != want {
				return errf("pair %v has the index %d, want %d", p, got, want)
			}
			if got := pairs.Index(p); got != want {
				return errf("pair %v is found at %d, want %d", p, got, want)
			}
		}
	}
	o.NonTrivialIf(again && len(ik) > 1)
	o.Sample("%v", c.Lists)
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "Z01", Name: "intern", Quick: 20000, Thorough: 500000,
		Rule: "lists of interned patterns and their derivatives with repetitions, other objects equal to them and trivial patterns, also with equal hashes; non-trivial: something is dropped and something kept"},
		func(t T) zipCase { return genZip(t, 3) }, runInternZip)
	core.Register(core.Spec{Prop: "Z01", Name: "sets", Quick: 20000, Thorough: 500000,
		Rule: "the same over syntax tree patterns, with a history of the index set of pattern lists; non-trivial: something is dropped and something kept"},
		func(t T) zipCase { return genZip(t, 4) }, runSetsZip)
	core.Register(core.Spec{Prop: "Z01", Name: "states", Quick: 20000, Thorough: 500000,
		Rule: "histories of adding pattern lists to the state set of the validator, every stored fact compared with its list afterwards; non-trivial: more than 2 distinct lists"},
		func(t T) zipCase { return genZip(t, 10) }, runSetOfPatterns)
	core.Register(core.Spec{Prop: "Z01", Name: "bits", Quick: 20000, Thorough: 500000,
		Rule: "histories of setting, clearing and incrementing bit vectors of up to 200 bits against a list of booleans, and of the set of the vectors passed; non-trivial: more than one distinct vector"},
		func(t T) bitsCase {
			c := bitsCase{Size: gen.Pick(t, 1, 2, 3, 8, 0, 63, 64, 65, 127, 128, 129, 200, gen.N(t, 200))}
			n := 1 + gen.N(t, 25)
			for i := 0; i < n; i++ {
				op := bitsOp{K: gen.Pick(t, "inc", "set", "clear", "inc", "ones")}
				if op.K != "inc" {
					op.I = gen.Pick(t, gen.N(t, c.Size+1), 63, 64, 65, 128)
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runBits)
	core.Register(core.Spec{Prop: "Z01", Name: "index", Quick: 20000, Thorough: 500000,
		Rule: "histories of adding integer lists and pairs to their index sets; non-trivial: a list comes again and two differ"},
		func(t T) indexCase {
			var c indexCase
			n := 1 + gen.N(t, 12)
			for i := 0; i < n; i++ {
				l := []int{}
				for j := gen.N(t, 5); j > 0; j-- {
					l = append(l, gen.N(t, 4)-2)
				}
				c.Lists = append(c.Lists, l)
			}
			return c
		}, runIndex)
}
