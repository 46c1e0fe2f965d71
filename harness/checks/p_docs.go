package checks

import (
	"io"

	"github.com/katydid/katydid/parser"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// format is one document format under test: how its documents are made, how a parser of the repository
// reads one and which tree it denotes.
type format[C any] struct {
	name  string
	gen   func(T) C
	more  func(T, C) C // another document that the parser of the given one can read
	open  func(C) (parser.Interface, error)
	again func(parser.Interface, C) error // initialise the parser with another document
	reset func(parser.Interface) error
	want  func(C) ([]model.Tree, error)
	show  func(C) string
	// stream: a label can no longer be read after its node was visited
	stream bool
	n      [4]int // cases: P09 quick, thorough, P10 quick, thorough
}

type navCase[C any] struct {
	Doc   C     `json:"doc"`
	Moves moves `json:"moves"`
}

type reuseStep[C any] struct {
	Doc   *C    `json:"doc,omitempty"` // nil: reset
	Moves moves `json:"moves"`
	Stop  int   `json:"stop"` // the walk is abandoned after so many steps
}

type reuseCase[C any] struct {
	First C              `json:"first"`
	Steps []reuseStep[C] `json:"steps"`
}

func registerFormat[C any](f format[C]) {
	core.Register(core.Spec{Prop: "P09", Name: f.name, Quick: f.n[0], Thorough: f.n[1], Terminates: true,
		Rule: "random " + f.name + " documents walked by random sequences of moves (skip a node, descend, leave a level at any point, read or do not read labels, read again after a visit), everything that is seen is compared with the tree the document denotes; non-trivial: at least 2 nodes were seen and something was skipped or left early"},
		func(t T) navCase[C] { return navCase[C]{f.gen(t), genMoves(t, 24)} },
		func(c navCase[C], o *core.Obs) error {
			want, err := f.want(c.Doc)
			if err != nil {
				return &core.HarnessError{Msg: err.Error()}
			}
			p, err := f.open(c.Doc)
			if err != nil {
				return errf("open: %v\ndocument: %s", err, f.show(c.Doc))
			}
			pl := c.Moves.player()
			pl.stream = f.stream
			budget := never
			if err := navigate(p, want, pl, "", &budget); err != nil {
				return errf("%v\ndocument: %s\ntree: %s", err, f.show(c.Doc), model.ForestString(want))
			}
			o.NonTrivialIf(pl.seen > 1 && pl.skip+pl.part > 0)
			o.LabelIf(pl.skip > 0, "skipped")
			o.LabelIf(pl.part > 0, "left early")
			o.Sample("%s: %d seen, %d skipped, %d levels left early", f.show(c.Doc), pl.seen, pl.skip, pl.part)
			return nil
		})
	core.Register(core.Spec{Prop: "P10", Name: f.name, Quick: f.n[2], Thorough: f.n[3], Terminates: true,
		Rule: "random sequences of " + f.name + " documents on one parser: each walk is abandoned at a random point, then the parser is initialised with another document or reset, and walked completely or partly; non-trivial: a walk was abandoned below the top and the last document has more than one node"},
		func(t T) reuseCase[C] {
			c := reuseCase[C]{First: f.gen(t)}
			for i := 1 + gen.N(t, 4); i > 0; i-- {
				st := reuseStep[C]{Moves: genMoves(t, 12), Stop: gen.N(t, 14)}
				if f.reset == nil || !gen.Chance(t, 1, 3) {
					d := f.more(t, c.First)
					st.Doc = &d
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		},
		func(c reuseCase[C], o *core.Obs) error {
			p, err := f.open(c.First)
			if err != nil {
				return errf("open: %v\ndocument: %s", err, f.show(c.First))
			}
			want, err := f.want(c.First)
			if err != nil {
				return &core.HarnessError{Msg: err.Error()}
			}
			cur := c.First
			deep := false
			for i, st := range c.Steps {
				budget := st.Stop
				pl := st.Moves.player()
				pl.stream = f.stream
				if err := navigate(p, want, pl, "", &budget); err != nil {
					return errf("walk %d: %v\ndocument: %s\ntree: %s", i, err, f.show(cur), model.ForestString(want))
				}
				deep = deep || budget == 0 && st.Stop > 1
				how := "reset"
				if st.Doc == nil {
					err = f.reset(p)
				} else {
					how = "initialised"
					cur = *st.Doc
					err = f.again(p, cur)
				}
				if err != nil {
					return errf("after walk %d the parser cannot be %s: %v\ndocument: %s", i, how, err, f.show(cur))
				}
				if want, err = f.want(cur); err != nil {
					return &core.HarnessError{Msg: err.Error()}
				}
				if i == len(c.Steps)-1 {
					if err := compareFull(p, want, 1<<20); err != nil {
						return errf("after the parser was %s: %v\ndocument: %s", how, err, f.show(cur))
					}
				}
			}
			o.NonTrivialIf(deep && model.Size(want) > 1)
			o.Sample("%d documents, last %s", len(c.Steps)+1, f.show(cur))
			return nil
		})
}

// ---- random navigation ----

// moves is a replayable sequence of choices.
type moves struct {
	B core.Str `json:"b"`
}

func genMoves(t T, n int) moves {
	var b []byte
	for i := gen.N(t, n); i >= 0; i-- {
		b = append(b, byte(gen.N(t, 256)))
	}
	return moves{core.Str(b)}
}

type player struct {
	b      []byte
	i      int
	seen   int // nodes
	skip   int // nodes that were not entered
	part   int // levels that were left early
	stream bool
}

func (m moves) player() *player { return &player{b: []byte(m.B)} }

func (p *player) next() byte {
	if len(p.b) == 0 {
		return 0
	}
	c := p.b[p.i%len(p.b)]
	p.i++
	return c ^ byte(p.i/len(p.b)*37)
}

// navigate moves through a parser by the choices of pl and compares everything that is seen with the tree.
// It returns early, without going up, when budget is used up (budget < 0: never).
func navigate(p parser.Interface, want []model.Tree, pl *player, path string, budget *int) error {
	for i := 0; ; i++ {
		if *budget == 0 {
			return nil
		}
		*budget--
		c := pl.next()
		if c%8 == 0 { // leave this level early
			pl.part++
			return nil
		}
		err := p.Next()
		if i >= len(want) {
			if err != io.EOF {
				if err == nil {
					return errf("at %s/%d: unexpected node %v, the level has ended", path, i, model.ReadLabel(p))
				}
				return errf("at %s/%d: want the end of the level, got error %v", path, i, err)
			}
			return nil
		}
		if err != nil {
			return errf("at %s/%d: want %v, got error %v", path, i, want[i], err)
		}
		pl.seen++
		if c&0x08 != 0 {
			if l := model.ReadLabel(p); !l.Equal(want[i].L) {
				return errf("at %s/%d: label: want %v, got %v", path, i, want[i].L, l)
			}
		}
		if leaf := p.IsLeaf(); leaf != want[i].Leaf {
			return errf("at %s/%d (%v): leaf: want %v, got %v", path, i, want[i].L, want[i].Leaf, leaf)
		}
		if want[i].Leaf {
			continue
		}
		if c&0x30 == 0 {
			pl.skip++
			continue
		}
		p.Down()
		if err := navigate(p, want[i].C, pl, path+"/"+itoa(i), budget); err != nil {
			return err
		}
		if *budget == 0 {
			return nil
		}
		p.Up()
		if c&0x40 != 0 && !pl.stream { // the label is still there after the visit
			if l := model.ReadLabel(p); !l.Equal(want[i].L) {
				return errf("at %s/%d: label after the visit: want %v, got %v", path, i, want[i].L, l)
			}
		}
	}
}

func itoa(i int) string { return string([]byte(jsonOf(i))) }

const never = 1 << 40

func fullTree(p parser.Interface, size int) ([]model.Tree, error) {
	budget := 64 + 16*size
	return model.ReadForest(p, &budget)
}

func compareFull(p parser.Interface, want []model.Tree, size int) error {
	got, err := fullTree(p, size)
	if err != nil {
		return errf("walking ends with error %v after %s", err, model.ForestString(got))
	}
	if d := model.DiffForest(want, got); d != "" {
		return errf("%s\nwant %s\ngot  %s", d, model.ForestString(want), model.ForestString(got))
	}
	return nil
}
