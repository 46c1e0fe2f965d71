package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	eproto "github.com/katydid/katydid/encode/proto"
	"github.com/katydid/katydid/parser"
	sproto "github.com/katydid/katydid/parser/proto"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
	rparser "github.com/katydid/katydid/relapse/parser"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

// The work done at the same time: the cases of other checks, each of which uses only objects of its own.
var concurrentJobs = []string{
	"P01/text", "P02/text", "P03/messages", "P04/messages", "P05/documents", "P06/text", "P07/values", "P08/documents",
	"P03/schemas", "P11/verdicts", "P12/messages", "P13/walk", "P13/verdict", "P14/tokens", "P14/unmarshal",
	"E01/documents", "E01/trees", "E02/messages", "E02/values", "E03/messages", "E03/values", "E03/embedded", "E04/documents", "E04/trees",
	"V01/small", "V02/small", "V02/bool", "V03/small", "V03/expr", "V04/small", "V05/mem", "V05/auto", "V08/laws", "V09/refs", "V11/documents",
	"F01/nested", "F01/builtin", "F03/functions", "F04/text", "F05/names", "F07/calls", "F07/engines", "F08/text",
	"S01/grammars", "S03/grammars", "S04/near", "S05/spelled", "S05/match", "S06/clone", "S06/walk", "S07/grammars", "S08/grammars", "Z01/intern", "Z01/bits",
}

type job struct {
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
}

type concCase struct {
	Jobs   []job `json:"jobs"`
	Copies int   `json:"copies"` // of each job
}

func genConc(t T) concCase {
	var c concCase
	n := 1 + gen.N(t, 4)
	base := gen.N(t, len(concurrentJobs))
	for i := 0; i < n; i++ {
		name := concurrentJobs[base]
		if i > 0 && gen.Chance(t, 2, 3) { // alike, or anything
			name = concurrentJobs[gen.N(t, len(concurrentJobs))]
		}
		f := strings.Split(name, "/")
		c.Jobs = append(c.Jobs, job{name, core.Find(f[0], f[1]).Draw(t)})
	}
	c.Copies = 1 + gen.N(t, 3)
	if n == 1 && c.Copies == 1 {
		c.Copies = 2
	}
	return c
}

// rounds is how often a case is run: a schedule cannot be replayed, so a replay tries more of them.
func rounds() int {
	if os.Getenv("VERIF_SINGLE") != "" {
		return 40
	}
	return 1
}

// together runs functions at the same time, as closely as possible, and returns their errors.
func together(fs []func() error) []error {
	errs := make([]error, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			<-start
			errs[i] = fs[i]()
		}(i)
	}
	close(start)
	wg.Wait()
	return errs
}

func runConc(c concCase, o *core.Obs) error {
	run := func(j job) error {
		f := strings.Split(j.Sub, "/")
		s := core.Find(f[0], f[1])
		if s == nil {
			return &core.HarnessError{Msg: "no sub " + j.Sub}
		}
		_, err := s.RunRaw(j.Case)
		return err
	}
	var fs []func() error
	for k := 0; k < c.Copies; k++ {
		for _, j := range c.Jobs {
			fs = append(fs, func() error { return run(j) })
		}
	}
	for r := rounds(); r > 0; r-- {
		for i, err := range together(fs) {
			if err == nil {
				continue
			}
			if he, ok := err.(*core.HarnessError); ok {
				return he
			}
			j := c.Jobs[i%len(c.Jobs)]
			if run(j) != nil { // wrong on its own: not this property
				o.Label("wrong alone")
				return nil
			}
			return errf("%s is right on its own and wrong while others run: %v", j.Sub, err)
		}
	}
	o.Label(fmt.Sprintf("%d at a time", len(fs)))
	for _, j := range c.Jobs {
		o.Label(j.Sub[:1])
	}
	o.NonTrivialIf(len(fs) > 1)
	var names []string
	for _, j := range c.Jobs {
		names = append(names, j.Sub)
	}
	o.Sample("%dx %v", c.Copies, names)
	return nil
}

type sharedCase struct {
	Text string         `json:"text"`
	Docs [][]model.Tree `json:"docs"`
	Ops  []int          `json:"ops"`
}

func genShared(t T) sharedCase {
	c := genSized(t, confSmall(), 2, 4, 14)
	gen.Tame(c.G, 3) // the race detector makes everything slower
	s := sharedCase{Docs: c.Docs, Text: string(gen.GrammarText(t, c.G, gen.RandomLayout(t)).S)}
	for n := 2 + gen.N(t, 4); n > 0; n-- {
		s.Ops = append(s.Ops, gen.N(t, 9))
	}
	if gen.Chance(t, 1, 2) { // twice the same
		s.Ops[0] = s.Ops[1]
	}
	return s
}

// runShared: one grammar is read by many at the same time.
func runShared(c sharedCase, o *core.Obs) error {
	g, err := rparser.ParseGrammar(c.Text)
	if err != nil {
		return err
	}
	verdicts := func(prep func() (func(parser.Interface) (bool, error), error)) (string, error) {
		v, err := prep()
		if err != nil { // how many states there are may vary
			return strings.Repeat("?", len(c.Docs)), nil
		}
		res := ""
		for _, d := range c.Docs {
			ok, err := v(model.NewTreeParser(d))
			switch {
			case err != nil: // and so may whether an expression that fails is evaluated
				res += "?"
			case ok:
				res += "T"
			default:
				res += "F"
			}
		}
		return res, nil
	}
	eng := func(e engine, g *ast.Grammar) (string, error) {
		return verdicts(func() (func(parser.Interface) (bool, error), error) {
			v, err := e.prep(g)
			return v, err
		})
	}
	op := func(k int, g *ast.Grammar) (string, error) {
		switch k {
		case 0:
			return g.String(), nil
		case 1:
			h := g.Clone()
			h.Format()
			return h.String(), nil
		case 2:
			return verdicts(func() (func(parser.Interface) (bool, error), error) {
				m, err := relapse.Prepare(g)
				if err != nil {
					return nil, err
				}
				return func(p parser.Interface) (bool, error) { return relapse.Validate(m, p) }, nil
			})
		case 3:
			return eng(engInterp, g)
		case 4:
			return eng(engIntern, g)
		case 5:
			return eng(engAuto, g)
		case 6:
			return eng(engInterp, interp.NewSimplifier(g).Grammar()) // its text may vary
		case 7:
			b, err := g.Marshal()
			return string(b), err
		}
		return fmt.Sprint(interp.HasRecursion(g), g.GoString()), nil
	}
	got := make([]string, len(c.Ops))
	var fs []func() error
	for i, k := range c.Ops {
		fs = append(fs, func() (err error) {
			got[i], err = op(k, g)
			return err
		})
	}
	for r := rounds(); r > 0; r-- {
		for i, err := range together(fs) {
			h, perr := rparser.ParseGrammar(c.Text)
			if perr != nil {
				return errf("parsed a second time: %v: %q", perr, c.Text)
			}
			want, werr := "", error(nil)
			for _, e := range together([]func() error{func() error { want, werr = op(c.Ops[i], h); return werr }}) {
				werr = e
			}
			if few := errStates.Error(); err != nil && err.Error() == few || werr != nil && werr.Error() == few {
				o.Label("too many states") // the bound of the check may be met or not, with the order of compilation
				continue
			}
			if fmt.Sprint(err) != fmt.Sprint(werr) {
				return errf("operation %d of %v: %v, alone %v\ngrammar: %q", c.Ops[i], c.Ops, err, werr, c.Text)
			}
			if verdict := c.Ops[i] >= 2 && c.Ops[i] <= 6; verdict && len(got[i]) == len(want) {
				for k := range want {
					if got[i][k] != want[k] && got[i][k] != '?' && want[k] != '?' {
						return errf("operation %d of %v: verdicts %s, alone %s\ngrammar: %q", c.Ops[i], c.Ops, got[i], want, c.Text)
					}
				}
			} else if got[i] != want {
				return errf("operation %d of %v: %q, alone %q\ngrammar: %q", c.Ops[i], c.Ops, got[i], want, c.Text)
			}
		}
	}
	o.NonTrivialIf(len(g.String()) > 20)
	o.Sample("%v on %q", c.Ops, c.Text)
	return nil
}

type descCase struct {
	Schema *docs.PSchema `json:"schema"`
	Bs     []core.Str    `json:"bs"`
	Ops    []int         `json:"ops"` // for each message; 0: walk, 1: validate, 2: encode, 3: check for latent merging
}

func genSharedDesc(t T) descCase {
	c := descCase{Schema: docs.Schema(t, docs.PConf{})}
	for n := 2 + gen.N(t, 4); n > 0; n-- {
		c.Bs = append(c.Bs, genEnc(t, c.Schema))
		c.Ops = append(c.Ops, gen.N(t, 4))
	}
	return c
}

// runSharedDesc: one description of messages is read by many at the same time.
func runSharedDesc(c descCase, o *core.Obs) error {
	pkg, msg := c.Schema.RootName()
	op := func(k int, b core.Str, desc *descriptor.FileDescriptorSet) (string, error) {
		p, err := sproto.NewProtoParser(pkg, msg, desc)
		if err != nil {
			return "", err
		}
		if err := p.Init(held(b)); err != nil {
			return "", err
		}
		switch k {
		case 0:
			ts, err := fullTree(p, len(b))
			return model.ForestString(ts), err
		case 1:
			g, err := rparser.ParseGrammar("(*;_:*)")
			if err != nil {
				return "", err
			}
			ok, err := interp.Interpret(g, p)
			return fmt.Sprint(ok), err
		case 2:
			e, err := eproto.NewEncoder(desc, pkg, msg)
			if err != nil {
				return "", err
			}
			out, err := e.Encode(nil, p)
			return string(out), err
		}
		return "", sproto.NoLatentAppendingOrMerging(p)
	}
	desc := c.Schema.Desc()
	got := make([]string, len(c.Ops))
	var fs []func() error
	for i, k := range c.Ops {
		fs = append(fs, func() (err error) {
			got[i], err = op(k, c.Bs[i], desc)
			return err
		})
	}
	for r := rounds(); r > 0; r-- {
		for i, err := range together(fs) {
			want, werr := op(c.Ops[i], c.Bs[i], c.Schema.Desc())
			if fmt.Sprint(err) != fmt.Sprint(werr) || got[i] != want {
				return errf("operation %d of %v: %q %v, alone %q %v\n%s", i, c.Ops, got[i], err, want, werr, jsonOf(c))
			}
		}
	}
	o.NonTrivialIf(len(c.Bs[0])+len(c.Bs[1]) > 10)
	o.Sample("%v on %s", c.Ops, jsonOf(c.Schema))
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "C01", Name: "description", Quick: 8000, Thorough: 50000,
		Rule: "one description of protobuf messages is used by parsers, encoders and checks of several messages at the same time, under the race detector: no race, and the results are those with a description of their own; non-trivial: more than 10 bytes"}, genSharedDesc, runSharedDesc)
	core.Register(core.Spec{Prop: "C01", Name: "separate", Quick: 14000, Thorough: 100000,
		Rule: "cases of 50 other sub-checks run at the same time, each with its own objects, under the race detector: no race, and each is right if it is right alone; non-trivial: more than one at a time"}, genConc, runConc)
	core.Register(core.Spec{Prop: "C01", Name: "shared", Quick: 8000, Thorough: 50000,
		Rule: "one parsed grammar is printed, cloned, simplified, written and prepared by several engines at the same time, under the race detector: no race, and the results are those for a grammar of their own; non-trivial: more than 20 bytes of grammar"}, genShared, runShared)
}
