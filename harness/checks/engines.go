// Package checks registers one or more generated checks per property.
package checks

import (
	"errors"
	"fmt"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/model"
)

type T = *rapid.T
type Str = model.Str

// validator is one prepared engine.
type validator func(p parser.Interface) (bool, error)

// engine prepares a grammar; prepErr means the grammar was refused.
type engine struct {
	name string
	prep func(g *ast.Grammar) (validator, error)
}

var errStates = errors.New("too many states")

var (
	engInterp = engine{"interp", func(g *ast.Grammar) (validator, error) {
		return func(p parser.Interface) (bool, error) { return interp.Interpret(g, p) }, nil
	}}
	engIntern = engine{"intern", func(g *ast.Grammar) (validator, error) {
		return func(p parser.Interface) (bool, error) { return intern.Interpret(g, false, p) }, nil
	}}
	engInternRec = engine{"intern-record", func(g *ast.Grammar) (validator, error) {
		return func(p parser.Interface) (bool, error) { return intern.Interpret(g, true, p) }, nil
	}}
	engMem = engine{"mem", func(g *ast.Grammar) (validator, error) {
		m, err := mem.New(g)
		if err != nil {
			return nil, err
		}
		return m.Validate, nil
	}}
	engMemRec = engine{"mem-record", func(g *ast.Grammar) (validator, error) {
		m, err := mem.NewRecord(g)
		if err != nil {
			return nil, err
		}
		return m.Validate, nil
	}}
	engAuto    = engine{"auto", prepAuto(auto.Compile)}
	engAutoRec = engine{"auto-record", prepAuto(auto.CompileRecord)}
)

// autoLimit bounds the states and transitions of a compilation; grammars beyond it are skipped.
const autoLimit = 500

func init() { auto.VerifLimit = autoLimit }

func prepAuto(f func(*ast.Grammar) (*auto.Auto, error)) func(g *ast.Grammar) (validator, error) {
	return func(g *ast.Grammar) (validator, error) {
		a, err := f(g)
		if err != nil {
			if err == auto.ErrTooManyStates {
				return nil, errStates
			}
			return nil, err
		}
		return a.Validate, nil
	}
}

// judge compares an engine's answer with the model's.
func judge(eng string, got bool, err error, want, mayErr bool, g *model.Grammar, ts []model.Tree) error {
	if err != nil {
		if mayErr {
			return nil
		}
		return fmt.Errorf("%s: error %v, want verdict %v\ngrammar: %s\ndocument: %s", eng, err, want, show(g), model.ForestString(ts))
	}
	if got != want {
		return fmt.Errorf("%s: verdict %v, want %v\ngrammar: %s\ndocument: %s", eng, got, want, show(g), model.ForestString(ts))
	}
	return nil
}

func show(g *model.Grammar) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("(unprintable) ", r)
		}
	}()
	return g.ToAST().String()
}

// gd is a grammar with documents.
type gd struct {
	G    *model.Grammar `json:"g"`
	Docs [][]model.Tree `json:"docs"`
}

func genGD(t T, c gen.GConf, docs, width int) gd {
	x := gd{G: gen.Grammar(t, c)}
	n := 1 + gen.N(t, docs)
	for i := 0; i < n; i++ {
		if i > 0 && gen.Chance(t, 1, 2) { // documents near one another are likely to differ in verdict
			x.Docs = append(x.Docs, gen.Limit(gen.Mutate(t, x.Docs[gen.N(t, i)]), width))
			continue
		}
		x.Docs = append(x.Docs, gen.Doc(t, x.G, width))
	}
	return x
}

// opCount counts the operators that are not plain structure.
func opCount(g *model.Grammar) (ops int, kinds map[string]bool) {
	kinds = map[string]bool{}
	g.Walk(func(p *model.Pattern) {
		kinds[p.K] = true
		switch p.K {
		case "empty", "any", "node", "leaf":
		default:
			ops++
		}
	})
	return
}
