package checks

import (
	"github.com/katydid/katydid/parser"
	syaml "github.com/katydid/katydid/parser/yaml"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

func genYAML(t T) docs.YDoc { return docs.YAML(t, gen.N(t, 4), 1+gen.N(t, 4)) }

func runYAML(d docs.YDoc, o *core.Obs) error {
	text := d.Text()
	want := d.Tree()
	p := syaml.NewYamlParser()
	buf := held(text)
	if err := p.Init(buf); err != nil {
		return errf("Init: %v\ntext: %q", err, text)
	}
	if err := compareFull(p, want, len(text)); err != nil {
		return errf("%v\ntext: %q", err, text)
	}
	if string(buf) != text {
		return errf("the buffer was changed")
	}
	o.NonTrivialIf(model.Size(want) > 2)
	o.LabelIf(model.Depth(want) > 3, "deep")
	o.Sample("%q", text)
	return nil
}

type badYAML struct {
	S core.Str `json:"s"`
}

func genBadYAML(t T) badYAML {
	if gen.Chance(t, 1, 4) {
		var s string
		for i := gen.N(t, 14); i > 0; i-- {
			s += gen.Pick(t, docs.YAMLAlphabet...)
		}
		return badYAML{core.Str(s)}
	}
	s := genYAML(t).Text()
	if gen.Chance(t, 1, 4) {
		return badYAML{core.Str(s[:gen.N(t, len(s)+1)])}
	}
	return badYAML{core.Str(docs.Mutate(t, []byte(s), docs.YAMLAlphabet))}
}

func runBadYAML(c badYAML, o *core.Obs) error {
	p := syaml.NewYamlParser()
	err := p.Init(held(c.S))
	var got []model.Tree
	if err == nil {
		got, err = fullTree(p, len(c.S))
	}
	if err == model.ErrBudget {
		return errf("walking does not end\ntext: %q", string(c.S))
	}
	if err := within(func(buf []byte) (parser.Interface, error) {
		p := syaml.NewYamlParser()
		return p, p.Init(buf)
	}, string(c.S), got, err); err != nil {
		return err
	}
	pl := &player{b: []byte(c.S)}
	if err := p.Init(held(c.S)); err == nil {
		wander(p, pl, 64+len(c.S))
	}
	o.NonTrivialIf(len(got) > 0)
	o.LabelIf(err != nil, "error")
	o.LabelIf(err != nil && len(got) > 0, "error after some nodes")
	o.Sample("%q: %v", string(c.S), err)
	return nil
}

func init() {
	registerFormat(format[docs.YDoc]{
		name: "yaml",
		gen:  genYAML,
		more: func(t T, _ docs.YDoc) docs.YDoc { return genYAML(t) },
		open: func(d docs.YDoc) (parser.Interface, error) {
			p := syaml.NewYamlParser()
			return p, p.Init(held(d.Text()))
		},
		again: func(p parser.Interface, d docs.YDoc) error { return p.(syaml.YamlParser).Init(held(d.Text())) },
		reset: func(p parser.Interface) error { return p.(syaml.YamlParser).Reset() },
		want:  func(d docs.YDoc) ([]model.Tree, error) { return d.Tree(), nil },
		show:  docs.YDoc.Text,
		n:     [4]int{40000, 1000000, 20000, 500000},
	})
	core.Register(core.Spec{Prop: "P08", Name: "documents", Quick: 60000, Thorough: 3000000, Terminates: true,
		Rule: "random documents of the supported subset (block mappings and sequences in any nesting, sequence elements that are scalars or mappings with one key, plain scalars of every kind, keys without value, blank lines, trailing spaces, indentation by spaces or tabs, both line ends) against the tree they were built from; non-trivial: more than 2 nodes"},
		genYAML, runYAML)
	core.Register(core.Spec{Prop: "P08", Name: "text", Quick: 40000, Thorough: 3000000, Terminates: true,
		Rule: "damaged YAML texts and random sequences of tokens, walked completely and by random moves: every walk ends with a tree or an error; non-trivial: at least one node was presented"},
		genBadYAML, runBadYAML)
}
