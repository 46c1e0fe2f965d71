package checks

import (
	"github.com/katydid/katydid/parser"
	sjson "github.com/katydid/katydid/parser/json"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

type jsonCase struct {
	S core.Str `json:"s"`
}

func genJSON(t T) jsonCase {
	return jsonCase{docs.JSON(t, docs.JConf{Depth: 1 + gen.N(t, 4), Width: 1 + gen.N(t, 4)})}
}

func runJSON(c jsonCase, o *core.Obs) error {
	text := held(c.S)
	want, err := docs.JSONTree(text)
	if err != nil {
		return &core.HarnessError{Msg: "generated text is not JSON: " + string(c.S)}
	}
	p := sjson.NewJsonParser()
	if err := p.Init(text); err != nil {
		return errf("Init refuses valid JSON: %v\ntext: %q", err, text)
	}
	if err := compareFull(p, want, len(text)); err != nil {
		return errf("%v\ntext: %q", err, text)
	}
	if string(text) != string(c.S) {
		return errf("the buffer was changed")
	}
	o.NonTrivialIf(model.Size(want) > 1)
	o.LabelIf(model.Depth(want) > 3, "deep")
	o.Sample("%s", c.S)
	return nil
}

func genBadJSON(t T) jsonCase {
	if gen.Chance(t, 1, 5) {
		var s string
		for i := gen.N(t, 12); i > 0; i-- {
			s += gen.Pick(t, docs.JSONAlphabet...)
		}
		return jsonCase{core.Str(s)}
	}
	b := []byte(docs.JSON(t, docs.JConf{Depth: 1 + gen.N(t, 3), Width: 1 + gen.N(t, 3)}))
	return jsonCase{core.Str(docs.Mutate(t, b, docs.JSONAlphabet))}
}

func runBadJSON(c jsonCase, o *core.Obs) error {
	text := held(c.S)
	want, bad := docs.JSONTree(text)
	p := sjson.NewJsonParser()
	err := p.Init(text)
	var got []model.Tree
	if err == nil {
		got, err = fullTree(p, len(text))
	}
	if err == model.ErrBudget {
		return errf("walking does not end\ntext: %q", text)
	}
	if bad != nil && err == nil {
		return errf("presented as a complete tree, but it is not JSON: %s\ntext: %q", model.ForestString(got), text)
	}
	if bad == nil {
		if err != nil {
			return errf("valid JSON ends with error %v\ntext: %q", err, text)
		}
		if d := model.DiffForest(want, got); d != "" {
			return errf("%s\ntext: %q", d, text)
		}
	}
	if err := within(func(buf []byte) (parser.Interface, error) {
		p := sjson.NewJsonParser()
		return p, p.Init(buf)
	}, string(c.S), got, err); err != nil {
		return err
	}
	o.NonTrivialIf(bad != nil && len(got) > 0 || bad == nil && len(want) > 0)
	o.LabelIf(bad != nil, "malformed")
	o.LabelIf(bad != nil && len(got) > 0, "malformed after some nodes")
	o.Sample("%q: %v", text, err)
	return nil
}

var jsonFormat = format[jsonCase]{
	name: "json",
	gen:  genJSON,
	more: func(t T, _ jsonCase) jsonCase { return genJSON(t) },
	open: func(c jsonCase) (parser.Interface, error) {
		p := sjson.NewJsonParser()
		return p, p.Init(held(c.S))
	},
	again: func(p parser.Interface, c jsonCase) error { return p.(sjson.JsonParser).Init(held(c.S)) },
	reset: func(p parser.Interface) error { return p.(sjson.JsonParser).Reset() },
	want:  func(c jsonCase) ([]model.Tree, error) { return docs.JSONTree([]byte(c.S)) },
	show:  func(c jsonCase) string { return string(c.S) },
	n:     [4]int{60000, 2000000, 30000, 1000000},
}

func init() {
	registerFormat(jsonFormat)
	core.Register(core.Spec{Prop: "P01", Name: "text", Quick: 200000, Thorough: 6000000, Terminates: true,
		Rule: "random valid JSON texts (nesting, space, every number notation, every escape, brackets inside of strings, duplicate and empty names); the full walk is compared with the tokens of encoding/json, every label in all six types; non-trivial: more than one node"},
		genJSON, runJSON)
	core.Register(core.Spec{Prop: "P02", Name: "text", Quick: 200000, Thorough: 6000000, Terminates: true,
		Rule: "damaged JSON texts (truncated, deleted, inserted, replaced, repeated pieces) and random sequences of tokens; the full walk ends with an error exactly when encoding/json says the text is invalid and otherwise with the tree; non-trivial: at least one node was presented"},
		genBadJSON, runBadJSON)
}
