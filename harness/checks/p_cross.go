package checks

import (
	"github.com/katydid/katydid/parser"
	sjson "github.com/katydid/katydid/parser/json"
	sproto "github.com/katydid/katydid/parser/proto"
	sreflect "github.com/katydid/katydid/parser/reflect"
	syaml "github.com/katydid/katydid/parser/yaml"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

// anyDoc is a document of one of the formats.
type anyDoc struct {
	Json  *jsonCase  `json:"json,omitempty"`
	Proto *protoCase `json:"proto,omitempty"`
	Xml   *docs.XDoc `json:"xml,omitempty"`
	Refl  *docs.RDoc `json:"reflect,omitempty"`
	Yaml  *docs.YDoc `json:"yaml,omitempty"`
}

func genAny(t T) anyDoc {
	var d anyDoc
	switch gen.W(t, 3, 3, 2, 3, 2) {
	case 0:
		x := genJSON(t)
		d.Json = &x
	case 1:
		s := docs.Schema(t, docs.PConf{})
		d.Proto = &protoCase{s, docs.Message(t, s, 1+gen.N(t, 3), docs.PEnc{Legal: gen.Chance(t, 2, 3), Width: 1 + gen.N(t, 5)})}
	case 2:
		x := genXML(t)
		d.Xml = &x
	case 3:
		x := genReflect(t)
		d.Refl = &x
	default:
		x := genYAML(t)
		d.Yaml = &x
	}
	return d
}

func (d anyDoc) format() string {
	switch {
	case d.Json != nil:
		return "json"
	case d.Proto != nil:
		return "proto"
	case d.Xml != nil:
		return "xml"
	case d.Refl != nil:
		return "reflect"
	}
	return "yaml"
}

func (d anyDoc) open() (parser.Interface, error) {
	switch {
	case d.Json != nil:
		p := sjson.NewJsonParser()
		return p, p.Init(held(d.Json.S))
	case d.Proto != nil:
		return d.Proto.open()
	case d.Xml != nil:
		p := xmlParser(*d.Xml)
		return p, p.Init(held(d.Xml.Text()))
	case d.Refl != nil:
		return sreflect.NewReflectParser().Init(d.Refl.Go()), nil
	}
	p := syaml.NewYamlParser()
	return p, p.Init(held(d.Yaml.Text()))
}

func (d anyDoc) tree() ([]model.Tree, error) {
	switch {
	case d.Json != nil:
		return docs.JSONTree([]byte(d.Json.S))
	case d.Proto != nil:
		return d.Proto.Schema.Tree([]byte(d.Proto.B))
	case d.Xml != nil:
		return d.Xml.Tree(), nil
	case d.Refl != nil:
		return d.Refl.Tree(), nil
	}
	return d.Yaml.Tree(), nil
}

func (d anyDoc) show() string {
	switch {
	case d.Json != nil:
		return string(d.Json.S)
	case d.Proto != nil:
		return d.Proto.show()
	case d.Xml != nil:
		return d.Xml.Text()
	case d.Refl != nil:
		return d.Refl.String()
	}
	return d.Yaml.Text()
}

type crossCase struct {
	G   *model.Grammar `json:"g"`
	Doc anyDoc         `json:"doc"`
}

// declare names some parts of a pattern by references.
func declare(t T, p *model.Pattern) *model.Grammar {
	g := &model.Grammar{Main: p}
	if !gen.Chance(t, 1, 3) {
		return g
	}
	var parts []*model.Pattern
	p.Walk(func(x *model.Pattern) {
		if x != p && x.K != "ref" && len(x.A) > 0 {
			parts = append(parts, x)
		}
	})
	if len(parts) == 0 {
		return g
	}
	x := parts[gen.N(t, len(parts))]
	y := *x
	g.Decls = append(g.Decls, model.Decl{Name: "part", P: &y})
	*x = *model.PRef("part")
	return g
}

func genCross(t T) crossCase {
	c := crossCase{Doc: genAny(t)}
	ts, err := c.Doc.tree()
	if err != nil || model.Size(ts) > 60 || model.MaxWidth(ts) > 12 || gen.Chance(t, 1, 5) {
		c.G = gen.Grammar(t, confSmall())
		return c
	}
	c.G = declare(t, gen.Describe(t, gen.DConf{Wrong: gen.Pick(t, 0, 4, 10, 30), Types: gen.Pick(t, "iudbsy", "sybdui", "dsbiuy")}, ts))
	gen.Tame(c.G, 5)
	return c
}

func runCross(c crossCase, o *core.Obs) error {
	ts, err := c.Doc.tree()
	if err != nil {
		return &core.HarnessError{Msg: err.Error()}
	}
	if model.MaxWidth(ts) > 12 || model.Size(ts) > 120 {
		o.Label("too big")
		return nil
	}
	mayErr, ambiguous := c.G.ExprStatus(ts)
	if ambiguous {
		o.Label("ambiguous-skipped")
		return nil
	}
	want := model.NewMatcher(c.G).Match(ts)
	es := []engine{engInterp, engIntern, engMem, engAuto}
	if model.DiffForest(recordLimit(c.G, ts), ts) == "" {
		es = append(es, engInternRec, engMemRec)
		o.Label("record")
	}
	for _, e := range es {
		v, err := e.prep(c.G.ToAST())
		if err == errStates {
			o.Label(e.name + "-too-many-states")
			continue
		}
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", e.name, err, show(c.G))
		}
		p, err := c.Doc.open()
		if err != nil {
			return errf("open: %v\ndocument: %s", err, c.Doc.show())
		}
		got, err := v(p)
		if err := judge(e.name, got, err, want, mayErr, c.G, ts); err != nil {
			return errf("%v\n%s document: %s", err, c.Doc.format(), c.Doc.show())
		}
	}
	ops, _ := opCount(c.G)
	o.NonTrivialIf(model.Size(ts) > 2 && (ops > 0 || want))
	o.Label(c.Doc.format())
	o.LabelIf(want, "accepted")
	o.LabelIf(want, c.Doc.format()+" accepted")
	o.Sample("%s on %s %s: %v", show(c.G), c.Doc.format(), c.Doc.show(), want)
	return nil
}

// ---------------------------------------------------------------- P11

type formatsCase struct {
	Doc docs.Common    `json:"doc"`
	G   *model.Grammar `json:"g"`
}

func genFormats(t T) formatsCase {
	num := gen.Pick(t, "i", "u", "d")
	c := formatsCase{Doc: docs.CommonValue(t, docs.CConf{Depth: 1 + gen.N(t, 3), Width: 2 + gen.N(t, 3), Numbers: num})}
	c.G = declare(t, gen.Describe(t, gen.DConf{NoErr: true, Types: num + "bs", NoIndex: num != "i", Wrong: gen.Pick(t, 0, 0, 4, 10, 30)}, c.Doc.Doc.Tree()))
	gen.Tame(c.G, 5)
	return c
}

func runFormats(c formatsCase, o *core.Obs) error {
	ts := c.Doc.Doc.Tree()
	if model.MaxWidth(ts) > 12 || model.Size(ts) > 120 {
		o.Label("too big")
		return nil
	}
	want := model.NewMatcher(c.G).Match(ts)
	text := docs.JSONText(ts)
	msg := c.Doc.Proto()
	pc := protoCase{c.Doc.Schema, core.Str(msg)}
	for _, e := range []engine{engMem, engInterp} {
		v, err := e.prep(c.G.ToAST())
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", e.name, err, show(c.G))
		}
		js := sjson.NewJsonParser()
		if err := js.Init(held(text)); err != nil {
			return errf("json: %v\ntext: %s", err, text)
		}
		pr, err := pc.open()
		if err != nil {
			return errf("proto: %v\n%s", err, pc.show())
		}
		for _, x := range []struct {
			name string
			p    parser.Interface
			doc  string
		}{{"go", sreflect.NewReflectParser().Init(c.Doc.Doc.Go()), c.Doc.Doc.String()}, {"json", js, text}, {"proto", pr, pc.show()}} {
			got, err := v(x.p)
			if err != nil || got != want {
				return errf("%s on %s: want %v, got %v (%v)\ngrammar: %s\n%s document: %s\ntree: %s", e.name, x.name, want, got, err, show(c.G), x.name, x.doc, model.ForestString(ts))
			}
		}
	}
	o.NonTrivialIf(model.Size(ts) > 2)
	o.LabelIf(want, "accepted")
	o.LabelIf(!want, "rejected")
	o.Sample("%s on %s: %v", show(c.G), text, want)
	return nil
}

// runCommonTrees compares the three trees themselves.
func runCommonTrees(c docs.Common, o *core.Obs) error {
	ts := c.Doc.Tree()
	pc := protoCase{c.Schema, core.Str(c.Proto())}
	ref, err := c.Schema.Tree([]byte(pc.B))
	if err != nil || model.DiffForest(ts, ref) != "" {
		return &core.HarnessError{Msg: "the message does not encode the value: " + pc.show() + " " + model.ForestString(ts)}
	}
	p, err := pc.open()
	if err != nil {
		return errf("proto: %v\n%s", err, pc.show())
	}
	if err := compareFull(p, ts, len(pc.B)); err != nil {
		return errf("proto: %v\n%s", err, pc.show())
	}
	if err := compareFull(sreflect.NewReflectParser().Init(c.Doc.Go()), ts, model.Size(ts)); err != nil {
		return errf("go: %v\n%v", err, c.Doc)
	}
	if err := sproto.NoLatentAppendingOrMerging(mustOpen(pc)); err != nil {
		return errf("a canonical message is said to be latent: %v\n%s", err, pc.show())
	}
	o.NonTrivialIf(model.Size(ts) > 2)
	o.Sample("%v", c.Doc)
	return nil
}

func mustOpen(c protoCase) sproto.ProtoParser {
	p, err := c.open()
	if err != nil {
		panic(&core.HarnessError{Msg: err.Error()})
	}
	return p
}

func init() {
	core.Register(core.Spec{Prop: "P11", Name: "verdicts", Quick: 12000, Thorough: 600000, Terminates: true,
		Rule: "random Go values of random types, as a Go value, as a message of the corresponding random schema and as a JSON object; grammars made from the value by generalising it (complements, interleaves, contains, intersections, repetitions, alternatives, references; half of them with wrong parts), over strings, bools and one family of numbers; the memoising validator and the interpreter must give the denotation's verdict on all three; non-trivial: more than 2 nodes"},
		genFormats, runFormats)
	core.Register(core.Spec{Prop: "P11", Name: "trees", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "random Go values, as a Go value and as a message of the corresponding random schema: both parsers present the same tree; non-trivial: more than 2 nodes"},
		func(t T) docs.Common {
			return docs.CommonValue(t, docs.CConf{Depth: 1 + gen.N(t, 3), Width: 2 + gen.N(t, 4), Bytes: true})
		}, runCommonTrees)
	core.Register(core.Spec{Prop: "V11", Name: "documents", Quick: 8000, Thorough: 400000, Terminates: true,
		Rule: "random JSON, protobuf, XML, YAML documents and Go values, read by the parsers of the repository, with grammars made from the document by generalising it (some parts wrong) or random ones: every engine, and the record optimised ones where the document is a record for the grammar, gives the verdict of the denotation on the tree of the independent reader; non-trivial: more than 2 nodes and a grammar with an operator or an accepted document"},
		genCross, runCross)
}
