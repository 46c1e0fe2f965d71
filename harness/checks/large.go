package checks

import (
	"runtime/debug"

	"github.com/katydid/katydid/parser"
	sproto "github.com/katydid/katydid/parser/proto"
	sreflect "github.com/katydid/katydid/parser/reflect"
	sxml "github.com/katydid/katydid/parser/xml"
	syaml "github.com/katydid/katydid/parser/yaml"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

// grown is a small document and how it is made large.
type grown[C any] struct {
	D C         `json:"d"`
	G docs.Grow `json:"g"`
}

const largeRule = " made large: strings of lengths around the powers of two up to 2 MiB, lists of up to 4000 elements, up to 1000 levels of nesting"

func registerLarge[C any](prop string, f format[C], grow func(C, docs.Grow) C, quick, thorough int) {
	x := func(g grown[C]) C { return grow(g.D, g.G) }
	registerLong(prop, f, grow, 80, 4000)
	l := format[grown[C]]{
		name:   "large " + f.name,
		gen:    func(t T) grown[C] { return grown[C]{f.gen(t), docs.Growth(t)} },
		more:   func(t T, g grown[C]) grown[C] { return grown[C]{f.more(t, g.D), docs.Growth(t)} },
		open:   func(g grown[C]) (parser.Interface, error) { return f.open(x(g)) },
		again:  func(p parser.Interface, g grown[C]) error { return f.again(p, x(g)) },
		reset:  f.reset,
		want:   func(g grown[C]) ([]model.Tree, error) { return f.want(x(g)) },
		show:   func(g grown[C]) string { return f.show(x(g)) },
		stream: f.stream,
		n:      [4]int{quick / 2, thorough / 2, quick / 2, thorough / 2},
	}
	registerFormat(l)
	core.Register(core.Spec{Prop: prop, Name: "large", Quick: quick, Thorough: thorough, Terminates: true,
		Rule: "random documents" + largeRule + "; the full walk is compared with the tree that the document denotes; non-trivial: more than 2 nodes, or more than 1000 bytes"},
		l.gen, func(g grown[C], o *core.Obs) error {
			d := x(g)
			want, err := f.want(d)
			if err != nil {
				return &core.HarnessError{Msg: err.Error()}
			}
			p, err := f.open(d)
			if err != nil {
				return errf("open: %v\ndocument: %s", err, f.show(d))
			}
			if err := compareFull(p, want, 1<<20); err != nil {
				return errf("%v\ndocument: %s", err, f.show(d))
			}
			show := f.show(d)
			o.NonTrivialIf(model.Size(want) > 2 || len(show) > 1000)
			o.LabelIf(len(show) > 5000, "5 KB")
			o.LabelIf(len(show) > 100000, "100 KB")
			o.LabelIf(len(show) > 2000000, "2 MB")
			o.LabelIf(model.Depth(want) > 60, "deep")
			o.LabelIf(model.Size(want) > 300, "300 nodes")
			o.Sample("%s", show)
			return nil
		})
}

// longStack is the room on the stack in the subs on long documents. Nothing there is nested deeply, so that only
// something that is called again for every element of a list needs more.
const longStack = 16 << 20

const longRule = " with lists of 60 thousand to 300 thousand elements, on a stack of 16 MB, which suffices unless the stack grows with every element"

// registerLong is for documents with very long lists.
func registerLong[C any](prop string, f format[C], grow func(C, docs.Grow) C, quick, thorough int) {
	type long = grown[C]
	gener := func(t T) long { return long{f.gen(t), docs.Lengthen(t)} }
	core.Register(core.Spec{Prop: prop, Name: "long", Quick: quick, Thorough: thorough, Terminates: true,
		Rule: "random documents" + longRule + "; the full walk is compared with the tree that the document denotes, then a walk by random moves on a parser that is initialised again, and the full walk again after a reset; non-trivial: more than 10000 nodes, or more than 100000 bytes"},
		func(t T) navCase[long] { return navCase[long]{gener(t), genMoves(t, 24)} },
		func(c navCase[long], o *core.Obs) error {
			defer debug.SetMaxStack(debug.SetMaxStack(longStack))
			d := grow(c.Doc.D, c.Doc.G)
			want, err := f.want(d)
			if err != nil {
				return &core.HarnessError{Msg: err.Error()}
			}
			show := func() string { return clip(f.show(d), 2000) }
			p, err := f.open(d)
			if err != nil {
				return errf("open: %v\ndocument: %s", err, show())
			}
			full := func(when string) error {
				got, err := fullTree(p, 1<<22)
				if err != nil {
					return errf("%s ends with error %v after %d nodes\ndocument: %s", when, err, model.Size(got), show())
				}
				if d := model.DiffForest(want, got); d != "" {
					return errf("%s: %s\ndocument: %s", when, clip(d, 2000), show())
				}
				return nil
			}
			if err := full("the walk"); err != nil {
				return err
			}
			if err := f.again(p, d); err != nil {
				return errf("initialised again: %v\ndocument: %s", err, show())
			}
			pl := c.Moves.player()
			pl.stream = f.stream
			budget := never
			if err := navigate(p, want, pl, "", &budget); err != nil {
				return errf("%v\ndocument: %s", err, show())
			}
			if f.reset != nil {
				err = f.reset(p)
			} else {
				err = f.again(p, d)
			}
			if err != nil {
				return errf("reset: %v\ndocument: %s", err, show())
			}
			if err := full("the walk after a reset"); err != nil {
				return err
			}
			o.NonTrivialIf(model.Size(want) > 10000 || len(f.show(d)) > 100000)
			o.LabelIf(model.Size(want) > 100000, "100000 nodes")
			o.LabelIf(pl.skip > 1000, "skipped 1000")
			o.Sample("%d nodes, %d seen, %d skipped, %d levels left early: %s", model.Size(want), pl.seen, pl.skip, pl.part, clip(f.show(d), 200))
			return nil
		})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func growProto(c protoCase, g docs.Grow) protoCase {
	return protoCase{c.Schema, core.Str(c.Schema.Grow([]byte(c.B), g))}
}

func growJSON(c jsonCase, g docs.Grow) jsonCase {
	return jsonCase{core.Str(docs.GrowJSON([]byte(c.S), g))}
}

func (d anyDoc) grow(g docs.Grow) anyDoc {
	switch {
	case d.Json != nil:
		x := growJSON(*d.Json, g)
		return anyDoc{Json: &x}
	case d.Proto != nil:
		x := growProto(*d.Proto, g)
		return anyDoc{Proto: &x}
	case d.Xml != nil:
		x := d.Xml.Grow(g)
		return anyDoc{Xml: &x}
	case d.Refl != nil:
		x := d.Refl.Grow(g)
		return anyDoc{Refl: &x}
	}
	x := d.Yaml.Grow(g)
	return anyDoc{Yaml: &x}
}

func growHist(h protoHist, g docs.Grow) protoHist {
	r := protoHist{Schema: h.Schema}
	for i, s := range h.Steps {
		if s.Go != nil {
			x := s.Go.Grow(g)
			s.Go = &x
		} else {
			s.B = core.Str(h.Schema.Grow([]byte(s.B), g))
		}
		if i > 0 && len(g.Lens) > 1 { // the next ones differ
			g.Lens = append(append([]int{}, g.Lens[1:]...), g.Lens[0])
		}
		r.Steps = append(r.Steps, s)
	}
	return r
}

// plainProto is a message that no other message of its fields is appended to or merged into.
func genPlainProto(t T) protoCase {
	s := docs.Schema(t, docs.PConf{})
	return protoCase{s, docs.Message(t, s, 1+gen.N(t, 3), docs.PEnc{Legal: gen.Chance(t, 1, 2), Unknown: true, Width: 1 + gen.N(t, 5)})}
}

func init() {
	registerLarge("P01", jsonFormat, growJSON, 6000, 300000)
	registerLarge("P03", format[protoCase]{
		name:  "proto",
		gen:   genPlainProto,
		more:  func(t T, c protoCase) protoCase { return protoCase{c.Schema, genEnc(t, c.Schema)} },
		open:  func(c protoCase) (parser.Interface, error) { return c.open() },
		again: func(p parser.Interface, c protoCase) error { return p.(sproto.ProtoParser).Init(held(c.B)) },
		reset: func(p parser.Interface) error { return p.(sproto.ProtoParser).Reset() },
		want:  func(c protoCase) ([]model.Tree, error) { return c.Schema.Tree([]byte(c.B)) },
		show:  protoCase.show,
	}, growProto, 6000, 300000)
	registerLarge("P05", format[docs.XDoc]{
		name: "xml",
		gen:  genXML,
		more: func(t T, d docs.XDoc) docs.XDoc {
			e := genXML(t)
			e.AP, e.EP, e.TP = d.AP, d.EP, d.TP
			return e
		},
		open: func(d docs.XDoc) (parser.Interface, error) {
			p := xmlParser(d)
			return p, p.Init(held(d.Text()))
		},
		again:  func(p parser.Interface, d docs.XDoc) error { return p.(sxml.XMLParser).Init(held(d.Text())) },
		reset:  func(p parser.Interface) error { return p.(sxml.XMLParser).Reset() },
		want:   func(d docs.XDoc) ([]model.Tree, error) { return d.Tree(), nil },
		show:   docs.XDoc.Text,
		stream: true,
	}, docs.XDoc.Grow, 4000, 200000)
	registerLarge("P07", format[docs.RDoc]{
		name:  "reflect",
		gen:   genReflect,
		more:  func(t T, _ docs.RDoc) docs.RDoc { return genReflect(t) },
		open:  func(d docs.RDoc) (parser.Interface, error) { return sreflect.NewReflectParser().Init(d.Go()), nil },
		again: func(p parser.Interface, d docs.RDoc) error { p.(sreflect.ReflectParser).Init(d.Go()); return nil },
		want:  func(d docs.RDoc) ([]model.Tree, error) { return d.Tree(), nil },
		show:  docs.RDoc.String,
	}, docs.RDoc.Grow, 4000, 200000)
	registerLarge("P08", format[docs.YDoc]{
		name: "yaml",
		gen:  genYAML,
		more: func(t T, _ docs.YDoc) docs.YDoc { return genYAML(t) },
		open: func(d docs.YDoc) (parser.Interface, error) {
			p := syaml.NewYamlParser()
			return p, p.Init(held(d.Text()))
		},
		again: func(p parser.Interface, d docs.YDoc) error { return p.(syaml.YamlParser).Init(held(d.Text())) },
		reset: func(p parser.Interface) error { return p.(syaml.YamlParser).Reset() },
		want:  func(d docs.YDoc) ([]model.Tree, error) { return d.Tree(), nil },
		show:  docs.YDoc.Text,
	}, docs.YDoc.Grow, 2000, 100000)

	core.Register(core.Spec{Prop: "E01", Name: "large", Quick: 4000, Thorough: 200000, Terminates: true,
		Rule: "the documents of E01/documents" + largeRule + "; non-trivial: more than 2 nodes"},
		func(t T) grown[anyDoc] { return grown[anyDoc]{genEncodeJSON(t), docs.Growth(t)} },
		func(g grown[anyDoc], o *core.Obs) error { return runEncodeJSON(g.D.grow(g.G), o) })
	core.Register(core.Spec{Prop: "E02", Name: "large", Quick: 4000, Thorough: 200000, Terminates: true,
		Rule: "the histories of E02/values and E02/messages, their documents" + largeRule + ", into buffers of up to 2.2 MB; non-trivial: more than 2 nodes"},
		func(t T) grown[protoHist] {
			var h protoHist
			if gen.Chance(t, 1, 2) {
				h = genProtoHist(t)
			} else {
				h = genCommonHist(t)
			}
			for i := range h.Steps {
				h.Steps[i].Buf = gen.Pick(t, -1, -2, -3, -3, 0, 64, 1000, 5000, 16000, 16384, 16400, 17000, 20000, 30000, 70000, 140000, 400000, 2200000)
			}
			return grown[protoHist]{h, docs.Growth(t)}
		},
		func(g grown[protoHist], o *core.Obs) error { return runProtoHist(growHist(g.D, g.G), o) })
	core.Register(core.Spec{Prop: "E03", Name: "large", Quick: 4000, Thorough: 200000, Terminates: true,
		Rule: "the values of E03/values that fit" + largeRule + "; non-trivial: more than 2 nodes"},
		func(t T) grown[reflCase] {
			c := genEncodeReflect(t)
			if c.Src == "misfit" {
				c.Src, c.Ts = "tree", nil
			}
			return grown[reflCase]{c, docs.Growth(t)}
		},
		func(g grown[reflCase], o *core.Obs) error {
			g.D.Doc = g.D.Doc.Grow(g.G)
			return runEncodeReflect(g.D, o)
		})
	core.Register(core.Spec{Prop: "E04", Name: "large", Quick: 4000, Thorough: 200000, Terminates: true,
		Rule: "the documents of E04/documents" + largeRule + "; non-trivial: more than 2 nodes"},
		func(t T) grown[anyDoc] { return grown[anyDoc]{genEncodeXML(t), docs.Growth(t)} },
		func(g grown[anyDoc], o *core.Obs) error { return runEncodeXML(g.D.grow(g.G), o) })

	longEncode("E01", func(t T) grown[anyDoc] { return grown[anyDoc]{genEncodeJSON(t), docs.Lengthen(t)} },
		func(g grown[anyDoc], o *core.Obs) error { return runEncodeJSON(g.D.grow(g.G), o) })
	longEncode("E02", func(t T) grown[protoHist] {
		h := genCommonHist(t)
		if gen.Chance(t, 1, 2) {
			h = genProtoHist(t)
		}
		for i := range h.Steps {
			h.Steps[i].Buf = gen.Pick(t, 100000, 4000000, 20000000, 20000000)
		}
		return grown[protoHist]{h, docs.Lengthen(t)}
	}, func(g grown[protoHist], o *core.Obs) error { return runProtoHist(growHist(g.D, g.G), o) })
	longEncode("E03", func(t T) grown[reflCase] {
		c := genEncodeReflect(t)
		if c.Src == "misfit" {
			c.Src, c.Ts = "tree", nil
		}
		return grown[reflCase]{c, docs.Lengthen(t)}
	}, func(g grown[reflCase], o *core.Obs) error {
		g.D.Doc = g.D.Doc.Grow(g.G)
		return runEncodeReflect(g.D, o)
	})
	longEncode("E04", func(t T) grown[anyDoc] { return grown[anyDoc]{genEncodeXML(t), docs.Lengthen(t)} },
		func(g grown[anyDoc], o *core.Obs) error { return runEncodeXML(g.D.grow(g.G), o) })
}

func longEncode[C any](prop string, gener func(t T) C, run func(C, *core.Obs) error) {
	core.Register(core.Spec{Prop: prop, Name: "long", Quick: 80, Thorough: 4000, Terminates: true,
		Rule: "the documents of " + prop + longRule + "; non-trivial: more than 2 nodes"},
		gener, func(c C, o *core.Obs) error {
			defer debug.SetMaxStack(debug.SetMaxStack(longStack))
			return run(c, o)
		})
}
