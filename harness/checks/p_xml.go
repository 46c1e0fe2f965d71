package checks

import (
	"github.com/katydid/katydid/parser"
	sxml "github.com/katydid/katydid/parser/xml"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

func xmlParser(d docs.XDoc) sxml.XMLParser {
	var os []sxml.Option
	if d.AP != "" {
		os = append(os, sxml.WithAttrPrefix(string(d.AP)))
	}
	if d.EP != "" {
		os = append(os, sxml.WithElemPrefix(string(d.EP)))
	}
	if d.TP != "" {
		os = append(os, sxml.WithTextPrefix(string(d.TP)))
	}
	return sxml.NewXMLParser(os...)
}

func genXML(t T) docs.XDoc {
	return docs.XML(t, docs.XConf{Depth: 1 + gen.N(t, 3), Width: 1 + gen.N(t, 4)})
}

func runXML(d docs.XDoc, o *core.Obs) error {
	text := d.Text()
	want := d.Tree()
	p := xmlParser(d)
	buf := held(text)
	if err := p.Init(buf); err != nil {
		return errf("Init: %v\ntext: %q", err, text)
	}
	if err := compareFull(p, want, len(text)); err != nil {
		return errf("%v\ntext: %q", err, text)
	}
	if string(buf) != text {
		return errf("the buffer was changed")
	}
	o.NonTrivialIf(model.Size(want) > 2)
	o.LabelIf(model.Depth(want) > 3, "deep")
	o.Sample("%s", text)
	return nil
}

type xmlBad struct {
	S     core.Str `json:"s"`
	Trunc bool     `json:"trunc,omitempty"` // a proper prefix of a document that does not end after the root element
}

func genBadXML(t T) xmlBad {
	if gen.Chance(t, 1, 5) {
		var s string
		for i := gen.N(t, 12); i > 0; i-- {
			s += gen.Pick(t, docs.XMLAlphabet...)
		}
		return xmlBad{S: core.Str(s)}
	}
	d := genXML(t)
	if gen.Chance(t, 1, 3) {
		d.Pre, d.Post = nil, nil
		s := d.Text()
		return xmlBad{S: core.Str(s[:1+gen.N(t, len(s)-1)]), Trunc: true}
	}
	return xmlBad{S: core.Str(docs.Mutate(t, []byte(d.Text()), docs.XMLAlphabet))}
}

func runBadXML(c xmlBad, o *core.Obs) error {
	p := sxml.NewXMLParser()
	err := p.Init(held(c.S))
	var got []model.Tree
	if err == nil {
		got, err = fullTree(p, len(c.S))
	}
	if err == model.ErrBudget {
		return errf("walking does not end\ntext: %q", c.S)
	}
	if c.Trunc && err == nil {
		return errf("a truncated document is presented as a complete tree: %s\ntext: %q", model.ForestString(got), c.S)
	}
	if err := within(func(buf []byte) (parser.Interface, error) {
		p := sxml.NewXMLParser()
		return p, p.Init(buf)
	}, string(c.S), got, err); err != nil {
		return err
	}
	// leaving early at random places must not panic either
	pl := &player{b: []byte(c.S)}
	if err := p.Init(held(c.S)); err == nil {
		wander(p, pl, 64+len(c.S))
	}
	o.NonTrivialIf(len(got) > 0)
	o.LabelIf(err != nil, "error")
	o.LabelIf(err != nil && len(got) > 0, "error after some nodes")
	o.Sample("%q: %v", string(c.S), err)
	return nil
}

// wander moves through a parser by the choices of pl until it ends, without knowing the tree.
func wander(p parser.Interface, pl *player, budget int) bool {
	for ; budget > 0; budget-- {
		c := pl.next()
		if c%8 == 0 {
			return true
		}
		if err := p.Next(); err != nil {
			return err.Error() == "EOF"
		}
		if c&0x08 != 0 {
			model.ReadLabel(p)
		}
		if p.IsLeaf() || c&0x30 == 0 {
			continue
		}
		p.Down()
		if !wander(p, pl, budget/2) {
			return false
		}
		p.Up()
	}
	return true
}

func init() {
	registerFormat(format[docs.XDoc]{
		name: "xml",
		gen:  genXML,
		more: func(t T, d docs.XDoc) docs.XDoc {
			e := genXML(t)
			e.AP, e.EP, e.TP = d.AP, d.EP, d.TP
			return e
		},
		open: func(d docs.XDoc) (parser.Interface, error) {
			p := xmlParser(d)
			return p, p.Init(held(d.Text()))
		},
		again:  func(p parser.Interface, d docs.XDoc) error { return p.(sxml.XMLParser).Init(held(d.Text())) },
		reset:  func(p parser.Interface) error { return p.(sxml.XMLParser).Reset() },
		want:   func(d docs.XDoc) ([]model.Tree, error) { return d.Tree(), nil },
		show:   docs.XDoc.Text,
		stream: true,
		n:      [4]int{60000, 2000000, 30000, 1000000},
	})
	core.Register(core.Spec{Prop: "P05", Name: "documents", Quick: 60000, Thorough: 3000000, Terminates: true,
		Rule: "random well-formed XML documents built from a tree (elements, attributes in both quotings, entities and character references, CDATA, comments, processing instructions and directives everywhere, line ends of all kinds, namespaced names) under random prefixes; the full walk is compared with the tree, every label in all six types; non-trivial: more than 2 nodes"},
		genXML, runXML)
	core.Register(core.Spec{Prop: "P06", Name: "text", Quick: 60000, Thorough: 3000000, Terminates: true,
		Rule: "damaged XML texts (truncated, deleted, inserted, replaced, repeated pieces) and random sequences of tokens, walked completely and by random moves; every walk ends with a tree or an error, and a document that is cut off inside of its root element ends with an error; non-trivial: at least one node was presented"},
		genBadXML, runBadXML)
}
