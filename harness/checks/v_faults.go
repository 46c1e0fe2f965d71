package checks

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	ejson "github.com/katydid/katydid/encode/json"
	eproto "github.com/katydid/katydid/encode/proto"
	ereflect "github.com/katydid/katydid/encode/reflect"
	exml "github.com/katydid/katydid/encode/xml"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/debug"
	sproto "github.com/katydid/katydid/parser/proto"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

// consumer is something that reads a whole document.
type consumer struct {
	Kind   string        `json:"kind"` // json, xml, proto, reflect, walk, nomerge
	Ts     []model.Tree  `json:"ts"`
	Schema *docs.PSchema `json:"schema,omitempty"`
	Type   *docs.RType   `json:"type,omitempty"`
	Off    int           `json:"off,omitempty"` // which fault comes first
}

func genConsumer(t T) consumer {
	c := consumer{Kind: gen.Pick(t, "json", "xml", "proto", "reflect", "walk", "nomerge"), Off: gen.N(t, len(model.Faults))}
	switch c.Kind {
	case "json", "walk":
		c.Ts = jsonTree(t, 1+gen.N(t, 3))
	case "xml":
		c.Ts = xmlForest(t, 1+gen.N(t, 3))
	case "proto", "nomerge":
		c.Schema = docs.Schema(t, docs.PConf{})
		ts, err := c.Schema.Tree([]byte(docs.Message(t, c.Schema, 1+gen.N(t, 3), docs.PEnc{Legal: true, Width: 1 + gen.N(t, 3)})))
		if err != nil {
			panic(&core.HarnessError{Msg: err.Error()})
		}
		c.Ts = ts
	case "reflect":
		ty := docs.ReflectType(t, docs.RConf{Depth: 1 + gen.N(t, 3), Width: 1 + gen.N(t, 4), NoRec: true, Narrow: true})
		c.Type = &ty
		c.Ts = docs.RDoc{T: ty, V: docs.ReflectValue(t, ty, 6)}.FullTree()
	}
	return c
}

// run gives the output, nil if there is none.
func (c consumer) run(p parser.Interface) (out any, err error) {
	none := func(b []byte, err error) (any, error) {
		if b == nil {
			return nil, err
		}
		return string(b), err
	}
	switch c.Kind {
	case "json":
		return none(ejson.Encode(p))
	case "xml":
		return none(exml.Encode(p))
	case "proto":
		pkg, msg := c.Schema.RootName()
		enc, err := eproto.NewEncoder(c.Schema.Desc(), pkg, msg)
		if err != nil {
			return nil, &core.HarnessError{Msg: err.Error()}
		}
		return none(enc.Encode(nil, p))
	case "reflect":
		return nil, ereflect.Encode(p, reflect.New(c.Type.Go()).Interface())
	case "nomerge":
		return nil, sproto.NoLatentAppendingOrMerging(mergeParser{Interface: p, c: c})
	}
	defer func() { // the walk is documented to panic with the error
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok {
				panic(r)
			}
			out, err = nil, e
		}
	}()
	return fmt.Sprintf("%v", debug.Walk(p)), nil
}

// mergeParser gives a parser the looks of a protobuf parser of the schema.
type mergeParser struct {
	parser.Interface
	sproto.ProtoParser
	c consumer
}

func (m mergeParser) Next() error              { return m.Interface.Next() }
func (m mergeParser) IsLeaf() bool             { return m.Interface.IsLeaf() }
func (m mergeParser) Up()                      { m.Interface.Up() }
func (m mergeParser) Down()                    { m.Interface.Down() }
func (m mergeParser) Double() (float64, error) { return m.Interface.Double() }
func (m mergeParser) Int() (int64, error)      { return m.Interface.Int() }
func (m mergeParser) Uint() (uint64, error)    { return m.Interface.Uint() }
func (m mergeParser) Bool() (bool, error)      { return m.Interface.Bool() }
func (m mergeParser) String() (string, error)  { return m.Interface.String() }
func (m mergeParser) Bytes() ([]byte, error)   { return m.Interface.Bytes() }

// Field is the field of the innermost node that stands for one.
func (m mergeParser) Field() *descriptor.FieldDescriptorProto {
	var fd *descriptor.FieldDescriptorProto
	msg := m.c.Schema.Root
	for _, l := range m.Interface.(*model.TreeParser).Path() {
		if l.S == nil {
			continue
		}
		for _, f := range m.c.Schema.Msgs[msg].F {
			if f.Name != string(*l.S) {
				continue
			}
			typ, lab := descriptor.FieldDescriptorProto_Type(f.Type), descriptor.FieldDescriptorProto_LABEL_OPTIONAL
			if f.Rep {
				lab = descriptor.FieldDescriptorProto_LABEL_REPEATED
			}
			fd = &descriptor.FieldDescriptorProto{Name: &f.Name, Number: &f.Num, Type: &typ, Label: &lab}
			if typ == descriptor.FieldDescriptorProto_TYPE_MESSAGE {
				msg = f.Msg
			}
			break
		}
	}
	return fd
}

// Message is the message around it.
func (m mergeParser) Message() *descriptor.DescriptorProto {
	return &descriptor.DescriptorProto{}
}

func runConsumer(c consumer, o *core.Obs) error {
	show := func() string {
		s := c.Kind + " of " + model.ForestString(c.Ts)
		if c.Type != nil {
			s += " as " + c.Type.String()
		}
		return s
	}
	p := model.NewTreeParser(c.Ts)
	if _, err := c.run(p); err != nil {
		if _, ok := err.(*core.HarnessError); ok {
			return err
		}
		o.Label(c.Kind + " refuses")
		return nil
	}
	for k := 1; k <= p.Calls; k++ {
		q := model.NewTreeParser(c.Ts)
		q.FailAt, q.FailErr = k, model.Faults[(c.Off+k)%len(model.Faults)]
		out, err := c.run(q)
		if !q.Failed {
			return errf("the run is not repeatable: call %d of %d was not made\n%s", k, p.Calls, show())
		}
		if !q.Surfaced(err) {
			return errf("the parser failed at call %d with %v but the error is %v\n%s", k, q.Fault(), err, show())
		}
		if out != nil {
			return errf("the parser failed at call %d but there is output: %v\n%s", k, out, show())
		}
	}
	o.NonTrivialIf(p.Calls >= 3)
	o.Label(c.Kind)
	o.LabelIf(p.Calls >= 10, "10-faults")
	o.Sample("%d faults: %s", p.Calls, show())
	return nil
}

// damagedCase is a damaged document and a grammar.
type damagedCase struct {
	Doc anyDoc         `json:"doc"`
	B   core.Str       `json:"b"` // the damaged text
	G   *model.Grammar `json:"g"`
}

func genDamaged(t T) damagedCase {
	var c damagedCase
	var alpha []string
	switch gen.N(t, 3) {
	case 0:
		x := genJSON(t)
		c.Doc.Json, c.B, alpha = &x, x.S, docs.JSONAlphabet
	case 1:
		s := docs.Schema(t, docs.PConf{})
		x := &protoCase{s, docs.Message(t, s, 1+gen.N(t, 3), docs.PEnc{Legal: true, Width: 1 + gen.N(t, 4)})}
		c.Doc.Proto, c.B, alpha = x, x.B, docs.ProtoBytes
	default:
		x := genXML(t)
		c.Doc.Xml, c.B, alpha = &x, core.Str(x.Text()), docs.XMLAlphabet
	}
	ts, err := c.Doc.tree()
	if err != nil || model.Size(ts) > 60 || model.MaxWidth(ts) > 12 || gen.Chance(t, 1, 6) {
		c.G = gen.Grammar(t, confSmall())
	} else {
		c.G = declare(t, gen.Describe(t, gen.DConf{Wrong: gen.Pick(t, 0, 0, 10), Types: "iudbsy"}, ts))
		gen.Tame(c.G, 5)
	}
	if gen.Chance(t, 1, 2) {
		c.B = c.B[:gen.N(t, len(c.B)+1)]
	} else {
		c.B = core.Str(docs.Mutate(t, []byte(c.B), alpha))
	}
	return c
}

func (c damagedCase) open() (parser.Interface, error) {
	d := c.Doc
	switch {
	case d.Json != nil:
		x := jsonCase{S: c.B}
		d.Json = &x
	case d.Proto != nil:
		d.Proto = &protoCase{d.Proto.Schema, c.B}
	default:
		p := xmlParser(*d.Xml)
		return p, p.Init(held(c.B))
	}
	return d.open()
}

// spyParser remembers the first error of Next.
type spyParser struct {
	parser.Interface
	err error
}

func (s *spyParser) Next() error {
	err := s.Interface.Next()
	if err != nil && err != io.EOF && s.err == nil {
		s.err = err
	}
	return err
}

func runDamaged(c damagedCase, o *core.Obs) error {
	if ts, err := c.Doc.tree(); err == nil {
		if _, ambiguous := c.G.ExprStatus(ts); ambiguous {
			o.Label("ambiguous-skipped")
			return nil
		}
	}
	seen := false
	check := func(name string, s *spyParser, out any, err error) error {
		if s.err == nil {
			return nil
		}
		seen = true
		if err == nil {
			return errf("%s: the parser reported %v but the answer was %v\ngrammar: %s\n%s document: %q", name, s.err, out, show(c.G), c.Doc.format(), c.B)
		}
		if !errors.Is(err, s.err) && !strings.Contains(err.Error(), s.err.Error()) {
			return errf("%s: the parser reported %v but the error was %v\ngrammar: %s\n%s document: %q", name, s.err, err, show(c.G), c.Doc.format(), c.B)
		}
		return nil
	}
	for _, e := range []engine{engInterp, engIntern, engMem, engMemRec} {
		v, err := e.prep(c.G.ToAST())
		if err != nil {
			return errf("%s: preparing failed: %v\ngrammar: %s", e.name, err, show(c.G))
		}
		p, err := c.open()
		if err != nil {
			o.Label("refused at once")
			return nil
		}
		s := &spyParser{Interface: p}
		got, err := v(s)
		if err := check(e.name, s, got, err); err != nil {
			return err
		}
	}
	p, err := c.open()
	if err != nil {
		return errf("opening is not repeatable: %v", err)
	}
	s := &spyParser{Interface: p}
	k := consumer{Kind: "json"}
	if c.Doc.Xml != nil {
		k.Kind = "xml"
	} else if c.Doc.Proto != nil {
		k.Kind, k.Schema = "proto", c.Doc.Proto.Schema
	}
	out, err := k.run(s)
	if err := check(k.Kind+" encoder", s, out, err); err != nil {
		return err
	}
	o.NonTrivialIf(seen)
	o.Label(c.Doc.format())
	o.Sample("%s on %q", show(c.G), c.B)
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "V07", Name: "consumers", Quick: 20000, Thorough: 600000, Terminates: true,
		Rule: "random trees through each encoder, the walk and the check for latent merging, with a parser error injected at every Next call of the run in turn: that error is returned (the walk panics with it) and there is no output; non-trivial: at least 3 faults"},
		genConsumer, runConsumer)
	core.Register(core.Spec{Prop: "V07", Name: "damaged", Quick: 8000, Thorough: 400000, Terminates: true,
		Rule: "truncated and otherwise damaged JSON, XML and protobuf documents, with grammars made from the whole document or random ones: if a parser reports an error to an engine or encoder, the answer is that error; non-trivial: some engine or encoder met the error"},
		genDamaged, runDamaged)
}
