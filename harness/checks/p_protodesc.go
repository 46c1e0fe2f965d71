package checks

import (
	"strings"

	"github.com/gogo/protobuf/proto"
	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	eproto "github.com/katydid/katydid/encode/proto"
	sproto "github.com/katydid/katydid/parser/proto"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
)

// schemaCase is a description of messages that may not be complete.
type schemaCase struct {
	Schema *docs.PSchema `json:"schema"`
	Root   int           `json:"root,omitempty"` // 1: another package, 2: another message, 3: another message inside of the root
	Msg    int           `json:"m,omitempty"`    // the field whose type is lost
	Field  int           `json:"f,omitempty"`
	Type   string        `json:"type,omitempty"` // the name that has no type; empty: nothing is lost
}

func genSchema(t T) schemaCase {
	c := schemaCase{Schema: docs.Schema(t, docs.PConf{})}
	switch gen.W(t, 3, 4, 1) {
	case 0:
		c.Root = 1 + gen.N(t, 3)
	case 1:
		c.Msg = gen.N(t, len(c.Schema.Msgs))
		c.Field = gen.N(t, len(c.Schema.Msgs[c.Msg].F))
		c.Type = gen.Pick(t, ".nope.M", "nope.M", "Nope", ".Nope", "pkg.Nope")
	}
	return c
}

func runSchema(c schemaCase, o *core.Obs) error {
	s := c.Schema
	desc := s.Desc()
	pkg, msg := s.RootName()
	bad := false
	switch c.Root {
	case 1:
		pkg, bad = "nope", true
	case 2:
		msg, bad = msg+"Nope", true
	case 3:
		msg, bad = msg+".Nope", true
	}
	lost := false
	if c.Type != "" {
		f := s.Msgs[c.Msg].F[c.Field]
		if f.Type != int32(descriptor.FieldDescriptorProto_TYPE_MESSAGE) {
			o.Label("no message field")
			return nil
		}
		lost = true
		lose(desc, f, func(fd *descriptor.FieldDescriptorProto) { fd.TypeName = &c.Type })
		bad = reaches(s, c.Msg)
	}
	before := proto.Clone(desc)
	p, perr := sproto.NewProtoParser(pkg, msg, desc)
	e, eerr := eproto.NewEncoder(desc, pkg, msg)
	show := jsonOf(c)
	if !proto.Equal(before, desc) {
		return errf("the description is changed: %s", show)
	}
	if (perr == nil) != (eerr == nil) {
		return errf("parser: %v, encoder: %v\n%s", perr, eerr, show)
	}
	o.NonTrivialIf(bad)
	o.LabelIf(perr != nil, "error")
	o.Sample("%v: %s", perr, show)
	if bad && perr == nil {
		return errf("want an error for a message type that is not described: %s", show)
	}
	if !bad && !lost && perr != nil {
		return errf("a complete description is refused: %v\n%s", perr, show)
	}
	if perr == nil && (p == nil || e == nil) {
		return errf("no parser or encoder: %s", show)
	}
	if perr != nil && strings.TrimSpace(perr.Error()) == "" {
		return errf("an error without a text: %s", show)
	}
	return nil
}

// lose changes the descriptor of a field, which is known by its number and name.
func lose(desc *descriptor.FileDescriptorSet, f docs.PField, change func(*descriptor.FieldDescriptorProto)) {
	one := func(fds []*descriptor.FieldDescriptorProto) {
		for _, fd := range fds {
			if fd.GetName() == f.Name && fd.GetNumber() == f.Num && int32(fd.GetType()) == f.Type {
				change(fd)
			}
		}
	}
	var msgs func(ms []*descriptor.DescriptorProto)
	msgs = func(ms []*descriptor.DescriptorProto) {
		for _, m := range ms {
			one(m.Field)
			one(m.Extension)
			msgs(m.NestedType)
		}
	}
	for _, file := range desc.File {
		one(file.Extension)
		msgs(file.MessageType)
	}
}

// reaches tells if values of the message can be in a value of the root.
func reaches(s *docs.PSchema, msg int) bool {
	seen := map[int]bool{}
	var visit func(m int)
	visit = func(m int) {
		if seen[m] {
			return
		}
		seen[m] = true
		for _, f := range s.Msgs[m].F {
			if f.Type == int32(descriptor.FieldDescriptorProto_TYPE_MESSAGE) {
				visit(f.Msg)
			}
		}
	}
	visit(s.Root)
	return seen[msg]
}

func init() {
	core.Register(core.Spec{Prop: "P03", Name: "schemas", Quick: 20000, Terminates: true, Thorough: 1000000,
		Rule: "random schemas, complete ones, with a root that is not described and with a field whose message type is not described: the parser and the encoder can be made exactly when everything that a message of the root can hold is described, and the description stays as it is; non-trivial: something that is needed is missing"},
		genSchema, runSchema)
}
