package checks

import (
	"encoding/hex"

	"github.com/katydid/katydid/parser"
	sproto "github.com/katydid/katydid/parser/proto"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

type protoCase struct {
	Schema *docs.PSchema `json:"schema"`
	B      core.Str      `json:"b"`
}

func (c protoCase) show() string {
	return jsonOf(c.Schema) + " " + hex.EncodeToString([]byte(c.B))
}

func (c protoCase) open() (sproto.ProtoParser, error) {
	pkg, msg := c.Schema.RootName()
	p, err := sproto.NewProtoParser(pkg, msg, c.Schema.Desc())
	if err != nil {
		return nil, err
	}
	return p, p.Init(held(c.B))
}

func genEnc(t T, s *docs.PSchema) core.Str {
	return docs.Message(t, s, 1+gen.N(t, 3), docs.PEnc{Legal: gen.Chance(t, 1, 4), Unknown: true, Width: 1 + gen.N(t, 5), NaN: true})
}

func genProto(t T) protoCase {
	s := docs.Schema(t, docs.PConf{SameExt: true})
	return protoCase{s, genEnc(t, s)}
}

func runProto(c protoCase, o *core.Obs) error {
	want, err := c.Schema.Tree([]byte(c.B))
	if err != nil {
		return &core.HarnessError{Msg: "generated message is malformed: " + c.show()}
	}
	p, err := c.open()
	if err != nil {
		return errf("open: %v\n%s", err, c.show())
	}
	if err := compareFull(p, want, len(c.B)); err != nil {
		return errf("%v\n%s", err, c.show())
	}
	o.NonTrivialIf(model.Size(want) > 2)
	o.LabelIf(model.Depth(want) > 4, "deep")
	for _, m := range c.Schema.Msgs {
		o.LabelIf(m.In >= 0, "nested type")
		for _, f := range m.F {
			o.LabelIf(f.Ext > 0, "extension")
			o.LabelIf(f.Packed, "packed")
		}
	}
	o.Sample("%s", c.show())
	return nil
}

func genBadProto(t T) protoCase {
	c := genProto(t)
	if gen.Chance(t, 1, 6) {
		var s string
		for i := gen.N(t, 10); i > 0; i-- {
			s += gen.Pick(t, docs.ProtoBytes...)
		}
		c.B = core.Str(s)
		return c
	}
	c.B = core.Str(docs.Mutate(t, []byte(c.B), docs.ProtoBytes))
	return c
}

func runBadProto(c protoCase, o *core.Obs) error {
	want, bad := c.Schema.Tree([]byte(c.B))
	p, err := c.open()
	if err != nil {
		return errf("open: %v\n%s", err, c.show())
	}
	got, err := fullTree(p, len(c.B))
	if err == model.ErrBudget {
		return errf("walking does not end\n%s", c.show())
	}
	if bad != nil && err == nil {
		return errf("a malformed message is presented as a complete tree: %s\n%s", model.ForestString(got), c.show())
	}
	if bad == nil {
		if err != nil {
			return errf("a well formed message ends with error %v\n%s", err, c.show())
		}
		if d := model.DiffForest(want, got); d != "" {
			return errf("%s\n%s", d, c.show())
		}
	}
	if err := within(func(buf []byte) (parser.Interface, error) {
		return p, p.Init(buf)
	}, string(c.B), got, err); err != nil {
		return errf("%v\n%s", err, c.show())
	}
	o.NonTrivialIf(len(got) > 0)
	o.LabelIf(bad != nil, "malformed")
	o.LabelIf(bad != nil && len(got) > 0, "malformed after some nodes")
	o.Sample("%s: %v", c.show(), err)
	return nil
}

// latent reports whether some message has two nodes of one field.
func latent(ts []model.Tree) bool {
	seen := map[string]bool{}
	for _, t := range ts {
		if t.L.S != nil && !t.Leaf {
			if seen[string(*t.L.S)] {
				return true
			}
			seen[string(*t.L.S)] = true
		}
		if latent(t.C) {
			return true
		}
	}
	return false
}

func runLatent(c protoCase, o *core.Obs) error {
	want, bad := c.Schema.Tree([]byte(c.B))
	p, err := c.open()
	if err != nil {
		return errf("open: %v\n%s", err, c.show())
	}
	err = sproto.NoLatentAppendingOrMerging(p)
	marked, _ := c.Schema.Distinct().Tree([]byte(c.B))
	l := bad != nil || latent(marked)
	if (err != nil) != l {
		return errf("latent appending or merging, or malformed: want %v, got %v\ntree: %s\n%s", l, err, model.ForestString(want), c.show())
	}
	if err == nil { // a second check of the same message
		if err := p.Reset(); err != nil {
			return err
		}
		if err := sproto.NoLatentAppendingOrMerging(p); err != nil {
			return errf("the second check of a message fails: %v\n%s", err, c.show())
		}
	}
	o.NonTrivialIf(model.Size(want) > 3)
	o.LabelIf(bad != nil, "malformed")
	o.LabelIf(bad == nil && l, "latent")
	o.Sample("%s: %v", c.show(), err)
	return nil
}

func init() {
	registerFormat(format[protoCase]{
		name: "proto",
		gen:  genProto,
		more: func(t T, c protoCase) protoCase { return protoCase{c.Schema, genEnc(t, c.Schema)} },
		open: func(c protoCase) (parser.Interface, error) { return c.open() },
		again: func(p parser.Interface, c protoCase) error {
			return p.(sproto.ProtoParser).Init(held(c.B))
		},
		reset: func(p parser.Interface) error { return p.(sproto.ProtoParser).Reset() },
		want:  func(c protoCase) ([]model.Tree, error) { return c.Schema.Tree([]byte(c.B)) },
		show:  protoCase.show,
		n:     [4]int{40000, 1500000, 20000, 600000},
	})
	rule := "random schemas (two files, nested and recursive types, types of one name in several scopes, every scalar kind, repeated and packed fields, extensions declared in files and in messages) and random messages (any field order, repeated runs, packed and unpacked chunks, unknown fields, overlong varints)"
	core.Register(core.Spec{Prop: "P03", Name: "messages", Quick: 150000, Thorough: 4000000, Terminates: true,
		Rule: rule + "; the full walk is compared with an independent reader of the wire format; non-trivial: more than 2 nodes"}, genProto, runProto)
	core.Register(core.Spec{Prop: "P04", Name: "messages", Quick: 150000, Thorough: 4000000, Terminates: true,
		Rule: rule + ", then damaged (truncated, deleted, inserted, replaced, repeated pieces), and random bytes; the full walk ends with an error exactly when the independent reader finds the message malformed and otherwise with its tree; non-trivial: at least one node was presented"}, genBadProto, runBadProto)
	core.Register(core.Spec{Prop: "P12", Name: "messages", Quick: 150000, Thorough: 4000000, Terminates: true,
		Rule: rule + ", legal and latent ones, some damaged; accepted exactly when the message is well formed and no message of it has two nodes of one field by the independent reader; non-trivial: more than 3 nodes"},
		func(t T) protoCase {
			if gen.Chance(t, 1, 8) {
				return genBadProto(t)
			}
			if gen.Chance(t, 1, 2) {
				s := docs.Schema(t, docs.PConf{SameExt: true})
				c := protoCase{s, docs.Message(t, s, 1+gen.N(t, 3), docs.PEnc{Legal: true})}
				if gen.Chance(t, 1, 2) { // append a part of another one
					c.B += docs.Message(t, s, 0, docs.PEnc{Width: 2, Unknown: true})
				}
				return c
			}
			return genProto(t)
		}, runLatent)
}
