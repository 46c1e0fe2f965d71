package checks

import (
	"encoding/hex"
	"fmt"
	"strings"

	eproto "github.com/katydid/katydid/encode/proto"
	"github.com/katydid/katydid/parser"
	sjson "github.com/katydid/katydid/parser/json"
	sreflect "github.com/katydid/katydid/parser/reflect"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

// joinRuns is the tree of the message that has the fields of a tree: a repeated field without elements is nothing,
// neighbouring runs of one repeated field are one.
func joinRuns(s *docs.PSchema, m int, ts []model.Tree) []model.Tree {
	var res []model.Tree
	for _, t := range ts {
		f := s.Field(m, string(*t.L.S))
		if f == nil {
			continue
		}
		t := model.Tree{L: t.L, C: append([]model.Tree{}, t.C...)}
		if !f.Rep {
			if f.IsMessage() {
				t.C = joinRuns(s, f.Msg, t.C)
			}
			res = append(res, t)
			continue
		}
		if len(t.C) == 0 {
			continue
		}
		if f.IsMessage() {
			for i := range t.C {
				t.C[i] = model.Tree{L: t.C[i].L, C: joinRuns(s, f.Msg, t.C[i].C)}
			}
		}
		if n := len(res); n > 0 && *res[n-1].L.S == *t.L.S {
			for _, c := range t.C {
				c.L = model.LI(int64(len(res[n-1].C)))
				res[n-1].C = append(res[n-1].C, c)
			}
			continue
		}
		res = append(res, t)
	}
	return res
}

type protoStep struct {
	B    core.Str     `json:"b,omitempty"`    // a message as the source
	Go   *docs.Common `json:"go,omitempty"`   // a Go value as the source
	Json bool         `json:"json,omitempty"` // the Go value as JSON
	Buf  int          `json:"buf"`            // size of the given buffer; -1: nil; -2: the result of the step before, -3: all of its buffer
}

type protoHist struct {
	Schema *docs.PSchema `json:"schema,omitempty"`
	Steps  []protoStep   `json:"steps"`
}

func genProtoHist(t T) protoHist {
	var h protoHist
	n := 1 + gen.N(t, 4)
	buf := func() int { return gen.Pick(t, -1, -1, -2, -2, -3, 0, 1, 2, 5, 19, 20, 21, 22, 30, 64, 1000) }
	h.Schema = docs.Schema(t, docs.PConf{})
	for i := 0; i < n; i++ {
		h.Steps = append(h.Steps, protoStep{B: docs.Message(t, h.Schema, 1+gen.N(t, 4), docs.PEnc{Legal: gen.Chance(t, 1, 3), Unknown: true, Width: 1 + gen.N(t, 5), NaN: true}), Buf: buf()})
	}
	return h
}

func genCommonHist(t T) protoHist {
	num := gen.Pick(t, "i", "u", "d", "iud")
	c := docs.CommonValue(t, docs.CConf{Depth: 1 + gen.N(t, 4), Width: 2 + gen.N(t, 5), Numbers: num, Bytes: true})
	h := protoHist{Schema: c.Schema}
	n := 1 + gen.N(t, 3)
	for i := 0; i < n; i++ {
		x := c
		if i > 0 {
			x = c.Another(t)
		}
		h.Steps = append(h.Steps, protoStep{Go: &docs.Common{Doc: x.Doc}, Json: !x.Doc.T.Has("y") && gen.Chance(t, 1, 2),
			Buf: gen.Pick(t, -1, -2, -3, 0, 1, 20, 64)})
	}
	return h
}

func (s protoStep) open(schema *docs.PSchema) (p parser.Interface, ts []model.Tree, show string, err error) {
	switch {
	case s.Go == nil:
		c := protoCase{schema, s.B}
		if ts, err = schema.Tree([]byte(s.B)); err != nil {
			return nil, nil, "", &core.HarnessError{Msg: err.Error()}
		}
		p, err = c.open()
		return p, ts, hex.EncodeToString([]byte(s.B)), err
	case s.Json:
		text := docs.JSONText(s.Go.Doc.Tree())
		js := sjson.NewJsonParser()
		return js, s.Go.Doc.Tree(), text, js.Init(held(text))
	}
	return sreflect.NewReflectParser().Init(s.Go.Doc.Go()), s.Go.Doc.Tree(), s.Go.Doc.String(), nil
}

func runProtoHist(h protoHist, o *core.Obs) error {
	pkg, msg := h.Schema.RootName()
	enc, err := eproto.NewEncoder(h.Schema.Desc(), pkg, msg)
	if err != nil {
		return errf("no encoder: %v\nschema: %s", err, jsonOf(h.Schema))
	}
	type kept struct {
		out  []byte
		copy string
	}
	var last []byte
	var keep []kept
	hist := ""
	for i, s := range h.Steps {
		p, ts, text, err := s.open(h.Schema)
		hist += fmt.Sprintf("\n%d: buffer %d, %s", i, s.Buf, text)
		if err != nil {
			if _, ok := err.(*core.HarnessError); ok {
				return err
			}
			return errf("open: %v\nschema: %s\nhistory: %s", err, jsonOf(h.Schema), hist)
		}
		var buf []byte
		switch {
		case s.Buf >= 0:
			buf = make([]byte, s.Buf)
			for j := range buf {
				buf[j] = 0xa5
			}
		case s.Buf == -2:
			buf = last
		case s.Buf == -3:
			buf = last[:cap(last)]
		}
		if s.Buf == -2 || s.Buf == -3 {
			keep = nil // they may share the buffer
		}
		out, err := enc.Encode(buf, p)
		if err != nil {
			return errf("encoding fails: %v\nschema: %s\nhistory: %s", err, jsonOf(h.Schema), hist)
		}
		last = out
		keep = append(keep, kept{out, string(out)})
		got, err := h.Schema.Tree(out)
		if err != nil {
			return errf("the output is malformed: %v: %x\nschema: %s\nhistory: %s", err, out, jsonOf(h.Schema), hist)
		}
		if d := model.DiffForest(joinRuns(h.Schema, h.Schema.Root, ts), got); d != "" {
			return errf("%s\noutput: %x\nschema: %s\nhistory: %s\nwant %s", d, out, jsonOf(h.Schema), hist, model.ForestString(ts))
		}
		for _, k := range keep {
			if string(k.out) != k.copy {
				return errf("an earlier output has changed\nschema: %s\nhistory: %s", jsonOf(h.Schema), hist)
			}
		}
		o.NonTrivialIf(model.Size(got) > 2)
		o.LabelIf(model.Depth(got) > 4, "deep")
		o.LabelIf(s.Json, "json")
	}
	o.LabelIf(len(h.Steps) > 1, "reused")
	o.Sample("%s%s", jsonOf(h.Schema), hist)
	return nil
}

type fitCase struct {
	Schema *docs.PSchema `json:"schema"`
	Ts     []model.Tree  `json:"ts"`
}

// genFit damages the tree of a message: other labels, lost and doubled nodes, leaves for nodes.
func genFit(t T) fitCase {
	s := docs.Schema(t, docs.PConf{})
	b := docs.Message(t, s, 1+gen.N(t, 3), docs.PEnc{Legal: true, Width: 1 + gen.N(t, 4)})
	ts, err := s.Tree([]byte(b))
	if err != nil {
		panic(&core.HarnessError{Msg: err.Error()})
	}
	for i := gen.N(t, 3); i > 0; i-- {
		ts = damage(t, ts)
	}
	return fitCase{s, ts}
}

func damage(t T, ts []model.Tree) []model.Tree {
	ts = model.CloneForest(ts)
	var spots []*[]model.Tree
	var f func(p *[]model.Tree)
	f = func(p *[]model.Tree) {
		spots = append(spots, p)
		for i := range *p {
			if !(*p)[i].Leaf {
				f(&(*p)[i].C)
			}
		}
	}
	f(&ts)
	label := func() model.Label {
		switch gen.N(t, 8) {
		case 0:
			return model.LI(gen.Pick(t, gen.Ints...))
		case 1:
			return model.LU(gen.Pick(t, gen.Uints...))
		case 2:
			return model.LD(gen.Pick(t, gen.Doubles...))
		case 3:
			return model.LB(true)
		case 4:
			return model.LY(gen.Pick(t, gen.Byts...))
		case 5:
			return model.Label{}
		}
		return model.LS(gen.Pick(t, "A", "B", "C", "D", "a", "zz", ""))
	}
	p := spots[gen.N(t, len(spots))]
	if len(*p) == 0 || gen.Chance(t, 1, 6) {
		*p = append(*p, model.Tree{L: label(), Leaf: gen.Chance(t, 1, 2)})
		return ts
	}
	i := gen.N(t, len(*p))
	switch gen.N(t, 7) {
	case 6:
		l := &(*p)[i].L
		if l.I != nil {
			*l = model.LI(gen.Pick(t, gen.Ints...))
		} else if l.U != nil {
			*l = model.LU(gen.Pick(t, gen.Uints...))
		}
	case 0:
		if l := (*p)[i].L; l.S != nil && gen.Chance(t, 1, 2) {
			(*p)[i].L = model.LS(similar(t, string(*l.S)))
			break
		}
		(*p)[i].L = label()
	case 1:
		*p = append((*p)[:i], (*p)[i+1:]...)
	case 2:
		*p = append(*p, model.CloneForest((*p)[i:i+1])...)
	case 3:
		(*p)[i] = model.Tree{L: label(), Leaf: true}
	case 4:
		(*p)[i] = model.Tree{L: label(), C: model.CloneForest((*p)[i : i+1])}
	default:
		(*p)[i].C = nil
	}
	return ts
}

// similar changes a name a little.
func similar(t T, s string) string {
	switch gen.N(t, 7) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return s + gen.Pick(t, "_", " ", "\x00", "a", "S", "1")
	case 3:
		return gen.Pick(t, "_", " ", "X", ".") + s
	case 4:
		if s != "" {
			return s[:len(s)-1]
		}
	case 5:
		return strings.ReplaceAll(s, "_", "")
	}
	b := []byte(s)
	if len(b) > 0 {
		b[gen.N(t, len(b))] ^= 0x20
	}
	return string(b)
}

func runFit(c fitCase, o *core.Obs) error {
	pkg, msg := c.Schema.RootName()
	enc, err := eproto.NewEncoder(c.Schema.Desc(), pkg, msg)
	if err != nil {
		return errf("no encoder: %v\nschema: %s", err, jsonOf(c.Schema))
	}
	p := model.NewTreeParser(c.Ts)
	out, err := enc.Encode(nil, p)
	if p.Breach != "" {
		return errf("the encoder breaks the protocol of the parser: %s\nschema: %s\ntree: %s", p.Breach, jsonOf(c.Schema), model.ForestString(c.Ts))
	}
	want, fits := c.Schema.Fits(c.Ts)
	o.NonTrivialIf(model.Size(c.Ts) > 2)
	o.LabelIf(fits, "fits")
	o.LabelIf(c.Schema.Overflows(c.Ts), "overflow")
	o.LabelIf(err != nil, "error")
	o.Sample("%s %s: %x, %v", jsonOf(c.Schema), model.ForestString(c.Ts), out, err)
	if err != nil {
		if fits {
			return errf("encoding fails: %v\nschema: %s\ntree: %s", err, jsonOf(c.Schema), model.ForestString(c.Ts))
		}
		return nil
	}
	if c.Schema.Overflows(c.Ts) {
		return errf("a value that its field cannot hold is encoded: %x\nschema: %s\ntree: %s", out, jsonOf(c.Schema), model.ForestString(c.Ts))
	}
	got, err := c.Schema.Tree(out)
	if err != nil {
		return errf("the output is malformed: %v: %x\nschema: %s\ntree: %s", err, out, jsonOf(c.Schema), model.ForestString(c.Ts))
	}
	if fits {
		if d := model.DiffForest(joinRuns(c.Schema, c.Schema.Root, want), got); d != "" {
			return errf("%s\noutput: %x\nschema: %s\ntree %s", d, out, jsonOf(c.Schema), model.ForestString(c.Ts))
		}
	}
	return nil
}

func init() {
	rule := "the output, read by an independent reader, is the message of the source, and earlier outputs in other buffers stay as they are; buffers are nil, of a random size with rubbish in them, or the ones of the step before; non-trivial: more than 2 nodes"
	core.Register(core.Spec{Prop: "E02", Name: "messages", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "sequences of encodes of messages of random schemas (all kinds, packed, extensions, recursive types, unknown fields, fields in any order and repeated) on one encoder; " + rule},
		genProtoHist, runProtoHist)
	core.Register(core.Spec{Prop: "E02", Name: "values", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "sequences of encodes of random Go values and of their JSON as messages of the corresponding random schema on one encoder; " + rule},
		genCommonHist, runProtoHist)
	core.Register(core.Spec{Prop: "E02", Name: "fits", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "trees of messages of random schemas, most of them damaged (other labels, numbers out of range, values for nodes, lost and doubled nodes), presented by a parser that monitors its protocol: a tree that describes a message is encoded as it, an integer beyond 32 bits in a 32 bit field and a value of another type give an error, a field without a value sets nothing, any other tree gives an error or a well formed message; non-trivial: more than 2 nodes"},
		genFit, runFit)
}
