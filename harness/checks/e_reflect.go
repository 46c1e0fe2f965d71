package checks

import (
	"reflect"

	ereflect "github.com/katydid/katydid/encode/reflect"
	"github.com/katydid/katydid/parser"
	sjson "github.com/katydid/katydid/parser/json"
	sreflect "github.com/katydid/katydid/parser/reflect"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

type reflCase struct {
	Doc docs.RDoc    `json:"doc"`
	Src string       `json:"src"` // go, json
	Ts  []model.Tree `json:"ts,omitempty"`
}

func genEncodeReflect(t T) reflCase {
	src := gen.Pick(t, "go", "go", "json", "json", "tree", "misfit", "misfit")
	ty := docs.ReflectType(t, docs.RConf{Depth: 1 + gen.N(t, 4), Width: 2 + gen.N(t, 5), NoRec: true, NoBytes: src == "json", Narrow: src != "go"})
	v := docs.ReflectValue(t, ty, 8)
	if src == "json" {
		v = v.Finite()
	}
	c := reflCase{Doc: docs.RDoc{T: ty, V: v}, Src: src}
	if src == "misfit" {
		c.Ts = c.Doc.FullTree()
		for i := 1 + gen.N(t, 2); i > 0; i-- {
			c.Ts = damage(t, c.Ts)
		}
	}
	return c
}

// runMisfit encodes a tree that may not fit in the type.
func runMisfit(c reflCase, o *core.Obs) error {
	p := model.NewTreeParser(c.Ts)
	out := reflect.New(c.Doc.T.Go())
	err := ereflect.Encode(p, out.Interface())
	show := c.Doc.T.String() + " " + model.ForestString(c.Ts)
	if p.Breach != "" {
		return errf("the encoder breaks the protocol of the parser: %s\n%s", p.Breach, show)
	}
	o.NonTrivialIf(model.Size(c.Ts) > 2)
	o.Sample("%s: %v", show, err)
	if len(c.Ts) == 1 && c.Ts[0].Leaf { // a value is no struct
		if err == nil {
			return errf("a value becomes a struct: %s", show)
		}
		return nil
	}
	v, ok, odd := docs.Decode(c.Doc.T, c.Ts)
	if odd {
		o.Label("values next to nodes or equal names")
		return nil
	}
	o.LabelIf(!ok, "misfit")
	if (err == nil) != ok {
		return errf("want fit %v, got error %v\n%s", ok, err, show)
	}
	if ok {
		want := docs.RDoc{T: c.Doc.T, V: v}
		if d := diffGo(want.Go(), out.Elem(), "value", false); d != "" {
			return errf("%s\n%s", d, show)
		}
	}
	return nil
}

func runEncodeReflect(c reflCase, o *core.Obs) error {
	if c.Src == "misfit" {
		return runMisfit(c, o)
	}
	in := c.Doc.Go()
	ts := c.Doc.FullTree()
	var p parser.Interface
	text := ""
	var tp *model.TreeParser
	switch c.Src {
	case "go":
		p = sreflect.NewReflectParser().Init(in)
	case "json":
		text = docs.JSONText(ts)
		js := sjson.NewJsonParser()
		if err := js.Init(held(text)); err != nil {
			return errf("json: %v\n%s", err, text)
		}
		p = js
	default:
		tp = model.NewTreeParser(ts)
		p = tp
	}
	out := reflect.New(in.Type())
	err := ereflect.Encode(p, out.Interface())
	show := c.Src + " " + c.Doc.String() + " " + text
	if err != nil {
		return errf("encoding fails: %v\n%s", err, show)
	}
	if tp != nil && tp.Breach != "" {
		return errf("the encoder breaks the protocol of the parser: %s\n%s", tp.Breach, show)
	}
	if d := diffGo(in, out.Elem(), "value", true); d != "" {
		return errf("%s\n%s", d, show)
	}
	if c.Src == "go" {
		in := memory(in.Interface())
		for p, at := range memory(out.Elem().Interface()) {
			if w, ok := in[p]; ok {
				return errf("the new value shares memory with the old one: %s with %s\n%s", at, w, show)
			}
		}
	}
	o.NonTrivialIf(model.Size(ts) > 2)
	o.Label(c.Src)
	o.Sample("%s", show)
	return nil
}

// diffGo compares two values of one type deeply; all NaNs are equal.
// A nil slice is an empty one unless it is a field, since a field that is nil is not in the document.
func diffGo(a, b reflect.Value, at string, field bool) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return at + ": one pointer is nil"
		}
		if a.IsNil() {
			return ""
		}
		return diffGo(a.Elem(), b.Elem(), at, false)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diffGo(a.Field(i), b.Field(i), at+"."+a.Type().Field(i).Name, true); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if field && a.IsNil() != b.IsNil() {
			return at + ": one slice is nil"
		}
		if a.Len() != b.Len() {
			return errf("%s: want %d elements, got %d", at, a.Len(), b.Len()).Error()
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffGo(a.Index(i), b.Index(i), at+"[]", false); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x == y || x != x && y != y {
			return ""
		}
		return errf("%s: want %v, got %v", at, x, y).Error()
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return errf("%s: want %v, got %v", at, a, b).Error()
	}
	return ""
}

// runEncodeCommon encodes a message into the Go type that it was made from.
func runEncodeCommon(c docs.Common, o *core.Obs) error {
	in := c.Doc.Go()
	if in.Kind() == reflect.Ptr {
		in = in.Elem()
	}
	pc := protoCase{c.Schema, core.Str(c.Proto())}
	p, err := pc.open()
	if err != nil {
		return errf("proto: %v\n%s", err, pc.show())
	}
	buf := held(pc.B)
	if err := p.Init(buf); err != nil {
		return errf("proto: %v\n%s", err, pc.show())
	}
	out := reflect.New(in.Type())
	if err := ereflect.Encode(p, out.Interface()); err != nil {
		return errf("encoding fails: %v\n%s into %s", err, pc.show(), c.Doc)
	}
	for i := range buf { // the value is complete: the buffer may be used for something else
		buf[i] = 0xa5
	}
	if d := diffGo(in, out.Elem(), "value", true); d != "" {
		return errf("%s\n%s into %s", d, pc.show(), c.Doc)
	}
	o.NonTrivialIf(model.Size(c.Doc.Tree()) > 2)
	o.Sample("%s", c.Doc)
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "E03", Name: "messages", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "random Go values as protobuf messages of the corresponding random schema: encoding the message into a new value of the type gives a deeply equal value; non-trivial: more than 2 nodes"},
		func(t T) docs.Common {
			return docs.CommonValue(t, docs.CConf{Depth: 1 + gen.N(t, 4), Width: 2 + gen.N(t, 4), Bytes: true})
		}, runEncodeCommon)
	core.Register(core.Spec{Prop: "E03", Name: "values", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random Go values of random struct types (pointers, slices, slices of slices, nested structs, bytes, all kinds) from Go, from JSON and from a tree with labels of every type: encoding into a new value of the type gives a deeply equal value; damaged trees (other labels, numbers out of range, values for nodes, lost and doubled nodes): an error exactly if a reference decoder refuses the tree, and otherwise its value; parsers of trees monitor their protocol; non-trivial: more than 2 nodes"},
		genEncodeReflect, runEncodeReflect)
}
