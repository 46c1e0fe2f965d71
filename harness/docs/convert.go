package docs

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// Common is one value in several formats: a Go value, and the message type it corresponds to.
type Common struct {
	Doc    RDoc     `json:"doc"`
	Schema *PSchema `json:"schema"`
}

// CConf bounds a common value.
type CConf struct {
	Depth, Width int
	Bytes        bool
	Numbers      string // the number types: "iud", or one of them
}

// CommonValue draws a value that a Go struct, a message and, without bytes, a JSON object can hold.
func CommonValue(t T, c CConf) Common {
	rc := RConf{Depth: c.Depth, Width: c.Width, NoBytes: !c.Bytes, NoRec: true, NoNested: true, Numbers: c.Numbers}
	ty := ReflectType(t, rc)
	v := canonical(ty, ReflectValue(t, ty, 8))
	if gen.Chance(t, 1, 2) {
		ty, v = RType{K: "ptr", E: &RType{K: ty.K, F: ty.F}}, RVal{C: []RVal{v}}
	}
	s := &PSchema{Pkgs: [2]string{"pkg", "other"}, P3: gen.Chance(t, 1, 2)}
	s.fromGo(t, ty)
	return Common{RDoc{ty, v}, s}
}

// canonical has no empty slices and no nil elements, which messages cannot express, and no infinite numbers.
func canonical(ty RType, v RVal) RVal {
	switch ty.K {
	case "f32", "f64":
		if math.IsInf(float64(v.D), 0) {
			v.D = 7
		}
		if v.D == 0 {
			v.D = 0
		}
		return v
	case "y":
		return v
	case "ptr":
		if !v.Nil {
			v.C = []RVal{canonical(*ty.E, v.C[0])}
		}
		return v
	case "slice":
		var cs []RVal
		for _, c := range v.C {
			if !c.Nil {
				cs = append(cs, canonical(*ty.E, c))
			}
		}
		return RVal{C: cs, Nil: len(cs) == 0}
	case "struct":
		cs := make([]RVal, len(v.C))
		for i, f := range ty.F {
			cs[i] = canonical(f.T, v.C[i])
		}
		return RVal{C: cs}
	}
	return v
}

func bare(ty RType) (RType, bool) {
	rep := false
	for ty.K == "ptr" || ty.K == "slice" {
		rep = rep || ty.K == "slice"
		ty = *ty.E
	}
	return ty, rep
}

func (s *PSchema) fromGo(t T, ty RType) int {
	ty, _ = bare(ty)
	i := len(s.Msgs)
	s.Msgs = append(s.Msgs, PMsg{Name: fmt.Sprintf("M%d", i), In: -1, File: gen.N(t, 2)})
	if i > 0 && gen.Chance(t, 1, 2) {
		s.Msgs[i].In = gen.N(t, i)
	}
	var fs []PField
	start := gen.N(t, 20)
	for j, f := range ty.F {
		e, rep := bare(f.T)
		p := PField{Name: f.N, Num: int32(1 + start + (j*7)%9*3 + j), Rep: rep}
		switch e.K {
		case "struct":
			p.Type = tMessage
			p.Msg = s.fromGo(t, e)
		case "bool":
			p.Type = tBool
		case "i64":
			p.Type = gen.Pick(t, tInt64, tSint64, tSfixed64)
		case "i32":
			p.Type = gen.Pick(t, tInt32, tSint32, tSfixed32, tEnum)
		case "u64":
			p.Type = gen.Pick(t, tUint64, tFixed64)
		case "u32":
			p.Type = gen.Pick(t, tUint32, tFixed32)
		case "f32":
			p.Type = tFloat
		case "f64":
			p.Type = tDouble
		case "s":
			p.Type = tString
		case "y":
			p.Type = tBytes
		}
		p.Packed = rep && p.scalar() && gen.Chance(t, 1, 2)
		if f.T.K != "ptr" && !rep && !s.P3 && e.K != "y" && gen.Chance(t, 1, 2) {
			p.Req = true
		}
		fs = append(fs, p)
	}
	s.Msgs[i].F = fs
	return i
}

// Proto is the value as an encoded message.
func (c Common) Proto() []byte {
	v, ty := c.Doc.V, c.Doc.T
	if ty.K == "ptr" {
		v, ty = v.C[0], *ty.E
	}
	return c.Schema.encode(0, ty, v)
}

func (s *PSchema) encode(m int, ty RType, v RVal) []byte {
	var b []byte
	for i, f := range s.Msgs[m].F {
		x := v.C[i]
		fty := ty.F[i].T
		if x.Nil {
			continue
		}
		key := func(w int) { b = putVarint(b, uint64(f.Num)<<3|uint64(w), 0) }
		e, _ := bare(fty)
		put := func(x RVal, fty RType) []byte {
			for fty.K == "ptr" {
				x, fty = x.C[0], *fty.E
			}
			return s.scalar(f, e, x)
		}
		if !f.Rep {
			key(wireOf(f.Type))
			b = append(b, put(x, fty)...)
			continue
		}
		for fty.K == "ptr" {
			x, fty = x.C[0], *fty.E
		}
		if f.Packed {
			var p []byte
			for _, c := range x.C {
				p = append(p, put(c, *fty.E)...)
			}
			key(2)
			b = putVarint(b, uint64(len(p)), 0)
			b = append(b, p...)
			continue
		}
		for _, c := range x.C {
			key(wireOf(f.Type))
			b = append(b, put(c, *fty.E)...)
		}
	}
	return b
}

func (s *PSchema) scalar(f PField, e RType, v RVal) []byte {
	lenged := func(x []byte) []byte { return append(putVarint(nil, uint64(len(x)), 0), x...) }
	switch f.Type {
	case tMessage:
		return lenged(s.encode(f.Msg, e, v))
	case tString, tBytes:
		return lenged([]byte(v.S))
	case tDouble:
		return putFixed(nil, math.Float64bits(float64(v.D)), 8)
	case tFloat:
		return putFixed(nil, uint64(math.Float32bits(float32(v.D))), 4)
	case tBool:
		if v.B {
			return []byte{1}
		}
		return []byte{0}
	case tUint64, tUint32:
		return putVarint(nil, v.U, 0)
	case tFixed64:
		return putFixed(nil, v.U, 8)
	case tFixed32:
		return putFixed(nil, v.U, 4)
	case tSfixed64:
		return putFixed(nil, uint64(v.I), 8)
	case tSfixed32:
		return putFixed(nil, uint64(v.I), 4)
	case tSint64, tSint32:
		return putVarint(nil, uint64(v.I)<<1^uint64(v.I>>63), 0)
	}
	return putVarint(nil, uint64(v.I), 0)
}

// JSONText is a tree of named members and indexed elements as JSON. An empty node is an object.
func JSONText(ts []model.Tree) string {
	if len(ts) == 1 && ts[0].Leaf {
		l := ts[0].L
		switch {
		case l.I != nil:
			return strconv.FormatInt(*l.I, 10)
		case l.U != nil:
			return strconv.FormatUint(*l.U, 10)
		case l.D != nil:
			return strconv.FormatFloat(float64(*l.D), 'g', -1, 64)
		case l.B != nil:
			return strconv.FormatBool(*l.B)
		case l.S != nil:
			return jsonString(string(*l.S))
		}
		return "null"
	}
	var ss []string
	if len(ts) > 0 && ts[0].L.I != nil {
		for _, x := range ts {
			ss = append(ss, JSONText(x.C))
		}
		return "[" + strings.Join(ss, ",") + "]"
	}
	for _, x := range ts {
		ss = append(ss, jsonString(string(*x.L.S))+":"+JSONText(x.C))
	}
	return "{" + strings.Join(ss, ",") + "}"
}

func jsonString(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(&core.HarnessError{Msg: err.Error()})
	}
	return string(b)
}

// Another is another value of the same type.
func (c Common) Another(t T) Common {
	v := canonical(c.Doc.T, ReflectValue(t, c.Doc.T, 8))
	if v.Nil {
		v = c.Doc.V
	}
	return Common{RDoc{c.Doc.T, v}, c.Schema}
}
