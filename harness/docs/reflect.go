package docs

import (
	"math"
	"reflect"
	"strings"
	"unsafe"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// RType is a Go type.
type RType struct {
	K string   `json:"k"` // bool i32 i64 u32 u64 f32 f64 s y (bytes) struct ptr slice; not readable: int i8 u8 i16 map func; fixed: rec
	E *RType   `json:"e,omitempty"`
	F []RField `json:"f,omitempty"`
}

// RField is a struct field.
type RField struct {
	N string `json:"n"`
	T RType  `json:"t"`
}

// RVal is a value of a type.
type RVal struct {
	Nil bool     `json:"nil,omitempty"`
	B   bool     `json:"b,omitempty"`
	I   int64    `json:"i,omitempty"`
	U   uint64   `json:"u,omitempty"`
	D   core.F64 `json:"d,omitempty"`
	S   core.Str `json:"s,omitempty"`
	C   []RVal   `json:"c,omitempty"`
}

// RDoc is a Go value.
type RDoc struct {
	T RType `json:"t"`
	V RVal  `json:"v"`
}

type (
	// Enum, Blob and Text are named types of supported kinds.
	Enum int32
	Blob []byte
	Text string
	// Base is embedded.
	Base struct {
		Id   *uint64
		Kind Enum
	}
	// Rec is a fixed type: recursive, with an embedded struct and unexported fields.
	Rec struct {
		Base
		name  Text
		blob  Blob
		Next  *Rec
		Kids  []*Rec
		Flags []bool
		vals  []float32
	}
)

// recType describes Rec; its recursion ends at a nil pointer.
func recType() RType {
	b := RType{K: "bool"}
	return RType{K: "rec", F: []RField{
		{"Base", RType{K: "struct", F: []RField{{"Id", RType{K: "ptr", E: &RType{K: "u64"}}}, {"Kind", RType{K: "i32"}}}}},
		{"name", RType{K: "s"}},
		{"blob", RType{K: "y"}},
		{"Next", RType{K: "ptr", E: &RType{K: "rec"}}},
		{"Kids", RType{K: "slice", E: &RType{K: "ptr", E: &RType{K: "rec"}}}},
		{"Flags", RType{K: "slice", E: &b}},
		{"vals", RType{K: "slice", E: &RType{K: "f32"}}},
	}}
}

// namesakes are different types that have the same name.
var namesakes = map[string]reflect.Type{}

func init() {
	{
		type S struct{ A int64 }
		namesakes["n0"] = reflect.TypeOf(S{})
	}
	{
		type S struct {
			B string
			A int64
		}
		namesakes["n1"] = reflect.TypeOf(S{})
	}
	{
		type S struct{}
		namesakes["n2"] = reflect.TypeOf(S{})
	}
	{
		type S struct {
			A []string
			C *bool
			B uint32
		}
		namesakes["n3"] = reflect.TypeOf(S{})
	}
	{
		type S []int64
		namesakes["n4"] = reflect.TypeOf(struct{ S S }{})
	}
	{
		type S struct {
			a float64
			B *struct{ A, C int32 }
		}
		namesakes["n5"] = reflect.TypeOf(S{})
	}
	{ // kinds with names of their own
		type (
			octet  uint8
			octets []octet
			bytes  []byte
			text   string
			number int64
			small  int32
			flag   bool
			ratio  float32
			S      struct {
				A []octet
				B octets
				C bytes
				D text
				E []text
				F *number
				G []small
				H flag
				I []*ratio
				J []bytes
				K [][]octet
			}
		)
		namesakes["n6"] = reflect.TypeOf(S{})
	}
	for k, t := range namesakes {
		rkinds[k] = t
	}
}

// Namesakes are the kinds of different types that have the same name.
var Namesakes = []string{"n0", "n1", "n2", "n3", "n4", "n5", "n6"}

// HasNamesake reports whether one of these occurs.
func (t RType) HasNamesake() bool {
	for _, k := range Namesakes {
		if t.Has(k) {
			return true
		}
	}
	return false
}

// describe is the description of a Go type that is not recursive.
func describe(t reflect.Type) RType {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
			return RType{K: "y"}
		}
		e := describe(t.Elem())
		if t.Kind() == reflect.Slice {
			return RType{K: "slice", E: &e}
		}
		return RType{K: "ptr", E: &e}
	case reflect.Struct:
		r := RType{K: "struct"}
		for i := 0; i < t.NumField(); i++ {
			r.F = append(r.F, RField{t.Field(i).Name, describe(t.Field(i).Type)})
		}
		return r
	}
	for k, rt := range rkinds {
		if rt.Kind() == t.Kind() && rt.Kind() != reflect.Struct && rt.Kind() != reflect.Slice {
			return RType{K: k}
		}
	}
	panic(core.HarnessError{Msg: "no description of " + t.String()})
}

func (t RType) full() RType {
	if t.F != nil {
		return t
	}
	if t.K == "rec" {
		return recType()
	}
	if n, ok := namesakes[t.K]; ok {
		return RType{K: t.K, F: describe(n).F}
	}
	return t
}

var rkinds = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)), "u32": reflect.TypeOf(uint32(0)),
	"u64": reflect.TypeOf(uint64(0)), "f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)), "s": reflect.TypeOf(""),
	"y": reflect.TypeOf([]byte{}), "int": reflect.TypeOf(0), "i8": reflect.TypeOf(int8(0)), "u8": reflect.TypeOf(uint8(0)),
	"i16": reflect.TypeOf(int16(0)), "map": reflect.TypeOf(map[string]int{}), "func": reflect.TypeOf(func() {}), "rec": reflect.TypeOf(Rec{}),
}

// Go is the Go type.
func (t RType) Go() reflect.Type {
	switch t.K {
	case "ptr":
		return reflect.PointerTo(t.E.Go())
	case "slice":
		return reflect.SliceOf(t.E.Go())
	case "struct":
		var fs []reflect.StructField
		for _, f := range t.F {
			fs = append(fs, reflect.StructField{Name: f.N, Type: f.T.Go()})
		}
		return reflect.StructOf(fs)
	}
	return rkinds[t.K]
}

// RConf bounds a type.
type RConf struct {
	Depth, Width int
	Unreadable   bool // also kinds that are not readable
	NoBytes      bool
	NoRec        bool
	NoNested     bool // no slices of slices, no slices of bytes
	Numbers      string
	Narrow       bool // also kinds that are not readable from Go but can be stored to
}

var goNames = []string{"A", "B", "C", "Name", "X_y", "Ä", "XXX_unrecognized", "D1", "Value"}

// ReflectType draws a struct type.
func ReflectType(t T, c RConf) RType {
	r := RType{K: "struct"}
	k := gen.N(t, len(goNames))
	for i := gen.N(t, c.Width+1); i > 0; i-- {
		r.F = append(r.F, RField{goNames[(k+i)%len(goNames)], c.typ(t, c.Depth)})
	}
	return r
}

func (c RConf) typ(t T, depth int) RType {
	if depth <= 0 || gen.Chance(t, 1, 3) {
		return c.scalar(t)
	}
	switch gen.W(t, 3, 3, 3, 3, 1, 1) {
	case 0:
		e := c.scalar(t)
		for e.K == "y" {
			e = c.scalar(t)
		}
		return RType{K: "ptr", E: &e}
	case 1:
		e := c.scalar(t)
		for c.NoNested && e.K == "y" || e.K == "u8" {
			e = c.scalar(t)
		}
		return RType{K: "slice", E: &e}
	case 2:
		e := c.sub(t, depth-1)
		if gen.Chance(t, 3, 4) {
			e = RType{K: "ptr", E: &RType{K: e.K, F: e.F}}
		}
		return RType{K: "slice", E: &e}
	case 3:
		e := c.sub(t, depth-1)
		return RType{K: "ptr", E: &e}
	case 4:
		return c.sub(t, depth-1)
	}
	if c.NoNested {
		return c.scalar(t)
	}
	e := c.typ(t, depth-1)
	for e.K == "u8" {
		e = c.scalar(t)
	}
	if gen.Chance(t, 1, 4) && e.K != "ptr" {
		return RType{K: "ptr", E: &RType{K: "slice", E: &e}}
	}
	return RType{K: "slice", E: &e}
}

func (c RConf) sub(t T, depth int) RType {
	if !c.NoRec && gen.Chance(t, 1, 4) {
		return RType{K: gen.Pick(t, "rec", "rec", "rec", "n0", "n1", "n2", "n3", "n4", "n5", "n6")}
	}
	c.Depth = depth
	return ReflectType(t, c)
}

func (c RConf) scalar(t T) RType {
	if c.Unreadable && gen.Chance(t, 1, 12) {
		return RType{K: gen.Pick(t, "int", "i8", "u8", "i16", "map", "func")}
	}
	if c.Narrow && gen.Chance(t, 1, 4) {
		return RType{K: gen.Pick(t, "int", "i8", "u8", "i16")}
	}
	k := gen.Pick(t, "i64", "s", "bool", "f64", "u64", "i32", "u32", "f32", "y")
	if c.NoBytes && k == "y" {
		k = "s"
	}
	if c.Numbers != "" && k[0] != 'b' && k != "s" && k != "y" {
		n := string(c.Numbers[gen.N(t, len(c.Numbers))])
		if n == "d" {
			n = "f"
		}
		k = n + k[1:]
	}
	return RType{K: k}
}

// ReflectValue draws a value of a type.
func ReflectValue(t T, ty RType, depth int) RVal {
	ty = ty.full()
	switch ty.K {
	case "bool":
		return RVal{B: gen.Chance(t, 1, 2)}
	case "i32":
		return RVal{I: int64(int32(gen.Pick(t, gen.Ints...)))}
	case "i64", "int":
		return RVal{I: gen.Pick(t, gen.Ints...)}
	case "i8":
		return RVal{I: int64(int8(gen.Pick(t, gen.Ints...)))}
	case "i16":
		return RVal{I: int64(int16(gen.Pick(t, gen.Ints...)))}
	case "u8":
		return RVal{U: uint64(uint8(gen.Pick(t, gen.Uints...)))}
	case "u32":
		return RVal{U: uint64(uint32(gen.Pick(t, gen.Uints...)))}
	case "u64":
		return RVal{U: gen.Pick(t, gen.Uints...)}
	case "f32":
		return RVal{D: core.F64(float32(gen.Pick(t, 0.0, 1, 0.5, -2.25, 0.1, 1e9, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1))))}
	case "f64":
		return RVal{D: core.F64(gen.Pick(t, append([]float64{math.Inf(-1), math.Copysign(0, -1)}, gen.Doubles...)...))}
	case "s":
		return RVal{S: core.Str(gen.Pick(t, gen.Strs...))}
	case "y":
		if gen.Chance(t, 1, 5) {
			return RVal{Nil: true}
		}
		return RVal{S: core.Str(gen.Pick(t, gen.Byts...))}
	case "map", "func":
		return RVal{}
	case "ptr":
		if depth <= 0 || gen.Chance(t, 1, 4) {
			return RVal{Nil: true}
		}
		return RVal{C: []RVal{ReflectValue(t, *ty.E, depth-1)}}
	case "slice":
		if gen.Chance(t, 1, 5) {
			return RVal{Nil: true}
		}
		var r RVal
		n := gen.N(t, 4)
		if depth <= 0 {
			n = 0
		}
		for ; n > 0; n-- {
			e := *ty.E
			v := ReflectValue(t, e, depth-1)
			r.C = append(r.C, v)
		}
		return r
	}
	var r RVal
	for _, f := range ty.F {
		r.C = append(r.C, ReflectValue(t, f.T, depth-1))
	}
	return r
}

// Set stores the value.
func (v RVal) Set(ty RType, to reflect.Value) {
	ty = ty.full()
	if !to.CanSet() { // an unexported field
		to = reflect.NewAt(to.Type(), unsafe.Pointer(to.UnsafeAddr())).Elem()
	}
	switch ty.K {
	case "bool":
		to.SetBool(v.B)
	case "i32", "i64", "int", "i8", "i16":
		to.SetInt(v.I)
	case "u32", "u64", "u8":
		to.SetUint(v.U)
	case "f32", "f64":
		to.SetFloat(float64(v.D))
	case "s":
		to.SetString(string(v.S))
	case "y":
		if !v.Nil {
			to.SetBytes(append(make([]byte, 0, len(v.S)), v.S...))
		}
	case "map", "func":
	case "ptr":
		if !v.Nil {
			to.Set(reflect.New(to.Type().Elem()))
			v.C[0].Set(*ty.E, to.Elem())
		}
	case "slice":
		if !v.Nil {
			to.Set(reflect.MakeSlice(to.Type(), len(v.C), len(v.C)))
			for i, c := range v.C {
				c.Set(*ty.E, to.Index(i))
			}
		}
	default:
		for i, f := range ty.F {
			v.C[i].Set(f.T, to.Field(i))
		}
	}
}

// Go is the Go value, addressable.
func (d RDoc) Go() reflect.Value {
	v := reflect.New(d.T.Go()).Elem()
	d.V.Set(d.T, v)
	return v
}

// Tree is the forest the value denotes.
func (d RDoc) Tree() []model.Tree { return d.V.forest(d.T, false) }

// FullTree has values also for the kinds that the reflection parser does not read.
func (d RDoc) FullTree() []model.Tree { return d.V.forest(d.T, true) }

func (v RVal) forest(ty RType, full bool) []model.Tree {
	ty = ty.full()
	leaf := func(l model.Label) []model.Tree { return []model.Tree{{L: l, Leaf: true}} }
	for ty.K == "ptr" {
		if v.Nil { // an element of a slice
			return leaf(model.Label{})
		}
		v, ty = v.C[0], ty.E.full()
	}
	switch ty.K {
	case "bool":
		return leaf(model.LB(v.B))
	case "i32", "i64":
		return leaf(model.LI(v.I))
	case "u32", "u64":
		return leaf(model.LU(v.U))
	case "f32", "f64":
		return leaf(model.LD(float64(v.D)))
	case "s":
		return leaf(model.LS(string(v.S)))
	case "y":
		return leaf(model.LY(string(v.S)))
	case "int", "i8", "i16", "u8", "map", "func":
		if full && ty.K == "u8" {
			return leaf(model.LU(v.U))
		}
		if full && ty.K != "map" && ty.K != "func" {
			return leaf(model.LI(v.I))
		}
		return leaf(model.Label{})
	case "slice":
		ts := []model.Tree{}
		for i, c := range v.C {
			ts = append(ts, model.Tree{L: model.LI(int64(i)), C: c.forest(*ty.E, full)})
		}
		return ts
	}
	ts := []model.Tree{}
	for i, f := range ty.F {
		c := v.C[i]
		if c.Nil {
			continue
		}
		ts = append(ts, model.Tree{L: model.LS(f.N), C: c.forest(f.T, full)})
	}
	return ts
}

// String shows the value.
func (d RDoc) String() string {
	s := strings.Builder{}
	s.WriteString(d.T.String())
	s.WriteString(" ")
	s.WriteString(model.ForestString(d.Tree()))
	return s.String()
}

func (t RType) String() string {
	switch t.K {
	case "ptr":
		return "*" + t.E.String()
	case "slice":
		return "[]" + t.E.String()
	case "struct":
		var ss []string
		for _, f := range t.F {
			ss = append(ss, f.N+" "+f.T.String())
		}
		return "struct{" + strings.Join(ss, "; ") + "}"
	}
	return t.K
}

// Has reports whether the type k occurs in the type.
func (t RType) Has(k string) bool {
	if t.K == k || t.E != nil && t.E.Has(k) {
		return true
	}
	for _, f := range t.F {
		if f.T.Has(k) {
			return true
		}
	}
	return false
}

// Decode is the value of the type that a forest describes; ok is false if it describes none.
// odd reports values next to other nodes and fields that occur twice, which describe nothing.
func Decode(ty RType, ts []model.Tree) (v RVal, ok, odd bool) {
	null := len(ts) > 0 && ts[0].Leaf && ts[0].L == model.Label{}
	if len(ts) > 1 {
		for _, t := range ts {
			if t.Leaf {
				return v, false, true
			}
		}
	}
	switch ty.K {
	case "ptr":
		if null {
			return RVal{Nil: true}, true, false
		}
		switch ty.E.K {
		case "struct", "slice":
		default:
			if len(ts) == 0 {
				return RVal{Nil: true}, true, false
			}
		}
		e, ok, odd := Decode(*ty.E, ts)
		return RVal{C: []RVal{e}}, ok, odd
	case "struct":
		v = Zero(ty)
		if null {
			return v, true, false
		}
		seen := map[string]bool{}
		for _, t := range ts {
			if t.Leaf || t.L.S == nil {
				return v, false, false
			}
			for i, f := range ty.F {
				if f.N == string(*t.L.S) {
					if seen[f.N] {
						return v, false, true
					}
					seen[f.N] = true
					c, ok, odd := Decode(f.T, t.C)
					if !ok || odd {
						return v, ok, odd
					}
					v.C[i] = c
				}
			}
		}
		return v, true, false
	case "slice":
		if null {
			return RVal{Nil: true}, true, false
		}
		for _, t := range ts {
			if t.Leaf || t.L.I == nil {
				return v, false, false
			}
			c, ok, odd := Decode(*ty.E, t.C)
			if !ok || odd {
				return v, ok, odd
			}
			v.C = append(v.C, c)
		}
		return v, true, false
	}
	if len(ts) == 0 || null {
		return Zero(ty), true, false
	}
	if !ts[0].Leaf {
		return v, false, false
	}
	l := ts[0].L
	switch ty.K {
	case "i64", "int":
		ok = l.I != nil
	case "i32":
		ok = l.I != nil && *l.I == int64(int32(*l.I))
	case "i16":
		ok = l.I != nil && *l.I == int64(int16(*l.I))
	case "i8":
		ok = l.I != nil && *l.I == int64(int8(*l.I))
	case "u64":
		ok = l.U != nil
	case "u32":
		ok = l.U != nil && *l.U == uint64(uint32(*l.U))
	case "u8":
		ok = l.U != nil && *l.U == uint64(uint8(*l.U))
	case "f64":
		ok = l.D != nil
	case "f32":
		ok = l.D != nil && (math.Abs(float64(*l.D)) <= math.MaxFloat32 || float64(*l.D) != float64(*l.D) || math.IsInf(float64(*l.D), 0))
	case "bool":
		ok = l.B != nil
	case "s":
		ok = l.S != nil
	case "y":
		ok = l.Y != nil
	}
	if ok {
		switch {
		case ty.K[0] == 'u':
			v.U = *l.U
		case ty.K[0] == 'i':
			v.I = *l.I
		case ty.K[0] == 'f':
			v.D = *l.D
			if ty.K == "f32" {
				v.D = core.F64(float32(v.D))
			}
		case ty.K == "bool":
			v.B = *l.B
		case ty.K == "s":
			v.S = *l.S
		case ty.K == "y":
			v.S = *l.Y
		}
	}
	return v, ok, false
}

// Zero is the zero value of a type.
func Zero(ty RType) RVal {
	ty = ty.full()
	switch ty.K {
	case "ptr", "slice", "y":
		return RVal{Nil: true}
	case "struct", "rec", "n0", "n1", "n2", "n3", "n4", "n5", "n6":
		v := RVal{}
		for _, f := range ty.F {
			v.C = append(v.C, Zero(f.T))
		}
		return v
	}
	return RVal{}
}

// Finite replaces the numbers that have no notation.
func (v RVal) Finite() RVal {
	if math.IsInf(float64(v.D), 0) || math.IsNaN(float64(v.D)) {
		v.D = 3
	}
	cs := v.C
	v.C = nil
	for _, c := range cs {
		v.C = append(v.C, c.Finite())
	}
	return v
}
