package docs

import (
	"errors"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// PField is one field of a message schema.
type PField struct {
	Name   string `json:"n"`
	Num    int32  `json:"i"`
	Type   int32  `json:"t"` // descriptor.FieldDescriptorProto_Type
	Rep    bool   `json:"rep,omitempty"`
	Req    bool   `json:"req,omitempty"`
	Packed bool   `json:"packed,omitempty"` // declared so; either encoding is legal for a repeated scalar
	Msg    int    `json:"m,omitempty"`      // index of the message type
	Rel    int    `json:"rel,omitempty"`    // the type is named relatively, with this many components, where that is not ambiguous
	Ext    int    `json:"ext,omitempty"`    // 0: a field; 1, 2: an extension declared in file 0 or 1; 3: declared inside of another message
	ExtRel int    `json:"extrel,omitempty"` // the extended message is named relatively, with this many components, where that is not ambiguous
}

// PMsg is a message type.
type PMsg struct {
	Name string   `json:"n"`
	In   int      `json:"in"`             // index of the message it is declared in, -1: in the file
	File int      `json:"file,omitempty"` // for messages declared in a file
	F    []PField `json:"f,omitempty"`
}

// PSchema is a set of message types in two files.
type PSchema struct {
	Pkgs [2]string `json:"pkgs"`
	Msgs []PMsg    `json:"msgs"`
	Root int       `json:"root,omitempty"`
	P3   bool      `json:"p3,omitempty"`
	Lost int       `json:"lost,omitempty"` // extensions of a message that is not in the files: 1: by its full name; 2: relatively, in a message
}

const (
	tDouble   = int32(descriptor.FieldDescriptorProto_TYPE_DOUBLE)
	tFloat    = int32(descriptor.FieldDescriptorProto_TYPE_FLOAT)
	tInt64    = int32(descriptor.FieldDescriptorProto_TYPE_INT64)
	tUint64   = int32(descriptor.FieldDescriptorProto_TYPE_UINT64)
	tInt32    = int32(descriptor.FieldDescriptorProto_TYPE_INT32)
	tFixed64  = int32(descriptor.FieldDescriptorProto_TYPE_FIXED64)
	tFixed32  = int32(descriptor.FieldDescriptorProto_TYPE_FIXED32)
	tBool     = int32(descriptor.FieldDescriptorProto_TYPE_BOOL)
	tString   = int32(descriptor.FieldDescriptorProto_TYPE_STRING)
	tMessage  = int32(descriptor.FieldDescriptorProto_TYPE_MESSAGE)
	tBytes    = int32(descriptor.FieldDescriptorProto_TYPE_BYTES)
	tUint32   = int32(descriptor.FieldDescriptorProto_TYPE_UINT32)
	tEnum     = int32(descriptor.FieldDescriptorProto_TYPE_ENUM)
	tSfixed32 = int32(descriptor.FieldDescriptorProto_TYPE_SFIXED32)
	tSfixed64 = int32(descriptor.FieldDescriptorProto_TYPE_SFIXED64)
	tSint32   = int32(descriptor.FieldDescriptorProto_TYPE_SINT32)
	tSint64   = int32(descriptor.FieldDescriptorProto_TYPE_SINT64)
)

var scalarTypes = []int32{tInt64, tString, tDouble, tBool, tUint64, tSint32, tSint64, tBytes, tFloat, tInt32, tUint32, tFixed64, tFixed32, tSfixed32, tSfixed64, tEnum}

func wireOf(t int32) int {
	switch t {
	case tDouble, tFixed64, tSfixed64:
		return 1
	case tFloat, tFixed32, tSfixed32:
		return 5
	case tString, tBytes, tMessage:
		return 2
	}
	return 0
}

// PConf bounds a schema.
type PConf struct {
	NoExt    bool // no extensions
	SameExt  bool // an extension may have the name of a field of the message it extends
	NoBytes  bool
	Exported bool // names that are exported Go names
}

// Schema draws a schema with recursive types, types of the same name in different scopes, and extensions.
func Schema(t T, c PConf) *PSchema {
	s := &PSchema{Pkgs: [2]string{gen.Pick(t, "pkg", "a.b", "p_q"), gen.Pick(t, "other", "pkg.sub", "x.y.z")}}
	if gen.Chance(t, 1, 6) {
		s.Pkgs[gen.N(t, 2)] = ""
	}
	s.P3 = gen.Chance(t, 1, 3)
	n := 1 + gen.N(t, 4)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		m := PMsg{In: -1}
		if i > 0 && gen.Chance(t, 1, 2) {
			m.In = gen.N(t, i)
		} else {
			m.File = gen.N(t, 2)
		}
		names := []string{"M", "Inner", "N", "Outer"}
		k := gen.N(t, len(names))
		for j := 0; ; j++ {
			m.Name = names[(k+j)%len(names)]
			if j >= len(names) {
				m.Name += fmt.Sprint(j)
			}
			key := fmt.Sprint(m.In, m.File, m.Name)
			if !used[key] {
				used[key] = true
				break
			}
		}
		s.Msgs = append(s.Msgs, m)
	}
	s.Lost = gen.W(t, 6, 1, 1)
	s.Root = 0
	if gen.Chance(t, 1, 4) {
		s.Root = gen.N(t, n)
	}
	for i := range s.Msgs {
		k := 1 + gen.N(t, 5)
		nums := map[int32]bool{}
		for j := 0; j < k; j++ {
			f := PField{Name: string(rune('A'+j)) + gen.Pick(t, "", "b", "_x")}
			if !c.Exported && gen.Chance(t, 1, 6) {
				f.Name = strings.ToLower(f.Name)
			}
			for f.Num == 0 || nums[f.Num] || f.Num >= 1<<29 {
				f.Num = gen.Pick(t, 1, 2, 3, 4, 5, 15, 16, 17, 100, 2047, 2048, 65536, 1<<28, 1<<29-1, f.Num+1)
			}
			nums[f.Num] = true
			if gen.Chance(t, 1, 3) {
				f.Type = tMessage
				f.Msg = gen.N(t, n)
				if gen.Chance(t, 1, 4) {
					f.Rel = 1 + gen.N(t, 3)
				}
			} else {
				f.Type = gen.Pick(t, scalarTypes...)
				if c.NoBytes && f.Type == tBytes {
					f.Type = tString
				}
			}
			switch gen.W(t, 4, 4, 1) {
			case 1:
				f.Rep = true
				f.Packed = f.scalar() && gen.Chance(t, 1, 3)
			case 2:
				f.Req = !s.P3
			}
			if !c.NoExt && gen.Chance(t, 1, 6) {
				f.Ext = 1 + gen.N(t, 3)
				f.ExtRel = gen.N(t, 4)
				f.Req = false
			}
			s.Msgs[i].F = append(s.Msgs[i].F, f)
		}
	}
	if c.SameExt && gen.Chance(t, 1, 3) {
		s.sameExt()
	}
	return s
}

// sameExt gives the first extension that it can give one the name of a field next to it, which is in another scope.
func (s *PSchema) sameExt() {
	for i := range s.Msgs {
		for j, f := range s.Msgs[i].F {
			if f.Ext == 0 || f.Ext == 3 && len(s.Msgs) == 1 {
				continue
			}
			for _, g := range s.Msgs[i].F {
				if g.Ext != 0 {
					continue
				}
				if f.Ext == 3 { // no field of the scope has the name
					in := s.Msgs[(i+1)%len(s.Msgs)]
					if slices.ContainsFunc(in.F, func(h PField) bool { return h.Name == g.Name }) {
						continue
					}
				}
				s.Msgs[i].F[j].Name = g.Name
				return
			}
		}
	}
}

// Distinct is the schema with a name of its own for every field.
func (s *PSchema) Distinct() *PSchema {
	d := *s
	d.Msgs = slices.Clone(s.Msgs)
	for i := range d.Msgs {
		d.Msgs[i].F = slices.Clone(d.Msgs[i].F)
		for j := range d.Msgs[i].F {
			d.Msgs[i].F[j].Name = fmt.Sprint("f", j)
		}
	}
	return &d
}

func (f PField) scalar() bool { return f.Type != tMessage && f.Type != tString && f.Type != tBytes }

// path is the name of a message inside of its file.
func (s *PSchema) path(i int) string {
	if in := s.Msgs[i].In; in >= 0 {
		return s.path(in) + "." + s.Msgs[i].Name
	}
	return s.Msgs[i].Name
}

func (s *PSchema) file(i int) int {
	for s.Msgs[i].In >= 0 {
		i = s.Msgs[i].In
	}
	return s.Msgs[i].File
}

func (s *PSchema) full(i int) string { return s.pkg(s.file(i)) + "." + s.path(i) }

// pkg is the scope of a file.
func (s *PSchema) pkg(file int) string {
	if s.Pkgs[file] == "" {
		return ""
	}
	return "." + s.Pkgs[file]
}

// relative spells the message type for a field in the scope, with n components if they have no other meaning.
func (s *PSchema) relative(scope string, msg, n int) string {
	full := s.full(msg)
	parts := strings.Split(full[1:], ".")
	if n <= 0 || n > len(parts) {
		return full
	}
	parts = parts[len(parts)-n:]
	name := strings.Join(parts, ".")
	types := map[string]bool{}
	scopes := map[string]bool{} // everything that has a name, including each package and its parents
	for i := range s.Msgs {
		types[s.full(i)] = true
		scopes[s.full(i)] = true
	}
	for i := range s.Pkgs {
		for p := s.pkg(i); p != ""; p = p[:strings.LastIndex(p, ".")] {
			scopes[p] = true
		}
		scopes[s.pkg(i)+".E"] = true
	}
	byName, byFirst := "", ""
	for sc := scope; ; sc = sc[:strings.LastIndex(sc, ".")] {
		if byName == "" && types[sc+"."+name] {
			byName = sc + "." + name
		}
		if byFirst == "" && scopes[sc+"."+parts[0]] {
			byFirst = sc + "." + name
		}
		if sc == "" {
			break
		}
	}
	if byName == full && byFirst == full {
		return name
	}
	return full
}

// RootName is the package and the message name of the root.
func (s *PSchema) RootName() (string, string) { return s.Pkgs[s.file(s.Root)], s.path(s.Root) }

// Desc makes the descriptors that protoc makes.
func (s *PSchema) Desc() *descriptor.FileDescriptorSet {
	str := func(x string) *string { return &x }
	files := [2]*descriptor.FileDescriptorProto{}
	for i := range files {
		files[i] = &descriptor.FileDescriptorProto{Name: str(fmt.Sprintf("f%d.proto", i)), Package: str(s.Pkgs[i])}
		if s.P3 {
			files[i].Syntax = str("proto3")
		}
		files[i].EnumType = []*descriptor.EnumDescriptorProto{{Name: str("E")}}
	}
	msgs := make([]*descriptor.DescriptorProto, len(s.Msgs))
	for i, m := range s.Msgs {
		msgs[i] = &descriptor.DescriptorProto{Name: str(m.Name)}
		if m.In >= 0 {
			msgs[m.In].NestedType = append(msgs[m.In].NestedType, msgs[i])
		} else {
			files[m.File].MessageType = append(files[m.File].MessageType, msgs[i])
		}
	}
	for i, m := range s.Msgs {
		for _, f := range m.F {
			num, typ := f.Num, descriptor.FieldDescriptorProto_Type(f.Type)
			lab := descriptor.FieldDescriptorProto_LABEL_OPTIONAL
			if f.Rep {
				lab = descriptor.FieldDescriptorProto_LABEL_REPEATED
			} else if f.Req {
				lab = descriptor.FieldDescriptorProto_LABEL_REQUIRED
			}
			fd := &descriptor.FieldDescriptorProto{Name: str(f.Name), Number: &num, Type: &typ, Label: &lab}
			if f.Packed {
				b := true
				fd.Options = &descriptor.FieldOptions{Packed: &b}
			}
			scope := s.full(i)
			switch f.Ext {
			case 0:
			case 1, 2:
				scope = s.pkg(f.Ext - 1)
			default:
				scope = s.full((i + 1) % len(msgs))
			}
			if f.Type == tMessage {
				fd.TypeName = str(s.relative(scope, f.Msg, f.Rel))
			} else if f.Type == tEnum {
				fd.TypeName = str(s.pkg(0) + ".E")
			}
			if f.Ext == 0 {
				msgs[i].Field = append(msgs[i].Field, fd)
				continue
			}
			fd.Extendee = str(s.relative(scope, i, f.ExtRel))
			if len(msgs[i].ExtensionRange) == 0 {
				a, b := int32(1), int32(1<<29)
				msgs[i].ExtensionRange = []*descriptor.DescriptorProto_ExtensionRange{{Start: &a, End: &b}}
			}
			switch f.Ext {
			case 1, 2:
				files[f.Ext-1].Extension = append(files[f.Ext-1].Extension, fd)
			default:
				in := msgs[(i+1)%len(msgs)]
				in.Extension = append(in.Extension, fd)
			}
		}
	}
	if s.Lost > 0 {
		num, typ := int32(3), descriptor.FieldDescriptorProto_TYPE_INT64
		fd := &descriptor.FieldDescriptorProto{Name: str("lost"), Number: &num, Type: &typ, Extendee: str(".lost.Message")}
		if s.Lost == 1 {
			files[1].Extension = append(files[1].Extension, fd)
		} else {
			fd.Extendee = str("lost.Message")
			in := msgs[len(msgs)-1]
			in.Extension = append(in.Extension, fd)
		}
	}
	return &descriptor.FileDescriptorSet{File: files[:]}
}

// ---- encoding ----

// PEnc says how to encode a message.
type PEnc struct {
	Legal   bool // each field once, repeated fields in one run, no unknown fields, required fields present
	Unknown bool // with unknown fields
	Width   int
	NaN     bool
}

func putVarint(b []byte, v uint64, pad int) []byte {
	if v >= 1<<35 {
		pad = 0
	}
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	if pad == 0 {
		return append(b, byte(v))
	}
	b = append(b, byte(v)|0x80)
	for ; pad > 1; pad-- {
		b = append(b, 0x80)
	}
	return append(b, 0)
}

func putFixed(b []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

func (w *pw) key(b []byte, num int32, wire int) []byte {
	return putVarint(b, uint64(num)<<3|uint64(wire), w.pad())
}

type pw struct {
	t T
	s *PSchema
	e PEnc
}

// pad makes an overlong varint now and then, which is legal.
func (w *pw) pad() int {
	if !w.e.Legal && gen.Chance(w.t, 1, 40) {
		return 1 + gen.N(w.t, 3)
	}
	return 0
}

// Message draws an encoded root message.
func Message(t T, s *PSchema, depth int, e PEnc) core.Str {
	w := &pw{t, s, e}
	return core.Str(w.message(s.Root, depth))
}

func (w *pw) message(m, depth int) []byte {
	t := w.t
	var b []byte
	fs := w.s.Msgs[m].F
	if w.e.Legal {
		start := gen.N(t, len(fs))
		for i := range fs {
			f := fs[(start+i)%len(fs)]
			if f.Type == tMessage && depth <= 0 {
				continue
			}
			if f.Req || gen.Chance(t, 2, 3) {
				b = w.run(b, f, depth)
			}
		}
		return b
	}
	for i := gen.N(t, w.e.Width+1); i > 0; i-- {
		if w.e.Unknown && gen.Chance(t, 1, 8) {
			b = w.unknown(b, m)
			continue
		}
		f := fs[gen.N(t, len(fs))]
		if f.Type == tMessage && depth <= 0 {
			continue
		}
		b = w.run(b, f, depth)
	}
	return b
}

// run encodes one field, a repeated one with several elements.
func (w *pw) run(b []byte, f PField, depth int) []byte {
	t := w.t
	if !f.Rep {
		b = w.key(b, f.Num, wireOf(f.Type))
		return w.value(b, f, depth)
	}
	n := 1 + gen.N(t, 4)
	packed := f.scalar() && (f.Packed != gen.Chance(t, 1, 4))
	if packed {
		if gen.Chance(t, 1, 8) {
			n = 0
		}
		var p []byte
		for ; n > 0; n-- {
			p = w.value(p, f, depth)
		}
		b = w.key(b, f.Num, 2)
		b = putVarint(b, uint64(len(p)), w.pad())
		return append(b, p...)
	}
	for ; n > 0; n-- {
		b = w.key(b, f.Num, wireOf(f.Type))
		b = w.value(b, f, depth)
	}
	return b
}

func (w *pw) unknown(b []byte, m int) []byte {
	t := w.t
	num := int32(6 + gen.N(t, 5))
	wire := gen.Pick(t, 0, 1, 2, 5)
	if gen.Chance(t, 1, 3) { // a known number with a foreign wire type is unknown too
		num = w.s.Msgs[m].F[gen.N(t, len(w.s.Msgs[m].F))].Num
	}
	for _, f := range w.s.Msgs[m].F {
		if f.Num == num && (wire == wireOf(f.Type) || wire == 2) {
			wire = 1
			if wireOf(f.Type) == 1 {
				wire = 5
			}
		}
	}
	b = w.key(b, num, wire)
	switch wire {
	case 0:
		return putVarint(b, gen.Uint(t), w.pad())
	case 1:
		return putFixed(b, gen.Uint(t), 8)
	case 5:
		return putFixed(b, gen.Uint(t), 4)
	}
	x := gen.Bytes(t)
	b = putVarint(b, uint64(len(x)), w.pad())
	return append(b, x...)
}

func (w *pw) value(b []byte, f PField, depth int) []byte {
	t := w.t
	switch f.Type {
	case tMessage:
		x := w.message(f.Msg, depth-1)
		b = putVarint(b, uint64(len(x)), w.pad())
		return append(b, x...)
	case tString:
		x := gen.String(t)
		b = putVarint(b, uint64(len(x)), w.pad())
		return append(b, x...)
	case tBytes:
		x := gen.Bytes(t)
		b = putVarint(b, uint64(len(x)), w.pad())
		return append(b, x...)
	case tDouble:
		d := gen.Double(t)
		if w.e.NaN && gen.Chance(t, 1, 10) {
			d = gen.Pick(t, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1))
		}
		return putFixed(b, math.Float64bits(d), 8)
	case tFloat:
		d := float32(gen.Pick(t, gen.Doubles...))
		if math.IsInf(float64(d), 0) {
			d = 1
		}
		if w.e.NaN && gen.Chance(t, 1, 10) {
			d = gen.Pick(t, float32(math.NaN()), float32(math.Inf(1)), float32(math.Copysign(0, -1)), math.MaxFloat32, math.SmallestNonzeroFloat32)
		}
		return putFixed(b, uint64(math.Float32bits(d)), 4)
	case tInt64:
		return putVarint(b, uint64(gen.Int(t)), w.pad())
	case tUint64:
		return putVarint(b, gen.Uint(t), w.pad())
	case tInt32, tEnum:
		return putVarint(b, uint64(int64(int32(gen.Int(t)))), w.pad0())
	case tUint32:
		return putVarint(b, uint64(uint32(gen.Uint(t))), w.pad())
	case tBool:
		return putVarint(b, uint64(gen.N(t, 2)), w.pad())
	case tFixed64, tSfixed64:
		return putFixed(b, uint64(gen.Int(t)), 8)
	case tFixed32, tSfixed32:
		return putFixed(b, uint64(uint32(gen.Int(t))), 4)
	case tSint32:
		v := int32(gen.Int(t))
		return putVarint(b, uint64(uint32(v)<<1^uint32(v>>31)), w.pad())
	case tSint64:
		v := gen.Int(t)
		return putVarint(b, uint64(v)<<1^uint64(v>>63), 0)
	}
	panic(&core.HarnessError{Msg: fmt.Sprint("type ", f.Type)})
}

func (w *pw) pad0() int { return 0 } // a negative int32 has all ten bytes already

// ---- reference reader ----

var errWire = errors.New("malformed message")

func getVarint(b []byte) (uint64, []byte, error) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		if i == 9 && b[i] > 1 {
			return 0, nil, errWire
		}
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, b[i+1:], nil
		}
	}
	return 0, nil, errWire
}

// getValue splits off the content of one record.
func getValue(b []byte, wire int) (content, rest []byte, err error) {
	n := 0
	switch wire {
	case 0:
		_, rest, err := getVarint(b)
		if err != nil {
			return nil, nil, err
		}
		return b[:len(b)-len(rest)], rest, nil
	case 1:
		n = 8
	case 5:
		n = 4
	case 2:
		l, r, err := getVarint(b)
		if err != nil || l > uint64(len(r)) {
			return nil, nil, errWire
		}
		b, n = r, int(l)
	default:
		return nil, nil, errWire
	}
	if n > len(b) {
		return nil, nil, errWire
	}
	return b[:n], b[n:], nil
}

func fixedValue(b []byte) uint64 {
	var v uint64
	for i := range b {
		v |= uint64(b[i]) << (8 * i)
	}
	return v
}

func leafOf(f PField, b []byte) model.Label {
	v := uint64(0)
	if wireOf(f.Type) == 0 {
		v, _, _ = getVarint(b)
	} else if wireOf(f.Type) != 2 {
		v = fixedValue(b)
	}
	switch f.Type {
	case tString:
		return model.LS(string(b))
	case tBytes:
		return model.LY(string(b))
	case tDouble:
		return model.LD(math.Float64frombits(v))
	case tFloat:
		return model.LD(float64(math.Float32frombits(uint32(v))))
	case tInt64, tSfixed64:
		return model.LI(int64(v))
	case tInt32, tEnum, tSfixed32:
		return model.LI(int64(int32(v)))
	case tUint64, tFixed64:
		return model.LU(v)
	case tUint32, tFixed32:
		return model.LU(uint64(uint32(v)))
	case tBool:
		return model.LB(v != 0)
	case tSint32:
		u := uint32(v)
		x := int32(u >> 1)
		if u&1 == 1 {
			x = ^x
		}
		return model.LI(int64(x))
	case tSint64:
		x := int64(v >> 1)
		if v&1 == 1 {
			x = ^x
		}
		return model.LI(x)
	}
	panic(&core.HarnessError{Msg: "leaf type"})
}

// Tree reads an encoded root message: fields in wire order, consecutive records of one repeated field together.
func (s *PSchema) Tree(b []byte) ([]Tree, error) { return s.tree(s.Root, b) }

func (s *PSchema) tree(m int, b []byte) ([]Tree, error) {
	var res []Tree
	last := -1 // the field whose run of elements the last node is
	for len(b) > 0 {
		k, rest, err := getVarint(b)
		if err != nil {
			return res, err
		}
		wire := int(k & 7)
		content, rest, err := getValue(rest, wire)
		if err != nil {
			return res, err
		}
		b = rest
		fi := -1
		for i, f := range s.Msgs[m].F {
			if uint64(f.Num) == k>>3 && (wire == wireOf(f.Type) || f.Rep && f.scalar() && wire == 2) {
				fi = i
			}
		}
		if fi < 0 {
			last = -1
			continue
		}
		f := s.Msgs[m].F[fi]
		node := Tree{L: model.LS(f.Name)}
		if f.Rep && wire != wireOf(f.Type) { // packed
			last = -1
			for i := 0; len(content) > 0; i++ {
				var x []byte
				if x, content, err = getValue(content, wireOf(f.Type)); err != nil {
					return append(res, node), err
				}
				node.C = append(node.C, Tree{L: model.LI(int64(i)), C: []Tree{{L: leafOf(f, x), Leaf: true}}})
			}
			res = append(res, node)
			continue
		}
		var c []Tree
		if f.Type == tMessage {
			if c, err = s.tree(f.Msg, content); err != nil {
				return append(res, node), err
			}
		} else {
			c = []Tree{{L: leafOf(f, content), Leaf: true}}
		}
		if !f.Rep {
			last = -1
			node.C = c
			res = append(res, node)
			continue
		}
		if last != fi {
			res = append(res, node)
			last = fi
		}
		n := &res[len(res)-1]
		n.C = append(n.C, Tree{L: model.LI(int64(len(n.C))), C: c})
	}
	return res, nil
}

// ProtoBytes is what damaged messages are made of.
var ProtoBytes = []string{"\x00", "\x01", "\x02", "\x08", "\x0a", "\x12", "\x10", "\x80", "\xff", "\x7f", "\xff\xff\xff\xff\x0f", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80", "\x0b", "\x0c", "\x0d", "\x09"}

// Field is the field of message m with the given name.
func (s *PSchema) Field(m int, name string) *PField {
	for i := range s.Msgs[m].F {
		if s.Msgs[m].F[i].Name == name {
			return &s.Msgs[m].F[i]
		}
	}
	return nil
}

// IsMessage reports whether the values of the field are messages.
func (f PField) IsMessage() bool { return f.Type == tMessage }

// Fits reports whether a forest describes a root message: every value of a known field has the type of the field.
// Nodes of other names are dropped, elements are numbered.
func (s *PSchema) Fits(ts []Tree) ([]Tree, bool) { return s.fits(s.Root, ts) }

func (s *PSchema) fits(m int, ts []Tree) ([]Tree, bool) {
	var res []Tree
	for _, t := range ts {
		if t.Leaf || t.L.S == nil {
			return nil, false
		}
		f := s.Field(m, string(*t.L.S))
		if f == nil {
			continue
		}
		n := Tree{L: t.L}
		if !f.Rep {
			if len(t.C) == 0 && !f.IsMessage() {
				continue // no value: nothing is set
			}
			c, ok := s.fitsValue(*f, t.C)
			if !ok {
				return nil, false
			}
			n.C = c
			res = append(res, n)
			continue
		}
		for _, e := range t.C {
			if e.Leaf || e.L.I == nil {
				return nil, false
			}
			if len(e.C) == 0 && !f.IsMessage() {
				continue
			}
			c, ok := s.fitsValue(*f, e.C)
			if !ok {
				return nil, false
			}
			n.C = append(n.C, Tree{L: model.LI(int64(len(n.C))), C: c})
		}
		res = append(res, n)
	}
	return res, true
}

func (s *PSchema) fitsValue(f PField, ts []Tree) ([]Tree, bool) {
	if f.IsMessage() {
		return s.fits(f.Msg, ts)
	}
	if len(ts) != 1 || !ts[0].Leaf {
		return nil, false
	}
	l := ts[0].L
	if f.Type == tFloat && l.D != nil && float64(float32(*l.D)) != float64(*l.D) && *l.D == *l.D {
		return ts, false // rounded
	}
	return ts, holds(f.Type, l)
}

// holds reports whether a field of a scalar type can hold a value.
func holds(typ int32, l model.Label) bool {
	ok := false
	switch typ {
	case tInt64, tSint64, tSfixed64:
		ok = l.I != nil
	case tInt32, tSint32, tSfixed32, tEnum:
		ok = l.I != nil && *l.I == int64(int32(*l.I))
	case tUint64, tFixed64:
		ok = l.U != nil
	case tUint32, tFixed32:
		ok = l.U != nil && *l.U == uint64(uint32(*l.U))
	case tDouble, tFloat:
		ok = l.D != nil
	case tBool:
		ok = l.B != nil
	case tString:
		ok = l.S != nil
	case tBytes:
		ok = l.Y != nil
	}
	return ok
}

// Overflows reports whether the scalar field of a value of a forest cannot hold it: an integer beyond 32 bits, a value of another type.
func (s *PSchema) Overflows(ts []Tree) bool { return s.overflows(s.Root, ts) }

func (s *PSchema) overflows(m int, ts []Tree) bool {
	for _, t := range ts {
		if t.Leaf || t.L.S == nil {
			return false
		}
		f := s.Field(m, string(*t.L.S))
		if f == nil {
			continue
		}
		vs := [][]Tree{t.C}
		if f.Rep {
			vs = nil
			for _, e := range t.C {
				if e.Leaf || e.L.I == nil {
					return false
				}
				vs = append(vs, e.C)
			}
		}
		for _, v := range vs {
			if f.IsMessage() {
				if s.overflows(f.Msg, v) {
					return true
				}
				continue
			}
			if len(v) == 0 || !v[0].Leaf {
				continue
			}
			if l := v[0].L; !holds(f.Type, l) {
				return true
			}
		}
	}
	return false
}
