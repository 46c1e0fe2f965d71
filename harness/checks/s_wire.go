package checks

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/gogo/protobuf/proto"
	descpb "github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	"github.com/katydid/katydid/relapse/ast"

	"verif/harness/core"
	"verif/harness/gen"
)

// The messages of the AST, by name, found from the grammar's type, and their schema as the file
// descriptor compiled into the package gives it.
var (
	wireTypes = map[string]reflect.Type{}
	wireDesc  = map[string]*descpb.DescriptorProto{}
	wireNames []string
)

var loadWire = sync.OnceValue(readDescriptor)

func readDescriptor() error {
	gz, _ := (&ast.Grammar{}).Descriptor()
	zr, err := gzip.NewReader(bytes.NewReader(gz))
	if err != nil {
		return err
	}
	raw, err := io.ReadAll(zr)
	if err != nil {
		return err
	}
	fd := &descpb.FileDescriptorProto{}
	if err := proto.Unmarshal(raw, fd); err != nil {
		return err
	}
	var visit func(t reflect.Type)
	visit = func(t reflect.Type) {
		for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		if t.Kind() != reflect.Struct || wireTypes[t.Name()] != nil {
			return
		}
		wireTypes[t.Name()] = t
		for i := 0; i < t.NumField(); i++ {
			visit(t.Field(i).Type)
		}
	}
	visit(reflect.TypeOf(ast.Grammar{}))
	for _, m := range fd.MessageType {
		wireDesc[m.GetName()] = m
		wireNames = append(wireNames, m.GetName())
	}
	for n := range wireTypes {
		if wireDesc[n] == nil {
			return fmt.Errorf("the descriptor has no message %s", n)
		}
	}
	return nil
}

// wireField finds a field of a message, and the index of the struct field that holds it.
func wireField(msg string, num int) (*descpb.FieldDescriptorProto, string) {
	for _, f := range wireDesc[msg].GetField() {
		if int(f.GetNumber()) == num {
			return f, f.GetName()
		}
	}
	return nil, ""
}

var (
	errWire = errors.New("broken")
	errOpen = errors.New("not specified")
)

// varint reads a number; one that does not fit in 64 bits is broken, or left open if its tenth byte is at fault.
func wireVarint(b []byte) (uint64, []byte, error) {
	v, n := binary.Uvarint(b)
	switch {
	case n > 0:
		return v, b[n:], nil
	case n == 0:
		if len(b) >= 10 {
			return 0, nil, errWire
		}
		return 0, nil, errWire
	}
	if -n == 10 { // the tenth byte has bits beyond the 64th
		return 0, nil, errOpen
	}
	return 0, nil, errWire
}

// wireSkip passes over the value of an unknown field.
func wireSkip(wt int, num uint64, b []byte) ([]byte, error) {
	switch wt {
	case 0:
		_, r, err := wireVarint(b)
		return r, err
	case 1, 5:
		n := 8
		if wt == 5 {
			n = 4
		}
		if len(b) < n {
			return nil, errWire
		}
		return b[n:], nil
	case 2:
		n, r, err := wireVarint(b)
		if err != nil {
			return nil, err
		}
		if n > uint64(len(r)) {
			return nil, errWire
		}
		return r[n:], nil
	case 3:
		for {
			tag, r, err := wireVarint(b)
			if err != nil {
				return nil, err
			}
			if tag&7 == 4 {
				if tag>>3 != num {
					return nil, errOpen // ends another group
				}
				return r, nil
			}
			if tag>>3 == 0 || tag>>3 >= 1<<29 {
				return nil, errOpen
			}
			if b, err = wireSkip(int(tag&7), tag>>3, r); err != nil {
				return nil, err
			}
		}
	}
	return nil, errWire
}

// wireRead merges an encoded message into v, a struct. It is the reference reader.
func wireRead(b []byte, v reflect.Value) error {
	msg := v.Type().Name()
	for len(b) > 0 {
		tag, r, err := wireVarint(b)
		if err != nil {
			return err
		}
		b = r
		num, wt := tag>>3, int(tag&7)
		if num >= 1<<29 {
			return errOpen
		}
		if num == 0 || wt == 4 {
			return errWire
		}
		f, name := wireField(msg, int(num))
		if f == nil {
			if b, err = wireSkip(wt, num, b); err != nil {
				return err
			}
			continue
		}
		fv := v.FieldByName(name)
		want := 2
		switch f.GetType() {
		case descpb.FieldDescriptorProto_TYPE_DOUBLE:
			want = 1
		case descpb.FieldDescriptorProto_TYPE_INT64, descpb.FieldDescriptorProto_TYPE_UINT64, descpb.FieldDescriptorProto_TYPE_BOOL, descpb.FieldDescriptorProto_TYPE_ENUM:
			want = 0
		}
		if wt != want {
			return errOpen // may be refused, may be passed over as unknown
		}
		put := func(x interface{}) {
			t := fv.Type()
			if t.Kind() == reflect.Ptr {
				p := reflect.New(t.Elem())
				p.Elem().Set(reflect.ValueOf(x).Convert(t.Elem()))
				fv.Set(p)
			} else {
				fv.Set(reflect.ValueOf(x).Convert(t))
			}
		}
		switch want {
		case 0:
			n, r, err := wireVarint(b)
			if err != nil {
				return err
			}
			b = r
			switch f.GetType() {
			case descpb.FieldDescriptorProto_TYPE_INT64:
				put(int64(n))
			case descpb.FieldDescriptorProto_TYPE_UINT64:
				put(n)
			case descpb.FieldDescriptorProto_TYPE_BOOL:
				put(n != 0)
			default:
				put(int32(n))
			}
		case 1:
			if len(b) < 8 {
				return errWire
			}
			put(math.Float64frombits(binary.LittleEndian.Uint64(b)))
			b = b[8:]
		case 2:
			n, r, err := wireVarint(b)
			if err != nil {
				return err
			}
			if n > uint64(len(r)) {
				return errWire
			}
			part := r[:n]
			b = r[n:]
			switch f.GetType() {
			case descpb.FieldDescriptorProto_TYPE_STRING:
				if fv.Kind() == reflect.Slice {
					fv.Set(reflect.Append(fv, reflect.ValueOf(string(part))))
				} else {
					put(string(part))
				}
			case descpb.FieldDescriptorProto_TYPE_BYTES:
				fv.Set(reflect.ValueOf(append([]byte{}, part...)))
			default:
				var to reflect.Value
				if fv.Kind() == reflect.Slice {
					to = reflect.New(fv.Type().Elem().Elem())
					fv.Set(reflect.Append(fv, to))
				} else {
					if fv.IsNil() {
						fv.Set(reflect.New(fv.Type().Elem()))
					}
					to = fv
				}
				if err := wireRead(part, to.Elem()); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func wireTag(b []byte, num, wt int) []byte {
	return binary.AppendUvarint(b, uint64(num)<<3|uint64(wt))
}

// padded writes a number, at times with more bytes than needed.
func padded(t T, b []byte, v uint64, wild bool) []byte {
	if wild && gen.Chance(t, 1, 12) {
		var buf []byte
		buf = binary.AppendUvarint(buf, v)
		if len(buf) < 9 {
			buf[len(buf)-1] |= 0x80
			for n := gen.N(t, 9-len(buf)); n > 0; n-- {
				buf = append(buf, 0x80)
			}
			buf = append(buf, 0)
		}
		return append(b, buf...)
	}
	return binary.AppendUvarint(b, v)
}

// unknownField writes a field the message does not have.
func unknownField(t T, b []byte, msg string, depth int) []byte {
	num := gen.Pick(t, 15, 16, 17, 49, 51, 100, 2047, 2048, 20000, 1<<29-1, 2, 1, 7, 4, 8)
	if f, _ := wireField(msg, num); f != nil {
		num += 15
		if f, _ := wireField(msg, num); f != nil {
			num = 999
		}
	}
	wt := gen.Pick(t, 0, 1, 2, 2, 5, 3)
	if depth <= 0 && wt == 3 {
		wt = 0
	}
	b = wireTag(b, num, wt)
	switch wt {
	case 0:
		b = padded(t, b, gen.Uint(t), true)
	case 1:
		b = binary.LittleEndian.AppendUint64(b, gen.Uint(t))
	case 5:
		b = binary.LittleEndian.AppendUint32(b, uint32(gen.Uint(t)))
	case 2:
		s := gen.Bytes(t)
		b = padded(t, b, uint64(len(s)), true)
		b = append(b, s...)
	case 3:
		for n := gen.N(t, 3); n > 0; n-- {
			b = unknownField(t, b, "", depth-1)
		}
		b = wireTag(b, num, 4)
	}
	return b
}

// wireBytes generates an encoded message: in a tidy one each field comes at most once, in order; in a wild one
// fields come in any order and number, with unknown fields between them.
func wireBytes(t T, msg string, depth int, wild bool) []byte {
	var b []byte
	d := wireDesc[msg]
	one := func(f *descpb.FieldDescriptorProto) {
		num := int(f.GetNumber())
		switch f.GetType() {
		case descpb.FieldDescriptorProto_TYPE_DOUBLE:
			b = wireTag(b, num, 1)
			v := math.Float64bits(gen.Double(t))
			if gen.Chance(t, 1, 10) {
				v = gen.Uint(t)
			}
			b = binary.LittleEndian.AppendUint64(b, v)
		case descpb.FieldDescriptorProto_TYPE_INT64:
			b = padded(t, wireTag(b, num, 0), uint64(gen.Int(t)), wild)
		case descpb.FieldDescriptorProto_TYPE_UINT64:
			b = padded(t, wireTag(b, num, 0), gen.Uint(t), wild)
		case descpb.FieldDescriptorProto_TYPE_BOOL:
			v := uint64(gen.N(t, 2))
			if wild && gen.Chance(t, 1, 6) {
				v = gen.Uint(t)
			}
			b = padded(t, wireTag(b, num, 0), v, wild)
		case descpb.FieldDescriptorProto_TYPE_ENUM:
			v := int64(gen.Pick(t, 1, 3, 4, 8, 9, 12, 101, 112, 212, 0, -1, math.MaxInt32, math.MinInt32, 127, 128))
			b = padded(t, wireTag(b, num, 0), uint64(v), wild)
		case descpb.FieldDescriptorProto_TYPE_STRING, descpb.FieldDescriptorProto_TYPE_BYTES:
			s := gen.String(t)
			if gen.Chance(t, 1, 3) {
				s = gen.Bytes(t)
			}
			if gen.Chance(t, 1, 15) {
				s = strings.Repeat("x", gen.Pick(t, 126, 127, 128, 129, 300, 16383, 16384))
			}
			b = padded(t, wireTag(b, num, 2), uint64(len(s)), wild)
			b = append(b, s...)
		default:
			name := f.GetTypeName()
			name = name[strings.LastIndex(name, ".")+1:]
			sub := wireBytes(t, name, depth-1, wild)
			b = padded(t, wireTag(b, num, 2), uint64(len(sub)), wild)
			b = append(b, sub...)
		}
	}
	want := func(f *descpb.FieldDescriptorProto) bool {
		if f.GetType() == descpb.FieldDescriptorProto_TYPE_MESSAGE {
			if depth <= 0 {
				return false
			}
			if k := f.GetTypeName(); strings.HasSuffix(k, ".Space") || strings.HasSuffix(k, ".Keyword") {
				return gen.Chance(t, 1, 3)
			}
			if msg == "Pattern" || msg == "NameExpr" || msg == "Expr" {
				return gen.Chance(t, 1, len(d.Field)-1)
			}
			return gen.Chance(t, 3, 4)
		}
		return gen.Chance(t, 1, 2)
	}
	if !wild {
		for _, f := range d.Field {
			n := 0
			if want(f) {
				n = 1
				if f.GetLabel() == descpb.FieldDescriptorProto_LABEL_REPEATED {
					n += gen.N(t, 3)
				}
			}
			for ; n > 0; n-- {
				one(f)
			}
		}
		return b
	}
	for n := gen.N(t, len(d.Field)+3); n > 0; n-- {
		if gen.Chance(t, 1, 8) {
			b = unknownField(t, b, msg, 2)
			continue
		}
		if f := d.Field[gen.N(t, len(d.Field))]; want(f) {
			one(f)
		}
	}
	return b
}

type wireCase struct {
	Msg   string `json:"msg"`
	Data  []byte `json:"data"`
	Again []byte `json:"again,omitempty"` // read into the same value afterwards
}

func wireRoot(t T) string {
	if err := loadWire(); err != nil {
		panic(err)
	}
	switch gen.W(t, 3, 3, 2, 1) {
	case 0:
		return "Grammar"
	case 1:
		return "Pattern"
	case 2:
		return "Expr"
	}
	return wireNames[gen.N(t, len(wireNames))]
}

func genWire(t T) wireCase {
	c := wireCase{Msg: wireRoot(t)}
	wild := gen.Chance(t, 1, 2)
	c.Data = wireBytes(t, c.Msg, 1+gen.N(t, 6), wild)
	if gen.Chance(t, 1, 3) {
		c.Again = wireBytes(t, c.Msg, 1+gen.N(t, 3), wild)
	}
	return c
}

type wireMessage interface {
	proto.Message
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	Unmarshal([]byte) error
	Size() int
}

// sameMessage compares two values bit by bit. An empty list is no list, but empty bytes are not no bytes.
func sameMessage(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Ptr:
		return a.IsNil() == b.IsNil() && (a.IsNil() || sameMessage(a.Elem(), b.Elem()))
	case reflect.Slice:
		if a.Len() != b.Len() || a.Type().Elem().Kind() == reflect.Uint8 && a.IsNil() != b.IsNil() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameMessage(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameMessage(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	}
	return a.Interface() == b.Interface()
}

func sameMsg(a, b interface{}) bool { return sameMessage(reflect.ValueOf(a), reflect.ValueOf(b)) }

func newMessage(name string) wireMessage {
	return reflect.New(wireTypes[name]).Interface().(wireMessage)
}

// checkMessage: what is written for m is read back as m, by the reference reader and by the code.
func checkMessage(m wireMessage) error {
	name := reflect.TypeOf(m).Elem().Name()
	data, err := m.Marshal()
	if err != nil {
		return errf("Marshal: %v", err)
	}
	if len(data) != m.Size() {
		return errf("%s: Size is %d, Marshal wrote %d bytes: %x", name, m.Size(), len(data), data)
	}
	ref := newMessage(name)
	if err := wireRead(data, reflect.ValueOf(ref).Elem()); err != nil {
		return errf("%s: what Marshal wrote is %v: %x", name, err, data)
	}
	if !sameMsg(m, ref) {
		return errf("%s: what Marshal wrote is another value: %s\nbytes: %x", name, diffAt(m, ref), data)
	}
	back := newMessage(name)
	if err := back.Unmarshal(data); err != nil {
		return errf("%s: what Marshal wrote cannot be read: %v: %x", name, err, data)
	}
	if !sameMsg(m, back) {
		return errf("%s: what Marshal wrote is read as another value: %s\nbytes: %x", name, diffAt(m, back), data)
	}
	big := make([]byte, m.Size()+8)
	for i := range big {
		big[i] = 0xa5
	}
	n, err := m.MarshalTo(big[:m.Size()])
	if err != nil || n != m.Size() {
		return errf("%s: MarshalTo: %d bytes, %v, want %d", name, n, err, m.Size())
	}
	if !bytes.Equal(big[:n], data) || !bytes.Equal(big[n:], bytes.Repeat([]byte{0xa5}, 8)) {
		return errf("%s: MarshalTo wrote %x, Marshal %x", name, big, data)
	}
	viaProto, err := proto.Marshal(m)
	if err != nil || !bytes.Equal(viaProto, data) {
		return errf("%s: proto.Marshal wrote %x, %v, Marshal %x", name, viaProto, err, data)
	}
	if !sameMsg(m, ref) {
		return errf("%s: writing changed the value: %s", name, diffAt(ref, m))
	}
	// What was read does not change when its bytes do.
	for i := range data {
		data[i] = ^data[i]
	}
	if !sameMsg(m, back) {
		return errf("%s: the value read keeps the bytes it was read from: %s", name, diffAt(m, back))
	}
	// A used target is reset first.
	if err := proto.Unmarshal(viaProto, back); err != nil || !sameMsg(m, back) {
		return errf("%s: proto.Unmarshal into a used value: %v, %s", name, err, diffAt(m, back))
	}
	back.Reset()
	if !sameMsg(back, newMessage(name)) {
		return errf("%s: Reset leaves %s", name, diffAt(newMessage(name), back))
	}
	return nil
}

// checkFields: the accessors give the fields, and the struct's own notes agree with the descriptor.
func checkFields(m wireMessage) error {
	v := reflect.ValueOf(m)
	t := v.Elem().Type()
	zero := reflect.Zero(v.Type())
	numOf := map[string]bool{}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag := strings.Split(sf.Tag.Get("protobuf"), ",")
		if len(tag) < 4 {
			return errf("%s.%s: no protobuf tag", t.Name(), sf.Name)
		}
		var f *descpb.FieldDescriptorProto
		for _, g := range wireDesc[t.Name()].Field {
			if g.GetName() == sf.Name {
				f = g
			}
		}
		if f == nil || fmt.Sprint(f.GetNumber()) != tag[1] || tag[3] != "name="+f.GetName() {
			return errf("%s.%s: the tag %v does not agree with the descriptor %v", t.Name(), sf.Name, tag, f)
		}
		numOf[sf.Name] = true
		get := v.MethodByName("Get" + sf.Name)
		if !get.IsValid() {
			return errf("%s: no Get%s", t.Name(), sf.Name)
		}
		got := get.Call(nil)[0]
		want := v.Elem().Field(i)
		if want.Kind() == reflect.Ptr && want.Type().Elem().Kind() != reflect.Struct {
			if want.IsNil() {
				want = reflect.Zero(want.Type().Elem())
			} else {
				want = want.Elem()
			}
		}
		if !sameMessage(got, want) {
			return errf("%s.Get%s() = %v, the field is %v", t.Name(), sf.Name, got, want)
		}
		if !zero.MethodByName("Get" + sf.Name).Call(nil)[0].IsZero() {
			// An enum has its first value as default.
			if f.GetType() != descpb.FieldDescriptorProto_TYPE_ENUM {
				return errf("(*%s)(nil).Get%s() is not zero", t.Name(), sf.Name)
			}
		}
	}
	for _, f := range wireDesc[t.Name()].Field {
		if !numOf[f.GetName()] {
			return errf("%s has no field %s", t.Name(), f.GetName())
		}
	}
	// The unions.
	if u, ok := m.(interface {
		GetValue() interface{}
		SetValue(interface{}) bool
	}); ok {
		var first reflect.Value
		n := 0
		for i := t.NumField() - 1; i >= 0; i-- {
			if f := v.Elem().Field(i); !f.IsNil() {
				first = f
				n++
			}
		}
		got := u.GetValue()
		if n == 0 && got != nil {
			return errf("%s without a field has the value %v", t.Name(), got)
		}
		if n >= 1 && (got == nil || reflect.ValueOf(got).Pointer() != first.Pointer()) {
			return errf("%s has the value %T %v, want %v", t.Name(), got, got, first)
		}
		if n == 1 {
			w := reflect.New(t)
			if !w.Interface().(interface{ SetValue(interface{}) bool }).SetValue(got) || !sameMessage(w, v) {
				return errf("%s.SetValue(%T) sets %v", t.Name(), got, w)
			}
		}
		if u.SetValue("none") || u.SetValue(nil) {
			return errf("%s.SetValue takes a string", t.Name())
		}
	}
	return nil
}

// Parts visits every message below m.
func messagesOf(m wireMessage, f func(wireMessage) error) error {
	var err error
	reach(reflect.ValueOf(m), "", func(_ string, v reflect.Value) {
		if err != nil || v.Kind() != reflect.Ptr || v.IsNil() {
			return
		}
		if x, ok := v.Interface().(wireMessage); ok {
			err = f(x)
		}
	})
	return err
}

func runWire(c wireCase, o *core.Obs) error {
	if err := loadWire(); err != nil {
		return err
	}
	ref := newMessage(c.Msg)
	refErr := wireRead(c.Data, reflect.ValueOf(ref).Elem())
	got := newMessage(c.Msg)
	err := got.Unmarshal(append([]byte{}, c.Data...))
	o.LabelIf(refErr == errOpen, "open")
	o.LabelIf(refErr == errWire, "broken")
	switch {
	case refErr == errOpen:
		return nil
	case refErr != nil && err == nil:
		return errf("%s: broken bytes are read as %v: %x", c.Msg, got, c.Data)
	case refErr != nil:
		o.NonTrivialIf(len(c.Data) > 2)
		o.Sample("%s %x: %v", c.Msg, c.Data, err)
		return nil
	case err != nil:
		return errf("%s: %v\nbytes: %x\nwant: %v", c.Msg, err, c.Data, ref)
	}
	if !sameMsg(got, ref) {
		return errf("%s: read as another value: %s\nbytes: %x", c.Msg, diffAt(ref, got), c.Data)
	}
	if err := checkMessage(got); err != nil {
		return err
	}
	if err := messagesOf(got, checkFields); err != nil {
		return err
	}
	if len(c.Again) > 0 {
		if wireRead(c.Again, reflect.ValueOf(ref).Elem()) != nil {
			return nil
		}
		if err := got.Unmarshal(c.Again); err != nil {
			return errf("%s: read into a used value: %v\nbytes: %x then %x", c.Msg, err, c.Data, c.Again)
		}
		if !sameMsg(got, ref) {
			return errf("%s: what is read into a used value is not merged: %s\nbytes: %x then %x", c.Msg, diffAt(ref, got), c.Data, c.Again)
		}
		o.Label("merged")
	}
	o.LabelIf(c.Msg == "Grammar", "Grammar")
	o.NonTrivialIf(len(c.Data) > 4)
	o.Sample("%s %x", c.Msg, c.Data)
	return nil
}

func genWireBroken(t T) wireCase {
	c := wireCase{Msg: wireRoot(t)}
	b := wireBytes(t, c.Msg, 1+gen.N(t, 5), gen.Chance(t, 1, 3))
	for n := 1 + gen.N(t, 3); n > 0; n-- {
		at := gen.N(t, len(b)+1)
		switch gen.N(t, 8) {
		case 0, 1:
			b = b[:at]
		case 2:
			if at < len(b) {
				b[at] ^= byte(1 << gen.N(t, 8))
			}
		case 3:
			if at < len(b) {
				b[at] = gen.Pick[byte](t, 0, 1, 0x7f, 0x80, 0xff, 0x0a, 0x0b, 0x0c, 0x12)
			}
		case 4: // a length beyond the end
			n := gen.Pick[uint64](t, 1, 5, 127, 128, 1<<20, 1<<31-1, 1<<31, 1<<32, 1<<63-1-uint64(gen.N(t, 40)), 1<<63, math.MaxUint64, math.MaxUint64-uint64(gen.N(t, 40)))
			if gen.Chance(t, 1, 2) && n < 1<<62 {
				n += uint64(len(b) - at)
			}
			num := 1 + gen.N(t, 16)
			if gen.Chance(t, 1, 6) {
				num = 1000
			}
			b = append(append(append([]byte{}, b[:at]...), binary.AppendUvarint(wireTag(nil, num, 2), n)...), b[at:]...)
		case 5: // a stray tag
			b = append(append(append([]byte{}, b[:at]...), wireTag(nil, gen.N(t, 16), gen.N(t, 8))...), b[at:]...)
		case 6:
			b = append(append(append([]byte{}, b[:at]...), bytes.Repeat([]byte{0x80 | byte(gen.N(t, 128))}, 1+gen.N(t, 11))...), b[at:]...)
		case 7:
			if at < len(b) {
				b = append(b[:at:at], b[at+1:]...)
			}
		}
	}
	c.Data = b
	return c
}

func runWireGrammar(c astTextCase, o *core.Obs) error {
	if err := loadWire(); err != nil {
		return err
	}
	g, err := c.grammar()
	if err != nil {
		return err
	}
	text := g.String()
	if err := checkMessage(g); err != nil {
		return errf("%v\ngrammar: %q", err, text)
	}
	data, err := g.Marshal()
	if err != nil {
		return err
	}
	h := &ast.Grammar{}
	if err := h.Unmarshal(data); err != nil {
		return errf("%v\ngrammar: %q", err, text)
	}
	if reflect.DeepEqual(g, h) && !g.Equal(h) || h.String() != text { // Equal tells an empty list from none
		return errf("the grammar read back is %q\ngrammar: %q", h.String(), text)
	}
	if p, ok := proto.Clone(g).(*ast.Grammar); !ok || !sameMsg(g, p) {
		return errf("proto.Clone: %s\ngrammar: %q", diffAt(g, p), text)
	} else if err := unshared("proto.Clone", g, p); err != nil {
		return errf("%v\ngrammar: %q", err, text)
	}
	// Cut short, it is an error, or the end of a field.
	for _, s := range c.Sites {
		cut := data[:s*len(data)/1000]
		k, ref := &ast.Grammar{}, &ast.Grammar{}
		err, refErr := k.Unmarshal(cut), wireRead(cut, reflect.ValueOf(ref).Elem())
		if (err != nil) != (refErr != nil) || err == nil && !sameMsg(k, ref) {
			return errf("%d of %d bytes: %v, want %v\ngrammar: %q", len(cut), len(data), err, refErr, text)
		}
	}
	// As JSON, where its texts are text.
	plain := true
	reach(reflect.ValueOf(g), "", func(_ string, v reflect.Value) {
		switch v.Kind() {
		case reflect.String:
			plain = plain && utf8.ValidString(v.String())
		case reflect.Float64:
			plain = plain && !math.IsNaN(v.Float()) && !math.IsInf(v.Float(), 0)
		case reflect.Slice: // no bytes and no value are the same there
			if v.Type().Elem().Kind() == reflect.Uint8 && !v.IsNil() && v.Len() == 0 {
				plain = false
			}
			if v.Type().Elem().Kind() != reflect.Uint8 && !v.IsNil() && v.Len() == 0 {
				plain = false
			}
		}
	})
	if plain {
		js, err := json.Marshal(g)
		if err != nil {
			return errf("JSON: %v\ngrammar: %q", err, text)
		}
		j := &ast.Grammar{}
		if err := json.Unmarshal(js, j); err != nil {
			return errf("JSON: %v\ngrammar: %q", err, text)
		}
		if !sameMsg(g, j) {
			return errf("JSON: %s\ngrammar: %q\njson: %s", diffAt(g, j), text, js)
		}
		o.Label("json")
	}
	o.LabelIf(c.Build, "built")
	o.NonTrivialIf(c.G.Size() > 2)
	o.Sample("%q", text)
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "S08", Name: "grammars", Quick: 40000, Thorough: 800000, Terminates: true,
		Rule: "random grammars written as text with comments or built with constructors; what is written for them is read back as the same AST by the code and by a reader that follows the descriptor; the size is exact; cut short it is refused where the reader refuses; proto.Clone and JSON give the same AST; non-trivial: more than 2 pattern nodes"}, genAstText, runWireGrammar)
	core.Register(core.Spec{Prop: "S08", Name: "messages", Quick: 200000, Thorough: 5000000, Terminates: true,
		Rule: "random encoded AST messages, with fields in any order and number, unknown fields and long numbers: the value the descriptor's reader reads is read, written and merged, the accessors give the fields; non-trivial: more than 4 bytes"}, genWire, runWire)
	core.Register(core.Spec{Prop: "S08", Name: "damaged", Quick: 300000, Thorough: 10000000, Terminates: true,
		Rule: "encoded AST messages cut, changed, and with lengths beyond the end: an error or the value the reader reads; non-trivial: more than 2 bytes"}, genWireBroken, runWire)
}
