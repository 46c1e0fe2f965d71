package checks

import (
	"bytes"
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	sxml "github.com/katydid/katydid/parser/xml"

	"verif/harness/core"
	"verif/harness/gen"
)

// ---------------------------------------------------------------- characters of names

const runeBlock = 256

type runesCase struct {
	Block int `json:"block"` // runes from Block*runeBlock on
}

// readsName tells how the two decoders read an element with the name.
func readsName(name string) (kat, std bool) {
	one := func(tok func() (any, error)) bool {
		if _, err := tok(); err != nil {
			return false
		}
		_, err := tok()
		return err == nil
	}
	text := "<" + name + "></" + name + ">"
	kd, sd := sxml.NewDecoder(strings.NewReader(text)), stdxml.NewDecoder(strings.NewReader(text))
	return one(func() (any, error) { return kd.Token() }), one(func() (any, error) { return sd.Token() })
}

func runRunes(c runesCase, o *core.Obs) error {
	n := 0
	for r := rune(c.Block * runeBlock); r < rune((c.Block+1)*runeBlock); r++ {
		if !utf8.ValidRune(r) {
			continue
		}
		for _, name := range []string{string(r), "a" + string(r)} {
			k, s := readsName(name)
			if k != s {
				return errf("an element with the name %q is read: %v, want %v", name, k, s)
			}
			if k {
				n++
			}
		}
	}
	o.NonTrivialIf(n > 0)
	o.Sample("%d names", n)
	return nil
}

// ---------------------------------------------------------------- fields

type fieldsField struct {
	K string        `json:"k"`           // kind, or "struct", or "ptr" or "slice" of the kind
	W string        `json:"w,omitempty"` // "ptr" or "slice" around it
	T string        `json:"t"`           // the tag
	F []fieldsField `json:"f,omitempty"`
}

type fieldsNode struct {
	N string       `json:"n,omitempty"` // empty: text
	S string       `json:"s,omitempty"`
	A [][2]string  `json:"a,omitempty"`
	C []fieldsNode `json:"c,omitempty"`
}

type fieldsCase struct {
	F []fieldsField `json:"f"`
	D fieldsNode    `json:"d"`
	N int           `json:"n,omitempty"` // read it so many times more into the same value
}

var fieldsKinds = map[string]reflect.Type{
	"int": reflect.TypeOf(0), "i8": reflect.TypeOf(int8(0)), "i16": reflect.TypeOf(int16(0)), "i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "u8": reflect.TypeOf(uint8(0)), "u16": reflect.TypeOf(uint16(0)), "u32": reflect.TypeOf(uint32(0)), "u64": reflect.TypeOf(uint64(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)), "b": reflect.TypeOf(false), "s": reflect.TypeOf(""), "y": reflect.TypeOf([]byte{}), "text": reflect.TypeOf(upper("")),
}

// upper is a type that reads its text itself.
type upper string

func (u *upper) UnmarshalText(b []byte) error {
	if bytes.Contains(b, []byte("-3")) {
		return errors.New("no -3")
	}
	*u = upper(strings.ToUpper(string(b)) + "!")
	return nil
}

var fieldsKindNames = []string{"int", "i8", "i16", "i32", "i64", "uint", "u8", "u16", "u32", "u64", "f32", "f64", "b", "s", "s", "y", "text", "text"}

func goFields(fs []fieldsField) reflect.Type {
	var sf []reflect.StructField
	for i, f := range fs {
		ty := fieldsKinds[f.K]
		if f.K == "struct" {
			ty = goFields(f.F)
		}
		switch f.W {
		case "ptr":
			ty = reflect.PointerTo(ty)
		case "slice":
			ty = reflect.SliceOf(ty)
		case "ptrptr":
			ty = reflect.PointerTo(reflect.PointerTo(ty))
		case "sliceptr":
			ty = reflect.SliceOf(reflect.PointerTo(ty))
		}
		name := string(rune('A' + i))
		sf = append(sf, reflect.StructField{Name: name, Type: ty, Tag: reflect.StructTag(f.T)})
	}
	return reflect.StructOf(sf)
}

func genFields(t T, depth int) []fieldsField {
	var r []fieldsField
	for i := 1 + gen.N(t, 5); i > 0; i-- {
		f := fieldsField{K: gen.Pick(t, fieldsKindNames...), W: gen.Pick(t, "", "", "", "ptr", "slice", "ptrptr", "sliceptr")}
		if depth > 0 && gen.Chance(t, 1, 4) {
			f.K, f.F = "struct", genFields(t, depth-1)
		}
		name := gen.Pick(t, "A", "B", "C", "a", "b", "c")
		switch gen.W(t, 3, 4, 3, 3, 1, 1, 1, 1, 1, 1) {
		case 0:
		case 1:
			f.T = fmt.Sprintf(`xml:"%s"`, name)
		case 2:
			f.T = fmt.Sprintf(`xml:"%s,attr"`, name)
		case 3:
			f.T = fmt.Sprintf(`xml:"%s>%s"`, gen.Pick(t, "a", "b", "a>b", "c>c"), gen.Pick(t, "a", "b", ""))
		case 4:
			f.T = `xml:",chardata"`
		case 5:
			f.T = `xml:",any"`
		case 6:
			// next to the same name without a name space it is a conflict in some versions
			f.T = `xml:"urn:x d"`
		case 7:
			f.T = fmt.Sprintf(`xml:"%s,omitempty"`, name)
		case 8:
			f.T = `xml:"-"`
		case 9:
			f.T = gen.Pick(t, `xml:",attr"`, `xml:"a,b"`, `xml:"a>b,attr"`, `xml:"urn:x "`, `other:"a"`, `a`, `xml:",innerxml"`, `xml:",comment"`)
		}
		if strings.Contains(f.T, "attr") || strings.Contains(f.T, "chardata") || strings.Contains(f.T, "comment") || strings.Contains(f.T, "innerxml") {
			// what a list means there differs between versions, or is nothing
			f.W = strings.TrimPrefix(strings.TrimPrefix(f.W, "slice"), "ptrptr")
			if f.K == "struct" {
				f.K, f.F = "s", nil
			}
			if f.K == "text" {
				f.W = ""
			}
		}
		r = append(r, f)
	}
	return r
}

var fieldsText = []string{"1", "-3", "12", "1.5", "true", "false", "300", "x", "1e3", "127", "128", "255", "256", "65536", "4294967296", "18446744073709551615", "-9223372036854775808", "0x10", "T", "07"}

func fieldText(t T) string {
	if gen.Chance(t, 5, 6) {
		return gen.Pick(t, "1", "0", "1")
	}
	return gen.Pick(t, fieldsText...)
}

func genFieldsNode(t T, depth int) fieldsNode {
	n := fieldsNode{N: gen.Pick(t, "A", "B", "C", "a", "b", "c", "a", "b", "x:a", "x:d", "d")}
	text := fieldText(t)
	for _, a := range []string{"A", "B", "C", "a", "b"} {
		if gen.Chance(t, 1, 4) {
			n.A = append(n.A, [2]string{a, fieldText(t)})
		}
	}
	if depth == 0 || gen.Chance(t, 1, 3) {
		n.C = []fieldsNode{{S: text}}
		return n
	}
	for i := gen.N(t, 5); i > 0; i-- {
		n.C = append(n.C, genFieldsNode(t, depth-1))
	}
	if gen.Chance(t, 1, 4) {
		n.C = append(n.C, fieldsNode{S: text})
	}
	return n
}

func (n fieldsNode) text(b *strings.Builder, root bool) {
	if n.N == "" {
		b.WriteString(n.S)
		return
	}
	b.WriteString("<" + n.N)
	if root {
		b.WriteString(` xmlns:x="urn:x"`)
	}
	for _, a := range n.A {
		fmt.Fprintf(b, " %s=%q", a[0], a[1])
	}
	b.WriteString(">")
	for _, c := range n.C {
		c.text(b, false)
	}
	b.WriteString("</" + n.N + ">")
}

func caught(f func() error) (err error, panics bool) {
	defer func() {
		if r := recover(); r != nil {
			err, panics = fmt.Errorf("panic: %v", r), true
		}
	}()
	return f(), false
}

// emptyNumber is an error that newer versions of encoding/xml do not have.
func emptyNumber(err error) bool {
	var n *strconv.NumError
	return errors.As(err, &n) && strings.TrimSpace(n.Num) == ""
}

func runFields(c fieldsCase, o *core.Obs) error {
	ty := goFields(c.F)
	var b strings.Builder
	c.D.text(&b, true)
	text := b.String()
	kv, sv := reflect.New(ty), reflect.New(ty)
	var kerr, serr error
	for i := 0; i <= c.N && kerr == nil && serr == nil; i++ {
		var panics bool
		serr, panics = caught(func() error { return stdxml.Unmarshal([]byte(text), sv.Interface()) })
		if panics { // methods of nil pointers, lists of pointers to pointers
			o.Label("encoding/xml panics")
			return nil
		}
		kerr = sxml.Unmarshal([]byte(text), kv.Interface())
	}
	o.Sample("%v: %s: %v", ty, text, serr)
	if emptyNumber(kerr) || emptyNumber(serr) {
		o.Label("empty number")
		return nil
	}
	if (kerr == nil) != (serr == nil) {
		return errf("unmarshal into %v: error %v, want %v\ntext: %q", ty, kerr, serr, text)
	}
	o.LabelIf(serr != nil, "error")
	if serr != nil {
		return nil
	}
	noEmpty(kv.Elem())
	noEmpty(sv.Elem())
	if !reflect.DeepEqual(kv.Interface(), sv.Interface()) {
		return errf("unmarshal into %v is %s, want %s\ntext: %q", ty, jsonOf(kv.Interface()), jsonOf(sv.Interface()), text)
	}
	o.NonTrivialIf(!sv.Elem().IsZero())
	return nil
}

// ---------------------------------------------------------------- own methods

// The methods that a type may have differ in the types of their parameters, so there is one of each for each decoder.
type (
	katName struct {
		XMLName sxml.Name
		A       string  `xml:"a"`
		B       *katOwn `xml:"b"`
		C       []katOwn
	}
	stdName struct {
		XMLName stdxml.Name
		A       string  `xml:"a"`
		B       *stdOwn `xml:"b"`
		C       []stdOwn
	}
	katOwn struct {
		Log  []string
		Rest *katName
	}
	stdOwn struct {
		Log  []string
		Rest *stdName
	}
)

func (k *katOwn) UnmarshalXML(d *sxml.Decoder, start sxml.StartElement) error {
	k.Log = append(k.Log, katToken(start))
	for {
		t, err := d.Token()
		if err != nil {
			return err
		}
		k.Log = append(k.Log, katToken(t))
		switch x := t.(type) {
		case sxml.StartElement:
			switch x.Name.Local {
			case "a": // leave the rest
				if err := d.Skip(); err != nil {
					return err
				}
			case "b":
				k.Rest = &katName{}
				if err := d.DecodeElement(k.Rest, &x); err != nil {
					return err
				}
			case "A": // leave too early
				return nil
			default:
				var o katOwn
				if err := o.UnmarshalXML(d, x); err != nil {
					return err
				}
				k.Log = append(k.Log, o.Log...)
			}
		case sxml.EndElement:
			return nil
		}
	}
}

func (k *stdOwn) UnmarshalXML(d *stdxml.Decoder, start stdxml.StartElement) error {
	k.Log = append(k.Log, stdToken(start))
	for {
		t, err := d.Token()
		if err != nil {
			return err
		}
		k.Log = append(k.Log, stdToken(t))
		switch x := t.(type) {
		case stdxml.StartElement:
			switch x.Name.Local {
			case "a":
				if err := d.Skip(); err != nil {
					return err
				}
			case "b":
				k.Rest = &stdName{}
				if err := d.DecodeElement(k.Rest, &x); err != nil {
					return err
				}
			case "A":
				return nil
			default:
				var o stdOwn
				if err := o.UnmarshalXML(d, x); err != nil {
					return err
				}
				k.Log = append(k.Log, o.Log...)
			}
		case stdxml.EndElement:
			return nil
		}
	}
}

func runOwn(c fieldsCase, o *core.Obs) error {
	var b strings.Builder
	c.D.text(&b, true)
	text := b.String()
	var k katName
	var s stdName
	kerr, serr := sxml.Unmarshal([]byte(text), &k), stdxml.Unmarshal([]byte(text), &s)
	o.Sample("%s: %v", text, serr)
	if (kerr == nil) != (serr == nil) {
		return errf("unmarshal: error %v, want %v\ntext: %q", kerr, serr, text)
	}
	o.LabelIf(serr != nil, "error")
	if serr != nil {
		return nil
	}
	if k, s := jsonOf(k), jsonOf(s); k != s {
		return errf("unmarshal gives %s, want %s\ntext: %q", k, s, text)
	}
	o.NonTrivialIf(s.B != nil || len(s.C) > 0)
	return nil
}

// ---------------------------------------------------------------- tag soup

type soupCase struct {
	Text    core.Str `json:"text"`
	Auto    bool     `json:"auto,omitempty"`
	Charset bool     `json:"charset,omitempty"`
}

func genSoup(t T) soupCase {
	var b strings.Builder
	if gen.Chance(t, 1, 4) {
		b.WriteString(gen.Pick(t, `<?xml version="1.0" encoding="x-other"?>`, `<?xml version="1.0" encoding='utf-8'?>`, `<?xml version='1.0'?>`, `<?xml encoding="UTF-8"?>`))
	}
	var open []string
	name := func() string {
		return gen.Pick(t, "br", "img", "p", "li", "hr", "input", "x", "meta", "p:br")
	}
	for i := gen.N(t, 12); i > 0; i-- {
		switch gen.W(t, 6, 5, 3, 3, 1, 1) {
		case 0:
			n := name()
			b.WriteString("<" + n)
			for j := gen.N(t, 3); j > 0; j-- {
				b.WriteString(gen.Pick(t, " a=1", " checked", ` b="x y"`, " c='&eacute;'", ` d="&unknown;"`, " e=a&amp;b", " f-g:h=%20", " i=url;x"))
			}
			if gen.Chance(t, 1, 4) {
				b.WriteString("/>")
			} else {
				b.WriteString(">")
				open = append(open, n)
			}
		case 1:
			if n := len(open); n > 0 && gen.Chance(t, 4, 5) {
				b.WriteString("</" + open[n-1] + ">")
				open = open[:n-1]
			} else {
				b.WriteString("</" + name() + ">")
			}
		case 2:
			b.WriteString(gen.Pick(t, "text", "a & b", "&eacute;", "&nosuch;", "&lang;&amp;", "&", "&#65;", "&#x1F600;", "&#;", "&#x110000;", "&#xD800;", "&#1114112;", "&#x0;", "&#1a;", "&lt", "x]]y", "&nbsp", "&copy;1"))
		case 3:
			b.WriteString(gen.Pick(t, "\n", " ", "\r\n", "é", "𝒳"))
		case 4:
			b.WriteString(gen.Pick(t, "<!-- c -->", "<![CDATA[<b>]]>", "<?pi x?>", "<!DOCTYPE html>"))
		case 5:
			b.WriteString("<" + name() + ">")
		}
	}
	if gen.Chance(t, 1, 2) {
		for i := len(open) - 1; i >= 0; i-- {
			b.WriteString("</" + open[i] + ">")
		}
	}
	return soupCase{core.Str(b.String()), gen.Chance(t, 3, 4), gen.Chance(t, 1, 2)}
}

// otherReader reads other letters.
type otherReader struct{ r io.Reader }

func (u otherReader) Read(p []byte) (int, error) {
	n, err := u.r.Read(p)
	for i, b := range p[:n] {
		switch b {
		case 'x':
			p[i] = 'z'
		case 'e':
			p[i] = 'o'
		}
	}
	return n, err
}

func runSoup(c soupCase, o *core.Obs) error {
	text := string(c.Text)
	kd, sd := sxml.NewDecoder(strings.NewReader(text)), stdxml.NewDecoder(strings.NewReader(text))
	kd.Strict, sd.Strict = false, false
	kd.Entity, sd.Entity = sxml.HTMLEntity, stdxml.HTMLEntity
	if c.Auto {
		kd.AutoClose, sd.AutoClose = sxml.HTMLAutoClose, stdxml.HTMLAutoClose
	}
	if c.Charset {
		f := func(label string, r io.Reader) (io.Reader, error) {
			if label != "x-other" {
				return nil, fmt.Errorf("unknown %q", label)
			}
			return otherReader{r}, nil
		}
		kd.CharsetReader, sd.CharsetReader = f, f
	}
	o.Sample("%q", text)
	var log []string
	for i := 0; ; i++ {
		kt, kerr := kd.Token()
		st, serr := sd.Token()
		if (kerr == nil) != (serr == nil) || (kerr == io.EOF) != (serr == io.EOF) {
			return errf("token %d: error %v, want %v\ntext: %q", i, kerr, serr, text)
		}
		if kerr != nil {
			o.LabelIf(kerr != io.EOF, "error")
			o.NonTrivialIf(i > 3)
			return nil
		}
		if got, want := katToken(kt), stdToken(st); got != want {
			return errf("token %d is %s, want %s\ntext: %q", i, got, want, text)
		}
		log = append(log, katToken(kt))
		if len(log) > 4*len(text)+100 {
			return errf("there is no end\ntext: %q", text)
		}
	}
}

// ---------------------------------------------------------------- the buffer

type bufOp struct {
	Op string   `json:"op"`
	N  int      `json:"n,omitempty"`
	S  core.Str `json:"s,omitempty"`
}

type bufCase struct {
	Init core.Str `json:"init,omitempty"`
	How  int      `json:"how,omitempty"` // 0: the zero value, 1: of bytes, 2: of a string
	Ops  []bufOp  `json:"ops"`
}

var bufOps = []string{"write", "string", "byte", "rune", "read", "next", "readbyte", "readrune", "readbytes", "readstring", "unreadbyte", "unreadrune", "trunc", "reset", "grow", "readfrom", "writeto"}

func genBuf(t T) bufCase {
	c := bufCase{How: gen.N(t, 3)}
	str := func() core.Str {
		s := gen.Pick(t, "", "a", "b\xff", "é", "𝒳y", "line\nrest", "abc", strings.Repeat("z", 100))
		return core.Str(strings.Repeat(s, gen.Pick(t, 1, 1, 2, 7)))
	}
	if c.How > 0 {
		c.Init = str()
	}
	for i := 1 + gen.N(t, 25); i > 0; i-- {
		op := bufOp{Op: gen.Pick(t, bufOps...), N: gen.Pick(t, 0, 1, 2, 3, 10, 64, 100, 600)}
		switch op.Op {
		case "write", "string", "readfrom":
			op.S = str()
		case "byte", "readbytes", "readstring":
			op.N = int(gen.Pick(t, 'a', '\n', 'z', 0xff))
		case "rune":
			op.N = int(gen.Pick(t, 'a', 'é', '𝒳', 0x7f, 0x80, 0xd800, 0x110000, -1))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type bufferLike interface {
	Write([]byte) (int, error)
	WriteString(string) (int, error)
	WriteByte(byte) error
	WriteRune(rune) (int, error)
	Read([]byte) (int, error)
	Next(int) []byte
	ReadByte() (byte, error)
	ReadRune() (rune, int, error)
	ReadBytes(byte) ([]byte, error)
	ReadString(byte) (string, error)
	UnreadByte() error
	UnreadRune() error
	Truncate(int)
	Reset()
	Grow(int)
	ReadFrom(io.Reader) (int64, error)
	WriteTo(io.Writer) (int64, error)
	Len() int
	Cap() int
	Bytes() []byte
	String() string
}

func (o bufOp) do(b bufferLike) string {
	bad := func(err error) string {
		if err == nil || err == io.EOF {
			return fmt.Sprint(err)
		}
		return "error"
	}
	switch o.Op {
	case "write":
		n, err := b.Write([]byte(o.S))
		return fmt.Sprint(n, bad(err))
	case "string":
		n, err := b.WriteString(string(o.S))
		return fmt.Sprint(n, bad(err))
	case "byte":
		return bad(b.WriteByte(byte(o.N)))
	case "rune":
		n, err := b.WriteRune(rune(o.N))
		return fmt.Sprint(n, bad(err))
	case "read":
		p := make([]byte, o.N)
		n, err := b.Read(p)
		return fmt.Sprintf("%d %q %s", n, p[:n], bad(err))
	case "next":
		return fmt.Sprintf("%q", b.Next(o.N))
	case "readbyte":
		c, err := b.ReadByte()
		return fmt.Sprint(c, bad(err))
	case "readrune":
		r, n, err := b.ReadRune()
		return fmt.Sprint(r, n, bad(err))
	case "readbytes":
		p, err := b.ReadBytes(byte(o.N))
		return fmt.Sprintf("%q %s", p, bad(err))
	case "readstring":
		p, err := b.ReadString(byte(o.N))
		return fmt.Sprintf("%q %s", p, bad(err))
	case "unreadbyte":
		return bad(b.UnreadByte())
	case "unreadrune":
		return bad(b.UnreadRune())
	case "trunc":
		if b.Len() < o.N {
			return ""
		}
		b.Truncate(o.N)
	case "reset":
		b.Reset()
	case "grow":
		n := b.Len()
		b.Grow(o.N)
		if b.Cap() < n+o.N {
			return "too small"
		}
	case "readfrom":
		n, err := b.ReadFrom(strings.NewReader(string(o.S)))
		return fmt.Sprint(n, bad(err))
	case "writeto":
		var w bytes.Buffer
		n, err := b.WriteTo(&w)
		return fmt.Sprintf("%d %q %s", n, w.String(), bad(err))
	}
	return ""
}

func runBuf(c bufCase, o *core.Obs) error {
	var kb, sb bufferLike
	switch c.How {
	case 0:
		kb, sb = &sxml.Buffer{}, &bytes.Buffer{}
	case 1:
		kb, sb = sxml.NewBuffer([]byte(c.Init)), bytes.NewBuffer([]byte(c.Init))
	default:
		kb, sb = sxml.NewBufferString(string(c.Init)), bytes.NewBufferString(string(c.Init))
	}
	read := false
	odd := false // unreading after an operation that is no read: versions differ
	for i, op := range c.Ops {
		switch op.Op {
		case "unreadbyte", "unreadrune":
			if odd {
				continue
			}
			odd = true
		case "readbyte", "readrune":
			odd, read = sb.Len() == 0, true
		case "read", "next":
			odd, read = sb.Len() == 0 || op.N == 0, true
		case "readbytes", "readstring":
			odd, read = sb.Len() == 0, true
		default:
			odd = true
		}
		got, want := op.do(kb), op.do(sb)
		if got != want {
			return errf("operation %d %s gives %s, want %s\n%s", i, op.Op, got, want, jsonOf(c))
		}
		if !bytes.Equal(kb.Bytes(), sb.Bytes()) || kb.String() != sb.String() || kb.Len() != sb.Len() {
			return errf("after operation %d %s the buffer holds %q, want %q\n%s", i, op.Op, kb.Bytes(), sb.Bytes(), jsonOf(c))
		}
	}
	o.NonTrivialIf(read && len(c.Ops) > 3)
	o.Sample("%s", jsonOf(c))
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "P14", Name: "runes", Quick: 2000, Thorough: 30000, Terminates: true,
		Rule: "every character of a random block of 256 alone and at the end of the name of an element: read exactly if encoding/xml reads it; non-trivial: some are read"},
		func(t T) runesCase {
			if gen.Chance(t, 1, 20) {
				return runesCase{gen.N(t, (utf8.MaxRune+1)/runeBlock)}
			}
			return runesCase{gen.N(t, 0x10000/runeBlock)}
		}, runRunes)
	core.Register(core.Spec{Prop: "P14", Name: "fields", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random struct types with random tags (names, name spaces, attributes, paths, text, any) and kinds (numbers of all sizes, booleans, strings, bytes, types that read their text, pointers, slices) and random documents, read once or several times into one value: the same result, or an error, as from encoding/xml; non-trivial: something was read"},
		func(t T) fieldsCase { return fieldsCase{genFields(t, 2), genFieldsNode(t, 3), gen.Pick(t, 0, 0, 1, 2)} }, runFields)
	core.Register(core.Spec{Prop: "P14", Name: "methods", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "types with methods that read their element token by token, skip, read nested values or leave early: the same result as from encoding/xml; non-trivial: a method was used"},
		func(t T) fieldsCase { return fieldsCase{D: genFieldsNode(t, 3)} }, runOwn)
	core.Register(core.Spec{Prop: "P14", Name: "soup", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random tag soup (unclosed, wrongly closed and self-closing elements, attributes without values or quotes, unknown entities, character sets) in the lenient mode with and without HTML's automatic closing: the same tokens, and an error after the same ones, as from encoding/xml; non-trivial: more than 3 tokens"},
		genSoup, runSoup)
	core.Register(core.Spec{Prop: "P14", Name: "buffer", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random histories of a buffer against bytes.Buffer: every result and the contents after every operation; non-trivial: something was read"},
		genBuf, runBuf)
}
