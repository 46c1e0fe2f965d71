package checks

import (
	"bytes"
	stdxml "encoding/xml"
	"fmt"
	"io"
	"reflect"
	"strings"

	sxml "github.com/katydid/katydid/parser/xml"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
)

// decCase is a document and how a decoder is used on it.
type decCase struct {
	Doc   docs.XDoc         `json:"doc"`
	Raw   bool              `json:"raw,omitempty"`   // RawToken instead of Token
	Skips moves             `json:"skips"`           // at which elements the rest is skipped
	Ent   map[string]string `json:"ent,omitempty"`   // additional entities
	Space string            `json:"space,omitempty"` // the default name space
	Slow  bool              `json:"slow,omitempty"`  // the input comes byte by byte
	Bad   core.Str          `json:"bad,omitempty"`   // what is put in an element, after which the document may not be well-formed
}

// oneByte hides the byte reader of a buffer and gives one byte at a time.
type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

func decInput(c decCase, text string) io.Reader {
	if c.Slow {
		return oneByte{strings.NewReader(text)}
	}
	return bytes.NewReader([]byte(text))
}

func genDec(t T) decCase {
	c := decCase{Doc: genXML(t), Raw: gen.Chance(t, 1, 4), Skips: genMoves(t, 10), Slow: gen.Chance(t, 1, 4)}
	if gen.Chance(t, 1, 3) {
		c.Ent = map[string]string{"uuml": "ü", "n_1": "a<b&"}
		var put func(n *docs.XNode)
		put = func(n *docs.XNode) {
			if n.K == "text" && gen.Chance(t, 1, 2) {
				w := gen.Pick[core.Str](t, "&uuml;", "&n_1;")
				n.P = append(append([]docs.XPiece{}, n.P...), docs.XPiece{W: w, V: core.Str(c.Ent[strings.Trim(string(w), "&;")])})
			}
			for i := range n.C {
				put(&n.C[i])
			}
		}
		put(&c.Doc.Root)
	}
	if gen.Chance(t, 1, 4) {
		c.Space = "urn:d"
	}
	if gen.Chance(t, 1, 4) {
		c.Bad = core.Str(gen.Pick(t, badXML...))
		n := &c.Doc.Root
		for len(n.C) > 0 && gen.Chance(t, 2, 3) {
			m := &n.C[gen.N(t, len(n.C))]
			if m.K != "elem" {
				break
			}
			n = m
		}
		n.C = append(append([]docs.XNode{}, n.C...), docs.XNode{K: "text", P: []docs.XPiece{{W: c.Bad}}})
		if gen.Chance(t, 1, 3) && len(n.C) > 1 {
			i := gen.N(t, len(n.C)-1)
			n.C[i], n.C[len(n.C)-1] = n.C[len(n.C)-1], n.C[i]
		}
	}
	return c
}

// badXML has pieces of text that are not well-formed, or hardly so.
var badXML = []string{"&#x110000;", "&#x10FFFF;", "&#1114112;", "&#x1FFFFF;", "&#xFFFFFFFF;", "&#x100000041;", "&#18446744073709551681;", "&#xD800;", "&#xDFFF;", "&#xFFFE;", "&#xFFFF;", "&#xFFFD;", "&#0;", "&#x1F;", "&#x9;", "&#x0B;", "&;", "&nosuch;", "&lt", "&#12a;", "&#x;", "&#;", "&# 65;", "&#-65;", "&#X41;", "\x01", "\x0b", "\xff", "\xc0\x80", "\xed\xa0\x80", "\uffff", "\ufffd", "]]>", "]]", "<a b>", "<a b=c>", "<a 'x'>", "<a/ >", "</nosuch>", "</a", "<![CDATA[a]]", "<![CDATA a", "<![cdata[a]]>", "<?", "<?a", "<?1?>", "<a b='<'/>", "<a b='&#x110000;'/>", "<a b='&'/>", "<1/>", "<>", "< a/>", "<a", "&", "<!a 'x", "<!a <b> >", "<a b=''c=''/>"}

func showName(space, local string) string { return fmt.Sprintf("{%s}%s", space, local) }

// bare is a directive without spaces: newer versions of encoding/xml leave one for a comment in a directive.
func bare(b []byte) string { return strings.Join(strings.Fields(string(b)), "") }

// katToken and stdToken write a token of either decoder in the same way.
func katToken(tok sxml.Token) string {
	switch x := tok.(type) {
	case sxml.StartElement:
		s := "<" + showName(x.Name.Space, x.Name.Local)
		for _, a := range x.Attr {
			s += fmt.Sprintf(" %s=%q", showName(a.Name.Space, a.Name.Local), a.Value)
		}
		return s
	case sxml.EndElement:
		return "</" + showName(x.Name.Space, x.Name.Local)
	case sxml.CharData:
		return fmt.Sprintf("text %q", []byte(x))
	case sxml.Comment:
		return fmt.Sprintf("comment %q", []byte(x))
	case sxml.ProcInst:
		return fmt.Sprintf("procinst %q %q", x.Target, x.Inst)
	case sxml.Directive:
		return fmt.Sprintf("directive %q", bare(x))
	}
	return fmt.Sprintf("%T", tok)
}

func stdToken(tok stdxml.Token) string {
	switch x := tok.(type) {
	case stdxml.StartElement:
		s := "<" + showName(x.Name.Space, x.Name.Local)
		for _, a := range x.Attr {
			s += fmt.Sprintf(" %s=%q", showName(a.Name.Space, a.Name.Local), a.Value)
		}
		return s
	case stdxml.EndElement:
		return "</" + showName(x.Name.Space, x.Name.Local)
	case stdxml.CharData:
		return fmt.Sprintf("text %q", []byte(x))
	case stdxml.Comment:
		return fmt.Sprintf("comment %q", []byte(x))
	case stdxml.ProcInst:
		return fmt.Sprintf("procinst %q %q", x.Target, x.Inst)
	case stdxml.Directive:
		return fmt.Sprintf("directive %q", bare(x))
	}
	return fmt.Sprintf("%T", tok)
}

func runDec(c decCase, o *core.Obs) error {
	text := c.Doc.Text()
	kd := sxml.NewDecoder(decInput(c, text))
	sd := stdxml.NewDecoder(decInput(c, text))
	kd.Entity, sd.Entity = c.Ent, c.Ent
	kd.DefaultSpace, sd.DefaultSpace = c.Space, c.Space
	var kept []sxml.Token // copies
	var written []string
	pl := c.Skips.player()
	elems, skips := 0, 0
	for {
		var kt sxml.Token
		var st stdxml.Token
		var kerr, serr error
		if c.Raw {
			kt, kerr = kd.RawToken()
			st, serr = sd.RawToken()
		} else {
			kt, kerr = kd.Token()
			st, serr = sd.Token()
		}
		if c.Bad != "" && kerr != nil && kerr != io.EOF && serr != nil && serr != io.EOF {
			o.NonTrivialIf(len(kept) > 4)
			o.Label("error")
			return nil
		}
		if serr != nil && serr != io.EOF && c.Bad == "" {
			return &core.HarnessError{Msg: fmt.Sprintf("encoding/xml does not read %q: %v", text, serr)}
		}
		if kerr != serr {
			return errf("token %d: error %v, want %v\ntext: %q", len(kept), kerr, serr, text)
		}
		if kerr == io.EOF {
			break
		}
		got, want := katToken(kt), stdToken(st)
		if got != want {
			return errf("token %d is %s, want %s\ntext: %q", len(kept), got, want, text)
		}
		if k, s := kd.InputOffset(), sd.InputOffset(); k != s {
			return errf("the offset after token %d (%s) is %d, want %d\ntext: %q", len(kept), got, k, s, text)
		}
		kept, written = append(kept, sxml.CopyToken(kt)), append(written, got)
		if _, ok := kt.(sxml.StartElement); ok {
			elems++
			if !c.Raw && elems > 1 && pl.next()%4 == 0 {
				skips++
				kerr, serr := kd.Skip(), sd.Skip()
				if c.Bad != "" && (kerr == nil) == (serr == nil) {
					if kerr != nil {
						o.Label("error in Skip")
						return nil
					}
					continue
				}
				if err := kerr; err != nil {
					return errf("Skip after token %d: %v\ntext: %q", len(kept), err, text)
				}
				if err := serr; err != nil {
					if c.Bad != "" {
						return errf("Skip after token %d succeeds, want %v\ntext: %q", len(kept), err, text)
					}
					return &core.HarnessError{Msg: err.Error()}
				}
			}
		}
	}
	for i, k := range kept {
		if s := katToken(k); s != written[i] {
			return errf("the copy of token %d changed from %s to %s\ntext: %q", i, written[i], s, text)
		}
	}
	o.NonTrivialIf(len(kept) > 4)
	o.LabelIf(c.Raw, "raw")
	o.LabelIf(skips > 0, "skipped")
	o.LabelIf(len(c.Ent) > 0, "entities")
	o.LabelIf(c.Space != "", "default space")
	o.Sample("%s: %s", text, strings.Join(written, ", "))
	return nil
}

// ---------------------------------------------------------------- unmarshal

// The types that documents are read into; both decoders use the tags "xml".
type (
	xAll struct {
		A    []string `xml:"a"`
		B    *xAll    `xml:"b"`
		C    []xAll   `xml:"c"`
		At   string   `xml:"a,attr"`
		Bt   string   `xml:"b,attr"`
		Text string   `xml:",chardata"`
	}
	xInner struct {
		Inner string   `xml:",innerxml"`
		A     [][]byte `xml:"a"`
		Note  string   `xml:",comment"`
	}
	xAny struct {
		Any []xAny  `xml:",any"`
		At  *string `xml:"abc,attr"`
		Abc string  `xml:"abc"`
	}
	xPath struct {
		Deep   []string `xml:"a>b"`
		Deep2  []string `xml:"a>c"`
		Deeper string   `xml:"b>c>a"`
		X1     string   `xml:"x1"`
	}
	xMixed struct {
		XEmb
		A interface{} `xml:"A"`
		Y []XEmb      `xml:"c"`
	}
	XEmb struct {
		B    string `xml:"b"`
		Text []byte `xml:",chardata"`
	}
)

var xTypes = []func() any{
	func() any { return &xAll{} },
	func() any { return &xInner{} },
	func() any { return &xAny{} },
	func() any { return &xPath{} },
	func() any { return &xMixed{} },
	func() any { return new(string) },
	func() any { return new([]byte) },
	func() any { return new([]xAll) },
	func() any { return new([]string) },
}

type unmCase struct {
	Doc  docs.XDoc `json:"doc"`
	Type int       `json:"type"`
	Into int       `json:"into,omitempty"` // after so many tokens that start an element, DecodeElement is used
}

func genUnm(t T) unmCase {
	d := genXML(t)
	// of two attributes that only differ in the name space, versions of encoding/xml use the first or the last one
	var drop func(n *docs.XNode)
	drop = func(n *docs.XNode) {
		var as []docs.XAttr
		for _, a := range n.A {
			if !strings.Contains(string(a.N), ":") {
				as = append(as, a)
			}
		}
		n.A = as
		for i := range n.C {
			drop(&n.C[i])
		}
	}
	drop(&d.Root)
	return unmCase{d, gen.N(t, len(xTypes)), gen.Pick(t, 0, 0, 1, 2)}
}

// noEmpty replaces empty lists by none: which of them is read differs between versions of encoding/xml.
func noEmpty(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.Len() == 0 && v.CanSet() {
			v.SetZero()
		}
		for i := 0; i < v.Len(); i++ {
			noEmpty(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			noEmpty(v.Field(i))
		}
	case reflect.Pointer:
		if !v.IsNil() {
			noEmpty(v.Elem())
		}
	}
}

func runUnm(c unmCase, o *core.Obs) error {
	text := c.Doc.Text()
	kv, sv := xTypes[c.Type](), xTypes[c.Type]()
	kd, sd := sxml.NewDecoder(strings.NewReader(text)), stdxml.NewDecoder(strings.NewReader(text))
	var kerr, serr error
	if c.Into == 0 {
		kerr, serr = sxml.Unmarshal([]byte(text), kv), stdxml.Unmarshal([]byte(text), sv)
	} else {
		n := c.Into
		for {
			st, err := sd.Token()
			if err != nil {
				return nil // not so many elements
			}
			kt, err := kd.Token()
			if err != nil {
				return errf("%v\ntext: %q", err, text)
			}
			s, ok := st.(stdxml.StartElement)
			if !ok {
				continue
			}
			if n--; n > 0 {
				continue
			}
			k, ok := kt.(sxml.StartElement)
			if !ok {
				return errf("token %v, want %v\ntext: %q", kt, st, text)
			}
			kerr, serr = kd.DecodeElement(kv, &k), sd.DecodeElement(sv, &s)
			break
		}
	}
	if serr != nil {
		o.Label("error")
		return nil
	}
	if kerr != nil {
		return errf("unmarshal into %T: %v\ntext: %q", kv, kerr, text)
	}
	noEmpty(reflect.ValueOf(kv).Elem())
	noEmpty(reflect.ValueOf(sv).Elem())
	if !reflect.DeepEqual(kv, sv) {
		return errf("unmarshal into %T is %+v, want %+v\ntext: %q", kv, reflect.ValueOf(kv).Elem(), reflect.ValueOf(sv).Elem(), text)
	}
	o.NonTrivialIf(len(c.Doc.Root.C)+len(c.Doc.Root.A) > 1)
	o.Label(fmt.Sprintf("%T", kv))
	o.Sample("%s: %+v", text, reflect.ValueOf(kv).Elem())
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "P14", Name: "tokens", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random well-formed XML documents, with additional entities, a default name space, from a slow reader, read token by token (Token and RawToken), elements skipped at random; every token, its offset and the end are those of encoding/xml, and copies of tokens keep their values; non-trivial: more than 4 tokens"},
		genDec, runDec)
	core.Register(core.Spec{Prop: "P14", Name: "unmarshal", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "random well-formed XML documents and their elements, read into values of nine Go types; the value is that of encoding/xml; non-trivial: the root element has more than one child or attribute"},
		genUnm, runUnm)
}
