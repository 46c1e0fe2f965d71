package checks

import (
	"encoding/base64"
	"encoding/xml"
	"io"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	exml "github.com/katydid/katydid/encode/xml"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

func xmlName(s string) bool {
	for i, r := range s {
		if !(unicode.IsLetter(r) && r < 0x250 || r == '_' || i > 0 && (r >= '0' && r <= '9' || r == '-' || r == '.')) {
			return false
		}
	}
	return s != ""
}

func xmlText(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if r < 0x20 && r != '\t' && r != '\n' && r != '\r' || r == 0xfffe || r == 0xffff {
			return false
		}
	}
	return true
}

// xmlPart is an element or a text; D is a number that the text has to spell.
type xmlPart struct {
	name string
	text string
	num  *float64
	kids []xmlPart
}

// xmlView is what the XML of a forest has to have, and whether the forest has an XML counterpart.
func xmlView(ts []model.Tree) (ps []xmlPart, ok bool) {
	var run strings.Builder // the text of the last part
	flush := func() {
		if n := len(ps); n > 0 && ps[n-1].name == "" && ps[n-1].num == nil {
			ps[n-1].text = run.String()
		}
		run = strings.Builder{}
	}
	defer flush()
	for _, t := range ts {
		if !t.Leaf {
			flush()
			if t.L.S == nil || !xmlName(string(*t.L.S)) {
				return nil, false
			}
			kids, ok := xmlView(t.C)
			if !ok {
				return nil, false
			}
			ps = append(ps, xmlPart{name: string(*t.L.S), kids: kids})
			continue
		}
		var x xmlPart
		l := t.L
		switch {
		case l.S != nil:
			x.text = string(*l.S)
		case l.I != nil:
			x.text = strconv.FormatInt(*l.I, 10)
		case l.U != nil:
			x.text = strconv.FormatUint(*l.U, 10)
		case l.D != nil:
			f := float64(*l.D)
			x.num = &f
		case l.B != nil:
			x.text = strconv.FormatBool(*l.B)
		case l.Y != nil:
			x.text = base64.StdEncoding.EncodeToString([]byte(*l.Y))
		}
		if !xmlText(x.text) {
			return nil, false
		}
		if x.text == "" && x.num == nil {
			continue
		}
		if n := len(ps); n > 0 && ps[n-1].name == "" {
			if x.num != nil || ps[n-1].num != nil {
				return nil, false
			}
			run.WriteString(x.text)
			continue
		}
		run.WriteString(x.text)
		ps = append(ps, x)
	}
	return ps, true
}

// readXML reads a text with the decoder of the standard library.
func readXML(out []byte) ([]xmlPart, error) {
	d := xml.NewDecoder(strings.NewReader("<root>" + string(out) + "</root>"))
	var stack [][]xmlPart
	var names []string
	stack = append(stack, nil)
	for {
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := len(stack) - 1
		switch x := tok.(type) {
		case xml.StartElement:
			if len(x.Attr) > 0 || x.Name.Space != "" {
				return nil, errf("an element has attributes or a name space: %v", x)
			}
			stack = append(stack, nil)
			names = append(names, x.Name.Local)
		case xml.EndElement:
			if top == 0 || names[top-1] != x.Name.Local {
				return nil, errf("wrong end tag %v", x)
			}
			stack[top-1] = append(stack[top-1], xmlPart{name: names[top-1], kids: stack[top]})
			stack, names = stack[:top], names[:top-1]
		case xml.CharData:
			if n := len(stack[top]); n > 0 && stack[top][n-1].name == "" {
				// encoding/xml gives the whole text, only text around comments comes in several parts
				stack[top][n-1].text += string(x)
			} else if len(x) > 0 {
				stack[top] = append(stack[top], xmlPart{text: string(x)})
			}
		default:
			return nil, errf("unexpected %v", tok)
		}
	}
	if len(stack) != 1 || len(stack[0]) != 1 {
		return nil, errf("elements are not balanced")
	}
	return stack[0][0].kids, nil
}

func diffXML(want, got []xmlPart, at string) string {
	if len(want) != len(got) {
		return errf("at %s: want %d parts, got %d", at, len(want), len(got)).Error()
	}
	for i, w := range want {
		g := got[i]
		if w.num != nil {
			f, err := strconv.ParseFloat(g.text, 64)
			if err != nil || g.name != "" || f != *w.num && f == f {
				return errf("at %s: want number %v, got %q", at, *w.num, g.text).Error()
			}
			continue
		}
		if w.name != g.name || w.text != g.text {
			return errf("at %s: want element %q or text %q, got element %q or text %q", at, w.name, w.text, g.name, g.text).Error()
		}
		if d := diffXML(w.kids, g.kids, at+"/"+w.name); d != "" {
			return d
		}
	}
	return ""
}

func runXMLOf(ts []model.Tree, encode func() ([]byte, error), show string, o *core.Obs) error {
	want, ok := xmlView(ts)
	if !ok {
		o.Label("no counterpart")
		return nil
	}
	out, err := encode()
	if err != nil {
		return errf("encoding fails: %v\n%s", err, show)
	}
	got, err := readXML(out)
	if err != nil {
		return errf("the output is not XML: %v\noutput: %s\n%s", err, out, show)
	}
	if d := diffXML(want, got, ""); d != "" {
		return errf("%s\noutput: %s\n%s", d, out, show)
	}
	o.NonTrivialIf(model.Size(ts) > 2)
	o.Sample("%s", out)
	return nil
}

func genEncodeXML(t T) anyDoc {
	var d anyDoc
	switch gen.W(t, 5, 2, 1, 1, 1) {
	case 0:
		x := genXML(t)
		d.Xml = &x
	case 1:
		x := jsonCase{docs.JSON(t, docs.JConf{Depth: 1 + gen.N(t, 4), Width: 1 + gen.N(t, 4), Plain: true})}
		d.Json = &x
	case 2:
		s := docs.Schema(t, docs.PConf{})
		d.Proto = &protoCase{s, docs.Message(t, s, 1+gen.N(t, 3), docs.PEnc{Legal: true})}
	case 3:
		x := genReflect(t)
		d.Refl = &x
	default:
		x := genYAML(t)
		d.Yaml = &x
	}
	return d
}

func runEncodeXML(d anyDoc, o *core.Obs) error {
	ts, err := d.tree()
	if err != nil {
		return &core.HarnessError{Msg: err.Error()}
	}
	o.Label(d.format())
	return runXMLOf(ts, func() ([]byte, error) {
		p, err := d.open()
		if err != nil {
			return nil, err
		}
		return exml.Encode(p)
	}, d.format()+" document: "+d.show(), o)
}

// xmlForest draws a forest with an XML counterpart.
func xmlForest(t T, depth int) []model.Tree {
	var ts []model.Tree
	for i := gen.N(t, 4); i > 0; i-- {
		if depth > 0 && gen.Chance(t, 2, 3) {
			ts = append(ts, model.Tree{L: model.LS(gen.Pick(t, "a", "b", "true", "t", "NaN", "inf", "e1", "_", "A-b.c", "é", "xml", "root", "nan")), C: xmlForest(t, depth-1)})
			continue
		}
		var l model.Label
		switch gen.W(t, 6, 1, 1, 1, 1, 1) {
		case 0:
			s := ""
			for j := gen.N(t, 4); j >= 0; j-- {
				s += gen.Pick(t, "a", "<", ">", "&", "'", `"`, "]]>", "<!--", "-->", "&amp;", "&#65;", "\n", "\r", "\t", " ", "\r\n", "日本", "007", "1e3", "true", "<a>", "</a>", "<?", "\U0001f600", "1.50", "-", ".5")
			}
			l = model.LS(s)
			if gen.Chance(t, 1, 2) {
				l = docs.TextLabel("", s, true)
			}
		case 1:
			l = model.LI(gen.Pick(t, gen.Ints...))
		case 2:
			l = model.LU(gen.Pick(t, gen.Uints...))
		case 3:
			l = model.LD(gen.Pick(t, gen.Doubles...))
		case 4:
			l = model.LB(gen.Chance(t, 1, 2))
		case 5:
			l = model.LY(gen.Pick(t, gen.Byts...))
		}
		if n := len(ts); n > 0 && ts[n-1].Leaf && (l.D != nil && l.S == nil || ts[n-1].L.D != nil && ts[n-1].L.S == nil) {
			continue
		}
		ts = append(ts, model.Tree{L: l, Leaf: true})
	}
	return ts
}

func runEncodeXMLTree(c encTree, o *core.Obs) error {
	p := model.NewTreeParser(c.Ts)
	err := runXMLOf(c.Ts, func() ([]byte, error) { return exml.Encode(p) }, "tree: "+model.ForestString(c.Ts), o)
	if err == nil && p.Breach != "" {
		return errf("the encoder breaks the protocol of the parser: %s\ntree: %s", p.Breach, model.ForestString(c.Ts))
	}
	return err
}

func init() {
	core.Register(core.Spec{Prop: "E04", Name: "documents", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random XML, JSON and YAML documents, protobuf messages and Go values through their parsers into XML; the output, read by encoding/xml, is well formed and has the elements (attributes are elements) and texts of the document, neighbouring texts joined; documents with names or texts that XML does not allow (list indexes) are skipped; non-trivial: more than 2 nodes"},
		genEncodeXML, runEncodeXML)
	core.Register(core.Spec{Prop: "E04", Name: "trees", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random forests with XML names and texts full of markup and numbers, labels of every type, presented by a parser that monitors its protocol; the output, read by encoding/xml, has their elements and texts; non-trivial: more than 2 nodes"},
		func(t T) encTree { return encTree{Ts: xmlForest(t, 1+gen.N(t, 4))} }, runEncodeXMLTree)
}
