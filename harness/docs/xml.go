package docs

import (
	"fmt"
	"strconv"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// XPiece is a part of a text: what is written for which value.
type XPiece struct {
	W core.Str `json:"w"` // as written
	V core.Str `json:"v"` // as meant
}

// XAttr is an attribute.
type XAttr struct {
	N core.Str `json:"n"`
	Q string   `json:"q"` // quote
	P []XPiece `json:"p,omitempty"`
	S core.Str `json:"s,omitempty"` // space around =
}

// XNode is an element or something between elements.
type XNode struct {
	K string   `json:"k"` // elem, text, cdata, or raw: a comment, processing instruction or directive
	N core.Str `json:"n,omitempty"`
	A []XAttr  `json:"a,omitempty"`
	P []XPiece `json:"p,omitempty"`
	C []XNode  `json:"c,omitempty"`
	E bool     `json:"e,omitempty"` // <n/>
	S core.Str `json:"s,omitempty"` // space before the end of the tag, or the text of a raw piece
}

// XDoc is an XML document and the configuration of the parser that reads it.
type XDoc struct {
	Pre  []XNode  `json:"pre,omitempty"`
	Root XNode    `json:"root"`
	Post []XNode  `json:"post,omitempty"`
	AP   core.Str `json:"ap,omitempty"`
	EP   core.Str `json:"ep,omitempty"`
	TP   core.Str `json:"tp,omitempty"`
}

// XConf bounds an XML document.
type XConf struct {
	Depth, Width int
	NoAttr       bool // no attributes
	NoMixed      bool // an element has elements or one text
}

// XML draws a well-formed document.
func XML(t T, c XConf) XDoc {
	d := XDoc{Root: xelem(t, c, c.Depth)}
	if gen.Chance(t, 1, 3) {
		d.Pre = append(d.Pre, XNode{K: "raw", S: gen.Pick[core.Str](t, `<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version='1.0' encoding='utf-8' standalone='yes' ?>`, "<?xml version=\"1.0\"\n encoding=\"UTF-8\"?>")})
	}
	misc := func() XNode {
		if gen.Chance(t, 1, 3) {
			return xspace(t)
		}
		return xraw(t)
	}
	doctype := false
	for i := gen.N(t, 4); i > 0; i-- {
		if !doctype && gen.Chance(t, 1, 4) {
			doctype = true
			d.Pre = append(d.Pre, XNode{K: "raw", S: gen.Pick[core.Str](t, "<!DOCTYPE a>", "<!DOCTYPE a SYSTEM \"x>y.dtd\">", "<!DOCTYPE a [<!ELEMENT a (#PCDATA)><!-- > -->\n<!ATTLIST a b CDATA #IMPLIED>]>")})
			continue
		}
		d.Pre = append(d.Pre, misc())
	}
	for i := gen.N(t, 3); i > 0; i-- {
		d.Post = append(d.Post, misc())
	}
	if gen.Chance(t, 1, 3) {
		p := []core.Str{"", "@", "attr_", "elem_", "text_", "ü"}
		d.AP, d.EP, d.TP = gen.Pick(t, p...), gen.Pick(t, p...), gen.Pick(t, p...)
	}
	return d
}

func xspace(t T) XNode {
	return XNode{K: "raw", S: gen.Pick[core.Str](t, "\n", " ", "\t", "\r\n", "\n  ")}
}

func xraw(t T) XNode {
	return XNode{K: "raw", S: gen.Pick[core.Str](t, "<!-- c -->", "<!---->", "<!-- <a>b</a> -->", "<!-- ]]> ?> -->", "<!-- - -->", "<?p?>", "<?php echo '<a>' ?>", "<?p a=\"b\"?>", "<?p\nq?>")}
}

func xname(t T) core.Str {
	return gen.Pick[core.Str](t, "a", "b", "c", "A", "abc", "a-b", "a.b", "_x", "é", "x1", "p:a", "q:b", "a_b", "XXX_unrecognized")
}

func xpieces(t T, attr bool, quote string) []XPiece {
	var ps []XPiece
	add := func(w, v string) { ps = append(ps, XPiece{core.Str(w), core.Str(v)}) }
	if gen.Chance(t, 1, 2) {
		v := gen.Pick(t, "a", "1", "-1", "true", "1.5", "abc", "007", "0", "1e3", "false", "t", "18446744073709551615", "9223372036854775808", " 1", "inf", "0x10", "+5", "-0", "1_000")
		add(v, v)
		return ps
	}
	for i := gen.N(t, 5); i > 0; i-- {
		switch gen.W(t, 4, 3, 3, 2, 2) {
		case 0:
			v := gen.Pick(t, "a", "b", "1", " ", ".", "-")
			add(v, v)
		case 1:
			e := gen.Pick(t, "&lt;<", "&gt;>", "&amp;&", "&quot;\"", "&apos;'")
			i := strings.IndexByte(e, ';')
			add(e[:i+1], e[i+1:])
		case 2:
			r := gen.Pick(t, 'A', 'é', '日', '😀', '\n', '\t', '\r', '<', '&', ']', ' ')
			add(fmt.Sprintf(gen.Pick(t, "&#%d;", "&#x%x;", "&#x%X;"), r), string(r))
		case 3:
			v := gen.Pick(t, "é", "日", "😀", "ü")
			add(v, v)
		default:
			if attr {
				v := gen.Pick(t, ">", "]]>", "/>", "<!--", "?>", "'", `"`, "//")
				if strings.Contains(v, "<") || v == quote {
					v = ">"
				}
				add(v, v)
			} else {
				v := gen.Pick(t, "\n", "\r\n", "\r", ">", "]", "'", `"`, "\t", "?>")
				w := v
				if v == "\r\n" || v == "\r" {
					v = "\n"
				}
				add(w, v)
			}
		}
	}
	// two pieces must not make up something else
	var res []XPiece
	for _, p := range ps {
		if n := len(res); n > 0 {
			l := string(res[n-1].W)
			if strings.HasSuffix(l, "]") || strings.HasSuffix(l, "\r") || strings.HasSuffix(l, "?") {
				res = append(res, XPiece{"x", "x"})
			}
		}
		res = append(res, p)
	}
	return res
}

func xelem(t T, c XConf, depth int) XNode {
	n := XNode{K: "elem", N: xname(t)}
	if !c.NoAttr {
		used := map[core.Str]bool{}
		for i := gen.W(t, 4, 2, 1, 1); i > 0; i-- {
			a := XAttr{N: xname(t), Q: gen.Pick(t, `"`, `'`), S: gen.Pick[core.Str](t, "", "", " ", "\n")}
			if gen.Chance(t, 1, 10) {
				a.N = gen.Pick[core.Str](t, "xmlns", "xmlns:p", "xml:lang")
			}
			if used[a.N] {
				continue
			}
			used[a.N] = true
			a.P = xpieces(t, true, a.Q)
			n.A = append(n.A, a)
		}
	}
	n.S = gen.Pick[core.Str](t, "", "", " ", "\n")
	if c.NoMixed {
		if depth > 0 && gen.Chance(t, 2, 3) {
			for i := gen.N(t, c.Width+1); i > 0; i-- {
				n.C = append(n.C, xelem(t, c, depth-1))
			}
		} else if gen.Chance(t, 3, 4) {
			n.C = append(n.C, XNode{K: "text", P: xpieces(t, false, "")})
		}
	} else {
		for i := gen.N(t, c.Width+1); i > 0; i-- {
			switch gen.W(t, 5, 4, 1, 2) {
			case 0:
				if depth > 0 {
					n.C = append(n.C, xelem(t, c, depth-1))
				}
			case 1:
				n.C = append(n.C, XNode{K: "text", P: xpieces(t, false, "")})
			case 2:
				v := gen.Pick[core.Str](t, "a", "", "<a>", "&amp;", "]]", "<?p?>", "<!-- c -->", "\n", " 1 ")
				n.C = append(n.C, XNode{K: "cdata", P: []XPiece{{v, v}}})
			default:
				n.C = append(n.C, xraw(t))
			}
		}
	}
	n.E = len(n.C) == 0 && gen.Chance(t, 1, 2)
	return n
}

func (n XNode) write(b *strings.Builder, glue bool) {
	switch n.K {
	case "raw":
		b.WriteString(string(n.S))
	case "text":
		if glue && len(n.P) > 0 { // after another text: keep the pieces apart
			b.WriteString("&#46;")
		}
		for _, p := range n.P {
			b.WriteString(string(p.W))
		}
	case "cdata":
		b.WriteString("<![CDATA[" + string(n.P[0].W) + "]]>")
	case "elem":
		b.WriteString("<" + string(n.N))
		for _, a := range n.A {
			b.WriteString(" " + string(a.N) + string(a.S) + "=" + string(a.S) + a.Q)
			for _, p := range a.P {
				b.WriteString(string(p.W))
			}
			b.WriteString(a.Q)
		}
		b.WriteString(string(n.S))
		if n.E {
			b.WriteString("/>")
			return
		}
		b.WriteString(">")
		writeAll(n.C, b)
		b.WriteString("</" + string(n.N) + string(n.S) + ">")
	}
}

func writeAll(ns []XNode, b *strings.Builder) {
	text := false
	for _, n := range ns {
		n.write(b, text)
		if n.K != "text" {
			text = false
		} else if len(n.P) > 0 {
			text = true
		}
	}
}

// Text is the document as written.
func (d XDoc) Text() string {
	var b strings.Builder
	for _, n := range d.Pre {
		n.write(&b, false)
	}
	d.Root.write(&b, false)
	for _, n := range d.Post {
		n.write(&b, false)
	}
	return b.String()
}

func local(n core.Str) string {
	s := string(n)
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func value(ps []XPiece) string {
	s := ""
	for _, p := range ps {
		s += string(p.V)
	}
	return s
}

// TextLabel is the label of a text of XML.
func TextLabel(prefix, v string, bytes bool) model.Label {
	l := model.LS(prefix + v)
	if f, err := strconv.ParseFloat(v, 64); err == nil {
		x := core.F64(f)
		l.D = &x
	}
	if i, err := strconv.ParseInt(v, 10, 64); err == nil {
		l.I = &i
	}
	if u, err := strconv.ParseUint(v, 10, 64); err == nil {
		l.U = &u
	}
	if b, err := strconv.ParseBool(strings.TrimSpace(v)); err == nil {
		l.B = &b
	}
	if bytes {
		y := core.Str(v)
		l.Y = &y
	}
	return l
}

// Tree is what the document denotes.
func (d XDoc) Tree() []Tree { return []Tree{d.tree(d.Root)} }

func (d XDoc) tree(n XNode) Tree {
	tr := Tree{L: model.LS(string(d.EP) + local(n.N))}
	for _, a := range n.A {
		tr.C = append(tr.C, Tree{L: model.LS(string(d.AP) + local(a.N)), C: []Tree{{L: TextLabel(string(d.TP), value(a.P), false), Leaf: true}}})
	}
	text, pending := "", false
	flush := func() {
		if pending && text != "" {
			tr.C = append(tr.C, Tree{L: TextLabel(string(d.TP), text, true), Leaf: true})
		}
		text, pending = "", false
	}
	for _, c := range n.C {
		switch c.K {
		case "text":
			if pending && len(c.P) > 0 {
				text += "."
			}
			if len(c.P) > 0 {
				pending = true
			}
			text += value(c.P)
		case "cdata":
			flush()
			text, pending = value(c.P), true
			flush()
		case "raw":
			flush()
		case "elem":
			flush()
			tr.C = append(tr.C, d.tree(c))
		}
	}
	flush()
	return tr
}

// XMLAlphabet is what damaged XML texts are made of.
var XMLAlphabet = []string{"<", ">", "/", "</", "/>", "<a>", "</a>", "<a", "=", `"`, "'", "&", "&#", "&lt;", ";", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml ", "<!", "a", " ", "\n", "\xff", "\x00", "é", ":", "b=\"c\"", "<!DOCTYPE"}
