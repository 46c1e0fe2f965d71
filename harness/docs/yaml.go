package docs

import (
	"regexp"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// YNode is a node of a YAML document of the supported subset.
type YNode struct {
	K string   `json:"k"` // map, seq, scalar, null
	S core.Str `json:"s,omitempty"`
	E []YEntry `json:"e,omitempty"`
}

// YEntry is a member of a mapping or an element of a sequence.
type YEntry struct {
	Key   string `json:"key,omitempty"`
	V     YNode  `json:"v"`
	Bare  bool   `json:"bare,omitempty"` // a key without a colon, which has no value
	Gap   string `json:"gap,omitempty"`  // spaces before an inline value, in addition to one
	Tail  string `json:"tail,omitempty"` // spaces at the end of the line
	Blank string `json:"blank,omitempty"`
	Deep  int    `json:"deep,omitempty"` // additional indentation of the block below
}

// YDoc is a document.
type YDoc struct {
	Root YNode  `json:"root"`
	Unit string `json:"unit"`
	Base int    `json:"base,omitempty"`
	Pre  string `json:"pre,omitempty"`
	Post string `json:"post,omitempty"`
	CRLF bool   `json:"crlf,omitempty"`
}

var yScalars = []string{"a", "b", "1", "0", "-1", "true", "false", "0.5", "-2.25", "1e3", "007", "0127897897", "abc def", "x-y", "a,b",
	"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
	"123456789012345678901234567890", "http://x.y/z", "12:30", "a:b", "True", "nan", "inf", "0x10", "1_000", "ä", "日本", "a - b", "-x", "1.2.3", "1-2", "TheStreet", "+1", ".5", "0.1"}

var yKeys = []string{"A", "B", "C", "Name", "key", "a b", "x-y", "1", "ä", "a_b", "a:b", "-k", "true"}

// YAML draws a document.
func YAML(t T, depth, width int) YDoc {
	d := YDoc{Unit: gen.Pick(t, "  ", "\t", "    ", " ")}
	d.Base = gen.N(t, 3)
	if gen.Chance(t, 1, 3) {
		d.Pre = gen.Pick(t, "\n", "\n\n", "  \n", "\t\n\n")
	}
	d.Post = gen.Pick(t, "\n", "", "\n\n", "\n  \n", "\n\t")
	d.CRLF = gen.Chance(t, 1, 8)
	if gen.Chance(t, 1, 5) {
		d.Root = ySeq(t, depth, width)
	} else {
		d.Root = yMap(t, depth, width, 1)
	}
	return d
}

func yMap(t T, depth, width, min int) YNode {
	n := YNode{K: "map"}
	for i := min + gen.N(t, width); i > 0; i-- {
		n.E = append(n.E, yEntry(t, depth, width, true))
	}
	return n
}

func ySeq(t T, depth, width int) YNode {
	n := YNode{K: "seq"}
	for i := 1 + gen.N(t, width); i > 0; i-- {
		e := yEntry(t, depth, width, false)
		if gen.Chance(t, 1, 8) {
			e.V = YNode{K: "null"}
		} else if gen.Chance(t, 1, 3) {
			e.V = YNode{K: "map", E: []YEntry{yEntry(t, depth-1, width, true)}}
			e.V.E[0].Blank, e.V.E[0].Bare = "", false
		}
		n.E = append(n.E, e)
	}
	return n
}

func yEntry(t T, depth, width int, key bool) YEntry {
	var e YEntry
	if gen.Chance(t, 1, 5) {
		e.Gap = gen.Pick(t, " ", "\t", "   ")
	}
	if gen.Chance(t, 1, 8) {
		e.Tail = gen.Pick(t, " ", "\t", "  ")
	}
	if gen.Chance(t, 1, 8) {
		e.Blank = gen.Pick(t, "\n", "\n\n", "  \n", "\t\n")
	}
	if key {
		e.Key = gen.Pick(t, yKeys...)
	}
	k := gen.W(t, 6, 1, 3, 2)
	if !key || depth <= 0 && k > 1 {
		k = 0
	}
	switch k {
	case 0:
		e.V = YNode{K: "scalar", S: core.Str(gen.Pick(t, yScalars...))}
	case 1:
		e.V = YNode{K: "null"}
		e.Bare = gen.Chance(t, 1, 3)
	case 2:
		e.V = yMap(t, depth-1, width, 1)
		e.Deep = gen.W(t, 6, 1, 1)
	default:
		e.V = ySeq(t, depth-1, width)
		e.Deep = gen.W(t, 6, 1, 1)
	}
	return e
}

// Text is the document's text.
func (d YDoc) Text() string {
	var s strings.Builder
	d.node(&s, d.Root, d.Base)
	x := strings.TrimSuffix(s.String(), "\n")
	x = d.Pre + x + d.Post
	if d.CRLF {
		x = strings.ReplaceAll(x, "\n", "\r\n")
	}
	return x
}

func (d YDoc) node(s *strings.Builder, n YNode, ind int) {
	for _, e := range n.E {
		s.WriteString(e.Blank)
		s.WriteString(strings.Repeat(d.Unit, ind))
		if n.K == "seq" {
			if e.V.K == "null" {
				s.WriteString("-" + e.Tail + "\n")
				continue
			}
			s.WriteString("-" + strings.ReplaceAll(e.Gap, "\t", " ") + " ")
			if e.V.K == "map" {
				d.entry(s, e.V.E[0], ind)
				continue
			}
			s.WriteString(string(e.V.S) + e.Tail + "\n")
			continue
		}
		d.entry(s, e, ind)
	}
}

func (d YDoc) entry(s *strings.Builder, e YEntry, ind int) {
	s.WriteString(e.Key)
	if !e.Bare {
		s.WriteString(":")
	}
	switch e.V.K {
	case "scalar":
		s.WriteString(" " + e.Gap + string(e.V.S) + e.Tail + "\n")
	case "null":
		s.WriteString(e.Tail + "\n")
	default:
		s.WriteString(e.Tail + "\n")
		d.node(s, e.V, ind+1+e.Deep)
	}
}

// Tree is the forest the document denotes.
func (d YDoc) Tree() []model.Tree { return d.Root.forest() }

func (n YNode) forest() []model.Tree {
	switch n.K {
	case "null":
		return []model.Tree{{Leaf: true}}
	case "scalar":
		return []model.Tree{{L: YAMLLabel(string(n.S)), Leaf: true}}
	}
	ts := []model.Tree{}
	for i, e := range n.E {
		l := model.LS(e.Key)
		if n.K == "seq" {
			l = model.LI(int64(i))
		}
		ts = append(ts, model.Tree{L: l, C: e.V.forest()})
	}
	return ts
}

var yNumber = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?$`)

// YAMLLabel is the label of a plain scalar: a number is readable as each numeric type that represents it, and
// every scalar is readable as its text.
func YAMLLabel(s string) model.Label {
	l := model.LS(s)
	if s == "true" || s == "false" {
		b := s == "true"
		l.B = &b
	}
	if !yNumber.MatchString(s) {
		return l
	}
	n := NumberLabel(s)
	l.D, l.I, l.U = n.D, n.I, n.U
	return l
}

// YAMLAlphabet are the tokens of random texts.
var YAMLAlphabet = []string{"a", ":", " ", "\n", "- ", "-", "\t", "  ", "1", "true", "a: b\n", "- c\n", "\"", "#", "[", "{", "|", "\r\n", "a:\n", "  - d", "\x00", "ä"}
