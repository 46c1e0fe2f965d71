package docs

import (
	"encoding/binary"
	"strings"
	"unicode/utf8"

	"verif/harness/core"
	"verif/harness/gen"
)

// Grow says how a small document is made large: its strings get longer, its lists get more elements, and it is
// put inside of other nodes. The lengths and counts are used in turn; what is left of the budget bounds them.
type Grow struct {
	Lens []int  `json:"lens"` // lengths of strings; 0: as it is
	Reps []int  `json:"reps"` // numbers of repetitions of the elements of a list; 0: as they are
	Deep int    `json:"deep,omitempty"`
	Pad  string `json:"pad"`
	Max  int    `json:"max"` // about so many bytes in all
	// Nodes bounds the number of elements that are added; 0: 4000
	Nodes int `json:"nodes,omitempty"`
	// Noise is the length of a run of things that are not part of the tree: unknown fields, comments, spaces
	Noise int `json:"noise,omitempty"`
	Where int `json:"where,omitempty"`
}

// Growth draws one.
func Growth(t T) Grow {
	g := Grow{Max: gen.Pick(t, 20000, 20000, 100000, 300000)}
	for i := 1 + gen.N(t, 4); i > 0; i-- {
		l := gen.Pick(t, 0, 0, 1, 20, 63, 64, 100, 120, 124, 126, 127, 128, 129, 130, 255, 256, 257, 1000, 1023, 1024, 4090, 4095, 4096, 4097, 8192, 16370, 16378, 16380, 16383, 16384, 16385, 32768, 65530, 65535, 65536, 65537, 100000)
		g.Lens = append(g.Lens, l)
	}
	for i := 1 + gen.N(t, 3); i > 0; i-- {
		g.Reps = append(g.Reps, gen.Pick(t, 0, 0, 0, 2, 5, 10, 16, 17, 33, 63, 64, 65, 127, 128, 129, 256, 300, 1000, 2000))
	}
	if gen.Chance(t, 1, 3) {
		g.Deep = gen.Pick(t, 1, 5, 10, 11, 20, 32, 50, 64, 65, 100, 128, 129, 257, 500, 1000)
	}
	g.Pad = gen.Pick(t, "x", "abc ", "é", "日x", "\U0001f600", "\"\\", "a\n", "0", "]}")
	if gen.Chance(t, 1, 60) {
		g.Lens, g.Max = []int{gen.Pick(t, 2097130, 2097140, 2097151, 2097152, 2100000), 0}, 4500000
		g.Pad = "x"
	}
	if g.Max > 50000 { // parsers read a part once per level around it
		g.Deep = min(g.Deep, 10000000/g.Max)
	}
	return g
}

// Lengthen draws one that makes lists very long.
func Lengthen(t T) Grow {
	g := Grow{Max: 1000, Pad: "x"}
	for i := 1 + gen.N(t, 3); i > 0; i-- {
		g.Reps = append(g.Reps, gen.Pick(t, 60000, 100000, 200000, 300000))
	}
	if gen.Chance(t, 1, 4) {
		g.Reps = append(g.Reps, 0, 2)
	}
	g.Nodes = g.Reps[0] + 1000
	if gen.Chance(t, 1, 3) {
		g.Noise, g.Where = gen.Pick(t, 60000, 100000, 200000, 300000), gen.N(t, 12)
		if gen.Chance(t, 1, 2) {
			g.Reps, g.Nodes = []int{gen.Pick(t, 0, 0, 10, 1000)}, 4000
		}
	}
	return g
}

// Grower makes one document large.
type Grower struct {
	g     Grow
	i, j  int
	left  int
	nodes int
	long  bool
}

// Start begins to make a document large.
func (g Grow) Start() *Grower {
	w := &Grower{g: g, left: g.Max, nodes: 4000}
	if g.Nodes > 0 {
		w.nodes, w.long = g.Nodes, true
	}
	return w
}

// More is what is put in front of a string of n bytes.
func (w *Grower) More(n int, pad string) string {
	if len(w.g.Lens) == 0 {
		return ""
	}
	l := w.g.Lens[w.i%len(w.g.Lens)] - n
	w.i++
	if l > w.left {
		l = w.left
	}
	if l <= 0 {
		return ""
	}
	if pad == "" {
		pad = w.g.Pad
	}
	fill := "z"
	if pad[0] == ' ' || pad[0] == '\n' || pad[0] == '\r' {
		fill = " "
	}
	s := strings.Repeat(pad, l/len(pad)) + strings.Repeat(fill, l%len(pad))
	w.left -= l
	return s
}

// Reps is the number of repetitions of n elements, that contain about so many nodes.
func (w *Grower) Reps(n, nodes int) int {
	if len(w.g.Reps) == 0 || n == 0 {
		return 1
	}
	if w.long {
		n = max(n, nodes)
	}
	r := w.g.Reps[w.j%len(w.g.Reps)]
	w.j++
	if r*n > w.nodes {
		r = w.nodes / n
	}
	if r <= 1 {
		return 1
	}
	w.nodes -= r * n
	return r
}

// Grow is the value made large.
func (d RDoc) Grow(g Grow) RDoc {
	w := g.Start()
	v := w.val(d.T, d.V)
	for i := g.Deep; i > 0 && d.T.K == "rec"; i-- {
		r := RVal{C: []RVal{Zero(RType{K: "struct", F: recType().F[0].T.F}), {}, {Nil: true}, {Nil: true}, {Nil: true}, {Nil: true}, {Nil: true}}}
		if p := (RVal{C: []RVal{v}}); i%2 == 0 {
			r.C[3] = p
		} else {
			r.C[4] = RVal{C: []RVal{p}}
		}
		v = r
	}
	return RDoc{d.T, v}
}

func (w *Grower) val(ty RType, v RVal) RVal {
	ty = ty.full()
	switch ty.K {
	case "s", "y":
		if !v.Nil {
			v.S = core.Str(w.More(len(v.S), "")) + v.S
		}
		return v
	case "ptr":
		if !v.Nil {
			v.C = []RVal{w.val(*ty.E, v.C[0])}
		}
		return v
	case "slice":
		var cs []RVal
		for r := w.Reps(len(v.C), v.size()); r > 0; r-- {
			for _, c := range v.C {
				cs = append(cs, w.val(*ty.E, c))
			}
		}
		v.C = cs
		return v
	case "struct", "rec", "n0", "n1", "n2", "n3", "n4", "n5", "n6":
		cs := make([]RVal, len(v.C))
		for i, f := range ty.F {
			cs[i] = w.val(f.T, v.C[i])
		}
		v.C = cs
	}
	return v
}

// Grow is the value made large.
func (c Common) Grow(g Grow) Common {
	g.Deep = 0
	c.Doc = c.Doc.Grow(g)
	return c
}

// Grow is the message made large.
func (s *PSchema) Grow(b []byte, g Grow) []byte {
	w := g.Start()
	b = w.message(s, s.Root, b)
	if g.Noise > 0 {
		num := uint64(1)
		for known := true; known; {
			known = false
			for _, f := range s.Msgs[s.Root].F {
				if uint64(f.Num) == num {
					known = true
					num++
				}
			}
		}
		num <<= 3
		kind := []uint64{0, 2, 5, 1, 2}[g.Where%5]
		one := putVarint(nil, num|kind, 0)
		one = append(one, [][]byte{{1}, {0}, {1, 2, 3, 4}, {1, 2, 3, 4, 5, 6, 7, 8}, {3, 1, 2, 3}}[g.Where%5]...)
		run := []byte(strings.Repeat(string(one), g.Noise))
		if g.Where%2 == 0 {
			b = append(run, b...)
		} else {
			b = append(b, run...)
		}
	}
	if path := s.cycle(s.Root, map[int]bool{}); path != nil {
		for i := g.Deep; i > 0; i-- {
			for j := len(path) - 1; j >= 0; j-- {
				h := putVarint(putVarint(nil, uint64(path[j])<<3|2, 0), uint64(len(b)), 0)
				b = append(h, b...)
			}
		}
	}
	return b
}

// cycle is a path of field numbers from a message type to the root type.
func (s *PSchema) cycle(m int, seen map[int]bool) []int32 {
	if seen[m] {
		return nil
	}
	seen[m] = true
	for _, f := range s.Msgs[m].F {
		if f.Type != tMessage {
			continue
		}
		if f.Msg == s.Root {
			return []int32{f.Num}
		}
		if p := s.cycle(f.Msg, seen); p != nil {
			return append([]int32{f.Num}, p...)
		}
	}
	return nil
}

func (w *Grower) message(s *PSchema, m int, b []byte) []byte {
	var out []byte
	for len(b) > 0 {
		start := b
		key, n := binary.Uvarint(b)
		if n <= 0 {
			return append(out, b...)
		}
		b = b[n:]
		var f *PField
		for i := range s.Msgs[m].F {
			if uint64(s.Msgs[m].F[i].Num) == key>>3 {
				f = &s.Msgs[m].F[i]
			}
		}
		skip := 0
		switch key & 7 {
		case 0:
			_, skip = binary.Uvarint(b)
		case 1:
			skip = 8
		case 5:
			skip = 4
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return append(out, start...)
			}
			body := b[n : n+int(l)]
			skip = n + int(l)
			times := 1
			known := f != nil && (wireOf(f.Type) == 2 || f.scalar())
			if !known || f.Rep {
				times = w.Reps(1, len(body)/6)
			}
			for ; times > 0; times-- {
				x := body
				switch {
				case known && f.Type == tMessage:
					x = w.message(s, f.Msg, body)
				case known && f.Type != tString && f.Type != tBytes: // packed
					x = []byte(strings.Repeat(string(body), w.Reps(1, len(body))))
				default:
					x = append([]byte(w.More(len(body), "")), body...)
				}
				out = append(out, start[:len(start)-len(b)]...)
				out = putVarint(out, uint64(len(x)), 0)
				out = append(out, x...)
			}
			b = b[skip:]
			continue
		}
		if skip <= 0 || skip > len(b) {
			return append(out, start...)
		}
		b = b[skip:]
		one := start[:len(start)-len(b)]
		times := 1
		if f == nil || f.Rep {
			times = w.Reps(1, 1)
		}
		for ; times > 0; times-- {
			out = append(out, one...)
		}
	}
	return out
}

// GrowJSON is a JSON text made large: longer strings and spaces, more elements and members, deeper.
func GrowJSON(text []byte, g Grow) []byte {
	w := g.Start()
	var out []byte
	if g.Noise > 0 && g.Where%3 == 0 {
		out = append(out, strings.Repeat(" ", g.Noise)...)
	}
	noise := 0
	pad := g.Pad
	if !utf8.ValidString(pad) || strings.ContainsAny(pad, "\n\"\\") {
		pad = "\\u00e9\\n"
	}
	for i := 0; i < len(text); i++ {
		c := text[i]
		switch c {
		case '"':
			end := i + 1
			for end < len(text) && text[end] != '"' {
				if text[end] == '\\' {
					end++
				}
				end++
			}
			if end >= len(text) {
				return append(out, text[i:]...)
			}
			out = append(out, '"')
			out = append(out, w.More(end-i-1, pad)...)
			out = append(out, text[i+1:end+1]...)
			i = end
		case '[', '{':
			out = append(out, c)
			if rest := strings.TrimLeft(string(text[i+1:min(len(text), i+200)]), " \t\r\n"); rest == "" || rest[0] == ']' || rest[0] == '}' {
				break
			}
			what := []string{"0,", "[],", "{},", "\"s\",", "-1.5e3 ,", "null,", "[[1],{\"a\":[]}],"}[w.j%7]
			if c == '{' {
				what = "\"k\":" + what
			}
			for r := w.Reps(1, 2); r > 1; r-- {
				out = append(out, what...)
			}
		case ',', ':':
			if noise++; g.Noise > 0 && noise == g.Where {
				out = append(out, strings.Repeat("\n", g.Noise)...)
			}
			out = append(out, w.space()...)
			out = append(out, c)
			out = append(out, w.space()...)
		default:
			out = append(out, c)
		}
	}
	if g.Deep > 0 {
		open, end := strings.Builder{}, strings.Builder{}
		var ends []string
		for i := 0; i < g.Deep; i++ {
			x := w.j + i
			k := []string{"[", "{\"a\":", "[1,", "{\"b\":[],\"c\":"}[x%7%4]
			e := []string{"]", "}", ",2]", ",\"d\":{\"e\":1}}"}[x%7%4]
			open.WriteString(k)
			ends = append(ends, e)
		}
		for i := len(ends) - 1; i >= 0; i-- {
			end.WriteString(ends[i])
		}
		out = append(append([]byte(open.String()), out...), end.String()...)
	}
	return out
}

func (w *Grower) space() string {
	if w.i%3 != 1 {
		return ""
	}
	return w.More(0, []string{" ", "\n\t", "\r\n  "}[w.j%3])
}

// Grow is the document made large.
func (d XDoc) Grow(g Grow) XDoc {
	w := g.Start()
	d.Root = w.xnode(d.Root)
	if g.Noise > 0 && d.Root.K == "elem" {
		raw := XNode{K: "raw", S: []core.Str{"<!---->", "<!-- c -->", "<?p q?>", "<!D>"}[g.Where/2%4]}
		run := make([]XNode, g.Noise)
		for i := range run {
			run[i] = raw
		}
		if g.Where%2 == 0 {
			d.Root.C = append(run, d.Root.C...)
		} else {
			d.Root.C = append(append([]XNode{}, d.Root.C...), run...)
		}
	}
	for i := g.Deep; i > 0; i-- {
		n := XNode{K: "elem", N: []core.Str{"a", "b", "c-d", "abc"}[i%4], C: []XNode{d.Root}}
		if i%5 == 0 {
			n.A = []XAttr{{N: "x", Q: `"`, P: []XPiece{{"1", "1"}}}}
		}
		if i%7 == 0 {
			n.C = append(n.C, XNode{K: "elem", N: "e"})
		}
		if i%11 == 0 {
			n.C = append([]XNode{{K: "text", P: []XPiece{{"t", "t"}}}}, n.C...)
		}
		d.Root = n
	}
	return d
}

func (w *Grower) xpad(ps []XPiece) []XPiece {
	pad := w.g.Pad
	if strings.ContainsAny(pad, "\"]") {
		pad = "p q"
	}
	if pad == "a\n" { // in an attribute too
		pad = "a\t"
	}
	if m := core.Str(w.More(len(value(ps)), pad)); m != "" {
		if w.i%2 == 0 {
			return append(append([]XPiece{}, ps...), XPiece{"x" + m, "x" + m})
		}
		return append([]XPiece{{m, m}}, ps...)
	}
	return ps
}

func (w *Grower) xnode(n XNode) XNode {
	switch n.K {
	case "text":
		if len(n.P) > 0 {
			n.P = w.xpad(n.P)
		}
	case "cdata":
		if m := core.Str(w.More(0, "<a>&")); m != "" {
			v := m + n.P[0].V
			n.P = []XPiece{{v, v}}
		}
	case "raw":
		if s := string(n.S); strings.HasPrefix(s, "<!-- c") {
			n.S = core.Str("<!-- " + w.More(0, "<b> ") + s[5:])
		}
	case "elem":
		if w.i%5 == 4 && !strings.Contains(string(n.N), ":") {
			n.N += core.Str(w.More(len(n.N), "n"))
		}
		as := append([]XAttr{}, n.A...)
		for i := range as {
			if !strings.HasPrefix(string(as[i].N), "xml") {
				as[i].P = w.xpad(as[i].P)
			}
		}
		n.A = as
		var cs []XNode
		for _, c := range n.C {
			r := 1
			if c.K == "elem" || c.K == "cdata" || c.K == "raw" {
				r = w.Reps(1, c.size())
			}
			for ; r > 0; r-- {
				cs = append(cs, w.xnode(c))
			}
		}
		n.C = cs
	}
	return n
}

// Grow is the document made large.
func (d YDoc) Grow(g Grow) YDoc {
	w := g.Start()
	d.Root = w.ynode(d.Root)
	if g.Noise > 0 {
		run := strings.Repeat([]string{"\n", "  \n"}[g.Where/3%2], g.Noise)
		switch g.Where % 3 {
		case 0:
			d.Pre += run
		case 1:
			d.Post = run + d.Post
		case 2:
			if n := len(d.Root.E); n > 0 {
				d.Root.E[n-1].Blank += run
			}
		}
	}
	if d.Root.K == "map" {
		for i := min(g.Deep, 60); i > 0; i-- {
			d.Root = YNode{K: "map", E: []YEntry{{Key: []string{"a", "bc", "d-e"}[i%3], V: d.Root}}}
		}
	}
	return d
}

func (w *Grower) ynode(n YNode) YNode {
	if n.K == "scalar" {
		pad := w.g.Pad
		if strings.ContainsAny(pad, "\n\"]") || pad == "abc " {
			pad = "yz-1 y"
		}
		if m := w.More(len(n.S), pad); m != "" {
			n.S = core.Str("y"+m) + "z" + n.S
		}
		return n
	}
	var es []YEntry
	for _, e := range n.E {
		for r := w.Reps(1, 3*e.V.size()); r > 0; r-- {
			x := e
			if n.K == "seq" && e.V.K == "map" { // has one entry
				one := e.V.E[0]
				one.V = w.ynode(one.V)
				x.V = YNode{K: "map", E: []YEntry{one}}
			} else {
				x.V = w.ynode(e.V)
			}
			if x.Key != "" && w.i%4 == 3 {
				x.Key = "k" + w.More(len(x.Key), "ke_y") + x.Key
			}
			es = append(es, x)
		}
	}
	n.E = es
	return n
}

func (v RVal) size() int {
	n := 1
	for _, c := range v.C {
		n += c.size()
	}
	return n
}

func (n XNode) size() int {
	s := 1 + len(n.A) + len(n.S)/40
	for _, c := range n.C {
		s += c.size()
	}
	return s
}

func (n YNode) size() int {
	s := 1
	for _, e := range n.E {
		s += 1 + e.V.size()
	}
	return s
}
