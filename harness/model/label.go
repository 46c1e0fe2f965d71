// Package model holds the reference models of the checks. Nothing here calls the code under test,
// except the conversions into its input types.
package model

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"

	"verif/harness/core"
)

type Str = core.Str
type F64 = core.F64

// Label is what a parser reports for one node: a value for every type it is readable as.
type Label struct {
	D *F64    `json:"d,omitempty"`
	I *int64  `json:"i,omitempty"`
	U *uint64 `json:"u,omitempty"`
	B *bool   `json:"b,omitempty"`
	S *Str    `json:"s,omitempty"`
	Y *Str    `json:"y,omitempty"`
}

func LD(v float64) Label { f := F64(v); return Label{D: &f} }
func LI(v int64) Label   { return Label{I: &v} }
func LU(v uint64) Label  { return Label{U: &v} }
func LB(v bool) Label    { return Label{B: &v} }
func LS(v string) Label  { s := Str(v); return Label{S: &s} }
func LY(v string) Label  { s := Str(v); return Label{Y: &s} }

// LNum is a label readable as each numeric type that represents the integer v (like a JSON number).
func LNum(v int64) Label {
	f := F64(float64(v))
	l := Label{D: &f, I: &v}
	if v >= 0 {
		u := uint64(v)
		l.U = &u
	}
	return l
}

func (l Label) String() string {
	var ss []string
	if l.D != nil {
		ss = append(ss, "d:"+strconv.FormatFloat(float64(*l.D), 'g', -1, 64))
	}
	if l.I != nil {
		ss = append(ss, fmt.Sprintf("i:%d", *l.I))
	}
	if l.U != nil {
		ss = append(ss, fmt.Sprintf("u:%d", *l.U))
	}
	if l.B != nil {
		ss = append(ss, fmt.Sprintf("b:%v", *l.B))
	}
	if l.S != nil {
		ss = append(ss, fmt.Sprintf("%q", string(*l.S)))
	}
	if l.Y != nil {
		ss = append(ss, fmt.Sprintf("y:%q", string(*l.Y)))
	}
	if len(ss) == 0 {
		return "null"
	}
	return strings.Join(ss, "/")
}

func f64eq(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (math.IsNaN(a) && math.IsNaN(b))
}

// Equal is exact equality (NaN equals NaN, -0 differs from 0).
func (l Label) Equal(m Label) bool {
	if (l.D == nil) != (m.D == nil) || (l.I == nil) != (m.I == nil) || (l.U == nil) != (m.U == nil) ||
		(l.B == nil) != (m.B == nil) || (l.S == nil) != (m.S == nil) || (l.Y == nil) != (m.Y == nil) {
		return false
	}
	return (l.D == nil || f64eq(float64(*l.D), float64(*m.D))) &&
		(l.I == nil || *l.I == *m.I) && (l.U == nil || *l.U == *m.U) &&
		(l.B == nil || *l.B == *m.B) && (l.S == nil || *l.S == *m.S) && (l.Y == nil || *l.Y == *m.Y)
}

// ReadLabel asks a parser.Value for all six types.
func ReadLabel(v parser.Value) Label {
	var l Label
	if d, err := v.Double(); err == nil {
		f := F64(d)
		l.D = &f
	}
	if i, err := v.Int(); err == nil {
		l.I = &i
	}
	if u, err := v.Uint(); err == nil {
		l.U = &u
	}
	if b, err := v.Bool(); err == nil {
		l.B = &b
	}
	if s, err := v.String(); err == nil {
		x := Str(s)
		l.S = &x
	}
	if y, err := v.Bytes(); err == nil {
		x := Str(y)
		l.Y = &x
	}
	return l
}

// Value makes a parser.Value of a label.
func (l Label) Value() parser.Value { return labelValue{l} }

type labelValue struct{ l Label }

func (v labelValue) Double() (float64, error) {
	if v.l.D == nil {
		return 0, parser.ErrNotDouble
	}
	return float64(*v.l.D), nil
}
func (v labelValue) Int() (int64, error) {
	if v.l.I == nil {
		return 0, parser.ErrNotInt
	}
	return *v.l.I, nil
}
func (v labelValue) Uint() (uint64, error) {
	if v.l.U == nil {
		return 0, parser.ErrNotUint
	}
	return *v.l.U, nil
}
func (v labelValue) Bool() (bool, error) {
	if v.l.B == nil {
		return false, parser.ErrNotBool
	}
	return *v.l.B, nil
}
func (v labelValue) String() (string, error) {
	if v.l.S == nil {
		return "", parser.ErrNotString
	}
	return string(*v.l.S), nil
}
func (v labelValue) Bytes() ([]byte, error) {
	if v.l.Y == nil {
		return nil, parser.ErrNotBytes
	}
	return []byte(*v.l.Y), nil
}

// Tree is one node with its children in order.
type Tree struct {
	L    Label  `json:"l"`
	Leaf bool   `json:"leaf,omitempty"`
	C    []Tree `json:"c,omitempty"`
}

func ForestString(ts []Tree) string {
	ss := make([]string, len(ts))
	for i, t := range ts {
		ss[i] = t.String()
	}
	return strings.Join(ss, " ")
}

func (t Tree) String() string {
	if t.Leaf {
		return t.L.String()
	}
	return t.L.String() + "{" + ForestString(t.C) + "}"
}

// Size is the number of nodes.
func Size(ts []Tree) int {
	n := 0
	for _, t := range ts {
		n += 1 + Size(t.C)
	}
	return n
}

func Depth(ts []Tree) int {
	d := 0
	for _, t := range ts {
		if x := 1 + Depth(t.C); x > d {
			d = x
		}
	}
	return d
}

func MaxWidth(ts []Tree) int {
	w := len(ts)
	for _, t := range ts {
		if x := MaxWidth(t.C); x > w {
			w = x
		}
	}
	return w
}

func AllLabels(ts []Tree, f func(Label)) {
	for _, t := range ts {
		f(t.L)
		AllLabels(t.C, f)
	}
}

// DiffForest describes the first difference, or "".
func DiffForest(want, got []Tree) string { return diffForest(want, got, "") }

func diffForest(want, got []Tree, path string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("at %s/%d: missing %v", path, i, want[i])
		}
		p := fmt.Sprintf("%s/%d", path, i)
		if !want[i].L.Equal(got[i].L) {
			return fmt.Sprintf("at %s: label: want %v, got %v", p, want[i].L, got[i].L)
		}
		if want[i].Leaf != got[i].Leaf {
			return fmt.Sprintf("at %s (%v): leaf: want %v, got %v", p, want[i].L, want[i].Leaf, got[i].Leaf)
		}
		if d := diffForest(want[i].C, got[i].C, p); d != "" {
			return d
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("at %s/%d: unexpected %v", path, len(want), got[len(want)])
	}
	return ""
}

// CloneForest is a deep copy of the structure (labels are never mutated).
func CloneForest(ts []Tree) []Tree {
	if ts == nil {
		return nil
	}
	r := make([]Tree, len(ts))
	for i, t := range ts {
		r[i] = Tree{L: t.L, Leaf: t.Leaf, C: CloneForest(t.C)}
	}
	return r
}
