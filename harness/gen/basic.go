// Package gen holds the rapid generators of grammars, expressions, forests and documents.
package gen

import (
	"math"
	"math/bits"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/model"
)

type Str = core.Str

var coin = rapid.Bool()

// N draws from 0..n-1 nearly uniformly; 0 is the simplest. (rapid's own integer ranges prefer small values
// so strongly that the later alternatives of a choice hardly occur.)
func N(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n - 1))
	if n&(n-1) != 0 {
		k += 2
	}
	x := 0
	for ; k > 0; k-- {
		x <<= 1
		if coin.Draw(t, "bit") {
			x |= 1
		}
	}
	return x % n
}

// Chance is true in about num of den draws; false is the simplest.
func Chance(t *rapid.T, num, den int) bool { return N(t, den) >= den-num }

// Pick draws one of its arguments; the first is the simplest.
func Pick[E any](t *rapid.T, es ...E) E { return es[N(t, len(es))] }

// W is a weighted choice.
func W(t *rapid.T, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := N(t, sum)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

// Interesting values of each type, simplest first.
var (
	Ints    = []int64{0, 1, 2, 3, -1, -2, 7, 10, 127, 128, -128, 255, 256, 1 << 31, -(1 << 31), 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 100}
	Uints   = []uint64{0, 1, 2, 3, 7, 10, 127, 128, 255, 256, 1 << 31, 1<<53 + 1, math.MaxInt64, 1 << 63, math.MaxUint64, 100}
	Doubles = []float64{0, 1, 2, 0.5, -1, 1.5, -2.25, 0.1, 1e9, 1e21, 1e-7, 123456789.125, 0.1234567890123, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e300, 3}
	Strs    = []string{"a", "b", "", "c", "A", "ab", "0", "1", "true", "abc", "a b", "ä", "日本", "\n", "a\"b", "`", "\\", "a`b\"", "\x00", "//x", "/*", "'", "$", "_", "\u2028", "%d", "a\nb", "a\n", "9a", "a-b", "aé"}
	Byts    = []string{"a", "b", "", "ab", "\x00", "\xff\xfe", "abc", "\x00\x01\x02", "'", "\\", "\n"}
)

func Small(t *rapid.T, typ string) model.Label {
	switch typ {
	case "d":
		return model.LD(Pick(t, 0.0, 1, 2, 0.5, -1))
	case "i":
		return model.LI(Pick(t, int64(0), 1, 2, 3, -1))
	case "u":
		return model.LU(Pick(t, uint64(0), 1, 2, 3))
	case "b":
		return model.LB(Pick(t, false, true))
	case "s":
		return model.LS(Pick(t, "a", "b", "c", "ab", "", "A"))
	}
	return model.LY(Pick(t, "a", "b", "", "ab"))
}

// Const draws a single-typed label.
func Const(t *rapid.T, typ string) model.Label {
	if !Chance(t, 1, 4) {
		return Small(t, typ)
	}
	switch typ {
	case "d":
		return model.LD(Double(t))
	case "i":
		return model.LI(Int(t))
	case "u":
		return model.LU(Uint(t))
	case "b":
		return Small(t, typ)
	case "s":
		return model.LS(String(t))
	}
	return model.LY(Bytes(t))
}

// Wild draws a single-typed label, rarely a small one.
func Wild(t *rapid.T) model.Label {
	switch Type(t) {
	case "d":
		return model.LD(Double(t))
	case "i":
		return model.LI(Int(t))
	case "u":
		return model.LU(Uint(t))
	case "b":
		return Small(t, "b")
	case "s":
		return model.LS(String(t))
	}
	return model.LY(Bytes(t))
}

func Int(t *rapid.T) int64 {
	if Chance(t, 1, 5) {
		return rapid.Int64().Draw(t, "i")
	}
	return Pick(t, Ints...)
}

func Uint(t *rapid.T) uint64 {
	if Chance(t, 1, 5) {
		return rapid.Uint64().Draw(t, "u")
	}
	return Pick(t, Uints...)
}

// Double draws finite doubles without negative zero.
func Double(t *rapid.T) float64 {
	if Chance(t, 1, 5) {
		d := rapid.Float64().Draw(t, "d")
		if math.IsNaN(d) || math.IsInf(d, 0) || d == 0 {
			return 0
		}
		return d
	}
	return Pick(t, Doubles...)
}

// String draws valid UTF-8.
func String(t *rapid.T) string {
	if Chance(t, 1, 5) {
		return rapid.StringN(0, 6, 24).Draw(t, "s")
	}
	return Pick(t, Strs...)
}

func Bytes(t *rapid.T) string {
	if Chance(t, 1, 5) {
		return string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "y"))
	}
	return Pick(t, Byts...)
}

// Types of single values, weighted.
func Type(t *rapid.T) string {
	return Pick(t, "s", "i", "s", "u", "d", "b", "i", "y")
}

// NameLabel draws a node label: usually one of few strings, sometimes an index, sometimes anything.
func NameLabel(t *rapid.T) model.Label {
	switch W(t, 12, 3, 2) {
	case 0:
		return model.LS(Pick(t, "a", "b", "c"))
	case 1:
		return model.LNum(int64(N(t, 3)))
	}
	return AnyLabel(t)
}

// AnyLabel draws a label, readable as none, one or several types.
func AnyLabel(t *rapid.T) model.Label {
	switch W(t, 8, 3, 1, 1) {
	case 0:
		return Const(t, Type(t))
	case 1:
		return model.LNum(Pick(t, int64(0), 1, 2, 3, -1))
	case 2:
		return model.Label{}
	}
	var l model.Label
	for _, typ := range []string{"d", "i", "u", "b", "s", "y"} {
		if Chance(t, 1, 2) {
			l = Merge(l, Small(t, typ))
		}
	}
	return l
}

// Merge adds the types of m to l.
func Merge(l, m model.Label) model.Label {
	if m.D != nil {
		l.D = m.D
	}
	if m.I != nil {
		l.I = m.I
	}
	if m.U != nil {
		l.U = m.U
	}
	if m.B != nil {
		l.B = m.B
	}
	if m.S != nil {
		l.S = m.S
	}
	if m.Y != nil {
		l.Y = m.Y
	}
	return l
}

// Forest draws a random forest of about budget nodes.
func Forest(t *rapid.T, depth, width int) []model.Tree {
	n := N(t, width+1)
	var res []model.Tree
	for i := 0; i < n; i++ {
		tr := model.Tree{L: NameLabel(t)}
		if depth <= 1 || Chance(t, 1, 3) {
			tr.Leaf = !Chance(t, 1, 4)
		} else {
			tr.C = Forest(t, depth-1, width-1)
		}
		res = append(res, tr)
	}
	return res
}
