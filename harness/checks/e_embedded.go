package checks

import (
	"reflect"

	ereflect "github.com/katydid/katydid/encode/reflect"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// Types with fields that are not simply fields: promoted ones, unexported ones, ones of kinds that hold no value.
type (
	// EmbIn is embedded as a value.
	EmbIn struct {
		A int64
		B string
		S []int32
	}
	// EmbPtr is embedded as a pointer.
	EmbPtr struct {
		C uint64
		D []byte
	}
	embLow struct {
		X bool
		y int64
	}
	// Emb is the type that is encoded into.
	Emb struct {
		EmbIn
		*EmbPtr
		embLow
		F      float64
		hidden string
		M      map[string]int64
		G      func()
		I      interface{}
		Arr    [2]int64
		Sub    *Emb
		Subs   []Emb
	}
)

type embItem struct {
	N string    `json:"n"`
	V int64     `json:"v,omitempty"`
	S core.Str  `json:"s,omitempty"`
	C []embItem `json:"c,omitempty"`
}

type embCase struct {
	Items []embItem `json:"items"`
}

func genEmb(t T, depth int) []embItem {
	var r []embItem
	seen := map[string]bool{}
	for i := gen.N(t, 6); i > 0; i-- {
		n := gen.Pick(t, "A", "B", "S", "C", "D", "X", "F", "EmbIn", "EmbPtr", "Sub", "Subs", "A", "C", "X", "y", "embLow", "hidden", "M", "G", "I", "Arr", "Nope", "a")
		if seen[n] || depth <= 0 && (n == "Sub" || n == "Subs") {
			continue
		}
		seen[n] = true
		it := embItem{N: n, V: gen.Pick(t, int64(0), 1, -1, 7, 1<<31-1), S: core.Str(gen.Pick(t, gen.Strs...))}
		switch n {
		case "EmbIn", "EmbPtr":
			for _, f := range map[string][]string{"EmbIn": {"A", "B", "S"}, "EmbPtr": {"C", "D"}}[n] {
				seen[f] = seen[f] || n == "EmbIn"
				if gen.Chance(t, 1, 2) {
					it.C = append(it.C, embItem{N: f, V: it.V, S: it.S})
				}
			}
			if seen["A"] || seen["B"] || seen["S"] {
				seen["EmbIn"] = true
			}
		case "A", "B", "S":
			seen["EmbIn"] = true
		case "Sub":
			it.C = genEmb(t, depth-1)
		case "Subs":
			for j := gen.N(t, 3); j > 0; j-- {
				it.C = append(it.C, embItem{C: genEmb(t, depth-1)})
			}
		}
		r = append(r, it)
	}
	return r
}

// embTree is the tree of the items together with the value they describe in w.
// bad: there is no such value. may: an error is as good as the value.
func embTree(items []embItem, w *Emb) (ts []model.Tree, bad, may bool) {
	leaf := func(l model.Label) []model.Tree { return []model.Tree{{L: l, Leaf: true}} }
	for _, it := range items {
		var c []model.Tree
		switch it.N {
		case "A":
			w.A, c = it.V, leaf(model.LI(it.V))
		case "B":
			w.B, c = string(it.S), leaf(model.LS(string(it.S)))
		case "S":
			w.S = []int32{int32(it.V), 3}
			c = []model.Tree{{L: model.LI(0), C: leaf(model.LI(it.V))}, {L: model.LI(1), C: leaf(model.LI(3))}}
		case "C", "D":
			if w.EmbPtr == nil { // making the embedded value and refusing are both fine
				may = true
				w.EmbPtr = &EmbPtr{}
			}
			if it.N == "C" {
				w.C, c = uint64(it.V), leaf(model.LU(uint64(it.V)))
			} else {
				w.D, c = []byte(it.S), leaf(model.LY(string(it.S)))
			}
		case "X":
			w.X, c = it.V > 0, leaf(model.LB(it.V > 0))
		case "F":
			w.F, c = float64(it.V), leaf(model.LD(float64(it.V)))
		case "EmbIn":
			var in Emb
			c, _, _ = embTree(it.C, &in)
			w.EmbIn = in.EmbIn
		case "EmbPtr":
			in := Emb{EmbPtr: &EmbPtr{}}
			c, _, _ = embTree(it.C, &in)
			w.EmbPtr = in.EmbPtr
		case "Sub":
			w.Sub = &Emb{}
			var b, m bool
			c, b, m = embTree(it.C, w.Sub)
			bad, may = bad || b, may || m
		case "Subs":
			w.Subs = []Emb{}
			for i, e := range it.C {
				var x Emb
				cc, b, m := embTree(e.C, &x)
				bad, may = bad || b, may || m
				w.Subs = append(w.Subs, x)
				c = append(c, model.Tree{L: model.LI(int64(i)), C: cc})
			}
		case "y", "hidden", "embLow": // unexported fields are nobody's business
			may = true
			c = leaf(model.LI(it.V))
		case "M", "G", "I", "Arr":
			bad = true
			c = leaf(model.LI(it.V))
		default:
			c = leaf(model.LI(it.V))
		}
		ts = append(ts, model.Tree{L: model.LS(it.N), C: c})
	}
	return ts, bad, may
}

func runEmb(c embCase, o *core.Obs) error {
	var want Emb
	ts, bad, may := embTree(c.Items, &want)
	var out Emb
	p := model.NewTreeParser(ts)
	err := ereflect.Encode(p, &out)
	show := model.ForestString(ts)
	o.NonTrivialIf(len(c.Items) > 1)
	o.LabelIf(bad, "no value")
	o.LabelIf(may, "error allowed")
	o.Sample("%s: %v", show, err)
	if p.Breach != "" {
		return errf("the encoder breaks the protocol of the parser: %s\n%s", p.Breach, show)
	}
	if err != nil {
		if !bad && !may {
			return errf("encoding fails: %v\n%s", err, show)
		}
		return nil
	}
	if bad {
		return errf("a value is stored in a field that can not hold it: %s", show)
	}
	if !reflect.DeepEqual(&want, &out) {
		return errf("want %+v, got %+v\n%s", want, out, show)
	}
	// something that is no pointer to a struct is refused
	for _, v := range []interface{}{nil, Emb{}, (*Emb)(nil), &[]int64{}, new(int64), map[string]int64{}} {
		if e := embRefuse(ts, v); e != nil {
			return e
		}
	}
	return nil
}

func embRefuse(ts []model.Tree, v interface{}) (err error) {
	defer func() {
		if r := recover(); r != nil && v != nil {
			err = errf("encoding into %T panics: %v", v, r)
		}
	}()
	if e := ereflect.Encode(model.NewTreeParser(ts), v); e == nil {
		return errf("encoding into %T succeeds", v)
	}
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "E03", Name: "embedded", Quick: 20000, Thorough: 1000000, Terminates: true,
		Rule: "random documents for a recursive Go type with embedded structs (exported, unexported, a nil pointer), unexported fields and fields of kinds that hold no value: the promoted fields hold the values of the document, a value for a field that can not hold it is an error, nothing panics, and anything but a pointer to a struct is refused; non-trivial: more than 1 field"},
		func(t T) embCase { return embCase{genEmb(t, 3)} }, runEmb)
}
