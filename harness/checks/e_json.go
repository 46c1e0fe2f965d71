package checks

import (
	"encoding/base64"
	"encoding/json"
	"math"
	"sort"
	"unicode/utf8"

	ejson "github.com/katydid/katydid/encode/json"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

// jsonView is the tree that the JSON of a forest denotes, with members sorted by name, and whether the forest
// has a JSON counterpart: one value, members with different names, or elements; strings of valid UTF-8.
// finite is false when a number has no JSON notation.
func jsonView(ts []model.Tree) (view []model.Tree, ok, finite bool) {
	finite = true
	if len(ts) == 1 && ts[0].Leaf {
		l := ts[0].L
		var x model.Label
		num := func(v any) {
			b, err := json.Marshal(v)
			if err != nil {
				finite = false
				return
			}
			x = docs.NumberLabel(string(b))
		}
		switch {
		case l.I != nil:
			num(*l.I)
		case l.U != nil:
			num(*l.U)
		case l.D != nil:
			num(float64(*l.D))
		case l.B != nil:
			x = model.LB(*l.B)
		case l.S != nil:
			if !utf8.ValidString(string(*l.S)) {
				return nil, false, true
			}
			x = model.LS(string(*l.S))
		case l.Y != nil:
			x = model.LS(base64.StdEncoding.EncodeToString([]byte(*l.Y)))
		}
		return []model.Tree{{L: x, Leaf: true}}, true, finite
	}
	names := map[string]bool{}
	lists := 0
	for i, t := range ts {
		if t.Leaf {
			return nil, false, true
		}
		l := model.LI(int64(i))
		if t.L.I == nil {
			if t.L.S == nil || names[string(*t.L.S)] || !utf8.ValidString(string(*t.L.S)) {
				return nil, false, true
			}
			l = model.LS(string(*t.L.S))
			names[string(*t.L.S)] = true
		} else {
			lists++
		}
		c, ok, fin := jsonView(t.C)
		if !ok {
			return nil, false, true
		}
		finite = finite && fin
		view = append(view, model.Tree{L: l, C: c})
	}
	if lists != 0 && lists != len(ts) {
		return nil, false, true
	}
	sortMembers(view)
	return view, true, finite
}

func sortMembers(ts []model.Tree) {
	if len(ts) > 0 && ts[0].L.S != nil && !ts[0].Leaf {
		sort.SliceStable(ts, func(i, j int) bool { return *ts[i].L.S < *ts[j].L.S })
	}
}

func sortAll(ts []model.Tree) []model.Tree {
	ts = model.CloneForest(ts)
	var f func(ts []model.Tree)
	f = func(ts []model.Tree) {
		for i := range ts {
			f(ts[i].C)
		}
		sortMembers(ts)
	}
	f(ts)
	return ts
}

func genEncodeJSON(t T) anyDoc {
	var d anyDoc
	switch gen.W(t, 4, 3, 3, 1) {
	case 0:
		x := jsonCase{docs.JSON(t, docs.JConf{Depth: 1 + gen.N(t, 4), Width: 1 + gen.N(t, 4), Plain: gen.Chance(t, 1, 2)})}
		d.Json = &x
	case 1:
		s := docs.Schema(t, docs.PConf{})
		d.Proto = &protoCase{s, docs.Message(t, s, 1+gen.N(t, 3), docs.PEnc{Legal: true, NaN: gen.Chance(t, 1, 8)})}
	case 2:
		x := genReflect(t)
		d.Refl = &x
	default:
		x := genYAML(t)
		d.Yaml = &x
	}
	return d
}

func runEncodeJSON(d anyDoc, o *core.Obs) error {
	ts, err := d.tree()
	if err != nil {
		return &core.HarnessError{Msg: err.Error()}
	}
	want, ok, finite := jsonView(ts)
	if !ok {
		o.Label("no counterpart")
		return nil
	}
	p, err := d.open()
	if err != nil {
		return errf("open: %v\ndocument: %s", err, d.show())
	}
	out, err := ejson.Encode(p)
	if !finite {
		o.Label("not finite")
		if err == nil {
			return errf("a number without JSON notation is encoded: %s\ndocument: %s", out, d.show())
		}
		return nil
	}
	if err != nil {
		return errf("encoding fails: %v\n%s document: %s", err, d.format(), d.show())
	}
	got, err := docs.JSONTree(out)
	if err != nil {
		return errf("the output is not JSON: %v\noutput: %s\n%s document: %s", err, out, d.format(), d.show())
	}
	if diff := model.DiffForest(want, sortAll(got)); diff != "" {
		return errf("%s\noutput: %s\n%s document: %s\nwant %s", diff, out, d.format(), d.show(), model.ForestString(want))
	}
	o.NonTrivialIf(model.Size(ts) > 2)
	o.Label(d.format())
	o.Sample("%s", out)
	return nil
}

type encTree struct {
	Ts   []model.Tree `json:"ts"`
	Fail int          `json:"fail,omitempty"`
}

// jsonTree draws a tree with a JSON counterpart, of labels of every type.
func jsonTree(t T, depth int) []model.Tree {
	leaf := func() []model.Tree {
		var l model.Label
		switch gen.N(t, 7) {
		case 0:
			l = model.LS(gen.Pick(t, gen.Strs...))
		case 1:
			l = model.LI(gen.Pick(t, gen.Ints...))
		case 2:
			l = model.LU(gen.Pick(t, gen.Uints...))
		case 3:
			l = model.LD(gen.Pick(t, append([]float64{1e20, 1e21, 1e-6, 1e-7, 1 << 63, -(1 << 63), math.MaxFloat64}, gen.Doubles...)...))
		case 4:
			l = model.LB(gen.Chance(t, 1, 2))
		case 5:
			l = model.LY(gen.Pick(t, gen.Byts...))
		}
		return []model.Tree{{L: l, Leaf: true}}
	}
	if depth <= 0 || gen.Chance(t, 1, 4) {
		return leaf()
	}
	var ts []model.Tree
	list := gen.Chance(t, 1, 3)
	for i, n := 0, gen.N(t, 5); i < n; i++ {
		l := model.LS(gen.Strs[(i*7+n)%len(gen.Strs)])
		if list {
			l = model.LI(int64(i))
		}
		ts = append(ts, model.Tree{L: l, C: jsonTree(t, depth-1)})
	}
	return ts
}

func runEncodeJSONTree(c encTree, o *core.Obs) error {
	want, ok, finite := jsonView(c.Ts)
	if !ok || !finite {
		return &core.HarnessError{Msg: "generated tree has no JSON counterpart: " + model.ForestString(c.Ts)}
	}
	p := model.NewTreeParser(c.Ts)
	out, err := ejson.Encode(p)
	if err != nil {
		return errf("encoding fails: %v\ntree: %s", err, model.ForestString(c.Ts))
	}
	if p.Breach != "" {
		return errf("the encoder breaks the protocol of the parser: %s\ntree: %s", p.Breach, model.ForestString(c.Ts))
	}
	got, err := docs.JSONTree(out)
	if err != nil {
		return errf("the output is not JSON: %v\noutput: %s\ntree: %s", err, out, model.ForestString(c.Ts))
	}
	if diff := model.DiffForest(want, sortAll(got)); diff != "" {
		return errf("%s\noutput: %s\ntree: %s\nwant %s", diff, out, model.ForestString(c.Ts), model.ForestString(want))
	}
	o.NonTrivialIf(model.Size(c.Ts) > 2)
	o.Sample("%s", out)
	return nil
}

func init() {
	core.Register(core.Spec{Prop: "E01", Name: "documents", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random JSON and YAML documents, protobuf messages and Go values through their parsers into JSON; the output, read by encoding/json, denotes the tree of the document with members sorted by name (bytes in base64); documents without a JSON counterpart (equal names, values next to nodes) are skipped, numbers without notation must be an error; non-trivial: more than 2 nodes"},
		genEncodeJSON, runEncodeJSON)
	core.Register(core.Spec{Prop: "E01", Name: "trees", Quick: 40000, Thorough: 2000000, Terminates: true,
		Rule: "random trees with a JSON counterpart, labels of every type, presented by a parser that monitors its protocol; the output, read by encoding/json, denotes the tree; non-trivial: more than 2 nodes"},
		func(t T) encTree { return encTree{Ts: jsonTree(t, 1+gen.N(t, 4))} }, runEncodeJSONTree)
}
