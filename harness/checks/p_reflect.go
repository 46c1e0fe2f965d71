package checks

import (
	"reflect"

	"github.com/katydid/katydid/parser"
	sreflect "github.com/katydid/katydid/parser/reflect"

	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
	"verif/harness/model"
)

func genReflect(t T) docs.RDoc {
	c := docs.RConf{Depth: gen.N(t, 4), Width: 1 + gen.N(t, 4), Unreadable: true}
	ty := docs.ReflectType(t, c)
	switch gen.W(t, 6, 2, 1, 1) {
	case 0:
		ty = docs.RType{K: "ptr", E: &docs.RType{K: ty.K, F: ty.F}}
	case 2:
		ty = docs.RType{K: gen.Pick(t, "rec", "rec", "n0", "n1", "n2", "n3", "n4", "n5", "n6")}
	case 3:
		ty = docs.RType{K: "slice", E: &docs.RType{K: ty.K, F: ty.F}}
	}
	v := docs.ReflectValue(t, ty, 2+gen.N(t, 5))
	if v.Nil {
		v = docs.RVal{}
		if ty.K == "ptr" {
			v.C = []docs.RVal{docs.ReflectValue(t, *ty.E, 5)}
		}
	}
	return docs.RDoc{T: ty, V: v}
}

func runReflect(d docs.RDoc, o *core.Obs) error {
	v := d.Go()
	want := d.Tree()
	size := model.Size(want)
	for _, k := range docs.Namesakes { // values of types with the same name came before
		if !d.T.HasNamesake() {
			continue
		}
		n := docs.RDoc{T: docs.RType{K: k}}
		n.V = docs.Zero(n.T)
		p := sreflect.NewReflectParser()
		p.Init(n.Go())
		if err := compareFull(p, n.Tree(), 10); err != nil {
			return errf("%v\nvalue: %v", err, n)
		}
	}
	p := sreflect.NewReflectParser()
	p.Init(v)
	if err := compareFull(p, want, size); err != nil {
		return errf("%v\nvalue: %v", err, d)
	}
	if !reflect.DeepEqual(v.Interface(), d.Go().Interface()) && !hasFunc(d.T) {
		return errf("the value was changed\nvalue: %v", d)
	}
	o.NonTrivialIf(size > 2)
	o.LabelIf(model.Depth(want) > 4, "deep")
	o.Sample("%v", d)
	return nil
}

func hasFunc(t docs.RType) bool {
	if t.K == "func" {
		return true
	}
	for _, f := range t.F {
		if hasFunc(f.T) {
			return true
		}
	}
	return t.E != nil && hasFunc(*t.E)
}

func init() {
	registerFormat(format[docs.RDoc]{
		name: "reflect",
		gen:  genReflect,
		more: func(t T, _ docs.RDoc) docs.RDoc { return genReflect(t) },
		open: func(d docs.RDoc) (parser.Interface, error) {
			p := sreflect.NewReflectParser()
			p.Init(d.Go())
			return p, nil
		},
		again: func(p parser.Interface, d docs.RDoc) error { p.(sreflect.ReflectParser).Init(d.Go()); return nil },
		want:  func(d docs.RDoc) ([]model.Tree, error) { return d.Tree(), nil },
		show:  docs.RDoc.String,
		n:     [4]int{20000, 300000, 10000, 150000},
	})
	core.Register(core.Spec{Prop: "P07", Name: "values", Quick: 40000, Thorough: 600000, Terminates: true,
		Rule: "random Go types (built by reflection: structs, pointers, slices, slices of slices, all readable scalar kinds, some that are not readable; and fixed types: a recursive one with embedded and unexported fields and named types, and several that have the same name) with random values; the full walk is compared with the tree of non-nil fields and elements, every label in all six types; non-trivial: more than 2 nodes"},
		genReflect, runReflect)
}
