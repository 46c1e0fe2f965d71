package checks

import (
	"verif/harness/core"
	"verif/harness/docs"
	"verif/harness/gen"
)

// spoiled is a document made large, and then damaged in at most two places.
type spoiled[C any] struct {
	D   C         `json:"d"`
	G   docs.Grow `json:"g"`
	Cut int       `json:"cut,omitempty"` // the part that is kept, of 10000
	At  int       `json:"at,omitempty"`  // where a piece is put, of 10000
	Put core.Str  `json:"put,omitempty"`
	Ins bool      `json:"ins,omitempty"` // the piece is inserted
}

func genSpoiled[C any](t T, gener func(T) C, pieces []string) spoiled[C] {
	d := spoiled[C]{D: gener(t), G: docs.Growth(t)}
	switch gen.W(t, 2, 3, 3, 1) {
	case 1:
		d.Cut = 1 + gen.N(t, 9999)
	case 2:
		d.At, d.Put, d.Ins = gen.N(t, 10001), core.Str(gen.Pick(t, pieces...)), gen.Chance(t, 1, 2)
	case 3:
		d.Cut = 1 + gen.N(t, 9999)
		d.At, d.Put, d.Ins = gen.N(t, 10001), core.Str(gen.Pick(t, pieces...)), gen.Chance(t, 1, 2)
	}
	return d
}

// spoil damages s.
func (d spoiled[C]) spoil(s core.Str) core.Str {
	if d.Cut > 0 {
		s = s[:len(s)*d.Cut/10000]
	}
	if d.Put != "" {
		i := len(s) * d.At / 10000
		end := i
		if !d.Ins {
			end = min(len(s), i+len(d.Put))
		}
		s = s[:i] + d.Put + s[end:]
	}
	return s
}

func init() {
	rule := largeRule + ", then cut, or with a piece replaced or inserted, or left whole"
	core.Register(core.Spec{Prop: "P02", Name: "large", Quick: 3000, Thorough: 150000, Terminates: true,
		Rule: "random JSON documents" + rule + "; judged as in P02/text; non-trivial as there"},
		func(t T) spoiled[jsonCase] {
			return genSpoiled(t, func(t T) jsonCase {
				return jsonCase{core.Str(docs.JSON(t, docs.JConf{Depth: 1 + gen.N(t, 3), Width: 1 + gen.N(t, 3)}))}
			}, docs.JSONAlphabet)
		},
		func(c spoiled[jsonCase], o *core.Obs) error {
			x := growJSON(c.D, c.G)
			x.S = c.spoil(x.S)
			return runBadJSON(x, o)
		})
	core.Register(core.Spec{Prop: "P04", Name: "large", Quick: 3000, Thorough: 150000, Terminates: true,
		Rule: "random messages" + rule + "; judged as in P04/messages; non-trivial as there"},
		func(t T) spoiled[protoCase] { return genSpoiled(t, genProto, docs.ProtoBytes) },
		func(c spoiled[protoCase], o *core.Obs) error {
			x := growProto(c.D, c.G)
			x.B = c.spoil(x.B)
			return runBadProto(x, o)
		})
	core.Register(core.Spec{Prop: "P12", Name: "large", Quick: 3000, Thorough: 150000, Terminates: true,
		Rule: "random messages" + rule + "; judged as in P12/messages; non-trivial as there"},
		func(t T) spoiled[protoCase] { return genSpoiled(t, genProto, docs.ProtoBytes) },
		func(c spoiled[protoCase], o *core.Obs) error {
			x := growProto(c.D, c.G)
			x.B = c.spoil(x.B)
			return runLatent(x, o)
		})
	core.Register(core.Spec{Prop: "P06", Name: "large", Quick: 2000, Thorough: 100000, Terminates: true,
		Rule: "random XML documents" + rule + "; judged as in P06/text; non-trivial as there"},
		func(t T) spoiled[docs.XDoc] {
			d := genSpoiled(t, genXML, docs.XMLAlphabet)
			return d
		},
		func(c spoiled[docs.XDoc], o *core.Obs) error {
			return runBadXML(xmlBad{S: c.spoil(core.Str(c.D.Grow(c.G).Text()))}, o)
		})
}
