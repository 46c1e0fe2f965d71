package checks

import (
	"errors"
	"strings"

	"github.com/katydid/katydid/relapse/funcs"

	"verif/harness/model"
)

// The functions that the checks register with the code under test (see model/user.go for what they compute).

var errUser = errors.New("user function failed")

func toVal(x any) model.Val {
	list := func(t string, n int, at func(int) any) model.Val {
		v := model.Val{T: t, L: []model.Val{}}
		for i := 0; i < n; i++ {
			v.L = append(v.L, toVal(at(i)))
		}
		return v
	}
	switch x := x.(type) {
	case float64:
		return model.Val{T: "d", D: x}
	case int64:
		return model.Val{T: "i", I: x}
	case uint64:
		return model.Val{T: "u", U: x}
	case bool:
		return model.Val{T: "b", B: x}
	case string:
		return model.Val{T: "s", S: x}
	case []byte:
		return model.Val{T: "y", S: string(x)}
	case []float64:
		return list("ld", len(x), func(i int) any { return x[i] })
	case []int64:
		return list("li", len(x), func(i int) any { return x[i] })
	case []uint64:
		return list("lu", len(x), func(i int) any { return x[i] })
	case []bool:
		return list("lb", len(x), func(i int) any { return x[i] })
	case []string:
		return list("ls", len(x), func(i int) any { return x[i] })
	case [][]byte:
		return list("ly", len(x), func(i int) any { return x[i] })
	}
	panic("harness: no such value")
}

func fromVals[E any](vs []model.Val) []E {
	r := make([]E, len(vs))
	for i := range vs {
		r[i] = fromVal(vs[i]).(E)
	}
	return r
}

func fromVal(v model.Val) any {
	switch v.T {
	case "d":
		return v.D
	case "i":
		return v.I
	case "u":
		return v.U
	case "b":
		return v.B
	case "s":
		return v.S
	case "y":
		return []byte(v.S)
	case "ld":
		return fromVals[float64](v.L)
	case "li":
		return fromVals[int64](v.L)
	case "lu":
		return fromVals[uint64](v.L)
	case "lb":
		return fromVals[bool](v.L)
	case "ls":
		return fromVals[string](v.L)
	}
	return fromVals[[]byte](v.L)
}

type fn[V any] interface {
	funcs.Func
	Eval() (V, error)
}

// ubase is what the registered functions share; fields with an Eval method hold their parameters.
type ubase struct {
	name    string
	out     string
	hash    uint64
	args    []funcs.Func
	context *funcs.Context
	ctxFn   bool
}

func newBase(name, out string, args ...funcs.Func) ubase {
	hs := make([]funcs.Hashable, len(args))
	for i := range args {
		hs[i] = args[i]
	}
	return ubase{name: name, out: out, hash: funcs.Hash(name, hs...), args: args, ctxFn: strings.HasPrefix(name, "ctx_")}
}

func (u *ubase) base() *ubase { return u }
func (u *ubase) Hash() uint64 { return u.hash }
func (u *ubase) String() string {
	ss := make([]string, len(u.args))
	for i := range u.args {
		ss[i] = u.args[i].String()
	}
	return u.name + "(" + strings.Join(ss, ",") + ")"
}
func (u *ubase) HasVariable() bool {
	if u.ctxFn {
		return true
	}
	for _, a := range u.args {
		if a.HasVariable() {
			return true
		}
	}
	return false
}
func (u *ubase) Compare(that funcs.Comparable) int {
	if u.Hash() != that.Hash() {
		if u.Hash() < that.Hash() {
			return -1
		}
		return 1
	}
	other, ok := that.(interface{ base() *ubase })
	if !ok || other.base().name != u.name || len(other.base().args) != len(u.args) {
		return strings.Compare(u.String(), that.String())
	}
	for i := range u.args {
		if c := u.args[i].Compare(other.base().args[i]); c != 0 {
			return c
		}
	}
	return 0
}
func (u *ubase) run(args ...any) (any, error) {
	vs := make([]model.Val, len(args))
	for i := range args {
		vs[i] = toVal(args[i])
	}
	var ctx int64
	if u.context != nil {
		ctx = u.context.Value.(int64)
	}
	v := model.UserApply(u.name, u.out, ctx, vs)
	if v.Err {
		return nil, errUser
	}
	return fromVal(v), nil
}

func result[O any](x any, err error) (O, error) {
	if err != nil {
		var zero O
		return zero, err
	}
	return x.(O), nil
}

type u0[O any] struct{ ubase }

func (u *u0[O]) Eval() (O, error) { return result[O](u.run()) }

type u1[A fn[AV], AV, O any] struct {
	ubase
	P A
}

func (u *u1[A, AV, O]) Eval() (O, error) {
	a, err := u.P.Eval()
	if err != nil {
		return result[O](nil, err)
	}
	return result[O](u.run(a))
}

type u2[A fn[AV], B fn[BV], AV, BV, O any] struct {
	ubase
	P A
	Q B
}

func (u *u2[A, B, AV, BV, O]) Eval() (O, error) {
	a, err := u.P.Eval()
	if err != nil {
		return result[O](nil, err)
	}
	b, err := u.Q.Eval()
	if err != nil {
		return result[O](nil, err)
	}
	return result[O](u.run(a, b))
}

type u3[A fn[AV], B fn[BV], C fn[CV], AV, BV, CV, O any] struct {
	ubase
	P A
	Q B
	R C
}

func (u *u3[A, B, C, AV, BV, CV, O]) Eval() (O, error) {
	a, err := u.P.Eval()
	if err != nil {
		return result[O](nil, err)
	}
	b, err := u.Q.Eval()
	if err != nil {
		return result[O](nil, err)
	}
	c, err := u.R.Eval()
	if err != nil {
		return result[O](nil, err)
	}
	return result[O](u.run(a, b, c))
}

// context variants implement SetContext
type c1[A fn[AV], AV, O any] struct { // the parameter is a direct field, as FuncImplements looks at these
	ubase
	P A
}

func (u *c1[A, AV, O]) Eval() (O, error) {
	a, err := u.P.Eval()
	if err != nil {
		return result[O](nil, err)
	}
	return result[O](u.run(a))
}
func (u *c1[A, AV, O]) SetContext(c *funcs.Context) { u.context = c }

type c0[O any] struct{ ubase }

func (u *c0[O]) Eval() (O, error)            { return result[O](u.run()) }
func (u *c0[O]) SetContext(c *funcs.Context) { u.context = c }

func reg0[O any](out string) {
	funcs.Register("uf_"+out, func() *u0[O] { return &u0[O]{newBase("uf_"+out, out)} })
	funcs.Register("ctx_"+out, func() *c0[O] { return &c0[O]{newBase("ctx_"+out, out)} })
	reg1[funcs.Double, float64, O](out)
	reg1[funcs.Int, int64, O](out)
	reg1[funcs.Uint, uint64, O](out)
	reg1[funcs.Bool, bool, O](out)
	reg1[funcs.String, string, O](out)
	reg1[funcs.Bytes, []byte, O](out)
	reg1[funcs.Doubles, []float64, O](out)
	reg1[funcs.Ints, []int64, O](out)
	reg1[funcs.Uints, []uint64, O](out)
	reg1[funcs.Bools, []bool, O](out)
	reg1[funcs.Strings, []string, O](out)
	reg1[funcs.ListOfBytes, [][]byte, O](out)
}

func reg1[A fn[AV], AV, O any](out string) {
	name := "uf_" + out
	funcs.Register(name, func(a A) *u1[A, AV, O] { return &u1[A, AV, O]{newBase(name, out, a), a} })
	if sameType[AV, O]() {
		funcs.Register("ctx_"+out, func(a A) *c1[A, AV, O] { return &c1[A, AV, O]{newBase("ctx_"+out, out, a), a} })
	}
}

func sameType[A, B any]() bool {
	_, ok := any((*A)(nil)).(*B)
	return ok
}

func reg2a[O any](out string) {
	reg2b[funcs.Double, float64, O](out)
	reg2b[funcs.Int, int64, O](out)
	reg2b[funcs.Uint, uint64, O](out)
	reg2b[funcs.Bool, bool, O](out)
	reg2b[funcs.String, string, O](out)
	reg2b[funcs.Bytes, []byte, O](out)
	reg2b[funcs.Doubles, []float64, O](out)
	reg2b[funcs.Ints, []int64, O](out)
	reg2b[funcs.Uints, []uint64, O](out)
	reg2b[funcs.Bools, []bool, O](out)
	reg2b[funcs.Strings, []string, O](out)
	reg2b[funcs.ListOfBytes, [][]byte, O](out)
}

func reg2b[A fn[AV], AV, O any](out string) {
	reg2[A, funcs.Double, AV, float64, O](out)
	reg2[A, funcs.Int, AV, int64, O](out)
	reg2[A, funcs.Uint, AV, uint64, O](out)
	reg2[A, funcs.Bool, AV, bool, O](out)
	reg2[A, funcs.String, AV, string, O](out)
	reg2[A, funcs.Bytes, AV, []byte, O](out)
	reg2[A, funcs.Doubles, AV, []float64, O](out)
	reg2[A, funcs.Ints, AV, []int64, O](out)
	reg2[A, funcs.Uints, AV, []uint64, O](out)
	reg2[A, funcs.Bools, AV, []bool, O](out)
	reg2[A, funcs.Strings, AV, []string, O](out)
	reg2[A, funcs.ListOfBytes, AV, [][]byte, O](out)
}

func reg2[A fn[AV], B fn[BV], AV, BV, O any](out string) {
	name := "uf_" + out
	funcs.Register(name, func(a A, b B) *u2[A, B, AV, BV, O] {
		return &u2[A, B, AV, BV, O]{newBase(name, out, a, b), a, b}
	})
}

func reg3[B fn[BV], BV any]() {
	funcs.Register("uf_s", func(a funcs.Int, b B, c funcs.Bools) *u3[funcs.Int, B, funcs.Bools, int64, BV, []bool, string] {
		return &u3[funcs.Int, B, funcs.Bools, int64, BV, []bool, string]{newBase("uf_s", "s", a, b, c), a, b, c}
	})
}

var errRefused = errors.New("user function refuses its constant")

func regRefusing[O any](out string) {
	name := "ufc_" + out
	funcs.Register(name, func(a funcs.String) (*u1[funcs.String, string, O], error) {
		if !a.HasVariable() {
			if v, err := a.Eval(); err == nil && v == "b" {
				return nil, errRefused
			}
		}
		return &u1[funcs.String, string, O]{newBase(name, out, a), a}, nil
	})
}

func init() {
	reg0[float64]("d")
	reg0[int64]("i")
	reg0[uint64]("u")
	reg0[bool]("b")
	reg0[string]("s")
	reg0[[]byte]("y")
	reg0[[]float64]("ld")
	reg0[[]int64]("li")
	reg0[[]uint64]("lu")
	reg0[[]bool]("lb")
	reg0[[]string]("ls")
	reg0[[][]byte]("ly")
	reg2a[bool]("b")
	reg2a[int64]("i")
	reg3[funcs.Double, float64]()
	reg3[funcs.Int, int64]()
	reg3[funcs.Uint, uint64]()
	reg3[funcs.Bool, bool]()
	reg3[funcs.String, string]()
	reg3[funcs.Bytes, []byte]()
	reg3[funcs.Doubles, []float64]()
	reg3[funcs.Ints, []int64]()
	reg3[funcs.Uints, []uint64]()
	reg3[funcs.Bools, []bool]()
	reg3[funcs.Strings, []string]()
	reg3[funcs.ListOfBytes, [][]byte]()
	regRefusing[bool]("b")
	regRefusing[string]("s")
	funcs.Register("UF_s", func(a funcs.String) *u1[funcs.String, string, string] {
		return &u1[funcs.String, string, string]{newBase("UF_s", "s", a), a}
	})
}
