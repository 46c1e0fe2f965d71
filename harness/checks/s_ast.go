package checks

import (
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"go/token"
	"math"
	"reflect"
	"strconv"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
	rparser "github.com/katydid/katydid/relapse/parser"
	"github.com/katydid/katydid/relapse/types"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/model"
)

// reach visits every value below v, with the fields that lead to it.
func reach(v reflect.Value, path string, f func(path string, v reflect.Value)) {
	f(path, v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			reach(v.Elem(), path, f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			reach(v.Field(i), path+"."+v.Type().Field(i).Name, f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			reach(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), f)
		}
	}
}

// memory collects the mutable memory below v.
func memory(v interface{}) map[uintptr]string {
	m := map[uintptr]string{}
	reach(reflect.ValueOf(v), "", func(path string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Map:
			if !v.IsNil() && (v.Kind() == reflect.Map || v.Type().Elem().Size() > 0) {
				m[v.Pointer()] = path
			}
		case reflect.Slice:
			if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
				m[v.Pointer()] = path
			}
		}
	})
	return m
}

func unshared(what string, a, b interface{}) error {
	m := memory(a)
	for p, path := range memory(b) {
		if q, ok := m[p]; ok {
			return errf("%s: the clone's %s is the original's %s", what, path, q)
		}
	}
	return nil
}

type astTextCase struct {
	G      *model.Grammar `json:"g"`
	T      gen.Text       `json:"t"`
	Build  bool           `json:"build,omitempty"` // with the constructor functions
	Format bool           `json:"format,omitempty"`
	Sites  []int          `json:"sites,omitempty"`
}

func genAstText(t T) astTextCase {
	c := genGText(t)
	r := astTextCase{G: c.G, T: c.T, Build: gen.Chance(t, 1, 4), Format: gen.Chance(t, 1, 5)}
	for n := 1 + gen.N(t, 4); n > 0; n-- {
		r.Sites = append(r.Sites, gen.N(t, 1000))
	}
	return r
}

func (c astTextCase) grammar() (*ast.Grammar, error) {
	var g *ast.Grammar
	if c.Build {
		g = c.G.ToAST()
	} else {
		var err error
		if g, err = rparser.ParseGrammar(string(c.T.S)); err != nil {
			return nil, err
		}
	}
	if c.Format {
		g.Format()
	}
	return g, nil
}

func runClone(c astTextCase, o *core.Obs) error {
	g, err := c.grammar()
	if err != nil {
		return err
	}
	text := g.String()
	h := g.Clone()
	if !reflect.DeepEqual(g, h) {
		return errf("the clone differs: %s\ngrammar: %q\nclone:   %q", diffAt(g, h), text, h.String())
	}
	if err := unshared("Grammar", g, h); err != nil {
		return errf("%v\ngrammar: %q", err, text)
	}
	if !g.Equal(h) || !h.Equal(g) {
		return errf("the clone is not equal\ngrammar: %q", text)
	}
	refs := ast.NewRefLookup(g)
	want := map[string]*ast.Pattern{}
	for _, d := range g.PatternDecls {
		want[d.Name] = d.Pattern
	}
	if g.TopPattern != nil {
		want["main"] = g.TopPattern
	}
	if len(refs) != len(want) {
		return errf("the lookup has %d names, want %d\ngrammar: %q", len(refs), len(want), text)
	}
	for n, p := range want {
		if refs[n] != p {
			return errf("the lookup of %s is another pattern\ngrammar: %q", n, text)
		}
	}
	refs2 := refs.Clone()
	if !reflect.DeepEqual(refs, refs2) {
		return errf("the clone of the lookup differs\ngrammar: %q", text)
	}
	if err := unshared("RefLookup", refs, refs2); err != nil {
		return errf("%v\ngrammar: %q", err, text)
	}
	for n, p := range refs {
		q := p.Clone()
		if !reflect.DeepEqual(p, q) || !p.Equal(q) || !q.Equal(p) || p.Compare(q) != 0 || p.Hash() != q.Hash() {
			return errf("the clone of pattern %s differs\ngrammar: %q", n, text)
		}
		if err := unshared("Pattern", p, q); err != nil {
			return errf("%v\ngrammar: %q", err, text)
		}
	}
	var bad error
	exprsOf(g, func(e *ast.Expr) {
		f := e.Clone()
		if !reflect.DeepEqual(e, f) {
			bad = errf("the clone of an expression differs: %s\n%q", diffAt(e, f), e.String())
		} else if err := unshared("Expr", e, f); err != nil {
			bad = errf("%v\nexpression: %q", err, e.String())
		}
	})
	if bad != nil {
		return bad
	}
	// whatever is done to the clone leaves the original as it is
	copied := g.Clone()
	h.Format()
	for _, s := range c.Sites {
		mutateAST(reflect.ValueOf(h), s)
	}
	if !reflect.DeepEqual(g, copied) || g.String() != text {
		return errf("changing the clone changed the original\nbefore: %q\nafter:  %q", text, g.String())
	}
	o.NonTrivialIf(c.G.Size() > 2)
	o.Sample("%q", text)
	return nil
}

func diffAt(a, b interface{}) string {
	vals := map[string]string{}
	show := func(v reflect.Value) string {
		switch v.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map:
			return fmt.Sprint("nil=", v.IsNil())
		case reflect.Struct:
			return "struct"
		}
		return fmt.Sprint(v.Interface())
	}
	reach(reflect.ValueOf(a), "", func(p string, v reflect.Value) { vals[p+v.Kind().String()] = show(v) })
	res := "a part is missing"
	reach(reflect.ValueOf(b), "", func(p string, v reflect.Value) {
		if w := vals[p+v.Kind().String()]; w != show(v) {
			res = fmt.Sprintf("%s is %s, want %s", p, show(v), w)
		}
	})
	return res
}

func exprsOf(g *ast.Grammar, f func(*ast.Expr)) {
	seen := map[uintptr]bool{}
	reach(reflect.ValueOf(g), "", func(_ string, v reflect.Value) {
		if e, ok := v.Interface().(*ast.Expr); ok && e != nil && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			f(e)
		}
	})
}

// mutateAST changes one part of an AST and names it ("" if there was nothing to change).
// It changes no text of a literal, which is not part of a grammar's meaning.
func mutateAST(root reflect.Value, site int) string {
	type cand struct {
		path string
		do   func()
	}
	var cs []cand
	add := func(p string, f func()) { cs = append(cs, cand{p, f}) }
	lit := reflect.TypeOf(ast.Terminal{})
	var visit func(v reflect.Value, path string)
	visit = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			if v.CanSet() {
				add(path+"=nil", func() { v.Set(reflect.Zero(v.Type())) })
			}
			visit(v.Elem(), path)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if n := v.Type().Field(i).Name; v.Type() != lit || n != "Literal" {
					visit(v.Field(i), path+"."+n)
				}
			}
		case reflect.Slice:
			if n := v.Len(); n > 0 {
				add(path+" without last", func() { v.Set(v.Slice(0, n-1)) })
				if n > 1 && !reflect.DeepEqual(v.Index(0).Interface(), v.Index(n-1).Interface()) {
					add(path+" swapped", func() {
						a, b := reflect.ValueOf(v.Index(0).Interface()), reflect.ValueOf(v.Index(n-1).Interface())
						v.Index(0).Set(b)
						v.Index(n - 1).Set(a)
					})
				}
				add(path+" last twice", func() { v.Set(reflect.Append(v, v.Index(n-1))) })
			}
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		case reflect.String:
			add(path+"+", func() { v.SetString(v.String() + "x") })
			if v.Len() > 0 {
				add(path+"-", func() { v.SetString(v.String()[1:]) })
			}
		case reflect.Bool:
			add(path+"!", func() { v.SetBool(!v.Bool()) })
		case reflect.Int, reflect.Int32, reflect.Int64:
			add(path+"+1", func() { v.SetInt(v.Int() + 1) })
		case reflect.Uint8, reflect.Uint64:
			add(path+"+1", func() { v.SetUint((v.Uint() + 1) & (1<<uint(v.Type().Bits()) - 1)) })
		case reflect.Float64:
			add(path+"+", func() {
				if v.Float() == 0 {
					v.SetFloat(1)
				} else {
					v.SetFloat(math.Nextafter(v.Float(), 0))
				}
			})
		}
	}
	visit(root, "")
	if len(cs) == 0 {
		return ""
	}
	c := cs[site%len(cs)]
	c.do()
	return c.path
}

// runEqual compares a grammar with copies that have one change each.
func runEqual(c astTextCase, o *core.Obs) error {
	g, err := c.grammar()
	if err != nil {
		return err
	}
	all := []*ast.Grammar{g}
	whats := []string{"original"}
	for _, s := range c.Sites {
		h := g.Clone()
		what := mutateAST(reflect.ValueOf(h).Elem(), s)
		eq := same(g, h)
		if got, back := g.Equal(h), h.Equal(g); got != eq || back != eq {
			return errf("after %s: Equal is %v and %v, want %v\ngrammar: %q", what, got, back, eq, g.String())
		}
		all, whats = append(all, h), append(whats, what)
	}
	var ps []*ast.Pattern
	for _, h := range all {
		if p := h.TopPattern; p != nil {
			ps = append(ps, p)
		} else if len(h.PatternDecls) > 0 && h.PatternDecls[0] != nil {
			ps = append(ps, h.PatternDecls[0].Pattern)
		} else {
			ps = append(ps, nil)
		}
	}
	return order(len(ps), func(i, j int) (int, bool, bool) {
		eq := same(ps[i], ps[j])
		if eq && reflect.DeepEqual(ps[i], ps[j]) && ps[i].Hash() != ps[j].Hash() {
			return 9, true, false
		}
		return ps[i].Compare(ps[j]), ps[i].Equal(ps[j]), eq
	}, func(i int) string { return whats[i] }, g, o)
}

// sameAST compares two ASTs field by field, except for the spelling of literals. No bytes are no bytes.
func sameAST(a, b reflect.Value) bool {
	if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 {
		return string(a.Bytes()) == string(b.Bytes())
	}
	switch a.Kind() {
	case reflect.Ptr:
		return a.IsNil() == b.IsNil() && (a.IsNil() || sameAST(a.Elem(), b.Elem()))
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameAST(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type() == reflect.TypeOf(ast.Terminal{}) && a.Type().Field(i).Name == "Literal" {
				continue
			}
			if !sameAST(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func same(a, b interface{}) bool { return sameAST(reflect.ValueOf(a), reflect.ValueOf(b)) }

// order checks that a comparison is a total order whose equality is the given one.
func order(n int, cmp func(i, j int) (c int, equal, same bool), name func(i int) string, g *ast.Grammar, o *core.Obs) error {
	r := make([][]int, n)
	differ := false
	for i := range r {
		r[i] = make([]int, n)
		for j := range r[i] {
			c, eq, same := cmp(i, j)
			if c == 9 {
				return errf("%s and %s are equal but have other hashes\ngrammar: %q", name(i), name(j), g.String())
			}
			if eq != same || (c == 0) != same {
				return errf("%s and %s: Compare %d, Equal %v, want equal %v\ngrammar: %q", name(i), name(j), c, eq, same, g.String())
			}
			r[i][j] = c
			differ = differ || !same
		}
	}
	for i := range r {
		for j := range r {
			if (r[i][j] < 0) != (r[j][i] > 0) {
				return errf("%s and %s: Compare is %d one way and %d the other\ngrammar: %q", name(i), name(j), r[i][j], r[j][i], g.String())
			}
			for k := range r {
				if r[i][j] < 0 && r[j][k] < 0 && r[i][k] >= 0 {
					return errf("%s < %s < %s, but not the first < the last\ngrammar: %q", name(i), name(j), name(k), g.String())
				}
			}
		}
	}
	o.NonTrivialIf(differ)
	if n > 0 {
		o.Sample("%q: %s", g.String(), name(n-1))
	}
	return nil
}

// runEqualNames does the same for all names and values of a grammar.
func runEqualNames(c astTextCase, o *core.Obs) error {
	g, err := c.grammar()
	if err != nil {
		return err
	}
	var names []*ast.NameExpr
	var terms []*ast.Terminal
	collect := func(g *ast.Grammar) {
		reach(reflect.ValueOf(g), "", func(_ string, v reflect.Value) {
			switch x := v.Interface().(type) {
			case *ast.NameExpr:
				if x != nil && len(names) < 12 {
					names = append(names, x)
				}
			case *ast.Terminal:
				if x != nil && len(terms) < 12 {
					terms = append(terms, x)
				}
			}
		})
	}
	collect(g)
	for _, s := range c.Sites {
		for _, n := range names[:len(names):len(names)] {
			h := (&ast.Pattern{TreeNode: &ast.TreeNode{Name: n}}).Clone()
			mutateAST(reflect.ValueOf(h.TreeNode.Name).Elem(), s)
			names = append(names, h.TreeNode.Name)
			break
		}
		for _, x := range terms[:len(terms):len(terms)] {
			h := (&ast.Expr{Terminal: x}).Clone()
			mutateAST(reflect.ValueOf(h.Terminal).Elem(), s)
			terms = append(terms, h.Terminal)
			break
		}
	}
	if err := order(len(names), func(i, j int) (int, bool, bool) {
		return names[i].Compare(names[j]), names[i].Equal(names[j]), same(names[i], names[j])
	}, func(i int) string { return "name " + jsonOf(names[i]) }, g, o); err != nil {
		return err
	}
	return order(len(terms), func(i, j int) (int, bool, bool) {
		return terms[i].Compare(terms[j]), terms[i].Equal(terms[j]), same(terms[i], terms[j])
	}, func(i int) string { return "value " + jsonOf(terms[i]) }, g, o)
}

// walkLog is a visitor that notes what it is shown and how deep.
type walkLog struct {
	depth int
	log   *[]visit
}

type visit struct {
	ptr   uintptr
	typ   string
	depth int
}

func (w walkLog) Visit(n interface{}) interface{} {
	v := reflect.ValueOf(n)
	*w.log = append(*w.log, visit{v.Pointer(), v.Type().String(), w.depth})
	return walkLog{w.depth + 1, w.log}
}

// expectWalk is the order of a walk: every part but keywords and space, from the top down and left to right.
// The expression of a value pattern belongs to it.
func expectWalk(v reflect.Value, depth int, log *[]visit) {
	switch v.Kind() {
	case reflect.Ptr:
		switch {
		case v.IsNil():
			return
		case v.Type() == reflect.TypeOf(&ast.Keyword{}), v.Type() == reflect.TypeOf(&ast.Space{}):
			return
		case v.Elem().Kind() != reflect.Struct:
			return
		}
		*log = append(*log, visit{v.Pointer(), v.Type().String(), depth})
		if v.Type() == reflect.TypeOf(&ast.LeafNode{}) {
			return
		}
		for i := 0; i < v.Elem().NumField(); i++ {
			expectWalk(v.Elem().Field(i), depth+1, log)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			expectWalk(v.Index(i), depth, log)
		}
	}
}

type walker interface{ Walk(ast.Visitor) }

func runAstWalk(c astTextCase, o *core.Obs) error {
	g, err := c.grammar()
	if err != nil {
		return err
	}
	check := func(what string, x walker) error {
		var got, want []visit
		x.Walk(walkLog{0, &got})
		expectWalk(reflect.ValueOf(x), 0, &want)
		for i := 0; i < len(got) || i < len(want); i++ {
			switch {
			case i >= len(got):
				return errf("the walk of the %s ends after %d visits; %s at depth %d is missing\ngrammar: %q", what, i, want[i].typ, want[i].depth, g.String())
			case i >= len(want):
				return errf("the walk of the %s visits %s after the end\ngrammar: %q", what, got[i].typ, g.String())
			case got[i] != want[i]:
				return errf("visit %d of the walk of the %s is %s at depth %d, want %s at depth %d\ngrammar: %q", i, what, got[i].typ, got[i].depth, want[i].typ, want[i].depth, g.String())
			}
		}
		return nil
	}
	if err := check("grammar", g); err != nil {
		return err
	}
	if g.TopPattern != nil {
		if err := check("main pattern", g.TopPattern); err != nil {
			return err
		}
	}
	var bad error
	exprsOf(g, func(e *ast.Expr) {
		if err := check("expression", e); err != nil && bad == nil {
			bad = err
		}
	})
	if bad != nil {
		return bad
	}
	has := false
	c.G.Walk(func(p *model.Pattern) { has = has || p.K == "not" && p.A[0].K != "any" })
	if got := ast.HasNot(g); got != has {
		return errf("HasNot is %v\ngrammar: %q", got, g.String())
	}
	o.LabelIf(has, "has a complement")
	o.NonTrivialIf(c.G.Size() > 2)
	o.Sample("%q", g.String())
	return nil
}

// goValue evaluates the Go notation of an AST.
func goValue(src string) (res interface{}, err error) {
	x, err := goparser.ParseExpr(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return evalGo(x, nil, nil).Interface(), nil
}

var goTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "byte": reflect.TypeOf(byte(0)), "float64": reflect.TypeOf(0.0), "int64": reflect.TypeOf(int64(0)),
	"uint64": reflect.TypeOf(uint64(0)), "bool": reflect.TypeOf(false), "types.Type": reflect.TypeOf(types.Type(0)),
	"ast.RefLookup": reflect.TypeOf(ast.RefLookup{}),
}

func init() {
	var add func(t reflect.Type)
	add = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice:
			add(t.Elem())
		case reflect.Struct:
			if _, ok := goTypes[t.String()]; !ok {
				goTypes[t.String()] = t
				for i := 0; i < t.NumField(); i++ {
					add(t.Field(i).Type)
				}
			}
		}
	}
	add(reflect.TypeOf(ast.Grammar{}))
}

func goType(x goast.Expr) reflect.Type {
	switch x := x.(type) {
	case *goast.StarExpr:
		return reflect.PtrTo(goType(x.X))
	case *goast.ArrayType:
		return reflect.SliceOf(goType(x.Elt))
	case *goast.SelectorExpr:
		return goTypes[x.X.(*goast.Ident).Name+"."+x.Sel.Name]
	case *goast.Ident:
		return goTypes[x.Name]
	}
	panic(fmt.Sprintf("type %T", x))
}

// evalGo evaluates an expression where a value of a type is expected (or nil).
func evalGo(x goast.Expr, typ reflect.Type, env map[string]reflect.Value) reflect.Value {
	switch x := x.(type) {
	case *goast.ParenExpr:
		return evalGo(x.X, typ, env)
	case *goast.Ident:
		switch x.Name {
		case "nil":
			return reflect.Zero(typ)
		case "true", "false":
			return reflect.ValueOf(x.Name == "true").Convert(typ)
		}
		return env[x.Name]
	case *goast.BasicLit, *goast.UnaryExpr:
		if u, ok := x.(*goast.UnaryExpr); ok && u.Op == token.AND {
			switch y := u.X.(type) {
			case *goast.CompositeLit:
				p := reflect.New(goType(y.Type))
				p.Elem().Set(evalGo(y, nil, env))
				return p
			default:
				v := evalGo(u.X, nil, env)
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				return p
			}
		}
		s, neg := "", false
		if u, ok := x.(*goast.UnaryExpr); ok {
			neg = u.Op == token.SUB
			s = u.X.(*goast.BasicLit).Value
		} else {
			s = x.(*goast.BasicLit).Value
		}
		if neg {
			s = "-" + s
		}
		v := reflect.New(typ).Elem()
		var err error
		switch typ.Kind() {
		case reflect.String:
			var u string
			u, err = strconv.Unquote(s)
			v.SetString(u)
		case reflect.Float64:
			var f float64
			f, err = strconv.ParseFloat(s, 64)
			v.SetFloat(f)
		case reflect.Uint8, reflect.Uint64:
			var u uint64
			u, err = strconv.ParseUint(s, 0, 64)
			v.SetUint(u)
		default:
			var i int64
			i, err = strconv.ParseInt(s, 0, 64)
			v.SetInt(i)
		}
		if err != nil {
			panic(err)
		}
		return v
	case *goast.CompositeLit:
		t := goType(x.Type)
		v := reflect.New(t).Elem()
		if t.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(t, 0, len(x.Elts)))
			for _, e := range x.Elts {
				v.Set(reflect.Append(v, evalGo(e, t.Elem(), env)))
			}
			return v
		}
		for _, e := range x.Elts {
			kv := e.(*goast.KeyValueExpr)
			f := v.FieldByName(kv.Key.(*goast.Ident).Name)
			f.Set(evalGo(kv.Value, f.Type(), env))
		}
		return v
	case *goast.CallExpr:
		f, ok := x.Fun.(*goast.FuncLit)
		if !ok {
			id, ok := x.Fun.(*goast.Ident)
			if ok && id.Name == "make" {
				t := goType(x.Args[0])
				if t.Kind() == reflect.Slice {
					n, _ := strconv.Atoi(x.Args[1].(*goast.BasicLit).Value)
					return reflect.MakeSlice(t, n, n)
				}
				return reflect.MakeMap(t)
			}
			return evalGo(x.Args[0], goType(x.Fun), env)
		}
		in := map[string]reflect.Value{}
		if ps := f.Type.Params.List; len(ps) > 0 {
			p := reflect.New(goType(ps[0].Type)).Elem()
			p.Set(evalGo(x.Args[0], p.Type(), env))
			in[ps[0].Names[0].Name] = p
		}
		out := goType(f.Type.Results.List[0].Type)
		for _, s := range f.Body.List {
			switch s := s.(type) {
			case *goast.ReturnStmt:
				if u, ok := s.Results[0].(*goast.UnaryExpr); ok && u.Op == token.AND {
					if id, ok := u.X.(*goast.Ident); ok {
						return in[id.Name].Addr()
					}
				}
				return evalGo(s.Results[0], out, in)
			case *goast.AssignStmt:
				if s.Tok == token.DEFINE {
					in[s.Lhs[0].(*goast.Ident).Name] = evalGo(s.Rhs[0], nil, in)
					continue
				}
				switch l := s.Lhs[0].(type) {
				case *goast.SelectorExpr:
					f := in[l.X.(*goast.Ident).Name].Elem().FieldByName(l.Sel.Name)
					f.Set(evalGo(s.Rhs[0], f.Type(), in))
				case *goast.IndexExpr:
					m := in[l.X.(*goast.Ident).Name]
					if m.Kind() == reflect.Slice {
						i, _ := strconv.Atoi(l.Index.(*goast.BasicLit).Value)
						m.Index(i).Set(evalGo(s.Rhs[0], m.Type().Elem(), in))
						continue
					}
					m.SetMapIndex(evalGo(l.Index, m.Type().Key(), in), evalGo(s.Rhs[0], m.Type().Elem(), in))
				default:
					panic(fmt.Sprintf("assign to %T", l))
				}
			default:
				panic(fmt.Sprintf("statement %T", s))
			}
		}
		panic("no return")
	}
	panic(fmt.Sprintf("expression %T", x))
}

// runGoString evaluates the Go notation of a grammar, its lookup and its expressions.
func runGoString(c astTextCase, o *core.Obs) error {
	g, err := c.grammar()
	if err != nil {
		return err
	}
	check := func(what string, x interface{}) error {
		src := fmt.Sprintf("%#v", x)
		v, err := goValue(src)
		if err != nil {
			return errf("the Go notation of the %s cannot be evaluated: %v\n%s\ngrammar: %q", what, err, src, g.String())
		}
		if !reflect.DeepEqual(v, x) {
			return errf("the Go notation of the %s has another value\ngrammar: %q\n%s", what, g.String(), src)
		}
		return nil
	}
	if err := check("grammar", g); err != nil {
		return err
	}
	if g.TopPattern != nil {
		if err := check("main pattern", g.TopPattern); err != nil {
			return err
		}
	}
	if err := check("lookup", ast.NewRefLookup(g)); err != nil {
		return err
	}
	var bad error
	exprsOf(g, func(e *ast.Expr) {
		if err := check("expression", e); err != nil {
			bad = err
		}
	})
	if bad != nil {
		return bad
	}
	o.NonTrivialIf(c.G.Size() > 2)
	o.Sample("%q", g.String())
	return nil
}

// runLookup: a grammar made from its lookup, or extended by references, is the same grammar.
func runLookup(c astTextCase, o *core.Obs) error {
	g, err := c.grammar()
	if err != nil {
		return err
	}
	byName := func(g *ast.Grammar) (string, error) {
		r, err := readingOf(g)
		if err != nil {
			return "", err
		}
		m := map[string]string{}
		for _, d := range r.Decls {
			m[d.Name] = d.P.Canon()
		}
		if r.Top != nil {
			m["main"] = r.Top.Canon()
		}
		return jsonOf(m), nil
	}
	want, err := byName(g)
	if err != nil {
		return err
	}
	again := ast.NewRefLookup(g)["main"].Grammar()
	for _, d := range g.PatternDecls {
		if d.Name != "main" {
			again = again.AddRef(d.Name, d.Pattern)
		}
	}
	for what, h := range map[string]*ast.Grammar{"NewGrammar": ast.NewGrammar(ast.NewRefLookup(g)), "AddRef": again} {
		got, err := byName(h)
		if err != nil {
			return err
		}
		if got != want {
			return errf("%s of the lookup is another grammar\ngrammar: %q\n%s: %q", what, g.String(), what, h.String())
		}
		p, err := rparser.ParseGrammar(h.String())
		if err != nil {
			return errf("%s: %v\nprinted: %q", what, err, h.String())
		}
		if got, _ := byName(p); got != want {
			return errf("%s prints as another grammar\ngrammar: %q\n%s: %q", what, g.String(), what, h.String())
		}
		if a, b := interp.HasRecursion(g), interp.HasRecursion(h); a != b {
			return errf("%s: HasRecursion is %v, want %v", what, b, a)
		}
	}
	o.NonTrivialIf(len(g.PatternDecls) > 0)
	o.Sample("%q", g.String())
	return nil
}

func init() {
	how := "random grammars written as text with comments or built with constructors, sometimes formatted; "
	core.Register(core.Spec{Prop: "S06", Name: "clone", Quick: 12000, Thorough: 200000, Terminates: true,
		Rule: how + "the clones of the grammar, its lookup, patterns and expressions equal the originals, share no memory with them, and changing them changes nothing else; non-trivial: more than 2 pattern nodes"}, genAstText, runClone)
	core.Register(core.Spec{Prop: "S06", Name: "equal", Quick: 12000, Thorough: 200000, Terminates: true,
		Rule: how + "compared with copies in which one field was changed: equal exactly if no field differs (but the spelling of literals), comparison is a total order, equal patterns have equal hashes; non-trivial: a copy differs"}, genAstText, runEqual)
	core.Register(core.Spec{Prop: "S06", Name: "names", Quick: 8000, Thorough: 100000, Terminates: true,
		Rule: how + "the same for all names and values; non-trivial: two differ"}, genAstText, runEqualNames)
	core.Register(core.Spec{Prop: "S06", Name: "walk", Quick: 12000, Thorough: 200000, Terminates: true,
		Rule: how + "walks visit the parts found by reflection in order, each with the visitor of its parent; the negation test; non-trivial: more than 2 pattern nodes"}, genAstText, runAstWalk)
	core.Register(core.Spec{Prop: "S06", Name: "gostring", Quick: 3000, Thorough: 40000, Terminates: true,
		Rule: how + "an evaluator of the Go notation gets the same AST; non-trivial: more than 2 pattern nodes"}, genAstText, runGoString)
	core.Register(core.Spec{Prop: "S06", Name: "lookup", Quick: 8000, Thorough: 100000, Terminates: true,
		Rule: how + "grammars made from the lookup and by adding references stand for the same grammar; non-trivial: has declarations"}, genAstText, runLookup)
}
