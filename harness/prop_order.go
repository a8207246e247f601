package main

// C12: nothing the library produces depends on the order of map iteration, on
// the order of insertion into the caller's maps or on addresses.

import (
	"fmt"
	"go/token"
	"go/types"
	htmpl "html/template"
	"math"
	"reflect"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

var orderPkgs = []*P{pBFoo, pAFoo, pCFoo, pQFoo}

type sameName string

func (sameName) String() string { return "same" }

type nestedKey struct {
	N int
	s *gopoet.Symbol
}

type nestedKey2 struct {
	N int
	S *gopoet.Symbol
}

type deepKey struct {
	P gopoet.Package
	N int
}

// mapEnv builds entries. Entry i is built as number at[i] from 0, so that what
// is allocated for it has another address in each permutation.
type mapEnv struct {
	w     *GoW
	syms  [4]gopoet.Symbol
	types [4]gopoet.TypeSpec
	vars  [4]gopoet.VarSpec
	cs    [4]gopoet.ConstSpec
	fns   [4]gopoet.FuncSpec
	plain [4]plainData
}

func otherFile(p *P) *gopoet.GoFile { return gopoet.NewGoFile("o.go", p.Path, p.Real) }

func (e *mapEnv) goNamed(i int) *types.Named { return e.w.Named(Sy{orderPkgs[i], "X"}).(*types.Named) }

type keyKind struct {
	name  string
	known string // a known finding
	max   int
	key   func(e *mapEnv, i, at int) interface{} // entry i of 0..3, built in place at
	t     reflect.Type
	ref   bool // the key is itself a reference
}

var keyKinds = []keyKind{
	{"string", "", 4, func(e *mapEnv, i, at int) interface{} { return string(rune('a' + i)) }, reflect.TypeOf(""), false},
	{"int", "", 4, func(e *mapEnv, i, at int) interface{} { return []int{9, 10, -2, 100}[i] }, reflect.TypeOf(0), false},
	{"bool", "", 2, func(e *mapEnv, i, at int) interface{} { return i == 0 }, reflect.TypeOf(true), false},
	{"float", "", 4, func(e *mapEnv, i, at int) interface{} { return []float64{0.5, -1, 1e9, 3}[i] }, reflect.TypeOf(0.0), false},
	{"same string form", "", 4, func(e *mapEnv, i, at int) interface{} { return sameName(fmt.Sprint("n", i)) }, reflect.TypeOf(sameName("")), false},
	{"symbol", "", 4, func(e *mapEnv, i, at int) interface{} { return Sy{orderPkgs[i], "X"}.Sym() }, rtOf((*gopoet.Symbol)(nil)), true},
	{"package", "", 4, func(e *mapEnv, i, at int) interface{} { return orderPkgs[i].Pkg() }, rtOf((*gopoet.Package)(nil)), true},
	{"method reference", "", 4, func(e *mapEnv, i, at int) interface{} {
		return gopoet.MethodReference{Type: Sy{orderPkgs[i], "X"}.Sym(), Method: "M"}
	}, rtOf((*gopoet.MethodReference)(nil)), true},
	{"type name", "", 4, func(e *mapEnv, i, at int) interface{} { return tyPtr(tyNamed(orderPkgs[i], "X")).TN() }, tnT, true},
	{"*symbol", "", 4, func(e *mapEnv, i, at int) interface{} {
		e.syms[at] = Sy{orderPkgs[i], "X"}.Sym()
		return &e.syms[at]
	}, rtOf((**gopoet.Symbol)(nil)), true},
	{"*type spec", "", 4, func(e *mapEnv, i, at int) interface{} {
		e.types[at] = *gopoet.NewTypeSpec("X", gopoet.IntType)
		otherFile(orderPkgs[i]).AddType(&e.types[at])
		return &e.types[at]
	}, rtOf((**gopoet.TypeSpec)(nil)), true},
	{"*var spec", "", 4, func(e *mapEnv, i, at int) interface{} {
		e.vars[at] = *gopoet.NewVar("X")
		otherFile(orderPkgs[i]).AddVar(&e.vars[at])
		return &e.vars[at]
	}, rtOf((**gopoet.VarSpec)(nil)), true},
	{"const spec in any", "", 4, func(e *mapEnv, i, at int) interface{} {
		e.cs[at] = *gopoet.NewConst("X").Initialize("1")
		otherFile(orderPkgs[i]).AddConst(&e.cs[at])
		return &e.cs[at]
	}, anyT, true},
	{"func as file element", "", 4, func(e *mapEnv, i, at int) interface{} {
		e.fns[at] = *gopoet.NewFunc("X")
		otherFile(orderPkgs[i]).AddElement(&e.fns[at])
		return &e.fns[at]
	}, feT, true},
	{"struct", "", 4, func(e *mapEnv, i, at int) interface{} { return deepKey{orderPkgs[i].Pkg(), 1} }, rtOf((*deepKey)(nil)), true},
	{"array", "", 4, func(e *mapEnv, i, at int) interface{} {
		return [2]gopoet.Symbol{{Name: "len"}, Sy{orderPkgs[i], "X"}.Sym()}
	}, rtOf((*[2]gopoet.Symbol)(nil)), true},
	{"*struct", "", 4, func(e *mapEnv, i, at int) interface{} {
		e.plain[at] = plainData{A: i, b: "x"}
		return &e.plain[at]
	}, rtOf((**plainData)(nil)), false},
	{"any of mixed", "", 4, func(e *mapEnv, i, at int) interface{} {
		switch i {
		case 0:
			return "X"
		case 1:
			return Sy{orderPkgs[i], "X"}.Sym()
		case 2:
			return gopoet.Symbol{Name: "X"}
		}
		return deepKey{orderPkgs[i].Pkg(), 1}
	}, anyT, true},
	{"any of numbers", "", 4, func(e *mapEnv, i, at int) interface{} {
		return []interface{}{1, int64(1), uint(1), "1"}[i]
	}, anyT, false},
	{"go type in any", "", 3, func(e *mapEnv, i, at int) interface{} { return types.NewPointer(e.goNamed(i)) }, anyT, true},
	{"go type", "", 3, func(e *mapEnv, i, at int) interface{} { return e.goNamed(i) }, goTypeT, false},
	{"go object in any", "", 3, func(e *mapEnv, i, at int) interface{} {
		return types.NewVar(token.NoPos, e.w.Pkg(orderPkgs[i]), "X", types.Typ[types.Int])
	}, anyT, true},
	{"go package in any", "", 3, func(e *mapEnv, i, at int) interface{} { return e.w.Pkg(orderPkgs[i]) }, anyT, true},
	{"reflect type in any", "", 3, func(e *mapEnv, i, at int) interface{} {
		return []interface{}{reflect.TypeOf(template.Template{}), reflect.TypeOf(htmpl.Template{}), reflect.TypeOf(1)}[i]
	}, anyT, true},
	{"struct with pointer to symbol", "", 4, func(e *mapEnv, i, at int) interface{} {
		e.syms[at] = Sy{orderPkgs[i], "X"}.Sym()
		return nestedKey2{1, &e.syms[at]}
	}, rtOf((*nestedKey2)(nil)), true},
	{"struct with pointer", "pointer in key", 4, func(e *mapEnv, i, at int) interface{} {
		e.syms[at] = Sy{orderPkgs[i], "X"}.Sym()
		return nestedKey{1, &e.syms[at]}
	}, rtOf((*nestedKey)(nil)), true},
}

type valKind struct {
	name string
	t    reflect.Type
	val  func(e *mapEnv, i int) interface{}
}

var valKinds = []valKind{
	{"nothing", reflect.TypeOf(""), func(e *mapEnv, i int) interface{} { return "v" }},
	{"package", rtOf((*gopoet.Package)(nil)), func(e *mapEnv, i int) interface{} { return orderPkgs[i].Pkg() }},
	{"type name", tnT, func(e *mapEnv, i int) interface{} { return tySlice(tyNamed(orderPkgs[i], "Y")).TN() }},
	{"symbols in any", anyT, func(e *mapEnv, i int) interface{} {
		return []gopoet.Symbol{Sy{orderPkgs[(i+1)%4], "Y"}.Sym(), Sy{orderPkgs[i], "Y"}.Sym()}
	}},
	{"map", rtOf((*map[string]gopoet.Symbol)(nil)), func(e *mapEnv, i int) interface{} {
		return map[string]gopoet.Symbol{"b": Sy{orderPkgs[i], "Y"}.Sym(), "a": Sy{orderPkgs[(i+2)%4], "Y"}.Sym()}
	}},
}

// permutations of n, in a fixed order with the identity first.
func perms(n int) [][]int {
	var out [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) == 0 {
				rec(append(p, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return out
}

func importsText(im *gopoet.Imports) string {
	var b strings.Builder
	for _, s := range im.ImportSpecs() {
		fmt.Fprintf(&b, "%s (%s)\n", s, im.PrefixForPackage(s.ImportPath))
	}
	return b.String()
}

var tmplRange = template.Must(template.New("t").Parse("/* {{range $k, $v := .}}{{$k}}={{$v}} {{end}} */"))

func orderMaps(x *X, n int, file bool) {
	k := &keyKinds[x.Choose(len(keyKinds))]
	v := &valKinds[x.Choose(len(valKinds))]
	if n > k.max {
		x.Skip()
	}
	if file && (k.t.Kind() == reflect.Ptr || k.t.Kind() == reflect.Interface || k.t.Kind() == reflect.Struct && strings.HasPrefix(k.name, "struct with")) {
		x.Skip() // templates themselves iterate over these in another order
	}
	pm := Pick(x, perms(n))
	x.Say("map of %d from %s to %s, entries inserted in order %v", n, k.name, v.name, pm)
	t := reflect.MapOf(k.t, v.t)
	run := func(pm []int) string {
		e := &mapEnv{w: newGoW()}
		m := reflect.MakeMap(t)
		for at, i := range pm {
			kv := reflect.New(k.t).Elem()
			kv.Set(reflect.ValueOf(k.key(e, i, at)))
			vv := reflect.New(v.t).Elem()
			vv.Set(reflect.ValueOf(v.val(e, i)))
			m.SetMapIndex(kv, vv)
		}
		x.Op()
		if file {
			f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
			f.AddElement(gopoet.NewFunc("f").RenderCode(tmplRange, m.Interface()))
			var sb strings.Builder
			if err := gopoet.WriteGoFile(&sb, f); err != nil {
				x.Fail("rendering: %v", err)
			}
			return sb.String() + importsText(&f.Imports)
		}
		im := gopoet.NewImportsFor(pSelf.Path)
		out := im.QualifyTemplateData(m.Interface())
		return importsText(im) + dataD(reflect.ValueOf(out))
	}
	ref := run(perms(n)[0])
	var got string
	withMapOrder(x, func() { got = run(pm) })
	x.Saw(fmt.Sprint(got, x.iters))
	if got != ref {
		x.FailKey(k.known, "map of %d from %s to %s, entries inserted in order %v\ngives %s\nin another order of iteration, insertion and allocation, it gives %s", n, k.name, v.name, pm, got, ref)
	}
}

// orderLarge: maps of more entries than fit a group of the map, whose entries
// compete for the names of packages.
func orderLarge(x *X) {
	sz := []int{9, 13, 17, 40}
	if thorough {
		sz = []int{8, 9, 12, 13, 14, 16, 17, 24, 33, 40, 65, 130, 300}
	}
	n := Pick(x, sz)
	type lk struct {
		Pk gopoet.Package
		N  int
	}
	pk := func(i int) gopoet.Package {
		return gopoet.Package{ImportPath: fmt.Sprintf("ex.com/%03d/foo", i*37%1000), Name: "foo"}
	}
	kinds := []struct {
		name string
		key  func(i int) interface{}
		t    reflect.Type
		ref  bool
	}{
		{"string", func(i int) interface{} { return fmt.Sprintf("key%03d", i) }, reflect.TypeOf(""), false},
		{"string of different lengths", func(i int) interface{} { return strings.Repeat("k", i) }, reflect.TypeOf(""), false},
		{"int", func(i int) interface{} { return i*7 - 20 }, reflect.TypeOf(0), false},
		{"float", func(i int) interface{} { return float64(i) / 4 }, reflect.TypeOf(0.0), false},
		{"named with the same string form", func(i int) interface{} { return sameName(fmt.Sprint("n", i)) }, reflect.TypeOf(sameName("")), false},
		{"package", func(i int) interface{} { return pk(i) }, rtOf((*gopoet.Package)(nil)), true},
		{"symbol", func(i int) interface{} { return pk(i).Symbol("X") }, rtOf((*gopoet.Symbol)(nil)), true},
		{"struct", func(i int) interface{} { return lk{pk(i), i % 3} }, rtOf((*lk)(nil)), true},
		{"*var spec", func(i int) interface{} {
			v := gopoet.NewVar("X")
			gopoet.NewGoFile("o.go", pk(i).ImportPath, "foo").AddVar(v)
			return v
		}, rtOf((**gopoet.VarSpec)(nil)), true},
		{"any", func(i int) interface{} {
			switch i % 4 {
			case 0:
				return fmt.Sprintf("key%03d", i)
			case 1:
				return i
			case 2:
				return pk(i)
			}
			return pk(i).Symbol("X")
		}, anyT, true},
	}
	k := &kinds[x.Choose(len(kinds))]
	v := x.Choose(2)
	vt := reflect.TypeOf("")
	if v == 1 {
		vt = rtOf((*gopoet.Symbol)(nil))
	}
	t := reflect.MapOf(k.t, vt)
	steps := []int{1, n - 1}
	for s := 5; s < n; s += 4 {
		if n%s != 0 && s%2 == 1 {
			steps = append(steps, s)
			break
		}
	}
	step, first := Pick(x, steps), Pick(x, []int{0, n / 2})
	for a, b := n, step; b != 0; {
		if a, b = b, a%b; b == 0 && a != 1 {
			x.Skip() // not all are visited
		}
	}
	x.Say("map of %d from %s, values %d, entries inserted from %d in steps of %d", n, k.name, v, first, step)
	run := func(first, step int) string {
		m := reflect.MakeMap(t)
		for at := 0; at < n; at++ {
			i := (first + at*step) % n
			vv := reflect.New(vt).Elem()
			if v == 1 {
				vv.Set(reflect.ValueOf(pk(n - i).Symbol("Y")))
			}
			m.SetMapIndex(reflect.ValueOf(k.key(i)), vv)
		}
		im := gopoet.NewImportsFor(pSelf.Path)
		x.Op()
		out := im.QualifyTemplateData(m.Interface())
		return importsText(im) + dataD(reflect.ValueOf(out))
	}
	ref := run(0, 1)
	var got string
	if n <= 9 {
		withMapOrder(x, func() { got = run(first, step) })
	} else {
		// the iterations over one map all start at the same entry
		slots := 16
		for slots < n {
			slots *= 2
		}
		start := x.Choose(slots)
		x.Say("iterations start at %d", start)
		withMapStart(x, start, func() { got = run(first, step) })
	}
	x.Saw(fmt.Sprint(got, x.iters))
	if got != ref {
		x.Fail("map of %d from %s, entries inserted from %d in steps of %d\ngives %s\nin another order of iteration and insertion, it gives %s", n, k.name, first, step, got, ref)
	}
}

type (
	fmtKey   int
	goStrKey struct{ n int }
	errKey   string
	twoText  struct{ A, B string }
	hidText  struct{ a, b string }
	anyKey   struct{ V interface{} }
)

func (fmtKey) Format(f fmt.State, c rune) { f.Write([]byte("k")) }
func (goStrKey) GoString() string         { return "k" }
func (goStrKey) String() string           { return "k" }
func (errKey) Error() string              { return "err" }

func localKey1(n int) interface{} { type local int; return local(n) }
func localKey2(n int) interface{} { type local int; return local(n) }

// alikeKeys are keys that are easily mistaken for each other.
var alikeKeys = [][]interface{}{
	{1, 257, 513}, {-1, 1, 255}, {0, 1 << 32, 1 << 33}, {9, 10, 100}, {-9, -10, 9},
	{int8(-1), int8(1), int8(127)}, {uint8(0), uint8(255), uint8(128)}, {uint64(1) << 63, uint64(1<<63 + 1), uint64(1)}, {int16(256), int16(-256), int16(1)}, {uintptr(1), uintptr(16), uintptr(257)},
	{0.1, 0.1 + 1e-16, 0.1000001}, {1e300, 1e301, -1e300}, {math.Inf(1), math.Inf(-1), math.MaxFloat64}, {float32(1), float32(1.0000001), float32(16777216)}, {0.5, 0.25, -0.5},
	{complex(1, 2), complex(2, 1), complex(1, -2)}, {'a', 'A', 'b'}, {"a", "A", "b"}, {"1", "01", "1 "}, {"", " ", "a"}, {"a", "aa", "aaa"}, {"x\x00", "x", "x\x00\x00"}, {"\xff", "\xfe", "\ufffd"}, {"e\u0301", "\u00e9", "e"}, {"a\nb", "a b", "a\tb"}, {"%d", "%s", "%"},
	{strings.Repeat("k", 20) + "a", strings.Repeat("k", 20) + "b", strings.Repeat("k", 20)},
	{strings.Repeat("k", 70) + "a", strings.Repeat("k", 70) + "b", strings.Repeat("k", 70)},
	{strings.Repeat("k", 300) + "a", strings.Repeat("k", 300) + "b", strings.Repeat("k", 300)},
	{strings.Repeat("k", 5000) + "a", strings.Repeat("k", 5000) + "b", strings.Repeat("k", 5001)},
	{"a" + strings.Repeat("k", 300), "b" + strings.Repeat("k", 300), strings.Repeat("k", 300)},
	{twoText{"a b", "c"}, twoText{"a", "b c"}, twoText{"", "a b c"}}, {hidText{"a b", "c"}, hidText{"a", "b c"}, hidText{"", "a b c"}}, {twoText{"a", ""}, twoText{"", "a"}, twoText{"a", "a"}},
	{[2]string{"a b", "c"}, [2]string{"a", "b c"}, [2]string{"a b c", ""}}, {[3]int{1, 2, 3}, [3]int{12, 0, 3}, [3]int{1, 3, 2}}, {[1]interface{}{1}, [1]interface{}{"1"}, [1]interface{}{int64(1)}},
	{anyKey{1}, anyKey{int8(1)}, anyKey{"1"}}, {anyKey{nil}, anyKey{"<nil>"}, anyKey{anyKey{nil}}}, {anyKey{errKey("a")}, anyKey{errKey("b")}, anyKey{sameName("err")}},
	{errKey("a"), errKey("b"), errKey("c")}, {goStrKey{1}, goStrKey{2}, goStrKey{3}}, {fmtKey(1), fmtKey(2), fmtKey(3)}, {anyKey{fmtKey(1)}, anyKey{fmtKey(2)}, anyKey{goStrKey{1}}},
	{localKey1(1), localKey2(1), localKey1(2)}, {reflect.Int, reflect.Uint, reflect.Kind(99)}, {gopoet.KindMap, gopoet.KindChan, gopoet.KindFunc},
	{true, false, nil}, {1, int8(1), uint8(1)}, {"1", sameName("1"), errKey("1")}, {1.0, 1, float32(1)},
	{gopoet.Symbol{Name: "X"}, gopoet.Symbol{Name: "Y"}, gopoet.Symbol{Name: "X", Package: gopoet.Package{ImportPath: "ex.com/self"}}},
	{gopoet.Package{ImportPath: "ex.com/b/foo", Name: "foo"}, gopoet.Package{ImportPath: "ex.com/b/foo"}, gopoet.Package{ImportPath: "ex.com/b/foo", Name: "bar"}},
}

// orderAlikeKeys: maps of values that compete for names, whose keys are alike.
func orderAlikeKeys(x *X) {
	g := Pick(x, alikeKeys)
	n := 2 + x.Choose(2)
	asAny := x.Bool()
	t := reflect.TypeOf(g[0])
	for _, k := range g {
		if k == nil || reflect.TypeOf(k) != t {
			t = anyT
		}
	}
	if asAny {
		if t == anyT {
			x.Skip()
		}
		t = anyT
	}
	nested := x.Choose(3)
	pm := Pick(x, perms(n))
	skip := x.Choose([]int{3, 1}[n-2]) // with two entries, which ones
	x.Say("keys %#v from %d, nested %d, inserted in order %v", g, skip, nested, pm)
	run := func(pm []int) string {
		vt := rtOf((*gopoet.Symbol)(nil))
		m := reflect.MakeMap(reflect.MapOf(t, vt))
		for _, i := range pm {
			kv := reflect.New(t).Elem()
			if k := g[(i+skip)%3]; k != nil {
				kv.Set(reflect.ValueOf(k))
			}
			m.SetMapIndex(kv, reflect.ValueOf(Sy{orderPkgs[i], "Y"}.Sym()))
		}
		var data interface{} = m.Interface()
		switch nested {
		case 1:
			data = &struct{ M interface{} }{data}
		case 2:
			data = map[string]interface{}{"one": []interface{}{data}}
		}
		im := gopoet.NewImportsFor(pSelf.Path)
		x.Op()
		return importsText(im) + dataD(reflect.ValueOf(im.QualifyTemplateData(data)))
	}
	ref := run(perms(n)[0])
	var got string
	withMapOrder(x, func() { got = run(pm) })
	x.Saw(fmt.Sprint(got, x.iters))
	if got != ref {
		if reflect.TypeOf(g[0]).Name() == "local" {
			x.FailKey("local types in keys", "keys %#v, inserted in order %v\ngive %s\nin another order of iteration and insertion, they give %s", g, pm, got, ref)
			return
		}
		x.Fail("keys %#v, inserted in order %v\ngive %s\nin another order of iteration and insertion, they give %s", g, pm, got, ref)
	}
}

// orderImports: histories over a set of imports.
func orderImports(x *X, depth int, pkgs []*P) {
	var hist []int
	for i := 0; i < depth; i++ {
		c := x.Choose(len(pkgs) + 1)
		if c == len(pkgs) {
			break
		}
		x.Say("%s", pkgs[c].Path)
		hist = append(hist, c)
	}
	how := x.Choose(4)
	run := func() string {
		var b strings.Builder
		f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
		for i, c := range hist {
			p := pkgs[c]
			x.Op()
			switch (how + i) % 4 {
			case 0:
				b.WriteString(f.RegisterImport(p.Path, p.Given()))
			case 1:
				b.WriteString(f.EnsureImported(Sy{p, "X"}.Sym()).String())
			case 2:
				b.WriteString(f.EnsureTypeImported(tyMap(tyNamed(p, "X"), tyNamed(pkgs[(c+1)%len(pkgs)], "Y")).TN()).String())
			case 3:
				s := (&Sg{Args: []Ar{{"", tyNamed(p, "X")}, {"", tyNamed(pkgs[(c+2)%len(pkgs)], "Y")}}}).Signature()
				b.WriteString((dumper{pkg: byBoth}).Sig(f.EnsureAllTypesImported(s)))
			}
			b.WriteString("\n")
		}
		b.WriteString(importsText(&f.Imports))
		if err := gopoet.WriteGoFile(&b, f); err != nil {
			x.Fail("rendering: %v", err)
		}
		b.WriteString(importsText(&f.Imports))
		return b.String()
	}
	ref := run()
	var got string
	withMapOrder(x, func() { got = run() })
	x.Saw(fmt.Sprint(got, x.iters))
	if got != ref {
		x.Fail("in this order of iterations\n%s\nin another\n%s", got, ref)
	}
}

// orderAlike: imports whose paths are alike in various ways.
func orderAlike(x *X) {
	paths := []string{"ex.com/a/foo", "ex.com/A/foo", "ex.com/a/Foo", "ex.com/b/foo", "foo", "ex.com/a-foo", "ex.com/a_foo", "ex.com/a/foo1", "ex.com/a/foo.v1", "ex.com/a/foo/v2", "ex.com/b/bar", "EX.COM/A/FOO"}
	var order []int
	seen := map[int]bool{}
	for i := 0; i < 3; i++ {
		k := x.Choose(len(paths))
		if seen[k] {
			x.Skip()
		}
		seen[k] = true
		order = append(order, k)
		x.Say("%s", paths[k])
	}
	name := Pick(x, []string{"foo", "", "other"})
	run := func() string {
		f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
		for _, k := range order {
			x.Op()
			f.RegisterImport(paths[k], name)
		}
		var b strings.Builder
		b.WriteString(importsText(&f.Imports))
		if err := gopoet.WriteGoFile(&b, f); err != nil {
			x.Fail("rendering: %v", err)
		}
		return b.String()
	}
	ref := run()
	var got string
	withMapOrder(x, func() { got = run() })
	x.Saw(fmt.Sprint(got, x.iters))
	if got != ref {
		x.Fail("in this order of iterations\n%s\nin another\n%s", got, ref)
	}
}

// orderMany: more imports than fit one group of a map.
func orderMany(x *X) {
	n := 7 + x.Choose(6)
	rev := x.Bool()
	run := func() string {
		f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
		for i := 0; i < n; i++ {
			k := i
			if rev {
				k = n - 1 - i
			}
			x.Op()
			f.RegisterImport(fmt.Sprintf("ex.com/%c/p%d", 'a'+(k*5)%13, k%4), fmt.Sprintf("p%d", k%4))
		}
		var b strings.Builder
		b.WriteString(importsText(&f.Imports))
		if err := gopoet.WriteGoFile(&b, f); err != nil {
			x.Fail("rendering: %v", err)
		}
		return b.String()
	}
	ref := run()
	var got string
	withMapOrder(x, func() { got = run() })
	x.Saw(fmt.Sprint(got, x.iters))
	if got != ref {
		x.Fail("in this order of iterations\n%s\nin another\n%s", got, ref)
	}
}

// orderFile: a whole file whose elements reference packages that compete for
// names, rendered with every start of every iteration.
func orderFile(x *X, nslots int) {
	first := x.Choose(len(slots))
	stride := 1 + x.Choose(len(slots)/2)
	off := x.Choose(len(orderPkgs))
	x.Say("%d slots from %d in steps of %d, packages from %d", nslots, first, stride, off)
	var used string
	run := func() string {
		b := newFileB()
		want := map[int]slotRef{}
		used = ""
		for i := 0; i < nslots; i++ {
			k := (first + i*stride) % len(slots)
			if _, dup := want[k]; dup {
				continue
			}
			b.use(x, want, k, orderPkgs[(i+off)%3])
			used += slots[k].name + ", "
		}
		b.body.RenderCode(tmplSym, map[string]gopoet.Symbol{"b": Sy{pQFoo, "V"}.Sym(), "a": Sy{pDFoo1, "V"}.Sym()})
		b.f.AddElement(b.body)
		var sb strings.Builder
		x.Op()
		if err := gopoet.WriteGoFile(&sb, b.f); err != nil {
			x.Fail("rendering: %v", err)
		}
		return sb.String() + importsText(&b.f.Imports)
	}
	ref := run()
	var got string
	withMapOrder(x, func() { got = run() })
	x.Saw(fmt.Sprint(got, x.iters))
	if got != ref {
		x.Fail("slots %s\nin this order of iterations\n%s\nin another\n%s", used, got, ref)
	}
}

func init() {
	register(&Prop{ID: "C12", Level: "model_checking",
		Rule:   "every start of every iteration over a map that the library makes (a hook in the runtime), every order of insertion and of allocation of the entries of template data maps of every key and value kind, over histories of imports and over files with competing packages",
		Assume: []string{"an iteration over a map of at most 8 entries visits them in slot order from a start that varies; the permutations of insertion vary the slots", "keys that are pointers are told apart by what they point to"},
		Harnesses: []*Harness{
			{Name: "maps of 2", Single: true, Body: func(x *X) { orderMaps(x, 2, false) }},
			{Name: "maps of 3", Single: true, Body: func(x *X) { orderMaps(x, 3, false) }},
			{Name: "maps of 4", Single: true, Thorough: true, Body: func(x *X) { orderMaps(x, 4, false) }},
			{Name: "alike keys", Single: true, Body: orderAlikeKeys},
			{Name: "large maps", Single: true, Body: orderLarge},
			{Name: "rendered maps", Single: true, Body: func(x *X) { orderMaps(x, depthQT(2, 3), true) }},
			{Name: "imports", Single: true, Body: func(x *X) {
				orderImports(x, depthQT(3, 4), []*P{pBFoo, pAFoo, pYaml, pDFoo1})
			}},
			{Name: "alike imports", Single: true, Body: orderAlike},
			{Name: "many imports", Single: true, Body: orderMany},
			{Name: "file", Single: true, Body: func(x *X) { orderFile(x, depthQT(3, 4)) }},
		}})
}
