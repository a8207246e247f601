package main

// C04: source form of types. C05, C06: conversions from go/types and reflect.

import (
	"bytes"
	"fmt"
	gscanner "go/scanner"
	"go/token"
	"go/types"
	htemplate "html/template"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"os"
	"reflect"
	"strings"
	tscanner "text/scanner"
	ttemplate "text/template"
	"time"
	"unsafe"

	"github.com/jhump/gopoet"
)

// qualByName resolves references of type text written with package names.
func qualByName(qual, name string) string {
	if qual == "" {
		return "{" + "}" + name
	}
	return "{" + qual + "}" + name
}

// byName identifies packages by the name in a reference.
func byName(path, name string) string { return "{" + name + "}" }

func sourceForm(x *X, t *Ty) {
	x.Op()
	tn := t.TN()
	s := tn.String()
	x.Say("%s", s)
	want := dumper{pkg: byName, text: true}.Ty(t)
	readBack(x, s, want)
	// the same through the other ways of printing a type
	if got := fmt.Sprintf("%s", tn); got != s {
		x.Fail("%%s prints %q, String is %q", got, s)
	}
	if got := fmt.Sprintf("%v", tn); got != s {
		x.Fail("%%v prints %q, String is %q", got, s)
	}
	ts := gopoet.NewTypeSpec("", tn)
	if got := ts.String(); got != s {
		x.Fail("the unnamed type spec prints %q, its type %q", got, s)
	}
	x.Saw(s)
}

func readBack(x *X, s, want string) {
	e, err := parseType(s)
	if err != nil {
		x.Fail("%q is not a type: %v\nwanted %s", s, err, want)
	}
	if got := resolver(qualByName).Expr(e); got != want {
		x.Fail("%q denotes\n       %s\nwanted %s", s, got, want)
	}
	// and in places where more source follows
	for _, tmpl := range []string{"func(a %s, b int)", "func() (%s, error)", "struct{ F %s; G int }", "[]%s", "map[string]%s"} {
		e, err := parseType(fmt.Sprintf(tmpl, s))
		if err != nil {
			x.Fail("%s does not parse: %v", fmt.Sprintf(tmpl, s), err)
		}
		want := strings.Replace(map[string]string{
			"func(a %s, b int)":     "func(a:%s,b:int)()",
			"func() (%s, error)":    "func()(:%s,:{}error)",
			"struct{ F %s; G int }": "struct{F:%s:\"\";G:int:\"\"}",
			"[]%s":                  "[]%s",
			"map[string]%s":         "map[string]%s",
		}[tmpl], "%s", want, 1)
		if got := resolver(qualByName).Expr(e); got != want {
			x.Fail("%s denotes\n       %s\nwanted %s", fmt.Sprintf(tmpl, s), got, want)
		}
	}
}

var chanCtxs = []tyCtx{}

func init() {
	for _, c := range tyCtxs {
		switch c.name {
		case "chan", "send", "recv", "ptr", "result", "arg", "slice", "field", "methodresult", "variadic":
			chanCtxs = append(chanCtxs, c)
		}
	}
}

// chains nests the contexts in which parsing is sensitive to what precedes.
func chains(x *X, depth int) *Ty {
	t := Pick(x, []*Ty{tyInt, tyNamed(pAFoo, "T"), tyFunc(&Sg{})})
	n := x.Choose(depth + 1)
	for i := 0; i < n; i++ {
		t = chanCtxs[x.Choose(len(chanCtxs))].f(t)
	}
	return t
}

// genLength is an array of a special length, alone or inside of others. The
// length of an array of empty structs is not bounded by the address space.
func genLength(x *X) *Ty {
	var n int64
	if x.Bool() {
		n = 1 << uint(x.Choose(63))
	} else {
		n = 1
		for i := x.Choose(19); i > 0; i-- {
			n *= 10
		}
	}
	switch x.Choose(4) {
	case 1:
		n--
	case 2:
		n++
	case 3:
		n += n - 1
	}
	t := tyArray(tyStruct(), n)
	x.Say("length %d", n)
	switch x.Choose(5) {
	case 1:
		t = tyArray(t, 2)
	case 2:
		t = tyPtr(tyMap(tyStruct(), t))
	case 3:
		t = tyFuncAR([]Ar{ar("a", t)}, []Ar{ar("", tyArray(tyStruct(), 1))})
	case 4:
		t = tyArray(tyArray(tyStruct(), 3), n)
	}
	return t
}

func reflectLength(x *X) {
	t := genLength(x)
	var conv func(t *Ty) reflect.Type
	conv = func(t *Ty) reflect.Type {
		switch t.K {
		case gopoet.KindArray:
			return reflect.ArrayOf(int(t.Len), conv(t.Elem))
		case gopoet.KindPtr:
			return reflect.PtrTo(conv(t.Elem))
		case gopoet.KindMap:
			return reflect.MapOf(conv(t.Key), conv(t.Elem))
		case gopoet.KindFunc:
			return reflect.FuncOf([]reflect.Type{conv(t.Sig.Args[0].T)}, []reflect.Type{conv(t.Sig.Results[0].T)}, false)
		}
		return reflect.TypeOf(struct{}{})
	}
	if t.K == gopoet.KindFunc {
		t.Sig.Args[0].Name = ""
	}
	reflectIs(x, rcase{conv(t), t})
}

func allLeaves() []*Ty {
	ls := stdLeaves()
	for _, k := range allBasics {
		ls = append(ls, tyBasic(k))
	}
	return ls
}

// ---- C05

// goLeaf pairs a model type with its go/types form.
func goConv(x *X, t *Ty) {
	w := newGoW()
	g := w.Type(t)
	x.Op()
	tn := gopoet.TypeNameForGoType(g)
	got := dumper{pkg: byBoth}.TN(tn)
	want := dumper{pkg: byBoth}.Ty(t)
	x.Say("%s", g)
	x.Saw(got)
	if got != want {
		x.Fail("%s became\n       %s\nwanted %s", g, got, want)
	}
}

// knownTy marks packages of go/types elements as always having a known name.
func goLeaves() []*Ty {
	known := func(p *P) *P { q := *p; q.Unknown = false; return &q }
	return append(stdLeaves(), tyNamed(pBar, "T"), tyNamed(known(pYaml), "I"))
}

func goMisc(x *X) {
	w := newGoW()
	x.Op()
	pk := Pick(x, []*P{pSelf, pAFoo, pBar, {Path: "ex.com/x/yaml.v2", Real: "yaml"}})
	gp := w.Pkg(pk)
	wantPkg := gopoet.Package{ImportPath: pk.Path, Name: pk.Real}
	if got := gopoet.PackageForGoType(gp); got != wantPkg {
		x.Fail("PackageForGoType(%v) = %+v, wanted %+v", gp, got, wantPkg)
	}
	if got := gopoet.PackageForGoType(nil); got != (gopoet.Package{}) {
		x.Fail("PackageForGoType(nil) = %+v", got)
	}
	kind := x.Choose(15)
	leaf := Pick(x, []*Ty{tyInt, tyNamed(pAFoo, "T"), tyPtr(tyNamed(pBFoo, "T"))})
	recvName := Pick(x, append([]string{""}, spellings...))
	sig := &Sg{Args: []Ar{ar("a", leaf)}, Results: []Ar{ar("", leaf)}, Variadic: false}
	if x.Bool() {
		sig = &Sg{Args: []Ar{ar("a", tySlice(leaf))}, Results: []Ar{ar("", tyError)}, Variadic: true}
	}
	lt := w.Type(leaf)
	wantSym := wantPkg.Symbol("Obj")
	x.Say("kind %d package %v leaf %v receiver name %q", kind, gp, lt, recvName)
	checkObj := func(o types.Object, want gopoet.SymbolOrMethodRef) {
		got := gopoet.SymbolForGoObject(o)
		x.Saw(fmt.Sprintf("%#v", got))
		if mr, ok := got.(*gopoet.MethodReference); ok {
			got = *mr
		}
		if got != want {
			x.Fail("SymbolForGoObject(%v) = %#v, wanted %#v", o, got, want)
		}
	}
	checkT := func(g types.Type, want *Ty) {
		got := dumper{pkg: byBoth}.TN(gopoet.TypeNameForGoType(g))
		exp := dumper{pkg: byBoth}.Ty(want)
		x.Saw(got)
		if got != exp {
			x.Fail("%v became\n       %s\nwanted %s", g, got, exp)
		}
	}
	method := func(recv types.Type, recvTy *Ty, iface bool) {
		fn := types.NewFunc(token.NoPos, gp, "M", w.sig(sig, types.NewVar(token.NoPos, gp, recvName, recv)))
		checkObj(fn, gopoet.MethodReference{Type: wantPkg.Symbol("R"), Method: "M"})
		full := *sig
		if !iface {
			full.Args = append([]Ar{ar(recvName, recvTy)}, sig.Args...)
		}
		checkT(fn.Type(), tyFunc(&full))
	}
	named := func(under types.Type) *types.Named {
		return types.NewNamed(types.NewTypeName(token.NoPos, gp, "R", nil), under, nil)
	}
	rTy := tyNamed(&P{Path: pk.Path, Real: pk.Real}, "R")
	switch kind {
	case 0:
		checkObj(types.NewVar(token.NoPos, gp, "Obj", lt), wantSym)
	case 1:
		checkObj(types.NewConst(token.NoPos, gp, "Obj", types.Typ[types.Int], nil), wantSym)
	case 2:
		checkObj(types.NewTypeName(token.NoPos, gp, "Obj", lt), wantSym)
	case 3:
		checkObj(types.NewFunc(token.NoPos, gp, "Obj", w.sig(sig, nil)), wantSym)
		checkT(w.sig(sig, nil), tyFunc(sig))
	case 4:
		method(named(types.Typ[types.Int]), rTy, false)
	case 5:
		method(types.NewPointer(named(types.NewStruct(nil, nil))), tyPtr(rTy), false)
	case 6:
		// a method of a named interface; its signature has no extra argument
		method(named(types.NewInterfaceType(nil, nil).Complete()), rTy, true)
	case 7:
		checkT(types.NewAlias(types.NewTypeName(token.NoPos, gp, "Al", nil), lt), tyNamed(&P{Path: pk.Path, Real: pk.Real}, "Al"))
	case 8:
		// predeclared names that are not basic types
		checkT(types.Universe.Lookup("error").Type(), tyError)
		checkT(types.Universe.Lookup("any").Type(), tyNamed(nil, "any"))
		checkObj(types.Universe.Lookup("error"), gopoet.Symbol{Name: "error"})
		checkObj(types.Universe.Lookup("true"), gopoet.Symbol{Name: "true"})
		em := types.Universe.Lookup("error").Type().Underlying().(*types.Interface).ExplicitMethod(0)
		checkObj(em, gopoet.MethodReference{Type: gopoet.Symbol{Name: "error"}, Method: "Error"})
	case 9:
		checkT(types.Universe.Lookup("byte").Type(), tyBasic(reflect.Uint8))
		checkT(types.Universe.Lookup("rune").Type(), tyBasic(reflect.Int32))
	case 10:
		for _, k := range []types.BasicKind{types.UntypedBool, types.UntypedInt, types.UntypedRune, types.UntypedFloat, types.UntypedComplex, types.UntypedString, types.UntypedNil, types.Invalid} {
			if _, p := catch(func() { gopoet.TypeNameForGoType(types.Typ[k]) }); !p {
				x.Fail("the untyped basic type %v was accepted", types.Typ[k])
			}
		}
	case 11:
		if _, p := catch(func() { gopoet.TypeNameForGoType(types.NewTuple()) }); !p {
			x.Fail("a tuple was accepted")
		}
	case 12:
		// a named type whose underlying type is written with the same names
		checkT(named(lt.Underlying()), rTy)
		checkT(types.NewPointer(types.NewSlice(named(lt.Underlying()))), tyPtr(tySlice(rTy)))
	case 13:
		// every basic kind
		for _, k := range allBasics {
			checkT(types.Typ[goBasic[k]], tyBasic(k))
			checkT(types.NewMap(types.Typ[goBasic[k]], types.NewPointer(types.Typ[goBasic[k]])), tyMap(tyBasic(k), tyPtr(tyBasic(k))))
		}
	case 14:
		// interfaces that embed types and aliases, which keep their own names
		unnamed := types.NewInterfaceType([]*types.Func{types.NewFunc(token.NoPos, gp, "M", w.sig(sig, nil))}, nil)
		alias := func(n string, g types.Type) types.Type {
			return types.NewAlias(types.NewTypeName(token.NoPos, gp, n, nil), g)
		}
		self := &P{Path: pk.Path, Real: pk.Real}
		embeddable := []struct {
			g  types.Type
			sy Sy
		}{
			{types.Universe.Lookup("any").Type(), Sy{nil, "any"}},
			{types.Universe.Lookup("error").Type(), Sy{nil, "error"}},
			{named(unnamed), Sy{self, "R"}},
			{alias("AlE", types.Universe.Lookup("error").Type()), Sy{self, "AlE"}},
			{alias("AlR", named(unnamed)), Sy{self, "AlR"}},
			{alias("AlU", unnamed), Sy{self, "AlU"}},
			{alias("AlA", alias("AlB", unnamed)), Sy{self, "AlA"}},
		}
		var gs []types.Type
		var sys []Sy
		for i, n := 0, 1+x.Choose(3); i < n; i++ {
			e := Pick(x, embeddable)
			gs, sys = append(gs, e.g), append(sys, e.sy)
		}
		var ms []*types.Func
		var mds []Md
		if x.Bool() {
			ms = append(ms, types.NewFunc(token.NoPos, gp, "Own", w.sig(sig, nil)))
			mds = append(mds, Md{"Own", sig})
		}
		checkT(types.NewSlice(types.NewInterfaceType(ms, gs)), tySlice(tyIface(sys, mds...)))
	}
}

// goRefused: what can not be represented is refused, wherever it is.
func goRefused(x *X) {
	w := newGoW()
	gp := w.Pkg(pAFoo)
	sig := &Sg{Args: []Ar{ar("a", tyInt)}}
	named := func(under types.Type) *types.Named {
		return types.NewNamed(types.NewTypeName(token.NoPos, gp, "R", nil), under, nil)
	}
	intT, errT := types.Typ[types.Int], types.Universe.Lookup("error").Type()
	union := types.NewUnion([]*types.Term{types.NewTerm(x.Bool(), intT), types.NewTerm(false, types.Typ[types.String])})
	unnamed := types.NewInterfaceType([]*types.Func{types.NewFunc(token.NoPos, gp, "M", w.sig(sig, nil))}, nil)
	var bad types.Type
	embedded := true
	switch x.Choose(6) {
	case 0:
		bad = union
	case 1:
		bad = types.NewUnion([]*types.Term{types.NewTerm(true, intT)})
	case 2:
		bad = unnamed
	case 3:
		bad = intT
	case 4:
		bad = types.NewSlice(intT)
	case 5:
		bad, embedded = types.NewTuple(types.NewVar(token.NoPos, gp, "a", intT)), false
	}
	if embedded {
		var gs []types.Type
		n := 1 + x.Choose(3)
		at := x.Choose(n)
		for i := 0; i < n; i++ {
			if i == at {
				gs = append(gs, bad)
			} else {
				gs = append(gs, []types.Type{errT, named(types.NewInterfaceType(nil, nil))}[x.Choose(2)])
			}
		}
		var ms []*types.Func
		if x.Bool() {
			ms = append(ms, types.NewFunc(token.NoPos, gp, "Own", w.sig(sig, nil)))
		}
		bad = types.NewInterfaceType(ms, gs)
	}
	va := func(n string, t types.Type) *types.Var { return types.NewVar(token.NoPos, gp, n, t) }
	for i, n := 0, x.Choose(3); i < n; i++ {
		switch x.Choose(9) {
		case 0:
			bad = types.NewPointer(bad)
		case 1:
			bad = types.NewSlice(bad)
		case 2:
			bad = types.NewArray(bad, 3)
		case 3:
			bad = types.NewMap(bad, intT)
		case 4:
			bad = types.NewMap(intT, bad)
		case 5:
			bad = types.NewChan(types.RecvOnly, bad)
		case 6:
			bad = types.NewStruct([]*types.Var{types.NewField(token.NoPos, gp, "A", intT, false), types.NewField(token.NoPos, gp, "B", bad, false)}, nil)
		case 7:
			bad = types.NewSignatureType(nil, nil, nil, types.NewTuple(va("a", intT), va("b", bad)), nil, false)
		case 8:
			bad = types.NewInterfaceType([]*types.Func{types.NewFunc(token.NoPos, gp, "N", types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(va("", intT), va("", bad)), false))}, nil)
		}
	}
	x.Op()
	x.Say("%v", bad)
	x.Saw(fmt.Sprint(bad))
	var got gopoet.TypeName
	if _, p := catch(func() { got = gopoet.TypeNameForGoType(bad) }); !p {
		x.Fail("%v, which can not be represented, became %v", bad, got)
	}
}

// ---- C06

type HNamed struct{ A int }
type HIface interface{ M() }
type HInt int
type HFunc func(int) string
type HSlice []int
type HMap map[string]int
type hUnexp struct{}

type rcase struct {
	r reflect.Type
	t *Ty
}

var pMain = &P{Path: reflect.TypeOf(HNamed{}).PkgPath(), Real: "main"}

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

func reflectLeaves() []rcase {
	named := func(path, n string) *Ty { return tyNamed(&P{Path: path, Real: path}, n) }
	out := []rcase{
		{rt[HNamed](), tyNamed(pMain, "HNamed")},
		{rt[HIface](), tyNamed(pMain, "HIface")},
		{rt[HInt](), tyNamed(pMain, "HInt")},
		{rt[HFunc](), tyNamed(pMain, "HFunc")},
		{rt[HSlice](), tyNamed(pMain, "HSlice")},
		{rt[HMap](), tyNamed(pMain, "HMap")},
		{rt[hUnexp](), tyNamed(pMain, "hUnexp")},
		{rt[error](), tyError},
		{rt[bytes.Buffer](), named("bytes", "Buffer")},
		{rt[time.Duration](), named("time", "Duration")},
		{rt[os.FileInfo](), named("io/fs", "FileInfo")},
		// types that print alike
		{rt[ttemplate.Template](), named("text/template", "Template")},
		{rt[htemplate.Template](), named("html/template", "Template")},
		{rt[mrand.Rand](), named("math/rand", "Rand")},
		{rt[mrand2.Rand](), named("math/rand/v2", "Rand")},
		{rt[tscanner.Scanner](), named("text/scanner", "Scanner")},
		{rt[gscanner.Scanner](), named("go/scanner", "Scanner")},
		{rt[interface{ M(*ttemplate.Template) }](), tyIface(nil, Md{"M", &Sg{Args: []Ar{ar("", tyPtr(named("text/template", "Template")))}}})},
		{rt[interface{ M(*htemplate.Template) }](), tyIface(nil, Md{"M", &Sg{Args: []Ar{ar("", tyPtr(named("html/template", "Template")))}}})},
		{rt[struct{ *ttemplate.Template }](), tyStruct(Fd{"", tyPtr(named("text/template", "Template")), ""})},
		{rt[struct{ *htemplate.Template }](), tyStruct(Fd{"", tyPtr(named("html/template", "Template")), ""})},
		{rt[interface{ m(int) }](), tyIface(nil, Md{"m", &Sg{Args: []Ar{ar("", tyInt)}}})},
		{rt[unsafe.Pointer](), tyNamed(pUnsafe, "Pointer")},
		{rt[interface{}](), tyIface(nil)},
		{rt[struct{}](), tyStruct()},
		{rt[interface {
			B(x int, ys ...string) (HInt, error)
			A()
		}](), tyIface(nil, Md{"A", &Sg{}}, Md{"B", &Sg{Args: []Ar{ar("", tyInt), ar("", tySlice(tyString))}, Results: []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, Variadic: true}})},
		{rt[interface {
			error
			Z(map[HInt]*bytes.Buffer) <-chan HNamed
		}](), tyIface(nil, Md{"Error", &Sg{Results: []Ar{ar("", tyString)}}}, Md{"Z", &Sg{Args: []Ar{ar("", tyMap(tyNamed(pMain, "HInt"), tyPtr(named("bytes", "Buffer"))))}, Results: []Ar{ar("", tyChan(tyNamed(pMain, "HNamed"), reflect.RecvDir))}}})},
		{rt[struct {
			HNamed
			*bytes.Buffer `t:"1"`
			HIface
			hUnexp
			error
			b, C int "x`y"
			D    func(...HInt)
		}](), tyStruct(Fd{"", tyNamed(pMain, "HNamed"), ""}, Fd{"", tyPtr(named("bytes", "Buffer")), `t:"1"`}, Fd{"", tyNamed(pMain, "HIface"), ""}, Fd{"", tyNamed(pMain, "hUnexp"), ""}, Fd{"", tyError, ""}, Fd{"b", tyInt, "x`y"}, Fd{"C", tyInt, "x`y"}, Fd{"D", tyFunc(&Sg{Args: []Ar{ar("", tySlice(tyNamed(pMain, "HInt")))}, Variadic: true}), ""})},
		{rt[struct {
			int
			X struct{ Y, z string }
		}](), tyStruct(Fd{"", tyInt, ""}, Fd{"X", tyStruct(Fd{"Y", tyString, ""}, Fd{"z", tyString, ""}), ""})},
	}
	for _, v := range []interface{}{false, "", int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), float64(0), complex64(0), complex128(0)} {
		r := reflect.TypeOf(v)
		out = append(out, rcase{r, tyBasic(r.Kind())})
	}
	return out
}

type rctx struct {
	name string
	f    func(c rcase) rcase
}

var rctxs = []rctx{
	{"ptr", func(c rcase) rcase { return rcase{reflect.PointerTo(c.r), tyPtr(c.t)} }},
	{"slice", func(c rcase) rcase { return rcase{reflect.SliceOf(c.r), tySlice(c.t)} }},
	{"array", func(c rcase) rcase { return rcase{reflect.ArrayOf(3, c.r), tyArray(c.t, 3)} }},
	{"array0", func(c rcase) rcase { return rcase{reflect.ArrayOf(0, c.r), tyArray(c.t, 0)} }},
	{"mapval", func(c rcase) rcase { return rcase{reflect.MapOf(rt[HInt](), c.r), tyMap(tyNamed(pMain, "HInt"), c.t)} }},
	{"mapkey", func(c rcase) rcase {
		if !c.r.Comparable() {
			panic(skip{})
		}
		return rcase{reflect.MapOf(c.r, rt[string]()), tyMap(c.t, tyString)}
	}},
	{"chan", func(c rcase) rcase { return rcase{reflect.ChanOf(reflect.BothDir, c.r), tyChan(c.t, reflect.BothDir)} }},
	{"send", func(c rcase) rcase { return rcase{reflect.ChanOf(reflect.SendDir, c.r), tyChan(c.t, reflect.SendDir)} }},
	{"recv", func(c rcase) rcase { return rcase{reflect.ChanOf(reflect.RecvDir, c.r), tyChan(c.t, reflect.RecvDir)} }},
	{"arg", func(c rcase) rcase {
		return rcase{reflect.FuncOf([]reflect.Type{rt[int](), c.r}, nil, false), tyFuncAR([]Ar{ar("", tyInt), ar("", c.t)}, nil)}
	}},
	{"results", func(c rcase) rcase {
		return rcase{reflect.FuncOf([]reflect.Type{rt[string]()}, []reflect.Type{c.r, rt[error]()}, false), tyFuncAR([]Ar{ar("", tyString)}, []Ar{ar("", c.t), ar("", tyError)})}
	}},
	{"variadic", func(c rcase) rcase {
		return rcase{reflect.FuncOf([]reflect.Type{rt[bool](), reflect.SliceOf(c.r)}, []reflect.Type{c.r}, true), tyFunc(&Sg{Args: []Ar{ar("", tyBasic(reflect.Bool)), ar("", tySlice(c.t))}, Results: []Ar{ar("", c.t)}, Variadic: true})}
	}},
	{"lastslice", func(c rcase) rcase {
		return rcase{reflect.FuncOf([]reflect.Type{reflect.SliceOf(c.r)}, nil, false), tyFuncAR([]Ar{ar("", tySlice(c.t))}, nil)}
	}},
	{"field", func(c rcase) rcase {
		return rcase{reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt[int]()}, {Name: "B", Type: c.r, Tag: `j:"b"`}}), tyStruct(Fd{"A", tyInt, ""}, Fd{"B", c.t, `j:"b"`})}
	}},
	{"unexportedfield", func(c rcase) rcase {
		return rcase{reflect.StructOf([]reflect.StructField{{Name: "a", PkgPath: "p", Type: c.r}, {Name: "B", Type: c.r}}), tyStruct(Fd{"a", c.t, ""}, Fd{"B", c.t, ""})}
	}},
}

// reflectSignature: func types with every list of arguments and results.
func reflectSignature(x *X, max int) {
	ls := []rcase{{rt[int](), tyInt}, {rt[[]string](), tySlice(tyString)}, {rt[HNamed](), tyNamed(pMain, "HNamed")}}
	list := func(n int) (rs []reflect.Type, as []Ar) {
		for i := x.Choose(n + 1); i > 0; i-- {
			c := Pick(x, ls)
			rs, as = append(rs, c.r), append(as, ar("", c.t))
		}
		return
	}
	ins, args := list(max)
	outs, results := list(max)
	variadic := len(ins) > 0 && ins[len(ins)-1].Kind() == reflect.Slice && x.Bool()
	c := rcase{reflect.FuncOf(ins, outs, variadic), tyFunc(&Sg{Args: args, Results: results, Variadic: variadic})}
	if x.Bool() {
		c = rcase{reflect.MapOf(rt[string](), c.r), tyMap(tyString, c.t)}
	}
	reflectIs(x, c)
}

func reflectConv(x *X, ls []rcase, depth int) {
	c := ls[x.Choose(len(ls))]
	n := x.Choose(depth + 1)
	for i := 0; i < n; i++ {
		c = rctxs[x.Choose(len(rctxs))].f(c)
	}
	reflectIs(x, c)
}

func reflectIs(x *X, c rcase) {
	x.Op()
	x.Say("%s", c.r)
	got := dumper{pkg: byPath}.TN(gopoet.TypeNameForReflectType(c.r))
	want := dumper{pkg: byPath}.Ty(c.t)
	x.Saw(got)
	if got != want {
		x.Fail("%s became\n       %s\nwanted %s", c.r, got, want)
	}
}

// builtins compares the types that the library declares for predeclared types
// with the types they are named after, by their text and their accessors.
func builtins(x *X) {
	named := Pick(x, []struct {
		name string
		t    gopoet.TypeName
		kind reflect.Kind
	}{
		{"int", gopoet.IntType, reflect.Int},
		{"int8", gopoet.Int8Type, reflect.Int8},
		{"int16", gopoet.Int16Type, reflect.Int16},
		{"int32", gopoet.Int32Type, reflect.Int32},
		{"int64", gopoet.Int64Type, reflect.Int64},
		{"rune", gopoet.RuneType, reflect.Int32},
		{"uint", gopoet.UintType, reflect.Uint},
		{"uint8", gopoet.Uint8Type, reflect.Uint8},
		{"uint16", gopoet.Uint16Type, reflect.Uint16},
		{"uint32", gopoet.Uint32Type, reflect.Uint32},
		{"uint64", gopoet.Uint64Type, reflect.Uint64},
		{"byte", gopoet.ByteType, reflect.Uint8},
		{"uintptr", gopoet.UintptrType, reflect.Uintptr},
		{"bool", gopoet.BoolType, reflect.Bool},
		{"string", gopoet.StringType, reflect.String},
		{"float32", gopoet.Float32Type, reflect.Float32},
		{"float64", gopoet.Float64Type, reflect.Float64},
		{"complex64", gopoet.Complex64Type, reflect.Complex64},
		{"complex128", gopoet.Complex128Type, reflect.Complex128},
		{"error", gopoet.ErrorType, reflect.Invalid},
		{"unsafe.Pointer", gopoet.UnsafePointerType, reflect.UnsafePointer},
	})
	x.Saw(named.name)
	tv, err := types.Eval(token.NewFileSet(), withUnsafe(), token.NoPos, named.name)
	if err != nil {
		panic(err)
	}
	got, err := types.Eval(token.NewFileSet(), withUnsafe(), token.NoPos, named.t.String())
	if err != nil || !got.IsType() || !types.Identical(tv.Type, got.Type) {
		x.Fail("the variable for %s is the type %s", named.name, named.t)
	}
	switch {
	case named.kind == reflect.Invalid:
		if named.t.Kind() != gopoet.KindNamed || named.t.Symbol() != (gopoet.Symbol{Name: named.name}) {
			x.Fail("%s: kind %v, symbol %v", named.name, named.t.Kind(), named.t.Symbol())
		}
	case named.kind == reflect.UnsafePointer:
		if named.t.Kind() != gopoet.KindNamed || named.t.Symbol() != gopoet.NewSymbol("unsafe", "Pointer") {
			x.Fail("%s: kind %v, symbol %v", named.name, named.t.Kind(), named.t.Symbol())
		}
	default:
		if named.t.Kind() != gopoet.KindBasic || named.t.BasicKind() != named.kind {
			x.Fail("%s: kind %v, basic kind %v", named.name, named.t.Kind(), named.t.BasicKind())
		}
	}
	if gopoet.KindInvalid == named.t.Kind() {
		x.Fail("%s is of invalid kind", named.name)
	}
}

// withUnsafe is a package that imports unsafe.
func withUnsafe() *types.Package {
	p := types.NewPackage("ex.com/u", "u")
	p.SetImports([]*types.Package{types.Unsafe})
	p.Scope().Insert(types.NewPkgName(token.NoPos, p, "unsafe", types.Unsafe))
	return p
}

func init() {
	register(&Prop{ID: "C04", Level: "model_checking",
		Rule:   "every nesting up to the depth bound of type contexts around every leaf, every chain of contexts sensitive to what precedes them, and every small signature, struct and interface: its text is parsed as Go source, alone and in places where more source follows, and compared structurally with the model",
		Assume: []string{"go/parser reads Go source correctly", "package names are known"},
		Harnesses: []*Harness{
			{Name: "builtins", Body: builtins},
			{Name: "large", Body: func(x *X) { sourceForm(x, genLarge(x)) }},
			{Name: "spelling", Body: func(x *X) { sourceForm(x, genSpelled(x)) }},
			{Name: "leaves", Body: func(x *X) { sourceForm(x, genTy(x, 1, allLeaves())) }},
			{Name: "nested", Body: func(x *X) {
				sourceForm(x, genTy(x, 3, stdLeaves()))
			}},
			{Name: "lengths", Body: func(x *X) { sourceForm(x, genLength(x)) }},
			{Name: "chains", Body: func(x *X) { sourceForm(x, chains(x, depthQT(5, 6))) }},
			{Name: "wide", Body: func(x *X) {
				sourceForm(x, genWide(x, depthQT(2, 2), []*Ty{tyInt, tyNamed(pAFoo, "I"), tyChan(tyInt, reflect.RecvDir)}))
			}},
		}})
	register(&Prop{ID: "C05", Level: "model_checking",
		Rule:   "every nesting up to the depth bound of go/types type constructors around every leaf, every kind of object and receiver; the result is inspected through all of its accessors and compared with the model the go/types value was built from",
		Assume: []string{"interfaces embed named interfaces only and nothing is generic, as documented for this representation"},
		Harnesses: []*Harness{
			{Name: "nested", Body: func(x *X) { goConv(x, genTy(x, depthQT(3, 4), goLeaves())) }},
			{Name: "wide", Body: func(x *X) { goConv(x, genWide(x, 2, []*Ty{tyInt, tyNamed(pAFoo, "T"), tyNamed(pBFoo, "I")})) }},
			{Name: "objects", Body: goMisc},
			{Name: "refused", Body: goRefused},
			{Name: "lengths", Body: func(x *X) { goConv(x, genLength(x)) }},
			{Name: "large", Body: func(x *X) { goConv(x, genLarge(x)) }},
			{Name: "spelling", Body: func(x *X) { goConv(x, genSpelled(x)) }},
			{Name: "zoo", Body: func(x *X) {
				var paths []string
				for _, p := range zoo(pSelf.Path) {
					if p != "unsafe" { // go/types has one package of that path, with a type of its own
						paths = append(paths, p)
					}
				}
				goConv(x, genZooOf(x, paths, false))
			}},
		}})
	register(&Prop{ID: "C06", Level: "model_checking",
		Rule:   "every nesting up to the depth bound of reflect type constructors around every leaf, including named, predeclared, unnamed struct and interface types declared in source, interface methods and funcs of every small signature, and types declared with predeclared names; the result is inspected through all of its accessors and compared with the model",
		Assume: []string{"type parameters are not represented"},
		Harnesses: []*Harness{
			{Name: "large", Body: reflectLarge},
			{Name: "spelling", Body: reflectSpelled},
			{Name: "lengths", Body: reflectLength},
			{Name: "nested", Body: func(x *X) { reflectConv(x, reflectLeaves(), depthQT(3, 4)) }},
			{Name: "methods", Body: func(x *X) { reflectConv(x, methodPool(), depthQT(1, 2)) }},
			{Name: "names", Body: func(x *X) { reflectConv(x, shadowPool(), depthQT(2, 3)) }},
			{Name: "signatures", Body: func(x *X) { reflectSignature(x, depthQT(3, 4)) }},
		}})
}
