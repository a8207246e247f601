package main

// C07: the references and imports of a rendered file resolve.

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"text/template"

	"github.com/jhump/gopoet"
)

// Each slot of a file is one place that can reference a package-level element.
// The element referenced from slot k is named X<k>, where X tells what it is:
// T a type, I an interface, C a const, V a var, F a func, and so the slot of
// every reference in rendered source is known by name.
type slot struct {
	name string
	kind string
	add  func(b *fileB, s Sy)
}

// fileB is a file being built.
type fileB struct {
	f     *gopoet.GoFile
	k     int // number of the slot
	w     *GoW
	owner map[string]*gopoet.GoFile // other files, by package path
	body  *gopoet.FuncSpec
	raws  int
}

// other returns a file of package p in which further elements are declared, as
// the generated code of another package or of another file of this package.
func (b *fileB) other(p *P) *gopoet.GoFile {
	g := b.owner[p.Path]
	if g == nil {
		g = gopoet.NewGoFile("other.go", p.Path, p.Real)
		b.owner[p.Path] = g
	}
	return g
}

func (b *fileB) n(s string) string { return fmt.Sprintf("%s_%d", s, b.k) }

func tname(s Sy) gopoet.TypeName { return gopoet.NamedType(s.Sym()) }

var tmplSym = template.Must(template.New("t").Parse(`{{range .}}_ = {{.}}
{{end}}`))
var tmplStruct = template.Must(template.New("t").Parse(`{{.Decl}} {{.T}}
_ = *new({{index .M "k"}})
`))
var tmplPkg = template.Must(template.New("t").Parse(`_ = {{.P}}.{{.N}}
`))

var slots = []slot{
	{"const type", "T", func(b *fileB, s Sy) {
		b.f.AddConst(gopoet.NewConst(b.n("c")).SetType(tname(s)).Initialize("1"))
	}},
	{"const initializer", "C", func(b *fileB, s Sy) { b.f.AddConst(gopoet.NewConst(b.n("c")).Initialize("%s + 1", s.Sym())) }},
	{"const group", "C", func(b *fileB, s Sy) {
		b.f.AddElement(gopoet.NewConstDecl(gopoet.NewConst(b.n("c")).Initialize("7"), gopoet.NewConst(b.n("d"), b.n("e")).Initialize("1, %v", s.Sym())))
	}},
	{"var type", "T", func(b *fileB, s Sy) { b.f.AddVar(gopoet.NewVar(b.n("v"), b.n("u")).SetType(tname(s))) }},
	{"var group", "T", func(b *fileB, s Sy) {
		b.f.AddElement(gopoet.NewVarDecl(gopoet.NewVar(b.n("v")).SetType(gopoet.IntType), gopoet.NewVar(b.n("w")).SetType(gopoet.MapType(tname(s), gopoet.StringType))))
	}},
	{"var of unnamed struct spec", "T", func(b *fileB, s Sy) {
		b.f.AddVar(gopoet.NewVar(b.n("v")).SetType(gopoet.NewStructTypeSpec("", gopoet.NewField("A", gopoet.PointerType(tname(s))))))
	}},
	{"var of unnamed interface spec", "T", func(b *fileB, s Sy) {
		b.f.AddVar(gopoet.NewVar(b.n("v")).SetType(gopoet.NewInterfaceTypeSpec("", gopoet.NewInterfaceMethod("M").AddArg("a", tname(s)))))
	}},
	{"var initializer", "V", func(b *fileB, s Sy) { b.f.AddVar(gopoet.NewVar(b.n("v")).Initialize("%s", s.Sym())) }},
	{"var initializer from template", "V", func(b *fileB, s Sy) {
		cb := gopoet.RenderCode(template.Must(template.New("").Parse("{{.}}")), s.Sym())
		b.f.AddVar(gopoet.NewVar(b.n("v")).SetInitializer((&gopoet.CodeBlock{}).AddCode(cb)))
	}},
	{"type alias", "T", func(b *fileB, s Sy) { b.f.AddType(gopoet.NewTypeAlias(b.n("A"), tname(s))) }},
	{"type definition", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewTypeSpec(b.n("D"), gopoet.SliceType(gopoet.ChannelType(tname(s), reflect.RecvDir))))
	}},
	{"struct field", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewStructTypeSpec(b.n("S"), gopoet.NewField("A", gopoet.IntType), gopoet.NewField("B", tname(s)).SetTag("x")))
	}},
	{"embedded field", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewStructTypeSpec(b.n("S"), gopoet.NewField("", tname(s))))
	}},
	{"field of unnamed struct spec", "T", func(b *fileB, s Sy) {
		in := gopoet.NewStructTypeSpec("", gopoet.NewField("C", gopoet.SliceType(tname(s))))
		b.f.AddType(gopoet.NewStructTypeSpec(b.n("S"), gopoet.NewField("B", in)))
	}},
	{"method of unnamed interface spec", "T", func(b *fileB, s Sy) {
		in := gopoet.NewInterfaceTypeSpec("", gopoet.NewInterfaceMethod("C").AddResult("", tname(s)))
		b.f.AddType(gopoet.NewStructTypeSpec(b.n("S"), gopoet.NewField("B", in)))
	}},
	{"field of unnamed struct type", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewStructTypeSpec(b.n("S"), gopoet.NewField("B", gopoet.StructType(gopoet.FieldType{Name: "X", Type: tname(s)}))))
	}},
	{"embedded interface", "I", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewInterfaceTypeSpec(b.n("N"), gopoet.NewInterfaceEmbed(s.Sym())))
	}},
	{"interface method argument", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewInterfaceTypeSpec(b.n("N"), gopoet.NewInterfaceMethod("A"), gopoet.NewInterfaceMethod("B").AddArg("", tname(s)).AddResult("", gopoet.ErrorType)))
	}},
	{"interface method result", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewInterfaceTypeSpec(b.n("N"), gopoet.NewInterfaceMethod("A").AddResult("r", gopoet.IntType).AddResult("", tname(s))))
	}},
	{"interface method variadic", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewInterfaceTypeSpec(b.n("N"), gopoet.NewInterfaceMethod("A").AddArg("r", gopoet.SliceType(tname(s))).SetVariadic(true)))
	}},
	{"struct from type name", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewTypeSpec(b.n("S"), gopoet.StructType(gopoet.FieldType{Name: "X", Type: tname(s), Tag: "t"}, gopoet.FieldType{Name: "Y", Type: gopoet.IntType})))
	}},
	{"interface from type name", "T", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewTypeSpec(b.n("N"), gopoet.InterfaceType([]gopoet.Symbol{{Name: "error"}}, gopoet.MethodType{Name: "X", Signature: gopoet.Signature{Args: []gopoet.ArgType{{Type: tname(s)}}}})))
	}},
	{"embedded from type name", "I", func(b *fileB, s Sy) {
		b.f.AddType(gopoet.NewTypeSpec(b.n("N"), gopoet.InterfaceType([]gopoet.Symbol{s.Sym()})))
	}},
	{"copy of unnamed spec", "T", func(b *fileB, s Sy) {
		in := gopoet.NewStructTypeSpec("", gopoet.NewField("C", tname(s)))
		b.f.AddType(gopoet.NewTypeSpec(b.n("S"), in))
	}},
	{"func argument", "T", func(b *fileB, s Sy) {
		b.f.AddElement(gopoet.NewFunc(b.n("f")).AddArg("a", gopoet.IntType).AddArg("b", tname(s)))
	}},
	{"func result", "T", func(b *fileB, s Sy) {
		b.f.AddElement(gopoet.NewFunc(b.n("f")).AddResult("r", tname(s)).Println("return"))
	}},
	{"func variadic", "T", func(b *fileB, s Sy) {
		b.f.AddElement(gopoet.NewFunc(b.n("f")).AddArg("a", gopoet.SliceType(tname(s))).SetVariadic(true))
	}},
	{"func of funcs", "T", func(b *fileB, s Sy) {
		ft := gopoet.FuncTypeVariadic([]gopoet.ArgType{{Type: gopoet.SliceType(tname(s))}}, []gopoet.ArgType{{Type: gopoet.ChannelType(tname(s), reflect.SendDir)}})
		b.f.AddElement(gopoet.NewFunc(b.n("f")).AddArg("a", gopoet.MapType(tname(s), gopoet.ArrayType(ft, 2))))
	}},
	{"method", "T", func(b *fileB, s Sy) {
		ts := gopoet.NewTypeSpec(b.n("R"), gopoet.IntType)
		b.f.AddType(ts)
		b.f.AddElement(gopoet.NewMethod(gopoet.NewPointerReceiverForType("r", ts), "M").AddArg("b", tname(s)))
	}},
	{"body symbol", "F", func(b *fileB, s Sy) { b.body.Printlnf("%s()", s.Sym()) }},
	{"body symbol pointer", "V", func(b *fileB, s Sy) { y := s.Sym(); b.body.Printlnf("_ = %v", &y) }},
	{"body package", "V", func(b *fileB, s Sy) {
		if s.Pkg == pSelf {
			b.body.Printlnf("_ = %s", s.Name)
			return
		}
		b.body.Printlnf("_ = %s.%s", s.Pkg.Pkg(), s.Name)
	}},
	{"body type", "T", func(b *fileB, s Sy) {
		b.body.Printlnf("{ var x %s; _ = x }", gopoet.MapType(gopoet.StringType, gopoet.PointerType(tname(s))))
	}},
	{"body method reference", "T", func(b *fileB, s Sy) {
		b.body.Printlnf("_ = %s", gopoet.MethodReference{Type: s.Sym(), Method: "Meth"})
	}},
	{"body method reference pointer", "T", func(b *fileB, s Sy) {
		b.body.Printlnf("_ = %s", &gopoet.MethodReference{Type: s.Sym(), Method: "Meth"})
	}},
	{"body from code block", "F", func(b *fileB, s Sy) {
		b.body.AddCode(gopoet.Printlnf("{ x := %s; _ = x }", s.Sym()).Println("// end"))
	}},
	{"body template of symbols", "V", func(b *fileB, s Sy) { b.body.RenderCode(tmplSym, []gopoet.Symbol{s.Sym()}) }},
	{"body template of interfaces", "V", func(b *fileB, s Sy) {
		y := s.Sym()
		b.body.RenderCode(tmplSym, []interface{}{"1", &y})
	}},
	{"body template of struct", "T", func(b *fileB, s Sy) {
		b.body.RenderCode(tmplStruct, struct {
			Decl string
			T    gopoet.TypeName
			M    map[string]gopoet.TypeName
		}{"var _", gopoet.SliceType(tname(s)), map[string]gopoet.TypeName{"k": tname(s)}})
	}},
	{"body template package", "V", func(b *fileB, s Sy) {
		if s.Pkg == pSelf {
			b.body.Printlnf("_ = %s", s.Name)
			return
		}
		p := s.Pkg.Pkg()
		b.body.RenderCode(tmplPkg, &struct {
			P *gopoet.Package
			N string
		}{&p, s.Name})
	}},
	{"body go type", "T", func(b *fileB, s Sy) {
		b.body.Printlnf("var _ %s", types.NewSlice(b.w.Named(s)))
	}},
	{"body go object", "V", func(b *fileB, s Sy) {
		b.body.Printlnf("_ = %s", types.NewVar(token.NoPos, b.w.Pkg(s.Pkg), s.Name, types.Typ[types.Int]))
	}},
	{"body go method", "T", func(b *fileB, s Sy) {
		recv := types.NewVar(token.NoPos, b.w.Pkg(s.Pkg), "r", b.w.Named(s))
		b.body.Printlnf("_ = %s", types.NewFunc(token.NoPos, b.w.Pkg(s.Pkg), "Meth", types.NewSignature(recv, nil, nil, false)))
	}},
	{"body go package", "V", func(b *fileB, s Sy) {
		if s.Pkg == pSelf {
			b.body.Printlnf("_ = %s", s.Name)
			return
		}
		b.body.Printlnf("_ = %s.%s", b.w.Pkg(s.Pkg), s.Name)
	}},
	{"body go template", "V", func(b *fileB, s Sy) {
		b.body.RenderCode(tmplSym, map[string]interface{}{"k": types.NewVar(token.NoPos, b.w.Pkg(s.Pkg), s.Name, types.Typ[types.Int])})
	}},
	{"body type spec of other file", "T", func(b *fileB, s Sy) {
		ts := gopoet.NewTypeSpec(s.Name, gopoet.IntType)
		b.other(s.Pkg).AddType(ts)
		b.body.Printlnf("var _ %s", ts)
	}},
	{"body const spec of other file", "C", func(b *fileB, s Sy) {
		c := gopoet.NewConst(s.Name).Initialize("1")
		b.other(s.Pkg).AddConst(c)
		b.body.Printlnf("_ = %s", c)
	}},
	{"body var spec of other file", "V", func(b *fileB, s Sy) {
		v := gopoet.NewVar(s.Name).SetType(gopoet.IntType)
		b.other(s.Pkg).AddVar(v)
		b.body.Printlnf("_ = %s", v)
	}},
	{"body func of other file", "F", func(b *fileB, s Sy) {
		f := gopoet.NewFunc(s.Name)
		b.other(s.Pkg).AddElement(f)
		b.body.Printlnf("%s()", f)
	}},
	{"body template specs of other file", "V", func(b *fileB, s Sy) {
		v := gopoet.NewVar(s.Name).SetType(gopoet.IntType)
		b.other(s.Pkg).AddVar(v)
		b.body.RenderCode(tmplSym, [1]*gopoet.VarSpec{v})
	}},
	{"field of type spec of other file", "T", func(b *fileB, s Sy) {
		ts := gopoet.NewTypeSpec(s.Name, gopoet.IntType)
		b.other(s.Pkg).AddType(ts)
		b.f.AddType(gopoet.NewStructTypeSpec(b.n("S"), gopoet.NewField("B", ts)))
	}},
	{"var of type spec of other file", "T", func(b *fileB, s Sy) {
		ts := gopoet.NewTypeSpec(s.Name, gopoet.IntType)
		b.other(s.Pkg).AddType(ts)
		b.f.AddVar(gopoet.NewVar(b.n("v")).SetType(ts))
	}},
	{"const of type spec of other file", "T", func(b *fileB, s Sy) {
		ts := gopoet.NewTypeSpec(s.Name, gopoet.IntType)
		b.other(s.Pkg).AddType(ts)
		b.f.AddConst(gopoet.NewConst(b.n("c")).SetType(ts).Initialize("3"))
	}},
	{"alias of type spec of other file", "T", func(b *fileB, s Sy) {
		ts := gopoet.NewTypeSpec(s.Name, gopoet.IntType)
		b.other(s.Pkg).AddType(ts)
		b.f.AddType(gopoet.NewTypeAlias(b.n("A"), ts))
	}},
	{"manual import", "V", func(b *fileB, s Sy) {
		b.body.Printlnf("_ = %s%s", b.f.RegisterImportForPackage(s.Pkg.Pkg()), s.Name)
	}},
	{"manual symbol", "T", func(b *fileB, s Sy) {
		b.body.Printlnf("_ = new(%s)", b.f.EnsureTypeImported(tname(s)))
	}},
}

const maxSlots = 64

// fakeDecls is the source of the elements that slots k reference.
func fakeDecls(pkg string, ks []int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n", pkg)
	for _, k := range ks {
		fmt.Fprintf(&b, "type T%d int\nfunc (T%d) Meth() {}\ntype I%d interface{ IM%d() }\nconst C%d = 1\nvar V%d int\nfunc F%d() {}\n", k, k, k, k, k, k, k)
	}
	return b.String()
}

var fakeOnce sync.Once
var fakePkgs map[string]*types.Package

// zooPs are the packages of the zoo that exist for the type checker.
func zooPs() []*P {
	var out []*P
	for _, path := range zoo(pSelf.Path) {
		if path != pSelf.Path && path != "C" && path != "unsafe" && findP(path) == nil {
			out = append(out, zooP(path, false))
		}
	}
	return out
}

// refsZoo: references to two packages of the zoo.
func refsZoo(x *X) {
	paths := append(zooPs(), pSelf, pAFoo, pShort)
	p := Pick(x, paths)
	if p.Path == "ex.com/a/foo" || p == pSelf || p == pShort {
		// as they are
	} else if x.Bool() {
		q := *p
		q.Unknown = true
		p = &q
	}
	b := newFileB()
	want := map[int]slotRef{}
	k := x.Choose(len(zooSlots))
	for i := range slots {
		if slots[i].name == zooSlots[k] {
			x.Say("%s from %q", slots[i].name, p.Path)
			b.use(x, want, i, p)
		}
	}
	q := Pick(x, paths)
	for i := range slots {
		if slots[i].name == "var type" {
			x.Say("%s from %q", slots[i].name, q.Path)
			b.use(x, want, i, q)
		}
	}
	b.finish(x, want, 1)
}

var zooSlots = []string{"func argument", "body symbol", "body template of struct", "embedded interface", "body go type", "field of type spec of other file"}

type fakeImporter struct{}

func (fakeImporter) Import(path string) (*types.Package, error) {
	fakeOnce.Do(func() {
		fakePkgs = map[string]*types.Package{}
		var ks []int
		for i := 0; i < maxSlots; i++ {
			ks = append(ks, i)
		}
		for _, p := range append(append(zooPs(), largePkgs...), universe...) {
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, "x.go", fakeDecls(p.Real, ks), 0)
			if err != nil {
				panic(err)
			}
			g, err := (&types.Config{}).Check(p.Path, fset, []*ast.File{f}, nil)
			if err != nil {
				panic(err)
			}
			fakePkgs[p.Path] = g
		}
	})
	if g := fakePkgs[path]; g != nil {
		return g, nil
	}
	return nil, fmt.Errorf("no package %q", path)
}

var slotName = regexp.MustCompile(`^[TICVF]([0-9]+)$`)

// slotRef is what one used slot must resolve to.
type slotRef struct {
	name string
	pkg  *P
}

// checkRefs type-checks a rendered file as part of package self and compares
// what it imports and references with the intended references and with the
// packages that were registered by hand.
func checkRefs(x *X, src string, want map[int]slotRef, hand ...*P) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		x.Fail("the file does not parse: %v\n%s", err, src)
	}
	var local []int
	paths := map[string]bool{}
	for k, r := range want {
		if r.pkg == pSelf {
			local = append(local, k)
		} else {
			paths[r.pkg.Path] = true
		}
	}
	sort.Ints(local)
	lf, err := parser.ParseFile(fset, "local.go", fakeDecls("self", local), parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	var errs []string
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}}
	for _, p := range hand {
		paths[p.Path] = true
	}
	conf := types.Config{Importer: fakeImporter{}, Error: func(err error) {
		for _, p := range hand {
			if strings.HasPrefix(err.(types.Error).Msg, fmt.Sprintf("%q imported", p.Path)) && strings.HasSuffix(err.Error(), "not used") {
				return
			}
		}
		errs = append(errs, err.Error())
	}}
	conf.Check(pSelf.Path, fset, []*ast.File{f, lf}, info)
	got := map[string]bool{}
	for _, s := range importsOf(f) {
		if got[s.ImportPath] {
			x.Fail("%q is imported twice\n%s", s.ImportPath, src)
		}
		got[s.ImportPath] = true
		if s.PackageAlias == "." || s.PackageAlias == "_" {
			x.Fail("import %s\n%s", s, src)
		}
	}
	for p := range paths {
		if !got[p] {
			x.Fail("%q is referenced or registered and not imported\n%s", p, src)
		}
	}
	for p := range got {
		if !paths[p] {
			x.Fail("%q is imported and not referenced\n%s", p, src)
		}
	}
	seen := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		m := slotName.FindStringSubmatch(id.Name)
		if m == nil {
			return true
		}
		var k int
		fmt.Sscan(m[1], &k)
		r, ok := want[k]
		if !ok {
			x.Fail("a reference to %s, which nothing asked for\n%s", id.Name, src)
		}
		o := info.Uses[id]
		if o == nil {
			x.Fail("the reference to %s (%s) does not resolve %v\n%s", id.Name, r.name, errs, src)
		}
		if _, isField := o.(*types.Var); isField && o.(*types.Var).IsField() {
			return true
		}
		if o.Pkg() == nil || o.Pkg().Path() != r.pkg.Path {
			x.Fail("the reference to %s (%s) resolves to %v, it should be in %q\n%s", id.Name, r.name, o, r.pkg.Path, src)
		}
		seen[k] = true
		return true
	})
	if len(errs) > 0 {
		x.Fail("the file does not compile: %s\n%s", strings.Join(errs, "; "), src)
	}
	for k, r := range want {
		if !seen[k] {
			x.Fail("no reference to %s of slot %d\n%s", r.name, k, src)
		}
	}
	if again, err := format.Source([]byte(src)); err != nil || string(again) != src {
		x.Fail("the file is not in canonical format: %v\n%s", err, src)
	}
}

func newFileB() *fileB {
	return &fileB{
		f:     gopoet.NewGoFile("f.go", pSelf.Path, "self"),
		w:     newGoW(),
		owner: map[string]*gopoet.GoFile{},
		body:  gopoet.NewFunc("body"),
	}
}

// use fills slot k with a reference to package p.
func (b *fileB) use(x *X, want map[int]slotRef, k int, p *P) {
	s := slots[k]
	// elements of go/types and of other files know their package's name
	if p.Unknown && (strings.Contains(s.name, " go ") || strings.Contains(s.name, "other file")) {
		q := *p
		q.Unknown = false
		want[k] = slotRef{s.name, p}
		b.k = k
		s.add(b, Sy{&q, fmt.Sprintf("%s%d", s.kind, k)})
		return
	}
	b.k = k
	want[k] = slotRef{s.name, p}
	s.add(b, Sy{p, fmt.Sprintf("%s%d", s.kind, k)})
}

func (b *fileB) finish(x *X, want map[int]slotRef, rounds int) {
	b.f.AddElement(b.body)
	first := ""
	for r := 0; r < rounds; r++ {
		var sb strings.Builder
		x.Op()
		if err := gopoet.WriteGoFile(&sb, b.f); err != nil {
			x.Fail("rendering: %v", err)
		}
		x.Saw(sb.String())
		if r == 0 {
			checkRefs(x, sb.String(), want)
			first = sb.String()
		} else if sb.String() != first {
			x.Fail("rendered again, the file differs\n%s\n%s", first, sb.String())
		}
	}
}

// refsFew: up to the deviation bound of slots are used, each with each package.
func refsFew(x *X, pks []*P) {
	b := newFileB()
	want := map[int]slotRef{}
	for k := range slots {
		if c := x.Dev(len(pks) + 1); c > 0 {
			x.Say("slot %d (%s) references %s", k, slots[k].name, pks[c-1].Path)
			b.use(x, want, k, pks[c-1])
		}
	}
	b.finish(x, want, 1)
}

// refsAll: all slots are used, packages are distributed over them in every
// stride and offset, and slots are added in different orders.
func refsAll(x *X, maxUsed int) {
	pks := append([]*P{pSelf}, universe...)
	n := 2 + x.Choose(len(pks)-1)
	a, off := x.Choose(n), x.Choose(n)
	rev := x.Bool()
	every := 1 + x.Choose(maxUsed)
	x.Say("every %d. slot, slot k references package (k*%d+%d)%%%d, reversed=%v", every, a, off, n, rev)
	b := newFileB()
	want := map[int]slotRef{}
	for i := range slots {
		k := i
		if rev {
			k = len(slots) - 1 - i
		}
		if k%every == 0 {
			b.use(x, want, k, pks[(k*a+off)%n])
		}
	}
	b.finish(x, want, 2)
}

// typePlaces are the places of a file that take a type of any shape.
var typePlaces = []struct {
	name string
	add  func(b *fileB, t gopoet.TypeName)
}{
	{"var", func(b *fileB, t gopoet.TypeName) { b.f.AddVar(gopoet.NewVar("v").SetType(t)) }},
	{"second var of a group", func(b *fileB, t gopoet.TypeName) {
		b.f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("u").SetType(gopoet.IntType), gopoet.NewVar("v", "w").SetType(t)))
	}},
	{"var of unnamed spec", func(b *fileB, t gopoet.TypeName) {
		b.f.AddVar(gopoet.NewVar("v").SetType(gopoet.NewTypeSpec("", t)))
	}},
	{"field of unnamed spec", func(b *fileB, t gopoet.TypeName) {
		b.f.AddVar(gopoet.NewVar("v").SetType(gopoet.NewStructTypeSpec("", gopoet.NewField("A", t))))
	}},
	{"definition", func(b *fileB, t gopoet.TypeName) { b.f.AddType(gopoet.NewTypeSpec("D", t)) }},
	{"definition from unnamed spec", func(b *fileB, t gopoet.TypeName) {
		b.f.AddType(gopoet.NewTypeSpec("D", gopoet.NewTypeSpec("", t)))
	}},
	{"alias", func(b *fileB, t gopoet.TypeName) { b.f.AddType(gopoet.NewTypeAlias("D", t)) }},
	{"struct field", func(b *fileB, t gopoet.TypeName) {
		b.f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("A", gopoet.IntType), gopoet.NewField("B", t).SetTag("x")))
	}},
	{"field in field", func(b *fileB, t gopoet.TypeName) {
		b.f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("A", gopoet.NewStructTypeSpec("", gopoet.NewField("B", t)))))
	}},
	{"interface method", func(b *fileB, t gopoet.TypeName) {
		b.f.AddType(gopoet.NewInterfaceTypeSpec("N", gopoet.NewInterfaceMethod("A").AddArg("x", t), gopoet.NewInterfaceMethod("B").AddResult("", t).AddResult("", gopoet.ErrorType)))
	}},
	{"variadic interface method", func(b *fileB, t gopoet.TypeName) {
		b.f.AddType(gopoet.NewInterfaceTypeSpec("N", gopoet.NewInterfaceMethod("A").AddArg("", gopoet.SliceType(t)).SetVariadic(true)))
	}},
	{"func", func(b *fileB, t gopoet.TypeName) { b.f.AddElement(gopoet.NewFunc("f").AddArg("x", t)) }},
	{"func results", func(b *fileB, t gopoet.TypeName) {
		b.f.AddElement(gopoet.NewFunc("f").AddResult("n", gopoet.IntType).AddResult("", t).Println("return"))
	}},
	{"variadic func", func(b *fileB, t gopoet.TypeName) {
		b.f.AddElement(gopoet.NewFunc("f").AddArg("n", gopoet.IntType).AddArg("x", gopoet.SliceType(t)).SetVariadic(true))
	}},
	{"method", func(b *fileB, t gopoet.TypeName) {
		b.f.AddType(gopoet.NewTypeSpec("R", gopoet.IntType))
		b.f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("", "R"), "M").AddArg("", t))
	}},
	{"code", func(b *fileB, t gopoet.TypeName) { b.body.Printlnf("{ var x %s; _ = x }", t) }},
	{"code of added block", func(b *fileB, t gopoet.TypeName) {
		b.body.AddCode(gopoet.Print("").AddCode(gopoet.Printlnf("{ var x %v; _ = x }", t)))
	}},
	{"initializer", func(b *fileB, t gopoet.TypeName) {
		b.f.AddVar(gopoet.NewVar("v").Initialize("new(%s)", t))
	}},
	{"template", func(b *fileB, t gopoet.TypeName) { b.body.RenderCode(tmplVar, t) }},
	{"template field", func(b *fileB, t gopoet.TypeName) {
		b.body.RenderCode(tmplVarOf, &struct {
			N int
			T gopoet.TypeName
		}{1, t})
	}},
	{"template in initializer", func(b *fileB, t gopoet.TypeName) {
		b.f.AddVar(gopoet.NewVar("v").SetInitializer(gopoet.RenderCode(tmplNew, []interface{}{t})))
	}},
}

var tmplVar = template.Must(template.New("t").Parse("{ var x {{.}}; _ = x }\n"))
var tmplVarOf = template.Must(template.New("t").Parse("{ var x {{.T}}; _ = x }\n"))
var tmplNew = template.Must(template.New("t").Parse("new({{index . 0}})"))

// refsShapes: every shape of type around a reference, in every place.
func refsShapes(x *X, depth int) {
	p := Pick(x, []*P{pAFoo, pBar, pSelf, pQFoo})
	place := x.Choose(len(typePlaces))
	alone := x.Bool()
	iface := x.Bool()
	name := "T0"
	if iface {
		name = "I0"
	}
	t := tyNamed(p, name)
	n := 1 + x.Choose(depth)
	for i := 0; i < n; i++ {
		if t = tyCtxs[x.Choose(len(tyCtxs))].f(t); t == nil {
			x.Skip()
		}
	}
	b := newFileB()
	want := map[int]slotRef{0: {typePlaces[place].name, p}}
	if !alone {
		b.body.Printlnf("_ = %s", Sy{pBFoo, "V1"}.Sym())
		b.f.AddVar(gopoet.NewVar("first").Initialize("%s", Sy{pBFoo, "V1"}.Sym()))
		want[1] = slotRef{"first", pBFoo}
	}
	tn := t.TN()
	x.Say("%s: %s from %q", typePlaces[place].name, tn, p.Path)
	typePlaces[place].add(b, tn)
	b.finish(x, want, 1)
}

var tmplC = template.Must(template.New("t").Parse("{{.}}"))
var tmplCs = template.Must(template.New("t").Parse("{{range $i, $s := .}}{{$s}} + {{end}}0"))

// initPlaces are the places that take a block of code which is an expression,
// in declarations with and without a type.
var initPlaces = []struct {
	name string
	add  func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock)
}{
	{"const", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		c := gopoet.NewConst("c").SetInitializer(cb)
		if t != nil {
			c.SetType(t)
		}
		b.f.AddConst(c)
	}},
	{"second const of a group", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		c := gopoet.NewConst("c").SetInitializer(cb)
		if t != nil {
			c.SetType(t)
		}
		b.f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("b").SetType(gopoet.IntType).Initialize("%d", 1), c).SetComment("Consts."))
	}},
	{"const with a comment", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		c := gopoet.NewConst("c").SetComment("C.").SetInitializer(cb)
		if t != nil {
			c.SetType(t)
		}
		b.f.AddElement(gopoet.NewConstDecl(c))
	}},
	{"var", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		v := gopoet.NewVar("v").SetInitializer(cb)
		if t != nil {
			v.SetType(t)
		}
		b.f.AddVar(v)
	}},
	{"first var of a group", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		v := gopoet.NewVar("v").SetInitializer(cb)
		if t != nil {
			v.SetType(t)
		}
		b.f.AddElement(gopoet.NewVarDecl(v, gopoet.NewVar("w", "u").SetType(gopoet.StringType)))
	}},
	{"last const of three", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		c := gopoet.NewConst("c").SetInitializer(cb)
		if t != nil {
			c.SetType(t)
		}
		b.f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("a").Initialize("%d", 1), gopoet.NewConst("b"), c))
	}},
	{"last var of a group", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		v := gopoet.NewVar("v").SetInitializer(cb)
		if t != nil {
			v.SetType(t)
		}
		b.f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("w", "u").SetType(gopoet.StringType), gopoet.NewVar("x").Initialize("%d", 2), v))
	}},
	{"both vars of a group", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		v, w := gopoet.NewVar("v").SetInitializer(cb), gopoet.NewVar("w").SetInitializer(cb)
		if t != nil {
			v.SetType(t)
			w.SetType(t)
		}
		b.f.AddElement(gopoet.NewVarDecl(v, w))
	}},
	{"second of two vars", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		v := gopoet.NewVar("v", "u").SetInitializer(gopoet.Print("7, ").AddCode(cb))
		if t != nil {
			v.SetType(t)
		}
		b.f.AddVar(v)
	}},
	{"body", func(b *fileB, t gopoet.TypeNameOrSpec, cb *gopoet.CodeBlock) {
		if t != nil {
			b.body.Printf("var _ %s = ", t).AddCode(cb).Println("")
			return
		}
		b.body.Print("_ = ").AddCode(cb).Println("")
	}},
}

// refsParts: expressions of several parts, each with its references, in every
// place.
func refsParts(x *X, max int) {
	pks := []*P{pAFoo, pSelf, pBFoo}
	b := newFileB()
	want := map[int]slotRef{}
	place := x.Choose(len(initPlaces))
	var t gopoet.TypeNameOrSpec
	switch x.Choose(4) {
	case 1:
		t = gopoet.IntType
	case 2:
		p := Pick(x, pks)
		x.Say("type T9 from %q", p.Path)
		t = tname(Sy{p, "T9"})
		want[9] = slotRef{"type", p}
	case 3:
		p := Pick(x, pks)
		x.Say("type T9 of another file from %q", p.Path)
		ts := gopoet.NewTypeSpec("T9", gopoet.IntType)
		b.other(p).AddType(ts)
		t = ts
		want[9] = slotRef{"type", p}
	}
	cb := &gopoet.CodeBlock{}
	n := 1 + x.Choose(max)
	for k := 0; k < n; k++ {
		p := Pick(x, pks)
		how := x.Choose(6)
		x.Say("part %d refers to %q", how, p.Path)
		s := Sy{p, fmt.Sprintf("C%d", k)}.Sym()
		if how != 1 {
			want[k] = slotRef{"part", p}
		}
		switch how {
		case 0:
			cb.Printf("%s", s)
		case 1:
			cb.Print("1")
		case 2:
			cb.AddCode(gopoet.Printf("(%v", &s).Print(")"))
		case 3:
			cb.RenderCode(tmplC, s)
		case 4:
			cb.RenderCode(tmplCs, []interface{}{s, &s})
		case 5:
			cb.Printlnf("%d +", 1).Printf("%[2]s - %[1]s", s, &s)
		}
		if k < n-1 {
			cb.Print(" + ")
		}
	}
	x.Say("in %s", initPlaces[place].name)
	initPlaces[place].add(b, t, cb)
	b.finish(x, want, 2)
}

var growSlots = []string{"var type", "func argument", "body symbol", "body template of struct", "struct field", "const initializer"}

// refsGrowing: a file that grows between renderings, by elements and by imports
// that are registered by hand.
func refsGrowing(x *X, depth int) {
	b := newFileB()
	b.f.AddElement(b.body)
	want := map[int]slotRef{}
	var hand []*P
	hands := []*P{pAFoo, pBFoo, pQFoo, pYaml}
	pks := []*P{pAFoo, pBFoo, pSelf}
	render := func() {
		var sb strings.Builder
		x.Op()
		if err := gopoet.WriteGoFile(&sb, b.f); err != nil {
			x.Fail("rendering: %v", err)
		}
		x.Saw(sb.String())
		checkRefs(x, sb.String(), want, hand...)
	}
	for i := 0; i < depth; i++ {
		c := x.Choose(1 + len(hands) + len(growSlots)*len(pks))
		if c == 0 {
			x.Say("render")
			render()
			continue
		}
		c--
		if c < len(hands) {
			p := hands[c]
			x.Say("register %q by hand", p.Path)
			if i%2 == 0 {
				b.f.RegisterImport(p.Path, p.Given())
			} else {
				b.f.RegisterImportForPackage(p.Pkg())
			}
			hand = append(hand, p)
			continue
		}
		c -= len(hands)
		for k, s := range slots {
			if s.name == growSlots[c/len(pks)] {
				if _, ok := want[k]; ok {
					x.Skip()
				}
				x.Say("add %s that references %q", s.name, pks[c%len(pks)].Path)
				b.use(x, want, k, pks[c%len(pks)])
			}
		}
	}
	x.Say("render")
	render()
}

// specWraps make an unnamed spec, or a type, of another one.
var specWraps = []struct {
	name string
	f    func(t gopoet.TypeNameOrSpec) gopoet.TypeNameOrSpec
}{
	{"field", func(t gopoet.TypeNameOrSpec) gopoet.TypeNameOrSpec {
		return gopoet.NewStructTypeSpec("", gopoet.NewField("A", t))
	}},
	{"second field", func(t gopoet.TypeNameOrSpec) gopoet.TypeNameOrSpec {
		return gopoet.NewStructTypeSpec("", gopoet.NewField("A", gopoet.IntType).SetComment("A."), gopoet.NewField("B", t).SetTag("t"))
	}},
	{"method", func(t gopoet.TypeNameOrSpec) gopoet.TypeNameOrSpec {
		return gopoet.NewInterfaceTypeSpec("", gopoet.NewInterfaceMethod("M").AddArg("a", nameOf(t)).AddResult("", gopoet.IntType))
	}},
	{"definition", func(t gopoet.TypeNameOrSpec) gopoet.TypeNameOrSpec { return gopoet.NewTypeSpec("", t) }},
	{"name", func(t gopoet.TypeNameOrSpec) gopoet.TypeNameOrSpec { return nameOf(t) }},
	{"pointer", func(t gopoet.TypeNameOrSpec) gopoet.TypeNameOrSpec { return gopoet.PointerType(nameOf(t)) }},
	{"field of name", func(t gopoet.TypeNameOrSpec) gopoet.TypeNameOrSpec {
		return gopoet.StructType(gopoet.FieldType{Name: "A", Type: nameOf(t)}, gopoet.FieldType{Name: "B", Type: gopoet.IntType})
	}},
}

func nameOf(t gopoet.TypeNameOrSpec) gopoet.TypeName {
	if ts, ok := t.(*gopoet.TypeSpec); ok {
		return ts.ToTypeName()
	}
	return t.(gopoet.TypeName)
}

var specPlaces = []struct {
	name string
	add  func(b *fileB, t gopoet.TypeNameOrSpec)
}{
	{"var", func(b *fileB, t gopoet.TypeNameOrSpec) { b.f.AddVar(gopoet.NewVar("v").SetType(t)) }},
	{"vars", func(b *fileB, t gopoet.TypeNameOrSpec) {
		b.f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("v", "w").SetType(t), gopoet.NewVar("u").SetType(t).SetComment("u.")))
	}},
	{"definition", func(b *fileB, t gopoet.TypeNameOrSpec) { b.f.AddType(gopoet.NewTypeSpec("D", t)) }},
	{"alias", func(b *fileB, t gopoet.TypeNameOrSpec) { b.f.AddType(gopoet.NewTypeAlias("D", t)) }},
	{"field", func(b *fileB, t gopoet.TypeNameOrSpec) {
		b.f.AddType(gopoet.NewStructTypeSpec("D", gopoet.NewField("A", gopoet.IntType), gopoet.NewField("B", t)))
	}},
	{"argument", func(b *fileB, t gopoet.TypeNameOrSpec) {
		b.f.AddElement(gopoet.NewFunc("f").AddArg("a", nameOf(t)))
	}},
	{"code", func(b *fileB, t gopoet.TypeNameOrSpec) { b.body.Printlnf("{ var x %s; _ = x }", nameOf(t)) }},
	{"initializer", func(b *fileB, t gopoet.TypeNameOrSpec) {
		b.f.AddVar(gopoet.NewVar("v").Initialize("new(%s)", nameOf(t)))
	}},
	{"template", func(b *fileB, t gopoet.TypeNameOrSpec) {
		b.body.RenderCode(tmplVarOf, map[string]interface{}{"T": nameOf(t)})
	}},
}

// refsSpecs: unnamed specs in unnamed specs, in every place.
func refsSpecs(x *X, depth int) {
	p := Pick(x, []*P{pAFoo, pSelf, pQFoo})
	place := x.Choose(len(specPlaces))
	x.Say("%s with a type of %q", specPlaces[place].name, p.Path)
	b := newFileB()
	want := map[int]slotRef{0: {specPlaces[place].name, p}}
	if x.Bool() {
		b.f.AddVar(gopoet.NewVar("first").Initialize("%s", Sy{pBFoo, "V1"}.Sym()))
		want[1] = slotRef{"first", pBFoo}
	}
	var t gopoet.TypeNameOrSpec
	elsewhere := func(ts *gopoet.TypeSpec) {
		b.other(p).AddType(ts)
		t = ts
	}
	switch x.Choose(11) {
	case 8:
		elsewhere(gopoet.NewTypeSpec("T0", gopoet.IntType).SetComment("T0 is."))
	case 9:
		ts := gopoet.NewStructTypeSpec("T0", gopoet.NewField("A", tyNamed(pCFoo, "T1").TN())).SetComment("T0 is.\nReally.")
		b.other(p).AddElement(gopoet.NewTypeDecl(gopoet.NewTypeSpec("U", gopoet.IntType), ts).SetComment("Types."))
		t = ts
	case 10:
		elsewhere(gopoet.NewInterfaceTypeSpec("T0", gopoet.NewInterfaceEmbed(Sy{pCFoo, "I1"}.Sym()), gopoet.NewInterfaceMethod("M").AddArg("a", tyNamed(pCFoo, "T1").TN())).SetComment("T0 is."))
	case 0:
		t = tname(Sy{p, "T0"})
	case 1:
		elsewhere(gopoet.NewTypeSpec("T0", gopoet.IntType))
	case 3:
		elsewhere(gopoet.NewTypeAlias("T0", tyNamed(pCFoo, "T1").TN()))
	case 4:
		elsewhere(gopoet.NewTypeAlias("T0", tyMap(tyNamed(pCFoo, "T1"), tyNamed(pAFoo, "T1")).TN()))
	case 5:
		elsewhere(gopoet.NewStructTypeSpec("T0", gopoet.NewField("A", tyNamed(pCFoo, "T1").TN()), gopoet.NewField("", tyNamed(pSelf, "T1").TN())))
	case 6:
		elsewhere(gopoet.NewTypeSpec("T0", tyNamed(pCFoo, "T1").TN()))
	case 7:
		elsewhere(gopoet.NewTypeAlias("T0", gopoet.NewStructTypeSpec("", gopoet.NewField("A", tyNamed(pCFoo, "T1").TN()))))
	case 2:
		t = gopoet.NewInterfaceTypeSpec("", gopoet.NewInterfaceEmbed(Sy{p, "I0"}.Sym()))
	}
	n := x.Choose(depth + 1)
	for i := 0; i < n; i++ {
		w := specWraps[x.Choose(len(specWraps))]
		x.Say("in %s", w.name)
		t = w.f(t)
	}
	specPlaces[place].add(b, t)
	b.finish(x, want, 2)
}

func init() {
	few := []*P{pAFoo, pSelf, pBFoo}
	many := append([]*P{pAFoo, pSelf, pBFoo}, pCFoo, pDFoo1, pBar, pQFoo, pYaml, pShort, pOSelf, pKw, pSub)
	register(&Prop{ID: "C07", Level: "model_checking",
		Rule:   "every place of a file that can reference an element, combined with every package, up to the bound on places used in one file, and all places together with every regular distribution of packages; the rendered file is type-checked against the real packages and every reference must resolve to the intended element",
		Assume: []string{"go/types resolves and checks Go source correctly", "the file does not itself declare names equal to package prefixes"},
		Harnesses: []*Harness{
			{Name: "one", DevQ: 1, DevT: 1, Body: func(x *X) { refsFew(x, many) }},
			{Name: "two", DevQ: 2, DevT: 2, Body: func(x *X) { refsFew(x, many) }},
			{Name: "three", DevQ: 3, DevT: 3, Thorough: true, Body: func(x *X) { refsFew(x, few) }},
			{Name: "shapes", Body: func(x *X) { refsShapes(x, 2) }},
			{Name: "specs", Body: func(x *X) { refsSpecs(x, depthQT(3, 4)) }},
			{Name: "growing", Body: func(x *X) { refsGrowing(x, depthQT(3, 4)) }},
			{Name: "zoo", Body: refsZoo},
			{Name: "parts", Body: func(x *X) { refsParts(x, depthQT(2, 3)) }},
			{Name: "large", Body: refsLarge},
			{Name: "all", Body: func(x *X) { refsAll(x, depthQT(2, 6)) }},
		}})
}
