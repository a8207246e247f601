package main

// C20: packages, symbols and method references are what they were made from.
// C21: builder calls have exactly their documented effect.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

// ---- C20

var pathWords = []string{"a", "foo", "Foo", "v2", "yaml.v2", "go-x", "é", "_", "3d", "type", "a~b", "foo.", "Ω_1", "x"}

// path of import path elements, and its last element.
func pickPath(x *X, max int) (string, string) {
	n := 1 + x.Choose(max)
	var es []string
	for i := 0; i < n; i++ {
		es = append(es, Pick(x, pathWords))
	}
	return strings.Join(es, "/"), es[n-1]
}

var symNames = []string{"X", "x", "_", "É", "X.Y", "X2", ""}

// refCheck checks all that can be asked of a package, a symbol of it and a
// method of that symbol.
func refCheck(x *X, p gopoet.Package, path, name, sym, meth string) {
	x.Op()
	if p != (gopoet.Package{ImportPath: path, Name: name}) {
		x.Fail("the package of %q named %q is %#v", path, name, p)
	}
	if p.String() != name {
		x.Fail("package %q named %q prints as %q", path, name, p)
	}
	s := p.Symbol(sym)
	if s != (gopoet.Symbol{Package: gopoet.Package{ImportPath: path, Name: name}, Name: sym}) {
		x.Fail("symbol %q of package %q is %#v", sym, path, s)
	}
	want := sym
	if name != "" {
		want = name + "." + sym
	}
	t := gopoet.NamedType(s)
	mr := gopoet.MethodReference{Type: s, Method: meth}
	for what, got := range map[string]string{"symbol": s.String(), "*symbol": (&s).String(), "formatted symbol": fmt.Sprint(s), "type": t.String(), "formatted type": fmt.Sprintf("%v", t)} {
		if got != want {
			x.Fail("%s %q of package %q named %q prints as %q", what, sym, path, name, got)
		}
	}
	for what, got := range map[string]string{"method": mr.String(), "*method": (&mr).String(), "formatted method": fmt.Sprint(mr)} {
		if got != want+"."+meth {
			x.Fail("%s %s of %s prints as %q", what, meth, want, got)
		}
	}
	if t.Kind() != gopoet.KindNamed || t.Symbol() != s {
		x.Fail("the type named %v is %v %#v", s, t.Kind(), t.Symbol())
	}
	if p != (gopoet.Package{ImportPath: path, Name: name}) || mr.Type != s {
		x.Fail("a package was changed to %#v, a method to %#v", p, mr)
	}
	x.Saw(mr.String())
}

// refPaths: one path, or one after others that were used before.
func refPaths(x *X, max, before int) {
	for i := 0; i < before; i++ {
		path, last := pickPath(x, max)
		if p := gopoet.NewPackage(path); p.Name != last || p.ImportPath != path {
			x.Fail("NewPackage(%q) is %#v", path, p)
		}
		x.Say("after NewPackage(%q)", path)
	}
	path, last := pickPath(x, max)
	for _, n := range symNames {
		refCheck(x, gopoet.NewPackage(path), path, last, n, "M")
		if s := gopoet.NewSymbol(path, n); s != (gopoet.Symbol{Package: gopoet.Package{ImportPath: path, Name: last}, Name: n}) {
			x.Fail("NewSymbol(%q, %q) is %#v", path, n, s)
		}
	}
}

// refNames: packages whose name is not what their path ends in.
func refNames(x *X) {
	path := Pick(x, append([]string{"", "foo", "a/foo", "a/bar", "a/b/v2", "gopkg.in/yaml.v2", "a/b/foo/"}, zoo(pSelf.Path)...))
	name := Pick(x, []string{"", "foo", "bar", "Foo", "_", "v2", "é", "foo_test", "main", "foo1", "go", "vfoo", "foo.go", "go-foo", "internal", "v"})
	sym, meth := Pick(x, symNames), Pick(x, []string{"M", "m", "Ö", "String"})
	x.Say("package %q of %q", name, path)
	refCheck(x, gopoet.Package{ImportPath: path, Name: name}, path, name, sym, meth)
	if f := gopoet.NewGoFile("f.go", path, name); f.Package() != (gopoet.Package{ImportPath: path, Name: name}) {
		x.Fail("the package of a file of %q named %q is %#v", path, name, f.Package())
	}
	gp := types.NewPackage(path, name)
	refCheck(x, gopoet.PackageForGoType(gp), path, name, sym, meth)
	if p := gopoet.PackageForGoType(nil); p != (gopoet.Package{}) {
		x.Fail("no package is %#v", p)
	}
	if sym == "" {
		return
	}
	for _, o := range []types.Object{
		types.NewConst(token.NoPos, gp, sym, types.Typ[types.Int], constant.MakeInt64(1)),
		types.NewVar(token.NoPos, gp, sym, types.Typ[types.Int]),
		types.NewField(token.NoPos, gp, sym, types.Typ[types.Int], false),
		types.NewFunc(token.NoPos, gp, sym, types.NewSignature(nil, nil, nil, false)),
		types.NewTypeName(token.NoPos, gp, sym, types.Typ[types.Int]),
	} {
		want := gopoet.Symbol{Package: gopoet.Package{ImportPath: path, Name: name}, Name: sym}
		if got := gopoet.SymbolForGoObject(o); got != gopoet.SymbolOrMethodRef(want) {
			x.Fail("the symbol of %v is %#v", o, got)
		}
	}
}

// ---- C21

var buildTexts = []string{"", "Doc.", " two\nlines\n", "%s `"}

// mArg is the model of an argument or result.
type mArg struct {
	name string
	t    gopoet.TypeName
}

// mBuild is the model of an element that is being built.
type mBuild struct {
	comment, name, tag string
	names              []string
	typ                gopoet.TypeNameOrSpec
	init               []string // nil: none
	args, results      []mArg
	variadic           bool
	specs              []interface{}
	body               []string
}

// builder is an element that is being built, with its model.
type builder struct {
	el interface{}
	m  *mBuild
	// what it is now
	is func(x *X, m *mBuild)
	// what is in its code
	code func() *gopoet.CodeBlock
}

type buildOp struct {
	name string
	do   func(b *builder) interface{}
}

var buildSym = gopoet.Symbol{Package: gopoet.Package{ImportPath: "ex.com/a/foo", Name: "foo"}, Name: "X"}
var buildT = gopoet.NamedType(gopoet.Symbol{Package: gopoet.Package{ImportPath: "ex.com/a/foo", Name: "foo"}, Name: "T"})
var (
	buildAlias = gopoet.NewTypeAlias("Alias", gopoet.IntType)
	buildNamed = gopoet.NewTypeSpec("Named", gopoet.SliceType(gopoet.IntType))
	buildIface = gopoet.NewInterfaceTypeSpec("", gopoet.NewInterfaceMethod("M"))
)

func init() {
	gopoet.NewGoFile("types.go", "ex.com/types", "types").AddType(buildAlias).AddType(buildNamed)
}

var buildTS = gopoet.NewStructTypeSpec("", gopoet.NewField("A", gopoet.IntType))
var buildTmpl = template.Must(template.New("t").Parse("e({{.}}, {{.}})\n"))

func sameArgs(x *X, what string, got []gopoet.ArgType, want []mArg) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i].Name == want[i].name && got[i].Type == want[i].t
	}
	if !ok {
		x.Fail("%s are %v, should be %v", what, got, want)
	}
}

func sameText(x *X, what, got, want string) {
	if got != want {
		x.Fail("%s is %q, should be %q", what, got, want)
	}
}

// codeText is the code of a block, as it is rendered.
func codeText(x *X, cb *gopoet.CodeBlock) string {
	f := gopoet.NewGoFile("f.go", "ex.com/self", "self")
	f.AddElement(gopoet.NewFunc("f").Println("_ = `<").AddCode(cb).Println(">`"))
	var b strings.Builder
	x.Op()
	if err := gopoet.WriteGoFile(&b, f); err != nil {
		x.Fail("rendering: %v", err)
	}
	s := b.String()
	return s[strings.Index(s, "`<\n")+3 : strings.LastIndex(s, ">`")]
}

func newBuilder(kind int, k int) *builder {
	m := &mBuild{name: fmt.Sprintf("N%d", k)}
	b := &builder{m: m}
	sig := func(x *X, s *gopoet.Signature, m *mBuild) {
		sameArgs(x, "arguments", s.Args, m.args)
		sameArgs(x, "results", s.Results, m.results)
		if s.IsVariadic != m.variadic {
			x.Fail("variadic: %v", s.IsVariadic)
		}
	}
	specs := func(x *X, got interface{}, m *mBuild) {
		v := reflect.ValueOf(got)
		ok := v.Len() == len(m.specs)
		for i := 0; ok && i < v.Len(); i++ {
			ok = v.Index(i).Interface() == m.specs[i]
		}
		if !ok {
			x.Fail("the declaration has %v, should have %v", got, m.specs)
		}
	}
	valued := func(x *X, comment string, names []string, t gopoet.TypeNameOrSpec, init *gopoet.CodeBlock, m *mBuild) {
		sameText(x, "comment", comment, m.comment)
		if !reflect.DeepEqual(names, m.names) || t != m.typ {
			x.Fail("names %q of type %v, should be %q of type %v", names, t, m.names, m.typ)
		}
		if (init == nil) != (m.init == nil) {
			x.Fail("initializer %v", init)
		}
	}
	switch kind {
	case 0:
		m.names = []string{m.name, "n"}
		e := gopoet.NewConst(m.name, "n")
		b.el, b.code = e, func() *gopoet.CodeBlock { return e.Initializer }
		b.is = func(x *X, m *mBuild) { valued(x, e.Comment, e.Names, e.Type, e.Initializer, m) }
	case 1:
		m.names = []string{m.name}
		e := gopoet.NewVar(m.name)
		b.el, b.code = e, func() *gopoet.CodeBlock { return e.Initializer }
		b.is = func(x *X, m *mBuild) { valued(x, e.Comment, e.Names, e.Type, e.Initializer, m) }
	case 2:
		e := gopoet.NewConstDecl()
		b.el = e
		b.is = func(x *X, m *mBuild) { sameText(x, "comment", e.Comment, m.comment); specs(x, e.Consts, m) }
	case 3:
		e := gopoet.NewVarDecl()
		b.el = e
		b.is = func(x *X, m *mBuild) { sameText(x, "comment", e.Comment, m.comment); specs(x, e.Vars, m) }
	case 4:
		e := gopoet.NewTypeDecl()
		b.el = e
		b.is = func(x *X, m *mBuild) { sameText(x, "comment", e.Comment, m.comment); specs(x, e.Types, m) }
	case 5:
		e := gopoet.NewTypeSpec(m.name, buildT)
		b.el = e
		b.is = func(x *X, m *mBuild) {
			sameText(x, "comment", e.Comment, m.comment)
			sameText(x, "name", e.Name, m.name)
			if e.Underlying() != buildT || e.IsAlias() {
				x.Fail("the type is %v, an alias: %v", e.Underlying(), e.IsAlias())
			}
		}
	case 6:
		m.typ = buildT
		e := gopoet.NewField(m.name, buildT)
		b.el = e
		b.is = func(x *X, m *mBuild) {
			sameText(x, "comment", e.Comment, m.comment)
			sameText(x, "name", e.Name, m.name)
			sameText(x, "string", e.String(), m.name)
			sameText(x, "tag", string(e.Tag), m.tag)
			if e.Type != m.typ {
				x.Fail("the field's type is %v", e.Type)
			}
		}
	case 7:
		e := gopoet.NewInterfaceEmbed(buildSym)
		b.el = e
		b.is = func(x *X, m *mBuild) {
			sameText(x, "comment", e.Comment, m.comment)
			if e.Type != buildSym || e.String() != buildSym.String() {
				x.Fail("the embedded interface is %#v, %q", e.Type, e)
			}
		}
	case 8:
		e := gopoet.NewInterfaceMethod(m.name)
		b.el = e
		b.is = func(x *X, m *mBuild) {
			sameText(x, "comment", e.Comment, m.comment)
			sameText(x, "name", e.Name, m.name)
			sameText(x, "string", e.String(), m.name)
			sig(x, &e.Signature, m)
		}
	case 9, 10:
		var r *gopoet.ReceiverSpec
		e := gopoet.NewFunc(m.name)
		if kind == 10 {
			r = gopoet.NewPointerReceiver("r", "R")
			e = gopoet.NewMethod(r, m.name)
		}
		b.el, b.code = e, func() *gopoet.CodeBlock { return &e.CodeBlock }
		b.is = func(x *X, m *mBuild) {
			sameText(x, "comment", e.Comment, m.comment)
			sameText(x, "name", e.Name, m.name)
			sameText(x, "string", e.String(), m.name)
			sig(x, &e.Signature, m)
			if (e.Receiver == nil) != (r == nil) || r != nil && *e.Receiver != (gopoet.ReceiverSpec{Name: "r", Type: "R", IsPointer: true}) {
				x.Fail("the receiver is %v", e.Receiver)
			}
		}
	case 11:
		e := &gopoet.Signature{}
		b.el = e
		b.is = func(x *X, m *mBuild) { sig(x, e, m) }
	case 12:
		e := &gopoet.CodeBlock{}
		b.el, b.code = e, func() *gopoet.CodeBlock { return e }
		b.is = func(x *X, m *mBuild) {}
	}
	return b
}

var buildKinds = []string{"const", "var", "const declaration", "var declaration", "type declaration", "type", "field", "embedded interface", "interface method", "func", "method", "signature", "code block"}

// codeAdds are the ways to add code, with the text that they add.
var codeAdds = []struct {
	name, text string
}{
	{"Print", "a(%d)\n"}, {"Println", "b(%s)\n"}, {"Printf", "c(foo.X, 1)\n"}, {"Printlnf", "d(%foo.T)\n"}, {"RenderCode", "e(foo.X, foo.X)\n"}, {"AddCode", "f()\ng(foo.X)\n"},
	{"AddCode of nothing", ""}, {"Print of nothing", ""}, {"Println of nothing", "\n"},
}

// addCode calls one of the methods that add code.
func addCode(e interface{}, how string) interface{} {
	type adder struct {
		print, println   func(string) interface{}
		printf, printlnf func(string, ...interface{}) interface{}
		render           func(*template.Template, interface{}) interface{}
		add              func(*gopoet.CodeBlock) interface{}
	}
	var a adder
	switch e := e.(type) {
	case *gopoet.CodeBlock:
		a = adder{func(s string) interface{} { return e.Print(s) }, func(s string) interface{} { return e.Println(s) },
			func(s string, as ...interface{}) interface{} { return e.Printf(s, as...) }, func(s string, as ...interface{}) interface{} { return e.Printlnf(s, as...) },
			func(t *template.Template, d interface{}) interface{} { return e.RenderCode(t, d) }, func(c *gopoet.CodeBlock) interface{} { return e.AddCode(c) }}
	case *gopoet.FuncSpec:
		a = adder{func(s string) interface{} { return e.Print(s) }, func(s string) interface{} { return e.Println(s) },
			func(s string, as ...interface{}) interface{} { return e.Printf(s, as...) }, func(s string, as ...interface{}) interface{} { return e.Printlnf(s, as...) },
			func(t *template.Template, d interface{}) interface{} { return e.RenderCode(t, d) }, func(c *gopoet.CodeBlock) interface{} { return e.AddCode(c) }}
	case nil:
		a = adder{func(s string) interface{} { return gopoet.Print(s) }, func(s string) interface{} { return gopoet.Println(s) },
			func(s string, as ...interface{}) interface{} { return gopoet.Printf(s, as...) }, func(s string, as ...interface{}) interface{} { return gopoet.Printlnf(s, as...) },
			func(t *template.Template, d interface{}) interface{} { return gopoet.RenderCode(t, d) }, func(c *gopoet.CodeBlock) interface{} { return (&gopoet.CodeBlock{}).AddCode(c) }}
	}
	switch how {
	case "Print":
		return a.print("a(%d)\n")
	case "Println":
		return a.println("b(%s)")
	case "Printf":
		return a.printf("c(%v, %d)\n", buildSym, 1)
	case "Printlnf":
		return a.printlnf("d(%%%s)", buildT)
	case "RenderCode":
		return a.render(buildTmpl, buildSym)
	case "AddCode":
		return a.add(gopoet.Println("f()").Printlnf("g(%s)", &buildSym))
	case "AddCode of nothing":
		return a.add(&gopoet.CodeBlock{})
	case "Print of nothing":
		return a.print("")
	default:
		return a.println("")
	}
}

// buildOps are the calls for a kind of element.
func buildOps(kind int) []buildOp {
	var ops []buildOp
	add := func(name string, do func(b *builder) interface{}) { ops = append(ops, buildOp{name, do}) }
	for _, t := range buildTexts {
		t := t
		set := func(f func(b *builder) interface{}) {
			add(fmt.Sprintf("SetComment(%q)", t), func(b *builder) interface{} { b.m.comment = t; return f(b) })
		}
		switch kind {
		case 0:
			set(func(b *builder) interface{} { return b.el.(*gopoet.ConstSpec).SetComment(t) })
		case 1:
			set(func(b *builder) interface{} { return b.el.(*gopoet.VarSpec).SetComment(t) })
		case 2:
			set(func(b *builder) interface{} { return b.el.(*gopoet.ConstDecl).SetComment(t) })
		case 3:
			set(func(b *builder) interface{} { return b.el.(*gopoet.VarDecl).SetComment(t) })
		case 4:
			set(func(b *builder) interface{} { return b.el.(*gopoet.TypeDecl).SetComment(t) })
		case 5:
			set(func(b *builder) interface{} { return b.el.(*gopoet.TypeSpec).SetComment(t) })
		case 6:
			set(func(b *builder) interface{} { return b.el.(*gopoet.FieldSpec).SetComment(t) })
			add(fmt.Sprintf("SetTag(%q)", t), func(b *builder) interface{} { b.m.tag = t; return b.el.(*gopoet.FieldSpec).SetTag(t) })
		case 7:
			set(func(b *builder) interface{} { return b.el.(*gopoet.InterfaceEmbed).SetComment(t) })
		case 8:
			set(func(b *builder) interface{} { return b.el.(*gopoet.InterfaceMethod).SetComment(t) })
		case 9, 10:
			set(func(b *builder) interface{} { return b.el.(*gopoet.FuncSpec).SetComment(t) })
		}
	}
	switch kind {
	case 0, 1:
		for i, t := range []gopoet.TypeNameOrSpec{gopoet.IntType, buildT, buildTS, nil, buildAlias, buildNamed, buildIface} {
			t := t
			add(fmt.Sprintf("SetType of type %d", i), func(b *builder) interface{} {
				b.m.typ = t
				if kind == 0 {
					return b.el.(*gopoet.ConstSpec).SetType(t)
				}
				return b.el.(*gopoet.VarSpec).SetType(t)
			})
		}
		for i, in := range []struct {
			f    string
			as   []interface{}
			text string
		}{{"1", nil, "1"}, {"%v + %d", []interface{}{buildSym, 2}, "foo.X + 2"}, {"%%\n", nil, "%\n"}, {"", nil, ""}} {
			in := in
			add(fmt.Sprintf("Initialize %d", i), func(b *builder) interface{} {
				b.m.init = []string{in.text}
				if kind == 0 {
					return b.el.(*gopoet.ConstSpec).Initialize(in.f, in.as...)
				}
				return b.el.(*gopoet.VarSpec).Initialize(in.f, in.as...)
			})
		}
		for i, cb := range []*gopoet.CodeBlock{nil, gopoet.Print("%d"), gopoet.Printf("%s", buildT).Print("{}"), {}} {
			cb, text := cb, []string{"", "%d", "foo.T{}", ""}[i]
			add(fmt.Sprintf("SetInitializer %d", i), func(b *builder) interface{} {
				b.m.init = []string{text}
				if cb == nil {
					b.m.init = nil
				}
				if kind == 0 {
					return b.el.(*gopoet.ConstSpec).SetInitializer(cb)
				}
				return b.el.(*gopoet.VarSpec).SetInitializer(cb)
			})
		}
	case 2, 3, 4:
		cs := []*gopoet.ConstSpec{gopoet.NewConst("c"), gopoet.NewConst("c"), gopoet.NewConst("d", "e")}
		vs := []*gopoet.VarSpec{gopoet.NewVar("c"), gopoet.NewVar("c"), gopoet.NewVar("d", "e")}
		ts := []*gopoet.TypeSpec{gopoet.NewTypeSpec("T", gopoet.IntType), gopoet.NewTypeSpec("T", gopoet.IntType), gopoet.NewTypeAlias("U", buildT)}
		for i := range cs {
			i := i
			add(fmt.Sprintf("Add spec %d", i), func(b *builder) interface{} {
				switch kind {
				case 2:
					b.m.specs = append(b.m.specs, cs[i])
					return b.el.(*gopoet.ConstDecl).AddConst(cs[i])
				case 3:
					b.m.specs = append(b.m.specs, vs[i])
					return b.el.(*gopoet.VarDecl).AddVar(vs[i])
				default:
					b.m.specs = append(b.m.specs, ts[i])
					return b.el.(*gopoet.TypeDecl).AddType(ts[i])
				}
			})
		}
	case 8, 9, 10, 11:
		for _, a := range []mArg{{"a", gopoet.IntType}, {"", gopoet.SliceType(buildT)}, {"_", buildT}} {
			a := a
			add(fmt.Sprintf("AddArg(%q, %v)", a.name, a.t), func(b *builder) interface{} {
				b.m.args = append(b.m.args, a)
				switch e := b.el.(type) {
				case *gopoet.InterfaceMethod:
					return e.AddArg(a.name, a.t)
				case *gopoet.FuncSpec:
					return e.AddArg(a.name, a.t)
				case *gopoet.Signature:
					return e.AddArg(a.name, a.t)
				}
				return nil
			})
			add(fmt.Sprintf("AddResult(%q, %v)", a.name, a.t), func(b *builder) interface{} {
				b.m.results = append(b.m.results, a)
				switch e := b.el.(type) {
				case *gopoet.InterfaceMethod:
					return e.AddResult(a.name, a.t)
				case *gopoet.FuncSpec:
					return e.AddResult(a.name, a.t)
				case *gopoet.Signature:
					return e.AddResult(a.name, a.t)
				}
				return nil
			})
		}
		for _, v := range []bool{true, false} {
			v := v
			add(fmt.Sprintf("SetVariadic(%v)", v), func(b *builder) interface{} {
				b.m.variadic = v
				switch e := b.el.(type) {
				case *gopoet.InterfaceMethod:
					return e.SetVariadic(v)
				case *gopoet.FuncSpec:
					return e.SetVariadic(v)
				case *gopoet.Signature:
					return e.SetVariadic(v)
				}
				return nil
			})
		}
	}
	if kind == 9 || kind == 10 || kind == 12 {
		for _, c := range codeAdds {
			c := c
			add(c.name, func(b *builder) interface{} {
				b.m.body = append(b.m.body, c.text)
				return addCode(b.el, c.name)
			})
		}
	}
	return ops
}

// buildHistory: every sequence of calls on two elements of a kind.
func buildHistory(x *X, kind, depth, max int) {
	ops := buildOps(kind)
	if len(ops)*2 > max {
		depth--
	}
	x.Say("two of %s", buildKinds[kind])
	bs := []*builder{newBuilder(kind, 0), newBuilder(kind, 1)}
	for i := 0; i < depth; i++ {
		c := x.Choose(2*len(ops) + 1)
		if c == 2*len(ops) {
			break
		}
		b, op := bs[c%2], ops[c/2]
		x.Say("%d: %s", c%2, op.name)
		x.Op()
		if got := op.do(b); got != b.el {
			x.Fail("%s returned another element, %v", op.name, got)
		}
		for _, b := range bs {
			b.is(x, b.m)
		}
	}
	for _, b := range bs {
		if b.code == nil {
			continue
		}
		want := strings.Join(b.m.body, "")
		if kind < 2 {
			if b.m.init == nil {
				continue
			}
			want = strings.Join(b.m.init, "")
		}
		sameText(x, "code", codeText(x, b.code()), want)
		x.Saw(want)
	}
}

// buildFuncs: the functions that make code blocks, and those that make
// receivers.
func buildFuncs(x *X) {
	switch x.Choose(2) {
	case 0:
		var want string
		var cb *gopoet.CodeBlock
		for i := 0; i < 3; i++ {
			c := Pick(x, codeAdds)
			x.Say("%s", c.name)
			n := addCode(nil, c.name).(*gopoet.CodeBlock)
			sameText(x, "code", codeText(x, n), c.text)
			if cb == nil {
				cb = n
			} else {
				cb.AddCode(n)
			}
			want += c.text
		}
		sameText(x, "code", codeText(x, cb), want)
	case 1:
		name := Pick(x, []string{"", "r", "_", "é"})
		typ := Pick(x, []string{"T", "t", "É", "_"})
		p := Pick(x, []*P{pSelf, pAFoo})
		named := gopoet.NamedType(gopoet.Symbol{Package: p.Pkg(), Name: typ})
		spec := gopoet.NewStructTypeSpec(typ, gopoet.NewField("F", gopoet.IntType))
		if x.Bool() {
			gopoet.NewGoFile("f.go", p.Path, p.Real).AddType(spec)
		}
		x.Say("receiver %q of type %q", name, typ)
		for _, c := range []struct {
			how string
			r   *gopoet.ReceiverSpec
			ptr bool
		}{
			{"NewReceiver", gopoet.NewReceiver(name, typ), false},
			{"NewPointerReceiver", gopoet.NewPointerReceiver(name, typ), true},
			{"NewReceiverForType", gopoet.NewReceiverForType(name, named), false},
			{"NewReceiverForType of a pointer", gopoet.NewReceiverForType(name, gopoet.PointerType(named)), true},
			{"NewReceiverForType of a spec", gopoet.NewReceiverForType(name, spec), false},
			{"NewPointerReceiverForType", gopoet.NewPointerReceiverForType(name, named), true},
			{"NewPointerReceiverForType of a spec", gopoet.NewPointerReceiverForType(name, spec), true},
		} {
			x.Op()
			if *c.r != (gopoet.ReceiverSpec{Name: name, Type: typ, IsPointer: c.ptr}) {
				x.Fail("%s is %#v", c.how, *c.r)
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C20", Level: "model_checking",
		Rule:   "every import path up to a number of elements over an alphabet of elements, alone and after others, every combination of path, package name, symbol and method, compared with the documented packages, symbols, references and texts",
		Assume: []string{"import paths have no empty elements where a package's name is taken from its path"},
		Harnesses: []*Harness{
			{Name: "paths", Body: func(x *X) { refPaths(x, depthQT(4, 5), 0) }},
			{Name: "several paths", Body: func(x *X) { refPaths(x, depthQT(2, 2), 1) }},
			{Name: "names", Body: refNames},
		}})
	register(&Prop{ID: "C21", Level: "model_checking",
		Rule:   "every sequence, up to a depth, of calls that build two elements of the same kind, for every kind of element; after each call both elements are compared with models to which only the documented effect was applied, and at the end the code in them with the concatenated texts",
		Assume: []string{"code is compared as it is rendered"},
		Harnesses: []*Harness{
			{Name: "calls", Body: func(x *X) { buildHistory(x, x.Choose(len(buildKinds)), depthQT(4, 5), 30) }},
			{Name: "functions", Body: buildFuncs},
			{Name: "code", Body: func(x *X) { blockOps(x, depthQT(6, 7), 2, false) }},
		}})
}
