package main

// C09: code blocks.

import (
	"fmt"
	"go/token"
	"go/types"
	htmpl "html/template"
	"reflect"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

// codeArg is a format argument and what it must be rendered as: text given the
// prefix ("" or "name.") of its package. A plain argument is formatted by fmt.
type codeArg struct {
	kind string
	val  interface{}
	pkg  *P // its package, when it references one
	text func(pre string) string
	// further packages it must cause to be imported
	also []*P
}

type codeEnv struct {
	w     *GoW
	f     *gopoet.GoFile
	files map[string]*gopoet.GoFile
}

func (e *codeEnv) file(p *P) *gopoet.GoFile {
	if p == pSelf {
		return e.f
	}
	g := e.files[p.Path]
	if g == nil {
		g = gopoet.NewGoFile("other.go", p.Path, p.Real)
		e.files[p.Path] = g
	}
	return g
}

func after(s string) func(string) string   { return func(pre string) string { return pre + s } }
func wrap(a, b string) func(string) string { return func(pre string) string { return a + pre + b } }
func verbatim(s string) func(string) string {
	return func(string) string { return s }
}

var (
	pTextT = &P{Path: "text/template", Real: "template"}
	pHTMLT = &P{Path: "html/template", Real: "template"}
)

type codeKind struct {
	name string
	fix  *P // has this package only
	none bool
	add  func(e *codeEnv, p *P, n string) codeArg
}

type stringerArg struct{ s string }

func (s stringerArg) String() string { return "<" + s.s + ">" }

func plainArg(v interface{}) codeKind {
	return codeKind{fmt.Sprintf("plain %#v", v), nil, true, func(e *codeEnv, p *P, n string) codeArg { return codeArg{val: v} }}
}

func namedIn(e *codeEnv, p *P, n string) *types.Named {
	return e.w.Named(Sy{p, n}).(*types.Named)
}

func methodOf(e *codeEnv, p *P, n string, ptr bool) *types.Func {
	var r types.Type = namedIn(e, p, n)
	if ptr {
		r = types.NewPointer(r)
	}
	recv := types.NewVar(token.NoPos, e.w.Pkg(p), "r", r)
	return types.NewFunc(token.NoPos, e.w.Pkg(p), "M", types.NewSignature(recv, nil, nil, false))
}

var codeKinds = []codeKind{
	{"package", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: p.Pkg(), text: func(pre string) string { return strings.TrimSuffix(pre, ".") }}
	}},
	{"*package", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		k := p.Pkg()
		return codeArg{val: &k, text: func(pre string) string { return strings.TrimSuffix(pre, ".") }}
	}},
	{"symbol", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: Sy{p, n}.Sym(), text: after(n)}
	}},
	{"*symbol", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		s := Sy{p, n}.Sym()
		return codeArg{val: &s, text: after(n)}
	}},
	{"predeclared symbol", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: gopoet.Symbol{Name: "len"}, text: verbatim("len")}
	}},
	{"method reference", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: gopoet.MethodReference{Type: Sy{p, n}.Sym(), Method: "M"}, text: after(n + ".M")}
	}},
	{"*method reference", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: &gopoet.MethodReference{Type: Sy{p, n}.Sym(), Method: "M"}, text: after(n + ".M")}
	}},
	{"type name", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: tyNamed(p, n).TN(), text: after(n)}
	}},
	{"pointer type", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: tyPtr(tySlice(tyNamed(p, n))).TN(), text: wrap("*[]", n)}
	}},
	{"func type", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: tyFuncAR([]Ar{ar("a", tyNamed(p, n))}, []Ar{ar("", tyError)}).TN(), text: wrap("func(a ", n+") error")}
	}},
	{"map type", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: tyMap(tyNamed(pCFoo, "K"), tyArray(tyNamed(p, n), 3)).TN(), also: []*P{pCFoo},
			text: func(pre string) string { return "map[" + e.f.PrefixForPackage(pCFoo.Path) + "K][3]" + pre + n }}
	}},
	{"basic type", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: gopoet.Uint16Type, text: verbatim("uint16")}
	}},
	{"const", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		c := gopoet.NewConst(n).Initialize("1")
		e.file(p).AddConst(c)
		return codeArg{val: c, text: after(n)}
	}},
	{"var", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		v := gopoet.NewVar(n).SetType(gopoet.IntType)
		e.file(p).AddVar(v)
		return codeArg{val: v, text: after(n)}
	}},
	{"type", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		t := gopoet.NewTypeSpec(n, gopoet.IntType)
		e.file(p).AddType(t)
		return codeArg{val: t, text: after(n)}
	}},
	{"alias", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		t := gopoet.NewTypeAlias(n, gopoet.IntType)
		e.file(p).AddType(t)
		return codeArg{val: t, text: after(n)}
	}},
	{"func", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		t := gopoet.NewFunc(n)
		e.file(p).AddElement(t)
		return codeArg{val: t, text: after(n)}
	}},
	{"interface embed", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: gopoet.NewInterfaceEmbed(Sy{p, n}.Sym()), text: after(n)}
	}},
	{"method", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		t := gopoet.NewMethod(gopoet.NewPointerReceiver("r", "R"), n)
		e.file(pAFoo).AddElement(t)
		return codeArg{val: t, text: verbatim(n)}
	}},
	{"method of this file", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		t := gopoet.NewMethod(gopoet.NewReceiver("r", "R"), n)
		e.file(pSelf).AddElement(t)
		return codeArg{val: t, text: verbatim(n)}
	}},
	{"interface method", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		m := gopoet.NewInterfaceMethod(n)
		e.file(pBFoo).AddType(gopoet.NewInterfaceTypeSpec("I"+n, m))
		return codeArg{val: m, text: verbatim(n)}
	}},
	{"interface method of this file", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		m := gopoet.NewInterfaceMethod(n)
		e.file(pSelf).AddType(gopoet.NewInterfaceTypeSpec("I"+n, m))
		return codeArg{val: m, text: verbatim(n)}
	}},
	{"method reference of interface method", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		m := gopoet.NewInterfaceMethod("M")
		e.file(p).AddType(gopoet.NewInterfaceTypeSpec(n, m))
		return codeArg{val: m.ToMethodRef(), text: after(n + ".M")}
	}},
	{"symbol of method", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		t := gopoet.NewMethod(gopoet.NewReceiver("r", n), "M")
		e.file(p).AddElement(t)
		return codeArg{val: t.ToSymbol(), text: after(n + ".M")}
	}},
	{"field", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		f := gopoet.NewField(n, tyNamed(pAFoo, "T").TN())
		e.file(pAFoo).AddType(gopoet.NewStructTypeSpec("S"+n, f))
		return codeArg{val: f, text: verbatim(n)}
	}},
	{"go type", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: types.NewSlice(namedIn(e, p, n)), text: wrap("[]", n)}
	}},
	{"go named", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: namedIn(e, p, n), text: after(n)}
	}},
	{"go basic", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: types.NewMap(types.Typ[types.String], types.Universe.Lookup("error").Type()), text: verbatim("map[string]error")}
	}},
	{"go var", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: types.NewVar(token.NoPos, e.w.Pkg(p), n, types.Typ[types.Int]), text: after(n)}
	}},
	{"go const", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: types.NewConst(token.NoPos, e.w.Pkg(p), n, types.Typ[types.Int], nil), text: after(n)}
	}},
	{"go func", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: types.NewFunc(token.NoPos, e.w.Pkg(p), n, types.NewSignature(nil, nil, nil, false)), text: after(n)}
	}},
	{"go type name", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: namedIn(e, p, n).Obj(), text: after(n)}
	}},
	{"go method", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: methodOf(e, p, n, false), text: after(n + ".M")}
	}},
	{"go pointer method", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: methodOf(e, p, n, true), text: after(n + ".M")}
	}},
	{"go universe object", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: types.Universe.Lookup("error"), text: verbatim("error")}
	}},
	{"go package", nil, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: e.w.Pkg(p), text: func(pre string) string { return strings.TrimSuffix(pre, ".") }}
	}},
	{"reflect named", pTextT, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: reflect.TypeOf(template.Template{}), text: after("Template")}
	}},
	{"reflect unnamed", pHTMLT, false, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: reflect.TypeOf([]*htmpl.Template{}), text: wrap("[]*", "Template")}
	}},
	{"reflect basic", nil, true, func(e *codeEnv, p *P, n string) codeArg {
		return codeArg{val: reflect.TypeOf(map[string]error{}), text: verbatim("map[string]error")}
	}},
	plainArg(42), plainArg("100%s"), plainArg(nil), plainArg(true), plainArg([]int{1, 2}), plainArg(stringerArg{"x"}),
	plainArg(map[string]int{"b": 1, "a": 2}), plainArg(fmt.Errorf("oops")), plainArg('x'), plainArg(1.5), plainArg(struct{ A, b int }{1, 2}),
}

// argD dumps an argument, with what it points to.
func argD(a interface{}) string {
	v := reflect.New(anyT).Elem()
	if a == nil {
		return "nil"
	}
	v.Set(reflect.ValueOf(a))
	return dataD(v)
}

// codeCheck renders a format string with arguments; same tells, for each
// argument, which one it is: an earlier one, that is given again, or a new one
// of its own; one that is negative is new and has the name of the first.
func codeCheck(x *X, same []int, formats []string, pkgs []*P, pres [][]*P, ctxs int) {
	e := &codeEnv{w: newGoW(), f: gopoet.NewGoFile("f.go", pSelf.Path, "self"), files: map[string]*gopoet.GoFile{}}
	format := Pick(x, formats)
	pre := Pick(x, pres)
	want := map[string]bool{}
	for _, p := range pre {
		e.f.RegisterImport(p.Path, p.Given())
		want[p.Path] = true
	}
	var as []codeArg
	var vals []interface{}
	var was []string
	for i, j := range same {
		name := fmt.Sprintf("X%d", i)
		switch {
		case j < 0:
			name = "X0"
		case j < i:
			x.Say("argument %d: argument %d again", i, j)
			as = append(as, as[j])
			vals = append(vals, as[j].val)
			was = append(was, argD(as[j].val))
			continue
		}
		k := codeKinds[x.Choose(len(codeKinds))]
		p := k.fix
		if p == nil && !k.none {
			p = Pick(x, pkgs)
			if p.Unknown && strings.HasPrefix(k.name, "go ") {
				x.Skip()
			}
		}
		a := k.add(e, p, name)
		a.kind, a.pkg = k.name, p
		if p == pSelf && strings.HasSuffix(k.name, "package") {
			x.Skip() // the own package has no name in its own files
		}
		if p != nil && p != pSelf {
			want[p.Path] = true
		}
		for _, p := range a.also {
			want[p.Path] = true
		}
		where := ""
		if p != nil {
			where = " of " + p.Path
		}
		x.Say("argument %d: %s%s", i, k.name, where)
		as = append(as, a)
		vals = append(vals, a.val)
		was = append(was, argD(a.val))
	}
	ctx := x.Choose(ctxs)
	x.Say("format %q, context %d, imported before %d", format, ctx, len(pre))
	body := gopoet.NewFunc("body")
	switch ctx {
	case 0:
		body.Print("_ = `<").Printf(format, vals...).Println(">`")
	case 1:
		body.Printlnf("_ = `<"+format+">`", vals...)
	case 2:
		body.AddCode(gopoet.Print("_ = `<").AddCode(gopoet.Printf(format, vals...)).Println(">`"))
	case 3:
		e.f.AddVar(gopoet.NewVar("v").Initialize("`<"+format+">`", vals...))
	case 4:
		e.f.AddConst(gopoet.NewConst("c").SetInitializer((&gopoet.CodeBlock{}).Printf("`<"+format+">`", vals...)))
	}
	if ctx < 3 {
		e.f.AddElement(body)
	}
	var sb strings.Builder
	x.Op()
	if err := gopoet.WriteGoFile(&sb, e.f); err != nil {
		x.Fail("rendering: %v", err)
	}
	src := sb.String()
	i, j := strings.Index(src, "`<"), strings.LastIndex(src, ">`")
	if i < 0 || j < i {
		x.Fail("the code is not in the output:\n%s", src)
	}
	got := src[i+2 : j]
	x.Saw(got)
	var exp []interface{}
	for _, a := range as {
		if a.text == nil {
			exp = append(exp, a.val)
			continue
		}
		pre := ""
		if a.pkg != nil && a.pkg != pSelf {
			pre = e.f.PrefixForPackage(a.pkg.Path)
			if pre == "" || !strings.HasSuffix(pre, ".") {
				x.Fail("prefix %q", pre)
			}
		}
		exp = append(exp, a.text(pre))
	}
	if w := fmt.Sprintf(format, exp...); got != w {
		x.Fail("rendered as %q, expected %q\n%s", got, w, src)
	}
	imp := map[string]bool{}
	for _, s := range e.f.ImportSpecs() {
		imp[s.ImportPath] = true
		if !want[s.ImportPath] {
			x.Fail("%q is imported, and not referenced\n%s", s.ImportPath, src)
		}
	}
	for p := range want {
		if !imp[p] {
			x.Fail("%q is not imported\n%s", p, src)
		}
	}
	// what was given is as before
	for i := range vals {
		if !reflect.DeepEqual(vals[i], as[i].val) {
			x.Fail("argument %d was replaced in the caller's slice: %#v", i, vals[i])
		}
		if is := argD(vals[i]); is != was[i] {
			x.Fail("argument %d was changed from %s to %s", i, was[i], is)
		}
	}
}

// ---- blocks

var blockTmpl = template.Must(template.New("t").Parse("{{.A}}-{{.B}}%d"))

type blockData struct {
	A string
	B gopoet.Symbol
}

// blockOps: every sequence of operations on blocks against strings.
func blockOps(x *X, depth, nblocks int, wide bool) {
	f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
	fn := gopoet.NewFunc("body")
	bs := []*gopoet.CodeBlock{&fn.CodeBlock}
	ms := []string{""}
	for i := 1; i < nblocks; i++ {
		bs = append(bs, &gopoet.CodeBlock{})
		ms = append(ms, "")
	}
	kinds := 1
	if wide {
		kinds = 10
	}
	for i := 0; i < depth; i++ {
		t := x.Choose(nblocks)
		c := x.Choose(kinds + nblocks)
		b := bs[t]
		id := fmt.Sprintf("[%d]", i)
		x.Op()
		if c >= kinds {
			o := c - kinds
			x.Say("b%d.AddCode(b%d)", t, o)
			if len(ms[t])+len(ms[o]) > 4000 {
				x.Skip()
			}
			if t == 0 && x.ops&1 == 1 {
				fn.AddCode(bs[o])
			} else {
				b.AddCode(bs[o])
			}
			ms[t] += ms[o]
			continue
		}
		x.Say("b%d op %d", t, c)
		switch c {
		case 0:
			if t == 0 {
				fn.Print(id + "100%d%s%")
			} else {
				b.Print(id + "100%d%s%")
			}
			ms[t] += id + "100%d%s%"
		case 1:
			if t == 0 {
				fn.Println(id + "%v")
			} else {
				b.Println(id + "%v")
			}
			ms[t] += id + "%v\n"
		case 2:
			if t == 0 {
				fn.Printf(id+"%s%%d%d", Sy{pAFoo, "X"}.Sym(), i)
			} else {
				b.Printf(id+"%s%%d%d", Sy{pAFoo, "X"}.Sym(), i)
			}
			ms[t] += fmt.Sprintf(id+"foo.X%%d%d", i)
		case 3:
			if t == 0 {
				fn.Printlnf(id+"%s", Sy{pSelf, "Y"}.Sym())
			} else {
				b.Printlnf(id+"%s", Sy{pSelf, "Y"}.Sym())
			}
			ms[t] += id + "Y\n"
		case 4:
			d := &blockData{id, Sy{pBFoo, "Z"}.Sym()}
			// its package is called foo1 if pAFoo was imported before it
			f.RegisterImport(pAFoo.Path, "foo")
			f.RegisterImport(pBFoo.Path, "foo")
			if t == 0 {
				fn.RenderCode(blockTmpl, d)
			} else {
				b.RenderCode(blockTmpl, *d)
			}
			ms[t] += id + "-foo1.Z%d"
		case 5:
			b.AddCode(gopoet.Print(id + "%"))
			ms[t] += id + "%"
		case 6:
			b.AddCode(gopoet.Println(id + "%"))
			ms[t] += id + "%\n"
		case 7:
			b.AddCode(gopoet.Printf(id+"%d", 7))
			ms[t] += id + "7"
		case 8:
			b.AddCode(gopoet.Printlnf(id+"%d%%", 7).Print("").Println(""))
			ms[t] += id + "7%\n\n"
		case 9:
			f.RegisterImport(pAFoo.Path, "foo")
			b.AddCode(gopoet.RenderCode(blockTmpl, &blockData{id, Sy{pAFoo, "Z"}.Sym()}))
			ms[t] += id + "-foo.Z%d"
		}
	}
	// the blocks are independent: what is added to one from here on is not in
	// any other
	for i := 0; i < nblocks; i++ {
		bs[i].Print(fmt.Sprintf("{%d}", i))
		ms[i] += fmt.Sprintf("{%d}", i)
	}
	for i := 0; i < nblocks; i++ {
		f.AddVar(gopoet.NewVar(fmt.Sprintf("v%d", i)).SetInitializer(gopoet.Print("`").AddCode(bs[i]).Print("`")))
		ms[i] = fmt.Sprintf("v%d = `", i) + ms[i] + "`"
	}
	var sb strings.Builder
	if err := gopoet.WriteGoFile(&sb, f); err != nil {
		x.Fail("rendering: %v", err)
	}
	src := sb.String()
	x.Saw(src)
	for i, m := range ms {
		if !strings.Contains(src, m) {
			x.Fail("block %d is not rendered as %q\n%s", i, m, src)
		}
	}
}

// codeParts: what is added to a block, next to each other. Neither the text
// nor the arguments of one part affect those next to it.
var partTexts = []string{"%", "d", "%%", "%d", "x", "", "[2]v", "%s", " ", "\n", "%v\n", "\t", "%[1]", "{{.}}", "!"}

var partTmpls = func() map[string]*template.Template {
	m := map[string]*template.Template{}
	for _, t := range partTexts {
		m[t] = template.Must(template.New("").Delims("<<", ">>").Parse(t + "<<.>>"))
	}
	return m
}()

func codeParts(x *X, max, texts int) {
	f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
	fn := gopoet.NewFunc("body")
	b := &gopoet.CodeBlock{}
	ctx := x.Choose(2)
	if ctx == 0 {
		b = &fn.CodeBlock
	}
	b.Print("_ = `<")
	want := ""
	n := 1 + x.Choose(max)
	for i := 0; i < n; i++ {
		t := partTexts[x.Choose(texts)]
		how := x.Choose(7)
		x.Say("%d %q", how, t)
		var as, ms []interface{}
		if how == 2 || how == 3 {
			switch x.Choose(3) {
			case 1:
				as, ms = []interface{}{7}, []interface{}{7}
			case 2:
				as, ms = []interface{}{Sy{pAFoo, "X"}.Sym(), "z"}, []interface{}{"foo.X", "z"}
				if strings.Contains(fmt.Sprintf(t, ms...), "%!") {
					x.Skip() // names the type of the argument
				}
			}
		}
		switch how {
		case 0:
			b.Print(t)
			want += t
		case 1:
			b.Println(t)
			want += t + "\n"
		case 2:
			b.Printf(t, as...)
			want += fmt.Sprintf(t, ms...)
		case 3:
			b.Printlnf(t, as...)
			l := fmt.Sprintf(t, ms...) + "\n"
			if l != fmt.Sprintf(t+"\n", ms...) {
				x.Skip() // the format ends within a directive
			}
			want += l
		case 4:
			b.AddCode(gopoet.Print(t))
			want += t
		case 5:
			b.AddCode(gopoet.Printf(t, 1, 2))
			want += fmt.Sprintf(t, 1, 2)
		case 6:
			b.RenderCode(partTmpls[t], "%d")
			want += t + "%d"
		}
	}
	b.Println(">`")
	if ctx == 0 {
		f.AddElement(fn)
	} else {
		f.AddElement(fn.AddCode(b))
	}
	var sb strings.Builder
	x.Op()
	if err := gopoet.WriteGoFile(&sb, f); err != nil {
		x.Fail("rendering: %v", err)
	}
	src := sb.String()
	x.Saw(src)
	i, j := strings.Index(src, "`<"), strings.LastIndex(src, ">`")
	if i < 0 || j < i {
		x.Fail("the code is not in the output:\n%s", src)
	}
	if got := src[i+2 : j]; got != want {
		x.Fail("rendered as %q, expected %q", got, want)
	}
}

// codeShared: one slice of arguments, parts of it, and one code block, used in
// several places of two files whose prefixes differ.
func codeShared(x *X) {
	e := &codeEnv{w: newGoW(), f: gopoet.NewGoFile("f.go", pSelf.Path, "self"), files: map[string]*gopoet.GoFile{}}
	g := gopoet.NewGoFile("g.go", pSelf.Path, "self")
	e.f.RegisterImport(pAFoo.Path, "foo")
	e.f.RegisterImport(pDFoo1.Path, "foo1")
	var as []codeArg
	var vals []interface{}
	for i := 0; i < 2; i++ {
		k := codeKinds[x.Choose(len(codeKinds))]
		p := k.fix
		if p == nil && !k.none {
			p = []*P{pBFoo, pCFoo}[i]
		}
		a := k.add(e, p, fmt.Sprintf("X%d", i))
		a.kind, a.pkg = k.name, p
		x.Say("argument %d: %s", i, k.name)
		as = append(as, a)
		vals = append(vals, a.val)
	}
	args := append(make([]interface{}, 0, 4), vals...)
	blk := gopoet.Printf("%s|", args[:1]...)
	type use struct {
		format string
		lo, hi int
	}
	uses := []use{{"%s,%v;", 0, 2}, {"%s.", 0, 1}, {"%s:", 1, 2}, {"%[2]v%[1]v", 0, 2}, {"", 0, 0}}
	n := 2
	var us []use
	for i := 0; i < n; i++ {
		us = append(us, Pick(x, uses))
	}
	two := x.Bool()
	x.Say("%v, in two blocks: %v", us, two)
	fill := func(f *gopoet.GoFile) {
		fn := gopoet.NewFunc("body").Print("_ = `<")
		for i, u := range us {
			to := &fn.CodeBlock
			if two && i == 1 {
				to = &gopoet.CodeBlock{}
			}
			if u.hi == 0 {
				to.AddCode(blk)
			} else {
				to.Printf(u.format, args[u.lo:u.hi]...)
			}
			if to != &fn.CodeBlock {
				fn.AddCode(to)
			}
		}
		fn.Println(">`")
		f.AddElement(fn)
	}
	files := []*gopoet.GoFile{e.f, g}
	fill(e.f)
	fill(g)
	for r := 0; r < 3; r++ {
		f := files[r%2]
		var sb strings.Builder
		x.Op()
		if err := gopoet.WriteGoFile(&sb, f); err != nil {
			x.Fail("rendering: %v", err)
		}
		src := sb.String()
		i, j := strings.Index(src, "`<"), strings.LastIndex(src, ">`")
		if i < 0 || j < i {
			x.Fail("the code is not in the output:\n%s", src)
		}
		e.f = f
		var exp []interface{}
		for k, a := range as {
			if a.text == nil {
				exp = append(exp, a.val)
				continue
			}
			used := false
			for _, u := range us {
				used = used || u.lo <= k && k < u.hi || u.hi == 0 && k == 0
			}
			if !used {
				exp = append(exp, "unused")
				continue
			}
			pre := ""
			if a.pkg != nil {
				pre = f.PrefixForPackage(a.pkg.Path)
			}
			exp = append(exp, a.text(pre))
		}
		want := ""
		for _, u := range us {
			if u.hi == 0 {
				want += fmt.Sprintf("%s|", exp[:1]...)
			} else {
				want += fmt.Sprintf(u.format, exp[u.lo:u.hi]...)
			}
		}
		x.Saw(src)
		if got := src[i+2 : j]; got != want {
			x.Fail("rendering %d is %q, expected %q\n%s", r, got, want, src)
		}
		for k, v := range args[:4] {
			if k < 2 && !reflect.DeepEqual(v, vals[k]) || k >= 2 && v != nil {
				x.Fail("element %d of the caller's slice is %#v after rendering", k, v)
			}
		}
	}
}

type (
	fmtArg   struct{ s string }
	goStrArg struct{ s string }
	ptrStr   struct{ s string }
	named    string
	rawBytes []byte
	anyList  []interface{}
)

func (a fmtArg) Format(f fmt.State, c rune) { fmt.Fprintf(f, "(%s:%c)", a.s, c) }
func (a goStrArg) GoString() string         { return "go " + a.s }
func (a *ptrStr) String() string            { return "ptr " + a.s }

// plainValues are not references, so that fmt decides how they are formatted,
// even if there are references in them.
func plainValues() []interface{} {
	a, b := Sy{pAFoo, "X"}.Sym(), Sy{pBFoo, "Y"}.Sym()
	return []interface{}{
		nil, true, 42, int8(-1), uint8(37), uintptr(7), int64(1) << 62, 1.5, float32(1e30), complex(1, -2), 'x', "s%d", "", named("n%v"),
		[]byte("a%b"), []byte(nil), []byte{}, rawBytes("raw"), [3]byte{65, 66, 67}, []rune("ab"), []int8{1}, []uint8{1, 2},
		[]interface{}{1, "x"}, []interface{}{}, []interface{}(nil), []interface{}{[]interface{}{a}}, anyList{"y", 2}, &[]interface{}{1},
		[]string{"a", "b"}, []string(nil), []error{fmt.Errorf("e%%")}, map[string]int{"b": 1, "a": 2}, map[int]string(nil), map[named]interface{}{"k": []byte("v")},
		struct{}{}, struct{ A, b int }{1, 2}, struct{ S fmt.Stringer }{stringerArg{"in"}}, &struct{ A string }{"p"}, struct{ e error }{}, &map[string]int{"z": 1},
		stringerArg{"x"}, &stringerArg{"x"}, fmtArg{"f"}, goStrArg{"g"}, &ptrStr{"p"}, ptrStr{"q"}, fmt.Errorf("oops %w", fmt.Errorf("in")), (*stringerArg)(nil),
		template.Must(template.New("named").Parse("t")).Name(), reflect.Int, gopoet.KindMap, reflect.BothDir, reflect.ValueOf(3), reflect.ValueOf("s"), token.ADD, token.Pos(3),
		[]gopoet.Symbol{a, b}, []gopoet.Symbol{}, []interface{}{a, b}, [1]gopoet.Package{a.Package}, map[string]gopoet.Symbol{"k": b}, struct{ S gopoet.Symbol }{b},
		[]gopoet.TypeName{gopoet.IntType}, gopoet.ArgType{Name: "n", Type: gopoet.IntType}, []gopoet.ImportSpec{{ImportPath: "p"}}, gopoet.ImportSpec{PackageAlias: "q", ImportPath: "p"}, func() gopoet.Symbol { return a }(),
	}
}

var plainVerbs = []string{"%v", "%+v", "%#v", "%T", "%s", "%q", "%x", "%X", "%d", "%c", "%U", "%t", "%e", "%8v|", "%-8v|", "%08v", "% x", "%#x", "%.1v", "%[1]v", "%[1]T", "%!", "%z", "%", "%%", ""}

// codePlain: all other arguments are formatted as by fmt.
func codePlain(x *X) {
	f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
	v := Pick(x, plainValues())
	verb := Pick(x, plainVerbs)
	ref := Sy{pQFoo, "R"}
	if _, isSym := v.(gopoet.Symbol); isSym {
		if verb != "%v" && verb != "%s" && verb != "%" && verb != "" {
			x.Skip()
		}
		f.EnsureImported(v.(gopoet.Symbol))
	}
	var args, same []interface{}
	format := ""
	switch x.Choose(7) {
	case 0:
		format, args = verb, []interface{}{v}
		same = args
	case 1:
		format, args = verb+" %v", []interface{}{v, v}
		same = args
	case 2:
		format, args = verb+" %v", []interface{}{v, ref.Sym()}
		same = []interface{}{v, "foo1.R"}
		f.RegisterImport(pAFoo.Path, "foo")
	case 3:
		if strings.HasSuffix(verb, "%") || strings.HasSuffix(verb, "%!") || strings.Contains(verb, "[") || verb == "" {
			x.Skip()
		}
		format, args = "%s "+verb, []interface{}{ref.Sym(), v}
		same = []interface{}{"foo1.R", v}
		f.RegisterImport(pAFoo.Path, "foo")
	case 4:
		format, args = "["+verb+"] %v", []interface{}{v}
		same = args
	case 5:
		format, args = verb, []interface{}{v, 7, v}
		same = args
	case 6:
		format, args = "%*v"+verb, []interface{}{9, "w", v}
		same = args
	}
	if x.Bool() {
		// the arguments as the caller's slice
		args = append(make([]interface{}, 0, 8), args...)
	}
	want := fmt.Sprintf(format, same...)
	if strings.Contains(want, "0x") && strings.Contains(want, "(") && strings.ContainsAny(fmt.Sprintf("%T", v), "*") || strings.ContainsAny(want, "\x60\r\x00") {
		x.Skip() // an address, or not possible in a raw string
	}
	if len(same) == 2 && same[1] == "foo1.R" && strings.Contains(want, "EXTRA") {
		x.Skip() // a reference where none is asked for
	}
	x.Say("%q with %#v", format, v)
	cb := &gopoet.CodeBlock{}
	how := x.Choose(4)
	if how%2 == 1 && strings.Contains(want, "%!") {
		x.Skip() // where the line ends then is not documented
	}
	switch how {
	case 0:
		cb.Printf(format, args...)
	case 1:
		cb.Printlnf(format, args...)
		want += "\n"
	case 2:
		cb.AddCode(gopoet.Printf(format, args...))
	case 3:
		cb = gopoet.Printlnf(format, args...)
		want += "\n"
	}
	f.AddVar(gopoet.NewVar("v").SetInitializer(gopoet.Print("`").AddCode(cb).Print("`")))
	for r := 0; r < 2; r++ {
		var sb strings.Builder
		x.Op()
		if err := gopoet.WriteGoFile(&sb, f); err != nil {
			x.Fail("rendering: %v", err)
		}
		src := sb.String()
		x.Saw(src)
		if !strings.Contains(src, "var v = `"+want+"`") {
			x.Fail("should be rendered as %q\n%s", want, src)
		}
	}
}

func init() {
	pk := []*P{pAFoo, pSelf, pBFoo, pYaml}
	many := append([]*P{pSelf}, universe...)
	pres := [][]*P{nil, {pBFoo}, {pAFoo}, {pDFoo1, pBFoo}, {pCFoo, pBFoo, pAFoo, pHTMLT}}
	register(&Prop{ID: "C09", Level: "model_checking",
		Rule:   "every kind of argument with every package, in every import situation, with every verb, position and context, alone and in pairs; and every sequence of block building operations and of adjacent parts up to a depth, against string concatenation; arguments that are shared by parts, blocks and files",
		Assume: []string{"fmt formats strings and plain values correctly", "a Signature and the file's own Package have no documented form as arguments and are not used"},
		Harnesses: []*Harness{
			{Name: "argument", Body: func(x *X) {
				codeCheck(x, []int{0}, []string{"%s", "%v", "%12s|", "%-12v|", "a%[1]v%[1]sb", "%%%s"}, many, pres, 5)
			}},
			{Name: "arguments", Body: func(x *X) {
				codeCheck(x, []int{0, 1}, []string{"%s %v", "%[2]s%[1]v"}, pk, depthPres(pres), 1+2*b2i(thorough))
			}},
			{Name: "repeated arguments", Body: func(x *X) {
				if x.Bool() {
					codeCheck(x, []int{0, 0}, []string{"%v%v", "%s %[1]v %v"}, pk, pres[:3], 3)
					return
				}
				same := Pick(x, [][]int{{0, -1}, {0, 0, 2}, {0, 1, 0}, {0, 1, 1}, {0, 1, 0, 1}})
				codeCheck(x, same, []string{strings.Repeat("%v ", len(same))}, []*P{pAFoo, pBFoo}, pres[:1], 1)
			}},
			{Name: "three arguments", Thorough: true, Body: func(x *X) {
				codeCheck(x, []int{0, 1, 2}, []string{"%v %v %v"}, []*P{pAFoo, pBFoo}, [][]*P{nil}, 1)
			}},
			{Name: "parts", Body: func(x *X) { codeParts(x, 2, len(partTexts)) }},
			{Name: "many parts", Body: func(x *X) { codeParts(x, 3, depthQT(6, 9)) }},
			{Name: "plain values", Body: codePlain},
			{Name: "templates", Body: codeTemplates},
			{Name: "shared arguments", Body: codeShared},
			{Name: "large", Body: codeLarge},
			{Name: "blocks", Body: func(x *X) { blockOps(x, depthQT(4, 5), 2, true) }},
			{Name: "shared blocks", Body: func(x *X) { blockOps(x, depthQT(7, 8), 2, false) }},
			{Name: "three blocks", Body: func(x *X) { blockOps(x, depthQT(4, 5), 3, false) }},
		}})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func depthPres(p [][]*P) [][]*P {
	if thorough {
		return p
	}
	return p[:2]
}

type textTemplate = template.Template
