package main

// C11: rendering is repeatable and leaves the caller's elements unchanged.

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

// elementD dumps all that can be asked of an element of a file.
func elementD(e gopoet.FileElement) string {
	var b strings.Builder
	switch e := e.(type) {
	case *gopoet.ConstDecl:
		fmt.Fprintf(&b, "consts %q", e.Comment)
		for _, c := range e.Consts {
			b.WriteString(" " + dataD(reflect.ValueOf(c)) + " " + c.String())
		}
	case *gopoet.VarDecl:
		fmt.Fprintf(&b, "vars %q", e.Comment)
		for _, c := range e.Vars {
			b.WriteString(" " + dataD(reflect.ValueOf(c)) + " " + c.String())
		}
	case *gopoet.TypeDecl:
		fmt.Fprintf(&b, "types %q", e.Comment)
		for _, c := range e.Types {
			b.WriteString(" " + dataD(reflect.ValueOf(c)) + " " + c.String())
			b.WriteString(orPanic(func() string { return dBoth.TN(c.ToTypeName()) }))
		}
	case *gopoet.FuncSpec:
		b.WriteString(dataD(reflect.ValueOf(e)) + " " + e.String())
		b.WriteString(orPanic(func() string { return dBoth.TN(e.ToTypeName()) }))
	}
	return b.String()
}

func fileD(f *gopoet.GoFile) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %v %q %q %q %d\n", f.Name, f.PackageName, f.Package(), f.CanonicalImportPath, f.FileComment, f.PackageComment, f.NumElements())
	for i := 0; i < f.NumElements(); i++ {
		b.WriteString(elementD(f.ElementAt(i)) + "\n")
	}
	return b.String()
}

// The ways in which a rendering can be made to fail.
const (
	failNot = iota
	failWriter
	failTemplate
	failFormat
	failSymbol
	nFails
)

var failNames = [nFails]string{"", " with a failing writer", " with a failing template", " with code that can not be formatted", " with a reference to an element that has no symbol"}

// mode is consulted by the parts of the world that can fail.
type mode struct{ fail int }

// textArg prints as a comment, or as something that is not Go.
type textArg struct{ m *mode }

func (t textArg) String() string {
	if t.m.fail == failFormat {
		return ") this is not Go ("
	}
	return "// fine"
}

type brokenWriter struct{}

var errBroken = errors.New("broken writer")

func (brokenWriter) Write(p []byte) (int, error) { return len(p) / 2, errBroken }

// rWorld is a set of files that share what can be shared.
type rWorld struct {
	m     *mode
	files []*gopoet.GoFile
	snap  func() string
	again []change
	vs    *gopoet.VarSpec
	names []string
	kept  []keptError
}

// change is a change that a user makes to the elements between renderings.
type change struct {
	name string
	do   func()
}

// keptError is an error that a rendering returned; it must not change later.
type keptError struct {
	fe   *gopoet.FormatError
	text string
}

func (w *rWorld) keepsErrors(x *X) {
	for _, k := range w.kept {
		if string(k.fe.Unformatted) != k.text {
			x.Fail("the unformatted code in an error changed later to\n%s\nfrom\n%s", k.fe.Unformatted, k.text)
		}
	}
}

// text renders one file.
func (w *rWorld) render(x *X, k, fail int) (string, string) {
	w.m.fail = fail
	var saved []string
	if fail == failSymbol {
		saved = w.vs.Names
		w.vs.Names = []string{"V1", "V2"}
	}
	var sb strings.Builder
	var out io.Writer = &sb
	if fail == failWriter {
		out = brokenWriter{}
	}
	x.Op()
	var err error
	trouble, _ := catch(func() { err = gopoet.WriteGoFile(out, w.files[k]) })
	if err != nil {
		trouble = "error: " + err.Error()
		var fe *gopoet.FormatError
		if errors.As(err, &fe) {
			trouble += "\n" + string(fe.Unformatted)
			w.kept = append(w.kept, keptError{fe, string(fe.Unformatted)})
		}
	}
	if fail == failSymbol {
		w.vs.Names = saved
	}
	w.m.fail = failNot
	return sb.String(), trouble
}

type rNested struct {
	P    gopoet.Package
	S    string
	N    int
	syms []gopoet.Symbol
	Next *rNested
	M    map[gopoet.Symbol]interface{}
	A    [2]gopoet.TypeName
	F    *gopoet.FuncSpec
	V    *gopoet.VarSpec
}

var tmplNested = template.Must(template.New("t").Parse(`_ = {{.P}}.V{{range $k, $v := .M}}
_ = {{$k}}{{$v}}{{end}}
var _, _ {{index .A 1}}
{{with .Next}}_ = {{.P}}.W
{{.F}}(){{end}}
_ = {{.V}} // {{.S}} {{.N}}
`))

// rFiles: their packages compete for a name, and each starts with an import of
// its own, so that each file gives other prefixes to the shared references.
var rPkgs = []*P{pSelf, pAFoo, pBFoo}
var rFirst = []*P{pCFoo, pBFoo, pQFoo}

// sharedWorld shares elements, code blocks, types and template data among
// three files.
func sharedWorld() *rWorld { return world(3) }

// singleWorld has one file, in which each part appears only once.
func singleWorld() *rWorld { return world(1) }

func world(n int) *rWorld {
	w := &rWorld{m: &mode{}}
	gw := newGoW()
	for i, p := range rPkgs[:n] {
		f := gopoet.NewGoFile(fmt.Sprintf("f%d.go", i), p.Path, p.Real)
		f.FileComment = "\n  About the file.\n"
		f.PackageComment = "Doc.\n\n"
		f.AddVar(gopoet.NewVar(fmt.Sprint("first", i)).Initialize("%s", Sy{rFirst[i], "V"}.Sym()))
		w.files = append(w.files, f)
	}
	failing := template.Must(template.New("t").Funcs(template.FuncMap{"check": func() (string, error) {
		if w.m.fail == failTemplate {
			return "", errors.New("no")
		}
		return "// checked", nil
	}}).Parse("_ = {{.}}.X {{check}}\n"))

	// an element of another file
	other := gopoet.NewGoFile("other.go", pAFoo.Path, pAFoo.Real)
	w.vs = gopoet.NewVar("Vother").SetType(gopoet.IntType)
	ots := gopoet.NewTypeSpec("Tother", gopoet.IntType)
	ofn := gopoet.NewFunc("Fother")
	other.AddVar(w.vs).AddType(ots).AddElement(ofn)

	// types
	tA, tB, tSelf, tQ := tyNamed(pAFoo, "T").TN(), tyNamed(pBFoo, "T").TN(), tyNamed(pSelf, "T").TN(), tyNamed(pQFoo, "T").TN()
	sig := &gopoet.Signature{}
	sig.AddArg("a", tA).AddArg("", gopoet.SliceType(tB)).AddResult("", tSelf).SetVariadic(true)
	ft := gopoet.FuncTypeFromSig(sig)
	st := gopoet.StructType(gopoet.FieldType{Name: "X", Type: tA, Tag: "t"}, gopoet.FieldType{Name: "Y", Type: gopoet.MapType(tB, ft)})
	it := gopoet.InterfaceType([]gopoet.Symbol{{Package: pAFoo.Pkg(), Name: "I"}}, gopoet.MethodType{Name: "M", Signature: *sig})

	// data
	data := &rNested{P: pCFoo.Pkg(), syms: []gopoet.Symbol{Sy{pAFoo, "V"}.Sym()}, A: [2]gopoet.TypeName{gopoet.IntType, gopoet.PointerType(tQ)}, V: w.vs,
		M: map[gopoet.Symbol]interface{}{Sy{pAFoo, "V"}.Sym(): gw.Named(Sy{pBFoo, "T"}), Sy{pBFoo, "V"}.Sym(): gw.Pkg(pAFoo), {Name: "len"}: "(x)"}}
	data.Next = &rNested{P: pDFoo1.Pkg(), F: ofn}

	// code
	symV, pkgB := Sy{pAFoo, "V"}.Sym(), pBFoo.Pkg()
	mr := gopoet.MethodReference{Type: Sy{pBFoo, "T"}.Sym(), Method: "Meth"}
	args := []interface{}{symV, &symV, pCFoo.Pkg(), &pkgB, mr, &mr, tA, ft, ots, ofn, w.vs, gw.Named(Sy{pBFoo, "T"}), gw.Pkg(pCFoo), reflect.TypeOf(template.Template{}), "plain", 7}
	inner := gopoet.Printlnf("/* %s %s %s.X %s.Y %s %s %s %s %s %s %s %s %s.Z %s %s %d */", args...)
	code := gopoet.Println("x := 1").AddCode(inner).Println("_ = x").RenderCode(failing, pCFoo.Pkg()).RenderCode(tmplNested, data).Printlnf("%s", textArg{w.m}).Printlnf("_ = %s", w.vs)
	if n > 1 {
		code.AddCode(code)
	}
	init := gopoet.Printf("%s", symV)

	// elements
	aboutA := gopoet.NewField("A", tA).SetComment("\tabout A \n")
	un := gopoet.NewStructTypeSpec("", aboutA, gopoet.NewField("B", ots))
	uni := gopoet.NewInterfaceTypeSpec("", gopoet.NewInterfaceMethod("UM").AddArg("", tB))
	fields := []*gopoet.FieldSpec{gopoet.NewField("", tA), gopoet.NewField("F1", un), gopoet.NewField("F2", uni), gopoet.NewField("F3", st).SetTag("x"), gopoet.NewField("F4", it), gopoet.NewField("F5", ots), gopoet.NewField("F6", ft)}
	im := gopoet.NewInterfaceMethod("IM").AddArg("p", tQ).AddResult("", tA).SetComment("IM\n")
	ie := gopoet.NewInterfaceEmbed(Sy{pBFoo, "I"}.Sym()).SetComment("I\n")
	shared := []gopoet.FileElement{
		gopoet.NewConstDecl(gopoet.NewConst("c1").SetType(tA).SetInitializer(init), gopoet.NewConst("c2").SetType(ots).Initialize("2").SetComment("c2 \n")).SetComment("consts\n"),
		gopoet.NewVarDecl(gopoet.NewVar("v1").SetType(un).SetComment("v1\n"), gopoet.NewVar("v2").SetType(uni).Initialize("nil"), gopoet.NewVar("v3", "v4").SetType(ots).SetInitializer(gopoet.Printf("1, ").AddCode(init))),
		gopoet.NewTypeDecl(gopoet.NewStructTypeSpec("S1", fields...), gopoet.NewInterfaceTypeSpec("I1", im, ie), gopoet.NewTypeSpec("S2", st), gopoet.NewTypeSpec("I2", it), gopoet.NewTypeSpec("U1", un), gopoet.NewTypeAlias("A1", ots).SetComment("A1\n"), gopoet.NewTypeSpec("F1", ft)),
		&gopoet.FuncSpec{Name: "f1", Signature: *sig, CodeBlock: *(&gopoet.CodeBlock{}).AddCode(code)},
		gopoet.NewMethod(gopoet.NewPointerReceiver("s", "S1"), "m1").AddArg("a", tB).AddResult("", ft).SetComment("m1 does.\n"),
	}
	if n > 1 {
		shared[4].(*gopoet.FuncSpec).AddCode(code)
	}
	shared[4].(*gopoet.FuncSpec).Printlnf("return nil")
	shared[3].(*gopoet.FuncSpec).Comment = " f1 does.\n\n and more \n\n"
	for _, f := range w.files {
		f.AddElement(gopoet.NewFunc("init").AddCode(inner))
		for i, e := range shared {
			f.AddElement(e)
			if i < 3 && n > 1 {
				f.AddVar(gopoet.NewVar("_").SetType(tA)).AddElement(gopoet.NewFunc("init"))
			}
		}
		if n == 1 {
			break
		}
		own := gopoet.NewStructTypeSpec("Own", gopoet.NewField("U", un), gopoet.NewField("S", shared[2].(*gopoet.TypeDecl).Types[0]))
		f.AddType(own)
		f.AddElement(gopoet.NewFunc("own").AddCode(code).AddCode(inner))
	}
	extra, revised := 0, 0
	w.again = []change{{"add further elements", func() {
		extra++
		for _, f := range w.files {
			f.AddElement(gopoet.NewFunc(fmt.Sprint("extra", extra)).AddArg("a", tyNamed(pShort, "T").TN()).AddCode(inner).AddArg("u", gopoet.PointerType(un.ToTypeName())))
		}
	}}, {"revise elements in ways that keep the length of the code", func() {
		revised++
		n := fmt.Sprint(revised % 10)
		cs, vs, ts := shared[0].(*gopoet.ConstDecl), shared[1].(*gopoet.VarDecl), shared[2].(*gopoet.TypeDecl)
		cs.Comment = "const" + n
		cs.Consts[1].Initialize("%s", n)
		cs.Consts[0].Names[0] = "k" + n
		vs.Vars[2].Names = []string{"v" + n, "w" + n}
		ts.Types[6].Name = "G" + n
		fields[3].SetTag(n)
		aboutA.Comment = "about " + n
		im.Name = "I" + n
		shared[3].(*gopoet.FuncSpec).Name = "g" + n
		shared[4].(*gopoet.FuncSpec).Receiver.Name = []string{"s", "r"}[revised%2]
		data.M[gopoet.Symbol{Name: "len"}] = "(" + n + ")"
		w.vs.Names[0] = "Vothe" + n
		ofn.Name = "Fothe" + n
		data.S, data.Next.N = "s"+n, revised%10
		for _, f := range w.files {
			f.PackageComment = "Do" + n + ".\n\n"
		}
	}}, {"revise types and references", func() {
		revised++
		vs := shared[1].(*gopoet.VarDecl)
		vs.Vars[2].Type = []gopoet.TypeNameOrSpec{ots, tB, tA}[revised%3]
		vs.Vars[2].SetInitializer(gopoet.Printf("1, ").AddCode([]*gopoet.CodeBlock{init, gopoet.Printf("%s", Sy{pBFoo, "V"}.Sym())}[revised%2]))
		fields[0].Comment = fmt.Sprint("embedded ", revised)
		fields[1].Type, fields[2].Type = fields[2].Type, fields[1].Type
		data.A[1] = []gopoet.TypeName{gopoet.PointerType(tQ), gopoet.SliceType(tQ), tQ}[revised%3]
	}}, {"add to code", func() {
		revised++
		inner.Printlnf("_ = %s // %d", symV, revised)
		shared[4].(*gopoet.FuncSpec).Printlnf("_ = %s // %d", &symV, revised)
		sig.AddArg(fmt.Sprint("z", revised), gopoet.SliceType(tQ))
	}}}
	w.snap = func() string {
		var b strings.Builder
		for _, f := range append([]*gopoet.GoFile{other}, w.files...) {
			b.WriteString(fileD(f))
		}
		for _, t := range []gopoet.TypeName{ft, st, it, un.Underlying(), uni.Underlying()} {
			b.WriteString(dBoth.TN(t) + " " + t.String() + "\n")
		}
		for _, f := range fields {
			b.WriteString(dataD(reflect.ValueOf(f)) + "\n")
		}
		b.WriteString(dataD(reflect.ValueOf(im)) + dataD(reflect.ValueOf(ie)) + im.String() + ie.String() + "\n")
		b.WriteString(dBoth.Sig(sig) + "\n")
		for _, a := range args {
			v := reflect.New(anyT).Elem()
			v.Set(reflect.ValueOf(a))
			b.WriteString(dataD(v) + "\n")
		}
		b.WriteString(dataD(reflect.ValueOf(data)) + symD(symV) + dataD(reflect.ValueOf(pkgB)) + refD(mr))
		return b.String()
	}
	return w
}

// slotWorld shares the element of one or two slots among three files.
func slotWorld(x *X, k, k2 int, p, p2 *P) *rWorld {
	w := &rWorld{m: &mode{}}
	b := newFileB()
	want := map[int]slotRef{}
	b.use(x, want, k, p)
	if k2 >= 0 && k2 != k {
		b.use(x, want, k2, p2)
	}
	b.f.AddElement(b.body)
	w.files = []*gopoet.GoFile{b.f}
	for i := 1; i < 3; i++ {
		f := gopoet.NewGoFile(fmt.Sprintf("f%d.go", i), rPkgs[i].Path, rPkgs[i].Real)
		f.AddVar(gopoet.NewVar("first").Initialize("%s", Sy{rFirst[i], "V"}.Sym()))
		for j := 0; j < b.f.NumElements(); j++ {
			f.AddElement(b.f.ElementAt(j))
		}
		w.files = append(w.files, f)
	}
	w.snap = func() string {
		s := ""
		for _, f := range w.files {
			s += fileD(f)
		}
		return s
	}
	return w
}

// shareable tells whether a slot makes sense in all files of a slot world.
func shareable(k int, p *P) bool {
	n := slots[k].name
	if strings.HasPrefix(n, "manual") {
		return false
	}
	// source of the form package.name is not valid in the package itself
	return !strings.HasSuffix(n, " package") || p != pAFoo && p != pBFoo
}

// renderHistory renders the files of a world in every order.
func renderHistory(x *X, mk func() *rWorld, depth int, fails []int) {
	w := mk()
	before := w.snap()
	ops := len(w.files) * len(fails)
	changed := "" // the changes that were made, in order
	type key struct {
		k       int
		changed string
	}
	ref := map[key]string{}
	fresh := func(k int) string {
		if s, ok := ref[key{k, changed}]; ok {
			return s
		}
		o := mk()
		for _, c := range changed {
			o.again[c-'0'].do()
		}
		s, trouble := o.render(x, k, failNot)
		if trouble != "" {
			x.Fail("file %d alone does not render: %s", k, trouble)
		}
		ref[key{k, changed}] = s
		return s
	}
	queries := func(when string) {
		w.keepsErrors(x)
		if now := w.snap(); now != before {
			x.Fail("%s, the elements answer differently\nbefore %s\nafter %s", when, diffLines(before, now), diffLines(now, before))
		}
	}
	for i := 0; i < depth; i++ {
		c := x.Choose(ops + 2 + len(w.again))
		switch {
		case c < ops:
			k, fail := c/len(fails), fails[c%len(fails)]
			x.Say("render %d%s", k, failNames[fail])
			s, trouble := w.render(x, k, fail)
			if (trouble == "") != (fail == failNot) {
				x.Fail("rendering file %d%s gives %s", k, failNames[fail], trouble)
			}
			if fail == failNot {
				if want := fresh(k); s != want {
					x.Fail("file %d differs from what it is when rendered alone\n%s\nalone\n%s", k, diffLines(s, want), diffLines(want, s))
				}
				x.Saw(s)
			} else if s != "" {
				x.Fail("a failed rendering wrote %q", s)
			}
			queries(fmt.Sprintf("after rendering file %d%s", k, failNames[fail]))
		case c == ops:
			x.Say("WriteGoFiles of all, backwards")
			var rev []*gopoet.GoFile
			for k := len(w.files) - 1; k >= 0; k-- {
				rev = append(rev, w.files[k])
			}
			sink := &sinkSet{}
			x.Op()
			if err := gopoet.WriteGoFiles(sink.open, rev...); err != nil {
				x.Fail("writing: %v", err)
			}
			for i, s := range sink.out {
				k := len(w.files) - 1 - i
				if want := fresh(k); s.String() != want {
					x.Fail("file %d differs from what it is when rendered alone\n%s\nalone\n%s", k, diffLines(s.String(), want), diffLines(want, s.String()))
				}
			}
			queries("after writing all files")
		case c == ops+1:
			return
		default:
			k := c - ops - 2
			x.Say("%s", w.again[k].name)
			w.again[k].do()
			changed += fmt.Sprint(k)
			before = w.snap()
		}
	}
}

type cdPlain struct {
	P gopoet.Package
	S string
	L []string
	Q *int
}

// cdKinds are template data of different shapes, each with a way to change it
// in place and as a new value of the same type and, mostly, size.
var cdKinds = []struct {
	name, text string
	make       func(p gopoet.Package) (interface{}, func(n int))
}{
	{"pointer to struct", "_ = {{.P}}.V // {{.S}} {{.L}} {{.Q}}", func(p gopoet.Package) (interface{}, func(n int)) {
		d := &cdPlain{P: p, S: "0", L: []string{"0"}}
		return d, func(n int) { d.S = fmt.Sprint(n); d.L[0] = d.S }
	}},
	{"struct with slice", "_ = {{.P}}.V // {{.S}} {{.L}}", func(p gopoet.Package) (interface{}, func(n int)) {
		d := cdPlain{P: p, S: "0", L: []string{"0"}}
		return d, func(n int) { d.L[0] = fmt.Sprint(n) }
	}},
	{"map", "_ = {{.P}}.V // {{.S}} {{.T}}", func(p gopoet.Package) (interface{}, func(n int)) {
		d := map[string]interface{}{"P": p, "S": "0"}
		return d, func(n int) { d["S"] = n; d["T"] = fmt.Sprint(n) }
	}},
	{"slice", "_ = {{index . 0}}.V // {{index . 1}}", func(p gopoet.Package) (interface{}, func(n int)) {
		d := []interface{}{p, "0"}
		return d, func(n int) { d[1] = n }
	}},
	{"pointer to symbol", "_ = {{.}}", func(p gopoet.Package) (interface{}, func(n int)) {
		d := Sy{findP(p.ImportPath), "V"}.Sym()
		return &d, func(n int) { d.Name = fmt.Sprint("W", n) }
	}},
	{"pointer to slice", "{{range .}}_ = {{.}}\n{{end}}", func(p gopoet.Package) (interface{}, func(n int)) {
		d := &[]gopoet.Symbol{p.Symbol("V")}
		return d, func(n int) { *d = append(*d, p.Symbol(fmt.Sprint("V", n))) }
	}},
	{"only text", "_ = 1 // {{.L}}", func(p gopoet.Package) (interface{}, func(n int)) {
		d := &cdPlain{L: []string{"0"}}
		return d, func(n int) { d.L = append(d.L, fmt.Sprint(n)) }
	}},
	{"pointer to struct of references", "_ = {{.Next.P}}.V // {{.Next.S}}{{.N}}", func(p gopoet.Package) (interface{}, func(n int)) {
		d := &rNested{Next: &rNested{P: p}}
		return d, func(n int) {
			if n%2 == 0 {
				d.Next = &rNested{P: p, S: "new"}
			}
			d.N = n
			d.Next.S = fmt.Sprint(n)
		}
	}},
}

// changedData renders files whose template data or arguments the user changes
// between renderings, where each template appears once or twice.
func changedData(x *X) {
	k, p, p2 := x.Choose(len(cdKinds)), Pick(x, []*P{pAFoo, pBFoo, pQFoo}), Pick(x, []*P{pCFoo, pBFoo, pSelf})
	twice, files, wrapped := x.Bool(), 1+x.Choose(2), x.Bool()
	kind := cdKinds[k]
	x.Say("template data: %s with %s, twice=%v, in %d files, wrapped=%v", kind.name, p.Path, twice, files, wrapped)
	mk := func() *rWorld {
		w := &rWorld{m: &mode{}}
		data, revise := kind.make(p.Pkg())
		text := kind.text
		if wrapped {
			data, text = struct{ D interface{} }{data}, "{{with .D}}"+text+"{{end}}"
		}
		code := gopoet.RenderCode(template.Must(template.New("t").Parse(text+"\n")), data)
		arg := Sy{p, "A"}.Sym()
		code.Printlnf("_ = %s", &arg)
		for i := 0; i < files; i++ {
			f := gopoet.NewGoFile(fmt.Sprintf("f%d.go", i), []*P{pSelf, pDFoo1}[i].Path, []*P{pSelf, pDFoo1}[i].Real)
			f.AddVar(gopoet.NewVar("first").Initialize("%s", Sy{p2, "V"}.Sym()))
			f.AddElement(gopoet.NewFunc("f").AddCode(code))
			if twice {
				f.AddElement(gopoet.NewFunc("g").AddCode(code))
			}
			w.files = append(w.files, f)
		}
		n := 0
		w.again = []change{{"change the data", func() { n++; revise(n); arg.Name = fmt.Sprint("A", n) }}}
		w.snap = func() string {
			s := dataD(reflect.ValueOf(&data)) + symD(arg)
			for _, f := range w.files {
				s += fileD(f)
			}
			return s
		}
		return w
	}
	renderHistory(x, mk, depthQT(4, 5), []int{failNot})
}

type sinkSet struct{ out []*sink }
type sink struct{ strings.Builder }

func (*sink) Close() error { return nil }
func (s *sinkSet) open(string) (io.WriteCloser, error) {
	k := &sink{}
	s.out = append(s.out, k)
	return k, nil
}

// diffLines lists the lines of a that b does not have.
func diffLines(a, b string) string {
	has := map[string]bool{}
	for _, l := range strings.Split(b, "\n") {
		has[l] = true
	}
	var out []string
	for _, l := range strings.Split(a, "\n") {
		if !has[l] {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func init() {
	slotPkgs := []*P{pAFoo, pSelf, pBFoo, pQFoo}
	register(&Prop{ID: "C11", Level: "model_checking",
		Rule:   "every history, up to a depth, of rendering, failing to render (writer, template, format and qualification failures), writing, extending and revising files that share elements, code blocks, types and template data, each result compared with a rendering of the file alone in a fresh copy of the world, and all queries about all elements compared with those before",
		Assume: []string{"elements are changed between renderings only by additions, and by assignments to their exported fields"},
		Harnesses: []*Harness{
			{Name: "shared world", Body: func(x *X) {
				renderHistory(x, sharedWorld, depthQT(3, 4), []int{failNot, failWriter, failTemplate, failFormat, failSymbol})
			}},
			{Name: "single file", Body: func(x *X) {
				renderHistory(x, singleWorld, depthQT(3, 5), []int{failNot, failWriter, failTemplate, failFormat, failSymbol})
			}},
			{Name: "changed data", Body: changedData},
			{Name: "wide elements", Body: wideShared},
			{Name: "nested", Body: nested},
			{Name: "many renderings", Body: renderLarge},
			{Name: "slots", Body: func(x *X) {
				k, p := x.Choose(len(slots)), Pick(x, slotPkgs)
				if !shareable(k, p) {
					x.Skip()
				}
				x.Say("%s references %s", slots[k].name, p.Path)
				renderHistory(x, func() *rWorld { return slotWorld(x, k, -1, p, nil) }, depthQT(3, 4), []int{failNot, failWriter})
			}},
			{Name: "pairs of slots", Body: func(x *X) {
				k, off := x.Choose(len(slots)), 1+x.Choose(len(slots)-1)
				if !thorough && off%7 != 1 {
					x.Skip()
				}
				k2 := (k + off) % len(slots)
				p, p2 := Pick(x, slotPkgs), Pick(x, []*P{pBFoo, pQFoo})
				if !shareable(k, p) || !shareable(k2, p2) {
					x.Skip()
				}
				x.Say("%s references %s, %s references %s", slots[k].name, p.Path, slots[k2].name, p2.Path)
				renderHistory(x, func() *rWorld { return slotWorld(x, k, k2, p, p2) }, 2, []int{failNot})
			}},
		}})
}
