package main

// C16: elements refer to themselves. C17: accessors and derived types. C19:
// invalid input.

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/jhump/gopoet"
)

// ---- C16

// rElem is the model of an element: its names and its file.
type rElem struct {
	kind  string
	names []string
	file  int // -1: none
	recv  string
	isPtr bool
	owner *rElem // of an interface method
}

type elemEnv struct {
	files [2]*gopoet.GoFile
	pname [2]string
	path  [2]string
	lists [2][]interface{} // *rElem for an element added alone, *rDecl, or the func's *rElem

	c1, c2 *gopoet.ConstSpec
	v1, v2 *gopoet.VarSpec
	t, u   *gopoet.TypeSpec
	i, j   *gopoet.TypeSpec
	im, in *gopoet.InterfaceMethod
	f, m   *gopoet.FuncSpec

	mc1, mc2, mv1, mv2, mt, mu, mi, mj, mim, min, mf, mm *rElem

	cd             *gopoet.ConstDecl
	vd             *gopoet.VarDecl
	td             *gopoet.TypeDecl
	mcd, mvd, mtd  *rDecl
	elems          []*rElem
	underT, underI string
}

type rDecl struct {
	el    gopoet.FileElement
	specs []*rElem
}

type elemPkgs struct{ path, name [2]string }

// elemFiles are the paths and names of the packages of the two files.
var elemFiles = []elemPkgs{
	{[2]string{"ex.com/self", "ex.com/v2/bar-go"}, [2]string{"self", "bar"}},
	{[2]string{"ex.com/self", "ex.com/other/self"}, [2]string{"self", "self"}},
	{[2]string{"ex.com/self", "ex.com/self"}, [2]string{"self", "self_test"}},
	{[2]string{"ex.com/self", "ex.com/self/v2"}, [2]string{"self", "self"}},
	{[2]string{"ex.com/self", "ex.com/Self"}, [2]string{"self", "Self"}},
	{[2]string{"ex.com/self", ""}, [2]string{"self", "main"}},
	{[2]string{"ex.com/self", "ex.com/self"}, [2]string{"self", "self"}},
}

func newElemEnv(ps elemPkgs) *elemEnv {
	e := &elemEnv{pname: ps.name, path: ps.path}
	for i := range e.files {
		e.files[i] = gopoet.NewGoFile("f.go", e.path[i], e.pname[i])
	}
	mk := func(kind string, names ...string) *rElem {
		m := &rElem{kind: kind, names: names, file: -1}
		e.elems = append(e.elems, m)
		return m
	}
	e.c1, e.mc1 = gopoet.NewConst("c").Initialize("1"), mk("const", "c")
	e.c2, e.mc2 = gopoet.NewConst("c1", "c2").Initialize("1, 2"), mk("const", "c1", "c2")
	e.v1, e.mv1 = gopoet.NewVar("v").SetType(gopoet.IntType), mk("var", "v")
	e.v2, e.mv2 = gopoet.NewVar("v1", "v2", "v3").SetType(gopoet.StringType), mk("var", "v1", "v2", "v3")
	e.t, e.mt = gopoet.NewStructTypeSpec("T", gopoet.NewField("F", gopoet.IntType)), mk("type", "T")
	e.u, e.mu = gopoet.NewTypeSpec("", gopoet.SliceType(gopoet.IntType)), mk("type", "")
	e.im, e.mim = gopoet.NewInterfaceMethod("M").AddArg("a", gopoet.IntType), mk("imethod", "M")
	e.in, e.min = gopoet.NewInterfaceMethod("N"), mk("imethod", "N")
	e.i, e.mi = gopoet.NewInterfaceTypeSpec("I", e.im), mk("type", "I")
	e.mim.owner = e.mi
	e.j, e.mj = gopoet.NewInterfaceTypeSpec("J", gopoet.NewInterfaceEmbed(gopoet.Symbol{Name: "error"})), mk("type", "J")
	e.f, e.mf = gopoet.NewFunc("f").AddArg("x", gopoet.IntType), mk("func", "f")
	e.m, e.mm = gopoet.NewMethod(gopoet.NewPointerReceiver("r", "T"), "m").AddArg("x", gopoet.IntType), mk("func", "m")
	e.mm.recv, e.mm.isPtr = "T", true
	e.cd, e.vd, e.td = gopoet.NewConstDecl(e.c2), gopoet.NewVarDecl(e.v2), gopoet.NewTypeDecl()
	e.mcd = &rDecl{e.cd, []*rElem{e.mc2}}
	e.mvd = &rDecl{e.vd, []*rElem{e.mv2}}
	e.mtd = &rDecl{e.td, nil}
	return e
}

type elemOp struct {
	name string
	do   func(e *elemEnv)
}

var elemOps []elemOp

func init() {
	add := func(name string, do func(e *elemEnv)) { elemOps = append(elemOps, elemOp{name, do}) }
	for k := 0; k < 2; k++ {
		k := k
		n := string(rune('A' + k))
		single := func(what string, do func(e *elemEnv) *rElem) {
			add(n+"."+what, func(e *elemEnv) {
				m := do(e)
				m.file = k
				e.lists[k] = append(e.lists[k], m)
			})
		}
		single("AddConst(c)", func(e *elemEnv) *rElem { e.files[k].AddConst(e.c1); return e.mc1 })
		single("AddConst(c1, c2)", func(e *elemEnv) *rElem { e.files[k].AddConst(e.c2); return e.mc2 })
		single("AddVar(v)", func(e *elemEnv) *rElem { e.files[k].AddVar(e.v1); return e.mv1 })
		single("AddType(T)", func(e *elemEnv) *rElem { e.files[k].AddType(e.t); return e.mt })
		single("AddType(I)", func(e *elemEnv) *rElem { e.files[k].AddType(e.i); return e.mi })
		single("AddType(J)", func(e *elemEnv) *rElem { e.files[k].AddType(e.j); return e.mj })
		single("AddType(unnamed)", func(e *elemEnv) *rElem { e.files[k].AddType(e.u); return e.mu })
		single("AddElement(f)", func(e *elemEnv) *rElem { e.files[k].AddElement(e.f); return e.mf })
		single("AddElement(m)", func(e *elemEnv) *rElem { e.files[k].AddElement(e.m); return e.mm })
		decl := func(what string, do func(e *elemEnv) *rDecl) {
			add(n+".AddElement("+what+")", func(e *elemEnv) {
				d := do(e)
				e.files[k].AddElement(d.el)
				for _, s := range d.specs {
					s.file = k
				}
				e.lists[k] = append(e.lists[k], d)
			})
		}
		decl("consts", func(e *elemEnv) *rDecl { return e.mcd })
		decl("vars", func(e *elemEnv) *rDecl { return e.mvd })
		decl("types", func(e *elemEnv) *rDecl { return e.mtd })
		for _, pn := range []string{"renamed", ""} {
			pn := pn
			add(fmt.Sprintf("%s.PackageName = %q", n, pn), func(e *elemEnv) { e.files[k].PackageName = pn; e.pname[k] = pn })
		}
		add(n+" gets another name, a canonical path and comments", func(e *elemEnv) {
			f := e.files[k]
			f.Name, f.CanonicalImportPath, f.FileComment, f.PackageComment = "other.go", e.path[1-k]+"/canonical", "File.", "Package other."
		})
		add(n+" imports packages", func(e *elemEnv) {
			f := e.files[k]
			f.RegisterImport("ex.com/z/self", "self")
			f.RegisterImport(e.path[1-k], e.pname[1-k])
			f.RegisterImport(e.path[k], "wrong")
		})
		add("render "+n, func(e *elemEnv) {
			catch(func() { gopoet.WriteGoFile(&bytes.Buffer{}, e.files[k]) })
		})
	}
	add("consts.AddConst(c)", func(e *elemEnv) { e.cd.AddConst(e.c1); e.mcd.specs = append(e.mcd.specs, e.mc1) })
	add("vars.AddVar(v)", func(e *elemEnv) { e.vd.AddVar(e.v1); e.mvd.specs = append(e.mvd.specs, e.mv1) })
	add("types.AddType(T)", func(e *elemEnv) { e.td.AddType(e.t); e.mtd.specs = append(e.mtd.specs, e.mt) })
	add("types.AddType(I)", func(e *elemEnv) { e.td.AddType(e.i); e.mtd.specs = append(e.mtd.specs, e.mi) })
	add("c1, c2 loses a name", func(e *elemEnv) { e.c2.Names = []string{"c1"}; e.mc2.names = []string{"c1"} })
	add("c loses its name", func(e *elemEnv) { e.c1.Names = nil; e.mc1.names = nil })
	add("v gets a name", func(e *elemEnv) { e.v1.Names = append(e.v1.Names, "w"); e.mv1.names = append(e.mv1.names, "w") })
	add("rename v", func(e *elemEnv) { e.v1.Names[0] = "vv"; e.mv1.names[0] = "vv" })
	add("rename T", func(e *elemEnv) { e.t.Name = "TT"; e.mt.names[0] = "TT" })
	add("unname T", func(e *elemEnv) { e.t.Name = ""; e.mt.names[0] = "" })
	add("rename I", func(e *elemEnv) { e.i.Name = "II"; e.mi.names[0] = "II" })
	add("unname I", func(e *elemEnv) { e.i.Name = ""; e.mi.names[0] = "" })
	add("rename f", func(e *elemEnv) { e.f.Name = "ff"; e.mf.names[0] = "ff" })
	add("f gets a receiver", func(e *elemEnv) { e.f.Receiver = gopoet.NewReceiver("", "R"); e.mf.recv, e.mf.isPtr = "R", false })
	add("rename m", func(e *elemEnv) { e.m.Name = "mm"; e.mm.names[0] = "mm" })
	add("m gets another receiver", func(e *elemEnv) {
		if e.m.Receiver == nil {
			e.m.Receiver = gopoet.NewPointerReceiver("p", "T")
		}
		e.m.Receiver.Type = "R2"
		e.m.Receiver.IsPointer = false
		e.mm.recv, e.mm.isPtr = "R2", false
	})
	add("m loses its receiver", func(e *elemEnv) { e.m.Receiver = nil; e.mm.recv = "" })
	add("rename M", func(e *elemEnv) { e.im.Name = "MM"; e.mim.names[0] = "MM" })
	add("comments and tags", func(e *elemEnv) {
		e.c1.SetComment("C.")
		e.c2.SetComment("C.")
		e.v1.SetComment("V.")
		e.t.SetComment("T.")
		e.i.SetComment("I.")
		e.f.SetComment("F.")
		e.m.SetComment("M.")
		e.im.SetComment("IM.")
		e.cd.SetComment("D.")
		e.vd.SetComment("D.")
		e.td.SetComment("D.")
	})
	add("types and values", func(e *elemEnv) {
		n := gopoet.NamedType(gopoet.NewSymbol("ex.com/a/foo", "N"))
		e.c1.SetType(n).Initialize("2")
		e.v1.SetType(n).Initialize("3")
		e.f.Println("return")
		e.m.Printlnf("_ = %s", n)
	})
	newJ := func(e *elemEnv, els ...gopoet.InterfaceElement) {
		e.j = gopoet.NewInterfaceTypeSpec("J", els...)
		// J of earlier additions is another element now
		for k := range e.lists {
			for i, l := range e.lists[k] {
				if l == e.mj {
					e.lists[k][i] = nil
				}
			}
		}
		e.mj = &rElem{kind: "type", names: []string{"J"}, file: -1}
	}
	add("J = interface of M", func(e *elemEnv) { newJ(e, e.im); e.mim.owner = e.mj })
	add("J = interface of N", func(e *elemEnv) {
		newJ(e, gopoet.NewInterfaceEmbed(gopoet.NewSymbol("io", "Reader")), e.in)
		e.min.owner = e.mj
	})
}

// wantSym is the symbol of a name of an element, nil when it is refused.
func (e *elemEnv) wantSym(m *rElem, i int) *gopoet.Symbol {
	if m.file < 0 {
		return nil
	}
	return &gopoet.Symbol{Name: m.names[i], Package: gopoet.Package{ImportPath: e.path[m.file], Name: e.pname[m.file]}}
}

func symText(s *gopoet.Symbol) string {
	if s.Package.Name == "" {
		return s.Name
	}
	return s.Package.Name + "." + s.Name
}

// asks calls f, which is to give want, or to panic when want is nil.
func asks(x *X, what string, want interface{}, f func() interface{}) {
	x.Op()
	var got interface{}
	if p, panicked := catch(func() { got = f() }); panicked {
		if want != nil {
			x.Fail("%s panics: %v\nwanted %#v", what, p, want)
		}
		return
	}
	if want == nil {
		x.Fail("%s gives %#v, wanted a panic", what, got)
	}
	if got != want {
		x.Fail("%s gives\n       %#v\nwanted %#v", what, got, want)
	}
	x.Saw(fmt.Sprint(got))
}

func orNil(s *gopoet.Symbol) interface{} {
	if s == nil {
		return nil
	}
	return *s
}

type multiNamed interface {
	ToSymbol() gopoet.Symbol
	SymbolAt(int) gopoet.Symbol
	String() string
}

func (e *elemEnv) checkMulti(x *X, s multiNamed, m *rElem) {
	var texts []string
	for i, n := range m.names {
		i := i
		w := e.wantSym(m, i)
		asks(x, fmt.Sprintf("SymbolAt(%d) of %s %v", i, m.kind, m.names), orNil(w), func() interface{} { return s.SymbolAt(i) })
		if w == nil {
			texts = append(texts, n)
		} else {
			texts = append(texts, symText(w))
		}
	}
	asks(x, "SymbolAt past the last name", nil, func() interface{} { return s.SymbolAt(len(m.names)) })
	asks(x, "SymbolAt(-1)", nil, func() interface{} { return s.SymbolAt(-1) })
	var one interface{}
	if len(m.names) == 1 {
		one = orNil(e.wantSym(m, 0))
	}
	asks(x, fmt.Sprintf("ToSymbol of %s %v", m.kind, m.names), one, func() interface{} { return s.ToSymbol() })
	asks(x, fmt.Sprintf("String of %s %v", m.kind, m.names), strings.Join(texts, ", "), func() interface{} { return s.String() })
}

func (e *elemEnv) checkType(x *X, s *gopoet.TypeSpec, m *rElem, under string) {
	var w *gopoet.Symbol
	if m.names[0] != "" {
		w = e.wantSym(m, 0)
	}
	d := dumper{pkg: byBoth}
	asks(x, "ToSymbol of type "+m.names[0], orNil(w), func() interface{} { return s.ToSymbol() })
	asks(x, "Underlying of type "+m.names[0], under, func() interface{} { return d.TN(s.Underlying()) })
	var tn interface{}
	str := m.names[0]
	switch {
	case m.names[0] == "":
		tn = under
		str = s.Underlying().String()
	case w != nil:
		tn = d.sym(w.Package.ImportPath, w.Package.Name, w.Name)
		str = symText(w)
	}
	asks(x, "ToTypeName of type "+m.names[0], tn, func() interface{} { return d.TN(s.ToTypeName()) })
	asks(x, "String of type "+m.names[0], str, func() interface{} { return s.String() })
	asks(x, "IsAlias of type "+m.names[0], false, func() interface{} { return s.IsAlias() })
}

// ownType dumps the type that an element denotes, "" when that is refused.
func (e *elemEnv) ownType(m *rElem, under string) string {
	if m.names[0] == "" {
		return under
	}
	if w := e.wantSym(m, 0); w != nil {
		return byBoth(w.Package.ImportPath, w.Package.Name) + w.Name
	}
	return ""
}

func (e *elemEnv) checkFunc(x *X, s *gopoet.FuncSpec, m *rElem) {
	args := "x:int"
	var sym, tn interface{}
	str := m.names[0]
	w := e.wantSym(m, 0)
	if m.recv == "" {
		sym = orNil(w)
		if w != nil {
			str = symText(w)
		}
		tn = "func(" + args + ")()"
	} else if w != nil {
		rt := gopoet.Symbol{Name: m.recv, Package: w.Package}
		sym = gopoet.MethodReference{Type: rt, Method: m.names[0]}
		star, name := "", ""
		if m.isPtr {
			star = "*"
		}
		if s.Receiver.Name != "" {
			name = s.Receiver.Name
		}
		tn = "func(" + name + ":" + star + byBoth(rt.Package.ImportPath, rt.Package.Name) + rt.Name + "," + args + ")()"
	}
	asks(x, "ToSymbol of func "+m.names[0], sym, func() interface{} { return s.ToSymbol() })
	asks(x, "String of func "+m.names[0], str, func() interface{} { return s.String() })
	asks(x, "ToTypeName of func "+m.names[0], tn, func() interface{} { return dumper{pkg: byBoth}.TN(s.ToTypeName()) })
	if sym != nil && m.recv != "" {
		r := sym.(gopoet.MethodReference)
		asks(x, "String of the reference to method "+m.names[0], symText(&r.Type)+"."+r.Method, func() interface{} { return s.ToSymbol().String() })
	}
}

const underI = "interface{M(a:int)()}"

func (e *elemEnv) checkIMethod(x *X, s *gopoet.InterfaceMethod, m *rElem, args, ownerUnder string) {
	var ref, tn interface{}
	if m.owner != nil {
		if m.owner.names[0] != "" {
			if w := e.wantSym(m.owner, 0); w != nil {
				ref = gopoet.MethodReference{Type: *w, Method: m.names[0]}
			}
		}
		if o := e.ownType(m.owner, ownerUnder); o != "" {
			tn = "func(:" + o + args + ")()"
		}
	}
	asks(x, "ToMethodRef of interface method "+m.names[0], ref, func() interface{} { return s.ToMethodRef() })
	asks(x, "ToTypeName of interface method "+m.names[0], tn, func() interface{} { return dumper{pkg: byBoth}.TN(s.ToTypeName()) })
	asks(x, "String of interface method "+m.names[0], m.names[0], func() interface{} { return s.String() })
}

func (e *elemEnv) check(x *X) {
	e.checkMulti(x, e.c1, e.mc1)
	e.checkMulti(x, e.c2, e.mc2)
	e.checkMulti(x, e.v1, e.mv1)
	e.checkMulti(x, e.v2, e.mv2)
	e.checkType(x, e.t, e.mt, `struct{F:int:""}`)
	e.checkType(x, e.u, e.mu, "[]int")
	e.checkType(x, e.i, e.mi, underI)
	e.checkFunc(x, e.f, e.mf)
	e.checkFunc(x, e.m, e.mm)
	mUnder := underI
	if e.mim.owner == e.mj {
		mUnder = dumper{pkg: byBoth}.TN(e.j.Underlying())
	}
	e.checkIMethod(x, e.im, e.mim, ",a:int", mUnder)
	e.checkIMethod(x, e.in, e.min, "", "")
	for k, f := range e.files {
		asks(x, "Package of the file", gopoet.Package{ImportPath: e.path[k], Name: e.pname[k]}, func() interface{} { return f.Package() })
		asks(x, "NumElements", len(e.lists[k]), func() interface{} { return f.NumElements() })
		for i, l := range e.lists[k] {
			x.Op()
			el := f.ElementAt(i)
			ok := false
			switch l := l.(type) {
			case nil:
				_, ok = el.(*gopoet.TypeDecl)
			case *rDecl:
				ok = el == l.el
			case *rElem:
				switch l {
				case e.mf:
					ok = el == gopoet.FileElement(e.f)
				case e.mm:
					ok = el == gopoet.FileElement(e.m)
				case e.mc1, e.mc2:
					d, is := el.(*gopoet.ConstDecl)
					ok = is && len(d.Consts) == 1 && d.Consts[0] == map[*rElem]*gopoet.ConstSpec{e.mc1: e.c1, e.mc2: e.c2}[l]
				case e.mv1, e.mv2:
					d, is := el.(*gopoet.VarDecl)
					ok = is && len(d.Vars) == 1 && d.Vars[0] == map[*rElem]*gopoet.VarSpec{e.mv1: e.v1, e.mv2: e.v2}[l]
				default:
					d, is := el.(*gopoet.TypeDecl)
					ok = is && len(d.Types) == 1 && d.Types[0] == map[*rElem]*gopoet.TypeSpec{e.mt: e.t, e.mu: e.u, e.mi: e.i, e.mj: e.j}[l]
				}
			}
			if !ok {
				x.Fail("element %d of file %d is %#v, not the one that was added", i, k, el)
			}
		}
		asks(x, "ElementAt past the last", nil, func() interface{} { return f.ElementAt(len(e.lists[k])) })
	}
}

func elemHistory(x *X, ps elemPkgs, depth int) {
	e := newElemEnv(ps)
	e.check(x)
	for i := 0; i < depth; i++ {
		c := x.Choose(len(elemOps) + 1)
		if c == len(elemOps) {
			break
		}
		x.Say("%s", elemOps[c].name)
		elemOps[c].do(e)
		if depth <= 3 {
			e.check(x)
		}
	}
	// the shorter histories are executions of their own
	if depth > 3 {
		e.check(x)
	}
}

// ---- C17

// scribble overwrites everything that accessors of a type return.
func scribble(t gopoet.TypeName) {
	if t == nil {
		return
	}
	switch t.Kind() {
	case gopoet.KindPtr, gopoet.KindSlice, gopoet.KindArray, gopoet.KindChan:
		scribble(t.Elem())
	case gopoet.KindMap:
		scribble(t.Key())
		scribble(t.Elem())
	case gopoet.KindFunc:
		for _, a := range t.Signature().Args {
			scribble(a.Type)
		}
		for _, a := range t.Signature().Results {
			scribble(a.Type)
		}
	case gopoet.KindStruct:
		fs := t.Fields()
		for i := range fs {
			scribble(fs[i].Type)
			fs[i] = gopoet.FieldType{Name: "Scribble", Type: gopoet.BoolType, Tag: "scribble"}
		}
		_ = append(fs[:0:len(fs)], gopoet.FieldType{Name: "Scribble", Type: gopoet.BoolType})
	case gopoet.KindInterface:
		ms := t.Methods()
		for i := range ms {
			for _, a := range append(append([]gopoet.ArgType(nil), ms[i].Signature.Args...), ms[i].Signature.Results...) {
				scribble(a.Type)
			}
			ms[i].Signature.AddArg("scribble", gopoet.BoolType)
			ms[i].Signature.AddResult("scribble", gopoet.BoolType)
			ms[i].Signature.SetVariadic(false)
			ms[i] = gopoet.MethodType{Name: "Scribble"}
		}
		es := t.Embeds()
		for i := range es {
			es[i] = gopoet.Symbol{Name: "Scribble"}
		}
	}
}

var dBoth = dumper{pkg: byBoth}

func unchanged(x *X, what string, t gopoet.TypeName, want, str string) {
	x.Op()
	if got := dBoth.TN(t); got != want {
		x.Fail("%s is\n       %s\nwanted %s", what, got, want)
	}
	if got := t.String(); str != "" && got != str {
		x.Fail("%s prints\n       %s\nwanted %s", what, got, str)
	}
	x.Saw(want)
}

// specNames: consts and vars with any list of names, in or out of a file.
func specNames(x *X, max int) {
	e := &elemEnv{path: elemFiles[0].path, pname: elemFiles[0].name}
	for i := range e.files {
		e.files[i] = gopoet.NewGoFile("f.go", e.path[i], e.pname[i])
	}
	m := &rElem{file: -1}
	for i, n := 0, x.Choose(max+1); i < n; i++ {
		m.names = append(m.names, Pick(x, []string{"a", "_", "B", "\u00e9"}))
	}
	given := append([]string(nil), m.names...)
	x.Say("%q", given)
	var s multiNamed
	add := func(f *gopoet.GoFile) {}
	decl := x.Bool()
	if x.Bool() {
		m.kind = "const"
		c := gopoet.NewConst(given...).Initialize("1")
		s, add = c, func(f *gopoet.GoFile) { f.AddConst(c) }
		if decl {
			add = func(f *gopoet.GoFile) {
				f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("o").Initialize("1"), c, gopoet.NewConst("p", "q")))
			}
		}
	} else {
		m.kind = "var"
		v := gopoet.NewVar(given...).SetType(gopoet.IntType)
		s, add = v, func(f *gopoet.GoFile) { f.AddVar(v) }
		if decl {
			add = func(f *gopoet.GoFile) {
				f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("o").SetType(gopoet.IntType), v, gopoet.NewVar("p", "q").SetType(gopoet.IntType)))
			}
		}
	}
	e.checkMulti(x, s, m)
	for i, n := 0, x.Choose(3); i < n; i++ {
		m.file = x.Choose(2)
		add(e.files[m.file])
		x.Say("added to file %d", m.file)
		e.checkMulti(x, s, m)
		if x.Bool() {
			catch(func() { gopoet.WriteGoFile(&bytes.Buffer{}, e.files[m.file]) })
			e.checkMulti(x, s, m)
		}
	}
}

// derive takes all type specs that can be made of a type and checks them.
func accessors(x *X, t *Ty) {
	x.Op()
	tn := t.TN()
	want := dBoth.Ty(t)
	x.Say("%s", want)
	str := tn.String()
	unchanged(x, "the type", tn, want, str)
	scribble(tn)
	unchanged(x, "after changing what its accessors returned, the type", tn, want, str)

	named := gopoet.NewTypeSpec("X", tn)
	unnamed := gopoet.NewTypeSpec("", tn)
	alias := gopoet.NewTypeAlias("Y", tn)
	sub := gopoet.NewTypeSpec("Z", unnamed)
	f := gopoet.NewGoFile("f.go", pAFoo.Path, pAFoo.Real)
	for _, ts := range []*gopoet.TypeSpec{named, alias, sub} {
		if _, refused := catch(func() { ts.ToTypeName() }); !refused {
			x.Fail("the type spec %s has a type name without a file", ts.Name)
		}
		f.AddType(ts)
	}
	after := gopoet.NewTypeSpec("W", named)
	look := func(when string) {
		for _, ts := range []*gopoet.TypeSpec{named, alias, sub} {
			unchanged(x, when+"the underlying type of "+ts.Name, ts.Underlying(), want, str)
			unchanged(x, when+"the type of "+ts.Name, ts.ToTypeName(), "{"+pAFoo.Path+"="+pAFoo.Real+"}"+ts.Name, "foo."+ts.Name)
			if ts.IsAlias() != (ts == alias) {
				x.Fail("%sIsAlias of %s is %v", when, ts.Name, ts.IsAlias())
			}
		}
		unchanged(x, when+"the type of the unnamed spec", unnamed.ToTypeName(), want, str)
		unchanged(x, when+"the underlying type of the unnamed spec", unnamed.Underlying(), want, str)
		unchanged(x, when+"the underlying type of a spec of a spec", after.Underlying(), "{"+pAFoo.Path+"="+pAFoo.Real+"}X", "foo.X")
		unchanged(x, when+"the type", tn, want, str)
	}
	look("")
	scribble(named.Underlying())
	scribble(unnamed.ToTypeName())
	look("after changing what accessors returned, ")
	g := gopoet.NewGoFile("g.go", pSelf.Path, "self")
	g.AddElement(gopoet.NewTypeDecl(named, alias, sub))
	g.AddVar(gopoet.NewVar("v").SetType(unnamed))
	g.PackageName = pAFoo.Real
	catch(func() { gopoet.WriteGoFile(&bytes.Buffer{}, g) })
	f.AddElement(gopoet.NewTypeDecl(named, alias, sub))
	catch(func() { gopoet.WriteGoFile(&bytes.Buffer{}, f) })
	look("after rendering, ")
}

// fieldKinds: ways in which the type of a field is given.
func derivedStruct(x *X, n int) {
	home := gopoet.NewGoFile("h.go", pBFoo.Path, pBFoo.Real)
	var model []Fd
	var fields []*gopoet.FieldSpec
	for i := 0; i < n; i++ {
		t := Pick(x, []*Ty{tyInt, tyNamed(pAFoo, "T"), tyStruct(Fd{"A", tyNamed(pAFoo, "T"), "t"}), tyIface([]Sy{{pAFoo, "I"}}, Md{"M", &Sg{}})})
		name := fmt.Sprintf("F%d", i)
		tag := Pick(x, []string{"", `a:"b"`})
		var fs *gopoet.FieldSpec
		switch x.Choose(3) {
		case 0:
			fs = gopoet.NewField(name, t.TN())
		case 1:
			fs = gopoet.NewField(name, gopoet.NewTypeSpec("", t.TN()))
		case 2:
			ts := gopoet.NewTypeSpec(fmt.Sprintf("N%d", i), t.TN())
			home.AddType(ts)
			fs = gopoet.NewField(name, ts)
			t = tyNamed(pBFoo, fmt.Sprintf("N%d", i))
		}
		fields = append(fields, fs.SetTag(tag))
		model = append(model, Fd{name, t, tag})
	}
	mutations := []func(f *gopoet.FieldSpec){
		func(f *gopoet.FieldSpec) { f.Name = "Other" },
		func(f *gopoet.FieldSpec) { f.SetTag("other") },
		func(f *gopoet.FieldSpec) { f.Type = gopoet.BoolType },
	}
	want := dBoth.Ty(tyStruct(model...))
	x.Say("%s", want)
	ts := gopoet.NewStructTypeSpec("X", fields...)
	derived := []gopoet.TypeName{ts.Underlying()}
	un := gopoet.NewStructTypeSpec("", fields...)
	derived = append(derived, un.ToTypeName(), un.Underlying(), gopoet.NewTypeSpec("Y", un).Underlying())
	home.AddType(ts)
	str := derived[0].String()
	for i, d := range derived {
		unchanged(x, fmt.Sprintf("derived type %d", i), d, want, str)
	}
	catch(func() { gopoet.WriteGoFile(&bytes.Buffer{}, home) })
	if n > 0 {
		k := x.Choose(n)
		m := x.Choose(len(mutations) + 2)
		switch {
		case m < len(mutations):
			mutations[m](fields[k])
		case m == len(mutations):
			fields[k] = gopoet.NewField("Other", gopoet.BoolType)
		default:
			ts.Name = "Other"
		}
	}
	for i, d := range derived {
		unchanged(x, fmt.Sprintf("after changing an element, derived type %d", i), d, want, str)
	}
	unchanged(x, "after changing an element, the underlying type", ts.Underlying(), want, str)
}

// sigSpec is a func, a method or an interface method under construction.
type sigSpec struct {
	sg   *gopoet.Signature
	addA func(n string, t gopoet.TypeName)
	addR func(n string, t gopoet.TypeName)
	setV func(bool)
	tn   func() gopoet.TypeName
	recv *Ar // nil: none
}

var sigOps = []struct {
	name string
	do   func(s *sigSpec, m *Sg)
}{
	{"add arg", func(s *sigSpec, m *Sg) {
		n := fmt.Sprint("a", len(m.Args))
		t := tyNamed(pAFoo, "T")
		s.addA(n, t.TN())
		m.Args = append(m.Args, ar(n, t))
	}},
	{"add slice arg", func(s *sigSpec, m *Sg) {
		t := tySlice(tyNamed(pBFoo, "T"))
		s.addA("", t.TN())
		m.Args = append(m.Args, ar("", t))
	}},
	{"add result", func(s *sigSpec, m *Sg) {
		s.addR("", tyError.TN())
		m.Results = append(m.Results, ar("", tyError))
	}},
	{"set variadic", func(s *sigSpec, m *Sg) { s.setV(true); m.Variadic = true }},
	{"unset variadic", func(s *sigSpec, m *Sg) { s.setV(false); m.Variadic = false }},
	{"replace arg", func(s *sigSpec, m *Sg) {
		if n := len(m.Args); n > 0 {
			t := tySlice(tyInt)
			s.sg.Args[n-1] = gopoet.ArgType{Name: "z", Type: t.TN()}
			m.Args[n-1] = ar("z", t)
		}
	}},
	{"rename arg", func(s *sigSpec, m *Sg) {
		if len(m.Args) > 0 {
			s.sg.Args[0].Name = "y"
			m.Args[0].Name = "y"
		}
	}},
	{"replace result", func(s *sigSpec, m *Sg) {
		if len(m.Results) > 0 {
			s.sg.Results[0] = gopoet.ArgType{Type: gopoet.BoolType}
			m.Results[0] = ar("", tyBasic(reflect.Bool))
		}
	}},
	{"remove arg", func(s *sigSpec, m *Sg) {
		if n := len(m.Args); n > 0 {
			s.sg.Args = s.sg.Args[:n-1]
			m.Args = m.Args[:n-1]
		}
	}},
	{"roomy lists", func(s *sigSpec, m *Sg) {
		a := make([]gopoet.ArgType, 0, 8)
		s.sg.Args = append(a, s.sg.Args...)
		r := make([]gopoet.ArgType, 0, 8)
		s.sg.Results = append(r, s.sg.Results...)
	}},
}

// sigHistory changes a func or method step by step, deriving its type in
// between; every derived type stays what it was.
func sigHistory(x *X, depth int) {
	home := gopoet.NewGoFile("h.go", pBFoo.Path, pBFoo.Real)
	s := &sigSpec{}
	fromFunc := func(f *gopoet.FuncSpec) {
		s.sg = &f.Signature
		s.addA = func(n string, t gopoet.TypeName) { f.AddArg(n, t) }
		s.addR = func(n string, t gopoet.TypeName) { f.AddResult(n, t) }
		s.setV = func(v bool) { f.SetVariadic(v) }
		s.tn = f.ToTypeName
		home.AddElement(f)
	}
	var im *gopoet.InterfaceMethod
	var ispec *gopoet.TypeSpec
	switch x.Choose(6) {
	case 0:
		x.Say("func")
		fromFunc(gopoet.NewFunc("f"))
	case 1:
		x.Say("method of r R")
		fromFunc(gopoet.NewMethod(gopoet.NewReceiver("r", "R"), "m"))
		s.recv = &Ar{"r", tyNamed(pBFoo, "R")}
	case 2:
		x.Say("method of *R")
		fromFunc(gopoet.NewMethod(gopoet.NewPointerReceiver("", "R"), "m"))
		s.recv = &Ar{"", tyPtr(tyNamed(pBFoo, "R"))}
	case 3:
		x.Say("method of the type p *R")
		fromFunc(gopoet.NewMethod(gopoet.NewReceiverForType("p", tyPtr(tyNamed(pBFoo, "R")).TN()), "m"))
		s.recv = &Ar{"p", tyPtr(tyNamed(pBFoo, "R"))}
	case 4:
		x.Say("interface method")
		im = gopoet.NewInterfaceMethod("M")
		ispec = gopoet.NewInterfaceTypeSpec("I", im)
		home.AddType(ispec)
		s.recv = &Ar{"", tyNamed(pBFoo, "I")}
	case 5:
		x.Say("interface method of an unnamed interface")
		im = gopoet.NewInterfaceMethod("M")
		ispec = gopoet.NewInterfaceTypeSpec("", im)
		s.recv = &Ar{"", tyIface(nil, Md{"M", &Sg{}})}
	}
	if im != nil {
		s.sg = &im.Signature
		s.addA = func(n string, t gopoet.TypeName) { im.AddArg(n, t) }
		s.addR = func(n string, t gopoet.TypeName) { im.AddResult(n, t) }
		s.setV = func(v bool) { im.SetVariadic(v) }
		s.tn = im.ToTypeName
	}
	m := &Sg{}
	type snap struct {
		t         gopoet.TypeName
		want, str string
	}
	var snaps []snap
	take := func() {
		full := Sg{Results: append([]Ar(nil), m.Results...), Variadic: m.Variadic}
		if s.recv != nil {
			full.Args = append(full.Args, *s.recv)
		}
		full.Args = append(full.Args, m.Args...)
		bad := m.Variadic && (len(full.Args) == 0 || full.Args[len(full.Args)-1].T.K != gopoet.KindSlice)
		var t gopoet.TypeName
		x.Op()
		if p, panicked := catch(func() { t = s.tn() }); panicked != bad {
			x.Fail("the type of the element: panic %v, wanted one: %v", p, bad)
		}
		if bad {
			return
		}
		want := dBoth.Ty(tyFunc(&full))
		snaps = append(snaps, snap{t, want, t.String()})
		if im != nil && !(m.Variadic && (len(m.Args) == 0 || m.Args[len(m.Args)-1].T.K != gopoet.KindSlice)) {
			// an interface made of the method as it is now
			copyOf := *im
			u := gopoet.NewInterfaceTypeSpec("", &copyOf).Underlying()
			mcopy := Sg{Args: append([]Ar(nil), m.Args...), Results: append([]Ar(nil), m.Results...), Variadic: m.Variadic}
			snaps = append(snaps, snap{u, dBoth.Ty(tyIface(nil, Md{"M", &mcopy})), u.String()})
			copyOf.Signature = gopoet.Signature{}
		}
	}
	look := func() {
		for i, sn := range snaps {
			unchanged(x, fmt.Sprintf("derived type %d", i), sn.t, sn.want, sn.str)
		}
	}
	take()
	look()
	for i := 0; i < depth; i++ {
		op := sigOps[x.Choose(len(sigOps))]
		x.Say("%s", op.name)
		op.do(s, m)
		look()
		take()
		look()
	}
	for _, sn := range snaps {
		scribble(sn.t)
	}
	if im == nil {
		catch(func() { gopoet.WriteGoFile(&bytes.Buffer{}, home) })
	}
	look()
}

// derivedIface: elements of an interface in every order.
func derivedIface(x *X, n int) {
	home := gopoet.NewGoFile("h.go", pBFoo.Path, pBFoo.Real)
	var els []gopoet.InterfaceElement
	model := &Ty{K: gopoet.KindInterface}
	for i := 0; i < n; i++ {
		switch x.Choose(3) {
		case 0:
			s := Sy{pAFoo, fmt.Sprint("I", i)}
			els = append(els, gopoet.NewInterfaceEmbed(s.Sym()))
			model.Embeds = append(model.Embeds, s)
		case 1:
			name := fmt.Sprint("M", i)
			els = append(els, gopoet.NewInterfaceMethod(name).AddArg("a", gopoet.IntType).AddArg("", tySlice(tyNamed(pAFoo, "T")).TN()).AddResult("", tyError.TN()).SetVariadic(true))
			model.Methods = append(model.Methods, Md{name, &Sg{Args: []Ar{ar("a", tyInt), ar("", tySlice(tyNamed(pAFoo, "T")))}, Results: []Ar{ar("", tyError)}, Variadic: true}})
		case 2:
			name := fmt.Sprint("M", i)
			els = append(els, gopoet.NewInterfaceMethod(name))
			model.Methods = append(model.Methods, Md{name, &Sg{}})
		}
	}
	want := dBoth.Ty(model)
	x.Say("%s", want)
	ts := gopoet.NewInterfaceTypeSpec("X", els...)
	un := gopoet.NewInterfaceTypeSpec("", els...)
	derived := []gopoet.TypeName{ts.Underlying(), un.ToTypeName(), gopoet.NewTypeSpec("Y", un).Underlying()}
	home.AddType(ts)
	str := derived[0].String()
	for i, d := range derived {
		unchanged(x, fmt.Sprintf("derived type %d", i), d, want, str)
	}
	catch(func() { gopoet.WriteGoFile(&bytes.Buffer{}, home) })
	if n > 0 {
		k := x.Choose(n)
		switch e := els[k].(type) {
		case *gopoet.InterfaceEmbed:
			e.Type = gopoet.Symbol{Name: "Other"}
		case *gopoet.InterfaceMethod:
			switch x.Choose(5) {
			case 0:
				e.Name = "Other"
			case 1:
				e.AddArg("o", gopoet.BoolType)
			case 2:
				if len(e.Args) == 0 {
					x.Skip()
				}
				e.Args[0].Name = "other"
			case 3:
				if len(e.Results) == 0 {
					x.Skip()
				}
				e.Results[0].Type = gopoet.BoolType
			case 4:
				e.SetVariadic(!e.IsVariadic)
			}
		}
		els[k] = gopoet.NewInterfaceMethod("Replaced")
	}
	for i, d := range derived {
		unchanged(x, fmt.Sprintf("after changing an element, derived type %d", i), d, want, str)
	}
}

// ---- C19

func refused(x *X, what string, bad bool, f func()) {
	x.Op()
	x.Say("%s", what)
	p, panicked := catch(f)
	if bad && !panicked {
		x.Fail("%s is accepted", what)
	}
	if !bad && panicked {
		x.Fail("%s is refused: %v", what, p)
	}
	x.Saw(fmt.Sprint(what, p))
}

// maybeNil generates a component, which may be missing.
func maybeNil(x *X) (gopoet.TypeName, string) {
	ts := []*Ty{nil, tyInt, tySlice(tyInt), tyNamed(pAFoo, "T"), tyArray(tyInt, 3), tyStruct(), tyMap(tyInt, tyInt)}
	t := Pick(x, ts)
	if t == nil {
		return nil, "nil"
	}
	return t.TN(), t.TN().String()
}

func badTypes(x *X) {
	switch x.Choose(7) {
	case 0:
		k := reflect.Kind(x.Choose(40))
		ok := k == reflect.UnsafePointer
		for _, b := range allBasics {
			ok = ok || b == k
		}
		refused(x, fmt.Sprintf("BasicType(%v)", k), !ok, func() {
			t := gopoet.BasicType(k)
			if k == reflect.UnsafePointer {
				if t.Kind() != gopoet.KindNamed || t.Symbol() != gopoet.NewSymbol("unsafe", "Pointer") {
					x.Fail("BasicType(unsafe.Pointer) is %s", t)
				}
			} else if t.BasicKind() != k {
				x.Fail("BasicType(%v) is %s", k, t)
			}
		})
	case 1:
		t, n := maybeNil(x)
		refused(x, "PointerType("+n+")", t == nil, func() { gopoet.PointerType(t) })
	case 2:
		t, n := maybeNil(x)
		refused(x, "SliceType("+n+")", t == nil, func() { gopoet.SliceType(t) })
	case 3:
		t, n := maybeNil(x)
		l := Pick(x, []int64{0, 1, -1, -2, math.MinInt64, math.MaxInt64, math.MaxInt32 + 1})
		refused(x, fmt.Sprintf("ArrayType(%s, %d)", n, l), t == nil || l < 0, func() {
			if a := gopoet.ArrayType(t, l); a.Len() != l {
				x.Fail("length %d became %d", l, a.Len())
			}
		})
	case 4:
		k, n1 := maybeNil(x)
		v, n2 := maybeNil(x)
		refused(x, fmt.Sprintf("MapType(%s, %s)", n1, n2), k == nil || v == nil, func() { gopoet.MapType(k, v) })
	case 5:
		t, n := maybeNil(x)
		dirs := []reflect.ChanDir{math.MinInt64, math.MaxInt64}
		for d := reflect.ChanDir(-9); d < 65; d++ {
			dirs = append(dirs, d)
		}
		d := Pick(x, dirs)
		refused(x, fmt.Sprintf("ChannelType(%s, %d)", n, int(d)), t == nil || d < 0 || d > 3, func() {
			c := gopoet.ChannelType(t, d)
			w := d
			if d == 0 {
				w = reflect.BothDir
			}
			if c.Dir() != w {
				x.Fail("direction %d became %d", d, c.Dir())
			}
		})
	case 6:
		t, n := maybeNil(x)
		var a gopoet.TypeNameOrSpec
		if t != nil {
			a = t
		}
		if x.Bool() {
			refused(x, "NewTypeSpec of "+n, t == nil, func() { gopoet.NewTypeSpec("X", a) })
		} else {
			refused(x, "NewTypeAlias of "+n, t == nil, func() { gopoet.NewTypeAlias("X", a) })
		}
	}
}

func badFuncs(x *X, max int) {
	list := func(pfx string) ([]gopoet.ArgType, bool, string) {
		var out []gopoet.ArgType
		bad := false
		desc := ""
		for n := x.Choose(max + 1); n > 0; n-- {
			t, s := maybeNil(x)
			bad = bad || t == nil
			desc += s + ","
			out = append(out, gopoet.ArgType{Type: t})
		}
		return out, bad, desc
	}
	args, badA, da := list("a")
	results, badR, dr := list("r")
	lastSlice := len(args) > 0 && args[len(args)-1].Type != nil && args[len(args)-1].Type.Kind() == gopoet.KindSlice
	origA, origR := fmt.Sprint(args), fmt.Sprint(results)
	how := x.Choose(4)
	name := []string{"FuncType", "FuncTypeVariadic", "FuncTypeFromSig", "FuncTypeFromSig variadic"}[how]
	bad := badA || badR || how%2 == 1 && !lastSlice
	refused(x, fmt.Sprintf("%s([%s], [%s])", name, da, dr), bad, func() {
		switch how {
		case 0:
			gopoet.FuncType(args, results)
		case 1:
			gopoet.FuncTypeVariadic(args, results)
		default:
			gopoet.FuncTypeFromSig(&gopoet.Signature{Args: args, Results: results, IsVariadic: how == 3})
		}
	})
	if fmt.Sprint(args) != origA || fmt.Sprint(results) != origR {
		x.Fail("the given lists were changed")
	}
	// the same as a func and as an interface method
	if !badA && !badR {
		f := gopoet.NewFunc("f")
		m := gopoet.NewMethod(gopoet.NewReceiver("r", "R"), "f")
		gopoet.NewGoFile("f.go", "p", "p").AddElement(m)
		im := gopoet.NewInterfaceMethod("M")
		gopoet.NewInterfaceTypeSpec("", im)
		for _, a := range args {
			f.AddArg(a.Name, a.Type)
			m.AddArg(a.Name, a.Type)
			im.AddArg(a.Name, a.Type)
		}
		for _, a := range results {
			f.AddResult(a.Name, a.Type)
			m.AddResult(a.Name, a.Type)
			im.AddResult(a.Name, a.Type)
		}
		f.SetVariadic(how%2 == 1)
		m.SetVariadic(how%2 == 1)
		im.SetVariadic(how%2 == 1)
		refused(x, "the type of such a func", bad, func() { f.ToTypeName() })
		refused(x, "the type of such a method", bad, func() { m.ToTypeName() })
		refused(x, "the type of such an interface method", bad, func() { im.ToTypeName() })
	}
}

var nameAtoms = []string{"", "a", ".", "/", "go", ".go", "G", "\\", " ", "..", "é", "_test", ".GO", "O", ".gO"}

func badFileNames(x *X, n int) {
	s := ""
	for i := 0; i < n; i++ {
		s += nameAtoms[x.Choose(len(nameAtoms))]
	}
	ok := strings.HasSuffix(s, ".go") && !strings.Contains(s, "/")
	refused(x, fmt.Sprintf("NewGoFile(%q)", s), !ok, func() {
		f := gopoet.NewGoFile(s, "ex.com/p", "q")
		if f.Name != s || f.PackageName != "q" || f.Package() != (gopoet.Package{ImportPath: "ex.com/p", Name: "q"}) || f.NumElements() != 0 || len(f.ImportSpecs()) != 0 {
			x.Fail("the file is %+v", f)
		}
	})
}

func badReceivers(x *X, depth int) {
	name := Pick(x, []string{"", "r"})
	check := func(what string, bad bool, typ string, ptr bool, f func() *gopoet.ReceiverSpec) {
		refused(x, what, bad, func() {
			if r := f(); *r != (gopoet.ReceiverSpec{Name: name, Type: typ, IsPointer: ptr}) {
				x.Fail("%s is %+v", what, r)
			}
		})
	}
	switch x.Choose(4) {
	case 0:
		typ := Pick(x, []string{"", "T"})
		check(fmt.Sprintf("NewReceiver(%q, %q)", name, typ), typ == "", typ, false, func() *gopoet.ReceiverSpec { return gopoet.NewReceiver(name, typ) })
		check(fmt.Sprintf("NewPointerReceiver(%q, %q)", name, typ), typ == "", typ, true, func() *gopoet.ReceiverSpec { return gopoet.NewPointerReceiver(name, typ) })
	case 1:
		t := genTy(x, depth, stdLeaves())
		tn := t.TN()
		n, p := "", false
		if t.K == gopoet.KindNamed {
			n = t.S.Name
		} else if t.K == gopoet.KindPtr && t.Elem.K == gopoet.KindNamed {
			n, p = t.Elem.S.Name, true
		}
		check(fmt.Sprintf("NewReceiverForType(%q, %s)", name, tn), n == "", n, p, func() *gopoet.ReceiverSpec { return gopoet.NewReceiverForType(name, tn) })
		check(fmt.Sprintf("NewPointerReceiverForType(%q, %s)", name, tn), n == "" || p, n, true, func() *gopoet.ReceiverSpec { return gopoet.NewPointerReceiverForType(name, tn) })
	case 2:
		check("NewReceiverForType(nil)", true, "", false, func() *gopoet.ReceiverSpec { return gopoet.NewReceiverForType(name, nil) })
		check("NewPointerReceiverForType(nil)", true, "", false, func() *gopoet.ReceiverSpec { return gopoet.NewPointerReceiverForType(name, nil) })
	case 3:
		t := genTy(x, 1, stdLeaves())
		n := Pick(x, []string{"", "T"})
		ts := gopoet.NewTypeSpec(n, t.TN())
		switch x.Choose(4) {
		case 1:
			ts = gopoet.NewTypeAlias(n, t.TN())
		case 2:
			ts = gopoet.NewStructTypeSpec(n)
		case 3:
			ts = gopoet.NewInterfaceTypeSpec(n)
		}
		if x.Bool() {
			gopoet.NewGoFile("f.go", "p", "p").AddType(ts)
		}
		check(fmt.Sprintf("NewReceiverForType(%q, type %q of %s)", name, n, t.TN()), n == "", n, false, func() *gopoet.ReceiverSpec { return gopoet.NewReceiverForType(name, ts) })
		check(fmt.Sprintf("NewPointerReceiverForType(%q, type %q of %s)", name, n, t.TN()), n == "", n, true, func() *gopoet.ReceiverSpec { return gopoet.NewPointerReceiverForType(name, ts) })
	}
}

// badSpecs: named types that have no file can not be used as types.
func badSpecs(x *X) {
	named := x.Bool()
	filed := x.Bool()
	n := ""
	if named {
		n = "T"
	}
	t := Pick(x, []*Ty{tyInt, tyStruct(Fd{"A", tyInt, ""}), tyIface(nil, Md{"M", &Sg{}}), tyNamed(pAFoo, "T")})
	ts := gopoet.NewTypeSpec(n, t.TN())
	if filed {
		gopoet.NewGoFile("f.go", "ex.com/p", "p").AddType(ts)
	}
	bad := named && !filed
	was := fmt.Sprintf("%s %s %v", ts, dBoth.TN(ts.Underlying()), ts.IsAlias())
	what := fmt.Sprintf("(type %q of %s, in a file: %v)", n, t.TN(), filed)
	switch x.Choose(5) {
	case 0:
		refused(x, "NewTypeSpec"+what, bad, func() { gopoet.NewTypeSpec("X", ts) })
	case 1:
		refused(x, "NewTypeAlias"+what, bad, func() { gopoet.NewTypeAlias("X", ts) })
	case 2:
		refused(x, "NewStructTypeSpec"+what, bad, func() {
			gopoet.NewStructTypeSpec("X", gopoet.NewField("A", gopoet.IntType), gopoet.NewField("B", ts))
		})
	case 3:
		refused(x, "ToTypeName"+what, bad, func() { ts.ToTypeName() })
	case 4:
		refused(x, "ToSymbol"+what, bad || !named, func() { ts.ToSymbol() })
	}
	if now := fmt.Sprintf("%s %s %v", ts, dBoth.TN(ts.Underlying()), ts.IsAlias()); now != was {
		x.Fail("%s became %s", was, now)
	}
}

func init() {
	register(&Prop{ID: "C16", Level: "model_checking",
		Rule:   "every history, up to a depth, of adding elements to files and declarations, renaming them, their receivers and packages, and sharing interface methods, with all queries about all elements compared with a reference model after every step",
		Assume: []string{"adding a spec to a declaration that is already in a file associates it with that file when the declaration is added again"},
		Harnesses: []*Harness{
			{Name: "histories", Body: func(x *X) { elemHistory(x, elemFiles[0], depthQT(3, 4)) }},
			{Name: "large", Body: elemsLarge},
			{Name: "names", Body: func(x *X) { specNames(x, depthQT(4, 6)) }},
			{Name: "alike files", Body: func(x *X) { elemHistory(x, elemFiles[1+x.Choose(len(elemFiles)-1)], depthQT(2, 3)) }},
			{Name: "zoo", Body: func(x *X) {
				p := Pick(x, zoo(pSelf.Path))
				n := Pick(x, []string{"self", "", "main", "self_test", "pé", "internal", "vendor"})
				x.Say("files of package %q of %q", n, p)
				if x.Bool() {
					elemHistory(x, elemPkgs{[2]string{p, p}, [2]string{n, n}}, depthQT(1, 2))
				} else {
					elemHistory(x, elemPkgs{[2]string{pSelf.Path, p}, [2]string{"self", n}}, depthQT(1, 2))
				}
			}},
		}})
	register(&Prop{ID: "C17", Level: "model_checking",
		Rule:   "all types up to a depth of nesting compared with a model through all accessors, before and after overwriting everything the accessors return; all type specs, funcs and methods derived from them, before and after every change, and sequences of changes, of the elements they derive from",
		Assume: []string{"the signature returned by Signature and the slices given to constructors belong to the type and are not changed by the user"},
		Harnesses: []*Harness{
			{Name: "nested types", Body: func(x *X) { accessors(x, genTy(x, depthQT(2, 3), stdLeaves())) }},
			{Name: "wide types", Body: func(x *X) {
				accessors(x, genWide(x, depthQT(1, 2), []*Ty{tyInt, tyNamed(pSelf, "T"), tyNamed(pAFoo, "T")}))
			}},
			{Name: "large types", Body: func(x *X) { accessors(x, genLarge(x)) }},
			{Name: "lengths", Body: func(x *X) { accessors(x, genLength(x)) }},
			{Name: "spelling", Body: func(x *X) { accessors(x, genSpelled(x)) }},
			{Name: "zoo", Body: func(x *X) { accessors(x, genZoo(x)) }},
			{Name: "type specs", Body: func(x *X) { fileCheck(x, declShapes(x, genTy(x, 2, stdLeaves()), 3)) }},
			{Name: "structs", Body: func(x *X) { derivedStruct(x, x.Choose(depthQT(2, 3)+1)) }},
			{Name: "interfaces", Body: func(x *X) { derivedIface(x, x.Choose(depthQT(3, 5)+1)) }},
			{Name: "signatures", Body: func(x *X) { sigHistory(x, depthQT(4, 5)) }},
		}})
	register(&Prop{ID: "C19", Level: "model_checking",
		Rule: "all constructors with all combinations of missing, invalid, boundary and valid components up to a bound",
		Harnesses: []*Harness{
			{Name: "types", Body: badTypes},
			{Name: "funcs", Body: func(x *X) { badFuncs(x, depthQT(2, 3)) }},
			{Name: "large", Body: badLarge},
			{Name: "file names", Body: func(x *X) { badFileNames(x, depthQT(4, 5)) }},
			{Name: "receivers", Body: func(x *X) { badReceivers(x, depthQT(2, 3)) }},
			{Name: "type specs", Body: badSpecs},
		}})
}
