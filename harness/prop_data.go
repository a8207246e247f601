package main

// C10: template data. A datum is a chain of containers around a leaf; its value
// before, and the value it must be re-created as, are built side by side.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/jhump/gopoet"
)

// dataEnv builds leaves. pref gives the name to use for a package: the given
// one before qualifying, the prefix after.
type dataEnv struct {
	w     *GoW
	p     *P
	pref  func(p *P) string
	after bool
}

func (e *dataEnv) pkg(p *P) gopoet.Package {
	return gopoet.Package{ImportPath: p.Path, Name: e.pref(p)}
}

func (e *dataEnv) sym(n string) gopoet.Symbol { return e.pkg(e.p).Symbol(n) }

func (e *dataEnv) tn(n string) gopoet.TypeName { return gopoet.NamedType(e.sym(n)) }

// file is a file of the package with an element.
func (e *dataEnv) file(el gopoet.FileElement) {
	// a file's PackageName is what elements take as the package's name
	gopoet.NewGoFile("other.go", e.p.Path, e.pref(e.p)).AddElement(el)
}

type dataLeaf struct {
	name   string
	static reflect.Type
	make   func(e *dataEnv) interface{}
	nopkg  bool // references nothing
	lazy   bool // may register packages without need
	known  bool // needs a package of known name
	kept   bool // a go/types or reflect value whose type is given
}

type plainData struct {
	A int
	b string
	C []string
	D map[string]interface{}
	e *plainData
}

type embedData struct {
	gopoet.Symbol
	N int
}

type symLike gopoet.Symbol

type symMap map[string]gopoet.Symbol
type symSlice []*gopoet.Symbol
type tnFunc func() gopoet.TypeName

type mixedData struct {
	Pkg     gopoet.Package
	Types   []gopoet.TypeName
	ByName  map[string]*gopoet.Symbol
	Any     interface{}
	private gopoet.TypeName
	Next    *mixedData
	n       int
}

func rtOf(v interface{}) reflect.Type { return reflect.TypeOf(v).Elem() }

var (
	anyT      = rtOf((*interface{})(nil))
	stringerT = rtOf((*fmt.Stringer)(nil))
	tnT       = rtOf((*gopoet.TypeName)(nil))
	tnosT     = rtOf((*gopoet.TypeNameOrSpec)(nil))
	somrT     = rtOf((*gopoet.SymbolOrMethodRef)(nil))
	feT       = rtOf((*gopoet.FileElement)(nil))
	ieT       = rtOf((*gopoet.InterfaceElement)(nil))
	goTypeT   = rtOf((*types.Type)(nil))
	goObjT    = rtOf((*types.Object)(nil))
	rtypeT    = rtOf((*reflect.Type)(nil))
)

var someFunc = func() {}

var dataLeaves = []dataLeaf{
	{"package", rtOf((*gopoet.Package)(nil)), func(e *dataEnv) interface{} { return e.pkg(e.p) }, false, false, false, false},
	{"symbol", rtOf((*gopoet.Symbol)(nil)), func(e *dataEnv) interface{} { return e.sym("X") }, false, false, false, false},
	{"method reference", rtOf((*gopoet.MethodReference)(nil)), func(e *dataEnv) interface{} {
		return gopoet.MethodReference{Type: e.sym("X"), Method: "M"}
	}, false, false, false, false},
	{"signature", rtOf((*gopoet.Signature)(nil)), func(e *dataEnv) interface{} {
		return gopoet.Signature{Args: []gopoet.ArgType{{Name: "a", Type: gopoet.IntType}, {Type: gopoet.SliceType(e.tn("X"))}}, Results: []gopoet.ArgType{{Type: gopoet.ErrorType}}, IsVariadic: true}
	}, false, false, false, false},
	{"type name", tnT, func(e *dataEnv) interface{} { return e.tn("X") }, false, false, false, false},
	{"map type", tnT, func(e *dataEnv) interface{} { return gopoet.MapType(gopoet.StringType, gopoet.PointerType(e.tn("X"))) }, false, false, false, false},
	{"func type", anyT, func(e *dataEnv) interface{} {
		return gopoet.FuncType([]gopoet.ArgType{{Type: e.tn("X")}}, nil)
	}, false, false, false, false},
	{"struct type", tnosT, func(e *dataEnv) interface{} {
		return gopoet.StructType(gopoet.FieldType{Name: "A", Type: e.tn("X"), Tag: "t"})
	}, false, false, false, false},
	{"interface type", stringerT, func(e *dataEnv) interface{} {
		return gopoet.InterfaceType([]gopoet.Symbol{e.sym("I")}, gopoet.MethodType{Name: "M"})
	}, false, false, false, false},
	{"const", rtOf((*gopoet.ConstSpec)(nil)), func(e *dataEnv) interface{} {
		c := gopoet.NewConst("A", "B").SetComment("c").SetType(gopoet.IntType).Initialize("1")
		e.file(gopoet.NewConstDecl(c))
		return *c
	}, false, false, false, false},
	{"var", rtOf((*gopoet.VarSpec)(nil)), func(e *dataEnv) interface{} {
		c := gopoet.NewVar("A").SetComment("c").SetType(gopoet.IntType).Initialize("1")
		e.file(gopoet.NewVarDecl(c))
		return *c
	}, false, false, false, false},
	{"type", rtOf((*gopoet.TypeSpec)(nil)), func(e *dataEnv) interface{} {
		c := gopoet.NewStructTypeSpec("A", gopoet.NewField("F", gopoet.IntType)).SetComment("c")
		e.file(gopoet.NewTypeDecl(c))
		return *c
	}, false, false, false, false},
	{"unnamed type", rtOf((*gopoet.TypeSpec)(nil)), func(e *dataEnv) interface{} {
		return *gopoet.NewStructTypeSpec("", gopoet.NewField("F", e.tn("X"))).SetComment("c")
	}, false, false, false, false},
	{"unnamed interface type", anyT, func(e *dataEnv) interface{} {
		return gopoet.NewInterfaceTypeSpec("", gopoet.NewInterfaceEmbed(e.sym("I")))
	}, false, false, false, false},
	{"unnamed type as type", tnosT, func(e *dataEnv) interface{} {
		return gopoet.NewTypeSpec("", gopoet.SliceType(e.tn("X")))
	}, false, false, false, false},
	{"field of unnamed type", rtOf((*gopoet.FieldSpec)(nil)), func(e *dataEnv) interface{} {
		return *gopoet.NewField("F", gopoet.NewStructTypeSpec("", gopoet.NewField("G", e.tn("X"))))
	}, false, false, false, false},
	{"unnamed type of no packages", rtOf((*gopoet.TypeSpec)(nil)), func(e *dataEnv) interface{} {
		return *gopoet.NewTypeSpec("", gopoet.SliceType(gopoet.IntType))
	}, true, false, false, false},
	{"empty type spec", rtOf((*gopoet.TypeSpec)(nil)), func(e *dataEnv) interface{} { return gopoet.TypeSpec{Name: "N"} }, true, false, false, false},
	{"func", rtOf((*gopoet.FuncSpec)(nil)), func(e *dataEnv) interface{} {
		c := gopoet.NewFunc("A").SetComment("c").AddArg("a", gopoet.IntType)
		e.file(c)
		return *c
	}, false, false, false, false},
	{"method", rtOf((*gopoet.FuncSpec)(nil)), func(e *dataEnv) interface{} {
		c := gopoet.NewMethod(gopoet.NewPointerReceiver("r", "R"), "A").AddResult("a", gopoet.IntType)
		e.file(c)
		return *c
	}, false, false, false, false},
	{"pointer to type spec", tnosT, func(e *dataEnv) interface{} {
		c := gopoet.NewTypeAlias("A", gopoet.IntType)
		e.file(gopoet.NewTypeDecl(c))
		return c
	}, false, false, false, false},
	{"pointer to var in any", anyT, func(e *dataEnv) interface{} {
		c := gopoet.NewVar("A")
		e.file(gopoet.NewVarDecl(c))
		return c
	}, false, false, false, false},
	{"func as file element", feT, func(e *dataEnv) interface{} {
		c := gopoet.NewFunc("A")
		e.file(c)
		return c
	}, false, false, false, false},
	{"const decl as file element", feT, func(e *dataEnv) interface{} {
		c := gopoet.NewConstDecl(gopoet.NewConst("A"), gopoet.NewConst("B")).SetComment("c")
		e.file(c)
		return c
	}, false, false, false, false},
	{"type decl", rtOf((*gopoet.TypeDecl)(nil)), func(e *dataEnv) interface{} {
		c := gopoet.NewTypeDecl(gopoet.NewTypeSpec("A", gopoet.IntType))
		e.file(c)
		return *c
	}, false, false, false, false},
	{"embed", rtOf((*gopoet.InterfaceEmbed)(nil)), func(e *dataEnv) interface{} {
		return *gopoet.NewInterfaceEmbed(e.sym("I")).SetComment("c")
	}, false, false, false, false},
	{"embed as element", ieT, func(e *dataEnv) interface{} { return gopoet.NewInterfaceEmbed(e.sym("I")) }, false, false, false, false},
	{"interface method", rtOf((*gopoet.InterfaceMethod)(nil)), func(e *dataEnv) interface{} {
		return *gopoet.NewInterfaceMethod("M").SetComment("c").AddArg("a", e.tn("X"))
	}, false, false, false, false},
	{"interface method as element", ieT, func(e *dataEnv) interface{} {
		return gopoet.NewInterfaceMethod("M").AddResult("", gopoet.ChannelType(e.tn("X"), 0))
	}, false, false, false, false},
	{"field", rtOf((*gopoet.FieldSpec)(nil)), func(e *dataEnv) interface{} {
		return *gopoet.NewField("F", e.tn("X")).SetComment("c").SetTag("t")
	}, false, false, false, false},
	{"symbol or method", somrT, func(e *dataEnv) interface{} { return gopoet.MethodReference{Type: e.sym("X"), Method: "M"} }, false, false, false, false},
	{"symbol as stringer", stringerT, func(e *dataEnv) interface{} { y := e.sym("X"); return &y }, false, false, false, false},
	{"predeclared symbol", rtOf((*gopoet.Symbol)(nil)), func(e *dataEnv) interface{} { return gopoet.Symbol{Name: "len"} }, true, false, false, false},
	{"predeclared type", tnT, func(e *dataEnv) interface{} { return gopoet.SliceType(gopoet.ErrorType) }, true, false, false, false},
	{"unattached const", rtOf((*gopoet.ConstSpec)(nil)), func(e *dataEnv) interface{} { return *gopoet.NewConst("A") }, true, false, false, false},
	{"unattached type", anyT, func(e *dataEnv) interface{} { return gopoet.NewTypeSpec("A", gopoet.IntType) }, true, false, false, false},
	{"unattached func", rtOf((*gopoet.FuncSpec)(nil)), func(e *dataEnv) interface{} { return *gopoet.NewFunc("A") }, true, false, false, false},
	// converted where the static type permits it
	{"go type in any", anyT, func(e *dataEnv) interface{} {
		if e.after {
			return gopoet.SliceType(e.tn("X"))
		}
		return types.NewSlice(namedIn2(e, "X"))
	}, false, false, true, false},
	{"go named in stringer", stringerT, func(e *dataEnv) interface{} {
		if e.after {
			return e.tn("X")
		}
		return namedIn2(e, "X")
	}, false, false, true, false},
	{"go basic in any", anyT, func(e *dataEnv) interface{} {
		if e.after {
			return gopoet.IntType
		}
		return types.Typ[types.Int]
	}, true, false, false, false},
	{"go var in any", anyT, func(e *dataEnv) interface{} {
		if e.after {
			return e.sym("V")
		}
		return types.NewVar(token.NoPos, e.w.Pkg(e.p), "V", types.Typ[types.Int])
	}, false, false, true, false},
	{"go type name in stringer", stringerT, func(e *dataEnv) interface{} {
		if e.after {
			return e.sym("X")
		}
		return namedIn2(e, "X").Obj()
	}, false, false, true, false},
	{"go method in any", anyT, func(e *dataEnv) interface{} {
		if e.after {
			return gopoet.MethodReference{Type: e.sym("X"), Method: "M"}
		}
		recv := types.NewVar(token.NoPos, e.w.Pkg(e.p), "r", types.NewPointer(namedIn2(e, "X")))
		return types.NewFunc(token.NoPos, e.w.Pkg(e.p), "M", types.NewSignature(recv, nil, nil, false))
	}, false, false, true, false},
	{"go package in any", anyT, func(e *dataEnv) interface{} {
		if e.after {
			return e.pkg(e.p)
		}
		return e.w.Pkg(e.p)
	}, false, false, true, false},
	{"reflect type in any", anyT, func(e *dataEnv) interface{} {
		if e.after {
			return gopoet.MapType(gopoet.StringType, gopoet.IntType)
		}
		return reflect.TypeOf(map[string]int{})
	}, true, false, false, false},
	{"reflect type in stringer", stringerT, func(e *dataEnv) interface{} {
		if e.after {
			return gopoet.NamedType(e.pkg(pTextT).Symbol("Template"))
		}
		return rtOf((*textTemplate)(nil))
	}, true, true, false, false},
	// not converted
	{"go type as itself", goTypeT, func(e *dataEnv) interface{} { return namedIn2(e, "X") }, true, true, true, true},
	{"go object as itself", goObjT, func(e *dataEnv) interface{} { return namedIn2(e, "X").Obj() }, true, true, true, true},
	{"*types.Named", rtOf((**types.Named)(nil)), func(e *dataEnv) interface{} { return namedIn2(e, "X") }, true, false, true, true},
	{"*types.Package", rtOf((**types.Package)(nil)), func(e *dataEnv) interface{} { namedIn2(e, "X"); return e.w.Pkg(e.p) }, true, false, true, true},
	{"reflect type as itself", rtypeT, func(e *dataEnv) interface{} { return reflect.TypeOf([]int{}) }, true, false, false, true},
	// others
	{"int", rtOf((*int)(nil)), func(e *dataEnv) interface{} { return 42 }, true, false, false, false},
	{"string in any", anyT, func(e *dataEnv) interface{} { return "foo.X" }, true, false, false, false},
	{"nil in any", anyT, func(e *dataEnv) interface{} { return nil }, true, false, false, false},
	{"nil type name", tnT, func(e *dataEnv) interface{} { return nil }, true, false, false, false},
	{"nil *symbol", rtOf((**gopoet.Symbol)(nil)), func(e *dataEnv) interface{} { return (*gopoet.Symbol)(nil) }, true, false, false, false},
	{"nil []symbol", rtOf((*[]gopoet.Symbol)(nil)), func(e *dataEnv) interface{} { return []gopoet.Symbol(nil) }, true, false, false, false},
	{"empty []symbol", rtOf((*[]gopoet.Symbol)(nil)), func(e *dataEnv) interface{} { return []gopoet.Symbol{} }, true, false, false, false},
	{"nil map", rtOf((*map[string]gopoet.Package)(nil)), func(e *dataEnv) interface{} { return map[string]gopoet.Package(nil) }, true, false, false, false},
	{"[0]symbol", rtOf((*[0]gopoet.Symbol)(nil)), func(e *dataEnv) interface{} { return [0]gopoet.Symbol{} }, true, false, false, false},
	{"func", rtOf((*func())(nil)), func(e *dataEnv) interface{} { return someFunc }, true, false, false, false},
	{"plain struct", rtOf((*plainData)(nil)), func(e *dataEnv) interface{} {
		return plainData{1, "b", []string{"foo"}, map[string]interface{}{"k": 1}, &plainData{A: 2}}
	}, true, false, false, false},
	{"struct with embedded symbol", rtOf((*embedData)(nil)), func(e *dataEnv) interface{} { return embedData{e.sym("X"), 3} }, false, false, false, false},
	{"type like symbol", rtOf((*symLike)(nil)), func(e *dataEnv) interface{} { return symLike(e.sym("X")) }, false, false, false, false},
	{"named map", rtOf((*symMap)(nil)), func(e *dataEnv) interface{} {
		return symMap{"a": e.sym("X"), "b": gopoet.Symbol{Name: "len"}, "c": e.sym("Y")}
	}, false, false, false, false},
	{"named slice", rtOf((*symSlice)(nil)), func(e *dataEnv) interface{} {
		y := e.sym("X")
		return symSlice{nil, &y, nil}
	}, false, false, false, false},
	{"mixed", rtOf((*mixedData)(nil)), func(e *dataEnv) interface{} {
		y := e.sym("Y")
		m := mixedData{Pkg: e.pkg(e.p), Types: []gopoet.TypeName{gopoet.IntType, e.tn("X")}, ByName: map[string]*gopoet.Symbol{"y": &y, "nil": nil}, Any: []interface{}{1, e.pkg(e.p), "s"}, n: 5}
		f := *e
		if e.after && purego {
			f.after, f.pref = false, (*P).Given
		}
		m.private = f.tn("Z")
		m2 := m
		m.Next = &m2
		return m
	}, false, false, false, false},
}

func namedIn2(e *dataEnv, n string) *types.Named { return e.w.Named(Sy{e.p, n}).(*types.Named) }

// dataNode is a container around a child, or a leaf.
type dataNode struct {
	leaf  *dataLeaf
	how   int
	child *dataNode
	t     reflect.Type
}

const nContainers = 16

func (n *dataNode) theLeaf() *dataLeaf {
	for n.child != nil {
		n = n.child
	}
	return n.leaf
}

func container(how int, c *dataNode) *dataNode {
	n := &dataNode{how: how, child: c}
	t := c.t
	if c.leaf != nil && c.leaf.kept && (how == 9 || how == 10 || how == 13) {
		return nil // held in such an interface it is converted
	}
	pk := "main"
	switch how {
	case 0:
		n.t = reflect.PtrTo(t)
	case 1, 2:
		n.t = reflect.SliceOf(t)
	case 3:
		n.t = reflect.ArrayOf(2, t)
	case 4:
		n.t = reflect.MapOf(reflect.TypeOf(""), t)
	case 5:
		if !t.Comparable() {
			return nil
		}
		n.t = reflect.MapOf(t, reflect.TypeOf(""))
	case 6:
		n.t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0)}, {Name: "X", Type: t}, {Name: "B", Type: reflect.TypeOf("")}})
	case 7:
		n.t = reflect.StructOf([]reflect.StructField{{Name: "a", PkgPath: pk, Type: reflect.TypeOf(0)}, {Name: "x", PkgPath: pk, Type: t}, {Name: "y", PkgPath: pk, Type: t}})
	case 8:
		n.t = reflect.StructOf([]reflect.StructField{{Name: "X", Type: t}, {Name: "y", PkgPath: pk, Type: t}, {Name: "Z", Type: t}})
	case 9:
		if t == anyT {
			return nil
		}
		n.t = anyT
	case 10:
		if t == stringerT || !t.Implements(stringerT) {
			return nil
		}
		n.t = stringerT
	case 11:
		n.t = reflect.MapOf(reflect.TypeOf(0), reflect.SliceOf(t))
	case 12:
		// a field of a type that embeds
		n.t = reflect.StructOf([]reflect.StructField{{Name: "X", Type: reflect.ArrayOf(1, t), Tag: `a:"b"`}, {Name: "F", Type: reflect.TypeOf(someFunc)}})
	case 13:
		n.t = reflect.SliceOf(anyT)
	case 14:
		n.t = reflect.MapOf(reflect.TypeOf(0.5), t)
	case 15:
		if !t.Comparable() {
			return nil
		}
		n.t = reflect.MapOf(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0.5)}, {Name: "X", Type: t}}), t)
	}
	return n
}

// hidden is the environment for what an unexported field holds.
func (e *dataEnv) hidden() *dataEnv {
	if !e.after || !purego {
		return e
	}
	f := *e
	f.after, f.pref = false, (*P).Given
	return &f
}

func (e *dataEnv) neutral() *dataEnv {
	f := *e
	f.p = pBFoo
	return &f
}

func setField(st reflect.Value, i int, v reflect.Value) {
	f := st.Field(i)
	if !f.CanSet() {
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	}
	f.Set(v)
}

func (n *dataNode) build(e *dataEnv) reflect.Value {
	out := reflect.New(n.t).Elem()
	if n.leaf != nil {
		if v := n.leaf.make(e); v != nil {
			out.Set(reflect.ValueOf(v))
		}
		return out
	}
	c := n.child
	switch n.how {
	case 0:
		p := reflect.New(c.t)
		p.Elem().Set(c.build(e))
		out.Set(p)
	case 1:
		out.Set(reflect.Append(out, c.build(e)))
	case 2:
		out.Set(reflect.Append(out, c.build(e.neutral()), c.build(e), c.build(e.neutral())))
	case 3:
		out.Index(0).Set(c.build(e.neutral()))
		out.Index(1).Set(c.build(e))
	case 4:
		out.Set(reflect.MakeMap(n.t))
		out.SetMapIndex(reflect.ValueOf("a"), c.build(e.neutral()))
		out.SetMapIndex(reflect.ValueOf("b"), c.build(e))
		out.SetMapIndex(reflect.ValueOf("c"), c.build(e))
	case 5:
		out.Set(reflect.MakeMap(n.t))
		out.SetMapIndex(c.build(e), reflect.ValueOf("v"))
		if !n.theLeaf().nopkg && e.p != pBFoo {
			out.SetMapIndex(c.build(e.neutral()), reflect.ValueOf("w"))
		}
	case 6:
		out.Field(0).SetInt(7)
		out.Field(1).Set(c.build(e))
		out.Field(2).SetString("foo")
	case 7:
		setField(out, 0, reflect.ValueOf(7))
		setField(out, 1, c.build(e.hidden()))
		setField(out, 2, c.build(e.neutral().hidden()))
	case 8:
		setField(out, 0, c.build(e.neutral()))
		setField(out, 1, c.build(e.hidden()))
		setField(out, 2, c.build(e))
	case 9, 10:
		v := c.build(e)
		if v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if v.IsValid() {
			out.Set(v)
		}
	case 11:
		out.Set(reflect.MakeMap(n.t))
		out.SetMapIndex(reflect.ValueOf(1), reflect.Append(reflect.MakeSlice(reflect.SliceOf(c.t), 0, 4), c.build(e)))
		out.SetMapIndex(reflect.ValueOf(2), reflect.Zero(reflect.SliceOf(c.t)))
	case 12:
		out.Field(0).Index(0).Set(c.build(e))
		out.Field(1).Set(reflect.ValueOf(someFunc))
	case 13:
		v := c.build(e)
		out.Set(reflect.Append(out, reflect.ValueOf(1), v, v, reflect.Zero(anyT)))
	case 14:
		// keys that are not equal to themselves
		out.Set(reflect.MakeMap(n.t))
		out.SetMapIndex(reflect.ValueOf(1.5), c.build(e.neutral()))
		out.SetMapIndex(reflect.ValueOf(math.NaN()), c.build(e))
		out.SetMapIndex(reflect.ValueOf(math.NaN()), c.build(e))
	case 15:
		out.Set(reflect.MakeMap(n.t))
		for _, f := range []float64{0.25, math.NaN()} {
			k := reflect.New(n.t.Key()).Elem()
			k.Field(0).SetFloat(f)
			k.Field(1).Set(c.build(e))
			out.SetMapIndex(k, c.build(e))
		}
	}
	return out
}

func (n *dataNode) String() string {
	if n.leaf != nil {
		return n.leaf.name
	}
	return []string{"ptr", "slice", "slice3", "array", "map", "key", "struct", "hidden", "mixed", "any", "stringer", "map of slices", "array in struct", "anys", "map of NaN", "key with NaN"}[n.how] + "(" + n.child.String() + ")"
}

// ---- canonical dumps of data

func open(v reflect.Value) reflect.Value {
	// an addressable copy whose unexported fields can be read
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	return c
}

func orPanic(f func() string) (s string) {
	defer func() {
		if recover() != nil {
			s = "none"
		}
	}()
	return f()
}

func symD(s gopoet.Symbol) string { return byBoth(s.Package.ImportPath, s.Package.Name) + s.Name }

func tnosD(t gopoet.TypeNameOrSpec) string {
	switch t := t.(type) {
	case nil:
		return "nil"
	case gopoet.TypeName:
		return dumper{pkg: byBoth}.TN(t)
	case *gopoet.TypeSpec:
		return specD(t)
	}
	return "?"
}

func specD(t *gopoet.TypeSpec) string {
	return fmt.Sprintf("type(%s %s %v %s %s)", t.Name, t.Comment, t.IsAlias(), dumper{pkg: byBoth}.TN(t.Underlying()), orPanic(func() string { return symD(t.ToSymbol()) }))
}

func refD(r gopoet.SymbolOrMethodRef) string {
	switch r := r.(type) {
	case gopoet.Symbol:
		return symD(r)
	case gopoet.MethodReference:
		return symD(r.Type) + "." + r.Method
	case *gopoet.MethodReference:
		return symD(r.Type) + "." + r.Method
	}
	return "?"
}

// dataD dumps any datum; v must be readable.
func dataD(v reflect.Value) string {
	d := dumper{pkg: byBoth}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "i:nil"
		}
		in := v.Interface()
		if t, ok := in.(gopoet.TypeName); ok {
			return "i:TypeName " + d.TN(t)
		}
		if m, ok := in.(*gopoet.MethodReference); ok {
			// a reference made from a go/types method may be either
			return "i:MethodReference " + refD(*m)
		}
		switch in := in.(type) {
		case types.Type:
			return fmt.Sprintf("i:go %T %s", in, in)
		case types.Object:
			return fmt.Sprintf("i:go %T %s", in, in)
		case *types.Package:
			return fmt.Sprintf("i:go %T %s", in, in)
		case reflect.Type:
			return "i:reflect " + in.String()
		}
		e := v.Elem()
		if m, ok := in.(gopoet.MethodReference); ok {
			return "i:MethodReference " + refD(m)
		}
		return "i:" + e.Type().String() + " " + dataD(e)
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		switch in := v.Interface().(type) {
		case types.Type:
			return fmt.Sprintf("go %T %s", in, in)
		case *types.Package:
			return fmt.Sprintf("go %T %s", in, in)
		}
		return "&" + dataD(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "[nil]"
		}
		var out []string
		for i := 0; i < v.Len(); i++ {
			out = append(out, dataD(v.Index(i)))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "map(nil)"
		}
		var out []string
		it := v.MapRange()
		for it.Next() {
			out = append(out, dataD(it.Key())+"=>"+dataD(it.Value()))
		}
		sort.Strings(out)
		return "map(" + strings.Join(out, ", ") + ")"
	case reflect.Struct:
		switch t := v.Interface().(type) {
		case gopoet.Package:
			return "pkg " + byBoth(t.ImportPath, t.Name)
		case gopoet.Symbol:
			return "sym " + symD(t)
		case gopoet.MethodReference:
			return "mref " + refD(t)
		case gopoet.Signature:
			return "sig " + d.Sig(&t)
		case gopoet.ConstSpec:
			c := t
			return fmt.Sprintf("const(%v %s %s %v %s)", c.Names, c.Comment, tnosD(c.Type), c.Initializer != nil, orPanic(func() string { return symD(c.SymbolAt(0)) }))
		case gopoet.VarSpec:
			c := t
			return fmt.Sprintf("var(%v %s %s %v %s)", c.Names, c.Comment, tnosD(c.Type), c.Initializer != nil, orPanic(func() string { return symD(c.SymbolAt(0)) }))
		case gopoet.TypeSpec:
			c := t
			return specD(&c)
		case gopoet.FuncSpec:
			c := t
			return fmt.Sprintf("func(%s %s %+v %s %s)", c.Name, c.Comment, c.Receiver, d.Sig(&c.Signature), orPanic(func() string { return refD(c.ToSymbol()) }))
		case gopoet.InterfaceEmbed:
			return "embed(" + t.Comment + " " + symD(t.Type) + ")"
		case gopoet.InterfaceMethod:
			c := t
			return "method(" + t.Comment + " " + t.Name + d.Sig(&c.Signature) + ")"
		case gopoet.FieldSpec:
			return "field(" + t.Comment + " " + t.Name + " " + string(t.Tag) + tnosD(t.Type) + ")"
		}
		v = open(v)
		var out []string
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			out = append(out, dataD(f))
		}
		return "struct{" + strings.Join(out, "; ") + "}"
	case reflect.Func:
		return fmt.Sprint("func ", v.IsNil(), " ", v.Pointer() == reflect.ValueOf(someFunc).Pointer())
	}
	return fmt.Sprint(v.Interface())
}

// sameRef tells whether two data are the same pointer, map or slice; true for
// kinds without identity.
func sameRef(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Ptr, reflect.Map:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.Pointer() == b.Pointer() && a.Len() == b.Len()
	}
	return true
}

func dataCheck(x *X, roots []*dataNode, pkgs []*P, build func(e []*dataEnv) reflect.Value) {
	im := gopoet.NewImportsFor(pSelf.Path)
	im.RegisterImport(pBFoo.Path, "foo")
	w := newGoW()
	var before, after []*dataEnv
	used := map[string]bool{pBFoo.Path: true}
	lazy := false
	for i := range roots {
		before = append(before, &dataEnv{w: w, p: pkgs[i], pref: (*P).Given})
		lazy = lazy || roots[i].theLeaf().lazy
		after = append(after, &dataEnv{w: w, p: pkgs[i], after: true, pref: func(p *P) string {
			if p == pSelf {
				return ""
			}
			used[p.Path] = true
			pre := "UNREGISTERED"
			catch(func() { pre = strings.TrimSuffix(im.PrefixForPackage(p.Path), ".") })
			return pre
		}})
	}
	in := build(before)
	was := dataD(in)
	x.Say("%s", was)
	var got interface{}
	x.Op()
	got = im.QualifyTemplateData(in.Interface())
	if now := dataD(in); now != was {
		x.Fail("the given data was modified\nwas %s\nnow %s", was, now)
	}
	want := dataD(build(after))
	gv := reflect.ValueOf([]interface{}{got}).Index(0)
	if in.Kind() == reflect.Interface {
		in = in.Elem()
	}
	wd := want
	if !strings.HasPrefix(want, "i:") {
		wd = dataD(reflect.ValueOf([]interface{}{build(after).Interface()}).Index(0))
	}
	have := dataD(gv)
	x.Saw(have)
	if have != wd {
		x.Fail("data %s\ngave   %s\nwanted %s", was, have, wd)
	}
	if in.IsValid() && gv.Elem().IsValid() && gv.Elem().Type() == in.Type() && was == want && !sameRef(in, gv.Elem()) {
		x.Fail("data without anything to change was copied: %s", was)
	}
	for _, s := range im.ImportSpecs() {
		if !used[s.ImportPath] && !lazy {
			x.Fail("%s is imported without need: %s", s, was)
		}
	}
}

type (
	EmB struct {
		P gopoet.Package
		n int
	}
	emA struct {
		S gopoet.Symbol
		t gopoet.TypeName
	}
	EmMap   map[string]gopoet.Symbol
	EmSlice []interface{}
	EmAny   interface{}
	EmP     *gopoet.Symbol

	emStruct struct {
		N int
		EmB
		P string
	}
	emPtr struct {
		*EmB
		X int
	}
	emHidden struct {
		emA
		N int
	}
	emHiddenPtr struct {
		N int
		*emA
	}
	emPkg struct {
		*gopoet.Package
		A int
	}
	emType struct {
		gopoet.TypeName
		A int
	}
	emSig struct {
		*gopoet.Signature
		gopoet.MethodReference
	}
	emMap struct {
		EmMap
		EmSlice
	}
	emAny struct {
		A int
		EmAny
	}
	emDeep struct {
		*emPtr
		A *emStruct
	}
	emElem struct {
		*gopoet.VarSpec
		A int
	}
)

// embLeaves are structs that embed what has references.
var embLeaves = []dataLeaf{
	{"embedded struct", rtOf((*emStruct)(nil)), func(e *dataEnv) interface{} { return emStruct{1, EmB{e.pkg(e.p), 2}, "P"} }, false, false, false, false},
	{"embedded pointer", rtOf((*emPtr)(nil)), func(e *dataEnv) interface{} { return emPtr{&EmB{e.pkg(e.p), 2}, 3} }, false, false, false, false},
	{"nil embedded pointer", rtOf((*emPtr)(nil)), func(e *dataEnv) interface{} { return emPtr{nil, 3} }, true, false, false, false},
	{"unexported embedded struct", rtOf((*emHidden)(nil)), func(e *dataEnv) interface{} {
		e = e.hidden()
		return emHidden{emA{e.sym("X"), e.tn("Y")}, 3}
	}, false, false, false, false},
	{"unexported embedded pointer", rtOf((*emHiddenPtr)(nil)), func(e *dataEnv) interface{} {
		e = e.hidden()
		return emHiddenPtr{3, &emA{e.sym("X"), e.tn("Y")}}
	}, false, false, false, false},
	{"embedded package", rtOf((*emPkg)(nil)), func(e *dataEnv) interface{} { p := e.pkg(e.p); return emPkg{&p, 3} }, false, false, false, false},
	{"nil embedded package", rtOf((*emPkg)(nil)), func(e *dataEnv) interface{} { return emPkg{nil, 3} }, true, false, false, false},
	{"embedded type name", rtOf((*emType)(nil)), func(e *dataEnv) interface{} { return emType{gopoet.SliceType(e.tn("X")), 3} }, false, false, false, false},
	{"embedded references", rtOf((*emSig)(nil)), func(e *dataEnv) interface{} {
		return emSig{&gopoet.Signature{Args: []gopoet.ArgType{{Type: e.tn("X")}}}, gopoet.MethodReference{Type: e.sym("X"), Method: "M"}}
	}, false, false, false, false},
	{"embedded map and slice", rtOf((*emMap)(nil)), func(e *dataEnv) interface{} {
		return emMap{EmMap{"a": e.sym("X")}, EmSlice{1, e.sym("Y"), nil}}
	}, false, false, false, false},
	{"embedded interface", rtOf((*emAny)(nil)), func(e *dataEnv) interface{} { return emAny{3, e.sym("X")} }, false, false, false, false},
	{"embedded interface with pointer", rtOf((*emAny)(nil)), func(e *dataEnv) interface{} { return emAny{3, &EmB{e.pkg(e.p), 1}} }, false, false, false, false},
	{"embedded interface with go type", rtOf((*emAny)(nil)), func(e *dataEnv) interface{} {
		if e.after {
			return emAny{3, e.tn("X")}
		}
		return emAny{3, namedIn2(e, "X")}
	}, false, false, true, false},
	{"embedded element", rtOf((*emElem)(nil)), func(e *dataEnv) interface{} {
		c := gopoet.NewVar("A").SetType(gopoet.IntType)
		e.file(gopoet.NewVarDecl(c))
		return emElem{c, 2}
	}, false, false, false, false},
	{"pointer embedded in embedded pointer", rtOf((*emDeep)(nil)), func(e *dataEnv) interface{} {
		f := e.hidden()
		return emDeep{&emPtr{&EmB{f.pkg(f.p), 2}, 3}, &emStruct{EmB: EmB{P: e.pkg(e.p)}}}
	}, false, false, false, false},
}

type (
	nmSym    *gopoet.Symbol
	nmPkg    *gopoet.Package
	nmSig    *gopoet.Signature
	nmSpec   *gopoet.TypeSpec
	nmVar    *gopoet.VarSpec
	nmRef    *gopoet.MethodReference
	nmStruct *mixedData
	nmLike   *symLike
	nmTwice  *nmSym
	nmArr    [2]gopoet.Symbol
	nmTypes  []gopoet.TypeName
	nmKeys   map[gopoet.Symbol]nmPkg
	nmSlices []symSlice
	nmMaps   map[string]symMap
	nmAny    interface{}
	nmTN     gopoet.TypeName
	nmString interface{ String() string }
	nmPkgOf  gopoet.Package
	nmAll    struct {
		S nmSym
		p nmPkg
		A nmArr
		T nmTypes
		K nmKeys
		I nmAny
		N nmTN
		L nmPkgOf
	}
	nmAllPtr *nmAll
)

// namedLeaves are of types that have names of their own.
var namedLeaves = []dataLeaf{
	{"named pointer to symbol", rtOf((*nmSym)(nil)), func(e *dataEnv) interface{} { s := e.sym("X"); return nmSym(&s) }, false, false, false, false},
	{"nil named pointer to symbol", rtOf((*nmSym)(nil)), func(e *dataEnv) interface{} { return nmSym(nil) }, true, false, false, false},
	{"named pointer to predeclared", rtOf((*nmSym)(nil)), func(e *dataEnv) interface{} { return nmSym(&gopoet.Symbol{Name: "len"}) }, true, false, false, false},
	{"named pointer to package", rtOf((*nmPkg)(nil)), func(e *dataEnv) interface{} { p := e.pkg(e.p); return nmPkg(&p) }, false, false, false, false},
	{"named pointer to signature", rtOf((*nmSig)(nil)), func(e *dataEnv) interface{} {
		return nmSig(&gopoet.Signature{Args: []gopoet.ArgType{{Type: e.tn("X")}}})
	}, false, false, false, false},
	{"named pointer to unnamed type", rtOf((*nmSpec)(nil)), func(e *dataEnv) interface{} {
		return nmSpec(gopoet.NewTypeSpec("", gopoet.SliceType(e.tn("X"))))
	}, false, false, false, false},
	{"named pointer to var", rtOf((*nmVar)(nil)), func(e *dataEnv) interface{} {
		v := gopoet.NewVar("A").SetType(gopoet.IntType)
		e.file(gopoet.NewVarDecl(v))
		return nmVar(v)
	}, false, false, false, false},
	{"named pointer to method reference", rtOf((*nmRef)(nil)), func(e *dataEnv) interface{} {
		return nmRef(&gopoet.MethodReference{Type: e.sym("X"), Method: "M"})
	}, false, false, false, false},
	{"named pointer to struct", rtOf((*nmStruct)(nil)), func(e *dataEnv) interface{} {
		return nmStruct(&mixedData{Pkg: e.pkg(e.p), n: 4})
	}, false, false, false, false},
	{"named pointer to type like symbol", rtOf((*nmLike)(nil)), func(e *dataEnv) interface{} { s := symLike(e.sym("X")); return nmLike(&s) }, false, false, false, false},
	{"named pointer to named pointer", rtOf((*nmTwice)(nil)), func(e *dataEnv) interface{} {
		s := e.sym("X")
		p := nmSym(&s)
		return nmTwice(&p)
	}, false, false, false, false},
	{"named array", rtOf((*nmArr)(nil)), func(e *dataEnv) interface{} { return nmArr{{Name: "len"}, e.sym("X")} }, false, false, false, false},
	{"named list of types", rtOf((*nmTypes)(nil)), func(e *dataEnv) interface{} { return nmTypes{nil, e.tn("X"), gopoet.IntType} }, false, false, false, false},
	{"named map with keys", rtOf((*nmKeys)(nil)), func(e *dataEnv) interface{} {
		p := e.pkg(e.p)
		return nmKeys{e.sym("X"): nmPkg(&p), {Name: "len"}: nil}
	}, false, false, false, false},
	{"named list of named lists", rtOf((*nmSlices)(nil)), func(e *dataEnv) interface{} {
		s := e.sym("X")
		return nmSlices{{nil}, nil, {nil, &s}}
	}, false, false, false, false},
	{"named map of named maps", rtOf((*nmMaps)(nil)), func(e *dataEnv) interface{} {
		return nmMaps{"a": nil, "b": {"c": e.sym("X")}, "d": {}}
	}, false, false, false, false},
	{"named pointer in named any", rtOf((*nmAny)(nil)), func(e *dataEnv) interface{} { s := e.sym("X"); return nmSym(&s) }, false, false, false, false},
	{"type in named any", rtOf((*nmAny)(nil)), func(e *dataEnv) interface{} { return gopoet.PointerType(e.tn("X")) }, false, false, false, false},
	{"go type in named any", rtOf((*nmAny)(nil)), func(e *dataEnv) interface{} {
		if e.after {
			return e.tn("X")
		}
		return namedIn2(e, "X")
	}, false, false, true, false},
	{"type in named interface", rtOf((*nmTN)(nil)), func(e *dataEnv) interface{} { return gopoet.SliceType(e.tn("X")) }, false, false, false, false},
	{"symbol in named interface", rtOf((*nmString)(nil)), func(e *dataEnv) interface{} { return e.sym("X") }, false, false, false, false},
	{"go type in named interface", rtOf((*nmString)(nil)), func(e *dataEnv) interface{} {
		if e.after {
			return e.tn("X")
		}
		return namedIn2(e, "X")
	}, false, false, true, false},
	{"type like package", rtOf((*nmPkgOf)(nil)), func(e *dataEnv) interface{} { return nmPkgOf(pBFoo.Pkg()) }, true, false, false, false},
	{"named all", rtOf((*nmAllPtr)(nil)), func(e *dataEnv) interface{} {
		s, p := e.sym("X"), e.hidden().pkg(e.p)
		return nmAllPtr(&nmAll{nmSym(&s), nmPkg(&p), nmArr{s}, nmTypes{e.tn("Y")}, nmKeys{s: nil}, nmSym(&s), e.tn("Z"), nmPkgOf(pAFoo.Pkg())})
	}, false, false, false, false},
}

func dataNested(x *X, dataLeaves []dataLeaf, depth int) {
	leaf := &dataLeaves[x.Choose(len(dataLeaves))]
	p := pAFoo
	if !leaf.nopkg {
		p = Pick(x, []*P{pAFoo, pSelf, pBar, pYaml})
		if p.Unknown && leaf.known {
			x.Skip()
		}
	}
	n := &dataNode{leaf: leaf, t: leaf.static}
	for i := 0; i < depth; i++ {
		c := x.Choose(nContainers + 1)
		if c == nContainers {
			break
		}
		n = container(c, n)
		if n == nil {
			x.Skip()
		}
	}
	x.Say("%v, package %s", n, p.Path)
	if n.leaf != nil && n.leaf.kept {
		x.Skip() // passed in an interface{} it is converted
	}
	if !hashable(n, p) {
		x.Skip()
	}
	dataCheck(x, []*dataNode{n}, []*P{p}, func(e []*dataEnv) reflect.Value { return n.build(e[0]) })
}

// hashable tells whether the datum can be built at all (keys may hold values
// that can not be compared).
func hashable(n *dataNode, p *P) (ok bool) {
	has := false
	for m := n; m != nil; m = m.child {
		has = has || m.how == 5 || m.how == 15
	}
	if !has {
		return true
	}
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	for m := n; m != nil; m = m.child {
		if (m.how == 5 || m.how == 15) && m.child != nil {
			v := m.child.build(&dataEnv{w: newGoW(), p: p, pref: (*P).Given})
			a := m.child.build(&dataEnv{w: newGoW(), p: p, pref: (*P).Given, after: true})
			if !v.Comparable() || !a.Comparable() {
				return false
			}
		}
	}
	return true
}

// sharedItems are data of which some are parts of others, or the same thing
// with other types: pointers into structs, arrays and slices, overlapping
// slices, cells, and types converted to others with the same underlying type.
func sharedItems(e *dataEnv, leaf *dataLeaf, shape int) []reflect.Value {
	n := &dataNode{leaf: leaf, t: leaf.static}
	t := n.t
	named := func(v reflect.Value, typ interface{}) reflect.Value { return v.Convert(reflect.TypeOf(typ)) }
	part := reflect.StructOf([]reflect.StructField{{Name: "First", Type: t}, {Name: "Rest", Type: reflect.SliceOf(t)}, {Name: "P", Type: reflect.PtrTo(t)}})
	newPart := func() reflect.Value {
		o := reflect.New(part)
		o.Elem().Field(0).Set(n.build(e))
		rest := reflect.MakeSlice(reflect.SliceOf(t), 0, 3)
		o.Elem().Field(1).Set(reflect.Append(rest, n.build(e.neutral()), n.build(e)))
		return o
	}
	switch shape {
	case 0:
		o := newPart()
		o.Elem().Field(2).Set(o.Elem().Field(0).Addr())
		r := o.Elem().Field(1)
		return []reflect.Value{o, o.Elem(), o.Elem().Field(0).Addr(), r.Addr(), r, r.Index(0).Addr(), r.Index(1).Addr(), r.Slice(0, 1), r.Slice(1, 2), o.Elem().Field(2).Addr()}
	case 1:
		a := reflect.New(reflect.ArrayOf(2, part))
		a.Elem().Index(0).Set(newPart().Elem())
		a.Elem().Index(1).Set(newPart().Elem())
		f := a.Elem().Index(0)
		return []reflect.Value{a, f.Addr(), f.Field(0).Addr(), a.Elem().Slice(0, 2), a.Elem().Slice(0, 1), a.Elem().Slice(1, 2), a.Elem().Index(1).Addr()}
	case 2:
		in := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "In", Type: part}, {Name: "M", Type: reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(t))}}))
		in.Elem().Field(0).Set(newPart().Elem())
		m := reflect.MakeMap(in.Elem().Field(1).Type())
		m.SetMapIndex(reflect.ValueOf("a"), in.Elem().Field(0).Field(0).Addr())
		m.SetMapIndex(reflect.ValueOf("b"), in.Elem().Field(0).Field(1).Index(1).Addr())
		in.Elem().Field(1).Set(m)
		return []reflect.Value{in, in.Elem().Field(0).Addr(), in.Elem().Field(0).Field(0).Addr(), m, in.Elem().Field(1).Addr()}
	case 3:
		c := reflect.New(anyT)
		o := newPart()
		c.Elem().Set(o)
		cc := reflect.New(c.Type())
		cc.Elem().Set(c)
		anys := reflect.New(reflect.TypeOf([1]interface{}{}))
		anys.Elem().Index(0).Set(o)
		return []reflect.Value{c, cc, o, anys, anys.Elem().Slice(0, 1), anys.Elem().Index(0).Addr(), o.Elem().Field(0).Addr()}
	default:
		y, z := e.sym("X"), e.sym("Y")
		p := reflect.ValueOf(&y)
		ps := reflect.ValueOf([]*gopoet.Symbol{&y, &z, &y})
		m := reflect.ValueOf(map[string]gopoet.Symbol{"y": y, "z": z})
		return []reflect.Value{p, named(p, (*symLike)(nil)), ps, named(ps, symSlice(nil)), m, named(m, symMap(nil)), ps.Index(0), ps.Slice(0, 1)}
	}
}

const nShared = 5

// dataShared: two data, in either order, that share memory.
func dataShared(x *X) {
	shape := x.Choose(nShared)
	leaf := &dataLeaves[0]
	if shape < nShared-1 {
		leaf = &dataLeaves[x.Choose(len(dataLeaves))]
	}
	p := pAFoo
	if !leaf.nopkg {
		p = Pick(x, []*P{pAFoo, pSelf, pBar})
	}
	n := &dataNode{leaf: leaf, t: leaf.static}
	items := len(sharedItems(&dataEnv{w: newGoW(), p: p, pref: (*P).Given}, leaf, shape))
	i, j := x.Choose(items), x.Choose(items)
	how := x.Choose(3)
	x.Say("%v of %s, shape %d, items %d and %d, %d", leaf.name, p.Path, shape, i, j, how)
	dataCheck(x, []*dataNode{n}, []*P{p}, func(e []*dataEnv) reflect.Value {
		it := sharedItems(e[0], leaf, shape)
		a, b := it[i], it[j]
		switch how {
		case 0:
			return reflect.ValueOf([]interface{}{a.Interface(), b.Interface()})
		case 1:
			// typed, in order
			v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: a.Type()}, {Name: "B", Type: b.Type()}})).Elem()
			v.Field(0).Set(a)
			v.Field(1).Set(b)
			return v
		default:
			return reflect.ValueOf(map[string]interface{}{"a": a.Interface(), "b": b.Interface()})
		}
	})
}

// dataPairs: two references side by side, or one inside a container next to
// another.
func dataPairs(x *X, pkgs []*P) {
	how := x.Choose(5)
	var ns []*dataNode
	var ps []*P
	for i := 0; i < 2; i++ {
		leaf := &dataLeaves[x.Choose(len(dataLeaves))]
		p := pAFoo
		if !leaf.nopkg {
			p = Pick(x, pkgs)
		}
		ns = append(ns, &dataNode{leaf: leaf, t: leaf.static})
		ps = append(ps, p)
	}
	a, b := ns[0].t, ns[1].t
	var t reflect.Type
	switch how {
	case 0:
		t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: a}, {Name: "B", Type: b}, {Name: "C", Type: a}})
	case 1:
		t = reflect.TypeOf([]interface{}{})
	case 2:
		t = reflect.TypeOf(map[string]interface{}{})
	case 3:
		t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PtrTo(a)}, {Name: "B", Type: reflect.SliceOf(b)}})
	case 4:
		if !a.Comparable() {
			x.Skip()
		}
		t = reflect.MapOf(a, b)
		if !hashable(&dataNode{how: 5, child: ns[0]}, ps[0]) {
			x.Skip()
		}
	}
	if how == 1 && (ns[0].leaf.kept || ns[1].leaf.kept) || how == 2 && (ns[0].leaf.kept || ns[1].leaf.kept) {
		x.Skip()
	}
	x.Say("%v of %s and %v of %s in %v", ns[0], ps[0].Path, ns[1], ps[1].Path, t)
	dataCheck(x, ns, ps, func(e []*dataEnv) reflect.Value {
		v := reflect.New(t).Elem()
		va, vb := ns[0].build(e[0]), ns[1].build(e[1])
		switch how {
		case 0:
			v.Field(0).Set(va)
			v.Field(1).Set(vb)
			v.Field(2).Set(va)
		case 1:
			v.Set(reflect.Append(v, va, vb, va))
		case 2:
			v.Set(reflect.MakeMap(t))
			v.SetMapIndex(reflect.ValueOf("b"), va)
			v.SetMapIndex(reflect.ValueOf("a"), vb)
		case 3:
			p := reflect.New(a)
			p.Elem().Set(va)
			v.Field(0).Set(p)
			v.Field(1).Set(reflect.Append(v.Field(1), vb, vb))
		case 4:
			v.Set(reflect.MakeMap(t))
			v.SetMapIndex(va, vb)
		}
		return v
	})
}

type cyclic struct {
	S    gopoet.Symbol
	Self *cyclic
}

func dataCycle(x *X) {
	d := &cyclic{S: Sy{pAFoo, "X"}.Sym()}
	if x.Bool() {
		d.S = gopoet.Symbol{Name: "len"}
	}
	d.Self = d
	x.Op()
	got := gopoet.NewImportsFor(pSelf.Path).QualifyTemplateData(d).(*cyclic)
	x.Saw(got.S.String())
	if d.Self != d {
		x.Fail("the given data was modified")
	}
}

func init() {
	register(&Prop{ID: "C10", Level: "model_checking",
		Rule:   "every kind of reference and plain value (leaf) of every package situation, in every nesting of containers up to the depth bound, all pairs of leaves side by side, and all pairs of data that share memory; compared with an independently built expected value; both in the default and in the purego build",
		Assume: []string{"reflect builds and reads values correctly", "data are acyclic (except in the harness 'cycle') and map keys stay distinct"},
		Harnesses: []*Harness{
			{Name: "nested", Body: func(x *X) { dataNested(x, dataLeaves, depthQT(3, 4)) }},
			{Name: "embedded", Body: func(x *X) { dataNested(x, embLeaves, depthQT(2, 3)) }},
			{Name: "named types", Body: func(x *X) { dataNested(x, namedLeaves, depthQT(2, 3)) }},
			{Name: "pairs", Body: func(x *X) {
				if thorough {
					dataPairs(x, []*P{pAFoo, pCFoo, pSelf, pBFoo})
				} else {
					dataPairs(x, []*P{pAFoo, pCFoo})
				}
			}},
			{Name: "shared", Body: dataShared},
			{Name: "large", Body: dataLarge},
			{Name: "cycle", Single: true, Expect: "cycle", Body: dataCycle},
		}})
}
