package main

// The universe: packages and a boring model of Go types, with builders to the
// representations the library accepts and canonical dumps of everything it
// produces.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

// P is a package of the universe. Real is the name in its package clause; when
// Unknown the library is not told that name.
type P struct {
	Path, Real string
	Unknown    bool
}

func (p *P) Pkg() gopoet.Package {
	if p == nil {
		return gopoet.Package{}
	}
	if p.Unknown {
		return gopoet.Package{ImportPath: p.Path}
	}
	return gopoet.Package{ImportPath: p.Path, Name: p.Real}
}

func (p *P) Given() string { return p.Pkg().Name }

var (
	pSelf   = &P{Path: "ex.com/self", Real: "self"}
	pAFoo   = &P{Path: "ex.com/a/foo", Real: "foo"}
	pBFoo   = &P{Path: "ex.com/b/foo", Real: "foo"}
	pCFoo   = &P{Path: "ex.com/c/foo", Real: "foo"}
	pDFoo1  = &P{Path: "ex.com/d/foo1", Real: "foo1"}
	pBar    = &P{Path: "ex.com/v2/bar-go", Real: "bar"}
	pYaml   = &P{Path: "ex.com/x/yaml.v2", Real: "yaml", Unknown: true}
	pQFoo   = &P{Path: "ex.com/q/foo", Real: "foo", Unknown: true}
	pShort  = &P{Path: "foo", Real: "foo"}
	pOSelf  = &P{Path: "ex.com/other/self", Real: "self"}
	pKw     = &P{Path: "ex.com/z/type", Real: "types", Unknown: true}
	pUnsafe = &P{Path: "unsafe", Real: "unsafe"}
	// its path differs from the file's own package only in letter case and
	// extends it, respectively
	pSub = &P{Path: "ex.com/self/foo", Real: "foo"}
)

var universe = []*P{pAFoo, pBFoo, pCFoo, pDFoo1, pBar, pYaml, pQFoo, pShort, pOSelf, pKw, pSub}

func findP(path string) *P {
	for _, p := range append([]*P{pSelf, pUnsafe}, universe...) {
		if p.Path == path {
			return p
		}
	}
	return nil
}

// Sy is a reference to a named thing; Pkg is nil for predeclared ones.
type Sy struct {
	Pkg  *P
	Name string
}

func (s Sy) Sym() gopoet.Symbol { return gopoet.Symbol{Name: s.Name, Package: s.Pkg.Pkg()} }

type Ar struct {
	Name string
	T    *Ty
}

type Sg struct {
	Args, Results []Ar
	Variadic      bool
}

type Fd struct {
	Name string
	T    *Ty
	Tag  string
}

type Md struct {
	Name string
	Sig  *Sg
}

// Ty is the model of a type.
type Ty struct {
	K       gopoet.TypeKind
	B       reflect.Kind
	S       Sy
	Key     *Ty
	Elem    *Ty
	Len     int64
	Dir     reflect.ChanDir
	Sig     *Sg
	Fields  []Fd
	Embeds  []Sy
	Methods []Md
}

func tyBasic(k reflect.Kind) *Ty { return &Ty{K: gopoet.KindBasic, B: k} }
func tyNamed(p *P, n string) *Ty { return &Ty{K: gopoet.KindNamed, S: Sy{p, n}} }
func tyPtr(t *Ty) *Ty            { return &Ty{K: gopoet.KindPtr, Elem: t} }
func tySlice(t *Ty) *Ty          { return &Ty{K: gopoet.KindSlice, Elem: t} }
func tyArray(t *Ty, n int64) *Ty { return &Ty{K: gopoet.KindArray, Elem: t, Len: n} }
func tyMap(k, v *Ty) *Ty         { return &Ty{K: gopoet.KindMap, Key: k, Elem: v} }
func tyChan(t *Ty, d reflect.ChanDir) *Ty {
	return &Ty{K: gopoet.KindChan, Elem: t, Dir: d}
}
func tyFunc(s *Sg) *Ty     { return &Ty{K: gopoet.KindFunc, Sig: s} }
func tyStruct(f ...Fd) *Ty { return &Ty{K: gopoet.KindStruct, Fields: f} }
func tyIface(embeds []Sy, ms ...Md) *Ty {
	return &Ty{K: gopoet.KindInterface, Embeds: embeds, Methods: ms}
}
func tyFuncAR(args []Ar, results []Ar) *Ty { return tyFunc(&Sg{Args: args, Results: results}) }

var tyInt = tyBasic(reflect.Int)
var tyString = tyBasic(reflect.String)
var tyError = tyNamed(nil, "error")

// ---- builders

func (s *Sg) Signature() *gopoet.Signature {
	r := &gopoet.Signature{IsVariadic: s.Variadic}
	for _, a := range s.Args {
		r.Args = append(r.Args, gopoet.ArgType{Name: a.Name, Type: a.T.TN()})
	}
	for _, a := range s.Results {
		r.Results = append(r.Results, gopoet.ArgType{Name: a.Name, Type: a.T.TN()})
	}
	return r
}

// TN builds the library's representation with its constructors.
func (t *Ty) TN() gopoet.TypeName {
	switch t.K {
	case gopoet.KindBasic:
		return gopoet.BasicType(t.B)
	case gopoet.KindNamed:
		return gopoet.NamedType(t.S.Sym())
	case gopoet.KindPtr:
		return gopoet.PointerType(t.Elem.TN())
	case gopoet.KindSlice:
		return gopoet.SliceType(t.Elem.TN())
	case gopoet.KindArray:
		return gopoet.ArrayType(t.Elem.TN(), t.Len)
	case gopoet.KindMap:
		return gopoet.MapType(t.Key.TN(), t.Elem.TN())
	case gopoet.KindChan:
		return gopoet.ChannelType(t.Elem.TN(), t.Dir)
	case gopoet.KindFunc:
		return gopoet.FuncTypeFromSig(t.Sig.Signature())
	case gopoet.KindStruct:
		var fs []gopoet.FieldType
		for _, f := range t.Fields {
			fs = append(fs, gopoet.FieldType{Name: f.Name, Type: f.T.TN(), Tag: reflect.StructTag(f.Tag)})
		}
		return gopoet.StructType(fs...)
	case gopoet.KindInterface:
		var es []gopoet.Symbol
		for _, e := range t.Embeds {
			es = append(es, e.Sym())
		}
		var ms []gopoet.MethodType
		for _, m := range t.Methods {
			ms = append(ms, gopoet.MethodType{Name: m.Name, Signature: *m.Sig.Signature()})
		}
		return gopoet.InterfaceType(es, ms...)
	}
	panic("bad kind")
}

// GoW is a world of go/types packages and objects.
type GoW struct {
	pkgs map[string]*types.Package
}

func newGoW() *GoW { return &GoW{pkgs: map[string]*types.Package{}} }

func (w *GoW) Pkg(p *P) *types.Package {
	if p == nil {
		return nil
	}
	if p.Path == "unsafe" {
		return types.Unsafe
	}
	g := w.pkgs[p.Path]
	if g == nil {
		g = types.NewPackage(p.Path, p.Real)
		w.pkgs[p.Path] = g
	}
	return g
}

func (w *GoW) Named(s Sy) types.Type {
	if s.Pkg == nil {
		return types.Universe.Lookup(s.Name).Type()
	}
	if s.Pkg.Path == "unsafe" {
		return types.Typ[types.UnsafePointer]
	}
	g := w.Pkg(s.Pkg)
	if o := g.Scope().Lookup(s.Name); o != nil {
		return o.Type()
	}
	tn := types.NewTypeName(token.NoPos, g, s.Name, nil)
	var under types.Type = types.NewStruct(nil, nil)
	if strings.HasPrefix(s.Name, "I") {
		under = types.NewInterfaceType(nil, nil).Complete()
	}
	n := types.NewNamed(tn, under, nil)
	g.Scope().Insert(tn)
	return n
}

var goBasic = map[reflect.Kind]types.BasicKind{
	reflect.Bool: types.Bool, reflect.String: types.String, reflect.Int: types.Int, reflect.Int8: types.Int8, reflect.Int16: types.Int16,
	reflect.Int32: types.Int32, reflect.Int64: types.Int64, reflect.Uint: types.Uint, reflect.Uint8: types.Uint8, reflect.Uint16: types.Uint16,
	reflect.Uint32: types.Uint32, reflect.Uint64: types.Uint64, reflect.Uintptr: types.Uintptr, reflect.Float32: types.Float32,
	reflect.Float64: types.Float64, reflect.Complex64: types.Complex64, reflect.Complex128: types.Complex128,
}

func (w *GoW) tuple(as []Ar) *types.Tuple {
	var vs []*types.Var
	for _, a := range as {
		vs = append(vs, types.NewParam(token.NoPos, w.Pkg(pSelf), a.Name, w.Type(a.T)))
	}
	return types.NewTuple(vs...)
}

func (w *GoW) sig(s *Sg, recv *types.Var) *types.Signature {
	return types.NewSignature(recv, w.tuple(s.Args), w.tuple(s.Results), s.Variadic)
}

// Type builds the go/types representation.
func (w *GoW) Type(t *Ty) types.Type {
	switch t.K {
	case gopoet.KindBasic:
		return types.Typ[goBasic[t.B]]
	case gopoet.KindNamed:
		return w.Named(t.S)
	case gopoet.KindPtr:
		return types.NewPointer(w.Type(t.Elem))
	case gopoet.KindSlice:
		return types.NewSlice(w.Type(t.Elem))
	case gopoet.KindArray:
		return types.NewArray(w.Type(t.Elem), t.Len)
	case gopoet.KindMap:
		return types.NewMap(w.Type(t.Key), w.Type(t.Elem))
	case gopoet.KindChan:
		d := types.SendRecv
		if t.Dir == reflect.SendDir {
			d = types.SendOnly
		} else if t.Dir == reflect.RecvDir {
			d = types.RecvOnly
		}
		return types.NewChan(d, w.Type(t.Elem))
	case gopoet.KindFunc:
		return w.sig(t.Sig, nil)
	case gopoet.KindStruct:
		var fs []*types.Var
		var tags []string
		for _, f := range t.Fields {
			n := f.Name
			if n == "" {
				e := f.T
				if e.K == gopoet.KindPtr {
					e = e.Elem
				}
				n = e.S.Name
				if e.K == gopoet.KindBasic {
					n = e.B.String()
				}
			}
			fs = append(fs, types.NewField(token.NoPos, w.Pkg(pSelf), n, w.Type(f.T), f.Name == ""))
			tags = append(tags, f.Tag)
		}
		return types.NewStruct(fs, tags)
	case gopoet.KindInterface:
		var es []types.Type
		for _, e := range t.Embeds {
			es = append(es, w.Named(e))
		}
		var ms []*types.Func
		for _, m := range t.Methods {
			ms = append(ms, types.NewFunc(token.NoPos, w.Pkg(pSelf), m.Name, w.sig(m.Sig, nil)))
		}
		return types.NewInterfaceType(ms, es).Complete()
	}
	panic("bad kind")
}

// ---- canonical dumps

// dumper says how a reference to a package is written in the canonical form.
type dumper struct {
	pkg  func(path, name string) string
	text bool // apply the documented naming rule for partly named lists
}

// byPath identifies packages by import path only.
func byPath(path, name string) string {
	if path == "" {
		return ""
	}
	return "{" + path + "}"
}

// byBoth identifies packages by import path and the name in the reference.
func byBoth(path, name string) string { return "{" + path + "=" + name + "}" }

func (d dumper) sym(path, name, sym string) string { return d.pkg(path, name) + sym }

func joinArgs(ns, ts []string, text bool) string {
	any := false
	for _, n := range ns {
		any = any || n != ""
	}
	var out []string
	for i := range ts {
		n := ns[i]
		if any && n == "" && text {
			n = "_"
		}
		out = append(out, n+":"+ts[i])
	}
	return "(" + strings.Join(out, ",") + ")"
}

func (d dumper) tySig(s *Sg) string {
	var an, at, rn, rt []string
	for i, a := range s.Args {
		an = append(an, a.Name)
		if s.Variadic && i == len(s.Args)-1 {
			at = append(at, "..."+d.Ty(a.T.Elem))
		} else {
			at = append(at, d.Ty(a.T))
		}
	}
	for _, a := range s.Results {
		rn = append(rn, a.Name)
		rt = append(rt, d.Ty(a.T))
	}
	return joinArgs(an, at, d.text) + joinArgs(rn, rt, d.text)
}

func chanS(dir reflect.ChanDir) string {
	switch dir {
	case reflect.BothDir:
		return "chan"
	case reflect.SendDir:
		return "chan<-"
	case reflect.RecvDir:
		return "<-chan"
	}
	return fmt.Sprintf("chan?%d", dir)
}

// Ty dumps a model type.
func (d dumper) Ty(t *Ty) string {
	switch t.K {
	case gopoet.KindBasic:
		return t.B.String()
	case gopoet.KindNamed:
		return d.sym(t.S.Pkg.Pkg().ImportPath, t.S.Pkg.Given(), t.S.Name)
	case gopoet.KindPtr:
		return "*" + d.Ty(t.Elem)
	case gopoet.KindSlice:
		return "[]" + d.Ty(t.Elem)
	case gopoet.KindArray:
		return fmt.Sprintf("[%d]", t.Len) + d.Ty(t.Elem)
	case gopoet.KindMap:
		return "map[" + d.Ty(t.Key) + "]" + d.Ty(t.Elem)
	case gopoet.KindChan:
		return chanS(t.Dir) + "(" + d.Ty(t.Elem) + ")"
	case gopoet.KindFunc:
		return "func" + d.tySig(t.Sig)
	case gopoet.KindStruct:
		var out []string
		for _, f := range t.Fields {
			out = append(out, f.Name+":"+d.Ty(f.T)+":"+strconv.Quote(f.Tag))
		}
		return "struct{" + strings.Join(out, ";") + "}"
	case gopoet.KindInterface:
		var out []string
		for _, e := range t.Embeds {
			out = append(out, "<"+d.sym(e.Pkg.Pkg().ImportPath, e.Pkg.Given(), e.Name)+">")
		}
		for _, m := range t.Methods {
			out = append(out, m.Name+d.tySig(m.Sig))
		}
		return "interface{" + strings.Join(out, ";") + "}"
	}
	return "?"
}

func (d dumper) Sig(s *gopoet.Signature) string {
	if s == nil {
		return "nil"
	}
	var an, at, rn, rt []string
	for i, a := range s.Args {
		an = append(an, a.Name)
		if s.IsVariadic && i == len(s.Args)-1 {
			at = append(at, "..."+d.TN(a.Type.Elem()))
		} else {
			at = append(at, d.TN(a.Type))
		}
	}
	for _, a := range s.Results {
		rn = append(rn, a.Name)
		rt = append(rt, d.TN(a.Type))
	}
	return joinArgs(an, at, d.text) + joinArgs(rn, rt, d.text)
}

// TN dumps a TypeName through all of its accessors; accessors that do not
// apply to the kind must return their documented zero.
func (d dumper) TN(t gopoet.TypeName) string {
	if t == nil {
		return "nil"
	}
	k := t.Kind()
	bad := ""
	ck := func(applies bool, zero bool, what string) {
		if !applies && !zero {
			bad += "!" + what
		}
	}
	ck(k == gopoet.KindNamed, t.Symbol() == gopoet.Symbol{}, "Symbol")
	ck(k == gopoet.KindPtr || k == gopoet.KindSlice || k == gopoet.KindArray || k == gopoet.KindMap || k == gopoet.KindChan, t.Elem() == nil, "Elem")
	ck(k == gopoet.KindMap, t.Key() == nil, "Key")
	ck(k == gopoet.KindArray, t.Len() == -1, "Len")
	ck(k == gopoet.KindChan, t.Dir() == 0, "Dir")
	ck(k == gopoet.KindBasic, t.BasicKind() == reflect.Invalid, "BasicKind")
	ck(k == gopoet.KindFunc, t.Signature() == nil, "Signature")
	ck(k == gopoet.KindStruct, t.Fields() == nil, "Fields")
	ck(k == gopoet.KindInterface, t.Methods() == nil, "Methods")
	ck(k == gopoet.KindInterface, t.Embeds() == nil, "Embeds")
	switch k {
	case gopoet.KindBasic:
		return bad + t.BasicKind().String()
	case gopoet.KindNamed:
		s := t.Symbol()
		return bad + d.sym(s.Package.ImportPath, s.Package.Name, s.Name)
	case gopoet.KindPtr:
		return bad + "*" + d.TN(t.Elem())
	case gopoet.KindSlice:
		return bad + "[]" + d.TN(t.Elem())
	case gopoet.KindArray:
		return bad + fmt.Sprintf("[%d]", t.Len()) + d.TN(t.Elem())
	case gopoet.KindMap:
		return bad + "map[" + d.TN(t.Key()) + "]" + d.TN(t.Elem())
	case gopoet.KindChan:
		return bad + chanS(t.Dir()) + "(" + d.TN(t.Elem()) + ")"
	case gopoet.KindFunc:
		return bad + "func" + d.Sig(t.Signature())
	case gopoet.KindStruct:
		var out []string
		for _, f := range t.Fields() {
			out = append(out, f.Name+":"+d.TN(f.Type)+":"+strconv.Quote(string(f.Tag)))
		}
		return bad + "struct{" + strings.Join(out, ";") + "}"
	case gopoet.KindInterface:
		var out []string
		for _, e := range t.Embeds() {
			out = append(out, "<"+d.sym(e.Package.ImportPath, e.Package.Name, e.Name)+">")
		}
		for _, m := range t.Methods() {
			s := m.Signature
			out = append(out, m.Name+d.Sig(&s))
		}
		return bad + "interface{" + strings.Join(out, ";") + "}"
	}
	return fmt.Sprintf("%s?kind%d", bad, k)
}

// resolver turns the qualifier of a reference ("" when there is none) and its
// name into a canonical reference.
type resolver func(qual, name string) string

var predeclared = map[string]string{"byte": "uint8", "rune": "int32"}

// fieldList dumps parameters; names are expanded.
func (r resolver) params(fl *ast.FieldList) (string, bool) {
	var ns, ts []string
	variadic := false
	if fl != nil {
		for _, f := range fl.List {
			t := ""
			if e, ok := f.Type.(*ast.Ellipsis); ok {
				t = "..." + r.Expr(e.Elt)
				variadic = true
			} else {
				t = r.Expr(f.Type)
			}
			if len(f.Names) == 0 {
				ns, ts = append(ns, ""), append(ts, t)
			}
			for _, n := range f.Names {
				ns, ts = append(ns, n.Name), append(ts, t)
			}
		}
	}
	return joinArgs(ns, ts, false), variadic
}

func (r resolver) FuncType(t *ast.FuncType) string {
	a, _ := r.params(t.Params)
	b, _ := r.params(t.Results)
	if t.TypeParams != nil {
		a = "TYPEPARAMS" + a
	}
	return a + b
}

func isBasicName(n string) bool {
	o, _ := types.Universe.Lookup(n).(*types.TypeName)
	if o == nil {
		return false
	}
	_, ok := o.Type().(*types.Basic)
	return ok
}

// Expr dumps a type expression of the source text.
func (r resolver) Expr(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		n := e.Name
		if c := predeclared[n]; c != "" {
			return c
		}
		if isBasicName(n) {
			return n
		}
		return r("", n)
	case *ast.SelectorExpr:
		q, ok := e.X.(*ast.Ident)
		if !ok {
			return fmt.Sprintf("BADSELECTOR %T", e.X)
		}
		return r(q.Name, e.Sel.Name)
	case *ast.ParenExpr:
		return r.Expr(e.X)
	case *ast.StarExpr:
		return "*" + r.Expr(e.X)
	case *ast.ArrayType:
		if e.Len == nil {
			return "[]" + r.Expr(e.Elt)
		}
		l, ok := e.Len.(*ast.BasicLit)
		if !ok {
			return "[BADLEN]"
		}
		return "[" + l.Value + "]" + r.Expr(e.Elt)
	case *ast.MapType:
		return "map[" + r.Expr(e.Key) + "]" + r.Expr(e.Value)
	case *ast.ChanType:
		d := reflect.BothDir
		if e.Dir == ast.SEND {
			d = reflect.SendDir
		} else if e.Dir == ast.RECV {
			d = reflect.RecvDir
		}
		return chanS(d) + "(" + r.Expr(e.Value) + ")"
	case *ast.FuncType:
		return "func" + r.FuncType(e)
	case *ast.StructType:
		var out []string
		for _, f := range e.Fields.List {
			tag := ""
			if f.Tag != nil {
				var err error
				tag, err = strconv.Unquote(f.Tag.Value)
				if err != nil {
					tag = "BADTAG " + f.Tag.Value
				}
			}
			t := ":" + r.Expr(f.Type) + ":" + strconv.Quote(tag)
			if len(f.Names) == 0 {
				out = append(out, t)
			}
			for _, n := range f.Names {
				out = append(out, n.Name+t)
			}
		}
		return "struct{" + strings.Join(out, ";") + "}"
	case *ast.InterfaceType:
		var out []string
		for _, f := range e.Methods.List {
			if len(f.Names) == 0 {
				out = append(out, "<"+r.Expr(f.Type)+">")
				continue
			}
			for _, n := range f.Names {
				ft, ok := f.Type.(*ast.FuncType)
				if !ok {
					out = append(out, "BADMETHOD")
					continue
				}
				out = append(out, n.Name+r.FuncType(ft))
			}
		}
		return "interface{" + strings.Join(out, ";") + "}"
	}
	return fmt.Sprintf("?%T", e)
}

// parseType parses the text of one type and nothing else.
func parseType(s string) (ast.Expr, error) {
	// as the operand of a conversion of a call, after which text can not
	// continue the type
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package p\ntype X = "+s+"\n", parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	if len(f.Decls) != 1 {
		return nil, fmt.Errorf("%d declarations", len(f.Decls))
	}
	g := f.Decls[0].(*ast.GenDecl)
	if len(g.Specs) != 1 {
		return nil, fmt.Errorf("%d specs", len(g.Specs))
	}
	return g.Specs[0].(*ast.TypeSpec).Type, nil
}

// pkgsOf lists the foreign packages that a type references.
func pkgsOf(t *Ty) []*P {
	var out []*P
	add := func(p *P) {
		if p == nil || p == pSelf {
			return
		}
		for _, q := range out {
			if q == p {
				return
			}
		}
		out = append(out, p)
	}
	var walk func(t *Ty)
	walkSig := func(s *Sg) {
		for _, a := range s.Args {
			walk(a.T)
		}
		for _, a := range s.Results {
			walk(a.T)
		}
	}
	walk = func(t *Ty) {
		if t == nil {
			return
		}
		if t.K == gopoet.KindNamed {
			add(t.S.Pkg)
		}
		walk(t.Key)
		walk(t.Elem)
		if t.Sig != nil {
			walkSig(t.Sig)
		}
		for _, f := range t.Fields {
			walk(f.T)
		}
		for _, e := range t.Embeds {
			add(e.Pkg)
		}
		for _, m := range t.Methods {
			walkSig(m.Sig)
		}
	}
	walk(t)
	return out
}

// ---- type generators

// tyCtx is a type with a hole.
type tyCtx struct {
	name string
	f    func(t *Ty) *Ty // nil result: the hole cannot be filled with this
}

func comparable_(t *Ty) bool {
	switch t.K {
	case gopoet.KindSlice, gopoet.KindMap, gopoet.KindFunc:
		return false
	case gopoet.KindArray:
		return comparable_(t.Elem)
	case gopoet.KindStruct:
		for _, f := range t.Fields {
			if !comparable_(f.T) {
				return false
			}
		}
	}
	return true
}

func embeddable(t *Ty) bool {
	if t.K == gopoet.KindNamed {
		return t.S.Pkg == nil || t.S.Pkg.Path != "unsafe"
	}
	return t.K == gopoet.KindPtr && t.Elem.K == gopoet.KindNamed && t.Elem.S.Pkg != nil && t.Elem.S.Pkg.Path != "unsafe" && !strings.HasPrefix(t.Elem.S.Name, "I")
}

func ar(n string, t *Ty) Ar { return Ar{Name: n, T: t} }

var tyCtxs = []tyCtx{
	{"ptr", tyPtr},
	{"slice", tySlice},
	{"array0", func(t *Ty) *Ty { return tyArray(t, 0) }},
	{"arraybig", func(t *Ty) *Ty { return tyArray(t, 1<<40+7) }},
	{"array12", func(t *Ty) *Ty { return tyArray(t, 12) }},
	{"mapkey", func(t *Ty) *Ty {
		if !comparable_(t) {
			return nil
		}
		return tyMap(t, tyInt)
	}},
	{"mapval", func(t *Ty) *Ty { return tyMap(tyString, t) }},
	{"chan", func(t *Ty) *Ty { return tyChan(t, reflect.BothDir) }},
	{"send", func(t *Ty) *Ty { return tyChan(t, reflect.SendDir) }},
	{"recv", func(t *Ty) *Ty { return tyChan(t, reflect.RecvDir) }},
	{"arg", func(t *Ty) *Ty { return tyFuncAR([]Ar{ar("", t)}, nil) }},
	{"namedarg", func(t *Ty) *Ty { return tyFuncAR([]Ar{ar("a", t)}, nil) }},
	{"blankarg", func(t *Ty) *Ty { return tyFuncAR([]Ar{ar("a", tyInt), ar("", t)}, nil) }},
	{"blankarg1", func(t *Ty) *Ty { return tyFuncAR([]Ar{ar("", t), ar("b", tyString)}, nil) }},
	{"arg2", func(t *Ty) *Ty { return tyFuncAR([]Ar{ar("", tyInt), ar("", t)}, nil) }},
	{"sametypeargs", func(t *Ty) *Ty { return tyFuncAR([]Ar{ar("a", t), ar("b", t)}, nil) }},
	{"variadic", func(t *Ty) *Ty { return tyFunc(&Sg{Args: []Ar{ar("", tySlice(t))}, Variadic: true}) }},
	{"namedvariadic", func(t *Ty) *Ty {
		return tyFunc(&Sg{Args: []Ar{ar("f", tyString), ar("a", tySlice(t))}, Variadic: true})
	}},
	{"blankvariadic", func(t *Ty) *Ty {
		return tyFunc(&Sg{Args: []Ar{ar("f", tySlice(tyString)), ar("", tySlice(t))}, Variadic: true})
	}},
	{"slicearg", func(t *Ty) *Ty { return tyFuncAR([]Ar{ar("", tySlice(t))}, []Ar{ar("", t)}) }},
	{"result", func(t *Ty) *Ty { return tyFuncAR(nil, []Ar{ar("", t)}) }},
	{"namedresult", func(t *Ty) *Ty { return tyFuncAR(nil, []Ar{ar("r", t)}) }},
	{"result1of2", func(t *Ty) *Ty { return tyFuncAR(nil, []Ar{ar("", t), ar("", tyError)}) }},
	{"result2of2", func(t *Ty) *Ty { return tyFuncAR(nil, []Ar{ar("", tyInt), ar("", t)}) }},
	{"mixedresult", func(t *Ty) *Ty { return tyFuncAR(nil, []Ar{ar("n", tyInt), ar("", t)}) }},
	{"argsandresults", func(t *Ty) *Ty {
		return tyFunc(&Sg{Args: []Ar{ar("", t), ar("v", tySlice(tyInt))}, Results: []Ar{ar("", t), ar("err", tyError)}, Variadic: true})
	}},
	{"field", func(t *Ty) *Ty { return tyStruct(Fd{"A", t, ""}) }},
	{"field2", func(t *Ty) *Ty { return tyStruct(Fd{"a", tyInt, ""}, Fd{"B", t, ""}) }},
	{"fieldsame", func(t *Ty) *Ty { return tyStruct(Fd{"A", t, ""}, Fd{"B", t, ""}) }},
	{"tagged", func(t *Ty) *Ty { return tyStruct(Fd{"A", t, `json:"a"`}, Fd{"B", tyInt, ""}) }},
	{"backquotetag", func(t *Ty) *Ty { return tyStruct(Fd{"A", t, "a`b\\ \"c\""}, Fd{"B", tyInt, "x\ty\n"}) }},
	{"oddtag", func(t *Ty) *Ty { return tyStruct(Fd{"A", t, "a\r\"b\""}, Fd{"B", tyInt, "\xffé\u2028 "}) }},
	{"embedded", func(t *Ty) *Ty {
		if !embeddable(t) {
			return nil
		}
		return tyStruct(Fd{"", t, ""}, Fd{"Zz", tyInt, ""})
	}},
	{"embeddedtagged", func(t *Ty) *Ty {
		if !embeddable(t) {
			return nil
		}
		return tyStruct(Fd{"Zz", tyInt, ""}, Fd{"", t, "t"})
	}},
	{"methodarg", func(t *Ty) *Ty { return tyIface(nil, Md{"M", &Sg{Args: []Ar{ar("", t)}}}) }},
	{"methodvariadic", func(t *Ty) *Ty {
		return tyIface(nil, Md{"M", &Sg{Args: []Ar{ar("x", tySlice(t))}, Variadic: true}})
	}},
	{"methodresult", func(t *Ty) *Ty {
		return tyIface(nil, Md{"A", &Sg{}}, Md{"B", &Sg{Results: []Ar{ar("", t)}}})
	}},
	{"embedandmethod", func(t *Ty) *Ty {
		return tyIface([]Sy{{nil, "error"}}, Md{"N", &Sg{Args: []Ar{ar("p", t)}, Results: []Ar{ar("", t)}}})
	}},
	{"iembed", func(t *Ty) *Ty {
		if t.K != gopoet.KindNamed || !(t.S.Name == "error" || strings.HasPrefix(t.S.Name, "I")) {
			return nil
		}
		return tyIface([]Sy{t.S})
	}},
	{"iembed2", func(t *Ty) *Ty {
		if t.K != gopoet.KindNamed || !strings.HasPrefix(t.S.Name, "I") {
			return nil
		}
		return tyIface([]Sy{{nil, "error"}, t.S}, Md{"M", &Sg{}}, Md{"N", &Sg{}})
	}},
}

// genTy generates a chain of up to depth contexts around a leaf.
func genTy(x *X, depth int, leaves []*Ty) *Ty {
	n := x.Choose(depth + 1)
	t := leaves[x.Choose(len(leaves))]
	for i := 0; i < n; i++ {
		c := tyCtxs[x.Choose(len(tyCtxs))]
		t = c.f(t)
		if t == nil {
			x.Skip()
		}
	}
	return t
}

var allBasics = []reflect.Kind{reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128}

// stdLeaves: leaves that distinguish local, predeclared and foreign names.
func stdLeaves() []*Ty {
	return []*Ty{tyInt, tyBasic(reflect.Uint8), tyBasic(reflect.Int32), tyError, tyNamed(pSelf, "T"), tyNamed(pAFoo, "T"), tyNamed(pAFoo, "I"), tyNamed(pBFoo, "T"), tyNamed(pUnsafe, "Pointer"), tyStruct(), tyIface(nil), tyFunc(&Sg{})}
}

// genWide generates signatures, structs and interfaces with several members.
func genWide(x *X, max int, leaves []*Ty) *Ty {
	leaf := func() *Ty { return Pick(x, leaves) }
	ars := func(pfx string, n int) []Ar {
		var out []Ar
		for i := 0; i < n; i++ {
			nm := ""
			if x.Bool() {
				nm = fmt.Sprintf("%s%d", pfx, i)
			}
			out = append(out, ar(nm, leaf()))
		}
		return out
	}
	sig := func(max int) *Sg {
		s := &Sg{Args: ars("a", x.Choose(max+1)), Results: ars("r", x.Choose(max+1))}
		if n := len(s.Args); n > 0 && x.Bool() {
			s.Variadic = true
			s.Args[n-1].T = tySlice(s.Args[n-1].T)
		}
		return s
	}
	switch x.Choose(3) {
	case 0:
		return tyFunc(sig(max))
	case 1:
		n := x.Choose(max + 2)
		var fs []Fd
		for i := 0; i < n; i++ {
			f := Fd{T: leaf()}
			switch x.Choose(3) {
			case 0:
				f.Name = fmt.Sprintf("F%d", i)
			case 1:
				f.Name = fmt.Sprintf("f%d", i)
				f.Tag = []string{`a:"b"`, "`"}[i%2]
			default:
				if !embeddable(f.T) {
					x.Skip()
				}
				for _, g := range fs {
					if g.Name == "" {
						x.Skip()
					}
				}
			}
			fs = append(fs, f)
		}
		return tyStruct(fs...)
	default:
		es := [][]Sy{nil, {{pAFoo, "I"}}, {{pSelf, "I"}, {pBFoo, "I"}}, {{nil, "error"}}, {{pAFoo, "I"}, {pAFoo, "I"}}, {{nil, "error"}, {pBFoo, "J"}, {nil, "error"}}}[x.Choose(6)]
		n := x.Choose(3)
		var ms []Md
		for i := 0; i < n; i++ {
			ms = append(ms, Md{fmt.Sprintf("M%d", i), sig(1)})
		}
		return tyIface(es, ms...)
	}
}
