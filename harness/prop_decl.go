package main

// C08: a rendered file declares exactly what was modelled. A mirror model is
// generated, built with the library, and compared with what parsing the output
// finds.

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/scanner"
	"go/token"
	"io"
	"reflect"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

type mSpec struct {
	comment string
	names   []string
	typ     *mType // nil: none
	init    string // code, "" none
	alias   bool
	via     bool // the type is made from an unnamed spec
}

type mField struct {
	comment, name, tag string
	typ                *mType
}

type mElem struct {
	comment string
	embed   *Sy
	name    string
	sig     *Sg
}

// mType is either a plain type or an unnamed (or defined) struct or interface
// with field specs or interface elements.
type mType struct {
	t      *Ty
	fields []mField
	elems  []mElem
	kind   int // 0 plain, 1 struct spec, 2 interface spec, 3 named spec, 4 plain, made through an unnamed spec
	name   string
}

type mDecl struct {
	kind    int // 0 const, 1 var, 2 type, 3 func
	comment string
	specs   []mSpec
	how     int // how specs are added: 0 AddX, 1 NewXDecl(...), 2 file.AddX

	name string
	recv *gopoet.ReceiverSpec
	sig  *Sg
	body []string
}

type mFile struct {
	fileComment, pkgComment, canonical, pkg string
	decls                                   []mDecl
	lit                                     int // 0 by constructors, 1 by composite literals, 2 by assignments once they are in the file, 3 and 4 by completing them there (4: after a rendering)
}

func plain(t *Ty) *mType { return &mType{t: t} }

// ---- building

func (t *mType) spec(name string) *gopoet.TypeSpec {
	switch t.kind {
	case 1:
		var fs []*gopoet.FieldSpec
		for _, f := range t.fields {
			g := gopoet.NewField(f.name, f.typ.build()).SetComment(f.comment)
			if f.tag != "" {
				g.SetTag(f.tag)
			}
			fs = append(fs, g)
		}
		return gopoet.NewStructTypeSpec(name, fs...)
	case 2:
		var es []gopoet.InterfaceElement
		for _, e := range t.elems {
			if e.embed != nil {
				es = append(es, gopoet.NewInterfaceEmbed(e.embed.Sym()).SetComment(e.comment))
				continue
			}
			m := gopoet.NewInterfaceMethod(e.name).SetComment(e.comment)
			for _, a := range e.sig.Args {
				m.AddArg(a.Name, a.T.TN())
			}
			for _, a := range e.sig.Results {
				m.AddResult(a.Name, a.T.TN())
			}
			es = append(es, m.SetVariadic(e.sig.Variadic))
		}
		return gopoet.NewInterfaceTypeSpec(name, es...)
	case 3:
		ts := gopoet.NewTypeSpec(t.name, gopoet.IntType)
		gopoet.NewGoFile("other.go", pSelf.Path, "self").AddType(ts)
		return ts
	case 4:
		return gopoet.NewTypeSpec(name, gopoet.NewTypeSpec("", t.t.TN()))
	}
	return gopoet.NewTypeSpec(name, t.t.TN())
}

func (t *mType) build() gopoet.TypeNameOrSpec {
	if t.kind == 0 {
		return t.t.TN()
	}
	return t.spec("")
}

func (d *mDecl) build() gopoet.FileElement {
	switch d.kind {
	case 0:
		g := gopoet.NewConstDecl().SetComment(d.comment)
		var all []*gopoet.ConstSpec
		for _, s := range d.specs {
			c := gopoet.NewConst(s.names...).SetComment(s.comment)
			if s.typ != nil {
				c.SetType(s.typ.build())
			}
			if s.init != "" {
				c.Initialize("%s", s.init)
			}
			all = append(all, c)
		}
		if d.how == 1 {
			g = gopoet.NewConstDecl(all...).SetComment(d.comment)
		} else {
			for _, c := range all {
				g.AddConst(c)
			}
		}
		return g
	case 1:
		g := gopoet.NewVarDecl().SetComment(d.comment)
		var all []*gopoet.VarSpec
		for _, s := range d.specs {
			c := gopoet.NewVar(s.names...).SetComment(s.comment)
			if s.typ != nil {
				c.SetType(s.typ.build())
			}
			if s.init != "" {
				c.SetInitializer(gopoet.Print(s.init))
			}
			all = append(all, c)
		}
		if d.how == 1 {
			g = gopoet.NewVarDecl(all...).SetComment(d.comment)
		} else {
			for _, c := range all {
				g.AddVar(c)
			}
		}
		return g
	case 2:
		g := gopoet.NewTypeDecl().SetComment(d.comment)
		var all []*gopoet.TypeSpec
		for _, s := range d.specs {
			var ts *gopoet.TypeSpec
			if s.alias {
				ts = gopoet.NewTypeAlias(s.names[0], s.typ.build())
			} else if s.typ.kind == 3 || s.via {
				ts = gopoet.NewTypeSpec(s.names[0], s.typ.build())
			} else {
				ts = s.typ.spec(s.names[0])
			}
			all = append(all, ts.SetComment(s.comment))
		}
		if d.how == 1 {
			g = gopoet.NewTypeDecl(all...).SetComment(d.comment)
		} else {
			for _, c := range all {
				g.AddType(c)
			}
		}
		return g
	}
	var f *gopoet.FuncSpec
	if d.recv != nil {
		f = gopoet.NewMethod(d.recv, d.name)
	} else {
		f = gopoet.NewFunc(d.name)
	}
	f.SetComment(d.comment)
	for _, a := range d.sig.Args {
		f.AddArg(a.Name, a.T.TN())
	}
	for _, a := range d.sig.Results {
		f.AddResult(a.Name, a.T.TN())
	}
	f.SetVariadic(d.sig.Variadic)
	for _, l := range d.body {
		f.Println(l)
	}
	return f
}

// literal is the spec made with as few constructors as possible.
func (t *mType) literal(name string) *gopoet.TypeSpec {
	typ := func(t *mType) gopoet.TypeNameOrSpec {
		if t.kind == 0 {
			return t.t.TN()
		}
		return t.literal("")
	}
	switch t.kind {
	case 1:
		var fs []*gopoet.FieldSpec
		for _, f := range t.fields {
			fs = append(fs, &gopoet.FieldSpec{Comment: f.comment, Name: f.name, Tag: reflect.StructTag(f.tag), Type: typ(f.typ)})
		}
		return gopoet.NewStructTypeSpec(name, fs...)
	case 2:
		var es []gopoet.InterfaceElement
		for _, e := range t.elems {
			if e.embed != nil {
				es = append(es, &gopoet.InterfaceEmbed{Comment: e.comment, Type: e.embed.Sym()})
				continue
			}
			es = append(es, &gopoet.InterfaceMethod{Comment: e.comment, Name: e.name, Signature: gopoet.Signature{Args: mArgs(e.sig.Args), Results: mArgs(e.sig.Results), IsVariadic: e.sig.Variadic}})
		}
		return gopoet.NewInterfaceTypeSpec(name, es...)
	}
	return t.spec(name)
}

func mArgs(as []Ar) []gopoet.ArgType {
	var out []gopoet.ArgType
	for _, a := range as {
		out = append(out, gopoet.ArgType{Name: a.Name, Type: a.T.TN()})
	}
	return out
}

// literal builds the file from composite literals, or by assignments to the
// fields of elements that are in the file already.
func (m *mFile) literal() *gopoet.GoFile {
	var f *gopoet.GoFile
	if m.lit == 2 {
		f = gopoet.NewGoFile("f.go", pSelf.Path, "x")
		f.PackageName = m.pkg
	} else {
		f = &gopoet.GoFile{Imports: *gopoet.NewImportsFor(pSelf.Path), Name: "f.go", PackageName: m.pkg}
	}
	f.FileComment, f.PackageComment, f.CanonicalImportPath = m.fileComment, m.pkgComment, m.canonical
	typ := func(t *mType) gopoet.TypeNameOrSpec {
		switch {
		case t == nil:
			return nil
		case t.kind == 0:
			return t.t.TN()
		}
		return t.literal("")
	}
	body := func(ls ...string) *gopoet.CodeBlock {
		if len(ls) == 0 {
			return nil
		}
		b := gopoet.CodeBlock{}
		for i, l := range ls {
			if i == len(ls)-1 {
				b.Print(l)
			} else {
				b.Println(l)
			}
		}
		return &b
	}
	for i := range m.decls {
		d := &m.decls[i]
		var fill func(lo, hi int)
		var e gopoet.FileElement
		switch d.kind {
		case 0:
			g := &gopoet.ConstDecl{}
			fill = func(lo, hi int) {
				if g.Comment = ""; hi == len(d.specs) {
					g.Comment = d.comment
				}
				for _, s := range d.specs[lo:hi] {
					c := &gopoet.ConstSpec{Comment: s.comment, Names: s.names, Type: typ(s.typ)}
					if s.init != "" {
						c.Initializer = body(s.init)
					}
					g.Consts = append(g.Consts, c)
				}
			}
			e = g
		case 1:
			g := &gopoet.VarDecl{}
			fill = func(lo, hi int) {
				if g.Comment = ""; hi == len(d.specs) {
					g.Comment = d.comment
				}
				for _, s := range d.specs[lo:hi] {
					c := &gopoet.VarSpec{Comment: s.comment, Names: s.names, Type: typ(s.typ)}
					if s.init != "" {
						c.Initializer = body(s.init)
					}
					g.Vars = append(g.Vars, c)
				}
			}
			e = g
		case 2:
			g := &gopoet.TypeDecl{}
			fill = func(lo, hi int) {
				if g.Comment = ""; hi == len(d.specs) {
					g.Comment = d.comment
				}
				for _, s := range d.specs[lo:hi] {
					var ts *gopoet.TypeSpec
					if s.alias {
						ts = gopoet.NewTypeAlias("tmp", typ(s.typ))
					} else if s.typ.kind == 3 || s.via {
						ts = gopoet.NewTypeSpec("tmp", typ(s.typ))
					} else {
						ts = s.typ.literal("tmp")
					}
					ts.Name, ts.Comment = s.names[0], s.comment
					g.Types = append(g.Types, ts)
				}
			}
			e = g
		default:
			g := &gopoet.FuncSpec{}
			fill = func(lo, hi int) {
				if lo == 0 {
					g.Name = d.name
					for _, l := range d.body {
						g.CodeBlock.Println(l)
					}
				}
				if hi == 1 {
					return
				}
				g.Comment = d.comment
				if d.recv != nil {
					g.Receiver = &gopoet.ReceiverSpec{Name: d.recv.Name, Type: d.recv.Type, IsPointer: d.recv.IsPointer}
				}
				g.Signature = gopoet.Signature{Args: mArgs(d.sig.Args), Results: mArgs(d.sig.Results), IsVariadic: d.sig.Variadic}
			}
			e = g
		}
		n, part := len(d.specs), 1
		if d.kind > 2 {
			n = 2 // the name and the body, and then the rest
		}
		switch m.lit {
		case 1:
			fill(0, n)
			f.AddElement(e)
		case 2:
			f.AddElement(e)
			fill(0, n)
		default:
			fill(0, part)
			f.AddElement(e)
			if m.lit == 4 {
				gopoet.WriteGoFile(io.Discard, f) // invalid, possibly: a function's parameters are missing
			}
			fill(part, n)
		}
	}
	return f
}

func (m *mFile) build() *gopoet.GoFile {
	if m.lit > 0 {
		return m.literal()
	}
	f := gopoet.NewGoFile("f.go", pSelf.Path, m.pkg)
	f.FileComment, f.PackageComment, f.CanonicalImportPath = m.fileComment, m.pkgComment, m.canonical
	for i := range m.decls {
		e := m.decls[i].build()
		if m.decls[i].how == 2 {
			switch e := e.(type) {
			case *gopoet.ConstDecl:
				f.AddConst(e.Consts[0])
				continue
			case *gopoet.VarDecl:
				f.AddVar(e.Vars[0])
				continue
			case *gopoet.TypeDecl:
				f.AddType(e.Types[0])
				continue
			}
		}
		f.AddElement(e)
	}
	return f
}

// ---- canonical form of the model

func cm(s string) string {
	if s == "" {
		return ""
	}
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.TrimSpace(ls[i])
	}
	return "//" + strings.Join(ls, "/")
}

// byResolved: references in the output are resolved through its imports.
var modelDump = dumper{pkg: func(path, name string) string {
	if path == pSelf.Path {
		path = ""
	}
	return "{" + path + "}"
}, text: true}

func (t *mType) dump() string {
	switch t.kind {
	case 1:
		var out []string
		for _, f := range t.fields {
			out = append(out, cm(f.comment)+f.name+":"+f.typ.dump()+":"+strconv.Quote(f.tag))
		}
		return "struct{" + strings.Join(out, ";") + "}"
	case 2:
		var out []string
		for _, e := range t.elems {
			if e.embed != nil {
				out = append(out, cm(e.comment)+"<"+modelDump.sym(e.embed.Pkg.Pkg().ImportPath, "", e.embed.Name)+">")
			} else {
				out = append(out, cm(e.comment)+e.name+modelDump.tySig(e.sig))
			}
		}
		return "interface{" + strings.Join(out, ";") + "}"
	case 3:
		return "{}" + t.name
	}
	return modelDump.Ty(t.t)
}

func (m *mFile) dump() []string {
	out := []string{"file " + cm(m.fileComment), "doc " + cm(m.pkgComment), "package " + m.pkg + " import " + m.canonical}
	for _, d := range m.decls {
		if d.kind == 3 {
			r := ""
			if d.recv != nil {
				r = d.recv.Name + ":"
				if d.recv.IsPointer {
					r += "*"
				}
				r += "{}" + d.recv.Type
			}
			out = append(out, "func "+cm(d.comment)+"("+r+")"+d.name+modelDump.tySig(d.sig)+"{"+toks(strings.Join(d.body, "\n"))+"}")
			continue
		}
		// one spec without a comment on the declaration is not parenthesized
		group := len(d.specs) > 1 || d.comment != ""
		out = append(out, fmt.Sprintf("decl %s group=%v %s", []string{"const", "var", "type"}[d.kind], group, cm(d.comment)))
		for _, s := range d.specs {
			t := ""
			if s.typ != nil {
				t = s.typ.dump()
			}
			out = append(out, fmt.Sprintf("  %s %s alias=%v %s = %s", cm(s.comment), strings.Join(s.names, ","), s.alias, t, toks(s.init)))
		}
	}
	return out
}

// toks is the sequence of tokens of source text, with comments.
func toks(src string) string {
	var s scanner.Scanner
	fset := token.NewFileSet()
	s.Init(fset.AddFile("", -1, len(src)), []byte(src), nil, scanner.ScanComments)
	var out []string
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON {
			lit = ""
			if len(out) == 0 || out[len(out)-1] == ";" {
				continue
			}
		}
		if lit == "" {
			lit = t.String()
		}
		out = append(out, lit)
	}
	for len(out) > 0 && out[len(out)-1] == ";" {
		out = out[:len(out)-1]
	}
	return strings.Join(out, " ")
}

// ---- canonical form of the output

func cgText(g *ast.CommentGroup) string {
	if g == nil {
		return ""
	}
	var ls []string
	for _, c := range g.List {
		ls = append(ls, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
	}
	return "//" + strings.Join(ls, "/")
}

type outDump struct {
	x    *X
	src  string
	fset *token.FileSet
	r    resolver
	used map[*ast.CommentGroup]bool
}

func (o *outDump) doc(g *ast.CommentGroup) string {
	if g != nil {
		o.used[g] = true
	}
	return cgText(g)
}

func (o *outDump) typ(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.StructType:
		var out []string
		for _, f := range e.Fields.List {
			tag := ""
			if f.Tag != nil {
				tag, _ = strconv.Unquote(f.Tag.Value)
			}
			t := ":" + o.typ(f.Type) + ":" + strconv.Quote(tag)
			d := o.doc(f.Doc)
			if len(f.Names) == 0 {
				out = append(out, d+t)
			}
			for _, n := range f.Names {
				out = append(out, d+n.Name+t)
			}
		}
		return "struct{" + strings.Join(out, ";") + "}"
	case *ast.InterfaceType:
		var out []string
		for _, f := range e.Methods.List {
			d := o.doc(f.Doc)
			if len(f.Names) == 0 {
				out = append(out, d+"<"+o.r.Expr(f.Type)+">")
			}
			for _, n := range f.Names {
				out = append(out, d+n.Name+o.r.FuncType(f.Type.(*ast.FuncType)))
			}
		}
		return "interface{" + strings.Join(out, ";") + "}"
	}
	return o.r.Expr(e)
}

func (o *outDump) text(from, to token.Pos) string {
	return o.src[o.fset.Position(from).Offset:o.fset.Position(to).Offset]
}

func dumpFile(x *X, src string) []string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		x.Fail("the file does not parse: %v\n%s", err, src)
	}
	names := map[string]string{}
	for _, s := range importsOf(f) {
		n := s.PackageAlias
		if n == "" {
			n = findP(s.ImportPath).Real
		}
		names[n] = s.ImportPath
	}
	o := &outDump{x: x, src: src, fset: fset, used: map[*ast.CommentGroup]bool{}}
	o.r = func(q, n string) string {
		if q == "" {
			return "{}" + n
		}
		p, ok := names[q]
		if !ok {
			p = "UNRESOLVED " + q
		}
		return "{" + p + "}" + n
	}
	var out []string
	pkgLine := fset.Position(f.Package).Line
	fileC, canon := "", ""
	for _, g := range f.Comments {
		if g.End() < f.Package && g != f.Doc {
			fileC += cgText(g)
			o.used[g] = true
		}
		if fset.Position(g.Pos()).Line == pkgLine {
			o.used[g] = true
			if c, ok := strings.CutPrefix(g.List[0].Text, "// import "); ok {
				canon, _ = strconv.Unquote(c)
			}
		}
	}
	out = append(out, "file "+fileC, "doc "+o.doc(f.Doc), "package "+f.Name.Name+" import "+canon)
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			group := d.Lparen.IsValid()
			gd := o.doc(d.Doc)
			if !group {
				out = append(out, fmt.Sprintf("decl %s group=%v ", d.Tok, group))
			} else {
				out = append(out, fmt.Sprintf("decl %s group=%v %s", d.Tok, group, gd))
				gd = ""
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					var ns []string
					for _, n := range s.Names {
						ns = append(ns, n.Name)
					}
					t := ""
					if s.Type != nil {
						t = o.typ(s.Type)
					}
					v := ""
					if len(s.Values) > 0 {
						v = toks(o.text(s.Values[0].Pos(), s.Values[len(s.Values)-1].End()))
					}
					out = append(out, fmt.Sprintf("  %s %s alias=%v %s = %s", gd+o.doc(s.Doc), strings.Join(ns, ","), false, t, v))
				case *ast.TypeSpec:
					out = append(out, fmt.Sprintf("  %s %s alias=%v %s = ", gd+o.doc(s.Doc), s.Name.Name, s.Assign.IsValid(), o.typ(s.Type)))
				}
			}
		case *ast.FuncDecl:
			r := ""
			if d.Recv != nil {
				for _, f := range d.Recv.List {
					n := ""
					if len(f.Names) > 0 {
						n = f.Names[0].Name
					}
					r += n + ":" + o.typ(f.Type)
				}
			}
			body := "NOBODY"
			if d.Body != nil {
				body = toks(o.text(d.Body.Lbrace+1, d.Body.Rbrace))
				for _, g := range f.Comments {
					if g.Pos() > d.Body.Lbrace && g.End() <= d.Body.Rbrace {
						o.used[g] = true
					}
				}
			}
			out = append(out, "func "+o.doc(d.Doc)+"("+r+")"+d.Name.Name+o.r.FuncType(d.Type)+"{"+body+"}")
		}
	}
	for _, g := range f.Comments {
		if !o.used[g] {
			x.Fail("a comment is not attached to anything: %q\n%s", cgText(g), src)
		}
	}
	return out
}

// ---- generation

var comments = []string{"", "Says something.", "Two\nlines.", "A paragraph.\n\nAnother one."}

func genSig(x *X) *Sg {
	s := &Sg{}
	switch x.Dev(8) {
	case 1:
		s.Args = []Ar{ar("a", tyInt)}
	case 2:
		s.Args = []Ar{ar("", tyNamed(pAFoo, "T")), ar("", tyString)}
	case 3:
		s.Args = []Ar{ar("a", tyInt), ar("", tyInt)}
	case 4:
		s.Args = []Ar{ar("a", tySlice(tyNamed(pBFoo, "T")))}
		s.Variadic = true
	case 5:
		s.Args = []Ar{ar("a", tyStruct(Fd{"X", tyInt, "t"})), ar("b", tyFunc(&Sg{Results: []Ar{ar("", tyError)}}))}
	case 6:
		s.Args = []Ar{ar("a", tySlice(tyInt)), ar("b", tySlice(tySlice(tyInt)))}
		s.Variadic = true
	case 7:
		s.Args = []Ar{ar("a", tyInt), ar("b", tyInt)}
	}
	switch x.Dev(6) {
	case 1:
		s.Results = []Ar{ar("", tyError)}
	case 2:
		s.Results = []Ar{ar("", tyNamed(pAFoo, "T")), ar("", tyError)}
	case 3:
		s.Results = []Ar{ar("r", tyInt)}
	case 4:
		s.Results = []Ar{ar("r", tyInt), ar("", tyNamed(pBFoo, "T"))}
	case 5:
		s.Results = []Ar{ar("", tyFunc(&Sg{Results: []Ar{ar("", tyInt), ar("", tyError)}}))}
	}
	return s
}

func genMType(x *X, depth int) *mType {
	n := 12
	if depth <= 0 {
		n = 10
	}
	switch x.Dev(n) {
	case 0:
		return plain(tyInt)
	case 1:
		return plain(tyNamed(pAFoo, "T"))
	case 2:
		return plain(tyPtr(tyNamed(pSelf, "T")))
	case 3:
		return plain(tyStruct())
	case 4:
		return plain(tyIface(nil))
	case 5:
		return plain(tyStruct(Fd{"A", tyInt, ""}, Fd{"B", tyNamed(pBFoo, "T"), "`"}))
	case 6:
		return plain(tyIface([]Sy{{nil, "error"}, {pAFoo, "I"}}, Md{"M", &Sg{Args: []Ar{ar("a", tyInt)}}}))
	case 7:
		return plain(tyMap(tyString, tyChan(tyFunc(&Sg{Args: []Ar{ar("", tyInt)}}), 3)))
	case 8:
		return plain(tySlice(tyStruct(Fd{"A", tyInt, "x"})))
	case 9:
		return &mType{kind: 3, name: "Elsewhere"}
	case 10:
		return genStruct(x, depth-1)
	default:
		return genIface(x)
	}
}

func genStruct(x *X, depth int) *mType {
	t := &mType{kind: 1}
	n := PickDev(x, []int{1, 0, 2, 3})
	for i := 0; i < n; i++ {
		f := mField{name: fmt.Sprintf("F%d", i), comment: PickDev(x, comments)}
		f.tag = PickDev(x, []string{"", `json:"a"`, "with ` quote", "new\nline"})
		if x.DevBool() {
			// embedded
			f.name = ""
			f.typ = PickDev(x, []*mType{plain(tyNamed(pAFoo, fmt.Sprintf("E%d", i))), plain(tyPtr(tyNamed(pSelf, fmt.Sprintf("E%d", i)))), {kind: 3, name: fmt.Sprintf("E%d", i)}, plain(tyError)})
		} else {
			f.typ = genMType(x, depth)
		}
		t.fields = append(t.fields, f)
	}
	return t
}

func genIface(x *X) *mType {
	t := &mType{kind: 2}
	n := PickDev(x, []int{1, 0, 2, 3})
	for i := 0; i < n; i++ {
		e := mElem{comment: PickDev(x, comments)}
		if x.DevBool() {
			e.embed = PickDev(x, []*Sy{{pAFoo, fmt.Sprintf("I%d", i)}, {pSelf, fmt.Sprintf("I%d", i)}})
		} else {
			e.name = fmt.Sprintf("M%d", i)
			e.sig = genSig(x)
		}
		t.elems = append(t.elems, e)
	}
	return t
}

func genDecl(x *X, i int) mDecl {
	d := mDecl{kind: x.Choose(4)}
	if d.kind == 3 {
		d.comment = PickDev(x, comments)
		d.name = fmt.Sprintf("Func%d", i)
		switch x.Dev(5) {
		case 1:
			d.recv = gopoet.NewReceiver("r", "R")
		case 2:
			d.recv = gopoet.NewPointerReceiver("r", "R")
		case 3:
			d.recv = gopoet.NewReceiver("", "R")
		case 4:
			d.recv = gopoet.NewPointerReceiverForType("", gopoet.NamedType(gopoet.NewSymbol(pSelf.Path, "R")))
		}
		d.sig = genSig(x)
		d.body = PickDev(x, [][]string{nil, {"return"}, {"// just a comment"}, {"x := 1", "_ = x"}, {"if true {", "\tpanic(\"100%\")", "}"}, {"_ = `raw", "  string`"}})
		return d
	}
	d.comment = PickDev(x, comments)
	n := PickDev(x, []int{1, 2, 3})
	d.how = x.Dev(3)
	if d.how == 2 && (n > 1 || d.comment != "") {
		x.Skip()
	}
	for k := 0; k < n; k++ {
		s := mSpec{comment: PickDev(x, comments), names: []string{fmt.Sprintf("n%d_%d", i, k)}}
		if d.kind == 2 {
			switch x.Choose(3) {
			case 0:
				s.typ = genMType(x, 1)
			case 1:
				s.typ = genStruct(x, 1)
			default:
				s.typ = genIface(x)
			}
			s.alias = x.DevBool()
			s.via = x.DevBool()
			d.specs = append(d.specs, s)
			continue
		}
		more := PickDev(x, []int{0, 1, 2, 3})
		for j := 0; j < more; j++ {
			s.names = append(s.names, s.names[0]+string(rune('b'+j)))
		}
		withType := x.DevBool()
		if withType {
			if d.kind == 0 {
				s.typ = PickDev(x, []*mType{plain(tyInt), plain(tyNamed(pAFoo, "T")), {kind: 3, name: "Elsewhere"}})
			} else {
				s.typ = genMType(x, 1)
			}
		}
		s.init = PickDev(x, []string{"1", "", "f(`a`,\n\t\"b%d\")"})
		for j := 0; j < more && s.init != ""; j++ {
			s.init += fmt.Sprintf(", %d", j+2)
		}
		if s.init == "" && (d.kind == 0 || s.typ == nil) {
			if k == 0 || d.kind == 1 || s.typ != nil {
				x.Skip() // not Go
			}
		}
		d.specs = append(d.specs, s)
	}
	return d
}

func declCheck(x *X, decls int) {
	m := &mFile{pkg: "self"}
	m.fileComment = PickDev(x, comments)
	m.pkgComment = PickDev(x, comments)
	m.canonical = PickDev(x, []string{"", "ex.com/self", "other.org/x/v2", "self", "ex.com/\u00e9 b"})
	if x.DevBool() {
		m.pkg = "other_name"
	}
	n := 1 + x.Choose(decls)
	for i := 0; i < n; i++ {
		m.decls = append(m.decls, genDecl(x, i))
	}
	fileCheck(x, m)
}

// declEmpty is a file of declarations some of which have no specs but a comment.
func declEmpty(x *X, max int) *mFile {
	m := &mFile{pkg: "self"}
	n := 1 + x.Choose(max)
	for i := 0; i < n; i++ {
		d := mDecl{kind: x.Choose(3), comment: Pick(x, []string{"Nothing.", "Two\nlines.", "//go:x"}), how: x.Choose(2)}
		if k := x.Choose(3); k > 0 {
			s := mSpec{names: []string{fmt.Sprint("n", i)}, init: "1"}
			if d.kind == 2 {
				s = mSpec{names: s.names, typ: plain(tyInt)}
			}
			d.specs = []mSpec{s}
			if k == 2 {
				s.names = []string{fmt.Sprint("m", i)}
				d.specs = append(d.specs, s)
			}
		}
		m.decls = append(m.decls, d)
	}
	return m
}

// declRepeated is a file of declarations, some of which have the same name, as
// Go allows for init functions and blank names, or are the same altogether.
func declRepeated(x *X, max int) *mFile {
	m := &mFile{pkg: "self"}
	name := Pick(x, []string{"init", "_", "A"})
	n := 2 + x.Choose(max-1)
	comment := ""
	if x.Bool() {
		comment = "Same."
	}
	same := x.Bool()
	one := plain(tyInt)
	for i := 0; i < n; i++ {
		body := []string{fmt.Sprintf("use(%d)", i)}
		init := fmt.Sprint(i)
		if same {
			body, init = []string{"use(0)"}, "0"
		}
		fn := mDecl{kind: 3, comment: comment, name: name, sig: &Sg{}, body: body}
		sp := mSpec{names: []string{name}, init: init, comment: comment}
		var d mDecl
		k := x.Choose(14)
		x.Say("%q: kind %d", name, k)
		switch k {
		case 0:
			d = fn
		case 1:
			d = fn
			d.body = nil
		case 2:
			d = fn
			d.recv = gopoet.NewPointerReceiver(name, "R")
		case 3:
			d = fn
			d.recv = gopoet.NewReceiver("", "R2")
		case 4:
			d = fn
			d.sig = &Sg{Args: []Ar{ar("_", tyInt), ar("_", tyInt), ar("_", tyNamed(pAFoo, "T"))}, Results: []Ar{ar("_", tyInt), ar("_", tyError)}}
		case 5:
			d = mDecl{kind: 0, specs: []mSpec{sp}}
		case 6:
			d = mDecl{kind: 0, specs: []mSpec{sp, sp, {names: []string{name, name}, init: "1, 1"}}}
		case 7:
			d = mDecl{kind: 1, specs: []mSpec{sp}, how: 2}
		case 8:
			d = mDecl{kind: 1, comment: comment, specs: []mSpec{sp, {names: []string{name, "b", name}, typ: plain(tyNamed(pAFoo, "T"))}, sp}}
		case 9:
			d = mDecl{kind: 2, specs: []mSpec{{names: []string{name}, typ: one, comment: comment}, {names: []string{name}, typ: one, comment: comment}}}
		case 10:
			d = mDecl{kind: 2, specs: []mSpec{{names: []string{name}, alias: true, typ: plain(tyNamed(pAFoo, "T"))}}, how: 2}
		case 11:
			d = mDecl{kind: 2, specs: []mSpec{{names: []string{"S"}, typ: &mType{kind: 1, fields: []mField{{name: name, typ: one}, {name: name, typ: one}, {name: name, typ: plain(tyNamed(pAFoo, "T")), comment: comment}}}}}}
		case 12:
			d = mDecl{kind: 2, specs: []mSpec{{names: []string{"I"}, typ: &mType{kind: 2, elems: []mElem{{embed: &Sy{pAFoo, name}}, {name: name, sig: &Sg{}}, {embed: &Sy{pAFoo, name}, comment: comment}, {name: name, sig: &Sg{}}}}}}}
		default:
			d = mDecl{kind: 1, specs: []mSpec{{names: []string{name}, typ: plain(tyStruct(Fd{"_", tyInt, ""}, Fd{"_", tyInt, ""}))}}}
		}
		m.decls = append(m.decls, d)
	}
	return m
}

// declShapes is a file that defines or uses a type of any shape.
func declShapes(x *X, t *Ty, places int) *mFile {
	m := &mFile{pkg: "self"}
	spec := func() *mType {
		if x.Bool() {
			return &mType{kind: 4, t: t}
		}
		return plain(t)
	}
	other := mSpec{names: []string{"O"}, typ: plain(tyNamed(pBFoo, "O"))}
	var d mDecl
	switch x.Choose(places) {
	case 0:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: spec()}}, how: 2}
	case 1:
		d = mDecl{kind: 2, specs: []mSpec{other, {names: []string{"N"}, typ: spec(), alias: true}}}
	case 2:
		d = mDecl{kind: 2, comment: "C.", specs: []mSpec{{names: []string{"N"}, typ: spec(), comment: "N."}, {names: []string{"N2"}, typ: spec()}}, how: 1}
	case 3:
		d = mDecl{kind: 1, specs: []mSpec{{names: []string{"v"}, typ: spec()}, {names: []string{"w", "_"}, typ: spec()}}}
	case 4:
		d = mDecl{kind: 0, specs: []mSpec{{names: []string{"c"}, typ: spec(), init: "1"}}}
	case 5:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: &mType{kind: 1, fields: []mField{{name: "F", typ: spec(), tag: "t"}, {name: "G", typ: spec()}}}}}}
	case 6:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: &mType{kind: 2, elems: []mElem{{name: "M", sig: &Sg{Args: []Ar{ar("a", t), ar("b", t)}, Results: []Ar{ar("", t)}}}}}}}}
	case 7:
		d = mDecl{kind: 3, name: "F", sig: &Sg{Args: []Ar{ar("a", t), ar("b", tySlice(t))}, Results: []Ar{ar("r", t), ar("err", tyError)}, Variadic: true}}
	}
	m.decls = []mDecl{d}
	return m
}

func fileCheck(x *X, m *mFile) {
	f := m.build()
	var sb strings.Builder
	x.Op()
	if err := gopoet.WriteGoFile(&sb, f); err != nil {
		if fe, ok := err.(*gopoet.FormatError); ok {
			x.Fail("rendering: %v\n%s", err, fe.Unformatted)
		}
		x.Fail("rendering: %v", err)
	}
	src := sb.String()
	want := m.dump()
	x.Say("%s", strings.Join(want, " | "))
	x.Saw(src)
	got := dumpFile(x, src)
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(nothing)", "(nothing)"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			x.Fail("modelled: %s\nrendered: %s\n%s", w, g, src)
		}
	}
	if again, err := format.Source([]byte(src)); err != nil || string(again) != src {
		x.Fail("not in canonical format: %v\n%s", err, src)
	}
}

func init() {
	register(&Prop{ID: "C08", Level: "model_checking",
		Rule:   "every sequence of up to the bound of declarations of every kind, with every combination of up to the deviation bound of optional parts and non-default types; the output is parsed and compared with the mirror model line by line, comments included; and every short sequence of comment lines in every place that takes a comment, against a file written by hand",
		Assume: []string{"go/parser attaches comments as the language tools do", "comment lines other than those of the alphabet behave like them"},
		Harnesses: []*Harness{
			{Name: "one", DevQ: 3, DevT: 4, Body: func(x *X) { declCheck(x, 1) }},
			{Name: "literals", DevQ: 2, DevT: 3, Body: func(x *X) {
				m := &mFile{pkg: "self", lit: 1 + x.Choose(4)}
				m.decls = append(m.decls, genDecl(x, 0))
				fileCheck(x, m)
			}},
			{Name: "comments", Body: func(x *X) { commentCheck(x, depthQT(2, 3), commentLines) }},
			{Name: "long comments", Body: func(x *X) { commentCheck(x, depthQT(4, 6), []string{"", "A", "  x", "\ty"}) }},
			{Name: "large", Body: func(x *X) { fileCheck(x, declLarge(x)) }},
			{Name: "spelling", Body: func(x *X) { fileCheck(x, declSpelled(x)) }},
			{Name: "shapes", Body: func(x *X) { fileCheck(x, declShapes(x, genTy(x, 2, stdLeaves()), 8)) }},
			{Name: "wide", Body: func(x *X) {
				fileCheck(x, declShapes(x, genWide(x, depthQT(1, 2), []*Ty{tyInt, tyNamed(pAFoo, "T")}), 8))
			}},
			{Name: "empty groups", Body: func(x *X) { fileCheck(x, declEmpty(x, depthQT(3, 4))) }},
			{Name: "repeated names", Body: func(x *X) { fileCheck(x, declRepeated(x, depthQT(3, 4))) }},
			{Name: "sequence", DevQ: 1, DevT: 2, Body: func(x *X) { declCheck(x, 3) }},
		}})
}
