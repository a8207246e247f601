package main

// Names and tags of unusual spelling, in every place of a type that has one.

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"github.com/jhump/gopoet"
)

var spellings = []string{
	"x", "X", "_", "_x", "_X", "__", "x_", "x1", "X1y2", "_1", "xY", "ID", "iD", "é", "É", "éa", "世界", "ſt", "ǅ", "Ǆx", "x\u0661",
	"string", "error", "init", "main", "len", "nil", "iota", "String", "Error", "func_", "type1", "T", "foo", "foo1", "arg0", "p0", "this", "self", "result", "err",
	"byte", "uint8", "rune", "int32", "any", "int", "true", "Pointer", strings.Repeat("long", 70),
}

var tagSpellings = []string{
	`json:"x"`, `json:"x,omitempty" xml:"y"`, `json:"-"`, "x", " ", "a b", `"`, `""`, "`", "``", "a`b\"c", `\`, `\n`, "\n", "a\nb", "\t", "\r", "\r\n", "a\rb", "\x00", "\x7f", "\x80", "\xff\xfe", "\ufeff", "a\ufeffb", "é", "世界", "\u2028", "\U0001f600", "\ufffd",
	"%", "%d %s", "//", "/* x", "*/", "}", "{{.}}", ";", "'", "$x", "<&>", strings.Repeat("k", 300), strings.Repeat("\"", 70),
}

// genSpelled is a type with a name or tag of a certain spelling in some place.
func genSpelled(x *X) *Ty {
	place := x.Choose(12)
	if place == 11 {
		tag := Pick(x, tagSpellings)
		x.Say("tag %q", tag)
		f := Fd{"A", tyInt, tag}
		switch x.Choose(4) {
		case 1:
			f = Fd{"", tyNamed(pAFoo, "T"), tag}
		case 2:
			f.T = tyStruct(Fd{"B", tyInt, tag})
		case 3:
			f.T = tyFunc(&Sg{})
		}
		t := tyStruct(f)
		if x.Bool() {
			t.Fields = append(t.Fields, Fd{"Z", tyInt, ""})
		}
		if x.Bool() {
			return tyMap(tyString, t)
		}
		return t
	}
	n := Pick(x, spellings)
	x.Say("name %q in place %d", n, place)
	typeName := place == 4 || place == 6 || place == 7
	if n == "_" && (typeName || place == 5) {
		x.Skip()
	}
	other := Pick(x, []string{"", "b", "_"})
	p := pAFoo
	if typeName {
		p = Pick(x, []*P{pAFoo, pSelf})
		if p == pSelf && (other != "" || types.Universe.Lookup(n) != nil) {
			x.Skip()
		}
	}
	t := tyNamed(p, "T")
	switch place {
	case 0:
		return tyFuncAR([]Ar{ar(n, t), ar(other, tyInt)}, nil)
	case 1:
		return tyFuncAR([]Ar{ar(other, tyInt), ar(n, t)}, []Ar{ar("", tyInt)})
	case 2:
		return tyFuncAR(nil, []Ar{ar(other, tyInt), ar(n, t)})
	case 3:
		return tyStruct(Fd{n, t, "t"}, Fd{"B", tyInt, ""})
	case 4:
		return tyStruct(Fd{"", tyNamed(p, n), ""}, Fd{"B", tyInt, ""})
	case 5:
		return tyIface(nil, Md{n, &Sg{Args: []Ar{ar(other, t)}}})
	case 6:
		return tyIface([]Sy{{p, n}}, Md{"M", &Sg{}})
	case 7:
		return tyMap(tyNamed(p, n), tyPtr(tyNamed(p, n)))
	case 8:
		return tyIface(nil, Md{"M", &Sg{Args: []Ar{ar(n, t), ar(other, tySlice(tyInt))}, Results: []Ar{ar(n, t)}, Variadic: true}})
	case 9:
		return tyFunc(&Sg{Args: []Ar{ar(n, tySlice(t))}, Results: []Ar{ar(other, tyInt)}, Variadic: true})
	}
	return tyFuncAR(nil, []Ar{ar(n, t)})
}

// reflectSpelled: struct types made at run time.
func reflectSpelled(x *X) {
	n, tag := "A", ""
	if x.Bool() {
		n = Pick(x, spellings)
	} else {
		tag = Pick(x, tagSpellings)
	}
	f := reflect.StructField{Name: n, Type: rtOf((*int)(nil)), Tag: reflect.StructTag(tag)}
	if n == "_" {
		x.Skip()
	}
	if !token.IsExported(n) {
		f.PkgPath = "main"
	}
	x.Say("field %q, tag %q", n, tag)
	x.Op()
	tn := gopoet.TypeNameForReflectType(reflect.MapOf(rtOf((*string)(nil)), reflect.StructOf([]reflect.StructField{{Name: "Z", Type: rtOf((*string)(nil))}, f})))
	got := dumper{pkg: byBoth}.TN(tn)
	want := dumper{pkg: byBoth}.Ty(tyMap(tyString, tyStruct(Fd{"Z", tyString, ""}, Fd{n, tyInt, tag})))
	x.Saw(got)
	if got != want {
		x.Fail("became\n       %s\nwanted %s", got, want)
	}
}

// declSpelled is a file with such a type, or such a name, in some place.
func declSpelled(x *X) *mFile {
	m := &mFile{pkg: "self"}
	sg := &Sg{Args: []Ar{ar("a", tyNamed(pAFoo, "T"))}}
	if x.Bool() {
		t := plain(genSpelled(x))
		var d mDecl
		switch x.Choose(7) {
		case 0:
			d = mDecl{kind: 1, specs: []mSpec{{names: []string{"v"}, typ: t}}}
		case 1:
			d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: t}}}
		case 2:
			d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: t, alias: true}}}
		case 3:
			d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: &mType{kind: 1, fields: []mField{{name: "F", typ: t}, {name: "G", typ: plain(tyInt), tag: "t"}}}}}}
		case 4:
			d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: &mType{kind: 2, elems: []mElem{{name: "M", sig: &Sg{Args: []Ar{ar("a", t.t)}}}}}}}}
		case 5:
			d = mDecl{kind: 3, name: "F", sig: &Sg{Args: []Ar{ar("a", t.t)}}}
		case 6:
			d = mDecl{kind: 3, name: "F", sig: &Sg{Results: []Ar{ar("", t.t), ar("", tyError)}}}
		}
		d.how = x.Choose(2)
		m.decls = []mDecl{d}
		return m
	}
	place := x.Choose(22)
	if place == 17 {
		tag := Pick(x, tagSpellings)
		x.Say("tag %q", tag)
		m.decls = []mDecl{{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: &mType{kind: 1, fields: []mField{{name: "A", typ: plain(tyInt), tag: tag}, {typ: plain(tyNamed(pAFoo, "T")), tag: tag}}}}}}}
		return m
	}
	n := Pick(x, spellings)
	x.Say("name %q in place %d", n, place)
	var d mDecl
	switch place {
	case 0:
		d = mDecl{kind: 0, specs: []mSpec{{names: []string{n, "b"}, init: "1, 2"}}}
	case 18:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{n}, typ: &mType{kind: 2, elems: []mElem{{embed: &Sy{pAFoo, "I"}}, {name: "M", sig: sg}}}}}}
	case 19:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{n}, typ: plain(tyStruct(Fd{"F", tyNamed(pAFoo, "T"), "t"}, Fd{"", tyNamed(pAFoo, "T"), ""}))}}}
	case 20:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{n}, typ: plain(tyIface([]Sy{{pAFoo, "I"}}, Md{"M", sg}))}}}
	case 21:
		d = mDecl{kind: 2, comment: "C.", specs: []mSpec{{names: []string{"A"}, typ: plain(tyInt), comment: "A."}, {names: []string{n}, typ: &mType{kind: 2, elems: []mElem{{name: "M", sig: sg}}}, alias: true, comment: "N."}}}
	case 1:
		d = mDecl{kind: 0, specs: []mSpec{{names: []string{"a"}, init: "1"}, {names: []string{n}}}}
	case 2:
		d = mDecl{kind: 1, specs: []mSpec{{names: []string{"a", n}, typ: plain(tyNamed(pAFoo, "T"))}}}
	case 3:
		d = mDecl{kind: 1, specs: []mSpec{{names: []string{n}, init: "1"}}, comment: "C."}
	case 4:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{n}, typ: plain(tyNamed(pAFoo, "T"))}}}
	case 5:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{n}, typ: plain(tyNamed(pAFoo, "T")), alias: true}}}
	case 6:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{n}, typ: &mType{kind: 1, fields: []mField{{name: "F", typ: plain(tyNamed(pAFoo, "T"))}}}}}}
	case 7:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: &mType{kind: 1, fields: []mField{{name: n, typ: plain(tyNamed(pAFoo, "T"))}}}}}}
	case 8:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: &mType{kind: 2, elems: []mElem{{name: n, sig: sg}}}}}}
	case 9:
		d = mDecl{kind: 2, specs: []mSpec{{names: []string{"N"}, typ: &mType{kind: 2, elems: []mElem{{embed: &Sy{pAFoo, n}}, {name: "M", sig: sg}}}}}}
	case 10:
		d = mDecl{kind: 3, name: n, sig: sg}
	case 11:
		d = mDecl{kind: 3, name: n, sig: sg, recv: gopoet.NewPointerReceiver("r", "T")}
	case 12:
		d = mDecl{kind: 3, name: "M", sig: sg, recv: gopoet.NewReceiver(n, "T")}
		d.recv.IsPointer = x.Bool()
	case 13:
		if types.Universe.Lookup(n) != nil {
			x.Skip()
		}
		d = mDecl{kind: 3, name: "M", sig: sg, recv: gopoet.NewReceiver(Pick(x, []string{"r", "_", ""}), n)}
		d.recv.IsPointer = x.Bool()
	case 14:
		d = mDecl{kind: 3, name: "F", sig: &Sg{Args: []Ar{ar("a", tyInt), ar(n, tyNamed(pAFoo, "T"))}, Results: []Ar{ar("", tyInt)}}}
	case 15:
		d = mDecl{kind: 3, name: "F", sig: &Sg{Results: []Ar{ar(n, tyNamed(pAFoo, "T"))}}}
	case 16:
		// the name of the package
		m.pkg = n
		d = mDecl{kind: 3, name: "F", sig: sg}
	}
	m.decls = []mDecl{d}
	return m
}
