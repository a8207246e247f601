package main

// Large inputs: what holds for a few members, elements, levels or characters
// must hold for many. Each harness goes through all of its shapes in all of the
// sizes, which lie around the powers of two and of ten.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/jhump/gopoet"
)

func sizes() []int {
	if thorough {
		return []int{5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}
	}
	return []int{6, 9, 11, 17, 33, 65, 101, 129, 257}
}

// largeAt tells which of n members are special.
func largeAt(x *X) func(i, n int) bool {
	k := x.Choose(4)
	return func(i, n int) bool {
		return k == 0 && i == 0 || k == 1 && i == n/2 || k == 2 && i == n-1 || k == 3
	}
}

const largeShapes = 22

// genLarge is a type with n members or levels, or a long part.
func genLarge(x *X) *Ty {
	n := Pick(x, sizes())
	shape := x.Choose(largeShapes)
	at := largeAt(x)
	x.Say("shape %d of size %d", shape, n)
	leaf := func(i int) *Ty {
		if at(i, n) {
			return tyNamed([]*P{pAFoo, pBFoo, pBar}[i%3], "T")
		}
		return tyInt
	}
	list := func(name string) []Ar {
		var out []Ar
		for i := 0; i < n; i++ {
			nm := ""
			if name != "" {
				nm = fmt.Sprintf("%s%d", name, i)
			}
			out = append(out, ar(nm, leaf(i)))
		}
		return out
	}
	nest := func(f func(i int, t *Ty) *Ty) *Ty {
		t := leaf(0)
		if t == tyInt {
			t = tyNamed(pAFoo, "T")
		}
		for i := 0; i < n; i++ {
			t = f(i, t)
		}
		return t
	}
	switch shape {
	case 0:
		t := tyStruct()
		for i := 0; i < n; i++ {
			tag := ""
			if at(n-1-i, n) {
				tag = fmt.Sprintf(`k:"%d"`, i)
			}
			t.Fields = append(t.Fields, Fd{fmt.Sprintf("F%d", i), leaf(i), tag})
		}
		return t
	case 1:
		t := tyStruct()
		for i := 0; i < n; i++ {
			f := Fd{"", tyNamed(pSelf, fmt.Sprintf("E%d", i)), ""}
			if at(i, n) {
				f.T = tyNamed([]*P{pAFoo, pBFoo}[i%2], fmt.Sprintf("E%d", i))
			}
			if i%3 == 1 {
				f.T = tyPtr(f.T)
			}
			t.Fields = append(t.Fields, f)
		}
		return t
	case 2:
		return tyFuncAR(list(""), nil)
	case 3:
		return tyFuncAR(list("a"), nil)
	case 4:
		as := list("a")
		as[n-1].T = tySlice(as[n-1].T)
		return tyFunc(&Sg{Args: as, Variadic: true})
	case 5:
		return tyFuncAR(nil, list(""))
	case 6:
		return tyFuncAR(nil, list("r"))
	case 7:
		t := tyIface(nil)
		for i := 0; i < n; i++ {
			t.Methods = append(t.Methods, Md{fmt.Sprintf("M%04d", i), &Sg{Args: []Ar{ar("", leaf(i))}}})
		}
		return t
	case 8:
		t := tyIface(nil)
		for i := 0; i < n; i++ {
			s := Sy{pSelf, fmt.Sprintf("I%04d", i)}
			if at(i, n) {
				s.Pkg = []*P{pAFoo, pBFoo}[i%2]
			}
			t.Embeds = append(t.Embeds, s)
		}
		return t
	case 9:
		return nest(func(i int, t *Ty) *Ty { return tyPtr(t) })
	case 10:
		return nest(func(i int, t *Ty) *Ty { return tySlice(t) })
	case 11:
		return nest(func(i int, t *Ty) *Ty {
			return tyChan(t, []reflect.ChanDir{reflect.BothDir, reflect.RecvDir, reflect.SendDir, reflect.RecvDir, reflect.RecvDir}[i%5])
		})
	case 12:
		return nest(func(i int, t *Ty) *Ty { return tyMap(leaf(i), t) })
	case 13:
		return nest(func(i int, t *Ty) *Ty { return tyFuncAR([]Ar{ar("", t)}, nil) })
	case 14:
		return nest(func(i int, t *Ty) *Ty { return tyFuncAR(nil, []Ar{ar("", t)}) })
	case 15:
		return nest(func(i int, t *Ty) *Ty { return tyStruct(Fd{"A", t, ""}) })
	case 16:
		return nest(func(i int, t *Ty) *Ty { return tyArray(t, int64(i)) })
	case 17:
		return nest(func(i int, t *Ty) *Ty {
			for j := i; j < i+len(tyCtxs); j++ {
				c := tyCtxs[j%len(tyCtxs)]
				if u := c.f(t); u != nil && size(u) < size(t)+10 {
					return u
				}
			}
			return tyPtr(t)
		})
	case 18:
		return tySlice(tyNamed(pAFoo, "T"+strings.Repeat("x", n)))
	case 19:
		return tyStruct(Fd{"F" + strings.Repeat("é", n), leaf(0), strings.Repeat("tag ", n)}, Fd{"G", leaf(n - 1), ""})
	case 20:
		return tyIface(nil, Md{"M" + strings.Repeat("y", n), &Sg{Args: []Ar{ar("a"+strings.Repeat("z", n), leaf(0))}}}, Md{"N", &Sg{Results: []Ar{ar("", leaf(n-1))}}})
	default:
		return tyArray(leaf(0), int64(1)<<uint(n%63))
	}
}

// size is the number of types that a type consists of.
func size(t *Ty) int {
	if t == nil {
		return 0
	}
	n := 1 + size(t.Key) + size(t.Elem)
	sig := func(s *Sg) {
		if s != nil {
			for _, a := range append(append([]Ar(nil), s.Args...), s.Results...) {
				n += size(a.T)
			}
		}
	}
	sig(t.Sig)
	for _, f := range t.Fields {
		n += size(f.T)
	}
	for _, m := range t.Methods {
		sig(m.Sig)
	}
	return n
}

// reflectLarge: the same for types made by reflect.
func reflectLarge(x *X) {
	n := Pick(x, sizes())
	shape := x.Choose(10)
	at := largeAt(x)
	x.Say("shape %d of size %d", shape, n)
	ls := reflectLeaves()
	leaf := func(i int) rcase {
		if at(i, n) {
			return ls[i%len(ls)]
		}
		return rcase{rt[int](), tyInt}
	}
	list := func() ([]reflect.Type, []Ar) {
		var rs []reflect.Type
		var as []Ar
		for i := 0; i < n; i++ {
			l := leaf(i)
			rs, as = append(rs, l.r), append(as, ar("", l.t))
		}
		return rs, as
	}
	nest := func(f func(i int, c rcase) rcase) rcase {
		c := leaf(0)
		for i := 0; i < n; i++ {
			c = f(i, c)
		}
		return c
	}
	var c rcase
	if (shape == 1 || shape == 2) && n > 110 {
		x.Skip() // reflect does not make such functions
	}
	switch shape {
	case 0:
		var fs []reflect.StructField
		t := tyStruct()
		for i := 0; i < n; i++ {
			l := leaf(i)
			tag := ""
			if at(n-1-i, n) {
				tag = fmt.Sprintf(`k:"%d"`, i)
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: l.r, Tag: reflect.StructTag(tag)})
			t.Fields = append(t.Fields, Fd{fmt.Sprintf("F%d", i), l.t, tag})
		}
		c = rcase{reflect.StructOf(fs), t}
	case 1:
		rs, as := list()
		c = rcase{reflect.FuncOf(rs, nil, false), tyFuncAR(as, nil)}
	case 2:
		rs, as := list()
		c = rcase{reflect.FuncOf(nil, rs, false), tyFuncAR(nil, as)}
	case 3:
		c = nest(func(i int, c rcase) rcase { return rcase{reflect.PtrTo(c.r), tyPtr(c.t)} })
	case 4:
		c = nest(func(i int, c rcase) rcase { return rcase{reflect.SliceOf(c.r), tySlice(c.t)} })
	case 5:
		c = nest(func(i int, c rcase) rcase {
			d := []reflect.ChanDir{reflect.BothDir, reflect.RecvDir, reflect.SendDir}[i%3]
			return rcase{reflect.ChanOf(d, c.r), tyChan(c.t, d)}
		})
	case 6:
		c = nest(func(i int, c rcase) rcase { return rcase{reflect.MapOf(rt[string](), c.r), tyMap(tyString, c.t)} })
	case 7:
		c = nest(func(i int, c rcase) rcase {
			return rcase{reflect.FuncOf([]reflect.Type{c.r}, nil, false), tyFuncAR([]Ar{ar("", c.t)}, nil)}
		})
	case 8:
		if n > 300 {
			x.Skip() // takes long in reflect
		}
		c = nest(func(i int, c rcase) rcase { return rctxs[i%3].f(c) })
	case 9:
		c = nest(func(i int, c rcase) rcase { return rcase{reflect.ArrayOf(0, c.r), tyArray(c.t, 0)} })
	}
	x.Op()
	got := dumper{pkg: byPath}.TN(gopoet.TypeNameForReflectType(c.r))
	want := dumper{pkg: byPath}.Ty(c.t)
	x.Saw(got)
	if got != want {
		x.Fail("%s became\n       %s\nwanted %s", c.r, got, want)
	}
}

// declLarge is a file with n elements, specs, members or lines, or a long part.
func declLarge(x *X) *mFile {
	n := Pick(x, sizes())
	shape := x.Choose(18)
	at := largeAt(x)
	x.Say("shape %d of size %d", shape, n)
	m := &mFile{pkg: "self"}
	typ := func(i int) *mType {
		if at(i, n) {
			return plain(tyNamed([]*P{pAFoo, pBFoo}[i%2], "T"))
		}
		return plain(tyInt)
	}
	com := func(i int) string {
		if at(n-1-i, n) {
			return fmt.Sprintf("Comment %d.", i)
		}
		return ""
	}
	lines := func(format string) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf(format, i))
		}
		return out
	}
	fn := func(i int) mDecl {
		return mDecl{kind: 3, name: fmt.Sprintf("Func%d", i), comment: com(i), sig: &Sg{Args: []Ar{ar("a", typ(i).t)}}}
	}
	spec := func(kind, i int) mSpec {
		s := mSpec{comment: com(i), names: []string{fmt.Sprintf("n%d", i)}}
		switch kind {
		case 0:
			s.init = fmt.Sprint(i)
		default:
			s.typ = typ(i)
		}
		return s
	}
	switch shape {
	case 0, 1, 2:
		for i := 0; i < n; i++ {
			m.decls = append(m.decls, mDecl{kind: shape, how: 2, specs: []mSpec{spec(shape, i)}})
		}
	case 3, 4, 5:
		d := mDecl{kind: shape - 3, how: x.Choose(2)}
		for i := 0; i < n; i++ {
			d.specs = append(d.specs, spec(shape-3, i))
		}
		m.decls = append(m.decls, d)
	case 6:
		for i := 0; i < n; i++ {
			m.decls = append(m.decls, fn(i))
		}
	case 7:
		m.decls = []mDecl{{kind: x.Choose(2), specs: []mSpec{{names: lines("n%d"), typ: plain(tyInt), init: strings.Join(lines("%d"), ", ")}}}}
	case 8:
		t := &mType{kind: 1}
		for i := 0; i < n; i++ {
			f := mField{comment: com(i), name: fmt.Sprintf("F%d", i), typ: typ(i)}
			if at(i, n) {
				f.tag = fmt.Sprintf("t%d", i)
			}
			t.fields = append(t.fields, f)
		}
		m.decls = []mDecl{{kind: 2, specs: []mSpec{{names: []string{"S"}, typ: t}}}}
	case 9:
		t := &mType{kind: 2}
		for i := 0; i < n; i++ {
			e := mElem{comment: com(i)}
			if at(i, n) {
				e.embed = &Sy{pAFoo, fmt.Sprintf("I%d", i)}
			} else {
				e.name, e.sig = fmt.Sprintf("M%d", i), &Sg{Args: []Ar{ar("", typ(i).t)}}
			}
			t.elems = append(t.elems, e)
		}
		m.decls = []mDecl{{kind: 2, specs: []mSpec{{names: []string{"S"}, typ: t}}}}
	case 10:
		d := fn(0)
		d.comment = strings.Join(lines("Line %d."), "\n")
		m.fileComment, m.pkgComment = d.comment, d.comment
		m.decls = []mDecl{d, fn(1)}
	case 11:
		d := fn(0)
		d.comment = strings.Repeat("long ", n) + "end"
		d.name = "F" + strings.Repeat("x", n)
		m.decls = []mDecl{d, fn(1)}
	case 12:
		d := fn(0)
		for i := 0; i < n; i++ {
			d.body = append(d.body, fmt.Sprintf("_ = \"%%d %d\"", i))
		}
		m.decls = []mDecl{d, fn(1)}
	case 13:
		t := &mType{kind: 1}
		in := t
		for i := 0; i < n && i < 70; i++ {
			u := &mType{kind: 1 + i%1}
			in.fields = []mField{{comment: com(i), name: "A", typ: u}, {name: "B", typ: typ(i)}}
			in = u
		}
		m.decls = []mDecl{{kind: 2, specs: []mSpec{{names: []string{"S"}, typ: t}}}}
	case 14:
		m.decls = []mDecl{{kind: 1, specs: []mSpec{{names: []string{"v"}, init: "[]int{" + strings.Join(lines("%d"), ", ") + "}"}}}}
	case 16:
		// a definition made from the type, not from specs
		t := tyIface(nil)
		for i := 0; i < n; i++ {
			p := pSelf
			if at(i, n) {
				p = pBFoo
			}
			t.Embeds = append(t.Embeds, Sy{p, fmt.Sprintf("I%d", i)})
			t.Methods = append(t.Methods, Md{fmt.Sprintf("M%04d", i), &Sg{Args: []Ar{ar("a", typ(i).t)}}})
		}
		m.decls = []mDecl{{kind: 2, specs: []mSpec{{names: []string{"D"}, typ: plain(t)}}}}
	case 17:
		t := tyStruct()
		for i := 0; i < n; i++ {
			f := Fd{fmt.Sprintf("F%d", i), typ(i).t, ""}
			if at(i, n) {
				f.Tag = "t"
			}
			t.Fields = append(t.Fields, f)
		}
		m.decls = []mDecl{{kind: 2, specs: []mSpec{{names: []string{"D"}, typ: plain(t)}}}}
	case 15:
		for i := 0; i < n; i++ {
			d := fn(i)
			if i%3 != 2 {
				d = mDecl{kind: i % 3, how: i % 2, specs: []mSpec{spec(i%3, i)}}
			}
			m.decls = append(m.decls, d)
		}
	}
	return m
}

// codeLarge: many parts, arguments and levels of blocks, and long texts.
func codeLarge(x *X) {
	n := Pick(x, sizes())
	shape := x.Choose(7)
	at := largeAt(x)
	x.Say("shape %d of size %d", shape, n)
	f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
	// so that a reference that is not resolved differs
	if p := f.RegisterImportForPackage(pBFoo.Pkg()); p != "foo." {
		x.Fail("the prefix of the only package is %q", p)
	}
	fn := gopoet.NewFunc("body").Print("_ = `<")
	want := ""
	part := func(b *gopoet.CodeBlock, i int) {
		if at(i, n) {
			b.Printlnf("%s/%d%%", Sy{pAFoo, "X"}.Sym(), i)
			want += fmt.Sprintf("foo1.X/%d%%\n", i)
		} else {
			b.Print(fmt.Sprintf("%%d%d;", i))
			want += fmt.Sprintf("%%d%d;", i)
		}
	}
	switch shape {
	case 0:
		for i := 0; i < n; i++ {
			part(&fn.CodeBlock, i)
		}
	case 1:
		for i := 0; i < n; i++ {
			b := &gopoet.CodeBlock{}
			part(b, i)
			fn.AddCode(b)
		}
	case 2:
		b := &gopoet.CodeBlock{}
		for i := 0; i < n; i++ {
			part(b, i)
			o := &gopoet.CodeBlock{}
			b = o.AddCode(b)
		}
		fn.AddCode(b)
	case 3:
		var as []interface{}
		format := ""
		for i := 0; i < n; i++ {
			if at(i, n) {
				as = append(as, Sy{pAFoo, fmt.Sprintf("X%d", i)}.Sym())
				want += fmt.Sprintf("foo1.X%d ", i)
			} else {
				as = append(as, i)
				want += fmt.Sprintf("%d ", i)
			}
			format += "%v "
		}
		fn.Printf(format, as...)
	case 4:
		want = strings.Repeat("%d text", n)
		fn.Print(want[:len(want)/2]).Printf("%s", want[len(want)/2:])
	case 5:
		name := "X" + strings.Repeat("y", n)
		fn.Printf("%s", Sy{pAFoo, name}.Sym())
		want = "foo1." + name
	case 6:
		var d []interface{}
		for i := 0; i < n; i++ {
			if at(i, n) {
				d = append(d, Sy{pAFoo, fmt.Sprintf("X%d", i)}.Sym())
				want += fmt.Sprintf("_ = foo1.X%d\n", i)
			} else {
				d = append(d, i)
				want += fmt.Sprintf("_ = %d\n", i)
			}
		}
		fn.RenderCode(tmplSym, d)
	}
	fn.Println(">`")
	f.AddElement(fn)
	for r := 0; r < 2; r++ {
		var sb strings.Builder
		x.Op()
		if err := gopoet.WriteGoFile(&sb, f); err != nil {
			x.Fail("rendering: %v", err)
		}
		src := sb.String()
		x.Saw(src)
		i, j := strings.Index(src, "`<"), strings.LastIndex(src, ">`")
		if i < 0 || j < i || src[i+2:j] != want {
			x.Fail("expected %q\n%s", want, src)
		}
	}
}

// dataLarge: data with many parts or levels.
func dataLarge(x *X) {
	n := Pick(x, sizes())
	shape := x.Choose(9)
	leaf := &dataLeaves[x.Choose(len(dataLeaves))]
	p := pAFoo
	if !leaf.nopkg {
		p = Pick(x, []*P{pAFoo, pSelf})
	}
	pos := x.Choose(4)
	at := func(i int) bool {
		return pos == 0 && i == 0 || pos == 1 && i == n/2 || pos == 2 && i == n-1 || pos == 3
	}
	if leaf.kept && (shape >= 3) {
		x.Skip()
	}
	node := &dataNode{leaf: leaf, t: leaf.static}
	x.Say("%s of %s, shape %d of size %d, position %d", leaf.name, p.Path, shape, n, pos)
	build := func(env []*dataEnv) reflect.Value {
		e := env[0]
		val := func(i int) reflect.Value {
			if at(i) {
				return node.build(e)
			}
			return node.build(e.neutral())
		}
		any := func(i int) reflect.Value {
			v := reflect.New(anyT).Elem()
			if at(i) {
				if w := node.build(e); w.Kind() != reflect.Interface {
					v.Set(w)
				} else if !w.IsNil() {
					v.Set(w.Elem())
				}
			} else {
				v.Set(reflect.ValueOf(i))
			}
			return v
		}
		t := node.t
		switch shape {
		case 0:
			s := reflect.MakeSlice(reflect.SliceOf(t), n, n+5)
			for i := 0; i < n; i++ {
				s.Index(i).Set(val(i))
			}
			return s
		case 1:
			s := reflect.New(reflect.ArrayOf(n, t)).Elem()
			for i := 0; i < n; i++ {
				s.Index(i).Set(val(i))
			}
			return s
		case 2:
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), t))
			for i := 0; i < n; i++ {
				m.SetMapIndex(reflect.ValueOf(i), val(i))
			}
			return m
		case 3:
			s := reflect.MakeSlice(reflect.SliceOf(anyT), n, n)
			for i := 0; i < n; i++ {
				s.Index(i).Set(any(i))
			}
			return s
		case 4:
			m := reflect.ValueOf(map[string]interface{}{})
			for i := 0; i < n; i++ {
				m.SetMapIndex(reflect.ValueOf(fmt.Sprint(i)), any(i))
			}
			return m
		case 5:
			if n > 300 {
				x.Skip()
			}
			var fs []reflect.StructField
			for i := 0; i < n; i++ {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: anyT})
			}
			s := reflect.New(reflect.StructOf(fs)).Elem()
			for i := 0; i < n; i++ {
				s.Field(i).Set(any(i))
			}
			return s
		case 6, 7:
			// nested, in alternating containers
			v := any(0)
			for i := 0; i < n; i++ {
				c := reflect.New(anyT)
				switch (i + shape) % 4 {
				case 0:
					c.Elem().Set(reflect.ValueOf([]interface{}{i, v.Interface()}))
				case 1:
					q := v.Interface()
					c.Elem().Set(reflect.ValueOf(&q))
				case 2:
					c.Elem().Set(reflect.ValueOf(map[string]interface{}{"k": v.Interface(), "i": i}))
				case 3:
					c.Elem().Set(reflect.ValueOf(struct{ A, B interface{} }{any(i).Interface(), v.Interface()}))
				}
				v = c.Elem()
			}
			return v
		default:
			// two dimensions
			s := reflect.MakeSlice(reflect.SliceOf(reflect.SliceOf(anyT)), n, n)
			for i := 0; i < n; i++ {
				r := reflect.MakeSlice(reflect.SliceOf(anyT), i%5, 7)
				for j := 0; j < r.Len(); j++ {
					r.Index(j).Set(any(i))
				}
				s.Index(i).Set(r)
			}
			return s
		}
	}
	dataCheck(x, []*dataNode{node}, []*P{p}, build)
}

// refsLarge: references to many packages, each from one place.
func refsLarge(x *X) {
	n := Pick(x, []int{9, 11, 17, 33, maxSlots - 1})
	names := x.Choose(3)
	place := x.Choose(3)
	stride := Pick(x, []int{1, 2, 5, n - 1})
	x.Say("%d packages in strides of %d, names %d, place %d", n, stride, names, place)
	b := newFileB()
	want := map[int]slotRef{}
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		k := (i * stride) % n
		if seen[k] {
			x.Skip()
		}
		seen[k] = true
		p := *largePkgs[k]
		switch names {
		case 1:
			p.Unknown = k%2 == 0
		case 2:
			p.Unknown = true
		}
		want[k] = slotRef{"reference", &p}
		b.k = k
		switch place {
		case 0:
			b.body.Printlnf("%s()", Sy{&p, fmt.Sprintf("F%d", k)}.Sym())
		case 1:
			b.f.AddVar(gopoet.NewVar(b.n("v")).SetType(tname(Sy{&p, fmt.Sprintf("T%d", k)})))
		case 2:
			b.body.RenderCode(tmplSym, []gopoet.Symbol{Sy{&p, fmt.Sprintf("V%d", k)}.Sym()})
		}
	}
	b.finish(x, want, 2)
}

var largePkgs = func() []*P {
	var out []*P
	for i := 0; i < maxSlots; i++ {
		out = append(out, &P{Path: fmt.Sprintf("ex.com/l%d/%s", i, []string{"foo", "foo", "foo1", "bar-go"}[i%4]), Real: []string{"foo", "foo", "foo1", "bar"}[i%4]})
	}
	return out
}()

// elemsLarge: files with many elements.
func elemsLarge(x *X) {
	n := Pick(x, sizes())
	kind := x.Choose(5)
	x.Say("%d elements, kind %d", n, kind)
	f := gopoet.NewGoFile("f.go", pAFoo.Path, pAFoo.Real)
	sym := func(name string) string { return symText(&gopoet.Symbol{Name: name, Package: pAFoo.Pkg()}) }
	var check []func()
	is := func(i int, what string, got gopoet.Symbol, name string) {
		if symText(&got) != sym(name) {
			x.Fail("%s %d of %d is %s, it should be %s", what, i, n, symText(&got), sym(name))
		}
	}
	var elems []gopoet.FileElement
	add := func(e gopoet.FileElement) {
		elems = append(elems, e)
		f.AddElement(e)
	}
	var cs []*gopoet.ConstSpec
	var names []string
	st := gopoet.NewStructTypeSpec("S")
	it := gopoet.NewInterfaceTypeSpec("I")
	for i := 0; i < n; i++ {
		i := i
		name := fmt.Sprintf("X%d", i)
		names = append(names, name)
		k := kind
		if kind == 4 {
			k = i % 4
		}
		switch k {
		case 0:
			c := gopoet.NewConst(name).Initialize("1")
			cs = append(cs, c)
			add(gopoet.NewConstDecl(c))
			check = append(check, func() { is(i, "const", c.ToSymbol(), name) })
		case 1:
			v := gopoet.NewVar(name).SetType(gopoet.IntType)
			add(gopoet.NewVarDecl(v))
			check = append(check, func() { is(i, "var", v.ToSymbol(), name) })
		case 2:
			t := gopoet.NewTypeSpec(name, gopoet.IntType)
			add(gopoet.NewTypeDecl(t))
			check = append(check, func() { is(i, "type", t.ToSymbol(), name) })
		case 3:
			fn := gopoet.NewFunc(name)
			add(fn)
			check = append(check, func() { is(i, "func", fn.ToSymbol().(gopoet.Symbol), name) })
		}
	}
	many := gopoet.NewVar(names...).SetType(gopoet.IntType)
	add(gopoet.NewVarDecl(many))
	add(gopoet.NewTypeDecl(st, it))
	group := gopoet.NewConstDecl()
	for i := 0; i < n; i++ {
		i := i
		c := gopoet.NewConst("Y" + names[i]).Initialize("1")
		group.AddConst(c)
		m := gopoet.NewInterfaceMethod("M" + names[i])
		it2 := gopoet.NewInterfaceTypeSpec("I"+names[i], m)
		f.AddType(it2)
		check = append(check, func() {
			is(i, "const of a group", c.ToSymbol(), "Y"+names[i])
			if got := m.ToMethodRef(); got.Method != "M"+names[i] || symText(&got.Type) != sym("I"+names[i]) {
				x.Fail("method %d is %v", i, got)
			}
			is(i, "name of a var", many.SymbolAt(i), names[i])
		})
	}
	f.AddElement(group)
	x.Op()
	if f.NumElements() != len(elems)+n+1 {
		x.Fail("%d elements instead of %d", f.NumElements(), len(elems)+n+1)
	}
	for i, e := range elems {
		if f.ElementAt(i) != e {
			x.Fail("element %d of %d is another one", i, len(elems))
		}
	}
	for r := 0; r < 2; r++ {
		for _, c := range check {
			c()
		}
		var sb strings.Builder
		if err := gopoet.WriteGoFile(&sb, f); err != nil {
			x.Fail("rendering: %v", err)
		}
		x.Saw(sb.String())
	}
	f.PackageName = "other"
	if p := many.SymbolAt(n - 1).Package.Name; p != "other" {
		x.Fail("the package is %q after renaming it", p)
	}
}

// renderLarge: many renderings of files that share elements.
func renderLarge(x *X) {
	w := sharedWorld()
	before := w.snap()
	fresh := func(k int) string {
		s, _ := sharedWorld().render(x, k, failNot)
		return s
	}
	ref := map[int]string{}
	fails := []int{failNot, failWriter, failTemplate, failFormat, failSymbol}
	stride, fail, every := 1+x.Choose(len(w.files)), Pick(x, fails), 2+x.Choose(4)
	n := depthQT(40, 300)
	x.Say("%d renderings in strides of %d, every %d%s", n, stride, every, failNames[fail])
	for i := 0; i < n; i++ {
		k := i * stride % len(w.files)
		how := failNot
		if i%every == 0 {
			how = fail
		}
		s, trouble := w.render(x, k, how)
		if (trouble == "") != (how == failNot) {
			x.Fail("rendering %d of file %d%s gives %s", i, k, failNames[how], trouble)
		}
		if how != failNot {
			continue
		}
		if ref[k] == "" {
			ref[k] = fresh(k)
		}
		if s != ref[k] {
			x.Fail("rendering %d of file %d differs from the first\n%s\nalone\n%s", i, k, diffLines(s, ref[k]), diffLines(ref[k], s))
		}
		x.Saw(s)
	}
	if now := w.snap(); now != before {
		x.Fail("after %d renderings the elements answer differently\nbefore %s\nafter %s", n, diffLines(before, now), diffLines(now, before))
	}
}

// badLarge: long lists of arguments, results, fields with one that is missing.
func badLarge(x *X) {
	n := Pick(x, sizes())
	list := func() []gopoet.ArgType {
		var out []gopoet.ArgType
		for i := 0; i < n; i++ {
			out = append(out, gopoet.ArgType{Type: gopoet.SliceType(gopoet.IntType)})
		}
		return out
	}
	as, rs := list(), list()
	bad := x.Choose(5)
	i := []int{0, 1, n / 2, n - 2, n - 1}[x.Choose(5)]
	switch bad {
	case 1:
		as[i].Type = nil
	case 2:
		rs[i].Type = nil
	case 3:
		as[i].Type = gopoet.IntType
	case 4:
		as[i].Type = gopoet.ArrayType(gopoet.IntType, 1)
	}
	missing := bad == 1 || bad == 2
	refused(x, fmt.Sprintf("FuncType of %d with fault %d at %d", n, bad, i), missing, func() { gopoet.FuncType(as, rs) })
	refused(x, fmt.Sprintf("FuncTypeVariadic of %d with fault %d at %d", n, bad, i), missing || bad > 2 && i == n-1, func() { gopoet.FuncTypeVariadic(as, rs) })
}

// nameString: all short names of a few characters.
func nameString(x *X) {
	s := ""
	for n := x.Choose(depthQT(6, 8)); n >= 0; n-- {
		s += Pick(x, []string{"a", "B", "_", "2", "é", "Ö"})
	}
	nameCheck(x, s)
}

// nameWords: words that have, in some conventions, forms of their own.
var nameWords = strings.Fields("id Id ID iD ids IDs url URL Url http HTTP https api API Api json JSON uri uuid UUID xml html css ip tcp udp cpu ram db sql ssh tls ttl utf8 acl ascii eof guid io os dns lhs rhs qps rpc sla smtp ui uid vm xmpp xsrf xss " +
	"break default func interface select case defer go map struct chan else goto package switch const fallthrough if range type continue for import return var int string error true false nil iota len cap append make new panic init main any " +
	"2 URL2 X509 URLs a A _ __ _a _A __x a_b A_B aB ABC abc aBC fooBar FooBar FOO_BAR foo_bar fOO x1 X1 _1 x_ x__y éa ÉA ßa ǆa ǅa Ǆa ı İ ŉ ΐ ﬁ ﬁx ⅷ Ⅷ ⓐ Ⓐ ა Ა 𐐨 𐐀 ꭰ Ꭰ K Å Ω ſ µ ς ẞ")

func nameWord(x *X) {
	a, b := Pick(x, nameWords), ""
	if x.Bool() {
		b = Pick(x, nameWords)
	}
	n := 1
	if b == "" && x.Bool() {
		n = Pick(x, sizes())
	}
	s := strings.Repeat(a, n) + b
	if len(s) < 200 {
		x.Say("%q", s)
	}
	nameCheck(x, s)
}

// wideKinds are elements with n parts, some of which are references.
var wideKinds = []struct {
	name string
	make func(n int, at func(i, n int) bool) func(f *gopoet.GoFile)
}{
	{"arguments of a line", func(n int, at func(i, n int) bool) func(f *gopoet.GoFile) {
		var as []interface{}
		for i := 0; i < n; i++ {
			if at(i, n) {
				as = append(as, wideSym(i))
			} else {
				as = append(as, i)
			}
		}
		e := gopoet.NewFunc("f").Printlnf(strings.Repeat("_ = %v\n", n), as...)
		return func(f *gopoet.GoFile) { f.AddElement(e) }
	}},
	{"lines of a block", func(n int, at func(i, n int) bool) func(f *gopoet.GoFile) {
		e := gopoet.NewFunc("f")
		for i := 0; i < n; i++ {
			if at(i, n) {
				e.Printlnf("_ = %s", wideSym(i))
			} else {
				e.Println("_ = 1")
			}
		}
		return func(f *gopoet.GoFile) { f.AddElement(e) }
	}},
	{"template data", func(n int, at func(i, n int) bool) func(f *gopoet.GoFile) {
		var d []interface{}
		for i := 0; i < n; i++ {
			if at(i, n) {
				d = append(d, wideSym(i))
			} else {
				d = append(d, i)
			}
		}
		e := gopoet.NewFunc("f").RenderCode(tmplSym, d)
		return func(f *gopoet.GoFile) { f.AddElement(e) }
	}},
	{"fields", func(n int, at func(i, n int) bool) func(f *gopoet.GoFile) {
		var fs []*gopoet.FieldSpec
		for i := 0; i < n; i++ {
			fs = append(fs, gopoet.NewField(fmt.Sprintf("F%d", i), wideType(i, n, at)))
		}
		e := gopoet.NewStructTypeSpec("S", fs...)
		return func(f *gopoet.GoFile) { f.AddElement(gopoet.NewTypeDecl(e)) }
	}},
	{"methods", func(n int, at func(i, n int) bool) func(f *gopoet.GoFile) {
		var ms []gopoet.InterfaceElement
		for i := 0; i < n; i++ {
			ms = append(ms, gopoet.NewInterfaceMethod(fmt.Sprintf("M%d", i)).AddArg("a", wideType(i, n, at)))
		}
		e := gopoet.NewInterfaceTypeSpec("I", ms...)
		return func(f *gopoet.GoFile) { f.AddElement(gopoet.NewTypeDecl(e)) }
	}},
	{"arguments and results", func(n int, at func(i, n int) bool) func(f *gopoet.GoFile) {
		e := gopoet.NewFunc("f")
		for i := 0; i < n; i++ {
			e.AddArg("", wideType(i, n, at)).AddResult("", wideType(i, n, at))
		}
		return func(f *gopoet.GoFile) { f.AddElement(e) }
	}},
	{"group", func(n int, at func(i, n int) bool) func(f *gopoet.GoFile) {
		d := gopoet.NewVarDecl()
		for i := 0; i < n; i++ {
			d.AddVar(gopoet.NewVar(fmt.Sprintf("v%d", i)).SetType(wideType(i, n, at)))
		}
		return func(f *gopoet.GoFile) { f.AddElement(d) }
	}},
	{"elements", func(n int, at func(i, n int) bool) func(f *gopoet.GoFile) {
		var es []*gopoet.VarSpec
		for i := 0; i < n; i++ {
			es = append(es, gopoet.NewVar(fmt.Sprintf("v%d", i)).SetType(wideType(i, n, at)))
		}
		return func(f *gopoet.GoFile) {
			for _, e := range es {
				f.AddVar(e)
			}
		}
	}},
}

func wideSym(i int) gopoet.Symbol { return Sy{[]*P{pAFoo, pBFoo, pBar}[i%3], "X"}.Sym() }

func wideType(i, n int, at func(i, n int) bool) gopoet.TypeName {
	if at(i, n) {
		return gopoet.SliceType(gopoet.NamedType(wideSym(i)))
	}
	return gopoet.IntType
}

// wideShared: an element of many parts, in files that import the packages under
// different names.
func wideShared(x *X) {
	k := &wideKinds[x.Choose(len(wideKinds))]
	n := Pick(x, sizes())
	at := largeAt(x)
	x.Say("%d %s", n, k.name)
	firsts := [][]*P{nil, {pCFoo, pBFoo}, {pDFoo1, pBFoo, pCFoo}}
	render := func(add func(*gopoet.GoFile), how int) string {
		f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
		for _, p := range firsts[how] {
			f.RegisterImportForPackage(p.Pkg())
		}
		add(f)
		var b strings.Builder
		x.Op()
		if err := gopoet.WriteGoFile(&b, f); err != nil {
			x.Fail("rendering: %v", err)
		}
		return b.String()
	}
	add := k.make(n, at)
	order := []int{x.Choose(3), x.Choose(3), x.Choose(3)}
	x.Say("files %v", order)
	for i, how := range order {
		got := render(add, how)
		x.Saw(got)
		if want := render(k.make(n, at), how); got != want {
			x.Fail("rendering %d, of %d %s, gives\n%s\ninstead of\n%s", i, n, k.name, diffLines(got, want), diffLines(want, got))
		}
	}
}
