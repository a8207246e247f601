package main

// Rendering inside of rendering: the code that a rendering calls (formatting
// methods of arguments and data, template functions, writers, the function that
// opens files) may render other files.

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

type nestArg struct{ run func() }

func (n *nestArg) String() string { n.run(); return "1" }
func (n *nestArg) Call() string   { n.run(); return "1" }

type nestKey struct {
	S   gopoet.Symbol
	arg *nestArg
}

func (k nestKey) String() string { return k.arg.String() + k.S.Name }

var tmplCall = template.Must(template.New("t").Parse("{{.A.Call}} + {{.S}}"))
var tmplKeys = template.Must(template.New("t").Parse("{{range $k, $v := .}}{{$v}} + {{end}}1"))

type nestWriter struct {
	b          *bytes.Buffer
	run        func()
	write, end bool
}

func (w *nestWriter) Write(p []byte) (int, error) {
	if w.write {
		w.run()
	}
	n, err := w.b.Write(p)
	if w.write {
		w.run()
	}
	return n, err
}

func (w *nestWriter) Close() error {
	if w.end {
		w.run()
	}
	return nil
}

var nestPoints = []string{"argument", "argument of an initializer", "template method", "template function", "map key", "write", "open", "close"}

// nestFile builds file i, which calls run at the given point, and renders it.
func nestFile(x *X, i, point int, run func()) (string, error) {
	f := gopoet.NewGoFile(fmt.Sprintf("f%d.go", i), pSelf.Path, "self")
	pks := [][]*P{{pAFoo, pBFoo, pBar}, {pBFoo, pAFoo, pQFoo}, {pCFoo, pAFoo, pBFoo}}[i%3]
	for k, p := range pks {
		f.AddElement(gopoet.NewFunc(fmt.Sprintf("g%d", k)).SetComment(fmt.Sprintf("Of file %d.", i)).
			AddArg("a", gopoet.SliceType(tyNamed(p, "T").TN())).
			Printlnf("_ = %s", Sy{p, "X"}.Sym()).
			RenderCode(tmplSym, []interface{}{Sy{p, "Y"}.Sym(), i}))
	}
	arg := &nestArg{run}
	s := Sy{pks[1], "S"}.Sym()
	last := Sy{pks[2], "L"}.Sym()
	switch point {
	case 0:
		f.AddElement(gopoet.NewFunc("n").Printlnf("_ = %s + %s + %v + %s", s, arg, arg, last))
	case 1:
		f.AddVar(gopoet.NewVar("n").Initialize("%s + %s + %s", s, arg, last))
	case 2:
		f.AddVar(gopoet.NewVar("n").SetInitializer(gopoet.RenderCode(tmplCall, map[string]interface{}{"A": arg, "S": s}).Printf("+ %s", last)))
	case 3:
		t := template.Must(template.New("t").Funcs(template.FuncMap{"call": arg.Call}).Parse("{{call}} + {{.}}"))
		f.AddVar(gopoet.NewVar("n").SetInitializer(gopoet.RenderCode(t, s).Printf("+ %s", last)))
	case 4:
		f.AddVar(gopoet.NewVar("n").SetInitializer(gopoet.RenderCode(tmplKeys, map[nestKey]interface{}{{s, arg}: s, {last, arg}: 2})))
	}
	f.AddConst(gopoet.NewConst("end").Initialize("%q", fmt.Sprint("end of file ", i)))
	w := &nestWriter{b: &bytes.Buffer{}, run: run, write: point == 5, end: point == 7}
	x.Op()
	var err error
	if point < 6 {
		err = gopoet.WriteGoFile(w, f)
	} else {
		err = gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) {
			if point == 6 {
				run()
			}
			return w, nil
		}, f)
	}
	return w.b.String() + importsText(&f.Imports), err
}

func nested(x *X) {
	outer := x.Choose(len(nestPoints))
	inner := x.Choose(len(nestPoints))
	what := x.Choose(5)
	x.Say("rendering %s, of a file that does so in its own %s, inside of %s", []string{"", "twice", "a bad file", "a failing template", "template data"}[what], nestPoints[inner], nestPoints[outer])
	none := func() {}
	// formatting recovers from panics
	var pending interface{}
	kept := func(run func()) func() {
		return func() {
			defer func() {
				if r := recover(); r != nil && pending == nil {
					pending = r
				}
			}()
			run()
		}
	}
	alone := func(i, point int) string {
		s, err := nestFile(x, i, point, none)
		if err != nil {
			x.Fail("rendering file %d alone: %v", i, err)
		}
		return s
	}
	same := func(i, point int, run func()) {
		got, err := nestFile(x, i, point, kept(run))
		if pending != nil {
			panic(pending)
		}
		if err != nil {
			x.Fail("rendering file %d, with another one inside of %s: %v", i, nestPoints[point], err)
		}
		if want := alone(i, point); got != want {
			x.Fail("file %d, with another one rendered inside of %s, gives\n%s\nalone\n%s", i, nestPoints[point], diffLines(got, want), diffLines(want, got))
		}
		x.Saw(got)
	}
	third := func() { same(2, 0, none) }
	same(0, outer, func() {
		switch what {
		case 0:
			same(1, inner, third)
		case 1:
			same(1, inner, third)
			same(2, inner, none)
		case 2, 3:
			f := gopoet.NewGoFile("b.go", pSelf.Path, "self")
			f.AddElement(gopoet.NewFunc("b").Printlnf("_ = %s", Sy{pBFoo, "X"}.Sym()))
			if what == 2 {
				f.AddElement(gopoet.NewFunc("c").Println("@@bad"))
			} else {
				f.AddElement(gopoet.NewFunc("c").RenderCode(tmplErr, errPoison{}))
			}
			var b strings.Builder
			err, pan := call(func() error { return gopoet.WriteGoFile(&b, f) })
			if v, ok := pan.(*violation); ok {
				panic(v)
			}
			if err == nil && pan == nil {
				x.Fail("no error, but %q", b.String())
			}
			same(1, inner, third)
		case 4:
			im := gopoet.NewImportsFor(pSelf.Path)
			im.RegisterImportForPackage(pBFoo.Pkg())
			got := im.QualifyTemplateData([]interface{}{Sy{pAFoo, "X"}.Sym(), "a"}).([]interface{})
			if s := fmt.Sprintf("%v %v", got...); s != "foo1.X a" {
				x.Fail("the data becomes %s", s)
			}
			same(1, inner, third)
		}
	})
}
