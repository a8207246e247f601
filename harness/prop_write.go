package main

// C13, C14: writing files, with every outcome of every call of the writers, and
// to a real directory tree.

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"text/template"

	"github.com/jhump/gopoet"
)

// ---- files to write

type badData struct{ A int }

type errPoison struct{}

func (errPoison) Boom() (string, error) { return "", errTemplate }

var errTemplate = errors.New("template failed")
var tmplErr = template.Must(template.New("t").Parse("/* {{.Boom}} */"))
var tmplMissing = template.Must(template.New("t").Parse("before {{.Missing}} after"))

type writeKind struct {
	name string
	bad  string // "": good, "format": format error, "fail": a panic or an error
	add  func(f *gopoet.GoFile)
}

func plainElements(f *gopoet.GoFile) {
	f.AddElement(gopoet.NewFunc("g").AddArg("a", tyNamed(pAFoo, "T").TN()).Printlnf("_ = %s", Sy{pBFoo, "X"}.Sym()))
	f.AddConst(gopoet.NewConst("c").Initialize("100 // %s", "comment"))
}

var writeKinds = []writeKind{
	{"small", "", func(f *gopoet.GoFile) {}},
	{"good", "", plainElements},
	{"large", "", func(f *gopoet.GoFile) {
		f.FileComment = "file"
		f.PackageComment = "package"
		f.CanonicalImportPath = "ex.com/canonical"
		for i := 0; i < 150; i++ {
			f.AddElement(gopoet.NewFunc(fmt.Sprintf("g%d", i)).SetComment("does nothing at all").AddArg("a", tyNamed(pAFoo, "T").TN()).Printlnf("_ = %s.%s", pBFoo.Pkg(), "X"))
		}
	}},
	{"bad body", "format", func(f *gopoet.GoFile) {
		plainElements(f)
		f.AddElement(gopoet.NewFunc("f").Println("@@bad %d"))
	}},
	{"unbalanced", "format", func(f *gopoet.GoFile) {
		f.AddElement(gopoet.NewFunc("f").Println("{ // @@bad"))
		plainElements(f)
	}},
	{"bad name", "format", func(f *gopoet.GoFile) {
		plainElements(f)
		f.AddVar(gopoet.NewVar("@@bad").SetType(gopoet.IntType))
	}},
	{"failing template", "fail", func(f *gopoet.GoFile) {
		plainElements(f)
		f.AddElement(gopoet.NewFunc("f").RenderCode(tmplErr, errPoison{}))
	}},
	{"failing template in var", "fail", func(f *gopoet.GoFile) {
		f.AddVar(gopoet.NewVar("v").SetInitializer(gopoet.RenderCode(tmplMissing, badData{1})))
		plainElements(f)
	}},
	{"failing template in const", "fail", func(f *gopoet.GoFile) {
		plainElements(f)
		f.AddConst(gopoet.NewConst("d").SetInitializer(gopoet.Print("1").AddCode(gopoet.RenderCode(tmplMissing, badData{1}))))
	}},
	{"symbol without file", "fail", func(f *gopoet.GoFile) {
		plainElements(f)
		f.AddElement(gopoet.NewFunc("f").Printlnf("%s", gopoet.NewVar("a", "b")))
	}},
	{"many imports", "", manyImports},
	{"bad, many imports", "format", func(f *gopoet.GoFile) {
		plainElements(f)
		manyImports(f)
		f.AddElement(gopoet.NewFunc("f").Println("@@bad %d"))
	}},
}

// manyImports needs as many imports as there are packages.
func manyImports(f *gopoet.GoFile) {
	for i, p := range []*P{pAFoo, pBFoo, pCFoo, pDFoo1, pBar, pYaml, pQFoo, pShort, pKw, pSub} {
		f.AddVar(gopoet.NewVar(fmt.Sprintf("m%d", i)).Initialize("%s", Sy{p, "X"}.Sym()))
	}
}

func huge(funcs int) func(f *gopoet.GoFile) {
	return func(f *gopoet.GoFile) {
		f.FileComment = "file"
		for i := 0; i < funcs; i++ {
			f.AddElement(gopoet.NewFunc(fmt.Sprintf("g%d", i)).SetComment("does nothing at all").AddArg("a", tyNamed(pAFoo, "T").TN()).Printlnf("_ = %s", Sy{pBFoo, "X"}.Sym()))
		}
	}
}

// hugeKinds are files of more than any buffer is likely to hold.
var hugeKinds = []writeKind{
	{"of 70 kB", "", huge(1000)},
	{"of 160 kB", "", huge(2300)},
	{"bad, of 160 kB", "format", func(f *gopoet.GoFile) {
		plainElements(f)
		huge(2300)(f)
		f.AddElement(gopoet.NewFunc("f").Println("@@bad %d"))
	}},
}

func (k *writeKind) file(name string, p *P) *gopoet.GoFile {
	f := gopoet.NewGoFile(name, p.Path, p.Real)
	k.add(f)
	return f
}

// text is the rendering of a fresh copy of a good file.
func (k *writeKind) text(x *X, name string, p *P) string {
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, k.file(name, p)); err != nil {
		x.Fail("rendering the good file %s alone: %v", k.name, err)
	}
	return b.String()
}

// isError tells whether err is what must be reported for the bad file k.
func (k *writeKind) isError(x *X, err error) bool {
	if err == nil {
		return false
	}
	fe, isFE := err.(*gopoet.FormatError)
	if k.bad == "format" {
		if !isFE {
			return false
		}
		if !strings.Contains(string(fe.Unformatted), "@@bad") || !strings.Contains(string(fe.Unformatted), "package ") {
			x.Fail("the format error carries %q as the unformatted code", fe.Unformatted)
		}
		for _, part := range []string{"func g(", "100 // comment", ".X"} {
			if !strings.Contains(string(fe.Unformatted), part) {
				x.Fail("the unformatted code has no %q: %q", part, fe.Unformatted)
			}
		}
		_, again := format.Source(fe.Unformatted)
		if again == nil || fe.Err == nil || again.Error() != fe.Err.Error() || err.Error() != fe.Err.Error() {
			x.Fail("the format error says %v, the error in its unformatted code is %v", err, again)
		}
		return true
	}
	return !isFE
}

// ---- C13

var errOpen, errWrite, errClose = errors.New("open failed"), errors.New("write failed"), errors.New("close failed")

type faultW struct {
	x      *X
	log    *[]string
	id     int
	budget int // bytes accepted before the fault; -1: all
	got    bytes.Buffer
	failed bool
	cerr   error
	closed int
	writes int
}

func (w *faultW) Write(p []byte) (int, error) {
	w.writes++
	if w.closed > 0 {
		w.x.Fail("write to file %d after it was closed", w.id)
	}
	if w.failed {
		w.x.Fail("write to file %d after a write to it failed", w.id)
	}
	if w.budget >= 0 && w.got.Len()+len(p) > w.budget {
		n := w.budget - w.got.Len()
		w.got.Write(p[:n])
		w.failed = true
		return n, errWrite
	}
	if w.budget >= 0 && w.got.Len()+len(p) == w.budget && w.id >= 0 {
		// everything was taken, and it still fails
		w.got.Write(p)
		w.failed = true
		return len(p), errWrite
	}
	return w.got.Write(p)
}

func (w *faultW) Close() error {
	w.closed++
	*w.log = append(*w.log, fmt.Sprintf("close %d", w.id))
	if w.closed > 1 {
		w.x.Fail("file %d was closed twice", w.id)
	}
	return w.cerr
}

func call(f func() error) (err error, p interface{}) {
	defer func() { p = recover() }()
	err = f()
	return
}

// budgets are the points at which writing a text fails.
func budgets(n int) []int {
	bs := []int{-1, 0, 1, n / 2, n - 1, n}
	if thorough && n > 100 {
		for i := 7; i < n; i += n / 40 {
			bs = append(bs, i)
		}
	}
	return bs
}

func writeMany(x *X, maxFiles int, kinds []writeKind) {
	n := x.Choose(maxFiles + 1)
	type item struct {
		k    *writeKind
		f    *gopoet.GoFile
		path string
		text string
	}
	var items []item
	pk := []*P{pSelf, pAFoo, pShort, pYaml}
	for i := 0; i < n; i++ {
		if i > 0 && x.Bool() {
			x.Say("file %d is file 0 again", i)
			items = append(items, items[0])
			continue
		}
		k := &kinds[x.Choose(len(kinds))]
		name := fmt.Sprintf("f%d.go", i)
		it := item{k: k, f: k.file(name, pk[i]), path: pk[i].Path + "/" + name}
		if k.bad == "" {
			it.text = k.text(x, name, pk[i])
		}
		x.Say("file %d: %s", i, k.name)
		items = append(items, it)
	}
	var files []*gopoet.GoFile
	for _, it := range items {
		files = append(files, it.f)
	}
	var log []string
	var opened []*faultW
	var firstErr error // of the writers, in order of occurrence
	open := func(path string) (io.WriteCloser, error) {
		i := len(opened)
		if i >= len(items) {
			x.Fail("opens %q, which is one file too many", path)
		}
		if i > 0 && opened[i-1].closed != 1 {
			x.Fail("opens %q before the previous file is closed", path)
		}
		if firstErr != nil {
			x.Fail("opens %q after an error", path)
		}
		log = append(log, fmt.Sprintf("open %d", i))
		if path != items[i].path {
			x.Fail("opens %q, the file's path is %q", path, items[i].path)
		}
		w := &faultW{x: x, log: &log, id: i, budget: -1}
		if x.Bool() {
			x.Say("open %d fails", i)
			firstErr = errOpen
			return nil, errOpen
		}
		opened = append(opened, w)
		if items[i].k.bad == "" {
			w.budget = Pick(x, budgets(len(items[i].text)))
		} else if x.Bool() {
			w.budget = 0
		}
		if x.Bool() {
			w.cerr = errClose
		}
		x.Say("file %d: writer takes %d bytes, close gives %v", i, w.budget, w.cerr)
		return w, nil
	}
	x.Op()
	err, pan := call(func() error { return gopoet.WriteGoFiles(open, files...) })
	if v, ok := pan.(*violation); ok {
		panic(v)
	}
	for _, w := range opened {
		x.Saw(w.got.String())
	}
	x.Saw(fmt.Sprint(log, err, pan != nil))
	// what the reference says must have happened
	var want error
	wantBad := -1
	done := 0
	for i, it := range items {
		if i >= len(opened) {
			if firstErr == nil {
				x.Fail("stops before file %d without an error: %v", i, err)
			}
			want = firstErr
			break
		}
		w := opened[i]
		if w.closed != 1 {
			x.Fail("file %d was opened and closed %d times", i, w.closed)
		}
		done++
		if it.k.bad != "" {
			if w.writes != 0 {
				x.Fail("%q was written for a file that can not be rendered", w.got.String())
			}
			wantBad = i
			break
		}
		if w.budget >= 0 && w.budget < len(it.text) || w.failed {
			if !strings.HasPrefix(it.text, w.got.String()) {
				x.Fail("file %d: wrote %q of %q", i, w.got.String(), it.text)
			}
			if !w.failed {
				x.Fail("file %d: wrote only %q", i, w.got.String())
			}
			want = errWrite
			break
		}
		if w.got.String() != it.text {
			x.Fail("file %d: wrote %q, not %q", i, w.got.String(), it.text)
		}
		if w.cerr != nil {
			want = errClose
			break
		}
	}
	if wantBad >= 0 {
		k := items[wantBad].k
		if k.bad == "fail" {
			if pan == nil && !k.isError(x, err) {
				x.Fail("no panic, and the error %v, for %s", err, k.name)
			}
		} else if pan != nil {
			x.Fail("panic: %v", pan)
		} else if !k.isError(x, err) {
			x.Fail("the error for %s is %v", k.name, err)
		}
	} else if pan != nil {
		x.Fail("panic: %v", pan)
	} else if err != want {
		x.Fail("the error is %v, it should be %v", err, want)
	}
	if len(opened) != done {
		x.Fail("%d files were opened, %d should have been", len(opened), done)
	}
}

// writeLots: many files, one of which fails.
func writeLots(x *X) {
	n := Pick(x, []int{5, 8, 9, 16, 17, 18, 31, 33, 34, 65})
	bad, how := x.Choose(n), x.Choose(5)
	x.Say("%d files, failure %d at %d", n, how, bad)
	var files []*gopoet.GoFile
	var texts []string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d.go", i)
		k := &writeKinds[i%2]
		if how == 4 && i == bad {
			k = &writeKinds[3]
		}
		p := []*P{pAFoo, pBar, pSelf}[i%3]
		files = append(files, k.file(name, p))
		texts = append(texts, "")
		if k.bad == "" {
			texts[i] = k.text(x, name, p)
		}
	}
	var log []string
	var opened []*faultW
	want := []error{nil, errOpen, errWrite, errClose, nil}[how]
	x.Op()
	err, pan := call(func() error {
		return gopoet.WriteGoFiles(func(path string) (io.WriteCloser, error) {
			i := len(opened)
			if i >= n {
				x.Fail("opens %q, which is one file too many", path)
			}
			if p := files[i].Package().ImportPath + "/" + files[i].Name; path != p {
				x.Fail("opens %q, the path of file %d is %q", path, i, p)
			}
			if i > 0 && opened[i-1].closed != 1 {
				x.Fail("opens %q before the previous file is closed", path)
			}
			w := &faultW{x: x, log: &log, id: i, budget: -1}
			opened = append(opened, w)
			if i == bad {
				switch how {
				case 1:
					return nil, errOpen
				case 2:
					w.budget = 10
				case 3:
					w.cerr = errClose
				}
			}
			return w, nil
		}, files...)
	})
	if v, ok := pan.(*violation); ok {
		panic(v)
	}
	if pan != nil {
		x.Fail("panic: %v", pan)
	}
	x.Saw(fmt.Sprint(log, err))
	if how == 4 && !writeKinds[3].isError(x, err) || how != 4 && err != want {
		x.Fail("the error is %v, with failure %d in file %d of %d", err, how, bad, n)
	}
	last := n
	if how != 0 {
		last = bad + 1
	}
	if len(opened) != last {
		x.Fail("%d files of %d were opened, with failure %d in file %d", len(opened), n, how, bad)
	}
	for i, w := range opened {
		if i == bad && how == 1 {
			continue
		}
		if w.closed != 1 {
			x.Fail("file %d of %d was closed %d times", i, n, w.closed)
		}
		if (i != bad || how == 0 || how == 3) && w.got.String() != texts[i] {
			x.Fail("file %d of %d got %q, not %q", i, n, w.got.String(), texts[i])
		}
	}
}

// writeOne: a single file to a writer that fails after any number of bytes.
func writeOne(x *X, kinds []writeKind) {
	k := &kinds[x.Choose(len(kinds))]
	f := k.file("f.go", pSelf)
	var log []string
	w := &faultW{x: x, log: &log, budget: -1, id: 0}
	text := ""
	if k.bad == "" {
		text = k.text(x, "f.go", pSelf)
		step := 1
		if len(text) > 1000 {
			step = 97
		}
		if len(text) > 50000 {
			step = len(text) / depthQT(60, 300)
		}
		w.budget = x.Choose(len(text)/step+2)*step - 1
	} else if x.Bool() {
		w.budget = 0
	}
	x.Say("%s, the writer takes %d bytes", k.name, w.budget)
	x.Op()
	err, pan := call(func() error { return gopoet.WriteGoFile(w, f) })
	if v, ok := pan.(*violation); ok {
		panic(v)
	}
	x.Saw(fmt.Sprint(k.name, w.budget, err))
	if w.closed != 0 {
		x.Fail("WriteGoFile closed its writer")
	}
	switch {
	case k.bad == "fail":
		if pan == nil && !k.isError(x, err) || w.writes > 0 {
			x.Fail("%s: error %v and %q written", k.name, err, w.got.String())
		}
	case pan != nil:
		x.Fail("panic: %v", pan)
	case k.bad != "":
		if !k.isError(x, err) || w.writes > 0 {
			x.Fail("%s: error %v and %q written", k.name, err, w.got.String())
		}
	case w.budget >= 0 && w.budget <= len(text):
		if err != errWrite {
			x.Fail("the error is %v, the writer's is %v", err, errWrite)
		}
		if w.got.String() != text[:w.budget] {
			x.Fail("wrote %q of %q", w.got.String(), text)
		}
	default:
		if err != nil || w.got.String() != text {
			x.Fail("error %v and %q written, not %q", err, w.got.String(), text)
		}
	}
	// the file can be rendered all the same
	if k.bad == "" {
		var b bytes.Buffer
		if err := gopoet.WriteGoFile(&b, f); err != nil || b.String() != text {
			x.Fail("rendered again: error %v, %q, not %q", err, b.String(), text)
		}
	}
}

// writeKept: errors of earlier renderings still say what they said, whatever is
// rendered after them, and belong to the caller.
func writeKept(x *X, depth int) {
	type kept struct {
		err  *gopoet.FormatError
		code string
		text string
	}
	var errs []kept
	many := x.Bool() // through WriteGoFiles
	one := x.Bool()  // the same file again, if it is of the same kind
	files := map[int]*gopoet.GoFile{}
	n := 2 + x.Choose(depth-1)
	for i := 0; i < n; i++ {
		c := x.Choose(len(writeKinds))
		k := &writeKinds[c]
		x.Say("%s", k.name)
		f := files[c]
		if f == nil || !one {
			f = gopoet.NewGoFile(fmt.Sprintf("f%d.go", i), pSelf.Path, "self")
			f.AddElement(gopoet.NewFunc(fmt.Sprintf("unlike%d%s", i, strings.Repeat("x", 10*i))))
			k.add(f)
			files[c] = f
		}
		var b bytes.Buffer
		x.Op()
		err, pan := call(func() error {
			if many {
				return gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) { return nopCloser{&b}, nil }, f)
			}
			return gopoet.WriteGoFile(&b, f)
		})
		if v, ok := pan.(*violation); ok {
			panic(v)
		}
		for j, e := range errs {
			if string(e.err.Unformatted) != e.code || e.err.Error() != e.text {
				x.Fail("rendering %d changes the error of rendering %d from %q about\n%s\nto %q about\n%s", i, j, e.text, e.code, e.err.Error(), e.err.Unformatted)
			}
		}
		switch {
		case k.bad == "format":
			fe, ok := err.(*gopoet.FormatError)
			if !ok {
				x.Fail("%s gives the error %v and the panic %v", k.name, err, pan)
			}
			e := kept{fe, string(fe.Unformatted), fe.Error()}
			if !strings.Contains(e.code, "func unlike") || !strings.Contains(e.code, "@@bad") {
				x.Fail("the format error carries %q as the unformatted code", e.code)
			}
			x.Saw(e.code)
			if x.Bool() {
				// the caller may do with it what it likes
				for i := range fe.Unformatted {
					fe.Unformatted[i] = '!'
				}
				e.code = strings.Repeat("!", len(e.code))
			}
			errs = append(errs, e)
		case k.bad == "":
			if err != nil || pan != nil {
				x.Fail("%s gives the error %v and the panic %v", k.name, err, pan)
			}
			if strings.Contains(b.String(), "!") || !strings.Contains(b.String(), "func unlike") {
				x.Fail("%s is rendered as %q", k.name, b.String())
			}
			x.Saw(b.String())
		}
	}
}

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

// ---- C14

// asNobody runs f without root's privileges, so that whatever f does can not
// harm anything but what belongs to nobody.
func asNobody(f func()) {
	if os.Geteuid() != 0 {
		f()
		return
	}
	const nobody = 65534
	if err := syscall.Setresgid(-1, nobody, -1); err != nil {
		panic("ENGINE " + err.Error())
	}
	if err := syscall.Setresuid(-1, nobody, -1); err != nil {
		panic("ENGINE " + err.Error())
	}
	defer func() {
		if err := syscall.Setresuid(-1, 0, -1); err != nil {
			panic("ENGINE " + err.Error())
		}
		if err := syscall.Setresgid(-1, 0, -1); err != nil {
			panic("ENGINE " + err.Error())
		}
	}()
	f()
}

// tree lists a directory: contents of files, "/" for directories.
func tree(dir string) map[string]string {
	t := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			t[r] = "/"
			return nil
		}
		if !d.Type().IsRegular() {
			t[r] = d.Type().String()
			return nil
		}
		b, err := os.ReadFile(p)
		t[r] = "=" + string(b)
		return err
	})
	if err != nil {
		panic("ENGINE " + err.Error())
	}
	return t
}

func treeS(t map[string]string) string {
	var out []string
	for k, v := range t {
		if len(v) > 60 {
			v = v[:60] + "..."
		}
		out = append(out, fmt.Sprintf("%s %q", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type rootKind struct {
	name  string
	arg   func(scratch string) string // what is passed
	at    string                      // where that is in the scratch directory
	unset bool
	list  []string // further GOPATH entries
}

var fsRoots = []rootKind{
	{"existing", func(s string) string { return s + "/out" }, "out", false, nil},
	{"existing with slash", func(s string) string { return s + "/out/" }, "out", false, nil},
	{"new", func(s string) string { return s + "/new/er/root" }, "new/er/root", false, nil},
	{"relative", func(s string) string { return "out" }, "cwd/out", false, nil},
	{"dot", func(s string) string { return "." }, "cwd", false, nil},
	{"up", func(s string) string { return "../out/../out" }, "out", false, nil},
	{"empty", func(s string) string { return "" }, "cwd", false, nil},
	{"with blanks", func(s string) string { return s + "/a b:c" }, "a b:c", false, nil},
	{"ends in a blank", func(s string) string { return s + "/out " }, "out ", false, nil},
	{"with a variable", func(s string) string { return s + "/$HOME/${X}" }, "$HOME/${X}", false, nil},
	{"tilde", func(s string) string { return "~" }, "cwd/~", false, nil},
	{"blank", func(s string) string { return " " }, "cwd/ ", false, nil},
	{"with special characters", func(s string) string { return s + "/a;b,c\td%20*?[x]{y}'\"\\" }, "a;b,c\td%20*?[x]{y}'\"\\", false, nil},
}

var gopathRoots = []rootKind{
	{"unset", nil, "", true, nil},
	{"empty", nil, "", false, nil},
	{"one", func(s string) string { return s + "/out" }, "out", false, nil},
	{"new", func(s string) string { return s + "/new/root" }, "new/root", false, nil},
	{"two", func(s string) string { return s + "/out" }, "out", false, []string{"other"}},
	{"three", func(s string) string { return s + "/other" }, "other", false, []string{"out", "third"}},
	{"one and an empty entry", func(s string) string { return s + "/out" }, "out", false, []string{""}},
	{"ends in a blank", func(s string) string { return s + "/out " }, "out ", false, nil},
	{"blanks inside", func(s string) string { return s + "/ a  b/ c" }, " a  b/ c", false, []string{"other"}},
	{"with a variable", func(s string) string { return s + "/$HOME" }, "$HOME", false, nil},
	{"with a tilde", func(s string) string { return s + "/~/~x" }, "~/~x", false, nil},
	{"with quotes", func(s string) string { return s + "/\"q'\\" }, "\"q'\\", false, nil},
	{"with other separators", func(s string) string { return s + "/a;b,c\td" }, "a;b,c\td", false, nil},
	{"with escapes", func(s string) string { return s + "/a%20b+c*?[x]{y}" }, "a%20b+c*?[x]{y}", false, nil},
	{"with a slash", func(s string) string { return s + "/out/" }, "out", false, []string{"other"}},
	{"with dots", func(s string) string { return s + "/./new/../out//." }, "out", false, nil},
	{"relative", func(s string) string { return "out" }, "cwd/out", false, []string{"other"}},
	{"relative, up", func(s string) string { return "../out" }, "out", false, nil},
	{"relative with a tilde", func(s string) string { return "~" }, "cwd/~", false, nil},
	{"relative blank", func(s string) string { return " " }, "cwd/ ", false, nil},
	{"ends in src", func(s string) string { return s + "/out/src" }, "out/src", false, nil},
	{"twice", func(s string) string { return s + "/out" }, "out", false, []string{"out"}},
}

var fsPkgs = []*P{pSelf, {Path: "p", Real: "p"}, {Path: "a/b/c/d", Real: "d"}, {Path: "gopkg.in/x.v2", Real: "x"}, {Path: "", Real: "main"}}

// what is there before, at the path of the first file
var fsBefore = []string{"nothing", "directory", "shorter", "longer", "same", "neighbours", "directory in the way", "file for directory", "read-only directory", "read-only file"}

// packages whose paths are related
var alikePkgs = []*P{
	{Path: "a/b", Real: "b"}, {Path: "a/bc", Real: "bc"}, {Path: "a", Real: "a"}, {Path: "a/b/c", Real: "c"}, {Path: "ab", Real: "ab"}, {Path: "a/B", Real: "b"}, {Path: "", Real: "main"}, {Path: "b", Real: "b"}, {Path: "a/b/a/b", Real: "b"},
}

func fsCheck(x *X, gopath, alike bool, nfiles int, kinds []writeKind) {
	roots := fsRoots
	if gopath {
		roots = gopathRoots
	}
	pkgs, befores := fsPkgs, fsBefore
	if alike {
		roots, pkgs, befores = fsRoots[:3:3], alikePkgs, fsBefore[:2]
		if gopath {
			roots = []rootKind{gopathRoots[2], gopathRoots[3], gopathRoots[4]}
		}
	}
	r := Pick(x, roots)
	p := Pick(x, pkgs)
	n := 1 + x.Choose(nfiles)
	before := Pick(x, befores)
	x.Say("root %s, package %q, %d files, before: %s", r.name, p.Path, n, before)
	scratch, err := os.MkdirTemp("", "fs")
	if err != nil {
		panic("ENGINE " + err.Error())
	}
	defer func() {
		os.Chdir("/")
		filepath.WalkDir(scratch, func(p string, d fs.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(scratch)
	}()
	os.Chmod(scratch, 0777)
	must := func(err error) {
		if err != nil {
			panic("ENGINE " + err.Error())
		}
	}
	asNobody(func() {
		for _, d := range []string{"out", "cwd/out", "other", "third"} {
			must(os.MkdirAll(filepath.Join(scratch, d), 0755))
		}
		must(os.WriteFile(filepath.Join(scratch, "out", "keep.go"), []byte("keep"), 0644))
		must(os.WriteFile(filepath.Join(scratch, "cwd", "keep.go"), []byte("keep"), 0644))
	})
	type item struct {
		path, text string
		k          *writeKind
	}
	var items []item
	var files []*gopoet.GoFile
	for i := 0; i < n; i++ {
		k := &kinds[x.Choose(len(kinds))]
		q := p
		name := fmt.Sprintf("f%d.go", i)
		if i == 1 && !alike && x.Bool() {
			q = pBar
		}
		if i == 2 {
			q, name = &P{Path: strings.TrimPrefix(p.Path+"/sub", "/"), Real: "sub"}, "f0.go"
		}
		if alike && i > 0 {
			q, name = Pick(x, alikePkgs), Pick(x, []string{"f0.go", "f.go"})
		}
		it := item{path: filepath.Join(r.at, q.Path, name), k: k}
		if k.bad == "" {
			it.text = k.text(x, name, q)
		}
		x.Say("%s %s", it.path, k.name)
		files = append(files, k.file(name, q))
		items = append(items, it)
	}
	okRoot := !gopath || r.arg != nil
	abs := filepath.Join(scratch, items[0].path)
	dir := filepath.Dir(abs)
	fails := false // whether the first file can not be opened
	asNobody(func() {
		if !okRoot && before != "nothing" {
			x.Skip()
		}
		switch before {
		case "nothing":
			return
		case "file for directory":
			if p.Path == "" {
				x.Skip()
			}
			must(os.MkdirAll(filepath.Dir(dir), 0755))
			must(os.WriteFile(dir, []byte("a file"), 0644))
			fails = true
			return
		}
		must(os.MkdirAll(dir, 0755))
		long := strings.Repeat("// a long line of former contents\n", 400)
		switch before {
		case "shorter":
			must(os.WriteFile(abs, []byte("x"), 0644))
		case "longer":
			must(os.WriteFile(abs, []byte(long), 0644))
		case "same":
			must(os.WriteFile(abs, []byte(items[0].text), 0644))
		case "neighbours":
			must(os.WriteFile(filepath.Join(dir, "f.go"), []byte("near"), 0644))
			must(os.WriteFile(abs+"~", []byte("near"), 0644))
			must(os.WriteFile(abs+".tmp", []byte("near"), 0644))
			must(os.MkdirAll(filepath.Join(dir, "f0"), 0755))
		case "directory in the way":
			must(os.MkdirAll(abs, 0755))
			fails = true
		case "read-only directory":
			must(os.Chmod(dir, 0555))
			fails = true
		case "read-only file":
			must(os.WriteFile(abs, []byte("x"), 0444))
			fails = true
		}
	})
	was := tree(scratch)
	var got error
	var pan interface{}
	must(os.Chdir(filepath.Join(scratch, "cwd")))
	asNobody(func() {
		x.Op()
		if !gopath {
			got, pan = call(func() error { return gopoet.WriteGoFilesToFileSystem(r.arg(scratch), files...) })
			return
		}
		if r.unset {
			os.Unsetenv("GOPATH")
		} else {
			v := ""
			if r.arg != nil {
				v = r.arg(scratch)
				for _, l := range r.list {
					if l != "" {
						l = filepath.Join(scratch, l)
					}
					v += string(filepath.ListSeparator) + l
				}
			}
			os.Setenv("GOPATH", v)
		}
		got, pan = call(func() error { return gopoet.WriteGoFilesToGoPath(files...) })
	})
	is := tree(scratch)
	want := map[string]string{}
	for k, v := range was {
		want[k] = v
	}
	mayDir := map[string]bool{} // directories that may or may not be made
	mayFile := ""               // a file whose contents are open
	mkdirs := func(p string, must bool) {
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			if want[d] == "" {
				if must {
					want[d] = "/"
				} else {
					mayDir[d] = true
				}
			}
		}
	}
	wantErr := ""
	if !okRoot {
		wantErr = "GOPATH"
	} else {
		for i, it := range items {
			if i == 0 && fails {
				mkdirs(it.path, false)
				wantErr = "file system"
				break
			}
			if it.k.bad != "" {
				mkdirs(it.path, false)
				mayFile = it.path
				wantErr = it.k.bad
				if it.k.bad == "fail" && pan != nil {
					pan, got = nil, errTemplate
				}
				if !it.k.isError(x, got) {
					x.Fail("the error is %v", got)
				}
				break
			}
			mkdirs(it.path, true)
			want[it.path] = "=" + it.text
		}
	}
	if pan != nil {
		x.Fail("panic: %v", pan)
	}
	x.Saw(fmt.Sprint(treeS(is), got != nil))
	if (got != nil) != (wantErr != "") {
		x.Fail("the error is %v, expected %s error\n%s", got, wantErr, treeS(is))
	}
	if wantErr == "file system" {
		var pe *fs.PathError
		if !errors.As(got, &pe) {
			x.Fail("the error is %v (%T), not that of the file system", got, got)
		}
	}
	for k, v := range is {
		if k == mayFile && (v == "=" || v == was[k]) {
			continue
		}
		if mayDir[k] && v == "/" {
			continue
		}
		if want[k] != v {
			x.Fail("%s is %q, it should be %q; error %v\n%s", k, v, want[k], got, treeS(is))
		}
	}
	for k, v := range want {
		if _, ok := is[k]; !ok && k != mayFile {
			x.Fail("there is no %s, it should be %q; error %v\n%s", k, v, got, treeS(is))
		}
	}
}

// fsLots: many files, in a few directories, some of which there are already.
func fsLots(x *X) {
	n := Pick(x, []int{5, 17, 65, depthQT(130, 1200)})
	dirs := Pick(x, []int{1, 3})
	gopath := x.Bool()
	old := x.Choose(3) // which files there are already: none, every second, all
	x.Say("%d files of %d packages, GOPATH %v, %d", n, dirs, gopath, old)
	scratch, err := os.MkdirTemp("", "fs")
	if err != nil {
		panic("ENGINE " + err.Error())
	}
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0777)
	var files []*gopoet.GoFile
	var texts, names []string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d.go", i)
		p := &P{Path: fmt.Sprintf("ex.com/d%d/sub", i%dirs), Real: "sub"}
		k := &writeKinds[i%2]
		files = append(files, k.file(name, p))
		texts = append(texts, k.text(x, name, p))
		names = append(names, filepath.Join(scratch, p.Path, name))
	}
	asNobody(func() {
		for i, name := range names {
			if old == 2 || old == 1 && i%2 == 0 {
				os.MkdirAll(filepath.Dir(name), 0755)
				if err := os.WriteFile(name, []byte(strings.Repeat("old text\n", 300)), 0644); err != nil {
					panic("ENGINE " + err.Error())
				}
			}
		}
		x.Op()
		if gopath {
			was := os.Getenv("GOPATH")
			os.Setenv("GOPATH", scratch)
			err = gopoet.WriteGoFilesToGoPath(files...)
			os.Setenv("GOPATH", was)
		} else {
			err = gopoet.WriteGoFilesToFileSystem(scratch, files...)
		}
	})
	if err != nil {
		x.Fail("writing %d files: %v", n, err)
	}
	for i, name := range names {
		b, err := os.ReadFile(name)
		if err != nil || string(b) != texts[i] {
			x.Fail("file %d of %d: %v, holds %q, not %q", i, n, err, b, texts[i])
		}
	}
	found := 0
	filepath.WalkDir(scratch, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			found++
		}
		return nil
	})
	if found != n {
		x.Fail("there are %d files after writing %d", found, n)
	}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, scratch) {
			x.Fail("%s is still open", to)
		}
	}
	x.Saw(fmt.Sprint(n, dirs, gopath, old))
}

func init() {
	some := []writeKind{writeKinds[1], writeKinds[3], writeKinds[6], writeKinds[9]}
	register(&Prop{ID: "C13", Level: "fault_enumeration",
		Rule:   "every combination of files that can and can not be rendered, of outcomes of opening, of the number of bytes after which writing fails and of outcomes of closing, for every number of files up to the bound; the calls made, their order, the bytes written and the error are compared with a reference",
		Assume: []string{"writers obey the contract of io.Writer (fewer bytes than given means an error)"},
		Harnesses: []*Harness{
			{Name: "one file", Body: func(x *X) { writeOne(x, writeKinds) }},
			{Name: "huge", Body: func(x *X) { writeOne(x, hugeKinds) }},
			{Name: "kept errors", Body: func(x *X) { writeKept(x, depthQT(3, 4)) }},
			{Name: "lots of files", Body: writeLots},
			{Name: "two files", Body: func(x *X) { writeMany(x, 2, writeKinds) }},
			{Name: "three files", Body: func(x *X) { writeMany(x, depthQT(3, 4), some) }},
		}})
	ok := []writeKind{writeKinds[1]}
	fskinds := func() []writeKind {
		k := []writeKind{writeKinds[1], writeKinds[3], writeKinds[0], writeKinds[6]}
		return k[:depthQT(2, 4)]
	}
	register(&Prop{ID: "C14", Level: "fault_enumeration",
		Rule:   "every form of root directory and of GOPATH, every shape of import path, every number of files up to the bound and every state of the file system before; the whole directory tree afterwards is compared with a reference",
		Assume: []string{"the file system does not fail in ways other than those set up", "a first GOPATH entry that is empty in a list with others has no defined meaning"},
		Harnesses: []*Harness{
			{Name: "file system", Single: true, Body: func(x *X) { fsCheck(x, false, false, depthQT(2, 3), fskinds()) }},
			{Name: "GOPATH", Single: true, Body: func(x *X) { fsCheck(x, true, false, depthQT(2, 3), fskinds()) }},
			{Name: "lots of files", Single: true, Body: fsLots},
			{Name: "three files", Single: true, Body: func(x *X) { fsCheck(x, x.Bool(), false, 3, ok) }},
			{Name: "alike packages", Single: true, Body: func(x *X) { fsCheck(x, thorough && x.Bool(), true, depthQT(2, 3), ok) }},
		}})
}
