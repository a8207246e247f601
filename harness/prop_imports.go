package main

// C01, C02: histories of registrations on one set of imports. C03: qualifying.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

func identOK(s string) bool {
	return token.IsIdentifier(s) && s != "_" && s != "init"
}

// catch runs f and reports whether it panicked.
func catch(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case *violation, skip:
				panic(r)
			}
			msg, panicked = fmt.Sprint(r), true
		}
	}()
	f()
	return
}

// impModel is the reference model of a set of imports: which paths are
// registered, with which prefix, and under which given name.
type impModel struct {
	x      *X
	im     *gopoet.Imports
	own    string
	prefix map[string]string
	given  map[string]string
	byName map[string]string
	order  []string
}

func newImpModel(x *X, im *gopoet.Imports, own string) *impModel {
	return &impModel{x: x, im: im, own: own, prefix: map[string]string{}, given: map[string]string{}, byName: map[string]string{}}
}

// saw is told that registering path under the given name returned prefix p
// (without the dot).
func (m *impModel) saw(path, given, p string) {
	m.x.Saw(p)
	if path == m.own {
		if p != "" {
			m.x.Fail("the file's own package %q got the prefix %q", path, p)
		}
		return
	}
	if old, ok := m.prefix[path]; ok {
		if old != p {
			m.x.Fail("package %q was given the prefix %q and later %q", path, old, p)
		}
		return
	}
	if !identOK(p) {
		m.x.Fail("package %q got the unusable prefix %q", path, p)
	}
	if other, ok := m.byName[p]; ok {
		m.x.Fail("packages %q and %q share the prefix %q", other, path, p)
	}
	if given != "" {
		if _, taken := m.byName[given]; !taken && p != given {
			m.x.Fail("package %q named %q got the alias %q although the name was free", path, given, p)
		}
	} else if token.Lookup(p).IsKeyword() {
		m.x.Fail("package %q of unknown name got the keyword %q as prefix", path, p)
	}
	m.prefix[path], m.given[path], m.byName[p] = p, given, path
	m.order = append(m.order, path)
}

func (m *impModel) undot(path, p string) string {
	if path == m.own {
		return p
	}
	if !strings.HasSuffix(p, ".") {
		m.x.Fail("the prefix %q of %q has no trailing dot", p, path)
	}
	return strings.TrimSuffix(p, ".")
}

func (m *impModel) register(how int, pkg gopoet.Package) {
	m.x.Op()
	switch how {
	case 0:
		m.saw(pkg.ImportPath, pkg.Name, m.undot(pkg.ImportPath, m.im.RegisterImport(pkg.ImportPath, pkg.Name)))
	case 1:
		m.saw(pkg.ImportPath, pkg.Name, m.undot(pkg.ImportPath, m.im.RegisterImportForPackage(pkg)))
	case 2:
		s := m.im.EnsureImported(pkg.Symbol("Sy"))
		if s.Name != "Sy" || s.Package.ImportPath != pkg.ImportPath {
			m.x.Fail("EnsureImported(%v) returned %+v", pkg, s)
		}
		m.saw(pkg.ImportPath, pkg.Name, s.Package.Name)
	case 3:
		t := m.im.EnsureTypeImported(gopoet.SliceType(gopoet.NamedType(pkg.Symbol("T"))))
		m.saw(pkg.ImportPath, pkg.Name, t.Elem().Symbol().Package.Name)
	case 4:
		d := m.im.QualifyTemplateData(struct{ P gopoet.Package }{pkg}).(struct{ P gopoet.Package })
		m.saw(pkg.ImportPath, pkg.Name, d.P.Name)
	}
}

func (m *impModel) lookup(path string) {
	m.x.Op()
	var got string
	msg, panicked := catch(func() { got = m.im.PrefixForPackage(path) })
	want, ok := m.prefix[path]
	if path == m.own {
		want, ok = "", true
	}
	switch {
	case ok && panicked:
		m.x.Fail("PrefixForPackage(%q) panicked for a registered package: %s", path, msg)
	case !ok && !panicked:
		m.x.Fail("PrefixForPackage(%q) returned %q for a package that was never registered", path, got)
	case ok && m.undot(path, got) != want:
		m.x.Fail("PrefixForPackage(%q) = %q, but it was registered as %q", path, got, want)
	}
	msg, panicked = catch(func() {
		s := m.im.Qualify(gopoet.Symbol{Name: "S", Package: gopoet.Package{ImportPath: path, Name: "whatever"}})
		if ok && s.Package.Name != want {
			m.x.Fail("Qualify gave prefix %q to %q, which is registered as %q", s.Package.Name, path, want)
		}
	})
	if ok == panicked {
		m.x.Fail("Qualify for %q: registered=%v panicked=%v %s", path, ok, panicked, msg)
	}
	m.x.Saw(fmt.Sprint(ok))
}

// stable: all prefixes handed out are still what the imports say.
func (m *impModel) stable() {
	for _, p := range m.order {
		if got := m.im.PrefixForPackage(p); got != m.prefix[p]+"." {
			m.x.Fail("package %q was given the prefix %q, now it is %q", p, m.prefix[p], got)
		}
	}
}

// specs compares the import statements with the prefixes handed out.
func (m *impModel) specs() {
	m.x.Op()
	specs := m.im.ImportSpecs()
	var paths []string
	for _, s := range specs {
		paths = append(paths, s.ImportPath)
	}
	m.x.Saw(fmt.Sprint(specs))
	if !sort.StringsAreSorted(paths) {
		m.x.Fail("imports are not sorted by path: %q", paths)
	}
	want := append([]string(nil), m.order...)
	sort.Strings(want)
	if strings.Join(paths, "\n") != strings.Join(want, "\n") {
		m.x.Fail("imported paths are %q, registered were %q", paths, want)
	}
	for _, s := range specs {
		m.spec(s)
	}
	// the caller owns the result
	for i := range specs {
		specs[i] = gopoet.ImportSpec{PackageAlias: "gone", ImportPath: "gone"}
	}
	again := m.im.ImportSpecs()
	for i, p := range paths {
		if i >= len(again) || again[i].ImportPath != p {
			m.x.Fail("changing the returned import specs changed the imports: %v", again)
		}
	}
}

func (m *impModel) spec(s gopoet.ImportSpec) {
	prefix, given := m.prefix[s.ImportPath], m.given[s.ImportPath]
	if given == prefix {
		if s.PackageAlias != "" {
			m.x.Fail("%v: alias although the prefix is the package's own name %q", s, given)
		}
	} else if s.PackageAlias != prefix {
		m.x.Fail("%v: references to it use the prefix %q, its name is %q", s, prefix, given)
	}
	text := strconv.Quote(s.ImportPath)
	if s.PackageAlias != "" {
		text = s.PackageAlias + " " + text
	}
	if s.String() != text {
		m.x.Fail("import %q is printed as %q", text, s.String())
	}
	// as a statement of Go source
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package p\nimport "+s.String()+"\n", 0)
	if err != nil {
		m.x.Fail("import %s does not parse: %v", s, err)
	}
	if len(f.Imports) != 1 {
		m.x.Fail("import %s is %d imports", s, len(f.Imports))
	}
	is := f.Imports[0]
	p, _ := strconv.Unquote(is.Path.Value)
	a := ""
	if is.Name != nil {
		a = is.Name.Name
	}
	if p != s.ImportPath || a != s.PackageAlias {
		m.x.Fail("import %s reads back as alias %q path %q", s, a, p)
	}
}

type impOp struct {
	how int
	pkg gopoet.Package
}

var impOps = []impOp{
	{0, pAFoo.Pkg()}, {1, pBFoo.Pkg()}, {0, pDFoo1.Pkg()}, {0, pQFoo.Pkg()}, {2, pCFoo.Pkg()}, {0, pSelf.Pkg()},
	{9, pAFoo.Pkg()}, {3, pShort.Pkg()}, {1, pBar.Pkg()}, {0, pYaml.Pkg()}, {2, pSub.Pkg()}, {3, pOSelf.Pkg()},
	{4, pKw.Pkg()}, {0, gopoet.Package{ImportPath: pSelf.Path}}, {2, gopoet.Package{ImportPath: pBFoo.Path}}, {9, pSelf.Pkg()},
}

// newImps picks one of the ways to have imports.
func newImps(x *X, k int) (*gopoet.Imports, string) {
	switch k {
	case 0:
		return gopoet.NewImportsFor(pSelf.Path), pSelf.Path
	case 1:
		return &gopoet.NewGoFile("f.go", pSelf.Path, "self").Imports, pSelf.Path
	default:
		return &gopoet.Imports{}, ""
	}
}

func impHistory(x *X, depth int, specs bool) {
	im, own := newImps(x, 0)
	m := newImpModel(x, im, own)
	n := 1 + x.Choose(depth)
	for i := 0; i < n; i++ {
		op := impOps[x.Choose(len(impOps))]
		x.Say("op %d: how=%d %+v", i, op.how, op.pkg)
		if op.how == 9 {
			m.lookup(op.pkg.ImportPath)
		} else {
			m.register(op.how, op.pkg)
		}
		if specs {
			m.specs()
		}
	}
	m.stable()
	for _, p := range universe {
		m.lookup(p.Path)
	}
	m.stable()
	if specs {
		m.specs()
	}
}

// impLong: many packages with the same base, in orders that are free for the
// first few.
func impLong(x *X, specs bool) {
	im, own := newImps(x, x.Choose(3))
	m := newImpModel(x, im, own)
	n := []int{2, 11, 12, 25, 130, 300}[x.Choose(6)]
	free := 5
	if n > 100 {
		free = 3
	} else if thorough {
		free = 7
	}
	pat := make([]int, 0, n)
	for i := 0; i < n; i++ {
		k := 0
		if i < free {
			k = x.Choose(4)
		} else {
			k = pat[i%free]
		}
		pat = append(pat, k)
		p := gopoet.Package{ImportPath: fmt.Sprintf("ex.com/p%d/foo", i), Name: "foo"}
		switch k {
		case 1:
			p.Name = ""
		case 2:
			p.Name = fmt.Sprintf("foo%d", i+1)
		case 3:
			p.Name = fmt.Sprintf("foo%d", (i*7)%n)
		}
		m.register(i%5, p)
	}
	x.Say("%d packages, pattern %v", n, pat)
	m.stable()
	if specs {
		m.specs()
	}
}

// impNames: every two and three packages over an alphabet of path and name
// parts that are alike in various ways.
func impNames(x *X, specs bool) {
	dirs := []string{"ex.com/a/", "ex.com/b/", "ex.com/A/", "ex.com/", "ex.com/self/", ""}
	bases := []string{"foo", "foo1", "Foo", "self", "foo.v2", "go-foo", "v2", "1foo", "type", "f\u00f6o", "int", "init", "foo_1", "FOO1", "foo10", "_", "-"}
	names := []string{"", "foo", "foo1", "Foo", "self", "foo2"}
	n := 2 + x.Choose(2)
	if n == 3 {
		dirs, bases, names = []string{"ex.com/a/", "ex.com/A/", "ex.com/"}, []string{"foo", "foo1", "Foo", "self"}, []string{"", "foo", "foo1", "Foo"}
		if thorough {
			dirs, bases = append(dirs, ""), append(bases, "foo.v2")
		}
	}
	im, own := newImps(x, 0)
	m := newImpModel(x, im, own)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		p := gopoet.Package{ImportPath: Pick(x, dirs) + Pick(x, bases), Name: Pick(x, names)}
		if seen[p.ImportPath] {
			x.Skip()
		}
		seen[p.ImportPath] = true
		x.Say("%+v", p)
		m.register(i, p)
		if specs {
			m.specs()
		}
	}
	m.stable()
}

// zoo is a list of import paths that resemble the path own, each other, and the
// special paths of the language and its tools, in various ways.
func zoo(own string) []string {
	dir, base := own, own
	if i := strings.LastIndex(own, "/"); i >= 0 {
		dir, base = own[:i], own[i+1:]
	}
	out := []string{own}
	seen := map[string]bool{own: true}
	for _, p := range []string{
		own + "/" + base, own + "/vendor/ex.com/a/foo", own + "/internal", own + "/internal/foo", own + "_test", own + ".test", own + "/v2", own + ".v2", own + "2", own + "/",
		strings.TrimSuffix(own, "_test"), strings.TrimSuffix(own, "/v2"), own[strings.LastIndex(own, "/vendor/")+1:], strings.Replace(own, "/internal/", "/", 1), strings.Replace(own, "ex.com/", "", 1),
		"vendor/" + own, "ex.com/vendor/" + own, "other.com/" + own, "x" + own, strings.ToUpper(own), strings.ToLower(own), strings.Title(own), base, dir, dir + "/" + strings.ToUpper(base),
		dir + "/x/../" + base, "./" + base, "../" + base, "./", ".", "..",
		"ex.com/a/foo", "vendor/ex.com/a/foo", "ex.com/vendor/ex.com/a/foo", "other.com/vendor/ex.com/a/foo", "ex.com/a//foo", "ex.com/a/foo/", "/ex.com/a/foo", "ex.com/a/foo/v2", "ex.com/a/foo.v2", "gopkg.in/foo.v2",
		"foo", "foo/foo", "ex.com/main", "C", "unsafe", "builtin", "main", "fmt", "text/template", "html/template", "go/types", "github.com/jhump/gopoet", "cmd/go", "command-line-arguments", "internal", "vendor", "_", "a", "testing",
	} {
		if p != "" && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

var zooOwns = []string{"ex.com/self", "ex.com/a/foo", "foo", "main", "ex.com/vendor/ex.com/a/foo", "ex.com/self/internal/foo", "ex.com/self_test", "ex.com/foo/v2", "fmt"}

// impZoo: every two packages of the zoo.
func impZoo(x *X, specs bool) {
	own := Pick(x, zooOwns)
	var im *gopoet.Imports
	if x.Bool() {
		im = gopoet.NewImportsFor(own)
	} else {
		im = &gopoet.NewGoFile("f.go", own, Pick(x, []string{"foo", "main", "foo_test"})).Imports
	}
	m := newImpModel(x, im, own)
	paths := zoo(own)
	names := []string{"", "foo", "self"}
	n := 2
	if thorough {
		names = append(names, "main", "foo1")
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		p := gopoet.Package{ImportPath: Pick(x, paths), Name: Pick(x, names)}
		if seen[p.ImportPath] {
			x.Skip()
		}
		seen[p.ImportPath] = true
		x.Say("%+v in %q", p, own)
		m.register([]int{0, 2, 3, 4, 1}[i], p)
		if specs {
			m.specs()
		}
	}
	for p := range seen {
		m.lookup(p)
	}
	if p := paths[len(seen)*7%len(paths)]; !seen[p] {
		m.lookup(p)
	}
	m.lookup(own)
	m.stable()
}

// impRender: the file's import statements are the registered ones.
func impRender(x *X) {
	f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
	m := newImpModel(x, &f.Imports, pSelf.Path)
	n := 1 + x.Choose(3)
	var body strings.Builder
	for i := 0; i < n; i++ {
		op := impOps[x.Choose(len(impOps))]
		x.Say("op %d: how=%d %+v", i, op.how, op.pkg)
		if op.how == 9 {
			m.lookup(op.pkg.ImportPath)
			continue
		}
		m.register(op.how, op.pkg)
	}
	for _, p := range m.order {
		fmt.Fprintf(&body, "%s.Use()\n", m.prefix[p])
	}
	var used *P
	fn := gopoet.NewFunc("main").Print(body.String())
	if k := x.Choose(len(universe) + 1); k > 0 {
		used = universe[k-1]
		fn.Printlnf("%s()", used.Pkg().Symbol("Used"))
	}
	f.AddElement(fn)
	rounds := 1 + x.Choose(2)
	for r := 0; r < rounds; r++ {
		var sb strings.Builder
		x.Op()
		if err := gopoet.WriteGoFile(&sb, f); err != nil {
			x.Fail("render: %v", err)
		}
		if used != nil && r == 0 {
			pre := f.Imports.PrefixForPackage(used.Path)
			m.saw(used.Path, used.Given(), m.undot(used.Path, pre))
		}
		x.Saw(sb.String())
		file, err := parser.ParseFile(token.NewFileSet(), "f.go", sb.String(), parser.ImportsOnly)
		if err != nil {
			x.Fail("render: %v", err)
		}
		want := f.Imports.ImportSpecs()
		got := importsOf(file)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			x.Fail("the file imports %v, its imports are %v\n%s", got, want, sb.String())
		}
		m.specs()
		m.stable()
	}
}

func importsOf(f *ast.File) []gopoet.ImportSpec {
	out := []gopoet.ImportSpec{}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		a := ""
		if s.Name != nil {
			a = s.Name.Name
		}
		out = append(out, gopoet.ImportSpec{PackageAlias: a, ImportPath: p})
	}
	return out
}

// ---- C03

var preRegs = [][]*P{nil, {pBFoo}, {pAFoo, pBFoo}, {pBFoo, pAFoo, pYaml, pBar}, {pQFoo, pDFoo1}, {pShort, pUnsafe}, {pUnsafe, pAFoo, pBFoo, pBar, pYaml}}

func qualLeaves() []*Ty {
	return []*Ty{tyInt, tyError, tyNamed(pSelf, "T"), tyNamed(pAFoo, "T"), tyNamed(pAFoo, "I"), tyNamed(pBFoo, "T"), tyNamed(pBar, "T"), tyNamed(pYaml, "I"), tyNamed(pYaml, "T"), tyNamed(pUnsafe, "Pointer")}
}

func qualCheck(x *X, t *Ty) {
	im, _ := newImps(x, x.Choose(2))
	pre := Pick(x, preRegs)
	before := map[string]string{}
	for _, p := range pre {
		before[p.Path] = strings.TrimSuffix(im.RegisterImportForPackage(p.Pkg()), ".")
	}
	qualOn(x, im, before, t, t.TN())
}

// qualSequence: several types, which have the same text where they come from
// packages of the same name, are qualified one after the other with one or two
// sets of imports.
func qualSequence(x *X, n int) {
	c := x.Choose(len(tyCtxs) + 2)
	f := func(t *Ty) *Ty { return t }
	if c < len(tyCtxs) {
		f = tyCtxs[c].f
	} else if c == len(tyCtxs) {
		f = func(t *Ty) *Ty { return tyMap(tyString, tyMap(tyInt, t)) }
	}
	p2 := Pick(x, []*P{pBFoo, pDFoo1})
	var ts []*Ty
	var tns []gopoet.TypeName
	for _, p := range []*P{pAFoo, p2, pSelf} {
		t := f(tyNamed(p, "T"))
		if t == nil {
			x.Skip()
		}
		ts, tns = append(ts, t), append(tns, t.TN())
	}
	// both in one type
	if t := tyStruct(Fd{"A", ts[0], ""}, Fd{"B", ts[1], ""}); x.Bool() {
		ts[2], tns[2] = t, t.TN()
	}
	ims := []*gopoet.Imports{gopoet.NewImportsFor(pSelf.Path), gopoet.NewImportsFor(pSelf.Path)}
	befores := []map[string]string{{}, {}}
	for i := 0; i < n; i++ {
		k, m := x.Choose(len(ts)), x.Choose(2)
		x.Say("with imports %d", m)
		befores[m] = qualOn(x, ims[m], befores[m], ts[k], tns[k])
	}
}

// qualOn qualifies one type and returns the prefixes that there are then.
func qualOn(x *X, im *gopoet.Imports, before map[string]string, t *Ty, in gopoet.TypeName) map[string]string {
	inDump, inStr := dumper{pkg: byBoth}.TN(in), in.String()
	x.Say("type %s, already imported %v", inDump, before)
	mode := x.Choose(2)
	if mode == 0 {
		x.Say("ensure")
	} else {
		x.Say("lookup only")
	}
	need := pkgsOf(t)
	missing := ""
	for _, p := range need {
		if _, ok := before[p.Path]; !ok {
			missing = p.Path
		}
	}
	forms := 1
	if t.K == gopoet.KindFunc || t.K == gopoet.KindNamed {
		forms = 2
	}
	form := x.Choose(forms)
	var out gopoet.TypeName
	x.Op()
	sigIn := in.Signature()
	msg, panicked := catch(func() {
		switch {
		case form == 0 && mode == 0:
			out = im.EnsureTypeImported(in)
		case form == 0:
			out = im.QualifyType(in)
		case t.K == gopoet.KindFunc && mode == 0:
			out = gopoet.FuncTypeFromSig(im.EnsureAllTypesImported(sigIn))
		case t.K == gopoet.KindFunc:
			out = gopoet.FuncTypeFromSig(im.QualifySignature(sigIn))
		case mode == 0:
			out = gopoet.NamedType(im.EnsureImported(in.Symbol()))
		default:
			out = gopoet.NamedType(im.Qualify(in.Symbol()))
		}
	})
	if d := (dumper{pkg: byBoth}).TN(in); d != inDump || in.String() != inStr {
		x.Fail("the given type was changed\n  from %s\n  to   %s", inDump, d)
	}
	after := map[string]string{}
	for _, s := range im.ImportSpecs() {
		after[s.ImportPath] = strings.TrimSuffix(im.PrefixForPackage(s.ImportPath), ".")
	}
	for p, n := range before {
		if after[p] != n {
			x.Fail("the prefix of %q changed from %q to %q", p, n, after[p])
		}
	}
	if mode == 1 {
		if len(after) != len(before) {
			x.Fail("looking up registered packages: before %v, after %v", before, after)
		}
		if panicked != (missing != "") {
			x.Fail("lookup of %s with imports %v: panicked=%v %s", inDump, before, panicked, msg)
		}
		if panicked {
			x.Saw("panic")
			return after
		}
	}
	if panicked {
		x.Fail("panic: %s", msg)
	}
	want := map[string]bool{}
	for p := range before {
		want[p] = true
	}
	for _, p := range need {
		want[p.Path] = true
	}
	if len(want) != len(after) {
		x.Fail("type %s, imported before %v, after %v", inDump, before, after)
	}
	for p := range want {
		if _, ok := after[p]; !ok {
			x.Fail("type %s: %q is not imported", inDump, p)
		}
	}
	exp := dumper{pkg: func(path, name string) string {
		if path == "" || path == pSelf.Path {
			return byBoth(path, "")
		}
		return byBoth(path, after[path])
	}}.Ty(t)
	got := dumper{pkg: byBoth}.TN(out)
	x.Saw(got)
	if got != exp {
		x.Fail("qualified type is\n       %s\nwanted %s", got, exp)
	}
	// qualifying the result changes nothing more
	again := dumper{pkg: byBoth}.TN(im.QualifyType(out))
	if again != got {
		x.Fail("qualifying twice gives %s, once gives %s", again, got)
	}
	return after
}

// zooP is the package of a path of the zoo.
func zooP(path string, unknown bool) *P {
	if p := findP(path); p != nil {
		return p
	}
	name := path[strings.LastIndex(path, "/")+1:]
	if !identOK(name) {
		name = "foo"
	}
	return &P{Path: path, Real: name, Unknown: unknown}
}

// genZoo is a type that references two packages of the zoo.
func genZoo(x *X) *Ty { return genZooOf(x, zoo(pSelf.Path), x.Bool()) }

func genZooOf(x *X, paths []string, k bool) *Ty {
	a, b := Pick(x, paths), Pick(x, paths)
	pa := zooP(a, k)
	pb := pa
	if a != b {
		pb = zooP(b, false)
	}
	x.Say("%q and %q", a, b)
	if x.Bool() {
		return tyMap(tyNamed(pa, "T"), tyPtr(tyNamed(pb, "T")))
	}
	return tyFuncAR([]Ar{ar("a", tyNamed(pa, "T"))}, []Ar{ar("", tyIface([]Sy{{pb, "I"}}))})
}

func init() {
	register(&Prop{ID: "C01", Level: "model_checking",
		Rule:   "every sequence of up to the depth bound of registration, qualification and lookup operations on one set of imports, over packages whose names and derived aliases collide, and all pairs of packages whose paths resemble the own one, each other or a special one; every result is compared with a reference model of the prefixes handed out",
		Assume: []string{"import paths and package names outside the alphabet behave like those in it", "given package names are the real ones"},
		Harnesses: []*Harness{
			{Name: "history", Body: func(x *X) { impHistory(x, depthQT(5, 6), false) }},
			{Name: "long", Body: func(x *X) { impLong(x, false) }},
			{Name: "names", Body: func(x *X) { impNames(x, false) }},
			{Name: "zoo", Body: func(x *X) { impZoo(x, false) }},
		}})
	register(&Prop{ID: "C02", Level: "model_checking",
		Rule:   "the same histories, with the import statements compared after every operation with the prefixes handed out, and read back as Go source",
		Assume: []string{"import paths are valid Go import paths"},
		Harnesses: []*Harness{
			{Name: "history", Body: func(x *X) { impHistory(x, depthQT(4, 5), true) }},
			{Name: "long", Body: func(x *X) { impLong(x, true) }},
			{Name: "names", Body: func(x *X) { impNames(x, true) }},
			{Name: "zoo", Body: func(x *X) { impZoo(x, true) }},
			{Name: "render", Body: impRender},
		}})
	register(&Prop{ID: "C03", Level: "model_checking",
		Rule:   "every type shape up to the nesting bound around every leaf, and every small signature, struct and interface, against every listed set of packages already imported, both with and without permission to import; and every sequence, up to a depth, of types of one shape, which have the same text and come from different packages, on one or two sets of imports",
		Assume: []string{"type shapes nested deeper than the bound behave like those within it"},
		Harnesses: []*Harness{
			{Name: "nested", Body: func(x *X) { qualCheck(x, genTy(x, depthQT(2, 3), qualLeaves())) }},
			{Name: "zoo", Body: func(x *X) { qualCheck(x, genZoo(x)) }},
			{Name: "sequence", Body: func(x *X) { qualSequence(x, depthQT(3, 4)) }},
			{Name: "large", Body: func(x *X) { qualCheck(x, genLarge(x)) }},
			{Name: "lengths", Body: func(x *X) {
				t := genLength(x)
				qualCheck(x, tyPtr(tyArray(tyMap(tyNamed(pBFoo, "T"), t), t.Len)))
			}},
			{Name: "spelling", Body: func(x *X) { qualCheck(x, genSpelled(x)) }},
			{Name: "wide", Body: func(x *X) {
				leaves := []*Ty{tyInt, tyNamed(pAFoo, "T"), tyNamed(pBFoo, "I")}
				if thorough {
					leaves = append(leaves, tyNamed(pSelf, "T"))
				}
				qualCheck(x, genWide(x, 2, leaves))
			}},
		}})
}

func depthQT(q, t int) int {
	if thorough {
		return t
	}
	return q
}
