package main

// C18: independent files can be built and rendered by concurrent goroutines.

import (
	"fmt"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

// cEnv is what the goroutines share. Its names are new in every execution, so
// that nothing that the library might keep about them is there already.
type cEnv struct {
	tag   string // unique, of fixed length
	num   int
	pkgs  []*P
	w     *GoW
	types []gopoet.TypeName
	syms  []gopoet.Symbol
	gts   []types.Type
	objs  []types.Object
	rts   []reflect.Type
	tmpl  *template.Template
	mref  gopoet.MethodReference
}

var cCount int

func newCEnv() *cEnv {
	cCount++
	return numberedCEnv(cCount)
}

func numberedCEnv(n int) *cEnv {
	e := &cEnv{tag: fmt.Sprintf("u%07d", n), num: 1000000 + n, w: newGoW()}
	for _, p := range []*P{pAFoo, pBFoo, pQFoo, pYaml} {
		e.pkgs = append(e.pkgs, &P{Path: "ex.com/" + e.tag + strings.TrimPrefix(p.Path, "ex.com"), Real: p.Real, Unknown: p.Unknown})
	}
	var leaves []*Ty
	for _, p := range e.pkgs {
		leaves = append(leaves, tyNamed(p, "T"+e.tag))
		e.syms = append(e.syms, Sy{p, "V" + e.tag}.Sym())
		q := *p
		q.Unknown = false
		e.objs = append(e.objs, types.NewVar(token.NoPos, e.w.Pkg(&q), "V"+e.tag, types.Typ[types.Int]))
		e.gts = append(e.gts, types.NewSlice(e.w.Named(Sy{&q, "G" + e.tag})))
	}
	a, b, c := leaves[0], leaves[1], leaves[2]
	for _, t := range []*Ty{a, b, tyPtr(a), tyMap(b, tySlice(a)), tyChan(tyArray(c, 3), reflect.RecvDir),
		tyFunc(&Sg{Args: []Ar{ar("p", a), ar("", tySlice(b))}, Results: []Ar{ar("", c)}, Variadic: true}),
		tyStruct(Fd{"A", a, "t"}, Fd{"B", tyStruct(Fd{"C", b, ""}), ""}),
		tyIface([]Sy{{e.pkgs[1], "I" + e.tag}}, Md{"M", &Sg{Args: []Ar{ar("x", a)}, Results: []Ar{ar("", b)}}})} {
		e.types = append(e.types, t.TN())
		if t != a && t != b {
			// with all package names known
			e.gts = append(e.gts, types.NewPointer(types.Typ[types.Int]))
		}
	}
	e.rts = []reflect.Type{reflect.ArrayOf(e.num, reflect.TypeOf(template.Template{})), reflect.FuncOf([]reflect.Type{reflect.ArrayOf(e.num, reflect.TypeOf(0))}, nil, false)}
	e.tmpl = template.Must(template.New("t").Parse("_ = {{.S}}\nvar _ {{.T}}\n{{range $k, $v := .M}}_ = {{$k}}{{$v}}\n{{end}}"))
	e.mref = gopoet.MethodReference{Type: e.syms[0], Method: "M"}
	return e
}

// plain takes out what is new in each execution.
func (e *cEnv) plain(s string) string {
	return strings.Replace(strings.Replace(s, e.tag[1:], "uuuuuuu", -1), fmt.Sprint(e.num), "9999999", -1)
}

func (e *cEnv) file(i int) *gopoet.GoFile {
	p := e.pkgs[i%2]
	if i == 2 {
		p = &P{Path: "ex.com/" + e.tag + "/self", Real: "self"}
	}
	return gopoet.NewGoFile(fmt.Sprintf("f%d.go", i), p.Path, p.Real)
}

func cRender(f *gopoet.GoFile) string {
	var sb strings.Builder
	if err := gopoet.WriteGoFile(&sb, f); err != nil {
		return "error: " + err.Error()
	}
	return sb.String() + importsText(&f.Imports)
}

type cData struct {
	S gopoet.Symbol
	T gopoet.TypeName
	M map[string]interface{}
	p *gopoet.Package
}

var cScenes = []struct {
	name string
	f    func(e *cEnv, i int) string
}{
	{"imports", func(e *cEnv, i int) string {
		f := e.file(i)
		for k := range e.pkgs {
			p := e.pkgs[(k+i)%len(e.pkgs)]
			f.RegisterImport(p.Path, p.Given())
		}
		return f.EnsureImported(e.syms[i]).String() + f.PrefixForPackage(e.pkgs[3].Path) + f.Qualify(e.syms[2]).String() + cRender(f)
	}},
	{"signatures", func(e *cEnv, i int) string {
		f := e.file(i)
		fn := gopoet.NewFunc("f").AddArg("own", e.types[i])
		for k := range e.types {
			fn.AddArg(fmt.Sprint("a", k), e.types[(k+i)%len(e.types)])
		}
		f.AddElement(fn)
		return cRender(f)
	}},
	{"types", func(e *cEnv, i int) string {
		f := e.file(i)
		st := gopoet.NewStructTypeSpec("S", gopoet.NewField("F", e.types[3]).SetTag("x"), gopoet.NewField("G", e.types[6]), gopoet.NewField("H", e.types[7]))
		it := gopoet.NewInterfaceTypeSpec("I", gopoet.NewInterfaceEmbed(e.syms[1]), gopoet.NewInterfaceMethod("M").AddArg("a", e.types[5]).AddResult("", e.types[4]))
		f.AddType(st).AddType(it)
		f.AddType(gopoet.NewTypeSpec("S2", e.types[6])).AddType(gopoet.NewTypeSpec("I2", e.types[7])).AddType(gopoet.NewTypeAlias("A", e.types[5]))
		f.AddVar(gopoet.NewVar("v").SetType(st))
		f.AddElement(gopoet.NewMethod(gopoet.NewPointerReceiverForType("s", st), "m").AddArg("i", it.ToTypeName()))
		return cRender(f)
	}},
	{"code", func(e *cEnv, i int) string {
		f := e.file(i)
		fn := gopoet.NewFunc("f")
		fn.Printlnf("/* %s %s %s %s %s */", e.syms[i], &e.syms[2], e.pkgs[2].Pkg(), e.mref, e.types[3])
		fn.Printlnf("/* %s %s %s */", e.objs[i], e.gts[i], e.rts[0])
		fn.Printlnf("/* %s %v */", f.Package(), e.w.Pkg(e.pkgs[0]))
		f.AddElement(fn)
		f.AddConst(gopoet.NewConst("c").SetType(e.types[0]).Initialize("%s", e.syms[1]))
		return cRender(f)
	}},
	{"templates", func(e *cEnv, i int) string {
		f := e.file(i)
		p := e.pkgs[2].Pkg()
		d := &cData{S: e.syms[i], T: e.types[3], M: map[string]interface{}{"a": e.syms[1], "b": e.types[4], "c": e.objs[2]}, p: &p}
		f.AddElement(gopoet.NewFunc("f").RenderCode(e.tmpl, d))
		return cRender(f)
	}},
	{"documented", func(e *cEnv, i int) string {
		f := e.file(i)
		f.FileComment, f.PackageComment, f.CanonicalImportPath = "About "+e.tag+"\n\nfile", "Package\n"+e.tag, "ex.com/"+e.tag
		f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("a").Initialize("iota").SetComment("a\n"+e.tag), gopoet.NewConst("b", "c").SetType(e.types[0]).Initialize("1, 2")).SetComment("consts"))
		f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("v", "w").SetType(e.types[i]).SetComment("vars"), gopoet.NewVar("x").SetInitializer(gopoet.Printf("%s", e.syms[1]))))
		f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("F", e.types[i]).SetTag("t`"+e.tag).SetComment("F\n\nfield")).SetComment("S does."))
		f.AddType(gopoet.NewInterfaceTypeSpec("I", gopoet.NewInterfaceMethod("M").SetComment("M"), gopoet.NewInterfaceEmbed(e.syms[2]).SetComment("E")).SetComment("I does."))
		f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("s", "S"), "m").SetComment("m does.\nThis."))
		return cRender(f)
	}},
	{"data", func(e *cEnv, i int) string {
		f := e.file(i)
		type pair struct {
			A interface{}
			b gopoet.TypeName
		}
		p := e.pkgs[i%2].Pkg()
		for k, d := range []interface{}{
			map[gopoet.Symbol]interface{}{e.syms[i]: e.types[2]},
			map[string][]gopoet.TypeName{e.tag: {e.types[3], e.types[0]}},
			map[interface{}]*gopoet.Package{1: &p},
			[2]interface{}{e.mref, &pair{e.objs[1], e.types[1]}},
			[]interface{}{e.gts[0], e.rts[0], nil, "x", map[int]gopoet.Symbol{2: e.syms[1], 1: e.syms[2]}},
			&pair{A: &p},
		} {
			s := dataD(reflect.ValueOf(f.QualifyTemplateData(d)))
			f.AddElement(gopoet.NewFunc(fmt.Sprint("f", k)).Printlnf("/* %s */", strings.Replace(s, "*/", "", -1)))
		}
		return cRender(f)
	}},
	{"failures", func(e *cEnv, i int) string {
		f, g := e.file(i), e.file(i)
		s, _ := catch(func() { f.Qualify(e.syms[(i+1)%3]) })
		t, _ := catch(func() { f.QualifyType(e.types[5]) })
		f.AddElement(gopoet.NewFunc("f").Printlnf("} %s", e.syms[1]))
		var sb strings.Builder
		err := gopoet.WriteGoFile(&sb, f)
		s += t + sb.String()
		if fe, ok := err.(*gopoet.FormatError); ok {
			s += string(fe.Unformatted)
		}
		g.AddElement(gopoet.NewFunc("g").AddArg("a", e.types[1]).Printlnf("%s", e.syms[2]))
		return s + fmt.Sprint(gopoet.WriteGoFile(brokenWriter{}, g)) + cRender(g)
	}},
	{"conversions", func(e *cEnv, i int) string {
		var b strings.Builder
		for _, t := range e.gts {
			b.WriteString(gopoet.TypeNameForGoType(t).String() + "\n")
		}
		for _, o := range e.objs {
			b.WriteString(gopoet.SymbolForGoObject(o).String() + "\n")
		}
		for _, t := range e.rts {
			b.WriteString(gopoet.TypeNameForReflectType(t).String() + "\n")
		}
		for _, t := range e.types {
			b.WriteString(dBoth.TN(t) + " " + t.String() + "\n")
		}
		return b.String()
	}},
	{"names", func(e *cEnv, i int) string {
		s := ""
		for _, n := range []string{"_" + e.tag, e.tag, "\u00e9" + e.tag, "\u65e5" + e.tag} {
			s += gopoet.Export(n) + gopoet.Unexport(n)
		}
		p := gopoet.NewPackage("ex.com/" + e.tag)
		return s + p.String() + p.Symbol("X").String() + gopoet.NewSymbol("ex.com/"+e.tag, "Y").String() + gopoet.BasicType(reflect.Int).String()
	}},
	{"writing", func(e *cEnv, i int) string {
		f, g := e.file(i), e.file(i)
		f.AddVar(gopoet.NewVar("v").SetType(e.types[2]).Initialize("%s", e.syms[0]))
		g.Name = "g.go"
		g.AddElement(gopoet.NewFunc("h").AddResult("", e.types[1]).Printlnf("return %s", e.syms[1]))
		out := &sinkSet{}
		if err := gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { return out.open(p) }, f, g); err != nil {
			return err.Error()
		}
		s := ""
		for _, o := range out.out {
			s += o.String()
		}
		return s
	}},
}

// alone gives the results of a scene without any concurrency.
func cAlone(scene, i int) string {
	e := newCEnv()
	return e.plain(cScenes[scene].f(e, i))
}

// concurrent explores the schedules of two or three scenes with at most that
// many preemptions, each at every stride-th point.
func concurrent(x *X, n, preemptions int, stride int64, pairs bool) {
	setPoint(point)
	defer setPoint(nil)
	const blocks, block = 48, 64
	scenes := make([]int, n)
	for i := range scenes {
		if i == 0 || pairs {
			scenes[i] = x.Choose(len(cScenes))
		} else {
			scenes[i] = scenes[0]
		}
	}
	e := newCEnv()
	var fs []func() string
	for i, s := range scenes {
		i, s := i, s
		x.Say("goroutine %d: %s", i, cScenes[s].name)
		fs = append(fs, func() string { return cScenes[s].f(e, i) })
	}
	order := Pick(x, perms(n))
	x.Say("in order %v", order)
	var plan []run
	// how many points there are is only known afterwards: one that is never
	// reached is the same as no preemption
	for k := 0; k < preemptions; k++ {
		lim := cPoints(scenes[order[k%n]])
		b := x.Choose(blocks)
		if int64(b)*block*stride > lim {
			x.Skip()
		}
		at := (int64(b)*block + int64(x.Choose(block))) * stride
		if at > lim {
			x.Skip()
		}
		x.Say("goroutine %d is preempted at its point %d", order[k%n], at+1)
		plan = append(plan, run{order[k%n], at + 1})
	}
	for k := 0; k < n; k++ {
		plan = append(plan, run{order[(k+preemptions)%n], 0})
	}
	texts, _ := runSchedule(x, fs, plan)
	x.Op()
	for i, t := range texts {
		got := e.plain(t)
		x.Saw(got)
		if want := cAloneCached(scenes[i], i); got != want {
			x.Fail("goroutine %d (%s) gives\n%s\nalone it gives\n%s", i, cScenes[scenes[i]].name, diffLines(got, want), diffLines(want, got))
		}
	}
}

// firstUse explores what two goroutines do that are the first ones in their
// process to use the library, with at most one preemption. They share nothing.
func firstUse(x *X, stride int64) {
	setPoint(point)
	defer setPoint(nil)
	a, b := x.Choose(len(cScenes)), x.Choose(len(cScenes))
	x.Say("first in their process: %s, %s", cScenes[a].name, cScenes[b].name)
	at := int64(0)
	if stride > 0 {
		const blocks, block = 64, 64
		at = int64(x.Choose(blocks)) * block
		// building takes points, too
		if lim := cPoints(a) + cBuildPoints(); at*stride > lim {
			x.Skip()
		}
		if at = (at + int64(x.Choose(block))) * stride; at > cPoints(a)+cBuildPoints() {
			x.Skip()
		}
		x.Say("the first is preempted at its point %d", at+1)
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), fmt.Sprintf("MC_FIRST=%d %d %d", a, b, at+1))
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	x.Op()
	if err != nil {
		x.Fail("%v\n%s\n%s", err, out, stderr.String())
	}
	want := cAloneCached(a, 0) + "\x00" + cAloneCached(b, 1)
	x.Saw(string(out))
	if string(out) != want {
		x.Fail("the goroutines give\n%s\nalone they give\n%s", diffLines(string(out), want), diffLines(want, string(out)))
	}
}

// firstUseChild is the process of firstUse.
func firstUseChild(arg string) {
	var a, b int
	var at int64
	if _, err := fmt.Sscan(arg, &a, &b, &at); err != nil {
		panic(err)
	}
	runtime.GOMAXPROCS(2)
	setPoint(point)
	var fs []func() string
	for i, s := range []int{a, b} {
		i, s := i, s
		fs = append(fs, func() string {
			e := numberedCEnv(i + 1)
			return e.plain(cScenes[s].f(e, i))
		})
	}
	var plan []run
	if at > 1 {
		plan = append(plan, run{0, at}, run{1, 0})
	}
	texts, _ := func() (t []string, n []int64) {
		defer func() {
			if p := recover(); p != nil {
				if v, ok := p.(*violation); ok {
					p = v.Msg
				}
				fmt.Fprintln(os.Stderr, p)
				os.Exit(1)
			}
		}()
		return runSchedule(&X{}, fs, plan)
	}()
	os.Stdout.WriteString(strings.Join(texts, "\x00"))
	os.Exit(0)
}

var cBuild int64

func cBuildPoints() int64 {
	if cBuild == 0 {
		_, n := runSchedule(&X{}, []func() string{func() string { newCEnv(); return "" }}, nil)
		cBuild = n[0]
	}
	return cBuild
}

var cCache = map[[2]int]string{}
var cLen = map[int]int64{}

// cAloneCached is only asked after a concurrent execution.
func cAloneCached(scene, i int) string {
	k := [2]int{scene, i}
	s, ok := cCache[k]
	if !ok {
		s = cAlone(scene, i)
		cCache[k] = s
	}
	return s
}

// cPoints is the number of points of a scene, counted under the scheduler.
func cPoints(scene int) int64 {
	n, ok := cLen[scene]
	if !ok {
		for i := 0; i < 2; i++ {
			e := newCEnv()
			f := func(i int) func() string { return func() string { return cScenes[scene].f(e, i) } }
			_, steps := runSchedule(&X{}, []func() string{f(0), f(1)}, nil)
			for _, s := range steps {
				if s > n {
					n = s
				}
			}
		}
		cLen[scene] = n
	}
	return n
}

func init() {
	register(&Prop{ID: "C18", Level: "model_checking",
		Rule:   "every schedule, up to a number of preemptions, of two and three goroutines that build and render files of their own from shared types, symbols and packages, where a preemption can be before every statement of the library; each result is compared with the one without concurrency, and in a second build every memory access is checked for a happens-before race under the explored schedules",
		Assume: []string{"statements of the standard library are not preempted", "the Go race detector reports every pair of accesses that are not ordered by the synchronisation of the library itself"},
		Harnesses: []*Harness{
			{Name: "one preemption", Single: true, Only: "sched", Body: func(x *X) { concurrent(x, 2, 1, 1, true) }},
			{Name: "two preemptions", Single: true, Only: "sched", Body: func(x *X) { concurrent(x, 2, 2, int64(depthQT(16, 4)), false) }},
			{Name: "three goroutines", Single: true, Only: "sched", Body: func(x *X) { concurrent(x, 3, 2, int64(depthQT(32, 12)), false) }},
			{Name: "first use", Single: true, Only: "sched", Thorough: true, Body: func(x *X) { firstUse(x, 4) }},
			{Name: "races", Single: true, Only: "race", Body: func(x *X) { concurrent(x, 2, 1, int64(depthQT(16, 1)), true) }},
			{Name: "races of three", Single: true, Only: "race", Body: func(x *X) { concurrent(x, 3, 2, int64(depthQT(64, 24)), false) }},
			{Name: "races of first use", Single: true, Only: "race", Body: func(x *X) { firstUse(x, int64(depthQT(0, 128))) }},
		}})
}
