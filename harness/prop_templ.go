package main

// C09: a part that is a template renders as text/template renders it with the
// references in its data replaced.

import (
	"fmt"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

type tmplData struct {
	S     gopoet.Symbol
	T     gopoet.TypeName
	N     string
	L     []gopoet.Symbol
	M     map[string]interface{}
	Empty []int
	Nil   interface{}
	F     func(gopoet.Symbol) string
	In    *tmplData
	st    gopoet.Symbol
}

func (d tmplData) Meth() string            { return "meth " + d.S.String() }
func (d *tmplData) PMeth(n int) string     { return fmt.Sprint("pmeth ", n, " ", d.S) }
func (d tmplData) Err() (string, error)    { return "", errTemplate }
func (d tmplData) Self() interface{}       { return d }
func (d tmplData) Hidden() gopoet.Symbol   { return d.st }
func (d tmplData) Many() []interface{}     { return []interface{}{d.S, d.T, d.N} }
func (d tmplData) Named(s string) tmplData { d.N = s; return d }

var tmplTexts = []string{
	"", "{{.}}", "{{.S}}", "{{.T}} {{.S.Name}} {{.S.Package}}", "{{.S.Package.Name}}", "{{.N}}", "{{.N | printf \"%9s\"}}", "{{html .N}} {{js .N}} {{urlquery .N}}",
	"{{.Missing}}", "a{{.M.Missing}}b", "{{with .M.Missing}}a{{else}}b{{end}}", "{{.M.k}} {{index .M \"k\"}} {{index .M \"none\"}}", "{{len .L}} {{index .L 0}} {{(index .L 1).Name}}",
	"{{range $i, $e := .L}}{{if $i}}, {{end}}{{$i}}={{$e}}{{end}}", "{{range .Empty}}x{{else}}none{{end}}", "{{range $k, $v := .M}}{{$k}}:{{$v}};{{end}}", "{{range .L}}{{.}}{{break}}{{end}}",
	"{{template \"x\" .S}}{{define \"x\"}}<{{.}}>{{end}}", "{{block \"b\" .}}{{.S}}{{end}}", "{{template \"none\"}}", "{{printf \"%s|%v|%10s|%q\" .S .S .S .N}}", "{{print .S .T}} {{println .S}}",
	"{{fn .S}} {{.S | fn | fn2 1}}", "{{call .F .S}}", "{{$x := .S}}{{$x}}{{$x = index .L 0}}{{$x}}", "{{if .L}}{{.S}}{{else}}no{{end}}", "{{if and .S.Name (eq .N \"n%d<&>\")}}yes{{end}}",
	" {{- .S -}} \n  x {{- /* c */ -}} ", "{{\"{{\"}} %d %s {{.N}}", "{{.Nil}}", "{{.Meth}}", "{{.PMeth 3}}", "{{.Err}}", "{{.Self.S}}", "{{.Hidden}}", "{{.Many}}", "{{(.Named \"w\").N}} {{.N}}",
	"{{.In.S}}", "{{.In.In.S}}", "{{slice .N 1 3}}", "{{define \"y\"}}unused{{end}}", "{{eq .S (index .L 0)}}", "{{with .In}}{{.S}}{{$.S}}{{end}}", "{{len .M}} {{not .L}}", "{{.st}}", "//\n{{.S}}\n",
}

// codeTemplates: each template with each form of data, in two situations of the
// imports, once and again.
func codeTemplates(x *X) {
	own := Pick(x, []Sy{{pAFoo, "X"}, {pSelf, "X"}, {pYaml, "X"}})
	f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
	prefix := map[*P]string{}
	reg := func(p *P) {
		if p != pSelf {
			prefix[p] = strings.TrimSuffix(f.RegisterImport(p.Path, p.Given()), ".")
		}
	}
	taken := x.Bool()
	if taken {
		reg(pCFoo)
		reg(pQFoo)
	}
	reg(own.Pkg)
	reg(pBFoo)
	qual := func(s Sy) gopoet.Symbol {
		y := s.Sym()
		y.Package.Name = prefix[s.Pkg]
		return y
	}
	raw := func(s Sy) gopoet.Symbol { return s.Sym() }
	form := x.Choose(6)
	mk := func(q func(Sy) gopoet.Symbol) interface{} {
		d := &tmplData{S: q(own), T: gopoet.SliceType(gopoet.NamedType(q(own))), N: "n%d<&>", L: []gopoet.Symbol{q(Sy{pBFoo, "Y"}), q(own)},
			M: map[string]interface{}{"k": q(own), "l": gopoet.PointerType(gopoet.NamedType(q(Sy{pBFoo, "Z"}))), "m": "%s"}, F: func(s gopoet.Symbol) string { return "<" + s.String() + ">" },
			In: &tmplData{S: q(Sy{pBFoo, "W"})}, st: q(own)}
		switch form {
		case 0:
			return *d
		case 1:
			return d
		case 2:
			return map[string]interface{}{"S": d.S, "T": d.T, "N": d.N, "L": d.L, "M": d.M, "Empty": d.Empty, "Nil": nil, "F": d.F, "In": d.In}
		case 3:
			return d.M
		case 4:
			return d.S
		}
		return d.N
	}
	text := Pick(x, tmplTexts)
	opt := Pick(x, []string{"", "missingkey=zero", "missingkey=error"})
	x.Say("%q with %s, data %T, %s, taken %v", text, opt, mk(raw), own.Pkg.Path, taken)
	newTmpl := func() *template.Template {
		t := template.New("main").Funcs(template.FuncMap{"fn": func(s gopoet.Symbol) string { return "fn " + s.String() }, "fn2": func(n int, s string) string { return fmt.Sprint(n, s) }})
		if opt != "" {
			t.Option(opt)
		}
		return template.Must(t.Parse(text))
	}
	exec := func(t *template.Template, d interface{}) (string, error) {
		var b strings.Builder
		err := t.Execute(&b, d)
		return b.String(), err
	}
	given, data := newTmpl(), mk(raw)
	rawWant, rawErr := exec(newTmpl(), mk(raw))
	want, wantErr := exec(newTmpl(), mk(qual))
	if strings.Contains(want, "0x") {
		x.Skip() // an address
	}
	fn := gopoet.NewVar("v").SetInitializer(gopoet.Print("`").AddCode(gopoet.RenderCode(given, data)).Print("`"))
	f.AddVar(fn)
	for r := 0; r < 2; r++ {
		var sb strings.Builder
		x.Op()
		var err error
		msg, panicked := catch(func() { err = gopoet.WriteGoFile(&sb, f) })
		if wantErr != nil {
			if !panicked && err == nil {
				x.Fail("the template fails with %v, but is rendered as %s", wantErr, sb.String())
			}
			x.Saw(fmt.Sprint("fails ", text, opt, form))
		} else {
			if panicked || err != nil {
				x.Fail("the template should be rendered as %q\nerror %v, panic %v", want, err, msg)
			}
			x.Saw(sb.String())
			if !strings.Contains(sb.String(), "var v = `"+want+"`") {
				x.Fail("the template should be rendered as %q\n%s", want, sb.String())
			}
		}
		// the template is as it was
		got, gotErr := exec(given, mk(raw))
		if got != rawWant || (gotErr == nil) != (rawErr == nil) {
			x.Fail("after a rendering, the caller's template gives %q, %v\nbefore it gave %q, %v", got, gotErr, rawWant, rawErr)
		}
	}
}
