package main

// C08: comments. Every place of a file that takes a comment, with every short
// sequence of lines of different forms; the reference is a file written by hand
// in which each line of each comment follows "// ".

import (
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"strings"

	"github.com/jhump/gopoet"
)

var commentLines = []string{
	"", "Text.", "More text that goes on", "    indented", "\ttab", " one", "trailing  ", "- item", "  - nested", "# Heading", "100% %d %s %!", "// x", "/* x", "*/", "a `b` \"c\"", "Deprecated: no.", "[Link]: http://x",
	"go:generate x", "go:build linux", "+build linux", "line f.go:7", "nolint: x", "export X", "lint:ignore x y", "TODO(x): y", "type X int", "import \"C\"", "\\n\\t", "\x27\u00e9\u4e16\u2028.", strings.Repeat("long ", 60) + ".", strings.Repeat("x", 1000),
}

// a file with a comment in every place; @k is the place of comment k
const commentFile = `@0

@1
package self

import foo "ex.com/a/foo"

@2
const a = 1

@3
const (
	@4
	b = 2
	@5
	c = 3
)

@6
var d int

@7
var (
	@8
	e = 2
)

@9
type F struct {
	@10
	G int
	@11
	foo.H
	@12
	I struct {
		@13
		J int
	}
}

@14
type (
	@15
	K interface {
		@16
		foo.L
		@17
		M()
	}
	@18
	N = int
)

@19
func O() {
}

@20
func (p F) Q() {
}
`

const commentPlaces = 21

func commentFileOf(c []string) *gopoet.GoFile {
	f := gopoet.NewGoFile("f.go", pSelf.Path, "self")
	foo := func(n string) gopoet.Symbol { return Sy{pAFoo, n}.Sym() }
	f.FileComment, f.PackageComment = c[0], c[1]
	f.AddConst(gopoet.NewConst("a").Initialize("1").SetComment(c[2]))
	f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("b").Initialize("2").SetComment(c[4]), gopoet.NewConst("c").Initialize("3").SetComment(c[5])).SetComment(c[3]))
	f.AddVar(gopoet.NewVar("d").SetType(gopoet.IntType).SetComment(c[6]))
	f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("e").Initialize("2").SetComment(c[8])).SetComment(c[7]))
	in := gopoet.NewStructTypeSpec("", gopoet.NewField("J", gopoet.IntType).SetComment(c[13]))
	f.AddType(gopoet.NewStructTypeSpec("F",
		gopoet.NewField("G", gopoet.IntType).SetComment(c[10]),
		gopoet.NewField("", gopoet.NamedType(foo("H"))).SetComment(c[11]),
		gopoet.NewField("I", in).SetComment(c[12])).SetComment(c[9]))
	f.AddElement(gopoet.NewTypeDecl(
		gopoet.NewInterfaceTypeSpec("K", gopoet.NewInterfaceEmbed(foo("L")).SetComment(c[16]), gopoet.NewInterfaceMethod("M").SetComment(c[17])).SetComment(c[15]),
		gopoet.NewTypeAlias("N", gopoet.IntType).SetComment(c[18])).SetComment(c[14]))
	f.AddElement(gopoet.NewFunc("O").SetComment(c[19]))
	f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("p", "F"), "Q").SetComment(c[20]))
	return f
}

// commentGroups lists the comments of a file and what follows each.
func commentGroups(x *X, src string) []string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		x.Fail("the file does not parse: %v\n%s", err, src)
	}
	var out []string
	for _, g := range f.Comments {
		s := ""
		for _, c := range g.List {
			s += c.Text + "\n"
		}
		rest := strings.Fields(src[fset.Position(g.End()).Offset:])
		// the word after the comment; an empty line ends a comment that is
		// not about what follows
		if strings.HasPrefix(src[fset.Position(g.End()).Offset:], "\n\n") {
			s += "\n"
		}
		if len(rest) > 0 {
			s += rest[0]
		}
		out = append(out, s)
	}
	return out
}

func commentCheck(x *X, max int, lines []string) {
	place := x.Choose(commentPlaces)
	n := 1 + x.Choose(max)
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, Pick(x, lines))
	}
	text := strings.Join(ls, "\n")
	if text == "" {
		x.Skip() // no comment
	}
	x.Say("comment %q in place %d", text, place)
	c := make([]string, commentPlaces)
	rest := x.Bool()
	for i := range c {
		// the declarations of more than one spec need one, for others it is optional
		if rest || i == 7 {
			c[i] = fmt.Sprintf("c%d", i)
		}
	}
	c[place] = text
	ref := commentFile
	for i := commentPlaces - 1; i >= 0; i-- {
		r := ""
		if c[i] != "" {
			for _, l := range strings.Split(c[i], "\n") {
				r += "// " + l + "\n"
			}
		}
		ref = strings.ReplaceAll(ref, fmt.Sprintf("@%d\n", i), r)
	}
	want, err := format.Source([]byte(ref))
	if err != nil {
		panic(fmt.Sprintf("%v\n%s", err, ref))
	}
	var sb strings.Builder
	x.Op()
	if err := gopoet.WriteGoFile(&sb, commentFileOf(c)); err != nil {
		x.Fail("rendering: %v", err)
	}
	x.Saw(sb.String())
	g, w := commentGroups(x, sb.String()), commentGroups(x, string(want))
	for i := range w {
		if i >= len(g) || g[i] != w[i] {
			x.Fail("comment %d of the file should be\n%s\n%s", i, w[i], sb.String())
		}
	}
	if len(g) > len(w) {
		x.Fail("%d comments instead of %d\n%s", len(g), len(w), sb.String())
	}
}
