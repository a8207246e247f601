// instr copies the library with a call before each statement, for the
// scheduler of C18. Usage: instr SRCDIR OUTDIR OVERLAY [FILE
// REPLACEMENT]
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package gopoet

// ZZPoint is called before each statement of the library.
var ZZPoint func()

func zzPoint() {
	if ZZPoint != nil {
		ZZPoint()
	}
}
`

func main() {
	src, out, overlay := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	put := func(name string, text []byte) {
		p := filepath.Join(out, name)
		if err := os.WriteFile(p, text, 0644); err != nil {
			fail(err)
		}
		repl[filepath.Join(src, name)] = p
	}
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		fail(err)
	}
	points := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		text, err := os.ReadFile(f)
		if err != nil {
			fail(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, text, parser.ParseComments)
		if err != nil {
			fail(err)
		}
		var at []int
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				if _, empty := s.(*ast.EmptyStmt); !empty {
					at = append(at, fset.PositionFor(s.Pos(), false).Offset)
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			}
			return true
		})
		sort.Sort(sort.Reverse(sort.IntSlice(at)))
		s := string(text)
		for i, o := range at {
			if i > 0 && at[i-1] == o {
				continue
			}
			s = s[:o] + "zzPoint(); " + s[o:]
			points++
		}
		put(filepath.Base(f), []byte(s))
	}
	put("zz_point_hook.go", []byte(hook))
	if len(os.Args) > 5 {
		repl[os.Args[4]] = os.Args[5]
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	if err := os.WriteFile(overlay, b, 0644); err != nil {
		fail(err)
	}
	fmt.Fprintln(os.Stderr, points, "points")
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
