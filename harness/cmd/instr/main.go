// Command instr writes copies of Go packages with a call of verifsched.P
// before every statement, and the overlay that puts them in place.
//
//	instr -repo DIR -sched FILE -out DIR [-funcs regexp] PKGDIR...
//
// Statements keep their lines. The file points.txt in the output directory
// lists the positions of the points.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "the module")
	sched := flag.String("sched", "", "source of package verifsched")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fail(err)
	}
	replace := map[string]string{filepath.Join(*repo, "verifsched", "verifsched.go"): *sched}
	var points []string
	for _, pkg := range flag.Args() {
		files, err := filepath.Glob(filepath.Join(*repo, pkg, "*.go"))
		if err != nil {
			fail(err)
		}
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			res, pts, err := instrument(f, src, len(points)+1)
			if err != nil {
				fail(err)
			}
			if len(pts) == 0 {
				continue
			}
			points = append(points, pts...)
			dst := filepath.Join(*out, strings.ReplaceAll(pkg, "/", "_")+"_"+filepath.Base(f))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fail(err)
			}
			replace[f] = dst
		}
	}
	b, err := json.Marshal(map[string]any{"Replace": replace})
	if err != nil {
		fail(err)
	}
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fail(err)
	}
	var sb strings.Builder
	for i, p := range points {
		fmt.Fprintf(&sb, "%d %s\n", i+1, p)
	}
	if err := os.WriteFile(filepath.Join(*out, "points.txt"), []byte(sb.String()), 0o644); err != nil {
		fail(err)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

type insertion struct {
	off  int
	text string
}

func instrument(name string, src []byte, first int) ([]byte, []string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	var ins []insertion
	var points []string
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				continue
			}
			pos := fset.Position(s.Pos())
			ins = append(ins, insertion{pos.Offset, fmt.Sprintf("verifsched.P(%d);", first+len(points))})
			points = append(points, fmt.Sprintf("%s:%d", name, pos.Line))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// The clauses of a switch or select are no statements to step before.
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(points) == 0 {
		return nil, nil, nil
	}
	ins = append(ins, insertion{fset.Position(f.Name.End()).Offset, `;import "github.com/openconfig/gnmi/verifsched"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var res []byte
	last := 0
	for _, x := range ins {
		res = append(append(res, src[last:x.off]...), x.text...)
		last = x.off
	}
	return append(res, src[last:]...), points, nil
}
