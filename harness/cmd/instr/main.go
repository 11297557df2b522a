// Command instr writes an overlay for go build in which every statement of the
// non-test files of a module is preceded by a call that may yield.
//
//	instr REPO OUTDIR YIELDSRC
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/spacemonkeygo/monkit/v3"

type insertion struct {
	off  int
	text string
	prio int
}

func instrument(src []byte, name string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	for _, imp := range f.Imports {
		if imp.Path.Value == `"C"` {
			return src, nil
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	tf := fset.File(f.Pos())
	off = func(p token.Pos) int { return tf.Offset(p) }
	var ins []insertion
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins = append(ins, insertion{off(s.Pos()), "verifyield.Y(); ", 0})
		}
	}
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// the body of a switch or select consists of clauses
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.CallExpr:
			sel, ok := n.Fun.(*ast.SelectorExpr)
			if !ok {
				break
			}
			id, ok := sel.X.(*ast.Ident)
			if !ok || id.Name != "atomic" || id.Obj != nil {
				break
			}
			for _, p := range []string{"Load", "Add", "Swap", "CompareAndSwap"} {
				if strings.HasPrefix(sel.Sel.Name, p) {
					ins = append(ins,
						insertion{off(n.Pos()), "verifyield.P(", 1},
						insertion{off(n.End()), ")", 2})
					break
				}
			}
		}
		return true
	})
	used = len(ins) > 0
	if !used {
		return src, nil
	}
	// defers and goroutines need a call, which P(...) is; fine.
	ins = append(ins, insertion{off(f.Name.End()), `; import verifyield "` + module + `/verifyield"`, 0})
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].off != ins[j].off {
			return ins[i].off < ins[j].off
		}
		return ins[i].prio < ins[j].prio
	})
	var out []byte
	last := 0
	for _, in := range ins {
		out = append(out, src[last:in.off]...)
		out = append(out, in.text...)
		last = in.off
	}
	out = append(out, src[last:]...)
	if _, err := parser.ParseFile(token.NewFileSet(), name, out, 0); err != nil {
		return nil, err
	}
	return out, nil
}

func main() {
	repo, outdir, yieldsrc := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			b := info.Name()
			if path != repo && (strings.HasPrefix(b, ".") || b == "examples" || b == "testdata" || b == "internal") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, err := instrument(src, path)
		if err != nil {
			fmt.Fprintf(os.Stderr, "not instrumented: %s: %v\n", path, err)
			return nil
		}
		dst := filepath.Join(outdir, fmt.Sprintf("f%d_%s", n, filepath.Base(path)))
		n++
		replace[path] = dst
		return os.WriteFile(dst, out, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	replace[filepath.Join(repo, "verifyield", "yield.go")] = yieldsrc
	data, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	if err := os.WriteFile(filepath.Join(outdir, "overlay.json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println(n, "files instrumented")
}
