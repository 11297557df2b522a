// mut lists small changes of Go files, as JSON lines with byte ranges and
// replacements, for trying the checks on them.
//
//	mut FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

// Edit replaces the bytes [From, To).
type Edit struct {
	From, To int
	Text     string
}

// Mut is one change.
type Mut struct {
	File, Kind, Func string
	Line             int
	Edits            []Edit
	Was              string
}

type lister struct {
	fset *token.FileSet
	src  []byte
	file string
	fn   string
	enc  *json.Encoder
	ok   func(src []byte) bool
	seen map[string]bool
}

func (l *lister) off(p token.Pos) int { return l.fset.Position(p).Offset }

func (l *lister) text(n ast.Node) string { return string(l.src[l.off(n.Pos()):l.off(n.End())]) }

func (l *lister) out(kind string, n ast.Node, edits ...Edit) {
	was := l.text(n)
	if len(was) > 120 {
		was = was[:120]
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].From < edits[j].From })
	var b []byte
	at := 0
	for _, e := range edits {
		b = append(append(b, l.src[at:e.From]...), e.Text...)
		at = e.To
	}
	b = append(b, l.src[at:]...)
	if l.seen[string(b)] || !l.ok(b) {
		return
	}
	l.seen[string(b)] = true
	l.enc.Encode(Mut{l.file, kind, l.fn, l.fset.Position(n.Pos()).Line, edits, was})
}

func (l *lister) repl(kind string, n ast.Node, text string) {
	l.out(kind, n, Edit{l.off(n.Pos()), l.off(n.End()), text})
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func lockCall(s ast.Stmt) (recv ast.Expr, name string, deferred bool) {
	var call *ast.CallExpr
	switch s := s.(type) {
	case *ast.ExprStmt:
		call, _ = s.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		call, deferred = s.Call, true
	}
	if call == nil || len(call.Args) != 0 {
		return nil, "", false
	}
	sel, _ := call.Fun.(*ast.SelectorExpr)
	if sel == nil {
		return nil, "", false
	}
	switch sel.Sel.Name {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return sel.X, sel.Sel.Name, deferred
	}
	return nil, "", false
}

func (l *lister) stmts(list []ast.Stmt) {
	for i, s := range list {
		switch s.(type) {
		case *ast.DeclStmt, *ast.LabeledStmt:
		default:
			if _, name, _ := lockCall(s); name == "" {
				l.repl("delete", s, "")
			}
		}
		if d, ok := s.(*ast.DeferStmt); ok {
			l.repl("undefer", s, l.text(d.Call))
		}
		if i+1 < len(list) {
			n := list[i+1]
			l.out("swap", s, Edit{l.off(s.Pos()), l.off(s.End()), l.text(n)}, Edit{l.off(n.Pos()), l.off(n.End()), l.text(s)})
		}
		// a lock that ends one statement early
		if _, name, deferred := lockCall(s); (name == "Unlock" || name == "RUnlock") && !deferred && i > 0 {
			if _, prev, _ := lockCall(list[i-1]); prev == "" {
				continue
			}
		}
		// unlock and lock again between two statements
		if i > 0 && i+1 < len(list) {
			if recv, name, _ := lockCall(list[i-1]); name == "Lock" {
				for j := i; j+1 < len(list); j++ {
					if _, nm, _ := lockCall(list[j]); nm != "" {
						continue
					}
					if _, nm, _ := lockCall(list[j+1]); nm != "" {
						break
					}
					t := l.text(recv)
					l.out("split-lock", list[j], Edit{l.off(list[j].End()), l.off(list[j].End()), "; " + t + ".Unlock(); " + t + ".Lock()"})
				}
			}
		}
	}
}

func (l *lister) locks(body *ast.BlockStmt) {
	found := map[string][]Edit{}
	node := map[string]ast.Node{}
	ast.Inspect(body, func(n ast.Node) bool {
		if s, ok := n.(ast.Stmt); ok {
			if recv, name, _ := lockCall(s); name != "" {
				k := l.text(recv)
				found[k] = append(found[k], Edit{l.off(s.Pos()), l.off(s.End()), ""})
				node[k] = s
			}
		}
		return true
	})
	var keys []string
	for k := range found {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l.out("no-lock", node[k], found[k]...)
	}
}

func (l *lister) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		l.stmts(n.List)
	case *ast.CaseClause:
		l.stmts(n.Body)
	case *ast.CommClause:
		l.stmts(n.Body)
	case *ast.IfStmt:
		l.repl("cond-true", n.Cond, "(true || ("+l.text(n.Cond)+"))")
		l.repl("cond-false", n.Cond, "(false && ("+l.text(n.Cond)+"))")
		l.repl("cond-not", n.Cond, "!("+l.text(n.Cond)+")")
	case *ast.ForStmt:
		if n.Cond != nil {
			l.repl("for-false", n.Cond, "(false && ("+l.text(n.Cond)+"))")
		}
	case *ast.BinaryExpr:
		for _, t := range swaps[n.Op] {
			o := l.off(n.OpPos)
			l.out("op "+n.Op.String()+" to "+t, n, Edit{o, o + len(n.Op.String()), t})
		}
	case *ast.IncDecStmt:
		t := "++"
		if n.Tok == token.INC {
			t = "--"
		}
		o := l.off(n.TokPos)
		l.out("incdec", n, Edit{o, o + 2, t})
	case *ast.AssignStmt:
		switch n.Tok {
		case token.ADD_ASSIGN, token.SUB_ASSIGN:
			t := "-="
			if n.Tok == token.SUB_ASSIGN {
				t = "+="
			}
			o := l.off(n.TokPos)
			l.out("assign-op", n, Edit{o, o + 2, t})
			l.out("assign-plain", n, Edit{o, o + 2, "="})
		}
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			l.repl("no-not", n, l.text(n.X))
		}
		if n.Op == token.SUB {
			l.repl("no-minus", n, l.text(n.X))
		}
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
				l.repl("int+1", n, fmt.Sprint(v+1))
				l.repl("int-1", n, fmt.Sprint(v-1))
				if v > 2 {
					l.repl("int/2", n, fmt.Sprint(v/2))
				}
			}
		case token.FLOAT:
			l.repl("float", n, "("+n.Value+"+1)")
		case token.STRING:
			if len(n.Value) > 2 {
				l.repl("string-empty", n, `""`)
				if n.Value[0] == '"' {
					l.repl("string-x", n, n.Value[:len(n.Value)-1]+`x"`)
				}
			}
		case token.CHAR:
			l.repl("char", n, "'~'")
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			l.repl("bool", n, "false")
		case "false":
			l.repl("bool", n, "true")
		}
	case *ast.ReturnStmt:
		for _, r := range n.Results {
			switch t := l.text(r); t {
			case "nil", "true", "false", "0", `""`:
			default:
				for _, z := range []string{"nil", "0", `""`, "false"} {
					l.repl("return-"+z, r, z)
				}
			}
		}
	case *ast.CallExpr:
		for i := 0; i+1 < len(n.Args); i++ {
			a, b := n.Args[i], n.Args[i+1]
			if l.text(a) != l.text(b) {
				l.out("swap-args", n, Edit{l.off(a.Pos()), l.off(a.End()), l.text(b)}, Edit{l.off(b.Pos()), l.off(b.End()), l.text(a)})
			}
		}
		for _, a := range n.Args {
			if t := l.text(a); t != "nil" {
				l.repl("arg-nil", a, "nil")
			}
		}
	case *ast.FuncLit:
		l.locks(n.Body)
	}
	return true
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		bp, err := build.ImportDir(filepath.Dir(f), 0)
		if err != nil {
			panic(err)
		}
		var others []*ast.File
		here := false
		for _, o := range bp.GoFiles {
			if o == filepath.Base(f) {
				here = true
				continue
			}
			of, err := parser.ParseFile(fset, filepath.Join(bp.Dir, o), nil, 0)
			if err != nil {
				panic(err)
			}
			others = append(others, of)
		}
		if !here {
			fmt.Fprintln(os.Stderr, "not in this build:", f)
			continue
		}
		l := &lister{fset: fset, src: src, file: f, enc: enc, seen: map[string]bool{string(src): true}, ok: func(b []byte) bool {
			fs := fset
			mf, err := parser.ParseFile(fs, f+".mut", b, 0)
			if err != nil {
				return false
			}
			bad := false
			cfg := types.Config{Importer: imp, Error: func(error) { bad = true }}
			cfg.Check(bp.ImportPath, fs, append([]*ast.File{mf}, others...), nil)
			return !bad
		}}
		if !l.ok(src) {
			panic("does not type-check: " + f)
		}
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				l.fn = fd.Name.Name
				l.locks(fd.Body)
				ast.Inspect(fd.Body, l.visit)
			} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok != token.IMPORT {
				l.fn = ""
				ast.Inspect(gd, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.Field:
						return n.Tag == nil
					}
					return l.visit(n)
				})
			}
		}
	}
}
