// Command mutate prints the mutants of Go source files, one JSON object per
// line: {"file", "from", "to", "text", "what"}, where the bytes from..to of the
// file are replaced by text. It serves to measure how sensitive the checks are
// (see ../mutants.py) and is no part of them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

var enc = json.NewEncoder(os.Stdout)

func main() {
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, new, what string) {
			enc.Encode(map[string]any{"file": name, "from": off(n.Pos()), "to": off(n.End()), "text": new,
				"what": fmt.Sprintf("%s:%d %s: %.60q -> %.60q", name, fs.Position(n.Pos()).Line, what, text(n), new)})
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, op := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.SHL: {">>"}, token.AND: {"|"}}[n.Op] {
						emit(n, text(n.X)+" "+op+" "+text(n.Y), "operator")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						emit(n, n.Value+"+1", "constant")
					}
				case *ast.Ident:
					switch n.Name {
					case "true":
						emit(n, "false", "constant")
					case "false":
						emit(n, "true", "constant")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						emit(n, text(n.X), "negation")
					}
				case *ast.IfStmt:
					emit(n.Cond, "!("+text(n.Cond)+")", "negated")
					emit(n.Cond, "("+text(n.Cond)+") || true", "always")
					emit(n.Cond, "("+text(n.Cond)+") && false", "never")
				case *ast.BlockStmt:
					stmts(n.List, emit)
				case *ast.CaseClause:
					stmts(n.Body, emit)
				case *ast.CommClause:
					stmts(n.Body, emit)
				case *ast.SelectorExpr:
					if x, ok := n.X.(*ast.Ident); ok && x.Name == "ratus" {
						if to := map[string]string{"ErrNotFound": "ErrConflict", "ErrConflict": "ErrNotFound", "ErrBadRequest": "ErrNotFound", "ErrServiceUnavailable": "ErrInternalServerError",
							"TaskStatePending": "TaskStateActive", "TaskStateActive": "TaskStatePending", "TaskStateCompleted": "TaskStateArchived", "TaskStateArchived": "TaskStateCompleted"}[n.Sel.Name]; to != "" {
							emit(n.Sel, to, "name")
						}
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 && text(n.Args[0]) != text(n.Args[1]) {
						emit(n, text(n.Fun)+"("+text(n.Args[1])+", "+text(n.Args[0])+")", "swapped")
					}
					if len(n.Args) == 4 {
						emit(n, text(n.Fun)+"("+text(n.Args[0])+", "+text(n.Args[1])+", "+text(n.Args[3])+", "+text(n.Args[2])+")", "swapped")
					}
				case *ast.CompositeLit:
					for i, e := range n.Elts {
						if len(n.Elts) > 1 {
							end := off(e.End())
							if i+1 < len(n.Elts) {
								end = off(n.Elts[i+1].Pos())
							} else {
								end = off(n.Rbrace)
							}
							enc.Encode(map[string]any{"file": name, "from": off(e.Pos()), "to": end, "text": "",
								"what": fmt.Sprintf("%s:%d element removed: %.60q", name, fs.Position(e.Pos()).Line, text(e))})
						}
					}
				}
				return true
			})
		}
	}
}

func stmts(l []ast.Stmt, emit func(ast.Node, string, string)) {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt, *ast.BranchStmt, *ast.SendStmt:
			emit(s, "{}", "removed")
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				emit(s, "{}", "removed")
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 0 {
				emit(s, "{}", "removed")
			} else if id, ok := s.Results[len(s.Results)-1].(*ast.Ident); ok && id.Name == "err" {
				emit(id, "nil", "error dropped")
			}
		}
	}
}
