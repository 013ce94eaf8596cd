// Command mutate lists the mutants of Go files: one JSON object per line, with the
// file, the bytes replaced, their replacement and a description.
//
//	mutate FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	From, To int
	New      string
	Line     int
	What     string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, s, what string) {
			enc.Encode(mutant{name, off(a), off(b), s, fset.Position(a).Line,
				fmt.Sprintf("%s: %q -> %q", what, string(src[off(a):off(b)]), s)})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "op")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "const")
							if v > 0 {
								emit(n.Pos(), n.End(), fmt.Sprint(v-1), "const")
							}
						}
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						emit(n.OpPos, n.OpPos+1, "", "unary")
					}
				case *ast.IfStmt:
					c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
					emit(n.Cond.Pos(), n.Cond.End(), "true || "+"("+c+")", "cond")
					emit(n.Cond.Pos(), n.Cond.End(), "false && "+"("+c+")", "cond")
				case *ast.ExprStmt:
					emit(n.Pos(), n.End(), "", "del")
				case *ast.IncDecStmt:
					emit(n.Pos(), n.End(), "", "del")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						emit(n.Pos(), n.End(), "", "del")
					}
				case *ast.BranchStmt:
					if n.Label == nil && n.Tok == token.BREAK {
						emit(n.Pos(), n.End(), "", "del")
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "bool")
					} else if n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "bool")
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 {
						a, b := n.Args[0], n.Args[1]
						as, bs := string(src[off(a.Pos()):off(a.End())]), string(src[off(b.Pos()):off(b.End())])
						if as != bs {
							emit(a.Pos(), b.End(), bs+", "+as, "swap")
						}
					}
				}
				return true
			})
		}
	}
}
