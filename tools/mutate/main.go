// mutate DIR FILE...: prints one JSON line per small change to the given Go files of the repository at DIR:
// {file, start, end, new, line, what} - replace the bytes start..end of the file.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type Mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Line  int    `json:"line"`
	What  string `json:"what"`
}

func main() {
	dir := os.Args[1]
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, repl, what string) {
			b, _ := json.Marshal(Mut{f, off(from), off(to), repl, fs.Position(from).Line, what})
			fmt.Println(string(b))
		}
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}
		var fn string
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok == token.VAR || x.Tok == token.CONST
			case *ast.FuncDecl:
				fn = x.Name.Name
				_ = fn
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never "+text(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always "+text(x.Cond))
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "swap in "+text(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "only left of "+text(x))
					emit(x.Pos(), x.End(), text(x.Y), "only right of "+text(x))
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					emit(x.Pos(), x.End(), "false", "true")
				case "false":
					emit(x.Pos(), x.End(), "true", "false")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					emit(x.Pos(), x.End(), x.Value+"+1", "int "+x.Value)
				case token.STRING:
					if len(x.Value) > 2 {
						emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:], "string "+x.Value)
					} else {
						emit(x.Pos(), x.End(), `"x"`, "string empty")
					}
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
					emit(x.Pos(), x.End(), "", "drop "+text(x))
				}
				if len(x.Rhs) == 1 && x.Tok == token.ASSIGN && len(x.Lhs) == 1 {
					emit(x.Pos(), x.End(), "_ = "+text(x.Rhs[0]), "drop, keep use "+text(x))
				}
			case *ast.BranchStmt:
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap arguments of "+text(x))
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 && strings.Contains("TrimSpace strings.Trim UseCode WithError WithData", s.Sel.Name) {
					if s.Sel.Name == "TrimSpace" {
						emit(x.Pos(), x.End(), text(x.Args[0]), "unwrap "+text(x))
					} else {
						emit(x.Pos(), x.End(), text(s.X), "unwrap "+text(x))
					}
				}
			case *ast.SliceExpr:
				if x.Low == nil && x.High != nil {
					emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice "+text(x))
				}
			case *ast.KeyValueExpr:
				end := x.End()
				if src[off(end)] == ',' {
					end++
				}
				emit(x.Pos(), end, "", "drop field "+text(x))
			case *ast.CaseClause:
				if len(x.Body) > 0 && x.List != nil {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
				}
			case *ast.RangeStmt:
				if len(x.Body.List) > 0 {
					emit(x.Body.Lbrace+1, x.Body.Rbrace, "\n"+string(src[off(x.Body.Lbrace)+1:off(x.Body.Rbrace)])+"\nbreak\n", "only first of "+text(x.X))
				}
			}
			return true
		})
	}
}
