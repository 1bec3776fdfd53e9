// Command mutate lists small changes to a Go file, one JSON object per line:
// byte offsets, old and new text, line and kind.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, repl, kind string) {
			x, y := off(a), off(b)
			out, _ := json.Marshal(map[string]interface{}{"file": file, "from": x, "to": y, "old": string(src[x:y]), "new": repl, "line": fset.Position(a).Line, "kind": kind})
			fmt.Println(string(out))
		}
		swap := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.OR: {"&", "^"}, token.AND: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"}, token.XOR: {"|"}}
		skipStr := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					skipStr[n.Tag] = true
					emit(n.Tag.Pos(), n.Tag.End(), "", "tag")
				}
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "New" || s.Sel.Name == "Fatalf") {
					for _, a := range n.Args {
						if b, ok := a.(*ast.BasicLit); ok {
							skipStr[b] = true
						}
					}
				}
			case *ast.BinaryExpr:
				for _, s := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "operator")
				}
			case *ast.BasicLit:
				if skipStr[n] {
					return true
				}
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "constant")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "constant")
						}
					}
				case token.STRING:
					s, _ := strconv.Unquote(n.Value)
					emit(n.Pos(), n.End(), strconv.Quote(s+"x"), "string")
					if s != "" {
						emit(n.Pos(), n.End(), `""`, "string")
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "bool")
				}
				if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "bool")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")", "never")
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")", "always")
			case *ast.AssignStmt:
				switch n.Tok {
				case token.ASSIGN:
					t := "_ = "
					if len(n.Rhs) == 1 && len(n.Lhs) == 1 {
						emit(n.Pos(), n.End(), t+string(src[off(n.Rhs[0].Pos()):off(n.Rhs[0].End())]), "drop assignment")
					}
				case token.ADD_ASSIGN:
					emit(n.TokPos, n.TokPos+2, "-=", "operator")
					emit(n.TokPos, n.TokPos+2, "=", "operator")
				case token.OR_ASSIGN, token.AND_ASSIGN, token.XOR_ASSIGN:
					emit(n.TokPos, n.TokPos+2, "=", "operator")
					emit(n.Pos(), n.End(), "", "drop statement")
				}
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "", "drop statement")
			case *ast.DeferStmt:
				emit(n.Pos(), n.End(), "", "drop defer")
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r.Pos(), r.End(), "nil", "drop error")
					}
				}
			case *ast.KeyValueExpr:
				emit(n.Pos(), n.End()+1, "", "drop field")
			case *ast.CaseClause:
				if len(n.List) > 1 {
					emit(n.List[0].Pos(), n.List[1].Pos(), "", "drop case")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), string(src[off(n.Low.Pos()):off(n.Low.End())])+"+1", "slice")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), string(src[off(n.High.Pos()):off(n.High.End())])+"-1", "slice")
				}
			}
			return true
		})
	}
}
