// mutate lists small changes of Go files, as lines of JSON: the byte range to
// replace, the new text, the line and what was done.  It is an aid for testing
// the checks (tools/mutate.py); no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string
	From, To   int
	New        string
	Line       int
	Func, What string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(from, to token.Pos, s, what string) {
			enc.Encode(mutant{name, off(from), off(to), s, fset.Position(from).Line, fn, what})
		}
		narrow := map[string]string{"uint64": "uint16", "uint32": "uint16", "uint16": "uint8", "int": "int16", "int64": "int32", "int32": "int16", "uint": "uint16"}
		swap := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"},
			token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"},
		}
		isLog := func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return false
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return false
			}
			x, ok := s.X.(*ast.Ident)
			return ok && (x.Name == "logs" || x.Name == "glog")
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				return true
			}
			if isLog(n) && !strings.Contains(name, "logs/") {
				return false
			}
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+text(x))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err != nil {
						break
					}
					emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" + 1")
					if v > 0 {
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" - 1")
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil {
						emit(x.Pos(), x.End(), strconv.Quote(v+"x"), x.Value+" longer")
						if v != "" {
							emit(x.Pos(), x.End(), strconv.Quote(v[1:]), x.Value+" shorter")
						}
					}
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false: "+text(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true: "+text(x.Cond))
			case *ast.ExprStmt:
				if !isLog(x.X) {
					emit(x.Pos(), x.End(), "", "delete "+text(x))
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "delete "+text(x))
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "delete "+text(x))
			case *ast.BranchStmt:
				emit(x.Pos(), x.End(), "", "delete "+text(x))
				if x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "continue", "break -> continue")
				} else if x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break", "continue -> break")
				}
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "delete "+text(x))
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if t := text(r); t == "err" || strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "errors.New") {
						emit(r.Pos(), r.End(), "nil", "return nil for "+t)
					}
					if t := text(r); t == "true" || t == "false" {
						emit(r.Pos(), r.End(), "!"+t, "return !"+t)
					}
				}
				if len(x.Results) == 0 {
					emit(x.Pos(), x.End(), "", "delete return")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && narrow[id.Name] != "" {
					t := narrow[id.Name]
					emit(x.Args[0].Pos(), x.Args[0].End(), t+"("+text(x.Args[0])+")", "narrow to "+t+": "+text(x))
				}
				if len(x.Args) == 2 {
					emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap arguments of "+text(x))
				}
			case *ast.CaseClause:
				for i, e := range x.List {
					if len(x.List) > 1 {
						to := e.End()
						from := e.Pos()
						if i+1 < len(x.List) {
							to = x.List[i+1].Pos()
						} else {
							from = x.List[i-1].End()
						}
						emit(from, to, "", "delete case "+text(e))
					}
				}
				if len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.X.Pos(), "", "drop !")
				}
			}
			return true
		})
	}
}
