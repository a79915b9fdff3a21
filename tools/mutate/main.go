// mutate lists single-change mutants of Go files as JSON lines: used to look for changes the checks miss.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type Mutant struct {
	File       string
	Line       int
	Start, End int
	New        string
	Op         string
	Old        string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(n ast.Node, s, e int, repl, op string) {
			_ = enc.Encode(Mutant{f, fs.Position(n.Pos()).Line, s, e, repl, op, string(src[s:e])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		whole := func(n ast.Node, repl, op string) { emit(n, off(n.Pos()), off(n.End()), repl, op) }
		logging := func(n ast.Node) bool {
			s := text(n)
			return len(s) > 6 && (s[:4] == "zap." || s[:4] == "fmt.")
		}
		var list func(l []ast.Stmt)
		list = func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					if !logging(x) {
						whole(x, "", "delete call")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						r := ""
						for k, e := range x.Rhs {
							if k > 0 {
								r += ", "
							}
							r += text(e)
						}
						blanks := "_"
						for k := 1; k < len(x.Lhs); k++ {
							blanks += ", _"
						}
						whole(x, blanks+" = "+r, "drop assignment")
					}
				case *ast.DeferStmt:
					whole(x, "", "delete defer")
				case *ast.IncDecStmt:
					whole(x, "", "delete inc")
				case *ast.BranchStmt:
					whole(x, "", "delete branch")
				case *ast.ReturnStmt:
					if i < len(l)-1 || true {
						if len(x.Results) == 0 {
							whole(x, "", "delete return")
						}
					}
				}
				if i+1 < len(l) {
					_, ok1 := s.(*ast.ExprStmt)
					_, ok2 := l[i+1].(*ast.ExprStmt)
					if ok1 && ok2 && !logging(s) && !logging(l[i+1]) {
						emit(s, off(s.Pos()), off(l[i+1].End()), text(l[i+1])+"\n"+text(s), "swap")
					}
				}
			}
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.IfStmt:
				c := text(x.Cond)
				whole(x.Cond, "!("+c+")", "negate")
				whole(x.Cond, "("+c+") && false", "never")
				whole(x.Cond, "("+c+") || true", "always")
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}}
				for _, r := range alt[x.Op] {
					s := off(x.OpPos)
					emit(x, s, s+len(x.Op.String()), r, "operator "+x.Op.String()+" -> "+r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					whole(x, text(x.X), "left only")
					whole(x, text(x.Y), "right only")
				}
				if x.Op == token.ADD {
					whole(x, text(x.X), "left only")
					whole(x, text(x.Y), "right only")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						whole(x, strconv.Itoa(v+1), "int+1")
						if v > 0 {
							whole(x, strconv.Itoa(v-1), "int-1")
						}
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && x.Value[0] == '"' {
						whole(x, strconv.Quote(v+"x"), "string")
						if v != "" {
							whole(x, `""`, "empty string")
						}
					}
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					t := text(r)
					switch {
					case t == "true":
						whole(r, "false", "return false")
					case t == "false":
						whole(r, "true", "return true")
					case t == "nil":
					case i == len(x.Results)-1:
						whole(r, "nil", "return nil")
					}
				}
			case *ast.GoStmt:
				whole(x, text(x.Call), "no goroutine")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					whole(x, text(x.X), "drop !")
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					swap := map[string]string{"HasPrefix": "HasSuffix", "HasSuffix": "Contains", "Contains": "HasPrefix", "Lock": "RLock", "Unlock": "RUnlock", "TrimSuffix": "TrimRight", "TrimPrefix": "TrimLeft", "TrimRight": "TrimSuffix"}
					if r, ok := swap[s.Sel.Name]; ok {
						whole(s.Sel, r, "call "+r)
					}
				}
				if len(x.Args) == 2 {
					whole(x, text(x.Fun)+"("+text(x.Args[1])+", "+text(x.Args[0])+")", "swap arguments")
				}
			case *ast.KeyValueExpr:
				whole(x, "", "drop member")
			case *ast.ImportSpec:
				return false
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}
