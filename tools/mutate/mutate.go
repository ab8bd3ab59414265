// mutate lists systematic one-place changes of Go source files as JSON lines:
// {"file","line","op","start","end","text"}; replacing the bytes start..end of
// the file by text makes the mutant.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	Func  string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		put := func(n ast.Node, op, text string) {
			_ = enc.Encode(mutant{f, fset.Position(n.Pos()).Line, op, off(n.Pos()), off(n.End()), text, fn})
		}
		str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		cond := func(c ast.Expr) {
			if c == nil {
				return
			}
			put(c, "cond true", "("+str(c)+" || true)")
			put(c, "cond false", "("+str(c)+" && false)")
		}
		block := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
					put(s, "delete", "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						put(s, "delete", "")
					}
				case *ast.IfStmt:
					put(s, "delete if", "")
				case *ast.ForStmt, *ast.RangeStmt:
					put(s, "delete loop", "")
				}
			}
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok {
				fn = fd.Name.Name
			} else {
				fn = ""
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					return false
				case *ast.IfStmt:
					cond(x.Cond)
				case *ast.ForStmt:
				case *ast.BlockStmt:
					block(x.List)
				case *ast.CaseClause:
					block(x.Body)
				case *ast.BinaryExpr:
					swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&", "|"}, token.SHL: {">>"}, token.SHR: {"<<"}}
					for _, t := range swap[x.Op] {
						put(x, x.Op.String()+" to "+t, str(x.X)+" "+t+" "+str(x.Y))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						put(x, "left only", str(x.X))
						put(x, "right only", str(x.Y))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						put(x, "no not", str(x.X))
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							put(x, "int+1", fmt.Sprint(v+1))
							if v > 0 {
								put(x, "int-1", fmt.Sprint(v-1))
							}
						}
					case token.STRING:
						if s, err := strconv.Unquote(x.Value); err == nil {
							put(x, "string", strconv.Quote(s+"x"))
							if s != "" {
								put(x, "empty string", `""`)
							}
						}
					case token.CHAR:
						put(x, "char", "'\\x01'")
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						put(x, "bool", strconv.FormatBool(x.Name == "false"))
					}
				case *ast.ReturnStmt:
					for _, e := range x.Results {
						if id, ok := e.(*ast.Ident); ok && (id.Name == "err" || id.Name == "resp" || id.Name == "nil") {
							if id.Name != "nil" {
								put(e, "return nil", "nil")
							}
						}
						if c, ok := e.(*ast.CallExpr); ok && len(x.Results) > 1 && e == x.Results[len(x.Results)-1] {
							_ = c
							put(e, "return nil", "nil")
						}
					}
				case *ast.BranchStmt:
					switch x.Tok {
					case token.BREAK:
						put(x, "break", "continue")
					case token.CONTINUE:
						put(x, "continue", "break")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						put(x.Low, "low+1", str(x.Low)+"+1")
					}
					if x.High != nil {
						put(x.High, "high-1", str(x.High)+"-1")
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
						put(x, "no append", str(x.Args[0]))
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 {
						switch s.Sel.Name {
						case "ToUpper", "ToLower", "TrimSpace":
							put(x, "no "+s.Sel.Name, str(x.Args[0]))
						}
					}
				}
				return true
			})
		}
	}
}
