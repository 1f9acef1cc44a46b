package main

// prints JSON list of mutants: {file, func, line, kind, off, end, new}
import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File, Func, Kind string
	Line, Off, End   int
	New, Old         string
}

func main() {
	var out []M
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			add := func(kind string, a, b token.Pos, nw string) {
				out = append(out, M{f, name, kind, fs.Position(a).Line, off(a), off(b), nw, string(src[off(a):off(b)])})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			var stmts func(l []ast.Stmt)
			stmts = func(l []ast.Stmt) {
				for i, s := range l {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
						add("del", s.Pos(), s.End(), "")
						if g, ok := s.(*ast.GoStmt); ok {
							add("nogo", s.Pos(), s.End(), text(g.Call))
						}
						if g, ok := s.(*ast.DeferStmt); ok {
							add("nodefer", s.Pos(), s.End(), text(g.Call))
						}
						if g, ok := s.(*ast.ExprStmt); ok {
							if _, ok := g.X.(*ast.CallExpr); ok {
								add("go", s.Pos(), s.End(), "go "+text(g.X))
							}
						}
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							add("del", s.Pos(), s.End(), "")
							if x.Tok == token.ADD_ASSIGN {
								add("op", x.TokPos, x.TokPos+2, "-=")
								add("op", x.TokPos, x.TokPos+2, "=")
							}
						}
					case *ast.IfStmt:
						if x.Else == nil && x.Init == nil {
							add("delif", s.Pos(), s.End(), "")
						}
					case *ast.ForStmt, *ast.RangeStmt:
						add("delloop", s.Pos(), s.End(), "")
					case *ast.BranchStmt:
						if x.Label == nil && x.Tok == token.BREAK {
							add("branch", s.Pos(), s.End(), "continue")
						}
						if x.Label == nil && x.Tok == token.CONTINUE {
							add("branch", s.Pos(), s.End(), "break")
						}
					case *ast.ReturnStmt:
						if len(x.Results) == 0 {
							add("delret", s.Pos(), s.End(), "")
						}
					}
					if i+1 < len(l) {
						n := l[i+1]
						_, d1 := s.(*ast.DeclStmt)
						if !d1 {
							add("swap", s.Pos(), n.End(), text(n)+"\n"+text(s))
						}
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.CommClause:
					stmts(x.Body)
				case *ast.IfStmt:
					add("neg", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				case *ast.BinaryExpr:
					alts := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}}
					for _, a := range alts[x.Op] {
						add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add("left", x.Pos(), x.End(), text(x.X))
						add("right", x.Pos(), x.End(), text(x.Y))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add("not", x.Pos(), x.End(), text(x.X))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							add("int", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								add("int", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						add("bool", x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						add("bool", x.Pos(), x.End(), "true")
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						for a, b := range map[string]string{"Lock": "RLock", "Broadcast": "Signal", "RLock": "Lock"} {
							if s.Sel.Name == a {
								add("call", s.Sel.Pos(), s.Sel.End(), b)
							}
						}
					}
				}
				return true
			})
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}
