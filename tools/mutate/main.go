// Mutate lists single-point mutants of Go files as JSON lines.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	Beg, End int
	New      string
	Old      string
	Line     int
	Kind     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(kind string, beg, end int, s string) {
			old := string(src[beg:end])
			if old == s {
				return
			}
			enc.Encode(mutant{file, beg, end, s, old, fset.Position(fset.File(f.Pos()).Pos(beg)).Line, kind})
		}
		repl := func(kind string, n ast.Node, s string) { emit(kind, off(n.Pos()), off(n.End()), s) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IfStmt:
				repl("negate", n.Cond, "!("+text(n.Cond)+")")
				repl("never", n.Cond, "false && ("+text(n.Cond)+")")
				repl("always", n.Cond, "true || ("+text(n.Cond)+")")
			case *ast.ForStmt:
				if n.Cond != nil {
					repl("never", n.Cond, "false && ("+text(n.Cond)+")")
				}
			case *ast.BinaryExpr:
				for _, s := range map[token.Token][]string{
					token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"},
					token.GTR: {">=", "<="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.REM: {"/"}}[n.Op] {
					emit("op", off(n.OpPos), off(n.OpPos)+len(n.Op.String()), s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					repl("left", n, text(n.X))
					repl("right", n, text(n.Y))
				}
				if n.Op == token.ADD {
					repl("left", n, text(n.X))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if i, err := strconv.Atoi(n.Value); err == nil {
						repl("int", n, strconv.Itoa(i+1))
						if i > 0 {
							repl("int", n, strconv.Itoa(i-1))
						}
					}
				}
				if n.Kind == token.STRING && len(n.Value) > 2 {
					repl("string", n, `""`)
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := n.Args[i], n.Args[i+1]
					emit("swap", off(a.Pos()), off(b.End()), text(b)+", "+text(a))
				}
				for i := range n.Args {
					repl("nilarg", n.Args[i], "nil")
				}
			case *ast.CompositeLit:
				for _, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						end := off(kv.End())
						for end < len(src) && (src[end] == ',' || src[end] == ' ') {
							end++
						}
						emit("dropfield", off(kv.Pos()), end, "")
					}
				}
			case *ast.BlockStmt:
				stmts(n.List, emit, off, text)
			case *ast.CaseClause:
				stmts(n.Body, emit, off, text)
				if len(n.Body) > 1 {
					emit("emptycase", off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), "")
				}
				if len(n.List) > 1 {
					emit("dropcase", off(n.List[0].Pos()), off(n.List[1].Pos()), "")
				}
			case *ast.BranchStmt:
				if n.Label == nil {
					switch n.Tok {
					case token.BREAK:
						repl("branch", n, "continue")
					case token.CONTINUE:
						repl("branch", n, "break")
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					repl("unnot", n, text(n.X))
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					repl("slicelow", n.Low, text(n.Low)+"+1")
				}
				if n.High != nil {
					repl("slicehigh", n.High, text(n.High)+"-1")
				}
			case *ast.Ident:
				if n.Name == "true" {
					repl("bool", n, "false")
				} else if n.Name == "false" {
					repl("bool", n, "true")
				}
			}
			return true
		})
	}
}

func stmts(list []ast.Stmt, emit func(string, int, int, string), off func(token.Pos) int, text func(ast.Node) string) {
	for i, s := range list {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt, *ast.SendStmt:
			emit("delete", off(s.Pos()), off(s.End()), "")
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				emit("delete", off(s.Pos()), off(s.End()), "")
			}
		case *ast.ReturnStmt:
			if i < len(list)-1 || len(s.Results) == 0 {
				emit("delete", off(s.Pos()), off(s.End()), "")
			}
			if len(s.Results) == 1 {
				emit("retnil", off(s.Results[0].Pos()), off(s.Results[0].End()), "nil")
			}
		}
		if i+1 < len(list) {
			t := list[i+1]
			emit("swapstmt", off(s.Pos()), off(t.End()), text(t)+"\n"+text(s))
		}
	}
}
