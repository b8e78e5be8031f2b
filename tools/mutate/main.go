// mutate DIR FILE... prints every single-place change of the Go files as JSON
// lines {file, line, start, end, new, what}. Used to look for changes the
// checks do not notice; no check reads it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
}

func main() {
	dir := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		out := func(a, b token.Pos, s, what string) {
			enc.Encode(mut{f, fs.Position(a).Line, off(a), off(b), s, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		cond := func(e ast.Expr) {
			out(e.Pos(), e.End(), "(false && ("+text(e)+"))", "condition false: "+text(e))
			out(e.Pos(), e.End(), "(true || ("+text(e)+"))", "condition true: "+text(e))
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					out(s.Pos(), s.End(), "", "removed: "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						l := ""
						for i, r := range s.Rhs {
							if i > 0 {
								l += "; "
							}
							l += "_ = " + text(r)
						}
						if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
							continue
						}
						out(s.Pos(), s.End(), l, "removed: "+text(s))
					}
				case *ast.ReturnStmt:
					if n := len(s.Results); n > 0 {
						if id, ok := s.Results[n-1].(*ast.Ident); ok && id.Name == "err" {
							out(id.Pos(), id.End(), "nil", "nil error: "+text(s))
						}
						if c, ok := s.Results[n-1].(*ast.CallExpr); ok && (text(c.Fun) == "fmt.Errorf" || text(c.Fun) == "errors.New") && n == 1 {
							out(s.Pos(), s.End(), "", "no error: "+text(s))
						}
					}
				case *ast.BranchStmt:
					if s.Tok == token.BREAK {
						out(s.Pos(), s.End(), "", "no break")
					}
					if s.Tok == token.CONTINUE {
						out(s.Pos(), s.End(), "break", "break for continue")
					}
				case *ast.DeferStmt:
					out(s.Pos(), s.End(), "", "removed: "+text(s))
				}
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i > 0 {
							out(n.List[i-1].End(), e.End(), "", "case value removed: "+text(e))
						} else {
							out(e.Pos(), n.List[1].Pos(), "", "case value removed: "+text(e))
						}
					}
				}
			case *ast.IfStmt:
				cond(n.Cond)
				if n.Else != nil {
					if b, ok := n.Else.(*ast.BlockStmt); ok {
						out(b.Pos(), b.End(), "{}", "else removed")
					}
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					out(n.Cond.Pos(), n.Cond.End(), "(false && ("+text(n.Cond)+"))", "loop never: "+text(n.Cond))
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.SHL: {">>"}, token.OR: {"&"}, token.REM: {"*"}}
				for _, a := range alt[n.Op] {
					out(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, text(n)+" with "+a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					out(n.Pos(), n.End(), text(n.X), "only "+text(n.X)+" of "+text(n))
					out(n.Pos(), n.End(), text(n.Y), "only "+text(n.Y)+" of "+text(n))
					o := map[token.Token]string{token.LAND: "||", token.LOR: "&&"}[n.Op]
					out(n.OpPos, n.OpPos+2, o, text(n)+" with "+o)
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					out(n.OpPos, n.OpPos+1, "", "without !: "+text(n))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						out(n.Pos(), n.End(), fmt.Sprint(v+1), fmt.Sprintf("%d for %s", v+1, n.Value))
						if v > 0 {
							out(n.Pos(), n.End(), fmt.Sprint(v-1), fmt.Sprintf("%d for %s", v-1, n.Value))
						}
					}
				case token.CHAR:
					out(n.Pos(), n.End(), "'\\x01'", "\\x01 for "+n.Value)
				case token.STRING:
					if len(n.Value) > 2 && len(n.Value) < 12 {
						out(n.Pos(), n.End(), `"~"`, `"~" for `+n.Value)
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					out(n.Pos(), n.End(), "false", "false for true")
				}
				if n.Name == "false" {
					out(n.Pos(), n.End(), "true", "true for false")
				}
			case *ast.ImportSpec:
				return false
			}
			return true
		})
	}
}
