// mutate FILE          list the mutants of FILE: index, line, kind, text
// mutate FILE N OUT    write mutant N
// Development only.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	a, b int // bytes replaced
	s    string
	line int
	kind string
	fn   string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mut
	fn := ""
	add := func(n ast.Node, a, b token.Pos, s, kind string) {
		ms = append(ms, mut{off(a), off(b), s, fs.Position(n.Pos()).Line, kind, fn})
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
		token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"&"},
	}
	var stmts func(l []ast.Stmt)
	stmts = func(l []ast.Stmt) {
		for _, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt:
				if c, ok := s.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						continue
					}
					if strings.HasPrefix(txt(s), "fmt.Print") || strings.HasPrefix(txt(s), "buf.WriteString") {
						continue
					}
				}
				add(s, s.Pos(), s.End(), "", "drop "+txt(s))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s, s.Pos(), s.End(), strings.Repeat("_ = ", 0)+keep(s, txt), "drop "+txt(s))
				}
			case *ast.IncDecStmt:
				add(s, s.Pos(), s.End(), "", "drop "+txt(s))
			case *ast.DeferStmt:
				add(s, s.Pos(), s.End(), "", "drop "+txt(s))
			case *ast.BranchStmt:
				if s.Label == nil {
					add(s, s.Pos(), s.End(), "", "drop "+txt(s))
				}
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		if fn == "Print" || fn == "ToString" || fn == "init" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.IfStmt:
				c := txt(n.Cond)
				add(n, n.Cond.Pos(), n.Cond.End(), "("+c+") && false", "never "+c)
				add(n, n.Cond.Pos(), n.Cond.End(), "("+c+") || true", "always "+c)
			case *ast.BinaryExpr:
				for _, o := range swap[n.Op] {
					if n.Op == token.ADD && (strings.Contains(txt(n), `"`)) {
						continue
					}
					add(n, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, txt(n)+" -> "+o)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						add(n, n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
						if v > 0 {
							add(n, n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -> -1")
						}
					}
				}
			case *ast.ReturnStmt:
				if k := len(n.Results); k > 0 {
					if id, ok := n.Results[k-1].(*ast.Ident); ok && strings.Contains(strings.ToLower(id.Name), "err") {
						add(n, id.Pos(), id.End(), "nil", txt(n)+" -> nil")
					}
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							o := "true"
							if id.Name == "true" {
								o = "false"
							}
							add(n, id.Pos(), id.End(), o, txt(n)+" -> "+o)
						}
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n, n.OpPos, n.OpPos+1, "", txt(n)+" -> not negated")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					add(n, n.Low.Pos(), n.Low.End(), "("+txt(n.Low)+")+1", txt(n)+" low+1")
				}
				if n.High != nil {
					add(n, n.High.Pos(), n.High.End(), "("+txt(n.High)+")-1", txt(n)+" high-1")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) > 1 {
					add(n, n.Pos(), n.End(), txt(n.Args[0]), txt(n)+" -> not appended")
				}
			}
			return true
		})
	}
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\t%s\n", i, m.line, m.fn, strings.ReplaceAll(strings.ReplaceAll(m.kind, "\n", " "), "\t", " "))
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := ms[i]
	out := string(src[:m.a]) + m.s + string(src[m.b:])
	if err := os.WriteFile(os.Args[3], []byte(out), 0644); err != nil {
		panic(err)
	}
}

// keep the variables of a dropped assignment used
func keep(s *ast.AssignStmt, txt func(ast.Node) string) string {
	var r []string
	for _, x := range s.Rhs {
		if id, ok := x.(*ast.Ident); ok {
			r = append(r, "_ = "+id.Name)
		}
	}
	return strings.Join(r, "; ")
}
