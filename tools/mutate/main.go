// mutate lists or applies small changes to Go source files: mutate FILE... prints "index file line what"; mutate -n INDEX FILE... applies one.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	line int
	what string
	do   func()
}

func main() {
	n := flag.Int("n", -1, "")
	flag.Parse()
	k := 0
	for _, name := range flag.Args() {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		var ms []mut
		text := func(x ast.Node) string {
			var b bytes.Buffer
			printer.Fprint(&b, fset, x)
			s := b.String()
			if i := bytes.IndexByte([]byte(s), '\n'); i >= 0 {
				s = s[:i] + "…"
			}
			if len(s) > 90 {
				s = s[:90] + "…"
			}
			return s
		}
		add := func(x ast.Node, what string, do func()) {
			ms = append(ms, mut{fset.Position(x.Pos()).Line, what, do})
		}
		isErr := func(e ast.Expr) bool {
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return false
			}
			x, ok := b.X.(*ast.Ident)
			return ok && x.Name == "err"
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				i, s := i, s
				switch s := s.(type) {
				case *ast.AssignStmt:
					if s.Tok == token.DEFINE {
						continue
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
				case *ast.IfStmt:
					if s.Else != nil || isErr(s.Cond) {
						continue
					}
				case *ast.ReturnStmt:
					if i == len(l)-1 || len(s.Results) > 0 {
						continue
					}
				case *ast.ForStmt, *ast.RangeStmt:
				default:
					continue
				}
				add(s, "delete "+text(s), func() { l[i] = &ast.EmptyStmt{Semicolon: s.Pos(), Implicit: false} })
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if x.Name.Name == "Help" || x.Name.Name == "RegisterMarkers" || x.Body == nil {
					return false
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					return x.Tok == token.CONST
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
				if len(x.List) > 1 {
					for i := range x.List {
						i := i
						add(x, "drop case "+text(x.List[i]), func() {
							x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...)
						})
					}
				}
			case *ast.IfStmt:
				if !isErr(x.Cond) {
					add(x, "negate "+text(x.Cond), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
				}
				if x.Else != nil {
					add(x, "drop else of "+text(x.Cond), func() { x.Else = nil })
				}
			case *ast.BinaryExpr:
				swap := func(op token.Token) {
					old := text(x)
					add(x, old+" with "+op.String(), func() { x.Op = op })
				}
				switch x.Op {
				case token.LAND, token.LOR:
					a, b := x.X, x.Y
					id := token.LAND
					if x.Op == token.LAND {
						id = token.LOR
					}
					swap(id)
					c := "true"
					if x.Op == token.LOR {
						c = "false"
					}
					add(x, "drop left of "+text(x), func() { x.X = ast.NewIdent(c) })
					add(x, "drop right of "+text(x), func() { x.Y = ast.NewIdent(c) })
					_, _ = a, b
				case token.LSS:
					swap(token.LEQ)
				case token.LEQ:
					swap(token.LSS)
				case token.GTR:
					swap(token.GEQ)
				case token.GEQ:
					swap(token.GTR)
				case token.ADD:
					if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.INT {
						swap(token.SUB)
					}
				case token.SUB:
					if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.INT {
						swap(token.ADD)
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x, fmt.Sprintf("%d to %d", v, v+1), func() { x.Value = strconv.Itoa(v + 1) })
					}
				}
				if x.Kind == token.STRING {
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) > 0 && len(s) < 12 {
						add(x, "change string "+x.Value, func() { x.Value = strconv.Quote(s[:len(s)-1] + "z") })
					}
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					add(x, "flip "+x.Name, func() {
						if x.Name == "true" {
							x.Name = "false"
						} else {
							x.Name = "true"
						}
					})
				}
			}
			return true
		})
		for _, m := range ms {
			if *n < 0 {
				fmt.Printf("%d %s:%d %s\n", k, name, m.line, m.what)
			} else if *n == k {
				m.do()
				var b bytes.Buffer
				if err := printer.Fprint(&b, fset, f); err != nil {
					panic(err)
				}
				if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
					panic(err)
				}
				fmt.Printf("%s:%d %s\n", name, m.line, m.what)
			}
			k++
		}
	}
}
