// mutate: enumerates small changes of a Go file. With -n K -o F it writes the K-th one.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	desc string
	do   func()
	undo func()
	pos  token.Pos
}

func main() {
	in := flag.String("i", "", "file")
	out := flag.String("o", "", "output")
	n := flag.Int("n", -1, "mutant")
	flag.Parse()
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, *in, nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, d string, do func()) { ms = append(ms, mut{desc: d, do: do, pos: p}) }
	ops := map[token.Token][]token.Token{
		token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR},
		token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	}
	stmts := func(l []ast.Stmt) {
		for i := range l {
			i := i
			s := l[i]
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt:
				add(s.Pos(), "drop statement", func() { l[i] = &ast.EmptyStmt{} })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "drop assignment", func() { l[i] = &ast.EmptyStmt{} })
				}
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					add(s.Pos(), "drop if", func() { l[i] = &ast.EmptyStmt{} })
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE || x.Tok == token.BREAK {
					add(s.Pos(), "drop "+x.Tok.String(), func() { l[i] = &ast.EmptyStmt{} })
				}
			}
			if i+1 < len(l) {
				t := l[i+1]
				sw := false
				switch s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
					sw = true
				case *ast.AssignStmt:
					sw = s.(*ast.AssignStmt).Tok != token.DEFINE
				}
				switch t.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.AssignStmt:
				default:
					sw = false
				}
				if sw {
					add(s.Pos(), "swap statements", func() { l[i], l[i+1] = t, s })
				}
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					o := o
					was := x.Op
					add(x.OpPos, was.String()+" -> "+o.String(), func() { x.Op = o })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 63); err == nil {
						add(x.Pos(), fmt.Sprint(v, " -> ", v+1), func() { x.Value = strconv.FormatInt(v+1, 10) })
						if v > 0 {
							add(x.Pos(), fmt.Sprint(v, " -> ", v-1), func() { x.Value = strconv.FormatInt(v-1, 10) })
						}
					}
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.IfStmt:
				add(x.Pos(), "if false", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
				})
				if x.Else != nil {
					add(x.Pos(), "if true", func() {
						x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
					})
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), "drop !", func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
				}
			case *ast.ReturnStmt:
				for i := range x.Results {
					i := i
					if id, ok := x.Results[i].(*ast.Ident); ok {
						switch id.Name {
						case "true":
							add(x.Pos(), "return false", func() { x.Results[i] = ast.NewIdent("false") })
						case "false":
							add(x.Pos(), "return true", func() { x.Results[i] = ast.NewIdent("true") })
						case "err":
							add(x.Pos(), "return nil error", func() { x.Results[i] = ast.NewIdent("nil") })
						}
					}
				}
			case *ast.SliceExpr:
				if x.Low == nil && x.High != nil && x.Max == nil {
					add(x.Pos(), "slice high-1", func() {
						x.High = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.High}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
					})
				}
			}
			return true
		})
	}
	if *n < 0 {
		for i, m := range ms {
			p := fs.Position(m.pos)
			fmt.Printf("%d\t%d\t%s\n", i, p.Line, m.desc)
		}
		return
	}
	ms[*n].do()
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		panic(err)
	}
	os.WriteFile(*out, b.Bytes(), 0644)
}
