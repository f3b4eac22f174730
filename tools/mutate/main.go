// Mutate lists and applies small changes to a Go file, for measuring which of
// them the monitors detect.
//
//	mutate FILE          lists the mutations: index, line, description
//	mutate FILE N OUT    writes the file with the Nth of them to OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mutation struct {
	pos   token.Pos
	desc  string
	apply func()
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR},
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var list []mutation
	add := func(p token.Pos, desc string, fn func()) { list = append(list, mutation{p, desc, fn}) }
	text := func(n ast.Node) string {
		var b bytes.Buffer
		_ = printer.Fprint(&b, fset, n)
		s := b.String()
		if len(s) > 70 {
			s = s[:70] + "..."
		}
		return string(bytes.ReplaceAll([]byte(s), []byte("\n"), []byte(" ")))
	}
	isErr := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name == "err"
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && (id.Name == "errors" || id.Name == "bsonerr") {
					return true
				}
				return s.Sel.Name == "Errorf"
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				return id.Name == "bsonerr"
			}
		}
		return false
	}
	stmts := func(l []ast.Stmt) {
		for i, s := range l {
			del := false
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				del = true
			case *ast.AssignStmt:
				del = x.Tok != token.DEFINE
			case *ast.BranchStmt:
				del = true
			case *ast.IfStmt:
				del = true
			}
			if del {
				add(s.Pos(), "delete "+text(s), func() { l[i] = &ast.EmptyStmt{} })
			}
			if i > 0 {
				switch l[i-1].(type) {
				case *ast.ExprStmt, *ast.AssignStmt:
					switch s.(type) {
					case *ast.ExprStmt, *ast.AssignStmt:
						add(s.Pos(), "swap with previous "+text(s), func() { l[i], l[i-1] = l[i-1], l[i] })
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok != token.IMPORT
		case *ast.BinaryExpr:
			for _, t := range swaps[x.Op] {
				if x.Op == token.ADD {
					if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
						continue
					}
					if b, ok := x.Y.(*ast.BasicLit); ok && b.Kind == token.STRING {
						continue
					}
				}
				o := x.Op
				add(x.OpPos, fmt.Sprintf("%s -> %s in %s", o, t, text(x)), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.OpPos, "keep only the left of "+text(x), func() { x.Y = x.X })
				add(x.OpPos, "keep only the right of "+text(x), func() { x.X = x.Y })
			}
		case *ast.IfStmt:
			add(x.If, "negate if "+text(x.Cond), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
			if x.Else != nil {
				add(x.If, "drop else of "+text(x.Cond), func() { x.Else = nil })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), fmt.Sprintf("%s -> %d", x.Value, v+1), func() { x.Value = fmt.Sprint(v + 1) })
					if v > 0 {
						add(x.Pos(), fmt.Sprintf("%s -> %d", x.Value, v-1), func() { x.Value = fmt.Sprint(v - 1) })
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), "true -> false", func() { x.Name = "false" })
			} else if x.Name == "false" {
				add(x.Pos(), "false -> true", func() { x.Name = "true" })
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				if isErr(r) {
					add(x.Pos(), "return nil for "+text(r), func() { x.Results[i] = ast.NewIdent("nil") })
				}
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			if len(x.Body) > 0 {
				add(x.Pos(), "empty "+text(x), func() { x.Body = nil })
			}
			if len(x.List) > 1 {
				for i := range x.List {
					add(x.Pos(), "drop case "+text(x.List[i]), func() { x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...) })
				}
			}
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Pos(), "low+1 in "+text(x), func() { x.Low = &ast.BinaryExpr{X: x.Low, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
			if x.High != nil {
				add(x.Pos(), "high-1 in "+text(x), func() { x.High = &ast.BinaryExpr{X: x.High, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, m := range list {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(m.pos).Line, m.desc)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	list[n].apply()
	f.Comments = nil
	var buf bytes.Buffer
	if err := printer.Fprint(&buf, fset, f); err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Args[3], buf.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
