// Package instr inserts scheduler yield points into copies of Go source files
// (never into the files themselves): one before every statement, and one
// between the read and the write of non-atomic read-modify-write statements.
package instr

import (
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
)

type ins struct {
	off  int
	ord  int
	text string
}

// File returns the instrumented source. Line numbers are unchanged.
func File(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, err
	}
	var all []ins
	n := 0
	add := func(p token.Pos, text string) {
		all = append(all, ins{fset.Position(p).Offset, len(all), text})
	}
	const y = "_simrt.SimYield();"
	var list func(ss []ast.Stmt)
	one := func(s ast.Stmt) {
		switch s := s.(type) {
		case *ast.EmptyStmt:
			return
		case *ast.LabeledStmt:
			add(s.Pos(), y)
			n++
			switch s.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt, *ast.LabeledStmt, *ast.BlockStmt:
			default:
				add(s.Stmt.Pos(), y)
			}
			return
		case *ast.AssignStmt:
			if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
				_, sel := s.Lhs[0].(*ast.SelectorExpr)
				if call, ok := s.Rhs[0].(*ast.CallExpr); ok && sel && s.Tok == token.ASSIGN {
					if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "append" {
						add(call.Pos(), "_simrt.SimY(")
						add(call.End(), ")")
					}
				}
			}
		case *ast.IncDecStmt:
			// x.f++ becomes x.f = SimY(x.f) +1 (the operator becomes the tail)
			if sel, ok := s.X.(*ast.SelectorExpr); ok {
				if txt, ok := chain(sel); ok {
					add(s.Pos(), y+txt+" = _simrt.SimY(")
					op := ") + 1 /*"
					if s.Tok == token.DEC {
						op = ") - 1 /*"
					}
					add(s.TokPos, op)
					add(s.TokPos+2, "*/")
					n++
					return
				}
			}
		}
		add(s.Pos(), y)
		n++
	}
	list = func(ss []ast.Stmt) {
		for _, s := range ss {
			one(s)
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch nd := nd.(type) {
		case *ast.BlockStmt:
			if len(nd.List) > 0 {
				switch nd.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(nd.List)
		case *ast.ForStmt:
			if len(nd.Body.List) == 0 {
				add(nd.Body.Lbrace+1, y)
				n++
			}
		case *ast.RangeStmt:
			if len(nd.Body.List) == 0 {
				add(nd.Body.Lbrace+1, y)
				n++
			}
		case *ast.CaseClause:
			list(nd.Body)
		case *ast.CommClause:
			list(nd.Body)
		}
		return true
	})
	if n == 0 {
		return src, 0, nil
	}
	add(f.Name.End(), "; import _simrt \"runtime\"")
	sort.SliceStable(all, func(i, j int) bool {
		if all[i].off != all[j].off {
			return all[i].off < all[j].off
		}
		return all[i].ord < all[j].ord
	})
	out := make([]byte, 0, len(src)+len(all)*24)
	prev := 0
	for _, a := range all {
		out = append(out, src[prev:a.off]...)
		out = append(out, a.text...)
		prev = a.off
	}
	out = append(out, src[prev:]...)
	return out, n, nil
}

func chain(e ast.Expr) (string, bool) {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name, true
	case *ast.SelectorExpr:
		s, ok := chain(e.X)
		return s + "." + e.Sel.Name, ok
	}
	return "", false
}
