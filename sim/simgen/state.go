package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// mutableGlobals finds the package variables that may change after start-up:
// those assigned, changed in place, used through pointer methods, or whose
// address or reference is passed on, in a function.
func mutableGlobals(pkg *types.Package, info *types.Info, files []*ast.File) map[types.Object]bool {
	m := map[types.Object]bool{}
	global := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok {
					if _, isPkg := info.Uses[id].(*types.PkgName); isPkg {
						return nil
					}
				}
				e = x.X
			case *ast.Ident:
				if v, ok := info.Uses[x].(*types.Var); ok && v.Parent() == pkg.Scope() {
					return v
				}
				return nil
			default:
				return nil
			}
		}
	}
	mark := func(e ast.Expr) {
		if o := global(e); o != nil {
			switch types.TypeString(o.Type(), nil) {
			case "*regexp.Regexp", "*strings.Replacer", "*time.Location":
				return
			}
			m[o] = true
		}
	}
	reference := func(e ast.Expr) {
		tv, ok := info.Types[e]
		if !ok {
			return
		}
		switch tv.Type.Underlying().(type) {
		case *types.Map, *types.Pointer, *types.Chan, *types.Slice:
			mark(e)
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						mark(l)
					}
					for _, r := range n.Rhs {
						reference(r)
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
					if n.Op == token.ARROW {
						mark(n.X)
					}
				case *ast.SendStmt:
					mark(n.Chan)
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						reference(r)
					}
				case *ast.CallExpr:
					for _, a := range n.Args {
						reference(a)
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
							if sg, ok := sel.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
								if _, ptr := sg.Recv().Type().(*types.Pointer); ptr {
									mark(s.X)
								}
							}
						}
					}
				}
				return true
			})
		}
	}
	return m
}

// mentions tells whether the statement itself, without the blocks in it, uses
// one of the variables.
func (in *inst) mentions(s ast.Stmt) bool {
	if len(in.mutable) == 0 {
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return n == s
		case *ast.FuncLit:
			return false
		case *ast.Ident:
			if o := in.info.Uses[n]; o != nil && in.mutable[o] {
				found = true
			}
		}
		return !found
	})
	return found
}
