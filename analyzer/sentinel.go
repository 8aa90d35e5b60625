package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// sentinels are the package variables of type error that are initialised by errors.New or
// fmt.Errorf and never changed afterwards: they are not nil.
func (p *Program) sentinel(v *types.Var) bool {
	if p.sentinels == nil {
		p.sentinels = map[*types.Var]bool{}
		var assigned []*types.Var
		for _, pk := range p.Pkgs {
			mark := func(x ast.Expr) {
				switch x := ast.Unparen(x).(type) {
				case *ast.Ident:
					if o, ok := pk.Info.Uses[x].(*types.Var); ok {
						assigned = append(assigned, o)
					}
				case *ast.SelectorExpr:
					if o, ok := pk.Info.Uses[x.Sel].(*types.Var); ok {
						assigned = append(assigned, o)
					}
				}
			}
			for _, f := range pk.Files {
				ast.Inspect(f, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.AssignStmt:
						for _, l := range n.Lhs {
							mark(l)
						}
					case *ast.RangeStmt:
						if n.Key != nil {
							mark(n.Key)
						}
						if n.Value != nil {
							mark(n.Value)
						}
					case *ast.UnaryExpr:
						if n.Op == token.AND {
							mark(n.X)
						}
					}
					return true
				})
				for _, d := range f.Decls {
					g, ok := d.(*ast.GenDecl)
					if !ok || g.Tok != token.VAR {
						continue
					}
					for _, s := range g.Specs {
						vs := s.(*ast.ValueSpec)
						if len(vs.Values) != len(vs.Names) {
							continue
						}
						for i, nm := range vs.Names {
							o, _ := pk.Info.Defs[nm].(*types.Var)
							c, _ := ast.Unparen(vs.Values[i]).(*ast.CallExpr)
							if o == nil || c == nil || !types.Identical(o.Type(), types.Universe.Lookup("error").Type()) {
								continue
							}
							sel, ok := c.Fun.(*ast.SelectorExpr)
							if !ok {
								continue
							}
							if fn, ok := pk.Info.Uses[sel.Sel].(*types.Func); ok && (fn.FullName() == "errors.New" || fn.FullName() == "fmt.Errorf") {
								p.sentinels[o] = true
							}
						}
					}
				}
			}
		}
		for _, o := range assigned {
			delete(p.sentinels, o)
		}
	}
	return p.sentinels[v]
}
