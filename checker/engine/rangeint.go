package engine

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// countLoops turns "for i := range n" over an integer n into the equivalent three-clause loop, so that both are one
// form to the analysis.
func countLoops(ps []*packages.Package) {
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, f := range p.Syntax {
			astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
				if rs, ok := c.Node().(*ast.RangeStmt); ok {
					if fs := countLoop(p, rs); fs != nil {
						c.Replace(fs)
					}
				}
				return true
			})
		}
	})
}

func countLoop(p *packages.Package, rs *ast.RangeStmt) *ast.ForStmt {
	if rs.Value != nil || rs.Key != nil && rs.Tok != token.DEFINE {
		return nil
	}
	info := p.TypesInfo
	xt, ok := info.Types[rs.X]
	if !ok || xt.Type == nil {
		return nil
	}
	b, ok := xt.Type.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	typ := xt.Type
	id := func(name string, obj types.Object, def bool) *ast.Ident {
		i := &ast.Ident{NamePos: rs.For, Name: name}
		if def {
			info.Defs[i] = obj
		} else {
			info.Uses[i] = obj
			info.Types[i] = types.TypeAndValue{Type: typ}
		}
		return i
	}
	var key *ast.Ident
	var kobj types.Object
	if k, ok := rs.Key.(*ast.Ident); ok && k.Name != "_" {
		key, kobj = k, info.Defs[k]
		if kobj == nil {
			return nil
		}
		typ = kobj.Type()
	} else {
		if b.Info()&types.IsUntyped != 0 {
			typ = types.Typ[types.Int]
		}
		kobj = types.NewVar(rs.For, p.Types, "i·", typ)
		key = id("i·", kobj, true)
	}
	zero := &ast.BasicLit{ValuePos: rs.For, Kind: token.INT, Value: "0"}
	info.Types[zero] = types.TypeAndValue{Type: typ, Value: constant.MakeInt64(0)}
	cond := &ast.BinaryExpr{X: id(key.Name, kobj, false), OpPos: rs.For, Op: token.LSS}
	init := &ast.AssignStmt{Lhs: []ast.Expr{key}, TokPos: rs.For, Tok: token.DEFINE, Rhs: []ast.Expr{zero}}
	if xt.Value != nil {
		lit := &ast.BasicLit{ValuePos: rs.X.Pos(), Kind: token.INT, Value: xt.Value.ExactString()}
		info.Types[lit] = types.TypeAndValue{Type: typ, Value: xt.Value}
		cond.Y = lit
	} else {
		nobj := types.NewVar(rs.For, p.Types, "n·", typ)
		init.Lhs = append(init.Lhs, id("n·", nobj, true))
		init.Rhs = append(init.Rhs, rs.X)
		cond.Y = id("n·", nobj, false)
	}
	info.Types[cond] = types.TypeAndValue{Type: types.Typ[types.Bool]}
	post := &ast.IncDecStmt{X: id(key.Name, kobj, false), TokPos: rs.For, Tok: token.INC}
	return &ast.ForStmt{For: rs.For, Init: init, Cond: cond, Post: post, Body: rs.Body}
}
