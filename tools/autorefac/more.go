package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
)

// whileloop: range loops and counted loops as while loops. mode 1: the
// index is advanced first.
func whileloop(fd *ast.FuncDecl, mode int) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		st, ok := c.Node().(ast.Stmt)
		if !ok || loopBody(st) == nil || c.Index() < 0 {
			return true
		}
		body := loopBody(st)
		hasLbl := false
		ast.Inspect(body, func(y ast.Node) bool {
			if b, ok := y.(*ast.BranchStmt); ok && b.Label != nil {
				hasLbl = true
			}
			if _, ok := y.(*ast.LabeledStmt); ok {
				hasLbl = true
			}
			return true
		})
		if hasLbl {
			return true
		}
		rg, ok := st.(*ast.RangeStmt)
		if !ok || !sliceOf(rg) || rg.Tok == token.ASSIGN {
			return true
		}
		k, _ := rg.Key.(*ast.Ident)
		if k == nil || k.Name == "_" {
			k = fresh("pos")
		}
		if assignedIn(body, k.Name) {
			return true
		}
		if v, ok := info.Defs[k].(*types.Var); ok && captured(fd, v) {
			return true
		}
		lst := fresh("seq").Name
		var vdecl []ast.Stmt
		if v, ok := rg.Value.(*ast.Ident); ok && v.Name != "_" {
			vdecl = stmt("var " + v.Name + " = " + lst + "[" + k.Name + "]")
		}
		inc := k.Name + "++"
		var f *ast.ForStmt
		if mode == 0 {
			astutil.Apply(body, func(d *astutil.Cursor) bool {
				switch z := d.Node().(type) {
				case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
					return false
				case *ast.BranchStmt:
					if z.Tok == token.CONTINUE {
						d.InsertBefore(stmt(inc)[0])
					}
				}
				return true
			}, nil)
			l := append(vdecl, body.List...)
			if len(body.List) == 0 || !terminates(body) {
				l = append(l, stmt(inc)...)
			}
			f = stmt(fmt.Sprintf("for %s < len(%s) {\n}", k.Name, lst))[0].(*ast.ForStmt)
			f.Body.List = l
		} else {
			f = stmt("for {\n}")[0].(*ast.ForStmt)
			l := stmt(fmt.Sprintf("%s\nif %s >= len(%s) {\nbreak\n}", inc, k.Name, lst))
			l = append(l, vdecl...)
			f.Body.List = append(l, body.List...)
		}
		n++
		init := "0"
		if mode == 1 {
			init = "-1"
		}
		b := &ast.BlockStmt{List: append(stmt(fmt.Sprintf("var %s = %s\nvar %s = %s", lst, src(rg.X), k.Name, init)), f)}
		c.Replace(b)
		return true
	})
}

// condclosure: conditions as local functions called at once
func condclosure(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init != nil || c.Index() < 0 {
			return true
		}
		if _, ok := c.Parent().(*ast.IfStmt); ok {
			return true
		}
		n++
		nm := fresh("holds").Name
		c.InsertBefore(stmt("var " + nm + " = func() bool {\nreturn " + src(s.Cond) + "\n}")[0])
		s.Cond = &ast.CallExpr{Fun: ast.NewIdent(nm)}
		return true
	})
}

// fieldalias: fields of pointer parameters read twice or more, never assigned
// here, are read once at the start
func fieldalias(fd *ast.FuncDecl) {
	type key struct {
		v *types.Var
		f string
	}
	cnt := map[key]int{}
	bad := map[key]bool{}
	var order []key
	get := func(x *ast.SelectorExpr) (key, bool) {
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return key{}, false
		}
		v, ok := info.Uses[id].(*types.Var)
		s := info.Selections[x]
		if !ok || s == nil || s.Kind() != types.FieldVal {
			return key{}, false
		}
		if _, ptr := v.Type().Underlying().(*types.Pointer); !ptr {
			return key{}, false
		}
		par := false
		for _, l := range []*ast.FieldList{fd.Recv, fd.Type.Params} {
			if l == nil {
				continue
			}
			for _, p := range l.List {
				for _, nm := range p.Names {
					par = par || info.Defs[nm] == v
				}
			}
		}
		return key{v, x.Sel.Name}, par
	}
	ast.Inspect(fd.Body, func(y ast.Node) bool {
		switch x := y.(type) {
		case *ast.SelectorExpr:
			if k, ok := get(x); ok {
				if cnt[k] == 0 {
					order = append(order, k)
				}
				cnt[k]++
				if t := info.TypeOf(x); t != nil {
					if _, st := t.Underlying().(*types.Struct); st {
						bad[k] = true
					}
				}
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				ast.Inspect(l, func(z ast.Node) bool {
					if s, ok := z.(*ast.SelectorExpr); ok {
						if k, ok := get(s); ok {
							bad[k] = true
						}
					}
					if id, ok := z.(*ast.Ident); ok {
						if v, ok := info.Uses[id].(*types.Var); ok {
							for k := range cnt {
								if k.v == v && l == z {
									bad[k] = true
								}
							}
						}
					}
					return true
				})
			}
		case *ast.IncDecStmt:
			if s, ok := x.X.(*ast.SelectorExpr); ok {
				if k, ok := get(s); ok {
					bad[k] = true
				}
			}
		case *ast.UnaryExpr:
			if s, ok := x.X.(*ast.SelectorExpr); ok && x.Op == token.AND {
				if k, ok := get(s); ok {
					bad[k] = true
				}
			}
		}
		return true
	})
	var pre []ast.Stmt
	for _, k := range order {
		if cnt[k] < 2 || bad[k] {
			continue
		}
		n++
		nm := fresh(k.v.Name() + "Fld").Name
		pre = append(pre, stmt("var "+nm+" = "+k.v.Name()+"."+k.f)...)
		k := k
		astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.SelectorExpr); ok {
				if j, ok := get(s); ok && j == k {
					c.Replace(ast.NewIdent(nm))
				}
			}
			return true
		})
	}
	fd.Body.List = append(pre, fd.Body.List...)
}
