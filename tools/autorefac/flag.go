package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
)

// flagbreak: break becomes a flag tested before the next round.
// mode 0: leading test; 1: in the loop's condition; 2: in the condition, and
// continue dropped where the break was in tail position.
func flagbreak(fd *ast.FuncDecl, mode int) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		st, ok := c.Node().(ast.Stmt)
		if !ok || loopBody(st) == nil || c.Index() < 0 {
			return true
		}
		body := loopBody(st)
		var f *ast.ForStmt
		var rg *ast.RangeStmt
		switch x := st.(type) {
		case *ast.ForStmt:
			if x.Post != nil && x.Init == nil {
				return true
			}
			if x.Init != nil {
				if a, ok := x.Init.(*ast.AssignStmt); !ok || a.Tok != token.DEFINE {
					return true
				}
			}
			f = x
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				return true
			}
			rg = x
		}
		found, bad := false, false
		ast.Inspect(body, func(y ast.Node) bool {
			switch z := y.(type) {
			case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				if hasBranch(z, token.BREAK) {
					bad = true
				}
			case *ast.LabeledStmt:
				bad = true
			case *ast.BranchStmt:
				if z.Label != nil {
					bad = true
				} else if z.Tok == token.BREAK {
					found = true
				}
			}
			return true
		})
		if bad || !found {
			return true
		}
		n++
		flag := fmt.Sprintf("done%d", n)
		tail := map[ast.Stmt]bool{}
		var mark func(l []ast.Stmt)
		mark = func(l []ast.Stmt) {
			if len(l) == 0 {
				return
			}
			s := l[len(l)-1]
			tail[s] = true
			if i, ok := s.(*ast.IfStmt); ok {
				mark(i.Body.List)
				if b, ok := i.Else.(*ast.BlockStmt); ok {
					mark(b.List)
				} else if e, ok := i.Else.(*ast.IfStmt); ok {
					mark([]ast.Stmt{e})
				}
			}
		}
		mark(body.List)
		astutil.Apply(body, func(d *astutil.Cursor) bool {
			switch z := d.Node().(type) {
			case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
				return false
			case *ast.BranchStmt:
				if z.Tok == token.BREAK && d.Index() >= 0 {
					if mode == 2 && tail[z] {
						d.Replace(stmt(flag + " = true")[0])
						return true
					}
					d.InsertBefore(stmt(flag + " = true")[0])
					d.Replace(stmt("continue")[0])
				}
			}
			return true
		}, nil)
		if mode >= 1 && f != nil && f.Cond != nil {
			f.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: f.Cond}, Op: token.LAND, Y: ast.NewIdent("!" + flag)}
		} else if mode >= 1 && f != nil {
			f.Cond = ast.NewIdent("!" + flag)
		} else if t := sliceOf(rg); mode >= 1 && t {
			k, _ := rg.Key.(*ast.Ident)
			if k == nil || k.Name == "_" {
				k = fresh("ix")
			}
			xs, _ := rg.X.(*ast.Ident)
			pre := []ast.Stmt{}
			nm := ""
			if xs == nil || assignedIn(body, xs.Name) {
				nm = fresh("lst").Name
				pre = stmt("var " + nm + " = " + src(rg.X))
			} else {
				nm = xs.Name
			}
			if v, ok := rg.Value.(*ast.Ident); ok && v.Name != "_" {
				body.List = append(stmt("var "+v.Name+" = "+nm+"["+k.Name+"]"), body.List...)
			}
			ff := stmt(fmt.Sprintf("for %s := 0; %s < len(%s) && !%s; %s++ {\n}", k.Name, k.Name, nm, flag, k.Name))[0].(*ast.ForStmt)
			ff.Body.List = body.List
			for _, p := range pre {
				c.InsertBefore(p)
			}
			c.InsertBefore(stmt("var " + flag + " = false")[0])
			c.Replace(ff)
			return true
		} else {
			body.List = append(stmt("if "+flag+" {\nbreak\n}"), body.List...)
		}
		c.InsertBefore(stmt("var " + flag + " = false")[0])
		return true
	})
}

func sliceOf(r *ast.RangeStmt) bool {
	if r == nil {
		return false
	}
	t := info.TypeOf(r.X)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// retflag: return inside a loop of a function with one result becomes a
// result variable and a break.
func retflag(fd *ast.FuncDecl) {
	if fd.Type.Results == nil || len(fd.Type.Results.List) != 1 || len(fd.Type.Results.List[0].Names) > 0 {
		return
	}
	rt := src(fd.Type.Results.List[0].Type)
	for i, st := range fd.Body.List {
		body := loopBody(st)
		if body == nil {
			continue
		}
		found, bad := false, false
		ast.Inspect(body, func(y ast.Node) bool {
			switch y.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				if hasRet(y) {
					bad = true
				}
				return false
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				found = true
			}
			return true
		})
		if bad || !found {
			continue
		}
		n++
		res, done := fmt.Sprintf("result%d", n), fmt.Sprintf("found%d", n)
		astutil.Apply(body, func(d *astutil.Cursor) bool {
			switch z := d.Node().(type) {
			case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
				return false
			case *ast.ReturnStmt:
				d.InsertBefore(stmt(res + ", " + done + " = " + src(z.Results[0]) + ", true")[0])
				d.Replace(&ast.BranchStmt{Tok: token.BREAK})
			}
			return true
		}, nil)
		l := append([]ast.Stmt{}, fd.Body.List[:i]...)
		l = append(l, stmt("var "+res+" "+rt)...)
		l = append(l, stmt("var "+done+" = false")...)
		l = append(l, st)
		l = append(l, stmt("if "+done+" {\nreturn "+res+"\n}")...)
		fd.Body.List = append(l, fd.Body.List[i+1:]...)
		return
	}
}
