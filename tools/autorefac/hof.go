package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// ownJumps: replaces the break and continue of this loop; false if it cannot.
func ownJumps(b *ast.BlockStmt) bool {
	ok := true
	astutil.Apply(b, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
			ok = false
		case *ast.ForStmt, *ast.RangeStmt:
			ast.Inspect(x.(ast.Node), func(y ast.Node) bool {
				switch z := y.(type) {
				case *ast.FuncLit:
					return false
				case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
					ok = false
				case *ast.BranchStmt:
					ok = ok && z.Label == nil
				}
				return true
			})
			return false
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			if hasBranch(x.(ast.Node), token.BREAK) {
				ok = false
			}
		case *ast.BranchStmt:
			if x.Label != nil {
				ok = false
			}
		}
		return true
	}, nil)
	if !ok {
		return false
	}
	astutil.Apply(b, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
			return false
		case *ast.BranchStmt:
			r := "return true"
			if x.Tok == token.BREAK {
				r = "return false"
			}
			c.Replace(stmt(r)[0])
		}
		return true
	}, nil)
	return true
}

func hof(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.RangeStmt)
		if !ok || s.Tok != token.DEFINE {
			return true
		}
		t := info.TypeOf(s.X)
		if t == nil {
			return true
		}
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return true
		}
		ts, ok1 := typeStr(t)
		es, ok2 := typeStr(sl.Elem())
		if !ok1 || !ok2 || strings.Contains(src(s), "helperEach") && false {
			return true
		}
		if !ownJumps(s.Body) {
			return true
		}
		n++
		name := fmt.Sprintf("helperEach%d", n)
		k, v := "_", "_"
		if id, ok := s.Key.(*ast.Ident); ok && s.Key != nil {
			k = id.Name
		}
		if id, ok := s.Value.(*ast.Ident); ok && s.Value != nil {
			v = id.Name
		}
		extra = append(extra, fmt.Sprintf("\nfunc %s(list %s, fn func(int, %s) bool) {\nfor i := range list {\nif !fn(i, list[i]) {\nreturn\n}\n}\n}\n", name, ts, es))
		body := src(s.Body)
		i := strings.LastIndex(body, "}")
		body = body[:i] + "\nreturn true\n}"
		c.Replace(stmt(fmt.Sprintf("%s(%s, func(%s int, %s %s) bool %s)", name, src(s.X), k, v, es, body))[0])
		return true
	})
}

// ptrout: if bodies into helpers that assign through pointers
func ptrout(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || jumps(s.Body) || len(s.Body.List) == 0 || strings.Contains(src(s.Body), "helperOut") {
			return true
		}
		vars, as, bad := free(fd, s.Body)
		if bad {
			return true
		}
		var ps, args []string
		outs := map[*types.Var]bool{}
		for _, v := range vars {
			t, ok := typeStr(v.Type())
			if !ok || captured(fd, v) {
				return true
			}
			if as[v] {
				outs[v] = true
				ps = append(ps, v.Name()+"Out *"+t)
				args = append(args, "&"+v.Name())
			} else {
				ps = append(ps, v.Name()+" "+t)
				args = append(args, v.Name())
			}
		}
		if len(outs) == 0 {
			return true
		}
		ast.Inspect(s.Body, func(y ast.Node) bool {
			if id, ok := y.(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok && outs[v] {
					id.Name = "(*" + v.Name() + "Out)"
				}
			}
			return true
		})
		n++
		name := fmt.Sprintf("helperOut%d", n)
		extra = append(extra, fmt.Sprintf("\nfunc %s(%s) %s\n", name, strings.Join(ps, ", "), src(s.Body)))
		s.Body.List = stmt(name + "(" + strings.Join(args, ", ") + ")")
		return true
	})
}

// loopclosure: loops inside function literals called at once
func loopclosure(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		st, ok := c.Node().(ast.Stmt)
		if !ok || loopBody(st) == nil || c.Index() < 0 {
			return true
		}
		bad := false
		ast.Inspect(st, func(y ast.Node) bool {
			switch z := y.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				bad = true
			case *ast.BranchStmt:
				bad = bad || z.Label != nil
			}
			return true
		})
		if bad {
			return true
		}
		n++
		c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{st}}}}})
		return true
	})
}
