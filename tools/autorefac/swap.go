package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func namesIn(x ast.Node) map[string]bool {
	m := map[string]bool{}
	ast.Inspect(x, func(y ast.Node) bool {
		if id, ok := y.(*ast.Ident); ok {
			m[id.Name] = true
		}
		return true
	})
	return m
}

// localOnly: reads nothing but local values
func localOnly(e ast.Expr) bool {
	if !pure(e) {
		return false
	}
	ok := true
	ast.Inspect(e, func(y ast.Node) bool {
		switch x := y.(type) {
		case *ast.SelectorExpr:
			if t := info.TypeOf(x.X); t != nil {
				if _, p := t.Underlying().(*types.Pointer); p {
					ok = false
				}
			}
		case *ast.BinaryExpr:
			if x.Op == token.QUO || x.Op == token.REM {
				ok = false
			}
		case *ast.Ident:
			if v, is := info.Uses[x].(*types.Var); is && v.Parent() == pkg.Scope() {
				ok = false
			}
		}
		return true
	})
	return ok
}

// simple: `x := e` or `x = e` with a local pure e
func simpleAssign(fd *ast.FuncDecl, s ast.Stmt) (lhs *ast.Ident, ok bool) {
	var id *ast.Ident
	var rhs ast.Expr
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
			return nil, false
		}
		id, _ = x.Lhs[0].(*ast.Ident)
		rhs = x.Rhs[0]
	case *ast.DeclStmt:
		i, r := simpleDecl(s)
		id, rhs = i, r
	}
	if id == nil || rhs == nil || id.Name == "_" || !localOnly(rhs) {
		return nil, false
	}
	v, _ := info.Defs[id].(*types.Var)
	if v == nil {
		v, _ = info.Uses[id].(*types.Var)
	}
	if v == nil || captured(fd, v) || v.Parent() == pkg.Scope() {
		return nil, false
	}
	addr := false
	ast.Inspect(fd.Body, func(y ast.Node) bool {
		if u, ok := y.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if r := root(u.X); r != nil && r.Name == id.Name {
				addr = true
			}
		}
		return true
	})
	return id, !addr
}

func swapstmt(fd *ast.FuncDecl) {
	lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for i := 0; i+1 < len(l); i++ {
			a, b := l[i], l[i+1]
			pa, oka := simpleAssign(fd, a)
			pb, okb := simpleAssign(fd, b)
			if !oka && !okb {
				continue
			}
			one, other, id := a, b, pa
			if !oka {
				one, other, id = b, a, pb
			}
			if jumps(other) {
				continue
			}
			if hasPanic(other) {
				continue
			}
			on, wn := namesIn(other), namesIn(one)
			if on[id.Name] {
				continue
			}
			clash := false
			ast.Inspect(other, func(y ast.Node) bool {
				switch x := y.(type) {
				case *ast.AssignStmt:
					for _, e := range x.Lhs {
						if r := root(e); r != nil && wn[r.Name] {
							clash = true
						}
					}
				case *ast.IncDecStmt:
					if r := root(x.X); r != nil && wn[r.Name] {
						clash = true
					}
				case *ast.ValueSpec:
					for _, nm := range x.Names {
						if wn[nm.Name] {
							clash = true
						}
					}
				case *ast.UnaryExpr:
					if r := root(x.X); x.Op == token.AND && r != nil && wn[r.Name] {
						clash = true
					}
				}
				return true
			})
			if clash {
				continue
			}
			l[i], l[i+1] = b, a
			n++
			i++
		}
		return l
	})
}

func hasPanic(x ast.Node) bool {
	f := false
	ast.Inspect(x, func(y ast.Node) bool {
		if c, ok := y.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				f = true
			}
		}
		return true
	})
	return f
}

// ifswap: adjacent ifs without jumps that touch different names
func ifswap(fd *ast.FuncDecl) {
	lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for i := 0; i+1 < len(l); i++ {
			a, ok := l[i].(*ast.IfStmt)
			b, ok2 := l[i+1].(*ast.IfStmt)
			if !ok || !ok2 || jumps(a) || jumps(b) || hasCall(a) || hasCall(b) {
				continue
			}
			wa, wb := assignedNames(a), assignedNames(b)
			na, nb := namesIn(a), namesIn(b)
			bad := false
			for x := range wa {
				bad = bad || nb[x]
			}
			for x := range wb {
				bad = bad || na[x]
			}
			if bad || wa[""] || wb[""] {
				continue
			}
			l[i], l[i+1] = b, a
			n++
			i++
		}
		return l
	})
}

func assignedNames(x ast.Node) map[string]bool {
	m := map[string]bool{}
	add := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok {
			m[id.Name] = true
		} else {
			m[""] = true
		}
	}
	ast.Inspect(x, func(y ast.Node) bool {
		switch z := y.(type) {
		case *ast.AssignStmt:
			for _, e := range z.Lhs {
				add(e)
			}
		case *ast.IncDecStmt:
			add(z.X)
		}
		return true
	})
	return m
}

func hasCall(x ast.Node) bool {
	f := false
	ast.Inspect(x, func(y ast.Node) bool {
		if _, ok := y.(*ast.CallExpr); ok {
			f = true
		}
		return true
	})
	return f
}
