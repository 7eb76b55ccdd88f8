package main

// autorefac DIR TRANSFORM [pkgfilter]: applies a behaviour preserving rewrite
// everywhere in the module at DIR.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var n int
var info *types.Info
var pkg *types.Package
var fset *token.FileSet
var file *ast.File
var extra []string

func src(x ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, x)
	return b.String()
}
func fresh(s string) *ast.Ident { n++; return ast.NewIdent(fmt.Sprintf("%s%d", s, n)) }
func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// jumps: return/break/continue/goto/defer/labels inside
func jumps(x ast.Node) bool {
	f := false
	ast.Inspect(x, func(y ast.Node) bool {
		switch y.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			f = true
		}
		return true
	})
	return f
}
func hasBranch(x ast.Node, tok token.Token) bool {
	f := false
	ast.Inspect(x, func(y ast.Node) bool {
		if b, ok := y.(*ast.BranchStmt); ok && b.Tok == tok {
			f = true
		}
		return true
	})
	return f
}
func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		return strings.HasPrefix(src(x), "panic(")
	}
	return false
}
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(y ast.Node) bool {
		switch x := y.(type) {
		case *ast.CallExpr:
			if id, is := x.Fun.(*ast.Ident); !is || id.Name != "len" {
				ok = false
			}
		case *ast.FuncLit, *ast.CompositeLit, *ast.StarExpr, *ast.IndexExpr, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.AND || x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// free variables of blk declared in fn but outside blk; assigned: those written
func free(fn ast.Node, blk ast.Node) (vars []*types.Var, assigned map[*types.Var]bool, bad bool) {
	assigned = map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	ast.Inspect(blk, func(y ast.Node) bool {
		switch x := y.(type) {
		case *ast.Ident:
			o := info.Uses[x]
			if o == nil {
				if info.Defs[x] == nil && x.Name != "_" {
					// label or field or unknown
				}
				return true
			}
			v, ok := o.(*types.Var)
			if ok && !v.IsField() && v.Parent() != pkg.Scope() && v.Parent() != types.Universe && v.Pkg() == pkg {
				if v.Pos() < blk.Pos() || v.Pos() >= blk.End() {
					if !seen[v] {
						seen[v] = true
						vars = append(vars, v)
					}
				}
			}
			if tn, ok := o.(*types.TypeName); ok && tn.Parent() != pkg.Scope() && tn.Parent() != types.Universe && tn.Pkg() == pkg {
				bad = true
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				mark(l, assigned)
			}
		case *ast.IncDecStmt:
			mark(x.X, assigned)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				bad = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id := root(x.X); id != nil {
					if v, ok := info.Uses[id].(*types.Var); ok && (v.Pos() < blk.Pos() || v.Pos() >= blk.End()) {
						bad = true
					}
				}
			}
		case *ast.SelectorExpr:
			// implicit address of a variable by a pointer method
			if s := info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				if sg, ok := s.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
					if _, p := sg.Recv().Type().(*types.Pointer); p {
						if id := root(x.X); id != nil {
							if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && (v.Pos() < blk.Pos() || v.Pos() >= blk.End()) {
								if _, ptr := v.Type().Underlying().(*types.Pointer); !ptr {
									bad = true
								}
							}
						}
					}
				}
			}
		case *ast.FuncLit:
			bad = true
		}
		return true
	})
	return
}
func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			if t := info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); !ok {
					return nil
				}
			}
			e = x.X
		default:
			return nil
		}
	}
}
func mark(l ast.Expr, m map[*types.Var]bool) {
	switch x := l.(type) {
	case *ast.Ident:
		if v, ok := info.Uses[x].(*types.Var); ok {
			m[v] = true
		}
	case *ast.ParenExpr:
		mark(x.X, m)
	case *ast.SelectorExpr:
		// field of a struct variable (not pointer)
		if t := info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); !ok {
				mark(x.X, m)
			}
		}
	case *ast.IndexExpr:
		if t := info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				mark(x.X, m)
			}
		}
	}
}

// captured by a closure somewhere in fn
func captured(fn ast.Node, v *types.Var) bool {
	f := false
	ast.Inspect(fn, func(y ast.Node) bool {
		if fl, ok := y.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(z ast.Node) bool {
				if id, ok := z.(*ast.Ident); ok && info.Uses[id] == v && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
					f = true
				}
				return true
			})
		}
		return true
	})
	return f
}

func typeStr(t types.Type) (s string, ok bool) {
	ok = true
	s = types.TypeString(t, func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		for _, im := range file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "invalid type") {
		ok = false
	}
	return
}

// extract turns statements into a helper call; nil when not possible
func extract(fn *ast.FuncDecl, blk *ast.BlockStmt, name string) []ast.Stmt {
	if jumps(blk) || len(blk.List) == 0 || strings.Contains(src(blk), "helperFn") {
		return nil
	}
	vars, as, bad := free(fn, blk)
	if bad {
		return nil
	}
	var ps, args, outs, outNames []string
	for _, v := range vars {
		t, ok := typeStr(v.Type())
		if !ok {
			return nil
		}
		if captured(fn, v) {
			return nil
		}
		ps = append(ps, v.Name()+" "+t)
		args = append(args, v.Name())
		if as[v] {
			outs = append(outs, t)
			outNames = append(outNames, v.Name())
		}
	}
	if len(outs) > 2 {
		return nil
	}
	body := src(blk)
	ret := ""
	if len(outs) > 0 {
		i := strings.LastIndex(body, "}")
		body = body[:i] + "\nreturn " + strings.Join(outNames, ", ") + "\n}"
		ret = "(" + strings.Join(outs, ", ") + ")"
	}
	extra = append(extra, fmt.Sprintf("\nfunc %s(%s) %s %s\n", name, strings.Join(ps, ", "), ret, body))
	call := name + "(" + strings.Join(args, ", ") + ")"
	if len(outs) > 0 {
		call = strings.Join(outNames, ", ") + " = " + call
	}
	return stmt(call)
}
func stmt(s string) []ast.Stmt {
	f, err := parser.ParseFile(token.NewFileSet(), "", "package p\nfunc f() {\n"+s+"\n}", 0)
	if err != nil {
		panic(err)
	}
	l := f.Decls[0].(*ast.FuncDecl).Body.List
	for _, x := range l {
		clearPos(x)
	}
	return l
}
func clearPos(x ast.Node) {
	ast.Inspect(x, func(y ast.Node) bool {
		switch z := y.(type) {
		case *ast.Ident:
			z.NamePos = 0
		}
		return true
	})
}

func lists(fd *ast.FuncDecl, do func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BlockStmt:
			y.List = do(y.List)
		case *ast.CaseClause:
			y.Body = do(y.Body)
		case *ast.CommClause:
			y.Body = do(y.Body)
		}
		return true
	})
}
func loopBody(l ast.Stmt) *ast.BlockStmt {
	switch x := l.(type) {
	case *ast.ForStmt:
		return x.Body
	case *ast.RangeStmt:
		return x.Body
	}
	return nil
}
func assignedIn(x ast.Node, name string) bool {
	f := false
	ast.Inspect(x, func(y ast.Node) bool {
		switch z := y.(type) {
		case *ast.AssignStmt:
			for _, l := range z.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == name {
					f = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := z.X.(*ast.Ident); ok && id.Name == name {
				f = true
			}
		case *ast.UnaryExpr:
			if z.Op == token.AND {
				if id, ok := z.X.(*ast.Ident); ok && id.Name == name {
					f = true
				}
			}
		}
		return true
	})
	return f
}

func hasRet(x ast.Node) bool {
	f := false
	ast.Inspect(x, func(y ast.Node) bool {
		switch y.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			f = true
		}
		return true
	})
	return f
}

func apply(fd *ast.FuncDecl, tr string) {
	edit := func(do func(c *astutil.Cursor)) {
		astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool { do(c); return true })
	}
	elseIf := func(c *astutil.Cursor) bool { return c.Name() == "Else" }
	switch tr {
	case "negif":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok {
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond, s.Body, s.Else = not(s.Cond), e, s.Body
				}
			}
		})
	case "andsplit":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok && s.Else == nil {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					s.Cond = b.X
					s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
				}
			}
		})
	case "range2for":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.RangeStmt); ok && s.Tok == token.DEFINE && s.Value == nil {
				k, ok := s.Key.(*ast.Ident)
				x, ok2 := s.X.(*ast.Ident)
				if !ok || !ok2 || k.Name == "_" || assignedIn(s.Body, x.Name) || assignedIn(s.Body, k.Name) {
					return
				}
				if t := info.TypeOf(x); t == nil {
					return
				} else if _, sl := t.Underlying().(*types.Slice); !sl {
					return
				}
				c.Replace(&ast.ForStmt{Init: stmt(k.Name + " := 0")[0], Cond: &ast.BinaryExpr{X: ast.NewIdent(k.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{ast.NewIdent(x.Name)}}}, Post: stmt(k.Name + "++")[0], Body: s.Body})
			}
		})
	case "rangeval", "rangeptr":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.RangeStmt); ok && s.Tok == token.DEFINE && s.Value != nil {
				v, ok := s.Value.(*ast.Ident)
				x, ok2 := s.X.(*ast.Ident)
				if !ok || !ok2 || v.Name == "_" || assignedIn(s.Body, x.Name) {
					return
				}
				if t := info.TypeOf(x); t == nil {
					return
				} else if _, sl := t.Underlying().(*types.Slice); !sl {
					return
				}
				k, _ := s.Key.(*ast.Ident)
				if k == nil || k.Name == "_" {
					k = fresh("idx")
				}
				if assignedIn(s.Body, k.Name) {
					return
				}
				s.Key, s.Value = k, nil
				s.Body.List = append(stmt("var "+v.Name+" = "+x.Name+"["+k.Name+"]"), s.Body.List...)
			}
		})
	case "rettemp":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 1 && info.Types[r.Results[0]].Value == nil {
					if t := info.TypeOf(r.Results[0]); t != nil {
						if b, ok := t.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
							if _, tup := t.(*types.Tuple); !tup {
								id := fresh("ret")
								o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: r.Results})
								o = append(o, &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(id.Name)}})
								continue
							}
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "condtemp":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if r, ok := s.(*ast.IfStmt); ok && r.Init == nil {
					id := fresh("cond")
					o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.Cond}})
					r.Cond = ast.NewIdent(id.Name)
				}
				o = append(o, s)
			}
			return o
		})
	case "earlycont":
		edit(func(c *astutil.Cursor) {
			s, ok := c.Node().(ast.Stmt)
			if !ok {
				return
			}
			b := loopBody(s)
			if b == nil || len(b.List) == 0 {
				return
			}
			k := len(b.List) - 1
			if f, ok := b.List[k].(*ast.IfStmt); ok && f.Else == nil && f.Init == nil && !terminates(f.Body) {
				b.List = append(b.List[:k:k], &ast.IfStmt{Cond: not(f.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
				b.List = append(b.List, f.Body.List...)
			}
		})
	case "opassign":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IncDecStmt); ok {
				if _, ok := s.X.(*ast.Ident); ok && c.Name() != "Post" {
					op := token.ADD
					if s.Tok == token.DEC {
						op = token.SUB
					}
					c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(s.X.(*ast.Ident).Name), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
				}
			}
			if s, ok := c.Node().(*ast.AssignStmt); ok && len(s.Lhs) == 1 {
				m := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL}
				if op, ok := m[s.Tok]; ok {
					if id, ok := s.Lhs[0].(*ast.Ident); ok {
						s.Tok = token.ASSIGN
						s.Rhs[0] = &ast.BinaryExpr{X: ast.NewIdent(id.Name), Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}
					}
				}
			}
		})
	case "demorgan":
		edit(func(c *astutil.Cursor) {
			if b, ok := c.Node().(*ast.BinaryExpr); ok && (b.Op == token.LOR || b.Op == token.LAND) {
				op := token.LAND
				if b.Op == token.LAND {
					op = token.LOR
				}
				c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)}}})
			}
		})
	case "cmpflip":
		edit(func(c *astutil.Cursor) {
			if b, ok := c.Node().(*ast.BinaryExpr); ok && pure(b.X) && pure(b.Y) {
				m := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
				if op, ok := m[b.Op]; ok {
					b.X, b.Y, b.Op = b.Y, b.X, op
				}
			}
		})
	case "closure":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok && !jumps(s.Body) && len(s.Body.List) > 0 {
				s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: s.Body}}}}}
			}
		})
	case "forbreak":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.ForStmt); ok && s.Cond != nil {
				if s.Post != nil && hasBranch(s.Body, token.CONTINUE) {
					return
				}
				brk := &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
				l := append([]ast.Stmt{brk}, s.Body.List...)
				if s.Post != nil {
					l = append(l, s.Post)
				}
				s.Cond, s.Post = nil, nil
				s.Body = &ast.BlockStmt{List: l}
			}
		})
	case "tail":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			k := len(l) - 1
			if k < 1 {
				return l
			}
			r, ok := l[k].(*ast.ReturnStmt)
			f, ok2 := l[k-1].(*ast.IfStmt)
			if !ok || !ok2 || f.Else != nil || f.Init != nil || terminates(f.Body) {
				return l
			}
			for _, e := range r.Results {
				if _, is := e.(*ast.Ident); !is {
					return l
				}
				// shadowed inside the body?
				sh := false
				ast.Inspect(f.Body, func(y ast.Node) bool {
					if id, ok := y.(*ast.Ident); ok && id.Name == e.(*ast.Ident).Name && info.Defs[id] != nil {
						sh = true
					}
					return true
				})
				if sh {
					return l
				}
			}
			rr := &ast.ReturnStmt{}
			for _, e := range r.Results {
				rr.Results = append(rr.Results, ast.NewIdent(e.(*ast.Ident).Name))
			}
			f.Body.List = append(f.Body.List, rr)
			return l
		})
	case "else":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.IfStmt)
				if ok && f.Else == nil && terminates(f.Body) && i < len(l)-1 {
					f.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}
					return l[:i+1]
				}
			}
			return l
		})
	case "unelse":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			k := len(l) - 1
			if k < 0 {
				return l
			}
			f, ok := l[k].(*ast.IfStmt)
			if ok && terminates(f.Body) {
				if e, ok := f.Else.(*ast.BlockStmt); ok {
					f.Else = nil
					l = append(l, e.List...)
				}
			}
			return l
		})
	case "switch":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok && !elseIf(c) && s.Else != nil && s.Init == nil {
				if hasBranch(s, token.BREAK) {
					return
				}
				var cl []ast.Stmt
				cur := s
				for {
					if cur.Init != nil {
						return
					}
					cl = append(cl, &ast.CaseClause{List: []ast.Expr{cur.Cond}, Body: cur.Body.List})
					if nx, ok := cur.Else.(*ast.IfStmt); ok {
						cur = nx
						continue
					}
					if b, ok := cur.Else.(*ast.BlockStmt); ok {
						cl = append(cl, &ast.CaseClause{Body: b.List})
					}
					break
				}
				c.Replace(&ast.SwitchStmt{Body: &ast.BlockStmt{List: cl}})
			}
		})
	case "named":
		if fd.Type.Results == nil || len(fd.Type.Results.List) != 1 || len(fd.Type.Results.List[0].Names) > 0 {
			return
		}
		id := fresh("res")
		fd.Type.Results.List[0].Names = []*ast.Ident{id}
		astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
			if _, ok := c.Node().(*ast.FuncLit); ok {
				return false
			}
			if r, ok := c.Node().(*ast.ReturnStmt); ok && len(r.Results) == 1 && c.Index() >= 0 {
				c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: r.Results})
				c.Replace(&ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(id.Name)}})
				return false
			}
			return true
		}, nil)
	case "extractif", "extractloop", "extractelse", "extracttail":
		if len(src(fd.Body)) == 0 {
			return
		}
		edit(func(c *astutil.Cursor) {
			var b *ast.BlockStmt
			switch s := c.Node().(type) {
			case *ast.IfStmt:
				if tr == "extractif" {
					b = s.Body
				}
				if e, ok := s.Else.(*ast.BlockStmt); ok && tr == "extractelse" {
					b = e
				}
			case *ast.ForStmt:
				if tr == "extractloop" {
					b = s.Body
				}
			case *ast.RangeStmt:
				if tr == "extractloop" {
					b = s.Body
				}
			}
			if b == nil {
				return
			}
			n++
			if l := extract(fd, b, fmt.Sprintf("helperFn%d", n)); l != nil {
				b.List = l
			}
		})
	case "extractwhole": // whole loops into helpers
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if loopBody(s) != nil && !hasRet(s) && !hasBranch(s, token.GOTO) {
					n++
					lab := false
					ast.Inspect(s, func(y ast.Node) bool {
						if b, ok := y.(*ast.BranchStmt); ok && b.Label != nil {
							lab = true
						}
						if _, ok := y.(*ast.DeferStmt); ok {
							lab = true
						}
						return true
					})
					if !lab && !strings.Contains(src(s), "helperFn") {
						if r := extractAny(fd, &ast.BlockStmt{Lbrace: s.Pos(), List: []ast.Stmt{s}, Rbrace: s.End()}, fmt.Sprintf("helperFn%d", n)); r != nil {
							o = append(o, r...)
							continue
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "extractcond":
		edit(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init != nil {
				return
			}
			if _, ok := s.Cond.(*ast.BinaryExpr); !ok {
				return
			}
			vars, _, bad := free(fd, s.Cond)
			if bad {
				return
			}
			var ps, as []string
			for _, v := range vars {
				t, ok := typeStr(v.Type())
				if !ok {
					return
				}
				ps = append(ps, v.Name()+" "+t)
				as = append(as, v.Name())
			}
			n++
			nm := fmt.Sprintf("helperFn%d", n)
			extra = append(extra, fmt.Sprintf("\nfunc %s(%s) bool {\nreturn %s\n}\n", nm, strings.Join(ps, ", "), src(s.Cond)))
			s.Cond = stmt(nm + "(" + strings.Join(as, ", ") + ")")[0].(*ast.ExprStmt).X
		})
	case "deadstmt":
		fd.Body.List = append(stmt("_ = 0"), fd.Body.List...)
	case "argtemp": // arguments of top-level calls through temporaries
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				var call *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					call, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
						if _, id := x.Lhs[0].(*ast.Ident); id {
							call, _ = x.Rhs[0].(*ast.CallExpr)
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						call, _ = x.Results[0].(*ast.CallExpr)
					}
				case *ast.DeclStmt:
					if g, ok := x.Decl.(*ast.GenDecl); ok && len(g.Specs) == 1 {
						if v, ok := g.Specs[0].(*ast.ValueSpec); ok && len(v.Values) == 1 {
							call, _ = v.Values[0].(*ast.CallExpr)
						}
					}
				}
				if call != nil {
					conv := false
					if tv, ok := info.Types[call.Fun]; ok && tv.IsType() {
						conv = true
					}
					if !conv && !call.Ellipsis.IsValid() {
						// only when every later argument is pure or also lifted, keep order
						for i, a := range call.Args {
							ac, ok := a.(*ast.CallExpr)
							if !ok {
								if !pure(a) {
									break
								}
								continue
							}
							t := info.TypeOf(ac)
							if t == nil {
								break
							}
							if _, tup := t.(*types.Tuple); tup {
								break
							}
							if tv := info.Types[ac]; !tv.IsValue() {
								break
							}
							if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
								continue
							}
							if id, ok := ac.Fun.(*ast.Ident); ok && (id.Name == "append" || id.Name == "make") {
								continue
							}
							if i > 0 {
								pp := true
								for _, pa := range call.Args[:i] {
									if !pure(pa) {
										pp = false
									}
								}
								if !pp {
									break
								}
							}
							if fs, ok := call.Fun.(*ast.SelectorExpr); ok && !pure(fs.X) {
								break
							}
							id := fresh("arg")
							o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{ac}})
							call.Args[i] = ast.NewIdent(id.Name)
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "wrap": // body into a helper of the same signature
		wrap(fd)
	case "forrange3": // for i := 0; i < n; i++ with the bound hoisted
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if f, ok := s.(*ast.RangeStmt); ok {
					if x, ok := f.X.(*ast.Ident); !ok || x == nil {
						if t := info.TypeOf(f.X); t != nil {
							id := fresh("seq")
							o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{f.X}})
							f.X = ast.NewIdent(id.Name)
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "andmerge":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok && s.Else == nil && len(s.Body.List) == 1 {
				if t, ok := s.Body.List[0].(*ast.IfStmt); ok && t.Else == nil && t.Init == nil {
					s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LAND, Y: &ast.ParenExpr{X: t.Cond}}
					s.Body = t.Body
				}
			}
		})
	case "elsenest":
		edit(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok {
				if t, ok := s.Else.(*ast.IfStmt); ok {
					s.Else = &ast.BlockStmt{List: []ast.Stmt{t}}
				}
			}
		})
	case "boolret":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
					if b, ok := r.Results[0].(*ast.BinaryExpr); ok {
						if t, ok := info.TypeOf(b).Underlying().(*types.Basic); ok && t.Info()&types.IsBoolean != 0 {
							tr, fa := ast.NewIdent("true"), ast.NewIdent("false")
							switch b.Op {
							case token.LAND:
								o = append(o, &ast.IfStmt{Cond: not(b.X), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{fa}}}}}, &ast.ReturnStmt{Results: []ast.Expr{b.Y}})
							case token.LOR:
								o = append(o, &ast.IfStmt{Cond: b.X, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{tr}}}}}, &ast.ReturnStmt{Results: []ast.Expr{b.Y}})
							default:
								o = append(o, &ast.IfStmt{Cond: b, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{tr}}}}}, &ast.ReturnStmt{Results: []ast.Expr{fa}})
							}
							continue
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "splitdecl":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				var id *ast.Ident
				var rhs ast.Expr
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					id, _ = a.Lhs[0].(*ast.Ident)
					rhs = a.Rhs[0]
				}
				if g, ok := s.(*ast.DeclStmt); ok {
					if d, ok := g.Decl.(*ast.GenDecl); ok && d.Tok == token.VAR && len(d.Specs) == 1 {
						if v, ok := d.Specs[0].(*ast.ValueSpec); ok && len(v.Names) == 1 && len(v.Values) == 1 && v.Type == nil {
							id, rhs = v.Names[0], v.Values[0]
						}
					}
				}
				if id != nil && id.Name != "_" && info.Defs[id] != nil {
					if t, ok := typeStr(info.Defs[id].Type()); ok {
						o = append(o, stmt("var "+id.Name+" "+t)...)
						o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}})
						continue
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "appendtemp":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN && len(a.Rhs) == 1 {
					if c, ok := a.Rhs[0].(*ast.CallExpr); ok && len(c.Args) == 2 && !c.Ellipsis.IsValid() && src(c.Fun) == "append" && pure(c.Args[0]) {
						if t, ok := info.TypeOf(c.Args[0]).Underlying().(*types.Slice); ok {
							if ts, ok := typeStr(t.Elem()); ok {
								id := fresh("item")
								d := stmt("var " + id.Name + " " + ts + " = nil")[0].(*ast.DeclStmt)
								d.Decl.(*ast.GenDecl).Specs[0].(*ast.ValueSpec).Values[0] = c.Args[1]
								o = append(o, d)
								c.Args[1] = ast.NewIdent(id.Name)
							}
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "extractfirst", "extracttail2":
		half(fd, tr == "extractfirst")
	case "swapdecl":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				a, x := simpleDecl(l[i])
				b, y := simpleDecl(l[i+1])
				if a == nil || b == nil || !pure(x) || !pure(y) || strings.Contains(src(y), a.Name) {
					continue
				}
				l[i], l[i+1] = l[i+1], l[i]
				i++
			}
			return l
		})
	case "inlinevar":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for i, s := range l {
				id, x := simpleDecl(s)
				if id != nil && x != nil && pure(x) && i+1 < len(l) && info.Types[x].Value == nil {
					v, _ := info.Defs[id].(*types.Var)
					uses := 0
					ast.Inspect(fd.Body, func(y ast.Node) bool {
						if u, ok := y.(*ast.Ident); ok && v != nil && info.Uses[u] == v {
							uses++
						}
						return true
					})
					inNext := 0
					ast.Inspect(l[i+1], func(y ast.Node) bool {
						if u, ok := y.(*ast.Ident); ok && v != nil && info.Uses[u] == v {
							inNext++
						}
						return true
					})
					nl := loopBody(l[i+1]) != nil
					if uses == 1 && inNext == 1 && !nl && !assignedIn(fd.Body, id.Name+"?") {
						_, isIf := l[i+1].(*ast.IfStmt)
						if !isIf && !strings.Contains(src(l[i+1]), "func(") {
							astutil.Apply(l[i+1], nil, func(c *astutil.Cursor) bool {
								if u, ok := c.Node().(*ast.Ident); ok && info.Uses[u] == v {
									c.Replace(&ast.ParenExpr{X: x})
								}
								return true
							})
							n++
							continue
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "lit": // composite literals of structs: fields set one by one
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
					e := r.Results[0]
					amp := ""
					if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
						e, amp = u.X, "&"
					}
					if cl, ok := e.(*ast.CompositeLit); ok && cl.Type != nil {
						if st, ok := info.TypeOf(cl).Underlying().(*types.Struct); ok {
							id := fresh("obj")
							o = append(o, stmt("var "+id.Name+" "+src(cl.Type))...)
							for i, el := range cl.Elts {
								name, val := "", el
								if kv, ok := el.(*ast.KeyValueExpr); ok {
									name, val = src(kv.Key), kv.Value
								} else {
									name = st.Field(i).Name()
								}
								o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
							}
							o = append(o, stmt("return "+amp+id.Name)...)
							continue
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "hoistlen":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if f, ok := s.(*ast.ForStmt); ok && f.Cond != nil {
					if b, ok := f.Cond.(*ast.BinaryExpr); ok {
						if c, ok := b.Y.(*ast.CallExpr); ok && src(c.Fun) == "len" {
							if x, ok := c.Args[0].(*ast.Ident); ok && !assignedIn(f, x.Name) {
								id := fresh("cnt")
								o = append(o, stmt("var "+id.Name+" = len("+x.Name+")")...)
								b.Y = ast.NewIdent(id.Name)
							}
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "flagbreak0", "flagbreak1", "flagbreak2":
		flagbreak(fd, int(tr[9]-'0'))
	case "retflag":
		retflag(fd)
	case "while", "preinc":
		whileloop(fd, map[string]int{"while": 0, "preinc": 1}[tr])
	case "condclosure":
		condclosure(fd)
	case "fieldalias":
		fieldalias(fd)
	case "swapstmt":
		swapstmt(fd)
	case "ifswap":
		ifswap(fd)
	case "hof":
		hof(fd)
	case "ptrout":
		ptrout(fd)
	case "loopclosure":
		loopclosure(fd)
	case "ifinit":
		edit(func(c *astutil.Cursor) {})
	case "flag": // for loops with break -> done flag is too intrusive; while-true with flag condition
	default:
		panic("no transform " + tr)
	}
}

// extractAny allows inner breaks of the loops it contains
func extractAny(fd *ast.FuncDecl, blk *ast.BlockStmt, name string) []ast.Stmt {
	vars, as, bad := free(fd, blk.List[0])
	if bad {
		return nil
	}
	var ps, args, outs, outNames []string
	for _, v := range vars {
		t, ok := typeStr(v.Type())
		if !ok || captured(fd, v) {
			return nil
		}
		ps = append(ps, v.Name()+" "+t)
		args = append(args, v.Name())
		if as[v] {
			outs = append(outs, t)
			outNames = append(outNames, v.Name())
		}
	}
	if len(outs) > 2 {
		return nil
	}
	body := "{\n" + src(blk.List[0]) + "\n"
	ret := ""
	if len(outs) > 0 {
		body += "return " + strings.Join(outNames, ", ") + "\n"
		ret = "(" + strings.Join(outs, ", ") + ")"
	}
	body += "}"
	extra = append(extra, fmt.Sprintf("\nfunc %s(%s) %s %s\n", name, strings.Join(ps, ", "), ret, body))
	call := name + "(" + strings.Join(args, ", ") + ")"
	if len(outs) > 0 {
		call = strings.Join(outNames, ", ") + " = " + call
	}
	return stmt(call)
}

func simpleDecl(s ast.Stmt) (*ast.Ident, ast.Expr) {
	if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
		id, _ := a.Lhs[0].(*ast.Ident)
		return id, a.Rhs[0]
	}
	if g, ok := s.(*ast.DeclStmt); ok {
		if d, ok := g.Decl.(*ast.GenDecl); ok && d.Tok == token.VAR && len(d.Specs) == 1 {
			if v, ok := d.Specs[0].(*ast.ValueSpec); ok && len(v.Names) == 1 && len(v.Values) == 1 && v.Type == nil {
				return v.Names[0], v.Values[0]
			}
		}
	}
	return nil, nil
}

// half moves the first (or the rest) of the body into a helper
func half(fd *ast.FuncDecl, first bool) {
	l := fd.Body.List
	if len(l) < 3 || fd.Name.Name == "main" {
		return
	}
	named := fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0
	if named {
		return
	}
	mids := []int{len(l) / 2, len(l)/2 + 1, len(l)/2 - 1, 1, len(l) - 1}
	for _, m := range mids {
		if m < 1 || m >= len(l) {
			continue
		}
		pre := &ast.BlockStmt{Lbrace: fd.Body.Lbrace, List: l[:m:m], Rbrace: l[m-1].End()}
		suf := &ast.BlockStmt{Lbrace: l[m].Pos() - 1, List: l[m:], Rbrace: fd.Body.Rbrace}
		if first {
			if jumps(pre) {
				continue
			}
			fv, as, bad := free(fd, pre)
			if bad {
				continue
			}
			// variables declared in the prefix and used in the suffix
			uv, ua, bad2 := free(fd, suf)
			_ = ua
			if bad2 {
				continue
			}
			var outs, outT []string
			isOut := map[*types.Var]bool{}
			ok := true
			declared := map[*types.Var]bool{}
			for _, v := range uv {
				if v.Pos() > fd.Body.Lbrace && v.Pos() < suf.Pos() {
					t, tok := typeStr(v.Type())
					if !tok || captured(fd, v) {
						ok = false
					}
					outs, outT = append(outs, v.Name()), append(outT, t)
					isOut[v] = true
					declared[v] = true
				}
			}
			var ps, args []string
			for _, v := range fv {
				t, tok := typeStr(v.Type())
				if !tok || captured(fd, v) {
					ok = false
				}
				if as[v] { // parameter reassigned
					ok = false
				}
				ps, args = append(ps, v.Name()+" "+t), append(args, v.Name())
			}
			if !ok || len(outs) > 3 || len(outs) == 0 {
				continue
			}
			n++
			nm := fmt.Sprintf("helperFn%d", n)
			body := "{\n"
			for _, s := range pre.List {
				body += src(s) + "\n"
			}
			body += "return " + strings.Join(outs, ", ") + "\n}"
			extra = append(extra, fmt.Sprintf("\nfunc %s(%s) (%s) %s\n", nm, strings.Join(ps, ", "), strings.Join(outT, ", "), body))
			fd.Body.List = append(stmt("var "+strings.Join(outs, ", ")+" = "+nm+"("+strings.Join(args, ", ")+")"), l[m:]...)
			return
		}
		fv, _, bad := free(fd, suf)
		if bad {
			continue
		}
		ok := true
		ast.Inspect(fd.Body, func(y ast.Node) bool {
			if _, is := y.(*ast.DeferStmt); is {
				ok = false
			}
			return true
		})
		var ps, args []string
		for _, v := range fv {
			t, tok := typeStr(v.Type())
			if !tok || captured(fd, v) {
				ok = false
			}
			ps, args = append(ps, v.Name()+" "+t), append(args, v.Name())
		}
		if !ok || len(ps) > 8 {
			continue
		}
		n++
		nm := fmt.Sprintf("helperFn%d", n)
		res := ""
		if fd.Type.Results != nil {
			var rs []string
			for _, r := range fd.Type.Results.List {
				rs = append(rs, src(r.Type))
			}
			res = "(" + strings.Join(rs, ", ") + ")"
		}
		body := "{\n"
		for _, s := range suf.List {
			body += src(s) + "\n"
		}
		body += "}"
		extra = append(extra, fmt.Sprintf("\nfunc %s(%s) %s %s\n", nm, strings.Join(ps, ", "), res, body))
		call := nm + "(" + strings.Join(args, ", ") + ")"
		if res != "" {
			call = "return " + call
		}
		// unused variables of the prefix stay used as arguments or not at all
		fd.Body.List = append(l[:m:m], stmt(call)...)
		return
	}
}

func wrap(fd *ast.FuncDecl) {
	if fd.Name.Name == "main" || fd.Name.Name == "init" {
		return
	}
	var args []string
	for i, p := range fd.Type.Params.List {
		if len(p.Names) == 0 {
			return
		}
		_, va := p.Type.(*ast.Ellipsis)
		for j, nm := range p.Names {
			if nm.Name == "_" {
				nm.Name = fmt.Sprintf("unused%d_%d", i, j)
			}
			a := nm.Name
			if va {
				a += "..."
			}
			args = append(args, a)
		}
	}
	n++
	name := fmt.Sprintf("%sImpl%d", strings.ToLower(fd.Name.Name[:1])+fd.Name.Name[1:], n)
	recv := ""
	call := name
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 {
			return
		}
		recv = "(" + fd.Recv.List[0].Names[0].Name + " " + src(fd.Recv.List[0].Type) + ") "
		call = fd.Recv.List[0].Names[0].Name + "." + name
	}
	sig := strings.TrimPrefix(src(fd.Type), "func")
	extra = append(extra, "\nfunc "+recv+name+sig+" "+src(fd.Body)+"\n")
	c := call + "(" + strings.Join(args, ", ") + ")"
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		c = "return " + c
	}
	fd.Body.List = stmt(c)
}

func main() {
	dir, tr := os.Args[1], os.Args[2]
	only := ""
	if len(os.Args) > 3 {
		only = os.Args[3]
	}
	fset = token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Fset: fset, ParseFile: func(fs *token.FileSet, f string, s []byte) (*ast.File, error) {
		m := parser.SkipObjectResolution
		if !strings.HasPrefix(f, dir) {
			m |= parser.ParseComments
		}
		return parser.ParseFile(fs, f, s, m) // comments dropped
	}}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		info, pkg = p.TypesInfo, p.Types
		for i, f := range p.Syntax {
			path := p.CompiledGoFiles[i]
			if strings.Contains(path, "/example") || strings.Contains(path, "/app/") || !strings.HasPrefix(path, dir) {
				continue
			}
			file, extra = f, nil
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && (only == "" || strings.Contains(p.Name+"."+fd.Name.Name, only)) {
					apply(fd, tr)
				}
			}
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				fmt.Println("FORMAT", path, err)
				continue
			}
			for _, e := range extra {
				b.WriteString(e)
			}
			out, err := format.Source(b.Bytes())
			if err != nil {
				fmt.Println("SOURCE", path, err)
				out = b.Bytes()
			}
			os.WriteFile(filepath.Clean(path), out, 0o644)
		}
	}
	fmt.Println("transforms", n)
}
