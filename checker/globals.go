package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fixedGlobals: package variables of the repository that are given a value
// once, in their declaration, and never assigned again nor have their address
// taken.
func (p *Program) fixedGlobals() map[*ssa.Global]ssa.Value {
	if p.fixed != nil {
		return p.fixed
	}
	p.fixed = map[*ssa.Global]ssa.Value{}
	bad := map[*ssa.Global]bool{}
	for _, pk := range p.Prog.AllPackages() {
		if pk.Pkg == nil || !p.inRepoPath(pk.Pkg.Path()) {
			continue
		}
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok && f.Name() == "init" && f.Synthetic != "" {
				p.globalUses(f, true, bad)
			}
		}
	}
	for _, f := range p.Fns {
		p.globalUses(f, false, bad)
	}
	for g := range bad {
		delete(p.fixed, g)
	}
	return p.fixed
}

func (p *Program) globalUses(f *ssa.Function, initial bool, bad map[*ssa.Global]bool) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if _, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
					continue
				}
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && initial {
					if _, ok := x.Val.(*ssa.Global); ok {
						bad[g] = true
					}
					if p.fixed[g] != nil {
						bad[g] = true
					}
					p.fixed[g] = x.Val
					continue
				}
			}
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					bad[g] = true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		p.globalUses(a, false, bad)
	}
}

// functionTable: the package variable holds a map from its declaration on, whose
// entries are functions, all given there.
func (p *Program) functionTable(name string) bool {
	for g, v := range p.fixedGlobals() {
		if g.Pkg.Pkg.Path()+"."+g.Name() != name {
			continue
		}
		mm, ok := v.(*ssa.MakeMap)
		if !ok {
			return false
		}
		for _, r := range *mm.Referrers() {
			switch x := r.(type) {
			case *ssa.Store, *ssa.DebugRef:
			case *ssa.MapUpdate:
				if _, ok := x.Value.(*ssa.Function); !ok || x.Map != ssa.Value(mm) {
					return false
				}
			default:
				return false
			}
		}
		for _, f := range p.Fns {
			if !onlyLooksUp(f, g) {
				return false
			}
		}
		return true
	}
	return false
}

func onlyLooksUp(f *ssa.Function, g *ssa.Global) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.X != ssa.Value(g) {
				continue
			}
			for _, r := range *u.Referrers() {
				switch x := r.(type) {
				case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if !onlyLooksUp(a, g) {
			return false
		}
	}
	return true
}

// fixedGlobal is the value of a package variable that never changes, when it
// is a function, a constant, or a library function of constants.
func (e *Engine) fixedGlobal(g *ssa.Global) *Expr {
	v := e.p.fixedGlobals()[g]
	return e.initial(v)
}

func (e *Engine) initial(v ssa.Value) *Expr {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function:
		return e.val(nil, x)
	case *ssa.ChangeType:
		return e.initial(x.X)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Pkg == nil || e.p.InRepo(f) || f.Signature.Recv() != nil {
			return nil
		}
		switch f.Pkg.Pkg.Name() {
		case "math", "strconv", "strings":
		default:
			return nil
		}
		if f.Signature.Results().Len() != 1 {
			return nil
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok {
			return nil
		}
		var args []*Expr
		for _, a := range x.Call.Args {
			c, ok := a.(*ssa.Const)
			if !ok {
				return nil
			}
			args = append(args, e.val(nil, c))
		}
		return e.pure(f.Pkg.Pkg.Name()+"."+f.Name(), f.Signature, args)[0]
	}
	return nil
}
