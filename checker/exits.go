package main

// A loop that has been left was left because its condition failed: what holds
// of every value read at that exit.

// exitFacts is the conjunction of the failed conditions of the loops whose
// final state xs mention.
func exitFacts(in *Interner, xs ...*Expr) *Expr {
	seen := map[*Expr]bool{}
	var loops []*Expr
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.Op == "cloop" {
			loops = append(loops, x)
		}
		for j, a := range x.Args {
			switch x.Op {
			case "cloop":
				if j%2 == 0 {
					continue
				}
			case "forall", "seq", "at":
				if j == 1 {
					continue
				}
			case "eloop":
				if j > 1 {
					continue
				}
			case "lam":
				continue
			}
			rec(a)
		}
	}
	for _, x := range xs {
		rec(x)
	}
	r := in.Bool(true)
	if len(loops) > 6 {
		loops = loops[:6]
	}
	c := &Canon{in: in, e: &Engine{in: in}}
	for _, l := range loops {
		r = in.And(r, in.Not(in.B(c.exitVal(l, l.Args[0]))))
		r = in.And(r, in.Not(in.B(c.exitParts(l, l.Args[0]))))
	}
	return r
}

// infeasible: g cannot hold, also knowing why the loops it mentions ended.
func infeasible(in *Interner, g *Expr) bool {
	if !Feasible(g) {
		return true
	}
	f := exitFacts(in, g)
	return !isTrue(f) && !Feasible(in.And(g, f))
}

// equivExit is Equiv with the same knowledge.
func equivExit(in *Interner, a, b *Expr) bool {
	return a == b || infeasible(in, in.Not(in.ITE(a, b, in.Not(b))))
}

// exitParts is exitVal with the bound state replaced where it is read.
func (c *Canon) exitParts(cl, v *Expr) *Expr {
	return c.walk(v, 0, func(x *Expr, d int) *Expr {
		switch {
		case x.Op == "bver" && x.N == d:
			if d == 0 {
				return c.exitVal(cl, x)
			}
		case x.Op == "bT" || x.Op == "bS" || x.Op == "bver":
			if x.N == d {
				return c.in.mk(Expr{Op: "at", Args: []*Expr{c.lift(cl, d), c.bound(x, 0)}, T: x.T})
			}
			if x.N > d {
				return c.bound(x, x.N-1)
			}
		case x.Op == "rres" || x.Op == "rout" || x.Op == "cver" || x.Op == "obj" || x.Op == "lam":
			if d == 0 {
				return c.exitVal(cl, x)
			}
		}
		return nil
	})
}
