package main

import "time"

// Decision-diagram queries modulo the interval facts of lits.go.

// Feasible tells whether g has a satisfying branch whose decisions are
// jointly consistent, starting from base facts.
func Feasible(g *Expr) bool { return feasibleFrom(NewFacts(), g) }

func feasibleFrom(f *Facts, g *Expr) bool {
	found := false
	paths(f, g, func(leaf *Expr, h *Facts) bool {
		if isTrue(leaf) && h.zoneConsistent() {
			found = true
			return false
		}
		return true
	})
	return found
}

// deadline of the comparison under way: a change can make conditions so large
// that they are not decided in reasonable time, which is reported as undecided.
var (
	deadline time.Time
	steps    int
)

func checkDeadline() {
	if !deadline.IsZero() && time.Now().After(deadline) {
		panic(undecided{"comparison exceeds its time"})
	}
}

// paths enumerates consistent root-to-leaf branches of a diagram.
func paths(f *Facts, x *Expr, visit func(leaf *Expr, f *Facts) bool) bool {
	if steps++; steps&4095 == 0 {
		checkDeadline()
	}
	if x.Op != "ite" {
		return visit(x, f)
	}
	atom := x.Args[0]
	if v, known := f.Decide(atom); known {
		if v {
			return paths(f, x.Args[1], visit)
		}
		return paths(f, x.Args[2], visit)
	}
	if isFalse(x.Args[1]) {
		if f.Assume(atom, false) {
			return paths(f, x.Args[2], visit)
		}
		return true
	}
	if isFalse(x.Args[2]) {
		if f.Assume(atom, true) {
			return paths(f, x.Args[1], visit)
		}
		return true
	}
	g := f.Clone()
	if g.Assume(atom, true) {
		if !paths(g, x.Args[1], visit) {
			return false
		}
	}
	g = f.Clone()
	if g.Assume(atom, false) {
		if !paths(g, x.Args[2], visit) {
			return false
		}
	}
	return true
}

// Implies: every consistent branch of g satisfies c.
func (in *Interner) Implies(g, c *Expr) bool {
	return !Feasible(in.And(g, in.Not(c)))
}

// Equiv under care set g.
func (in *Interner) Equiv(g, a, b *Expr) bool {
	return in.Implies(g, in.ITE(a, b, in.Not(b)))
}

// Simplify v under guard g, dropping leaves that cannot be reached.
func (in *Interner) SimplifyUnder(g, v *Expr) *Expr {
	if v.Op != "ite" {
		return v
	}
	v = in.Restrict(v, g)
	if v.Op != "ite" {
		return v
	}
	if isBool(v.T) {
		if !Feasible(in.And(g, v)) {
			return in.Bool(false)
		}
		if !Feasible(in.And(g, in.Not(v))) {
			return in.Bool(true)
		}
		return v
	}
	var keep []*Expr
	for _, l := range Leaves(v) {
		if Feasible(in.And(g, in.Selects(v, l))) {
			keep = append(keep, l)
		}
	}
	if len(keep) == 1 {
		return keep[0]
	}
	return v
}

// Selects is the condition under which v evaluates to leaf.
func (in *Interner) Selects(v, leaf *Expr) *Expr {
	m := map[*Expr]*Expr{}
	var rec func(x *Expr) *Expr
	rec = func(x *Expr) *Expr {
		if x.Op != "ite" {
			return in.Bool(x == leaf)
		}
		if r, ok := m[x]; ok {
			return r
		}
		r := in.ITE(in.B(x.Args[0]), rec(x.Args[1]), rec(x.Args[2]))
		m[x] = r
		return r
	}
	return rec(v)
}

// SelectsFn is the condition under which v's leaf satisfies p.
func (in *Interner) SelectsFn(v *Expr, p func(*Expr) bool) *Expr {
	return in.Map(v, func(l *Expr) *Expr { return in.Bool(p(l)) })
}

// FirstPath renders one consistent branch of g, for reports.
func FirstPath(g *Expr) []Lit {
	var out []Lit
	paths(NewFacts(), g, func(leaf *Expr, f *Facts) bool {
		if isTrue(leaf) && f.zoneConsistent() {
			out = f.list
			return false
		}
		return true
	})
	return out
}

// Constrain is the generalised cofactor of v by g: a function of v's values
// where g holds and of nothing else.
func (in *Interner) Constrain(v, g *Expr) *Expr {
	type key struct{ a, b *Expr }
	m := map[key]*Expr{}
	var rec func(x, g *Expr) *Expr
	rec = func(x, g *Expr) *Expr {
		if g.Op != "ite" {
			return x
		}
		if x.Op != "ite" {
			return x
		}
		k := key{x, g}
		if r, ok := m[k]; ok {
			return r
		}
		xv, gv := topVar(x), topVar(g)
		t := xv
		if gv.id < xv.id {
			t = gv
		}
		x1, x0, g1, g0 := cof(x, t, true), cof(x, t, false), cof(g, t, true), cof(g, t, false)
		var r *Expr
		switch {
		case isFalse(g1):
			r = rec(x0, g0)
		case isFalse(g0):
			r = rec(x1, g1)
		default:
			a, b := rec(x1, g1), rec(x0, g0)
			if a == b {
				r = a
			} else {
				r = in.node(t, a, b)
			}
		}
		m[k] = r
		return r
	}
	if isFalse(g) || isTrue(g) {
		return v
	}
	return rec(v, g)
}
