package main

import (
	"go/types"
	"strings"
)

// A slice made at its final length and then filled once, element by element
// in one counted loop or by one copy of equal length, is the same value as
// the slice collected by appending. fill recognises that.

type msInfo struct {
	guard *Expr
	in    *LoopSum
}

type fill struct {
	ms    *Expr
	evs   []*Event // writers
	state int      // 0 undecided, 1 yes, 2 no
}

// msRoot: the made slice an address or slice value lies in.
func msRoot(a *Expr) *Expr {
	for a != nil {
		switch a.Op {
		case "makeslice":
			return a
		case "faddr", "iaddr", "slice":
			a = a.Args[0]
		default:
			return nil
		}
	}
	return nil
}

func (c *Canon) findFills() {
	c.fills = map[*Expr]*fill{}
	for _, ev := range c.sum.AllEvents() {
		if ev.Kind != "store" && ev.Kind != "copy" || len(ev.Args) == 0 {
			continue
		}
		for _, l := range Leaves(ev.Args[0]) {
			ms := msRoot(l)
			if ms == nil || c.e.made[ms] == nil {
				continue
			}
			f := c.fills[ms]
			if f == nil {
				f = &fill{ms: ms}
				c.fills[ms] = f
			}
			f.evs = append(f.evs, ev)
			if ev.Kind == "copy" && l != ms || ev.Kind == "store" && elemAddr(l, ms) == nil {
				f.state = 2
			}
		}
	}
}

// elemAddr: the address of the element of ms that a is, or lies in.
func elemAddr(a, ms *Expr) *Expr {
	for a.Op == "faddr" || a.Op == "iaddr" {
		if a.Op == "iaddr" && a.Args[0] == ms {
			return a
		}
		a = a.Args[0]
	}
	return nil
}

// filled: the content of ms, when it is written exactly once everywhere.
func (c *Canon) filled(ms *Expr, env cenv) *Expr {
	if c.fills == nil {
		c.findFills()
	}
	f := c.fills[ms]
	if f == nil || f.state == 2 {
		return nil
	}
	in := c.in
	mi := c.e.made[ms]
	l := f.evs[0].In
	if f.state == 0 {
		f.state = 2
		if f.evs[0].Kind == "copy" {
			ev := f.evs[0]
			if len(f.evs) > 1 || ev.Defer || ev.In != mi.in || ev.Args[0] != ms || !in.Implies(mi.guard, ev.Guard) {
				return nil
			}
			if c.of(ms.Args[0], env) != c.of(c.e.Len(ev.Args[1]), env) {
				return nil
			}
		} else {
			if l == nil || l == mi.in || l.In != mi.in {
				return nil
			}
			for _, ev := range f.evs {
				if ev.Kind != "store" || ev.Defer || ev.In != l || len(f.evs) > 16 {
					return nil
				}
				ea := elemAddr(ev.Args[0], ms)
				if ea == nil || ea.Args[1] != l.T || len(f.evs) > 1 && !plainPath(ev.Args[0], ea) {
					return nil
				}
				if len(c.deps(l, ev.Args[1], ev.Guard)) > 0 {
					return nil
				}
			}
			n, q, ok := c.tripCount(l)
			if !ok || q != nil || !in.Implies(mi.guard, l.Entry) {
				return nil
			}
			if len(f.evs) == 1 && (f.evs[0].Args[0].Op != "iaddr" || !in.Implies(l.Back, f.evs[0].Guard)) && !plainPath(f.evs[0].Args[0], elemAddr(f.evs[0].Args[0], ms)) {
				return nil
			}
			if c.of(n, env) != c.of(ms.Args[0], env) && c.of(c.clamp(n), env) != c.of(ms.Args[0], env) {
				return nil
			}
		}
		f.state = 1
	}
	k := "fill" + itoa(ms.id)
	if c.busy[k] {
		return nil
	}
	c.busy[k] = true
	defer delete(c.busy, k)
	if f.evs[0].Kind == "copy" {
		empty := in.mk(Expr{Op: "slicelit", T: ms.T})
		return c.e.Appends(empty, c.of(f.evs[0].Args[1], env), ms.T)
	}
	n, _, _ := c.tripCount(l)
	fr := c.open(l, nil, env)
	ne := append(append(cenv{}, env...), fr)
	nn := c.of(c.clamp(n), env)
	var v *Expr
	if ev := f.evs[0]; ev.Args[0].Op == "iaddr" && in.Implies(l.Back, ev.Guard) {
		v = ev.Args[1]
	} else {
		v = in.Zero(elemType(ms.T))
	}
	for _, ev := range f.evs {
		var path []*Expr
		for a := ev.Args[0]; a.Op == "faddr"; a = a.Args[0] {
			path = append([]*Expr{a}, path...)
		}
		v = in.ITE(ev.Guard, c.e.update(v, path, ev.Args[1]), v)
	}
	return c.seq(nn, c.of(in.Restrict(v, l.Back), ne), ms.T)
}

// plainPath: a is e or a field of it.
func plainPath(a, e *Expr) bool {
	for a.Op == "faddr" {
		a = a.Args[0]
	}
	return a == e
}

// fills: the event only fills a made slice, which shows where the slice is used.
func (c *Canon) fillEvent(ev *Event, env cenv) bool {
	if ev.Kind != "store" && ev.Kind != "copy" || len(ev.Args) == 0 {
		return false
	}
	ms := msRoot(ev.Args[0])
	if ms == nil || c.e.made[ms] == nil {
		return false
	}
	if ev.Kind == "store" && len(env) > 0 {
		env = env[:len(env)-1]
	}
	return c.filled(ms, env) != nil
}

// quiet: the event shows nothing.
func (c *Canon) quiet(ev *Event, env cenv) bool {
	if pureEvent(ev) {
		return true
	}
	if ev.Kind == "loop" && len(env) >= 0 {
		fr := c.open(ev.Loop, nil, env)
		ne := append(append(cenv{}, env...), fr)
		for _, o := range ev.Loop.Events {
			if !c.quiet(o, ne) {
				return false
			}
		}
		return true
	}
	return c.fillEvent(ev, env)
}

func classBase(c string) string {
	if i := strings.Index(c, "#ms"); i >= 0 {
		return c[:i]
	}
	return c
}

// seq is the slice of v for each counter value below n; all elements of
// another slice in order are a copy of it.
func (c *Canon) seq(n, v *Expr, t types.Type) *Expr {
	in := c.in
	if n.Op == "ite" {
		return in.Map2sel(n, func(l, sel *Expr) *Expr { return c.seq(l, c.under(c.lift(sel, 1), v), t) })
	}
	if isZero(n) {
		return in.mk(Expr{Op: "slicelit", T: t})
	}
	x, lo := c.elementOf(v)
	if n.Op == "len" && len(n.Args) == 1 {
		x, lo = n.Args[0], in.Int(0)
	}
	if x != nil {
		et := elemType(t)
		if isSliceT(x.T) && et != nil && types.Identical(elemType(x.T), et) && !tooWide(et, 0) {
			i := in.mk(Expr{Op: "bT", N: 0, Aux: itoa(0), T: types.Typ[types.Int]})
			st := &State{hv: map[*Expr]*Expr{}, mem: map[*Expr]*Expr{}, ver: map[string]*Expr{}}
			if c.e.load(st, c.e.iaddr(c.lift(x, 1), in.Add(i, c.lift(lo, 1)), et), et) == in.unversioned(v) {
				y := c.e.Slice(x, lo, in.Add(lo, n), nil, t)
				return c.e.Appends(in.mk(Expr{Op: "slicelit", T: t}), y, t)
			}
		}
	}
	if k, ok := n.NumConst(); ok && k.IsInt() && k.Sign() > 0 && k.Num().Int64() <= 8 {
		xs := make([]*Expr, k.Num().Int64())
		for i := range xs {
			xs[i] = c.instantiate(v, in.Int(int64(i)))
		}
		return c.e.Appends(in.mk(Expr{Op: "slicelit", T: t}), in.mk(Expr{Op: "slicelit", Args: xs, T: t}), t)
	}
	return in.mk(Expr{Op: "seq", Args: []*Expr{n, v}, T: t})
}

func tooWide(t types.Type, d int) bool {
	if d > 4 {
		return true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		if st.NumFields() > 24 {
			return true
		}
		for i := 0; i < st.NumFields(); i++ {
			if tooWide(st.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// Map2sel maps every leaf with the condition that selects it.
func (in *Interner) Map2sel(x *Expr, f func(l, sel *Expr) *Expr) *Expr {
	var out *Expr
	for _, l := range Leaves(x) {
		sel := in.Selects(x, l)
		y := f(l, sel)
		if out == nil {
			out = y
		} else {
			out = in.ITE(sel, y, out)
		}
	}
	return out
}

// again: live, one iteration on.
func (c *Canon) again(l *LoopSum, vars []*LoopVar, live *Expr) *Expr {
	m := map[*Expr]*Expr{l.T: c.in.AddInt(l.T, 1)}
	for _, v := range l.Vars {
		if v.Next == nil {
			continue
		}
		if v.Sym.Op == "ite" || v.Sym.Op == "struct" {
			continue
		}
		m[v.Sym] = c.in.Restrict(v.Next, l.Back)
	}
	memo := map[*Expr]*Expr{}
	ok := true
	var rec func(x *Expr) *Expr
	rec = func(x *Expr) *Expr {
		if x == nil {
			return nil
		}
		if r, ok := memo[x]; ok {
			return r
		}
		if r := m[x]; r != nil {
			return r
		}
		if x.Loop == l || owner(x) != nil && within(owner(x), l) {
			ok = false // something else that an iteration makes
			return x
		}
		var r *Expr
		switch {
		case x.Op == "ite":
			r = c.in.ITE(c.in.B(rec(x.Args[0])), rec(x.Args[1]), rec(x.Args[2]))
		case len(x.Args) == 0:
			r = x
		default:
			args := make([]*Expr, len(x.Args))
			same := true
			for i, a := range x.Args {
				args[i] = rec(a)
				same = same && args[i] == a
			}
			r = x
			if !same {
				r = c.rebuild(x, args)
			}
		}
		if isBool(r.T) {
			r = c.in.B(r)
		}
		memo[x] = r
		return r
	}
	// conjuncts that depend on other things the iteration makes say nothing
	live = c.in.dropAtoms(live, func(a *Expr) bool {
		var bad bool
		seen := map[*Expr]bool{}
		var look func(x *Expr)
		look = func(x *Expr) {
			if x == nil || seen[x] || bad {
				return
			}
			seen[x] = true
			if m[x] != nil {
				return
			}
			if x.Loop == l || owner(x) != nil && within(owner(x), l) {
				bad = true
				return
			}
			for _, y := range x.Args {
				look(y)
			}
		}
		look(a)
		return bad
	})
	r := rec(live)
	if !ok {
		return c.in.Bool(true)
	}
	return r
}

// dropAtoms weakens g to what it says without the atoms p picks.
func (in *Interner) dropAtoms(g *Expr, p func(*Expr) bool) *Expr {
	memo := map[*Expr]*Expr{}
	var rec func(x *Expr) *Expr
	rec = func(x *Expr) *Expr {
		if x.Op != "ite" {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		a, b := rec(x.Args[1]), rec(x.Args[2])
		var r *Expr
		if p(x.Args[0]) {
			r = in.Or(a, b)
		} else {
			r = in.ITE(in.B(x.Args[0]), a, b)
		}
		memo[x] = r
		return r
	}
	return rec(g)
}

// unversioned: the same element read whenever.
func (in *Interner) unversioned(v *Expr) *Expr {
	switch v.Op {
	case "struct":
		args := make([]*Expr, len(v.Args))
		for i, a := range v.Args {
			args[i] = in.unversioned(a)
		}
		return in.Struct(v.T, args)
	case "ite":
		if v.Args[0].Op == "load" && isTrue(v.Args[1]) && isFalse(v.Args[2]) {
			return in.B(in.unversioned(v.Args[0]))
		}
	case "load":
		if len(v.Args) > 1 {
			return in.B(in.mk(Expr{Op: "load", Args: v.Args[:1:1], T: v.T}))
		}
	}
	return v
}

// elementOf: v reads element lo+counter of x, both as seen outside the counter.
func (c *Canon) elementOf(v *Expr) (x, lo *Expr) {
	for v != nil && v.Op == "struct" && len(v.Args) > 0 {
		v = v.Args[0]
	}
	if v == nil || v.Op != "load" {
		return nil, nil
	}
	a := v.Args[0]
	for a.Op == "faddr" {
		a = a.Args[0]
	}
	if a.Op != "iaddr" {
		return nil, nil
	}
	i := c.in.mk(Expr{Op: "bT", N: 0, Aux: itoa(0), T: types.Typ[types.Int]})
	x = c.invariant(a.Args[0])
	lo = c.invariant(c.in.Sub(a.Args[1], i))
	if x == nil || lo == nil {
		return nil, nil
	}
	return x, lo
}
