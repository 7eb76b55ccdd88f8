package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Canon rewrites the expressions of one summary into closed, context-free
// form, so that two functions that compute the same thing in differently
// arranged code meet in the same hash-consed node:
//   - symbols of an enclosing loop become de Bruijn references,
//   - a value that leaves a loop becomes at(loop, value), where loop is the
//     canonical description of the iteration (continuation condition, initial
//     and next values of the variables the value depends on),
//   - counted loops yield their trip count, universally checked conditions
//     become forall(n, P), unconditional collections become seq(n, v),
//   - results of opaque calls are named by callee and arguments,
//   - fresh objects are named by their content.
type Canon struct {
	in   *Interner
	e    *Engine
	sum  *Summary
	p    *Program
	memo map[cmemo]*Expr

	parent *Canon // of the function a function value is described for
	penv   cenv
	base   map[cmemo]*Expr
	cl     map[string]*Expr
	busy   map[string]bool
	objs   map[*Expr]bool
	nfr    int
	noObj  bool
	depth  int
	lams   map[string]*Expr
	occ    map[*Event]int
	fills  map[*Expr]*fill
	snap   map[*Expr]*Expr // local objects as they were at the event being described
	snaps  map[*Event]map[cmemo]*Expr
}

type lframe struct {
	loop *LoopSum
	num  map[*Expr]int
	id   int
}
type cenv []*lframe
type cmemo struct {
	x   *Expr
	env string
}

func NewCanon(sum *Summary) *Canon {
	base := map[cmemo]*Expr{}
	return &Canon{in: sum.E.in, e: sum.E, p: sum.E.p, sum: sum, memo: base, base: base, cl: map[string]*Expr{}, busy: map[string]bool{}, objs: map[*Expr]bool{}, lams: map[string]*Expr{}}
}

func (v cenv) key() string {
	var sb strings.Builder
	for _, f := range v {
		fmt.Fprintf(&sb, "%d,", f.id)
	}
	return sb.String()
}

// of canonicalises a top-level expression.
func (c *Canon) Of(x *Expr) *Expr { return c.of(x, nil) }

func (c *Canon) of(x *Expr, env cenv) *Expr {
	if x == nil {
		return nil
	}
	k := cmemo{x, env.key()}
	if r, ok := c.memo[k]; ok {
		return r
	}
	c.depth++
	if c.depth > 3000 {
		c.e.fail("expression too deep to normalise")
	}
	r := c.of1(x, env)
	if r.Op != "ite" && isBool(r.T) {
		r = c.in.B(r)
	}
	c.depth--
	c.memo[k] = r
	return r
}

func (c *Canon) frameOf(l *LoopSum, env cenv) (int, *lframe) {
	for i := len(env) - 1; i >= 0; i-- {
		if env[i].loop == l {
			return len(env) - 1 - i, env[i]
		}
	}
	return -1, nil
}

// owner is the loop that makes a symbol vary, if any.
func owner(x *Expr) *LoopSum {
	switch x.Op {
	case "loopsym", "loopT", "ver":
		return x.Loop
	case "res", "out":
		if x.Ev != nil {
			return x.Ev.In
		}
	}
	return nil
}

// outermost loop around l that env does not contain.
func (c *Canon) outer(l *LoopSum, env cenv) *LoopSum {
	var m *LoopSum
	for q := l; q != nil; q = q.In {
		if _, f := c.frameOf(q, env); f != nil {
			break
		}
		m = q
	}
	return m
}

// staysEmpty: a carried slice that every iteration starts with no elements.
func staysEmpty(x *Expr) bool {
	if x.Loop == nil || !isSliceT(x.T) {
		return false
	}
	for _, v := range x.Loop.Vars {
		if v.Sym != x {
			continue
		}
		if !IsEmptySlice(v.Init) || v.Next == nil {
			return false
		}
		for _, l := range Leaves(v.Next) {
			if l != x && !IsEmptySlice(l) {
				return false
			}
		}
		return true
	}
	return false
}

func (c *Canon) of1(x *Expr, env cenv) *Expr {
	in := c.in
	if x.Op == "ite" {
		return in.ITE(in.B(c.of(x.Args[0], env)), c.of(x.Args[1], env), c.of(x.Args[2], env))
	}
	if x.Op == "loopsym" && staysEmpty(x) {
		return in.mk(Expr{Op: "slicelit", T: x.T})
	}
	if l := owner(x); l != nil {
		if m := c.outer(l, env); m != nil {
			return c.leave(x, m, env)
		}
	}
	if x.Op == "rel" && len(env) >= 0 { // whole comparison about one left loop: keep together
		if m := c.onlyLoop(x, env); m != nil {
			if r := c.relAtExit(x, m, env); r != nil {
				return r
			}
		}
	}
	switch x.Op {
	case "makechan":
		// its capacity shows in no value
		return in.mk(Expr{Op: "makechan", Aux: itoa(x.N) + ":" + typeKey(x.T), T: x.T})
	case "loopT":
		d, _ := c.frameOf(x.Loop, env)
		return in.mk(Expr{Op: "bT", N: d, Aux: itoa(d), T: x.T})
	case "loopsym":
		d, f := c.frameOf(x.Loop, env)
		k, ok := f.num[x]
		if !ok {
			k = 99
		}
		return in.mk(Expr{Op: "bS", N: d, Aux: fmt.Sprintf("%d.%d:%s", d, k, typeKey(x.T)), T: x.T})
	case "ver":
		return c.version(x, env)
	case "tok":
		name := x.Aux
		if x.Ev != nil {
			name = fmt.Sprintf("%s#%d", x.Ev.Name, c.occurrence(x.Ev))
		}
		return in.mk(Expr{Op: "ctok", Aux: name})
	case "param", "freevar", "global", "const", "nil", "fn", "builtin", "self":
		if x.Op == "nil" && isSliceT(x.T) {
			return x
		}
		if x.Op == "fn" {
			return c.fnValue(x, env)
		}
		return x
	case "alloc":
		return c.object(x, env)
	case "closure":
		return c.closure(x, env)
	case "res", "out":
		return c.result(x, env)
	case "makeslice":
		if r := c.filled(x, env); r != nil {
			return r
		}
		if c.parent != nil && c.e.made[x] == nil { // made where the function value was
			if r := c.parent.of(x, c.penv); r.Op != "makeslice" {
				return c.lift(r, len(env))
			}
		}
	}
	args := make([]*Expr, len(x.Args))
	for i, a := range x.Args {
		args[i] = c.of(a, env)
	}
	return c.rebuild(x, args)
}

// rebuild makes x again over new arguments, distributing over merges.
func (c *Canon) rebuild(x *Expr, args []*Expr) *Expr {
	switch x.Op {
	case "struct", "ref", "slicelit", "array", "tuple":
		return c.build(x, args)
	case "at":
		return c.exitVal(args[0], args[1])
	case "forall":
		return c.in.MapN(args[:1], func(a []*Expr) *Expr { return c.forall(a[0], args[1]) })
	case "seq":
		return c.seq(args[0], args[1], x.T)
	case "cloop", "eloop", "event", "lam", "obj":
		y := *x
		y.Args = args
		return c.in.mk(y)
	}
	if x.Op == "mul" && c.in.lazyMul {
		return c.build(x, args)
	}
	if x.Op == "call" {
		return c.mapFields(args, func(a []*Expr) *Expr { return c.in.B(c.build(x, a)) })
	}
	return c.in.MapN(args, func(a []*Expr) *Expr { return c.in.B(c.build(x, a)) })
}

func (c *Canon) build(x *Expr, a []*Expr) *Expr {
	in, e := c.in, c.e
	switch x.Op {
	case "lin":
		r := in.Lin(nil, nil, x.c0, x.T)
		for i := range a {
			r = in.Add(r, in.Mul(in.Lin(nil, nil, x.coef[i], x.T), a[i]))
		}
		if r.T == nil {
			r.T = x.T
		}
		return r
	case "mul":
		r := a[0]
		for _, y := range a[1:] {
			r = in.Mul(r, y)
		}
		return r
	case "div":
		return in.Div(a[0], a[1], x.T)
	case "rel":
		return in.Rel(a[0], x.rel, in.Lin(nil, nil, x.c0, a[0].T))
	case "eq":
		return in.Eq(a[0], a[1])
	case "isnil":
		return in.Eq(a[0], in.Nil(a[0].T))
	case "field":
		return in.Field(a[0], x.N)
	case "index":
		if a[0].Op == "load" { // an element of a loaded array
			return in.mk(Expr{Op: "load", Args: append([]*Expr{e.iaddr(a[0].Args[0], a[1], x.T)}, a[0].Args[1:]...), T: x.T})
		}
		if a[0].Op == "array" {
			return in.Index(a[0], a[1])
		}
	case "struct":
		return in.Struct(x.T, a)
	case "len":
		if len(a) == 1 {
			if a[0].Op == "seq" {
				return a[0].Args[0]
			}
			return e.Len(a[0])
		}
	case "slice":
		r := c.emptied(e.Slice(c.emptied(a[0]), a[1], a[2], a[3], x.T))
		if o := r.Args; r.Op == "slice" && o[1] == nil && o[2] == nil && o[3] == nil && o[0].Op == "obj" && len(o[0].Args) == 1 && o[0].Args[0].Op == "array" {
			return in.mk(Expr{Op: "slicelit", Args: o[0].Args[0].Args, T: x.T}) // all of a small array made here
		}
		if r.Op == "slice" && r.Args[0].Op == "slicelit" { // some elements of a literal
			lo, hi := int64(0), int64(len(r.Args[0].Args))
			ok1, ok2 := true, true
			if r.Args[1] != nil {
				lo, ok1 = r.Args[1].IntConst()
			}
			if r.Args[2] != nil {
				hi, ok2 = r.Args[2].IntConst()
			}
			if ok1 && ok2 && lo >= 0 && lo <= hi && hi <= int64(len(r.Args[0].Args)) {
				return in.mk(Expr{Op: "slicelit", Args: r.Args[0].Args[lo:hi:hi], T: x.T})
			}
		}
		return r
	case "havoc":
		return in.mk(Expr{Op: "havoc", Aux: typeKey(x.T), T: x.T})
	case "append1":
		return e.Append1(c.emptied(a[0]), a[1], x.T)
	case "appends":
		return e.Appends(c.emptied(a[0]), a[1], x.T)
	case "load":
		if a[0].Op == "iaddr" {
			b, i := a[0].Args[0], a[0].Args[1]
			if b.Op == "slicelit" {
				if n, ok := i.IntConst(); ok && n >= 0 && int(n) < len(b.Args) {
					return b.Args[n]
				}
			}
			if b.Op == "seq" {
				return c.instantiate(b.Args[1], i)
			}
		}
	case "call":
		if symmetric[x.Aux] && len(a) == 2 && a[0].id > a[1].id {
			a = []*Expr{a[1], a[0]}
		}
		if strings.HasPrefix(x.Aux, "sorted/") {
			a = append([]*Expr{}, a...)
			sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
		}
	case "makeslice", "makemap", "makechan", "rangeof":
		y := *x
		y.Aux, y.Args = typeKey(x.T), a
		if x.Op == "makeslice" && isZero(a[0]) {
			return in.mk(Expr{Op: "slicelit", T: x.T})
		}
		return in.mk(y)
	}
	y := *x
	y.Args = a
	z := in.mk(y)
	if isBool(z.T) && z.Op != "const" {
		return z // callers wrap atoms with B
	}
	return z
}

func (c *Canon) emptied(x *Expr) *Expr {
	if x.Op == "ite" && isSliceT(x.T) {
		return c.in.Map(x, c.emptied)
	}
	if IsEmptySlice(x) {
		return c.in.mk(Expr{Op: "slicelit", T: x.T})
	}
	return x
}

// instantiate puts i for the innermost bound counter of v.
func (c *Canon) instantiate(v, i *Expr) *Expr {
	return c.subst(v, 0, i)
}

func (c *Canon) subst(v *Expr, d int, i *Expr) *Expr {
	return c.walk(v, d, func(x *Expr, d int) *Expr {
		if x.Op == "bT" && x.N == d {
			return c.lift(i, d)
		}
		if (x.Op == "bT" || x.Op == "bS" || x.Op == "bver") && x.N > d {
			return c.bound(x, x.N-1)
		}
		return nil
	})
}

// lift raises the free bound references of x by n levels.
func (c *Canon) lift(x *Expr, n int) *Expr {
	if n == 0 {
		return x
	}
	return c.walk(x, 0, func(x *Expr, d int) *Expr {
		if (x.Op == "bT" || x.Op == "bS" || x.Op == "bver") && x.N >= d {
			return c.bound(x, x.N+n)
		}
		return nil
	})
}

func (c *Canon) bound(x *Expr, d int) *Expr {
	if x.Op == "bT" {
		return c.in.mk(Expr{Op: "bT", N: d, Aux: itoa(d), T: x.T})
	}
	if x.Op == "bver" {
		return c.in.mk(Expr{Op: "bver", N: d, Aux: itoa(d) + x.Aux[strings.Index(x.Aux, ":"):]})
	}
	return c.in.mk(Expr{Op: "bS", N: d, Aux: itoa(d) + x.Aux[strings.Index(x.Aux, "."):], T: x.T})
}

// walk rebuilds v; d counts the binders crossed.
func (c *Canon) walk(v *Expr, d0 int, f func(x *Expr, d int) *Expr) *Expr {
	type key struct {
		x *Expr
		d int
	}
	memo := map[key]*Expr{}
	var rec func(x *Expr, d int) *Expr
	rec = func(x *Expr, d int) *Expr {
		if x == nil {
			return nil
		}
		k := key{x, d}
		if r, ok := memo[k]; ok {
			return r
		}
		r := f(x, d)
		switch {
		case r != nil:
		case len(x.Args) == 0:
			r = x
		case x.Op == "ite":
			r = c.in.ITE(c.in.B(rec(x.Args[0], d)), rec(x.Args[1], d), rec(x.Args[2], d))
		default:
			args := make([]*Expr, len(x.Args))
			for j, a := range x.Args {
				dd := d
				switch x.Op {
				case "cloop":
					if j%2 == 0 {
						dd++
					}
				case "forall", "seq", "at":
					if j == 1 {
						dd++
					}
				case "eloop":
					if j > 1 {
						dd++
					}
				}
				args[j] = rec(a, dd)
			}
			r = c.rebuild(x, args)
		}
		if isBool(r.T) {
			r = c.in.B(r)
		}
		memo[k] = r
		return r
	}
	return rec(v, d0)
}

// ---------------------------------------------------------------- loops

// rel conditions inside the loop, relative to having entered it
func (c *Canon) relGuard(l *LoopSum, g *Expr) *Expr {
	r := c.in.Restrict(g, l.Entry)
	return r
}

// tripCount: the loop continues exactly while T < n and q; q may be nil.
func (c *Canon) tripCount(l *LoopSum) (n, q *Expr, ok bool) {
	return c.tripCount1(l, c.relGuard(l, l.Back), 0)
}

func (c *Canon) tripCount1(l *LoopSum, back *Expr, depth int) (n, q *Expr, ok bool) {
	in := c.in
	if back.Op != "ite" {
		return nil, nil, false
	}
	// look for a conjunct T <= k
	var bound *Expr
	var atoms []*Expr
	seen := map[*Expr]bool{}
	var collect func(x *Expr)
	collect = func(x *Expr) {
		if x.Op != "ite" || seen[x] {
			return
		}
		seen[x] = true
		atoms = append(atoms, x.Args[0])
		collect(x.Args[1])
		collect(x.Args[2])
	}
	collect(back)
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var which *Expr
	for _, a := range atoms {
		if a.Op != "rel" || a.rel == "==" {
			continue
		}
		f := a.Args[0]
		for _, neg := range []bool{false, true} {
			lit := in.B(a)
			if neg {
				lit = in.Not(lit)
			}
			cT, rest := splitT(in, f, l.T)
			if cT == nil || dependsOn(rest, l) || !(!neg && cT.Cmp(ratOne) == 0 || neg && cT.Cmp(ratMinus) == 0) {
				continue
			}
			if !in.Implies(back, lit) {
				continue
			}
			// cT*T + rest <= c0 (or > c0 when neg)
			cc := in.Lin(nil, nil, a.c0, f.T)
			if !neg && cT.Cmp(ratOne) == 0 {
				// T <= c0-rest  (or <)
				bound = in.Sub(cc, rest)
				if a.rel == "<=" {
					bound = in.AddInt(bound, 1)
				}
				which = lit
			} else if neg && cT.Cmp(ratMinus) == 0 {
				// -T+rest > c0 => T < rest-c0
				bound = in.Sub(rest, cc)
				if a.rel == "<" {
					bound = in.AddInt(bound, 1)
				}
				which = lit
			}
		}
		if bound != nil {
			break
		}
	}
	if bound == nil {
		if depth > 2 || depth > 0 && len(atoms) > 12 || len(atoms) > 40 {
			return nil, nil, false
		}
		for _, a := range atoms { // a length chosen by a condition the loop does not change
			if dependsOn(a, l) {
				continue
			}
			n1, q1, ok1 := c.tripCount1(l, assume(in, back, a, true), depth+1)
			if !ok1 || q1 != nil {
				continue
			}
			n2, q2, ok2 := c.tripCount1(l, assume(in, back, a, false), depth+1)
			if !ok2 || q2 != nil {
				continue
			}
			return in.ITE(in.B(a), n1, n2), nil, true
		}
		return nil, nil, false
	}
	q = in.Restrict(back, which)
	if isTrue(q) {
		q = nil
	}
	return bound, q, true
}

func splitT(in *Interner, f, t *Expr) (*big.Rat, *Expr) {
	if f == t {
		return ratOne, in.Int(0)
	}
	if f.Op != "lin" {
		return nil, nil
	}
	for i, a := range f.Args {
		if a == t {
			return f.coef[i], in.Sub(f, in.Mul(in.Lin(nil, nil, f.coef[i], f.T), t))
		}
	}
	return nil, nil
}

func nonNegative(x *Expr) bool {
	if n, ok := x.NumConst(); ok {
		return n.Sign() >= 0
	}
	b := NewFacts().full(x)
	return b.lo != nil && b.lo.Sign() >= 0
}

func (c *Canon) clamp(n *Expr) *Expr {
	if n.Op == "ite" {
		return c.in.Map(n, c.clamp)
	}
	if nonNegative(n) || c.e.lens[n] {
		return n
	}
	return c.in.ITE(c.in.Rel(n, "<=", c.in.Int(0)), c.in.Int(0), n)
}

// deps: the loop symbols of l that x depends on, closed over their updates.
func (c *Canon) deps(l *LoopSum, xs ...*Expr) []*LoopVar {
	bySym := map[*Expr]*LoopVar{}
	for _, v := range l.Vars {
		if v.Sym.Op == "struct" {
			continue
		}
		if !staysEmpty(v.Sym) {
			bySym[rootSym(v.Sym)] = v
		}
	}
	have := map[*LoopVar]bool{}
	seen := map[*Expr]bool{}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || seen[x] || x.Op == "slice" && IsEmptySlice(x) {
			return
		}
		seen[x] = true
		if v := bySym[x]; v != nil && !have[v] {
			have[v] = true
			rec(v.Next)
		}
		if (x.Op == "loopsym" || x.Op == "loopT") && x.Loop != nil && x.Loop != l && within(x.Loop, l) {
			rec(x.Loop.Back)
			for _, w := range x.Loop.Vars {
				if rootSym(w.Sym) == x {
					rec(w.Init)
					rec(w.Next)
				}
			}
		}
		if x.Op == "alloc" {
			rec(l.Objs[x])
		}
		if x.Ev != nil && (x.Op == "res" || x.Op == "out") {
			for _, a := range x.Ev.After {
				rec(a)
			}
			for _, a := range x.Ev.Args {
				rec(a)
			}
			for _, m := range x.Ev.Mem {
				rec(m)
			}
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	for _, x := range xs {
		rec(x)
	}
	var out []*LoopVar
	for _, v := range l.Vars {
		if have[v] {
			out = append(out, v)
		}
	}
	return out
}

func rootSym(s *Expr) *Expr {
	if s.Op == "ite" {
		return s.Args[0]
	}
	return s
}

// open a frame for l numbering the given variables canonically.
func (c *Canon) open(l *LoopSum, vars []*LoopVar, env cenv) *lframe {
	col := map[*LoopVar]string{}
	for _, v := range vars {
		col[v] = fmt.Sprintf("%s/%d", typeKey(v.Sym.T), c.of(c.emptied(v.Init), env).id)
	}
	var fr *lframe
	for round := 0; round < 3; round++ {
		var cs []string
		for _, v := range vars {
			cs = append(cs, col[v])
		}
		sort.Strings(cs)
		num := map[*Expr]int{}
		for _, v := range vars {
			num[rootSym(v.Sym)] = sort.SearchStrings(cs, col[v])
		}
		c.nfr++
		fr = &lframe{loop: l, num: num, id: c.nfr}
		distinctAll := true
		for i := 1; i < len(cs); i++ {
			if cs[i] == cs[i-1] {
				distinctAll = false
			}
		}
		if distinctAll {
			return fr
		}
		ne := append(append(cenv{}, env...), fr)
		for _, v := range vars {
			col[v] += fmt.Sprintf("/%d", c.of(v.Next, ne).id)
		}
	}
	// symmetric variables: any order
	sorted := append([]*LoopVar{}, vars...)
	sort.SliceStable(sorted, func(i, j int) bool { return col[sorted[i]] < col[sorted[j]] })
	num := map[*Expr]int{}
	for i, v := range sorted {
		num[rootSym(v.Sym)] = i
	}
	c.nfr++
	return &lframe{loop: l, num: num, id: c.nfr}
}

// loopExpr is the canonical description of l restricted to vars.
// live is the condition under which the state at the head of an iteration
// matters (nil: always), apart from the variables in keep.
func (c *Canon) loopExpr(l *LoopSum, fr *lframe, vars []*LoopVar, env cenv, live *Expr, keep *Expr) *Expr {
	ne := append(append(cenv{}, env...), fr)
	args := []*Expr{c.of(c.relGuard(l, l.Back), ne)}
	var again *Expr
	vs := append([]*LoopVar{}, vars...)
	sort.SliceStable(vs, func(i, j int) bool { return fr.num[rootSym(vs[i].Sym)] < fr.num[rootSym(vs[j].Sym)] })
	for _, v := range vs {
		next := v.Next
		if next == nil {
			next = v.Sym
		}
		next = c.in.Restrict(next, l.Back)
		if live != nil && next.Op == "ite" && rootSym(v.Sym) != keep {
			if again == nil {
				again = c.again(l, vars, live)
			}
			next = c.in.SimplifyUnder(c.in.And(l.Back, again), next)
		}
		args = append(args, c.of(c.emptied(v.Init), env), c.under(args[0], c.of(next, ne)))
	}
	return c.in.mk(Expr{Op: "cloop", Args: args, T: types.Typ[types.Int]})
}

// leave canonicalises symbol x of loop m (or of a loop nested in m) as seen
// from outside m.
func (c *Canon) leave(x *Expr, m *LoopSum, env cenv) *Expr {
	in := c.in
	if x.Op == "ver" {
		return c.version(x, env)
	}
	key := fmt.Sprintf("%d|%s|%d", x.id, env.key(), m.ID)
	if c.busy[key] {
		return in.mk(Expr{Op: "rec", Aux: typeKey(x.T), T: x.T})
	}
	c.busy[key] = true
	defer delete(c.busy, key)
	n, q, counted := c.tripCount(m)
	if counted && q == nil && x.Loop == m {
		nn := c.of(c.clamp(n), env)
		if x.Op == "loopT" {
			return nn
		}
		if x.Op == "loopsym" {
			if r := c.closed(x, m, nn, env); r != nil {
				return r
			}
		}
	}
	vars := c.deps(m, m.Back, x)
	fr := c.open(m, vars, env)
	var live, keep *Expr
	if x.Loop == m && (x.Op == "loopsym" || x.Op == "loopT") {
		live, keep = m.Back, x
	}
	cl := c.loopExpr(m, fr, vars, env, live, keep)
	ne := append(append(cenv{}, env...), fr)
	v := c.of(x, ne)
	return c.exitVal(cl, v)
}

// exitVal is v, an expression over the bound state of cl, at cl's exit.
func (c *Canon) exitVal(cl, v *Expr) *Expr {
	switch v.Op {
	case "ite":
		return c.in.ITE(c.in.B(c.exitVal(cl, v.Args[0])), c.exitVal(cl, v.Args[1]), c.exitVal(cl, v.Args[2]))
	case "const", "nil", "param", "fn", "global":
		return v
	case "lin":
		if len(v.Args) == 0 {
			return v
		}
	case "struct":
		args := make([]*Expr, len(v.Args))
		for i, a := range v.Args {
			args[i] = c.exitVal(cl, a)
		}
		return c.in.Struct(v.T, args)
	}
	if r := c.invariant(v); r != nil {
		return r
	}
	if isBool(v.T) {
		return c.in.B(c.in.mk(Expr{Op: "at", Args: []*Expr{cl, v}, T: v.T}))
	}
	return c.in.mk(Expr{Op: "at", Args: []*Expr{cl, v}, T: v.T})
}

// invariant: v as seen outside the innermost binder, if it does not vary there.
func (c *Canon) invariant(v *Expr) *Expr {
	varies := false
	r := c.walk(v, 0, func(x *Expr, d int) *Expr {
		switch x.Op {
		case "bT", "bS", "bver":
			if x.N == d {
				varies = true
			}
			if x.N > d {
				return c.bound(x, x.N-1)
			}
			return x
		case "rres", "rout":
			if strings.Contains(x.Aux, "@") {
				varies = true
			}
		case "obj", "rec", "havoc", "lam", "closure?":
			varies = true
		}
		if varies {
			return x
		}
		return nil
	})
	if varies {
		return nil
	}
	return r
}

// closed form of a carried value after a counted loop
func (c *Canon) closed(x *Expr, m *LoopSum, n *Expr, env cenv) *Expr {
	in := c.in
	var lv *LoopVar
	for _, v := range m.Vars {
		if rootSym(v.Sym) == x {
			lv = v
		}
	}
	if lv == nil || lv.Next == nil {
		return nil
	}
	only := c.deps(m, m.Back, x)
	if len(only) != 1 {
		return nil
	}
	fr := c.open(m, only, env)
	ne := append(append(cenv{}, env...), fr)
	next := in.Restrict(lv.Next, m.Back)
	free := func(y *Expr) bool {
		for _, v := range c.deps(m, y) {
			_ = v
			return false
		}
		return true
	}
	if isBool(x.T) {
		a, b := in.Bool(false), in.Bool(false)
		// next = ite(sym, a, b)
		a = assume(in, next, x, true)
		b = assume(in, next, x, false)
		if free(a) && free(b) {
			init := c.of(lv.Init, env)
			if isFalse(b) {
				return in.And(init, c.forall(n, c.of(a, ne)))
			}
			if isTrue(a) {
				return in.Or(init, in.Not(c.forall(n, in.Not(c.of(b, ne)))))
			}
		}
		return nil
	}
	if isSliceT(x.T) && IsEmptySlice(lv.Init) {
		for _, l := range Leaves(next) { // one element each time, whichever
			if l.Op != "append1" || l.Args[0] != x {
				return nil
			}
		}
		if v := in.Map(next, func(l *Expr) *Expr { return l.Args[1] }); free(v) {
			return c.seq(n, c.of(v, ne), x.T)
		}
	}
	return nil
}

// assume fixes atom a in x.
func assume(in *Interner, x, a *Expr, v bool) *Expr {
	memo := map[*Expr]*Expr{}
	var rec func(x *Expr) *Expr
	rec = func(x *Expr) *Expr {
		if x.Op != "ite" {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Expr
		if x.Args[0] == a {
			if v {
				r = rec(x.Args[1])
			} else {
				r = rec(x.Args[2])
			}
		} else {
			r = in.ITE(in.B(x.Args[0]), rec(x.Args[1]), rec(x.Args[2]))
		}
		memo[x] = r
		return r
	}
	return rec(x)
}

func (c *Canon) forall(n, p *Expr) *Expr {
	if isTrue(p) {
		return c.in.Bool(true)
	}
	if k, ok := n.IntConst(); ok && k <= 0 {
		return c.in.Bool(true)
	}
	// what does not vary is no part of the quantifier
	if p.Op == "ite" {
		var split *Expr
		seen := map[*Expr]bool{}
		var rec func(x *Expr)
		rec = func(x *Expr) {
			if x.Op != "ite" || seen[x] || split != nil {
				return
			}
			seen[x] = true
			if c.invariant(x.Args[0]) != nil {
				split = x.Args[0]
				return
			}
			rec(x.Args[1])
			rec(x.Args[2])
		}
		rec(p)
		if split != nil {
			return c.in.ITE(c.in.B(c.invariant(split)), c.forall(n, assume(c.in, p, split, true)), c.forall(n, assume(c.in, p, split, false)))
		}
	}
	if isFalse(p) {
		return c.in.Rel(n, "<=", c.in.Int(0))
	}
	// a constant condition over a possibly empty range
	return c.in.B(c.in.mk(Expr{Op: "forall", Args: []*Expr{n, p}, T: types.Typ[types.Bool]}))
}

// onlyLoop: x varies with exactly one loop that env has left.
func (c *Canon) onlyLoop(x *Expr, env cenv) *LoopSum {
	var m *LoopSum
	multiple := false
	seen := map[*Expr]bool{}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if l := owner(x); l != nil && x.Op != "ver" {
			if o := c.outer(l, env); o != nil {
				if m != nil && m != o {
					multiple = true
				}
				m = o
			}
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(x)
	if multiple {
		return nil
	}
	return m
}

// relAtExit: "the counter reached the bound" after a loop that may also stop
// early is a universally quantified statement.
func (c *Canon) relAtExit(x *Expr, m *LoopSum, env cenv) *Expr {
	in := c.in
	n, q, ok := c.tripCount(m)
	if !ok || q == nil || effects(m) {
		return nil
	}
	if len(c.deps(m, q)) > 0 {
		return nil
	}
	reach := in.Rel(m.T, "<", n)
	if reach.Op != "ite" || reach.Args[0] != x {
		return nil
	}
	fr := c.open(m, nil, env)
	ne := append(append(cenv{}, env...), fr)
	p := c.of(q, ne)
	fa := c.forall(c.of(c.clamp(n), env), p) // holds iff the counter reached n
	if isTrue(reach.Args[1]) {
		return condAtom(in, in.Not(fa))
	}
	return condAtom(in, fa)
}

// condAtom: callers expect something B can wrap; a diagram passes through B.
func condAtom(in *Interner, x *Expr) *Expr { return x }

func effects(l *LoopSum) bool {
	for _, ev := range l.Events {
		if !pureEvent(ev) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- calls, memory

var pureFnMemo = map[*ssa.Function]bool{}

// pureEvent: recording it is not an observable effect.
func pureEvent(ev *Event) bool {
	switch ev.Kind {
	case "append", "next":
		return true
	case "defer":
		// shows when it runs
		return !recovers(ev)
	case "loop":
		return !effects(ev.Loop)
	case "call":
		if ev.Fn != nil && ev.Sig != nil && ev.FnV == nil {
			return pureFn(ev.Fn)
		}
		switch ev.Name {
		case "dyn", "sset.NewSSet", "heap.NewHeap", "rtree.NewRTree", "index.NewIndex", "deque.NewDeque", "iter.NewIgen", "time.Now", "sort known":
			return true
		}
	}
	return false
}

// recovers: the deferred function may stop a panic.
func recovers(ev *Event) bool {
	if ev.FnV == nil || ev.FnV.Op == "builtin" {
		return false
	}
	f := ev.FnV.Fn
	if ev.FnV.Op == "closure" {
		f = ev.FnV.Clo.Fn
	}
	if f == nil {
		return true
	}
	for g := range curProg.Reach(f) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						return true
					}
				}
			}
		}
	}
	return false
}

var curProg *Program

func pureFn(f *ssa.Function) bool {
	if r, ok := pureFnMemo[f]; ok {
		return r
	}
	pureFnMemo[f] = true
	r := len(curProg.Mods(f).Classes) == 0
	if r {
		for g := range curProg.Reach(f) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					switch y := ins.(type) {
					case *ssa.Send, *ssa.Go:
						r = false
					case *ssa.Panic:
						r = r && g != f && f.Signature.Results().Len() > 0
					case ssa.CallInstruction:
						if h := y.Common().StaticCallee(); h != nil && outside(h) {
							r = false
						}
					case *ssa.UnOp:
						if y.Op.String() == "<-" {
							r = false
						}
					}
				}
			}
		}
	}
	pureFnMemo[f] = r
	return r
}

// outside: a library call with an effect outside the program's memory.
func outside(h *ssa.Function) bool {
	if h.Pkg == nil {
		return false
	}
	switch h.Pkg.Pkg.Path() {
	case "os", "log", "io", "io/ioutil", "bufio", "net", "os/exec", "syscall":
		return h.Name() != "init"
	case "fmt":
		return !strings.HasPrefix(h.Name(), "Sprint") && !strings.HasPrefix(h.Name(), "Error")
	}
	return strings.Contains(h.Pkg.Pkg.Path(), "fileutil")
}

func (c *Canon) result(x *Expr, env cenv) *Expr {
	ev := x.Ev
	args := []*Expr{}
	snap, memo := c.snap, c.memo
	c.snap, c.memo = nil, c.base
	g := c.of(ev.Guard, env)
	c.snap, c.memo = snap, memo
	for _, a := range ev.Args {
		args = append(args, c.under(g, c.argOf(ev, a, env)))
	}
	aux := fmt.Sprintf("%s#%d", ev.Name, x.N)
	if x.Op == "out" {
		aux += x.Aux[strings.LastIndex(x.Aux, "#")+1:]
	}
	if !pureEvent(ev) {
		aux += fmt.Sprintf("@%d", c.occurrence(ev))
	}
	args = append(args, c.afterOf(ev, g, env))
	return c.mapFields(args, func(a []*Expr) *Expr {
		return c.in.B(c.in.mk(Expr{Op: "r" + x.Op, Aux: aux, N: x.N, Args: a, T: x.T}))
	})
}

// mapFields is MapN that also distributes over merges in the fields of
// structures passed by value.
func (c *Canon) mapFields(args []*Expr, f func([]*Expr) *Expr) *Expr {
	var flat []*Expr
	var add func(x *Expr)
	add = func(x *Expr) {
		if x != nil && x.Op == "struct" {
			for _, a := range x.Args {
				add(a)
			}
			return
		}
		flat = append(flat, x)
	}
	for _, a := range args {
		add(a)
	}
	return c.in.MapN(flat, func(l []*Expr) *Expr {
		k := 0
		var take func(x *Expr) *Expr
		take = func(x *Expr) *Expr {
			if x != nil && x.Op == "struct" {
				fs := make([]*Expr, len(x.Args))
				for i, a := range x.Args {
					fs[i] = take(a)
				}
				return c.in.Struct(x.T, fs)
			}
			k++
			return l[k-1]
		}
		out := make([]*Expr, len(args))
		for i, a := range args {
			out[i] = take(a)
		}
		return f(out)
	})
}

// occurrence numbers effectful events of the same name in program order.
func (c *Canon) occurrence(ev *Event) int {
	if n, ok := c.occ[ev]; ok {
		return n
	}
	c.occ = map[*Event]int{}
	var seen []*Event
	for _, o := range c.sum.AllEvents() {
		n := 0
		for _, q := range seen {
			if o.Kind == q.Kind && o.Name == q.Name && c.occ[q] >= n && !(o.In == q.In && c.in.Disjoint(o.Guard, q.Guard)) {
				n = c.occ[q] + 1
			}
		}
		c.occ[o] = n
		seen = append(seen, o)
	}
	return c.occ[ev]
}

// afterOf is what the event's result depends on having happened before.
func (c *Canon) afterOf(ev *Event, g *Expr, env cenv) *Expr {
	if len(ev.After) == 0 {
		return c.in.mk(Expr{Op: "after"})
	}
	snap, memo := c.snap, c.memo
	c.snap, c.memo = nil, c.base
	args := make([]*Expr, len(ev.After))
	for i, a := range ev.After {
		args[i] = c.under(g, c.of(a, env))
	}
	c.snap, c.memo = snap, memo
	return c.in.MapN(args, func(l []*Expr) *Expr {
		seen := map[*Expr]bool{}
		var out []*Expr
		for _, x := range l {
			if x.Aux != "" && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		return c.in.mk(Expr{Op: "after", Args: out})
	})
}

func evClasses(p *Program, ev *Event) map[string]bool {
	m := map[string]bool{}
	switch ev.Kind {
	case "store":
		m[addrClass(ev.Args[0])] = true
	case "mapupdate", "mapdelete":
		m["map:"+typeKey(ev.Args[0].T.Underlying())] = true
	case "call":
		if ev.Fn != nil {
			return p.Mods(ev.Fn).Classes
		}
		if cl := extEffect[ev.Name]; cl != "" {
			m[cl] = true
		}
	case "copy":
		m["[]"+typeKey(elemType(ev.Args[0].T))] = true
	case "loop":
		for _, o := range ev.Loop.Events {
			for k := range evClasses(p, o) {
				m[k] = true
			}
		}
	}
	return m
}

func (c *Canon) version(x *Expr, env cenv) *Expr {
	_, class, _ := strings.Cut(x.Aux, "§")
	if strings.HasPrefix(class, "mut:") {
		class = "mut" // the value it is about is known by its number only
	}
	class = classBase(class)
	if strings.HasPrefix(x.Aux, "loop:") && x.Loop != nil {
		if d, f := c.frameOf(x.Loop, env); f != nil {
			return c.in.mk(Expr{Op: "bver", N: d, Aux: fmt.Sprintf("%d:%s", d, class)})
		}
	}
	if x.Ev != nil && x.Ev.Kind == "call" && x.Ev.Fn != nil && c.p.InRepo(x.Ev.Fn) {
		// after which call
		return c.in.mk(Expr{Op: "cver", Aux: fmt.Sprintf("ver:%s@%s#%d", class, x.Ev.Name, c.occurrence(x.Ev))})
	}
	return c.in.mk(Expr{Op: "cver", Aux: "ver:" + class})
}

// argOf is an operand of ev, its local objects as they were then.
func (c *Canon) argOf(ev *Event, a *Expr, env cenv) *Expr {
	snap, memo := c.snap, c.memo
	defer func() { c.snap, c.memo = snap, memo }()
	if len(ev.Mem) > 0 {
		if c.snaps == nil {
			c.snaps = map[*Event]map[cmemo]*Expr{}
		}
		if c.snaps[ev] == nil {
			c.snaps[ev] = map[cmemo]*Expr{}
		}
		c.snap, c.memo = ev.Mem, c.snaps[ev]
	} else {
		c.snap, c.memo = nil, c.base
	}
	return c.of(a, env)
}

func (c *Canon) object(x *Expr, env cenv) *Expr {
	if c.objs[x] || c.noObj || c.sum.End == nil {
		return c.in.mk(Expr{Op: "obj", Aux: typeKey(x.T), T: x.T})
	}
	v, ok := c.sum.End.mem[x]
	if w, at := c.snap[x]; at {
		c.objs[x] = true
		defer delete(c.objs, x)
		return c.in.mk(Expr{Op: "obj", Aux: typeKey(x.T), Args: []*Expr{c.of(c.emptied(w), env)}, T: x.T})
	}
	for i := len(env) - 1; i >= 0; i-- {
		if w, made := env[i].loop.Objs[x]; made {
			v, ok = w, true
			break
		}
	}
	if !ok {
		return c.in.mk(Expr{Op: "obj", Aux: typeKey(x.T), T: x.T})
	}
	c.objs[x] = true
	defer delete(c.objs, x)
	return c.in.mk(Expr{Op: "obj", Aux: typeKey(x.T), Args: []*Expr{c.of(c.emptied(v), env)}, T: x.T})
}

func (c *Canon) fnValue(x *Expr, env cenv) *Expr {
	if x.Fn == nil || !c.e.inlinable(x.Fn) || !c.p.InRepo(x.Fn) {
		return x
	}
	return c.lambda(x, x.Fn, nil, env)
}

func (c *Canon) closure(x *Expr, env cenv) *Expr {
	return c.lambda(x, x.Clo.Fn, x.Clo.Bindings, env)
}

// lambda describes a function value by its own canonical summary over bound
// parameters.
func (c *Canon) lambda(x *Expr, fn *ssa.Function, bindings []*Expr, env cenv) *Expr {
	fb := func() *Expr {
		args := make([]*Expr, len(bindings))
		for i, b := range bindings {
			args[i] = c.of(b, env)
		}
		return c.in.mk(Expr{Op: "closure?", Aux: fn.Name(), Args: args, T: x.T})
	}
	k := "lam" + itoa(x.id)
	if c.busy[k] {
		return c.in.mk(Expr{Op: "rec", Aux: typeKey(x.T), T: x.T})
	}
	c.busy[k] = true
	defer delete(c.busy, k)
	params := make([]*Expr, len(fn.Params))
	for i, p := range fn.Params {
		params[i] = c.in.B(c.in.mk(Expr{Op: "param", Aux: c.lamParam(i, c.lamDepth(), p), T: p.Type(), N: i}))
	}
	sub := NewEngine(c.p, c.e.cfg)
	c.p.epoch++
	sub.push("#" + itoa(c.p.epoch))
	st := c.sum.End
	sum, err := sub.AnalyzeWith(fn, params, bindings, st)
	if err != nil {
		return fb()
	}
	cc := NewCanon(sum)
	cc.busy = c.busy
	cc.parent, cc.penv = c, env
	args := []*Expr{}
	for _, r := range sum.Rets {
		args = append(args, cc.Of(r))
	}
	args = append(args, cc.Effects()...)
	return c.in.mk(Expr{Op: "lam", Aux: itoa(len(fn.Params)), Args: args, T: x.T})
}

// Effects lists the canonical observable events in order.
func (c *Canon) Effects() []*Expr { return c.effects(c.sum.Events, nil) }

func (c *Canon) effects(evs []*Event, env cenv) []*Expr {
	var out []*Expr
	for _, ev := range evs {
		if c.quiet(ev, env) {
			continue
		}
		g := ev.Guard
		if ev.In != nil {
			g = c.in.Restrict(g, ev.In.Entry)
		}
		if ev.Kind == "loop" {
			l := ev.Loop
			g = l.Entry
			if l.In != nil {
				g = c.in.Restrict(g, l.In.Entry)
			}
			xs := []*Expr{l.Back}
			probe := append(append(cenv{}, env...), c.open(l, nil, env))
			for _, o := range l.Events {
				if c.quiet(o, probe) {
					continue
				}
				xs = append(xs, o.Guard)
				xs = append(xs, o.Args...)
				xs = append(xs, o.After...)
				for _, m := range o.Mem {
					xs = append(xs, m)
				}
			}
			vars := c.deps(l, xs...)
			fr := c.open(l, vars, env)
			live := l.Back
			for _, o := range l.Events {
				if o.Loop != nil {
					live = c.in.Or(live, o.Loop.Entry)
				} else {
					live = c.in.Or(live, o.Guard)
				}
			}
			cl := c.loopExpr(l, fr, vars, env, live, nil)
			ne := append(append(cenv{}, env...), fr)
			args := append([]*Expr{c.of(g, env), cl}, c.effects(l.Events, ne)...)
			out = append(out, c.in.mk(Expr{Op: "eloop", Args: args}))
			continue
		}
		cg := c.of(g, env)
		args := []*Expr{cg}
		for _, a := range ev.Args {
			args = append(args, c.under(cg, c.argOf(ev, a, env)))
		}
		if ev.FnV != nil {
			args = append(args, c.under(cg, c.argOf(ev, ev.FnV, env)))
		}
		if ev.Kind == "call" {
			args = append(args, c.afterOf(ev, cg, env))
		}
		if ev.Kind == "go" {
			args = c.applyGo(ev, args)
		}
		if ev.Kind == "go" && isTrue(cg) && len(args) == 2 && args[1].Op == "lam" && args[1].Aux == "0" && onlyStarts(args[1].Args) {
			// starting goroutines from a goroutine of their own
			out = append(out, args[1].Args...)
			continue
		}
		out = append(out, c.in.mk(Expr{Op: "event", Aux: ev.Kind + ":" + ev.Name, Args: args}))
	}
	return c.dropDead(c.mergeEvents(c.hoistAdds(out)))
}

// hoistAdds: a counted loop that begins every round by announcing one more
// worker announces all of them at once.
func (c *Canon) hoistAdds(evs []*Expr) []*Expr {
	var out []*Expr
	for _, x := range evs {
		if x.Op != "eloop" || len(x.Args) < 3 || len(x.Args[1].Args) == 0 {
			out = append(out, x)
			continue
		}
		cond, add := x.Args[1].Args[0], x.Args[2]
		n := c.rounds(cond)
		if n == nil || add.Op != "event" || add.Aux != "call:sync.WaitGroup.Add" || len(add.Args) != 4 || add.Args[0] != cond ||
			add.Args[1].Op != "obj" || hasBinder(add.Args[1]) || hasBinder(add.Args[2]) {
			out = append(out, x)
			continue
		}
		a := append([]*Expr{}, add.Args...)
		a[0], a[2] = x.Args[0], c.in.Mul(add.Args[2], n)
		out = append(out, c.in.mk(Expr{Op: "event", Aux: add.Aux, Args: a}))
		if len(x.Args) > 3 {
			rest := append(append([]*Expr{}, x.Args[:2]...), x.Args[3:]...)
			out = append(out, c.in.mk(Expr{Op: "eloop", Args: rest}))
		}
	}
	return out
}

// rounds of a loop whose number of rounds is fixed when it starts.
func (c *Canon) rounds(cond *Expr) *Expr {
	if cond.Op == "ite" && isTrue(cond.Args[1]) && isFalse(cond.Args[2]) {
		cond = cond.Args[0]
	}
	if cond.Op != "rel" || cond.rel != "<=" || len(cond.Args) != 1 {
		return nil
	}
	f := cond.Args[0]
	if f.Op == "bT" && f.N == 0 {
		return c.in.Lin(nil, nil, new(big.Rat).Add(cond.c0, big.NewRat(1, 1)), types.Typ[types.Int])
	}
	if f.Op != "lin" {
		return nil
	}
	n := c.in.Lin(nil, nil, new(big.Rat).Add(cond.c0, big.NewRat(1, 1)), types.Typ[types.Int])
	one := false
	for i, a := range f.Args {
		switch {
		case a.Op == "bT" && a.N == 0 && f.coef[i].Cmp(big.NewRat(1, 1)) == 0:
			one = true
		case a.Op == "len" && !hasBinder(a) && f.coef[i].Cmp(big.NewRat(-1, 1)) == 0:
			n = c.in.Add(n, a)
		default:
			return nil
		}
	}
	if !one || len(f.Args) > 2 || len(f.Args) == 2 && n.Op == "lin" && n.c0.Sign() != 0 {
		return nil
	}
	return n
}

func hasBinder(x *Expr) bool {
	if x == nil {
		return false
	}
	switch x.Op {
	case "bT", "bS", "bver":
		return true
	}
	for _, a := range x.Args {
		if hasBinder(a) {
			return true
		}
	}
	return false
}

// applyGo puts the arguments of a started function in place of its parameters.
func (c *Canon) applyGo(ev *Event, args []*Expr) []*Expr {
	n := len(args) - 1
	lam := args[n]
	if ev.FnV == nil || lam.Op != "lam" || lam.Aux == "0" || lam.Aux != itoa(n-1) {
		return args
	}
	var fn *ssa.Function
	switch {
	case ev.FnV.Op == "closure":
		fn = ev.FnV.Clo.Fn
	case ev.FnV.Op == "fn":
		fn = ev.FnV.Fn
	default:
		return args
	}
	to := map[string]*Expr{}
	for i, p := range fn.Params {
		to[c.lamParam(i, c.lamDepth()+1, p)] = args[1+i]
	}
	r := c.walk(lam, 0, func(x *Expr, d int) *Expr {
		if x.Op == "param" {
			if a := to[x.Aux]; a != nil {
				return c.lift(a, d)
			}
		}
		return nil
	})
	return []*Expr{args[0], c.in.mk(Expr{Op: "lam", Aux: "0", Args: r.Args, T: types.NewSignatureType(nil, nil, nil, nil, nil, false)})}
}

// lamDepth counts the function values being described, one inside the other.
func (c *Canon) lamDepth() (n int) {
	for k := range c.busy {
		if strings.HasPrefix(k, "lam") {
			n++
		}
	}
	return
}

func (c *Canon) lamParam(i, depth int, p *ssa.Parameter) string {
	return fmt.Sprintf("lam%d.%d:%s", depth, i, typeKey(p.Type()))
}

// onlyStarts: the events do nothing but start goroutines.
func onlyStarts(evs []*Expr) bool {
	for _, ev := range evs {
		switch {
		case ev.Op == "event" && strings.HasPrefix(ev.Aux, "go:"):
		case ev.Op == "eloop" && onlyStarts(ev.Args[2:]):
		default:
			return false
		}
	}
	return len(evs) > 0
}

// dropDead removes stores that are overwritten before anything can look.
func (c *Canon) dropDead(evs []*Expr) []*Expr {
	var out []*Expr
	for i, ev := range evs {
		dead := false
		if ev.Op == "event" && strings.HasPrefix(ev.Aux, "store:") {
			for _, o := range evs[i+1:] {
				if o.Op != "event" || !strings.HasPrefix(o.Aux, "store:") {
					break
				}
				if o.Args[1] == ev.Args[1] && c.in.Implies(ev.Args[0], o.Args[0]) {
					dead = true
					break
				}
			}
		}
		if !dead {
			out = append(out, ev)
		}
	}
	return out
}

// under drops from x what cannot be the case when g holds.
func (c *Canon) under(g, x *Expr) *Expr {
	if x == nil {
		return nil
	}
	switch x.Op {
	case "ite":
		return c.in.SimplifyUnder(g, c.in.Constrain(x, g))
	case "struct":
		args := make([]*Expr, len(x.Args))
		for i, a := range x.Args {
			args[i] = c.under(g, a)
		}
		return c.in.Struct(x.T, args)
	case "obj":
		if len(x.Args) == 1 {
			return c.in.mk(Expr{Op: "obj", Aux: x.Aux, Args: []*Expr{c.under(g, x.Args[0])}, T: x.T})
		}
	}
	return x
}

// mergeEvents joins events of the same kind that exclude each other and have
// no event in between that either could be ordered against.
func (c *Canon) mergeEvents(evs []*Expr) []*Expr {
	in := c.in
	var out []*Expr
next:
	for _, ev := range evs {
		if ev.Op == "event" {
			for j := len(out) - 1; j >= 0; j-- {
				o := out[j]
				if o.Op != "event" || o.Aux != ev.Aux {
					continue
				}
				if len(o.Args) != len(ev.Args) || !in.Disjoint(o.Args[0], ev.Args[0]) {
					break
				}
				g := o.Args[0]
				args := []*Expr{in.Or(g, ev.Args[0])}
				for i := 1; i < len(ev.Args); i++ {
					args = append(args, in.Restrict(in.ITE(g, o.Args[i], ev.Args[i]), args[0]))
				}
				out[j] = in.mk(Expr{Op: "event", Aux: ev.Aux, Args: args})
				continue next
			}
		}
		out = append(out, ev)
	}
	return out
}

func (in *Interner) Disjoint(a, b *Expr) bool { return !Feasible(in.And(a, b)) }
