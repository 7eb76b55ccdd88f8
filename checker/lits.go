package main

import (
	"fmt"
	"math/big"
)

// Lit is one decision taken on a path.
type Lit struct {
	E *Expr // rel / eq / isnil / any boolean expression, never "not"
	V bool
}

func (l Lit) String() string {
	if l.V {
		return l.E.String()
	}
	return "!" + l.E.String()
}

// bound is the interval a linear form is confined to.
type bound struct {
	lo, hi       *big.Rat // nil: unbounded
	loOpen, hiOp bool
	neq          []*big.Rat
	integer      bool
}

func (b bound) empty() bool {
	if b.lo == nil || b.hi == nil {
		return false
	}
	c := b.lo.Cmp(b.hi)
	if c > 0 {
		return true
	}
	if c == 0 {
		if b.loOpen || b.hiOp {
			return true
		}
		for _, n := range b.neq {
			if n.Cmp(b.lo) == 0 {
				return true
			}
		}
	}
	return false
}

// Facts is the abstract path condition: intervals of linear forms and truth
// values of boolean atoms.
type Facts struct {
	num  map[*Expr]bound
	bl   map[*Expr]bool
	cst  map[*Expr]*Expr // x == const
	list []Lit
}

func NewFacts() *Facts {
	return &Facts{num: map[*Expr]bound{}, bl: map[*Expr]bool{}, cst: map[*Expr]*Expr{}}
}

func (f *Facts) Clone() *Facts {
	g := &Facts{num: make(map[*Expr]bound, len(f.num)), bl: make(map[*Expr]bool, len(f.bl)), cst: make(map[*Expr]*Expr, len(f.cst))}
	for k, v := range f.num {
		g.num[k] = v
	}
	for k, v := range f.bl {
		g.bl[k] = v
	}
	for k, v := range f.cst {
		g.cst[k] = v
	}
	g.list = f.list[:len(f.list):len(f.list)]
	return g
}

func tightenLo(b bound, c *big.Rat, open bool) bound {
	if b.integer {
		if open {
			c = new(big.Rat).Add(ratFloor(c), ratOne)
			open = false
		} else {
			c = ratCeil(c)
		}
	}
	if b.lo == nil || c.Cmp(b.lo) > 0 || (c.Cmp(b.lo) == 0 && open) {
		b.lo, b.loOpen = c, open
	}
	return b.norm()
}
func tightenHi(b bound, c *big.Rat, open bool) bound {
	if b.integer {
		if open {
			c = new(big.Rat).Sub(ratCeil(c), ratOne)
			open = false
		} else {
			c = ratFloor(c)
		}
	}
	if b.hi == nil || c.Cmp(b.hi) < 0 || (c.Cmp(b.hi) == 0 && open) {
		b.hi, b.hiOp = c, open
	}
	return b.norm()
}

// norm moves integer bounds off excluded points.
func (b bound) norm() bound {
	if !b.integer {
		for _, n := range b.neq {
			if b.lo != nil && n.Cmp(b.lo) == 0 {
				b.loOpen = true
			}
			if b.hi != nil && n.Cmp(b.hi) == 0 {
				b.hiOp = true
			}
		}
		return b
	}
	for ch := true; ch; {
		ch = false
		for _, n := range b.neq {
			if b.lo != nil && n.Cmp(b.lo) == 0 {
				b.lo = new(big.Rat).Add(b.lo, ratOne)
				ch = true
			}
			if b.hi != nil && n.Cmp(b.hi) == 0 {
				b.hi = new(big.Rat).Sub(b.hi, ratOne)
				ch = true
			}
		}
		if b.empty() {
			break
		}
	}
	return b
}

// intrinsic gives the a-priori range of a form.
func intrinsic(form *Expr) bound {
	b := bound{integer: isInteger(form.T)}
	lo := func(e *Expr) (*big.Rat, bool) { return atomLo(e) }
	if form.Op != "lin" {
		if v, ok := lo(form); ok {
			b.lo = v
		}
		return b
	}
	sumLo, sumHi := new(big.Rat), new(big.Rat)
	okLo, okHi := true, true
	for i, a := range form.Args {
		v, ok := lo(a)
		c := form.coef[i]
		if !ok {
			return b
		}
		if c.Sign() > 0 {
			sumLo.Add(sumLo, new(big.Rat).Mul(c, v))
			okHi = false
		} else {
			sumHi.Add(sumHi, new(big.Rat).Mul(c, v))
			okLo = false
		}
	}
	if okLo {
		b.lo = sumLo
	}
	if okHi {
		b.hi = sumHi
	}
	return b
}

func atomLo(e *Expr) (*big.Rat, bool) {
	switch e.Op {
	case "len", "cap", "loopT", "absval", "bT":
		return ratZero, true
	case "at":
		// the number of rounds a loop made is not negative
		if n := len(e.Args); n > 1 && e.Args[n-1].Op == "bT" {
			return ratZero, true
		}
	case "call":
		switch e.Aux {
		case "geom.Distance", "Distance", "math.Abs", "math.Sqrt":
			return ratZero, true
		}
	}
	return nil, false
}

func (f *Facts) bound(form *Expr) bound {
	if b, ok := f.num[form]; ok {
		return b
	}
	b := intrinsic(form)
	return b
}

// full returns the bound of a form, using known bounds of its terms too.
func (f *Facts) full(form *Expr) bound {
	b := f.bound(form)
	if form.Op != "lin" {
		return b
	}
	lo, hi := new(big.Rat), new(big.Rat)
	lok, hok := true, true
	lop, hop := false, false
	for i, a := range form.Args {
		ab := f.bound(a)
		c := form.coef[i]
		l, h, lo1, ho1 := ab.lo, ab.hi, ab.loOpen, ab.hiOp
		if c.Sign() < 0 {
			l, h, lo1, ho1 = ab.hi, ab.lo, ab.hiOp, ab.loOpen
		}
		if l == nil {
			lok = false
		} else {
			lo.Add(lo, new(big.Rat).Mul(c, l))
			lop = lop || lo1
		}
		if h == nil {
			hok = false
		} else {
			hi.Add(hi, new(big.Rat).Mul(c, h))
			hop = hop || ho1
		}
	}
	if lok {
		b = tightenLo(b, lo, lop)
	}
	if hok {
		b = tightenHi(b, hi, hop)
	}
	return b
}

// decideB: does bound b settle (form rel c)?
func decideB(b bound, rel string, c *big.Rat) (val, known bool) {
	switch rel {
	case "<=":
		if b.hi != nil && b.hi.Cmp(c) <= 0 {
			return true, true
		}
		if b.lo != nil && (b.lo.Cmp(c) > 0 || (b.lo.Cmp(c) == 0 && b.loOpen)) {
			return false, true
		}
	case "<":
		if b.hi != nil && (b.hi.Cmp(c) < 0 || (b.hi.Cmp(c) == 0 && b.hiOp)) {
			return true, true
		}
		if b.lo != nil && b.lo.Cmp(c) >= 0 {
			return false, true
		}
	case "==":
		if b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) == 0 && b.lo.Cmp(c) == 0 {
			return true, true
		}
		if b.hi != nil && (b.hi.Cmp(c) < 0 || (b.hi.Cmp(c) == 0 && b.hiOp)) {
			return false, true
		}
		if b.lo != nil && (b.lo.Cmp(c) > 0 || (b.lo.Cmp(c) == 0 && b.loOpen)) {
			return false, true
		}
		for _, n := range b.neq {
			if n.Cmp(c) == 0 {
				return false, true
			}
		}
		if b.integer && !c.IsInt() {
			return false, true
		}
	}
	return false, false
}

// Decide tells whether e is settled by the facts.
func (f *Facts) Decide(e *Expr) (val, known bool) {
	if b, ok := e.BoolConst(); ok {
		return b, true
	}
	switch e.Op {
	case "rel":
		return decideB(f.full(e.Args[0]), e.rel, e.c0)
	case "forall": // nothing to hold for
		if n := e.Args[0]; n.Op == "len" {
			if v, known := decideB(f.full(n), "<=", ratZero); known && v {
				return true, true
			}
		}
	case "eq":
		if e.Args[1].Op == "const" {
			if c, ok := f.cst[e.Args[0]]; ok {
				return c == e.Args[1], true
			}
		}
	}
	if v, ok := f.bl[e]; ok {
		return v, true
	}
	return false, false
}

// Assume adds e==v; false when contradictory. The receiver is modified.
func (f *Facts) Assume(e *Expr, v bool) bool {
	if d, known := f.Decide(e); known {
		return d == v
	}
	f.list = append(f.list, Lit{e, v})
	return f.add(e, v)
}

func (f *Facts) add(e *Expr, v bool) bool {
	switch e.Op {
	case "rel":
		form := e.Args[0]
		b := f.bound(form)
		switch {
		case e.rel == "<=" && v:
			b = tightenHi(b, e.c0, false)
		case e.rel == "<=":
			b = tightenLo(b, e.c0, true)
		case e.rel == "<" && v:
			b = tightenHi(b, e.c0, true)
		case e.rel == "<":
			b = tightenLo(b, e.c0, false)
		case v:
			b = tightenLo(b, e.c0, false)
			b = tightenHi(b, e.c0, false)
		default:
			b.neq = append(append([]*big.Rat{}, b.neq...), e.c0)
			b = b.norm()
		}
		if b.empty() {
			return false
		}
		f.num[form] = b
		return !f.full(form).empty()
	case "forall":
		if n := e.Args[0]; !v && n.Op == "len" {
			b := tightenLo(f.bound(n), ratZero, true)
			if b.empty() {
				return false
			}
			f.num[n] = b
		}
	case "eq":
		if v && e.Args[1].Op == "const" {
			f.cst[e.Args[0]] = e.Args[1]
		}
	}
	f.bl[e] = v
	return true
}

// Implied tells whether the facts entail e==v.
func (f *Facts) Implied(e *Expr, v bool) bool {
	d, k := f.Decide(e)
	return k && d == v
}

// Consistent tells whether all lits can hold together with the facts.
func (f *Facts) Consistent(ls []Lit) bool {
	g := f.Clone()
	for _, l := range ls {
		if !g.Assume(l.E, l.V) {
			return false
		}
	}
	return true
}

func (f *Facts) String() string { return fmt.Sprint(f.list) }
