package main

import "math/big"

// zoneConsistent closes the difference constraints among the facts
// (x - y <= c, x <= c, x >= c): transitive orderings that single intervals
// cannot see.
func (f *Facts) zoneConsistent() bool {
	n := 1
	idx := map[*Expr]int{}
	node := func(x *Expr) int {
		if i, ok := idx[x]; ok {
			return i
		}
		idx[x] = n
		n++
		return n - 1
	}
	type edge struct {
		a, b   int // a - b <= c
		c      *big.Rat
		strict bool
	}
	var es []edge
	cnt := 0
	for form, b := range f.num {
		var x, y int
		scale := ratOne
		switch {
		case form.Op != "lin":
			x, y = node(form), 0
		case len(form.Args) == 1:
			if form.coef[0].Sign() == 0 {
				continue
			}
			x, y = node(form.Args[0]), 0
			scale = form.coef[0]
			if scale.Sign() < 0 {
				x, y = y, x
				scale = new(big.Rat).Neg(scale)
			}
		case len(form.Args) == 2 && new(big.Rat).Add(form.coef[0], form.coef[1]).Sign() == 0:
			x, y = node(form.Args[0]), node(form.Args[1])
			scale = form.coef[0]
			if scale.Sign() < 0 {
				x, y = y, x
				scale = new(big.Rat).Neg(scale)
			}
		default:
			continue
		}
		c0 := ratZero
		if form.c0 != nil {
			c0 = form.c0
		}
		adj := func(v *big.Rat) *big.Rat {
			return new(big.Rat).Quo(new(big.Rat).Sub(v, c0), scale)
		}
		if b.hi != nil {
			es = append(es, edge{x, y, adj(b.hi), b.hiOp})
			cnt++
		}
		if b.lo != nil {
			es = append(es, edge{y, x, new(big.Rat).Neg(adj(b.lo)), b.loOpen})
			cnt++
		}
	}
	if cnt < 2 || n > 40 {
		return true
	}
	for x, i := range idx {
		if lo, ok := atomLo(x); ok {
			es = append(es, edge{0, i, new(big.Rat).Neg(lo), false})
		}
	}
	type w struct {
		c      *big.Rat
		strict bool
	}
	less := func(a, b w) bool {
		k := a.c.Cmp(b.c)
		return k < 0 || k == 0 && a.strict && !b.strict
	}
	d := make([][]*w, n)
	for i := range d {
		d[i] = make([]*w, n)
		d[i][i] = &w{ratZero, false}
	}
	for _, e := range es {
		nw := w{e.c, e.strict}
		if d[e.a][e.b] == nil || less(nw, *d[e.a][e.b]) {
			d[e.a][e.b] = &nw
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if d[i][k] == nil {
				continue
			}
			for j := 0; j < n; j++ {
				if d[k][j] == nil {
					continue
				}
				nw := w{new(big.Rat).Add(d[i][k].c, d[k][j].c), d[i][k].strict || d[k][j].strict}
				if d[i][j] == nil || less(nw, *d[i][j]) {
					d[i][j] = &nw
				}
			}
			if d[i][i].c.Sign() < 0 || d[i][i].c.Sign() == 0 && d[i][i].strict {
				return false
			}
		}
	}
	// excluded values
	for form, b := range f.num {
		if len(b.neq) == 0 {
			continue
		}
		var x, y int
		ok := false
		switch {
		case form.Op != "lin":
			x, y, ok = idx[form], 0, true
		case len(form.Args) == 2 && form.coef[0].Cmp(ratOne) == 0 && form.coef[1].Cmp(ratMinus) == 0:
			x, y, ok = idx[form.Args[0]], idx[form.Args[1]], true
		case len(form.Args) == 2 && form.coef[1].Cmp(ratOne) == 0 && form.coef[0].Cmp(ratMinus) == 0:
			x, y, ok = idx[form.Args[1]], idx[form.Args[0]], true
			nb := b
			nb.neq = nil
			for _, v := range b.neq {
				nb.neq = append(nb.neq, new(big.Rat).Neg(v))
			}
			b = nb
			// form = x - y with x the positive term; values unchanged
			for i := range b.neq {
				b.neq[i] = new(big.Rat).Neg(b.neq[i])
			}
		}
		if !ok || x >= n || y >= n || d[x][y] == nil || d[y][x] == nil {
			continue
		}
		hi, lo := d[x][y].c, new(big.Rat).Neg(d[y][x].c)
		if hi.Cmp(lo) == 0 {
			for _, v := range b.neq {
				if v.Cmp(hi) == 0 {
					return false
				}
			}
		}
	}
	return true
}
