package main

import (
	"golang.org/x/tools/go/ssa"
)

// freshness: addresses inside storage allocated by the running activation.
// Writing there does not change anything that existed before the call.
type freshness struct {
	root *ssa.Function
	memo map[ssa.Value]bool
	in   map[*ssa.Function]bool
	mk   map[*ssa.Function][]*ssa.MakeClosure
	call map[*ssa.Function][]ssa.CallInstruction // static call sites
	val  map[*ssa.Function]bool                  // used as a value: callers unknown
}

func (p *Program) newFreshness(root *ssa.Function, reach map[*ssa.Function]bool) *freshness {
	f := &freshness{root: root, memo: map[ssa.Value]bool{}, in: reach, mk: map[*ssa.Function][]*ssa.MakeClosure{}, call: map[*ssa.Function][]ssa.CallInstruction{}, val: map[*ssa.Function]bool{}}
	for g := range reach {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MakeClosure); ok {
					h := m.Fn.(*ssa.Function)
					f.mk[h] = append(f.mk[h], m)
					f.val[h] = true
				}
				ci, isCall := ins.(ssa.CallInstruction)
				if isCall {
					if h := ci.Common().StaticCallee(); h != nil {
						f.call[h] = append(f.call[h], ci)
					}
					if ci.Common().IsInvoke() {
						for _, h := range p.Impls(ci.Common()) {
							f.val[h] = true
						}
					}
				}
				for i, op := range ins.Operands(nil) {
					if op == nil || *op == nil || isCall && i == 0 && !ci.Common().IsInvoke() {
						continue
					}
					if h, ok := (*op).(*ssa.Function); ok {
						f.val[h] = true
					}
				}
			}
		}
	}
	return f
}

func (f *freshness) fresh(v ssa.Value) bool {
	if r, ok := f.memo[v]; ok {
		return r
	}
	f.memo[v] = true // cycles through phis
	r := false
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		r = true
	case *ssa.FieldAddr:
		r = f.fresh(x.X)
	case *ssa.IndexAddr:
		r = f.fresh(x.X)
	case *ssa.Slice:
		r = f.fresh(x.X)
	case *ssa.ChangeType:
		r = f.fresh(x.X)
	case *ssa.Const:
		r = x.IsNil()
	case *ssa.Phi:
		r = true
		for _, e := range x.Edges {
			if !f.fresh(e) {
				r = false
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			r = f.freshBase(x.Call.Args[0])
		}
		if h := x.Call.StaticCallee(); h != nil && h.Signature.Results().Len() == 1 {
			r = f.freshResult(h, 0)
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if h := cl.Call.StaticCallee(); h != nil {
				r = f.freshResult(h, x.Index)
			}
		}
	case *ssa.Parameter:
		h := x.Parent()
		if h == f.root || f.val[h] || len(f.call[h]) == 0 {
			break
		}
		r = true
		for k, pr := range h.Params {
			if pr != x {
				continue
			}
			for _, ci := range f.call[h] {
				if k >= len(ci.Common().Args) || !f.fresh(ci.Common().Args[k]) {
					r = false
				}
			}
		}
	case *ssa.UnOp:
		// a local variable cell that only ever holds fresh storage
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op.String() == "*" {
			r = f.freshCell(al)
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op.String() == "*" {
			cells := f.bound(fv)
			r = len(cells) > 0
			for _, c := range cells {
				al, ok := c.(*ssa.Alloc)
				if !ok || !f.freshCell(al) {
					r = false
				}
			}
		}
	case *ssa.FreeVar:
		h := x.Parent()
		if h == f.root || len(f.mk[h]) == 0 {
			break
		}
		r = true
		k := -1
		for i, fv := range h.FreeVars {
			if fv == x {
				k = i
			}
		}
		for _, m := range f.mk[h] {
			if k < 0 || !f.fresh(m.Bindings[k]) {
				r = false
			}
		}
	}
	f.memo[v] = r
	if !r { // cyclic assumptions made on the way may be wrong
		for k := range f.memo {
			if f.memo[k] && k != v {
				delete(f.memo, k)
			}
		}
	}
	return r
}

func (f *freshness) freshResult(h *ssa.Function, i int) bool {
	if !f.in[h] || len(h.Blocks) == 0 {
		return false
	}
	for _, b := range h.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (i >= len(rt.Results) || !f.fresh(rt.Results[i])) {
			return false
		}
	}
	return true
}

// freshBase: appending to it cannot write shared elements.
func (f *freshness) freshBase(v ssa.Value) bool {
	if s, ok := v.(*ssa.Slice); ok && s.Max != nil && s.High != nil && sameSSA(s.Max, s.High) {
		return true
	}
	return f.fresh(v)
}

func sameSSA(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

func (f *freshness) freshCell(al *ssa.Alloc) bool {
	return f.holdsFresh(al, 3)
}

// holdsFresh: everything stored in the cell, here or by the closures that
// capture it, is fresh.
func (f *freshness) holdsFresh(cell ssa.Value, depth int) bool {
	for _, r := range *cell.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == cell && !f.fresh(y.Val) {
				return false
			}
			if y.Val == cell {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g, ok := y.Fn.(*ssa.Function)
			if !ok || depth == 0 {
				return false
			}
			for i, b := range y.Bindings {
				if b == cell && !f.holdsFresh(g.FreeVars[i], depth-1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// bound: what a captured variable stands for, through nested closures.
func (f *freshness) bound(fv *ssa.FreeVar) []ssa.Value {
	h := fv.Parent()
	if h == f.root {
		return nil
	}
	var out []ssa.Value
	for i, v := range h.FreeVars {
		if v != fv {
			continue
		}
		for _, m := range f.mk[h] {
			if o, ok := m.Bindings[i].(*ssa.FreeVar); ok {
				b := f.bound(o)
				if len(b) == 0 {
					return nil
				}
				out = append(out, b...)
				continue
			}
			out = append(out, m.Bindings[i])
		}
	}
	return out
}

type paramKey struct {
	f *ssa.Function
	i int
}

// Retains: the pointer handed to f as parameter i may outlive the call.
func (p *Program) Retains(f *ssa.Function, i int) bool {
	k := paramKey{f, i}
	if r, ok := p.retain[k]; ok {
		return r
	}
	if p.retain == nil {
		p.retain = map[paramKey]bool{}
	}
	if f == nil || len(f.Blocks) == 0 || i >= len(f.Params) {
		return true
	}
	p.retain[k] = false // recursion adds nothing by itself
	seen := map[ssa.Value]bool{}
	var keeps func(v ssa.Value) bool
	keeps = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
			case *ssa.UnOp:
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi, *ssa.ChangeType:
				if keeps(r.(ssa.Value)) {
					return true
				}
			case *ssa.Call:
				h := x.Call.StaticCallee()
				if h == nil || x.Call.Value == v {
					return true
				}
				for j, a := range x.Call.Args {
					if a == v && p.Retains(h, j) {
						return true
					}
				}
			default:
				return true
			}
		}
		return false
	}
	r := keeps(f.Params[i])
	p.retain[k] = r
	return r
}

// ReturnsParam: result i of f is always the value of the returned parameter
// index, or -1.
func (p *Program) ReturnsParam(f *ssa.Function, i int) int {
	k := paramKey{f, i}
	if r, ok := p.returns[k]; ok {
		return r
	}
	if p.returns == nil {
		p.returns = map[paramKey]int{}
	}
	p.returns[k] = -1
	if f == nil || len(f.Blocks) == 0 {
		return -1
	}
	var src func(v ssa.Value) int
	src = func(v ssa.Value) int {
		switch x := v.(type) {
		case *ssa.Parameter:
			for j, q := range f.Params {
				if q == x {
					return j
				}
			}
		case *ssa.Call:
			if h := x.Call.StaticCallee(); h != nil && h.Signature.Results().Len() == 1 {
				if j := p.ReturnsParam(h, 0); j >= 0 && j < len(x.Call.Args) {
					return src(x.Call.Args[j])
				}
			}
		}
		return -1
	}
	at := -2
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if i >= len(r.Results) {
			return -1
		}
		j := src(r.Results[i])
		if j < 0 || at >= 0 && at != j {
			return -1
		}
		at = j
	}
	if at < 0 {
		return -1
	}
	p.returns[k] = at
	return at
}
