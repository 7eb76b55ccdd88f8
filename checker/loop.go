package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops are summarised, never unrolled: a fixpoint over one symbolic iteration
// finds which values change from one iteration to the next.  A value that
// changes by a constant becomes init+step*T (T numbers the iterations), a flag
// whose change always ends the loop is turned into an exit edge (so a loop
// steered by a flag and one left by break or return look alike), anything else
// stays a symbol whose next value is recorded.

type carryMode int

const (
	cSym carryMode = iota
	cAffine
	cConst  // threaded: header value is c0 on every iteration
	cConcat // slice that is only appended to: init followed by what the loop added
	cAlias  // always the length of a carried slice (or another counter) plus a constant
)

type carry struct {
	key      string
	phi      *ssa.Phi
	cell     *Expr
	path     []*Expr // field path inside cell
	addr     *Expr   // heap address, the same on every iteration
	init     *Expr
	sym      *Expr
	mode     carryMode
	c0       *Expr
	step     *Expr
	noThread bool
	noLeaf   bool
	noAffine bool
	off      *Expr // constant part of an integer's first value; the symbol is what comes on top
	next     *Expr
	hd       *Expr  // value at the loop head once all is known
	al       *carry // cAlias
	alOff    *Expr
	noAlias  map[*carry]bool
	noNN     bool
	noConcat bool
	nn       bool // pointer that is never nil at the loop head
}

// base of an alias: the length of a slice, or the value of a counter
func (c *carry) measure(e *Engine, v *Expr) *Expr {
	if v == nil {
		return nil
	}
	if isSliceT(c.sym.T) {
		return e.Len(v)
	}
	return v
}

// grows: v is base with elements appended, on every path.
func (e *Engine) grows(v, base *Expr) bool {
	for _, l := range Leaves(v) {
		if e.strip(l, base, base) == nil {
			return false
		}
	}
	return true
}

func (e *Engine) added(v, base, acc *Expr) *Expr {
	return e.in.Map(v, func(l *Expr) *Expr {
		if r := e.strip(l, base, acc); r != nil {
			return r
		}
		return l
	})
}

func (e *Engine) strip(l, base, acc *Expr) *Expr {
	switch {
	case l == base:
		return acc
	case l.Op == "append1":
		if r := e.strip(l.Args[0], base, acc); r != nil {
			return e.Append1(r, l.Args[1], l.T)
		}
	case l.Op == "appends":
		if r := e.strip(l.Args[0], base, acc); r != nil {
			return e.Appends(r, l.Args[1], l.T)
		}
	}
	return nil
}

// after: slices represent counters, and one counter the other, never in a circle
func (c *carry) after(d *carry) bool {
	return !isSliceT(c.sym.T) && c.key > d.key
}

func allNonNil(v *Expr) bool {
	for _, l := range Leaves(v) {
		if !nonNil(l) {
			return false
		}
	}
	return true
}

func (c *carry) head(e *Engine, lp *LoopSum) *Expr {
	switch c.mode {
	case cAffine:
		return e.in.Add(c.init, e.in.Mul(c.step, lp.T))
	case cConst:
		return c.c0
	case cConcat:
		return e.Appends(c.init, c.sym, c.sym.T)
	case cAlias:
		return e.in.Add(c.al.measure(e, c.al.head(e, lp)), c.alOff)
	}
	if c.off != nil {
		return e.in.Add(c.sym, c.off)
	}
	return c.sym
}

func (c *carry) get(e *Engine, s *State) *Expr {
	if c.phi != nil {
		return s.env[c.phi]
	}
	if c.addr != nil {
		return s.hv[c.addr]
	}
	v, ok := s.mem[c.cell]
	if !ok {
		return nil
	}
	return e.project(v, c.path)
}

func (c *carry) set(e *Engine, s *State, v *Expr) {
	if c.phi != nil {
		s.env[c.phi] = v
		return
	}
	if c.addr != nil {
		s.hv[c.addr] = v
		return
	}
	s.mem[c.cell] = e.update(s.mem[c.cell], c.path, v)
}

func (e *Engine) loop(fr *frame, body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, eds []edge, rets *[]retv) []edge {
	s0 := e.join(header, eds)
	if e.shortTrip(s0, header) {
		return e.unroll(fr, body, header, s0, rets)
	}
	key := fmt.Sprintf("%s|%s.%d.loop", e.ctxKey(), header.Parent(), header.Index)
	lp := e.loops[key]
	if lp == nil {
		e.nloop++
		lp = &LoopSum{Key: key, ID: e.nloop, Fn: header.Parent(), Header: header}
		lp.T = e.in.mk(Expr{Op: "loopT", Aux: key, T: types.Typ[types.Int], Loop: lp, N: lp.ID})
		e.loops[key] = lp
	}
	for _, b := range append([]*ssa.BasicBlock{header}, fr.rpo...) {
		if !body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() && !lp.Pos.IsValid() {
				lp.Pos = ins.Pos()
			}
		}
	}
	lp.Entry, lp.In = s0.guard, e.inLoop

	var carried []*carry
	have := map[string]*carry{}
	dropped := map[*Expr]bool{}
	lver := map[string]bool{}
	esc := map[*Expr]bool{}
	add := func(c *carry) {
		c.sym = e.symT("loopsym", key+"/"+c.key, c.init.T, lp, 0)
		if c.phi != nil {
			c.sym = e.symT("loopsym", key+"/"+c.key, c.phi.Type(), lp, 0)
		}
		if _, ok := c.sym.T.Underlying().(*types.Pointer); ok && !c.noNN && allNonNil(c.init) {
			c.nn = true
			c.sym = e.symT("loopsym", key+"/"+c.key+"!nn", c.sym.T, lp, 0)
		}
		if isInteger(c.sym.T) && c.init.Op == "lin" && c.init.c0.Sign() != 0 && c.init.c0.IsInt() {
			c.off = e.in.Lin(nil, nil, c.init.c0, c.init.T)
		}
		// flags and error-like values are first assumed to end the loop when they change
		c.mode = cSym
		if !c.noThread {
			if isBool(c.init.T) {
				c.mode, c.c0 = cConst, e.in.Bool(true)
				if b, ok := c.init.BoolConst(); ok {
					c.c0 = e.in.Bool(b)
				}
			} else if c.init.Op == "nil" && !isSliceT(c.init.T) {
				c.mode, c.c0 = cConst, c.init
			}
		}
		have[c.key] = c
		carried = append(carried, c)
	}

	var exits []edge
	var sb *State
	var evs []*Event
	for round := 0; ; round++ {
		if round > 60 {
			e.fail("loop at %s does not stabilise", e.p.Pos(lp.Pos))
		}
		h := s0.clone()
		for _, c := range carried {
			c.set(e, h, c.head(e, lp))
		}
		for k := range dropped {
			delete(h.hv, k)
		}
		for c := range lver {
			h.ver[c] = e.in.mk(Expr{Op: "ver", Aux: "loop:" + key + "§" + c, Loop: lp})
			h.last[c] = e.token("loop", nil)
		}
		for a := range esc {
			h.esc[a] = true
		}
		// entry partition of threaded flags that start undecided
		exits = nil
		retry := false
		evs = nil
		savedEv, savedIn := e.events, e.inLoop
		e.events = &evs
		for _, c := range carried {
			if c.mode != cConst || c.init == c.c0 {
				continue
			}
			p := e.in.Not(e.in.Eq(c.init, c.c0))
			g := e.in.And(h.guard, p)
			if isFalse(g) || !Feasible(g) {
				continue
			}
			out, ok := e.peel(fr, body, header, e.restrictTo(h, g, c, c.init), "in", rets)
			if !ok {
				c.mode, c.noThread = cSym, true
				retry = true
				break
			}
			exits = append(exits, out...)
			h.guard = e.in.And(h.guard, e.in.Not(p))
		}
		if retry {
			e.events = savedEv
			continue
		}
		e.inLoop = lp
		out := e.region(fr, body, header, h, rets)
		var backs []*State
		for i := range out {
			if out[i].to == header {
				e.setPhis(header, &out[i])
				backs = append(backs, out[i].st)
			} else {
				exits = append(exits, out[i])
			}
		}
		sb = nil
		if len(backs) > 0 {
			gs, g := e.gates(backs)
			sb = e.mergeStates(backs, gs, g, key+":back")
			if !Feasible(sb.guard) {
				sb = nil
			}
		}
		if sb == nil {
			e.events, e.inLoop = savedEv, savedIn
			break
		}
		for _, c := range carried {
			if c.mode != cConst {
				continue
			}
			next := c.get(e, sb)
			if next == nil || next == c.c0 {
				continue
			}
			p := e.in.Not(e.in.Eq(next, c.c0))
			g := e.in.And(sb.guard, p)
			if !isFalse(g) && Feasible(g) {
				out, ok := e.peel(fr, body, header, e.restrictTo(sb, g, c, next), "thr", rets)
				if !ok {
					c.mode, c.noThread = cSym, true
					retry = true
					break
				}
				exits = append(exits, out...)
			}
			g = e.in.And(sb.guard, e.in.Not(p))
			if isFalse(g) || !Feasible(g) {
				sb = nil
				break
			}
			sb = e.restrictTo(sb, g, nil, nil)
		}
		// a constant that ends the loop is a way to leave it
		for _, c := range carried {
			if sb == nil || c.mode != cSym || c.noLeaf {
				continue
			}
			next := c.get(e, sb)
			if next == nil || next.Op != "ite" {
				continue
			}
			for _, l := range Leaves(next) {
				if sb == nil || !stopValue(l) {
					continue
				}
				sel := e.in.Selects(next, l)
				g := e.in.And(sb.guard, sel)
				if isFalse(g) || !Feasible(g) {
					continue
				}
				v := l
				if isSliceT(l.T) {
					v = e.in.mk(Expr{Op: "slicelit", T: l.T})
				}
				st := e.restrictTo(sb, g, nil, nil)
				c.set(e, st, v)
				out, ok := e.peel(fr, body, header, st, "stop", rets)
				if !ok {
					c.noLeaf = true
					break
				}
				exits = append(exits, out...)
				g = e.in.And(sb.guard, e.in.Not(sel))
				if isFalse(g) || !Feasible(g) {
					sb = nil
					break
				}
				sb = e.restrictTo(sb, g, nil, nil)
				next = c.get(e, sb)
			}
		}
		e.events, e.inLoop = savedEv, savedIn
		if retry {
			continue
		}
		if sb == nil {
			break
		}
		changed := false
		// values of known carried variables
		for i := 0; i < len(carried); i++ {
			c := carried[i]
			c.next = c.get(e, sb)
			if c.addr != nil && c.next == nil { // something else may write there
				dropped[c.addr] = true
				carried = append(carried[:i:i], carried[i+1:]...)
				i--
				changed = true
			}
		}
		for _, c := range carried {
			switch c.mode {
			case cConst:
				if c.next != c.c0 {
					if d := e.in.SimplifyUnder(sb.guard, c.next); d == c.c0 {
						continue
					}
					c.mode, c.noThread = cSym, true
					changed = true
				}
			case cConcat:
				if c.next == nil || !e.grows(c.next, c.head(e, lp)) {
					c.mode, c.noConcat = cSym, true
					changed = true
				}
			case cAlias:
				w := c.al.measure(e, c.al.next)
				if c.al.mode != cSym {
					w = nil
				}
				if c.al.next == nil {
					w = c.al.measure(e, c.al.get(e, sb))
				}
				if w == nil || c.next == nil || !e.in.Implies(sb.guard, e.in.Rel(c.next, "==", e.in.Add(w, c.alOff))) {
					c.noAlias[c.al] = true
					c.mode, c.al = cSym, nil
					changed = true
				}
			case cSym:
				if c.nn && (c.next == nil || !allNonNil(e.in.SimplifyUnder(sb.guard, c.next))) {
					c.nn, c.noNN = false, true
					c.sym = e.symT("loopsym", key+"/"+c.key, c.sym.T, lp, 0)
					changed = true
				}
			case cAffine:
				if c.next == nil || c.next != e.in.Add(c.head(e, lp), c.step) {
					c.mode, c.noAffine = cSym, true
					changed = true
				}
			}
		}
		// newly discovered ones: those an iteration that goes on may change
		same := func(x, y *Expr) bool {
			if x == y {
				return true
			}
			if x == nil || y == nil || x.Op != "ite" && y.Op != "ite" {
				return false
			}
			return e.in.SimplifyUnder(sb.guard, x) == e.in.SimplifyUnder(sb.guard, y)
		}
		for _, ins := range header.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			k := "phi." + phi.Name()
			if have[k] != nil {
				continue
			}
			if !same(sb.env[phi], h.env[phi]) {
				changed = true
				add(&carry{key: k, phi: phi, init: s0.env[phi]})
			}
		}
		for a, hc := range h.mem {
			nc, ok := sb.mem[a]
			if !ok || nc == hc {
				continue
			}
			e.diff(hc, nc, derefT(a.T), nil, func(path []*Expr, name string) {
				k := "mem." + a.Aux + name
				if have[k] != nil || same(e.project(hc, path), e.project(nc, path)) {
					return
				}
				changed = true
				add(&carry{key: k, cell: a, path: path, init: e.project(s0.mem[a], path)})
			})
		}
		for k, v := range h.hv {
			if sb.hv[k] != v && !dropped[k] && have["hv."+itoa(k.id)] == nil {
				changed = true
				if nv := sb.hv[k]; nv == nil || nv.T == nil || dependsOn(k, lp) || s0.hv[k] == nil {
					dropped[k] = true
					continue
				}
				add(&carry{key: "hv." + itoa(k.id), addr: k, init: s0.hv[k], noThread: true, noLeaf: true})
			}
		}
		for _, k := range sortedAddrs(sb.hv) {
			v := sb.hv[k]
			if h.hv[k] != nil || dropped[k] || have["hv."+itoa(k.id)] != nil {
				continue
			}
			if v == nil || v.T == nil || k.Op == "ite" || dependsOn(k, lp) {
				continue
			}
			if _, st := v.T.Underlying().(*types.Struct); st {
				continue
			}
			changed = true
			add(&carry{key: "hv." + itoa(k.id), addr: k, init: e.load(s0, k, v.T), noThread: true, noLeaf: true})
		}
		for c, v := range sb.ver {
			if h.ver[c] != v && !lver[c] {
				lver[c] = true
				changed = true
			}
		}
		for a := range sb.esc {
			if _, ok := s0.mem[a]; ok && !h.esc[a] {
				esc[a] = true
				changed = true
			}
		}
		if changed {
			continue
		}
		// induction variables
		for _, c := range carried {
			if c.mode != cSym || c.noAffine || !isNumeric(c.sym.T) || c.next == nil || c.next.Op == "ite" {
				continue
			}
			d := e.in.Sub(c.next, c.head(e, lp))
			if _, ok := d.NumConst(); ok || !dependsOn(d, lp) {
				c.mode, c.step = cAffine, d
				changed = true
			}
		}
		for _, c := range carried {
			if changed || c.mode != cSym || c.noConcat || !isSliceT(c.sym.T) || c.next == nil || IsEmptySlice(c.init) || c.init.Op == "ite" {
				continue
			}
			if c.next != c.sym && e.grows(c.next, c.sym) {
				c.mode = cConcat
				changed = true
			}
		}
		// counters that always equal another measure
		for _, c := range carried {
			if changed || c.mode != cSym || !isInteger(c.sym.T) || c.next == nil {
				continue
			}
			for _, w := range carried {
				if w == c || w.mode != cSym || w.next == nil || c.noAlias[w] || !(isSliceT(w.sym.T) || isInteger(w.sym.T)) || w.after(c) {
					continue
				}
				off := e.in.Sub(c.init, w.measure(e, w.init))
				if _, ok := off.NumConst(); !ok {
					continue
				}
				if c.noAlias == nil {
					c.noAlias = map[*carry]bool{}
				}
				if e.in.Implies(sb.guard, e.in.Or(e.in.Rel(c.head(e, lp), "!=", e.in.Add(w.measure(e, w.head(e, lp)), off)), e.in.Rel(c.next, "==", e.in.Add(w.measure(e, w.next), off)))) {
					c.mode, c.al, c.alOff = cAlias, w, off
					changed = true
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	lp.Vars, lp.Exits = nil, nil
	for _, c := range carried {
		c.hd = c.head(e, lp)
		if c.mode == cConcat {
			c.next = e.added(c.next, c.head(e, lp), c.sym)
			c.init = e.in.mk(Expr{Op: "slicelit", T: c.sym.T})
			lp.Vars = append(lp.Vars, &LoopVar{Key: c.key, Sym: c.sym, Init: c.init, Next: c.next, Res: c.sym})
			continue
		}
		init, next := c.init, c.next
		if c.mode == cSym && c.off != nil && next != nil {
			init, next = e.in.Sub(init, c.off), e.in.Sub(next, c.off)
		}
		lp.Vars = append(lp.Vars, &LoopVar{Key: c.key, Sym: c.sym, Init: init, Next: next, Res: c.head(e, lp), Step: c.step})
	}
	lp.Back = e.in.Bool(false)
	lp.Objs = map[*Expr]*Expr{}
	if sb != nil {
		lp.Back = sb.guard
		for a, v := range sb.mem {
			if _, old := s0.mem[a]; !old {
				lp.Objs[a] = v
			}
		}
	}
	lp.Events = evs
	lp.ExitG = e.in.Bool(false)
	for _, x := range exits {
		lp.Exits = append(lp.Exits, LoopExit{Guard: x.st.guard, From: x.from, To: x.to, Next: x.thr})
		lp.ExitG = e.in.Or(lp.ExitG, x.st.guard)
	}
	// the loop ends one way or another: what all ways of leaving share says nothing
	if !isFalse(lp.ExitG) {
		for i := range exits {
			if r := e.in.Restrict(exits[i].st.guard, lp.ExitG); isTrue(r) {
				st := exits[i].st.clone()
				st.guard = lp.Entry
				exits[i].st = st
			}
		}
	}
	// which way was taken shows in the counter, when that decides it
	if len(exits) > 1 {
		for i := range exits {
			g := exits[i].st.guard
			w := e.in.dropAtoms(g, func(a *Expr) bool { return !counts(a, lp) || !dependsOn(a, lp) })
			w = e.in.And(lp.Entry, w)
			if isTrue(w) || w == lp.Entry || !e.in.Implies(e.in.And(w, lp.ExitG), g) {
				w = e.in.dropAtoms(g, func(a *Expr) bool { return dependsOn(a, lp) && !counts(a, lp) })
			}
			if w != g && !isTrue(w) && e.in.Implies(e.in.And(w, lp.ExitG), g) {
				st := e.restrictTo(exits[i].st, g, nil, nil)
				st.guard = w
				exits[i].st = st
			}
		}
	}
	sunk := e.sink(lp, carried, exits)
	if len(lver) > 0 {
		for i := range exits {
			st := exits[i].st.clone()
			for c := range lver {
				st.last[c] = e.token("loop", nil)
			}
			exits[i].st = st
		}
	}
	st := &State{guard: lp.Entry}
	ev := e.emit(st, &Event{Kind: "loop", Name: "loop", Loop: lp}, header.Instrs[0])
	ev.Pos = lp.Pos
	for _, c := range sunk {
		s := exits[0].st.clone()
		s.guard = lp.Entry
		e.push("sunk" + c.key)
		x := e.emit(s, &Event{Kind: "store", Name: storeName(c.addr), Args: []*Expr{c.addr, c.hd}}, header.Instrs[0])
		e.pop()
		x.Pos = lp.Pos
	}
	return exits
}

// shortTrip: the loop counts from a constant up to a constant or to the length of
// something of known length, at most four rounds.
func (e *Engine) shortTrip(s0 *State, header *ssa.BasicBlock) bool {
	br, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS && cond.Op != token.LEQ {
		return false
	}
	var limit int64
	if hi, ok := cond.Y.(*ssa.Const); ok {
		if hi.Value == nil || hi.Value.Kind() != constant.Int {
			return false
		}
		limit = hi.Int64()
	} else if x := s0.env[cond.Y]; x != nil {
		if limit, ok = x.IntConst(); !ok {
			return false
		}
	} else if c, ok := cond.Y.(*ssa.Call); ok && c.Block() == header && len(c.Call.Args) == 1 {
		b, ok := c.Call.Value.(*ssa.Builtin)
		x := s0.env[c.Call.Args[0]]
		if p, isPhi := c.Call.Args[0].(*ssa.Phi); !ok || b.Name() != "len" || x == nil || isPhi && p.Block() == header {
			return false
		}
		if limit, ok = e.Len(x).IntConst(); !ok {
			return false
		}
	} else {
		return false
	}
	v := cond.X
	step := func(v ssa.Value) (ssa.Value, int64) {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
				return b.X, k.Int64()
			}
		}
		return v, 0
	}
	base, off := step(v)
	phi, ok := base.(*ssa.Phi)
	if !ok || phi.Block() != header {
		return false
	}
	var lo, inc int64
	var haveLo, haveInc bool
	for _, x := range phi.Edges {
		if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			if haveLo && lo != k.Int64() {
				return false
			}
			lo, haveLo = k.Int64(), true
		} else if y, d := step(x); y == phi {
			if haveInc && inc != d {
				return false
			}
			inc, haveInc = d, true
		} else {
			return false
		}
	}
	n := limit - lo - off
	if cond.Op == token.LEQ {
		n++
	}
	return haveLo && haveInc && inc == 1 && n >= 0 && n <= 4
}

func (e *Engine) unroll(fr *frame, body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, st *State, rets *[]retv) []edge {
	var exits []edge
	for k := 0; ; k++ {
		if k > 6 {
			e.fail("loop at %s does not unroll", e.p.Pos(header.Instrs[0].Pos()))
		}
		e.push(fmt.Sprintf("round%d.%s", k, e.p.siteKey(header.Instrs[0])))
		out := e.region(fr, body, header, st, rets)
		e.pop()
		var backs []*State
		for i := range out {
			if out[i].to == header {
				e.setPhis(header, &out[i])
				if Feasible(out[i].st.guard) {
					backs = append(backs, out[i].st)
				}
			} else if Feasible(out[i].st.guard) {
				exits = append(exits, out[i])
			}
		}
		if len(backs) == 0 {
			return exits
		}
		gs, g := e.gates(backs)
		st = e.mergeStates(backs, gs, g, fmt.Sprintf("%s|%s.%d.round%d", e.ctxKey(), header.Parent(), header.Index, k))
	}
}

// counts: a compares the counter with something the loop does not change.
func counts(a *Expr, lp *LoopSum) bool {
	if a.Op != "rel" {
		return false
	}
	var rec func(x *Expr) bool
	rec = func(x *Expr) bool {
		if x == nil || x == lp.T || !dependsOn(x, lp) {
			return true
		}
		if x.Op != "lin" && x.Op != "rel" {
			return false
		}
		for _, y := range x.Args {
			if !rec(y) {
				return false
			}
		}
		return true
	}
	return rec(a)
}

func sortedAddrs(m map[*Expr]*Expr) []*Expr {
	ks := make([]*Expr, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// sink moves the stores of a loop that does nothing else behind it: a field
// built up in place and one assigned when all is done are the same.
func (e *Engine) sink(lp *LoopSum, carried []*carry, exits []edge) []*carry {
	var cs []*carry
	if len(exits) == 0 {
		return nil
	}
	at := map[*Expr]*carry{}
	for _, c := range carried {
		if c.addr == nil {
			continue
		}
		ok := true
		for _, x := range exits {
			ok = ok && x.st.hv[c.addr] == c.hd
		}
		if ok {
			at[c.addr] = c
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	var rest []*Event
	for _, ev := range lp.Events {
		switch {
		case ev.Kind == "store" && at[ev.Args[0]] != nil:
			continue
		case pureEvent(ev) || ev.Kind == "store":
		default:
			return nil
		}
		rest = append(rest, ev)
	}
	lp.Events = rest
	return cs
}

// stopValue: a value that can be meant to make the loop's condition fail.
func stopValue(l *Expr) bool {
	if l.Op == "nil" || IsEmptySlice(l) {
		return true
	}
	_, ok := l.NumConst()
	return ok
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// restrictTo narrows a state to guard g, with carried variable c set to v.
func (e *Engine) restrictTo(s *State, g *Expr, c *carry, v *Expr) *State {
	n := s.clone()
	n.guard = g
	if c != nil {
		c.set(e, n, e.in.SimplifyUnder(g, v))
	}
	for k, x := range n.env {
		if x.Op == "ite" {
			n.env[k] = e.in.Restrict(x, g)
		}
	}
	for k, x := range n.mem {
		n.mem[k] = e.in.Restrict(x, g)
	}
	return n
}

// peel runs the loop header for a state that is expected to leave the loop at
// once without any effect; ok tells whether it does.
func (e *Engine) peel(fr *frame, body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, st *State, tag string, rets *[]retv) ([]edge, bool) {
	e.push(tag + e.p.siteKey(header.Instrs[0]))
	defer e.pop()
	var evs []*Event
	saved := e.events
	e.events = &evs
	nrets := len(*rets)
	out := e.region(fr, body, header, st, rets)
	e.events = saved
	ok := len(evs) == 0 && len(*rets) == nrets
	*rets = (*rets)[:nrets]
	for i := range out {
		if out[i].to == header && Feasible(out[i].st.guard) {
			ok = false
		}
		out[i].thr = true
	}
	return out, ok
}

// diff reports the struct leaves in which two contents differ.
func (e *Engine) diff(a, b *Expr, t types.Type, path []*Expr, found func([]*Expr, string)) {
	e.diff1(a, b, t, path, "", found)
}
func (e *Engine) diff1(a, b *Expr, t types.Type, path []*Expr, name string, found func([]*Expr, string)) {
	if a == b {
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.NumFields() <= 24 {
		for i := 0; i < st.NumFields(); i++ {
			p := append(append([]*Expr{}, path...), e.in.mk(Expr{Op: "faddr", Aux: typeName(t) + "." + fmt.Sprint(i), N: i, Args: []*Expr{e.in.mk(Expr{Op: "self", T: types.NewPointer(t)})}, T: types.NewPointer(st.Field(i).Type())}))
			e.diff1(e.in.Field(a, i), e.in.Field(b, i), st.Field(i).Type(), p, name+"."+st.Field(i).Name(), found)
		}
		return
	}
	found(path, name)
}

// dependsOn: does x vary from one iteration of lp to the next?
func dependsOn(x *Expr, lp *LoopSum) bool {
	seen := map[*Expr]bool{}
	var rec func(x *Expr) bool
	rec = func(x *Expr) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if (x.Op == "loopsym" || x.Op == "loopT" || x.Op == "ver") && x.Loop != nil && within(x.Loop, lp) {
			return true
		}
		if (x.Op == "res" || x.Op == "out") && x.Ev != nil && x.Ev.In != nil && within(x.Ev.In, lp) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(x)
}

// within: is loop a nested in (or equal to) b?
func within(a, b *LoopSum) bool {
	for ; a != nil; a = a.In {
		if a == b {
			return true
		}
	}
	return false
}
