package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	extraRules["C30"] = append(extraRules["C30"], ruleLocks)
	extraRules["C16"] = append(extraRules["C16"], ruleLocks)
}

// isLockOp: Lock, Unlock, RLock or RUnlock of a mutex.
func isLockOp(f *ssa.Function) bool {
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock":
	default:
		return false
	}
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	return isMutex(derefT(r.Type())) || isSyncLocker(r.Type())
}

func isMutex(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func isSyncLocker(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Locker"
}

// hold: how much of the lock is certainly held.
const (
	free = iota
	shared
	exclusive
)

// lockState: the lock certainly held and the unlocks deferred.
type lockState struct {
	held     int
	deferred int       // 0, or the mode a deferred call releases
	mixed    bool      // held on some paths only
	owner    ssa.Value // the structure whose mutex it is, where that is known
}

func (a lockState) meet(b lockState) lockState {
	if a.held != b.held || a.deferred != b.deferred {
		a.mixed = true
	}
	if b.held < a.held {
		a.held = b.held
	}
	if b.deferred < a.deferred {
		a.deferred = b.deferred
	}
	a.mixed = a.mixed || b.mixed
	if a.owner != b.owner {
		a.owner = nil
	}
	return a
}

// lockOwner: the structure a mutex, or a guarded field, is part of.
func lockOwner(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.Parameter:
			return x
		}
		return nil
	}
}

// helper: a function of the module known by all its call sites, so that what
// it owes is judged where it is called.
func helper(f *ssa.Function) bool {
	return f != nil && f.Blocks != nil && f.Parent() == nil && !otherUses[f] && len(callSites[f]) > 0 &&
		!(f.Object() != nil && f.Object().Exported()) && curProg.InRepo(f)
}

// opsLocks: f, or a function of the module it calls, takes or gives back a lock.
func opsLocks(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || f.Blocks == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && (isLockOp(g) || curProg.InRepo(g) && opsLocks(g, seen)) {
					return true
				}
			}
		}
	}
	return false
}

// after: the state a call to helper g leaves, from the state s before it.
func (l *lockFlow) after(g *ssa.Function, args []ssa.Value, s lockState) lockState {
	if l.depth > 6 {
		return s
	}
	in := lockState{held: s.held, mixed: s.mixed}
	for k, a := range args {
		if s.owner != nil && lockOwner(a) == s.owner && k < len(g.Params) {
			in.owner = g.Params[k]
		}
	}
	o := &lockFlow{c: l.c, rule: l.rule, fn: g, depth: l.depth + 1}
	out, first := in, true
	ins := o.solve(in)
	for _, b := range g.Blocks {
		t, ok := ins[b]
		if !ok {
			continue
		}
		for _, i := range b.Instrs {
			if _, ret := i.(*ssa.Return); ret {
				if t.deferred != 0 && t.deferred == t.held {
					t.held = free
				}
				t.deferred = 0
				if first {
					out, first = t, false
				} else {
					out = out.meet(t)
				}
			}
			t = o.step(t, i)
		}
	}
	s.held, s.mixed = out.held, out.mixed
	if out.held == free {
		s.owner = nil
	} else {
		own := out.owner
		s.owner = nil
		for k, q := range g.Params {
			if q == own && k < len(args) {
				s.owner = lockOwner(args[k])
			}
		}
	}
	return s
}

// locksAgain: g takes the lock of its k-th parameter though it is held already.
func locksAgain(g *ssa.Function, k int, seen map[*ssa.Function]bool) bool {
	if g == nil || g.Blocks == nil || k >= len(g.Params) || seen[g] || !curProg.InRepo(g) {
		return false
	}
	seen[g] = true
	o := &lockFlow{fn: g, depth: 1}
	ins := o.solve(lockState{held: exclusive, owner: g.Params[k]})
	for _, b := range g.Blocks {
		s, ok := ins[b]
		if !ok {
			continue
		}
		for _, i := range b.Instrs {
			if s.again(i, seen) {
				return true
			}
			s = o.step(s, i)
		}
	}
	return false
}

// again: the instruction takes the lock s holds.
func (s lockState) again(i ssa.Instruction, seen map[*ssa.Function]bool) bool {
	x, ok := i.(*ssa.Call)
	if !ok || s.held == free || s.mixed || s.owner == nil {
		return false
	}
	g := x.Call.StaticCallee()
	if g == nil {
		return false
	}
	for k, a := range x.Call.Args {
		if lockOwner(a) != s.owner {
			continue
		}
		if isLockOp(g) {
			return !strings.HasSuffix(g.Name(), "Unlock")
		}
		if locksAgain(g, k, seen) {
			return true
		}
	}
	return false
}

// mayFail: the helper asserts a type with nothing deferred to give the lock back.
func mayFail(g *ssa.Function, depth int) bool {
	if !helper(g) || depth > 6 {
		return false
	}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.TypeAssert:
				if !x.CommaOk {
					return true
				}
			case *ssa.Call:
				if mayFail(x.Call.StaticCallee(), depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// ruleLocks: whatever a structure with a mutex keeps beside it is only touched
// under it, changed only under its exclusive mode, and every function gives
// back what it takes, also when it fails.
func ruleLocks(c *Ctx) {
	const rule = "lock discipline"
	scanCalls(c.P.Prog)
	var reach map[*ssa.Function]bool
	if c.Prop == "C16" { // the parallel phases
		reach = c.reachMain(rule)
	}
	for _, f := range c.P.Fns {
		if reach != nil && !reach[f] {
			continue
		}
		if lk := (&lockFlow{c: c, rule: rule, fn: f}); lk.relevant() {
			lk.run()
		}
	}
	if c.Prop == "C30" {
		c.AtLeast(rule, 8)
	}
}

type lockFlow struct {
	c    *Ctx
	rule string
	fn   *ssa.Function
	// how many helpers deep
	depth int
}

// guardedField: x.f where x's structure carries a mutex and f is another field.
func guardedField(v ssa.Value) (*ssa.FieldAddr, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	st, ok := derefT(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || isMutex(st.Field(fa.Field).Type()) {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutex(st.Field(i).Type()) {
			return fa, true
		}
	}
	return nil, false
}

func (l *lockFlow) relevant() bool {
	for _, b := range l.fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && (isLockOp(g) || helper(g) && opsLocks(g, map[*ssa.Function]bool{})) {
					return true
				}
			}
			if v, ok := i.(ssa.Value); ok {
				if fa, ok := guardedField(v); ok {
					if _, fresh := fa.X.(*ssa.Alloc); !fresh {
						return true
					}
				}
			}
		}
	}
	return false
}

// entry: what is certainly held when the function begins, from its callers.
func (l *lockFlow) entry() (lockState, bool) {
	f := l.fn
	if f.Parent() != nil || otherUses[f] {
		return lockState{}, false // runs wherever it is called
	}
	if f.Object() != nil && f.Object().Exported() {
		return lockState{}, true
	}
	calls := callSites[f]
	if len(calls) == 0 {
		return lockState{}, true
	}
	if l.depth > 6 {
		return lockState{}, false
	}
	var out lockState
	for k, ci := range calls {
		if ci.Parent() == f {
			return lockState{}, false
		}
		if _, now := ci.(*ssa.Call); !now {
			return lockState{}, false
		}
		o := &lockFlow{c: l.c, rule: l.rule, fn: ci.Parent(), depth: l.depth + 1}
		if ci.Parent().Parent() != nil {
			return lockState{}, false
		}
		st := o.at(ci)
		st.deferred = 0
		own := st.owner
		st.owner = nil
		for j, a := range ci.Common().Args {
			if own != nil && lockOwner(a) == own && j < len(f.Params) {
				st.owner = f.Params[j]
			}
		}
		if k == 0 {
			out = st
		} else {
			out = out.meet(st)
		}
	}
	return out, true
}

func (l *lockFlow) step(s lockState, i ssa.Instruction) lockState {
	mode := func(g *ssa.Function) int {
		if strings.HasPrefix(g.Name(), "R") {
			return shared
		}
		return exclusive
	}
	switch x := i.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && isLockOp(g) {
			if strings.HasSuffix(g.Name(), "Unlock") {
				s.held, s.owner = free, nil
			} else {
				s.held, s.mixed, s.owner = mode(g), false, lockOwner(x.Call.Args[0])
			}
		} else if helper(g) && opsLocks(g, map[*ssa.Function]bool{}) {
			s = l.after(g, x.Call.Args, s)
		}
	case *ssa.Defer:
		g := x.Call.StaticCallee()
		if g != nil && isLockOp(g) {
			s.deferred = mode(g)
		} else if g != nil && (g.Parent() == l.fn || helper(g)) {
			for _, b := range g.Blocks {
				for _, j := range b.Instrs {
					if ci, ok := j.(*ssa.Call); ok {
						if h := ci.Call.StaticCallee(); h != nil && isLockOp(h) && strings.HasSuffix(h.Name(), "Unlock") {
							s.deferred = mode(h)
						}
					}
				}
			}
		}
	}
	return s
}

// solve is the forward must-analysis over the blocks.
func (l *lockFlow) solve(entry lockState) map[*ssa.BasicBlock]lockState {
	ins := map[*ssa.BasicBlock]lockState{l.fn.Blocks[0]: entry}
	work := []*ssa.BasicBlock{l.fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := ins[b]
		for _, i := range b.Instrs {
			s = l.step(s, i)
		}
		for _, n := range b.Succs {
			old, seen := ins[n]
			next := s
			if seen {
				next = old.meet(s)
			}
			if !seen || next != old {
				ins[n] = next
				work = append(work, n)
			}
		}
	}
	return ins
}

func (l *lockFlow) at(target ssa.Instruction) lockState {
	e, _ := l.entry()
	ins := l.solve(e)
	s := ins[target.Block()]
	for _, i := range target.Block().Instrs {
		if i == target {
			return s
		}
		s = l.step(s, i)
	}
	return s
}

func (l *lockFlow) run() {
	c := l.c
	entry, known := l.entry()
	if !known {
		c.Note(l.rule, shortName(l.fn), "where it runs, and under which lock, is not known")
		return
	}
	ins := l.solve(entry)
	for _, b := range l.fn.Blocks {
		s, ok := ins[b]
		if !ok {
			continue
		}
		for _, i := range b.Instrs {
			if what, own, write, pos := l.touches(i); what != "" {
				need := shared
				if write {
					need = exclusive
				}
				why := what + " is read here without holding the lock"
				if write {
					why = what + " is changed here without holding the lock exclusively"
				}
				other := own != nil && s.owner != nil && own != s.owner
				c.Oblige(l.rule, l.fn, pos, what+" is used under its lock", s.held >= need && !other, why)
			}
			if s.again(i, map[*ssa.Function]bool{}) {
				c.Oblige(l.rule, l.fn, i.Pos(), "a lock is not taken while it is held", false, "the lock held here is taken again: the caller waits for itself for ever")
			}
			switch x := i.(type) {
			case *ssa.Call:
				if s.held > entry.held && s.deferred == 0 && mayFail(x.Call.StaticCallee(), 0) {
					c.Oblige(l.rule, l.fn, x.Pos(), "the lock is given back when the operation fails", false, "the assertion in the function called fails for an empty container, and the lock taken before it is then never given back: everyone after waits for ever")
				}
			case *ssa.TypeAssert:
				if !x.CommaOk && s.held > entry.held && s.deferred == 0 {
					c.Oblige(l.rule, l.fn, x.Pos(), "the lock is given back when the operation fails", false, "the assertion fails for an empty container, and the lock taken before it is then never given back: everyone after waits for ever")
				}
			case *ssa.Return:
				if helper(l.fn) {
					break // owed by its callers
				}
				left := s.held
				if s.deferred != 0 {
					if left == s.deferred {
						left = free
					} else {
						c.Oblige(l.rule, l.fn, x.Pos(), "each lock is given back once, in its own mode", false, "the deferred unlock does not match what is held here")
						continue
					}
				}
				c.Oblige(l.rule, l.fn, x.Pos(), "locks are given back on return", left == entry.held && !s.mixed, "a lock taken in this function is still held on a path that returns here")
			}
			s = l.step(s, i)
		}
	}
}

// touches: the instruction reads or changes what a mutex guards, directly or
// by handing it to a function.
func (l *lockFlow) touches(i ssa.Instruction) (what string, own ssa.Value, write bool, pos token.Pos) {
	name := func(fa *ssa.FieldAddr) string {
		st := derefT(fa.X.Type()).Underlying().(*types.Struct)
		return typeName(derefT(fa.X.Type())) + "." + st.Field(fa.Field).Name()
	}
	shared := func(v ssa.Value) *ssa.FieldAddr {
		fa, ok := guardedField(v)
		if !ok {
			return nil
		}
		if _, fresh := fa.X.(*ssa.Alloc); fresh {
			return nil // not yet handed to anyone
		}
		return fa
	}
	switch x := i.(type) {
	case *ssa.Store:
		if fa := shared(x.Addr); fa != nil {
			return name(fa), lockOwner(fa), true, x.Pos()
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa := shared(x.X); fa != nil && !pointerOnly(x) {
				return name(fa), lockOwner(fa), false, x.Pos()
			}
		}
	case ssa.CallInstruction:
		if _, isDefer := i.(*ssa.Defer); isDefer {
			return
		}
		for k, a := range x.Common().Args {
			u, ok := a.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			fa := shared(u.X)
			if fa == nil {
				continue
			}
			g := x.Common().StaticCallee()
			if g == nil {
				return name(fa), lockOwner(fa), true, x.Pos()
			}
			return name(fa), lockOwner(fa), writesThrough(g, k, map[*ssa.Function]bool{}), x.Pos()
		}
	}
	return
}

// pointerOnly: the value loaded is a pointer that never changes after its
// structure is made, so that reading it alone needs no lock.
func pointerOnly(u *ssa.UnOp) bool {
	if _, ok := u.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	fa := u.X.(*ssa.FieldAddr)
	st := derefT(fa.X.Type())
	for _, f := range curProg.Fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				o, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || o.Field != fa.Field || !types.Identical(derefT(o.X.Type()), st) {
					continue
				}
				if _, fresh := o.X.(*ssa.Alloc); !fresh {
					return false
				}
			}
		}
	}
	return true
}

// writesThrough: g stores through its k-th parameter, itself or in what it calls.
func writesThrough(g *ssa.Function, k int, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	if g.Blocks == nil || k >= len(g.Params) {
		return true
	}
	derived := map[ssa.Value]bool{g.Params[k]: true}
	for changed := true; changed; {
		changed = false
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || derived[v] {
					continue
				}
				var from ssa.Value
				switch x := i.(type) {
				case *ssa.FieldAddr:
					from = x.X
				case *ssa.IndexAddr:
					from = x.X
				case *ssa.Slice:
					from = x.X
				case *ssa.ChangeType:
					from = x.X
				case *ssa.UnOp:
					if x.Op == token.MUL {
						from = x.X
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if derived[e] {
							from = e
						}
					}
				}
				if from != nil && derived[from] {
					derived[v], changed = true, true
				}
			}
		}
	}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if derived[x.Addr] {
					return true
				}
			case *ssa.MapUpdate:
				if derived[x.Map] {
					return true
				}
			case ssa.CallInstruction:
				for j, a := range x.Common().Args {
					if !derived[a] {
						continue
					}
					if h := x.Common().StaticCallee(); h != nil {
						if writesThrough(h, j, seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
