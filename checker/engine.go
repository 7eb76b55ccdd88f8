package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine builds a gated value graph of a function: every SSA value is
// mapped to a hash-consed expression whose control-flow merges are decision
// diagrams over branch atoms, every effect (call, store, send, ...) becomes an
// Event guarded by the condition under which it is reached, and every loop
// becomes a LoopSum whose carried values are classified by a fixpoint.
// In-repo callees are analysed in their calling context unless kept.

type Event struct {
	Key   string
	Seq   int
	Kind  string // call store mapupdate mapdelete go send recv close panic exit loop return defer
	Name  string
	Fn    *ssa.Function // static callee
	FnV   *Expr         // dynamic callee
	Args  []*Expr
	Sig   *types.Signature
	Guard *Expr
	In    *LoopSum // innermost enclosing loop
	Loop  *LoopSum // kind loop
	Func  *ssa.Function
	Pos   token.Pos
	Snap  *State          // go/defer: state at the statement
	Mem   map[*Expr]*Expr // what the local objects among the operands hold
	After []*Expr         // what last wrote the storage a call reads
	Live  bool
	Defer bool
}

type LoopVar struct {
	Key  string
	Sym  *Expr
	Init *Expr
	Next *Expr // value on the back edge, in terms of the header symbols
	Res  *Expr // resolved header value (invariant/affine), or Sym
	Step *Expr
}

type LoopExit struct {
	Guard *Expr
	From  *ssa.BasicBlock
	To    *ssa.BasicBlock
	Next  bool // taken by a threaded back edge
}

type LoopSum struct {
	Objs   map[*Expr]*Expr // objects made by an iteration, as it leaves them
	Key    string
	ID     int
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	T      *Expr
	Entry  *Expr
	Vars   []*LoopVar
	Back   *Expr
	Exits  []LoopExit
	ExitG  *Expr // one of the exits was taken
	Events []*Event
	In     *LoopSum
	Pos    token.Pos
}

type State struct {
	guard *Expr
	env   map[ssa.Value]*Expr
	mem   map[*Expr]*Expr // local object -> content
	hv    map[*Expr]*Expr // heap address -> known content
	ver   map[string]*Expr
	last  map[string]*Expr // storage class -> what wrote it last
	defs  []*Event
	esc   map[*Expr]bool
}

func (s *State) clone() *State {
	n := &State{guard: s.guard, env: make(map[ssa.Value]*Expr, len(s.env)+8), mem: make(map[*Expr]*Expr, len(s.mem)), hv: make(map[*Expr]*Expr, len(s.hv)), ver: make(map[string]*Expr, len(s.ver)), last: make(map[string]*Expr, len(s.last)), esc: make(map[*Expr]bool, len(s.esc))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.hv {
		n.hv[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.last {
		n.last[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	n.defs = s.defs[:len(s.defs):len(s.defs)]
	return n
}

type Config struct {
	Keep func(*ssa.Function) bool // analyse as an opaque call
	// Model may handle a call itself: return value and true.
	Model func(e *Engine, st *State, c *ssa.CallCommon, callee *ssa.Function, args []*Expr) ([]*Expr, bool)
}

type Engine struct {
	in      *Interner
	p       *Program
	cfg     Config
	events  *[]*Event
	evTab   map[string]*Event
	loops   map[string]*LoopSum
	ctx     []string
	stack   []*ssa.Function
	curFn   *ssa.Function
	inLoop  *LoopSum
	seq     int
	nloop   int
	budget  int
	syms    map[string]*Expr
	lens    map[*Expr]bool    // lengths of existing slices
	made    map[*Expr]*msInfo // slices made here, and where
	chans   map[string]int    // channels made, by site
	Inlined map[*ssa.Function]bool
}

type undecided struct{ msg string }

func (e *Engine) fail(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

// Summary of an analysed root.
type Summary struct {
	Root   *ssa.Function
	E      *Engine
	Params []*Expr
	Free   []*Expr
	Events []*Event // top level; nested ones under their loop
	Rets   []*Expr  // merged results
	RetG   *Expr
	End    *State
}

func NewEngine(p *Program, cfg Config) *Engine {
	return &Engine{in: p.In, p: p, cfg: cfg, evTab: map[string]*Event{}, loops: map[string]*LoopSum{}, syms: map[string]*Expr{}, made: map[*Expr]*msInfo{}, lens: map[*Expr]bool{}, budget: 3000000, Inlined: map[*ssa.Function]bool{}}
}

func (e *Engine) param(fn *ssa.Function, i int) *Expr {
	v := fn.Params[i]
	return e.in.structify(e.in.B(e.in.mk(Expr{Op: "param", Aux: fn.String() + "." + v.Name(), T: v.Type(), N: i})))
}

// structify expands struct-typed opaque values into field projections.
func (in *Interner) structify(x *Expr) *Expr { return x }

func (e *Engine) Analyze(fn *ssa.Function) (sum *Summary, err error) {
	return e.AnalyzeWith(fn, nil, nil, nil)
}

func (e *Engine) AnalyzeWith(fn *ssa.Function, args, free []*Expr, st *State) (sum *Summary, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("%s: %s", fn, u.msg)
				return
			}
			panic(r)
		}
	}()
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("no body for %v", fn)
	}
	sum = &Summary{Root: fn, E: e}
	e.events = &sum.Events
	if st == nil {
		st = &State{guard: e.in.Bool(true), env: map[ssa.Value]*Expr{}, mem: map[*Expr]*Expr{}, hv: map[*Expr]*Expr{}, ver: map[string]*Expr{}, esc: map[*Expr]bool{}}
	} else {
		st = st.clone()
		st.guard = e.in.Bool(true)
		st.defs = nil
	}
	if args == nil {
		for i := range fn.Params {
			args = append(args, e.param(fn, i))
		}
	}
	if free == nil {
		for _, v := range fn.FreeVars {
			free = append(free, e.in.mk(Expr{Op: "freevar", Aux: fn.String() + "." + v.Name(), T: v.Type()}))
		}
	}
	sum.Params, sum.Free = args, free
	out, res := e.call(st, fn, args, free)
	if out != nil {
		sum.Rets, sum.RetG, sum.End = res, out.guard, out
	} else {
		sum.RetG = e.in.Bool(false)
	}
	return sum, nil
}

// AllEvents flattens nested loops.
func (s *Summary) AllEvents() []*Event {
	var out []*Event
	var rec func(es []*Event)
	rec = func(es []*Event) {
		for _, ev := range es {
			out = append(out, ev)
			if ev.Loop != nil {
				rec(ev.Loop.Events)
			}
		}
	}
	rec(s.Events)
	return out
}

// ---------------------------------------------------------------- frames

type retv struct {
	st  *State
	res []*Expr
}

// call evaluates fn in state st; returns the merged return state (nil when it
// never returns).
func (e *Engine) call(st *State, fn *ssa.Function, args, free []*Expr) (*State, []*Expr) {
	saved, savedDefs := st.env, st.defs
	savedFn := e.curFn
	e.curFn = fn
	e.stack = append(e.stack, fn)
	if fn.Pkg != nil || fn.Parent() != nil {
		e.Inlined[fn] = true
	}
	defer func() { e.stack = e.stack[:len(e.stack)-1]; e.curFn = savedFn }()
	s := st.clone()
	s.env = map[ssa.Value]*Expr{}
	s.defs = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			s.env[f] = free[i]
		}
	}
	fr := e.frame(fn)
	var rets []retv
	exits := e.region(fr, nil, fn.Blocks[0], s, &rets)
	if len(exits) > 0 {
		e.fail("unexpected region exit")
	}
	if len(rets) == 0 {
		return nil, nil
	}
	// merge returns
	sts := make([]*State, len(rets))
	for i := range rets {
		sts[i] = rets[i].st
	}
	gs, g := e.gates(sts)
	n := fn.Signature.Results().Len()
	res := make([]*Expr, n)
	for k := 0; k < n; k++ {
		v := rets[len(rets)-1].res[k]
		for i := len(rets) - 2; i >= 0; i-- {
			v = e.in.ITE(gs[i], rets[i].res[k], v)
		}
		res[k] = e.in.Restrict(v, g)
	}
	m := e.mergeStates(sts, gs, g, fn.String()+":ret")
	m.env = saved
	m.defs = savedDefs
	return m, res
}

type frame struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	pos   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func (e *Engine) frame(fn *ssa.Function) *frame {
	if f, ok := e.p.frames[fn]; ok {
		return f
	}
	f := &frame{fn: fn, pos: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.pos[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				if f.pos[h] <= f.pos[b] {
					e.fail("irreducible control flow in %s", fn)
				}
				continue
			}
			body := f.loops[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				f.loops[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	// a panic that leaves a loop is one more thing an iteration may do
	dead := map[*ssa.BasicBlock]bool{}
	for more := true; more; {
		more = false
		for _, b := range f.rpo {
			if dead[b] || len(b.Instrs) == 0 {
				continue
			}
			d := len(b.Succs) > 0
			for _, s := range b.Succs {
				d = d && dead[s]
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				d = true
			}
			if d {
				dead[b], more = true, true
			}
		}
	}
	for _, body := range f.loops {
		for more := true; more; {
			more = false
			for _, b := range f.rpo {
				if !dead[b] || body[b] || len(b.Preds) == 0 {
					continue
				}
				all := true
				for _, q := range b.Preds {
					all = all && body[q]
				}
				if all {
					body[b], more = true, true
				}
			}
		}
	}
	e.p.frames[fn] = f
	return f
}

type edge struct {
	from, to *ssa.BasicBlock
	k        int // index of from in to.Preds
	st       *State
	thr      bool
}

// region evaluates the acyclic body of a loop (header = entry, body != nil) or
// a whole function. Back edges to the entry and edges out of body are returned.
func (e *Engine) region(fr *frame, body map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st *State, rets *[]retv) []edge {
	in := map[*ssa.BasicBlock][]edge{}
	var out []edge
	deliver := func(ed edge) {
		if isFalse(ed.st.guard) {
			return
		}
		if ed.to == entry && body != nil || (body != nil && !body[ed.to]) {
			out = append(out, ed)
			return
		}
		in[ed.to] = append(in[ed.to], ed)
	}
	for _, b := range fr.rpo[fr.pos[entry]:] {
		var s *State
		if b == entry {
			s = st
		} else {
			if body != nil && !body[b] {
				continue
			}
			eds := in[b]
			if len(eds) == 0 {
				continue
			}
			if lb := fr.loops[b]; lb != nil {
				for _, ed := range e.loop(fr, lb, b, eds, rets) {
					deliver(ed)
				}
				continue
			}
			s = e.join(b, eds)
		}
		if b == entry && body == nil && fr.loops[b] != nil {
			e.fail("loop at function entry")
		}
		for _, ed := range e.block(fr, b, s, rets) {
			deliver(ed)
		}
	}
	return out
}

// join resolves phis and merges incoming states.
func (e *Engine) join(b *ssa.BasicBlock, eds []edge) *State {
	for i := range eds {
		e.setPhis(b, &eds[i])
	}
	sts := make([]*State, len(eds))
	for i := range eds {
		sts[i] = eds[i].st
	}
	if len(sts) == 1 {
		return sts[0]
	}
	gs, g := e.gates(sts)
	return e.mergeStates(sts, gs, g, e.ctxKey()+fmt.Sprintf("%s:%d", b.Parent(), b.Index))
}

func (e *Engine) setPhis(b *ssa.BasicBlock, ed *edge) {
	var vals []*Expr
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(ed.st, phi.Edges[ed.k]))
	}
	if len(phis) == 0 {
		return
	}
	ed.st = ed.st.clone()
	for i, p := range phis {
		ed.st.env[p] = vals[i]
	}
}

func (e *Engine) gates(sts []*State) ([]*Expr, *Expr) {
	g := e.in.Bool(false)
	for _, s := range sts {
		g = e.in.Or(g, s.guard)
	}
	gs := make([]*Expr, len(sts))
	for i, s := range sts {
		gs[i] = e.in.Restrict(s.guard, g)
	}
	return gs, g
}

func (e *Engine) mergeStates(sts []*State, gs []*Expr, g *Expr, key string) *State {
	if len(sts) == 1 {
		n := sts[0].clone()
		n.guard = g
		return n
	}
	last := sts[len(sts)-1]
	n := &State{guard: g, env: map[ssa.Value]*Expr{}, mem: map[*Expr]*Expr{}, hv: map[*Expr]*Expr{}, ver: map[string]*Expr{}, last: map[string]*Expr{}, esc: map[*Expr]bool{}}
	sel := func(get func(s *State) *Expr) *Expr {
		v := get(last)
		same := v != nil
		for _, s := range sts[:len(sts)-1] {
			if get(s) != v {
				same = false
			}
		}
		if same {
			return v
		}
		if v == nil {
			return nil
		}
		for i := len(sts) - 2; i >= 0; i-- {
			x := get(sts[i])
			if x == nil {
				return nil
			}
			v = e.in.ITE(gs[i], x, v)
		}
		return e.in.Restrict(v, g)
	}
	for k := range last.env {
		k := k
		if v := sel(func(s *State) *Expr { return s.env[k] }); v != nil {
			n.env[k] = v
		}
	}
	// local objects may exist in one branch only
	for i := range sts {
		for a := range sts[i].mem {
			if _, ok := n.mem[a]; ok {
				continue
			}
			var v *Expr
			for j := len(sts) - 1; j >= 0; j-- {
				x := sts[j].mem[a]
				if x == nil {
					continue
				}
				if v == nil {
					v = x
				} else {
					v = e.in.ITE(gs[j], x, v)
				}
			}
			n.mem[a] = e.in.Restrict(v, g)
		}
	}
	hvs := map[*Expr]bool{}
	for _, s := range sts {
		for k := range s.hv {
			hvs[k] = true
		}
	}
	for k := range hvs {
		k := k
		if v := sel(func(s *State) *Expr {
			if v := s.hv[k]; v != nil || k.Op == "mapaddr" {
				return v
			}
			return e.load(s, k, derefT(k.T)) // not written on this side
		}); v != nil {
			n.hv[k] = v
		}
	}
	vers := map[string]bool{}
	for _, s := range sts {
		for k := range s.ver {
			vers[k] = true
		}
	}
	for k := range vers {
		v := sts[0].ver[k]
		same := true
		for _, s := range sts {
			if s.ver[k] != v {
				same = false
			}
		}
		if same {
			n.ver[k] = v
		} else {
			n.ver[k] = e.in.mk(Expr{Op: "ver", Aux: "join:" + key + "§" + k})
		}
	}
	lasts := map[string]bool{}
	for _, s := range sts {
		for k := range s.last {
			lasts[k] = true
		}
	}
	for k := range lasts {
		k := k
		n.last[k] = sel(func(s *State) *Expr {
			if v := s.last[k]; v != nil {
				return v
			}
			return e.token("", nil)
		})
	}
	for _, s := range sts {
		for k := range s.esc {
			n.esc[k] = true
		}
	}
	n.defs = sts[0].defs
	for _, s := range sts[1:] {
		if len(s.defs) > len(n.defs) {
			n.defs = s.defs
		}
	}
	return n
}

// block evaluates one block; returns its outgoing edges.
func (e *Engine) block(fr *frame, b *ssa.BasicBlock, s *State, rets *[]retv) []edge {
	s = s.clone()
	for _, ins := range b.Instrs {
		e.budget--
		if e.budget < 0 {
			e.fail("analysis budget exceeded")
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.in.SimplifyUnder(s.guard, e.val(s, x.Cond))
			t, f := s.clone(), s
			t.guard = e.in.And(s.guard, c)
			f.guard = e.in.And(s.guard, e.in.Not(c))
			k0, k1 := predIdx(b, b.Succs[0], 0), predIdx(b, b.Succs[1], 0)
			if b.Succs[0] == b.Succs[1] {
				k1 = predIdx(b, b.Succs[1], 1)
			}
			return []edge{{b, b.Succs[0], k0, t, false}, {b, b.Succs[1], k1, f, false}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], predIdx(b, b.Succs[0], 0), s, false}}
		case *ssa.Return:
			res := make([]*Expr, len(x.Results))
			for i, r := range x.Results {
				res[i] = e.val(s, r)
			}
			*rets = append(*rets, retv{s, res})
			return nil
		case *ssa.Panic:
			e.emit(s, &Event{Kind: "panic", Name: "panic"}, x)
			return nil
		default:
			ns := e.instr(s, ins)
			if ns == nil {
				return nil // never returns
			}
			s = ns
		}
	}
	e.fail("block without terminator")
	return nil
}

func predIdx(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return 0
}

func (e *Engine) ctxKey() string { return strings.Join(e.ctx, ">") }

func (e *Engine) insKey(ins ssa.Instruction) string {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return fmt.Sprintf("%s|%s.%d.%d", e.ctxKey(), b.Parent(), b.Index, i)
		}
	}
	return e.ctxKey()
}

func (e *Engine) emit(s *State, ev *Event, ins ssa.Instruction) *Event {
	old := e.record(s, ev, ins)
	*e.events = append(*e.events, old)
	return old
}

func (e *Engine) record(s *State, ev *Event, ins ssa.Instruction) *Event {
	key := e.insKey(ins) + ev.Kind + ev.Name
	old := e.evTab[key]
	if old == nil {
		old = &Event{Key: key}
		e.seq++
		old.Seq = e.seq
		e.evTab[key] = old
	}
	seq := old.Seq
	*old = *ev
	old.Key, old.Seq = key, seq
	old.Guard = s.guard
	old.In = e.inLoop
	old.Mem = e.reachable(s, ev)
	old.After = e.after(s, ev)
	old.Func = e.curFn
	old.Pos = ins.Pos()
	if !old.Pos.IsValid() {
		old.Pos = e.curFn.Pos()
	}
	return old
}

func (e *Engine) sym(op, key string, t types.Type) *Expr {
	return e.in.B(e.in.mk(Expr{Op: op, Aux: key, T: t}))
}

// symT expands struct types into field symbols so that leaves are tracked
// separately.
func (e *Engine) symT(op, key string, t types.Type, lp *LoopSum, d int) *Expr {
	if t != nil && d < 4 {
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.NumFields() <= 16 {
			args := make([]*Expr, st.NumFields())
			for i := range args {
				args[i] = e.symT(op, key+"."+st.Field(i).Name(), st.Field(i).Type(), lp, d+1)
			}
			return e.in.mk(Expr{Op: "struct", Aux: typeKey(t), Args: args, T: t})
		}
	}
	return e.in.B(e.in.mk(Expr{Op: op, Aux: key, T: t, Loop: lp}))
}

func (e *Engine) res(ev *Event, i int, t types.Type) *Expr {
	x := e.in.mk(Expr{Op: "res", Aux: fmt.Sprintf("%s#%d", ev.Key, i), N: i, T: t, Ev: ev})
	return e.in.B(x)
}
func (e *Engine) outv(ev *Event, i int, path string, t types.Type) *Expr {
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.NumFields() <= 16 {
			args := make([]*Expr, st.NumFields())
			for k := range args {
				args[k] = e.outv(ev, i, path+"."+st.Field(k).Name(), st.Field(k).Type())
			}
			return e.in.mk(Expr{Op: "struct", Aux: typeKey(t), Args: args, T: t})
		}
	}
	return e.in.B(e.in.mk(Expr{Op: "out", Aux: fmt.Sprintf("%s#%d%s", ev.Key, i, path), N: i, T: t, Ev: ev}))
}

// ---------------------------------------------------------------- memory

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// class of an address: what kind of storage it denotes.
func addrClass(a *Expr) string {
	switch a.Op {
	case "faddr":
		if r, _ := valueRoot(a); r != nil && r.Args[0].Op == "makeslice" {
			return a.C2() + "#ms" + itoa(r.Args[0].id)
		}
		return a.C2()
	case "iaddr":
		if a.Args[0].Op == "makeslice" {
			return "[]" + typeKey(derefT(a.T)) + "#ms" + itoa(a.Args[0].id)
		}
		return "[]" + typeKey(derefT(a.T))
	case "global":
		return "global:" + a.Aux
	case "ite":
		return addrClass(Leaves(a)[0])
	}
	return "*" + typeKey(derefT(a.T))
}

func (a *Expr) C2() string {
	bt := a.Args[0].T
	return "f:" + a.Aux2(bt)
}
func (a *Expr) Aux2(bt types.Type) string { return a.Aux }

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) faddr(x *Expr, i int, st types.Type, ft types.Type) *Expr {
	if x.Op == "ite" {
		return e.in.Map(x, func(l *Expr) *Expr { return e.faddr(l, i, st, ft) })
	}
	return e.in.mk(Expr{Op: "faddr", Aux: typeName(st) + "." + fmt.Sprint(i), N: i, Args: []*Expr{x}, T: types.NewPointer(ft)})
}

func (e *Engine) iaddr(x, i *Expr, et types.Type) *Expr {
	return e.in.MapN([]*Expr{x, i}, func(a []*Expr) *Expr {
		x, i := a[0], a[1]
		if x.Op == "slice" && len(x.Args) > 1 {
			// element of a slice expression is an element of its base
			base := x.Args[0]
			if x.Args[1] != nil {
				i = e.in.Add(x.Args[1], i)
			}
			return e.iaddr(base, i, et)
		}
		return e.in.mk(Expr{Op: "iaddr", Args: []*Expr{x, i}, T: types.NewPointer(et)})
	})
}

// root object and access path of an address, when it is inside a local object
func localRoot(a *Expr) (*Expr, []*Expr) {
	var path []*Expr
	for {
		switch a.Op {
		case "alloc":
			return a, path
		case "faddr", "iaddr":
			path = append([]*Expr{a}, path...)
			a = a.Args[0]
		default:
			return nil, nil
		}
	}
}

func (e *Engine) project(v *Expr, path []*Expr) *Expr {
	for _, p := range path {
		if p.Op == "faddr" {
			v = e.in.Field(v, p.N)
		} else {
			v = e.in.Index(v, p.Args[1])
		}
	}
	return v
}
func (e *Engine) update(v *Expr, path []*Expr, nv *Expr) *Expr {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.Op == "faddr" {
		return e.in.WithField(v, p.N, e.update(e.in.Field(v, p.N), path[1:], nv))
	}
	return e.in.WithIndex(v, p.Args[1], e.update(e.in.Index(v, p.Args[1]), path[1:], nv))
}

// load reads *a.
func (e *Engine) load(s *State, a *Expr, t types.Type) *Expr {
	if a.Op == "ite" {
		return e.in.Map(a, func(l *Expr) *Expr { return e.load(s, l, t) })
	}
	if r, path := localRoot(a); r != nil {
		if c, ok := s.mem[r]; ok {
			return e.project(c, path)
		}
	}
	if v, ok := s.hv[a]; ok {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() <= 24 {
		args := make([]*Expr, st.NumFields())
		for i := range args {
			args[i] = e.load(s, e.faddr(a, i, t, st.Field(i).Type()), st.Field(i).Type())
		}
		return e.in.Struct(t, args)
	}
	if a.Op == "iaddr" {
		if v := e.elem(s, a.Args[0], a.Args[1]); v != nil {
			return v
		}
	}
	if a.Op == "faddr" { // field of a known element value
		if r, path := valueRoot(a); r != nil {
			if v := e.elem(s, r.Args[0], r.Args[1]); v != nil {
				return e.project(v, path)
			}
		}
	}
	c := addrClass(a)
	ver := s.ver[c]
	args := []*Expr{a}
	if b := classBase(c); ver == nil && b != c {
		ver = s.ver[b]
	}
	if ver != nil {
		args = append(args, ver)
	}
	x := e.in.mk(Expr{Op: "load", Args: args, T: t})
	return e.in.B(x)
}

func valueRoot(a *Expr) (*Expr, []*Expr) {
	var path []*Expr
	for a.Op == "faddr" {
		path = append([]*Expr{a}, path...)
		a = a.Args[0]
	}
	if a.Op == "iaddr" {
		return a, path
	}
	return nil, nil
}

// elem reads element i of a functional slice value.
func (e *Engine) elem(s *State, x, i *Expr) *Expr {
	for y := x; y != nil; {
		if s.ver[mutKey(y)] != nil {
			return nil
		}
		if y.Op == "append1" || y.Op == "appends" {
			y = y.Args[0]
		} else {
			break
		}
	}
	switch x.Op {
	case "slicelit":
		if n, ok := i.IntConst(); ok && n >= 0 && int(n) < len(x.Args) {
			return x.Args[n]
		}
	case "append1":
		if e.Len(x.Args[0]) == i {
			return x.Args[1]
		}
	}
	return nil
}

func (e *Engine) store(s *State, a, v *Expr, t types.Type, ins ssa.Instruction) {
	if a.Op == "ite" {
		for _, l := range Leaves(a) {
			c := e.in.Selects(a, l)
			old := e.load(s, l, t)
			sub := *s
			sub.guard = e.in.And(s.guard, c)
			if isFalse(sub.guard) || !Feasible(sub.guard) {
				continue
			}
			e.store1(&sub, l, e.in.ITE(c, v, old), v, t, ins)
			s.mem, s.hv, s.ver = sub.mem, sub.hv, sub.ver
		}
		return
	}
	e.store1(s, a, v, v, t, ins)
}

func (e *Engine) store1(s *State, a, v, evv *Expr, t types.Type, ins ssa.Instruction) {
	if r, path := localRoot(a); r != nil {
		if c, ok := s.mem[r]; ok {
			s.mem[r] = e.update(c, path, v)
			if s.esc[r] {
				e.emit(s, &Event{Kind: "store", Name: storeName(a), Args: []*Expr{a, evv}}, ins)
			}
			return
		}
	}
	e.emit(s, &Event{Kind: "store", Name: storeName(a), Args: []*Expr{a, evv}}, ins)
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() <= 24 && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			e.write(s, e.faddr(a, i, t, st.Field(i).Type()), e.in.Field(v, i), ins)
		}
		return
	}
	e.write(s, a, v, ins)
}

func (e *Engine) write(s *State, a, v *Expr, ins ssa.Instruction) {
	if st, ok := derefT(a.T).Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.NumFields() <= 24 {
		for i := 0; i < st.NumFields(); i++ {
			e.write(s, e.faddr(a, i, derefT(a.T), st.Field(i).Type()), e.in.Field(v, i), ins)
		}
		return
	}
	if a.Op == "iaddr" {
		e.markMut(s, a.Args[0], e.insKey(ins))
	}
	if r, _ := valueRoot(a); r != nil && a.Op == "faddr" {
		e.markMut(s, r.Args[0], e.insKey(ins))
	}
	c := addrClass(a)
	for k := range s.hv {
		if k != a && addrClass(k) == c && !distinct(k, a) {
			delete(s.hv, k)
		}
	}
	if a.Op == "faddr" && classBase(c) == c {
		// the address may come from inside a made slice
		for k := range s.ver {
			if strings.HasPrefix(k, c+"#ms") {
				e.havoc(s, k, e.insKey(ins))
			}
		}
	}
	s.ver[c] = e.in.mk(Expr{Op: "ver", Aux: e.insKey(ins) + "§" + c})
	s.last[c] = e.token("store", nil)
	s.hv[a] = v
}

func storeName(a *Expr) string {
	switch a.Op {
	case "faddr":
		n := a.Aux[:strings.LastIndex(a.Aux, ".")]
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return n + "." + fieldNameOf(a)
	case "iaddr":
		return "[]"
	case "global":
		return "global"
	}
	return "*"
}

func fieldNameOf(a *Expr) string {
	if a.strct != nil {
		return a.strct.Field(a.N).Name()
	}
	return fmt.Sprint(a.N)
}

// distinct addresses: surely different storage.
func distinct(a, b *Expr) bool {
	if a.Op != b.Op {
		ra, _ := localRoot(a)
		rb, _ := localRoot(b)
		return ra != nil && rb != nil && ra != rb
	}
	switch a.Op {
	case "faddr":
		if a.Aux != b.Aux {
			return true
		}
		return distinct(a.Args[0], b.Args[0])
	case "iaddr":
		if a.Args[0] == b.Args[0] {
			d := IN.Sub(a.Args[1], b.Args[1])
			if c, ok := d.NumConst(); ok {
				return c.Sign() != 0
			}
			return false
		}
		return distinct(a.Args[0], b.Args[0])
	case "alloc", "makeslice", "makemap":
		return a != b
	}
	return false
}

// havoc forgets everything known about a storage class.
func (e *Engine) havoc(s *State, c string, key string) { e.havocBy(s, c, key, nil) }

// havocBy: the event that wrote is known.
func (e *Engine) havocBy(s *State, c string, key string, ev *Event) {
	for k := range s.ver {
		if k != c && strings.HasPrefix(k, c+"#ms") {
			e.havocBy(s, k, key, ev)
		}
	}
	for k := range s.hv {
		if addrClass(k) == c {
			delete(s.hv, k)
		}
	}
	s.ver[c] = e.in.mk(Expr{Op: "ver", Aux: key + "§" + c, Ev: ev})
	if ev != nil {
		s.last[c] = e.token(ev.Key, ev)
	} else {
		s.last[c] = e.token("store", nil)
	}
}

// token stands for what last wrote a storage class.
func (e *Engine) token(name string, ev *Event) *Expr {
	return e.in.mk(Expr{Op: "tok", Aux: name, Ev: ev})
}

// after is what last wrote the storage the event reads.
func (e *Engine) after(s *State, ev *Event) []*Expr {
	if ev.Kind != "call" || len(s.last) == 0 {
		return nil
	}
	var reads func(c string) bool
	if ev.Fn != nil && e.p.InRepo(ev.Fn) {
		m := e.p.Reads(ev.Fn)
		reads = func(c string) bool { return m[c] }
	} else {
		m := map[string]bool{}
		for _, a := range ev.Args {
			if a != nil && a.T != nil {
				e.p.typeClasses(m, a.T)
			}
		}
		reads = func(c string) bool { return m[c] }
	}
	seen := map[*Expr]bool{}
	var out []*Expr
	for _, c := range sortedKeys(s.last) {
		if v := s.last[c]; reads(c) && !seen[v] && !strings.Contains(c, "#") && strings.Contains(c, e.p.Module+"/") {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

// ---------------------------------------------------------------- values

func (e *Engine) val(s *State, v ssa.Value) *Expr {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.in.Zero(x.Type())
		}
		return e.in.Const(x.Value, x.Type())
	case *ssa.Global:
		return e.in.mk(Expr{Op: "global", Aux: x.Pkg.Pkg.Path() + "." + x.Name(), T: x.Type()})
	case *ssa.Function:
		return e.in.mk(Expr{Op: "fn", Aux: x.String(), Fn: x, T: x.Type()})
	case *ssa.Builtin:
		return e.in.mk(Expr{Op: "builtin", Aux: x.Name(), T: x.Type()})
	}
	if r, ok := s.env[v]; ok {
		return r
	}
	e.fail("no value for %s in %s", v.Name(), v.Parent())
	return nil
}

// Len of a slice, map, string, array.
func (e *Engine) Len(x *Expr) *Expr {
	in := e.in
	switch x.Op {
	case "ite":
		return in.Map(x, e.Len)
	case "nil":
		return in.Int(0)
	case "slicelit":
		return in.Int(int64(len(x.Args)))
	case "append1":
		return in.AddInt(e.Len(x.Args[0]), 1)
	case "appends":
		return in.Add(e.Len(x.Args[0]), e.Len(x.Args[1]))
	case "makeslice":
		return x.Args[0]
	case "const":
		if s, ok := x.StrConst(); ok {
			return in.Int(int64(len(s)))
		}
	case "slice":
		lo, hi := x.Args[1], x.Args[2]
		if hi == nil {
			hi = e.Len(x.Args[0])
		}
		if lo == nil {
			return hi
		}
		d := in.Sub(hi, lo)
		if e.lens != nil {
			in.Map(d, func(l *Expr) *Expr { e.lens[l] = true; return l })
		}
		return d // slicing has checked it is not negative
	}
	t := x.T
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return in.Int(a.Len())
		}
	}
	return in.mk(Expr{Op: "len", Args: []*Expr{x}, T: types.Typ[types.Int]})
}

func (e *Engine) Slice(x, lo, hi, max *Expr, t types.Type) *Expr {
	in := e.in
	if x.Op == "ite" {
		return in.Map(x, func(l *Expr) *Expr { return e.Slice(l, lo, hi, max, t) })
	}
	if lo != nil {
		if n, ok := lo.IntConst(); ok && n == 0 {
			lo = nil
		}
	}
	_, isPtr := x.T.Underlying().(*types.Pointer)
	if x.Op != "nil" && hi != nil && max == nil && hi == e.Len(x) {
		hi = nil
	}
	if lo == nil && hi == nil && max == nil && !isPtr {
		return x
	}
	if x.Op == "appends" && lo != nil && hi == nil && max == nil && lo == e.Len(x.Args[0]) {
		return x.Args[1]
	}
	if x.Op == "slice" && x.Args[3] == nil {
		b, l0, h0 := x.Args[0], x.Args[1], x.Args[2]
		nl, nh := lo, hi
		if l0 != nil {
			if nl == nil {
				nl = l0
			} else {
				nl = in.Add(l0, nl)
			}
			if nh != nil {
				nh = in.Add(l0, nh)
			}
		}
		if nh == nil {
			nh = h0
		}
		var nm *Expr
		if max != nil {
			nm = max
			if l0 != nil {
				nm = in.Add(l0, max)
			}
		}
		return e.Slice(b, nl, nh, nm, t)
	}
	return in.mk(Expr{Op: "slice", Args: []*Expr{x, lo, hi, max}, T: t})
}

func (e *Engine) Append1(x, v *Expr, t types.Type) *Expr {
	if x.Op == "ite" {
		return e.in.Map(x, func(l *Expr) *Expr { return e.Append1(l, v, t) })
	}
	if x.Op == "nil" || (x.Op == "makeslice" && isZero(x.Args[0])) {
		return e.in.mk(Expr{Op: "slicelit", Args: []*Expr{v}, T: t})
	}
	if x.Op == "slicelit" {
		return e.in.mk(Expr{Op: "slicelit", Args: append(append([]*Expr{}, x.Args...), v), T: t})
	}
	x = e.full(x, t)
	return e.in.mk(Expr{Op: "append1", Args: []*Expr{x, v}, T: t})
}

func isZero(x *Expr) bool { n, ok := x.IntConst(); return ok && n == 0 }

// IsEmptySlice: a slice value known to hold no elements.
func IsEmptySlice(x *Expr) bool {
	switch x.Op {
	case "nil":
		return true
	case "makeslice":
		return isZero(x.Args[0])
	case "slicelit":
		return len(x.Args) == 0
	case "slice":
		if a := x.Args[0]; a.Op == "alloc" && a.T != nil {
			if ar, ok := derefT(a.T).Underlying().(*types.Array); ok && ar.Len() == 0 {
				return true
			}
		}
		return x.Args[1] == nil && x.Args[2] != nil && isZero(x.Args[2])
	}
	return false
}

func (e *Engine) Appends(x, y *Expr, t types.Type) *Expr {
	if y.Op == "ite" && e.in.leafCount(y) <= 4 {
		return e.in.Map(y, func(l *Expr) *Expr { return e.Appends(x, l, t) })
	}
	if y.Op == "nil" {
		return x
	}
	if y.Op == "slicelit" {
		for _, v := range y.Args {
			x = e.Append1(x, v, t)
		}
		return x
	}
	if x.Op == "ite" {
		return e.in.Map(x, func(l *Expr) *Expr { return e.Appends(l, y, t) })
	}
	if x.Op == "nil" || x.Op == "makeslice" && isZero(x.Args[0]) || x.Op == "slicelit" && len(x.Args) == 0 {
		x = e.in.mk(Expr{Op: "slicelit", T: t})
	}
	if y.Op == "appends" && y.Args[0].Op == "slicelit" {
		// what is copied into a new slice first is appended all the same
		return e.Appends(e.Appends(x, y.Args[0], t), y.Args[1], t)
	}
	x = e.full(x, t)
	return e.in.mk(Expr{Op: "appends", Args: []*Expr{x, y}, T: t})
}

// full: appending to a slice without spare capacity copies it.
func (e *Engine) full(x *Expr, t types.Type) *Expr {
	if x.Op == "slice" && x.Args[2] != nil && x.Args[2] == x.Args[3] {
		y := e.Slice(x.Args[0], x.Args[1], x.Args[2], nil, t)
		return e.in.mk(Expr{Op: "appends", Args: []*Expr{e.in.mk(Expr{Op: "slicelit", T: t}), y}, T: t})
	}
	return x
}

func sortedKeys[M ~map[string]V, V any](m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// reachable: the local objects an event's operands lead to, and their content.
func (e *Engine) reachable(s *State, ev *Event) map[*Expr]*Expr {
	if len(s.mem) == 0 || ev.Kind == "loop" || ev.Kind == "append" {
		return nil
	}
	var out map[*Expr]*Expr
	seen := map[*Expr]bool{}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.Op == "alloc" {
			if c, ok := s.mem[x]; ok {
				if out == nil {
					out = map[*Expr]*Expr{}
				}
				out[x] = c
				rec(c)
			}
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	for _, a := range ev.Args {
		rec(a)
	}
	rec(ev.FnV)
	return out
}
