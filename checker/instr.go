package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// IN is the interner of the running check.
var IN *Interner

func (e *Engine) instr(s *State, ins ssa.Instruction) *State {
	in := e.in
	set := func(v ssa.Value, x *Expr) { s.env[v] = x }
	switch x := ins.(type) {
	case *ssa.Alloc:
		a := in.mk(Expr{Op: "alloc", Aux: e.insKey(x), T: x.Type()})
		set(x, a)
		s.mem[a] = in.Zero(derefT(x.Type()))
		if x.Comment == "varargs" || x.Comment == "slicelit" {
			a.N = 1
		}
	case *ssa.BinOp:
		set(x, e.binop(s, x.Op, e.val(s, x.X), e.val(s, x.Y), x.Type(), x.X.Type()))
	case *ssa.UnOp:
		v := e.val(s, x.X)
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if c := e.fixedGlobal(g); c != nil {
					set(x, c)
					break
				}
			}
			if x.X.Type().Underlying().(*types.Pointer) != nil {
				set(x, e.load(s, v, x.Type()))
			}
		case token.NOT:
			set(x, in.Not(v))
		case token.SUB:
			set(x, in.Neg(v))
		case token.ARROW:
			ev := e.emit(s, &Event{Kind: "recv", Name: "recv", Args: []*Expr{v}}, x)
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				set(x, in.mk(Expr{Op: "tuple", Args: []*Expr{e.res(ev, 0, tt.At(0).Type()), e.res(ev, 1, tt.At(1).Type())}, T: x.Type()}))
			} else {
				set(x, e.res(ev, 0, x.Type()))
			}
		default:
			set(x, in.B(in.OpAux("unop", x.Op.String(), x.Type(), v)))
		}
	case *ssa.FieldAddr:
		st := derefT(x.X.Type())
		ft := st.Underlying().(*types.Struct).Field(x.Field).Type()
		set(x, e.faddrS(e.val(s, x.X), x.Field, st, ft))
	case *ssa.Field:
		set(x, in.Field(e.val(s, x.X), x.Field))
	case *ssa.IndexAddr:
		base := e.val(s, x.X)
		et := derefT(x.Type())
		set(x, e.iaddr(base, e.val(s, x.Index), et))
	case *ssa.Index:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		set(x, in.Index(b, i))
	case *ssa.Store:
		e.store(s, e.val(s, x.Addr), e.val(s, x.Val), x.Val.Type(), x)
	case *ssa.MakeInterface:
		set(x, e.val(s, x.X))
	case *ssa.ChangeInterface:
		set(x, e.val(s, x.X))
	case *ssa.ChangeType:
		v := e.val(s, x.X)
		set(x, e.retype(v, x.Type()))
	case *ssa.Convert:
		v := e.val(s, x.X)
		if isNumeric(x.Type()) && isNumeric(x.X.Type()) {
			if isInteger(x.X.Type()) == isInteger(x.Type()) {
				set(x, v)
				break
			}
			if c, ok := v.NumConst(); ok && (c.IsInt() || !isInteger(x.Type())) {
				set(x, in.Lin(nil, nil, c, x.Type()))
				break
			}
		}
		set(x, in.Map(v, func(l *Expr) *Expr {
			return in.OpAux("conv", typeKey(x.Type().Underlying()), x.Type(), l)
		}))
	case *ssa.TypeAssert:
		v := e.val(s, x.X)
		if x.CommaOk {
			ok := in.B(in.OpAux("typeis", typeKey(x.AssertedType), types.Typ[types.Bool], v))
			set(x, in.mk(Expr{Op: "tuple", Args: []*Expr{v, ok}, T: x.Type()}))
		} else {
			if !types.IsInterface(x.AssertedType) && v.Op != "ite" {
				s.ver["dyn:"+itoa(v.id)] = in.mk(Expr{Op: "typ", Aux: typeKey(x.AssertedType), T: x.AssertedType})
			}
			set(x, v)
		}
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.Op == "tuple" {
			set(x, t.Args[x.Index])
		} else {
			set(x, in.B(in.OpAux("extract", fmt.Sprint(x.Index), x.Type(), t)))
		}
	case *ssa.MakeClosure:
		var bs []*Expr
		for _, b := range x.Bindings {
			bs = append(bs, e.val(s, b))
		}
		f := x.Fn.(*ssa.Function)
		c := in.mk(Expr{Op: "closure", Aux: f.String(), Args: bs, T: x.Type(), Clo: &Closure{f, bs}})
		set(x, c)
	case *ssa.MakeSlice:
		ms := in.mk(Expr{Op: "makeslice", Aux: e.insKey(x), Args: []*Expr{e.val(s, x.Len), e.val(s, x.Cap)}, T: x.Type()})
		e.made[ms] = &msInfo{guard: s.guard, in: e.inLoop}
		set(x, ms)
	case *ssa.MakeMap:
		t := x.Type()
		if truthSet(x) {
			t = setType(x.Type())
		}
		set(x, in.mk(Expr{Op: "makemap", Aux: e.insKey(x), T: t}))
	case *ssa.MakeChan:
		k := e.insKey(x)
		if e.chans == nil {
			e.chans = map[string]int{}
		}
		n, ok := e.chans[k]
		if !ok {
			n = len(e.chans)
			e.chans[k] = n
		}
		set(x, in.mk(Expr{Op: "makechan", Aux: k, N: n, Args: []*Expr{e.val(s, x.Size)}, T: x.Type()}))
	case *ssa.Slice:
		e.sliceIns(s, x)
	case *ssa.Lookup:
		m, k := e.val(s, x.X), e.val(s, x.Index)
		if isString(x.X.Type()) {
			set(x, in.Op("strindex", x.Type(), m, k))
			break
		}
		mt := x.X.Type().Underlying().(*types.Map)
		c := mapClass(x.X)
		v := e.lookup(s, m, k, mt.Elem(), c)
		if x.CommaOk {
			args := []*Expr{m, k}
			if s.ver[c] != nil {
				args = append(args, s.ver[c])
			}
			ok := in.B(in.Op("has", types.Typ[types.Bool], args...))
			set(x, in.mk(Expr{Op: "tuple", Args: []*Expr{v, ok}, T: x.Type()}))
		} else {
			set(x, v)
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		c := mapClass(x.Map)
		if truthSet(x.Map) {
			v = in.Bool(true)
		}
		e.emit(s, &Event{Kind: "mapupdate", Name: "mapupdate", Args: []*Expr{m, k, v}}, x)
		e.havoc(s, c, e.insKey(x))
		s.hv[in.mk(Expr{Op: "mapaddr", Aux: c, Args: []*Expr{m, k}, T: types.NewPointer(mt.Elem())})] = v
	case *ssa.Range:
		set(x, in.mk(Expr{Op: "rangeof", Aux: e.insKey(x), Args: []*Expr{e.val(s, x.X)}, T: x.Type()}))
	case *ssa.Next:
		it := e.val(s, x.Iter)
		ev := e.emit(s, &Event{Kind: "next", Name: "next", Args: []*Expr{it.Args[0]}}, x)
		tt := x.Type().(*types.Tuple)
		args := make([]*Expr, 3)
		for i := range args {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				t = types.Typ[types.Int]
			}
			args[i] = e.res(ev, i, t)
		}
		set(x, in.mk(Expr{Op: "tuple", Args: args, T: x.Type()}))
	case *ssa.Send:
		e.emit(s, &Event{Kind: "send", Name: "send", Args: []*Expr{e.val(s, x.Chan), e.val(s, x.X)}}, x)
	case *ssa.Go:
		e.goOrDefer(s, x, &x.Call, "go")
	case *ssa.Defer:
		ev := e.goOrDefer(s, x, &x.Call, "defer")
		s.defs = append(s.defs, ev)
	case *ssa.RunDefers:
		for i := len(s.defs) - 1; i >= 0; i-- {
			d := s.defs[i]
			ev := *d
			ev.Kind = "call"
			ev.Defer = true
			ev.Key = ""
			if f, args, free := e.target(d); f != nil && e.inlinable(f) {
				e.push("defer:" + d.Key)
				ns, _ := e.call(s, f, args, free)
				e.pop()
				if ns == nil {
					return nil
				}
				s = ns
			} else if f != nil && len(free) == 0 {
				e.push("defer:" + d.Key)
				ns, _ := e.static(s, x, nil, f, args, nil)
				e.pop()
				if ns == nil {
					return nil
				}
				s = ns
			} else {
				if ev.FnV != nil && ev.FnV.Op == "fn" {
					ev.FnV = nil
				} else if ev.FnV != nil && ev.FnV.Op == "builtin" && ev.FnV.Aux == "close" {
					ev.FnV, ev.Kind, ev.Name = nil, "close", "close"
				}
				e.emit(s, &ev, x)
			}
		}
		s.defs = nil
	case *ssa.Select:
		ev := e.emit(s, &Event{Kind: "select", Name: "select"}, x)
		tt := x.Type().(*types.Tuple)
		args := make([]*Expr, tt.Len())
		for i := range args {
			args[i] = e.res(ev, i, tt.At(i).Type())
		}
		set(x, in.mk(Expr{Op: "tuple", Args: args, T: x.Type()}))
	case *ssa.Call:
		ns, r := e.callIns(s, x, &x.Call)
		if ns == nil {
			return nil
		}
		s = ns
		switch len(r) {
		case 0:
			s.env[x] = in.Nil(nil)
		case 1:
			s.env[x] = r[0]
		default:
			s.env[x] = in.mk(Expr{Op: "tuple", Args: r, T: x.Type()})
		}
	default:
		e.fail("unsupported instruction %T", ins)
	}
	return s
}

func (e *Engine) faddrS(x *Expr, i int, st types.Type, ft types.Type) *Expr {
	r := e.faddr(x, i, st, ft)
	for _, l := range Leaves(r) {
		l.strct, _ = st.Underlying().(*types.Struct)
	}
	return r
}

func (e *Engine) retype(v *Expr, t types.Type) *Expr {
	if v.Op == "struct" && !types.Identical(v.T, t) {
		return e.in.Struct(t, v.Args)
	}
	return v
}

// truthSet: a map that stays within functions whose every use of it is seen here
// (variables, closures and parameters it passes through included), and whose
// entries say nothing more than that they are there.
func truthSet(v ssa.Value) bool {
	mt, ok := v.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	switch t := mt.Elem().Underlying().(type) {
	case *types.Struct:
		if t.NumFields() > 0 {
			return false
		}
	case *types.Basic:
		if t.Kind() != types.Bool {
			return false
		}
	default:
		return false
	}
	if r, ok := truthSets[v]; ok {
		return r
	}
	w := &mapWalk{seen: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}}
	r := w.value(v)
	for x := range w.seen {
		truthSets[x] = r
	}
	return r
}

var (
	truthSets = map[ssa.Value]bool{}
	callSites = map[*ssa.Function][]ssa.CallInstruction{}
	otherUses = map[*ssa.Function]bool{}
	scanned   = map[*ssa.Program]bool{}
)

type mapWalk struct{ seen, cells map[ssa.Value]bool }

func (w *mapWalk) value(v ssa.Value) bool {
	if w.seen[v] {
		return true
	}
	w.seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeMap:
	case *ssa.Const:
		return x.Value == nil
	case *ssa.UnOp:
		if x.Op != token.MUL || !w.cell(x.X) {
			return false
		}
	case *ssa.Phi:
		for _, a := range x.Edges {
			if !w.value(a) {
				return false
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		scanCalls(f.Prog)
		if otherUses[f] || len(callSites[f]) == 0 || f.Object() != nil && f.Object().Exported() {
			return false
		}
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, c := range callSites[f] {
				if !w.value(c.Common().Args[i]) {
					return false
				}
			}
		}
	case *ssa.Call:
		if !w.results(x.Common().StaticCallee(), 0) {
			return false
		}
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok || !w.results(c.Common().StaticCallee(), x.Index) {
			return false
		}
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map != v {
				return false
			}
			if _, isBool := x.Value.Type().Underlying().(*types.Basic); isBool {
				c, ok := x.Value.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Bool || !constant.BoolVal(c.Value) {
					return false
				}
			}
		case *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Range: // only the keys are looked at
			for _, r := range *x.Referrers() {
				nx, ok := r.(*ssa.Next)
				if !ok {
					return false
				}
				for _, r := range *nx.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == 2 && len(*ex.Referrers()) > 0 {
						return false
					}
				}
			}
		case *ssa.Phi:
			if !w.value(x) {
				return false
			}
		case *ssa.Return:
			f := x.Parent()
			for i, a := range x.Results {
				if a == v && !w.results(f, i) {
					return false
				}
			}
		case *ssa.Store:
			if x.Val != v || !w.cell(x.Addr) {
				return false
			}
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				if b.Name() != "len" && b.Name() != "delete" {
					return false
				}
				continue
			}
			f := x.Common().StaticCallee()
			if f == nil || len(f.Blocks) == 0 || len(f.Params) != len(x.Common().Args) {
				return false
			}
			for i, a := range x.Common().Args {
				if a == v && !w.value(f.Params[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// results: what f returns in place i, at every call of it.
func (w *mapWalk) results(f *ssa.Function, i int) bool {
	if f == nil || len(f.Blocks) == 0 || f.Object() == nil || f.Object().Exported() {
		return false
	}
	scanCalls(f.Prog)
	if otherUses[f] {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !w.value(r.Results[i]) {
			return false
		}
	}
	for _, c := range callSites[f] {
		call, ok := c.(*ssa.Call)
		if !ok {
			return false
		}
		if f.Signature.Results().Len() == 1 {
			if !w.value(call) {
				return false
			}
			continue
		}
		for _, r := range *call.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == i && !w.value(ex) {
				return false
			}
		}
	}
	return true
}

func (w *mapWalk) cell(v ssa.Value) bool {
	if w.cells[v] {
		return true
	}
	w.cells[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
	case *ssa.FreeVar:
		f := x.Parent()
		p := f.Parent()
		if p == nil {
			return false
		}
		for i, fv := range f.FreeVars {
			if fv != x {
				continue
			}
			for _, b := range p.Blocks {
				for _, ins := range b.Instrs {
					if m, ok := ins.(*ssa.MakeClosure); ok && m.Fn == f && !w.cell(m.Bindings[i]) {
						return false
					}
				}
			}
		}
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if !w.value(x) {
				return false
			}
		case *ssa.Store:
			if x.Addr != v || !w.value(x.Val) {
				return false
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !w.cell(f.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func scanCalls(p *ssa.Program) {
	if scanned[p] {
		return
	}
	scanned[p] = true
	for f := range ssautil.AllFunctions(p) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Function
				if c, ok := ins.(ssa.CallInstruction); ok {
					if callee = c.Common().StaticCallee(); callee != nil {
						callSites[callee] = append(callSites[callee], c)
					}
				}
				for i, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(i == 0 && g == callee) {
						otherUses[g] = true
					}
				}
			}
		}
	}
}

func setType(t types.Type) types.Type {
	return types.NewMap(t.Underlying().(*types.Map).Key(), types.NewStruct(nil, nil))
}

func isSetType(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	st, ok := m.Elem().Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

func mapClass(v ssa.Value) string {
	if truthSet(v) {
		return "map:" + typeKey(setType(v.Type()).Underlying())
	}
	return "map:" + typeKey(v.Type().Underlying())
}

func (e *Engine) lookup(s *State, m, k *Expr, et types.Type, c string) *Expr {
	in := e.in
	return in.MapN([]*Expr{m, k}, func(a []*Expr) *Expr {
		m, k := a[0], a[1]
		if m.Op == "nil" {
			return in.Zero(et)
		}
		ad := in.mk(Expr{Op: "mapaddr", Aux: c, Args: []*Expr{m, k}, T: types.NewPointer(et)})
		if v, ok := s.hv[ad]; ok {
			return v
		}
		args := []*Expr{m, k}
		if s.ver[c] != nil {
			args = append(args, s.ver[c])
		} else if m.Op == "makemap" {
			return in.Zero(et)
		}
		has := in.B(in.Op("has", types.Typ[types.Bool], args...))
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && m.Op == "makemap" && isSetType(m.T) {
			return has
		}
		n := 0
		if m.Op == "load" && len(m.Args) == 1 && m.Args[0].Op == "global" && e.p.functionTable(m.Args[0].Aux) {
			n = 1
		}
		return in.ITE(has, in.B(in.mk(Expr{Op: "lookup", Args: args, T: et, N: n})), in.Zero(et))
	})
}

func (e *Engine) sliceIns(s *State, x *ssa.Slice) {
	get := func(v ssa.Value) *Expr {
		if v == nil {
			return nil
		}
		return e.val(s, v)
	}
	b := e.val(s, x.X)
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if al, ok := x.X.(*ssa.Alloc); ok {
		if ar, ok := derefT(al.Type()).Underlying().(*types.Array); ok && ar.Len() == 0 {
			s.env[x] = e.in.mk(Expr{Op: "slicelit", T: x.Type()})
			return
		}
	}
	if b.Op == "alloc" && lo == nil && hi == nil && max == nil && (b.N == 1 || frozenAfter(x)) {
		if c, ok := s.mem[b]; ok && c.Op == "array" {
			s.env[x] = e.in.mk(Expr{Op: "slicelit", Args: c.Args, T: x.Type()})
			return
		}
	}
	s.env[x] = e.Slice(b, lo, hi, max, x.Type())
}

// frozenAfter: the sliced array variable is never touched again after the
// slice expression, so that its content is the slice's content.
func frozenAfter(x *ssa.Slice) bool {
	al, ok := x.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	before := func(i ssa.Instruction) bool {
		if i.Block() == x.Block() {
			for _, y := range x.Block().Instrs {
				if y == i {
					return true
				}
				if y == ssa.Instruction(x) {
					return false
				}
			}
		}
		return i.Block().Dominates(x.Block())
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Slice:
			if y != x {
				return false
			}
		case *ssa.IndexAddr:
			if y.Referrers() == nil {
				continue
			}
			for _, z := range *y.Referrers() {
				if st, ok := z.(*ssa.Store); !ok || st.Addr != ssa.Value(y) || !before(st) {
					return false
				}
			}
		case *ssa.Store:
			if y.Addr != ssa.Value(al) || !before(y) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (e *Engine) binop(s *State, op token.Token, a, b *Expr, t, ot types.Type) *Expr {
	in := e.in
	switch op {
	case token.EQL:
		return e.eq(a, b, ot)
	case token.NEQ:
		return in.Not(e.eq(a, b, ot))
	}
	if isNumeric(ot) {
		switch op {
		case token.ADD:
			return in.Add(a, b)
		case token.SUB:
			return in.Sub(a, b)
		case token.MUL:
			return in.Mul(a, b)
		case token.QUO:
			return in.Div(a, b, t)
		case token.LSS:
			return in.Rel(a, "<", b)
		case token.LEQ:
			return in.Rel(a, "<=", b)
		case token.GTR:
			return in.Rel(a, ">", b)
		case token.GEQ:
			return in.Rel(a, ">=", b)
		}
	}
	if isString(ot) && op == token.ADD {
		return in.MapN([]*Expr{a, b}, func(x []*Expr) *Expr {
			if p, ok := x[0].StrConst(); ok {
				if q, ok := x[1].StrConst(); ok {
					return in.Const(constant.MakeString(p+q), t)
				}
			}
			return in.Op("concat", t, x...)
		})
	}
	if op == token.REM || op == token.AND || op == token.OR || op == token.XOR || op == token.SHL || op == token.SHR || op == token.AND_NOT || isString(ot) {
		return in.MapN([]*Expr{a, b}, func(x []*Expr) *Expr {
			return in.B(in.OpAux("binop", op.String(), t, x...))
		})
	}
	return in.B(in.OpAux("binop", op.String(), t, a, b))
}

func (e *Engine) eq(a, b *Expr, t types.Type) *Expr {
	if st, ok := t.Underlying().(*types.Struct); ok && (a.Op == "struct" || b.Op == "struct") {
		r := e.in.Bool(true)
		for i := 0; i < st.NumFields(); i++ {
			r = e.in.And(r, e.eq(e.in.Field(a, i), e.in.Field(b, i), st.Field(i).Type()))
		}
		return r
	}
	if isBool(t) {
		return e.in.ITE(a, b, e.in.Not(b))
	}
	return e.in.Eq(a, b)
}

// ---------------------------------------------------------------- calls

func (e *Engine) push(k string) { e.ctx = append(e.ctx, k) }
func (e *Engine) pop()          { e.ctx = e.ctx[:len(e.ctx)-1] }

func (e *Engine) goOrDefer(s *State, ins ssa.Instruction, c *ssa.CallCommon, kind string) *Event {
	fv, args := e.operands(s, c)
	ev := &Event{Kind: kind, FnV: fv, Args: args, Sig: c.Signature(), Snap: s.clone()}
	if fv.Op == "fn" {
		ev.Fn = fv.Fn
		ev.Name = shortName(fv.Fn)
	} else if fv.Op == "closure" {
		ev.Fn = fv.Clo.Fn
		ev.Name = shortName(fv.Clo.Fn)
	} else {
		ev.Name = "dyn"
	}
	if ev.Fn != nil && e.inlinable(ev.Fn) {
		ev.Name = "func" // known by what it does
	}
	if c.IsInvoke() {
		ev.Name = c.Method.Name()
	}
	if kind == "defer" && ev.Fn != nil && isLockOp(ev.Fn) {
		return ev
	}
	for _, a := range args {
		e.escape(s, a)
	}
	e.escape(s, fv)
	return e.emit(s, ev, ins)
}

// target function of a recorded go/defer event
func (e *Engine) target(ev *Event) (*ssa.Function, []*Expr, []*Expr) {
	if ev.FnV == nil {
		return nil, nil, nil
	}
	switch ev.FnV.Op {
	case "fn":
		return ev.FnV.Fn, ev.Args, nil
	case "closure":
		return ev.FnV.Clo.Fn, ev.Args, ev.FnV.Clo.Bindings
	}
	return nil, nil, nil
}

func (e *Engine) operands(s *State, c *ssa.CallCommon) (*Expr, []*Expr) {
	var args []*Expr
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	if c.IsInvoke() {
		return e.in.OpAux("method", c.Method.FullName(), nil, e.val(s, c.Value)), args
	}
	return e.val(s, c.Value), args
}

func (e *Engine) escape(s *State, x *Expr) {
	seen := map[*Expr]bool{}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.Op == "alloc" && !s.esc[x] {
			s.esc[x] = true
			rec(s.mem[x])
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(x)
}

func (e *Engine) inlinable(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	for _, g := range e.stack {
		if g == f {
			return false
		}
	}
	if e.cfg.Keep != nil && e.cfg.Keep(f) {
		return false
	}
	return e.p.InRepo(f) || inlineExternal(f)
}

// small accessors of dependencies that are analysed rather than modelled
func inlineExternal(f *ssa.Function) bool {
	switch shortName(f) {
	case "geom.Coords.Pt", "geom.Coords.Slice", "geom.Coords.Len", "geom.Coords.FirstIndex",
		"geom.Coords.LastIndex", "geom.Coords.First", "geom.Coords.Last", "geom.LineString.Pt",
		"geom.LineString.LenVertices", "mbr.MBR.BBox":
		return true
	}
	return f.Synthetic != "" && f.Pkg == nil // wrappers and thunks
}

func (e *Engine) callIns(s *State, ins ssa.Instruction, c *ssa.CallCommon) (*State, []*Expr) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(s, ins, b.Name(), c)
	}
	fv, args := e.operands(s, c)
	if c.IsInvoke() {
		return e.invoke(s, ins, c, fv.Args[0], args)
	}
	return e.callValue(s, ins, c, fv, args)
}

func (e *Engine) callValue(s *State, ins ssa.Instruction, c *ssa.CallCommon, fv *Expr, args []*Expr) (*State, []*Expr) {
	switch fv.Op {
	case "fn":
		return e.static(s, ins, c, fv.Fn, args, nil)
	case "closure":
		return e.static(s, ins, c, fv.Clo.Fn, args, fv.Clo.Bindings)
	case "ite":
		// one of several known functions
		known := true
		for _, l := range Leaves(fv) {
			if l.Op != "fn" && l.Op != "closure" {
				known = false
			}
		}
		if known {
			var sts []*State
			var rs [][]*Expr
			for i, l := range Leaves(fv) {
				b := s.clone()
				b.guard = e.in.And(s.guard, e.in.Selects(fv, l))
				if isFalse(b.guard) || !Feasible(b.guard) {
					continue
				}
				e.push(fmt.Sprintf("alt%d", i))
				ns, r := e.callValue(b, ins, c, l, args)
				e.pop()
				if ns != nil {
					sts, rs = append(sts, ns), append(rs, r)
				}
			}
			if len(sts) == 0 {
				return nil, nil
			}
			gs, g := e.gates(sts)
			res := make([]*Expr, len(rs[0]))
			for k := range res {
				v := rs[len(rs)-1][k]
				for i := len(rs) - 2; i >= 0; i-- {
					v = e.in.ITE(gs[i], rs[i][k], v)
				}
				res[k] = e.in.Restrict(v, g)
			}
			return e.mergeStates(sts, gs, g, e.insKey(ins)), res
		}
	}
	// unknown function value: by assumption a deterministic, effect-free
	// score/relation/callback (checked separately for the functions the
	// repository passes)
	all := append([]*Expr{fv}, args...)
	local := false
	for _, a := range args {
		for _, l := range Leaves(a) {
			if r, _ := localRoot(l); r != nil {
				local = true
			}
		}
	}
	if local { // depends on what the objects hold when it is called
		ev := e.record(s, &Event{Kind: "call", Name: "dyn", Args: all, Sig: c.Signature()}, ins)
		return s, e.results(ev, c.Signature())
	}
	return s, e.pure("dyn", c.Signature(), all)
}

func (e *Engine) pure(name string, sig *types.Signature, args []*Expr) []*Expr {
	n := sig.Results().Len()
	out := make([]*Expr, n)
	for i := range out {
		i := i
		out[i] = e.in.MapN(args, func(a []*Expr) *Expr {
			aux := name
			if n > 1 {
				aux = fmt.Sprintf("%s/%d", name, i)
			}
			return e.in.B(e.in.mk(Expr{Op: "call", Aux: aux, N: i, Args: a, T: sig.Results().At(i).Type()}))
		})
	}
	return out
}

func (e *Engine) invoke(s *State, ins ssa.Instruction, c *ssa.CallCommon, recv *Expr, args []*Expr) (*State, []*Expr) {
	m := c.Method
	if t := s.ver["dyn:"+itoa(recv.id)]; t != nil && t.Op == "typ" {
		if f := ins.Parent().Prog.LookupMethod(t.T, m.Pkg(), m.Name()); f != nil {
			return e.static(s, ins, c, f, append([]*Expr{recv}, args...), nil)
		}
	}
	all := append([]*Expr{recv}, args...)
	pkg := ""
	if m.Pkg() != nil {
		pkg = m.Pkg().Name()
	}
	return e.extCall(s, ins, c, nil, pkg, "", m.Name(), all, c.Signature())
}

func (e *Engine) static(s *State, ins ssa.Instruction, c *ssa.CallCommon, f *ssa.Function, args, free []*Expr) (*State, []*Expr) {
	// bound-method and promoted-method wrappers
	if e.cfg.Model != nil {
		if r, ok := e.cfg.Model(e, s, c, f, args); ok {
			return s, r
		}
	}
	if e.inlinable(f) {
		e.push(e.p.siteKey(ins))
		defer e.pop()
		return e.call(s, f, args, free)
	}
	if e.p.InRepo(f) {
		return e.opaque(s, ins, f, append(append([]*Expr{}, args...), free...))
	}
	pkg, recv := "", ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			recv = n.Obj().Name()
			if n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Name()
			}
		}
	}
	return e.extCall(s, ins, c, f, pkg, recv, f.Name(), args, f.Signature)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// opaque is a kept in-repo call (or recursion).
func (e *Engine) opaque(s *State, ins ssa.Instruction, f *ssa.Function, args []*Expr) (*State, []*Expr) {
	ev := e.emit(s, &Event{Kind: "call", Name: shortName(f), Fn: f, Args: args, Sig: f.Signature}, ins)
	mod := e.p.Mods(f)
	e.applyMods(s, ev, args, mod)
	e.callbacks(s, ev, args)
	out := e.results(ev, f.Signature)
	for i := range out {
		// a method that hands its receiver back
		if k := e.p.ReturnsParam(f, i); k >= 0 && k < len(args) {
			out[i] = args[k]
		}
	}
	return s, out
}

func (e *Engine) results(ev *Event, sig *types.Signature) []*Expr {
	n := sig.Results().Len()
	out := make([]*Expr, n)
	for i := range out {
		out[i] = e.res(ev, i, sig.Results().At(i).Type())
	}
	return out
}

// applyMods forgets the storage a callee may write: the classes it writes and
// the local objects handed to it.
func (e *Engine) applyMods(s *State, ev *Event, args []*Expr, mod *ModSet) {
	for c := range mod.Classes {
		e.havocBy(s, c, ev.Key, ev)
	}
	for i, a := range args {
		for _, l := range Leaves(a) {
			r, path := localRoot(l)
			if l.Op == "slice" {
				r, path = localRoot(l.Args[0])
			}
			if r == nil {
				continue
			}
			if c, ok := s.mem[r]; ok && mod.touches(derefT(l.T)) {
				old := e.project(c, path)
				s.mem[r] = e.update(c, path, e.outv(ev, i, "", old.T))
			}
		}
		if ev.Fn != nil && len(args) == len(ev.Fn.Params) && !e.p.Retains(ev.Fn, i) {
			for _, l := range Leaves(a) {
				if r, _ := localRoot(l); r != nil {
					e.escape(s, s.mem[r])
				}
			}
			continue
		}
		e.escape(s, a)
	}
	// escaped locals may be reached indirectly
	for a := range s.esc {
		c, ok := s.mem[a]
		if !ok {
			continue
		}
		s.mem[a] = e.forget(c, derefT(a.T), mod, ev, a.Aux)
	}
}

// callbacks: a function handed to a call may run, any number of times, before the
// call returns; what it writes is not known afterwards.
func (e *Engine) callbacks(s *State, ev *Event, args []*Expr) {
	for _, a := range args {
		for _, l := range Leaves(a) {
			if l.Clo == nil || l.Clo.Fn == nil {
				continue
			}
			mod := e.p.Mods(l.Clo.Fn)
			for c := range mod.Classes {
				e.havocBy(s, c, ev.Key, ev)
			}
			for _, b := range l.Clo.Bindings {
				r, _ := localRoot(b)
				if r == nil {
					continue
				}
				e.escape(s, r)
			}
			if len(mod.Classes) == 0 {
				continue
			}
			for a := range s.esc {
				if c, ok := s.mem[a]; ok {
					s.mem[a] = e.forget(c, derefT(a.T), mod, ev, a.Aux)
				}
			}
		}
	}
}

// forget replaces the parts of an escaped object's content that mod may write.
func (e *Engine) forget(c *Expr, t types.Type, mod *ModSet, ev *Event, key string) *Expr {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		if mod.Classes["*"+typeKey(t)] {
			return e.symT("havoc", ev.Key+"/"+key, t, nil, 0)
		}
		return c
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		cl := "f:" + typeName(t) + "." + fmt.Sprint(i)
		if mod.Classes[cl] {
			c = e.in.WithField(c, i, e.symT("havoc", ev.Key+"/"+key+"."+st.Field(i).Name(), ft, nil, 0))
		} else if _, ok := ft.Underlying().(*types.Struct); ok {
			c = e.in.WithField(c, i, e.forget(e.in.Field(c, i), ft, mod, ev, key+"."+st.Field(i).Name()))
		}
	}
	return c
}

func (e *Engine) builtin(s *State, ins ssa.Instruction, name string, c *ssa.CallCommon) (*State, []*Expr) {
	in := e.in
	var args []*Expr
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			a := []*Expr{args[0]}
			if v := s.ver[mapClass(c.Args[0])]; v != nil {
				a = append(a, v)
			}
			return s, []*Expr{in.mk(Expr{Op: "len", Args: a, T: types.Typ[types.Int]})}
		}
		return s, []*Expr{e.Len(args[0])}
	case "cap":
		if args[0].Op == "makeslice" {
			return s, []*Expr{args[0].Args[1]}
		}
		return s, []*Expr{in.mk(Expr{Op: "cap", Args: []*Expr{args[0]}, T: types.Typ[types.Int]})}
	case "append":
		t := c.Args[0].Type()
		e.emit(s, &Event{Kind: "append", Name: "append", Args: args}, ins)
		return s, []*Expr{e.Appends(args[0], e.arrayElems(s, args[1], t), t)}
	case "copy":
		args[1] = e.arrayElems(s, args[1], c.Args[0].Type())
		ev := e.emit(s, &Event{Kind: "copy", Name: "copy", Args: args}, ins)
		et := elemType(c.Args[0].Type())
		cl := "[]" + typeKey(et)
		if args[0].Op == "makeslice" {
			cl += "#ms" + itoa(args[0].id)
		}
		e.havoc(s, cl, ev.Key)
		return s, []*Expr{e.res(ev, 0, types.Typ[types.Int])}
	case "delete":
		ev := e.emit(s, &Event{Kind: "mapdelete", Name: "delete", Args: args}, ins)
		e.havoc(s, mapClass(c.Args[0]), ev.Key)
		return s, nil
	case "close":
		e.emit(s, &Event{Kind: "close", Name: "close", Args: args}, ins)
		return s, nil
	case "panic":
		e.emit(s, &Event{Kind: "panic", Name: "panic"}, ins)
		return nil, nil
	case "min", "max":
		v := args[0]
		for _, w := range args[1:] {
			if name == "min" {
				v = in.ITE(in.Rel(w, "<", v), w, v)
			} else {
				v = in.ITE(in.Rel(w, ">", v), w, v)
			}
		}
		return s, []*Expr{v}
	case "print", "println", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" {
			return s, []*Expr{args[0]}
		}
		return s, nil
	}
	e.fail("builtin %s", name)
	return nil, nil
}

// shortName is pkg.Func or pkg.Type.Method.
func shortName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	name := f.Name()
	if f.Origin() != nil {
		f = f.Origin()
	}
	if p := f.Parent(); p != nil {
		return shortName(p) + name[strings.LastIndex(name, "$"):]
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	}
	recv := f.Signature.Recv()
	if recv == nil && f.Object() != nil {
		if sg, ok := f.Object().Type().(*types.Signature); ok && sg.Recv() != nil {
			recv = sg.Recv() // thunk of a method
		}
	}
	if recv != nil {
		if n := namedOf(recv.Type()); n != nil {
			if n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Name()
			}
			return pkg + "." + n.Obj().Name() + "." + name
		}
	}
	if pkg == "" && f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Name()
	}
	return pkg + "." + name
}

// arrayElems: a slice of a whole small array, as the elements it has now.
func (e *Engine) arrayElems(s *State, y *Expr, t types.Type) *Expr {
	if y.Op == "ite" && e.in.leafCount(y) <= 4 {
		return e.in.Map(y, func(l *Expr) *Expr { return e.arrayElems(s, l, t) })
	}
	if y.Op != "slice" || y.Args[1] != nil && !isZero(y.Args[1]) || y.Args[0].T == nil {
		return y
	}
	hi := -1
	if h := y.Args[2]; h != nil {
		if h.Op == "ite" && e.in.leafCount(h) <= 4 {
			return e.in.Map(h, func(l *Expr) *Expr {
				return e.arrayElems(s, e.in.mk(Expr{Op: "slice", Args: []*Expr{y.Args[0], y.Args[1], l, y.Args[3]}, T: y.T}), t)
			})
		}
		n, ok := h.IntConst()
		if !ok {
			return y
		}
		hi = int(n)
	}
	at, ok := derefT(y.Args[0].T).Underlying().(*types.Array)
	if !ok || at.Len() > 8 {
		return y
	}
	if _, isPtr := y.Args[0].T.Underlying().(*types.Pointer); !isPtr {
		return y
	}
	if hi < 0 || hi > int(at.Len()) {
		hi = int(at.Len())
	}
	els := make([]*Expr, hi)
	for k := range els {
		els[k] = e.load(s, e.iaddr(y.Args[0], e.in.Int(int64(k)), at.Elem()), at.Elem())
	}
	return e.in.mk(Expr{Op: "slicelit", Args: els, T: t})
}
