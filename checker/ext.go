package main

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects of the dependencies.  Everything not listed is a pure function of
// its arguments (and of the current version of the storage class given below).

// reads of mutable library objects: class whose version they observe
var extRead = map[string]string{
	"sset.SSet.Values": "ext:sset", "sset.SSet.Size": "ext:sset", "sset.SSet.Contains": "ext:sset", "sset.SSet.Get": "ext:sset",
	"sset.SSet.IsEmpty": "ext:sset", "sset.SSet.First": "ext:sset", "sset.SSet.Last": "ext:sset", "sset.SSet.Slice": "ext:sset", "sset.SSet.IndexOf": "ext:sset",
	"heap.Heap.Peek": "ext:heap", "heap.Heap.IsEmpty": "ext:heap", "heap.Heap.Size": "ext:heap",
	"rtree.RTree.Search": "ext:rtree", "rtree.RTree.All": "ext:rtree", "rtree.RTree.KNN": "ext:rtree",
	"index.Index.Search": "ext:index",
	"deque.Deque.Len":    "ext:deque", "deque.Deque.First": "ext:deque", "deque.Deque.Last": "ext:deque",
}

// effects: class whose version they change ("" = none of ours)
var extEffect = map[string]string{
	"sset.SSet.Extend": "ext:sset", "sset.SSet.Empty": "ext:sset", "sset.SSet.Add": "ext:sset", "sset.SSet.Remove": "ext:sset", "sset.SSet.ForEach": "",
	"sset.NewSSet": "", "sset.SSet.Pop": "ext:sset", "sset.SSet.PopLeft": "ext:sset",
	"heap.Heap.Push": "ext:heap", "heap.Heap.Pop": "ext:heap", "heap.NewHeap": "",
	"rtree.RTree.Load": "ext:rtree", "rtree.RTree.Insert": "ext:rtree", "rtree.RTree.Clear": "ext:rtree", "rtree.RTree.Remove": "ext:rtree", "rtree.NewRTree": "",
	"index.Index.Load": "ext:index", "index.NewIndex": "",
	"deque.Deque.Append": "ext:deque", "deque.Deque.AppendLeft": "ext:deque", "deque.Deque.Pop": "ext:deque", "deque.Deque.PopLeft": "ext:deque", "deque.Deque.Clear": "ext:deque", "deque.NewDeque": "",
	"iter.Igen.Next": "", "iter.NewIgen": "",
	"fan.Stream": "", "time.Now": "", "runtime.GOMAXPROCS": "",
}

var effectPkgs = map[string]bool{"sync": true, "flag": true, "log": true, "os": true, "fileutil": true, "exec": true, "ioutil": true, "bufio": true, "atomic": true, "rand": true, "context": true, "io": true, "signal": true}

var noReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true, "runtime.Goexit": true}

var symmetric = map[string]bool{"geom.Intersects": true, "geom.Distance": true, "geom.Intersection": true, "geom.Equals2D": true, "geom.Equals3D": true}

func (e *Engine) extCall(s *State, ins ssa.Instruction, c *ssa.CallCommon, f *ssa.Function, pkg, recv, name string, args []*Expr, sig *types.Signature) (*State, []*Expr) {
	in := e.in
	full := pkg + "." + name
	if recv != "" {
		full = pkg + "." + recv + "." + name
	}
	if f == nil && len(args) > 0 { // interface call: devirtualise when the dynamic type is known
		if g := e.devirt(args[0], c); g != nil {
			if e.inlinable(g) {
				e.push(e.p.siteKey(ins))
				defer e.pop()
				return e.call(s, g, args, nil)
			}
			return e.static(s, ins, c, g, args, nil)
		}
	}
	if pkg == "geom" && recv != "" || f == nil && pkg == "geom" {
		if name == "Geometry" && len(args) == 1 {
			return s, args[:1]
		}
		full = "geom." + name
		if symmetric[full] && len(args) == 2 && args[0].id > args[1].id {
			args = []*Expr{args[1], args[0]}
		}
	}
	switch {
	case pkg == "mbr" && recv == "MBR" && strings.HasPrefix(name, "ExpandInclude"):
		return e.expand(s, ins, name, args)
	case pkg == "sort" && (name == "Ints" || name == "Sort" || name == "Stable" || name == "Slice" || name == "SliceStable" || name == "Float64s" || name == "Strings"):
		return e.sortCall(s, ins, full, args)
	case pkg == "slices" && strings.HasPrefix(name, "Sort"):
		return e.sortCall(s, ins, full, args)
	case full == "json.Unmarshal":
		ev := e.emit(s, &Event{Kind: "call", Name: full, Args: args, Sig: sig}, ins)
		if len(args) == 2 {
			if r, path := localRoot(args[1]); r != nil {
				if c, ok := s.mem[r]; ok {
					old := e.project(c, path)
					s.mem[r] = e.update(c, path, e.outv(ev, 1, "", old.T))
				}
			}
		}
		return s, e.results(ev, sig)
	case strings.HasPrefix(full, "log.Print") || strings.HasPrefix(full, "fmt.Print") || full == "flag.PrintDefaults" || full == "runtime.GOMAXPROCS" || full == "time.Now" || full == "time.Since":
		// messages and timings are no part of what is promised
		return s, e.pure(full, sig, nil)
	case noReturn[full]:
		if pkg == "log" { // what is said, and in which format, does not matter
			args, full = nil, full[:len("log.Fatal")] // or log.Panic
		}
		e.emit(s, &Event{Kind: "exit", Name: full, Args: args, Sig: sig}, ins)
		return nil, nil
	}
	if cl, ok := extRead[full]; ok {
		if v := s.ver[cl]; v != nil {
			args = append(append([]*Expr{}, args...), v)
		}
		return s, e.pure(full, sig, args)
	}
	if f != nil && isLockOp(f) {
		return s, nil // where locks are held is for ruleLocks and ruleWorkers
	}
	if cl, ok := extEffect[full]; ok {
		ev := e.emit(s, &Event{Kind: "call", Name: full, Args: args, Sig: sig}, ins)
		if cl != "" {
			s.ver[cl] = in.mk(Expr{Op: "ver", Aux: ev.Key + "§" + cl})
		}
		for _, a := range args {
			e.escape(s, a)
		}
		e.callbacks(s, ev, args)
		out := e.results(ev, sig)
		if sig.Recv() != nil && len(out) == 1 && len(args) > 0 && types.Identical(sig.Recv().Type(), sig.Results().At(0).Type()) {
			out[0] = args[0] // these containers hand themselves back
		}
		return s, out
	}
	if effectPkgs[pkg] || strings.HasPrefix(full, "fmt.Print") || strings.HasPrefix(full, "fmt.Fprint") || strings.HasPrefix(full, "fmt.Scan") {
		ev := e.emit(s, &Event{Kind: "call", Name: full, Args: args, Sig: sig}, ins)
		return s, e.results(ev, sig)
	}
	switch full {
	case "math.Abs":
		if len(args) == 1 && isNumeric(args[0].T) {
			return s, []*Expr{in.ITE(in.Rel(args[0], "<", in.Lin(nil, nil, new(big.Rat), args[0].T)), in.Neg(args[0]), args[0])}
		}
	case "math.Min", "math.MinF64", "math.MinInt", "math.MinI64", "math.Max", "math.MaxF64", "math.MaxInt", "math.MaxI64":
		if len(args) == 2 {
			less := in.Rel(in.Sub(args[0], args[1]), "<", in.Lin(nil, nil, new(big.Rat), args[0].T))
			if strings.HasPrefix(full, "math.Min") {
				return s, []*Expr{in.ITE(less, args[0], args[1])}
			}
			return s, []*Expr{in.ITE(less, args[1], args[0])}
		}
	case "math.FloatEqual": // within 1e-12
		if len(args) == 2 {
			d := in.Sub(args[0], args[1])
			eps := in.Lin(nil, nil, new(big.Rat).SetFloat64(1e-12), d.T)
			return s, []*Expr{in.And(in.Rel(d, "<", eps), in.Rel(in.Neg(d), "<", eps))}
		}
	}
	// a pure function handed a local object reads its current content
	vals := make([]*Expr, len(args))
	for i, a := range args {
		vals[i] = a
		if a.Op == "alloc" && !s.esc[a] {
			if v, ok := s.mem[a]; ok {
				vals[i] = in.mk(Expr{Op: "ref", Args: []*Expr{v}, T: a.T})
			}
		}
	}
	return s, e.pure(full, sig, vals)
}

func (e *Engine) devirt(recv *Expr, c *ssa.CallCommon) *ssa.Function {
	if c == nil || !c.IsInvoke() || recv.T == nil || recv.Op == "ite" {
		return nil
	}
	if _, ok := recv.T.Underlying().(*types.Interface); ok {
		return nil
	}
	if b, ok := recv.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return nil
	}
	sel := e.p.Prog.MethodSets.MethodSet(recv.T).Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		return nil
	}
	return e.p.Prog.MethodValue(sel)
}

// expand models box growth as a pure function of the old box and the addend.
func (e *Engine) expand(s *State, ins ssa.Instruction, name string, args []*Expr) (*State, []*Expr) {
	t := derefT(args[0].T)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.fail("unexpected receiver of %s", name)
	}
	box := e.load(s, args[0], t)
	ops := []*Expr{box}
	for _, a := range args[1:] {
		if _, isPtr := a.T.Underlying().(*types.Pointer); isPtr {
			a = e.load(s, a, derefT(a.T))
		}
		ops = append(ops, a)
	}
	fs := make([]*Expr, st.NumFields())
	for i := range fs {
		fs[i] = e.in.mk(Expr{Op: "call", Aux: "mbr." + name + "/" + st.Field(i).Name(), N: i, Args: ops, T: st.Field(i).Type()})
	}
	e.store(s, args[0], e.in.Struct(t, fs), t, ins)
	return s, []*Expr{args[0]}
}

// sortCall permutes its argument in place.
func (e *Engine) sortCall(s *State, ins ssa.Instruction, full string, args []*Expr) (*State, []*Expr) {
	x := args[0]
	if pt, ok := x.T.Underlying().(*types.Pointer); ok && x.Op == "alloc" { // a wrapper, by address or by value
		if _, ok := pt.Elem().Underlying().(*types.Struct); ok && e.p.Prog.MethodSets.MethodSet(pt.Elem()).Len() >= 3 {
			x = e.load(s, x, pt.Elem())
			args = append([]*Expr{x}, args[1:]...)
		}
	}
	name := full
	if full == "sort.Ints" && sortedKnown(e, s, x) {
		name = "sort known"
	}
	// the structure a slice is read from is not among the elements sorted
	var kept []*Expr
	for _, l := range append([]*Expr{x}, x.Args...) {
		if l != nil && l.Op == "load" && l.Args[0].Op == "faddr" && elemType(l.T) != nil && e.load(s, l.Args[0], l.T) == l {
			kept = append(kept, l)
		}
	}
	defer func() {
		for _, l := range kept {
			s.hv[l.Args[0]] = l
		}
	}()
	ev := e.emit(s, &Event{Kind: "call", Name: name, Args: args}, ins)
	et := elemType(x.T)
	if et == nil { // wrapper holding the slice
		e.havoc(s, "ext:"+typeKey(x.T), ev.Key)
		if st, ok := derefT(x.T).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if t := elemType(st.Field(i).Type()); t != nil {
					m := map[string]bool{}
					addClasses(m, "[]"+typeKey(t), t)
					for _, c := range sortedKeys(m) {
						e.havoc(s, c, ev.Key)
					}
				}
			}
		}
		return s, nil
	}
	for _, l := range Leaves(x) {
		e.markMut(s, l, ev.Key)
		b := l
		for b.Op == "slice" {
			b = b.Args[0]
		}
		if r, path := localRoot(b); r != nil {
			if c, ok := s.mem[r]; ok {
				old := e.project(c, path)
				nv := e.outv(ev, 0, "", old.T)
				if old.Op == "array" && b != l && l.Args[1] == nil && l.Args[2] == nil {
					as := append([]*Expr{}, old.Args...)
					sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
					el := make([]*Expr, len(as))
					for i := range el {
						el[i] = e.in.mk(Expr{Op: "call", Aux: "sorted/" + itoa(i), N: i, Args: as, T: et})
					}
					nv = e.in.mk(Expr{Op: "array", Aux: old.Aux, Args: el, T: old.T})
				}
				s.mem[r] = e.update(c, path, nv)
			}
		}
	}
	m := map[string]bool{}
	addClasses(m, "[]"+typeKey(et), et)
	for _, c := range sortedKeys(m) {
		e.havoc(s, c, ev.Key)
	}
	if x.Op == "slicelit" && strings.HasSuffix(full, ".Ints") && len(x.Args) > 0 {
		lo, hi := x.Args[0], x.Args[0]
		for _, a := range x.Args[1:] {
			lo = e.in.ITE(e.in.Rel(a, "<", lo), a, lo)
			hi = e.in.ITE(e.in.Rel(a, ">", hi), a, hi)
		}
		s.hv[e.iaddr(x, e.in.Int(0), et)] = lo
		s.hv[e.iaddr(x, e.in.Int(int64(len(x.Args)-1)), et)] = hi
	}
	return s, nil
}

// sortedKnown: what the sorted slice holds is followed, the call itself shows nothing.
func sortedKnown(e *Engine, s *State, x *Expr) bool {
	for _, l := range Leaves(x) {
		if l.Op == "slicelit" {
			continue
		}
		b := l
		for b.Op == "slice" {
			b = b.Args[0]
		}
		r, path := localRoot(b)
		if r == nil || b == l || l.Args[1] != nil || l.Args[2] != nil {
			return false
		}
		c, ok := s.mem[r]
		if !ok || e.project(c, path).Op != "array" {
			return false
		}
	}
	return true
}

// markMut records that the elements of a functional slice value no longer are
// the ones it was built from.
func (e *Engine) markMut(s *State, x *Expr, key string) {
	for x != nil {
		s.ver[mutKey(x)] = e.in.mk(Expr{Op: "ver", Aux: key + "§:mut"})
		switch x.Op {
		case "slice", "append1", "appends":
			x = x.Args[0]
		default:
			return
		}
	}
}

func mutKey(x *Expr) string { return "mut:" + itoa(x.id) }

func itoa(n int) string { return strconv.Itoa(n) }
