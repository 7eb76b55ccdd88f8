package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Structural rules: obligations over the whole reachable program, beside the
// comparison of single functions with their specification.

func init() {
	extraRules["C15"] = append(extraRules["C15"], ruleWorkers, ruleSharedGlobals, ruleLazySegments)
	extraRules["C17"] = append(extraRules["C17"], ruleDeterminism)
	extraRules["C22"] = append(extraRules["C22"], ruleErrorsTested)
	extraRules["C23"] = append(extraRules["C23"], ruleInputsUnwritten)
	extraRules["C26"] = append(extraRules["C26"], ruleLineGlobals)
}

const entry = "main.main"

// reachMain is everything the command line tool can run.
func (c *Ctx) reachMain(rule string) map[*ssa.Function]bool {
	m := c.Anchor(rule, entry)
	if m == nil {
		return nil
	}
	return c.P.Reach(m)
}

func instrs(fs map[*ssa.Function]bool, do func(*ssa.Function, ssa.Instruction)) {
	for _, f := range sortedFns(fs) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				do(f, ins)
			}
		}
	}
}

// goTargets are the functions a go statement may start; nil when unknown.
func goTargets(p *Program, g *ssa.Go) []*ssa.Function {
	return calleesOf(p, g.Common())
}

func calleesOf(p *Program, c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return p.Impls(c)
	}
	var out []*ssa.Function
	seen := map[ssa.Value]bool{}
	ok := true
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				rec(x.X)
				return
			}
			ok = false
		case *ssa.Alloc:
			n := 0
			for _, r := range *x.Referrers() {
				if st, is := r.(*ssa.Store); is && st.Addr == ssa.Value(x) {
					rec(st.Val)
					n++
				}
			}
			ok = ok && n > 0
		case *ssa.FreeVar:
			n := 0
			for k, fv := range x.Parent().FreeVars {
				if fv != x {
					continue
				}
				if par := x.Parent().Parent(); par != nil {
					for _, b := range par.Blocks {
						for _, ins := range b.Instrs {
							if mc, is := ins.(*ssa.MakeClosure); is && mc.Fn == ssa.Value(x.Parent()) {
								rec(mc.Bindings[k])
								n++
							}
						}
					}
				}
			}
			ok = ok && n > 0
		case *ssa.Parameter:
			// the arguments of every static call
			h := x.Parent()
			n := 0
			for k, pr := range h.Params {
				if pr != x || h.Referrers() == nil {
					continue
				}
				for _, r := range *h.Referrers() {
					if ci, is := r.(ssa.CallInstruction); is && ci.Common().StaticCallee() == h {
						rec(ci.Common().Args[k])
						n++
					}
				}
			}
			ok = ok && n > 0
		default:
			ok = false
		}
	}
	rec(c.Value)
	if !ok {
		return nil
	}
	return out
}

// lockHeld: the instruction runs between a Lock and its Unlock of the same function.
func lockHeld(ins ssa.Instruction) bool {
	f := ins.Parent()
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := ci.Call.StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync" || g.Name() != "Lock" {
				continue
			}
			if before(i, ins) && !unlockBetween(i, ins) {
				return true
			}
		}
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func unlockBetween(lock, ins ssa.Instruction) bool {
	f := ins.Parent()
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(*ssa.Call); ok {
				if g := ci.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" && g.Name() == "Unlock" && before(lock, i) && before(i, ins) {
					return true
				}
			}
		}
	}
	return false
}

// rootOf walks an address to the value it is inside of.
func rootOf(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return a
		}
	}
}

func pkgOfClass(c string) string {
	c = strings.TrimLeft(c, "*[]")
	c = strings.TrimPrefix(c, "f:")
	c = strings.TrimLeft(c, "*[]")
	if i := strings.LastIndexByte(c, '/'); i >= 0 {
		c = c[i+1:]
	}
	if i := strings.IndexByte(c, '.'); i >= 0 {
		return c[:i]
	}
	return ""
}

// Storage a worker owns. The workers that simplify one line each own that
// line's engine, pieces, indexes, chains and scratch; the workers that only
// look for conflicts own their chains, boxes and selections.
var ownedByLine = map[string]bool{"dp": true, "constdp": true, "hdb": true, "node": true, "state": true, "homotopy": true, "mbr": true, "ctx": true, "rng": true, "knn": true, "sset": true, "split": true, "merge": true, "decompose": true, "deform": true, "lnr": true, "common": true}
var ownedByScan = map[string]bool{"homotopy": true, "mbr": true, "ctx": true}

func workerMayWrite(class string, perLine bool) bool {
	if strings.HasPrefix(class, "map:") || strings.HasPrefix(class, "global:") {
		return false
	}
	pkg := pkgOfClass(class)
	if pkg == "" { // slices and cells of basic types
		return perLine && (strings.HasPrefix(class, "[]") || class == "*[]int" || class == "*int")
	}
	if perLine {
		return ownedByLine[pkg]
	}
	return ownedByScan[pkg] || strings.HasPrefix(class, "[]*") && (pkg == "node" || pkg == "ctx")
}

// ruleWorkers decides what goroutine bodies may write.
func ruleWorkers(c *Ctx) {
	const rule = "worker effects"
	reach := c.reachMain(rule)
	simplify := c.P.Fn("constdp.ConstDP.Simplify")
	instrs(reach, func(f *ssa.Function, ins ssa.Instruction) {
		g, ok := ins.(*ssa.Go)
		if !ok {
			return
		}
		ts := goTargets(c.P, g)
		if ts == nil {
			c.Note(rule, shortName(f), "cannot tell which function this go statement starts")
			return
		}
		for _, t := range ts {
			if !c.P.InRepo(t) {
				continue
			}
			fns := c.P.Reach(t)
			perLine := simplify != nil && fns[simplify]
			role := "conflict search"
			if perLine {
				role = "per line"
			}
			m := c.P.Mods(t)
			bad := 0
			for _, w := range m.Sites {
				if w.Ins != nil && lockHeld(w.Ins) {
					continue
				}
				captured := false
				if st, is := w.Ins.(*ssa.Store); is {
					if fv, is := rootOf(st.Addr).(*ssa.FreeVar); is && boundOutside(fv, t) {
						captured = true
						if ia, is := st.Addr.(*ssa.IndexAddr); is && !isConst(ia.Index) {
							c.Note(rule, shortName(w.Fn), "writes an element of a captured array at a computed index")
							continue
						}
					}
					if ia, is := st.Addr.(*ssa.IndexAddr); is && !isConst(ia.Index) {
						if u, is := ia.X.(*ssa.UnOp); is {
							if fv, is := rootOf(u.X).(*ssa.FreeVar); is && boundOutside(fv, t) {
								c.Note(rule, shortName(w.Fn), "writes an element of a captured slice at a computed index")
								continue
							}
						}
					}
				}
				if captured || !workerMayWrite(w.Class, perLine) {
					if where := writtenOrigin(w.Ins, t, fns); where == originInside {
						continue
					} else if where == originUnknown && strings.HasPrefix(w.Class, "map:") {
						c.Note(rule, shortName(w.Fn), "cannot tell which map is written")
						continue
					}
					bad++
					why := "writes " + strings.ReplaceAll(w.Class, c.P.Module+"/", "") + ", which other workers can reach, without a lock"
					c.Oblige(rule, w.Fn, w.Pos, "writes of goroutine "+shortName(t)+" ("+role+") stay in its own storage", false, why)
				}
			}
			if bad == 0 {
				c.Oblige(rule, t, g.Pos(), fmt.Sprintf("goroutine %s (%s): %d write sites, all in its own storage", shortName(t), role, len(m.Sites)), true, "")
			}
		}
	})
	c.AtLeast(rule, 1)
	// the shared id source of the dependency takes its lock
	instrs(reach, func(f *ssa.Function, ins ssa.Instruction) {
		ci, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		h := ci.Call.StaticCallee()
		if h == nil || h.Name() != "Next" || h.Pkg == nil || h.Pkg.Pkg.Name() != "iter" || len(h.Blocks) == 0 {
			return
		}
		locks := false
		for _, b := range h.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.Call); ok {
					if k := x.Call.StaticCallee(); k != nil && k.Name() == "Lock" {
						locks = true
					}
				}
			}
		}
		c.Oblige("shared id source", f, ins.Pos(), "ids are drawn from a locked generator", locks, "the generator's Next takes no lock")
	})
}

type origin int

const (
	originInside  origin = iota // made by code the goroutine runs
	originOutside               // a package variable, or captured from around the goroutine
	originUnknown
)

// writtenOrigin is where the storage an instruction writes was made.
func writtenOrigin(ins ssa.Instruction, body *ssa.Function, fns map[*ssa.Function]bool) origin {
	var v ssa.Value
	switch x := ins.(type) {
	case *ssa.MapUpdate:
		v = x.Map
	case *ssa.Store:
		v = rootOf(x.Addr)
	default:
		return originUnknown
	}
	seen := map[ssa.Value]bool{}
	out := originInside
	worst := func(o origin) {
		if o == originOutside || out == originInside {
			out = o
		}
	}
	var rec func(v ssa.Value)
	// content: what the variable at address a holds
	content := func(a ssa.Value) {
		switch x := a.(type) {
		case *ssa.Alloc:
			if !fns[x.Parent()] {
				worst(originOutside)
				return
			}
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					rec(st.Val)
				}
			}
		case *ssa.FreeVar:
			if boundOutside(x, body) {
				worst(originOutside)
				return
			}
			al := boundAlloc(x)
			if al == nil {
				worst(originUnknown)
				return
			}
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					rec(st.Val)
				}
			}
		case *ssa.Global:
			worst(originOutside)
		default:
			worst(originUnknown)
		}
	}
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc:
			if !fns[v.(ssa.Instruction).Parent()] {
				worst(originOutside)
			}
		case *ssa.Const:
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.Slice:
			rec(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				content(x.X)
			} else {
				worst(originUnknown)
			}
		case *ssa.FreeVar:
			if boundOutside(x, body) {
				worst(originOutside)
			} else if al := boundAlloc(x); al == nil || !fns[al.Parent()] {
				worst(originUnknown)
			}
		case *ssa.Global:
			worst(originOutside)
		case *ssa.Parameter:
			h := x.Parent()
			if h == body {
				worst(originUnknown)
				return
			}
			if h.Referrers() == nil { // a declared function
				scanCalls(h.Prog)
				if otherUses[h] || len(callSites[h]) == 0 {
					worst(originUnknown)
					return
				}
				for k, pr := range h.Params {
					for _, ci := range callSites[h] {
						if pr == x && fns[ci.Parent()] {
							rec(ci.Common().Args[k])
						}
					}
				}
				return
			}
			for k, pr := range h.Params {
				if pr != x {
					continue
				}
				for _, r := range *h.Referrers() {
					if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == h {
						rec(ci.Common().Args[k])
					} else {
						worst(originUnknown)
					}
				}
			}
		default:
			worst(originUnknown)
		}
	}
	rec(v)
	return out
}

// boundAlloc is the variable a captured variable stands for.
func boundAlloc(fv *ssa.FreeVar) *ssa.Alloc {
	h := fv.Parent()
	par := h.Parent()
	if par == nil {
		return nil
	}
	for k, v := range h.FreeVars {
		if v != fv {
			continue
		}
		for _, b := range par.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(h) {
					switch x := mc.Bindings[k].(type) {
					case *ssa.Alloc:
						return x
					case *ssa.FreeVar:
						return boundAlloc(x)
					}
				}
			}
		}
	}
	return nil
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// boundOutside: the captured variable belongs to code that surrounds body.
func boundOutside(fv *ssa.FreeVar, body *ssa.Function) bool {
	h := fv.Parent()
	for f := h; f != nil; f = f.Parent() {
		if f == body {
			if h == body {
				return true
			}
			// a closure nested in the body: outside only when the body itself captures it
			par := h.Parent()
			k := -1
			for i, v := range h.FreeVars {
				if v == fv {
					k = i
				}
			}
			for _, b := range par.Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(h) {
						if up, ok := mc.Bindings[k].(*ssa.FreeVar); ok {
							return boundOutside(up, body)
						}
					}
				}
			}
			return false
		}
	}
	return false
}

// globalsRead are package variables of the repository used by fns.
func globalsUsed(c *Ctx, fns map[*ssa.Function]bool, do func(f *ssa.Function, ins ssa.Instruction, g *ssa.Global)) {
	instrs(fns, func(f *ssa.Function, ins ssa.Instruction) {
		for _, op := range ins.Operands(nil) {
			if op == nil || *op == nil {
				continue
			}
			if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), c.P.Module) {
				do(f, ins, g)
			}
		}
	})
}

// readOnlyUse: the global is only read, and what it refers to is only looked up.
func readOnlyUse(ins ssa.Instruction, g *ssa.Global) bool {
	u, ok := ins.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		if ia, is := ins.(*ssa.IndexAddr); is && ia.X == ssa.Value(g) {
			return onlyLoaded(ia)
		}
		if fa, is := ins.(*ssa.FieldAddr); is && fa.X == ssa.Value(g) {
			return onlyLoaded(fa)
		}
		return false
	}
	return lookedUp(u)
}

func lookedUp(v ssa.Value) bool {
	if immutable(v.Type()) {
		return true
	}
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if !onlyLoaded(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyLoaded(x) {
				return false
			}
		case *ssa.Field, *ssa.Index:
			if !lookedUp(x.(ssa.Value)) {
				return false
			}
		case *ssa.Lookup:
			if x.X != v {
				continue
			}
			if !x.CommaOk && !lookedUp(x) {
				return false
			}
		case *ssa.Range, *ssa.BinOp, *ssa.DebugRef:
		case *ssa.Slice:
			if !lookedUp(x) {
				return false
			}
		case ssa.CallInstruction:
			b, ok := x.Common().Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				if ok && b.Name() == "append" && x.Common().Args[0] != v {
					continue
				}
				return false
			}
		default:
			return false
		}
	}
	return true
}

func onlyLoaded(a ssa.Value) bool {
	if a.Referrers() == nil {
		return true
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL || !lookedUp(x) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !onlyLoaded(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyLoaded(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// immutable: values of this type refer to no storage.
func immutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return immutable(u.Elem())
	case *types.Interface:
		return t.String() == "error"
	}
	return false
}

func globalRule(c *Ctx, rule, why string, fns map[*ssa.Function]bool) {
	n := 0
	globalsUsed(c, fns, func(f *ssa.Function, ins ssa.Instruction, g *ssa.Global) {
		n++
		if readOnlyUse(ins, g) || lockHeld(ins) {
			return
		}
		c.Oblige(rule, f, ins.Pos(), "package variable "+g.Name()+" is only looked up", false, "package variable "+g.Name()+" is written or handed on here: "+why)
	})
	c.Oblige(rule, nil, token.NoPos, fmt.Sprintf("%d uses of package variables in %d functions", n, len(fns)), true, "")
}

// ruleSharedGlobals: workers reach no mutable package variable.
func ruleSharedGlobals(c *Ctx) {
	const rule = "worker globals"
	reach := c.reachMain(rule)
	fns := map[*ssa.Function]bool{}
	instrs(reach, func(f *ssa.Function, ins ssa.Instruction) {
		if g, ok := ins.(*ssa.Go); ok {
			for _, t := range goTargets(c.P, g) {
				for h := range c.P.Reach(t) {
					fns[h] = true
				}
			}
		}
	})
	globalRule(c, rule, "all workers share it", fns)
}

// ruleLineGlobals: nothing of one line is left behind in package variables.
func ruleLineGlobals(c *Ctx) {
	const rule = "no state between lines"
	f := c.Anchor(rule, "constdp.SimplifyInstances")
	fns := map[*ssa.Function]bool{}
	for _, n := range []*ssa.Function{f, c.P.Fn("constdp.NewConstDP"), c.P.Fn("main.simplifyInstances")} {
		if n != nil {
			for h := range c.P.Reach(n) {
				fns[h] = true
			}
		}
	}
	globalRule(c, rule, "one line's simplification can see another's", fns)
}

// ruleLazySegments: a geom.Segment fills its line on first use, so it must not
// be stored where several workers find it.
func ruleLazySegments(c *Ctx) {
	const rule = "lazy segment"
	reach := c.reachMain(rule)
	n := 0
	instrs(reach, func(f *ssa.Function, ins ssa.Instruction) {
		if mu, ok := ins.(*ssa.MapUpdate); ok {
			if isSegment(mu.Value) {
				c.Oblige(rule, f, ins.Pos(), "segments are not shared", false, "a segment is kept in a map")
			}
			return
		}
		st, ok := ins.(*ssa.Store)
		if !ok || !isSegment(st.Val) {
			return
		}
		n++
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			switch pkgOfClass(storeClass(fa)) {
			case "node", "ctx", "constdp", "dp", "hdb", "state", "geometry", "opts":
				c.Oblige(rule, f, ins.Pos(), "segments are not shared", false, "a segment, which computes its line lazily, is stored in "+typeName(derefT(fa.X.Type()))+", where several workers can reach it")
			}
		}
		if _, ok := st.Addr.(*ssa.Global); ok {
			c.Oblige(rule, f, ins.Pos(), "segments are not shared", false, "a segment is stored in a package variable")
		}
	})
	c.Oblige(rule, nil, token.NoPos, fmt.Sprintf("%d stores of segments stay local", n), true, "")
}

func isSegment(v ssa.Value) bool {
	v = unwrapIface(v)
	if ch, ok := v.(*ssa.ChangeInterface); ok {
		v = unwrapIface(ch.X)
	}
	n, ok := derefT(v.Type()).(*types.Named)
	return ok && n.Obj().Name() == "Segment" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "geom"
}

// ruleDeterminism: no source of chance reaches the result.
func ruleDeterminism(c *Ctx) {
	const rule = "no source of chance"
	reach := c.reachMain(rule)
	n := 0
	instrs(reach, func(f *ssa.Function, ins ssa.Instruction) {
		n++
		if s, ok := ins.(*ssa.Select); ok {
			rc := 0
			for _, st := range s.States {
				if st.Dir == types.RecvOnly {
					rc++
				}
			}
			if len(s.States) > 1 && (rc > 1 || !s.Blocking) {
				c.Oblige(rule, f, ins.Pos(), "no choice among ready channels", false, "select takes whichever case is ready")
			}
			return
		}
		if cv, ok := ins.(*ssa.Convert); ok {
			if b, ok := cv.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				c.Oblige(rule, f, ins.Pos(), "addresses are not used as numbers", false, "an address is turned into a number")
			}
			return
		}
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		g := ci.Common().StaticCallee()
		if g == nil || g.Pkg == nil {
			return
		}
		pkg, name := g.Pkg.Pkg.Path(), g.Name()
		inMain := f.Pkg != nil && f.Pkg.Pkg.Name() == "main"
		bad := false
		switch {
		case pkg == "math/rand", pkg == "math/rand/v2", pkg == "crypto/rand", pkg == "hash/maphash":
			bad = true
		case pkg == "time":
			bad = !inMain && (name == "Now" || name == "Since" || name == "After" || name == "Tick" || name == "NewTimer" || name == "Until")
		case pkg == "os":
			bad = strings.HasPrefix(name, "Getenv") || name == "LookupEnv" || name == "Getpid" || name == "Hostname"
		case pkg == "runtime":
			bad = !inMain && (name == "NumCPU" || name == "NumGoroutine" || name == "GOMAXPROCS")
		}
		if bad {
			c.Oblige(rule, f, ins.Pos(), "does not ask for chance, clock or environment", false, "calls "+pkg+"."+name)
		}
	})
	c.Oblige(rule, nil, token.NoPos, fmt.Sprintf("%d functions, %d instructions", len(reach), n), true, "")
	// package variables are set only while the program starts
	globalsUsed(c, reach, func(f *ssa.Function, ins ssa.Instruction, g *ssa.Global) {
		if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
			inMain := f.Pkg != nil && f.Pkg.Pkg.Name() == "main"
			c.Oblige("package variables", f, ins.Pos(), "package variables are not changed by the run", inMain, "package variable "+g.Name()+" is set while lines are processed")
		}
	})
}

// ruleErrorsTested: every error a call returns is looked at.
func ruleErrorsTested(c *Ctx) {
	const rule = "errors tested"
	reach := c.reachMain(rule)
	instrs(reach, func(f *ssa.Function, ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		res := call.Call.Signature().Results()
		for i := 0; i < res.Len(); i++ {
			if res.At(i).Type().String() != "error" {
				continue
			}
			name, pkg := "", ""
			if g := call.Call.StaticCallee(); g != nil {
				name = g.Name()
				if g.Pkg != nil {
					pkg = g.Pkg.Pkg.Path()
				}
			} else if call.Call.IsInvoke() {
				name, pkg = call.Call.Method.Name(), "io"
			}
			if !outsideWorld(c.P, pkg, name) {
				continue
			}
			used := false
			if res.Len() == 1 {
				used = usedValue(call)
			} else {
				for _, r := range *call.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
						used = used || usedValue(ex)
					}
				}
			}
			c.Oblige(rule, f, ins.Pos(), "error of "+name+" is looked at", used, "the error of "+name+" is ignored")
		}
	})
	c.AtLeast(rule, 3)
}

// outsideWorld: calls whose errors depend on files and on what users wrote.
func outsideWorld(p *Program, pkg, name string) bool {
	if name == "Close" {
		return false
	}
	if strings.HasPrefix(pkg, p.Module) || strings.HasSuffix(pkg, "/fileutil") {
		return true
	}
	switch pkg {
	case "os", "io", "io/ioutil", "io/fs", "bufio":
		return true
	case "encoding/json":
		return name == "Unmarshal" || name == "Decode"
	case "encoding/base64":
		return true
	}
	return false
}

func usedValue(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			if usedValue(x) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// ruleInputsUnwritten: no store reaches coordinates, geometries or options
// that the storing code did not make itself.
func ruleInputsUnwritten(c *Ctx) {
	const rule = "inputs unwritten"
	n := 0
	seen := map[token.Pos]bool{}
	for _, name := range []string{"main.simplifyInstances", "main.simplifyFeatureClass", "constdp.NewConstDP", "constdp.SimplifyInstances", "constdp.SimplifyFeatureClass", "main.groupPlnsAsGeoJSONS"} {
		f := c.P.Fn(name)
		if f == nil {
			c.Note(rule, name, "is not there")
			continue
		}
		for _, w := range c.P.Mods(f).Sites {
			n++
			if seen[w.Pos] {
				continue
			}
			cl := strings.ReplaceAll(w.Class, c.P.Module+"/", "")
			if inputClass(cl) {
				seen[w.Pos] = true
				c.Oblige(rule, w.Fn, w.Pos, "input storage is not written", false, "writes "+cl+", storage of the input, in place")
			}
		}
		c.Oblige(rule, f, f.Pos(), fmt.Sprintf("%d write sites below %s leave input storage alone", n, name), true, "")
	}
	c.AtLeast(rule, 3)
}

func inputClass(cl string) bool {
	b := strings.TrimLeft(cl, "*[]")
	b = strings.TrimPrefix(b, "f:")
	if i := strings.LastIndexByte(b, '/'); i >= 0 {
		b = b[i+1:]
	}
	for _, p := range []string{"opts.Opts", "geom.Point", "geom.Coords", "geom.LineString", "geom.Polygon", "geom.LinearRing", "geometry.Point", "geometry.Polygon", "geometry.Polyline.0", "geometry.Polyline.1", "geometry.Polyline.2"} {
		if b == p || strings.HasPrefix(b, p+".") {
			return true
		}
	}
	return false
}

func sortedFns(fs map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range fs {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}
