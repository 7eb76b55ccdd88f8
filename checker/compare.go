package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A property's decision functions are specified by Go functions kept next to
// this checker.  They are overlaid onto the type-checked packages (never
// written to the repository), brought to the same canonical form, and the
// repository's function has to meet its specification there: same result on
// every path, same effects in the same order.

//go:embed spec/*.txt
var specFS embed.FS

// specOverlay maps each specification file into its package.
// spec/a_b.txt belongs to directory a/b; spec/root.txt to the module root.
func specOverlay(root string) map[string][]byte {
	out := map[string][]byte{}
	es, _ := specFS.ReadDir("spec")
	for _, e := range es {
		b, _ := specFS.ReadFile("spec/" + e.Name())
		dir := strings.ReplaceAll(strings.TrimSuffix(e.Name(), ".txt"), "_", "/")
		if dir == "root" {
			dir = "."
		}
		out[filepath.Join(root, dir, specFile)] = b
	}
	return out
}

// Spec is one specified function.
type Spec struct {
	Target string // pkg.Func
	Props  []string
	Name   string // pkg.spec_Func
	Fn     *ssa.Function
	Doc    string
	Opts   map[string]string
	Stub   bool            // the target is gone; its specification stands in for it
	Why    string          // why the specification was left out
	Alts   []*ssa.Function // other ways of writing the same function
}

func loadSpecs(p *Program) []*Spec {
	var out []*Spec
	alts := map[string][]*ssa.Function{}
	fset := token.NewFileSet()
	for path, src := range p.ov.files {
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, ln := range fd.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(ln.Text, "//"))
				if strings.HasPrefix(t, "alt ") {
					if a := p.Specs[f.Name.Name+"."+fd.Name.Name]; a != nil {
						n := strings.Fields(t)[1]
						alts[n] = append(alts[n], a)
					}
				}
				if !strings.HasPrefix(t, "spec ") {
					continue
				}
				fs := strings.Fields(t)
				s := &Spec{Target: fs[1], Name: f.Name.Name + "." + fd.Name.Name, Opts: map[string]string{}}
				for _, w := range fs[2:] {
					if k, v, ok := strings.Cut(w, "="); ok {
						s.Opts[k] = v
					} else {
						s.Props = append(s.Props, w)
					}
				}
				s.Doc = strings.TrimSpace(strings.ReplaceAll(fd.Doc.Text(), "\n", " "))
				s.Fn = p.Specs[s.Name]
				s.Stub = p.ov.stubs[s.Target] || p.ov.changed[s.Target]
				s.Why = p.ov.why[path+"#"+fd.Name.Name]
				out = append(out, s)
			}
		}
	}
	for _, s := range out {
		s.Alts = alts[s.Target]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Target < out[j].Target })
	return out
}

// keepSet: specified functions are opaque to each other (each is compared with
// its own specification), unless declared inline.
func keepSet(specs []*Spec, s *Spec) func(*ssa.Function) bool {
	keep := map[string]bool{}
	for _, o := range specs {
		if o.Opts["mode"] != "inline" && !o.Stub {
			keep[o.Target] = true
		}
	}
	if s != nil {
		for _, n := range strings.Split(s.Opts["inline"], ",") {
			delete(keep, n)
		}
		for _, n := range strings.Split(s.Opts["keep"], ",") {
			keep[n] = true
		}
	}
	return func(f *ssa.Function) bool {
		n := shortName(f)
		if keep[n] && len(f.Blocks) == 1 && !boundary(n) && len(f.Blocks[0].Instrs) <= 12 && !callsUnspecified(f, keep) {
			return false // an accessor: compared wherever it is used
		}
		return keep[n] || boundary(n) && (s == nil || !strings.HasPrefix(s.Target, "hdb.") || !strings.HasPrefix(n, "hdb."))
	}
}

// callsUnspecified: f hands its work to a function of the repository that has
// no specification of its own, as one does that was reduced to a wrapper.
func callsUnspecified(f *ssa.Function, keep map[string]bool) bool {
	for _, g := range moduleCallees(f) {
		if !keep[shortName(g)] && !accessorLike(g, 3) {
			return true
		}
	}
	return false
}

// accessorLike: one short block that calls nothing in the module but the like.
func accessorLike(f *ssa.Function, depth int) bool {
	if len(f.Blocks) != 1 || len(f.Blocks[0].Instrs) > 12 || depth == 0 {
		return false
	}
	for _, g := range moduleCallees(f) {
		if !accessorLike(g, depth-1) {
			return false
		}
	}
	return true
}

// moduleCallees are the functions of f's own module that f calls.
func moduleCallees(f *ssa.Function) []*ssa.Function {
	module := func(x *ssa.Function) string {
		if x.Pkg == nil {
			return ""
		}
		parts := strings.SplitN(x.Pkg.Pkg.Path(), "/", 4)
		if len(parts) > 3 {
			parts = parts[:3]
		}
		return strings.Join(parts, "/")
	}
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && module(g) == module(f) {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

type Diff struct {
	What string
	Pos  token.Pos
	Got  string
	Want string
}

func (d Diff) String() string {
	return fmt.Sprintf("%s: code gives %s, specification %s", d.What, d.Got, d.Want)
}

// Compare compares repository function fn with its specification, or else
// with one of the other ways the specification can be written.
func (s *Spec) Compare(p *Program, fn *ssa.Function, keep func(*ssa.Function) bool) (diffs []Diff, obligations int, inlined []*ssa.Function, err error) {
	start := time.Now()
	defer func() { deadline = time.Time{} }()
	deadline = start.Add(45 * time.Second)
	diffs, obligations, inlined, err = compareFolded(p, fn, s.Fn, keep, s.Opts)
	deadline = start.Add(75 * time.Second) // for all the others together
	if err == nil && len(diffs) == 0 {
		return
	}
	for _, a := range s.Alts {
		d, n, i, e := compareFolded(p, fn, a, keep, s.Opts)
		if os.Getenv("CHK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "ALT", a, e, d)
		}
		if e == nil && len(d) == 0 {
			return d, n, i, e
		}
	}
	return
}

// compareFolded compares fn with sp; a specified function that only one of the
// two calls is looked into on both sides when that makes them agree.
func compareFolded(p *Program, fn, sp *ssa.Function, keep func(*ssa.Function) bool, opts map[string]string) (diffs []Diff, obligations int, inlined []*ssa.Function, err error) {
	var ca, cb map[*ssa.Function]bool
	diffs, obligations, inlined, err = compareSpec(p, fn, sp, keep, opts, &ca, &cb)
	fold := map[*ssa.Function]bool{}
	keep2 := func(f *ssa.Function) bool { return keep(f) && !fold[f] }
	for round, d, e := 0, diffs, err; round < 3 && (len(d) > 0 || e != nil); round++ {
		n := len(fold)
		for f := range ca {
			if !cb[f] && !boundary(shortName(f)) {
				fold[f] = true
			}
		}
		for f := range cb {
			if !ca[f] && !boundary(shortName(f)) {
				fold[f] = true
			}
		}
		if len(fold) == n {
			break
		}
		var ob int
		var inl []*ssa.Function
		ca, cb = nil, nil
		d, ob, inl, e = compareSpec(p, fn, sp, keep2, opts, &ca, &cb)
		if os.Getenv("CHK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "FOLD", fold, e, d)
		}
		if e == nil && len(d) == 0 {
			return d, ob, inl, e
		}
	}
	return
}

// compareSpec compares repository function fn with specification sp; ka and kb
// receive the specified functions each of them calls.
func compareSpec(p *Program, fn, sp *ssa.Function, keep func(*ssa.Function) bool, opts map[string]string, ka, kb *map[*ssa.Function]bool) (diffs []Diff, obligations int, inlined []*ssa.Function, err error) {
	in := p.In
	in.budget = in.next + 1500000
	in.lazyMul = opts["mul"] == "lazy"
	defer func() {
		in.budget, in.lazyMul = 0, false
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("%s: %s", fn, u.msg)
				return
			}
			if os.Getenv("CHK_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("%s: %v", fn, r)
		}
	}()
	if x, y := paramTypes(fn), paramTypes(sp); x != y {
		return nil, 0, nil, fmt.Errorf("%s has parameters (%s), its specification (%s)", shortName(fn), x, y)
	}
	note := func(m *map[*ssa.Function]bool) func(*ssa.Function) bool {
		*m = map[*ssa.Function]bool{}
		return func(f *ssa.Function) bool {
			k := keep(f)
			if k {
				(*m)[f] = true
			}
			return k
		}
	}
	ea := NewEngine(p, Config{Keep: note(ka)})
	p.epoch++
	ea.push("#" + itoa(p.epoch)) // what an earlier comparison made of the same code is not reused
	a, err := ea.Analyze(fn)
	if err != nil {
		return nil, 0, nil, err
	}
	eb := NewEngine(p, Config{Keep: note(kb)})
	eb.push("#" + itoa(p.epoch))
	b, err := eb.AnalyzeWith(sp, a.Params, nil, nil)
	if err != nil {
		return nil, 0, nil, err
	}
	for f := range ea.Inlined {
		inlined = append(inlined, f)
	}
	ca, cb := NewCanon(a), NewCanon(b)
	if len(a.Rets) != len(b.Rets) {
		return nil, 0, inlined, fmt.Errorf("%s returns %d values, its specification %d", shortName(fn), len(a.Rets), len(b.Rets))
	}
	ga, gb := ca.Of(a.RetG), cb.Of(b.RetG)
	obligations++
	if !equivExit(in, ga, gb) {
		diffs = append(diffs, Diff{What: "condition to return", Pos: fn.Pos(), Got: ga.String(), Want: gb.String()})
	}
	g := in.And(ga, gb)
	for i := range a.Rets {
		obligations++
		x, y := ca.Of(a.Rets[i]), cb.Of(b.Rets[i])
		if x == y {
			continue
		}
		if ok, path := sameUnder(in, g, x, y); !ok {
			diffs = append(diffs, Diff{What: fmt.Sprintf("result %d %s", i, path), Pos: fn.Pos(), Got: pickUnder(x), Want: pickUnder(y)})
		}
	}
	if opts["effects"] != "no" {
		obs, df := diffEffects(in, ca.Effects(), cb.Effects(), "")
		obligations += obs
		for _, d := range df {
			d.Pos = fn.Pos()
			diffs = append(diffs, d)
		}
	}
	return diffs, obligations, inlined, nil
}

func paramTypes(f *ssa.Function) string {
	var b strings.Builder
	for _, p := range f.Params {
		fmt.Fprintf(&b, "%s; ", p.Type())
	}
	return b.String()
}

// channels groups effects whose relative order matters.
func channels(evs []*Expr) map[string][]*Expr {
	out := map[string][]*Expr{}
	for _, e := range evs {
		k := e.Op
		if e.Op == "event" {
			k = e.Aux
		} else {
			k = "loop"
		}
		out[k] = append(out[k], e)
	}
	return out
}

// diffEffects compares two effect lists channel by channel; loops with
// effects are compared inside.
func diffEffects(in *Interner, xa, xb []*Expr, in0 string) (obligations int, diffs []Diff) {
	da, db := channels(xa), channels(xb)
	keys := map[string]bool{}
	for k := range da {
		keys[k] = true
	}
	for k := range db {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		x, y := da[k], db[k]
		n := len(x)
		if len(y) > n {
			n = len(y)
		}
		what := in0 + "effect " + k
		for i := 0; i < n; i++ {
			obligations++
			switch {
			case i >= len(x):
				diffs = append(diffs, Diff{What: what, Got: "none", Want: y[i].String()})
			case i >= len(y):
				diffs = append(diffs, Diff{What: what, Got: x[i].String(), Want: "none"})
			case x[i] == y[i]:
				continue
			case x[i].Op == "eloop" && y[i].Op == "eloop":
				if !equivExit(in, x[i].Args[0], y[i].Args[0]) {
					diffs = append(diffs, Diff{What: what + " entered", Got: x[i].Args[0].String(), Want: y[i].Args[0].String()})
					break
				}
				if ok, w := sameUnder(in, in.Bool(true), x[i].Args[1], y[i].Args[1]); !ok {
					diffs = append(diffs, Diff{What: what + " iterates " + w, Got: x[i].Args[1].String(), Want: y[i].Args[1].String()})
					break
				}
				o, d := diffEffects(in, x[i].Args[2:], y[i].Args[2:], in0+"loop ")
				obligations += o
				diffs = append(diffs, d...)
				if len(d) == 0 {
					continue
				}
			case !sameEvent(in, x[i], y[i]):
				if os.Getenv("CHK_DEBUG") == "deep" {
					n := 3
					deepest(x[i], y[i], "", &n)
				}
				diffs = append(diffs, Diff{What: what, Got: x[i].String(), Want: y[i].String()})
			default:
				continue
			}
			break
		}
	}
	return
}

func sameEvent(in *Interner, x, y *Expr) bool {
	if x.Op != y.Op || x.Aux != y.Aux || len(x.Args) != len(y.Args) {
		return false
	}
	if x.Op != "event" {
		return false
	}
	if !equivExit(in, x.Args[0], y.Args[0]) {
		return false
	}
	for i := 1; i < len(x.Args); i++ {
		if x.Args[i] == y.Args[i] {
			continue
		}
		if ok, _ := sameUnder(in, x.Args[0], x.Args[i], y.Args[i]); !ok {
			return false
		}
	}
	return true
}

func sameUnder(in *Interner, g, x, y *Expr) (bool, string) {
	if x == y {
		return true, ""
	}
	if x == nil || y == nil {
		return false, ""
	}
	if (x.Op == "struct" || y.Op == "struct") && x.T != nil && y.T != nil && typeKey(x.T) == typeKey(y.T) {
		n := len(x.Args)
		if x.Op != "struct" {
			n = len(y.Args)
		}
		for i := 0; i < n; i++ {
			if ok, w := sameUnder(in, g, in.Field(x, i), in.Field(y, i)); !ok {
				return false, "." + fieldName(x.T, i) + w
			}
		}
		return true, ""
	}
	d := in.Map2(x, y, func(a, b *Expr) *Expr { return sameLeaf(in, g, a, b) })
	bad := in.And(g, in.Not(d))
	if !Feasible(bad) {
		return true, ""
	}
	if f := exitFacts(in, bad); !isTrue(f) {
		g = in.And(g, f)
		if bad = in.And(bad, f); !Feasible(bad) {
			return true, ""
		}
	}
	if sameOnPaths(in, g, x, y) {
		return true, ""
	}
	ls := FirstPath(bad)
	var s []string
	for _, l := range ls {
		s = append(s, l.String())
	}
	return false, "when " + strings.Join(s, " and ")
}

// sameOnPaths compares leaf by leaf with the conditions that lead there.
func sameOnPaths(in *Interner, g, x, y *Expr) bool {
	if x.Op != "node" && y.Op != "node" && topVar(x) == nil && topVar(y) == nil {
		return false
	}
	n := 0
	var rec func(g, a, b *Expr) bool
	rec = func(g, a, b *Expr) bool {
		if a == b || !Feasible(g) {
			return true
		}
		if n++; n > 400 {
			if os.Getenv("CHK_DEBUG") == "leaf" {
				fmt.Fprintln(os.Stderr, "too many paths")
			}
			return false
		}
		v := minVar(a, b)
		if v == nil {
			bad := in.And(g, in.Not(sameLeaf(in, g, a, b)))
			if Feasible(bad) && os.Getenv("CHK_DEBUG") == "leaf" {
				fmt.Fprintf(os.Stderr, "LEAF %.600s\n  vs %.600s\n", a.str(3), b.str(3))
				n := 3
				deepest(a, b, "", &n)
				for _, l := range FirstPath(bad) {
					fmt.Fprintf(os.Stderr, "    under %v %.900s\n", l.V, l.E.str(0))
				}
			}
			return !Feasible(bad)
		}
		c := in.B(v)
		return rec(in.And(g, c), cof(a, v, true), cof(b, v, true)) && rec(in.And(g, in.Not(c)), cof(a, v, false), cof(b, v, false))
	}
	return rec(g, x, y)
}

func sameLeaf(in *Interner, g, a, b *Expr) *Expr {
	if a == b {
		return in.Bool(true)
	}
	if (a.Op == "struct" || b.Op == "struct") && a.T != nil && b.T != nil && typeKey(a.T) == typeKey(b.T) {
		ok, _ := sameUnder(in, g, a, b)
		return in.Bool(ok)
	}
	if isNumeric(a.T) && isNumeric(b.T) {
		if sameLeaf1(in, g, a, b) {
			return in.Bool(true)
		}
		return in.Rel(a, "==", b)
	}
	return in.Bool(sameLeaf1(in, g, a, b))
}

func sameLeaf1(in *Interner, g, a, b *Expr) bool {
	if IsEmptySlice(a) && IsEmptySlice(b) {
		return true
	}
	if (a.Op == "slice" || b.Op == "slice") && isSliceT(a.T) && isSliceT(b.T) {
		xa, la, ha, ma := bounds(in, a)
		xb, lb, hb, mb := bounds(in, b)
		if ma == mb {
			for _, p := range [][2]*Expr{{xa, xb}, {la, lb}, {ha, hb}} {
				if p[0] == p[1] {
					continue
				}
				if ok, _ := sameUnder(in, g, p[0], p[1]); !ok {
					return false
				}
			}
			return true
		}
	}
	if a.Op != b.Op || a.Aux != b.Aux || a.N != b.N || len(a.Args) != len(b.Args) || len(a.Args) == 0 || a.T != b.T && (a.T == nil || b.T == nil || typeKey(a.T) != typeKey(b.T)) {
		return false
	}
	switch a.Op {
	case "lin":
		return sameTerms(in, g, a, b)
	case "rel", "mul", "div":
		return false
	case "lam":
		// results, then effects
		x, y := a.Args, b.Args
		for i := range x {
			if x[i] == y[i] {
				continue
			}
			switch x[i].Op {
			case "event", "eloop":
				_, d := diffEffects(in, x[i:i+1], y[i:i+1], "")
				if len(d) > 0 {
					return false
				}
			default:
				if ok, _ := sameUnder(in, in.Bool(true), x[i], y[i]); !ok {
					return false
				}
			}
		}
		return true
	}
	for i := range a.Args {
		h := g
		switch a.Op {
		case "cloop":
			h = in.Bool(true)
			if i > 0 && i%2 == 0 {
				h = a.Args[0]
			}
		case "at", "forall", "seq":
			if i == 1 {
				h = in.Bool(true)
			}
		}
		if ok, _ := sameUnder(in, h, a.Args[i], b.Args[i]); !ok {
			return false
		}
	}
	return true
}

// sameTerms: two sums with the same coefficients, term by term.
func sameTerms(in *Interner, g, a, b *Expr) bool {
	if a.c0.Cmp(b.c0) != 0 {
		return false
	}
	common := map[*Expr]bool{}
	for i, x := range a.Args {
		for j, y := range b.Args {
			if x == y && a.coef[i].Cmp(b.coef[j]) == 0 {
				common[x] = true
			}
		}
	}
	var ia, ib []int
	for i, x := range a.Args {
		if !common[x] {
			ia = append(ia, i)
		}
	}
	for j, y := range b.Args {
		if !common[y] {
			ib = append(ib, j)
		}
	}
	if len(ia) != len(ib) || len(ia) > 3 {
		return false
	}
	for _, i := range ia {
		hit := false
		for k, j := range ib {
			if j < 0 || a.coef[i].Cmp(b.coef[j]) != 0 {
				continue
			}
			if ok, _ := sameUnder(in, g, a.Args[i], b.Args[j]); ok {
				ib[k], hit = -1, true
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

func pickUnder(x *Expr) string {
	s := x.String()
	if len(s) > 600 && os.Getenv("CHK_DEPTH") == "" {
		s = s[:600] + "…"
	}
	return s
}

// boundary: the public operations of the spatial index are calls, whatever is
// behind them.
func boundary(n string) bool {
	if n == "hdb.NewHdb" {
		return true
	}
	if !strings.HasPrefix(n, "hdb.Hdb.") {
		return false
	}
	m := n[len("hdb.Hdb."):]
	return m != "" && m[0] >= 'A' && m[0] <= 'Z'
}

// bounds of a slice expression, with what is left out written in.
func bounds(in *Interner, x *Expr) (base, lo, hi, max *Expr) {
	base, lo = x, in.Int(0)
	if x.Op == "slice" {
		base, hi, max = x.Args[0], x.Args[2], x.Args[3]
		if x.Args[1] != nil {
			lo = x.Args[1]
		}
	}
	if hi == nil {
		hi = (&Engine{in: in}).Len(base)
	}
	return
}
