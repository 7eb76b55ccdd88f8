package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked repository in SSA form.
type Program struct {
	epoch   int
	In      *Interner
	Prog    *ssa.Program
	Pkgs    []*packages.Package
	Fns     []*ssa.Function // every function of the repository with a body
	Module  string
	Root    string
	frames  map[*ssa.Function]*frame
	mods    map[*ssa.Function]*ModSet
	reads   map[*ssa.Function]map[string]bool
	retain  map[paramKey]bool
	returns map[paramKey]int
	byName  map[string]*ssa.Function
	impls   map[string][]*ssa.Function
	keys    map[ssa.Instruction]string
	fixed   map[*ssa.Global]ssa.Value
	Specs   map[string]*ssa.Function // specification functions (overlay only)
	ov      *overlay
}

const specFile = "zz_verif_spec.go"

func (p *Program) inSpec(f *ssa.Function) bool {
	return filepath.Base(p.Prog.Fset.Position(f.Pos()).Filename) == specFile
}

// LoadProgram reads and type-checks the current working tree together with
// the specifications.
func LoadProgram(root string) (*Program, error) {
	ov := newOverlay(root)
	ov.findChanged()
	pats, err := packageDirs(root)
	if err != nil {
		return nil, err
	}
	var ps []*packages.Package
	for try := 0; ; try++ {
		files := ov.render()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root, Tests: false, Fset: token.NewFileSet(), Env: goEnv(), Overlay: files}
		ps, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		errs := map[string]string{}
		packages.Visit(ps, nil, func(q *packages.Package) {
			for _, e := range q.Errors {
				errs[e.Pos] = e.Msg
			}
		})
		if len(errs) == 0 {
			break
		}
		if os.Getenv("CHK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, errs)
		}
		if try > 12 || !ov.drop(files, errs) {
			return nil, fmt.Errorf("does not type-check: %v", errs)
		}
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	p := &Program{In: NewInterner(), Pkgs: ps, Root: root, frames: map[*ssa.Function]*frame{}, mods: map[*ssa.Function]*ModSet{}, reads: map[*ssa.Function]map[string]bool{}, byName: map[string]*ssa.Function{}, impls: map[string][]*ssa.Function{}, keys: map[ssa.Instruction]string{}, Specs: map[string]*ssa.Function{}, ov: ov}
	curProg = p
	IN = p.In
	if ps[0].Module != nil {
		p.Module = ps[0].Module.Path
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) > 0 && p.InRepo(f) && f.Synthetic == "" {
			if p.inSpec(f) {
				p.Specs[shortName(f)] = f
				continue
			}
			p.Fns = append(p.Fns, f)
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool {
		a, b := p.Fns[i], p.Fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, f := range p.Fns {
		p.byName[shortName(f)] = f
	}
	// implementations of repository methods by name, for interface calls
	for _, f := range p.Fns {
		if f.Signature.Recv() != nil {
			p.impls[f.Name()] = append(p.impls[f.Name()], f)
		}
	}
	return p, nil
}

// goEnv is the build's environment, with a module mode that never writes to
// the repository.
func goEnv() []string {
	drop := map[string]bool{"GOFLAGS": true, "GOPROXY": true, "GOWORK": true, "GOTOOLCHAIN": true, "HOME": true, "GOPATH": true, "GOMODCACHE": true, "GOCACHE": true, "PATH": true}
	var env []string
	for _, kv := range os.Environ() {
		if !drop[strings.SplitN(kv, "=", 2)[0]] {
			env = append(env, kv)
		}
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "HOME=/root",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
}

// packageDirs lists the repository's packages; two directories hold several
// stand-alone main programs each and cannot be loaded as one package.
func packageDirs(root string) ([]string, error) {
	var out []string
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		if strings.HasPrefix(fi.Name(), ".") && path != root || fi.Name() == "vendor" || fi.Name() == "testdata" {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(root, path)
		if rel == "constdp/app" || rel == "dp/example" {
			return filepath.SkipDir
		}
		m, _ := filepath.Glob(filepath.Join(path, "*.go"))
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") {
				out = append(out, "./"+rel)
				break
			}
		}
		return nil
	})
	return out, err
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func (p *Program) InRepo(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && p.inRepoPath(pk.Path())
}
func (p *Program) inRepoPath(s string) bool {
	return s == p.Module || strings.HasPrefix(s, p.Module+"/")
}

func (p *Program) siteKey(ins ssa.Instruction) string {
	if k, ok := p.keys[ins]; ok {
		return k
	}
	b := ins.Block()
	k := "?"
	for i, x := range b.Instrs {
		if x == ins {
			k = fmt.Sprintf("%s.%d.%d", b.Parent(), b.Index, i)
		}
	}
	p.keys[ins] = k
	return k
}

// Fn looks a function up by its short name (pkg.Func or pkg.Type.Method).
func (p *Program) Fn(name string) *ssa.Function { return p.byName[name] }

func (p *Program) Pos(pos token.Pos) string {
	q := p.Prog.Fset.Position(pos)
	if !q.IsValid() {
		return "?"
	}
	if r, err := filepath.Rel(p.Root, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// ModSet is the storage a function may write, directly or through calls.
type ModSet struct {
	Classes map[string]bool
	Sites   []WriteSite
}

// WriteSite is one place that writes storage not made by the activation.
type WriteSite struct {
	Class string // widest class written there
	Fn    *ssa.Function
	Pos   token.Pos
	Ins   ssa.Instruction
}

func (m *ModSet) touches(t types.Type) bool {
	if t == nil {
		return false
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if m.Classes["f:"+typeName(t)+"."+fmt.Sprint(i)] || m.touches(st.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return m.Classes["[]"+typeKey(a.Elem())]
	}
	return m.Classes["*"+typeKey(t)]
}

func addClasses(m map[string]bool, base string, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			addClasses(m, "f:"+typeName(t)+"."+fmt.Sprint(i), st.Field(i).Type())
		}
	}
	m[base] = true
}

// storeClass is the storage class of an SSA address.
func storeClass(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return "f:" + typeName(derefT(x.X.Type())) + "." + fmt.Sprint(x.Field)
	case *ssa.IndexAddr:
		return "[]" + typeKey(derefT(x.Type()))
	case *ssa.Global:
		return "global:" + x.Pkg.Pkg.Path() + "." + x.Name()
	}
	return "*" + typeKey(derefT(a.Type()))
}

// Mods computes the transitive write set of f.
func (p *Program) Mods(f *ssa.Function) *ModSet {
	if m, ok := p.mods[f]; ok {
		return m
	}
	m := &ModSet{Classes: map[string]bool{}}
	reach := p.Reach(f)
	fr := p.newFreshness(f, reach)
	site := func(c string, g *ssa.Function, ins ssa.Instruction) {
		m.Sites = append(m.Sites, WriteSite{c, g, ins.Pos(), ins})
	}
	for g := range reach {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fr.fresh(x.Addr) {
						continue
					}
					addClasses(m.Classes, storeClass(x.Addr), x.Val.Type())
					site(storeClass(x.Addr), g, ins)
				case *ssa.MapUpdate:
					if fr.fresh(x.Map) {
						continue
					}
					m.Classes["map:"+typeKey(x.Map.Type().Underlying())] = true
					site("map:"+typeKey(x.Map.Type().Underlying()), g, ins)
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete":
							if fr.fresh(c.Args[0]) {
								continue
							}
							m.Classes["map:"+typeKey(c.Args[0].Type().Underlying())] = true
							site("map:"+typeKey(c.Args[0].Type().Underlying()), g, ins)
						case "append":
							if !fr.freshBase(c.Args[0]) {
								addClasses(m.Classes, "[]"+typeKey(elemType(c.Args[0].Type())), elemType(c.Args[0].Type()))
								site("[]"+typeKey(elemType(c.Args[0].Type())), g, ins)
							}
						case "copy":
							if fr.fresh(c.Args[0]) {
								continue
							}
							addClasses(m.Classes, "[]"+typeKey(elemType(c.Args[0].Type())), elemType(c.Args[0].Type()))
							site("[]"+typeKey(elemType(c.Args[0].Type())), g, ins)
						}
						continue
					}
					if len(c.Args) > 0 && fr.fresh(unwrapIface(c.Args[0])) {
						continue
					}
					for _, cl := range extWrites(c) {
						m.Classes[cl] = true
						site(cl, g, ins)
					}
				}
			}
		}
	}
	p.mods[f] = m
	return m
}

// Reads is the transitive read set of f: storage not made by the activation.
func (p *Program) Reads(f *ssa.Function) map[string]bool {
	if m, ok := p.reads[f]; ok {
		return m
	}
	m := map[string]bool{}
	reach := p.Reach(f)
	fr := p.newFreshness(f, reach)
	elems := func(v ssa.Value) {
		if et := elemType(v.Type()); et != nil {
			addClasses(m, "[]"+typeKey(et), et)
		}
	}
	for g := range reach {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && !fr.fresh(x.X) {
						addClasses(m, storeClass(x.X), x.Type())
					}
				case *ssa.Lookup:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok && !fr.fresh(x.X) {
						m["map:"+typeKey(x.X.Type().Underlying())] = true
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok && !fr.fresh(x.X) {
						m["map:"+typeKey(x.X.Type().Underlying())] = true
					}
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy":
							for _, a := range c.Args {
								if _, ok := a.Type().Underlying().(*types.Slice); ok && !fr.fresh(a) {
									elems(a)
								}
							}
						case "len":
							if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok && !fr.fresh(c.Args[0]) {
								m["map:"+typeKey(c.Args[0].Type().Underlying())] = true
							}
						}
						continue
					}
					if h := c.StaticCallee(); h == nil || !p.InRepo(h) {
						for _, a := range c.Args {
							if !fr.fresh(unwrapIface(a)) {
								p.typeClasses(m, unwrapIface(a).Type())
							}
						}
					}
				}
			}
		}
	}
	p.reads[f] = m
	return m
}

// typeClasses adds the storage reachable from a value of type t.
func (p *Program) typeClasses(m map[string]bool, t types.Type) {
	seen := map[string]bool{}
	var rec func(t types.Type)
	rec = func(t types.Type) {
		k := typeKey(t)
		if seen[k] {
			return
		}
		seen[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			addClasses(m, "*"+typeKey(u.Elem()), u.Elem())
			rec(u.Elem())
		case *types.Slice:
			addClasses(m, "[]"+typeKey(u.Elem()), u.Elem())
			rec(u.Elem())
		case *types.Array:
			rec(u.Elem())
		case *types.Map:
			m["map:"+typeKey(u)] = true
			rec(u.Key())
			rec(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type())
			}
		}
	}
	rec(t)
}

// Reach is the set of repository functions that may run when f is called:
// static callees, closures created, functions used as values, and methods
// that interface calls may dispatch to.
func (p *Program) Reach(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if !p.InRepo(f) && f.Synthetic == "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						rec(g)
					}
					if g, ok := (*op).(*ssa.MakeClosure); ok {
						rec(g.Fn.(*ssa.Function))
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range p.Impls(c.Common()) {
						rec(g)
					}
				}
			}
		}
	}
	rec(f)
	return seen
}

// Impls lists repository methods an interface call may reach.
func (p *Program) Impls(c *ssa.CallCommon) []*ssa.Function {
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, g := range p.impls[c.Method.Name()] {
		r := g.Signature.Recv().Type()
		if it == nil || types.Implements(r, it) || types.Implements(types.NewPointer(r), it) {
			out = append(out, g)
			continue
		}
		// promoted through embedding: accept any repository type embedding r
		if p.embeddedImplements(r, it) {
			out = append(out, g)
		}
	}
	return out
}

func (p *Program) embeddedImplements(r types.Type, it *types.Interface) bool {
	for _, q := range p.Pkgs {
		for _, n := range q.Types.Scope().Names() {
			tn, ok := q.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && (types.Identical(st.Field(i).Type(), r) || types.Identical(derefT(st.Field(i).Type()), derefT(r))) {
					if types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it) {
						return true
					}
				}
			}
		}
	}
	return false
}

// extWrites: storage of ours that a dependency call may write.
func extWrites(c *ssa.CallCommon) []string {
	var name, pkg string
	var recv types.Type
	if c.IsInvoke() {
		return nil
	}
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		return nil
	}
	name, pkg = f.Name(), f.Pkg.Pkg.Name()
	if r := f.Signature.Recv(); r != nil {
		recv = r.Type()
	}
	switch {
	case pkg == "mbr" && strings.HasPrefix(name, "Expand"):
		var out []string
		for i := 0; i < 4; i++ {
			out = append(out, "f:"+typeName(derefT(recv))+"."+fmt.Sprint(i))
		}
		return out
	case pkg == "sort" && len(c.Args) > 0:
		t := c.Args[0].Type()
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		if el := elemType(t); el != nil {
			m := map[string]bool{}
			addClasses(m, "[]"+typeKey(el), el)
			return sortedKeys(m)
		}
	case pkg == "json" && name == "Unmarshal":
		t := c.Args[1].Type()
		if mi, ok := c.Args[1].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		m := map[string]bool{}
		addClasses(m, "*"+typeKey(derefT(t)), derefT(t))
		return sortedKeys(m)
	}
	return nil
}

func unwrapIface(v ssa.Value) ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X
	}
	return v
}
