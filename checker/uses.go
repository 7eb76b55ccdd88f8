package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unspecifiedUses: functions of the repository that specifications call, or
// name, and that have no specification themselves. Whatever they do would be
// taken for granted on both sides of a comparison.
func unspecifiedUses(p *Program, specs []*Spec) map[*ssa.Function][]string {
	done := map[string]bool{}
	for _, s := range specs {
		done[s.Target] = true
	}
	out := map[*ssa.Function][]string{}
	unbound := func(f *ssa.Function) *ssa.Function {
		if o, ok := f.Object().(*types.Func); ok && f.Synthetic != "" {
			if g := p.Prog.FuncValue(o); g != nil {
				return g
			}
		}
		return f
	}
	var visit func(f *ssa.Function, by string)
	visit = func(f *ssa.Function, by string) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if ok {
						g = unbound(g)
					}
					if !ok || !p.InRepo(g) || g.Synthetic != "" {
						continue
					}
					if strings.HasPrefix(g.Name(), "spec_") || g.Parent() != nil || done[shortName(g)] {
						continue
					}
					out[g] = append(out[g], by)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a, by)
		}
	}
	// methods that hide one of an embedded field are called through interfaces too
	hiding := map[string][]*ssa.Function{}
	for _, f := range p.Fns {
		if f.Signature.Recv() != nil && f.Synthetic == "" && f.Parent() == nil && !done[shortName(f)] && !strings.HasPrefix(f.Name(), "spec_") && p.hidden(f) != nil {
			hiding[f.Name()] = append(hiding[f.Name()], f)
		}
	}
	for _, s := range specs {
		for _, f := range append([]*ssa.Function{s.Fn}, s.Alts...) {
			if f == nil {
				continue
			}
			visit(f, s.Target)
			if len(hiding) == 0 {
				continue
			}
			instrs(map[*ssa.Function]bool{f: true}, func(_ *ssa.Function, in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range hiding[c.Common().Method.Name()] {
						out[g] = append(out[g], s.Target)
					}
				}
			})
		}
	}
	return out
}

// hidden is the method of an embedded field that g has taken the place of.
func (p *Program) hidden(g *ssa.Function) (f *ssa.Function) {
	defer func() {
		if recover() != nil {
			f = nil
		}
	}()
	recv := g.Signature.Recv()
	if recv == nil {
		return nil
	}
	n := namedOf(recv.Type())
	if n == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	// the same type, had it no methods of its own
	var t types.Type = types.NewNamed(types.NewTypeName(n.Obj().Pos(), n.Obj().Pkg(), n.Obj().Name(), nil), n.Underlying(), nil)
	if _, ok := recv.Type().(*types.Pointer); ok {
		t = types.NewPointer(t)
	}
	sel := types.NewMethodSet(t).Lookup(g.Pkg.Pkg, g.Name())
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

// ruleHidden: a method declared on a type that embeds another must do what the
// embedded method of that name does, or the specifications that name it would
// mean something else than they say.
func ruleHidden(c *Ctx) {
	const rule = "hidden methods"
	for g, by := range unspecifiedUses(c.P, c.Specs) {
		mine := false
		for _, s := range c.Specs {
			for _, b := range by {
				if s.Target == b {
					for _, id := range s.Props {
						mine = mine || id == c.Prop
					}
				}
			}
		}
		if !mine {
			continue
		}
		h := c.P.hidden(g)
		if h == nil {
			c.Note(rule, shortName(g), "is taken for granted by the specification of "+by[0])
			continue
		}
		s := &Spec{Target: shortName(g), Fn: h, Opts: map[string]string{}}
		d, n, _, err := s.Compare(c.P, g, keepSet(c.Specs, s))
		if err != nil {
			c.Note(rule, shortName(g), err.Error())
			continue
		}
		for _, x := range d {
			c.Oblige(rule, g, g.Pos(), "does what the embedded method does", false, x.String())
		}
		for i := len(d); i < n; i++ {
			c.Oblige(rule, g, g.Pos(), "does what the embedded method does", true, "")
		}
	}
}

func printUses(p *Program) {
	u := unspecifiedUses(p, loadSpecs(p))
	var ls []string
	for f, by := range u {
		ls = append(ls, fmt.Sprint(shortName(f), " by ", by))
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Println(l)
	}
}
