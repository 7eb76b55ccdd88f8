package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Values the specifications name rather than spell out: constants, initial
// values of package variables, dictionary entries and field tags.

type constRow struct {
	name string
	want string // Go literal; "" when only distinctness or a bound is asked
	min  int64  // with want "": at least this
	kind string // "=" , ">=" , "<"
}

var constTable = map[string][]constRow{
	"C18": {{name: "geometry.TypeLineString", want: `"LineString"`}, {name: "geometry.TypeMultiLineString", want: `"MultiLineString"`}, {name: "geometry.TypeFeature", want: `"Feature"`}, {name: "geometry.TypeFeatureCollection", want: `"FeatureCollection"`},
		{name: "geometry.TypePoint", want: `"Point"`}, {name: "geometry.TypePolygon", want: `"Polygon"`}, {name: "geometry.TypeMultiPoint", want: `"MultiPoint"`}, {name: "geometry.TypeMultiPolygon", want: `"MultiPolygon"`}},
	"C10": {{name: "lnr.x", want: "0"}, {name: "lnr.y", want: "1"}, {name: "lnr.NullFId", kind: "<", min: 0}},
	"C16": {{name: "constdp.ConcurProcs", kind: ">=", min: 1}},
	"C11": {{name: "constdp.CacheKeySize", kind: ">=", min: 6}},
}

func init() {
	constTable["C20"] = constTable["C18"]
	for id, rows := range constTable {
		rows := rows
		extraRules[id] = append(extraRules[id], func(c *Ctx) { ruleConsts(c, rows) })
	}
	distinct := func(groups ...[]string) func(*Ctx) {
		return func(c *Ctx) { ruleDistinct(c, groups) }
	}
	ctxKinds := []string{"ctx.Self", "ctx.PlanarVertex", "ctx.NonPlanarVertex", "ctx.PlanarSegment", "ctx.LinearSimple", "ctx.ContextNeighbour"}
	extraRules["C06"] = append(extraRules["C06"], distinct(ctxKinds))
	extraRules["C07"] = append(extraRules["C07"], distinct(ctxKinds))
	extraRules["C31"] = append(extraRules["C31"], distinct(ctxKinds))
	extraRules["C13"] = append(extraRules["C13"], distinct([]string{"hdb.byX", "hdb.byY"}, []string{"hdb.cmpMinX", "hdb.cmpMinY"}))
	extraRules["C18"] = append(extraRules["C18"], func(c *Ctx) {
		ruleInitial(c, "main.numRegx", "regexp.MustCompile", `"[0-9]+"`)
		ruleWrittenOnce(c, "main.numRegx")
		ruleJSONForm(c, "geometry.LineStringFeature", "geometry.LinearGeometry", "geometry.MultiLinearGeometry", "geometry.JSONType")
		ruleTags(c, "geometry.LineStringFeature", map[string]string{"Type": "type", "Properties": "properties", "Geometry": "geometry"})
		ruleTags(c, "geometry.LinearGeometry", map[string]string{"Type": "type", "Coordinates": "coordinates"})
		ruleTags(c, "geometry.MultiLinearGeometry", map[string]string{"Type": "type", "Coordinates": "coordinates"})
		ruleTags(c, "geometry.JSONType", map[string]string{"Type": "type"})
	})
	extraRules["C20"] = append(extraRules["C20"], func(c *Ctx) {
		ruleJSONForm(c, "geometry.JSONType")
		ruleTags(c, "geometry.JSONType", map[string]string{"Type": "type"})
	})
	extraRules["C19"] = append(extraRules["C19"], func(c *Ctx) {
		ruleJSONForm(c, "geometry.LinearGeometry", "geometry.MultiLinearGeometry")
		ruleTags(c, "geometry.LinearGeometry", map[string]string{"Coordinates": "coordinates"})
		ruleTags(c, "geometry.MultiLinearGeometry", map[string]string{"Coordinates": "coordinates"})
	})
	extraRules["C21"] = append(extraRules["C21"], func(c *Ctx) {
		ruleTags(c, "main.ArgObj", map[string]string{
			"Input": "input", "Output": "output", "Constraints": "constraints", "SimplificationType": "simplification_type",
			"Threshold": "threshold", "MinDist": "minimum_distance", "NonPlanarDisplacement": "non_planar_displacement",
			"IsFeatureClass": "is_feature_class", "PlanarSelf": "planar_self", "NonPlanarSelf": "non_planar_self",
			"AvoidNewSelfIntersects": "avoid_new_self_intersects", "GeomRelation": "geometric_relation",
			"DistRelation": "distance_relation", "SideRelation": "homotopy_relation"})
		ruleJSONForm(c, "main.ArgObj")
		ruleWrittenOnce(c, "main.offsetDictionary")
		ruleDictionary(c, "main.offsetDictionary", map[string]string{"dp": "offset.MaxOffset", "sed": "offset.MaxSEDOffset"})
	})
	extraRules["C22"] = append(extraRules["C22"], ruleWriters)
}

func (p *Program) scope(name string) (*packages.Package, string) {
	i := strings.IndexByte(name, '.')
	for _, q := range p.Pkgs {
		if q.Name == name[:i] && (q.Name != "main" || q.PkgPath == p.Module) {
			return q, name[i+1:]
		}
	}
	return nil, ""
}

func (p *Program) object(name string) types.Object {
	q, n := p.scope(name)
	if q == nil {
		return nil
	}
	return q.Types.Scope().Lookup(n)
}

func ruleConsts(c *Ctx, rows []constRow) {
	const rule = "constants"
	for _, r := range rows {
		o, ok := c.P.object(r.name).(*types.Const)
		if !ok {
			c.Note(rule, r.name, "is not there under this name")
			continue
		}
		v := o.Val()
		good, want := false, r.want
		switch r.kind {
		case ">=":
			good, want = constant.Compare(v, token.GEQ, constant.MakeInt64(r.min)), fmt.Sprintf("at least %d", r.min)
		case "<":
			good, want = constant.Compare(v, token.LSS, constant.MakeInt64(r.min)), fmt.Sprintf("below %d", r.min)
		default:
			if strings.HasPrefix(want, `"`) {
				good = v.Kind() == constant.String && v.ExactString() == want
			} else {
				good = constant.Compare(constant.ToFloat(v), token.EQL, constant.ToFloat(constant.MakeFromLiteral(want, token.FLOAT, 0)))
			}
		}
		c.oblige(rule, r.name, o.Pos(), r.name+" is "+want, good, r.name+" is "+v.ExactString())
	}
}

func (c *Ctx) oblige(rule, where string, pos token.Pos, what string, ok bool, detail string) {
	c.Oblige(rule, nil, pos, what, ok, detail)
	c.Obs[len(c.Obs)-1].Where = where
}

func ruleDistinct(c *Ctx, groups [][]string) {
	const rule = "constants"
	for _, g := range groups {
		seen := map[string]string{}
		for _, n := range g {
			o, ok := c.P.object(n).(*types.Const)
			if !ok {
				c.Note(rule, n, "is not there under this name")
				continue
			}
			k := o.Val().ExactString()
			c.oblige(rule, n, o.Pos(), n+" differs from the other kinds", seen[k] == "", n+" and "+seen[k]+" have the same value "+k)
			seen[k] = n
		}
	}
}

// initStores finds what the package's initialisation puts in a variable.
func initStores(p *Program, name string) (*ssa.Global, []ssa.Value) {
	q, n := p.scope(name)
	if q == nil {
		return nil, nil
	}
	sp := p.Prog.Package(q.Types)
	if sp == nil {
		return nil, nil
	}
	g, ok := sp.Members[n].(*ssa.Global)
	if !ok {
		return nil, nil
	}
	var out []ssa.Value
	if in := sp.Func("init"); in != nil {
		for _, b := range in.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return g, out
}

func ruleInitial(c *Ctx, name, fn, arg string) {
	const rule = "initial values"
	g, vs := initStores(c.P, name)
	if g == nil || len(vs) != 1 {
		c.Note(rule, name, "is not there under this name")
		return
	}
	call, ok := vs[0].(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || shortName(call.Call.StaticCallee()) != fn || len(call.Call.Args) == 0 {
		c.Note(rule, name, "is set in a way this rule does not read")
		return
	}
	k, ok := call.Call.Args[0].(*ssa.Const)
	if !ok {
		c.Note(rule, name, "is set in a way this rule does not read")
		return
	}
	c.oblige(rule, name, g.Pos(), name+" starts as "+fn+"("+arg+")", k.Value.ExactString() == arg, name+" starts as "+fn+"("+k.Value.ExactString()+")")
}

// ruleWrittenOnce: a package variable the specifications rely on keeps what its
// declaration gave it, whether assigned as a whole or entry by entry.
func ruleWrittenOnce(c *Ctx, name string) {
	const rule = "initial values"
	g, vs := initStores(c.P, name)
	if g == nil || len(vs) != 1 {
		c.Note(rule, name, "is not there under this name")
		return
	}
	var bad ssa.Instruction
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(g) && x.Val != vs[0] {
						bad = in
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						bad = in
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						if u, ok := x.Call.Args[0].(*ssa.UnOp); ok && u.X == ssa.Value(g) {
							bad = in
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range c.P.Fns {
		visit(f)
	}
	pos := g.Pos()
	where := ""
	if bad != nil {
		pos, where = bad.Pos(), " in "+shortName(bad.Parent())
	}
	c.oblige(rule, name, pos, name+" is not written after its declaration", bad == nil, name+" is written again"+where)
}

// ruleJSONForm: a type that is read or written as JSON by its fields has no
// methods that give it another form.
func ruleJSONForm(c *Ctx, names ...string) {
	const rule = "field names"
	for _, name := range names {
		o, ok := c.P.object(name).(*types.TypeName)
		if !ok {
			c.Note(rule, name, "is not there under this name")
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(o.Type()))
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			sel := ms.Lookup(nil, m)
			pos := o.Pos()
			if sel != nil {
				pos = sel.Obj().Pos()
			}
			c.oblige(rule, name, pos, name+" is read and written by its fields", sel == nil, name+" has a "+m+" method")
		}
	}
}

// ruleDictionary: constant keys of a package-level map and the functions there.
func ruleDictionary(c *Ctx, name string, want map[string]string) {
	const rule = "dictionary"
	g, vs := initStores(c.P, name)
	if g == nil || len(vs) != 1 {
		c.Note(rule, name, "is not there under this name")
		return
	}
	got := map[string]string{}
	known := true
	if vs[0].Referrers() != nil {
		for _, r := range *vs[0].Referrers() {
			mu, ok := r.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			k, ok := mu.Key.(*ssa.Const)
			v := mu.Value
			for {
				ct, is := v.(*ssa.ChangeType)
				if !is {
					break
				}
				v = ct.X
			}
			f, ok2 := v.(*ssa.Function)
			if !ok || !ok2 || k.Value == nil {
				known = false
				continue
			}
			got[constant.StringVal(k.Value)] = shortName(f)
		}
	}
	if !known {
		c.Note(rule, name, "has entries this rule does not read")
		return
	}
	for _, k := range sortedStr(want) {
		w := want[k]
		if c.P.Fn(w) == nil {
			c.Note(rule, w, "is not there under this name")
			continue
		}
		c.oblige(rule, name, g.Pos(), name+"["+k+"] is "+w, got[k] == w, name+"["+k+"] is "+got[k])
	}
}

func sortedStr(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// ruleTags: the JSON name of every field that is read or written as JSON.
func ruleTags(c *Ctx, name string, want map[string]string) {
	const rule = "field names"
	o, ok := c.P.object(name).(*types.TypeName)
	if !ok {
		c.Note(rule, name, "is not there under this name")
		return
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return
	}
	byField := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		byField[st.Field(i).Name()] = i
	}
	for _, f := range sortedStr(want) {
		i, ok := byField[f]
		if !ok {
			c.Note(rule, name+"."+f, "is not there under this name")
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		n := strings.Split(tag, ",")
		if n[0] == "" {
			n[0] = st.Field(i).Name()
		}
		good := (n[0] == want[f] || strings.EqualFold(n[0], want[f]) && !strings.HasPrefix(name, "geometry.L") && !strings.HasPrefix(name, "geometry.M")) && !strings.Contains(tag, ",string") && !strings.Contains(tag, ",omitempty")
		c.oblige(rule, name+"."+f, st.Field(i).Pos(), name+"."+f+" is "+want[f]+" in JSON", good, name+"."+f+" has the JSON tag "+tag)
	}
}

// ruleWriters: only the entry point writes files.
func ruleWriters(c *Ctx) {
	const rule = "one writer"
	reach := c.reachMain(rule)
	n := 0
	instrs(reach, func(f *ssa.Function, ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		g := ci.Common().StaticCallee()
		if g == nil || g.Pkg == nil {
			return
		}
		pkg, name := g.Pkg.Pkg.Path(), g.Name()
		w := false
		switch {
		case strings.HasSuffix(pkg, "/fileutil"):
			w = name == "SaveText" || name == "CopyFile" || name == "MakeDirs"
		case pkg == "os":
			w = name == "Create" || name == "OpenFile" || name == "WriteFile" || name == "Rename" || strings.HasPrefix(name, "Remove") || name == "Truncate" || strings.HasPrefix(name, "Mkdir")
		case pkg == "io/ioutil":
			w = name == "WriteFile"
		}
		if w {
			n++
			inMain := f.Pkg != nil && f.Pkg.Pkg.Name() == "main"
			c.Oblige(rule, f, ins.Pos(), "files are written by the entry point only", inMain, "calls "+pkg+"."+name)
		}
	})
}
