package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Expr is a hash-consed value-graph node: two occurrences of the same value
// are the same pointer.
type Expr struct {
	Op   string
	Aux  string // rendered part of the key
	Args []*Expr
	T    types.Type
	id   int

	C     constant.Value
	Fn    *ssa.Function
	N     int
	Ev    *Event
	Loop  *LoopSum
	coef  []*big.Rat // lin: coefficient of each arg
	c0    *big.Rat   // lin/rel: constant
	rel   string     // rel: "<", "<=", "=="
	Clo   *Closure
	strct *types.Struct
}

// Closure is the payload of a function value with known body.
type Closure struct {
	Fn       *ssa.Function
	Bindings []*Expr
}

type Interner struct {
	tab     map[string]*Expr
	ite     map[memo3]*Expr
	next    int
	budget  int
	lazyMul bool
}

func NewInterner() *Interner { return &Interner{tab: map[string]*Expr{}, ite: map[memo3]*Expr{}} }

func (in *Interner) mk(e Expr) *Expr {
	if steps++; steps&0xffff == 0 {
		checkDeadline()
	}
	if in.budget > 0 && in.next > in.budget {
		panic(undecided{"comparison exceeds its budget"})
	}
	if e.Op == "slicelit" && len(e.Args) == 0 {
		e.Aux = typeKey(e.T)
	}
	var sb strings.Builder
	sb.WriteString(e.Op)
	sb.WriteByte('|')
	sb.WriteString(e.Aux)
	for i, a := range e.Args {
		sb.WriteByte('|')
		if a == nil {
			sb.WriteString("nil")
		} else {
			fmt.Fprintf(&sb, "%d", a.id)
		}
		if e.coef != nil {
			sb.WriteByte('*')
			sb.WriteString(e.coef[i].RatString())
		}
	}
	if e.c0 != nil {
		sb.WriteString("|c" + e.c0.RatString())
	}
	sb.WriteString("|" + e.rel)
	k := sb.String()
	if x, ok := in.tab[k]; ok {
		return x
	}
	in.next++
	e.id = in.next
	p := &e
	in.tab[k] = p
	return p
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isNumeric(t types.Type) bool { return isInteger(t) || isFloat(t) }
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---------- constructors

func (in *Interner) Const(v constant.Value, t types.Type) *Expr {
	if v == nil { // nil or zero value
		return in.Zero(t)
	}
	if isNumeric(t) && (v.Kind() == constant.Int || v.Kind() == constant.Float) {
		if r, ok := constRat(v); ok {
			if b, is := t.Underlying().(*types.Basic); is && b.Kind() == types.Float64 {
				// the value the program holds, however precisely it was written
				if f, _ := r.Float64(); !math.IsInf(f, 0) {
					r = new(big.Rat).SetFloat64(f)
				}
			}
			return in.Lin(nil, nil, r, t)
		}
	}
	return in.mk(Expr{Op: "const", Aux: v.ExactString() + ":" + v.Kind().String(), T: t, C: v})
}

func constRat(v constant.Value) (*big.Rat, bool) {
	switch x := constant.Val(v).(type) {
	case int64:
		return new(big.Rat).SetInt64(x), true
	case *big.Int:
		return new(big.Rat).SetInt(x), true
	case *big.Rat:
		return new(big.Rat).Set(x), true
	case *big.Float:
		r, _ := x.Rat(nil)
		if r == nil {
			return nil, false
		}
		return r, true
	}
	return nil, false
}

func (in *Interner) Int(n int64) *Expr {
	return in.Lin(nil, nil, new(big.Rat).SetInt64(n), types.Typ[types.Int])
}
func (in *Interner) Bool(b bool) *Expr {
	return in.mk(Expr{Op: "const", Aux: fmt.Sprint(b) + ":Bool", T: types.Typ[types.Bool], C: constant.MakeBool(b)})
}
func (in *Interner) Nil(t types.Type) *Expr { return in.mk(Expr{Op: "nil", Aux: typeKey(t), T: t}) }

// Zero value of a type.
func (in *Interner) Zero(t types.Type) *Expr {
	if t == nil {
		return in.Nil(nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Bool(false)
		case u.Info()&types.IsNumeric != 0 && u.Info()&types.IsComplex == 0:
			return in.Lin(nil, nil, new(big.Rat), t)
		case u.Info()&types.IsString != 0:
			return in.Const(constant.MakeString(""), t)
		}
		return in.Nil(t)
	case *types.Struct:
		args := make([]*Expr, u.NumFields())
		for i := range args {
			args[i] = in.Zero(u.Field(i).Type())
		}
		return in.Struct(t, args)
	case *types.Array:
		if u.Len() <= 64 {
			args := make([]*Expr, u.Len())
			for i := range args {
				args[i] = in.Zero(u.Elem())
			}
			return in.mk(Expr{Op: "array", Aux: typeKey(t), Args: args, T: t})
		}
		return in.mk(Expr{Op: "zeroarray", Aux: typeKey(t), T: t})
	}
	return in.Nil(t)
}

func (in *Interner) Struct(t types.Type, fields []*Expr) *Expr {
	// eta: struct{field(x,0),...,field(x,n)} == x
	if len(fields) > 0 && fields[0] != nil && fields[0].Op == "field" && fields[0].N == 0 {
		base := fields[0].Args[0]
		ok := types.Identical(base.T, t)
		for i, f := range fields {
			if f == nil || f.Op != "field" || f.N != i || f.Args[0] != base {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return in.mk(Expr{Op: "struct", Aux: typeKey(t), Args: fields, T: t})
}

func (in *Interner) Op(op string, t types.Type, args ...*Expr) *Expr {
	return in.mk(Expr{Op: op, Args: args, T: t})
}
func (in *Interner) OpAux(op, aux string, t types.Type, args ...*Expr) *Expr {
	return in.mk(Expr{Op: op, Aux: aux, Args: args, T: t})
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Type()
	}
	return nil
}
func fieldName(t types.Type, i int) string {
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return fmt.Sprint(i)
}

// Field projects a struct value.
func (in *Interner) Field(x *Expr, i int) *Expr {
	if x.Op == "struct" && i < len(x.Args) {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return in.Map(x, func(l *Expr) *Expr { return in.Field(l, i) })
	}
	return in.B(in.mk(Expr{Op: "field", Aux: fmt.Sprint(i), Args: []*Expr{x}, N: i, T: fieldType(x.T, i)}))
}

func (in *Interner) WithField(x *Expr, i int, v *Expr) *Expr {
	st, ok := x.T.Underlying().(*types.Struct)
	if !ok {
		return in.OpAux("with", fmt.Sprint(i), x.T, x, v)
	}
	args := make([]*Expr, st.NumFields())
	for j := range args {
		args[j] = in.Field(x, j)
	}
	args[i] = v
	return in.Struct(x.T, args)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Pointer:
		return elemTypePtr(u)
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}
func elemTypePtr(p *types.Pointer) types.Type {
	if a, ok := p.Elem().Underlying().(*types.Array); ok {
		return a.Elem()
	}
	return p.Elem()
}

// Index of an array value.
func (in *Interner) Index(x, i *Expr) *Expr {
	if x.Op == "array" {
		if n, ok := i.IntConst(); ok && n >= 0 && int(n) < len(x.Args) {
			return x.Args[n]
		}
	}
	if x.Op == "astore" {
		if x.Args[1] == i {
			return x.Args[2]
		}
	}
	return in.B(in.mk(Expr{Op: "index", Args: []*Expr{x, i}, T: elemType(x.T)}))
}

func (in *Interner) WithIndex(x, i, v *Expr) *Expr {
	if x.Op == "array" {
		if n, ok := i.IntConst(); ok && n >= 0 && int(n) < len(x.Args) {
			args := append([]*Expr{}, x.Args...)
			args[n] = v
			return in.mk(Expr{Op: "array", Aux: x.Aux, Args: args, T: x.T})
		}
	}
	return in.Op("astore", x.T, x, i, v)
}

// ---------- linear forms

func (e *Expr) IntConst() (int64, bool) {
	if e.Op == "lin" && len(e.Args) == 0 && e.c0.IsInt() {
		return e.c0.Num().Int64(), true
	}
	return 0, false
}
func (e *Expr) NumConst() (*big.Rat, bool) {
	if e.Op == "lin" && len(e.Args) == 0 {
		return e.c0, true
	}
	return nil, false
}
func (e *Expr) BoolConst() (bool, bool) {
	if e.Op == "const" && e.C.Kind() == constant.Bool {
		return constant.BoolVal(e.C), true
	}
	return false, false
}
func (e *Expr) StrConst() (string, bool) {
	if e.Op == "const" && e.C.Kind() == constant.String {
		return constant.StringVal(e.C), true
	}
	return "", false
}

// Lin builds a normalised linear form sum(coef*arg)+c.
func (in *Interner) Lin(args []*Expr, coef []*big.Rat, c *big.Rat, t types.Type) *Expr {
	type term struct {
		e *Expr
		c *big.Rat
	}
	acc := map[*Expr]*big.Rat{}
	k := new(big.Rat).Set(c)
	var add func(e *Expr, m *big.Rat)
	add = func(e *Expr, m *big.Rat) {
		if e.Op == "lin" {
			k.Add(k, new(big.Rat).Mul(m, e.c0))
			for i, a := range e.Args {
				add(a, new(big.Rat).Mul(m, e.coef[i]))
			}
			return
		}
		if _, ok := acc[e]; !ok {
			acc[e] = new(big.Rat)
		}
		acc[e].Add(acc[e], m)
	}
	for i, a := range args {
		add(a, coef[i])
	}
	var ts []term
	for e, m := range acc {
		if m.Sign() != 0 {
			ts = append(ts, term{e, m})
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].e.id < ts[j].e.id })
	if len(ts) == 1 && k.Sign() == 0 && ts[0].c.Cmp(big.NewRat(1, 1)) == 0 {
		return ts[0].e
	}
	var as []*Expr
	var cs []*big.Rat
	for _, x := range ts {
		as = append(as, x.e)
		cs = append(cs, x.c)
	}
	ax := "f"
	if isInteger(t) {
		ax = "i"
	}
	return in.mk(Expr{Op: "lin", Aux: ax, Args: as, coef: cs, c0: k, T: t})
}

var ratOne = big.NewRat(1, 1)
var ratMinus = big.NewRat(-1, 1)
var ratZero = new(big.Rat)

func (in *Interner) Add(a, b *Expr) *Expr {
	if a.Op == "ite" || b.Op == "ite" {
		return in.Map2(a, b, in.Add)
	}
	return in.Lin([]*Expr{a, b}, []*big.Rat{ratOne, ratOne}, ratZero, a.T)
}
func (in *Interner) Sub(a, b *Expr) *Expr {
	if a.Op == "ite" || b.Op == "ite" {
		return in.Map2(a, b, in.Sub)
	}
	return in.Lin([]*Expr{a, b}, []*big.Rat{ratOne, ratMinus}, ratZero, a.T)
}
func (in *Interner) AddInt(a *Expr, n int64) *Expr {
	if a.Op == "ite" {
		return in.Map(a, func(l *Expr) *Expr { return in.AddInt(l, n) })
	}
	return in.Lin([]*Expr{a}, []*big.Rat{ratOne}, new(big.Rat).SetInt64(n), a.T)
}
func (in *Interner) Neg(a *Expr) *Expr {
	if a.Op == "ite" {
		return in.Map(a, in.Neg)
	}
	return in.Lin([]*Expr{a}, []*big.Rat{ratMinus}, ratZero, a.T)
}
func (in *Interner) Mul(a, b *Expr) *Expr {
	if (a.Op == "ite" || b.Op == "ite") && !in.lazyMul {
		return in.Map2(a, b, in.Mul)
	}
	if c, ok := a.NumConst(); ok && b.Op != "ite" {
		return in.Lin([]*Expr{b}, []*big.Rat{c}, ratZero, b.T)
	}
	if c, ok := b.NumConst(); ok && a.Op != "ite" {
		return in.Lin([]*Expr{a}, []*big.Rat{c}, ratZero, a.T)
	}
	// pull scalar factors out so that (2x)*y and x*(2y) agree
	fs := []*Expr{}
	k := big.NewRat(1, 1)
	var flat func(e *Expr)
	flat = func(e *Expr) {
		if e.Op == "mul" {
			for _, x := range e.Args {
				flat(x)
			}
			return
		}
		if e.Op == "lin" && len(e.Args) == 1 && e.c0.Sign() == 0 {
			k = new(big.Rat).Mul(k, e.coef[0])
			flat(e.Args[0])
			return
		}
		fs = append(fs, e)
	}
	flat(a)
	flat(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	m := in.mk(Expr{Op: "mul", Args: fs, T: a.T})
	if k.Cmp(ratOne) != 0 {
		return in.Lin([]*Expr{m}, []*big.Rat{k}, ratZero, a.T)
	}
	return m
}
func (in *Interner) Div(a, b *Expr, t types.Type) *Expr {
	if a.Op == "ite" || b.Op == "ite" {
		return in.Map2(a, b, func(x, y *Expr) *Expr { return in.Div(x, y, t) })
	}
	if c, ok := b.NumConst(); ok && c.Sign() != 0 && !isInteger(t) {
		return in.Lin([]*Expr{a}, []*big.Rat{new(big.Rat).Inv(c)}, ratZero, t)
	}
	return in.Op("div", t, a, b)
}

// ---------- boolean expressions

// B turns an opaque boolean value into a decision node.
func (in *Interner) B(e *Expr) *Expr {
	if !isBool(e.T) || e.Op == "ite" || e.Op == "const" {
		return e
	}
	return in.node(e, in.Bool(true), in.Bool(false))
}

func (in *Interner) node(atom, t, e *Expr) *Expr {
	if t != e && atom.Op == "rel" && atom.rel == "==" {
		t = in.unequal(t, atom)
	}
	if t == e {
		return t
	}
	return in.mk(Expr{Op: "ite", Args: []*Expr{atom, t, e}, T: t.T})
}

// unequal: what x is where a quantity equals a's constant, and so no other one.
func (in *Interner) unequal(x, a *Expr) *Expr {
	if x.Op != "ite" {
		return x
	}
	k := memo3{a, x, nil}
	if r, ok := in.ite[k]; ok {
		return r
	}
	var r *Expr
	if b := x.Args[0]; b.Op == "rel" && b.rel == "==" && b.Args[0] == a.Args[0] && b.c0.Cmp(a.c0) != 0 {
		r = in.unequal(x.Args[2], a)
	} else if t, e := in.unequal(x.Args[1], a), in.unequal(x.Args[2], a); t != x.Args[1] || e != x.Args[2] {
		r = in.node(b, t, e)
	} else {
		r = x
	}
	in.ite[k] = r
	return r
}

func topVar(x *Expr) *Expr {
	if x.Op == "ite" {
		return x.Args[0]
	}
	return nil
}

func minVar(xs ...*Expr) *Expr {
	var m *Expr
	for _, x := range xs {
		if v := topVar(x); v != nil && (m == nil || v.id < m.id) {
			m = v
		}
	}
	return m
}

func cof(x, v *Expr, b bool) *Expr {
	if x.Op == "ite" && x.Args[0] == v {
		if b {
			return x.Args[1]
		}
		return x.Args[2]
	}
	return x
}

type memo3 struct{ a, b, c *Expr }

// ITE selects t when c holds, e otherwise.  Structs are selected fieldwise.
func (in *Interner) ITE(c, t, e *Expr) *Expr {
	if c.Op == "ite" && t.Op != "ite" && e.Op != "ite" && t != e && isNumeric(t.T) && isNumeric(e.T) {
		if r := in.tied(c, t, e); r != nil {
			return r
		}
	}
	return in.ite0(c, t, e)
}

// tied: a choice between two numbers by a comparison at whose boundary they
// are equal (a minimum, say) does not depend on which side the boundary is.
func (in *Interner) tied(c, t, e *Expr) *Expr {
	a := c.Args[0]
	if a.Op != "rel" || a.rel == "==" || !(isTrue(c.Args[1]) && isFalse(c.Args[2]) || isFalse(c.Args[1]) && isTrue(c.Args[2])) {
		return nil
	}
	if isFalse(c.Args[1]) {
		t, e = e, t
	}
	integer := isInteger(a.Args[0].T)
	d := in.Sub(t, e)
	if _, ok := d.NumConst(); ok || isInteger(d.T) != integer {
		return nil
	}
	form, k, _ := in.normForm(d, integer)
	if form != a.Args[0] {
		return nil
	}
	at := new(big.Rat).Neg(k)
	if at.Cmp(a.c0) != 0 || a.rel != "<=" {
		return nil
	}
	if integer {
		return in.ite0(in.relLE(form, new(big.Rat).Sub(a.c0, ratOne), true), t, e)
	}
	return in.ite0(in.atom(Expr{Op: "rel", rel: "<", c0: a.c0, Args: []*Expr{form}, T: types.Typ[types.Bool]}), t, e)
}

func (in *Interner) ite0(c, t, e *Expr) *Expr {
	if b, ok := c.BoolConst(); ok {
		if b {
			return t
		}
		return e
	}
	if t == e {
		return t
	}
	if t.Op != "nil" && t.T != nil && (t.Op == "struct" || e.Op == "struct") {
		if st, ok := t.T.Underlying().(*types.Struct); ok && e.T != nil && types.Identical(t.T, e.T) {
			args := make([]*Expr, st.NumFields())
			for i := range args {
				args[i] = in.ite0(c, in.Field(t, i), in.Field(e, i))
			}
			return in.Struct(t.T, args)
		}
	}
	if t.Op == "array" && e.Op == "array" && len(t.Args) == len(e.Args) {
		args := make([]*Expr, len(t.Args))
		for i := range args {
			args[i] = in.ITE(c, t.Args[i], e.Args[i])
		}
		return in.mk(Expr{Op: "array", Aux: t.Aux, Args: args, T: t.T})
	}
	if t.Op == "obj" && e.Op == "obj" && t.Aux == e.Aux && len(t.Args) == 1 && len(e.Args) == 1 {
		// fresh objects are known by their content
		return in.mk(Expr{Op: "obj", Aux: t.Aux, Args: []*Expr{in.ITE(c, t.Args[0], e.Args[0])}, T: t.T})
	}
	k := memo3{c, t, e}
	if r, ok := in.ite[k]; ok {
		return r
	}
	v := minVar(c, t, e)
	if c.Op != "ite" && v != c {
		// an undecided condition that is not a diagram yet
		if os.Getenv("CHK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "raw condition", c.Op, c.Aux, c.T)
		}
		if v == nil || c.id < v.id {
			v = c
		}
		c = in.mk(Expr{Op: "ite", Args: []*Expr{c, in.Bool(true), in.Bool(false)}, T: types.Typ[types.Bool]})
	}
	r := in.node(v,
		in.ite0(cof(c, v, true), cof(t, v, true), cof(e, v, true)),
		in.ite0(cof(c, v, false), cof(t, v, false), cof(e, v, false)))
	in.ite[k] = r
	return r
}

// Map applies f to the leaves of a decision diagram.
func (in *Interner) Map(x *Expr, f func(*Expr) *Expr) *Expr {
	m := map[*Expr]*Expr{}
	var rec func(x *Expr) *Expr
	rec = func(x *Expr) *Expr {
		if x.Op != "ite" {
			return f(x)
		}
		if r, ok := m[x]; ok {
			return r
		}
		r := in.ITE(in.B(x.Args[0]), rec(x.Args[1]), rec(x.Args[2]))
		m[x] = r
		return r
	}
	return rec(x)
}

// Map2 applies f to all feasible leaf pairs.
func (in *Interner) Map2(a, b *Expr, f func(x, y *Expr) *Expr) *Expr {
	type key struct{ a, b *Expr }
	m := map[key]*Expr{}
	var rec func(a, b *Expr) *Expr
	rec = func(a, b *Expr) *Expr {
		v := minVar(a, b)
		if v == nil {
			return f(a, b)
		}
		k := key{a, b}
		if r, ok := m[k]; ok {
			return r
		}
		r := in.ITE(in.B(v), rec(cof(a, v, true), cof(b, v, true)), rec(cof(a, v, false), cof(b, v, false)))
		m[k] = r
		return r
	}
	return rec(a, b)
}

// MapN distributes f over the leaves of all arguments as long as that stays small.
func (in *Interner) MapN(args []*Expr, f func([]*Expr) *Expr) *Expr {
	n := 1
	for _, a := range args {
		if a != nil {
			n *= in.leafCount(a)
		}
		if n > 64 {
			return f(args)
		}
	}
	if n == 1 {
		return f(args)
	}
	var rec func(args []*Expr) *Expr
	rec = func(args []*Expr) *Expr {
		var ne []*Expr
		for _, a := range args {
			if a != nil {
				ne = append(ne, a)
			}
		}
		v := minVar(ne...)
		if v == nil {
			return f(args)
		}
		t := make([]*Expr, len(args))
		e := make([]*Expr, len(args))
		for i, a := range args {
			if a == nil {
				continue
			}
			t[i], e[i] = cof(a, v, true), cof(a, v, false)
		}
		return in.ITE(in.B(v), rec(t), rec(e))
	}
	return rec(args)
}

func (in *Interner) leafCount(x *Expr) int {
	m := map[*Expr]bool{}
	n := 0
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if m[x] {
			return
		}
		m[x] = true
		if x.Op != "ite" {
			n++
			return
		}
		rec(x.Args[1])
		rec(x.Args[2])
	}
	rec(x)
	return n
}

// Leaves lists the distinct leaves of a value.
func Leaves(x *Expr) []*Expr {
	m := map[*Expr]bool{}
	var out []*Expr
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if m[x] {
			return
		}
		m[x] = true
		if x.Op != "ite" {
			out = append(out, x)
			return
		}
		rec(x.Args[1])
		rec(x.Args[2])
	}
	rec(x)
	return out
}

// Restrict simplifies x under the care set g (g must not be false).
func (in *Interner) Restrict(x, g *Expr) *Expr {
	type key struct{ a, b *Expr }
	m := map[key]*Expr{}
	var rec func(x, g *Expr) *Expr
	rec = func(x, g *Expr) *Expr {
		if x.Op == "struct" || x.Op == "array" {
			ch := false
			args := make([]*Expr, len(x.Args))
			for i, a := range x.Args {
				args[i] = rec(a, g)
				ch = ch || args[i] != a
			}
			if !ch {
				return x
			}
			if x.Op == "struct" {
				return in.Struct(x.T, args)
			}
			return in.mk(Expr{Op: "array", Aux: x.Aux, Args: args, T: x.T})
		}
		if x.Op != "ite" || g.Op != "ite" {
			return x
		}
		k := key{x, g}
		if r, ok := m[k]; ok {
			return r
		}
		xv, gv := topVar(x), topVar(g)
		var r *Expr
		switch {
		case gv.id < xv.id:
			// g does not constrain the same variable first: quantify it away
			r = rec(x, in.Or(g.Args[1], g.Args[2]))
		case gv == xv:
			if isFalse(g.Args[1]) {
				r = rec(x.Args[2], g.Args[2])
			} else if isFalse(g.Args[2]) {
				r = rec(x.Args[1], g.Args[1])
			} else {
				r = in.node(xv, rec(x.Args[1], g.Args[1]), rec(x.Args[2], g.Args[2]))
			}
		default:
			r = in.node(xv, rec(x.Args[1], g), rec(x.Args[2], g))
		}
		m[k] = r
		return r
	}
	if b, ok := g.BoolConst(); ok && b {
		return x
	}
	return rec(x, g)
}

func isFalse(e *Expr) bool { b, ok := e.BoolConst(); return ok && !b }
func isTrue(e *Expr) bool  { b, ok := e.BoolConst(); return ok && b }

func (in *Interner) Not(e *Expr) *Expr { return in.ITE(e, in.Bool(false), in.Bool(true)) }
func (in *Interner) And(a ...*Expr) *Expr {
	r := in.Bool(true)
	for _, x := range a {
		r = in.ITE(r, x, in.Bool(false))
	}
	return r
}
func (in *Interner) Or(a ...*Expr) *Expr {
	r := in.Bool(false)
	for _, x := range a {
		r = in.ITE(r, in.Bool(true), x)
	}
	return r
}

// Rel builds the canonical comparison a rel b for numeric a, b.
func (in *Interner) Rel(a *Expr, rel string, b *Expr) *Expr {
	if a.Op == "ite" || b.Op == "ite" {
		return in.Map2(a, b, func(x, y *Expr) *Expr { return in.Rel(x, rel, y) })
	}
	switch rel {
	case ">":
		return in.Rel(b, "<", a)
	case ">=":
		return in.Rel(b, "<=", a)
	case "!=":
		return in.Not(in.Rel(a, "==", b))
	}
	integer := isInteger(a.T) && isInteger(b.T)
	if x, y := unfloated(in, a), unfloated(in, b); x != nil && y != nil && (a.Op == "conv" || b.Op == "conv") {
		return in.Rel(x, rel, y) // whole numbers compare alike as float64
	}
	l := in.Sub(a, b)
	if c, ok := l.NumConst(); ok {
		s := c.Sign()
		switch rel {
		case "<":
			return in.Bool(s < 0)
		case "<=":
			return in.Bool(s <= 0)
		default:
			return in.Bool(s == 0)
		}
	}
	form, k, flipped := in.normForm(l, integer)
	// l rel 0  <=>  s*(form + k) rel 0 with s>0 unless flipped
	c := new(big.Rat).Neg(k) // form rel c   (or form rel' c if flipped)
	if rel == "==" {
		if b := intrinsic(form); integer && b.lo != nil && b.lo.Cmp(c) == 0 {
			return in.relLE(form, c, true)
		} else if integer {
			if v, known := decideB(b, "==", c); known {
				return in.Bool(v)
			}
		}
		return in.atom(Expr{Op: "rel", rel: "==", c0: c, Args: []*Expr{form}, T: types.Typ[types.Bool], Aux: intAux(integer)})
	}
	if !flipped {
		if integer {
			if rel == "<" { // form < c  => form <= ceil(c)-1
				return in.relLE(form, new(big.Rat).Sub(ratCeil(c), ratOne), true)
			}
			return in.relLE(form, ratFloor(c), true)
		}
		return in.atom(Expr{Op: "rel", rel: rel, c0: c, Args: []*Expr{form}, T: types.Typ[types.Bool]})
	}
	// -form rel -c => form > c or >= c
	if integer {
		if rel == "<" { // form > c => !(form <= floor(c))
			return in.Not(in.relLE(form, ratFloor(c), true))
		}
		return in.Not(in.relLE(form, new(big.Rat).Sub(ratCeil(c), ratOne), true))
	}
	if rel == "<" {
		return in.Not(in.atom(Expr{Op: "rel", rel: "<=", c0: c, Args: []*Expr{form}, T: types.Typ[types.Bool]}))
	}
	return in.Not(in.atom(Expr{Op: "rel", rel: "<", c0: c, Args: []*Expr{form}, T: types.Typ[types.Bool]}))
}

// unfloated is the whole number a float64 was converted from, if it was.
func unfloated(in *Interner, x *Expr) *Expr {
	if x.Op == "conv" && x.Aux == "float64" && isInteger(x.Args[0].T) {
		return x.Args[0]
	}
	if c, ok := x.NumConst(); ok && c.IsInt() && !isInteger(x.T) {
		return in.Lin(nil, nil, c, types.Typ[types.Int])
	}
	return nil
}

func intAux(i bool) string {
	if i {
		return "int"
	}
	return ""
}
func (in *Interner) relLE(form *Expr, c *big.Rat, integer bool) *Expr {
	if v, known := decideB(intrinsic(form), "<=", c); known {
		return in.Bool(v)
	}
	return in.atom(Expr{Op: "rel", rel: "<=", c0: c, Args: []*Expr{form}, T: types.Typ[types.Bool], Aux: intAux(integer)})
}
func ratFloor(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return new(big.Rat).SetInt(q)
}
func ratCeil(r *big.Rat) *big.Rat {
	f := ratFloor(r)
	if f.Cmp(r) != 0 {
		f.Add(f, ratOne)
	}
	return f
}

func (in *Interner) atom(e Expr) *Expr { return in.B(in.mk(e)) }

// normForm splits l into s*(form+k): form has no constant, canonical sign and
// scale. flipped tells s<0.
func (in *Interner) normForm(l *Expr, integer bool) (*Expr, *big.Rat, bool) {
	if l.Op != "lin" {
		return l, new(big.Rat), false
	}
	lead := l.coef[0]
	flipped := lead.Sign() < 0
	scale := new(big.Rat).Abs(lead)
	if integer { // coprime integer coefficients
		g := new(big.Int)
		den := big.NewInt(1)
		for _, c := range l.coef {
			den = lcm(den, c.Denom())
		}
		for _, c := range l.coef {
			n := new(big.Int).Mul(c.Num(), new(big.Int).Div(den, c.Denom()))
			g.GCD(nil, nil, g, new(big.Int).Abs(n))
		}
		scale = new(big.Rat).SetFrac(g, den)
	}
	inv := new(big.Rat).Inv(scale)
	if flipped {
		inv.Neg(inv)
	}
	cs := make([]*big.Rat, len(l.coef))
	for i, c := range l.coef {
		cs[i] = new(big.Rat).Mul(c, inv)
	}
	form := in.Lin(l.Args, cs, ratZero, l.T)
	return form, new(big.Rat).Mul(l.c0, inv), flipped
}
func lcm(a, b *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, a, b)
	return new(big.Int).Div(new(big.Int).Mul(a, b), g)
}

// Eq builds equality of two non-numeric values.
func emptyString(x *Expr) bool {
	return x.Op == "const" && x.C != nil && x.C.Kind() == constant.String && constant.StringVal(x.C) == ""
}

func (in *Interner) Eq(a, b *Expr) *Expr {
	if a == b {
		return in.Bool(true)
	}
	if a.Op == "ite" || b.Op == "ite" {
		return in.Map2(a, b, in.Eq)
	}
	if isNumeric(a.T) && isNumeric(b.T) {
		return in.Rel(a, "==", b)
	}
	if x, ok := a.BoolConst(); ok {
		if x {
			return b
		}
		return in.Not(b)
	}
	if x, ok := b.BoolConst(); ok {
		if x {
			return a
		}
		return in.Not(a)
	}
	if a.Op == "const" && b.Op == "const" && a.C.Kind() == b.C.Kind() {
		return in.Bool(a.Aux == b.Aux)
	}
	if emptyString(a) {
		a, b = b, a
	}
	if emptyString(b) {
		return in.Rel(in.mk(Expr{Op: "len", Args: []*Expr{a}, T: types.Typ[types.Int]}), "==", in.Int(0))
	}
	if a.Op == "nil" && b.Op == "nil" {
		return in.Bool(true)
	}
	if b.Op == "nil" && nonNil(a) || a.Op == "nil" && nonNil(b) {
		return in.Bool(false)
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return in.Bool(false)
	}
	// structs: fieldwise
	if a.T != nil && b.T != nil && types.Identical(a.T, b.T) {
		if st, ok := a.T.Underlying().(*types.Struct); ok {
			r := in.Bool(true)
			for i := 0; i < st.NumFields(); i++ {
				r = in.And(r, in.Eq(in.Field(a, i), in.Field(b, i)))
			}
			return r
		}
	}
	if a.Op == "nil" || (b.Op != "nil" && a.id > b.id) {
		a, b = b, a
	}
	if b.Op == "nil" {
		return in.atomOp("isnil", types.Typ[types.Bool], a)
	}
	// constants on the right
	if a.Op == "const" {
		a, b = b, a
	}
	return in.atomOp("eq", types.Typ[types.Bool], a, b)
}

func (in *Interner) atomOp(op string, t types.Type, args ...*Expr) *Expr {
	return in.B(in.Op(op, t, args...))
}

func nonNil(e *Expr) bool {
	switch e.Op {
	case "alloc", "faddr", "iaddr", "closure", "fn", "global", "makemap", "makechan", "makeslice", "append", "struct":
		return true
	case "slice":
		return nonNil(e.Args[0])
	case "loopsym":
		return strings.HasSuffix(e.Aux, "!nn")
	case "lookup":
		return e.N == 1 // an entry of a map that holds only functions
	}
	return false
}

// ---------- rendering

func (e *Expr) String() string { return e.str(0) }

func (e *Expr) str(d int) string {
	if e == nil {
		return "_"
	}
	if d > maxStr {
		return "…"
	}
	sub := func(i int) string { return e.Args[i].str(d + 1) }
	list := func(from int) string {
		var s []string
		for i := from; i < len(e.Args); i++ {
			s = append(s, sub(i))
		}
		return strings.Join(s, ", ")
	}
	switch e.Op {
	case "const":
		if s, ok := e.StrConst(); ok {
			return fmt.Sprintf("%q", s)
		}
		return e.C.String()
	case "nil":
		return "nil"
	case "lin":
		var s []string
		for i := range e.Args {
			c := e.coef[i]
			switch {
			case c.Cmp(ratOne) == 0:
				s = append(s, sub(i))
			case c.Cmp(ratMinus) == 0:
				s = append(s, "-"+sub(i))
			default:
				s = append(s, c.RatString()+"*"+sub(i))
			}
		}
		if e.c0.Sign() != 0 || len(s) == 0 {
			if f, ok := e.c0.Float64(); ok || !e.c0.IsInt() {
				s = append(s, fmt.Sprint(f))
			} else {
				s = append(s, e.c0.RatString())
			}
		}
		if len(s) == 1 {
			return s[0]
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "rel":
		f, _ := e.c0.Float64()
		return fmt.Sprintf("(%s %s %v)", sub(0), e.rel, f)
	case "ite":
		if isTrue(e.Args[1]) && isFalse(e.Args[2]) {
			return sub(0)
		}
		if isFalse(e.Args[1]) && isTrue(e.Args[2]) {
			return "!" + sub(0)
		}
		if isFalse(e.Args[2]) {
			return sub(0) + " && " + sub(1)
		}
		if isFalse(e.Args[1]) {
			return "!" + sub(0) + " && " + sub(2)
		}
		return "(" + sub(0) + " ? " + sub(1) + " : " + sub(2) + ")"
	case "param", "freevar":
		return e.Aux[strings.LastIndex(e.Aux, ".")+1:]
	case "global":
		return "&" + e.Aux
	case "field":
		return sub(0) + "." + fieldName(e.Args[0].T, e.N)
	case "faddr":
		return "&" + sub(0) + "." + fieldName(e.Args[0].T, e.N)
	case "iaddr":
		return "&" + sub(0) + "[" + sub(1) + "]"
	case "load":
		s := sub(0)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case "index":
		return sub(0) + "[" + sub(1) + "]"
	case "call":
		return e.Aux + "(" + list(0) + ")"
	case "res":
		return fmt.Sprintf("%s#%d.%d", e.Ev.Name, e.Ev.Seq, e.N)
	case "out":
		return fmt.Sprintf("out(%s#%d.%d)", e.Ev.Name, e.Ev.Seq, e.N)
	case "alloc":
		n := e.Aux
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return "new:" + n
	case "loopsym":
		n := e.Aux
		if i := strings.LastIndex(n, ".loop/"); i >= 0 {
			n = n[i+6:]
		}
		if i := strings.LastIndex(n, ")."); i >= 0 {
			n = n[i+2:]
		}
		return fmt.Sprintf("L%d.%s", e.Loop.ID, n)
	case "loopT":
		return fmt.Sprintf("T%d", e.N)
	case "makeslice", "makemap", "makechan":
		return e.Op + "(" + list(0) + ")"
	case "fn":
		return e.Fn.Name()
	case "closure":
		return e.Clo.Fn.Name() + "{" + list(0) + "}"
	case "struct":
		n := typeKey(e.T)
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return n + "{" + list(0) + "}"
	}
	a := e.Op
	if e.Aux != "" && e.Op != "array" {
		a += ":" + e.Aux
	}
	return a + "(" + list(0) + ")"
}

var maxStr = func() int {
	if n, err := strconv.Atoi(os.Getenv("CHK_DEPTH")); err == nil {
		return n
	}
	return 7
}()
