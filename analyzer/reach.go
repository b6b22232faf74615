package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reach is what can be executed when a user calls some functions (the roots) and then the methods of the interfaces
// they returned: the blocks that can run and, for every value, field, parameter and result, whether it is always one
// constant. It starts from nothing and grows to a fixed point (rapid type analysis with conditional constants), so a
// guard on a field which nothing that can run ever sets stays closed.
type reach struct {
	P      *Prog
	vals   map[ssa.Value]rval
	fields map[string]rval
	globs  map[*ssa.Global]rval
	rets   map[*ssa.Function][]rval
	funcs  map[*ssa.Function]bool
	blocks map[*ssa.BasicBlock]bool
	edges  map[[2]*ssa.BasicBlock]bool
	by     map[*ssa.Function]*ssa.Function // who was first seen to call it
	types  map[string]types.Type           // concrete types put into interfaces
	taken  map[*ssa.Function]bool          // functions used as values
	user   map[string]*types.Interface     // interfaces the user holds
	change bool
	fixed  map[ssa.Value]rval // what the user is taken to pass
	stop   func(f *ssa.Function) bool
}

// rval is nothing yet, one constant, or anything.
type rval struct {
	k byte // 0 nothing, 1 constant, 2 anything
	c constant.Value
}

var rtop = rval{k: 2}

func rconst(c constant.Value) rval { return rval{1, c} }

func (a rval) join(b rval) rval {
	switch {
	case a.k == 0:
		return b
	case b.k == 0:
		return a
	case a.k == 2 || b.k == 2:
		return rtop
	case a.c == nil || b.c == nil:
		if a.c == nil && b.c == nil {
			return a
		}
		return rtop
	case a.c.Kind() == b.c.Kind() && constant.Compare(a.c, token.EQL, b.c):
		return a
	}
	return rtop
}

func (a rval) same(b rval) bool {
	return a.k == b.k && (a.k != 1 || a.c == nil && b.c == nil || a.c != nil && b.c != nil && a.c.Kind() == b.c.Kind() && constant.Compare(a.c, token.EQL, b.c))
}

func (r *reach) set(v ssa.Value, x rval) {
	if y, ok := r.fixed[v]; ok {
		x = y
	}
	o := r.vals[v]
	n := o.join(x)
	if !n.same(o) {
		r.vals[v], r.change = n, true
	}
}

func (r *reach) setField(k string, x rval) {
	if k == "" {
		return
	}
	o := r.fields[k]
	n := o.join(x)
	if !n.same(o) {
		r.fields[k], r.change = n, true
	}
}

func (r *reach) call(f, from *ssa.Function) {
	if f == nil || f.Blocks == nil || r.funcs[f] || !(inModule(f) || f.Synthetic != "") || r.stop != nil && r.stop(f) {
		return
	}
	r.funcs[f], r.change = true, true
	r.by[f] = from
	r.block(f.Blocks[0])
}

func (r *reach) block(b *ssa.BasicBlock) {
	if !r.blocks[b] {
		r.blocks[b], r.change = true, true
	}
}

func (r *reach) goTo(a, b *ssa.BasicBlock) {
	if !r.edges[[2]*ssa.BasicBlock{a, b}] {
		r.edges[[2]*ssa.BasicBlock{a, b}], r.change = true, true
	}
	r.block(b)
}

// zeroOf: what a fresh value of a type is.
func zeroOf(t types.Type) rval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return rconst(constant.MakeBool(false))
		case u.Info()&types.IsString != 0:
			return rconst(constant.MakeString(""))
		case u.Info()&types.IsInteger != 0:
			return rconst(constant.MakeInt64(0))
		}
		return rtop
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return rval{k: 1}
	}
	return rtop
}

func (r *reach) zeroFields(t types.Type, top bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		if a, isA := t.Underlying().(*types.Array); isA {
			r.zeroFields(a.Elem(), top)
		}
		return
	}
	k := typeKey(t)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if k != "" {
			if top {
				r.setField(k+"."+st.Field(i).Name(), rtop)
			} else {
				r.setField(k+"."+st.Field(i).Name(), zeroOf(ft))
			}
		}
		r.zeroFields(ft, top)
	}
}

func (r *reach) of(v ssa.Value) rval {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return zeroOf(t.Type())
		}
		return rconst(t.Value)
	case *ssa.Function, *ssa.Builtin, *ssa.Global:
		return rtop
	}
	return r.vals[v]
}

// typed notes that a value of the concrete type may be held by an interface.
func (r *reach) typed(t types.Type) {
	k := types.TypeString(t, nil)
	if _, ok := r.types[k]; !ok {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			r.types[k], r.change = t, true
		}
	}
}

func (r *reach) isUserType(t types.Type) {
	switch u := t.(type) {
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r.isUserType(u.At(i).Type())
		}
		return
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		n, named := types.Unalias(t).(*types.Named)
		if !named || n.Obj().Pkg() == nil || len(n.Obj().Pkg().Path()) < len(modulePath) || n.Obj().Pkg().Path()[:len(modulePath)] != modulePath {
			return
		}
		k := types.TypeString(t, nil)
		if r.user[k] == nil {
			r.user[k], r.change = it, true
		}
		return
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		r.isUserType(s.Elem())
		return
	}
	// a concrete type of the module: its readers' interfaces, or everything if it is itself for reading only
	n, named := types.Unalias(derefType(t)).(*types.Named)
	if !named || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
		return
	}
	k := types.TypeString(t, nil)
	if _, done := r.user[k]; done {
		return
	}
	r.user[k] = nil
	r.change = true
	ms := r.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().(*types.Func)
		if m.Exported() && (strings.Contains(n.Obj().Name(), "ReadOnly") || r.P.readerMethod(t, m)) {
			if g := r.P.SSA.MethodValue(ms.At(i)); g != nil {
				r.enter(g, nil)
				r.isUserType(g.Signature.Results())
			}
		}
	}
}

// readerMethod: the method belongs to an interface for reading that the type implements.
func (P *Prog) readerMethod(t types.Type, m *types.Func) bool {
	for _, p := range P.Pkgs {
		for _, name := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok || !strings.Contains(name, "Read") || strings.Contains(name, "Write") {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(t, it) {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == m.Name() {
					return true
				}
			}
		}
	}
	return false
}

func (r *reach) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := r.P.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return r.P.SSA.MethodValue(sel)
}

// root makes a function one the user may call, with anything.
func (r *reach) root(f *ssa.Function) {
	r.enter(f, nil)
	for _, p := range f.Params {
		r.zeroFields(derefType(p.Type()), true)
	}
}

func newReach(P *Prog) *reach {
	return &reach{P: P, vals: map[ssa.Value]rval{}, fields: map[string]rval{}, globs: map[*ssa.Global]rval{}, rets: map[*ssa.Function][]rval{}, funcs: map[*ssa.Function]bool{},
		blocks: map[*ssa.BasicBlock]bool{}, edges: map[[2]*ssa.BasicBlock]bool{}, by: map[*ssa.Function]*ssa.Function{}, types: map[string]types.Type{}, taken: map[*ssa.Function]bool{}, user: map[string]*types.Interface{}}
}

// run grows what can run, once the user has called the constructors given, when he calls the roots, to the fixed point.
// The fields of what a root is handed may be anything.
func (r *reach) run(made, roots []*ssa.Function) *reach {
	for _, f := range made {
		r.root(f)
	}
	for _, f := range roots {
		r.root(f)
		r.isUserType(f.Signature.Results())
	}
	for r.change = true; r.change; {
		r.change = false
		var fs []*ssa.Function
		for f := range r.funcs {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
		for _, f := range fs {
			for _, b := range f.Blocks {
				if r.blocks[b] {
					for _, in := range b.Instrs {
						r.step(f, b, in)
					}
				}
			}
		}
		for _, it := range r.user {
			if it == nil {
				continue
			}
			for _, t := range r.types {
				if !types.Implements(t, it) {
					continue
				}
				for i := 0; i < it.NumMethods(); i++ {
					if g := r.methodOf(t, it.Method(i)); g != nil {
						r.enter(g, nil)
						r.isUserType(g.Signature.Results())
					}
				}
			}
		}
		for f := range r.taken {
			r.enter(f, nil)
		}
	}
	return r
}

// enter runs a function with anything.
func (r *reach) enter(g, from *ssa.Function) {
	r.call(g, from)
	for _, p := range g.Params {
		r.set(p, rtop)
	}
}

func (r *reach) invoked(f *ssa.Function, c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, t := range r.types {
		if types.Implements(t, it) {
			if g := r.methodOf(t, c.Method); g != nil {
				out = append(out, g)
			}
		}
	}
	return out
}

// callees: the functions a call can enter, with source or without.
func (r *reach) callees(f *ssa.Function, c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return r.invoked(f, c)
	}
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	for g := range r.taken {
		if types.Identical(g.Signature.Params(), c.Signature().Params()) {
			out = append(out, g)
		}
	}
	return out
}

func (r *reach) escapes(v ssa.Value) {
	// the outside can write through it
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		if n, isN := types.Unalias(p.Elem()).(*types.Named); isN && n.Obj().Pkg() != nil && len(n.Obj().Pkg().Path()) >= len(modulePath) && n.Obj().Pkg().Path()[:len(modulePath)] == modulePath {
			r.zeroFields(p.Elem(), true)
		}
		if fa, isF := v.(*ssa.FieldAddr); isF {
			r.setField(fieldKey(fa.X, fa.Field), rtop)
		}
	}
}

func (r *reach) step(f *ssa.Function, b *ssa.BasicBlock, in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		if op == nil || *op == nil {
			continue
		}
		if g, ok := (*op).(*ssa.Function); ok {
			if call, isC := in.(ssa.CallInstruction); !isC || call.Common().Value != ssa.Value(g) {
				if !r.taken[g] {
					r.taken[g], r.change = true, true
				}
			}
		}
	}
	switch t := in.(type) {
	case *ssa.If:
		c := r.of(t.Cond)
		if c.k == 2 || c.k == 1 && c.c != nil && constant.BoolVal(c.c) {
			r.goTo(b, b.Succs[0])
		}
		if c.k == 2 || c.k == 1 && c.c != nil && !constant.BoolVal(c.c) {
			r.goTo(b, b.Succs[1])
		}
	case *ssa.Jump:
		r.goTo(b, b.Succs[0])
	case *ssa.Return:
		rs := r.rets[f]
		if rs == nil {
			rs = make([]rval, len(t.Results))
		}
		for i, v := range t.Results {
			n := rs[i].join(r.of(v))
			if !n.same(rs[i]) {
				rs[i], r.change = n, true
			}
		}
		r.rets[f] = rs
	case *ssa.Store:
		r.store(t.Addr, t.Val)
	case *ssa.MakeInterface:
		r.typed(t.X.Type())
		r.set(t, rtop)
	case *ssa.MakeClosure:
		g := t.Fn.(*ssa.Function)
		for _, fv := range g.FreeVars {
			r.set(fv, rtop)
		}
		if !calledDirectly(t) && !r.taken[g] {
			r.taken[g], r.change = true, true
		}
		if t.Referrers() != nil {
			for _, u := range *t.Referrers() {
				c, ok := u.(ssa.CallInstruction)
				if !ok || c.Common().Value != ssa.Value(t) {
					if !r.taken[g] {
						r.taken[g], r.change = true, true
					}
				}
			}
		}
		r.set(t, rtop)
	case *ssa.Alloc:
		r.zeroFields(derefType(t.Type()), false)
		r.set(t, rtop)
	case *ssa.MakeSlice:
		if s, ok := t.Type().Underlying().(*types.Slice); ok {
			r.zeroFields(s.Elem(), false)
		}
		r.set(t, rtop)
	case *ssa.Phi:
		for i, p := range b.Preds {
			if r.edges[[2]*ssa.BasicBlock{p, b}] {
				r.set(t, r.of(t.Edges[i]))
			}
		}
	case *ssa.UnOp:
		switch t.Op {
		case token.MUL:
			r.set(t, r.read(t.X))
		case token.NOT:
			x := r.of(t.X)
			if x.k == 1 && x.c != nil {
				x = rconst(constant.MakeBool(!constant.BoolVal(x.c)))
			}
			r.set(t, x)
		default:
			r.set(t, rtop)
		}
	case *ssa.BinOp:
		x, y := r.of(t.X), r.of(t.Y)
		if x.k == 0 || y.k == 0 {
			return
		}
		r.set(t, binConst(t.Op, x, y))
	case *ssa.ChangeType:
		r.set(t, r.of(t.X))
	case *ssa.Convert:
		x := r.of(t.X)
		if x.k == 1 && !(isIntType(t.X.Type()) && isIntType(t.Type())) {
			x = rtop
		}
		r.set(t, x)
	case *ssa.Field:
		k := fieldKey(t.X, t.Field)
		if k == "" {
			r.set(t, rtop)
		} else {
			r.set(t, r.fields[k])
		}
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			if c.Call.IsInvoke() || c.Call.StaticCallee() == nil {
				r.set(t, rtop)
				return
			}
			g := c.Call.StaticCallee()
			if r.funcs[g] {
				if rs := r.rets[g]; rs != nil {
					r.set(t, rs[t.Index])
				}
				return
			}
		}
		r.set(t, rtop)
	case ssa.CallInstruction:
		r.callSite(f, t)
	case ssa.Value:
		r.set(t, rtop)
	}
}

func binConst(op token.Token, x, y rval) rval {
	if x.k != 1 || y.k != 1 {
		return rtop
	}
	eq := func(same bool) rval {
		switch op {
		case token.EQL:
			return rconst(constant.MakeBool(same))
		case token.NEQ:
			return rconst(constant.MakeBool(!same))
		}
		return rtop
	}
	if x.c == nil && y.c == nil {
		return eq(true)
	}
	if x.c == nil || y.c == nil || x.c.Kind() != y.c.Kind() {
		return rtop
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.c.Kind() == constant.Bool {
			return eq(constant.BoolVal(x.c) == constant.BoolVal(y.c))
		}
		return rconst(constant.MakeBool(constant.Compare(x.c, op, y.c)))
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
		if x.c.Kind() == constant.Int || x.c.Kind() == constant.String && op == token.ADD {
			return rconst(constant.BinaryOp(x.c, op, y.c))
		}
	}
	return rtop
}

func (r *reach) store(addr, val ssa.Value) {
	x := r.of(val)
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		r.setField(fieldKey(a.X, a.Field), x)
	case *ssa.Global:
		o := r.globs[a]
		n := o.join(zeroOf(derefType(a.Type()))).join(x)
		if !n.same(o) {
			r.globs[a], r.change = n, true
		}
	}
	if _, ok := val.(*ssa.Const); ok {
		r.zeroFields(val.Type(), false)
	}
}

// read is what a load may give: of a field, a variable that is only stored to and loaded, or a global.
func (r *reach) read(addr ssa.Value) rval {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		k := fieldKey(a.X, a.Field)
		if k == "" {
			return rtop
		}
		return r.fields[k]
	case *ssa.Alloc:
		return r.local(a)
	}
	return rtop
}

func (r *reach) local(a *ssa.Alloc) rval {
	if a.Referrers() == nil {
		return rtop
	}
	if _, ok := derefType(a.Type()).Underlying().(*types.Basic); !ok {
		return rtop
	}
	out := zeroOf(derefType(a.Type()))
	for _, u := range *a.Referrers() {
		switch t := u.(type) {
		case *ssa.Store:
			if t.Addr != ssa.Value(a) {
				return rtop
			}
			if r.blocks[t.Block()] {
				out = out.join(r.of(t.Val))
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return rtop
		}
	}
	return out
}

func (r *reach) callSite(f *ssa.Function, site ssa.CallInstruction) {
	c := site.Common()
	v, _ := site.(ssa.Value)
	known := false
	for _, g := range r.callees(f, c) {
		if !(inModule(g) || g.Synthetic != "") || g.Blocks == nil {
			continue
		}
		if !r.funcs[g] {
			r.call(g, f)
		}
		if !r.funcs[g] {
			continue
		}
		args := c.Args
		off := 0
		if c.IsInvoke() {
			off = 1
			if len(g.Params) > 0 {
				r.set(g.Params[0], rtop)
			}
		}
		for i, a := range args {
			if i+off < len(g.Params) {
				r.set(g.Params[i+off], r.of(a))
			}
		}
		if c.StaticCallee() == g {
			known = true
			if v != nil && g.Signature.Results().Len() == 1 {
				if rs := r.rets[g]; rs != nil {
					r.set(v, rs[0])
				}
			}
		}
	}
	if known {
		return
	}
	if v != nil {
		r.set(v, rtop)
	}
	if g := c.StaticCallee(); g != nil && !inModule(g) && g.Synthetic == "" {
		for _, a := range c.Args {
			r.escapes(a)
			r.callbacks(a)
			// the arguments of a variadic call
			for _, x := range spread1(a) {
				r.escapes(x)
				r.callbacks(x)
			}
		}
	}
}

// spread1: the values put into the slice of a variadic call.
func spread1(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var out []ssa.Value
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok {
				out = append(out, s.Val)
			}
		}
	}
	return out
}

// callbacks: methods the outside may call on what it is handed.
func (r *reach) callbacks(v ssa.Value) {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		if ci, isC := v.(*ssa.ChangeInterface); isC {
			r.outside(ci.Type())
		}
		if _, isI := v.Type().Underlying().(*types.Interface); isI {
			r.outside(v.Type())
		}
		return
	}
	it, _ := mi.Type().Underlying().(*types.Interface)
	for i := 0; it != nil && i < it.NumMethods(); i++ {
		if g := r.methodOf(mi.X.Type(), it.Method(i)); g != nil {
			r.enter(g, mi.Parent())
		}
	}
}

// outside: any value an interface type of the standard library may hold here may have its methods called there.
func (r *reach) outside(t types.Type) {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return
	}
	for _, ct := range r.types {
		if types.Implements(ct, it) {
			for i := 0; i < it.NumMethods(); i++ {
				if g := r.methodOf(ct, it.Method(i)); g != nil && inModule(g) {
					r.enter(g, nil)
				}
			}
		}
	}
}

// path: how a function came to be reached.
func (r *reach) path(f *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	for f != nil && !seen[f] {
		seen[f] = true
		out = append([]string{fnName(f)}, out...)
		f = r.by[f]
	}
	return out
}
