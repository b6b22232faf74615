package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Expr is a symbolic expression for a value: what it is computed from, seen through helper functions, closures and
// local variables.
type Expr struct {
	Op   string // const, param, field, global, call, bin, un, conv, index, slice, phi, var, len, extract, new, opaque
	Name string
	Args []*Expr
	V    ssa.Value
	C    constant.Value
}

func (e *Expr) String() string {
	if e == nil {
		return "_"
	}
	switch e.Op {
	case "const", "param", "field", "global", "var", "opaque":
		return e.Name
	}
	var a []string
	for _, x := range e.Args {
		a = append(a, x.String())
	}
	switch e.Op {
	case "bin":
		return "(" + strings.Join(a, e.Name) + ")"
	case "un":
		return e.Name + a[0]
	case "phi":
		sort.Strings(a)
		return "{" + strings.Join(a, "|") + "}"
	}
	return e.Op + ":" + e.Name + "(" + strings.Join(a, ",") + ")"
}

// Int gives a constant integer.
func (e *Expr) Int() (int64, bool) {
	if e != nil && e.Op == "conv" {
		return e.Args[0].Int()
	}
	if e == nil || e.Op != "const" || e.C == nil {
		return 0, false
	}
	if c := constant.ToInt(e.C); c.Kind() == constant.Int {
		return constant.Int64Val(c)
	}
	return 0, false
}

// walk visits every subexpression.
func (e *Expr) walk(f func(*Expr) bool) bool {
	if e == nil {
		return false
	}
	if f(e) {
		return true
	}
	for _, a := range e.Args {
		if a.walk(f) {
			return true
		}
	}
	return false
}

type symCtx struct {
	f    *ssa.Function
	args map[int]*Expr
	fv   map[int]*Expr
	up   *symCtx
}

type symbolic struct {
	P *Prog
	// keepConv: integer conversions are shown
	keepConv bool
	// inline: module calls are replaced by what they return when that is a single expression
	inline bool
	// alts: ... or the alternatives it returns
	alts  bool
	stop  func(*ssa.Function) bool // not looked into
	seen  map[ssa.Value]bool
	depth int
	n     int
}

// sym gives the symbolic expression of v in a context (nil: the function's own parameters are symbols).
func (P *Prog) sym(v ssa.Value, ctx *symCtx) *Expr {
	s := &symbolic{P: P, inline: true, seen: map[ssa.Value]bool{}}
	return s.expr(v, ctx)
}

// symAlts is sym with calls that return one of several things replaced by these.
func (P *Prog) symAlts(v ssa.Value, ctx *symCtx) *Expr {
	s := &symbolic{P: P, inline: true, alts: true, seen: map[ssa.Value]bool{}}
	return s.expr(v, ctx)
}

func (P *Prog) symConv(v ssa.Value, ctx *symCtx) *Expr {
	s := &symbolic{P: P, inline: true, keepConv: true, seen: map[ssa.Value]bool{}}
	return s.expr(v, ctx)
}

func op(o, n string, v ssa.Value, a ...*Expr) *Expr { return &Expr{Op: o, Name: n, Args: a, V: v} }

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (s *symbolic) expr(v ssa.Value, ctx *symCtx) *Expr {
	s.n++
	if s.n > 4000 || s.depth > 60 {
		return op("opaque", "…", v)
	}
	if s.seen[v] {
		return op("opaque", "rec", v)
	}
	s.seen[v] = true
	s.depth++
	defer func() { delete(s.seen, v); s.depth-- }()
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return &Expr{Op: "const", Name: "nil", V: v}
		}
		return &Expr{Op: "const", Name: t.Value.ExactString(), V: v, C: t.Value}
	case *ssa.Parameter:
		for i, p := range t.Parent().Params {
			if p == t {
				if ctx != nil && ctx.f == t.Parent() {
					if e, ok := ctx.args[i]; ok {
						return e
					}
				}
				return op("param", "$"+fnName(t.Parent())+"."+t.Name(), v)
			}
		}
	case *ssa.FreeVar:
		for i, p := range t.Parent().FreeVars {
			if p == t && ctx != nil && ctx.f == t.Parent() {
				if e, ok := ctx.fv[i]; ok {
					return e
				}
			}
		}
		if b := bindingOf(t); b != nil {
			return s.expr(b, nil)
		}
	case *ssa.Global:
		return op("global", "@"+t.Pkg.Pkg.Name()+"."+t.Name(), v)
	case *ssa.Function:
		return op("global", "fn:"+fnName(t), v)
	case *ssa.MakeInterface:
		return s.expr(t.X, ctx)
	case *ssa.ChangeInterface:
		return s.expr(t.X, ctx)
	case *ssa.ChangeType:
		return s.expr(t.X, ctx)
	case *ssa.TypeAssert:
		return s.expr(t.X, ctx)
	case *ssa.Convert:
		x := s.expr(t.X, ctx)
		if s.keepConv && isIntType(t.Type()) && isIntType(t.X.Type()) {
			return op("conv", types.TypeString(t.Type().Underlying(), nil), v, x)
		}
		if isIntType(t.Type()) && isIntType(t.X.Type()) {
			return x
		}
		if _, ok := t.X.(*ssa.Const); ok {
			return x
		}
		return op("conv", types.TypeString(t.Type().Underlying(), nil), v, x)
	case *ssa.SliceToArrayPointer:
		return s.expr(t.X, ctx)
	case *ssa.BinOp:
		a, b := s.expr(t.X, ctx), s.expr(t.Y, ctx)
		switch t.Op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR, token.EQL, token.NEQ:
			if isIntType(t.X.Type()) && a.String() > b.String() {
				a, b = b, a
			}
		case token.GTR:
			return op("bin", "<", v, b, a)
		case token.GEQ:
			return op("bin", "<=", v, b, a)
		}
		if s.foldable(a, b, t.Op) {
			x, _ := a.Int()
			y, _ := b.Int()
			if c, ok := fold(t.Op, x, y); ok {
				return &Expr{Op: "const", Name: constant.MakeInt64(c).ExactString(), V: v, C: constant.MakeInt64(c)}
			}
		}
		return op("bin", t.Op.String(), v, a, b)
	case *ssa.UnOp:
		switch t.Op {
		case token.MUL:
			return s.load(t.X, ctx, v)
		case token.ARROW:
			return op("call", "recv", v, s.expr(t.X, ctx))
		}
		return op("un", t.Op.String(), v, s.expr(t.X, ctx))
	case *ssa.Field:
		if k := fieldKey(t.X, t.Field); k != "" {
			return op("field", k, v)
		}
	case *ssa.FieldAddr:
		return s.load(t, ctx, v)
	case *ssa.IndexAddr:
		return s.load(t, ctx, v)
	case *ssa.Index:
		return op("index", "", v, s.expr(t.X, ctx), s.expr(t.Index, ctx))
	case *ssa.Lookup:
		return op("index", "", v, s.expr(t.X, ctx), s.expr(t.Index, ctx))
	case *ssa.Slice:
		if al, ok := t.X.(*ssa.Alloc); ok && t.Low == nil && t.High == nil {
			if l := s.listOf(al, ctx, v); l != nil {
				return l
			}
		}
		x := s.expr(t.X, ctx)
		if t.Low == nil && t.High == nil && t.Max == nil {
			return x
		}
		lo, hi := &Expr{Op: "const", Name: "0", C: constant.MakeInt64(0)}, (*Expr)(nil)
		if t.Low != nil {
			lo = s.expr(t.Low, ctx)
		}
		if t.High != nil {
			hi = s.expr(t.High, ctx)
		}
		return op("slice", "", v, x, lo, hi)
	case *ssa.Alloc:
		return s.load(t, ctx, v)
	case *ssa.MakeSlice:
		return op("new", "make", v, s.expr(t.Len, ctx))
	case *ssa.MakeMap:
		return op("new", "map", v)
	case *ssa.Extract:
		switch u := t.Tuple.(type) {
		case *ssa.Call:
			return s.call(u, t.Index, ctx, v)
		case *ssa.Next:
			if rg, ok := u.Iter.(*ssa.Range); ok {
				return op("call", []string{"more", "key", "elem"}[t.Index], v, s.expr(rg.X, ctx))
			}
		case *ssa.Lookup:
			return op("index", []string{"", "ok"}[t.Index], v, s.expr(u.X, ctx), s.expr(u.Index, ctx))
		case *ssa.TypeAssert:
			if t.Index == 0 {
				return s.expr(u.X, ctx)
			}
		case *ssa.UnOp:
			return op("call", "recv", v, s.expr(u.X, ctx))
		}
	case *ssa.Call:
		return s.call(t, 0, ctx, v)
	case *ssa.Phi:
		var alts []*Expr
		m := map[string]bool{}
		for _, e := range t.Edges {
			x := s.expr(e, ctx)
			if !m[x.String()] {
				m[x.String()] = true
				alts = append(alts, x)
			}
		}
		if len(alts) == 1 {
			return alts[0]
		}
		return op("phi", "", v, alts...)
	case *ssa.MakeClosure:
		return op("global", "fn:"+fnName(t.Fn.(*ssa.Function)), v)
	}
	return op("opaque", "?"+v.Name()+"@"+fnNameOf(v), v)
}

func fnNameOf(v ssa.Value) string {
	if v.Parent() != nil {
		return fnName(v.Parent())
	}
	return ""
}

func (s *symbolic) foldable(a, b *Expr, o token.Token) bool {
	_, ok1 := a.Int()
	_, ok2 := b.Int()
	return ok1 && ok2
}

func fold(o token.Token, x, y int64) (int64, bool) {
	switch o {
	case token.ADD:
		return x + y, true
	case token.SUB:
		return x - y, true
	case token.MUL:
		return x * y, true
	case token.SHL:
		if y >= 0 && y < 63 {
			return x << uint(y), true
		}
	case token.SHR:
		if y >= 0 && y < 64 {
			return x >> uint(y), true
		}
	case token.QUO:
		if y != 0 {
			return x / y, true
		}
	case token.REM:
		if y != 0 {
			return x % y, true
		}
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.AND_NOT:
		return x &^ y, true
	}
	return 0, false
}

// load: what lies at an address.
func (s *symbolic) load(a ssa.Value, ctx *symCtx, v ssa.Value) *Expr {
	switch t := a.(type) {
	case *ssa.FieldAddr:
		if k := fieldKey(t.X, t.Field); k != "" {
			// a field of an object built here: what was stored there
			if al, ok := t.X.(*ssa.Alloc); ok {
				if e := s.localField(al, t.Field, ctx); e != nil {
					return e
				}
			}
			return op("field", k, v)
		}
		return op("field", "anon."+fieldNameOf(t), v)
	case *ssa.IndexAddr:
		return op("index", "", v, s.loadOrExpr(t.X, ctx), s.expr(t.Index, ctx))
	case *ssa.Alloc:
		var vals []ssa.Value
		closure := false
		for _, u := range *t.Referrers() {
			switch w := u.(type) {
			case *ssa.Store:
				if w.Addr == ssa.Value(t) {
					vals = append(vals, w.Val)
				}
			case *ssa.MakeClosure:
				closure = true
			}
		}
		_ = closure
		if len(vals) == 1 {
			return s.expr(vals[0], ctx)
		}
		if len(vals) > 1 {
			var alts []*Expr
			m := map[string]bool{}
			for _, w := range vals {
				x := s.expr(w, ctx)
				if !m[x.String()] {
					m[x.String()] = true
					alts = append(alts, x)
				}
			}
			if len(alts) == 1 {
				return alts[0]
			}
			return op("phi", "", v, alts...)
		}
		return op("var", "var:"+t.Comment+"@"+fnName(t.Parent()), v)
	case *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
		e := s.expr(a, ctx)
		if e.Op == "global" || e.Op == "param" {
			return op("field", "*"+e.Name, v)
		}
		return e
	case *ssa.Phi, *ssa.UnOp, *ssa.Call, *ssa.Extract:
		return s.expr(a, ctx)
	}
	return op("opaque", "*"+a.Name()+"@"+fnNameOf(a), v)
}

// listOf: an array filled with listed elements.
func (s *symbolic) listOf(al *ssa.Alloc, ctx *symCtx, v ssa.Value) *Expr {
	at, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok || at.Len() > 64 || al.Referrers() == nil {
		return nil
	}
	elems := make([]*Expr, at.Len())
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, isC := constInt(ia.Index)
		if !isC || k >= at.Len() {
			return nil
		}
		for _, w := range *ia.Referrers() {
			if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				if elems[k] != nil {
					return nil
				}
				elems[k] = s.expr(st.Val, ctx)
			}
		}
	}
	for _, e := range elems {
		if e == nil {
			return nil
		}
	}
	return op("list", "", v, elems...)
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	st := derefType(fa.X.Type()).Underlying().(*types.Struct)
	return st.Field(fa.Field).Name()
}

func (s *symbolic) loadOrExpr(v ssa.Value, ctx *symCtx) *Expr {
	if _, ok := v.Type().Underlying().(*types.Pointer); ok {
		return s.load(v, ctx, v)
	}
	return s.expr(v, ctx)
}

// localField: the single value stored to a field of a local object.
func (s *symbolic) localField(al *ssa.Alloc, fi int, ctx *symCtx) *Expr {
	var vals []ssa.Value
	for _, u := range *al.Referrers() {
		switch w := u.(type) {
		case *ssa.FieldAddr:
			if w.Field != fi {
				continue
			}
			for _, x := range *w.Referrers() {
				if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(w) {
					vals = append(vals, st.Val)
				}
			}
		case *ssa.Store:
			if w.Addr == ssa.Value(al) {
				return nil // overwritten as a whole
			}
		}
	}
	if len(vals) == 1 {
		return s.expr(vals[0], ctx)
	}
	return nil
}

func (s *symbolic) call(c *ssa.Call, idx int, ctx *symCtx, v ssa.Value) *Expr {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var as []*Expr
		for _, a := range cc.Args {
			as = append(as, s.expr(a, ctx))
		}
		return op("call", b.Name(), v, as...)
	}
	if cc.IsInvoke() {
		as := []*Expr{s.recv(cc.Value, ctx)}
		for _, a := range cc.Args {
			as = append(as, s.expr(a, ctx))
		}
		return op("call", cc.Method.Name()+resIdx(c, idx), v, as...)
	}
	g := cc.StaticCallee()
	if g == nil {
		return op("opaque", "?"+v.Name()+"@"+fnNameOf(v), v)
	}
	var as []*Expr
	for i, a := range cc.Args {
		if i == 0 && g.Signature.Recv() != nil {
			as = append(as, s.recv(a, ctx))
			continue
		}
		as = append(as, s.expr(a, ctx))
	}
	if s.inline && inModule(g) && g.Blocks != nil && s.depth < 40 && !s.recursive(ctx, g) && (s.stop == nil || !s.stop(g)) {
		sub := &symCtx{f: g, args: map[int]*Expr{}, fv: map[int]*Expr{}, up: ctx}
		for i := range cc.Args {
			sub.args[i] = as[i]
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				sub.fv[i] = s.expr(b, ctx)
			}
		}
		var alts []*Expr
		m := map[string]bool{}
		ei := errResultIdx(g.Signature)
		for _, b := range g.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(rt.Results) {
				continue
			}
			if ei >= 0 && ei != idx {
				if k, ok := rt.Results[ei].(*ssa.Const); !ok || !k.IsNil() {
					// returned with an error: only when nothing else is returned is this a value
					if _, isC := rt.Results[idx].(*ssa.Const); isC {
						continue
					}
				}
			}
			x := s.expr(rt.Results[idx], sub)
			if !m[x.String()] {
				m[x.String()] = true
				alts = append(alts, x)
			}
		}
		if len(alts) == 1 && s.pure(g) {
			return alts[0]
		}
		if len(alts) > 1 && s.alts && s.pure(g) {
			return op("phi", "", v, alts...)
		}
	}
	n := g.Name()
	if g.Signature.Recv() == nil && g.Pkg != nil {
		n = g.Pkg.Pkg.Name() + "." + n
	}
	return op("call", n+resIdx(c, idx), v, as...)
}

func (s *symbolic) recursive(ctx *symCtx, g *ssa.Function) bool {
	for c := ctx; c != nil; c = c.up {
		if c.f == g {
			return true
		}
	}
	return false
}

// pure: small enough to be read as an expression (no loops).
func (s *symbolic) pure(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		if isLoopHeader(b) {
			return false
		}
	}
	return true
}

// recv: the receiver of a call, as the field it comes from when known.
func (s *symbolic) recv(v ssa.Value, ctx *symCtx) *Expr { return s.expr(v, ctx) }

func resIdx(c *ssa.Call, idx int) string {
	if c.Call.Signature().Results().Len() > 1 && idx > 0 {
		return "#" + string(rune('0'+idx))
	}
	return ""
}
