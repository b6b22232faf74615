package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Linear expressions over value identities: where a number comes from, followed through parameters, captured
// variables, helper functions and local variables, as a sum of leaves and a constant. Two expressions are the same
// when they are the same sum of the same leaves (the same results of the same calls, not merely look-alikes).

type leaf struct {
	v   ssa.Value
	ctx *rctx
}

type linExpr struct {
	coef  map[string]int64
	leafs map[string]leaf
	c     int64
}

func (l *linExpr) String() string {
	var ks []string
	for k, n := range l.coef {
		if n == 1 {
			ks = append(ks, k)
		} else {
			ks = append(ks, fmt.Sprintf("%d*%s", n, k))
		}
	}
	sort.Strings(ks)
	if l.c != 0 || len(ks) == 0 {
		ks = append(ks, fmt.Sprint(l.c))
	}
	return strings.Join(ks, "+")
}

func linConst(c int64) *linExpr {
	return &linExpr{coef: map[string]int64{}, leafs: map[string]leaf{}, c: c}
}

func linLeaf(k string, v ssa.Value, ctx *rctx) *linExpr {
	return &linExpr{coef: map[string]int64{k: 1}, leafs: map[string]leaf{k: {v, ctx}}}
}

func (l *linExpr) plus(o *linExpr, f int64) *linExpr {
	n := linConst(l.c + f*o.c)
	for k, x := range l.coef {
		n.coef[k] = x
		n.leafs[k] = l.leafs[k]
	}
	for k, x := range o.coef {
		n.coef[k] += f * x
		n.leafs[k] = o.leafs[k]
		if n.coef[k] == 0 {
			delete(n.coef, k)
			delete(n.leafs, k)
		}
	}
	return n
}

// single: the one leaf of an expression that is just that leaf.
func (l *linExpr) single() (leaf, bool) {
	if l.c != 0 || len(l.coef) != 1 {
		return leaf{}, false
	}
	for k, n := range l.coef {
		if n == 1 {
			return l.leafs[k], true
		}
	}
	return leaf{}, false
}

func chainKey(c *rctx) string {
	var s []string
	for ; c != nil; c = c.up {
		if c.site != nil {
			s = append(s, fmt.Sprintf("%p", c.site))
		} else {
			s = append(s, fmt.Sprintf("%p", c.f))
		}
	}
	return strings.Join(s, "<")
}

type linearizer struct {
	P     *Prog
	enter func(*ssa.Function) bool
	seen  map[string]bool
	n     int
}

func (P *Prog) lin(v ssa.Value, ctx *rctx, enter func(*ssa.Function) bool) *linExpr {
	z := &linearizer{P: P, enter: enter, seen: map[string]bool{}}
	return z.expr(v, ctx)
}

func (z *linearizer) leafOf(v ssa.Value, ctx *rctx) *linExpr {
	if cl, ok := v.(*ssa.Call); ok {
		if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return linLeaf("len("+z.expr(cl.Call.Args[0], ctx).String()+")", v, ctx)
		}
	}
	for c := ctx; c != nil; c = c.up {
		if v.Parent() == c.f {
			ctx = c
			break
		}
	}
	return linLeaf(fmt.Sprintf("%s@%p@%s", v.Name(), v, chainKey(ctx)), v, ctx)
}

func (z *linearizer) expr(v ssa.Value, ctx *rctx) *linExpr {
	z.n++
	k := fmt.Sprintf("%p|%s", v, chainKey(ctx))
	if z.seen[k] || z.n > 3000 {
		return z.leafOf(v, ctx)
	}
	z.seen[k] = true
	defer delete(z.seen, k)
	switch t := v.(type) {
	case *ssa.Const:
		if x, ok := constInt(t); ok {
			return linConst(x)
		}
	case *ssa.Convert:
		if isIntType(t.Type()) && isIntType(t.X.Type()) {
			return z.expr(t.X, ctx)
		}
	case *ssa.ChangeType:
		return z.expr(t.X, ctx)
	case *ssa.ChangeInterface:
		return z.expr(t.X, ctx)
	case *ssa.MakeInterface:
		return z.expr(t.X, ctx)
	case *ssa.Parameter:
		if a, up := argOf(t, ctx); a != nil {
			return z.expr(a, up)
		}
	case *ssa.FreeVar:
		if a, up := boundTo(t, ctx); a != nil {
			return z.expr(a, up)
		}
	case *ssa.BinOp:
		switch t.Op {
		case token.ADD:
			if isIntType(t.Type()) {
				return z.expr(t.X, ctx).plus(z.expr(t.Y, ctx), 1)
			}
		case token.SUB:
			return z.expr(t.X, ctx).plus(z.expr(t.Y, ctx), -1)
		case token.MUL:
			if isIntType(t.Type()) {
				a, b := z.expr(t.X, ctx), z.expr(t.Y, ctx)
				if len(a.coef) == 0 {
					a, b = b, a
				}
				if len(b.coef) == 0 {
					return linConst(0).plus(a, b.c)
				}
			}
		}
	case *ssa.Phi:
		var one *linExpr
		same := true
		for _, e := range t.Edges {
			if e == ssa.Value(t) {
				continue
			}
			x := z.expr(e, ctx)
			if one == nil {
				one = x
			} else if one.String() != x.String() {
				same = false
			}
		}
		if same && one != nil {
			if _, self := one.coef[fmt.Sprintf("%s@%p@%s", v.Name(), v, chainKey(ctx))]; !self {
				return one
			}
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if e := z.load(t.X, ctx); e != nil {
				return e
			}
		}
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			if e := z.result(c, t.Index, ctx); e != nil {
				return e
			}
		}
	case *ssa.Call:
		if e := z.result(t, 0, ctx); e != nil {
			return e
		}
	}
	return z.leafOf(v, ctx)
}

func argOf(p *ssa.Parameter, ctx *rctx) (ssa.Value, *rctx) {
	for c := ctx; c != nil; c = c.up {
		if c.f != p.Parent() {
			continue
		}
		if c.site == nil || c.site.Common().IsInvoke() {
			return nil, nil
		}
		for i, q := range c.f.Params {
			if q == p && i < len(c.site.Common().Args) {
				return c.site.Common().Args[i], c.up
			}
		}
	}
	return nil, nil
}

func boundTo(v *ssa.FreeVar, ctx *rctx) (ssa.Value, *rctx) {
	b := bindingOf(v)
	if b == nil {
		return nil, nil
	}
	for c := ctx; c != nil; c = c.up {
		if b.Parent() == c.f {
			return b, c
		}
	}
	return nil, nil
}

// load: a variable with one assignment is what was assigned to it.
func (z *linearizer) load(a ssa.Value, ctx *rctx) *linExpr {
	switch t := a.(type) {
	case *ssa.FreeVar:
		if b, up := boundTo(t, ctx); b != nil {
			return z.load(b, up)
		}
	case *ssa.Alloc:
		var val ssa.Value
		n := 0
		var scan func(x ssa.Value)
		scan = func(x ssa.Value) {
			if x.Referrers() == nil {
				return
			}
			for _, u := range *x.Referrers() {
				switch w := u.(type) {
				case *ssa.Store:
					if w.Addr == x {
						n++
						val = w.Val
					}
				case *ssa.MakeClosure:
					for i, b := range w.Bindings {
						if b == x {
							scan(w.Fn.(*ssa.Function).FreeVars[i])
						}
					}
				}
			}
		}
		scan(t)
		if n == 1 && val.Parent() == t.Parent() || n == 1 && isConstVal(val) {
			for c := ctx; c != nil; c = c.up {
				if c.f == t.Parent() {
					return z.expr(val, c)
				}
			}
		}
		return z.leafOf(t, ctx)
	case *ssa.FieldAddr:
		if k := fieldKey(t.X, t.Field); k != "" {
			return linLeaf("field:"+k, t, ctx)
		}
	case *ssa.Global:
		return linLeaf("global:"+t.Pkg.Pkg.Name()+"."+t.Name(), t, ctx)
	case *ssa.Parameter:
		if b, up := argOf(t, ctx); b != nil {
			return z.load(b, up)
		}
	}
	return nil
}

func isConstVal(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// result: what a helper function returns when it succeeds, if that is one expression.
func (z *linearizer) result(c *ssa.Call, idx int, ctx *rctx) *linExpr {
	if c.Call.IsInvoke() {
		return nil
	}
	g := c.Call.StaticCallee()
	if g == nil || !inModule(g) || g.Blocks == nil || (z.enter != nil && !z.enter(g)) {
		return nil
	}
	for x := ctx; x != nil; x = x.up {
		if x.f == g {
			return nil
		}
	}
	ts := z.P.targets(c, ctx, false, z.enter)
	if len(ts) != 1 {
		return nil
	}
	ei := errResultIdx(g.Signature)
	var one *linExpr
	for _, b := range g.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(rt.Results) {
			continue
		}
		if ei >= 0 && ei != idx {
			if k, ok := rt.Results[ei].(*ssa.Const); !ok || !k.IsNil() {
				if _, isC := rt.Results[idx].(*ssa.Const); isC || failsHere(rt.Results[ei], b) {
					continue
				}
			}
		}
		x := z.expr(rt.Results[idx], ts[0])
		if one == nil {
			one = x
		} else if one.String() != x.String() {
			return nil
		}
	}
	return one
}

// failsHere: err is known not to be nil in b.
func failsHere(err ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 {
			continue
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.X != err {
			continue
		}
		if k, ok := bo.Y.(*ssa.Const); ok && k.IsNil() {
			if bo.Op == token.NEQ && id.Succs[0] == d || bo.Op == token.EQL && id.Succs[1] == d {
				return true
			}
		}
	}
	return false
}

// callTree walks every instruction reachable from f through static calls, closures, go and defer, once for every chain
// of calls.
func (P *Prog) callTree(start *rctx, withSym bool, enter func(*ssa.Function) bool, fn func(in ssa.Instruction, ctx *rctx)) {
	n := 0
	var rec func(c *rctx)
	rec = func(c *rctx) {
		n++
		if n > 5000 {
			return
		}
		for _, b := range c.f.Blocks {
			for _, in := range b.Instrs {
				fn(in, c)
				site, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
			next:
				for _, t := range P.targets(site, c, withSym, enter) {
					for x := c; x != nil; x = x.up {
						if x.f == t.f {
							continue next
						}
					}
					rec(t)
				}
			}
		}
	}
	rec(start)
}
