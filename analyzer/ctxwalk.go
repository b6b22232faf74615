package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// targets: the module functions a call enters, each with the context of its arguments.
func (P *Prog) targets(site ssa.CallInstruction, ctx *rctx, withSym bool, enter func(*ssa.Function) bool) []*rctx {
	c := site.Common()
	var up *symCtx
	if ctx != nil {
		up = ctx.sym
	}
	mk := func(g *ssa.Function, args []ssa.Value, bind []ssa.Value) *rctx {
		x := &rctx{f: g, args: map[int][]string{}, fv: map[int][]string{}, site: site, up: ctx}
		if withSym {
			x.sym = &symCtx{f: g, args: map[int]*Expr{}, fv: map[int]*Expr{}, up: up}
		}
		for i, a := range args {
			if ks := P.keysOf(a, ctx); len(ks) > 0 {
				x.args[i] = ks
			}
			if withSym {
				x.sym.args[i] = P.sym(a, up)
			}
		}
		for i, b := range bind {
			if ks := P.keysOf(b, ctx); len(ks) > 0 {
				x.fv[i] = ks
			}
			if withSym {
				x.sym.fv[i] = P.sym(b, up)
			}
		}
		return x
	}
	ok := func(g *ssa.Function) bool {
		return g != nil && g.Blocks != nil && (inModule(g) || g.Synthetic != "") && (enter == nil || enter(g))
	}
	if c.IsInvoke() {
		return nil
	}
	if g := c.StaticCallee(); g != nil {
		if mc, isC := c.Value.(*ssa.MakeClosure); isC {
			if ok(g) {
				return []*rctx{mk(g, c.Args, mc.Bindings)}
			}
			return nil
		}
		if ok(g) {
			return []*rctx{mk(g, c.Args, nil)}
		}
		return nil
	}
	var out []*rctx
	for _, fv := range P.closuresOf(c.Value, 0) {
		switch t := fv.(type) {
		case *ssa.MakeClosure:
			g := t.Fn.(*ssa.Function)
			if ok(g) {
				out = append(out, mk(g, c.Args, t.Bindings))
			}
		case *ssa.Function:
			if ok(t) {
				out = append(out, mk(t, c.Args, nil))
			}
		}
	}
	return out
}

// visit walks every instruction reachable from f through static calls, closures, go and defer, each in the contexts
// it is reached in.
func (P *Prog) visit(f *ssa.Function, withSym bool, enter func(*ssa.Function) bool, fn func(in ssa.Instruction, ctx *rctx)) {
	start := &rctx{f: f}
	if withSym {
		start.sym = &symCtx{f: f}
	}
	P.visitCtx(start, withSym, enter, fn)
}

func (P *Prog) visitCtx(start *rctx, withSym bool, enter func(*ssa.Function) bool, fn func(in ssa.Instruction, ctx *rctx)) {
	seen := map[string]bool{}
	var rec func(c *rctx, depth int)
	rec = func(c *rctx, depth int) {
		k := fmt.Sprintf("%p|%s", c.f, c.id())
		if seen[k] || depth > 30 || len(seen) > 20000 {
			return
		}
		seen[k] = true
		for _, b := range c.f.Blocks {
			for _, in := range b.Instrs {
				fn(in, c)
				if site, ok := in.(ssa.CallInstruction); ok {
					for _, t := range P.targets(site, c, withSym, enter) {
						rec(t, depth+1)
					}
				}
				// closures handed on (sort functions, callbacks)
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if !calledDirectly(mc) && (enter == nil || enter(g)) {
						x := &rctx{f: g, args: map[int][]string{}, fv: map[int][]string{}, up: c}
						if withSym {
							x.sym = &symCtx{f: g, args: map[int]*Expr{}, fv: map[int]*Expr{}, up: c.sym}
						}
						for i, bd := range mc.Bindings {
							if ks := P.keysOf(bd, c); len(ks) > 0 {
								x.fv[i] = ks
							}
							if withSym {
								x.sym.fv[i] = P.sym(bd, c.sym)
							}
						}
						rec(x, depth+1)
					}
				}
			}
		}
	}
	rec(start, 0)
}

func calledDirectly(mc *ssa.MakeClosure) bool {
	if mc.Referrers() == nil {
		return false
	}
	for _, u := range *mc.Referrers() {
		if c, ok := u.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(mc) {
			return true
		}
	}
	return false
}

// symStop is sym with functions that are not looked into.
func (P *Prog) symStop(v ssa.Value, ctx *symCtx, stop func(*ssa.Function) bool) *Expr {
	s := &symbolic{P: P, inline: true, seen: map[ssa.Value]bool{}, stop: stop}
	return s.expr(v, ctx)
}
