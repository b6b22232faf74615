package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A natural loop of a function.
type loop struct {
	f      *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function][]*loop{}

func loopsOf(f *ssa.Function) []*loop {
	if l, ok := loopCache[f]; ok {
		return l
	}
	var out []*loop
	for _, h := range f.Blocks {
		body := map[*ssa.BasicBlock]bool{h: true}
		var work []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				work = append(work, p)
			}
		}
		if len(work) == 0 {
			continue
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if body[b] {
				continue
			}
			body[b] = true
			work = append(work, b.Preds...)
		}
		out = append(out, &loop{f, h, body})
	}
	loopCache[f] = out
	return out
}

// innermost loop containing a block (skip: loops to be treated as straight code).
func innermostLoop(b *ssa.BasicBlock, skip func(*loop) bool) *loop {
	var best *loop
	for _, l := range loopsOf(b.Parent()) {
		if !l.body[b] || (skip != nil && skip(l)) {
			continue
		}
		if best == nil || len(l.body) < len(best.body) {
			best = l
		}
	}
	return best
}

// induction describes the counter or iterator a loop runs on.
type induction struct {
	phi   *ssa.Phi  // the counter, nil for map/channel/string iteration
	coll  ssa.Value // the collection ranged over, when known
	start int64
	step  int64
	bound ssa.Value // exclusive upper bound
	test  *ssa.If
	// upto: the counter goes up by one and stays below the bound
	upto bool
	// whole: every element from the first to the last
	whole bool
	why   string
}

func lenArg(v ssa.Value) ssa.Value {
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// inductionOf finds the test that ends the loop normally.
func inductionOf(l *loop) *induction {
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		exits := -1
		for i, s := range b.Succs {
			if !l.body[s] {
				exits = i
			}
		}
		if exits < 0 {
			continue
		}
		switch c := iff.Cond.(type) {
		case *ssa.Extract:
			if nx, ok := c.Tuple.(*ssa.Next); ok && b == l.header && exits == 1 {
				in := &induction{test: iff, whole: true}
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					in.coll = rg.X
				}
				return in
			}
		case *ssa.BinOp:
			ind := counterTest(l, c, exits)
			if ind == nil {
				continue
			}
			ind.test = iff
			if rotated(l, b, c, ind) {
				ind.whole, ind.why = true, ""
				ind.upto = true
			} else if b != l.header && ind.whole {
				// tested at the end of the body, or after part of it
				if !onlyStepBefore(l, b) {
					ind.whole, ind.why = false, "the end test is not the first thing in the loop"
				}
			}
			return ind
		}
	}
	return nil
}

// rotated: the loop is entered when 0 < n and goes round again while the next number is below n.
func rotated(l *loop, b *ssa.BasicBlock, c *ssa.BinOp, ind *induction) bool {
	if ind.start != 0 || ind.step != 1 || ind.phi == nil || c.Op != token.LSS || c.Y != ind.bound {
		return false
	}
	nx, ok := c.X.(*ssa.BinOp)
	if !ok || nx.Op != token.ADD || nx.X != ssa.Value(ind.phi) {
		return false
	}
	for i, p := range l.header.Preds {
		if l.body[p] {
			if p != b || ind.phi.Edges[i] != ssa.Value(nx) {
				return false
			}
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != l.header {
			return false
		}
		g, ok := iff.Cond.(*ssa.BinOp)
		if !ok || g.Op != token.GTR && g.Op != token.NEQ || g.X != ind.bound {
			return false
		}
		if k, ok := constInt(g.Y); !ok || k != 0 {
			return false
		}
	}
	return true
}

func onlyStepBefore(l *loop, b *ssa.BasicBlock) bool {
	return len(l.header.Succs) == 1 && l.header.Succs[0] == b
}

func constInt(v ssa.Value) (int64, bool) {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value != nil {
			if c := constant.ToInt(t.Value); c.Kind() == constant.Int {
				return constant.Int64Val(c)
			}
		}
	case *ssa.Convert:
		return constInt(t.X)
	case *ssa.ChangeType:
		return constInt(t.X)
	}
	return 0, false
}

// counterTest recognises  i < n  (and its variants) on a loop counter.
func counterTest(l *loop, c *ssa.BinOp, exits int) *induction {
	for _, sw := range []bool{false, true} {
		x, y, o := c.X, c.Y, c.Op
		if sw {
			x, y = y, x
			switch o {
			case token.LSS:
				o = token.GTR
			case token.GTR:
				o = token.LSS
			case token.LEQ:
				o = token.GEQ
			case token.GEQ:
				o = token.LEQ
			}
		}
		if exits == 0 {
			switch o {
			case token.LSS:
				o = token.GEQ
			case token.GEQ:
				o = token.LSS
			case token.GTR:
				o = token.LEQ
			case token.LEQ:
				o = token.GTR
			case token.EQL:
				o = token.NEQ
			case token.NEQ:
				o = token.EQL
			}
		}
		// now the loop continues while x o y
		pre := int64(0)
		v := x
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
			if k, ok := constInt(bo.Y); ok {
				if _, isPhi := bo.X.(*ssa.Phi); isPhi {
					pre, v = k, bo.X
				}
			}
		}
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() != l.header {
			continue
		}
		ind := &induction{phi: phi, bound: y, whole: true}
		haveStart, haveStep := false, false
		for i, e := range phi.Edges {
			if l.body[phi.Block().Preds[i]] {
				if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(phi) {
					if k, ok := constInt(bo.Y); ok {
						ind.step, haveStep = k, true
					}
				}
			} else if k, ok := constInt(e); ok {
				ind.start, haveStart = k, true
			}
		}
		if !haveStep || ind.step == 0 {
			continue
		}
		switch {
		case !haveStart:
			ind.whole, ind.why = false, "it does not start at the first element"
		case ind.start+pre != 0:
			ind.whole, ind.why = false, "it does not start at the first element"
		case ind.step != 1:
			ind.whole, ind.why = false, "it does not advance by one"
		case o != token.LSS && o != token.NEQ:
			ind.whole, ind.why = false, "it does not run to the last element exactly"
		}
		ind.upto = ind.step == 1 && (o == token.LSS || o == token.NEQ)
		ind.coll = lenArg(y)
		return ind
	}
	return nil
}

// literalTable: a loop over a slice or array listed in the code.
func (P *Prog) literalTableLoop(l *loop) bool {
	in := inductionOf(l)
	if in == nil {
		return false
	}
	coll := in.coll
	if coll == nil && in.bound != nil {
		// ranging over an array: the bound is a constant
		if _, ok := constInt(in.bound); ok {
			for b := range l.body {
				for _, ins := range b.Instrs {
					if ia, ok := ins.(*ssa.IndexAddr); ok {
						if al, ok := ia.X.(*ssa.Alloc); ok && in.phi != nil {
							if _, isArr := derefType(al.Type()).Underlying().(*types.Array); isArr && usesPhi(ia.Index, in.phi) && storesElems(al) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	if coll == nil {
		return false
	}
	return literalValue(coll, 0)
}

func storesElems(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			if _, ok := constInt(ia.Index); ok {
				for _, w := range *ia.Referrers() {
					switch w.(type) {
					case *ssa.Store, *ssa.FieldAddr:
						return true
					}
				}
			}
		}
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if ld, ok := st.Val.(*ssa.UnOp); ok {
				if a2, ok := ld.X.(*ssa.Alloc); ok && storesElems(a2) {
					return true
				}
			}
		}
	}
	return false
}

func usesPhi(v ssa.Value, phi *ssa.Phi) bool {
	if v == ssa.Value(phi) {
		return true
	}
	if b, ok := v.(*ssa.BinOp); ok {
		return b.X == ssa.Value(phi) || b.Y == ssa.Value(phi)
	}
	return false
}

func literalValue(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Slice:
		al, ok := t.X.(*ssa.Alloc)
		return ok && storesElems(al)
	case *ssa.Alloc:
		return storesElems(t)
	case *ssa.UnOp:
		if al, ok := t.X.(*ssa.Alloc); ok && t.Op == token.MUL {
			n := 0
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					n++
					if !literalValue(st.Val, d+1) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.Call:
		if g := t.Call.StaticCallee(); g != nil && inModule(g) && g.Blocks != nil {
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(rt.Results) == 0 || !literalValue(rt.Results[0], d+1) {
						return false
					}
				}
			}
			return true
		}
	case *ssa.Parameter:
		// listed by every caller
		f := t.Parent()
		if f.Pkg == nil {
			return false
		}
		return false
	}
	return false
}
