package main

import (
	_ "embed"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Before anything is analysed the program is brought to the granularity of functions the checks were written for:
// private functions that are not in the inventory (helpers split off since) and function literals called on the spot
// are put back into their callers. This changes nothing about what the program does.

//go:embed inventory.txt
var inventoryText string

//go:linkname ssaLift golang.org/x/tools/go/ssa.lift
func ssaLift(fn *ssa.Function)

//go:linkname ssaBuildReferrers golang.org/x/tools/go/ssa.buildReferrers
func ssaBuildReferrers(fn *ssa.Function)

//go:linkname ssaBuildDomTree golang.org/x/tools/go/ssa.buildDomTree
func ssaBuildDomTree(fn *ssa.Function)

//go:linkname ssaNumberRegisters golang.org/x/tools/go/ssa.numberRegisters
func ssaNumberRegisters(fn *ssa.Function)

//go:linkname ssaOptimizeBlocks golang.org/x/tools/go/ssa.optimizeBlocks
func ssaOptimizeBlocks(fn *ssa.Function)

// setPriv sets an unexported field of a structure of the ssa package.
func setPriv(obj any, field string, val any) {
	f := reflect.ValueOf(obj).Elem().FieldByName(field)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(val))
}

func zeroPriv(obj any, field string) {
	f := reflect.ValueOf(obj).Elem().FieldByName(field)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().SetZero()
}

func setBlock(in ssa.Instruction, b *ssa.BasicBlock) { setPriv(in, "block", b) }

type inliner struct {
	inventory inventory
	ifaceM    map[string]bool        // names of the methods of interfaces of the module
	refs      map[*ssa.Function]int  // uses other than as what is called
	calls     map[*ssa.Function]int  // static calls
	done      map[*ssa.Function]bool // put into a caller at least once
	busy      map[*ssa.Function]bool
	ready     map[*ssa.Function]bool
	inlined   int
	gone      map[*ssa.Function]bool
}

// listed: the function is one the checks were written for.
func (n *inliner) listed(f *ssa.Function) bool {
	scope := relPkg(f)
	if r := f.Signature.Recv(); r != nil {
		if nm, ok := derefType(r.Type()).(*types.Named); ok {
			scope += "." + nm.Obj().Name()
		}
	}
	return f.Parent() == nil && n.inventory.has("func", scope, f.Name())
}

// normalise inlines in all of the given functions; it returns those that are no longer needed.
func normalise(fs []*ssa.Function, inv inventory) map[*ssa.Function]bool {
	n := &inliner{inventory: inv, ifaceM: map[string]bool{}, refs: map[*ssa.Function]int{}, calls: map[*ssa.Function]int{},
		done: map[*ssa.Function]bool{}, busy: map[*ssa.Function]bool{}, ready: map[*ssa.Function]bool{}, gone: map[*ssa.Function]bool{}}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	for _, f := range fs {
		if f.Pkg != nil {
			for _, m := range f.Pkg.Members {
				if t, ok := m.(*ssa.Type); ok {
					if it, ok := t.Type().Underlying().(*types.Interface); ok {
						for i := 0; i < it.NumMethods(); i++ {
							n.ifaceM[it.Method(i).Name()] = true
						}
					}
				}
			}
		}
	}
	n.count(fs)
	for _, f := range fs {
		n.into(f)
	}
	n.refs, n.calls = map[*ssa.Function]int{}, map[*ssa.Function]int{}
	n.count(fs)
	for f := range n.done {
		if n.refs[f]+n.calls[f] == 0 {
			n.gone[f] = true
		}
	}
	for f := range n.gone {
		f.Blocks = nil
		if p := f.Parent(); p != nil {
			var keep []*ssa.Function
			for _, a := range p.AnonFuncs {
				if a != f {
					keep = append(keep, a)
				}
			}
			p.AnonFuncs = keep
		}
	}
	return n.gone
}

func (n *inliner) count(fs []*ssa.Function) {
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() {
					callee = c.Call.Value
					if g, ok := callee.(*ssa.Function); ok {
						n.calls[g]++
					}
				}
				first := true
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if *op == callee && first {
						first = false
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						n.refs[g]++
					}
				}
			}
		}
	}
}

// callee: the function a call is to be replaced by, if it is to be.
func (n *inliner) callee(f *ssa.Function, c *ssa.Call) (*ssa.Function, *ssa.MakeClosure) {
	if c.Call.IsInvoke() {
		return nil, nil
	}
	var mc *ssa.MakeClosure
	g, ok := c.Call.Value.(*ssa.Function)
	if !ok {
		if mc, ok = c.Call.Value.(*ssa.MakeClosure); !ok {
			return nil, nil
		}
		g = mc.Fn.(*ssa.Function)
	}
	if g == f || g.Blocks == nil || g.Pkg != f.Pkg || g.Pkg == nil || g.Synthetic != "" || len(g.TypeArgs()) > 0 || n.busy[g] {
		return nil, nil
	}
	if n.listed(g) {
		return nil, nil
	}
	if g.Parent() != nil {
		// a literal: only one that is called on the spot and used for nothing else
		if g.Parent() != f {
			return nil, nil
		}
		if mc != nil {
			uses := 0
			for _, r := range *mc.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					uses++
				}
			}
			if uses != 1 || n.refs[g] != 1 {
				return nil, nil
			}
		} else if n.refs[g] != 0 || n.calls[g] != 1 {
			return nil, nil
		}
	} else {
		if n.refs[g] > 0 || g.Signature.Recv() != nil && n.ifaceM[g.Name()] {
			return nil, nil
		}
	}
	if g.Recover != nil || len(g.Blocks) == 0 || len(g.Blocks[0].Preds) > 0 {
		return nil, nil
	}
	if len(g.AnonFuncs) > 0 && n.calls[g] > 1 {
		return nil, nil
	}
	returns := false
	size := 0
	for _, b := range g.Blocks {
		size += len(b.Instrs)
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				return nil, nil
			case *ssa.Return:
				returns = true
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "recover" || strings.HasPrefix(bi.Name(), "ssa:")) {
					return nil, nil
				}
			}
		}
	}
	if !returns || size > 1500 && n.calls[g] > 1 {
		return nil, nil
	}
	return g, mc
}

// into puts the bodies of helpers into a function, those of the helpers' own helpers first.
func (n *inliner) into(f *ssa.Function) {
	if n.ready[f] || n.busy[f] || f.Blocks == nil {
		return
	}
	n.busy[f] = true
	defer func() { n.busy[f] = false; n.ready[f] = true }()
	old := map[*ssa.Alloc]bool{}
	if f.Recover != nil {
		// the result variables, which a recovered panic returns as well
		for _, in := range f.Recover.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok {
					old[a] = true
				}
			}
		}
	}
	k := 0
	for k < 400 {
		var call *ssa.Call
		var g *ssa.Function
		var mc *ssa.MakeClosure
	find:
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if h, m := n.callee(f, c); h != nil {
						n.into(h)
						if h, m = n.callee(f, c); h != nil {
							call, g, mc = c, h, m
							break find
						}
					}
				}
			}
		}
		if call == nil {
			break
		}
		n.inline(f, call, g, mc)
		n.done[g] = true
		n.inlined++
		k++
	}
	if k == 0 {
		return
	}
	ssaOptimizeBlocks(f)
	rebuildReferrers(f)
	ssaBuildDomTree(f)
	if f.Recover != nil {
		var rs []*ssa.Alloc
		for a := range old {
			rs = append(rs, a)
		}
		setPriv(f, "results", rs)
	}
	ssaLift(f)
	zeroPriv(f, "results")
	ssaOptimizeBlocks(f)
	rebuildReferrers(f)
	ssaBuildDomTree(f)
	ssaNumberRegisters(f)
}

func rebuildReferrers(f *ssa.Function) {
	clear := func(v ssa.Value) {
		if v == nil {
			return
		}
		if r := v.Referrers(); r != nil {
			*r = nil
		}
	}
	for _, p := range f.Params {
		clear(p)
	}
	for _, p := range f.FreeVars {
		clear(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				clear(v)
			}
			for _, op := range in.Operands(nil) {
				clear(*op)
			}
		}
	}
	ssaBuildReferrers(f)
}

func newBlock(f *ssa.Function, comment string) *ssa.BasicBlock {
	b := &ssa.BasicBlock{Index: len(f.Blocks), Comment: comment}
	setPriv(b, "parent", f)
	f.Blocks = append(f.Blocks, b)
	return b
}

func cloneInstr(in ssa.Instruction) ssa.Instruction {
	o := reflect.ValueOf(in).Elem()
	p := reflect.New(o.Type())
	p.Elem().Set(o)
	c := p.Interface().(ssa.Instruction)
	if _, ok := c.(ssa.Value); ok {
		zeroPriv(c, "referrers")
	}
	cp := func(s []ssa.Value) []ssa.Value { return append([]ssa.Value(nil), s...) }
	switch t := c.(type) {
	case *ssa.Call:
		t.Call.Args = cp(t.Call.Args)
	case *ssa.Go:
		t.Call.Args = cp(t.Call.Args)
	case *ssa.Defer:
		t.Call.Args = cp(t.Call.Args)
	case *ssa.MakeClosure:
		t.Bindings = cp(t.Bindings)
	case *ssa.Phi:
		t.Edges = cp(t.Edges)
	case *ssa.Return:
		t.Results = cp(t.Results)
	case *ssa.Select:
		st := make([]*ssa.SelectState, len(t.States))
		for i, s := range t.States {
			x := *s
			st[i] = &x
		}
		t.States = st
	}
	return c
}

func newLoad(a *ssa.Alloc, pos token.Pos) *ssa.UnOp {
	u := &ssa.UnOp{Op: token.MUL, X: a}
	setPriv(u, "typ", derefType(a.Type()))
	setPriv(u, "pos", pos)
	return u
}

func (n *inliner) inline(f *ssa.Function, call *ssa.Call, g *ssa.Function, mc *ssa.MakeClosure) {
	b := call.Block()
	at := -1
	for i, in := range b.Instrs {
		if in == ssa.Instruction(call) {
			at = i
		}
	}
	// what the results are used for: they go through cells
	res := g.Signature.Results()
	cells := make([]*ssa.Alloc, res.Len())
	for i := range cells {
		a := &ssa.Alloc{Comment: "result"}
		setPriv(a, "typ", types.NewPointer(res.At(i).Type()))
		setPriv(a, "pos", call.Pos())
		setBlock(a, f.Blocks[0])
		cells[i] = a
	}
	idx := map[ssa.Value]int{}
	if res.Len() == 1 {
		idx[call] = 0
	}
	for _, x := range f.Blocks {
		for _, in := range x.Instrs {
			if e, ok := in.(*ssa.Extract); ok && e.Tuple == ssa.Value(call) {
				idx[e] = e.Index
			}
		}
	}
	for _, x := range f.Blocks {
		var out, self []ssa.Instruction
		for _, in := range x.Instrs {
			if e, ok := in.(*ssa.Extract); ok && e.Tuple == ssa.Value(call) {
				continue
			}
			if d, ok := in.(*ssa.DebugRef); ok {
				if _, isRes := idx[d.X]; isRes {
					continue
				}
			}
			if phi, ok := in.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					if k, isRes := idx[e]; isRes {
						p := x.Preds[i]
						u := newLoad(cells[k], call.Pos())
						setBlock(u, p)
						phi.Edges[i] = u
						if p == x {
							self = append(self, u) // at the end of this very block
							continue
						}
						last := p.Instrs[len(p.Instrs)-1]
						p.Instrs = append(append([]ssa.Instruction{}, p.Instrs[:len(p.Instrs)-1]...), u, last)
					}
				}
				out = append(out, in)
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, isRes := idx[*op]; isRes {
					u := newLoad(cells[k], call.Pos())
					setBlock(u, x)
					out = append(out, u)
					*op = u
				}
			}
			out = append(out, in)
		}
		if len(self) > 0 {
			last := out[len(out)-1]
			out = append(append(out[:len(out)-1:len(out)-1], self...), last)
		}
		x.Instrs = out
	}
	for i, in := range b.Instrs {
		if in == ssa.Instruction(call) {
			at = i
		}
	}
	// split the block
	cont := newBlock(f, "inlined.done")
	cont.Instrs = append([]ssa.Instruction{}, b.Instrs[at+1:]...)
	for _, in := range cont.Instrs {
		setBlock(in, cont)
	}
	b.Instrs = append([]ssa.Instruction{}, b.Instrs[:at]...)
	cont.Succs = append([]*ssa.BasicBlock{}, b.Succs...)
	for _, s := range cont.Succs {
		for i, p := range s.Preds {
			if p == b {
				s.Preds[i] = cont
			}
		}
	}
	b.Succs = nil
	// the cells come first in the function
	e := f.Blocks[0]
	var allocs []ssa.Instruction
	for _, a := range cells {
		allocs = append(allocs, a)
	}
	e.Instrs = append(allocs, e.Instrs...)
	f.Locals = append(f.Locals, cells...)
	// the body
	vm := map[ssa.Value]ssa.Value{}
	for i, p := range g.Params {
		vm[p] = call.Call.Args[i]
	}
	if mc != nil {
		for i, fv := range g.FreeVars {
			vm[fv] = mc.Bindings[i]
		}
	}
	bm := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, x := range g.Blocks {
		bm[x] = newBlock(f, x.Comment)
	}
	var clones []ssa.Instruction
	var rets []*ssa.BasicBlock
	for _, x := range g.Blocks {
		y := bm[x]
		for _, in := range x.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				for i, v := range r.Results {
					st := &ssa.Store{Addr: cells[i], Val: v}
					setPriv(st, "pos", r.Pos())
					setBlock(st, y)
					y.Instrs = append(y.Instrs, st)
					clones = append(clones, st)
				}
				j := &ssa.Jump{}
				setBlock(j, y)
				y.Instrs = append(y.Instrs, j)
				y.Succs = []*ssa.BasicBlock{cont}
				cont.Preds = append(cont.Preds, y)
				rets = append(rets, y)
				continue
			}
			c := cloneInstr(in)
			setBlock(c, y)
			y.Instrs = append(y.Instrs, c)
			clones = append(clones, c)
			if v, ok := in.(ssa.Value); ok {
				vm[v] = c.(ssa.Value)
			}
			if a, ok := c.(*ssa.Alloc); ok && !a.Heap {
				f.Locals = append(f.Locals, a)
			}
		}
		for _, p := range x.Preds {
			y.Preds = append(y.Preds, bm[p])
		}
		if y.Succs == nil {
			for _, s := range x.Succs {
				y.Succs = append(y.Succs, bm[s])
			}
		}
	}
	for _, c := range clones {
		for _, op := range c.Operands(nil) {
			if *op == nil {
				continue
			}
			if v, ok := vm[*op]; ok {
				*op = v
			}
		}
	}
	j := &ssa.Jump{}
	setBlock(j, b)
	b.Instrs = append(b.Instrs, j)
	b.Succs = []*ssa.BasicBlock{bm[g.Blocks[0]]}
	bm[g.Blocks[0]].Preds = append(bm[g.Blocks[0]].Preds, b)
	// literals within the body now belong to the caller
	if n.calls[g] <= 1 {
		for _, a := range g.AnonFuncs {
			setPriv(a, "parent", f)
			f.AnonFuncs = append(f.AnonFuncs, a)
		}
		g.AnonFuncs = nil
	}
	if mc != nil {
		for _, x := range f.Blocks {
			for i, in := range x.Instrs {
				if in == ssa.Instruction(mc) {
					x.Instrs = append(append([]ssa.Instruction{}, x.Instrs[:i]...), x.Instrs[i+1:]...)
					break
				}
			}
		}
		n.refs[g] = 0
	}
	n.unshare(f, cont, rets, cells)
}

// unshare gives each return of the helper its own copy of what follows, when that is only a test of the results or a
// return, and decides the test where the return settles it.
func (n *inliner) unshare(f *ssa.Function, cont *ssa.BasicBlock, rets []*ssa.BasicBlock, cells []*ssa.Alloc) {
	if len(cont.Instrs) > 12 || len(cont.Preds) != len(rets) {
		return
	}
	cell := map[ssa.Value]*ssa.Alloc{}
	for _, in := range cont.Instrs {
		switch t := in.(type) {
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if a, ok := t.X.(*ssa.Alloc); ok {
					for _, c := range cells {
						if c == a {
							cell[t] = a
						}
					}
				}
			}
		case *ssa.BinOp, *ssa.If, *ssa.Return, *ssa.Jump, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.Store:
		default:
			return
		}
	}
	// nothing computed here is used elsewhere, other than in the phis of what follows
	own := map[ssa.Value]bool{}
	for _, in := range cont.Instrs {
		if v, ok := in.(ssa.Value); ok {
			own[v] = true
		}
	}
	for _, x := range f.Blocks {
		if x == cont {
			continue
		}
		for _, in := range x.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					if e != nil && own[e] && x.Preds[i] != cont {
						return
					}
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && own[*op] {
					return
				}
			}
		}
	}
	var preds []*ssa.BasicBlock
	for ri, r := range rets {
		c := newBlock(f, cont.Comment)
		vm := map[ssa.Value]ssa.Value{}
		for _, in := range cont.Instrs {
			k := cloneInstr(in)
			setBlock(k, c)
			for _, op := range k.Operands(nil) {
				if *op != nil {
					if v, ok := vm[*op]; ok {
						*op = v
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				vm[v] = k.(ssa.Value)
			}
			c.Instrs = append(c.Instrs, k)
		}
		c.Preds = []*ssa.BasicBlock{r}
		r.Succs = []*ssa.BasicBlock{c}
		succs := cont.Succs
		// decided?
		if iff, ok := cont.Instrs[len(cont.Instrs)-1].(*ssa.If); ok {
			if known, val := n.decide(iff.Cond, cell, r); known {
				s := succs[1]
				if val {
					s = succs[0]
				}
				j := &ssa.Jump{}
				setBlock(j, c)
				c.Instrs[len(c.Instrs)-1] = j
				succs = []*ssa.BasicBlock{s}
			}
		}
		for _, s := range succs {
			c.Succs = append(c.Succs, s)
			for i, p := range s.Preds {
				if p == cont {
					s.Preds = append(s.Preds, c)
					for _, in := range s.Instrs {
						if phi, ok := in.(*ssa.Phi); ok {
							e := phi.Edges[i]
							if v, ok := vm[e]; ok {
								e = v
							}
							phi.Edges = append(phi.Edges, e)
						}
					}
					break
				}
			}
		}
		preds = append(preds, c)
		_ = ri
	}
	// the shared copy goes
	for _, s := range cont.Succs {
		for i := 0; i < len(s.Preds); i++ {
			if s.Preds[i] != cont {
				continue
			}
			s.Preds = append(append([]*ssa.BasicBlock{}, s.Preds[:i]...), s.Preds[i+1:]...)
			for _, in := range s.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					phi.Edges = append(append([]ssa.Value{}, phi.Edges[:i]...), phi.Edges[i+1:]...)
				}
			}
			i--
		}
	}
	cont.Preds, cont.Succs = nil, nil
	var keep []*ssa.BasicBlock
	for _, x := range f.Blocks {
		if x != cont {
			x.Index = len(keep)
			keep = append(keep, x)
		}
	}
	f.Blocks = keep
}

// decide: what a test of a result comes to after this return.
func (n *inliner) decide(cond ssa.Value, cell map[ssa.Value]*ssa.Alloc, r *ssa.BasicBlock) (bool, bool) {
	stored := func(a *ssa.Alloc) ssa.Value {
		for i := len(r.Instrs) - 1; i >= 0; i-- {
			if st, ok := r.Instrs[i].(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				return st.Val
			}
		}
		return nil
	}
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		k, v := n.decide(u.X, cell, r)
		return k, !v
	}
	if a := cell[cond]; a != nil {
		if c, ok := stored(a).(*ssa.Const); ok && c.Value != nil {
			return true, c.Value.String() == "true"
		}
		return false, false
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return false, false
	}
	x, y := bo.X, bo.Y
	if c, ok := x.(*ssa.Const); ok && c.IsNil() {
		x, y = y, x
	}
	c, ok := y.(*ssa.Const)
	a := cell[x]
	if !ok || !c.IsNil() || a == nil {
		return false, false
	}
	v := stored(a)
	if v == nil {
		return false, false
	}
	isNil, known := false, false
	switch t := v.(type) {
	case *ssa.Const:
		isNil, known = t.IsNil(), t.IsNil()
	case *ssa.MakeInterface, *ssa.Alloc:
		known = true
	case *ssa.Call:
		if g := t.Call.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "errors" && g.Name() == "New" || g.Pkg.Pkg.Path() == "fmt" && g.Name() == "Errorf") {
			known = true
		}
	}
	if !known {
		// established by a test on the way here
		for x := r; len(x.Preds) == 1; x = x.Preds[0] {
			p := x.Preds[0]
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || p.Succs[0] == p.Succs[1] {
				continue
			}
			t, ok := iff.Cond.(*ssa.BinOp)
			if !ok || t.Op != token.EQL && t.Op != token.NEQ {
				continue
			}
			other := t.Y
			if t.X != v {
				if t.Y != v {
					continue
				}
				other = t.X
			}
			if k, ok := other.(*ssa.Const); ok && k.IsNil() {
				known, isNil = true, (t.Op == token.EQL) == (p.Succs[0] == x)
				break
			}
		}
	}
	if !known {
		return false, false
	}
	return true, isNil == (bo.Op == token.EQL)
}
