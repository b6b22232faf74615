package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C19: pipelines terminate cleanly.  Channels, wait groups and goroutines are
// followed from where they are made, through variables, captured variables,
// parameters, fields and elements of slices, to where they are closed, sent
// on, ranged over and waited for; typestate rules over the paths of each
// goroutine then decide that everything is signalled exactly once.

// flow: where values of channels and wait groups come from.
type flow struct {
	P       *Prog
	callers map[*ssa.Function][]ssa.CallInstruction
	stores  map[string][]ssa.Value // struct field -> values stored
	memo    map[ssa.Value]map[ssa.Value]bool
	sync    map[*ssa.Function]map[*ssa.Function]bool
	funcs   []*ssa.Function
}

func newFlow(P *Prog) *flow {
	w := &flow{P: P, callers: map[*ssa.Function][]ssa.CallInstruction{}, stores: map[string][]ssa.Value{}, memo: map[ssa.Value]map[ssa.Value]bool{}, sync: map[*ssa.Function]map[*ssa.Function]bool{}}
	for _, f := range P.Funcs {
		if !testHelper(f) {
			w.funcs = append(w.funcs, f)
		}
	}
	for i := 0; i < len(w.funcs); i++ { // instances of generic functions are found on the way
		for _, b := range w.funcs[i].Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case ssa.CallInstruction:
					for _, g := range w.calls(t) {
						if len(w.callers[g]) == 0 && instance(g) {
							w.addInstance(g)
						}
						w.callers[g] = append(w.callers[g], t)
					}
					for _, v := range t.Common().Args {
						for _, fv := range P.closuresOf(v, 0) {
							if mc, ok := fv.(*ssa.MakeClosure); ok && mc.Parent() == w.funcs[i] && instance(mc.Fn.(*ssa.Function)) {
								w.addInstance(mc.Fn.(*ssa.Function))
							}
						}
					}
				case *ssa.Store:
					if fa, ok := t.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa.X, fa.Field)
						w.stores[k] = append(w.stores[k], t.Val)
					}
				}
			}
		}
	}
	return w
}

// instance of a generic function (or a function literal in one).
func instance(g *ssa.Function) bool {
	r := rootFn(g)
	return len(r.TypeArgs()) > 0 && r.Origin() != nil && r.Origin() != r
}

func (w *flow) addInstance(g *ssa.Function) {
	for _, f := range w.funcs {
		if f == g {
			return
		}
	}
	if g.Blocks != nil && !testHelper(g) {
		w.funcs = append(w.funcs, g)
		for _, a := range g.AnonFuncs {
			w.addInstance(a)
		}
	}
}

// calls: the module functions a call, go or defer statement runs.
func (w *flow) calls(site ssa.CallInstruction) []*ssa.Function {
	c := site.Common()
	if c.IsInvoke() {
		return nil
	}
	if g := c.StaticCallee(); g != nil {
		if g.Blocks != nil && (inModule(g) || g.Synthetic != "" || instance(g) && inModule(rootFn(g).Origin())) {
			return []*ssa.Function{g}
		}
		return nil
	}
	var out []*ssa.Function
	for _, v := range w.P.closuresOf(c.Value, 0) {
		switch t := v.(type) {
		case *ssa.MakeClosure:
			out = append(out, t.Fn.(*ssa.Function))
		case *ssa.Function:
			if t.Blocks != nil {
				out = append(out, t)
			}
		}
	}
	return out
}

// spawned: what a statement starts as a goroutine: a go statement, or WaitGroup.Go (wg: the group).
func (w *flow) spawned(site ssa.CallInstruction) (fs []*ssa.Function, wg ssa.Value) {
	if g, ok := site.(*ssa.Go); ok {
		return w.calls(g), nil
	}
	if x, n := libMethod(site, "sync.WaitGroup"); n == "Go" {
		for _, a := range site.Common().Args[1:] {
			for _, v := range w.P.closuresOf(a, 0) {
				switch t := v.(type) {
				case *ssa.MakeClosure:
					fs = append(fs, t.Fn.(*ssa.Function))
				case *ssa.Function:
					fs = append(fs, t)
				}
			}
		}
		return fs, x
	}
	return nil, nil
}

// from: the makes (and allocations) a value may come from.
func (w *flow) from(v ssa.Value) map[ssa.Value]bool {
	if m, ok := w.memo[v]; ok {
		return m
	}
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	var content func(a ssa.Value, seenA map[ssa.Value]bool)
	// content: what may be stored at an address
	content = func(a ssa.Value, seenA map[ssa.Value]bool) {
		if seenA[a] {
			return
		}
		seenA[a] = true
		switch t := a.(type) {
		case *ssa.FieldAddr:
			for _, x := range w.stores[fieldKey(t.X, t.Field)] {
				rec(x)
			}
		case *ssa.IndexAddr:
			for o := range w.from(t.X) {
				w.elements(o, rec)
			}
		case *ssa.Alloc:
			for _, x := range storedIn(t) {
				rec(x)
			}
		case *ssa.FreeVar:
			if b := bindingOf(t); b != nil {
				content(b, seenA)
			}
		case *ssa.Global:
		default:
			for o := range w.from(a) {
				if al, ok := o.(*ssa.Alloc); ok {
					content(al, seenA)
				}
			}
		}
	}
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch t := v.(type) {
		case *ssa.MakeChan, *ssa.Alloc, *ssa.MakeSlice, *ssa.Global:
			out[v] = true
		case *ssa.FieldAddr:
			out[v] = true
		case *ssa.Phi:
			for _, e := range t.Edges {
				rec(e)
			}
		case *ssa.ChangeType:
			rec(t.X)
		case *ssa.MakeInterface:
			rec(t.X)
		case *ssa.Slice:
			rec(t.X)
		case *ssa.UnOp:
			if t.Op == token.MUL {
				content(t.X, map[ssa.Value]bool{})
			}
		case *ssa.Field:
			for _, x := range w.stores[fieldKey(t.X, t.Field)] {
				rec(x)
			}
		case *ssa.FreeVar:
			if b := bindingOf(t); b != nil {
				rec(b)
			}
		case *ssa.Parameter:
			for i, p := range t.Parent().Params {
				if p != t {
					continue
				}
				for _, c := range w.callers[t.Parent()] {
					if args := c.Common().Args; i < len(args) {
						rec(args[i])
					}
				}
			}
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range t.Call.Args {
					rec(a)
				}
				out[t] = true
				return
			}
			for _, g := range w.calls(t) {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						rec(r.Results[0])
					}
				}
			}
		case *ssa.Extract:
			if c, ok := t.Tuple.(*ssa.Call); ok {
				for _, g := range w.calls(c) {
					for _, b := range g.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && t.Index < len(r.Results) {
							rec(r.Results[t.Index])
						}
					}
				}
			}
		}
	}
	w.memo[v] = map[ssa.Value]bool{}
	rec(v)
	w.memo[v] = out
	return out
}

// storedIn: the values stored in a variable, also by the closures capturing it.
func storedIn(a ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, u := range *a.Referrers() {
		switch t := u.(type) {
		case *ssa.Store:
			if t.Addr == a {
				out = append(out, t.Val)
			}
		case *ssa.MakeClosure:
			for i, b := range t.Bindings {
				if b == a {
					out = append(out, storedIn(t.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
		}
	}
	return out
}

// elements: the values stored in the elements of a slice or array made at o.
func (w *flow) elements(o ssa.Value, rec func(ssa.Value)) {
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok && types.Identical(derefType(ia.Type()), s.Val.Type()) && isChan(s.Val.Type()) && w.from(ia.X)[o] {
						rec(s.Val)
					}
				}
			}
		}
	}
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// tree: the functions run by f itself (not by the goroutines it starts).
func (w *flow) tree(f *ssa.Function) map[*ssa.Function]bool {
	if t, ok := w.sync[f]; ok {
		return t
	}
	t := map[*ssa.Function]bool{}
	w.sync[f] = t
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if t[g] {
			return
		}
		t[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Go:
				case ssa.CallInstruction:
					for _, h := range w.calls(c) {
						rec(h)
					}
				}
			}
		}
	}
	rec(f)
	return t
}

// within: is there an instruction of f's own execution with this?
func (w *flow) within(f *ssa.Function, is func(in ssa.Instruction) bool) bool {
	for g := range w.tree(f) {
		if hasInstr(g, is) {
			return true
		}
	}
	return false
}

func hasInstr(g *ssa.Function, is func(in ssa.Instruction) bool) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
		}
	}
	return false
}

func closeOf(in ssa.Instruction) ssa.Value {
	if c, ok := in.(ssa.CallInstruction); ok {
		if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return c.Common().Args[0]
		}
	}
	return nil
}

// untilClosed: a receive that goes on until the channel is closed.
func untilClosed(in ssa.Instruction) ssa.Value {
	if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && u.CommaOk {
		return u.X
	}
	return nil
}

type c19 struct {
	P    *Prog
	r    *Result
	w    *flow
	a    *efAnalysis
	seen map[string]bool
}

func (x *c19) oblig(ok bool, rule string, f *ssa.Function, what string, pos token.Pos, msg string, path []string) {
	k := rule + "|" + fnName(f) + "|" + what
	if x.seen[k] && ok {
		return
	}
	if !ok && x.seen["!"+k] {
		return
	}
	x.seen[k] = true
	if !ok {
		x.seen["!"+k] = true
	}
	x.r.oblig(ok, Finding{Rule: rule, Func: fnName(f), Construct: what, Pos: x.P.Pos(pos), Msg: msg, Path: path})
}

// query over the paths of one goroutine: started goroutines are events, not entered.
func (x *c19) query(dims []string, call func(site ssa.CallInstruction) []int, instr func(in ssa.Instruction) []int) *evQuery {
	q := newEvQuery(x.P, x.a, dims)
	q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		ds := call(site)
		_, isGo := site.(*ssa.Go)
		return ds, isGo || len(ds) > 0
	}
	if instr != nil {
		q.instr = func(in ssa.Instruction, ctx *rctx) []int {
			return instr(in)
		}
	}
	q.norm = func(v []int8) {
		for i := range v {
			if v[i] > 2 {
				v[i] = 2
			}
		}
	}
	return q
}

// whole: a loop doing something to every one of n channels: the event happens when the loop ends normally.
func (x *c19) whole(in ssa.Instruction, at ssa.Value) (*loop, *induction, bool) {
	l := innermostLoop(in.Block(), nil)
	if l == nil {
		return nil, nil, false
	}
	ind := inductionOf(l)
	if ind == nil || ind.phi == nil || ind.start != 0 && ind.start != -1 || ind.step != 1 || ind.bound == nil || !usesPhi(at, ind.phi) {
		return l, ind, false
	}
	return l, ind, ind.whole || ind.upto
}

// bound: the number a loop runs to, in a comparable form.
func (x *c19) bound(v ssa.Value) string {
	for i := 0; i < 20; i++ {
		switch t := v.(type) {
		case *ssa.Const:
			return "const " + t.Value.String()
		case *ssa.Convert:
			v = t.X
		case *ssa.Parameter:
			return fmt.Sprintf("%s#%s", t.Parent(), t.Name())
		case *ssa.MakeSlice:
			v = t.Len
		case *ssa.FreeVar:
			b := bindingOf(t)
			if b == nil {
				return "?"
			}
			v = b
		case *ssa.Alloc:
			if s := storedIn(t); len(s) == 1 {
				v = s[0]
			} else {
				return fmt.Sprintf("%p", t)
			}
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return fmt.Sprintf("%p", v)
			}
			switch a := t.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				v = a
			default:
				return fmt.Sprintf("%p", v)
			}
		case *ssa.Call:
			s := lenArg(t)
			if s == nil {
				return fmt.Sprintf("%p", v)
			}
			n := 0
			for o := range x.w.from(s) {
				if ms, ok := o.(*ssa.MakeSlice); ok {
					v = ms.Len
					n++
				}
			}
			if n != 1 {
				return fmt.Sprintf("%p", t)
			}
		default:
			return fmt.Sprintf("%p", v)
		}
	}
	return "?"
}

func elementIndex(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	}
	return nil
}

// ---- channels that are consumed until closed ----

type chanUse struct {
	mk       *ssa.MakeChan
	array    *loop // the loop making one per worker
	bound    string
	closes   map[ssa.Instruction]bool
	ranges   map[ssa.Instruction]bool
	sends    map[ssa.Instruction]bool
	recvs    map[ssa.Instruction]bool
	wholeEnd map[*ssa.If]bool // loops that close all of them
}

func (x *c19) channels() []*chanUse {
	var out []*chanUse
	by := map[ssa.Value]*chanUse{}
	for _, f := range x.w.funcs {
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mk, ok := in.(*ssa.MakeChan); ok {
					u := &chanUse{mk: mk, closes: map[ssa.Instruction]bool{}, ranges: map[ssa.Instruction]bool{}, sends: map[ssa.Instruction]bool{}, recvs: map[ssa.Instruction]bool{}, wholeEnd: map[*ssa.If]bool{}}
					by[mk] = u
					out = append(out, u)
					for _, r := range *mk.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Val == ssa.Value(mk) {
							if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
								if l, ind, ok := x.whole(mk, ia.Index); ok {
									u.array, u.bound = l, x.bound(ind.bound)
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range x.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				note := func(v ssa.Value, set func(u *chanUse)) {
					if v == nil {
						return
					}
					for o := range x.w.from(v) {
						if u := by[o]; u != nil {
							set(u)
						}
					}
				}
				note(closeOf(in), func(u *chanUse) { u.closes[in] = true })
				note(untilClosed(in), func(u *chanUse) { u.ranges[in] = true })
				if s, ok := in.(*ssa.Send); ok {
					note(s.Chan, func(u *chanUse) { u.sends[in] = true })
				}
				if v, ok := in.(*ssa.UnOp); ok && v.Op == token.ARROW && !v.CommaOk {
					note(v.X, func(u *chanUse) { u.recvs[in] = true })
				}
			}
		}
	}
	return out
}

// started: does the goroutine started here (itself) contain one of the instructions?
func (x *c19) started(site ssa.CallInstruction, set map[ssa.Instruction]bool) bool {
	fs, _ := x.w.spawned(site)
	for _, f := range fs {
		if x.w.within(f, func(in ssa.Instruction) bool { return set[in] }) {
			return true
		}
	}
	return false
}

func (x *c19) threads() map[*ssa.Function][]ssa.CallInstruction {
	out := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range x.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fs, _ := x.w.spawned(c)
					for _, g := range fs {
						out[g] = append(out[g], c)
					}
				}
			}
		}
	}
	return out
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String()+x2(out[i]) < out[j].String()+x2(out[j]) })
	return out
}

func x2(f *ssa.Function) string { return fmt.Sprint(int(f.Pos())) }

// countClose: dims for the closing of u (dimension d), with array channels closed by whole loops.
func (x *c19) closing(u *chanUse, d int, q *evQuery) func(site ssa.CallInstruction) []int {
	if u.array == nil {
		return func(site ssa.CallInstruction) []int {
			if u.closes[site] {
				return []int{d}
			}
			return nil
		}
	}
	ended := map[ssa.Value]*loop{}
	for in := range u.closes {
		l, ind, ok := x.whole(in, elementIndex(closeOf(in)))
		if !ok || x.bound(ind.bound) != u.bound {
			continue
		}
		one := x.query([]string{"close"}, func(site ssa.CallInstruction) []int {
			if u.closes[site] {
				return []int{0}
			}
			return nil
		}, nil)
		back, out := one.rounds(l, &rctx{f: l.f})
		good := len(back) > 0 && len(out) == 0
		for _, o := range back {
			good = good && o.vec[0] == 1
		}
		if good {
			for _, c := range ends(l, ind) {
				ended[c] = l
			}
		}
	}
	prev := q.cond
	q.cond = func(c ssa.Value, taken bool, ctx *rctx) []int {
		var ds []int
		if prev != nil {
			ds = prev(c, taken, ctx)
		}
		if l := ended[c]; l != nil && leaves(l, c, taken) {
			ds = append(ds, d)
		}
		return ds
	}
	return func(site ssa.CallInstruction) []int { return nil }
}

// leaves: taking this branch ends the loop, or passes it by because there is nothing to do.
func leaves(l *loop, c ssa.Value, taken bool) bool {
	way := func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && t.Cond == c {
			if taken {
				return b.Succs[0]
			}
			return b.Succs[1]
		}
		return nil
	}
	for b := range l.body {
		if to := way(b); to != nil {
			return !l.body[to]
		}
	}
	for _, b := range l.header.Preds {
		if !l.body[b] {
			if to := way(b); to != nil {
				return to != l.header
			}
		}
	}
	return false
}

// ends of a loop: its end test, and the test that guards it.
func ends(l *loop, ind *induction) []ssa.Value {
	out := []ssa.Value{ind.test.Cond}
	for _, b := range l.header.Preds {
		if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !l.body[b] {
			if g, ok := t.Cond.(*ssa.BinOp); ok && (g.X == ind.bound || g.Y == ind.bound) {
				out = append(out, t.Cond)
			}
		}
	}
	return out
}

// producers: a function that closes a channel it was given does so on every path.
func (x *c19) producers() {
	for _, f := range x.w.funcs {
		for _, p := range f.Params {
			if !isChan(p.Type()) || f.Parent() != nil {
				continue
			}
			at := func(in ssa.Instruction) bool {
				v := closeOf(in)
				return v != nil && in.Parent() == f && (v == ssa.Value(p) || variable(loaded(v)) != nil && loaded(v).Parent() == f && onlyParam(variable(loaded(v)), p))
			}
			if !hasInstr(f, at) {
				continue
			}
			x.r.count("functions that close a channel they are given", 1)
			q := x.query([]string{"closed"}, nil, nil)
			q.match = x.matcher(func(site ssa.CallInstruction) []int {
				if at(site) {
					return []int{0}
				}
				return nil
			})
			for _, o := range q.outcomes(f, &rctx{f: f}) {
				x.oblig(o.vec[0] == 1, "producer-closes", f, "channel "+types.TypeString(p.Type(), func(p *types.Package) string { return p.Name() }), o.last.Pos(), "a path closes the channel this function was given "+times(o.vec[0])+" instead of once", x.P.pathText(o.path))
			}
		}
	}
}

// loaded: the address a value was read from.
func loaded(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

func onlyParam(a ssa.Value, p *ssa.Parameter) bool {
	s := storedIn(a)
	return len(s) == 1 && s[0] == ssa.Value(p)
}

func (x *c19) checkClosed(u *chanUse) {
	f := u.mk.Parent()
	what := "channel of " + types.TypeString(u.mk.Type().Underlying().(*types.Chan).Elem(), func(p *types.Package) string { return p.Name() })
	threads := x.threads()
	// the goroutines and functions that close it
	var closers []*ssa.Function
	for _, t := range sortedFns(keysFn(threads)) {
		if x.w.within(t, func(in ssa.Instruction) bool { return u.closes[in] }) {
			closers = append(closers, t)
		}
	}
	for _, t := range closers {
		q := x.query([]string{"closed"}, nil, nil)
		cl := x.closing(u, 0, q)
		q.match = x.matcher(cl)
		for _, o := range q.outcomes(t, &rctx{f: t}) {
			x.oblig(o.vec[0] == 1, "closed-once", t, what, o.last.Pos(), fmt.Sprintf("a path of this goroutine closes the %s %s instead of once", what, times(o.vec[0])), x.P.pathText(o.path))
		}
		if q.Over {
			x.oblig(false, "closed-once", t, what, t.Pos(), "undecided: too many paths", nil)
		}
	}
	isCloser := map[*ssa.Function]bool{}
	for _, t := range closers {
		isCloser[t] = true
	}
	begins := func(site ssa.CallInstruction) bool {
		fs, _ := x.w.spawned(site)
		for _, g := range fs {
			if isCloser[g] {
				return true
			}
		}
		return false
	}
	// the functions creating the channel and seeing to its closing
	cand := map[*ssa.Function]bool{}
	made := false
	for _, g := range x.w.funcs {
		tr := x.w.tree(g)
		if !tr[f] {
			continue
		}
		if g != f {
			made = true
		}
		if x.w.within(g, func(in ssa.Instruction) bool {
			if c, ok := in.(ssa.CallInstruction); ok && begins(c) {
				return true
			}
			return u.closes[in]
		}) {
			cand[g] = true
		}
	}
	var roots []*ssa.Function
	for _, g := range sortedFns(cand) {
		least := true
		for h := range cand {
			if h != g && x.w.tree(g)[h] {
				least = false
			}
		}
		if least {
			roots = append(roots, g)
		}
	}
	if len(roots) == 0 && !made && f.Object() != nil && f.Object().Exported() {
		return // a constructor nothing here uses: closing is up to its user
	}
	// wherever it is created, it is seen to
	isRoot := map[*ssa.Function]bool{}
	for _, g := range roots {
		isRoot[g] = true
	}
	asked := map[*ssa.Function]bool{}
	var seenTo func(h *ssa.Function)
	seenTo = func(h *ssa.Function) {
		if isRoot[h] || asked[h] || len(roots) == 0 {
			return
		}
		asked[h] = true
		n := 0
		for _, c := range x.w.callers[h] {
			if _, isGo := c.(*ssa.Go); !isGo && !testHelper(c.Parent()) {
				n++
				seenTo(c.Parent())
			}
		}
		x.oblig(n > 0 || h == f, "closed", h, what, h.Pos(), "the "+what+" is created here (by "+fnName(f)+"), and nothing closes it", nil)
	}
	seenTo(f)
	x.oblig(len(roots) > 0, "closed", f, what, u.mk.Pos(), "the "+what+" is received from until it is closed, and nothing closes it", nil)
	for _, g := range roots {
		x.r.count("pipelines: creation and closing of a channel", 1)
		q := x.query([]string{"made", "closing", "consumer"}, nil, nil)
		cl := x.closing(u, 1, q)
		if u.array != nil {
			if ind := inductionOf(u.array); ind != nil && ind.test != nil {
				prev := q.cond
				q.cond = func(c ssa.Value, taken bool, ctx *rctx) []int {
					ds := prev(c, taken, ctx)
					for _, e := range ends(u.array, ind) {
						if c == e && leaves(u.array, c, taken) {
							ds = append(ds, 0)
						}
					}
					return ds
				}
			}
		}
		q.match = x.matcher(func(site ssa.CallInstruction) []int {
			ds := cl(site)
			if begins(site) {
				ds = append(ds, 1)
			}
			if x.started(site, u.ranges) {
				ds = append(ds, 2)
			}
			return ds
		})
		q.instr = func(in ssa.Instruction, ctx *rctx) []int {
			if in == ssa.Instruction(u.mk) && u.array == nil {
				return []int{0}
			}
			if u.ranges[in] {
				return []int{2}
			}
			return nil
		}
		judge := func(o evOut) {
			m, c, n := o.vec[0], o.vec[1], o.vec[2]
			msg := ""
			switch {
			case c > 1:
				msg = "is closed, or its closing goroutine started, more than once"
			case n > 0 && c == 0:
				msg = "has a consumer waiting, and nothing closes it"
			case m == 0 && c > 0 && u.array == nil:
				msg = "is closed before it is made"
			}
			pos := g.Pos()
			if o.last != nil {
				pos = o.last.Pos()
			}
			x.oblig(msg == "", "closed", g, what, pos, "on this path the "+what+" "+msg, x.P.pathText(o.path))
		}
		var around *loop
		if g == f {
			skip := u.array
			around = innermostLoop(u.mk.Block(), func(l *loop) bool { return l == skip })
		}
		if around != nil {
			back, out := q.rounds(around, &rctx{f: g})
			for _, o := range append(back, out...) {
				judge(o)
			}
		} else {
			for _, o := range q.outcomes(g, &rctx{f: g}) {
				judge(o)
			}
		}
		if q.Over {
			x.oblig(false, "closed", g, what, g.Pos(), "undecided: too many paths", nil)
		}
		// one that is consumed here must be going to be closed by then
		p := x.query([]string{"closing", "consumes", "made"}, nil, nil)
		p.protocol()
		pcl := x.closing(u, 0, p)
		p.match = x.matcher(func(site ssa.CallInstruction) []int {
			ds := pcl(site)
			if begins(site) {
				ds = append(ds, 0)
			}
			return ds
		})
		p.instr = func(in ssa.Instruction, ctx *rctx) []int {
			if in == ssa.Instruction(u.mk) && u.array == nil {
				return []int{2}
			}
			if u.ranges[in] {
				return []int{1}
			}
			return nil
		}
		p.norm = nil
		for _, o := range p.outcomes(g, &rctx{f: g}) {
			x.oblig(o.vec[2] == 0, "closed-before-drained", g, what, o.last.Pos(), "the "+what+" is received from here until closed, before what closes it has been started", x.P.pathText(o.path))
		}
	}
	// a consumer goes on until the channel is closed: otherwise those sending wait for ever
	for _, in := range sortedIns(u.ranges) {
		l := innermostLoop(in.Block(), nil)
		if l == nil {
			continue
		}
		x.r.count("loops receiving until closed", 1)
		x.oblig(!leavesEarly(l, in), "drained", l.f, what, in.Pos(), "a path stops receiving before the channel is closed: whoever sends on it waits for ever", nil)
	}
	// nothing is sent after closing
	check := func(t *ssa.Function) {
		p := x.query([]string{"", "sends", "closes"}, nil, nil)
		p.protocol()
		pcl := x.closing(u, 2, p)
		p.match = x.matcher(pcl)
		p.instr = func(in ssa.Instruction, ctx *rctx) []int {
			if u.sends[in] {
				return []int{1}
			}
			return nil
		}
		p.norm = nil
		for _, o := range p.outcomes(t, &rctx{f: t}) {
			x.oblig(o.vec[2] == 0, "no-send-after-close", t, what, o.last.Pos(), "a path sends on the "+what+" after closing it", x.P.pathText(o.path))
		}
	}
	for _, t := range closers {
		check(t)
	}
	for _, g := range roots {
		check(g)
	}
	// other goroutines' sends come before the closing: it waits for them
	for _, s := range sortedFns(keysFn(threads)) {
		if isCloser[s] || !x.w.within(s, func(in ssa.Instruction) bool { return u.sends[in] }) {
			continue
		}
		groups := x.groupsDone(s, threads[s])
		heads := append([]*ssa.Function{}, closers...)
		for _, g := range roots {
			if x.w.within(g, func(in ssa.Instruction) bool { return u.closes[in] }) {
				heads = append(heads, g)
			}
		}
		for _, t := range heads {
			if t == s {
				continue
			}
			p := x.query([]string{"waited", "closes", "made"}, nil, nil)
			p.protocol()
			pcl := x.closing(u, 1, p)
			p.match = x.matcher(func(site ssa.CallInstruction) []int {
				ds := pcl(site)
				if v, n := libMethod(site, "sync.WaitGroup"); n == "Wait" && meets(x.w.from(v), groups) {
					ds = append(ds, 0)
				}
				return ds
			})
			p.norm = nil
			bad := false
			var at evOut
			for _, o := range p.outcomes(t, &rctx{f: t}) {
				if o.vec[1] == 1 || o.vec[2] == 1 {
					bad, at = true, o
				}
			}
			pos := t.Pos()
			if at.last != nil {
				pos = at.last.Pos()
			}
			x.oblig(!bad, "close-after-senders", t, what+" fed by "+fnName(s), pos, "the "+what+" is closed here without waiting for the goroutine "+fnName(s)+" that sends on it", x.P.pathText(at.path))
		}
	}
}

// leavesEarly: the loop can be left (and the function returned from) otherwise than by finding the channel closed.
func leavesEarly(l *loop, recv ssa.Instruction) bool {
	for b := range l.body {
		if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if e, ok := t.Cond.(*ssa.Extract); ok && e.Tuple == recv.(ssa.Value) {
				continue
			}
		}
		for _, s := range b.Succs {
			if !l.body[s] && returnsFrom(s, map[*ssa.BasicBlock]bool{}) {
				return true
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
	}
	return false
}

func returnsFrom(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return false
	}
	seen[b] = true
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		return true
	}
	for _, s := range b.Succs {
		if returnsFrom(s, seen) {
			return true
		}
	}
	return false
}

func sortedIns(m map[ssa.Instruction]bool) []ssa.Instruction {
	var out []ssa.Instruction
	for in := range m {
		out = append(out, in)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func meets(a, b map[ssa.Value]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

func keysFn(m map[*ssa.Function][]ssa.CallInstruction) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

func times(n int8) string {
	switch n {
	case 0:
		return "not at all"
	case 1:
		return "once"
	}
	return "more than once"
}

func (x *c19) matcher(call func(site ssa.CallInstruction) []int) func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
	return func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		ds := call(site)
		_, isGo := site.(*ssa.Go)
		return ds, isGo || len(ds) > 0
	}
}

// groupsDone: the wait groups a goroutine tells that it is done.
func (x *c19) groupsDone(t *ssa.Function, sites []ssa.CallInstruction) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for g := range x.w.tree(t) {
		hasInstr(g, func(in ssa.Instruction) bool {
			if c, ok := in.(ssa.CallInstruction); ok {
				if v, n := libMethod(c, "sync.WaitGroup"); n == "Done" {
					for o := range x.w.from(v) {
						out[o] = true
					}
				}
			}
			return false
		})
	}
	for _, s := range sites {
		if _, wg := x.w.spawned(s); wg != nil {
			for o := range x.w.from(wg) {
				out[o] = true
			}
		}
	}
	return out
}

// ---- wait groups ----

func (x *c19) checkGroups() {
	threads := x.threads()
	all := map[ssa.Value]bool{}
	where := map[ssa.Value]*ssa.Function{}
	uses := map[string]map[ssa.Instruction]map[ssa.Value]bool{"Add": {}, "Done": {}, "Wait": {}, "Go": {}}
	for _, f := range x.w.funcs {
		hasInstr(f, func(in ssa.Instruction) bool {
			if c, ok := in.(ssa.CallInstruction); ok {
				if v, n := libMethod(c, "sync.WaitGroup"); uses[n] != nil {
					from := x.w.from(v)
					x.oblig(len(from) > 0, "wait-group", f, "sync.WaitGroup."+n, in.Pos(), "the wait group used here cannot be traced to where it is made", nil)
					uses[n][in] = from
					for o := range from {
						all[o] = true
						if i, ok := o.(ssa.Instruction); ok {
							where[o] = i.Parent()
						}
					}
				}
			}
			return false
		})
	}
	var ws []ssa.Value
	for o := range all {
		ws = append(ws, o)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].Pos() < ws[j].Pos() })
	x.r.count("wait groups", len(ws))
	for _, wg := range ws {
		is := func(n string, in ssa.Instruction) bool { return uses[n][in][wg] }
		workers := map[*ssa.Function]bool{}
		viaGo := map[*ssa.Function]bool{}
		for t, sites := range threads {
			if x.w.within(t, func(in ssa.Instruction) bool { return is("Done", in) }) {
				workers[t] = true
			}
			for _, s := range sites {
				if is("Go", s) {
					workers[t], viaGo[t] = true, true
				}
			}
		}
		x.oblig(len(workers) > 0, "done", where[wg], "wait group", wg.Pos(), "no goroutine ever signals this wait group", nil)
		for _, t := range sortedFns(workers) {
			x.r.count("workers of wait groups", 1)
			want := int8(1)
			if viaGo[t] {
				want = 0
			}
			q := x.query([]string{"done"}, nil, nil)
			q.match = x.matcher(func(site ssa.CallInstruction) []int {
				if is("Done", site) {
					return []int{0}
				}
				return nil
			})
			for _, o := range q.outcomes(t, &rctx{f: t}) {
				x.oblig(o.vec[0] == want, "done-once", t, "wait group", o.last.Pos(), fmt.Sprintf("a path of this worker signals its wait group %s instead of exactly once", times(o.vec[0]+1-want)), x.P.pathText(o.path))
			}
			// nothing is left to do after the signal
			p := x.query([]string{"", "works", "done"}, nil, nil)
			p.protocol()
			p.match = x.matcher(func(site ssa.CallInstruction) []int {
				if is("Done", site) {
					return []int{2}
				}
				return nil
			})
			p.instr = func(in ssa.Instruction, ctx *rctx) []int {
				if lasting(in) {
					return []int{1}
				}
				return nil
			}
			p.norm = nil
			for _, o := range p.outcomes(t, &rctx{f: t}) {
				x.oblig(o.vec[2] == 0, "done-last", t, "wait group", o.last.Pos(), "a path of this worker goes on storing or sending after signalling that it is done", x.P.pathText(o.path))
			}
		}
		begins := func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok || is("Go", in) {
				return false
			}
			fs, _ := x.w.spawned(c)
			for _, g := range fs {
				if workers[g] {
					return true
				}
			}
			return false
		}
		// announced before started, one for one
		for _, f := range x.w.funcs {
			starts := hasInstr(f, begins)
			adds := hasInstr(f, func(in ssa.Instruction) bool { return is("Add", in) })
			if !starts && !adds {
				continue
			}
			x.announced(f, wg, begins, func(in ssa.Instruction) bool { return is("Add", in) })
		}
		// joined: whoever made the group waits, or starts a goroutine that does
		f := where[wg]
		if f == nil {
			continue
		}
		waiter := map[*ssa.Function]bool{}
		for t := range threads {
			if x.w.within(t, func(in ssa.Instruction) bool { return is("Wait", in) }) {
				q := x.query([]string{"wait"}, nil, nil)
				q.match = x.matcher(func(site ssa.CallInstruction) []int {
					if is("Wait", site) {
						return []int{0}
					}
					return nil
				})
				good := true
				for _, o := range q.outcomes(t, &rctx{f: t}) {
					good = good && o.vec[0] > 0
				}
				waiter[t] = good
			}
		}
		var around *loop
		if in, ok := wg.(ssa.Instruction); ok {
			around = innermostLoop(in.Block(), nil)
		}
		q := x.query([]string{"started", "waited", "started after waiting"}, nil, nil)
		isStart := func(site ssa.CallInstruction) bool { return begins(site) || is("Go", site) }
		waits := func(site ssa.CallInstruction) bool {
			if is("Wait", site) {
				return true
			}
			fs, _ := x.w.spawned(site)
			for _, g := range fs {
				if waiter[g] {
					return true
				}
			}
			return false
		}
		q.match = x.matcher(func(site ssa.CallInstruction) []int {
			var ds []int
			if isStart(site) {
				ds = append(ds, 0)
			}
			if waits(site) {
				ds = append(ds, 1)
			}
			return ds
		})
		q.norm = at1
		var outs []evOut
		if around != nil {
			back, out := q.rounds(around, &rctx{f: f})
			outs = append(back, out...)
		} else {
			outs = q.outcomes(f, &rctx{f: f})
		}
		for _, o := range outs {
			pos := f.Pos()
			if o.last != nil {
				pos = o.last.Pos()
			}
			x.oblig(o.vec[0] == 0 || o.vec[1] > 0, "joined", f, "wait group", pos, "a path leaves without the workers it started being waited for", x.P.pathText(o.path))
		}
		p := x.query([]string{"", "starts", "waits"}, nil, nil)
		p.protocol()
		p.match = x.matcher(func(site ssa.CallInstruction) []int {
			if isStart(site) || is("Add", site) {
				return []int{1}
			}
			if waits(site) {
				return []int{2}
			}
			return nil
		})
		p.instr = func(in ssa.Instruction, ctx *rctx) []int {
			if v, ok := in.(ssa.Value); ok && v == wg {
				return []int{0}
			}
			return nil
		}
		p.norm = nil
		for _, o := range p.outcomes(f, &rctx{f: f}) {
			x.oblig(o.vec[2] == 0, "wait-after-start", f, "wait group", o.last.Pos(), "a path starts (or announces) a worker after waiting for the workers", x.P.pathText(o.path))
		}
	}
}

// lasting: an instruction whose effect others can see.
func lasting(in ssa.Instruction) bool {
	switch t := in.(type) {
	case *ssa.Send, *ssa.MapUpdate:
		return true
	case *ssa.Store:
		a := t.Addr
		for {
			switch y := a.(type) {
			case *ssa.FieldAddr:
				a = y.X
				continue
			case *ssa.IndexAddr:
				a = y.X
				continue
			}
			break
		}
		al, ok := a.(*ssa.Alloc)
		return !ok || al.Heap && escapes(al)
	}
	return closeOf(in) != nil
}

// escapes: a captured or stored variable (not one only used here).
func escapes(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		switch t := u.(type) {
		case *ssa.MakeClosure, *ssa.Return, *ssa.Send:
			return true
		case *ssa.Store:
			if t.Val == ssa.Value(al) {
				return true
			}
		}
	}
	return false
}

// announced: in f, every start of a worker has its own Add before it, and every Add its worker.
func (x *c19) announced(f *ssa.Function, wg ssa.Value, starts, adds func(in ssa.Instruction) bool) {
	amount := func(in ssa.Instruction) ssa.Value {
		return in.(ssa.CallInstruction).Common().Args[1]
	}
	// all at once: Add(n) before a loop of n starts
	var addIns, startIns []ssa.Instruction
	hasInstr(f, func(in ssa.Instruction) bool {
		if adds(in) {
			addIns = append(addIns, in)
		}
		if starts(in) {
			startIns = append(startIns, in)
		}
		return false
	})
	x.r.count("wait groups: places that start workers", len(startIns))
	bulk := false
	if len(addIns) == 1 && len(startIns) == 1 {
		la, ls := innermostLoop(addIns[0].Block(), nil), innermostLoop(startIns[0].Block(), nil)
		if ls != nil && la != ls && addIns[0].Block().Dominates(ls.header) {
			if ind := inductionOf(ls); ind != nil && ind.start == 0 && ind.step == 1 && ind.bound != nil && (ind.whole || ind.upto) && x.bound(ind.bound) == x.bound(amount(addIns[0])) {
				q := x.query([]string{"start"}, nil, nil)
				q.match = x.matcher(func(site ssa.CallInstruction) []int {
					if starts(site) {
						return []int{0}
					}
					return nil
				})
				back, out := q.rounds(ls, &rctx{f: f})
				bulk = len(out) == 0 && len(back) > 0
				for _, o := range back {
					bulk = bulk && o.vec[0] == 1
				}
			}
		}
	}
	if bulk {
		x.oblig(true, "announced", f, "wait group", f.Pos(), "", nil)
		return
	}
	q := x.query([]string{"added", "started"}, nil, nil)
	odd := false
	q.match = x.matcher(func(site ssa.CallInstruction) []int {
		if adds(site) {
			n, ok := constInt(amount(site))
			if !ok || n < 0 || n > 1 {
				odd = true
			}
			if n == 1 {
				return []int{0}
			}
		}
		if starts(site) {
			return []int{1}
		}
		return nil
	})
	var l *loop
	if len(startIns) > 0 {
		l = innermostLoop(startIns[0].Block(), nil)
	} else {
		l = innermostLoop(addIns[0].Block(), nil)
	}
	var outs []evOut
	if l != nil {
		back, out := q.rounds(l, &rctx{f: f})
		outs = append(back, out...)
		for _, in := range append(append([]ssa.Instruction{}, addIns...), startIns...) {
			if !l.body[in.Block()] {
				odd = true
			}
		}
	} else {
		outs = q.outcomes(f, &rctx{f: f})
	}
	for _, o := range outs {
		x.oblig(o.vec[0] == o.vec[1], "announced", f, "wait group", f.Pos(), "a path adds to the wait group "+times(o.vec[0])+" and starts a worker "+times(o.vec[1]), x.P.pathText(o.path))
	}
	x.oblig(!odd, "announced", f, "wait group", f.Pos(), "the number added to the wait group is not the number of workers started", nil)
	p := x.query([]string{"added", "starts", "used"}, nil, nil)
	p.protocol()
	p.match = x.matcher(func(site ssa.CallInstruction) []int {
		if adds(site) {
			return []int{0}
		}
		if starts(site) {
			return []int{1, 2}
		}
		return nil
	})
	p.norm = nil
	for _, o := range p.outcomes(f, &rctx{f: f}) {
		x.oblig(o.vec[1] == 0 && o.vec[2] == 0, "announced-first", f, "wait group", o.last.Pos(), "a worker is started before it is added to its wait group", x.P.pathText(o.path))
	}
}

// ---- a channel that carries one completion ----

func (x *c19) checkCompletion(u *chanUse) {
	threads := x.threads()
	f := u.mk.Parent()
	what := "completion channel"
	for _, t := range sortedFns(keysFn(threads)) {
		if !x.w.within(t, func(in ssa.Instruction) bool { return u.sends[in] }) {
			continue
		}
		x.r.count("goroutines that report on a channel", 1)
		q := x.query([]string{"sent"}, nil, nil)
		q.match = x.matcher(func(site ssa.CallInstruction) []int { return nil })
		q.instr = func(in ssa.Instruction, ctx *rctx) []int {
			if u.sends[in] {
				return []int{0}
			}
			return nil
		}
		for _, o := range q.outcomes(t, &rctx{f: t}) {
			x.oblig(o.vec[0] == 1, "reports-once", t, what, o.last.Pos(), "a path of this goroutine reports its end "+times(o.vec[0])+" instead of exactly once", x.P.pathText(o.path))
		}
		p := x.query([]string{"", "works", "sent"}, nil, nil)
		p.protocol()
		p.match = x.matcher(func(site ssa.CallInstruction) []int { return nil })
		p.instr = func(in ssa.Instruction, ctx *rctx) []int {
			if u.sends[in] {
				return []int{2}
			}
			if lasting(in) {
				return []int{1}
			}
			return nil
		}
		p.norm = nil
		for _, o := range p.outcomes(t, &rctx{f: t}) {
			x.oblig(o.vec[2] == 0, "reports-last", t, what, o.last.Pos(), "a path of this goroutine goes on working after reporting its end", x.P.pathText(o.path))
		}
		// received by who started it
		begins := func(site ssa.CallInstruction) bool {
			fs, _ := x.w.spawned(site)
			for _, g := range fs {
				if g == t {
					return true
				}
			}
			return false
		}
		if !x.w.within(f, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && begins(c)
		}) {
			continue
		}
		room, _ := constInt(u.mk.Size)
		q = x.query([]string{"started", "received"}, nil, nil)
		q.match = x.matcher(func(site ssa.CallInstruction) []int {
			if begins(site) {
				return []int{0}
			}
			return nil
		})
		q.instr = func(in ssa.Instruction, ctx *rctx) []int {
			if u.recvs[in] {
				return []int{1}
			}
			return nil
		}
		for _, o := range q.outcomes(f, &rctx{f: f}) {
			switch {
			case o.vec[0] > 1:
				x.oblig(false, "received-once", f, what, o.last.Pos(), "a path starts the reporting goroutine more than once", x.P.pathText(o.path))
			case o.vec[1] > o.vec[0]:
				x.oblig(false, "received-once", f, what, o.last.Pos(), "a path waits for more reports than there are", x.P.pathText(o.path))
			case o.vec[0] == 1 && o.vec[1] == 0 && o.err != vNonNil:
				x.oblig(false, "received-once", f, what, o.last.Pos(), "a path ends without failure before the goroutine it started has reported its end", x.P.pathText(o.path))
			case o.vec[0] == 1 && o.vec[1] == 0 && room < 1:
				x.oblig(false, "room-for-report", f, what, o.last.Pos(), "a failing path never receives the report, and the channel has no room for it: the goroutine waits for ever", x.P.pathText(o.path))
			default:
				x.oblig(true, "received-once", f, what, o.last.Pos(), "", nil)
			}
		}
	}
}

func init() {
	checks["C19"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"closed: each channel that something receives from until it is closed is closed (or the goroutine closing it is started) exactly once wherever a consumer was started; a goroutine that closes it does so exactly once on every path; a consumer in the same goroutine comes after the start of what closes it",
			"producer-closes: a function that closes a channel it was given does so exactly once on every path",
			"drained: a loop that receives until the channel is closed is left by no other way",
			"no-send-after-close, close-after-senders: no path sends after closing; a goroutine closing a channel other goroutines send on first waits for the wait group those signal",
			"done-once, done-last: every path of a worker signals its wait group exactly once, and nothing visible to others comes after",
			"announced, announced-first: each start of a worker has its own Add before it, and each Add its worker",
			"joined, wait-after-start: every path that started workers waits for them (or starts a goroutine that does), after the last one was started",
			"reports-once, reports-last, received-once, room-for-report: a goroutine that reports its end on a channel does so exactly once on every path, as its last action; who started it receives exactly one report on every successful path",
			"results-after-workers: a variable a worker writes is not touched by the function that started it before the worker has been waited for",
			"throttle: whenever the sequencer waits for its next object it is marked as bloated exactly when it holds at least the bloating count, and every return to the normal state wakes the waiters",
		}
		r.Assume = []string{"a panic ends the whole process", "goroutines and channels are reached through variables, captured variables, parameters, struct fields and slice elements only"}
		x := &c19{P: P, r: r, w: newFlow(P), a: newEF(P), seen: map[string]bool{}}
		us := x.channels()
		r.count("channels made", len(us))
		for _, u := range us {
			if len(u.closes) > 0 || len(u.ranges) > 0 {
				r.count("channels received from until closed", 1)
				x.checkClosed(u)
			} else {
				x.checkCompletion(u)
			}
		}
		r.floor("channels received from until closed", 15)
		r.floor("pipelines: creation and closing of a channel", 15)
		r.floor("loops receiving until closed", 15)
		x.producers()
		r.floor("functions that close a channel they are given", 1)
		x.checkGroups()
		r.floor("wait groups", 4)
		r.floor("workers of wait groups", 4)
		x.results()
		x.valves()
		r.floor("sequencer states in which the valve is tried", 300)
		r.floor("goroutines that report on a channel", 2)
		return r
	}
}
