package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event counting on paths: which of a set of calls (identified by the struct field they are made on and the method,
// or by a matcher) happen how often on every path, following calls to helpers, closures, goroutines and deferred
// functions, with the error tracking of the error-flow engine deciding which paths are successful and feasible.

type evQuery struct {
	P    *Prog
	a    *efAnalysis
	dims []string // names of the counted events
	// match gives the dimensions an instruction's call counts for; handled=true: do not look inside the callee.
	match func(site ssa.CallInstruction, ctx *rctx) (dims []int, handled bool)
	// instr gives the dimensions of a non-call instruction (a store, a send, ...)
	instr func(in ssa.Instruction, ctx *rctx) []int
	norm  func(v []int8) // normalises a count vector in place
	// compose, when set, replaces addition: the effect of a followed by b
	compose func(a, b []int8) []int8
	atoms   [][]int8 // with compose: the vector of each event
	width   int      // with compose: length of the vectors
	// force: loops over collections and counted loops are entered at least once
	force bool
	// cond gives the dimensions a branch taken satisfies (e.g. a nil check on a constituent)
	cond func(cond ssa.Value, taken bool, ctx *rctx) []int
	// restricts which in-module callees are entered; nil: all with static target
	enter func(g *ssa.Function) bool

	withSym bool // contexts carry symbolic arguments
	// split: a call whose success and failure count differently
	split func(site ssa.CallInstruction, ctx *rctx) (ok, failed []int, is bool)

	memo   map[string][]evOut
	wip    map[string]bool
	noEv   map[*ssa.Function]int
	States int
	Over   bool
}

type evOut struct {
	err  absv // vNil: success, vNonNil: failed, vUnknown: either
	vec  []int8
	path []*ssa.BasicBlock
	last ssa.Instruction
	bval absv // value of a boolean result
}

type evState struct {
	ef     efState
	vec    []int8
	fail   bool
	prev   *ssa.BasicBlock
	defers []*ssa.Defer
	flds   map[string]absv // known boolean fields
	tbl    map[*ssa.BasicBlock]bool
	left   bool // has left the loop under study other than by its end test
}

func (s *evState) clone() *evState {
	n := &evState{ef: efState{blk: s.ef.blk, env: cloneEnv(s.ef.env), mem: cloneEnv(s.ef.mem), path: s.ef.path}, fail: s.fail, prev: s.prev}
	n.vec = append([]int8{}, s.vec...)
	n.defers = append([]*ssa.Defer{}, s.defers...)
	n.flds = map[string]absv{}
	for k, v := range s.flds {
		n.flds[k] = v
	}
	n.tbl = map[*ssa.BasicBlock]bool{}
	for k, v := range s.tbl {
		n.tbl[k] = v
	}
	n.left = s.left
	return n
}

func newEvQuery(P *Prog, a *efAnalysis, dims []string) *evQuery {
	return &evQuery{P: P, a: a, dims: dims, memo: map[string][]evOut{}, wip: map[string]bool{}, noEv: map[*ssa.Function]int{}}
}

func (q *evQuery) vlen() int {
	if q.compose != nil {
		return q.width
	}
	return len(q.dims)
}

// Protocol queries: event 0 (A) enables, event 1 (B) needs A to have happened since the last event 2 (reset).
// Vectors are [state after: 0 untouched, 1 enabled, 2 reset | needed on entry | violated].
func (q *evQuery) protocol() {
	q.width = 3
	q.atoms = [][]int8{{1, 0, 0}, {0, 1, 0}, {2, 0, 0}}
	q.compose = func(a, b []int8) []int8 {
		v := []int8{a[0], a[1], a[2] | b[2]}
		if b[1] == 1 {
			switch a[0] {
			case 0:
				v[1] = 1
			case 2:
				v[2] = 1
			}
		}
		if b[0] != 0 {
			v[0] = b[0]
		}
		return v
	}
}

// outcomes of f: the distinct (error class, count vector) with which it can end.
func (q *evQuery) outcomes(f *ssa.Function, ctx *rctx) []evOut {
	key := fmt.Sprintf("%p|%s", f, ctx.id())
	if o, ok := q.memo[key]; ok {
		return o
	}
	zero := []evOut{{err: vUnknown, vec: make([]int8, q.vlen())}}
	if q.wip[key] || f.Blocks == nil {
		return zero
	}
	q.wip[key] = true
	r := &evRun{q: q, f: f, e: q.a.fn(f), ctx: ctx, outs: map[string]evOut{}, seen: map[string]bool{}}
	r.pre = &efRun{a: q.a, e: r.e}
	r.go1()
	var out []evOut
	var ks []string
	for k := range r.outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, r.outs[k])
	}
	delete(q.wip, key)
	q.memo[key] = out
	return out
}

type evRun struct {
	q    *evQuery
	f    *ssa.Function
	e    *efFunc
	pre  *efRun
	ctx  *rctx
	outs map[string]evOut
	seen map[string]bool
	n    int
	work []*evState
	// when set, only one round of this loop is followed
	loop  *loop
	itest *ssa.If
	backs map[string]evOut // rounds that come back to the header
}

// tableLoopAt: the loop over a listed table whose end test this block is.
func (r *evRun) tableLoopAt(b *ssa.BasicBlock) *loop {
	for _, l := range loopsOf(r.f) {
		if !l.body[b] || r.loop == l {
			continue
		}
		if in := inductionOf(l); in != nil && in.test.Block() == b && r.q.P.literalTableLoop(l) {
			return l
		}
	}
	return nil
}

// rounds gives the outcomes of single rounds of a loop: back (came round again), and out (left the function or loop
// other than through the end test; err tells whether with a failure).
func (q *evQuery) rounds(l *loop, ctx *rctx) (back, out []evOut) {
	r := &evRun{q: q, f: l.f, e: q.a.fn(l.f), ctx: ctx, outs: map[string]evOut{}, seen: map[string]bool{}, loop: l, backs: map[string]evOut{}}
	r.pre = &efRun{a: q.a, e: r.e}
	if in := inductionOf(l); in != nil {
		r.itest = in.test
	}
	s := &evState{ef: efState{blk: l.header, env: map[ssa.Value]absv{}, mem: map[ssa.Value]absv{}}, vec: make([]int8, q.vlen()), flds: map[string]absv{}, tbl: map[*ssa.BasicBlock]bool{}}
	s.ef.path = []*ssa.BasicBlock{l.header}
	r.work = []*evState{s}
	r.drain()
	sorted := func(m map[string]evOut) []evOut {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var o []evOut
		for _, k := range ks {
			o = append(o, m[k])
		}
		return o
	}
	return sorted(r.backs), sorted(r.outs)
}

func (r *evRun) key(s *evState) string {
	var sb strings.Builder
	sb.WriteString(r.e.key(&s.ef))
	fmt.Fprintf(&sb, "|%v|%v|%v", s.vec, s.fail, s.left)
	for _, b := range r.f.Blocks {
		if s.tbl[b] {
			fmt.Fprintf(&sb, "t%d", b.Index)
		}
	}
	if s.prev != nil {
		fmt.Fprintf(&sb, "|%d", s.prev.Index)
	}
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "|d%p", d)
	}
	var ks []string
	for k, v := range s.flds {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	return sb.String()
}

func (r *evRun) go1() {
	s := &evState{ef: efState{blk: r.f.Blocks[0], env: map[ssa.Value]absv{}, mem: map[ssa.Value]absv{}}, vec: make([]int8, r.q.vlen()), flds: map[string]absv{}, tbl: map[*ssa.BasicBlock]bool{}}
	s.ef.path = []*ssa.BasicBlock{r.f.Blocks[0]}
	r.work = []*evState{s}
	r.drain()
}

func (r *evRun) drain() {
	for len(r.work) > 0 {
		s := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		k := r.key(s)
		if r.seen[k] {
			continue
		}
		r.seen[k] = true
		r.n++
		r.q.States++
		if r.n > 60000 {
			r.q.Over = true
			return
		}
		r.run(s, 0)
	}
}

func (r *evRun) add(s *evState, dims []int) {
	if r.q.compose != nil {
		for _, d := range dims {
			s.vec = r.q.compose(s.vec, r.q.atoms[d])
		}
		return
	}
	for _, d := range dims {
		if s.vec[d] < 100 {
			s.vec[d]++
		}
	}
	if r.q.norm != nil {
		r.q.norm(s.vec)
	}
}

func (r *evRun) addVec(s *evState, v []int8) {
	if r.q.compose != nil {
		s.vec = r.q.compose(s.vec, v)
		return
	}
	for i, x := range v {
		if s.vec[i] < 100 {
			s.vec[i] += x
		}
	}
	if r.q.norm != nil {
		r.q.norm(s.vec)
	}
}

func zeroVec(v []int8) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

// targets: the module functions a call enters, each with the context of its arguments.
func (r *evRun) targets(site ssa.CallInstruction) []*rctx {
	return r.q.P.targets(site, r.ctx, r.q.withSym, r.q.enter)
}

// callFork applies a call; it returns the states after it (nil: the path ends in the callee), or ok=false when the
// call changes nothing here.
func (r *evRun) callFork(s *evState, site ssa.CallInstruction, kind int) ([]*evState, bool) {
	if r.q.split != nil {
		if c, isCall := site.(*ssa.Call); isCall && kind == 0 {
			if good, bad, is := r.q.split(site, r.ctx); is {
				ei := errResultIdx(c.Call.Signature())
				var out []*evState
				for i, d := range [][]int{good, bad} {
					n := s.clone()
					r.add(n, d)
					setErr(&lkState{ef: n.ef}, c, ei, []absv{vNil, vNonNil}[i])
					out = append(out, n)
				}
				return out, true
			}
		}
	}
	dims, handled := r.q.match(site, r.ctx)
	if len(dims) > 0 || handled {
		n := s.clone()
		r.add(n, dims)
		return []*evState{n}, true
	}
	ts := r.targets(site)
	if len(ts) == 0 {
		return nil, false
	}
	tbl := false
	if len(ts) > 1 {
		tbl = true // a table of functions, run in a loop: each of them is called
	}
	cv, _ := site.(*ssa.Call)
	sig := site.Common().Signature()
	ei := errResultIdx(sig)
	type res struct {
		err  absv
		vec  []int8
		bval absv
	}
	acc := []res{{err: vNil, vec: make([]int8, r.q.vlen())}}
	any := false
	for i, t := range ts {
		outs := r.q.outcomes(t.f, t)
		if len(outs) == 0 { // never returns
			if !tbl {
				return nil, true
			}
			continue
		}
		for _, o := range outs {
			if !zeroVec(o.vec) {
				any = true
			}
		}
		var next []res
		for _, a := range acc {
			if tbl && a.err == vNonNil {
				next = append(next, a)
				continue
			}
			for _, o := range outs {
				if kind == 1 && o.err == vNonNil { // goroutine or deferred: only its successful ends matter
					continue
				}
				v := append([]int8{}, a.vec...)
				if r.q.compose != nil {
					v = r.q.compose(v, o.vec)
				} else {
					for j := range v {
						v[j] += o.vec[j]
					}
					if r.q.norm != nil {
						r.q.norm(v)
					}
				}
				e := o.err
				if i > 0 && a.err == vUnknown && e == vNil {
					e = vUnknown
				}
				next = append(next, res{e, v, o.bval})
			}
		}
		// merge duplicates
		m := map[string]bool{}
		acc = acc[:0:0]
		for _, x := range next {
			k := fmt.Sprint(x.err, x.vec, x.bval)
			if !m[k] {
				m[k] = true
				acc = append(acc, x)
			}
		}
	}
	bools := false
	for _, a := range acc {
		if a.bval != vUnknown {
			bools = true
		}
	}
	if !any && !bools {
		return nil, false
	}
	var out []*evState
	for _, a := range acc {
		n := s.clone()
		r.addVec(n, a.vec)
		if cv != nil && ei >= 0 && kind == 0 && a.err != vUnknown {
			setErr(&lkState{ef: n.ef}, cv, ei, a.err)
		}
		if cv != nil && a.bval != vUnknown && sig.Results().Len() == 1 && isBool(sig.Results().At(0).Type()) {
			n.ef.env[cv] = a.bval
		}
		out = append(out, n)
	}
	return out, true
}

func (r *evRun) run(s *evState, i int) {
	b := s.ef.blk
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if r.q.instr != nil {
			if ds := r.q.instr(in, r.ctx); len(ds) > 0 {
				r.add(s, ds)
			}
		}
		switch t := in.(type) {
		case *ssa.Return:
			r.end(s, t)
			return
		case *ssa.Defer:
			s.defers = append(s.defers, t)
			continue
		case *ssa.RunDefers:
			states := []*evState{s}
			for k := len(s.defers) - 1; k >= 0; k-- {
				var next []*evState
				for _, x := range states {
					if outs, ok := r.callFork(x, s.defers[k], 1); ok && len(outs) > 0 {
						next = append(next, outs...)
					} else {
						next = append(next, x)
					}
				}
				states = next
			}
			if len(states) == 1 {
				s = states[0]
				continue
			}
			for _, x := range states {
				x.defers = nil
				r.run(x, i+1)
			}
			return
		case *ssa.Go:
			if outs, ok := r.callFork(s, t, 1); ok && len(outs) > 0 {
				if len(outs) == 1 {
					s = outs[0]
					continue
				}
				for _, x := range outs {
					r.run(x, i+1)
				}
				return
			}
			continue
		case *ssa.Call:
			if r.pre.step(&s.ef, in) != stCont {
				return // never returns, or panics
			}
			if outs, ok := r.callFork(s, t, 0); ok {
				if len(outs) == 1 {
					s = outs[0]
					// results are read by the following extracts
					if x, has := s.ef.env[t]; has && t.Call.Signature().Results().Len() > 1 {
						delete(s.ef.env, t)
						r.afterCall(s, t, i, x)
						return
					}
					continue
				}
				for _, x := range outs {
					if e, has := x.ef.env[t]; has && t.Call.Signature().Results().Len() > 1 {
						delete(x.ef.env, t)
						r.afterCall(x, t, i, e)
					} else {
						r.run(x, i+1)
					}
				}
				return
			}
			continue
		case *ssa.UnOp:
			if t.Op == token.MUL && isBool(t.Type()) {
				if fa, ok := t.X.(*ssa.FieldAddr); ok {
					if x, has := s.flds[fieldKey(fa.X, fa.Field)]; has {
						s.ef.env[t] = x
						continue
					}
				}
			}
		case *ssa.Store:
			if fa, ok := t.Addr.(*ssa.FieldAddr); ok && isBool(t.Val.Type()) {
				delete(s.flds, fieldKey(fa.X, fa.Field))
			}
		}
		if r.pre.step(&s.ef, in) != stCont {
			return
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	switch t := last.(type) {
	case *ssa.If:
		v := eval(&s.ef, t.Cond)
		yes, no := v != vFalse, v != vTrue
		if yes && no {
			if l := r.tableLoopAt(b); l != nil {
				fresh := !s.tbl[l.header]
				ex := 1
				if !l.body[b.Succs[0]] {
					ex = 0
				}
				if (ex == 1) == fresh {
					no = false
				} else {
					yes = false
				}
				s = s.clone()
				if fresh {
					s.tbl[l.header] = true
				} else {
					delete(s.tbl, l.header)
				}
			}
		}
		if r.q.force && yes && no && r.forcedLoop(b, t, s.prev) {
			no = false
		}
		if yes {
			r.succ(s, b.Succs[0], t.Cond, true)
		}
		if no {
			r.succ(s, b.Succs[1], t.Cond, false)
		}
	case *ssa.Jump:
		r.succ(s, b.Succs[0], nil, false)
	}
}

// afterCall continues past a multi-result call whose error result is known on this branch.
func (r *evRun) afterCall(s *evState, t *ssa.Call, i int, x absv) {
	b := s.ef.blk
	ei := errResultIdx(t.Call.Signature())
	j := i + 1
	for ; j < len(b.Instrs); j++ {
		ex, ok := b.Instrs[j].(*ssa.Extract)
		if !ok || ex.Tuple != ssa.Value(t) {
			break
		}
		r.pre.step(&s.ef, ex)
		if ex.Index == ei {
			s.ef.env[ex] = x
		}
	}
	r.run(s, j)
}

func (r *evRun) succ(s *evState, to *ssa.BasicBlock, cond ssa.Value, taken bool) {
	if r.loop != nil && !s.left {
		if to == r.loop.header {
			if cond != nil && r.q.cond != nil {
				s = s.clone()
				r.add(s, r.q.cond(cond, taken, r.ctx))
			}
			k := fmt.Sprint(s.vec, s.fail)
			if old, ok := r.backs[k]; !ok || len(old.path) > len(s.ef.path) {
				e := vNil
				if s.fail {
					e = vUnknown
				}
				r.backs[k] = evOut{err: e, vec: s.vec, path: s.ef.path}
			}
			return
		}
		if !r.loop.body[to] {
			if r.itest != nil && s.ef.blk == r.itest.Block() {
				return // the normal end
			}
			s = s.clone()
			s.left = true
		}
	}
	for _, o := range r.pre.edge(nil, &s.ef, s.ef.blk, to, cond, taken) {
		n := s.clone()
		n.ef = o
		n.prev = s.ef.blk
		if !isLoopHeader(to) {
			n.prev = nil
		}
		if cond != nil && r.q.cond != nil {
			r.add(n, r.q.cond(cond, taken, r.ctx))
		}
		if cond != nil {
			c, tk := cond, taken
			for {
				u, ok := c.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				c, tk = u.X, !tk
			}
			if bo, ok := c.(*ssa.BinOp); ok && isErrorType(bo.X.Type()) {
				if k, ok := bo.Y.(*ssa.Const); ok && k.IsNil() && (bo.Op == token.NEQ) == tk {
					n.fail = true
				}
			}
			if u, ok := c.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if k := fieldKey(fa.X, fa.Field); k != "" && !storesField(r.f, fa) {
						if tk {
							n.flds[k] = vTrue
						} else {
							n.flds[k] = vFalse
						}
					}
				}
			}
		}
		r.work = append(r.work, n)
	}
}

func storesField(f *ssa.Function, fa *ssa.FieldAddr) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if o, ok := st.Addr.(*ssa.FieldAddr); ok && o.Field == fa.Field && types.Identical(o.X.Type(), fa.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// forcedLoop: a loop over a collection (range, or index below len) that has just been reached from outside.
func (r *evRun) forcedLoop(b *ssa.BasicBlock, t *ssa.If, prev *ssa.BasicBlock) bool {
	if !isLoopHeader(b) || prev == nil || b.Dominates(prev) {
		return false
	}
	switch c := t.Cond.(type) {
	case *ssa.Extract:
		_, ok := c.Tuple.(*ssa.Next)
		return ok
	case *ssa.BinOp:
		for _, o := range []ssa.Value{c.X, c.Y} {
			if cl, ok := o.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return true
				}
			}
			if cv, ok := o.(*ssa.Convert); ok {
				if cl, ok := cv.X.(*ssa.Call); ok {
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *evRun) end(s *evState, t *ssa.Return) {
	o := evOut{vec: s.vec, path: s.ef.path, last: t}
	ei := errResultIdx(r.f.Signature)
	if ei >= 0 {
		o.err = eval(&s.ef, t.Results[ei])
		if o.err != vNil && o.err != vNonNil {
			o.err = vUnknown
		}
	} else if s.fail {
		o.err = vNonNil
	} else {
		o.err = vNil
	}
	if len(t.Results) == 1 && isBool(t.Results[0].Type()) {
		switch x := eval(&s.ef, t.Results[0]); x {
		case vTrue, vFalse:
			o.bval = x
		}
	}
	k := fmt.Sprint(o.err, o.vec, o.bval)
	if old, ok := r.outs[k]; !ok || len(old.path) > len(o.path) {
		r.outs[k] = o
	}
}

// pathText turns block numbers into source positions.
func (P *Prog) pathText(bs []*ssa.BasicBlock) []string {
	var steps []string
	for _, b := range bs {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				steps = append(steps, P.Pos(in.Pos()))
				break
			}
		}
	}
	return steps
}
