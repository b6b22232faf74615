package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"balanced: on every path through every function a lock is taken only while it is not held, released only while it is held, and released when the function (or the function it hands the lock to) ends",
			"guarded: a field that is accessed under a lock of its structure, that is written after construction and that more than one goroutine uses, is accessed under that lock everywhere",
			"copied: no structure that contains a lock is copied",
			"wait: a wait on a condition is made with its lock held, in a loop that evaluates the condition again after the wait and leaves only by it",
			"wake: whatever changes a field a waited-for condition depends on wakes every waiter (Broadcast) unless the value stored keeps them waiting; a condition that depends on nothing in memory is announced on every path of the functions that announce it",
		}
		r.Assume = []string{"locks reached through different access paths are different locks", "package sync does what it documents"}
		x := &locks{P: P, r: r, w: newFlow(P), sum: map[*ssa.Function]*lockSum{}, alias: map[string]string{}, mutable: map[string]bool{}, culprit: map[*ssa.Function]apath{}, reported: map[string]bool{}}
		x.run()
		r.floor("lock operations", 12)
		r.floor("functions that use a lock", 7)
		r.floor("guarded fields", 4)
		r.floor("waits", 2)
		r.floor("wakes", 2)
		return r
	}
}

// apath is an access path: a value and the fields selected from it.
type apath struct {
	root ssa.Value
	path string
}

type span struct{ lo, hi int }

// lockState: how often each lock was taken since the function began, and how
// often the deferred calls will release it.
type lockState struct {
	held, later map[apath]span
}

func (s lockState) copy() lockState {
	n := lockState{map[apath]span{}, map[apath]span{}}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.later {
		n.later[k] = v
	}
	return n
}

func joinSpans(a, b map[apath]span) (map[apath]span, bool) {
	changed := false
	out := map[apath]span{}
	for k, v := range a {
		out[k] = v
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			b[k] = span{}
		}
	}
	for k, v := range b {
		o := out[k]
		n := span{max(-2, min(o.lo, v.lo)), min(2, max(o.hi, v.hi))}
		if n != o {
			changed = true
		}
		out[k] = n
	}
	return out, changed
}

type lockSum struct {
	busy     bool
	delta    map[apath]span
	acquires map[apath]bool
	at       map[ssa.Instruction]map[apath]span
}

type locks struct {
	P        *Prog
	r        *Result
	w        *flow
	sum      map[*ssa.Function]*lockSum
	alias    map[string]string
	mutable  map[string]bool         // fields written after construction
	culprit  map[*ssa.Function]apath // functions that keep a lock nobody releases
	quiet    bool
	reported map[string]bool
	must     map[*ssa.Function]map[apath]bool
	may      map[*ssa.Function]map[apath]bool
}

func (x *locks) report(rule string, f *ssa.Function, what string, pos token.Pos, msg string) {
	if x.quiet {
		return
	}
	k := rule + fnName(f) + what + msg
	if x.reported[k] {
		return
	}
	x.reported[k] = true
	x.r.oblig(false, Finding{Rule: rule, Func: fnName(rootFn(f)), Construct: what, Pos: x.P.Pos(pos), Msg: msg})
}

// of: the access path of a value.
func (x *locks) of(v ssa.Value) apath { return x.of1(v, 0) }

func (x *locks) of1(v ssa.Value, d int) apath {
	if d > 20 {
		return apath{v, ""}
	}
	switch t := v.(type) {
	case *ssa.FieldAddr:
		p := x.of1(t.X, d+1)
		return x.canon(apath{p.root, p.path + "." + selName(t.X, t.Field)}, t.X, t.Field)
	case *ssa.Field:
		p := x.of1(t.X, d+1)
		return x.canon(apath{p.root, p.path + "." + selName(t.X, t.Field)}, t.X, t.Field)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if al, ok := t.X.(*ssa.Alloc); ok {
				if vs := storedIn(al); len(vs) == 1 {
					return x.of1(vs[0], d+1)
				}
			}
			if fv, ok := t.X.(*ssa.FreeVar); ok {
				if al, ok := bindingOf(fv).(*ssa.Alloc); ok {
					if vs := storedIn(al); len(vs) == 1 {
						return x.of1(vs[0], d+1)
					}
					return apath{al, ""}
				}
			}
			return x.of1(t.X, d+1)
		}
	case *ssa.FreeVar:
		if b := bindingOf(t); b != nil {
			return x.of1(b, d+1)
		}
	case *ssa.MakeInterface:
		return x.of1(t.X, d+1)
	case *ssa.ChangeInterface:
		return x.of1(t.X, d+1)
	case *ssa.ChangeType:
		return x.of1(t.X, d+1)
	}
	return apath{v, ""}
}

func selName(x ssa.Value, i int) string {
	if st, ok := derefType(x.Type()).Underlying().(*types.Struct); ok {
		return st.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// canon: the lock of a condition may be a mutex of the same structure.
func (x *locks) canon(p apath, base ssa.Value, i int) apath {
	if selName(base, i) != "L" || typeKey(derefType(base.Type())) != "sync.Cond" {
		return p
	}
	if ld, ok := base.(*ssa.UnOp); ok {
		base = ld.X
	}
	if fa, ok := base.(*ssa.FieldAddr); ok {
		if to, ok := x.alias[fieldKey(fa.X, fa.Field)]; ok {
			q := x.of(fa.X)
			return apath{q.root, q.path + "." + to}
		}
	}
	return p
}

// lockOp: a lock operation: +1 takes it, -1 releases it.
func (x *locks) lockOp(c *ssa.CallCommon, site ssa.CallInstruction) (p apath, n int, ok bool) {
	var recv ssa.Value
	name := ""
	if c.IsInvoke() {
		if typeKey(c.Value.Type()) != "sync.Locker" {
			return
		}
		recv, name = c.Value, c.Method.Name()
	} else {
		for _, t := range []string{"sync.Mutex", "sync.RWMutex"} {
			if v, nm := libMethod(site, t); nm != "" {
				recv, name = v, nm
			}
		}
	}
	if recv == nil {
		return
	}
	p = x.of(recv)
	switch name {
	case "Lock":
		return p, 1, true
	case "Unlock":
		return p, -1, true
	case "RLock":
		return apath{p.root, p.path + " (reading)"}, 1, true
	case "RUnlock":
		return apath{p.root, p.path + " (reading)"}, -1, true
	}
	return
}

// effect of a call on the locks.
func (x *locks) effect(site ssa.CallInstruction) (delta map[apath]span, acquires map[apath]bool) {
	if p, n, ok := x.lockOp(site.Common(), site); ok {
		a := map[apath]bool{}
		if n > 0 {
			a[p] = true
		}
		return map[apath]span{p: {n, n}}, a
	}
	delta, acquires = map[apath]span{}, map[apath]bool{}
	first := true
	for _, g := range x.w.calls(site) {
		s := x.analyse(g)
		if s.busy {
			continue
		}
		d := map[apath]span{}
		for k, v := range s.delta {
			d[x.outward(k, g, site)] = v
		}
		for k := range s.acquires {
			acquires[x.outward(k, g, site)] = true
		}
		if first {
			delta, first = d, false
			continue
		}
		delta, _ = joinSpans(delta, d)
	}
	return delta, acquires
}

// outward: an access path of a function, seen from where it is called.
func (x *locks) outward(k apath, g *ssa.Function, site ssa.CallInstruction) apath {
	for i, p := range g.Params {
		if k.root == p && i < len(site.Common().Args) {
			q := x.of(site.Common().Args[i])
			return apath{q.root, q.path + k.path}
		}
	}
	return k
}

func (x *locks) analyse(f *ssa.Function) *lockSum {
	if s, ok := x.sum[f]; ok {
		return s
	}
	s := &lockSum{busy: true, acquires: map[apath]bool{}, at: map[ssa.Instruction]map[apath]span{}}
	x.sum[f] = s
	in := map[*ssa.BasicBlock]lockState{}
	if len(f.Blocks) == 0 {
		s.busy = false
		return s
	}
	in[f.Blocks[0]] = lockState{map[apath]span{}, map[apath]span{}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var ends []map[apath]span
	step := func(b *ssa.BasicBlock, final bool) lockState {
		st := in[b].copy()
		for _, i := range b.Instrs {
			if final {
				c := map[apath]span{}
				for k, v := range st.held {
					c[k] = v
				}
				s.at[i] = c
			}
			switch t := i.(type) {
			case *ssa.Go:
			case *ssa.Defer:
				d, _ := x.effect(t)
				for k, v := range d {
					o := st.later[k]
					st.later[k] = span{o.lo + v.lo, o.hi + v.hi}
				}
			case *ssa.RunDefers:
				for k, v := range st.later {
					o := st.held[k]
					st.held[k] = span{o.lo + v.lo, o.hi + v.hi}
				}
				st.later = map[apath]span{}
			case *ssa.Call:
				d, acq := x.effect(t)
				if final {
					for k := range acq {
						s.acquires[k] = true
						if st.held[k].hi >= 1 && !strings.HasSuffix(k.path, "(reading)") {
							x.report("balanced", f, lockName(k), t.Pos(), "takes the lock "+lockName(k)+" while it is held: the goroutine waits for itself")
						}
					}
				}
				for k, v := range d {
					o := st.held[k]
					n := span{o.lo + v.lo, o.hi + v.hi}
					if final && v.hi < 0 && n.lo < 0 && (n.lo < -1 || o.hi >= 1 || s.acquires[k]) {
						x.report("balanced", f, lockName(k), t.Pos(), "releases the lock "+lockName(k)+" although it may not be held")
					}
					st.held[k] = n
				}
			case *ssa.Return:
				if final {
					ends = append(ends, st.held)
				}
			}
		}
		return st
	}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		b := work[0]
		work = work[1:]
		out := step(b, false)
		for _, t := range b.Succs {
			o, seen := in[t]
			if !seen {
				in[t] = out.copy()
				work = append(work, t)
				continue
			}
			h, c1 := joinSpans(o.held, out.copy().held)
			l, c2 := joinSpans(o.later, out.copy().later)
			if c1 || c2 {
				in[t] = lockState{h, l}
				work = append(work, t)
			}
		}
	}
	for _, b := range f.Blocks {
		if _, ok := in[b]; ok {
			step(b, true)
		}
	}
	s.delta = map[apath]span{}
	for i, e := range ends {
		if i == 0 {
			for k, v := range e {
				s.delta[k] = v
			}
			continue
		}
		s.delta, _ = joinSpans(s.delta, e)
	}
	for k, v := range s.delta {
		if v == (span{}) {
			delete(s.delta, k)
		}
	}
	if _, ok := x.culprit[f]; ok {
		s.delta = map[apath]span{}
	}
	s.busy = false
	return s
}

// unpaired: functions that keep a lock (or release one) of their parameter,
// with no other function that does the opposite.
func (x *locks) unpaired() bool {
	found := false
	for _, f := range x.w.funcs {
		if uninstantiated(f) || len(x.culprit) > 0 && x.culprit[f].path != "" {
			continue
		}
		for k, v := range x.sum[f].delta {
			pr, ok := k.root.(*ssa.Parameter)
			if !ok || v.lo != v.hi || pr.Parent() != f {
				continue
			}
			inherited := false // it comes from a function called
			for g := range x.w.tree(f) {
				if g == f {
					continue
				}
				for q, u := range x.sum[g].delta {
					if u == v && strings.HasSuffix(k.path, q.path) {
						inherited = true
					}
				}
			}
			paired := false
			for _, g := range x.w.funcs {
				if g == f || uninstantiated(g) {
					continue
				}
				for q, u := range x.sum[g].delta {
					if qp, ok := q.root.(*ssa.Parameter); ok && u.lo == u.hi && u.lo == -v.lo && q.path == k.path && types.Identical(qp.Type(), pr.Type()) {
						paired = true
					}
				}
			}
			if !inherited && !paired {
				x.culprit[f] = k
				found = true
			}
		}
	}
	return found
}

func (x *locks) mutableFields() {
	for _, f := range x.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if al, ok := x.of(fa.X).root.(*ssa.Alloc); ok && al.Parent() == f {
					continue
				}
				if writes(fa, 0) {
					x.mutable[fieldKey(fa.X, fa.Field)] = true
				}
			}
		}
	}
}

func lockName(k apath) string {
	t := ""
	if k.root != nil {
		t = typeKey(derefType(k.root.Type()))
	}
	n := strings.TrimPrefix(t+k.path, ".")
	if n == "" {
		return "of " + k.root.Name()
	}
	return n
}

func (x *locks) run() {
	x.aliases()
	x.mutableFields()
	x.quiet = true
	for round := 0; round < 5; round++ {
		x.sum = map[*ssa.Function]*lockSum{}
		for _, f := range x.w.funcs {
			if !uninstantiated(f) {
				x.analyse(f)
			}
		}
		if !x.unpaired() {
			break
		}
	}
	x.quiet = false
	x.sum = map[*ssa.Function]*lockSum{}
	for _, f := range x.w.funcs {
		if !uninstantiated(f) {
			x.analyse(f)
		}
	}
	for f, k := range x.culprit {
		x.report("balanced", f, lockName(k), f.Pos(), "ends with the lock "+lockName(k)+" held (or released without being taken), and no function does the other half")
	}
	x.balanced()
	x.context()
	x.guarded()
	x.copies()
	x.conditions()
}

// generic functions are analysed by their instances.
func uninstantiated(f *ssa.Function) bool {
	r := rootFn(f)
	return r.TypeParams().Len() > 0 && len(r.TypeArgs()) == 0
}

func (x *locks) aliases() {
	for _, f := range x.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				c, isCall := st.Val.(*ssa.Call)
				if !ok || !isCall || libFunc(c) != "sync.NewCond" {
					continue
				}
				m, base := x.of(c.Call.Args[0]), x.of(fa.X)
				if m.root == base.root && strings.HasPrefix(m.path, base.path+".") {
					x.alias[fieldKey(fa.X, fa.Field)] = strings.TrimPrefix(m.path, base.path+".")
				}
			}
		}
	}
}

// balanced: what every function leaves behind.
func (x *locks) balanced() {
	ops := 0
	for _, f := range x.w.funcs {
		if uninstantiated(f) {
			continue
		}
		s := x.sum[f]
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, _, ok := x.lockOp(c.Common(), c); ok {
						n++
					}
				}
			}
		}
		ops += n
		if n > 0 {
			x.r.count("functions that use a lock", 1)
			x.r.oblig(true, Finding{})
		}
		for k, v := range s.delta {
			if v.lo != v.hi {
				x.report("balanced", f, lockName(k), f.Pos(), "the lock "+lockName(k)+" is held at the end of some paths but not of others")
				continue
			}
			handed := false
			if _, ok := k.root.(*ssa.Parameter); ok || k.root.Parent() != f {
				sites := x.w.callers[f]
				for _, c := range sites {
					if _, isGo := c.(*ssa.Go); !isGo {
						handed = true
					}
				}
				if len(sites) == 0 && x.complement(f, k, v) {
					handed = true
				}
			}
			if !handed {
				what := "ends with the lock " + lockName(k) + " held"
				if v.lo < 0 {
					what = "releases the lock " + lockName(k) + " although it did not take it"
				}
				x.report("balanced", f, lockName(k), f.Pos(), what)
			}
		}
	}
	x.r.count("lock operations", ops)
}

// complement: another method does the other half.
func (x *locks) complement(f *ssa.Function, k apath, v span) bool {
	if f.Signature.Recv() == nil || k.root != f.Params[0] {
		return false
	}
	for _, g := range x.w.funcs {
		if g == f || g.Signature.Recv() == nil || !types.Identical(g.Signature.Recv().Type(), f.Signature.Recv().Type()) {
			continue
		}
		if o, ok := x.sum[g].delta[apath{g.Params[0], k.path}]; ok && o.lo == o.hi && o.lo == -v.lo {
			return true
		}
	}
	return false
}

// context: the locks held wherever a function is called.
func (x *locks) context() {
	x.must, x.may = map[*ssa.Function]map[apath]bool{}, map[*ssa.Function]map[apath]bool{}
	closed := func(f *ssa.Function) bool { // every call is known
		if len(x.w.callers[f]) == 0 {
			return false
		}
		for _, c := range x.w.callers[f] {
			switch c.(type) {
			case *ssa.Go, *ssa.Defer:
				return false
			}
		}
		return true
	}
	inward := func(k apath, g *ssa.Function, site ssa.CallInstruction) (apath, bool) {
		for i, a := range site.Common().Args {
			if i >= len(g.Params) {
				break
			}
			q := x.of(a)
			if q.root == k.root && strings.HasPrefix(k.path, q.path) && (len(k.path) == len(q.path) || k.path[len(q.path)] == '.') {
				return apath{g.Params[i], k.path[len(q.path):]}, true
			}
		}
		return k, g.Parent() != nil
	}
	for round := 0; round < 10; round++ {
		changed := false
		for _, f := range x.w.funcs {
			if uninstantiated(f) {
				continue
			}
			may, must := map[apath]bool{}, map[apath]bool{}
			first := true
			for _, c := range x.w.callers[f] {
				if _, isGo := c.(*ssa.Go); isGo || uninstantiated(c.Parent()) {
					continue
				}
				here := map[apath]bool{}
				for k := range x.heldAt(c, true) {
					if q, ok := inward(k, f, c); ok {
						here[q] = true
					}
				}
				for k := range x.heldAt(c, false) {
					if q, ok := inward(k, f, c); ok {
						may[q] = true
					}
				}
				if first {
					must, first = here, false
				} else {
					for k := range must {
						if !here[k] {
							delete(must, k)
						}
					}
				}
			}
			if !closed(f) {
				must = map[apath]bool{}
			}
			if len(must) != len(x.must[f]) || len(may) != len(x.may[f]) {
				changed = true
			}
			x.must[f], x.may[f] = must, may
		}
		if !changed {
			break
		}
	}
}

// heldAt: the locks held at an instruction, on every path (must) or on some.
func (x *locks) heldAt(in ssa.Instruction, must bool) map[apath]bool {
	f := in.Parent()
	out := map[apath]bool{}
	entry := x.may[f]
	if must {
		entry = x.must[f]
	}
	s := x.sum[f]
	if s == nil {
		return out
	}
	at := s.at[in]
	for k := range entry {
		if v := at[k]; must && v.lo >= 0 || !must && v.hi >= 0 {
			out[k] = true
		}
	}
	for k, v := range at {
		if must && v.lo >= 1 || !must && v.hi >= 1 {
			out[k] = true
		}
	}
	return out
}

// lockFields: the locks of a structure, as paths from it.
func (x *locks) lockFields(n types.Type) (out []string) {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch typeKey(derefType(f.Type())) {
		case "sync.Mutex", "sync.RWMutex", "sync.Locker":
			out = append(out, "."+f.Name())
		case "sync.Cond":
			if to, ok := x.alias[typeKey(n)+"."+f.Name()]; ok {
				out = append(out, "."+to)
			} else {
				out = append(out, "."+f.Name()+".L")
			}
		}
	}
	return out
}

type guardedUse struct {
	in    *ssa.FieldAddr
	write bool
}

func (x *locks) guarded() {
	uses := map[string][]guardedUse{}
	var order []string
	for _, f := range x.w.funcs {
		if uninstantiated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || len(x.lockFields(derefType(fa.X.Type()))) == 0 {
					continue
				}
				switch typeKey(derefType(fa.Type())) {
				case "sync.Mutex", "sync.RWMutex", "sync.Cond", "sync.Locker":
					continue
				}
				if st, ok := derefType(fa.Type()).(*types.Pointer); ok && strings.HasPrefix(typeKey(st.Elem()), "sync.") {
					continue
				}
				if al, ok := x.of(fa.X).root.(*ssa.Alloc); ok && al.Parent() == f {
					continue // under construction
				}
				k := fieldKey(fa.X, fa.Field)
				if uses[k] == nil {
					order = append(order, k)
				}
				uses[k] = append(uses[k], guardedUse{fa, writes(fa, 0)})
			}
		}
	}
	sort.Strings(order)
	for _, k := range order {
		us := uses[k]
		written, under := false, ""
		for _, u := range us {
			written = written || u.write
			base := x.of(u.in.X)
			held := x.heldAt(u.in, false)
			for _, l := range x.lockFields(derefType(u.in.X.Type())) {
				if held[apath{base.root, base.path + l}] || held[apath{base.root, base.path + l + " (reading)"}] {
					under = l
				}
			}
		}
		if under == "" || !written || x.confined(us) {
			continue
		}
		x.r.count("guarded fields", 1)
		for _, u := range us {
			base := x.of(u.in.X)
			held := x.heldAt(u.in, true)
			ok := held[apath{base.root, base.path + under}] || !u.write && held[apath{base.root, base.path + under + " (reading)"}]
			x.r.count("accesses of guarded fields", 1)
			if ok {
				x.r.oblig(true, Finding{})
				continue
			}
			do := "read"
			if u.write {
				do = "written"
			}
			x.report("guarded", u.in.Parent(), k, u.in.Pos(), fmt.Sprintf("%s is %s without its lock %s, under which it is accessed elsewhere", k, do, strings.TrimPrefix(under, ".")))
		}
	}
}

// writes: the memory at an address may be written through it.
func writes(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return d > 4
	}
	for _, u := range *v.Referrers() {
		switch t := u.(type) {
		case *ssa.Store:
			if t.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if writes(t, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if t.X == v && writes(t, d+1) {
				return true
			}
		case *ssa.UnOp:
			switch t.Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				if contentWritten(t) {
					return true
				}
			}
		case ssa.CallInstruction:
			if _, ok := derefType(v.Type()).Underlying().(*types.Struct); ok {
				return true
			}
		}
	}
	return false
}

func contentWritten(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch t := u.(type) {
		case *ssa.MapUpdate:
			if t.Map == v {
				return true
			}
		case *ssa.IndexAddr:
			if writes(t, 1) {
				return true
			}
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") && t.Call.Args[0] == v {
				return true
			}
		}
	}
	return false
}

// confined: only one goroutine uses the field.
func (x *locks) confined(us []guardedUse) bool {
	for _, f := range x.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok || innermostLoop(g.Block(), nil) != nil {
					continue
				}
				for _, t := range x.w.calls(g) {
					tree := x.w.tree(t)
					all := true
					for _, u := range us {
						h := u.in.Parent()
						if !tree[h] {
							all = false
							break
						}
						for _, c := range x.w.callers[h] {
							if c != ssa.CallInstruction(g) && !tree[c.Parent()] {
								all = false
							}
						}
					}
					if all {
						return true
					}
				}
			}
		}
	}
	return false
}

// copies: a structure with a lock in it is never copied.
func (x *locks) copies() {
	var has func(t types.Type, d int) bool
	has = func(t types.Type, d int) bool {
		if d > 6 {
			return false
		}
		switch typeKey(t) {
		case "sync.Mutex", "sync.RWMutex", "sync.Cond", "sync.WaitGroup", "sync.Once":
			_, ptr := t.Underlying().(*types.Pointer)
			return !ptr
		}
		if d == 0 {
			if _, ok := t.(*types.Named); ok && len(x.lockFields(t)) > 0 {
				return true
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if has(u.Field(i).Type(), d+1) {
					return true
				}
			}
		case *types.Array:
			return has(u.Elem(), d+1)
		}
		return false
	}
	for _, f := range x.w.funcs {
		if uninstantiated(f) {
			continue
		}
		for _, p := range f.Params {
			if has(p.Type(), 0) {
				x.report("copied", f, typeKey(p.Type()), f.Pos(), "receives a copy of a "+p.Type().String()+" and with it a copy of its lock")
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || !has(u.Type(), 0) {
					continue
				}
				x.r.count("copies of structures with locks", 1)
				x.report("copied", f, typeKey(u.Type()), u.Pos(), "copies a "+u.Type().String()+" and with it its lock")
			}
		}
	}
}

// ---- conditions ----

type waited struct {
	cond   string              // the field that holds the condition
	fields map[string][]string // fields the condition depends on -> the values that keep waiting
	fn     *ssa.Function
}

func (x *locks) condKey(v ssa.Value) string {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		v = ld.X
	}
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return fieldKey(fa.X, fa.Field)
	}
	p := x.of(v)
	if p.path != "" {
		return lockName(p)
	}
	return fmt.Sprint("cond ", p.root.Name(), " of ", fnName(rootFn(v.Parent())))
}

func (x *locks) conditions() {
	var ws []*waited
	conds := map[string]*ssa.Function{}
	for _, f := range x.w.funcs {
		if uninstantiated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				recv, name := libMethod(c, "sync.Cond")
				if name != "Wait" {
					continue
				}
				x.r.count("waits", 1)
				key := x.condKey(recv)
				conds[key] = f
				lock := x.of(recv)
				lock.path += ".L"
				if to, ok := x.alias[key]; ok {
					lock.path = lock.path[:strings.LastIndex(strings.TrimSuffix(lock.path, ".L"), ".")] + "." + to
				}
				if !x.heldAt(c, true)[lock] {
					x.report("wait", f, key, c.Pos(), "waits on "+key+" although the lock of the condition may not be held")
				} else {
					x.r.oblig(true, Finding{})
				}
				if w := x.recheck(f, c, key); w != nil {
					ws = append(ws, w)
				}
			}
		}
	}
	x.wakes(ws, conds)
}

// recheck: the wait is in a loop that is left only by a test made after it.
func (x *locks) recheck(f *ssa.Function, c *ssa.Call, key string) *waited {
	l := innermostLoop(c.Block(), nil)
	if l == nil {
		x.report("wait", f, key, c.Pos(), "waits on "+key+" outside a loop: the condition is not evaluated again after the wait")
		return nil
	}
	w := &waited{cond: key, fields: map[string][]string{}, fn: f}
	good := true
	for b := range l.body {
		for i, s := range b.Succs {
			if l.body[s] {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				good = false
				continue
			}
			if !x.fresh(iff.Cond, l, w, i == 0, map[ssa.Value]bool{}) {
				good = false
				x.report("wait", f, key, iff.Cond.Pos(), "the loop around the wait on "+key+" is left by a condition that is not evaluated again after the wait")
			}
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			good = false
			x.report("wait", f, key, r.Pos(), "returns from the loop around the wait on "+key+" without evaluating the condition")
		}
	}
	if good {
		x.r.oblig(true, Finding{})
	}
	return w
}

// fresh: the value depends on memory or a call within the loop; the fields it
// depends on are noted, with the value that keeps waiting where it is a test
// of the field itself.
func (x *locks) fresh(v ssa.Value, l *loop, w *waited, leavesIfTrue bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	out := false
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok {
			k := fieldKey(fa.X, fa.Field)
			keep := "?"
			if b, ok := ld.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && len(seen) == 1 {
				keep = fmt.Sprint(!leavesIfTrue)
			}
			w.fields[k] = append(w.fields[k], keep)
		}
		fa, isField := ld.X.(*ssa.FieldAddr)
		if l.body[in.Block()] && (!isField || x.mutable[fieldKey(fa.X, fa.Field)]) {
			out = true
		}
	}
	if nt, ok := v.(*ssa.UnOp); ok && nt.Op == token.NOT {
		delete(seen, v)
		return x.fresh(nt.X, l, w, !leavesIfTrue, seen)
	}
	if _, ok := v.(*ssa.Call); ok && l.body[in.Block()] {
		out = true
	}
	if fa, ok := v.(*ssa.FieldAddr); ok && !x.mutable[fieldKey(fa.X, fa.Field)] {
		return out
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && x.fresh(*o, l, w, leavesIfTrue, seen) {
			out = true
		}
	}
	return out
}

func (x *locks) wakes(ws []*waited, conds map[string]*ssa.Function) {
	isWake := func(in ssa.Instruction, key string) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		recv, name := libMethod(c, "sync.Cond")
		return name == "Broadcast" && x.condKey(recv) == key
	}
	announcers := map[string][]*ssa.Function{}
	for _, f := range x.w.funcs {
		if uninstantiated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				recv, name := libMethod(c, "sync.Cond")
				if name != "Broadcast" && name != "Signal" {
					continue
				}
				x.r.count("wakes", 1)
				key := x.condKey(recv)
				if name == "Signal" {
					x.report("wake", f, key, c.Pos(), "wakes one waiter of "+key+" only: another one, whose condition holds just the same, waits on")
				}
				if fs := announcers[key]; len(fs) == 0 || fs[len(fs)-1] != f {
					announcers[key] = append(announcers[key], f)
				}
			}
		}
	}
	for key, f := range conds {
		if len(announcers[key]) == 0 {
			x.report("wake", f, key, f.Pos(), "nothing ever wakes what waits on "+key)
		}
	}
	for _, w := range ws {
		changing := map[*ssa.Function]bool{}
		for field, keeps := range w.fields {
			for _, f := range x.w.funcs {
				if uninstantiated(f) {
					continue
				}
				for _, b := range f.Blocks {
					for i, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := st.Addr.(*ssa.FieldAddr)
						if !ok || fieldKey(fa.X, fa.Field) != field {
							continue
						}
						if al, ok := x.of(fa.X).root.(*ssa.Alloc); ok && al.Parent() == f {
							continue
						}
						changing[f] = true
						x.r.count("changes of waited-for fields", 1)
						if x.woken(f, b, i, st, keeps, func(in ssa.Instruction) bool { return isWake(in, w.cond) }) {
							x.r.oblig(true, Finding{})
							continue
						}
						x.report("wake", f, field, st.Pos(), "changes "+field+", for which others wait on "+w.cond+", without waking them on every path")
					}
				}
			}
		}
		for _, f := range announcers[w.cond] {
			if changing[f] {
				continue
			}
			// it announces a change that is not in memory
			first := f.Blocks[0]
			announces := func(in ssa.Instruction) bool {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				recv, name := libMethod(c, "sync.Cond")
				return (name == "Broadcast" || name == "Signal") && x.condKey(recv) == w.cond
			}
			if x.passes(first, 0, nil, "", announces, map[*ssa.BasicBlock]bool{}) {
				x.r.oblig(true, Finding{})
				continue
			}
			x.report("wake", f, w.cond, f.Pos(), "announces a change to those who wait on "+w.cond+" on some paths only")
		}
	}
}

// woken: a store is followed by a wake on every path, unless it keeps the
// waiters waiting, or is made under the lock after one.
func (x *locks) woken(f *ssa.Function, b *ssa.BasicBlock, i int, st *ssa.Store, keeps []string, wake func(ssa.Instruction) bool) bool {
	keep := ""
	for _, k := range keeps {
		if keep == "" {
			keep = k
		} else if keep != k {
			keep = "?"
		}
	}
	if c, ok := st.Val.(*ssa.Const); ok && keep != "?" && c.Value != nil && c.Value.ExactString() == keep {
		return true
	}
	if x.passes(b, i+1, st.Val, keep, wake, map[*ssa.BasicBlock]bool{}) {
		return true
	}
	// woken before, under the same lock
	for _, d := range f.Blocks {
		if !d.Dominates(b) {
			continue
		}
		for _, in := range d.Instrs {
			if in == ssa.Instruction(st) {
				break
			}
			if wake(in) && len(x.heldAt(in, true)) > 0 && len(x.heldAt(st, true)) > 0 {
				return true
			}
		}
	}
	return false
}

// passes: every path from here to a return passes a wake, or learns that the
// value keeps the waiters waiting.
func (x *locks) passes(b *ssa.BasicBlock, i int, val ssa.Value, keep string, wake func(ssa.Instruction) bool, seen map[*ssa.BasicBlock]bool) bool {
	for ; i < len(b.Instrs); i++ {
		if wake(b.Instrs[i]) {
			return true
		}
		switch t := b.Instrs[i].(type) {
		case *ssa.Call:
			gs := x.w.calls(t)
			all := len(gs) > 0
			for _, g := range gs {
				if !all || seen[g.Blocks[0]] {
					all = false
					break
				}
				all = x.alwaysWakes(g, wake, 0)
			}
			if all {
				return true
			}
		case *ssa.Return:
			if f := b.Parent(); f.Parent() != nil { // a function literal: what follows its calls
				sites := x.w.callers[f]
				for _, c := range sites {
					call, ok := c.(*ssa.Call)
					if !ok {
						return false
					}
					at := 0
					for n, in := range call.Block().Instrs {
						if in == ssa.Instruction(call) {
							at = n + 1
						}
					}
					if !x.passes(call.Block(), at, val, keep, wake, seen) {
						return false
					}
				}
				return len(sites) > 0
			}
			return false
		case *ssa.Panic:
			return true
		}
	}
	for n, s := range b.Succs {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && val != nil && keep != "?" {
			c, taken := iff.Cond, n == 0
			for {
				if nt, ok := c.(*ssa.UnOp); ok && nt.Op == token.NOT {
					c, taken = nt.X, !taken
					continue
				}
				break
			}
			if (c == val || x.of(c) == x.of(val)) && fmt.Sprint(taken) == keep {
				continue
			}
		}
		if seen[s] {
			continue
		}
		seen[s] = true
		if !x.passes(s, 0, val, keep, wake, seen) {
			return false
		}
	}
	return true
}

// alwaysWakes: every path through the function passes a wake.
func (x *locks) alwaysWakes(g *ssa.Function, wake func(ssa.Instruction) bool, d int) bool {
	if d > 4 || len(g.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if wake(in) {
				return true
			}
			switch t := in.(type) {
			case *ssa.Call:
				for _, h := range x.w.calls(t) {
					if x.alwaysWakes(h, wake, d+1) {
						return true
					}
				}
			case *ssa.Return:
				return false
			}
		}
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	return rec(g.Blocks[0])
}
