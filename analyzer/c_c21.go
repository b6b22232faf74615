package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: a failed lookup is never used as a position. The results of lookups are followed forward (through conversions,
// phis, local variables, parameters and pass-through functions) along the paths on which nothing has yet shown that
// the hash was found.

// lookupMark describes how a lookup says "not found".
type lookupMark struct {
	marker  int64
	marked  bool // the marker value itself can be compared against
	guard   int  // result index of a found flag, or -1
	derived bool // handed on by a function whose contract includes the marker (a handle's Height)
	name    string
}

type c21 struct {
	P       *Prog
	r       *Result
	pass    map[*ssa.Function]map[int]lookupMark
	changed bool
	report  bool
	inParam map[string]bool
	seen    map[string]bool
}

func intResult(f *types.Signature, i int) bool {
	if f.Results().Len() <= i {
		return false
	}
	b, ok := f.Results().At(i).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func init() {
	checks["C21"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"checked-before-use: on every path from a lookup (IndexOfHash, TryIndexOfHash, a map keyed by hash, a descent to a node of a tree) to a use of its result as a position, an argument, a stored value or part of an object, a comparison has excluded the 'not found' marker or the found flag is true",
			"not-found-is-said: an implementation of a lookup returns something other than its marker only on paths on which an entry for the hash was seen: the map has it, the stored hash compares equal, or another lookup found it",
		}
		r.Assume = []string{"a chain is given handles it made itself", "an index compared equal to an expected position was found", "an object whose IsInvalid method tests the wrapped marker does not claim to exist"}
		c := &c21{P: P, r: r, pass: map[*ssa.Function]map[int]lookupMark{}, inParam: map[string]bool{}, seen: map[string]bool{}}
		c.run()
		c.implementations()
		r.floor("lookup results followed", 20)
		r.floor("uses decided", 30)
		r.floor("map lookups by hash", 4)
		r.floor("lookup implementations", 8)
		r.floor("found returns", 8)
		return r
	}
}

func (c *c21) funcs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if !testHelper(f) && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

func (c *c21) setPass(f *ssa.Function, i int, m lookupMark) {
	if c.pass[f] == nil {
		c.pass[f] = map[int]lookupMark{}
	}
	if _, ok := c.pass[f][i]; !ok {
		c.pass[f][i] = m
		c.changed = true
	}
}

func lookupMethod(name string, s *types.Signature) (lookupMark, bool) {
	switch {
	case name == "IndexOfHash" && s.Results().Len() == 2 && intResult(s, 0):
		return lookupMark{marker: -1, marked: true, guard: -1, name: name}, true
	case name == "TryIndexOfHash" && s.Results().Len() == 3 && intResult(s, 0):
		return lookupMark{marker: -1, marked: true, guard: 1, name: name}, true
	}
	return lookupMark{}, false
}

// descent: a method answering with a node or hash id, which says 0 for none.
func descent(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 || relPkg(f) != "weddingcakeback" {
		return false
	}
	n := short(typeKey(f.Signature.Results().At(0).Type()))
	if !strings.HasSuffix(n, "NodeIdType") && !strings.HasSuffix(n, "HashIndexIdType") {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			if k, ok := constInt(ret.Results[0]); ok && k == 0 {
				return true
			}
		}
	}
	return false
}

func (c *c21) run() {
	for _, f := range c.funcs() {
		if m, ok := lookupMethod(f.Name(), f.Signature); ok && f.Signature.Recv() != nil {
			c.setPass(f, 0, m)
		}
		if descent(f) {
			c.setPass(f, 0, lookupMark{marker: 0, marked: true, guard: -1, name: f.Name()})
		}
	}
	for round := 0; round < 6; round++ {
		c.changed = false
		c.report = false
		c.inParam = map[string]bool{}
		c.sweep()
		if !c.changed {
			break
		}
	}
	c.report = true
	c.inParam = map[string]bool{}
	c.sweep()
}

func (c *c21) sweep() {
	for _, f := range c.funcs() {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Call:
					m, ok := c.markOf(t)
					if !ok {
						continue
					}
					for k, mk := range m {
						c.follow(f, t, k, mk, b, i)
					}
				case *ssa.Lookup:
					mt, ok := t.X.Type().Underlying().(*types.Map)
					if !ok || !byteArray(mt.Key()) || !isIntType(mt.Elem()) {
						continue
					}
					if c.report {
						c.r.count("map lookups by hash", 1)
					}
					mk := lookupMark{guard: -1, name: "a map keyed by hash"}
					if t.CommaOk {
						mk.guard = 1
						c.followTuple(f, t, 0, mk, b, i)
					} else {
						c.start(f, t, nil, mk, b, i)
					}
				}
			}
		}
	}
}

func byteArray(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return false
	}
	e, ok := a.Elem().Underlying().(*types.Basic)
	return ok && e.Kind() == types.Uint8 && a.Len() > 1
}

// markOf: which results of a call are lookup results.
func (c *c21) markOf(site *ssa.Call) (map[int]lookupMark, bool) {
	com := site.Common()
	out := map[int]lookupMark{}
	if com.IsInvoke() {
		if m, ok := lookupMethod(com.Method.Name(), com.Signature()); ok {
			out[0] = m
			return out, true
		}
		if com.Method.Name() == "ReadID" && len(com.Args) == 1 && c.jumpTable(com.Args[0]) {
			out[0] = lookupMark{marker: 0, marked: true, guard: -1, name: "the jump table"}
			return out, true
		}
	}
	for _, g := range c.P.Callees(site) {
		for i, m := range c.pass[g] {
			if _, direct := lookupMethod(g.Name(), g.Signature); !direct && !descent(g) {
				m.derived = true
				m.name = g.Name() + " (" + m.name + ")"
				// a handle: a chain is given handles of its own making, by the callers of its exported methods
				if com.IsInvoke() {
					p, ok := com.Value.(*ssa.Parameter)
					if !ok || pkgPath(g) != pkgPath(site.Parent()) || !token.IsExported(p.Parent().Name()) {
						continue
					}
				}
			}
			if o, ok := out[i]; !ok || o.derived && !m.derived {
				out[i] = m
			}
		}
	}
	return out, len(out) > 0
}

func (c *c21) jumpTable(v ssa.Value) bool {
	for {
		switch t := v.(type) {
		case *ssa.Slice:
			v = t.X
			continue
		case *ssa.ChangeType:
			v = t.X
			continue
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if fa, ok := t.X.(*ssa.FieldAddr); ok {
					return strings.Contains(fieldKey(fa.X, fa.Field), "JumpTable")
				}
			}
		}
		return false
	}
}

func (c *c21) follow(f *ssa.Function, t *ssa.Call, k int, mk lookupMark, b *ssa.BasicBlock, i int) {
	if c.report {
		c.r.count("lookup results followed", 1)
	}
	if c.invalidExcluded(t, b) {
		return
	}
	if t.Type() == nil {
		return
	}
	if _, tuple := t.Type().(*types.Tuple); tuple {
		c.followTuple(f, t, k, mk, b, i)
	} else {
		c.start(f, t, nil, mk, b, i)
	}
}

func (c *c21) followTuple(f *ssa.Function, t ssa.Value, k int, mk lookupMark, b *ssa.BasicBlock, i int) {
	var v ssa.Value
	var guards []ssa.Value
	for _, u := range *t.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok {
			if ex.Index == k {
				v = ex
			}
			if ex.Index == mk.guard && mk.guard >= 0 {
				guards = append(guards, ex)
			}
		}
		if ret, ok := u.(*ssa.Return); ok && len(ret.Results) == 1 {
			c.setPass(f, k, mk)
		}
	}
	if v == nil {
		return
	}
	c.start(f, v, guards, mk, b, i)
}

// invalidExcluded: every path to the call passes a branch on which IsInvalid() of the same receiver is false.
func (c *c21) invalidExcluded(site *ssa.Call, at *ssa.BasicBlock) bool {
	recv, _ := recvOf(site)
	if recv == nil {
		return false
	}
	ok := func(cond ssa.Value, taken bool) bool {
		for {
			u, is := cond.(*ssa.UnOp)
			if !is || u.Op != token.NOT {
				break
			}
			cond, taken = u.X, !taken
		}
		k, is := cond.(*ssa.Call)
		if !is || taken || calledName(k) != "IsInvalid" {
			return false
		}
		r, _ := recvOf(k)
		return r == recv
	}
	f := at.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == at {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for i, s := range b.Succs {
			if iff, is := b.Instrs[len(b.Instrs)-1].(*ssa.If); is && ok(iff.Cond, i == 0) {
				continue
			}
			if rec(s) {
				return true
			}
		}
		return false
	}
	return !rec(f.Blocks[0])
}

func calledName(c ssa.CallInstruction) string {
	if c.Common().IsInvoke() {
		return c.Common().Method.Name()
	}
	if g := c.Common().StaticCallee(); g != nil {
		return g.Name()
	}
	return ""
}

type c21flow struct {
	c        *c21
	f        *ssa.Function
	mk       lookupMark
	seen     map[string]bool
	param    *bool // set when following a parameter: a use was found
	paramMsg *string
}

func (c *c21) start(f *ssa.Function, v ssa.Value, guards []ssa.Value, mk lookupMark, b *ssa.BasicBlock, i int) {
	w := &c21flow{c: c, f: f, mk: mk, seen: map[string]bool{}}
	w.explore(v, guards, b, i+1)
}

func (w *c21flow) explore(v ssa.Value, guards []ssa.Value, start *ssa.BasicBlock, from int) {
	k := fmt.Sprintf("%p|%p", v, start)
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	aliases := map[ssa.Value]bool{v: true}
	list := []ssa.Value{v}
	for i := 0; i < len(list); i++ {
		if list[i].Referrers() == nil {
			continue
		}
		add := func(x ssa.Value) {
			if !aliases[x] {
				aliases[x] = true
				list = append(list, x)
			}
		}
		for _, u := range *list[i].Referrers() {
			switch t := u.(type) {
			case *ssa.Convert:
				add(t)
			case *ssa.ChangeType:
				add(t)
			case *ssa.Store:
				// a local variable that could not be lifted: its loads carry the same value
				if al, ok := t.Addr.(*ssa.Alloc); ok && t.Val == list[i] {
					for _, l := range *al.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok && ld.Op == token.MUL {
							add(ld)
						}
					}
				}
			}
		}
	}
	// the blocks reached while the marker is still possible
	reach := map[*ssa.BasicBlock]bool{}
	type edge struct{ a, b *ssa.BasicBlock }
	open := map[edge]bool{}
	work := []*ssa.BasicBlock{start}
	first := true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for i, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && w.found(iff.Cond, i == 0, aliases, guards, 0) {
				continue
			}
			open[edge{b, s}] = true
			if !reach[s] {
				reach[s] = true
				work = append(work, s)
			}
		}
		first = false
	}
	_ = first
	live := func(in ssa.Instruction) bool {
		b := in.Block()
		if b == nil || b.Parent() != start.Parent() {
			return false
		}
		if reach[b] {
			return true
		}
		if b == start {
			for i, x := range b.Instrs {
				if x == in {
					return i >= from
				}
			}
		}
		return false
	}
	for _, a := range list {
		if a.Referrers() == nil {
			continue
		}
		for _, u := range *a.Referrers() {
			if phi, ok := u.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					p := phi.Block().Preds[i]
					if e != a || !open[edge{p, phi.Block()}] || p != start && !reach[p] {
						continue
					}
					// found flags that travel with it
					var gs []ssa.Value
					for _, in := range phi.Block().Instrs {
						q, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						for _, g := range guards {
							if q.Edges[i] == g {
								gs = append(gs, q)
							}
						}
					}
					gs = append(gs, guards...)
					w.explore(phi, gs, phi.Block(), 0)
				}
				continue
			}
			if w.c.report && w.param == nil {
				w.c.r.count("uses decided", 1)
			}
			if !live(u) {
				if w.c.report && w.param == nil {
					w.c.r.oblig(true, Finding{})
				}
				continue
			}
			w.use(u, a, guards, aliases)
		}
	}
}

// found: does taking this branch show that the lookup found something?
func (w *c21flow) found(cond ssa.Value, taken bool, aliases map[ssa.Value]bool, guards []ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	for _, g := range guards {
		if cond == g {
			return taken
		}
	}
	if phi, ok := cond.(*ssa.Phi); ok {
		any := false
		for i, e := range phi.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != taken {
					continue
				}
				// reached by the branch that gave this constant
				p := phi.Block().Preds[i]
				iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
				if !ok || !w.found(iff.Cond, p.Succs[0] == phi.Block(), aliases, guards, depth+1) {
					return false
				}
				any = true
				continue
			}
			if !w.found(e, taken, aliases, guards, depth+1) {
				return false
			}
			any = true
		}
		return any
	}
	if !w.mk.marked {
		return false
	}
	op, x, y := relation(cond, taken)
	if op == token.ILLEGAL {
		return false
	}
	if !aliases[x] {
		if !aliases[y] {
			return false
		}
		x, y = y, x
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		if o, ok := flip[op]; ok {
			op = o
		}
	}
	k, isConst := constInt(y)
	m := w.mk.marker
	switch op {
	case token.NEQ:
		return isConst && k == m
	case token.EQL:
		return !isConst || k != m
	case token.GTR:
		return isConst && k >= m
	case token.GEQ:
		return isConst && k > m
	case token.LSS:
		return isConst && k <= m
	case token.LEQ:
		return isConst && k < m
	}
	return false
}

func (w *c21flow) bad(u ssa.Instruction, construct, msg string) {
	if w.param != nil {
		*w.param = true
		*w.paramMsg = msg + " at " + w.c.P.Pos(u.Pos())
		return
	}
	if !w.c.report {
		return
	}
	key := fmt.Sprintf("%p|%s", u, construct)
	if w.c.seen[key] {
		return
	}
	w.c.seen[key] = true
	w.c.r.oblig(false, Finding{Rule: "checked-before-use", Func: fnName(u.Parent()), Construct: w.mk.name + " " + construct, Pos: w.c.P.Pos(u.Pos()),
		Msg: "the result of " + w.mk.name + " is " + msg + " on a path on which nothing has shown that the hash was found"})
}

func (w *c21flow) fine() {
	if w.c.report && w.param == nil {
		w.c.r.oblig(true, Finding{})
	}
}

var outputOnly = map[string]bool{"fmt": true, "log": true, "errors": true, "testing": true}

func (w *c21flow) use(u ssa.Instruction, a ssa.Value, guards []ssa.Value, aliases map[ssa.Value]bool) {
	P := w.c.P
	switch t := u.(type) {
	case *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.If, *ssa.DebugRef, *ssa.Extract:
		return
	case *ssa.UnOp:
		if t.Op == token.SUB {
			w.bad(u, "negated", "used in arithmetic")
		}
		return
	case *ssa.BinOp:
		switch t.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			w.fine()
		default:
			w.bad(u, "in arithmetic", "used in arithmetic")
		}
	case *ssa.Return:
		for i, x := range t.Results {
			if x != a {
				continue
			}
			if w.param != nil {
				continue // comes back out of the callee; not followed
			}
			mk := w.mk
			mk.guard = -1
			for j, g := range t.Results {
				for _, q := range guards {
					if g == q {
						mk.guard = j
					}
				}
			}
			if !mk.marked && mk.guard < 0 {
				w.bad(u, "returned", "returned as if it had been found")
				continue
			}
			if _, is := lookupMethod(u.Parent().Name(), u.Parent().Signature); !is && u.Parent().Signature.Results().Len() > 0 {
				w.c.setPass(u.Parent(), i, mk)
			}
			w.fine()
		}
	case *ssa.Store:
		if t.Val != a {
			w.bad(u, "as an address", "used as an address")
			return
		}
		if al, ok := t.Addr.(*ssa.Alloc); ok {
			_ = al // the loads are followed
			return
		}
		if w.mk.derived && marksInvalid(P, t.Addr) {
			w.fine()
			return
		}
		if varargs(t.Addr) {
			return
		}
		w.bad(u, "stored", "stored")
	case *ssa.MapUpdate:
		w.bad(u, "stored in a map", "stored in a map")
	case *ssa.Index, *ssa.IndexAddr, *ssa.Lookup:
		w.bad(u, "as an index", "used as an index")
	case *ssa.Slice:
		w.bad(u, "as a bound", "used as a slice bound")
	case *ssa.Send:
		w.bad(u, "sent", "sent on")
	case *ssa.MakeSlice:
		w.bad(u, "as a length", "used as a length")
	case ssa.CallInstruction:
		com := t.Common()
		if com.Value == a {
			return
		}
		gs := P.Callees(t)
		if len(gs) == 0 {
			if g := com.StaticCallee(); g != nil && g.Pkg != nil && outputOnly[g.Pkg.Pkg.Path()] {
				return
			}
			if _, ok := com.Value.(*ssa.Builtin); ok && calleeName(com) == "builtin print" || calleeName(com) == "builtin println" {
				return
			}
			w.bad(u, "passed to "+shortCallee(com), "passed to "+shortCallee(com))
			return
		}
		for _, g := range gs {
			off := len(g.Params) - len(com.Args)
			for i, x := range com.Args {
				if x != a || i+off < 0 || i+off >= len(g.Params) {
					continue
				}
				if bad, msg := w.c.paramUsed(g, i+off, w.mk); bad {
					w.bad(u, "passed to "+shortCallee(com), "passed to "+fnName(g)+", where it is "+msg+",")
					return
				}
			}
		}
		w.fine()
	case *ssa.Panic:
	default:
		w.bad(u, "used", "used")
	}
}

func (c *c21) paramUsed(g *ssa.Function, i int, mk lookupMark) (bool, string) {
	key := fmt.Sprintf("%p|%d|%v", g, i, mk)
	if c.inParam[key] {
		return false, ""
	}
	c.inParam[key] = true
	used, msg := false, ""
	m := mk
	m.derived = mk.derived
	w := &c21flow{c: c, f: g, mk: m, seen: map[string]bool{}, param: &used, paramMsg: &msg}
	w.explore(g.Params[i], nil, g.Blocks[0], 0)
	c.inParam[key] = used // asked again: only a bad answer needs repeating
	if used {
		c.inParam[key] = false
	}
	return used, msg
}

// varargs: a slot of the argument list of a call that only prints.
func varargs(a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	return ok && al.Comment == "varargs"
}

// marksInvalid: the address of a field that the type's IsInvalid method compares with the marker.
func marksInvalid(P *Prog, a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n, ok := types.Unalias(derefType(fa.X.Type())).(*types.Named)
	if !ok {
		return false
	}
	f := P.Method(n, "IsInvalid")
	if f == nil || f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.LSS) {
				if ld, ok := bo.X.(*ssa.UnOp); ok {
					if g, ok := ld.X.(*ssa.FieldAddr); ok && g.Field == fa.Field {
						return true
					}
				}
			}
		}
	}
	return false
}

// implementations: what a lookup returns as found was seen to be there.
func (c *c21) implementations() {
	var fs []*ssa.Function
	for _, f := range c.funcs() {
		if _, ok := lookupMethod(f.Name(), f.Signature); ok && f.Signature.Recv() != nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	done := map[*ssa.Function]bool{}
	for len(fs) > 0 {
		f := fs[0]
		fs = fs[1:]
		if done[f] {
			continue
		}
		done[f] = true
		c.r.count("lookup implementations", 1)
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			fs = append(fs, c.returned(f, ret)...)
		}
	}
}

// returned decides one return of a lookup; it names helpers whose results it hands on.
func (c *c21) returned(f *ssa.Function, ret *ssa.Return) []*ssa.Function {
	var more []*ssa.Function
	ei := errResultIdx(f.Signature)
	if ei >= 0 && ei < len(ret.Results) {
		// an error was seen on the way: no answer is given
		if c.errSeen(ret.Results[ei], ret.Block()) {
			return nil
		}
	}
	mk, _ := lookupMethod(f.Name(), f.Signature)
	if mk.guard > 0 {
		if k, ok := ret.Results[mk.guard].(*ssa.Const); ok && k.Value != nil && !constant.BoolVal(k.Value) {
			c.r.oblig(true, Finding{})
			return nil
		}
	}
	var decide func(v ssa.Value, b *ssa.BasicBlock, via *ssa.BasicBlock, depth int)
	seen := map[ssa.Value]bool{}
	bad := ""
	decide = func(v ssa.Value, b, via *ssa.BasicBlock, depth int) {
		if seen[v] || depth > 12 {
			return
		}
		if k, ok := constInt(v); ok {
			if k == -1 && mk.guard <= 0 {
				return
			}
			if !c.evidence(b, via) {
				bad = fmt.Sprintf("the constant %d", k)
			}
			return
		}
		seen[v] = true
		if c.evidence(b, via) {
			c.r.count("found returns", 1)
			return
		}
		switch t := v.(type) {
		case *ssa.Convert:
			decide(t.X, b, via, depth+1)
		case *ssa.ChangeType:
			decide(t.X, b, via, depth+1)
		case *ssa.Phi:
			for i, e := range t.Edges {
				decide(e, t.Block().Preds[i], t.Block(), depth+1)
			}
		case *ssa.Extract:
			if call, ok := t.Tuple.(*ssa.Call); ok {
				if m, ok := c.markOf(call); ok {
					if x, ok := m[t.Index]; ok && (x.guard < 0 || x.guard >= 0 && sameFlag(ret, mk, call, x.guard)) {
						c.r.count("found returns", 1)
						for _, g := range c.P.Callees(call) {
							if _, is := lookupMethod(g.Name(), g.Signature); !is {
								more = append(more, g)
							}
						}
						return
					}
				}
			}
			bad = "a value"
		case *ssa.Call:
			gs := c.P.Callees(t)
			if len(gs) > 0 && !t.Common().IsInvoke() {
				c.r.count("found returns", 1)
				more = append(more, gs...)
				return
			}
			bad = "a value"
		default:
			bad = "a value"
		}
	}
	decide(ret.Results[0], ret.Block(), nil, 0)
	c.r.oblig(bad == "", Finding{Rule: "not-found-is-said", Func: fnName(f), Construct: "found return", Pos: c.P.Pos(ret.Pos()),
		Msg: bad + " is returned as the index of the hash on a path on which no entry for the hash was seen"})
	return more
}

// sameFlag: the return hands on the found flag of the same call.
func sameFlag(ret *ssa.Return, mk lookupMark, call *ssa.Call, g int) bool {
	if mk.guard <= 0 || mk.guard >= len(ret.Results) {
		return false
	}
	ex, ok := ret.Results[mk.guard].(*ssa.Extract)
	return ok && ex.Tuple == ssa.Value(call) && ex.Index == g
}

// errSeen: at this block the returned error is known to be non-nil.
func (c *c21) errSeen(e ssa.Value, b *ssa.BasicBlock) bool {
	if k, ok := e.(*ssa.Const); ok {
		return !k.IsNil()
	}
	switch e.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if call, ok := e.(*ssa.Call); ok {
			n := calleeName(call.Common())
			if n == "errors.New" || n == "fmt.Errorf" {
				return true
			}
		}
	}
	return !c.reachedWithout(b, nil, func(cond ssa.Value, taken bool) bool {
		v, isNil := nilCompared(cond, taken)
		return v == e && !isNil
	})
}

// evidence: every path to the block (or along the edge block->via) passes a branch on which an entry for the hash was
// seen: a map has it, a stored hash is equal, or another lookup says found.
func (c *c21) evidence(b, via *ssa.BasicBlock) bool {
	return !c.reachedWithout(b, via, c.sawEntry)
}

func (c *c21) sawEntry(cond ssa.Value, taken bool) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	switch t := cond.(type) {
	case *ssa.Extract:
		if l, ok := t.Tuple.(*ssa.Lookup); ok && t.Index == 1 {
			mt, ok := l.X.Type().Underlying().(*types.Map)
			return ok && taken && byteArray(mt.Key())
		}
		if call, ok := t.Tuple.(*ssa.Call); ok {
			m, ok := c.markOf(call)
			if !ok {
				return false
			}
			for _, x := range m {
				if x.guard == t.Index {
					return taken
				}
			}
		}
	case *ssa.BinOp:
		op, x, y := relation(t, taken)
		if op == token.EQL && byteArray(x.Type()) {
			return true
		}
		if op == token.NEQ {
			for _, p := range [][2]ssa.Value{{x, y}, {y, x}} {
				if ex, ok := p[0].(*ssa.Extract); ok {
					if call, ok := ex.Tuple.(*ssa.Call); ok {
						if m, ok := c.markOf(call); ok {
							if k, ok := constInt(p[1]); ok && m[ex.Index].marked && m[ex.Index].marker == k {
								return true
							}
						}
					}
				}
			}
		}
	case *ssa.Call:
		if calleeName(t.Common()) == "bytes.Equal" {
			return taken
		}
		if g := t.Common().StaticCallee(); g != nil && inModule(g) && len(t.Common().Args) == 2 {
			a, b := derefType(t.Common().Args[0].Type()), derefType(t.Common().Args[1].Type())
			return taken && byteArray(a) && byteArray(b)
		}
	case *ssa.Phi:
		any := false
		for i, e := range t.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != taken {
					continue
				}
				p := t.Block().Preds[i]
				iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
				if ok && c.sawEntry(iff.Cond, p.Succs[0] == t.Block()) {
					any = true
					continue
				}
				if c.reachedWithout(p, t.Block(), c.sawEntry) {
					return false
				}
				any = true
				continue
			}
			if ph, ok := e.(*ssa.Phi); ok && ph == t {
				continue
			}
			if !c.sawEntry(e, taken) {
				return false
			}
			any = true
		}
		return any
	}
	return false
}

// reachedWithout: is the block (the edge block->via) reachable from the entry without a branch the predicate accepts?
func (c *c21) reachedWithout(at, via *ssa.BasicBlock, ok func(cond ssa.Value, taken bool) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	cut := func(b *ssa.BasicBlock, i int) bool {
		iff, is := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		return is && b.Succs[0] != b.Succs[1] && ok(iff.Cond, i == 0)
	}
	rec = func(b *ssa.BasicBlock) bool {
		if b == at {
			if via == nil {
				return true
			}
			for i, s := range b.Succs {
				if s == via && !cut(b, i) {
					return true
				}
			}
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for i, s := range b.Succs {
			if !cut(b, i) && rec(s) {
				return true
			}
		}
		return false
	}
	return rec(at.Parent().Blocks[0])
}
