package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"disjoint-memory: of two accesses of the same memory by two goroutines of an append, one of them a write, one happens before the other (by starting the goroutine, by a channel, by a wait group or by a lock)",
			"disjoint-stores: two goroutines of an append that run at the same time touch no column, hash list or index in common",
			"own memory: nothing the stores of a chain do when they are read or written writes to a package-level variable, which they would share",
			"joined: when an append succeeds, everything its goroutines did happened before, and none of them failed",
		}
		r.Assume = []string{"different columns, hash lists and indexes are different objects (their constructors build them; C12, C22)", "what the source of blocks is represents its kind: the structure its constructor builds"}
		for _, path := range []string{"Chi", "Cri"} {
			for _, delegated := range []bool{true, false} {
				P.halves(r, path, delegated)
			}
		}
		P.ownMemory(r)
		r.floor("functions of the stores", 40)
		r.floor("appends analysed", 8)
		r.floor("goroutines analysed", 16)
		r.floor("failures of a goroutine", 16)
		r.floor("pairs of accesses compared", 1000)
		return r
	}
}

// halves of the appends of two blocks.
func (P *Prog) halves(r *Result, path string, delegated bool) {
	name := map[string]string{"Chi": "AppendBlockChi", "Cri": "AppendBlock"}[path]
	app := P.Method(P.Named("chainstorage", "concreteAppendableChain"), name)
	src := P.Named("intrinsicobjects"+strings.ToLower(path), "OneBlockHolder")
	if app == nil || src == nil || P.Method(src, "NextBlock") == nil {
		r.oblig(false, Finding{Rule: "disjoint-memory", Func: "append " + path, Msg: "the operation that appends a block, or the source of blocks, is gone"})
		return
	}
	cd := P.codec(r, "disjoint-memory", app)
	quiet := P.codec(newResult(), "-", app) // whether appends are right is for C33 to say
	quiet.m = cd.m
	w := newChainWorld(P, quiet, false)
	w.tag = " (" + path + map[bool]string{true: ", delegated indexing", false: ""}[delegated] + ")"
	m := w.m
	st := m.newState()
	w.blocksToAppend(st, delegated, false)
	cac := w.appendable(st, delegated)
	obh := w.holder(st, src, path, cac, delegated, false)
	if obh == nil {
		cd.oblig(false, "source", "the source of blocks has no known form"+w.tag)
		return
	}
	st0 := st.clone()
	x := &racePair{P: P, r: r, cd: cd, tag: w.tag, seen: map[string]bool{}}
	cacI := aIface{cac, types.NewPointer(P.Named("chainstorage", "concreteAppendableChain"))}
	ends := 0
	watched := func(st *astate, rets []aval, v aval, args []aval, then func(st *astate, rets []aval)) {
		m.watch = true
		st.trace = nil
		w.call(st, v, name, args, func(st *astate, rets []aval) {
			m.watch = false
			ends++
			x.judge(st)
			st.trace = nil
			then(st, rets)
			m.watch = true
		})
		m.watch = false
	}
	w.firstBlock(st, src, obh, path, false, func(st *astate, obhI, h aval) {
		watched(st, nil, cacI, []aval{obhI, h}, func(st *astate, _ []aval) {
			w.call(st, obhI, "NextBlock", []aval{h}, func(st *astate, rets []aval) {
				watched(st, nil, cacI, []aval{obhI, rets[0]}, func(*astate, []aval) {})
			})
		})
	})
	failed := 0
	w.firstBlock(st0, src, obh, path, false, func(st *astate, obhI, h aval) {
		m.watch, w.faults = true, true
		st.trace = nil
		f := P.Method(P.Named("chainstorage", "concreteAppendableChain"), name)
		for _, o := range m.run(f, []aval{cac, obhI, h}, nil, st) {
			if o.panic || !o.st.bools["half failed"] {
				continue
			}
			failed++
			x.unlost = !succeeded(o)
			x.judge(o.st)
			x.unlost = false
			if succeeded(o) {
				r.oblig(false, Finding{Rule: "joined", Func: fnName(app), Construct: "failure", Pos: P.Pos(app.Pos()),
					Msg: "the append succeeds although the goroutine it started failed" + w.tag})
			}
		}
		m.watch, w.faults = false, false
	})
	r.count("failures of a goroutine", failed)
	cd.about(app).oblig(ends >= 2, "append", "no path on which two blocks are appended"+w.tag)
	r.count("appends analysed", ends)
	for why := range m.why {
		cd.about(app).oblig(false, "understood", "not understood: "+why+w.tag)
	}
}

type racePair struct {
	P    *Prog
	r    *Result
	cd   *codec
	tag  string
	seen map[string]bool
	// the append failed: what it started need not have finished
	unlost bool
}

// clock of a goroutine: how much of every goroutine happened before.
type clock []int

func (c clock) copy() clock { return append(clock{}, c...) }

func (c *clock) join(d clock) {
	for len(*c) < len(d) {
		*c = append(*c, 0)
	}
	for i, n := range d {
		(*c)[i] = max((*c)[i], n)
	}
}

func (c clock) at(i int) int {
	if i < len(c) {
		return c[i]
	}
	return 0
}

// access by goroutine th when its own clock was n.
type access struct {
	*atouch
	th, n int
}

// judge the trace of an append that succeeded.
func (x *racePair) judge(st *astate) {
	clocks := []clock{{1}}
	started := []ssa.CallInstruction{nil}
	var pending []int
	running := []int{0}
	queue := map[int][]clock{}
	all := map[int]clock{}
	// the accesses of a place by a goroutine: the last read and write suffice
	// for the order, but every one is kept for the report
	byPlace := map[string][]access{}
	whole := map[int][]access{}
	pairs := 0
	check := func(a access, b access) {
		if a.th == b.th || !clash(a.atouch, b.atouch) {
			return
		}
		pairs++
		if clocks[b.th].at(a.th) >= a.n {
			return
		}
		x.report(st, a, b, started)
	}
	for _, t := range traceOf(st) {
		th := running[len(running)-1]
		switch t.kind {
		case "spawn":
			id := len(clocks)
			c := clocks[th].copy()
			c.join(make(clock, id+1))
			c[id] = 1
			clocks = append(clocks, c)
			clocks[th][th]++
			started = append(started, t.at.(ssa.CallInstruction))
			pending = append(pending, id)
			x.r.count("goroutines analysed", 1)
		case "begin":
			id := pending[len(pending)-1]
			pending = pending[:len(pending)-1]
			running = append(running, id)
		case "end":
			running = running[:len(running)-1]
		case "send":
			queue[t.obj] = append(queue[t.obj], clocks[th].copy())
			clocks[th][th]++
		case "recv":
			if q := queue[t.obj]; len(q) > 0 {
				clocks[th].join(q[0])
				queue[t.obj] = q[1:]
			}
		case "send all":
			c := all[t.obj]
			c.join(clocks[th])
			all[t.obj] = c
			clocks[th][th]++
		case "recv all":
			clocks[th].join(all[t.obj])
		case "r", "w":
			a := access{t, th, clocks[th][th]}
			key := fmt.Sprint(t.obj, " ", t.cell)
			if t.cell == "*" {
				for _, b := range whole[t.obj] {
					check(b, a)
				}
			} else {
				for _, b := range byPlace[key] {
					check(b, a)
				}
				for _, b := range byPlace[fmt.Sprint(t.obj, " *")] {
					check(b, a)
				}
			}
			same := func(as []access) bool {
				for _, b := range as {
					if b.th == a.th && b.n == a.n && b.kind == a.kind && b.cell == a.cell && b.at == a.at {
						return true
					}
				}
				return false
			}
			if !same(byPlace[key]) {
				byPlace[key] = append(byPlace[key], a)
				whole[t.obj] = append(whole[t.obj], a)
			}
		default: // of unknown memory
			x.cd.oblig(false, "understood", fmt.Sprintf("what is accessed at %s is not known%s", x.pos(t.at), x.tag))
		}
	}
	x.r.count("pairs of accesses compared", pairs)
	if x.unlost {
		return
	}
	for _, id := range pending {
		x.late(started[id], "has not finished")
	}
	for id := 1; id < len(clocks); id++ {
		last := 0
		for _, as := range byPlace {
			for _, a := range as {
				if a.th == id {
					last = max(last, a.n)
				}
			}
		}
		if clocks[0].at(id) < last {
			x.late(started[id], "may still be at work")
		}
	}
}

func (x *racePair) pos(at ssa.Instruction) string {
	for _, b := range []ssa.Instruction{at} {
		if b == nil {
			continue
		}
		if b.Pos() != token.NoPos {
			return x.P.Pos(b.Pos())
		}
		if v, ok := b.(*ssa.UnOp); ok && v.X.Pos() != token.NoPos {
			return x.P.Pos(v.X.Pos())
		}
		return x.P.Pos(b.Parent().Pos())
	}
	return "?"
}

func (x *racePair) late(site ssa.CallInstruction, what string) {
	x.r.oblig(false, Finding{Rule: "joined", Func: fnName(rootFn(site.Parent())), Construct: "goroutine", Pos: x.pos(site),
		Msg: "the append succeeds although the goroutine it started " + what + x.tag})
}

func (x *racePair) report(st *astate, a, b access, started []ssa.CallInstruction) {
	what, rule := "memory", "disjoint-memory"
	if strings.HasPrefix(a.cell, "col:") {
		what, rule = "the store of "+a.cell[4:], "disjoint-stores"
	} else if o := st.heap[a.obj]; o != nil && o.typ != nil {
		what = "a " + types.TypeString(o.typ, func(p *types.Package) string { return p.Name() })
	}
	f := "-"
	if b.at != nil {
		f = fnName(rootFn(b.at.Parent()))
	}
	key := rule + f + what + x.pos(a.at) + x.pos(b.at)
	if x.seen[key] {
		return
	}
	x.seen[key] = true
	do := map[string]string{"r": "read", "w": "written"}
	if rule == "disjoint-stores" {
		do["w"] = "used"
	}
	who := func(y access) string {
		if y.th == 0 {
			return "by the append itself"
		}
		return "by the goroutine started at " + x.pos(started[y.th])
	}
	x.r.oblig(false, Finding{Rule: rule, Func: f, Construct: what, Pos: x.pos(b.at),
		Msg: fmt.Sprintf("%s is %s at %s %s and, at the same time, %s at %s %s%s", what, do[a.kind], x.pos(a.at), who(a), do[b.kind], x.pos(b.at), who(b), x.tag)})
}

// ownMemory: the stores share no package-level variable.
func (P *Prog) ownMemory(r *Result) {
	n := P.Named("chainstorage", "concreteAppendableChain")
	if n == nil {
		r.oblig(false, Finding{Rule: "own memory", Func: "-", Msg: "the appendable chain is gone"})
		return
	}
	w := newFlow(P)
	st := n.Underlying().(*types.Struct)
	seen := map[*ssa.Function]bool{}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if mp, ok := t.Underlying().(*types.Map); ok {
			t = mp.Elem()
		}
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for k := 0; k < it.NumMethods(); k++ {
			for _, f := range P.Implementations(it, it.Method(k)) {
				for g := range w.tree(f) {
					seen[g] = true
				}
			}
		}
	}
	bad := map[string]bool{}
	for g := range seen {
		if !inModule(g) {
			continue
		}
		r.count("functions of the stores", 1)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch t := in.(type) {
				case *ssa.Store:
					addr = t.Addr
				case *ssa.MapUpdate:
					addr = t.Map
				default:
					continue
				}
				v := ownerOf(addr)
				if v == nil || bad[v.Name()+fnName(g)] {
					continue
				}
				bad[v.Name()+fnName(g)] = true
				r.oblig(false, Finding{Rule: "own memory", Func: fnName(rootFn(g)), Construct: v.Name(), Pos: P.Pos(in.Pos()),
					Msg: "writes to the package-level variable " + v.Name() + ", which the stores used by the two halves of an append share"})
			}
		}
	}
	if len(bad) == 0 {
		r.oblig(true, Finding{})
	}
}

// ownerOf an address: the package-level variable it is part of.
func ownerOf(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch t := v.(type) {
		case *ssa.Global:
			return t
		case *ssa.FieldAddr:
			v = t.X
		case *ssa.IndexAddr:
			v = t.X
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return nil
			}
			v = t.X
		case *ssa.Slice:
			v = t.X
		default:
			return nil
		}
	}
	return nil
}
