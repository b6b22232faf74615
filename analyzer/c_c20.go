package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: the pipeline's output is in sequence and complete.

func init() {
	checks["C20"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"sequencer: interpreting the re-sequencing container from its constructor on: every order of arrival of up to 5 consecutive objects (the first number symbolic, three different bloat limits) leaves in strictly consecutive order, each exactly once, and the output is closed then and not before; when a number is missing the worker panics and does not close the output",
			"stage: each goroutine the import functions start, interpreted on an input channel holding k=0..2 items: it passes on what it received, each item exactly once and in order (a hash itself, a numbered block with the right height and hash, the block of the numbered block)",
			"fetch: a block passed on by the workers was asked for by its own hash, answered without error, completely read and parsed by the parser of the format asked for, into that block",
			"stream: the block hashes streamed are those of consecutive headers, from the first on, up to the number asked for, across requests",
			"consumed: interpreting the import loops: every block of the ordered chain is appended exactly once, in order, before the next is asked for, and the end is only reported after the last",
		}
		r.Assume = []string{"channels deliver in order, each value once (Go semantics); a send never fails for lack of capacity"}
		c := &pipeline{P: P, r: r, seen: map[ssa.Instruction]bool{}}
		c.sequencers()
		c.stages()
		c.stream()
		c.consumed()
		r.floor("orders of arrival interpreted", 300)
		r.floor("stages interpreted", 8)
		r.floor("fetches checked", 4)
		r.floor("import loops interpreted", 4)
		return r
	}
}

type pipeline struct {
	P    *Prog
	r    *Result
	seen map[ssa.Instruction]bool
}

// instancesOf a generic function (the function itself when it is not generic).
func (P *Prog) instancesOf(f *ssa.Function) []*ssa.Function {
	if f == nil {
		return nil
	}
	if f.TypeParams().Len() == 0 {
		return []*ssa.Function{f}
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, g := range P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if h := c.Common().StaticCallee(); h != nil && h.Parent() == nil && h.Origin() == f && !seen[h] {
					seen[h] = true
					out = append(out, h)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// syncModel: locks and conditions in a single goroutine.  A wait would last
// for ever: the path ends there.
func syncModel(m *amachine, st *astate, site ssa.CallInstruction, name string, args []aval) ([]aout, bool) {
	switch {
	case name == "sync.NewCond":
		return one(st, aPtr{obj: m.alloc(st, int64Type, m.fresh("cond"))}), true
	case strings.HasSuffix(name, "sync.Cond).Wait"):
		m.waits++
		return nil, true
	case strings.Contains(name, "sync.") && strings.HasPrefix(name, "("):
		return m.syncCall(st, site, name, args), true
	case name == "Lock" || name == "Unlock" || name == "RLock" || name == "RUnlock":
		return one(st), true
	}
	return nil, false
}

func permutations(vs []int64) [][]int64 {
	if len(vs) == 0 {
		return [][]int64{nil}
	}
	var out [][]int64
	for i := range vs {
		rest := append(append([]int64{}, vs[:i]...), vs[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]int64{vs[i]}, p...))
		}
	}
	return out
}

func (c *pipeline) lost(what string) {
	c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: what, Msg: what + " is gone"})
}

// ---- the sequencer ----

func (c *pipeline) sequencers() {
	P := c.P
	mk := P.Func("concurrency", "NewSequencerContainer")
	ins := P.instancesOf(mk)
	if len(ins) == 0 {
		c.lost("concurrency.NewSequencerContainer")
		return
	}
	for _, f := range ins {
		c.sequencer(f)
	}
}

func (c *pipeline) sequencer(mk *ssa.Function) {
	P := c.P
	n, _ := derefType(mk.Signature.Results().At(0).Type()).(*types.Named)
	var elem types.Type
	at := -1
	for i := 0; i < mk.Signature.Params().Len(); i++ {
		if ch, ok := mk.Signature.Params().At(i).Type().Underlying().(*types.Chan); ok {
			elem, at = ch.Elem(), i
		}
	}
	if n == nil || elem == nil {
		c.lost("the channels of " + fnName(mk))
		return
	}
	num := P.methodOfType(elem, "SequenceNumber")
	if num == nil {
		c.lost("the sequence number of " + elem.String())
		return
	}
	// which field the number is kept in
	try := func(bloat int64, order []int64, missing int64) {
		cd := P.codec(c.r, "sequencer", mk)
		m := cd.m
		m.channels = true
		m.maxIter = 40
		m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
			return syncModel(m, st, site, name, args)
		}
		st := m.newState()
		first := m.symbol("first", 0, 1<<40)
		items := map[int64]aval{}
		numberOf := func(st *astate, v aval) (alin, bool) {
			for _, o := range m.run(num, []aval{v}, nil, st.clone()) {
				if i, ok := safeRet(o).(aInt); ok {
					return i.l, true
				}
			}
			return alin{}, false
		}
		for _, k := range order {
			items[k] = m.numbered(st, elem, first.add(aconst(k), 1), numberOf)
			if items[k] == nil {
				c.lost("the number field of " + elem.String())
				return
			}
		}
		out := m.newChan(st, types.NewChan(types.SendRecv, elem))
		var args []aval
		for i := 0; i < mk.Signature.Params().Len(); i++ {
			switch b, _ := mk.Signature.Params().At(i).Type().Underlying().(*types.Basic); {
			case i == at:
				args = append(args, out)
			case b != nil && b.Kind() == types.Int64:
				args = append(args, aInt{first, b})
			default:
				args = append(args, aInt{aconst(bloat), b})
			}
		}
		tag := fmt.Sprintf(" (arrivals %v, bloat limit %d)", order, bloat)
		outs := m.run(mk, args, nil, st)
		if !cd.oblig(len(outs) == 1 && len(m.spawned) == 1 && safeRet(outs[0]) != nil, "constructor", "the container's constructor does not start exactly one worker") {
			return
		}
		st = outs[0].st
		sc, ok := safeRet(outs[0]).(aPtr)
		if !ok {
			cd.oblig(false, "constructor", "the container could not be interpreted")
			return
		}
		in := m.getField(st, sc.obj, "InChan")
		for _, k := range order {
			m.send(st, in, items[k])
		}
		m.closeChan(st, in)
		w := m.spawned[0]
		cd.about(w.fn)
		c.r.count("orders of arrival interpreted", 1)
		ends := m.run(w.fn, w.args, w.bind, st)
		cd.oblig(len(ends) > 0 && len(m.blocked) == 0, "ends", "the worker waits for ever"+tag)
		for _, o := range ends {
			vs, closed, known := m.queued(o.st, out)
			if missing >= 0 {
				cd.oblig(o.panic && known && !closed, "missing", "a missing number is not detected: the output ends as if the chain did"+tag)
			} else {
				cd.oblig(!o.panic && known && closed, "closed", "the output is not closed after the last object"+tag)
				cd.oblig(int64(len(vs)) == int64(len(order)), "count", fmt.Sprintf("%d objects leave instead of %d%s", len(vs), len(order), tag))
			}
			for i, v := range vs {
				if missing >= 0 && int64(i) >= missing {
					cd.oblig(false, "gap", "an object leaves although an earlier one is missing"+tag)
					break
				}
				want, has := items[int64(i)]
				cd.oblig(has && m.samePtr(v, want), "order", fmt.Sprintf("the object leaving as number %d is not the one with that number%s", i, tag))
			}
		}
	}
	for _, bloat := range []int64{1, 2, 100} {
		var all []int64
		for k := int64(0); k <= 6; k++ {
			for _, p := range permutations(all) {
				try(bloat, p, -1)
			}
			all = append(all, k)
		}
		// numbers 0..k without one of them
		for k := int64(1); k <= 4; k++ {
			for miss := int64(0); miss < k; miss++ {
				var some []int64
				for i := int64(0); i <= k; i++ {
					if i != miss {
						some = append(some, i)
					}
				}
				for _, p := range permutations(some) {
					try(bloat, p, miss)
				}
			}
		}
	}
}

// numbered: an object whose number is n.
func (m *amachine) numbered(st *astate, t types.Type, n alin, numberOf func(*astate, aval) (alin, bool)) aval {
	et := derefType(t)
	s, ok := et.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		b, ok := s.Field(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		v := aPtr{obj: m.alloc(st, et, m.fresh("item"))}
		m.setField(st, v.obj, s.Field(i).Name(), aInt{n, b})
		if got, ok := numberOf(st, v); ok && got.String() == n.String() {
			return v
		}
	}
	return nil
}

func (m *amachine) samePtr(x, y aval) bool {
	a, ok1 := x.(aPtr)
	b, ok2 := y.(aPtr)
	return ok1 && ok2 && a == b
}
