package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The sequencer's valve: nobody is held up for ever.

func (x *c19) valves() {
	P := x.P
	ins := P.instancesOf(P.Func("concurrency", "NewSequencerContainer"))
	if len(ins) == 0 {
		x.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "concurrency.NewSequencerContainer", Msg: "concurrency.NewSequencerContainer is gone"})
	}
	for _, mk := range ins {
		x.valve(mk)
	}
}

func (x *c19) valve(mk *ssa.Function) {
	P := x.P
	t := derefType(mk.Signature.Results().At(0).Type())
	wait := P.methodOfType(types.NewPointer(t), "WaitForNotBloated")
	var elem types.Type
	at := -1
	for i := 0; i < mk.Signature.Params().Len(); i++ {
		if ch, ok := mk.Signature.Params().At(i).Type().Underlying().(*types.Chan); ok {
			elem, at = ch.Elem(), i
		}
	}
	var num *ssa.Function
	if elem != nil {
		num = P.methodOfType(elem, "SequenceNumber")
	}
	if wait == nil || num == nil {
		x.r.oblig(false, Finding{Rule: "anchor-lost", Func: fnName(mk), Construct: "the sequencer's valve", Msg: "the sequencer's valve could not be found"})
		return
	}
	try := func(bloat int64, order []int64) {
		cd := P.codec(x.r, "throttle", mk)
		m := cd.m
		m.channels = true
		m.maxIter = 40

		m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
			if strings.HasSuffix(name, "sync.Cond).Broadcast") {
				st.calls = append(st.calls, "!wake")
			}
			return syncModel(m, st, site, name, args)
		}
		st := m.newState()
		first := m.symbol("first", 0, 1<<40)
		numberOf := func(st *astate, v aval) (alin, bool) {
			for _, o := range m.run(num, []aval{v}, nil, st.clone()) {
				if i, ok := safeRet(o).(aInt); ok {
					return i.l, true
				}
			}
			return alin{}, false
		}
		var items []aval
		for _, k := range order {
			v := m.numbered(st, elem, first.add(aconst(k), 1), numberOf)
			if v == nil {
				cd.oblig(false, "anchor", "the number field of "+elem.String()+" could not be found")
				return
			}
			items = append(items, v)
		}
		out := m.newChan(st, types.NewChan(types.SendRecv, elem))
		var args []aval
		for i := 0; i < mk.Signature.Params().Len(); i++ {
			switch b, _ := mk.Signature.Params().At(i).Type().Underlying().(*types.Basic); {
			case i == at:
				args = append(args, out)
			case b != nil && b.Kind() == types.Int64:
				args = append(args, aInt{first, b})
			default:
				args = append(args, aInt{aconst(bloat), b})
			}
		}
		outs := m.run(mk, args, nil, st)
		if !cd.oblig(len(outs) == 1 && len(m.spawned) == 1 && safeRet(outs[0]) != nil, "constructor", "the container's constructor does not start exactly one worker") {
			return
		}
		st = outs[0].st
		sc, ok := safeRet(outs[0]).(aPtr)
		if !ok {
			cd.oblig(false, "constructor", "the container could not be interpreted")
			return
		}
		w := m.spawned[0]
		in := m.getField(st, sc.obj, "InChan")
		// held up after the first n arrivals?
		held := func(n int, done bool) (wakes int, waits, decided bool) {
			s := st.clone()
			for _, v := range items[:n] {
				m.send(s, in, v)
			}
			if done {
				m.closeChan(s, in)
			}
			m.blocked = nil
			ends := m.run(w.fn, w.args, w.bind, s)
			var after *astate
			switch {
			case done && len(ends) == 1 && len(m.blocked) == 0 && !ends[0].panic:
				after = ends[0].st
			case !done && len(ends) == 0 && len(m.blocked) == 1:
				after = m.blocked[0].st
			default:
				return 0, false, false
			}
			for _, c := range after.calls {
				if c == "!wake" {
					wakes++
				}
			}
			vs, _, known := m.queued(after, out)
			m.waits = 0
			rs := m.run(wait, []aval{sc}, nil, after.clone())
			if !known || len(rs)+m.waits != 1 {
				return 0, false, false
			}
			x.r.count("sequencer states in which the valve is tried", 1)
			cd.about(wait)
			cd.oblig(m.waits == 0 || len(vs) < n, "stuck", fmt.Sprintf("after arrivals %v with bloat limit %d the container is empty and still holds up the stream: nothing will ever open it", order[:n], bloat))
			return wakes, m.waits > 0, true
		}
		pw, prev := 0, false
		for n := 0; n <= len(items)+1; n++ {
			k, done := n, false
			if n > len(items) {
				k, done = len(items), true
			}
			wk, waits, ok := held(k, done)
			if !cd.oblig(ok, "decided", fmt.Sprintf("the worker could not be followed after arrivals %v with bloat limit %d", order[:k], bloat)) {
				return
			}
			cd.oblig(!prev || waits || wk > pw, "woken", fmt.Sprintf("after arrivals %v with bloat limit %d the stream may go on, but those waiting are not woken", order[:k], bloat))
			pw, prev = wk, waits
		}

	}
	for _, bloat := range []int64{1, 2, 3} {
		for _, p := range permutations([]int64{0, 1, 2, 3}) {
			try(bloat, p)
		}
		try(bloat, []int64{5, 4, 3, 2, 1, 0})
		try(bloat, []int64{3, 1, 2, 0, 6, 5, 4})
	}
}

// results: variables a worker writes are left alone until it has been waited for.
func (x *c19) results() {
	us := x.channels()
	threads := x.threads()
	for _, t := range sortedFns(keysFn(threads)) {
		written := map[ssa.Value]bool{}
		for g := range x.w.tree(t) {
			hasInstr(g, func(in ssa.Instruction) bool {
				if s, ok := in.(*ssa.Store); ok {
					if v := variable(s.Addr); v != nil && v.Parent() != g && !x.w.tree(t)[v.Parent()] {
						written[v] = true
					}
				}
				return false
			})
		}
		if len(written) == 0 {
			continue
		}
		groups := x.groupsDone(t, threads[t])
		join := func(in ssa.Instruction) bool {
			if c, ok := in.(ssa.CallInstruction); ok {
				if v, n := libMethod(c, "sync.WaitGroup"); n == "Wait" && meets(x.w.from(v), groups) {
					return true
				}
			}
			for _, u := range us {
				if u.recvs[in] && x.w.within(t, func(in ssa.Instruction) bool { return u.sends[in] }) {
					return true
				}
				if u.ranges[in] && (x.w.within(t, func(in ssa.Instruction) bool { return u.closes[in] }) || x.closedAfter(u, groups, threads)) {
					return true
				}
			}
			return false
		}
		for _, site := range threads[t] {
			f := site.Parent()
			for _, v := range sortedVals(written) {
				if v.Parent() != f {
					continue
				}
				x.r.count("variables written by workers", 1)
				p := x.query([]string{"joined", "touched", "started"}, nil, nil)
				p.protocol()
				p.norm = nil
				p.match = x.matcher(func(s ssa.CallInstruction) []int {
					if s == site {
						return []int{2}
					}
					if join(s) {
						return []int{0}
					}
					return nil
				})
				p.instr = func(in ssa.Instruction, ctx *rctx) []int {
					switch y := in.(type) {
					case *ssa.UnOp:
						if y.Op == token.MUL && variable(y.X) == v {
							return []int{1}
						}
						if join(in) {
							return []int{0}
						}
					case *ssa.Store:
						if variable(y.Addr) == v {
							return []int{1}
						}
					}
					return nil
				}
				for _, o := range p.outcomes(f, &rctx{f: f}) {
					x.oblig(o.vec[2] == 0, "results-after-workers", f, v.(*ssa.Alloc).Comment+" written by "+fnName(t), o.last.Pos(), "a path uses the variable "+v.(*ssa.Alloc).Comment+" before the goroutine writing it has been waited for", x.P.pathText(o.path))
				}
			}
		}
	}
}

// closedAfter: the channel is closed by a goroutine that waits for the group.
func (x *c19) closedAfter(u *chanUse, groups map[ssa.Value]bool, threads map[*ssa.Function][]ssa.CallInstruction) bool {
	for t := range threads {
		if x.w.within(t, func(in ssa.Instruction) bool { return u.closes[in] }) && x.w.within(t, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			v, n := libMethod(c, "sync.WaitGroup")
			return n == "Wait" && meets(x.w.from(v), groups)
		}) {
			return true
		}
	}
	return false
}

// variable: the (captured) variable an address is of.
func variable(a ssa.Value) ssa.Value {
	for {
		switch t := a.(type) {
		case *ssa.Alloc:
			return t
		case *ssa.FreeVar:
			b := bindingOf(t)
			if b == nil {
				return nil
			}
			a = b
		default:
			return nil
		}
	}
}

func sortedVals(m map[ssa.Value]bool) []ssa.Value {
	var out []ssa.Value
	for v := range m {
		out = append(out, v)
	}
	for i := range out {
		for j := i; j > 0 && out[j].Pos() < out[j-1].Pos(); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}
