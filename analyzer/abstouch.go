package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// atouch is one entry of the trace of memory accesses: an access of a cell,
// of a store, or a mark of what the goroutines did.
type atouch struct {
	prev *atouch
	kind string // "r", "w", or a mark
	obj  int
	cell string
	at   ssa.Instruction
}

func (m *amachine) log(st *astate, t atouch) {
	t.prev = st.trace
	st.trace = &t
}

// touched: the memory an address refers to is read or written.
func (m *amachine) touched(st *astate, kind string, addr aval, at ssa.Instruction) {
	if !m.watch {
		return
	}
	switch p := addr.(type) {
	case aPtr:
		o := st.heap[p.obj]
		switch {
		case p.cell != "" && p.idx && !p.off.isConst():
			m.log(st, atouch{kind: kind, obj: p.obj, cell: "*", at: at})
		case p.cell != "":
			m.log(st, atouch{kind: kind, obj: p.obj, cell: p.cell, at: at})
			if o != nil {
				if s, ok := o.cells[p.cell].v.(aSub); ok {
					m.touchedAll(st, kind, s.obj, at)
				}
			}
		default:
			m.touchedAll(st, kind, p.obj, at)
		}
	case aSlice:
		m.touchedAll(st, kind, p.obj, at)
	case aNil:
	default:
		m.log(st, atouch{kind: "unknown " + kind, at: at})
	}
}

func (m *amachine) touchedAll(st *astate, kind string, obj int, at ssa.Instruction) {
	if obj < 0 {
		return
	}
	m.log(st, atouch{kind: kind, obj: obj, cell: "*", at: at})
	if o := st.heap[obj]; o != nil {
		for _, c := range o.cells {
			if s, ok := c.v.(aSub); ok {
				m.touchedAll(st, kind, s.obj, at)
			}
		}
	}
}

// mark what a goroutine does.
func (m *amachine) mark(st *astate, kind string, at ssa.CallInstruction) {
	if m.watch {
		m.log(st, atouch{kind: kind, at: at})
	}
}

// traceOf: the entries in order.
func traceOf(st *astate) []*atouch {
	var out []*atouch
	for t := st.trace; t != nil; t = t.prev {
		out = append(out, t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// clash: two accesses of the same place, one of which writes.
func clash(x, y *atouch) bool {
	return x.obj == y.obj && (x.kind == "w" || y.kind == "w") &&
		(x.kind == "w" || x.kind == "r") && (y.kind == "w" || y.kind == "r") &&
		(x.cell == y.cell || x.cell == "*" || y.cell == "*")
}

// syncCall: a method of package sync.
func (m *amachine) syncCall(st *astate, site ssa.CallInstruction, name string, args []aval) []aout {
	obj := -1
	if len(args) > 0 {
		if p, ok := args[0].(aPtr); ok {
			obj = p.obj
		}
	}
	switch {
	case strings.HasSuffix(name, ").Done"), strings.HasSuffix(name, "Unlock"):
		m.markOf(st, "send all", obj)
	case strings.HasSuffix(name, "Lock"):
		m.markOf(st, "recv all", obj)
	case strings.HasSuffix(name, "WaitGroup).Wait") && m.demand:
		outs := m.runAll(st)
		for _, o := range outs {
			m.markOf(o.st, "recv all", obj)
		}
		return outs
	case strings.HasSuffix(name, "WaitGroup).Go") && m.demand && len(args) == 2:
		fn, ok := args[1].(aFn)
		if !ok {
			m.giveUp("an unknown function is started")
			return one(st)
		}
		s := aspawn{fn: fn.fn, bind: fn.bind, site: site, group: obj + 1}
		m.mark(st, "spawn", site)
		m.spawned = append(m.spawned, s)
		st.pending = append(st.pending[:len(st.pending):len(st.pending)], s)
	}
	return one(st)
}

// runAll runs the goroutines that have not run.
func (m *amachine) runAll(st *astate) []aout {
	if len(st.pending) == 0 {
		return one(st)
	}
	var out []aout
	for _, o := range m.runPending(st) {
		if o.panic {
			out = append(out, o)
			continue
		}
		out = append(out, m.runAll(o.st)...)
	}
	return out
}

func (m *amachine) markOf(st *astate, kind string, obj int) {
	if m.watch {
		m.log(st, atouch{kind: kind, obj: obj})
	}
}

// inGoroutine: a goroutine started by what is watched is running.
func (m *amachine) inGoroutine(st *astate) bool {
	n := 0
	for t := st.trace; t != nil; t = t.prev {
		switch t.kind {
		case "begin":
			n++
		case "end":
			n--
		}
	}
	return n > 0
}
