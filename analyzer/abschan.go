package main

// Channels in the abstract interpreter: a channel is a queue of values with a
// mark for "closed".  A send appends, a receive takes the oldest value; on a
// closed and empty channel a receive gives the zero value, on an open and
// empty one the path waits (it is counted and left).  A send on, or a second
// close of, a closed channel panics.  Capacity is not modelled: a send never
// waits.  Spawned goroutines are recorded, to be interpreted one by one.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type aspawn struct {
	fn    *ssa.Function
	args  []aval
	bind  []aval
	st    *astate
	site  ssa.CallInstruction
	group int // of the wait group it belongs to, 1 + its object
}

func (m *amachine) newChan(st *astate, t types.Type) aval {
	id := m.alloc(st, t, "")
	o := st.heap[id]
	o.cells["head"] = acell{alin{}, aInt{aconst(0), intType}}
	o.cells["tail"] = acell{alin{}, aInt{aconst(0), intType}}
	return aPtr{obj: id}
}

// chanOf: the queue a value stands for (-1: not known).
func (m *amachine) chanOf(st *astate, v aval) (*aobj, int) {
	p, ok := v.(aPtr)
	if !ok {
		return nil, -1
	}
	o := st.heap[p.obj]
	if o == nil {
		return nil, -1
	}
	if _, ok := o.cells["tail"]; !ok {
		return nil, -1
	}
	return o, p.obj
}

func (o *aobj) count(k string) int64 {
	if c, ok := o.cells[k]; ok {
		return c.v.(aInt).l.c
	}
	return 0
}

func (m *amachine) send(st *astate, ch, v aval) bool {
	o, id := m.chanOf(st, ch)
	if o == nil {
		m.giveUp("send on an unknown channel")
		return true
	}
	if o.count("closed") != 0 {
		return false
	}
	m.markOf(st, "send", id)
	o = st.mut(id)
	if p, ok := v.(aPtr); ok && m.logSends {
		st.calls = append(st.calls, fmt.Sprint("!send ", p.obj))
	}
	n := o.count("tail")
	o.cells["q"+strconv.FormatInt(n, 10)] = acell{alin{}, v}
	o.cells["tail"] = acell{alin{}, aInt{aconst(n + 1), intType}}
	return true
}

func (m *amachine) recv(st *astate, ch aval, t *ssa.UnOp) (aval, bool) {
	et := t.Type()
	if t.CommaOk {
		et = et.(*types.Tuple).At(0).Type()
	}
	mk := func(v aval, ok bool) aval {
		if t.CommaOk {
			return aTuple{v, aBool{known: true, val: ok}}
		}
		return v
	}
	o, id := m.chanOf(st, ch)
	if o == nil {
		m.giveUp("receive from an unknown channel")
		if debugPanics {
			fmt.Printf("unknown channel at %s: %T\n", m.P.Pos(t.Pos()), ch)
		}
		return m.unknownVal(st, t.Type(), m.fresh("recv")), true
	}
	h, n := o.count("head"), o.count("tail")
	if h < n {
		m.markOf(st, "recv", id)
		v := o.cells["q"+strconv.FormatInt(h, 10)].v
		st.mut(id).cells["head"] = acell{alin{}, aInt{aconst(h + 1), intType}}
		return mk(v, true), true
	}
	if o.count("closed") != 0 {
		m.markOf(st, "recv all", id)
		return mk(m.zero(st, et), false), true
	}
	return nil, false
}

type ablocked struct {
	st *astate
	at *ssa.UnOp
	ch aval
}

func (m *amachine) closeChan(st *astate, ch aval) bool {
	o, id := m.chanOf(st, ch)
	if o == nil {
		m.giveUp("close of an unknown channel")
		return true
	}
	if o.count("closed") != 0 {
		return false
	}
	m.markOf(st, "send all", id)
	st.mut(id).cells["closed"] = acell{alin{}, aInt{aconst(1), intType}}
	return true
}

// queued: what is in a channel, and whether it is closed.
func (m *amachine) queued(st *astate, ch aval) (vs []aval, closed, known bool) {
	o, _ := m.chanOf(st, ch)
	if o == nil {
		return nil, false, false
	}
	for i := o.count("head"); i < o.count("tail"); i++ {
		vs = append(vs, o.cells["q"+strconv.FormatInt(i, 10)].v)
	}
	return vs, o.count("closed") != 0, true
}

func (m *amachine) spawn(fr *aframe, t *ssa.Go) {
	cc := t.Call
	s := aspawn{st: fr.st.clone(), site: t}
	for _, a := range cc.Args {
		s.args = append(s.args, m.val(fr, a))
	}
	s.fn = cc.StaticCallee()
	if fn, ok := m.val(fr, cc.Value).(aFn); ok && (s.fn == nil || len(s.fn.FreeVars) > 0) {
		s.fn, s.bind = fn.fn, fn.bind
	}
	if s.fn == nil {
		m.giveUp("go statement on an unknown function in " + fnName(fr.f))
		return
	}
	m.spawned = append(m.spawned, s)
	if m.demand {
		m.mark(fr.st, "spawn", t)
		s.st = nil
		fr.st.pending = append(fr.st.pending[:len(fr.st.pending):len(fr.st.pending)], s)
	}
}

// runPending runs the goroutine started last; those it needs run when it waits.
func (m *amachine) runPending(st *astate) []aout {
	n := len(st.pending) - 1
	s := st.pending[n]
	st.pending = st.pending[:n:n]
	m.mark(st, "begin", s.site)
	outs := m.run(s.fn, s.args, s.bind, st)
	for _, o := range outs {
		if s.group > 0 {
			m.markOf(o.st, "send all", s.group-1)
		}
		m.mark(o.st, "end", s.site)
	}
	return outs
}

// ---- maps ----

// mapLen: how many keys a map has, when all of them are known.
func (m *amachine) mapLen(st *astate, p aPtr) (int64, bool) {
	o := st.heap[p.obj]
	if o.unknown != "" {
		return 0, false
	}
	n := int64(0)
	for k, c := range o.cells {
		if strings.HasPrefix(k, "#") {
			if b, ok := c.v.(aBool); !ok || !b.known {
				return 0, false
			} else if b.val {
				n++
			}
		}
	}
	return n, true
}

// mapDelete removes a key, when it is known which it is.
func (m *amachine) mapDelete(st *astate, mp, k aval) bool {
	if _, isNil := mp.(aNil); isNil {
		return true
	}
	p, ok := mp.(aPtr)
	if !ok {
		return false
	}
	key := m.mapKey(st, k)
	if key == "" {
		return false
	}
	for q := range st.heap[p.obj].cells {
		if strings.TrimPrefix(q, "#") != key && !m.distinct(st, q, key) {
			return false
		}
	}
	o := st.mut(p.obj)
	delete(o.cells, key)
	if o.unknown == "" {
		delete(o.cells, "#"+key)
	} else {
		o.cells["#"+key] = acell{alin{}, aBool{known: true, val: false}}
	}
	return true
}

// iterate over a map: its keys in one order.
func (m *amachine) iterate(st *astate, v aval) aval {
	if _, isNil := v.(aNil); isNil {
		return aIter{m: v}
	}
	p, ok := v.(aPtr)
	if !ok {
		return aIter{m: v}
	}
	o := st.heap[p.obj]
	if o == nil || !o.isMap || o.unknown != "" {
		if debugForks {
			fmt.Println("iterate: not a known map", v, o, o != nil, o != nil && o.isMap)
		}
		return aIter{m: v}
	}
	m.touched(st, "r", v, nil)
	it := aIter{m: v, at: m.alloc(st, int64Type, "")}
	for k, c := range o.cells {
		if !strings.HasPrefix(k, "#") {
			continue
		}
		if b, ok := c.v.(aBool); !ok || !b.known {
			return aIter{m: v}
		} else if !b.val {
			continue
		}
		if o.keys[k[1:]] == nil {
			return aIter{m: v}
		}
		it.keys = append(it.keys, k[1:])
	}
	sort.Strings(it.keys)
	it.known = true
	m.writeCell(st, it.at, "v", alin{}, false, aInt{aconst(0), intType})
	return it
}

func (m *amachine) nextKey(fr *aframe, t *ssa.Next) (aval, bool) {
	it, ok := m.val(fr, t.Iter).(aIter)
	if !ok {
		return nil, false
	}
	tt := t.Type().(*types.Tuple)
	none := aTuple{aBool{known: true}, aTop{}, aTop{}}
	if _, isNil := it.m.(aNil); isNil {
		return none, true
	}
	if !it.known {
		return nil, false
	}
	st := fr.st
	i := m.readCell(st, it.at, "v", alin{}, false, int64Type).(aInt).l.c
	if i >= int64(len(it.keys)) {
		return none, true
	}
	m.writeCell(st, it.at, "v", alin{}, false, aInt{aconst(i + 1), intType})
	o := st.heap[it.m.(aPtr).obj]
	k := it.keys[i]
	var v aval = aTop{}
	if tt.At(2).Type() != types.Typ[types.Invalid] {
		c, ok := o.cells[k]
		if !ok {
			return nil, false
		}
		v = c.v
		if s, ok := v.(aSub); ok {
			v = aAgg{m.snapshot(st, s.obj)}
		}
	}
	return aTuple{aBool{known: true, val: true}, o.keys[k], v}, true
}

// termKey splits the key of an integer into its terms and its constant.
func termKey(k string) (string, int64, bool) {
	k = strings.TrimPrefix(k, "#")
	if k == "" || strings.ContainsAny(k, "{}@\"") {
		return "", 0, false
	}
	i := strings.LastIndexByte(k, ' ')
	if i > 0 && (k[i+1] == '+' || k[i+1] == '-') {
		if n, err := strconv.ParseInt(k[i+1:], 10, 64); err == nil {
			return k[:i], n, true
		}
	}
	return k, 0, true
}
