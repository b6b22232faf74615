package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The world of a stored chain: its columns are tables of words at symbolic positions, its indexes lists of hashes.  A
// history of any length lies before what is interpreted: the number of blocks, transactions, inputs, outputs and
// addresses already there are symbols.

type chainTx struct {
	hash    int64   // which hash
	inHash  []int64 // of the transactions spent (-1: the null hash of a coinbase)
	vouts   []alin
	scripts []int64 // of the outputs: which address
	sats    []alin
	ints    map[string]alin
}

type chainBlock struct {
	hash int64
	txs  []chainTx
	ints map[string]alin
}

type chainWorld struct {
	P           *Prog
	m           *amachine
	cd          *codec
	tag         string
	base        map[string]alin  // the words of each column before
	blocks      map[int64]alin   // hash of a block -> its number
	trans       map[int64][]alin // hash of a transaction -> its numbers
	addrs       map[int64]alin   // hash of an address -> its number
	counts      map[string]alin  // of the indexes
	hashT       types.Type
	src         []chainBlock
	times       []alin
	lists       map[int]string // the objects that are lists of hashes
	genesis     bool           // the chain starts with the source's first block
	genesisByte int            // in which the hash of the first block is not that of the genesis block
	linkByte    int            // in which a block's previous hash differs from the hash of the block before
	faults      bool           // one operation of a goroutine on a column may fail
	free        bool           // the numbers the indexes give are any numbers
}

const (
	hashOfBlock = 1
	hashOfTrans = 2
	hashOfAddr  = 3
	hashOfNull  = 4
)

// hash k of a kind: different hashes differ in their first two bytes.
func (w *chainWorld) hash(st *astate, kind, k int64) aval {
	h := w.m.symArray(st, w.hashT.Underlying(), fmt.Sprintf("h%d_%d_", kind, k)).(aAgg)
	for i, v := range []int64{kind, k} {
		if kind == hashOfBlock && k == 0 && w.base["txiTx"].isConst() {
			break
		}
		off := aconst(int64(i))
		h.o.cells[off.String()] = acell{off, aInt{aconst(v), byteType}}
	}
	if kind == hashOfBlock && k == 0 && w.base["txiTx"].isConst() {
		// the genesis block
		for i, v := range []int64{0x6f, 0xe2, 0x8c, 0x0a} {
			off := aconst(int64(i))
			h.o.cells[off.String()] = acell{off, aInt{aconst(v), byteType}}
		}
	}
	return h
}

// whichHash a value is: its first two bytes say it.
func (w *chainWorld) whichHash(st *astate, v aval) (kind, k int64, ok bool) {
	bs := w.m.arrayBytes(st, v, 32)
	if len(bs) != 32 {
		return 0, 0, false
	}
	for _, kk := range []int64{hashOfBlock, hashOfTrans, hashOfAddr, hashOfNull} {
		for i := int64(0); i < 12; i++ {
			hb := w.m.arrayBytes(st, w.hash(st, kk, i), 32)
			same := true
			for j := range hb {
				same = same && hb[j] == bs[j]
			}
			if same {
				return kk, i, true
			}
		}
	}
	return 0, 0, false
}

// column an opaque value stands for.
func columnOf(v aval) string {
	for {
		switch x := v.(type) {
		case aIface:
			v = x.v
			continue
		case aOpaque:
			if strings.HasPrefix(x.id, "col:") {
				return x.id[4:]
			}
		}
		return ""
	}
}

// differ: whether two positions cannot be the same.
func (m *amachine) differ(st *astate, x, y alin) bool {
	d := x.add(y, -1)
	if iv := m.ivOf(st, d); iv.lo > 0 || iv.hi < 0 {
		return true
	}
	return !m.refine(st.clone(), token.EQL, d)
}

// below: whether x < y always.
func (m *amachine) below(st *astate, x, y alin) bool {
	d := y.add(x, -1)
	if iv := m.ivOf(st, d); iv.lo > 0 {
		return true
	}
	return !m.refine(st.clone(), token.LEQ, d)
}

// count of the words in a column.
func (w *chainWorld) count(st *astate, col string) (alin, bool) {
	n, ok := w.base[col]
	if !ok {
		return alin{}, false
	}
	for _, x := range st.writes {
		if x.file != "col:"+col || x.n.isConst() && x.n.c < 0 {
			continue
		}
		switch {
		case w.m.same(st, x.off, n):
			n = n.add(aconst(1), 1)
		case w.m.below(st, x.off, n):
		case w.m.below(st, n, x.off):
			n = x.off.add(aconst(1), 1)
		default:
			w.m.giveUp("the number of words in " + col)
			return n, false
		}
	}
	return n, true
}

// word at a position.
func (w *chainWorld) word(st *astate, col string, at alin) (v aval, eof bool) {
	m := w.m
	for i := len(st.writes) - 1; i >= 0; i-- {
		x := st.writes[i]
		if x.file != "col:"+col {
			continue
		}
		if m.same(st, x.off, at) {
			return x.buf[0], false
		}
		if !m.differ(st, x.off, at) {
			m.giveUp("a word of " + col + " at a place that may have been written")
			return aInt{asymbol(m.fresh("word")), int64Type}, false
		}
	}
	n, ok := w.count(st, col)
	if !ok {
		return aInt{asymbol(m.fresh("word")), int64Type}, false
	}
	if !m.below(st, at, n) {
		return nil, true
	}
	if !m.below(st, at, w.base[col]) {
		return aInt{aconst(0), int64Type}, false // a gap
	}
	return aInt{m.symbol(fmt.Sprintf("%s[%s]", col, at.String()), 0, 1<<40), int64Type}, false
}

func (w *chainWorld) model(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	if outs, ok := syncModel(m, st, site, name, args); ok {
		return outs, true
	}
	if p, ok := one1(args).(aPtr); ok && recv == nil && p.cell == "" && w.lists[p.obj] != "" && strings.HasSuffix(name, ".AppendHash") {
		if m.watch {
			m.log(st, atouch{kind: "w", obj: -1, cell: "col:" + w.lists[p.obj], at: site})
		}
		return w.appendHash(st, site, w.lists[p.obj], args[1:])
	}
	if recv == nil {
		switch {
		case strings.HasSuffix(name, "indexedhashes.HashOfBytes"):
			vs, ok := m.sliceVals(st, args[0])
			if ok && len(vs) > 0 {
				if l, ok := m.intOf(vs[0]); ok && l.isConst() {
					good := len(vs) == len(script(l.c))
					for i, b := range script(l.c) {
						if good {
							k, ok := m.intOf(vs[i])
							good = ok && k.isConst() && k.c == b
						}
					}
					if good {
						return one(st, w.hash(st, hashOfAddr, l.c)), true
					}
				}
			}
			return one(st, w.hash(st, hashOfAddr, 11)), true
		case name == "sort.Slice" && len(args) == 2:
			return w.sorted(st, args)
		case name == "slices.Sort":
			return nil, false
		case name == "math.Round":
			if x, ok := args[0].(aOpaque); ok && strings.HasPrefix(x.id, "float:") {
				return one(st, aInt{m.symbol(x.id[6:], 0, 1<<53), types.Typ[types.Float64]}), true
			}
			return nil, false
		}
		return nil, false
	}
	col := columnOf(recv)
	if col == "" {
		return nil, false
	}
	if m.watch {
		m.log(st, atouch{kind: "w", obj: -1, cell: "col:" + col, at: site})
	}
	if w.faults && !st.bools["half failed"] && m.inGoroutine(st) {
		res := site.Common().Signature().Results()
		if n := res.Len(); n > 0 && isErrorType(res.At(n-1).Type()) {
			a := st.clone()
			a.bools["half failed"] = true
			bad := aout{st: a}
			for i := 0; i < n-1; i++ {
				bad.rets = append(bad.rets, m.unknownVal(a, res.At(i).Type(), m.fresh("none")))
			}
			bad.rets = append(bad.rets, aErr{id: "!half failed"})
			st.bools["half failed"] = true // not again within this call
			outs, ok := w.model(m, st, site, name, recv, args)
			for _, o := range outs {
				delete(o.st.bools, "half failed")
			}
			return append(outs, bad), ok
		}
	}
	errOut := func(id string) []aval {
		var out []aval
		res := site.Common().Signature().Results()
		for i := 0; i < res.Len()-1; i++ {
			out = append(out, m.unknownVal(st, res.At(i).Type(), m.fresh("none")))
		}
		return append(out, aErr{id: id})
	}
	arg := func(i int) alin {
		l, ok := m.intOf(args[i])
		if !ok {
			m.giveUp("a position that is not a number")
			return asymbol(m.fresh("pos"))
		}
		return l
	}
	switch name {
	case "WriteWordAt":
		st.writes = append(st.writes[:len(st.writes):len(st.writes)], awrite{file: "col:" + col, off: arg(1), buf: []aval{args[0]}, site: site})
		return one(st, aErr{}), true
	case "ReadWordAt":
		v, eof := w.word(st, col, arg(0))
		if eof {
			return one(st, errOut("!eof")...), true
		}
		return one(st, v, aErr{}), true
	case "CountWords":
		n, _ := w.count(st, col)
		return one(st, aInt{n, int64Type}, aErr{}), true
	case "AppendToArray":
		st.writes = append(st.writes[:len(st.writes):len(st.writes)], awrite{file: "col:" + col, off: arg(0), n: aconst(-1), buf: []aval{args[1]}, site: site})
		return one(st, aErr{}), true
	case "GetArray":
		vs := []aval{}
		at := arg(0)
		if m.below(st, at, w.base["addrFirstTxo"]) {
			vs = append(vs, aInt{m.symbol(fmt.Sprintf("%s[%s]", col, at.String()), 0, 1<<40), int64Type})
		}
		for _, x := range st.writes {
			if x.file == "col:"+col {
				if m.same(st, x.off, at) {
					vs = append(vs, x.buf[0])
				} else if !m.differ(st, x.off, at) {
					m.giveUp("an array that may have been appended to")
				}
			}
		}
		return one(st, m.sliceOf(st, int64Type, vs...), aErr{}), true
	case "CountHashes":
		n, ok := w.counts[col]
		if !ok {
			return nil, false
		}
		vs := []aval{aInt{n, int64Type}}
		if site.Common().Signature().Results().Len() == 2 {
			vs = append(vs, aErr{})
		}
		return one(st, vs...), true
	case "IndexOfHash":
		kind, k, ok := w.whichHash(st, m.load(st, args[0], w.hashT))
		if !ok {
			m.giveUp("an unknown hash is looked up")
		}
		n := aconst(-1)
		switch {
		case col == "blkHashes" && kind == hashOfBlock:
			if b, ok := w.blocks[k]; ok {
				n = b
			}
		case col == "trnHashes" && kind == hashOfTrans:
			if b, ok := w.trans[k]; ok {
				n = b[0]
			}
		case col == "addrHashes" && kind == hashOfAddr:
			if b, ok := w.addrs[k]; ok {
				n = b
			}
		}
		if w.free && col != "addrHashes" {
			n = m.symbol(fmt.Sprintf("index of %s %d", col, k), -1, 1<<40)
		}
		return one(st, aInt{n, int64Type}, aErr{}), true
	case "GetHashAtIndex":
		at := arg(0)
		var h aval
		switch col {
		case "blkHashes":
			for k, b := range w.blocks {
				if m.same(st, b, at) {
					h = w.hash(st, hashOfBlock, k)
				}
			}
		case "trnHashes":
			for k, bs := range w.trans {
				for _, b := range bs {
					if m.same(st, b, at) {
						h = w.hash(st, hashOfTrans, k)
					}
				}
			}
		case "addrHashes":
			for k, b := range w.addrs {
				if m.same(st, b, at) {
					h = w.hash(st, hashOfAddr, k)
				}
			}
		}
		if h == nil {
			h = w.hash(st, hashOfNull, 11)
		}
		m.store(st, args[1], h)
		return one(st, aErr{}), true
	case "AppendHash":
		return w.appendHash(st, site, col, args)
	}
	return nil, false
}

func one1(args []aval) aval {
	if len(args) == 0 {
		return nil
	}
	return args[0]
}

func (w *chainWorld) appendHash(st *astate, site ssa.CallInstruction, col string, args []aval) ([]aout, bool) {
	n := int64(0)
	for _, x := range st.writes {
		if x.file == "col:"+col {
			n++
		}
	}
	st.writes = append(st.writes[:len(st.writes):len(st.writes)], awrite{file: "col:" + col, off: aconst(n), buf: []aval{args[0]}, site: site})
	return one(st, aInt{w.base[col].add(aconst(n), 1), int64Type}, aErr{}), true
}

// sorted: sort.Slice with a comparison that is "less than" of the elements.
func (w *chainWorld) sorted(st *astate, args []aval) ([]aout, bool) {
	m := w.m
	s, ok := unwrapped(args[0]).(aSlice)
	fn, ok2 := args[1].(aFn)
	if !ok || !ok2 || !s.n.isConst() {
		return nil, false
	}
	vs, ok := m.sliceVals(st, s)
	if !ok {
		return nil, false
	}
	if len(vs) < 2 {
		return one(st), true
	}
	less := func(a, b int64) (bool, bool) {
		t := st.clone()
		for i, v := range []int64{a, b} {
			o := s.off.add(aconst(int64(i)), 1)
			m.writeCell(t, s.obj, o.String(), o, true, aInt{aconst(v), types.Typ[types.Uint32]})
		}
		outs := m.run(fn.fn, []aval{aInt{aconst(0), intType}, aInt{aconst(1), intType}}, fn.bind, t)
		if len(outs) != 1 || outs[0].panic {
			return false, false
		}
		b1, ok := outs[0].rets[0].(aBool)
		return ok && b1.known && b1.val, ok && b1.known
	}
	l1, k1 := less(1, 2)
	l2, k2 := less(2, 1)
	order := "?"
	if k1 && k2 && l1 != l2 {
		order = map[bool]string{true: "up", false: "down"}[l1]
	}
	var ls []alin
	for _, v := range vs {
		l, ok := m.intOf(v)
		if !ok {
			return nil, false
		}
		ls = append(ls, l)
	}
	for i := range vs {
		o := s.off.add(aconst(int64(i)), 1)
		m.writeCell(st, s.obj, o.String(), o, true, aInt{m.symbol(sortedName(order, i, ls), 0, 1<<32-1), types.Typ[types.Uint32]})
	}
	return one(st), true
}

// script of an address.
func script(addr int64) []int64 {
	out := []int64{addr}
	for i := int64(0); i <= addr%3; i++ {
		out = append(out, 77)
	}
	return out
}
