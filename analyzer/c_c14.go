package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"linked: the source of blocks gives out a next block only if its previous hash is the hash of the block given out before, compared in every byte, and only to the holder of that block's handle; at the end of the blocks it gives out an invalid handle",
			"height: whatever number the block index gives for a block's hash, anything of the block is written only if that is the height at which the source presents it",
			"transactions: a transaction is stored only at the height at which the source presents it, right after the transaction before it",
		}
		r.Assume = []string{"the source presents the same height each time it is asked", "the indexes give a hash the number of its position in the hash lists (C22, C29)"}
		c := &inOrder{P: P, r: r}
		for _, path := range []string{"Chi", "Cri"} {
			for k := range 32 {
				c.link(path, k, false)
				c.link(path, k, true)
			}
			c.link(path, -1, false)
			c.link(path, -1, true)
			c.height(path)
			for k := range 4 {
				c.genesis(path, k)
			}
		}
		for _, delegated := range []bool{true, false} {
			c.transactions(delegated)
		}
		r.floor("links compared", 132)
		r.floor("first blocks compared", 8)
		r.floor("appends with an unknown index", 2)
		r.floor("appends from a source that gives heights", 2)
		return r
	}
}

type inOrder struct {
	P *Prog
	r *Result
}

// link: blocks whose previous hash differs from the hash of the block before in byte k (-1: not at all),
// right after the genesis block or later.
func (c *inOrder) link(path string, k int, genesis bool) {
	P := c.P
	src := P.Named("intrinsicobjects"+strings.ToLower(path), "OneBlockHolder")
	next := P.Method(src, "NextBlock")
	if next == nil {
		c.r.oblig(false, Finding{Rule: "linked", Func: "next " + path, Msg: "the source of blocks is gone"})
		return
	}
	c.r.count("links compared", 1)
	cd := P.codec(c.r, "linked", next)
	w := newChainWorld(P, cd, genesis)
	w.tag = " (" + path + map[bool]string{true: ", after the genesis block", false: ""}[genesis] + ")"
	m := w.m
	st := m.newState()
	w.blocksToAppend(st, false, genesis)
	w.linkByte = k
	obh := w.holder(st, src, path, aPtr{}, false, genesis)
	if obh == nil {
		cd.oblig(false, "source", "the source of blocks has no known form"+w.tag)
		return
	}
	left := len(w.src)
	if first := P.Method(src, "GenesisBlock"); genesis {
		left--
		var then *astate
		for _, o := range m.run(first, []aval{*obh}, nil, st) {
			if !o.panic && succeeded(o) {
				then = o.st
			}
		}
		if then == nil {
			cd.oblig(false, "first block", "the source does not give out the genesis block"+w.tag)
			return
		}
		st = then
	}
	ask := func(st *astate, h aval) []aout {
		return m.run(next, []aval{*obh, h}, nil, st)
	}
	h, ok := w.currentHandle(st, obh, path)
	if !ok {
		cd.oblig(false, "handle", "how a handle of a block is made is not known"+w.tag)
		return
	}
	given := 0
	for _, o := range ask(st.clone(), h) {
		if o.panic || !succeeded(o) {
			continue
		}
		given++
		if k >= 0 {
			cd.oblig(w.invalid(o.st, *obh, src, o.rets[0]), "previous hash", fmt.Sprintf("a block is given out although its previous hash is not the hash of the block before: they differ in byte %d%s", k, w.tag))
		}
	}
	if k >= 0 {
		return
	}
	cd.oblig(given > 0, "linked block", "no path on which a block is given out"+w.tag)
	// to the holder of another handle
	other, ok := w.otherHandle(st, obh, path)
	if ok {
		for _, o := range ask(st.clone(), other) {
			cd.oblig(o.panic || !succeeded(o) || w.invalid(o.st, *obh, src, o.rets[0]), "other handle", "a block is given out to the holder of a handle that is not the current block's"+w.tag)
		}
	}
	// after the last block
	one := func(o aout) bool { return !o.panic && succeeded(o) }
	sts := []*astate{st}
	for range left {
		var then []*astate
		for _, s := range sts {
			h, _ := w.currentHandle(s, obh, path)
			for _, o := range ask(s, h) {
				if one(o) {
					then = append(then, o.st)
				}
			}
		}
		sts = then
	}
	ended := 0
	for _, s := range sts {
		h, _ := w.currentHandle(s, obh, path)
		for _, o := range ask(s, h) {
			ended++
			cd.oblig(one(o) && w.invalid(o.st, *obh, src, o.rets[0]), "end of blocks", "after the last block the source does not give out an invalid handle"+w.tag)
		}
	}
	cd.oblig(ended > 0, "end of blocks", "no path leads to the end of the blocks"+w.tag)
}

// genesis: a first block whose hash differs from that of the genesis block in one of the bytes that are compared.
func (c *inOrder) genesis(path string, k int) {
	P := c.P
	src := P.Named("intrinsicobjects"+strings.ToLower(path), "OneBlockHolder")
	first := P.Method(src, "GenesisBlock")
	if first == nil {
		c.r.oblig(false, Finding{Rule: "linked", Func: "first " + path, Msg: "the source of blocks is gone"})
		return
	}
	c.r.count("first blocks compared", 1)
	cd := P.codec(c.r, "linked", first)
	w := newChainWorld(P, cd, true)
	m := w.m
	st := m.newState()
	w.blocksToAppend(st, false, true)
	w.genesisByte = k
	obh := w.holder(st, src, path, aPtr{}, false, true)
	if obh == nil {
		cd.oblig(false, "source", "the source of blocks has no known form ("+path+")")
		return
	}
	for _, o := range m.run(first, []aval{*obh}, nil, st) {
		cd.oblig(o.panic || errResultIdx(first.Signature) >= 0 && !succeeded(o), "first block", fmt.Sprintf("a first block is given out although byte %d of its hash is not that of the genesis block (%s)", k, path))
	}
}

// currentHandle of the block the source holds.
func (w *chainWorld) currentHandle(st *astate, obh *aPtr, path string) (aval, bool) {
	m := w.m
	cur, ok := m.getField(st, obh.obj, "currentBlock").(aPtr)
	if !ok {
		return nil, false
	}
	if path != "Chi" {
		return aIface{cur, types.NewPointer(w.P.Named("intrinsicobjectscri", "Block"))}, true
	}
	h, ok := m.intOf(m.getField(st, cur.obj, "blockHeight"))
	if !ok {
		return nil, false
	}
	return w.chiHandle(st, h)
}

func (w *chainWorld) chiHandle(st *astate, h alin) (aval, bool) {
	f := w.P.Func("intrinsicobjectschi", "makeBlockHandle")
	if f == nil {
		return nil, false
	}
	for _, o := range w.m.run(f, []aval{aInt{h, int64Type}}, nil, st) {
		if !o.panic {
			return o.rets[0], true
		}
	}
	return nil, false
}

func (w *chainWorld) otherHandle(st *astate, obh *aPtr, path string) (aval, bool) {
	m := w.m
	if path == "Chi" {
		return w.chiHandle(st, w.base["blocks"].add(aconst(1), 1))
	}
	id := m.alloc(st, w.P.Named("intrinsicobjectscri", "Block"), "")
	in := m.alloc(st, w.P.Named("intrinsicobjects", "Block"), "")
	m.setField(st, in, "BlockHash", w.hash(st, hashOfBlock, 9))
	m.setField(st, id, "intrinsic", aPtr{obj: in})
	return aIface{aPtr{obj: id}, types.NewPointer(w.P.Named("intrinsicobjectscri", "Block"))}, true
}

// invalid: whether a handle given out says there is no block.
func (w *chainWorld) invalid(st *astate, obh aPtr, src *types.Named, h aval) bool {
	m := w.m
	holds := func(outs []aout) bool {
		for _, o := range outs {
			b, ok := o.rets[0].(aBool)
			if o.panic || !ok || !b.known || !b.val {
				return false
			}
		}
		return len(outs) > 0
	}
	if i, ok := h.(aIface); ok {
		f := w.P.methodOfType(i.t, "IsInvalid")
		return f != nil && holds(m.run(f, []aval{i.v}, nil, st.clone()))
	}
	f := w.P.Method(src, "IsBlockHandleInvalid")
	return f != nil && holds(m.run(f, []aval{obh, h}, nil, st.clone()))
}

// height: the index gives any number.
func (c *inOrder) height(path string) {
	P := c.P
	name := map[string]string{"Chi": "AppendBlockChi", "Cri": "AppendBlock"}[path]
	app := P.Method(P.Named("chainstorage", "concreteAppendableChain"), name)
	src := P.Named("intrinsicobjects"+strings.ToLower(path), "OneBlockHolder")
	if app == nil || src == nil || path == "Cri" {
		// the blocks of the other source do not say their height: see transactions
		if path == "Cri" {
			c.r.count("appends with an unknown index", 1)
			return
		}
		c.r.oblig(false, Finding{Rule: "height", Func: "append " + path, Msg: "the operation that appends a block is gone"})
		return
	}
	c.r.count("appends with an unknown index", 1)
	cd := P.codec(c.r, "height", app)
	w := newChainWorld(P, cd, false)
	w.tag = " (" + path + ")"
	m := w.m
	st := m.newState()
	w.blocksToAppend(st, true, false)
	w.free = true
	cac := w.appendable(st, true)
	obh := w.holder(st, src, path, cac, true, false)
	if obh == nil {
		cd.oblig(false, "source", "the source of blocks has no known form"+w.tag)
		return
	}
	w.firstBlock(st, src, obh, path, false, func(st *astate, obhI, h aval) {
		from := len(st.writes)
		good := 0
		for _, o := range m.run(app, []aval{cac, obhI, h}, nil, st) {
			cd.about(app)
			at := m.symbol("index of blkHashes 0", -1, 1<<40)
			if w.appended(o.st, from) {
				good++
				cd.oblig(m.equal(o.st, at, w.base["blocks"]), "height", "something of a block is written although the index of its hash may not be its height"+w.tag)
			}
		}
		cd.oblig(good > 0, "append", "no path on which anything is written"+w.tag)
	})
}

// appended: whether a column has been written since.
func (w *chainWorld) appended(st *astate, from int) bool {
	for _, x := range st.writes[min(from, len(st.writes)):] {
		if strings.HasPrefix(x.file, "col:") {
			return true
		}
	}
	return false
}

// transactions: a source whose blocks and transactions say their heights.
func (c *inOrder) transactions(delegated bool) {
	P := c.P
	app := P.Method(P.Named("chainstorage", "concreteAppendableChain"), "AppendBlock")
	if app == nil {
		c.r.oblig(false, Finding{Rule: "transactions", Func: "append", Msg: "the operation that appends a block is gone"})
		return
	}
	c.r.count("appends from a source that gives heights", 1)
	cd := P.codec(c.r, "transactions", app)
	w := newChainWorld(P, cd, false)
	if delegated {
		w.tag = " (delegated indexing)"
	}
	m := w.m
	st := m.newState()
	w.free = true
	cac := w.appendable(st, delegated)
	blockAt := m.symbol("height of block", -1, 1<<40)
	transAt := []alin{m.symbol("height of transaction 0", 0, 1<<40), m.symbol("height of transaction 1", 0, 1<<40), m.symbol("height of transaction 2", 0, 1<<40)}
	txiAt := m.symbol("height of input", 0, 1<<40)
	txoAt := []alin{m.symbol("height of output 0", 0, 1<<40), m.symbol("height of output 1", 0, 1<<40), m.symbol("height of output 2", 0, 1<<40)}
	w.addrs[1] = m.symbol("address", 0, 1<<40)
	ints := func(st *astate, t types.Type, names []string) aval {
		id := m.alloc(st, derefType(t), "")
		mp := m.alloc(st, derefType(t), "")
		st.heap[mp].isMap = true
		for _, k := range names {
			m.mapSet(st, aPtr{obj: mp}, aStr{s: k, known: true}, aInt{m.symbol("int "+k, 0, 1<<40), int64Type})
		}
		p := aPtr{obj: id, cell: "v"}
		m.writeCell(st, id, "v", alin{}, false, aPtr{obj: mp})
		return p
	}
	w.m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
		o, ok := unwrapped(recv).(aOpaque)
		if recv == nil || !ok || !strings.HasPrefix(o.id, "src:") {
			return w.model(m, st, site, name, recv, args)
		}
		yes := aBool{known: true, val: true}
		res := site.Common().Signature().Results()
		kind := o.id[4:]
		var n int
		fmt.Sscanf(strings.TrimLeft(kind, "transxo"), "%d", &n)
		switch name {
		case "BlockInterface", "TransInterface", "TxiInterface", "TxoInterface", "AddressInterface":
			h, _ := unwrapped(args[0]).(aOpaque)
			return one(st, aOpaque{h.id, res.At(0).Type()}, aErr{}), true
		case "TxiHeight":
			return one(st, aInt{txiAt, int64Type}), true
		case "TxoHeight":
			return one(st, aInt{txoAt[n], int64Type}), true
		case "SourceTxo":
			return one(st, aOpaque{"src:txo0", res.At(0).Type()}, aErr{}), true
		case "ParentTrans":
			return one(st, aOpaque{"src:trans0", res.At(0).Type()}), true
		case "ParentIndex":
			return one(st, aInt{aconst(0), int64Type}), true
		case "Satoshis":
			return one(st, aInt{m.symbol("sats", 0, 1<<40), int64Type}, aErr{}), true
		case "Address":
			return one(st, aOpaque{"src:addr", res.At(0).Type()}, aErr{}), true
		case "HashSpecified", "HeightSpecified", "ParentSpecified", "TxiHeightSpecified", "TxoHeightSpecified":
			return one(st, yes), true
		case "IndicesPathSpecified", "IsInvalid":
			return one(st, aBool{known: true}), true
		case "Hash":
			if kind == "addr" {
				h := []aval{w.hash(st, hashOfAddr, 1)}
				if res.Len() == 2 {
					h = append(h, aErr{})
				}
				return one(st, h...), true
			}
			if kind == "block" {
				return one(st, w.hash(st, hashOfBlock, 0), aErr{}), true
			}
			return one(st, w.hash(st, hashOfTrans, int64(n)), aErr{}), true
		case "Height":
			if kind == "block" {
				return one(st, aInt{blockAt, int64Type}), true
			}
			return one(st, aInt{transAt[n], int64Type}), true
		case "TransactionCount":
			return one(st, aInt{aconst(int64(len(transAt))), int64Type}, aErr{}), true
		case "TxiCount":
			k := int64(0)
			if n == 1 {
				k = 1
			}
			return one(st, aInt{aconst(k), int64Type}, aErr{}), true
		case "TxoCount":
			return one(st, aInt{aconst(1), int64Type}, aErr{}), true
		case "NthTxi":
			return one(st, aOpaque{"src:txi", res.At(0).Type()}, aErr{}), true
		case "NthTxo":
			return one(st, aOpaque{fmt.Sprintf("src:txo%d", n), res.At(0).Type()}, aErr{}), true
		case "NthTransaction":
			k, _ := m.intOf(args[0])
			if k.isConst() && k.c >= 0 && k.c < int64(len(transAt)) {
				return one(st, aOpaque{fmt.Sprintf("src:trans%d", k.c), res.At(0).Type()}, aErr{}), true
			}
		case "NonEssentialInts":
			names := blockInts
			if kind != "block" {
				names = transInts
			}
			return one(st, ints(st, res.At(0).Type(), names), aErr{}), true
		}
		return nil, false
	}
	t := func(i int) types.Type { return app.Params[i].Type() }
	from := len(st.writes)
	good := 0
	for _, o := range m.run(app, []aval{cac, aOpaque{"src:chain", t(1)}, aOpaque{"src:block", t(2)}}, nil, st) {
		cd.about(app)
		cd.rule = "height"
		if !w.appended(o.st, from) {
			continue
		}
		at := m.symbol("index of blkHashes 0", -1, 1<<40)
		cd.oblig(m.equal(o.st, at, blockAt), "height", "something of a block is written although the index of its hash may not be its height"+w.tag)
		cd.rule = "transactions"
		n := map[string]int{}
		for _, x := range o.st.writes[from:] {
			col, isCol := strings.CutPrefix(x.file, "col:")
			if !isCol {
				continue
			}
			switch {
			case strings.HasPrefix(col, "blk") && col != "blkFirstTrans" && col != "blkHashes":
				cd.oblig(m.equal(o.st, x.off, blockAt), col, fmt.Sprintf("a word of a block is written to %s at %v, not at its height%s", col, x.off, w.tag))
			case col == "blkFirstTrans":
				cd.oblig(m.equal(o.st, x.off, blockAt) && m.equal(o.st, intOr(m, x.buf[0]), transAt[0]), col, "the first transaction of a block is not recorded as the source gives it"+w.tag)
			case strings.HasPrefix(col, "txi"), col == "parentTransOfTxi":
				cd.oblig(m.equal(o.st, x.off, txiAt), "input height", fmt.Sprintf("a word of an input is written to %s at %v, which may not be the height the source gives it%s", col, x.off, w.tag))
			case strings.HasPrefix(col, "txo"), col == "parentTransOfTxo":
				k := n[col]
				n[col]++
				cd.oblig(k < len(txoAt) && m.equal(o.st, x.off, txoAt[min(k, len(txoAt)-1)]), "output height", fmt.Sprintf("a word of output %d is written to %s at %v, which may not be the height the source gives it%s", k, col, x.off, w.tag))
			case strings.HasPrefix(col, "trn"), col == "parentBlockOfTrans":
				k := n[col]
				n[col]++
				cd.oblig(k < len(transAt) && m.equal(o.st, x.off, transAt[min(k, len(transAt)-1)]), "transaction height", fmt.Sprintf("a word of transaction %d is written to %s at %v, which may not be the height the source gives it%s", k, col, x.off, w.tag))
			}
		}
		if !o.panic && succeeded(o) {
			good++
			for k := 1; k < len(transAt); k++ {
				cd.oblig(m.equal(o.st, transAt[k], transAt[k-1].add(aconst(1), 1)), "consecutive transactions", "a block whose transactions do not follow one another is stored"+w.tag)
			}
		}
	}
	cd.oblig(good > 0, "append", "no path on which a block is appended"+w.tag)
}

// equal: whether two numbers are the same on a path, by what it has compared.
func (m *amachine) equal(st *astate, x, y alin) bool {
	if m.same(st, x, y) {
		return true
	}
	// what is known to be one number is that number
	value := func(l alin) alin {
		out := aconst(l.c)
		for _, t := range l.terms() {
			if iv := m.ivSym(st, t.sym); iv.lo == iv.hi {
				out = out.add(aconst(iv.lo), t.coef)
			} else {
				out = out.add(asymbol(t.sym), t.coef)
			}
		}
		return out
	}
	var rows []alin
	for _, e := range st.eqs {
		rows = append(rows, value(e))
	}
	d := value(x.add(y, -1))
	for i := range rows {
		ts := rows[i].terms()
		if len(ts) == 0 {
			continue
		}
		without := func(l alin) alin {
			for _, t := range l.terms() {
				if t.sym == ts[0].sym {
					return l.times(ts[0].coef).add(rows[i], -t.coef)
				}
			}
			return l
		}
		for j := i + 1; j < len(rows); j++ {
			rows[j] = without(rows[j])
		}
		d = without(d)
	}
	return d.isConst() && d.c == 0
}

// intOr: a number, or one that equals no other.
func intOr(m *amachine, v aval) alin {
	if l, ok := m.intOf(v); ok {
		return l
	}
	return asymbol(m.fresh("none"))
}
