package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C33"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"stored: appending the next two blocks of a chain, through either interface, puts every word of every column where the source has it: block, transaction, input, output and address, after a history of any length",
			"read back: what the stored chain gives back for those blocks, their transactions, inputs, outputs and addresses, by number, by hash and by navigation, is what the source had",
			"hashes stored: the hash lists receive the hash of every block, transaction and output address, in the order of the chain",
		}
		r.Assume = []string{"the indexes give every hash the number of its first occurrence in the hash lists (C22, C29)", "the columns keep what is written (C12)"}
		c := &storedChain{P: P, r: r}
		for _, path := range []string{"Chi", "Cri"} {
			for _, delegated := range []bool{true, false} {
				c.history(path, delegated, false)
			}
			c.history(path, true, true)
			c.hashes(path, false)
			c.hashes(path, true)
		}
		r.floor("histories interpreted", 6)
		r.floor("chains read back", 6)
		r.floor("hash histories interpreted", 4)
		return r
	}
}

type storedChain struct {
	P *Prog
	r *Result
}

var blockInts = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
var transInts = []string{"size", "vsize", "weight"}

// columns of a stored chain, by their field.
var transColumns = []string{"trnFirstTxi", "trnFirstTxo", "parentBlockOfTrans"}
var inColumns = []string{"txiTx", "txiVout", "parentTransOfTxi"}
var outColumns = []string{"txoSats", "txoAddress", "txoSpentTxi", "parentTransOfTxo"}

func (c *storedChain) history(path string, delegated, genesis bool) {
	P := c.P
	app := P.Method(P.Named("chainstorage", "concreteAppendableChain"), map[string]string{"Chi": "AppendBlockChi", "Cri": "AppendBlock"}[path])
	src := P.Named("intrinsicobjects"+strings.ToLower(path), "OneBlockHolder")
	if app == nil || src == nil || P.Method(src, "NextBlock") == nil {
		c.r.oblig(false, Finding{Rule: "stored", Func: "append " + path, Msg: "the operation that appends a block, or the source of blocks, is gone"})
		return
	}
	c.r.count("histories interpreted", 1)
	cd := P.codec(c.r, "stored", app)
	w := newChainWorld(P, cd, genesis)
	w.tag = " (" + path + map[bool]string{true: ", delegated indexing", false: ""}[delegated] + map[bool]string{true: ", the first two blocks", false: ""}[genesis] + ")"
	m := w.m
	st := m.newState()
	w.blocksToAppend(st, delegated, genesis)
	cac := w.appendable(st, delegated)
	obh := w.holder(st, src, path, cac, delegated, genesis)
	if obh == nil {
		cd.oblig(false, "source", "the source of blocks has no known form"+w.tag)
		return
	}
	cacI := aIface{cac, types.NewPointer(P.Named("chainstorage", "concreteAppendableChain"))}
	names := map[string]string{"Chi": "AppendBlockChi", "Cri": "AppendBlock"}
	finished, read := 0, 0
	w.firstBlock(st, src, obh, path, genesis, func(st *astate, obhI, h aval) {
		w.median(st, obh, 0)
		w.call(st, cacI, names[path], []aval{obhI, h}, func(st *astate, rets []aval) {
			w.call(st, obhI, "NextBlock", []aval{h}, func(st *astate, rets []aval) {
				w.median(st, obh, 1)
				w.call(st, cacI, names[path], []aval{obhI, rets[0]}, func(st *astate, _ []aval) {
					finished++
					w.stored(st)
					if !w.pinned(st) {
						read++
						cd.rule = "read back"
						w.readBack(st, cacI)
						cd.rule = "stored"
					}
				})
			})
		})
	})
	cd.about(app).oblig(finished > 0, "append", "no path on which two blocks are appended"+w.tag)
	c.r.count("ends of histories", finished)
	c.r.count("chains read back", read)
}

// firstBlock of the source: the handle of the block to append first.
func (w *chainWorld) firstBlock(st *astate, src *types.Named, obh *aPtr, path string, genesis bool, then func(st *astate, obhI, h aval)) {
	obhI := aIface{*obh, types.NewPointer(src)}
	if genesis {
		w.call(st, obhI, "GenesisBlock", nil, func(st *astate, rets []aval) { then(st, obhI, rets[0]) })
		return
	}
	var h aval
	if path == "Chi" {
		f := w.P.Func("intrinsicobjectschi", "makeBlockHandle")
		if f == nil {
			w.cd.oblig(false, "handle", "how a handle of a block is made is not known"+w.tag)
			return
		}
		for _, o := range w.m.run(f, []aval{aInt{w.base["blocks"].add(aconst(1), -1), int64Type}}, nil, st) {
			if !o.panic {
				h = o.rets[0]
				st = o.st
			}
		}
	} else {
		cur := w.m.getField(st, obh.obj, "currentBlock").(aPtr)
		h = aIface{cur, types.NewPointer(w.P.Named("intrinsicobjectscri", "Block"))}
	}
	w.call(st, obhI, "NextBlock", []aval{h}, func(st *astate, rets []aval) { then(st, obhI, rets[0]) })
}

func newChainWorld(P *Prog, cd *codec, genesis bool) *chainWorld {
	m := cd.m
	w := &chainWorld{P: P, m: m, cd: cd, base: map[string]alin{}, blocks: map[int64]alin{}, trans: map[int64][]alin{}, addrs: map[int64]alin{}, counts: map[string]alin{}, lists: map[int]string{}, linkByte: -1, genesisByte: -1, genesis: genesis}
	m.channels, m.demand = true, true
	m.maxIter = 40
	m.maxSteps = 6000000
	m.model = w.model
	w.hashT = P.Named("indexedhashes", "Sha256")
	sym := func(n string, lo int64) alin {
		if genesis {
			return aconst(0)
		}
		return m.symbol(n, lo, 1<<31-10)
	}
	b, f, i, o, a := sym("blocks", 12), sym("transactions", 20), sym("inputs", 1), sym("outputs", 20), sym("addresses", 5)
	w.base["blocks"] = b
	for _, k := range transColumns {
		w.base[k] = f
	}
	for _, k := range inColumns {
		w.base[k] = i
	}
	for _, k := range outColumns {
		w.base[k] = o
	}
	w.base["blkFirstTrans"] = b
	w.base["addrFirstTxo"] = a
	for _, k := range blockInts {
		w.base["blk "+k] = b
	}
	for _, k := range transInts {
		w.base["trn "+k] = f
	}
	w.base["blkHashList"], w.base["trnHashList"], w.base["adrHashList"] = b, f, m.symbol("addresses listed", 0, 1<<40)
	return w
}

// blocksToAppend: what the source has.
func (w *chainWorld) blocksToAppend(st *astate, delegated, genesis bool) {
	m := w.m
	b, f, a := w.base["blocks"], w.base["trnFirstTxi"], w.base["addrFirstTxo"]
	sats := func(n string) alin { return m.symbol("sats"+n, 0, 2100000000000000) }
	vout := func(n string) alin { return m.symbol("vout"+n, 0, 1<<32-1) }
	earlier := int64(7) // a transaction before these
	if genesis {
		earlier = 0
		w.trans[earlier] = []alin{f}
	} else {
		w.trans[earlier] = []alin{m.symbol("earlier transaction", 0, 19)}
		w.addrs[9] = m.symbol("earlier address", 0, 4)
	}
	old := int64(9)
	if genesis {
		old = 3
	}
	dup := int64(3)
	if delegated && !genesis {
		dup = 0 // its hash repeats that of an earlier coinbase
	}
	w.src = []chainBlock{
		{hash: 0, txs: []chainTx{
			{hash: 0, inHash: []int64{-1}, vouts: []alin{vout("0")}, scripts: []int64{1}, sats: []alin{sats("0")}},
			{hash: 1, inHash: []int64{earlier, 0}, vouts: []alin{vout("1"), vout("2")}, scripts: []int64{old, 1}, sats: []alin{sats("1"), sats("2")}},
			{hash: 2, inHash: []int64{1}, vouts: []alin{vout("3")}, scripts: []int64{}, sats: []alin{}},
		}},
		{hash: 1, txs: []chainTx{
			{hash: dup, inHash: []int64{-1, -1}, vouts: []alin{vout("4"), vout("5")}, scripts: []int64{2, 1}, sats: []alin{sats("3"), sats("4")}},
			{hash: 4, inHash: []int64{2}, vouts: []alin{vout("6")}, scripts: []int64{2, old, 4}, sats: []alin{sats("5"), sats("6"), sats("7")}},
		}},
	}
	n := int64(0)
	for i := range w.src {
		w.blocks[w.src[i].hash] = b.add(aconst(int64(i)), 1)
		w.src[i].ints = map[string]alin{}
		for _, k := range blockInts {
			w.src[i].ints[k] = m.symbol(fmt.Sprintf("block%d %s", i, k), 0, 1<<32-1)
		}
		for j := range w.src[i].txs {
			t := &w.src[i].txs[j]
			t.ints = map[string]alin{}
			for _, k := range transInts {
				t.ints[k] = m.symbol(fmt.Sprintf("trans%d %s", n, k), 0, 1<<32-1)
			}
			at := f.add(aconst(n), 1)
			if !(genesis && t.hash == 0 && n == 0) {
				w.trans[t.hash] = append(w.trans[t.hash], at)
			}
			n++
		}
	}
	// the list of addresses has an entry per output: the first use of each is its number
	w.addrs[1] = a
	if genesis {
		w.addrs[3] = a.add(aconst(1), 1)
	}
	w.addrs[2] = a.add(aconst(3), 1)
	w.addrs[4] = a.add(aconst(7), 1)
	w.counts["blkHashes"] = b.add(aconst(2), 1)
	w.counts["trnHashes"] = f.add(aconst(n), 1)
	w.counts["addrHashes"] = a.add(aconst(8), 1)
}

func (w *chainWorld) appendable(st *astate, delegated bool) aPtr {
	m := w.m
	n := w.P.Named("chainstorage", "concreteAppendableChain")
	id := m.alloc(st, n, "")
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Interface:
			m.setField(st, id, f.Name(), aOpaque{"col:" + f.Name(), f.Type()})
		case *types.Map:
			mp := m.alloc(st, f.Type(), "")
			st.heap[mp].isMap = true
			kind, names := "blk ", blockInts
			if strings.HasPrefix(f.Name(), "trn") {
				kind, names = "trn ", transInts
			}
			for _, k := range names {
				m.mapSet(st, aPtr{obj: mp}, aStr{s: k, known: true}, aOpaque{"col:" + kind + k, f.Type().Underlying().(*types.Map).Elem()})
			}
			m.setField(st, id, f.Name(), aPtr{obj: mp})
		case *types.Basic:
			m.setField(st, id, f.Name(), aBool{known: true, val: delegated})
		}
	}
	// what was appended before
	for k, v := range map[string]alin{"PrevTrans": w.base["trnFirstTxi"], "PrevFirstTxo": w.base["txoSats"]} {
		if g, ok := w.P.SSA.ImportedPackage(modulePath + "/chainstorage").Members[k].(*ssa.Global); ok {
			if !v.isConst() {
				v = v.add(aconst(1), -1)
			}
			m.writeCell(st, m.global(st, g), "v", alin{}, false, aInt{v, int64Type})
		}
	}
	return aPtr{obj: id}
}

// holder of the source's blocks, with the blocks waiting in its channel.
func (w *chainWorld) holder(st *astate, n *types.Named, path string, cac aPtr, delegated, genesis bool) *aPtr {
	m, P := w.m, w.P
	var indexer aval = aNil{}
	if delegated {
		indexer = aIface{cac, types.NewPointer(P.Named("chainstorage", "concreteAppendableChain"))}
	}
	_, cht := fieldKeyOf(n, "InChan")
	if cht == nil {
		return nil
	}
	var id int
	var ch aval
	if genesis {
		// a new holder
		var outs []aout
		for _, f := range P.FuncsIn("intrinsicobjects" + strings.ToLower(path)) {
			res := f.Signature.Results()
			if f.Signature.Recv() == nil && len(f.Params) == 1 && res.Len() == 1 && derefType(res.At(0).Type()) == types.Type(n) {
				outs = append(outs, m.run(f, []aval{indexer}, nil, st)...)
			}
		}
		if len(outs) != 1 || outs[0].panic {
			return nil
		}
		*st = *outs[0].st
		p, ok := outs[0].rets[0].(aPtr)
		if !ok {
			return nil
		}
		id, ch = p.obj, m.getField(st, p.obj, "InChan")
	} else {
		id = m.alloc(st, n, "")
		ch = m.newChan(st, cht)
	}
	blkT := P.Named("intrinsicobjects", "Block")
	for i := range w.src {
		m.send(st, ch, w.intrinsic(st, blkT, i))
	}
	m.closeChan(st, ch)
	if genesis {
		return &aPtr{obj: id}
	}
	m.setField(st, id, "InChan", ch)
	one32 := types.Typ[types.Uint32]
	var times []aval
	for i := 0; i < 11; i++ {
		v := m.symbol(fmt.Sprintf("time before %d", i), 0, 1<<32-1)
		w.times = append(w.times, v)
		times = append(times, aInt{v, one32})
	}
	m.setField(st, id, "timestampsForMedian", m.sliceOf(st, one32, times...))
	f := w.base["trnFirstTxi"].add(aconst(1), -1)
	b := w.base["blocks"].add(aconst(1), -1)
	m.setField(st, id, "latestTransactionVisited", aInt{f, int64Type})
	m.setField(st, id, "currentBlockHeight", aInt{b, int64Type})
	m.setField(st, id, "transactionIndexer", indexer)
	prev := m.alloc(st, blkT, "")
	hash := w.hash(st, hashOfBlock, 10).(aAgg)
	if k := aconst(int64(w.linkByte)); w.linkByte >= 0 {
		hash.o.cells[k.String()] = acell{k, aInt{aconst(201), byteType}}
	}
	m.setField(st, prev, "BlockHash", hash)
	cur := m.alloc(st, P.Named("intrinsicobjects"+strings.ToLower(path), "Block"), "")
	m.setField(st, cur, "intrinsic", aPtr{obj: prev})
	m.setField(st, cur, "blockHeight", aInt{b, int64Type})
	m.setField(st, id, "currentBlock", aPtr{obj: cur})
	return &aPtr{obj: id}
}

// intrinsic block i of the source.
func (w *chainWorld) intrinsic(st *astate, blkT *types.Named, i int) aval {
	m, P := w.m, w.P
	b := w.src[i]
	id := m.alloc(st, blkT, "")
	num := func(obj int, name string, v alin) {
		_, t := fieldKeyOf(st.heap[obj].typ, name)
		if t == nil {
			w.cd.oblig(false, "source "+name, "blocks of the source have no "+name)
			return
		}
		m.setField(st, obj, name, aInt{v, basicOf(t)})
	}
	bh := w.hash(st, hashOfBlock, b.hash).(aAgg)
	if k := aconst(int64(w.genesisByte)); w.genesisByte >= 0 {
		bh.o.cells[k.String()] = acell{k, aInt{aconst(201), byteType}}
	}
	// (the hash of a genesis block starts with four given bytes)
	if k := aconst(int64(w.linkByte)); w.linkByte >= 4 && w.genesis && i == 0 {
		bh.o.cells[k.String()] = acell{k, aInt{aconst(201), byteType}}
	}
	m.setField(st, id, "BlockHash", bh)
	prev := int64(10)
	if i > 0 {
		prev = w.src[i-1].hash
	}
	ph := w.hash(st, hashOfBlock, prev).(aAgg)
	if k := aconst(int64(w.linkByte)); w.linkByte >= 0 && !(w.genesis && i == 0) {
		ph.o.cells[k.String()] = acell{k, aInt{aconst(200), byteType}}
	}
	m.setField(st, id, "PrevHash", ph)
	num(id, "Time", b.ints["time"])
	num(id, "Size", b.ints["size"])
	num(id, "Weight", b.ints["weight"])
	num(id, "StrippedSize", b.ints["strippedsize"])
	m.setField(st, id, "Difficulty", aOpaque{"float:" + b.ints["difficulty"].String(), types.Typ[types.Float64]})
	txT, inT, outT, stT := P.Named("intrinsicobjects", "Transaction"), P.Named("intrinsicobjects", "Txi"), P.Named("intrinsicobjects", "Txo"), P.Named("intrinsicobjects", "MultiTransactionStorage")
	var txs, ins, outs, bytes []aval
	for _, t := range b.txs {
		x := m.alloc(st, txT, "")
		m.setField(st, x, "TxId", w.hash(st, hashOfTrans, t.hash))
		num(x, "TxisStart", aconst(int64(len(ins))))
		num(x, "TxisCount", aconst(int64(len(t.inHash))))
		num(x, "TxosStart", aconst(int64(len(outs))))
		num(x, "TxosCount", aconst(int64(len(t.scripts))))
		num(x, "Size", t.ints["size"])
		num(x, "Weight", t.ints["weight"])
		num(x, "VSize", t.ints["vsize"])
		for k, h := range t.inHash {
			y := m.alloc(st, inT, "")
			if h >= 0 {
				m.setField(st, y, "TxId", w.hash(st, hashOfTrans, h))
			} else {
				m.setField(st, y, "TxId", w.hash(st, hashOfNull, 0))
			}
			num(y, "VOut", t.vouts[k])
			ins = append(ins, aAgg{m.snapshot(st, y)})
		}
		for k, a := range t.scripts {
			y := m.alloc(st, outT, "")
			num(y, "Value", t.sats[k])
			num(y, "ScriptPubKeyStart", aconst(int64(len(bytes))))
			num(y, "ScriptPubKeyLen", aconst(int64(len(script(a)))))
			for _, v := range script(a) {
				bytes = append(bytes, aInt{aconst(v), byteType})
			}
			outs = append(outs, aAgg{m.snapshot(st, y)})
		}
		txs = append(txs, aAgg{m.snapshot(st, x)})
	}
	s := m.alloc(st, stT, "")
	m.setField(st, s, "Txis", m.sliceOf(st, inT, ins...))
	m.setField(st, s, "Txos", m.sliceOf(st, outT, outs...))
	m.setField(st, s, "Scripts", m.sliceOf(st, byteType, bytes...))
	m.setField(st, id, "Storage", aPtr{obj: s})
	m.setField(st, id, "Transactions", m.sliceOf(st, txT, txs...))
	return aPtr{obj: id}
}

// call a method; every path on which it fails is reported.
func (w *chainWorld) call(st *astate, v aval, name string, args []aval, then func(st *astate, rets []aval)) {
	i, ok := v.(aIface)
	if !ok {
		w.cd.oblig(false, name, fmt.Sprintf("%s of a %T%s", name, v, w.tag))
		return
	}
	f := w.P.methodOfType(i.t, name)
	if n, _ := derefType(i.t).(*types.Named); n != nil {
		if g := w.P.Method(n, name); g != nil && g.Blocks != nil {
			f = g
		}
	}
	if f == nil {
		w.cd.oblig(false, name, fmt.Sprintf("%s has no %s%s", typeKey(derefType(i.t)), name, w.tag))
		return
	}
	for _, o := range w.m.run(f, append([]aval{i.v}, args...), nil, st) {
		if o.panic || !succeeded(o) {
			why := "fails"
			if o.panic {
				why = "panics"
			}
			w.cd.about(f).oblig(false, name+" "+why, name+" "+why+" although nothing is wrong"+w.tag)
			continue
		}
		then(o.st, o.rets)
	}
}

// median: the median time of the block just received.
func (w *chainWorld) median(st *astate, obh *aPtr, i int) {
	m := w.m
	cur, ok := m.getField(st, obh.obj, "currentBlock").(aPtr)
	if !ok {
		w.cd.oblig(false, "median time", "there is no current block"+w.tag)
		return
	}
	v, ok := m.intOf(m.getField(st, cur.obj, "medianTime"))
	if !ok {
		w.cd.oblig(false, "median time", "the median time is not a number"+w.tag)
		return
	}
	times := slices.Clone(w.times)
	for k := 0; k <= i; k++ {
		times = append(times, w.src[k].ints["time"])
	}
	last := times[max(0, len(times)-11):]
	want := medianSymbol(m, last)
	w.cd.oblig(m.same(st, v, want), "median time", fmt.Sprintf("the median time of a block is %v, not the middle one of the last %d times%s", v, len(last), w.tag))
	w.src[i].ints["mediantime"] = v
}

func medianSymbol(m *amachine, last []alin) alin {
	if len(last) == 1 {
		return last[0]
	}
	return m.symbol(sortedName("up", len(last)/2, last), 0, 1<<32-1)
}

func sortedName(order string, i int, vs []alin) string {
	var ids []string
	for _, v := range vs {
		ids = append(ids, v.String())
	}
	slices.Sort(ids)
	return fmt.Sprintf("sorted %s %d of {%s}", order, i, strings.Join(ids, ","))
}

// expect a word of a column.
func (w *chainWorld) expect(st *astate, col string, at, want alin, what string) {
	v, eof := w.word(st, col, at)
	if eof {
		w.cd.oblig(false, col, fmt.Sprintf("%s has no word for %s%s", col, what, w.tag))
		return
	}
	l, ok := w.m.intOf(v)
	w.cd.oblig(ok && w.m.same(st, l, want), col, fmt.Sprintf("%s holds %v for %s instead of %v%s", col, v, what, want, w.tag))
}

// stored: every column holds what the source has.
func (w *chainWorld) stored(st *astate) {
	m := w.m
	plus := func(a alin, n int64) alin { return a.add(aconst(n), 1) }
	b, t, i, o := w.base["blocks"], w.base["trnFirstTxi"], w.base["txiTx"], w.base["txoSats"]
	uses := map[int64][]alin{}
	var order []int64
	for bi, blk := range w.src {
		what := fmt.Sprintf("block %d", bi)
		w.expect(st, "blkFirstTrans", b, t, what)
		for _, k := range blockInts {
			w.expect(st, "blk "+k, b, blk.ints[k], what)
		}
		for ti, tx := range blk.txs {
			what := fmt.Sprintf("transaction %d of block %d", ti, bi)
			w.expect(st, "parentBlockOfTrans", t, b, what)
			w.expect(st, "trnFirstTxi", t, i, what)
			w.expect(st, "trnFirstTxo", t, o, what)
			for _, k := range transInts {
				w.expect(st, "trn "+k, t, tx.ints[k], what)
			}
			for k, h := range tx.inHash {
				if ti == 0 {
					break
				}
				what := fmt.Sprintf("input %d of %s", k, what)
				w.expect(st, "txiTx", i, w.trans[h][0], what)
				w.expect(st, "txiVout", i, tx.vouts[k], what)
				w.expect(st, "parentTransOfTxi", i, t, what)
				i = plus(i, 1)
			}
			for k, a := range tx.scripts {
				what := fmt.Sprintf("output %d of %s", k, what)
				w.expect(st, "txoSats", o, tx.sats[k], what)
				w.expect(st, "txoAddress", o, w.addrs[a], what)
				w.expect(st, "txoSpentTxi", o, aconst(0), what)
				w.expect(st, "parentTransOfTxo", o, t, what)
				if uses[a] == nil {
					order = append(order, a)
				}
				uses[a] = append(uses[a], o)
				o = plus(o, 1)
			}
			t = plus(t, 1)
		}
		b = plus(b, 1)
	}
	for _, a := range order {
		us := uses[a]
		what := fmt.Sprintf("address %d", a)
		if !m.below(st, w.addrs[a], w.base["addrFirstTxo"]) {
			w.expect(st, "addrFirstTxo", w.addrs[a], us[0], what)
			us = us[1:]
		}
		var got []aval
		for _, x := range st.writes {
			if x.file == "col:addrAdditionalTxos" && m.same(st, x.off, w.addrs[a]) {
				got = append(got, x.buf[0])
			}
		}
		ok := len(got) == len(us)
		for k := range us {
			ok = ok && sameInt(m, st, got[k], us[k])
		}
		w.cd.oblig(ok, "addrAdditionalTxos", fmt.Sprintf("the further outputs of %s are %v instead of %v%s", what, got, us, w.tag))
	}
	for col, n := range map[string]alin{"blkFirstTrans": b, "trnFirstTxi": t, "trnFirstTxo": t, "parentBlockOfTrans": t, "txiTx": i, "txiVout": i, "parentTransOfTxi": i, "txoSats": o, "txoAddress": o, "txoSpentTxi": o, "parentTransOfTxo": o} {
		c, ok := w.count(st, col)
		w.cd.oblig(ok && m.same(st, c, n), col+" length", fmt.Sprintf("%s ends with %v words instead of %v%s", col, c, n, w.tag))
	}
	// nothing of what was stored before is changed
	for _, x := range st.writes {
		col := strings.TrimPrefix(x.file, "col:")
		if col == "addrAdditionalTxos" || col == "addrFirstTxo" {
			continue
		}
		n, ok := w.base[col]
		w.cd.oblig(ok && !m.refine(st.clone(), token.LSS, x.off.add(n, -1)), col+" history", fmt.Sprintf("a word of %s stored earlier is written over%s", col, w.tag))
	}
}

// hashes of two blocks are appended to the hash lists.
func (c *storedChain) hashes(path string, genesis bool) {
	P := c.P
	chc := P.Named("chainstorage", "concreteHashesChain")
	name := map[string]string{"Chi": "AppendHashesChi", "Cri": "AppendHashesCri"}[path]
	app := P.Method(chc, name)
	src := P.Named("intrinsicobjects"+strings.ToLower(path), "OneBlockHolder")
	if app == nil || src == nil || P.Method(src, "NextBlock") == nil {
		c.r.oblig(false, Finding{Rule: "hashes stored", Func: "append hashes " + path, Msg: "the operation that appends the hashes of a block, or the source of blocks, is gone"})
		return
	}
	c.r.count("hash histories interpreted", 1)
	cd := P.codec(c.r, "hashes stored", app)
	w := newChainWorld(P, cd, genesis)
	w.tag = " (" + path + map[bool]string{true: ", the first two blocks", false: ""}[genesis] + ")"
	m := w.m
	st := m.newState()
	w.blocksToAppend(st, false, genesis)
	id := m.alloc(st, chc, "")
	s := chc.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); strings.HasSuffix(f.Name(), "HashList") {
			w.hashList(st, id, i, f)
		}
	}
	obh := w.holder(st, src, path, aPtr{}, false, genesis)
	if obh == nil {
		cd.oblig(false, "source", "the source of blocks has no known form"+w.tag)
		return
	}
	chcI := aIface{aPtr{obj: id}, types.NewPointer(chc)}
	args := func(obhI, h aval, n int64) []aval {
		if path == "Chi" {
			return []aval{obhI, h}
		}
		return []aval{obhI, h, aInt{w.base["blocks"].add(aconst(n), 1), int64Type}}
	}
	finished := 0
	w.firstBlock(st, src, obh, path, genesis, func(st *astate, obhI, h aval) {
		w.call(st, chcI, name, args(obhI, h, 0), func(st *astate, _ []aval) {
			w.call(st, obhI, "NextBlock", []aval{h}, func(st *astate, rets []aval) {
				w.call(st, chcI, name, args(obhI, rets[0], 1), func(st *astate, _ []aval) {
					finished++
					cd.about(app)
					w.listed(st)
				})
			})
		})
	})
	cd.about(app).oblig(finished > 0, "append", "no path on which the hashes of two blocks are appended"+w.tag)
	c.r.count("ends of hash histories", finished)
}

// listed: the hash lists have got the hashes in order.
func (w *chainWorld) listed(st *astate) {
	type kh struct{ kind, k int64 }
	want := map[string][]kh{}
	for _, b := range w.src {
		want["blkHashList"] = append(want["blkHashList"], kh{hashOfBlock, b.hash})
		for _, t := range b.txs {
			want["trnHashList"] = append(want["trnHashList"], kh{hashOfTrans, t.hash})
			for _, a := range t.scripts {
				want["adrHashList"] = append(want["adrHashList"], kh{hashOfAddr, a})
			}
		}
	}
	for col, hs := range want {
		var got []aval
		for _, x := range st.writes {
			if x.file == "col:"+col {
				got = append(got, x.buf[0])
			}
		}
		w.cd.oblig(len(got) == len(hs), col, fmt.Sprintf("%s receives %d hashes instead of %d%s", col, len(got), len(hs), w.tag))
		for i := range min(len(got), len(hs)) {
			kind, k, ok := w.whichHash(st, got[i])
			w.cd.oblig(ok && kh{kind, k} == hs[i], col, fmt.Sprintf("hash %d appended to %s is not the one the source has there%s", i, col, w.tag))
		}
	}
}

// hashList: field i of an object is a list of hashes, by value, by reference or behind an interface.
func (w *chainWorld) hashList(st *astate, id, i int, f *types.Var) {
	m := w.m
	n, _ := derefType(f.Type()).(*types.Named)
	if n == nil || types.IsInterface(n) {
		m.setField(st, id, f.Name(), aOpaque{"col:" + f.Name(), f.Type()})
		return
	}
	var to int
	if _, ptr := f.Type().(*types.Pointer); ptr {
		to = m.alloc(st, n, "")
		m.setField(st, id, f.Name(), aPtr{obj: to})
	} else {
		to = m.sub(st, id, fmt.Sprint(i), alin{}, n)
	}
	w.lists[to] = f.Name()
}
