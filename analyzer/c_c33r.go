package main

import (
	"fmt"
)

// chainReader asks a stored chain for what it has, through its reading interfaces.
type chainReader struct {
	w   *chainWorld
	st  *astate
	crc aval
	bad bool
}

// ask a method of a value; nil if there is no single answer.
func (q *chainReader) ask(v aval, name string, args ...aval) []aval {
	w := q.w
	i, ok := v.(aIface)
	if !ok {
		if !q.bad {
			w.cd.oblig(false, "read "+name, fmt.Sprintf("%s is asked of a %T%s", name, v, w.tag))
		}
		q.bad = true
		return nil
	}
	f := w.P.methodOfType(i.t, name)
	if f == nil {
		w.cd.oblig(false, "read "+name, fmt.Sprintf("%s has no %s%s", typeKey(derefType(i.t)), name, w.tag))
		q.bad = true
		return nil
	}
	w.cd.about(f)
	outs := w.m.run(f, append([]aval{i.v}, args...), nil, q.st)
	if len(outs) != 1 || outs[0].panic || !succeeded(outs[0]) {
		what := "does not succeed"
		if len(outs) == 1 && outs[0].panic {
			what = "panics"
		} else if len(outs) > 1 {
			what = "has no single answer"
		}
		w.cd.oblig(false, "read "+name, fmt.Sprintf("%s.%s %s%s", typeKey(derefType(i.t)), name, what, w.tag))
		q.bad = true
		return nil
	}
	q.st = outs[0].st
	return outs[0].rets
}

func (q *chainReader) one(v aval, name string, args ...aval) aval {
	if rs := q.ask(v, name, args...); len(rs) > 0 {
		return rs[0]
	}
	return nil
}

func (q *chainReader) number(v aval, name string, want alin, what string, args ...aval) {
	rs := q.ask(v, name, args...)
	if len(rs) == 0 {
		return
	}
	l, ok := q.w.m.intOf(rs[0])
	q.w.cd.oblig(ok && q.w.m.same(q.st, l, want), "read "+name, fmt.Sprintf("%s of %s is %v instead of %v%s", name, what, rs[0], want, q.w.tag))
}

func (q *chainReader) hash(v aval, kind, k int64, what string) {
	rs := q.ask(v, "Hash")
	if len(rs) == 0 {
		return
	}
	kk, n, ok := q.w.whichHash(q.st, rs[0])
	q.w.cd.oblig(ok && kk == kind && n == k, "read Hash", fmt.Sprintf("the hash of %s is not the one it has in the source%s", what, q.w.tag))
}

func (q *chainReader) yes(v aval, name, what string) {
	if r := q.one(v, name); r != nil {
		b, ok := r.(aBool)
		q.w.cd.oblig(ok && b.known && b.val, "read "+name, fmt.Sprintf("%s of %s does not hold%s", name, what, q.w.tag))
	}
}

func (q *chainReader) ints(v aval, names []string, want map[string]alin, what string) {
	r := q.one(v, "NonEssentialInts")
	if r == nil {
		return
	}
	m := q.w.m
	p, ok := r.(aPtr)
	var mp aval
	if ok {
		f := q.w.P.methodOfType(v.(aIface).t, "NonEssentialInts")
		mp = m.load(q.st, p, derefType(f.Signature.Results().At(0).Type()))
	}
	mo, ok2 := mp.(aPtr)
	for _, k := range names {
		good := false
		var got aval
		if ok && ok2 {
			if c, has := q.st.heap[mo.obj].cells[m.mapKey(q.st, aStr{s: k, known: true})]; has {
				got = c.v
				l, isInt := m.intOf(c.v)
				good = isInt && m.same(q.st, l, want[k])
			}
		}
		q.w.cd.oblig(good, "read NonEssentialInts", fmt.Sprintf("%s of %s is %v instead of %v%s", k, what, got, want[k], q.w.tag))
	}
}

// readBack: everything the source had is found again.
func (w *chainWorld) readBack(st *astate, cac aval) {
	plus := func(a alin, n int64) alin { return a.add(aconst(n), 1) }
	num := func(l alin) aval { return aInt{l, int64Type} }
	q := &chainReader{w: w, st: st.clone()}
	q.crc = q.one(cac, "GetAsChainReadInterface")
	if q.crc == nil {
		return
	}
	b, t, i, o := w.base["blocks"], w.base["trnFirstTxi"], w.base["txiTx"], w.base["txoSats"]
	genesis := b.isConst()
	if !genesis {
		// what came before is as it was
		h := q.one(q.crc, "BlockHandleByHeight", num(plus(b, -1)))
		before := q.one(q.crc, "BlockInterface", h)
		if v, eof := w.word(q.st, "blkFirstTrans", plus(b, -1)); !eof {
			l, _ := w.m.intOf(v)
			q.number(before, "TransactionCount", t.add(l, -1), "the block before")
		}
		h = q.one(q.crc, "TransactionHandleByHeight", num(plus(t, -1)))
		tx := q.one(q.crc, "TransInterface", h)
		for name, col := range map[string]string{"TxiCount": "trnFirstTxi", "TxoCount": "trnFirstTxo"} {
			if v, eof := w.word(q.st, col, plus(t, -1)); !eof {
				l, _ := w.m.intOf(v)
				q.number(tx, name, map[string]alin{"TxiCount": i, "TxoCount": o}[name].add(l, -1), "the transaction before")
			}
		}
		q.number(q.one(q.crc, "NextBlock", q.one(q.crc, "BlockHandleByHeight", num(plus(b, -1)))), "Height", b, "the block after the last one before")
	} else {
		q.number(q.one(q.crc, "GenesisBlock"), "Height", aconst(0), "the genesis block")
		q.number(q.one(q.crc, "GenesisTransaction"), "Height", aconst(0), "the genesis transaction")
	}
	uses := map[int64][]alin{}
	first := map[int64]alin{} // first output of each transaction
	lastB, lastT := b, t
	for bi := range w.src {
		lastB = plus(b, int64(bi))
		for range w.src[bi].txs {
			lastT = plus(lastT, 1)
		}
	}
	lastT = plus(lastT, -1)
	q.number(q.one(q.crc, "LatestBlock"), "Height", lastB, "the latest block")
	q.number(q.one(q.crc, "LatestTransaction"), "Height", lastT, "the latest transaction")
	q.yes(q.one(q.crc, "NextBlock", q.one(q.crc, "LatestBlock")), "IsInvalid", "the block after the latest")
	q.yes(q.one(q.crc, "NextTransaction", q.one(q.crc, "LatestTransaction")), "IsInvalid", "the transaction after the latest")
	q.yes(q.one(q.crc, "NextBlock", q.one(q.crc, "InvalidBlock")), "IsInvalid", "the block after no block")
	q.yes(q.one(q.crc, "ParentBlock", q.one(q.crc, "InvalidBlock")), "IsInvalid", "the parent of no block")
	for bi, blk := range w.src {
		what := fmt.Sprintf("block %d", bi)
		byHeight := q.one(q.crc, "BlockHandleByHeight", num(b))
		q.number(q.one(q.crc, "BlockInterface", byHeight), "Height", b, what)
		q.hash(byHeight, hashOfBlock, blk.hash, what)
		handle := q.one(q.crc, "BlockHandleByHash", w.hash(q.st, hashOfBlock, blk.hash))
		q.number(handle, "Height", b, what+" by its hash")
		q.hash(handle, hashOfBlock, blk.hash, what+" by its hash")
		if bi > 0 {
			q.number(q.one(q.crc, "ParentBlock", handle), "Height", plus(b, -1), "the parent of "+what)
		}
		if bi < len(w.src)-1 {
			q.number(q.one(q.crc, "NextBlock", handle), "Height", plus(b, 1), "the block after "+what)
		}
		block := q.one(q.crc, "BlockInterface", handle)
		q.number(block, "Height", b, what)
		q.hash(block, hashOfBlock, blk.hash, what)
		q.number(block, "TransactionCount", aconst(int64(len(blk.txs))), what)
		q.ints(block, blockInts, blk.ints, what)
		for ti, tx := range blk.txs {
			what := fmt.Sprintf("transaction %d of %s", ti, what)
			h := q.one(block, "NthTransaction", num(aconst(int64(ti))))
			q.number(h, "Height", t, what)
			trans := q.one(q.crc, "TransInterface", h)
			q.number(trans, "Height", t, what)
			q.hash(h, hashOfTrans, tx.hash, what)
			q.hash(trans, hashOfTrans, tx.hash, what)
			byHash := q.one(q.crc, "TransactionHandleByHash", w.hash(q.st, hashOfTrans, tx.hash))
			q.number(byHash, "Height", w.trans[tx.hash][0], what+" by its hash")
			q.hash(byHash, hashOfTrans, tx.hash, what+" by its hash")
			q.number(q.one(q.crc, "TransInterface", q.one(q.crc, "TransactionHandleByHeight", num(t))), "Height", t, what)
			q.number(q.crc, "ParentBlockOfTrans", b, what, num(t))
			if !w.m.same(q.st, t, w.base["trnFirstTxi"]) {
				q.number(q.one(q.crc, "PreviousTransaction", h), "Height", plus(t, -1), "the transaction before "+what)
			}
			if !w.m.same(q.st, t, lastT) {
				q.number(q.one(q.crc, "NextTransaction", h), "Height", plus(t, 1), "the transaction after "+what)
			}
			q.ints(trans, transInts, tx.ints, what)
			n := len(tx.inHash)
			if ti == 0 {
				n = 0
			}
			q.number(trans, "TxiCount", aconst(int64(n)), what)
			q.number(trans, "TxoCount", aconst(int64(len(tx.scripts))), what)
			if _, has := first[tx.hash]; !has {
				first[tx.hash] = o
			}
			for k := 0; k < n; k++ {
				what := fmt.Sprintf("input %d of %s", k, what)
				h := q.one(trans, "NthTxi", num(aconst(int64(k))))
				txi := q.one(q.crc, "TxiInterface", h)
				q.number(h, "TxiHeight", i, what)
				q.number(txi, "TxiHeight", i, what)
				q.number(q.one(q.crc, "TxiInterface", q.one(q.crc, "TxiHandleByHeight", num(i))), "TxiHeight", i, what)
				from := q.one(txi, "SourceTxo")
				q.yes(from, "ParentSpecified", "the output spent by "+what)
				q.number(from, "ParentIndex", tx.vouts[k], "the output spent by "+what)
				parent := q.one(from, "ParentTrans")
				q.number(parent, "Height", w.trans[tx.inHash[k]][0], "the transaction spent by "+what)
				q.hash(parent, hashOfTrans, tx.inHash[k], "the transaction spent by "+what)
				if f, has := first[tx.inHash[k]]; has && w.m.below(q.st, plus(w.base["trnFirstTxi"], -1), w.trans[tx.inHash[k]][0]) {
					q.number(q.one(q.crc, "TxoInterface", from), "TxoHeight", f.add(tx.vouts[k], 1), "the output spent by "+what)
				}
				q.number(q.crc, "ParentTransOfTxi", t, what, num(i))
				i = plus(i, 1)
			}
			for k, a := range tx.scripts {
				what := fmt.Sprintf("output %d of %s", k, what)
				h := q.one(trans, "NthTxo", num(aconst(int64(k))))
				txo := q.one(q.crc, "TxoInterface", h)
				q.number(h, "TxoHeight", o, what)
				q.number(txo, "TxoHeight", o, what)
				q.number(q.one(q.crc, "TxoInterface", q.one(q.crc, "TxoHandleByHeight", num(o))), "TxoHeight", o, what)
				q.number(txo, "Satoshis", tx.sats[k], what)
				ah := q.one(txo, "Address")
				q.number(ah, "Height", w.addrs[a], "the address of "+what)
				q.hash(q.one(q.crc, "AddressInterface", ah), hashOfAddr, a, "the address of "+what)
				q.number(q.crc, "ParentTransOfTxo", t, what, num(o))
				uses[a] = append(uses[a], o)
				o = plus(o, 1)
			}
			w.sats(q, trans, tx, what)
			t = plus(t, 1)
		}
		b = plus(b, 1)
	}
	for a, us := range uses {
		what := fmt.Sprintf("address %d", a)
		old := w.m.below(q.st, w.addrs[a], w.base["addrFirstTxo"])
		var before int64
		if old {
			before = 2 // its first output, and one more
		}
		h := q.one(q.crc, "AddressHandleByHash", w.hash(q.st, hashOfAddr, a))
		q.number(h, "Height", w.addrs[a], what+" by its hash")
		for k, u := range us {
			q.number(q.one(q.one(q.crc, "AddressInterface", h), "NthTxo", num(aconst(before+int64(k)))), "TxoHeight", u, fmt.Sprintf("output %d of %s", k, what))
		}
		for _, h := range []aval{h, q.one(q.crc, "AddressHandleByHeight", num(w.addrs[a]))} {
			addr := q.one(q.crc, "AddressInterface", h)
			q.number(addr, "Height", w.addrs[a], what)
			q.number(addr, "TxoCount", aconst(before+int64(len(us))), what)
			q.hash(addr, hashOfAddr, a, what)
			for k, u := range us {
				q.number(q.one(addr, "NthTxo", num(aconst(before+int64(k)))), "TxoHeight", u, fmt.Sprintf("output %d of %s", k, what))
			}
		}
	}
}

// sats of all the outputs of a transaction.
func (w *chainWorld) sats(q *chainReader, trans aval, tx chainTx, what string) {
	i, ok := trans.(aIface)
	if !ok || w.P.methodOfType(i.t, "AllTxoSatoshis") == nil {
		return
	}
	r := q.one(trans, "AllTxoSatoshis")
	if r == nil {
		return
	}
	s, ok := r.(aSlice)
	var vs []aval
	if ok {
		vs, ok = w.m.sliceVals(q.st, s)
	}
	if !ok || len(vs) != len(tx.sats) {
		w.cd.oblig(false, "read AllTxoSatoshis", fmt.Sprintf("%s has %d output amounts instead of %d%s", what, len(vs), len(tx.sats), w.tag))
		return
	}
	for k := range vs {
		w.cd.oblig(sameInt(w.m, q.st, vs[k], tx.sats[k]), "read AllTxoSatoshis", fmt.Sprintf("the amounts of %s are not those of the source%s", what, w.tag))
	}
}

// pinned: whether a path is about one length of the history only.
func (w *chainWorld) pinned(st *astate) bool {
	for _, k := range []string{"blocks", "trnFirstTxi", "txiTx", "txoSats", "addrFirstTxo"} {
		if b := w.base[k]; !b.isConst() {
			if iv := w.m.ivOf(st, b); iv.lo == iv.hi {
				return true
			}
		}
	}
	return false
}
