package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: the two parsers describe the same chain. Both are interpreted for the same symbolic block, one given its bytes,
// the other what the node's JSON says of it.

func init() {
	checks["C28"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"same block: for each shape of block, every field that the binary parser fills has the value of the block, the JSON parser fills it with the same, and a field of a block or transaction holds the same from both, whatever the target held before: identifiers are the double hashes of the bytes the protocol says, inputs and outputs are those of their own transaction in their order, scripts are their own bytes, amounts their own number of satoshis, sizes those of the bytes",
			"compact size: a count in each of its four encodings is read as the number encoded and its own length",
			"hex digits: the text of a hash is read as its bytes in reverse, either case of the digits, and a text of another length is refused",
			"difficulty: the difficulty worked out from the compact target is the node's, when stored, for every exponent",
		}
		r.Assume = []string{"the JSON is the node's getblock with verbosity 2 or more (a table in the analyser); encoding/json fills fields by their tags", "the binary is a well-formed block", "different contents have different hashes"}
		c := &twoParsers{P: P, r: r}
		c.run()
		r.floor("blocks parsed both ways", 4)
		r.floor("fields compared", 150)
		r.floor("readers of the text of a hash", 1)
		r.floor("compact sizes", 4)
		r.floor("difficulties", 100)
		return r
	}
}

type twoParsers struct {
	P     *Prog
	r     *Result
	cd    *codec
	m     *amachine
	hashT types.Type
	nhash int
	made  map[*ssa.Function]*aobj
	roots map[int]*jnode // what JSON the bytes of an object are
	hexes map[string][]ab
	nums  map[string]alin // hexadecimal numbers
	btc   map[string]alin // amounts in bitcoin
	bigs  map[string]bigNum
	tag   string
}

// jnode: a JSON value.
type jnode struct {
	obj  map[string]*jnode
	arr  []*jnode
	num  *alin
	flt  string
	str  *aStr
	kind string
}

func jnum(l alin) *jnode { return &jnode{kind: "num", num: &l} }
func jstr(s aStr) *jnode { return &jnode{kind: "str", str: &s} }
func jtext(s string) *jnode {
	return jstr(aStr{s: s, known: true})
}

type txShape struct {
	segwit  bool
	ins     []int64   // lengths of the input scripts
	outs    []int64   // lengths of the output scripts
	witness [][]int64 // lengths of the items of the stack of each input
}

type txFacts struct {
	txid           [32]byte
	prev           [][32]byte
	vout           []alin
	value          []alin
	scripts        [][]ab
	size, stripped int64
	ver            alin
	segwit         bool
}

type blockFacts struct {
	hash, prev, merkle         [32]byte
	version, time, nonce, bits alin
	size, stripped, weight     int64
	txs                        []txFacts
	bin                        aSlice
	json                       aSlice
	genesis                    bool
}

func (c *twoParsers) fail(fn, msg string) {
	c.r.oblig(false, Finding{Rule: "same block", Func: fn, Construct: "parser", Msg: msg})
}

func (c *twoParsers) machine(rule string, f *ssa.Function) {
	c.cd = c.P.codec(c.r, rule, f)
	c.m = c.cd.m
	c.m.maxIter = 70000
	c.m.maxSteps = 60000000
	c.m.model = c.model
	if c.made == nil {
		c.made = map[*ssa.Function]*aobj{}
	}
	c.m.madeOnce = c.made
	c.m.fromFloat = c.satoshisOf
	c.roots, c.hexes, c.nums, c.btc, c.bigs = map[int]*jnode{}, map[string][]ab{}, map[string]alin{}, map[string]alin{}, map[string]bigNum{}
}

func (c *twoParsers) run() {
	P := c.P
	bin, js := P.Func("intrinsicobjects", "ParseBinaryBlock"), P.Func("intrinsicobjects", "ParseJsonBlock")
	blk := P.Named("intrinsicobjects", "Block")
	if bin == nil || js == nil || blk == nil {
		c.fail("ParseBinaryBlock", "the two parsers of blocks are not found")
		return
	}
	c.hashT = P.Named("indexedhashes", "Sha256")
	coinbase := txShape{ins: []int64{4}, outs: []int64{2}}
	coinbaseW := txShape{segwit: true, ins: []int64{3}, outs: []int64{2, 3}, witness: [][]int64{{32}}}
	legacy := txShape{ins: []int64{2, 0}, outs: []int64{3, 0, 1}}
	segwit := txShape{segwit: true, ins: []int64{0, 5, 0}, outs: []int64{2, 4}, witness: [][]int64{{2, 0}, {}, {3}}}
	large := txShape{segwit: true, ins: []int64{253}, outs: []int64{260, 1}, witness: [][]int64{{70000, 300}}}
	var many txShape
	for i := 0; i < 3; i++ {
		many.ins = append(many.ins, 1)
	}
	for i := 0; i < 254; i++ {
		many.outs = append(many.outs, 0)
	}
	shapes := []struct {
		name    string
		genesis bool
		txs     []txShape
	}{
		{"the first block", true, []txShape{coinbase}},
		{"a block of plain transactions", false, []txShape{coinbase, legacy, legacy}},
		{"a block with witnesses", false, []txShape{coinbaseW, legacy, segwit, legacy}},
		{"a block with long scripts", false, []txShape{coinbaseW, large, segwit}},
		{"a block with many outputs", false, []txShape{coinbase, many, legacy}},
	}
	for i, s := range shapes {
		other := shapes[(i+2)%4]
		c.machine("same block", bin)
		st := c.m.newState()
		before := c.block(st, "before", other.genesis, other.txs)
		b := c.block(st, "b", s.genesis, s.txs)
		c.tag = " (" + s.name + ")"
		c.both(st, bin, js, blk, before, b)
	}
	c.compactSizes()
	c.hexDigits()
	c.difficulties()
}

// digest of contents: different contents have different digests.
func digestOf(bs []ab) [32]byte {
	var b strings.Builder
	for _, x := range bs {
		b.WriteString(x.String())
		b.WriteByte(',')
	}
	return sha256.Sum256([]byte(b.String()))
}

func concrete(d [32]byte) []ab {
	var out []ab
	for _, x := range d {
		out = append(out, ab{c: x})
	}
	return out
}

func doubleHash(bs []ab) [32]byte { return digestOf(concrete(digestOf(bs))) }

func someHash(name string) [32]byte { return sha256.Sum256([]byte("pudding " + name)) }

func displayHex(d [32]byte) string {
	var rev [32]byte
	for i := range d {
		rev[i] = d[31-i]
	}
	return hex.EncodeToString(rev[:])
}

// block: a block of a shape, its bytes and its JSON.
func (c *twoParsers) block(st *astate, name string, genesis bool, shapes []txShape) *blockFacts {
	m := c.m
	b := &blockFacts{genesis: genesis}
	id := m.alloc(st, types.NewSlice(byteType), "bytes of "+name)
	var bytes []ab
	at := int64(0)
	put := func(bs ...ab) {
		for _, x := range bs {
			o := aconst(at)
			m.writeCell(st, id, o.String(), o, true, aInt{m.fromBytes(st, [8]ab{x}), byteType})
			at++
		}
		bytes = append(bytes, bs...)
	}
	num := func(n string, lo, hi int64, w int) (alin, []ab) {
		l := m.symbol(name+"."+n, lo, hi)
		bs := m.bytesOf(st, l)
		return l, bs[:w]
	}
	raw := func(n string, k int64) []ab {
		var out []ab
		for i := int64(0); i < k; i++ {
			l := m.symbol(fmt.Sprintf("%s.%s.%d", name, n, i), 0, 255)
			out = append(out, m.bytesOf(st, l)[0])
		}
		return out
	}
	compact := func(n int64) []ab {
		k := func(p byte, w int) []ab {
			out := []ab{{c: p}}
			for i := 0; i < w; i++ {
				out = append(out, ab{c: byte(uint64(n) >> (8 * i))})
			}
			return out
		}
		switch {
		case n < 253:
			return []ab{{c: byte(n)}}
		case n <= 0xffff:
			return k(253, 2)
		case n <= math.MaxUint32:
			return k(254, 4)
		}
		return k(255, 8)
	}
	j := &jnode{kind: "obj", obj: map[string]*jnode{}}
	set := func(o *jnode, k string, v *jnode) { o.obj[k] = v }
	unknownText := func(n string) *jnode { return jstr(aStr{id: "text:" + name + "." + n}) }

	// header
	var bs []ab
	b.version, bs = num("version", math.MinInt32, math.MaxInt32, 4)
	put(bs...)
	b.prev = someHash(name + " prev")
	if genesis {
		b.prev = [32]byte{}
	}
	put(concrete(b.prev)...)
	b.merkle = someHash(name + " merkle")
	put(concrete(b.merkle)...)
	b.time, bs = num("time", 0, math.MaxUint32, 4)
	put(bs...)
	b.bits, bs = num("bits", 0, math.MaxUint32, 4)
	put(bs...)
	b.nonce, bs = num("nonce", 0, math.MaxUint32, 4)
	put(bs...)
	b.hash = doubleHash(bytes)
	bytes = nil
	n := compact(int64(len(shapes)))
	put(n...)
	b.stripped = 80 + int64(len(n))
	b.size = b.stripped
	var jtxs []*jnode
	for ti, s := range shapes {
		tn := fmt.Sprintf("t%d", ti)
		t := txFacts{segwit: s.segwit}
		jt := &jnode{kind: "obj", obj: map[string]*jnode{}}
		start := at
		bytes = nil
		lo, hi := int64(math.MinInt32), int64(math.MaxInt32)
		if ti%2 == 1 {
			lo, hi = 0, math.MaxUint32
		}
		t.ver, bs = num(tn+".version", lo, hi, 4)
		put(bs...)
		hashed := bytes
		if s.segwit {
			put(ab{}, ab{c: 1})
		}
		bytes = nil
		put(compact(int64(len(s.ins)))...)
		var vin []*jnode
		for i, l := range s.ins {
			ji := &jnode{kind: "obj", obj: map[string]*jnode{}}
			in := fmt.Sprintf("%s.in%d", tn, i)
			prev := someHash(name + in)
			var vout alin
			if ti == 0 {
				prev = [32]byte{}
				vout = aconst(math.MaxUint32)
				put(concrete(prev)...)
				put(ab{c: 255}, ab{c: 255}, ab{c: 255}, ab{c: 255})
				set(ji, "coinbase", unknownText(in+".coinbase"))
			} else {
				put(concrete(prev)...)
				vout, bs = num(in+".vout", 0, math.MaxUint32, 4)
				put(bs...)
				set(ji, "txid", jtext(displayHex(prev)))
				set(ji, "vout", jnum(vout))
				sig := &jnode{kind: "obj", obj: map[string]*jnode{}}
				set(sig, "asm", unknownText(in+".asm"))
				set(sig, "hex", unknownText(in+".hex"))
				set(ji, "scriptSig", sig)
			}
			put(compact(l)...)
			put(raw(in+".script", l)...)
			seq, bs := num(in+".sequence", 0, math.MaxUint32, 4)
			put(bs...)
			set(ji, "sequence", jnum(seq))
			t.prev, t.vout = append(t.prev, prev), append(t.vout, vout)
			vin = append(vin, ji)
		}
		put(compact(int64(len(s.outs)))...)
		var vouts []*jnode
		for i, l := range s.outs {
			jo := &jnode{kind: "obj", obj: map[string]*jnode{}}
			on := fmt.Sprintf("%s.out%d", tn, i)
			v, bs := num(on+".value", 0, 21e14, 8)
			put(bs...)
			put(compact(l)...)
			sc := raw(on+".script", l)
			put(sc...)
			t.value, t.scripts = append(t.value, v), append(t.scripts, sc)
			fid := "f:" + name + "." + on + ".btc"
			c.btc[fid] = v
			set(jo, "value", &jnode{kind: "num", flt: fid})
			set(jo, "n", jnum(aconst(int64(i))))
			js := &jnode{kind: "obj", obj: map[string]*jnode{}}
			hid := "hex:" + name + "." + on + ".script"
			c.hexes[hid] = sc
			if len(sc) == 0 {
				set(js, "hex", jtext(""))
			} else {
				set(js, "hex", jstr(aStr{id: hid}))
			}
			set(js, "address", unknownText(on+".address"))
			set(js, "type", unknownText(on+".type"))
			set(js, "asm", unknownText(on+".asm"))
			set(js, "desc", unknownText(on+".desc"))
			set(jo, "scriptPubKey", js)
			vouts = append(vouts, jo)
		}
		hashed = append(hashed, bytes...)
		if s.segwit {
			for i, items := range s.witness {
				put(compact(int64(len(items)))...)
				for k, l := range items {
					put(compact(l)...)
					if l > 1000 {
						at += l // nobody looks at them
					} else {
						put(raw(fmt.Sprintf("%s.wit%d.%d", tn, i, k), l)...)
					}
				}
			}
		}
		lock, bs := num(tn+".locktime", 0, math.MaxUint32, 4)
		put(bs...)
		hashed = append(hashed, bs...)
		t.txid = doubleHash(hashed)
		t.size = at - start
		t.stripped = int64(len(hashed))
		b.size += t.size
		b.stripped += t.stripped
		weight := 3*t.stripped + t.size
		set(jt, "txid", jtext(displayHex(t.txid)))
		wtxid := t.txid
		if s.segwit {
			wtxid = someHash(name + tn + " wtxid")
		}
		set(jt, "hash", jtext(displayHex(wtxid)))
		set(jt, "version", jnum(t.ver))
		set(jt, "size", jnum(aconst(t.size)))
		set(jt, "vsize", jnum(aconst((weight+3)/4)))
		set(jt, "weight", jnum(aconst(weight)))
		set(jt, "locktime", jnum(lock))
		set(jt, "vin", &jnode{kind: "arr", arr: vin})
		set(jt, "vout", &jnode{kind: "arr", arr: vouts})
		set(jt, "hex", unknownText(tn+".hex"))
		b.txs = append(b.txs, t)
		jtxs = append(jtxs, jt)
	}
	b.weight = 3*b.stripped + b.size
	set(j, "hash", jtext(displayHex(b.hash)))
	set(j, "confirmations", jnum(m.symbol(name+".confirmations", 1, 1<<31)))
	set(j, "height", jnum(m.symbol(name+".height", 0, 1<<31)))
	set(j, "version", jnum(b.version))
	set(j, "versionHex", unknownText("versionHex"))
	set(j, "merkleroot", jtext(displayHex(b.merkle)))
	set(j, "time", jnum(b.time))
	set(j, "mediantime", jnum(m.symbol(name+".mediantime", 0, math.MaxUint32)))
	set(j, "nonce", jnum(b.nonce))
	bid := "hexnum:" + name + ".bits"
	c.nums[bid] = b.bits
	set(j, "bits", jstr(aStr{id: bid}))
	set(j, "difficulty", &jnode{kind: "num", flt: "f:" + name + ".difficulty"})
	set(j, "chainwork", unknownText("chainwork"))
	set(j, "nTx", jnum(aconst(int64(len(shapes)))))
	if !genesis {
		set(j, "previousblockhash", jtext(displayHex(b.prev)))
	}
	set(j, "nextblockhash", jtext(displayHex(someHash(name+" next"))))
	set(j, "strippedsize", jnum(aconst(b.stripped)))
	set(j, "size", jnum(aconst(b.size)))
	set(j, "weight", jnum(aconst(b.weight)))
	set(j, "tx", &jnode{kind: "arr", arr: jtxs})

	m.mut2(st, id).n = aconst(at)
	b.bin = aSlice{obj: id, n: aconst(at), cap: aconst(at), elem: byteType}
	jid := m.alloc(st, types.NewSlice(byteType), "json of "+name)
	jl := m.symbol("json length of "+name, 100, 1<<30)
	m.mut2(st, jid).n = jl
	b.json = aSlice{obj: jid, n: jl, cap: jl, elem: byteType}
	c.roots[jid] = j
	return b
}

// both parsers, each into a target that held another block.
func (c *twoParsers) both(st *astate, bin, js *ssa.Function, blk *types.Named, before, b *blockFacts) {
	m := c.m
	c.r.count("blocks parsed both ways", 1)
	parse := func(st *astate, f *ssa.Function, in aSlice, target int) *astate {
		var end *astate
		for _, o := range m.run(f, []aval{in, aPtr{obj: target}}, nil, st) {
			if o.panic {
				c.cd.about(f).oblig(false, "panic", "a well-formed block cannot be parsed: the parser panics"+c.tag)
				continue
			}
			if !succeeded(o) {
				c.cd.about(f).oblig(false, "refused", "a well-formed block is refused"+c.tag)
				continue
			}
			if end != nil {
				c.cd.about(f).oblig(false, "undecided", "what the parser does is not decided by the block"+c.tag)
			}
			end = o.st
		}
		if end == nil {
			c.cd.about(f).oblig(false, "no outcome", "no path on which the block is parsed"+c.tag)
		}
		return end
	}
	x, y := m.alloc(st, blk, ""), m.alloc(st, blk, "")
	if st = parse(st, bin, before.bin, x); st == nil {
		return
	}
	if st = parse(st, bin, b.bin, x); st == nil {
		return
	}
	if st = parse(st, js, before.json, y); st == nil {
		return
	}
	if st = parse(st, js, b.json, y); st == nil {
		return
	}
	c.compare(st, bin, js, x, y, b)
}

func (c *twoParsers) hashVal(st *astate, d [32]byte) aval {
	id := c.m.alloc(st, c.hashT, "")
	for i, x := range d {
		o := aconst(int64(i))
		c.m.writeCell(st, id, o.String(), o, true, aInt{aconst(int64(x)), byteType})
	}
	return aAgg{c.m.snapshot(st, id)}
}

// equal values.
func (c *twoParsers) equal(st *astate, a, b aval) bool {
	switch x := a.(type) {
	case aInt:
		y, ok := b.(aInt)
		return ok && c.m.same(st, x.l, y.l)
	case aBool:
		y, ok := b.(aBool)
		return ok && x.known && y.known && x.val == y.val
	case aAgg:
		return c.m.sameHash(st, a, b)
	case aStr:
		return a == b
	}
	return false
}

func (c *twoParsers) compare(st *astate, bin, js *ssa.Function, x, y int, b *blockFacts) {
	m := c.m
	ci := func(v int64) aval { return aInt{aconst(v), intType} }
	low := func(l alin) aval { return aInt{m.truncate(st, l, types.Typ[types.Uint32]), types.Typ[types.Uint32]} }
	field := func(f *ssa.Function, got, want aval, what string) {
		c.r.count("fields compared", 1)
		c.cd.about(f).oblig(c.equal(st, got, want), what, "the parser must fill in "+what+" as the block has it"+c.tag)
	}
	want := map[string]aval{
		"BlockHash": c.hashVal(st, b.hash), "PrevHash": c.hashVal(st, b.prev), "MerkleRoot": c.hashVal(st, b.merkle),
		"Version": low(b.version), "Time": low(b.time), "NBits": low(b.bits), "Nonce": low(b.nonce),
		"Size": ci(b.size), "StrippedSize": ci(b.stripped), "Weight": ci(b.weight),
	}
	for _, s := range []struct {
		f *ssa.Function
		o int
	}{{bin, x}, {js, y}} {
		for _, k := range sortedKeysOf(want) {
			field(s.f, m.getField(st, s.o, k), want[k], "Block."+k)
		}
		// Difficulty: see its own rule
		d := m.getField(st, s.o, "Difficulty")
		dk := "nothing"
		if op, ok := d.(aOpaque); ok {
			dk = op.id
		}
		if s.f == js {
			c.cd.about(s.f).oblig(dk == "f:b.difficulty", "Block.Difficulty", "the difficulty must be the one the node gives"+c.tag)
		} else {
			c.cd.about(s.f).oblig(strings.HasPrefix(dk, "f:difficulty of "+b.bits.String()), "Block.Difficulty", "the difficulty must be worked out from the target of the block"+c.tag)
		}
	}
	c.siblings(st, "Block", x, y, bin, want, map[string]bool{"Difficulty": true})
	txs := func(o int) []int {
		s, ok := m.getField(st, o, "Transactions").(aSlice)
		if !ok || !s.n.isConst() {
			return nil
		}
		var out []int
		for i := int64(0); i < s.n.c; i++ {
			k := s.off.add(aconst(i), 1)
			out = append(out, m.sub(st, s.obj, k.String(), k, s.elem))
		}
		return out
	}
	tx, ty := txs(x), txs(y)
	for _, s := range []struct {
		f  *ssa.Function
		ts []int
		o  int
	}{{bin, tx, x}, {js, ty, y}} {
		if !c.cd.about(s.f).oblig(len(s.ts) == len(b.txs), "Block.Transactions", "a block has as many transactions as it says"+c.tag) {
			return
		}
		storage := m.getField(st, s.o, "Storage")
		sp, ok := storage.(aPtr)
		if !c.cd.about(s.f).oblig(ok, "Block.Storage", "the inputs and outputs of a block have no storage"+c.tag) {
			return
		}
		scripts, _ := m.getField(st, sp.obj, "Scripts").(aSlice)
		for i, t := range b.txs {
			o := s.ts[i]
			w := 3*t.stripped + t.size
			want := map[string]aval{"TxId": c.hashVal(st, t.txid), "Version": low(t.ver), "IsSegWit": aBool{known: true, val: t.segwit},
				"Size": ci(t.size), "Weight": ci(w), "VSize": ci((w + 3) / 4), "StrippedSize": ci(t.stripped)}
			for _, k := range sortedKeysOf(want) {
				field(s.f, m.getField(st, o, k), want[k], "Transaction."+k)
			}
			n := c.method(st, o, "TxiCount", nil)
			field(s.f, n, ci(int64(len(t.prev))), "the number of inputs")
			n = c.method(st, o, "TxoCount", nil)
			field(s.f, n, ci(int64(len(t.value))), "the number of outputs")
			for k := range t.prev {
				if i == 0 {
					break // left out of the chain
				}
				in, ok := c.method(st, o, "GetTxi", []aval{storage, i64(aconst(int64(k)))}).(aAgg)
				if !ok {
					field(s.f, nil, nil, "an input")
					continue
				}
				f := fieldsOf(m, st, in)
				field(s.f, f["TxId"], c.hashVal(st, t.prev[k]), "Txi.TxId")
				field(s.f, f["VOut"], i64(t.vout[k]), "Txi.VOut")
			}
			for k := range t.value {
				out, ok := c.method(st, o, "GetTxo", []aval{storage, i64(aconst(int64(k)))}).(aAgg)
				if !ok {
					field(s.f, nil, nil, "an output")
					continue
				}
				f := fieldsOf(m, st, out)
				field(s.f, f["Value"], i64(t.value[k]), "Txo.Value")
				at, ok1 := m.intOf(f["ScriptPubKeyStart"])
				l, ok2 := m.intOf(f["ScriptPubKeyLen"])
				good := ok1 && ok2 && at.isConst() && l.isConst() && l.c == int64(len(t.scripts[k])) && at.c >= 0 && scripts.n.isConst() && at.c+l.c <= scripts.n.c
				if good {
					for q, w := range t.scripts[k] {
						good = good && m.getByte(st, scripts, aconst(at.c+int64(q))) == w
					}
				}
				c.r.count("fields compared", 1)
				c.cd.about(s.f).oblig(good, "Txo script", "the script of an output must be its own bytes"+c.tag)
			}
		}
	}
	for i := range b.txs {
		c.siblings(st, "Transaction", tx[i], ty[i], bin, map[string]aval{"TxId": nil}, map[string]bool{"TxisStart": true, "TxosStart": true})
	}
}

// siblings: fields with no row in the table hold the same from both parsers.
func (c *twoParsers) siblings(st *astate, name string, x, y int, f *ssa.Function, done map[string]aval, skip map[string]bool) {
	s, ok := st.heap[x].typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if _, ok := done[n]; ok || skip[n] {
			continue
		}
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Basic, *types.Array:
		default:
			continue
		}
		c.r.count("fields compared", 1)
		c.cd.about(f).oblig(c.equal(st, c.m.getField(st, x, n), c.m.getField(st, y, n)), name+"."+n, "the two parsers fill "+name+"."+n+" differently"+c.tag)
	}
}

func sortedKeysOf(mp map[string]aval) []string {
	var out []string
	for k := range mp {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func fieldsOf(m *amachine, st *astate, a aAgg) map[string]aval {
	out := map[string]aval{}
	s, ok := a.o.typ.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < s.NumFields(); i++ {
		out[s.Field(i).Name()] = m.fromAgg(st, a.o, fmt.Sprint(i), alin{}, s.Field(i).Type())
	}
	return out
}

// method of a transaction, its one outcome.
func (c *twoParsers) method(st *astate, obj int, name string, args []aval) aval {
	n, _ := st.heap[obj].typ.(*types.Named)
	f := c.P.Method(n, name)
	if f == nil {
		return nil
	}
	outs := c.m.run(f, append([]aval{aPtr{obj: obj}}, args...), nil, st.clone())
	if len(outs) != 1 || outs[0].panic || len(outs[0].rets) != 1 {
		return nil
	}
	v := outs[0].rets[0]
	return v
}

// ---- models ----

func (c *twoParsers) model(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	if r, ok := recv.(aOpaque); ok && strings.HasPrefix(r.id, "sha:") {
		return c.hashOp(st, r.id, name, args)
	}
	if r, ok := recv.(aOpaque); ok && strings.HasPrefix(r.id, "jsonreader:") && name == "Decode" {
		return c.unmarshal(st, r.id, args[0])
	}
	switch name {
	case "crypto/sha256.New":
		c.nhash++
		id := fmt.Sprintf("sha:%d", c.nhash)
		c.hashOp(st, id, "Reset", nil)
		return one(st, aOpaque{id, site.Common().Signature().Results().At(0).Type()}), true
	case "crypto/sha256.Sum256":
		s, ok := args[0].(aSlice)
		if !ok || !s.n.isConst() || s.n.c > 1<<16 {
			return nil, false
		}
		var bs []ab
		for i := int64(0); i < s.n.c; i++ {
			bs = append(bs, m.getByte(st, s, aconst(i)))
		}
		d := digestOf(bs)
		id := m.alloc(st, types.NewArray(byteType, 32), "")
		for i, x := range d {
			o := aconst(int64(i))
			m.writeCell(st, id, o.String(), o, true, aInt{aconst(int64(x)), byteType})
		}
		return one(st, aAgg{m.snapshot(st, id)}), true
	case "encoding/hex.DecodeString":
		s, ok := args[0].(aStr)
		if !ok {
			return nil, false
		}
		var bs []ab
		if s.known {
			d, err := hex.DecodeString(s.s)
			if err != nil {
				return one(st, aSlice{obj: -1, elem: byteType}, aErr{id: "!"}), true
			}
			for _, x := range d {
				bs = append(bs, ab{c: x})
			}
		} else if bs, ok = c.hexes[s.id]; !ok {
			return nil, false
		}
		var vs []aval
		for _, x := range bs {
			vs = append(vs, aInt{m.fromBytes(st, [8]ab{x}), byteType})
		}
		return one(st, m.sliceOf(st, byteType, vs...), aErr{}), true
	case "strconv.ParseUint", "strconv.ParseInt":
		s, ok := args[0].(aStr)
		base, ok2 := m.intOf(args[1])
		size, ok3 := m.intOf(args[2])
		l, ok4 := c.nums[s.id]
		if !ok || !ok2 || !ok3 || !ok4 || !base.isConst() || !size.isConst() || base.c != 16 {
			return nil, false
		}
		k := types.Typ[types.Uint64]
		room := int64(32)
		if name == "strconv.ParseInt" {
			k, room = types.Typ[types.Int64], 33
		}
		if size.c != 0 && size.c < room {
			return one(st, aInt{aconst(0), k}, aErr{id: m.fresh("range")}), true
		}
		return one(st, aInt{l, k}, aErr{}), true
	case "encoding/json.Unmarshal":
		s, ok := args[0].(aSlice)
		if !ok || len(args) != 2 {
			return nil, false
		}
		return c.unmarshal(st, fmt.Sprintf("jsonreader:%d", s.obj), args[1])
	case "bytes.NewReader", "bytes.NewBuffer":
		if s, ok := args[0].(aSlice); ok && c.roots[s.obj] != nil {
			return one(st, aOpaque{fmt.Sprintf("jsonreader:%d", s.obj), site.Common().Signature().Results().At(0).Type()}), true
		}
	case "encoding/json.NewDecoder":
		if r, ok := unwrapOpaque(args[0]); ok && strings.HasPrefix(r.id, "jsonreader:") {
			return one(st, aOpaque{r.id, site.Common().Signature().Results().At(0).Type()}), true
		}
	case "(*encoding/json.Decoder).Decode":
		if r, ok := unwrapOpaque(args[0]); ok && strings.HasPrefix(r.id, "jsonreader:") {
			return c.unmarshal(st, r.id, args[1])
		}
	case "encoding/json.Valid":
		return one(st, aBool{known: true, val: true}), true
	}
	if c.cd.rule == "same block" && strings.HasSuffix(name, "intrinsicobjects.CalculateDifficulty") && len(args) == 1 {
		// its own rule
		if l, ok := m.intOf(args[0]); ok {
			return one(st, aOpaque{"f:difficulty of " + l.String(), types.Typ[types.Float64]}), true
		}
	}
	if strings.Contains(name, "math/big.") {
		return c.bigOp(st, site, name, args)
	}
	return nil, false
}

// hashOp: the contents are collected.
func (c *twoParsers) hashOp(st *astate, id, op string, args []aval) ([]aout, bool) {
	m := c.m
	o := m.fileObj(st, id)
	n := m.filePos(st, id)
	setN := func(l alin) {
		m.writeCell(st, m.fileObj(st, id+"#pos"), "v", alin{}, false, aInt{l, int64Type.Underlying().(*types.Basic)})
	}
	switch op {
	case "Reset":
		setN(aconst(0))
		return one(st), true
	case "Size":
		return one(st, aInt{aconst(32), intType}), true
	case "Write":
		s, ok := args[0].(aSlice)
		if !ok || !s.n.isConst() || s.n.c > 1<<16 || !n.isConst() {
			return nil, false
		}
		for i := int64(0); i < s.n.c; i++ {
			k := n.add(aconst(i), 1)
			m.writeCell(st, o, k.String(), k, true, aInt{m.fromBytes(st, [8]ab{m.getByte(st, s, aconst(i))}), byteType})
		}
		setN(n.add(s.n, 1))
		return one(st, aInt{s.n, intType}, aErr{}), true
	case "Sum":
		if !n.isConst() {
			return nil, false
		}
		all := aSlice{obj: o, n: n, cap: n, elem: byteType}
		var bs []ab
		for i := int64(0); i < n.c; i++ {
			bs = append(bs, m.getByte(st, all, aconst(i)))
		}
		d := digestOf(bs)
		s, ok := args[0].(aSlice)
		if _, isNil := args[0].(aNil); isNil {
			s, ok = aSlice{obj: -1, elem: byteType}, true
		}
		if !ok || !s.n.isConst() || !s.cap.isConst() {
			return nil, false
		}
		if s.obj < 0 || s.cap.c-s.n.c < 32 {
			id := m.alloc(st, types.NewSlice(byteType), "")
			for i := int64(0); i < s.n.c; i++ {
				k := aconst(i)
				m.writeCell(st, id, k.String(), k, true, m.readCell(st, s.obj, s.off.add(k, 1).String(), s.off.add(k, 1), true, byteType))
			}
			cp := s.n.add(aconst(32), 1)
			m.mut2(st, id).n = cp
			s = aSlice{obj: id, n: s.n, cap: cp, elem: byteType}
		}
		for i, x := range d {
			m.putByte(st, aSlice{obj: s.obj, off: s.off, n: s.cap, cap: s.cap, elem: byteType}, s.n.add(aconst(int64(i)), 1), ab{c: x})
		}
		s.n = s.n.add(aconst(32), 1)
		return one(st, s), true
	}
	return nil, false
}

// unmarshal fills what a pointer points to.
func (c *twoParsers) unmarshal(st *astate, id string, to aval) ([]aout, bool) {
	var obj int
	fmt.Sscanf(strings.TrimPrefix(id, "jsonreader:"), "%d", &obj)
	j := c.roots[obj]
	i, ok := to.(aIface)
	if !ok || j == nil {
		return nil, false
	}
	p, ok := i.v.(aPtr)
	if !ok {
		return nil, false
	}
	t := derefType(i.t)
	if !aggregate(t) {
		v, ok := c.decode(st, j, t)
		if !ok {
			return one(st, aErr{id: c.m.fresh("json")}), true
		}
		c.m.store(st, p, v)
		return one(st, aErr{}), true
	}
	if !c.fill(st, c.m.objOf(st, p, t), t, j) {
		return one(st, aErr{id: c.m.fresh("json")}), true
	}
	return one(st, aErr{}), true
}

func (c *twoParsers) fill(st *astate, obj int, t types.Type, j *jnode) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || j.kind != "obj" {
		return false
	}
	good := true
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		key := fmt.Sprint(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		name, opts, _ := strings.Cut(tag, ",")
		if f.Embedded() && name == "" {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				good = c.fill(st, c.m.sub(st, obj, key, alin{}, f.Type()), f.Type(), j) && good
				continue
			}
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		v := j.obj[name]
		if v == nil {
			for _, k := range sortedNodes(j.obj) {
				if strings.EqualFold(k, name) {
					v = j.obj[k]
					break
				}
			}
		}
		if v == nil {
			continue
		}
		if strings.Contains(opts, "string") {
			good = false
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			good = c.fill(st, c.m.sub(st, obj, key, alin{}, f.Type()), f.Type(), v) && good
			continue
		}
		x, ok := c.decode(st, v, f.Type())
		if !ok {
			good = false
			continue
		}
		c.m.writeCell(st, obj, key, alin{}, false, x)
	}
	return good
}

func sortedNodes(mp map[string]*jnode) []string {
	var out []string
	for k := range mp {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *twoParsers) decode(st *astate, j *jnode, t types.Type) (aval, bool) {
	m := c.m
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && j.kind == "str":
			return *j.str, true
		case u.Info()&types.IsInteger != 0 && j.kind == "num" && j.num != nil:
			r, iv := rangeOf(u), m.ivOf(st, *j.num)
			if unsignedKind(u) && widthOf(u) == 8 {
				r.lo = 0
			}
			if iv.lo < r.lo || iv.hi > r.hi {
				return nil, false // some block is refused
			}
			return aInt{*j.num, u}, true
		case u.Info()&types.IsFloat != 0 && j.kind == "num" && j.flt != "" && u.Kind() == types.Float64:
			return aOpaque{j.flt, t}, true
		}
		return nil, false
	case *types.Pointer:
		if j.kind != "obj" {
			return nil, false
		}
		id := m.alloc(st, u.Elem(), "")
		return aPtr{obj: id}, c.fill(st, id, u.Elem(), j)
	case *types.Slice:
		if j.kind != "arr" {
			return nil, false
		}
		id := m.alloc(st, t, "")
		n := aconst(int64(len(j.arr)))
		m.mut2(st, id).n = n
		for i, e := range j.arr {
			k := aconst(int64(i))
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				if !c.fill(st, m.sub(st, id, k.String(), k, u.Elem()), u.Elem(), e) {
					return nil, false
				}
				continue
			}
			v, ok := c.decode(st, e, u.Elem())
			if !ok {
				return nil, false
			}
			m.writeCell(st, id, k.String(), k, true, v)
		}
		return aSlice{obj: id, n: n, cap: n, elem: u.Elem()}, true
	}
	return nil, false
}

// ---- amounts ----

// satoshisOf: what a number worked out from an amount in bitcoin is as an integer, when it is the amount in satoshis.
func (c *twoParsers) satoshisOf(id string) (alin, bool) {
	for f, v := range c.btc {
		p := mulFloats(f, "100000000")
		switch id {
		case "f:Round(" + p + ")", "f:RoundToEven(" + p + ")", "f:Floor(" + addFloats(p, "0.5") + ")", addFloats(p, "0.5"):
			return v, true
		}
	}
	return alin{}, false
}

func mulFloats(a, b string) string {
	if b < a {
		a, b = b, a
	}
	return "f:(" + a + "*" + b + ")"
}

func addFloats(a, b string) string {
	if b < a {
		a, b = b, a
	}
	return "f:(" + a + "+" + b + ")"
}

// ---- the rest ----

func (c *twoParsers) compactSizes() {
	f := c.P.Func("intrinsicobjects", "ReadCompactSize")
	if f == nil {
		return // the floor tells
	}
	for _, k := range []struct {
		prefix byte
		w      int
		lo, hi int64
	}{{0, 0, 0, 252}, {253, 2, 253, 0xffff}, {254, 4, 1 << 16, math.MaxUint32}, {255, 8, 1 << 32, 1 << 50}} {
		c.machine("compact size", f)
		m := c.m
		st := m.newState()
		c.r.count("compact sizes", 1)
		off := m.symbol("offset", 0, 1<<30)
		v := m.symbol("count", k.lo, k.hi)
		id := m.alloc(st, types.NewSlice(byteType), "data")
		n := off.add(m.symbol("rest", 9, 1<<30), 1)
		m.mut2(st, id).n = n
		s := aSlice{obj: id, n: n, cap: n, elem: byteType}
		bs := m.bytesOf(st, v)
		if k.w == 0 {
			m.putByte(st, s, off, bs[0])
		} else {
			m.putByte(st, s, off, ab{c: k.prefix})
			for i := 0; i < k.w; i++ {
				m.putByte(st, s, off.add(aconst(int64(i+1)), 1), bs[i])
			}
		}
		n1 := 0
		for _, o := range m.run(f, []aval{s, aInt{off, intType}}, nil, st) {
			n1++
			ok := !o.panic && len(o.rets) == 2 && sameInt(m, o.st, o.rets[0], v) && sameInt(m, o.st, o.rets[1], aconst(int64(k.w+1)))
			c.cd.oblig(ok, fmt.Sprintf("encoding in %d bytes", k.w+1), "a count must be read as the number encoded, and its length with it")
		}
		c.cd.oblig(n1 > 0, "no outcome", "no path on which a count is read")
	}
}

func (c *twoParsers) hexDigits() {
	for _, name := range []string{"HashHexToSha256", "hashHexToBin"} {
		f := c.P.Func("indexedhashes", name)
		if f == nil {
			continue
		}
		c.r.count("readers of the text of a hash", 1)
		c.machine("hex digits", f)
		m := c.m
		read := func(st *astate, s string) (*astate, aval, bool) {
			args := []aval{aStr{s: s, known: true}}
			id := -1
			if f.Signature.Params().Len() == 2 {
				id = m.alloc(st, c.hashT, "")
				args = append(args, aPtr{obj: id})
			}
			outs := m.run(f, args, nil, st)
			if len(outs) != 1 || outs[0].panic {
				return st, nil, false
			}
			o := outs[0]
			if id >= 0 {
				return o.st, aAgg{m.snapshot(o.st, id)}, succeeded(o)
			}
			return o.st, o.rets[0], succeeded(o)
		}
		st := m.newState()
		for _, upper := range []bool{false, true} {
			ok := true
			for k := 0; k < 8; k++ {
				var d [32]byte
				for i := range d {
					d[i] = byte(32*k + i)
				}
				s := displayHex(d)
				if upper {
					s = strings.ToUpper(s)
				}
				var v aval
				var good bool
				st, v, good = read(st, s)
				ok = ok && good && m.sameHash(st, v, c.hashVal(st, d))
			}
			c.cd.oblig(ok, "text of a hash", "the text of a hash must be read as its bytes in reverse")
		}
		for _, n := range []int{0, 63, 65, 66} {
			_, _, good := read(st.clone(), strings.Repeat("a", n))
			c.cd.oblig(!good, "text of another length", "a text that is not that of a hash must be refused")
		}
	}
}

func (c *twoParsers) difficulties() {
	f := c.P.Func("intrinsicobjects", "CalculateDifficulty")
	if f == nil {
		return
	}
	c.machine("difficulty", f)
	m := c.m
	for e := int64(4); e <= 32; e++ {
		for _, mant := range []int64{0xffff, 0x7fffff, 0x8000, 0x0404cb} {
			c.r.count("difficulties", 1)
			want := float64(0xffff) / float64(mant)
			for k := e; k < 29; k++ {
				want *= 256
			}
			for k := e; k > 29; k-- {
				want /= 256
			}
			st := m.newState()
			outs := m.run(f, []aval{aInt{aconst(e<<24 | mant), types.Typ[types.Uint32]}}, nil, st)
			ok := len(outs) == 1 && !outs[0].panic && len(outs[0].rets) == 1
			if ok {
				got, known := floatOf(outs[0].rets[0])
				ok = known && math.Abs(got-want) <= 1e-12*want
			}
			c.cd.oblig(ok, "difficulty", fmt.Sprintf("the difficulty of the target %08x must be the node's", e<<24|mant))
		}
	}
}

type bigNum struct {
	i *big.Int
	f *big.Float
}

// bigOp: long arithmetic on constants.
func (c *twoParsers) bigOp(st *astate, site ssa.CallInstruction, name string, args []aval) ([]aout, bool) {
	key := func(v aval) string {
		switch x := v.(type) {
		case aOpaque:
			return x.id
		case aPtr:
			return fmt.Sprintf("object %d%s", x.obj, x.cell)
		}
		return ""
	}
	isFloat := strings.Contains(name, "big.Float)") || strings.HasSuffix(name, "NewFloat")
	num := func(v aval, float bool) bigNum {
		if n, ok := c.bigs[key(v)]; ok {
			return n
		}
		if float {
			return bigNum{f: new(big.Float)}
		}
		return bigNum{i: new(big.Int)}
	}
	constant := func(v aval) (float64, bool) { return floatOf(v) }
	op := name[strings.LastIndex(name, ".")+1:]
	switch op {
	case "NewInt", "NewFloat":
		x, ok := constant(args[0])
		if !ok {
			return nil, false
		}
		n := bigNum{i: big.NewInt(int64(x))}
		if isFloat {
			n = bigNum{f: big.NewFloat(x)}
		}
		c.nhash++
		id := fmt.Sprintf("big:%d", c.nhash)
		c.bigs[id] = n
		return one(st, aOpaque{id, site.Common().Signature().Results().At(0).Type()}), true
	}
	if len(args) == 0 || key(args[0]) == "" || !strings.HasPrefix(name, "(*math/big.") {
		return nil, false
	}
	z := args[0]
	set := func(n bigNum, more ...aval) ([]aout, bool) {
		c.bigs[key(z)] = n
		return one(st, append([]aval{z}, more...)...), true
	}
	if isFloat {
		switch op {
		case "SetInt":
			return set(bigNum{f: new(big.Float).SetInt(num(args[1], false).i)})
		case "Quo":
			x, y := num(args[1], true).f, num(args[2], true).f
			if y.Sign() != 0 {
				return set(bigNum{f: new(big.Float).Quo(x, y)})
			}
		case "Float64":
			x, _ := num(z, true).f.Float64()
			return one(st, mkFloat(x, types.Typ[types.Float64]), aInt{aconst(0), types.Typ[types.Int8]}), true
		}
		return nil, false
	}
	switch op {
	case "SetUint64", "SetInt64":
		if x, ok := m2int(args[1]); ok {
			return set(bigNum{i: big.NewInt(x)})
		}
	case "Set":
		return set(bigNum{i: new(big.Int).Set(num(args[1], false).i)})
	case "Lsh", "Rsh":
		if k, ok := m2int(args[2]); ok && k >= 0 && k < 4096 {
			x := num(args[1], false).i
			if op == "Lsh" {
				return set(bigNum{i: new(big.Int).Lsh(x, uint(k))})
			}
			return set(bigNum{i: new(big.Int).Rsh(x, uint(k))})
		}
	case "Mul":
		return set(bigNum{i: new(big.Int).Mul(num(args[1], false).i, num(args[2], false).i)})
	case "SetString":
		s, ok := args[1].(aStr)
		base, ok2 := m2int(args[2])
		if ok && ok2 && s.known {
			if v, good := new(big.Int).SetString(s.s, int(base)); good {
				return set(bigNum{i: v}, aBool{known: true, val: true})
			}
		}
	}
	return nil, false
}

func m2int(v aval) (int64, bool) {
	if i, ok := v.(aInt); ok && i.l.isConst() {
		return i.l.c, true
	}
	return 0, false
}
