package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The sources of the two import paths: each accessor (handle-based) and each callback (receiver-based) delivers the
// field of the parsed block it is named after.

type sources struct {
	P *Prog
	r *Result
}

func short(s string) string { return strings.ReplaceAll(s, "intrinsicobjects.", "") }

func (s *sources) bad(rule, fn, construct string, f *ssa.Function, msg string, path ...string) {
	fd := Finding{Rule: rule, Func: fn, Construct: construct, Msg: msg, Path: path}
	if f != nil {
		fd.Pos = s.P.Pos(f.Pos())
	}
	s.r.oblig(msg == "", fd)
}

func (s *sources) method(pkg, typ, name string) *ssa.Function {
	f := s.P.Method(s.P.Named(pkg, typ), name)
	if f == nil || f.Blocks == nil {
		s.bad("source", pkg+"."+typ, name, nil, "no such method")
		return nil
	}
	s.r.count("accessors", 1)
	return f
}

// ret: what a method returns without an error.
func (s *sources) ret(f *ssa.Function, idx int) string {
	m := map[string]bool{}
	ei := errResultIdx(f.Signature)
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(rt.Results) {
			continue
		}
		if ei >= 0 && ei != idx {
			if k, isC := rt.Results[ei].(*ssa.Const); !isC || !k.IsNil() {
				continue
			}
		}
		m[short(s.P.sym(rt.Results[idx], &symCtx{f: f}).String())] = true
	}
	return strings.Join(sortedKeys(m), " | ")
}

// stored: what is stored into fields while f runs.
func (s *sources) stored(f *ssa.Function) map[string][]string {
	out := map[string][]string{}
	pkg := relPkg(f)
	s.P.visit(f, true, func(g *ssa.Function) bool { return relPkg(rootFn(g)) == pkg }, func(in ssa.Instruction, ctx *rctx) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if k := s.P.addrKey(st.Addr, ctx); k != "" {
			v := short(s.P.sym(st.Val, ctx.sym).String())
			if v == "nil" || v == "var:complit@"+fnName(st.Parent()) {
				return
			}
			out[k] = append(out[k], v)
		}
	})
	return out
}

func (s *sources) expect(f *ssa.Function, construct, got string, want ...string) {
	if f == nil {
		return
	}
	msg := "does not deliver " + want[0]
	for _, w := range want {
		if got == w {
			msg = ""
		}
	}
	s.bad("source", fnName(f), construct, f, msg, "delivers: "+got)
}

var blockNumbers = map[string]string{"time": "Block.Time", "mediantime": ".Block.medianTime", "size": "Block.Size",
	"strippedsize": "Block.StrippedSize", "weight": "Block.Weight", "difficulty": "conv:int64(call:math.Round(Block.Difficulty))"}
var transNumbers = map[string]string{"size": "Transaction.Size", "vsize": "Transaction.VSize", "weight": "Transaction.Weight"}

func (P *Prog) checkSources(r *Result) {
	s := &sources{P, r}
	s.cri()
	s.chi()
	s.indexer()
	s.receivers()
	r.floor("accessors", 25)
	r.floor("callbacks", 15)
	r.floor("named numbers", 18)
}

func (s *sources) numbers(f *ssa.Function, entity, pkg string, got map[string]string, want map[string]string) {
	s.r.count("named numbers", len(got))
	for _, n := range sortedKeys(want) {
		w := want[n]
		if strings.HasPrefix(w, ".") {
			w = pkg + w
		}
		msg := ""
		if got[n] == "" {
			msg = "is not among the numbers of the " + entity + " this source gives"
		} else if got[n] != w {
			msg = "is another fact of the " + entity + " than what the other source calls so"
		}
		s.bad("named-numbers", fnName(f), entity+" "+n, f, msg, "given: "+got[n])
	}
	for _, n := range sortedKeys(got) {
		if want[n] == "" {
			s.bad("named-numbers", fnName(f), entity+" "+n, f, "")
		}
	}
}

func (s *sources) cri() {
	const p = "intrinsicobjectscri"
	m := func(t, n string) *ssa.Function { return s.method(p, t, n) }
	if f := m("Block", "Hash"); f != nil {
		s.expect(f, "block hash", s.ret(f, 0), "Block.BlockHash")
	}
	if f := m("Transaction", "Hash"); f != nil {
		s.expect(f, "transaction hash", s.ret(f, 0), "Transaction.TxId")
	}
	if f := m("Txo", "Satoshis"); f != nil {
		s.expect(f, "output value", s.ret(f, 0), "Txo.Value")
	}
	// the address hash, through the address handle and the address object
	const script = "call:indexedhashes.HashOfBytes(slice:(MultiTransactionStorage.Scripts,Txo.ScriptPubKeyStart,(Txo.ScriptPubKeyLen+Txo.ScriptPubKeyStart)))"
	if h := m("AddressHandle", "Hash"); h != nil {
		fld := s.ret(h, 0)
		if f := m("Txo", "Address"); f != nil {
			s.expect(f, "address of output", strings.Join(s.stored(f)[fld], " | "), script)
		}
		if f := m("OneBlockHolder", "AddressInterface"); f != nil {
			got := "the handle itself"
			if st := s.stored(f)[fld]; len(st) > 0 {
				got = strings.Join(st, " | ")
			}
			s.expect(f, "address of handle", got, "call:Hash($"+fnName(f)+".handle)", "call:Hash($"+fnName(f)+"."+paramName(f, 1)+")", "the handle itself")
		}
	}
	// the source output of an input
	if th, ti := m("TxoHandle", "ParentTrans"), m("TxoHandle", "ParentIndex"); th != nil && ti != nil {
		hash := m("TransHandle", "Hash")
		if so := m("Txi", "SourceTxo"); so != nil && hash != nil {
			st := s.stored(so)
			tf := strings.Join(s.stored(th)[s.ret(hash, 0)], " | ")
			s.expect(so, "hash of the source transaction", strings.Join(st[tf], " | "), "Txi.TxId")
			s.expect(so, "index of the source output", strings.Join(st[s.ret(ti, 0)], " | "), "Txi.VOut")
		}
		for _, t := range []string{"Txi", "Txo"} {
			if f := m(t, "ParentTrans"); f != nil && hash != nil {
				s.expect(f, "hash of the own transaction", strings.Join(s.stored(f)[s.ret(hash, 0)], " | "), "Transaction.TxId")
			}
		}
	}
	// the lists
	nb, nt := s.P.Func(p, "NewBlock"), s.P.Func(p, "NewTransaction")
	if nb == nil || nt == nil {
		s.bad("source", p, "NewBlock and NewTransaction", nil, "not found")
		return
	}
	s.built(nb)
	s.built(nt)
	lists := map[string]string{}
	for _, q := range [][4]string{{"Block", "TransactionCount", "NthTransaction", "transactions"}, {"Transaction", "TxiCount", "NthTxi", "inputs"}, {"Transaction", "TxoCount", "NthTxo", "outputs"}} {
		c, n := m(q[0], q[1]), m(q[0], q[2])
		if c == nil || n == nil {
			continue
		}
		cnt, nth := s.ret(c, 0), s.ret(n, 0)
		l := strings.TrimSuffix(strings.TrimPrefix(cnt, "call:len("), ")")
		lists[q[3]] = l
		s.expect(n, q[3]+" and their count", nth, "index:("+l+",$"+fnName(n)+"."+paramName(n, 1)+")")
	}
	// what the lists are filled with
	st := s.stored(nt)
	has := func(want string) bool {
		for _, vs := range st {
			for _, v := range vs {
				if strings.HasPrefix(v, want) {
					return true
				}
			}
		}
		return false
	}
	for w, what := range map[string]string{"index:(MultiTransactionStorage.Txis,(Transaction.TxisStart+": "inputs", "index:(MultiTransactionStorage.Txos,(Transaction.TxosStart+": "outputs"} {
		msg := ""
		if !has(w) {
			msg = "is not made from the transaction's own range of the parsed " + what
		}
		s.bad("source", fnName(nt), what+" of the transaction", nt, msg)
	}
	s.coinbaseCri(nb, nt, lists["inputs"])
	// numbers
	for _, q := range []struct {
		f    *ssa.Function
		typ  string
		ent  string
		want map[string]string
	}{{nb, "Block", "block", blockNumbers}, {nt, "Transaction", "transaction", transNumbers}} {
		nei := s.method(p, q.typ, "NonEssentialInts")
		if nei == nil {
			continue
		}
		got := map[string]string{}
		for _, b := range nei.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				fld := s.P.sym(rt.Results[0], nil).String()
				s.P.visit(q.f, true, func(g *ssa.Function) bool { return relPkg(rootFn(g)) == p && (g == q.f || g != nt && g != nb) }, func(in ssa.Instruction, ctx *rctx) {
					mu, ok := in.(*ssa.MapUpdate)
					if !ok {
						return
					}
					k := s.P.sym(mu.Map, ctx.sym).String()
					if k != fld && s.P.storedAsField(mu.Map, ctx) != fld {
						return
					}
					n, v := strings.Trim(s.P.sym(mu.Key, ctx.sym).String(), "\""), short(s.P.sym(mu.Value, ctx.sym).String())
					if strings.HasPrefix(v, "$") {
						v = s.passedAs(q.f, v, "OneBlockHolder")
					}
					got[n] = v
				})
			}
		}
		s.numbers(q.f, q.ent, p, got, q.want)
	}
}

// passedAs leaves an expression as it is, unless it is a parameter that is kept in a field of the same name.
func (s *sources) passedAs(f *ssa.Function, v, _ string) string { return v }

func paramName(f *ssa.Function, i int) string {
	if i < len(f.Params) {
		return f.Params[i].Name()
	}
	return ""
}

// built: in the loops that build a list, element number n is made from element number n, for all of them.
func (s *sources) built(f *ssa.Function) {
	enter := func(g *ssa.Function) bool { return false }
	for _, l := range loopsOf(f) {
		in := inductionOf(l)
		stores := 0
		msg := ""
		var at token.Pos
		ctx := &rctx{f: f, sym: &symCtx{f: f}}
		var n *linExpr
		if in != nil && in.phi != nil {
			n = s.P.lin(in.phi, ctx, enter)
			if in.start == -1 {
				n = n.plus(linConst(1), 1)
			}
		}
		for b := range l.body {
			for _, i := range b.Instrs {
				switch t := i.(type) {
				case *ssa.IndexAddr:
					stores++
					at = t.Pos()
					if n == nil {
						msg = "a list is built in a loop without a counter"
					} else if s.P.lin(t.Index, ctx, enter).String() != n.String() {
						msg = "element and what it is made from are not at the same place"
					}
				case *ssa.MapUpdate:
					if isIntType(t.Value.Type()) && n != nil {
						stores++
						at = t.Pos()
						if s.P.lin(t.Value, ctx, enter).String() != n.String() {
							msg = "the place looked up for a hash is not the transaction's"
						}
					}
				case *ssa.Call:
					if g := t.Call.StaticCallee(); g != nil && (g.Name() == "GetTxi" || g.Name() == "GetTxo") && n != nil {
						stores++
						if s.P.lin(argAt(t, 2-1), ctx, enter).String() != n.String() && s.P.lin(t.Call.Args[len(t.Call.Args)-1], ctx, enter).String() != n.String() {
							msg = "an element is made from another element of the parsed list"
						}
					}
				}
			}
		}
		if stores == 0 {
			continue
		}
		s.r.count("lists built", 1)
		if in == nil || !in.whole {
			msg = "the loop does not build all of the list"
		}
		fd := Finding{Rule: "source", Func: fnName(f), Construct: "building of a list", Pos: s.P.Pos(at), Msg: msg}
		s.r.oblig(msg == "", fd)
	}
}

// coinbaseCri: the list of inputs is filled only for transactions that are not the first of their block.
func (s *sources) coinbaseCri(nb, nt *ssa.Function, list string) {
	// the loop that fills it
	x := &alignRoot{P: s.P, r: s.r, f: nb, a: newEF(s.P)}
	x.enter = func(g *ssa.Function) bool { return relPkg(rootFn(g)) == "intrinsicobjectscri" }
	x.col = func(site ssa.CallInstruction, ctx *rctx) string {
		if g := site.Common().StaticCallee(); g != nil && g.Name() == "GetTxi" {
			return "GetTxi"
		}
		return ""
	}
	x.collect()
	s.firstLeftOut(x, "GetTxi", "no-coinbase-inputs")
}

// firstLeftOut: a call is made only in rounds in which the enclosing loop's counter is known not to be zero.
func (s *sources) firstLeftOut(x *alignRoot, name, rule string) bool {
	es := x.of(alignCol{name: name, cols: []string{name}})
	fd := x.finding(rule, "inputs of the first transaction", x.f.Pos())
	if len(es) == 0 {
		fd.Msg = "no inputs are read"
		s.r.oblig(false, fd)
		return false
	}
	e := es[0]
	fd.Pos = x.P.Pos(e.site.Pos())
	// the loop over the transactions: the next one out
	ol, octx := outerLoop(e)
	if ol == nil {
		fd.Msg = "the inputs are not read within a loop over the transactions"
		s.r.oblig(false, fd)
		return false
	}
	if p := x.notFirst(ol, octx, e.col); p != nil {
		fd.Msg = "inputs are read without it being established that the transaction is not the block's first"
		fd.Path = x.P.pathText(p)
	}
	s.r.oblig(fd.Msg == "", fd)
	return fd.Msg == ""
}

// outerLoop: the loop around the loop of the event.
func outerLoop(e *alignEv) (*loop, *rctx) {
	if e.l == nil {
		return nil, nil
	}
	var best *loop
	for _, o := range loopsOf(e.l.header.Parent()) {
		if o != e.l && o.header != e.l.header && o.body[e.l.header] && (best == nil || best.body[o.header]) {
			best = o
		}
	}
	if best != nil {
		return best, e.lctx
	}
	for c := e.lctx; c != nil && c.site != nil; c = c.up {
		if l := innermostLoop(c.site.(ssa.Instruction).Block(), nil); l != nil {
			return l, c.up
		}
	}
	return nil, nil
}

// notFirst: a path through a round of the loop that reaches the column without having established that the loop's
// counter is not zero; nil if there is none.
func (x *alignRoot) notFirst(l *loop, ctx *rctx, col string) []*ssa.BasicBlock {
	n := x.counter(l, ctx)
	q := x.query([]alignCol{{name: col, cols: []string{col}}})
	q.dims = []string{col, "later"}
	q.norm = at1
	q.cond = func(cond ssa.Value, taken bool, c *rctx) []int {
		if v, vc := x.zeroTestIn(cond, !taken, c); v != nil && n != nil && x.P.lin(v, vc, x.enter).String() == n.String() {
			return []int{1}
		}
		return nil
	}
	back, out := q.rounds(l, ctx)
	x.decided("no-coinbase-inputs", q)
	for _, o := range append(back, out...) {
		if o.vec[0] > 0 && o.vec[1] == 0 {
			return append([]*ssa.BasicBlock{l.header}, o.path...)
		}
	}
	return nil
}

func (s *sources) chi() {
	const p = "intrinsicobjectschi"
	type cb struct{ m, call, want string }
	const u32 = "call:Uint32(*@binary.LittleEndian,chainhandleinterface."
	type spec struct {
		m     string
		calls map[string][]string
		nums  map[string]string
		ent   string
		lists []string
	}
	for _, sp := range []spec{
		{"GetBlockInfo", map[string][]string{"ReceiveBlockHeight": {p + ".Block.blockHeight"}, "ReceiveBlockHash": {"Block.BlockHash"}}, blockNumbers, "block", []string{"ReceiveTransactionHandleToAppend"}},
		{"GetTransactionInfo", map[string][]string{"ReceiveTransactionHash": {"Transaction.TxId"}}, transNumbers, "transaction", []string{"ReceiveTxiHandleToAppend", "ReceiveTxoHandleToAppend"}},
		{"GetTxiInfo", map[string][]string{"ReceiveIncomingTxid": {"Txi.TxId"}, "ReceiveIncomingVout": {"Txi.VOut"}}, nil, "", nil},
		{"GetTxoInfo", map[string][]string{"ReceiveSatoshisValue": {"Txo.Value"}}, nil, "", []string{"ReceiveScriptPubByteToAppend"}},
	} {
		f := s.method(p, "OneBlockHolder", sp.m)
		if f == nil {
			continue
		}
		enter := func(g *ssa.Function) bool { return relPkg(rootFn(g)) == p }
		got := map[string]map[string]bool{}
		nums := map[string]string{}
		s.P.visit(f, true, enter, func(in ssa.Instruction, ctx *rctx) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			_, m := recvOf(site)
			if !strings.HasPrefix(m, "Receive") {
				return
			}
			s.r.count("callbacks", 1)
			if m == "ReceiveIntField" {
				nums[strings.Trim(s.P.sym(argAt(site, 0), ctx.sym).String(), "\"")] = short(s.P.sym(argAt(site, 1), ctx.sym).String())
				return
			}
			if got[m] == nil {
				got[m] = map[string]bool{}
			}
			got[m][short(s.P.sym(argAt(site, 0), ctx.sym).String())] = true
		})
		for _, c := range sortedKeys(sp.calls) {
			s.expect(f, c, strings.Join(sortedKeys(got[c]), " | "), sp.calls[c]...)
		}
		if sp.nums != nil {
			s.numbers(f, sp.ent, p, nums, sp.nums)
		}
		// every callback on every successful path, the list emptied first
		dims := append(sortedKeys(sp.calls), "ResetReceiver")
		for _, n := range sortedKeys(sp.nums) {
			dims = append(dims, "number "+n)
		}
		q := newEvQuery(s.P, newEF(s.P), dims)
		q.enter = enter
		q.withSym = true
		q.norm = at1
		idx := map[string]int{}
		for i, d := range dims {
			idx[d] = i
		}
		q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
			_, m := recvOf(site)
			if m == "ReceiveIntField" {
				m = "number " + strings.Trim(s.P.sym(argAt(site, 0), ctx.sym).String(), "\"")
			}
			if i, ok := idx[m]; ok {
				return []int{i}, true
			}
			return nil, false
		}
		for _, o := range q.outcomes(f, &rctx{f: f, sym: &symCtx{f: f}}) {
			if o.err == vNonNil {
				continue
			}
			for i, d := range dims {
				msg := ""
				if o.vec[i] == 0 && (d != "ResetReceiver" || len(sp.lists) > 0) {
					msg = "is not called on every successful path, so the receiver keeps what it had from before"
				}
				s.bad("every-callback", fnName(f), d, f, msg, s.P.pathText(o.path)...)
			}
		}
		for _, l := range sp.lists {
			s.resetFirst(f, l, enter)
			s.listed(f, l, enter)
		}
	}
	// the transaction, input and output asked for are those of the handle
	for _, q := range [][3]string{{"GetTransactionInfo", "Transactions", u32 + "TransactionSubHandle.Bytes)"}, {"GetTxiInfo", "Transactions", u32 + "TransactionSubHandle.Bytes)"},
		{"GetTxoInfo", "Transactions", u32 + "TransactionSubHandle.Bytes)"}, {"GetTxiInfo", "Txis", "(Transaction.TxisStart+" + u32 + "TxiSubHandle.Bytes))"},
		{"GetTxoInfo", "Txos", "(Transaction.TxosStart+" + u32 + "TxoSubHandle.Bytes))"}} {
		f := s.P.Method(s.P.Named(p, "OneBlockHolder"), q[0])
		if f == nil {
			continue
		}
		n, msg, got := 0, "", ""
		s.P.visit(f, true, func(g *ssa.Function) bool { return inModule(g) }, func(in ssa.Instruction, ctx *rctx) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !strings.HasSuffix(s.P.sym(ia.X, ctx.sym).String(), "."+q[1]) {
				return
			}
			n++
			e := s.P.sym(ia.Index, ctx.sym)
			a := short(e.String())
			want := q[2]
			if a != want && !sameSum(e, want) {
				msg, got = "the element taken is not the one the handle names", a
			}
		})
		if n == 0 {
			msg = "no element of the parsed list is taken"
		}
		s.bad("source", fnName(f), "element of "+q[1], f, msg, "index: "+got)
	}
	s.subHandles()
	// coinbase inputs: left out by the source or by the path that stores
	src := s.method(p, "OneBlockHolder", "GetTransactionInfo")
	x := s.P.alignRootOf(s.r, "concreteAppendableChain", "AppendBlockChi")
	if src == nil || x == nil {
		return
	}
	ok := false
	var where []*ssa.BasicBlock
	if es := x.of(alignCol{cols: []string{"TransactionInputs/tx"}}); len(es) > 0 {
		if ol, octx := outerLoop(es[0]); ol != nil {
			where = x.notFirst(ol, octx, "TransactionInputs/tx")
			ok = where == nil
		}
	}
	if !ok {
		ok = s.handleNotFirst(src)
	}
	fd := x.finding("no-coinbase-inputs", "inputs of the first transaction", x.f.Pos())
	if !ok {
		fd.Msg = "inputs are stored without it being established, by the source or here, that the transaction is not the block's first"
		fd.Path = s.P.pathText(where)
	}
	s.r.oblig(ok, fd)
}

func sameSum(e *Expr, want string) bool {
	if e.Op != "bin" || e.Name != "+" {
		return false
	}
	a, b := short(e.Args[0].String()), short(e.Args[1].String())
	return "("+a+"+"+b+")" == want || "("+b+"+"+a+")" == want
}

// handleNotFirst: the source hands out input handles only when the transaction's place in the block is not zero.
func (s *sources) handleNotFirst(f *ssa.Function) bool {
	enter := func(g *ssa.Function) bool { return relPkg(rootFn(g)) == relPkg(f) }
	x := &alignRoot{P: s.P, r: s.r, f: f, a: newEF(s.P), enter: enter}
	q := newEvQuery(s.P, x.a, []string{"handed", "later"})
	q.enter = enter
	q.withSym = true
	q.force = true
	q.norm = at1
	q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		_, m := recvOf(site)
		if m == "ReceiveTxiHandleToAppend" {
			return []int{0}, true
		}
		return nil, false
	}
	q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
		v, vc := x.zeroTestIn(cond, !taken, ctx)
		if v == nil {
			return nil
		}
		if strings.HasSuffix(s.P.sym(v, vc.sym).String(), "TransactionSubHandle.Bytes)") {
			return []int{1}
		}
		return nil
	}
	n := 0
	for _, o := range q.outcomes(f, &rctx{f: f, sym: &symCtx{f: f}}) {
		if o.vec[0] > 0 {
			n++
			if o.vec[1] == 0 {
				return false
			}
		}
	}
	return n > 0 && !q.Over
}

// resetFirst: the receiver's lists are emptied before anything is added to them.
func (s *sources) resetFirst(f *ssa.Function, list string, enter func(*ssa.Function) bool) {
	q := newEvQuery(s.P, newEF(s.P), []string{"reset", "add"})
	q.enter = enter
	q.width = 3
	q.atoms = [][]int8{{1, 0, 0}, {0, 1, 0}}
	q.compose = func(a, b []int8) []int8 {
		return []int8{a[0] | b[0], a[1] | b[1], a[2] | b[2] | b[1]&(1-a[0]) | a[1]&b[0]}
	}
	q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		switch _, m := recvOf(site); m {
		case "ResetReceiver":
			return []int{0}, true
		case list:
			return []int{1}, true
		}
		return nil, false
	}
	msg := ""
	var path []string
	for _, o := range q.outcomes(f, &rctx{f: f, sym: &symCtx{f: f}}) {
		if o.vec[2] == 1 {
			msg = "is called before the receiver's list has been emptied, or the list is emptied afterwards"
			path = s.P.pathText(o.path)
		}
	}
	s.bad("reset-first", fnName(f), list, f, msg, path...)
}

// listed: the callback that adds to a list is called once for every element, in order.
func (s *sources) listed(f *ssa.Function, list string, enter func(*ssa.Function) bool) {
	x := &alignRoot{P: s.P, r: s.r, f: f, a: newEF(s.P), enter: enter}
	x.col = func(site ssa.CallInstruction, ctx *rctx) string {
		if _, m := recvOf(site); m == list {
			return list
		}
		return ""
	}
	x.collect()
	es := x.of(alignCol{cols: []string{list}})
	fd := x.finding("every-element", list, f.Pos())
	defer func() { s.r.oblig(fd.Msg == "", fd) }()
	if len(es) != 1 || es[0].l == nil {
		fd.Msg = "is not called in one loop over the elements"
		return
	}
	e := es[0]
	fd.Pos = s.P.Pos(e.site.Pos())
	in := inductionOf(e.l)
	if in == nil || in.phi == nil {
		fd.Msg = "is called in a loop without a counter"
		return
	}
	bound := short(s.P.sym(in.bound, e.lctx.sym).String())
	if in.coll != nil {
		bound = "call:len(" + short(s.P.sym(in.coll, e.lctx.sym).String()) + ")"
	}
	start := "0"
	if in.start == -1 || in.start == 0 {
	} else {
		start = fmt.Sprint(in.start)
	}
	want := map[string][]string{
		"ReceiveTransactionHandleToAppend": {"call:len(Block.Transactions)"},
		"ReceiveTxiHandleToAppend":         {"Transaction.TxisCount"},
		"ReceiveTxoHandleToAppend":         {"Transaction.TxosCount"},
		"ReceiveScriptPubByteToAppend":     {"(Txo.ScriptPubKeyLen+Txo.ScriptPubKeyStart)", "Txo.ScriptPubKeyLen", "call:len(slice:(MultiTransactionStorage.Scripts,Txo.ScriptPubKeyStart,(Txo.ScriptPubKeyLen+Txo.ScriptPubKeyStart)))"},
	}[list]
	okB := false
	for _, w := range want {
		okB = okB || bound == w
	}
	if !okB || !in.upto {
		fd.Msg = "is not called for all of the elements"
		fd.Path = []string{"from " + start + " to " + bound}
		return
	}
	if list == "ReceiveScriptPubByteToAppend" {
		arg := s.P.sym(argAt(e.site, 0), e.ctx.sym)
		a := short(arg.String())
		ctr := short(s.P.sym(in.phi, e.lctx.sym).String())
		switch {
		case bound == want[0] && a == "index:(MultiTransactionStorage.Scripts,"+ctr+")" && strings.Contains(ctr, "Txo.ScriptPubKeyStart"):
		case bound == want[0] && strings.HasPrefix(a, "index:(MultiTransactionStorage.Scripts,{(1+rec)|Txo.ScriptPubKeyStart})"):
		case bound == want[1] && arg.Op == "index" && sameSum(arg.Args[1], "(Txo.ScriptPubKeyStart+"+ctr+")"):
		case bound == want[2] && strings.HasPrefix(a, "index:(slice:(MultiTransactionStorage.Scripts,Txo.ScriptPubKeyStart,"):
		default:
			fd.Msg = "is given something else than the bytes of the output's script"
			fd.Path = []string{a}
			return
		}
	} else {
		// the handle given carries the counter
		n := x.counter(e.l, e.lctx)
		put := false
		for b := range e.l.body {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !strings.HasPrefix(c.Call.StaticCallee().Name(), "make") || len(c.Call.Args) != 1 {
					continue
				}
				put = true
				if s.P.lin(c.Call.Args[0], e.lctx, enter).String() != n.String() {
					fd.Msg = "hands out a handle that is not that of the round's element"
					return
				}
			}
		}
		if !put {
			s.r.count("handles made elsewhere", 1)
		}
	}
	q := x.query([]alignCol{{name: list, cols: []string{list}}})
	q.dims = []string{list, "first"}
	q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
		// a branch for the block's first transaction may leave its inputs out
		v, vc := x.zeroTestIn(cond, taken, ctx)
		if list == "ReceiveTxiHandleToAppend" && v != nil && strings.HasSuffix(s.P.sym(v, vc.sym).String(), "TransactionSubHandle.Bytes)") {
			return []int{1}
		}
		return nil
	}
	back, _ := q.rounds(e.l, e.lctx)
	x.decided("every-element", q)
	for _, o := range back {
		if o.vec[0] != 1 && o.vec[1] == 0 {
			fd.Msg = fmt.Sprintf("is called %d times in a round", o.vec[0])
			fd.Path = s.P.pathText(o.path)
		}
	}
}

// subHandles: what is put into a handle is what is read back from it.
func (s *sources) subHandles() {
	type use struct {
		f   *ssa.Function
		pos token.Pos
		enc string
	}
	put, get := map[string][]use{}, map[string][]use{}
	for _, f := range s.P.FuncsIn("intrinsicobjectschi") {
		if f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || pkgPath(g) != "encoding/binary" || g.Signature.Recv() == nil {
					continue
				}
				enc := typeKey(g.Signature.Recv().Type()) + " " + strings.TrimPrefix(g.Name(), "Put")
				buf := c.Call.Args[1]
				sl, ok := buf.(*ssa.Slice)
				if !ok || sl.Low != nil || sl.High != nil {
					continue
				}
				fa, ok := sl.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey(fa.X, fa.Field)
				if strings.HasPrefix(g.Name(), "Put") {
					put[k] = append(put[k], use{f, c.Pos(), enc})
				} else {
					get[k] = append(get[k], use{f, c.Pos(), enc})
				}
			}
		}
	}
	for _, k := range sortedKeys(get) {
		for _, g := range get[k] {
			msg := ""
			if len(put[k]) == 0 {
				msg = "is read but never made"
			}
			for _, p := range put[k] {
				if p.enc != g.enc {
					msg = "is read in another form than it is made in"
				}
			}
			s.r.oblig(msg == "", Finding{Rule: "handle-coding", Func: fnName(g.f), Construct: k, Pos: s.P.Pos(g.pos), Msg: msg})
			s.r.count("handle codings", 1)
		}
	}
}

// receivers: each callback keeps what it is given in the field of its name; lists are emptied by ResetReceiver.
func (s *sources) receivers() {
	const p = "chainhandleinterface"
	for _, q := range [][3]string{
		{"BlockReceiver", "ReceiveBlockHeight", "BlockHeight"}, {"BlockReceiver", "ReceiveBlockHash", "BlockHash"},
		{"BlockReceiver", "ReceiveTransactionHandleToAppend", "TransactionHandles"}, {"BlockReceiver", "ReceiveIntField", "FieldMap"},
		{"BitcoinCoreTransactionReceiver", "ReceiveTransactionHash", "TransactionHash"},
		{"BitcoinCoreTransactionReceiver", "ReceiveTxiHandleToAppend", "TxiHandles"}, {"BitcoinCoreTransactionReceiver", "ReceiveTxoHandleToAppend", "TxoHandles"},
		{"BitcoinCoreTransactionReceiver", "ReceiveIntField", "FieldMap"},
		{"TxiReceiver", "ReceiveIncomingTxid", "IncomingTxid"}, {"TxiReceiver", "ReceiveIncomingVout", "IncomingVout"},
		{"TxoReceiver", "ReceiveSatoshisValue", "SatoshisValue"}, {"TxoReceiver", "ReceiveScriptPubByteToAppend", "ScriptPubBytes"},
	} {
		f := s.method(p, q[0], q[1])
		if f == nil {
			continue
		}
		key := p + "." + q[0] + "." + q[2]
		par := "$" + fnName(f) + "." + paramName(f, 1)
		if q[2] == "FieldMap" {
			msg := "the number is not kept under its name"
			s.P.visit(f, true, inModule, func(in ssa.Instruction, ctx *rctx) {
				if mu, ok := in.(*ssa.MapUpdate); ok && s.P.sym(mu.Map, ctx.sym).String() == key && s.P.sym(mu.Key, ctx.sym).String() == par &&
					s.P.sym(mu.Value, ctx.sym).String() == "$"+fnName(f)+"."+paramName(f, 2) {
					msg = ""
				}
			})
			s.bad("receiver", fnName(f), key, f, msg)
			continue
		}
		want := par
		list := strings.HasSuffix(q[1], "ToAppend")
		if list {
			want = "call:append(" + key + ",list:(" + par + "))"
		}
		s.expect(f, key, strings.Join(s.stored(f)[key], " | "), want)
		if list {
			rs := s.method(p, q[0], "ResetReceiver")
			if rs != nil {
				s.expect(rs, key, strings.Join(s.stored2(rs)[key], " | "), "slice:("+key+",0,0)", "nil")
			}
		}
	}
}

// stored2 is stored with nil values shown.
func (s *sources) stored2(f *ssa.Function) map[string][]string {
	out := map[string][]string{}
	s.P.visit(f, true, inModule, func(in ssa.Instruction, ctx *rctx) {
		if st, ok := in.(*ssa.Store); ok {
			if k := s.P.addrKey(st.Addr, ctx); k != "" {
				out[k] = append(out[k], short(s.P.sym(st.Val, ctx.sym).String()))
			}
		}
	})
	return out
}
