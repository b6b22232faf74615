package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Numbers given out to a transaction indexer by a source that was asked to do so.

var indexerCalls = []string{"StoreBlockHeightToFirstTrans", "StoreTransHeightToParentBlock", "StoreTransHashToHeight"}

// gatherer: the method of a source that tells the indexer about a block.
func (s *sources) gatherer(pkg string) *ssa.Function {
	var found *ssa.Function
	for _, f := range s.P.FuncsIn(pkg) {
		if f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		has := map[string]bool{}
		s.P.visit(f, false, func(g *ssa.Function) bool { return relPkg(rootFn(g)) == pkg }, func(in ssa.Instruction, _ *rctx) {
			if c, ok := in.(ssa.CallInstruction); ok {
				_, m := recvOf(c)
				has[m] = true
			}
		})
		ok := true
		for _, n := range indexerCalls {
			ok = ok && has[n]
		}
		// the innermost one that does it all
		if ok && (found == nil || s.callsIn(found, f)) {
			found = f
		}
	}
	return found
}

func (s *sources) callsIn(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				h := c.Common().StaticCallee()
				if h == g || h != nil && h != f && relPkg(rootFn(h)) == relPkg(f) && s.callsIn(h, g) {
					return true
				}
			}
		}
	}
	return false
}

func (s *sources) indexer() {
	for _, pkg := range []string{"intrinsicobjectscri", "intrinsicobjectschi"} {
		f := s.gatherer(pkg)
		if f == nil {
			s.r.oblig(false, Finding{Rule: "delegated-numbering", Func: pkg, Construct: "indexer", Msg: "nothing tells the transaction indexer about a block"})
			continue
		}
		s.gather(pkg, f)
		s.told(pkg, f)
	}
	s.indexerStores()
}

// gather: the block's first transaction is the one after the latest, each transaction has the next number, and the
// latest is brought up to date.
func (s *sources) gather(pkg string, f *ssa.Function) {
	enter := func(g *ssa.Function) bool { return relPkg(rootFn(g)) == pkg }
	x := &alignRoot{P: s.P, r: s.r, f: f, a: newEF(s.P), enter: enter}
	x.col = func(site ssa.CallInstruction, ctx *rctx) string {
		_, m := recvOf(site)
		for _, n := range indexerCalls {
			if m == n {
				return m
			}
		}
		return ""
	}
	x.collect()
	ev := map[string]*alignEv{}
	for _, n := range indexerCalls {
		es := x.of(alignCol{cols: []string{n}})
		fd := x.finding("delegated-numbering", n, f.Pos())
		if len(es) != 1 {
			fd.Msg = "is not called at one place"
		} else {
			ev[n] = es[0]
			fd.Pos = x.P.Pos(es[0].site.Pos())
		}
		s.r.oblig(fd.Msg == "", fd)
	}
	if len(ev) != 3 {
		return
	}
	first, parent, hash := ev[indexerCalls[0]], ev[indexerCalls[1]], ev[indexerCalls[2]]
	check := func(e *alignEv, what, msg string, path ...string) {
		fd := x.finding("delegated-numbering", what, e.site.Pos())
		fd.Msg, fd.Path = msg, path
		s.r.oblig(msg == "", fd)
	}
	isHeight := func(e *alignEv, arg int) string {
		v := x.P.sym(argAt(e.site, arg), e.ctx.sym).String()
		if !strings.HasSuffix(short(v), "Block.blockHeight") {
			return "is given something else than the block's height"
		}
		return ""
	}
	check(first, "block of the first transaction", isHeight(first, 0))
	check(parent, "parent block", isHeight(parent, 1))
	h := short(x.P.sym(argAt(hash.site, 0), hash.ctx.sym).String())
	msg := ""
	if !strings.HasSuffix(h, "Transaction.TxId") {
		msg = "is given something else than the transaction's hash"
	}
	check(hash, "hash", msg, "hash: "+h)
	// both in one loop over all of the block's transactions
	msg = ""
	l := parent.l
	if l == nil || hash.l == nil || l.header != hash.l.header {
		check(parent, "loop", "the transactions' numbers and hashes are not told in one loop")
		return
	}
	in := inductionOf(l)
	if in == nil || in.phi == nil || !in.whole || in.bound == nil && in.coll == nil {
		check(parent, "loop", "does not go through all of the block's transactions")
		return
	}
	lst := ""
	if in.coll != nil {
		lst = short(x.P.sym(in.coll, parent.lctx.sym).String())
	} else {
		lst = short(x.P.sym(in.bound, parent.lctx.sym).String())
	}
	if !strings.HasSuffix(strings.ToLower(strings.TrimSuffix(lst, ")")), "block.transactions") {
		msg = "does not go through all of the block's transactions"
	}
	check(parent, "loop", msg, lst)
	n := x.counter(l, parent.lctx)
	// the element whose hash is told is that of the round
	msg = ""
	seen := false
	for b := range l.body {
		for _, i := range b.Instrs {
			ia, ok := i.(*ssa.IndexAddr)
			if !ok || !strings.HasSuffix(strings.ToLower(x.P.sym(ia.X, parent.lctx.sym).String()), "block.transactions") {
				continue
			}
			seen = true
			if x.P.lin(ia.Index, parent.lctx, enter).String() != n.String() {
				msg = "is that of another transaction than the round's"
			}
		}
	}
	if !seen && msg == "" {
		s.r.count("transactions taken elsewhere", 1)
	}
	check(hash, "transaction", msg)
	// numbers
	latest := func(v ssa.Value, ctx *rctx, add int64) bool {
		e := x.P.lin(v, ctx, enter)
		return x.isLatest(e, add)
	}
	fnum := argAt(first.site, 1)
	msg = ""
	// the field that holds the latest transaction's number
	for k := range x.P.lin(fnum, first.ctx, enter).leafs {
		if strings.HasPrefix(k, "field:"+pkg+".") {
			x.latest = strings.TrimPrefix(k, "field:")
		}
	}
	if !latest(fnum, first.ctx, 1) {
		msg = "is not the number after the latest transaction's"
	}
	check(first, "number of the first transaction", msg, x.P.lin(fnum, first.ctx, enter).String())
	for _, e := range []*alignEv{parent, hash} {
		arg := 0
		if e == hash {
			arg = 1
		}
		v := x.P.lin(argAt(e.site, arg), e.ctx, enter)
		msg = ""
		if !x.numberInRound(v, l, e, n) {
			msg = "is not numbered on from the latest transaction"
		}
		check(e, "number of a transaction", msg, v.String())
	}
	// the latest is brought up to date
	var stores []string
	good := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || addrField(st.Addr) != x.latest {
				continue
			}
			e := x.P.lin(st.Val, &rctx{f: f, sym: &symCtx{f: f}}, enter)
			stores = append(stores, e.String())
			if x.afterLoop(e, l, in) {
				good = true
			}
			// kept up to date in every round
			if l.body[b] && len(e.leafs) == 1 && x.isLatest(e, 1) {
				good = true
			}
		}
	}
	msg = ""
	if !good {
		msg = "the latest transaction's number is not brought up to the block's last"
	}
	check(parent, "latest transaction", msg, stores...)
	// it starts before the first
	msg = "the latest transaction's number does not start at -1"
	for _, g := range s.P.FuncsIn(pkg) {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && addrField(st.Addr) == x.latest {
					if k, isC := constInt(st.Val); isC {
						if k == -1 {
							msg = ""
						} else {
							msg = "the latest transaction's number is set to a constant other than -1"
						}
					}
				}
			}
		}
	}
	check(first, "start", msg)
	// each of them once on every successful path, and once in every round
	for i, n := range indexerCalls {
		q := x.query([]alignCol{{name: n, cols: []string{n}}})
		q.dims = []string{n, "none"}
		q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
			if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && taken || bo.Op == token.NEQ && !taken) {
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if typeKey(o.Type()) == "transactionindexing.ITransactionIndexer" {
						return []int{1}
					}
				}
			}
			return nil
		}
		msg := ""
		var path []string
		if i == 0 {
			for _, o := range q.outcomes(f, &rctx{f: f, sym: &symCtx{f: f}}) {
				if o.err != vNonNil && o.vec[1] == 0 && o.vec[0] != 1 {
					msg, path = "is not called exactly once on every successful path", x.P.pathText(o.path)
				}
			}
		} else {
			back, out := q.rounds(l, parent.lctx)
			for _, o := range back {
				if o.vec[0] != 1 {
					msg, path = "is not called exactly once for every transaction", x.P.pathText(o.path)
				}
			}
			_ = out
		}
		check(ev[n], "calls", msg, path...)
		x.decided("delegated-numbering", q)
	}
}

func (x *alignRoot) isLatest(e *linExpr, add int64) bool {
	return e != nil && e.c == add && len(e.leafs) == 1 && x.latestLeaf(e) != ""
}

func (x *alignRoot) latestLeaf(e *linExpr) string {
	for k := range e.leafs {
		if e.coef[k] == 1 && x.latest != "" && k == "field:"+x.latest {
			return k
		}
	}
	return ""
}

// numberInRound: latest + 1 + the round's counter, or a second counter that is so.
func (x *alignRoot) numberInRound(v *linExpr, l *loop, e *alignEv, n *linExpr) bool {
	if v == nil {
		return false
	}
	if v.c == 1 && len(v.leafs) == 2 && x.latestLeaf(v) != "" {
		w := v.plus(n, -1)
		return x.isLatest(w, 1)
	}
	if len(v.leafs) != 1 {
		return false
	}
	for k, lf := range v.leafs {
		if v.coef[k] != 1 {
			return false
		}
		phi, ok := lf.v.(*ssa.Phi)
		if !ok {
			// the field itself, brought up to date in every round before it is told
			return x.isLatest(v, 0) || x.isLatest(v, 1)
		}
		c0, ok := x.secondCounter(phi, l, lf.ctx)
		return ok && c0+v.c == 1
	}
	return false
}

// secondCounter: a variable that starts at the latest plus something and goes up by one in every round.
func (x *alignRoot) secondCounter(phi *ssa.Phi, l *loop, ctx *rctx) (int64, bool) {
	if phi.Block() != l.header {
		return 0, false
	}
	var c0 int64
	start := false
	for i, e := range phi.Edges {
		v := x.P.lin(e, ctx, x.enter)
		if l.body[l.header.Preds[i]] {
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) {
				return 0, false
			}
			if k, ok := constInt(bo.Y); !ok || k != 1 {
				return 0, false
			}
			continue
		}
		if !x.isLatest(v, v.c) {
			return 0, false
		}
		c0, start = v.c, true
	}
	return c0, start
}

// afterLoop: the value after the loop is the number of the last transaction.
func (x *alignRoot) afterLoop(v *linExpr, l *loop, in *induction) bool {
	if v == nil {
		return false
	}
	if v.c == 0 && len(v.leafs) == 2 && x.latestLeaf(v) != "" {
		for k, lf := range v.leafs {
			if k == x.latestLeaf(v) {
				continue
			}
			if a := lenArg(lf.v); v.coef[k] == 1 && a != nil && in.coll != nil && x.P.sym(a, &symCtx{f: x.f}).String() == x.P.sym(in.coll, &symCtx{f: x.f}).String() {
				return true
			}
		}
		return false
	}
	if len(v.leafs) != 1 {
		return false
	}
	for k, lf := range v.leafs {
		phi, ok := lf.v.(*ssa.Phi)
		if !ok || v.coef[k] != 1 {
			return false
		}
		if phi.Block() != l.header {
			// the value on leaving a loop tested at its end
			for _, e := range phi.Edges {
				w := x.P.lin(e, lf.ctx, x.enter).plus(linConst(v.c), 1)
				ok := x.isLatest(w, 0)
				for _, g := range w.leafs {
					if p, isPhi := g.v.(*ssa.Phi); isPhi && p.Block() == l.header {
						if c0, is := x.secondCounter(p, l, lf.ctx); is && c0+w.c == 1 {
							ok = true
						}
					}
				}
				if !ok {
					return false
				}
			}
			return true
		}
		c0, ok := x.secondCounter(phi, l, lf.ctx)
		return ok && c0+v.c == 0
	}
	return false
}

// told: whenever a source takes up a block, the indexer is told about it before the block is used.
func (s *sources) told(pkg string, g *ssa.Function) {
	n := 0
	for _, f := range s.P.FuncsIn(pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !s.holdsBlock(pkg, st.Addr) {
					continue
				}
				if k, isC := st.Val.(*ssa.Const); isC && k.IsNil() {
					continue
				}
				n++
				q := newEvQuery(s.P, newEF(s.P), []string{"told", "owed"})
				q.withSym = true
				q.enter = func(h *ssa.Function) bool { return relPkg(rootFn(h)) == pkg && h != g }
				q.norm = upTo2
				q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
					if site.Common().StaticCallee() == g {
						return []int{0}, true
					}
					return nil, false
				}
				q.instr = func(i ssa.Instruction, ctx *rctx) []int {
					if i == ssa.Instruction(st) {
						return []int{1}
					}
					return nil
				}
				msg := ""
				var path []string
				for _, o := range q.outcomes(f, &rctx{f: f, sym: &symCtx{f: f}}) {
					if o.err != vNonNil && o.vec[1] > 0 && o.vec[0] != 1 {
						msg, path = "the indexer is not told exactly once about a block that is taken up", s.P.pathText(o.path)
					}
				}
				fd := Finding{Rule: "delegated-numbering", Func: fnName(f), Construct: "block taken up", Pos: s.P.Pos(st.Pos()), Msg: msg, Path: path}
				s.r.oblig(msg == "", fd)
			}
		}
	}
	s.bad("delegated-numbering", pkg, "blocks taken up", g, map[bool]string{true: "no block is taken up"}[n == 0])
}

// indexerStores: what the chain does when it is the indexer.
func (s *sources) indexerStores() {
	for _, sp := range []struct{ m, col, key, val string }{
		{"StoreTransHeightToParentBlock", "parentBlockOfTrans", "1", "2"},
		{"StoreBlockHeightToFirstTrans", "blkFirstTrans", "1", "2"},
		{"RetrieveTransHeightToParentBlock", "parentBlockOfTrans", "1", ""},
		{"RetrieveBlockHeightToFirstTrans", "blkFirstTrans", "1", ""},
		{"RetrieveTransHashToHeight", "trnHashes", "1", ""},
	} {
		f := s.method(chainPkg, "concreteAppendableChain", sp.m)
		if f == nil {
			continue
		}
		n, msg := 0, ""
		par := func(v ssa.Value, ctx *rctx, i string) bool {
			e := s.P.sym(v, ctx.sym)
			return e.Op == "param" && e.V == ssa.Value(f.Params[int(i[0]-'0')])
		}
		s.P.visit(f, true, func(g *ssa.Function) bool { return relPkg(rootFn(g)) == chainPkg }, func(in ssa.Instruction, ctx *rctx) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			recv, m := recvOf(c)
			switch m {
			case "WriteWordAt", "ReadWordAt", "IndexOfHash":
			default:
				return
			}
			n++
			k := s.P.sym(recv, ctx.sym).String()
			if !strings.HasSuffix(k, "."+sp.col) {
				msg = "uses another column than " + sp.col
				return
			}
			switch {
			case m == "WriteWordAt" && (sp.val == "" || !par(argAt(c, 0), ctx, sp.val) || !par(argAt(c, 1), ctx, sp.key)):
				msg = "does not store its second argument at its first"
			case m != "WriteWordAt" && (sp.val != "" || !par(argAt(c, 0), ctx, sp.key)):
				msg = "does not look up its argument"
			}
		})
		if n != 1 && msg == "" {
			msg = "does not use " + sp.col + " exactly once"
		}
		s.bad("delegated-numbering", fnName(f), sp.col, f, msg)
	}
}

// holdsBlock: the address is that of a source's pointer to the block it is on.
func (s *sources) holdsBlock(pkg string, a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	return ok && typeKey(derefType(fa.X.Type())) == pkg+".OneBlockHolder" && typeKey(derefType(derefType(a.Type()))) == pkg+".Block"
}

// addrField: the field an address is of.
func addrField(a ssa.Value) string {
	if fa, ok := a.(*ssa.FieldAddr); ok {
		return fieldKey(fa.X, fa.Field)
	}
	return ""
}

func upTo2(v []int8) {
	for i := range v {
		if v[i] > 2 {
			v[i] = 2
		}
	}
}
