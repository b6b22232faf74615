package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: every transaction, input and output writes exactly one element to each of its columns, at one index.

// A counted event of the alignment rules: a write to one of some columns.
type alignCol struct {
	name string
	cols []string // one of these is written
	each bool     // a table of columns: every one of them is written, in a loop over the table
}

var alignWrites = map[string]bool{"WriteWordAt": true, "AppendToArray": true, "AppendHash": true}

type alignRoot struct {
	latest string // field that numbers the latest transaction (c_indexer.go)
	P      *Prog
	r      *Result
	f      *ssa.Function
	a      *efAnalysis
	col    func(site ssa.CallInstruction, ctx *rctx) string // the column a call writes, or ""
	enter  func(*ssa.Function) bool
	evs    []*alignEv
}

type alignEv struct {
	col  string
	site ssa.CallInstruction
	ctx  *rctx
	l    *loop // the loop whose rounds it belongs to (nil: the call as a whole)
	lctx *rctx
	over *loop // the loop over the columns themselves
	octx *rctx
}

func (e *alignEv) loopKey() string {
	if e.l == nil {
		return "call"
	}
	return fmt.Sprintf("%p<%s", e.l.header, chainKey(e.lctx))
}

// collect finds the writes and the loops whose rounds they belong to.
func (x *alignRoot) collect() {
	x.P.callTree(&rctx{f: x.f, sym: &symCtx{f: x.f}}, true, x.enter, func(in ssa.Instruction, ctx *rctx) {
		site, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		c := x.col(site, ctx)
		if c == "" {
			return
		}
		e := &alignEv{col: c, site: site, ctx: ctx}
		b, cx := site.(ssa.Instruction).Block(), ctx
		for {
			l := innermostLoop(b, func(l *loop) bool {
				if x.P.literalTableLoop(l) {
					return true
				}
				if x.overColumns(l, cx) {
					if e.over == nil {
						e.over, e.octx = l, cx
					}
					return true
				}
				return false
			})
			if l != nil {
				e.l, e.lctx = l, cx
				break
			}
			if cx.site == nil {
				break
			}
			b, cx = cx.site.(ssa.Instruction).Block(), cx.up
		}
		x.evs = append(x.evs, e)
	})
}

// overColumns: the loop runs over a table of columns.
func (x *alignRoot) overColumns(l *loop, ctx *rctx) bool {
	in := inductionOf(l)
	if in == nil || in.coll == nil {
		return false
	}
	for _, k := range x.P.keysOf(in.coll, ctx) {
		if strings.HasSuffix(k, "NonEssentialInts") {
			return true
		}
	}
	return false
}

func (x *alignRoot) of(c alignCol) []*alignEv {
	var out []*alignEv
	for _, e := range x.evs {
		for _, n := range c.cols {
			if e.col == n {
				out = append(out, e)
			}
		}
	}
	return out
}

func (x *alignRoot) finding(rule, construct string, pos token.Pos) Finding {
	return Finding{Rule: rule, Func: fnName(x.f), Construct: construct, Pos: x.P.Pos(pos)}
}

// query counts the events of some columns.
func (x *alignRoot) query(cols []alignCol) *evQuery {
	dims := []string{}
	for _, c := range cols {
		dims = append(dims, c.name)
	}
	q := newEvQuery(x.P, x.a, dims)
	q.enter = x.enter
	q.withSym = true
	q.force = true
	q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		c := x.col(site, ctx)
		if c == "" {
			return nil, false
		}
		var ds []int
		for i, ac := range cols {
			for _, n := range ac.cols {
				if n == c {
					ds = append(ds, i)
				}
			}
		}
		return ds, true
	}
	q.norm = func(v []int8) {
		for i, c := range cols {
			lim := int8(3)
			if c.each {
				lim = 1
			}
			if i < len(v) && v[i] > lim {
				v[i] = lim
			}
		}
	}
	return q
}

// perRound: all columns of the group are written exactly once in every round of one loop, which covers everything.
// It returns the loop and its context.
func (x *alignRoot) perRound(entity string, cols []alignCol, excuse func(cond ssa.Value, taken bool, ctx *rctx) bool) (*loop, *rctx) {
	byLoop := map[string][]*alignEv{}
	var first *alignEv
	missing := false
	for _, c := range cols {
		es := x.of(c)
		x.r.oblig(len(es) > 0, func() Finding {
			f := x.finding("one-per-"+entity, c.name, x.f.Pos())
			f.Msg = "is never written"
			return f
		}())
		if len(es) == 0 {
			missing = true
		}
		for _, e := range es {
			byLoop[e.loopKey()] = append(byLoop[e.loopKey()], e)
			if first == nil {
				first = e
			}
		}
	}
	if missing || first == nil {
		return nil, nil
	}
	fd := x.finding("one-loop-per-"+entity, entity, first.site.Pos())
	if len(byLoop) != 1 {
		// the loop most columns are written in is the right one
		var ks []string
		for k := range byLoop {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			if len(byLoop[ks[i]]) != len(byLoop[ks[j]]) {
				return len(byLoop[ks[i]]) > len(byLoop[ks[j]])
			}
			return ks[i] < ks[j]
		})
		odd := byLoop[ks[len(ks)-1]][0]
		fd.Construct = odd.col
		fd.Pos = x.P.Pos(odd.site.Pos())
		fd.Msg = "is not written in the same loop as the other columns of the " + entity
		x.r.oblig(false, fd)
		return nil, nil
	}
	if first.l == nil {
		fd.Msg = "the columns of the " + entity + " are not written in a loop over them"
		x.r.oblig(false, fd)
		return nil, nil
	}
	x.r.oblig(true, fd)
	l, lctx := first.l, first.lctx
	x.wholeLoop(entity, l)
	q := x.query(cols)
	if excuse != nil {
		q.dims = append(q.dims, "excused")
		n := len(q.dims) - 1
		q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
			if excuse(cond, taken, ctx) {
				return []int{n}
			}
			return nil
		}
	}
	back, out := q.rounds(l, lctx)
	x.decided("one-per-"+entity, q)
	x.r.count("rounds examined", len(back)+len(out))
	for i, c := range cols {
		fd := x.finding("one-per-"+entity, c.name, first.site.Pos())
		if es := x.of(c); len(es) > 0 {
			fd.Pos = x.P.Pos(es[0].site.Pos())
		}
		for _, o := range back {
			if excuse != nil && o.vec[len(cols)] > 0 && o.vec[i] == 0 {
				continue
			}
			if o.vec[i] != 1 && fd.Msg == "" {
				if o.vec[i] == 0 {
					fd.Msg = "a round of the loop over the " + entity + "s goes on to the next without writing it"
				} else {
					fd.Msg = "a round of the loop over the " + entity + "s writes it more than once"
				}
				fd.Path = x.P.pathText(o.path)
			}
		}
		x.r.oblig(fd.Msg == "", fd)
		if fd.Msg == "" {
			x.r.sample(fmt.Sprintf("%s: %s written exactly once per %s", fnName(x.f), c.name, entity))
		}
	}
	fd = x.finding("no-early-end", entity, l.header.Instrs[0].Pos())
	for _, o := range out {
		if o.err != vNonNil && !(o.err == vUnknown && o.last != nil && errResultIdx(o.last.Parent().Signature) < 0 && l.f.Signature.Results().Len() == 0) {
			fd.Msg = "the loop over the " + entity + "s can be left early without an error"
			fd.Path = x.P.pathText(o.path)
		}
	}
	x.r.oblig(fd.Msg == "", fd)
	for _, c := range cols {
		if !c.each {
			continue
		}
		for _, e := range x.of(c) {
			x.tableLoop(c, e)
		}
	}
	return l, lctx
}

// tableLoop: a loop over a table of columns writes each of them exactly once.
func (x *alignRoot) tableLoop(c alignCol, e *alignEv) {
	fd := x.finding("every-optional-column", c.name, e.site.Pos())
	if e.over == nil {
		fd.Msg = "is not written in a loop over all of them"
		x.r.oblig(false, fd)
		return
	}
	in := inductionOf(e.over)
	if in == nil || !in.whole {
		fd.Msg = "the loop over the columns does not cover them all"
		x.r.oblig(false, fd)
		return
	}
	c.each = false
	q := x.query([]alignCol{c})
	back, out := q.rounds(e.over, e.octx)
	x.decided("every-optional-column", q)
	for _, o := range back {
		if o.vec[0] != 1 {
			fd.Msg = "a round of the loop over the columns does not write its column exactly once"
			fd.Path = x.P.pathText(o.path)
		}
	}
	for _, o := range out {
		if o.err != vNonNil {
			fd.Msg = "the loop over the columns can be left early without an error"
			fd.Path = x.P.pathText(o.path)
		}
	}
	x.r.oblig(fd.Msg == "", fd)
}

func (x *alignRoot) wholeLoop(entity string, l *loop) {
	fd := x.finding("covers-all", entity, l.header.Instrs[0].Pos())
	in := inductionOf(l)
	if in == nil {
		fd.Msg = "cannot tell what ends the loop over the " + entity + "s"
	} else if !in.whole {
		fd.Msg = "the loop over the " + entity + "s does not cover all of them: " + in.why
	}
	x.r.oblig(fd.Msg == "", fd)
}

func (x *alignRoot) decided(rule string, q *evQuery) {
	if q.Over {
		fd := x.finding(rule, "undecided", x.f.Pos())
		fd.Msg = "too many paths to decide"
		x.r.oblig(false, fd)
	}
	x.r.count("states", q.States)
}

// reached: on every path counted by run (rounds of an outer loop, or the whole of the root) the loops are reached,
// unless the path took a branch that excuses it.
func (x *alignRoot) reached(entity string, inner *loop, ictx *rctx, outer *loop, octx *rctx, excuse func(cond ssa.Value, taken bool, ctx *rctx) bool) {
	if inner == nil {
		return
	}
	q := x.query(nil)
	q.dims = []string{"reached", "excused"}
	term := inner.header.Instrs[len(inner.header.Instrs)-1]
	q.instr = func(in ssa.Instruction, ctx *rctx) []int {
		if in == term && ctx.id() == ictx.id() {
			return []int{0}
		}
		return nil
	}
	q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
		if excuse != nil && excuse(cond, taken, ctx) {
			return []int{1}
		}
		return nil
	}
	q.norm = at1
	var outs []evOut
	if outer != nil {
		outs, _ = q.rounds(outer, octx)
	} else {
		for _, o := range q.outcomes(x.f, &rctx{f: x.f, sym: &symCtx{f: x.f}}) {
			if o.err != vNonNil {
				outs = append(outs, o)
			}
		}
	}
	x.decided("always-reached", q)
	fd := x.finding("always-reached", entity, inner.header.Instrs[0].Pos())
	for _, o := range outs {
		if o.vec[0] == 0 && o.vec[1] == 0 {
			fd.Msg = "a path that succeeds leaves out the loop over the " + entity + "s"
			fd.Path = x.P.pathText(o.path)
		}
	}
	x.r.oblig(fd.Msg == "", fd)
}

// zeroTest: taking this branch means that v is zero (v never being negative).
func (P *Prog) zeroTest(cond ssa.Value, taken bool) ssa.Value {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	x, y, o := bo.X, bo.Y, bo.Op
	if _, isC := constInt(x); isC {
		x, y = y, x
		switch o {
		case token.LSS:
			o = token.GTR
		case token.LEQ:
			o = token.GEQ
		case token.GTR:
			o = token.LSS
		case token.GEQ:
			o = token.LEQ
		}
	}
	k, isC := constInt(y)
	if !isC {
		return nil
	}
	switch {
	case k == 0 && (o == token.EQL || o == token.LEQ) && taken,
		k == 0 && (o == token.NEQ || o == token.GTR) && !taken,
		k == 1 && o == token.LSS && taken,
		k == 1 && o == token.GEQ && !taken:
		return x
	}
	return nil
}

// zeroTestIn follows a boolean that was computed elsewhere and handed on.
func (x *alignRoot) zeroTestIn(cond ssa.Value, taken bool, ctx *rctx) (ssa.Value, *rctx) {
	for i := 0; i < 12; i++ {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, taken = u.X, !taken
			continue
		}
		if v := x.P.zeroTest(cond, taken); v != nil {
			return v, ctx
		}
		switch t := cond.(type) {
		case *ssa.Parameter:
			a, up := argOf(t, ctx)
			if a == nil {
				return nil, nil
			}
			cond, ctx = a, up
			continue
		case *ssa.FreeVar:
			a, up := boundTo(t, ctx)
			if a == nil {
				return nil, nil
			}
			cond, ctx = a, up
			continue
		case *ssa.UnOp:
			if t.Op == token.MUL {
				z := &linearizer{P: x.P, enter: x.enter, seen: map[string]bool{}}
				if e := z.load(t.X, ctx); e != nil {
					if lf, ok := e.single(); ok && lf.v != ssa.Value(t) {
						cond, ctx = lf.v, lf.ctx
						continue
					}
				}
			}
		}
		return nil, nil
	}
	return nil, nil
}

// counter: the value of a loop's counter within its body, as a linear expression.
func (x *alignRoot) counter(l *loop, ctx *rctx) *linExpr {
	in := inductionOf(l)
	if in == nil || in.phi == nil {
		return nil
	}
	e := x.P.lin(in.phi, ctx, x.enter)
	// start -1 and stepped before the test: the element's number is one more
	if in.start == -1 {
		e = e.plus(linConst(1), 1)
	}
	return e
}

func argAt(site ssa.CallInstruction, n int) ssa.Value {
	c := site.Common()
	if !c.IsInvoke() {
		n++
	}
	if n < len(c.Args) {
		return c.Args[n]
	}
	return nil
}

// sameIndex: all writes of the group go to the same index; it returns that index and one of the writes.
func (x *alignRoot) sameIndex(entity string, cols []alignCol, arg int) (*linExpr, *alignEv) {
	var one *linExpr
	var at *alignEv
	for _, c := range cols {
		for _, e := range x.of(c) {
			ix := x.P.lin(argAt(e.site, arg), e.ctx, x.enter)
			x.r.count("index expressions", 1)
			if one == nil {
				one, at = ix, e
				continue
			}
			fd := x.finding("same-index", c.name, e.site.Pos())
			if ix.String() != one.String() && !(x.isCount(ix, cols) && x.isCount(one, cols)) {
				fd.Msg = "is written at another index than " + at.col + " of the same " + entity
			}
			x.r.oblig(fd.Msg == "", fd)
		}
	}
	return one, at
}

// isCount: the expression is the number of elements of a column of the group.
func (x *alignRoot) isCount(e *linExpr, cols []alignCol) bool {
	lf, ok := e.single()
	return ok && x.countOf(lf, cols) != ""
}

func (x *alignRoot) countOf(lf leaf, cols []alignCol) string {
	v := lf.v
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return ""
	}
	rv, n := recvOf(c)
	if rv == nil || n != "CountWords" {
		return ""
	}
	for _, k := range x.P.keysOf(rv, lf.ctx) {
		for _, ac := range cols {
			for _, cn := range ac.cols {
				if x.columnKey(k) == cn && !ac.each {
					return cn
				}
			}
		}
	}
	return ""
}

func (x *alignRoot) columnKey(k string) string { return alignColumn(k) }

// nextIndex: the expression is the number of elements the group has at that moment: a count of one of its columns
// taken in the same round before that column is written, or a count taken before the loop plus the loop's counter.
func (x *alignRoot) nextIndex(rule, construct string, e *linExpr, pos token.Pos, cols []alignCol, round *loop, rctx1 *rctx, inner *loop, ictx *rctx) {
	fd := x.finding(rule, construct, pos)
	defer func() { x.r.oblig(fd.Msg == "", fd) }()
	if e == nil {
		fd.Msg = "no index"
		return
	}
	if inner != nil {
		if cnt := x.counter(inner, ictx); cnt != nil {
			if d := e.plus(cnt, -1); x.isCount(d, cols) {
				e, inner = d, nil
			} else {
				inner = nil
				if x.isCount(e, cols) {
					inner = round
				}
			}
		}
	}
	lf, ok := e.single()
	col := ""
	if ok {
		col = x.countOf(lf, cols)
	}
	if col == "" {
		fd.Msg = "is not the number of elements stored so far, nor that number before the loop plus the loop's counter"
		return
	}
	v := lf.v
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	cnt := v.(*ssa.Call)
	// counted before the column is written in this round
	q := x.query(nil)
	q.width = 3
	q.atoms = [][]int8{{1, 0, 0}, {0, 1, 0}}
	q.compose = func(a, b []int8) []int8 {
		return []int8{a[0] | b[0], a[1] | b[1], a[2] | b[2] | a[0]&b[1]}
	}
	q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		if site == ssa.CallInstruction(cnt) {
			return []int{1}, true
		}
		if c := x.col(site, ctx); c != "" {
			if c == col {
				return []int{0}, true
			}
			return nil, true
		}
		return nil, false
	}
	var outs []evOut
	if round != nil {
		back, out := q.rounds(round, rctx1)
		outs = append(back, out...)
	} else {
		outs = q.outcomes(x.f, &rctx{f: x.f, sym: &symCtx{f: x.f}})
	}
	x.decided(rule, q)
	seen := false
	for _, o := range outs {
		if o.vec[1] == 1 {
			seen = true
		}
		if o.vec[2] == 1 {
			fd.Msg = "the number of elements is read after this round has already added one"
			fd.Path = x.P.pathText(o.path)
			return
		}
	}
	if !seen {
		fd.Msg = "the number of elements is not read afresh in each round"
	}
}

// alignColumn: the column behind a field key of the appendable chain.
var alignColumnOf map[string]string

func alignColumn(k string) string { return alignColumnOf[k] }

func init() {
	checks["C15"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"one-per-transaction/input/output: every round of the loop over the entities that goes on to the next writes each of the entity's columns exactly once; the loop covers all of them and is not left early without an error",
			"same-index: all columns of an entity are written at one index, the number of elements stored so far",
			"first-columns: the first-input and first-output columns hold the number of inputs and outputs stored before the transaction's own",
		}
		r.Assume = []string{"the readers of the source chain list the transactions, inputs and outputs of a block completely (C28)", "WriteWordAt, AppendToArray and AppendHash add their element (C12, C01)"}
		initAlign(P)
		r.count("columns", len(alignColumnOf))
		r.floor("columns", 20)
		for _, n := range []string{"AppendBlock", "AppendBlockChi"} {
			P.checkAppend(r, n)
		}
		for _, n := range []string{"AppendHashesCri", "AppendHashesChi"} {
			P.checkAppendHashes(r, n)
		}
		for _, p := range []string{"intrinsicobjectschi", "intrinsicobjectscri"} {
			P.checkDelegated(r, p)
		}
		P.checkIndexer(r, "StoreTransHeightToParentBlock", "Parents/parentblockoftrans")
		P.checkIndexer(r, "StoreBlockHeightToFirstTrans", "Blocks/firsttrans")
		r.floor("import paths", 8)
		return r
	}
}

func (P *Prog) alignRootOf(r *Result, typ, name string) *alignRoot {
	n := P.Named(chainPkg, typ)
	if n == nil {
		return nil
	}
	f := P.Method(n, name)
	if f == nil || f.Blocks == nil {
		return nil
	}
	r.count("import paths", 1)
	x := &alignRoot{P: P, r: r, f: f, a: newEF(P)}
	x.enter = func(g *ssa.Function) bool { return relPkg(g) == chainPkg || relPkg(rootFn(g)) == chainPkg }
	x.col = func(site ssa.CallInstruction, ctx *rctx) string {
		v, m := recvOf(site)
		if v == nil || !alignWrites[m] {
			return ""
		}
		for _, k := range P.keysOf(v, ctx) {
			if c := alignColumn(k); c != "" {
				return c
			}
		}
		return ""
	}
	x.collect()
	r.count("column writes", len(x.evs))
	return x
}

func (x *alignRoot) isDelegated(cond ssa.Value, taken bool, ctx *rctx) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	if !taken {
		return false
	}
	l := x.P.lin(cond, ctx, x.enter)
	return strings.HasPrefix(l.String(), "field:") && strings.HasSuffix(l.String(), ".transactionIndexingIsDelegated")
}

func (P *Prog) checkAppend(r *Result, name string) {
	x := P.alignRootOf(r, "concreteAppendableChain", name)
	if x == nil {
		r.oblig(false, Finding{Rule: "import-path", Func: name, Construct: name, Msg: "no such method of the appendable chain"})
		return
	}
	col := func(n string) alignCol { return alignCol{name: n, cols: []string{n}} }
	txiCols := []alignCol{col("TransactionInputs/tx"), col("TransactionInputs/vout"), col("Parents/parenttransoftxi")}
	txoCols := []alignCol{col("TransactionOutputs/value"), col("Parents/parenttransoftxo"), col("TransactionOutputs/address"), col("TransactionOutputs/spenttotxi")}
	owners := alignCol{name: "Addresses/firsttxo or additionaltxos", cols: []string{"Addresses/firsttxo", "Addresses/additionaltxos"}}
	trnCols := []alignCol{col("Transactions/firsttxi"), col("Transactions/firsttxo"), {name: "Transactions/*", cols: []string{"Transactions/*"}, each: true}}
	frame := []alignCol{col("Parents/parentblockoftrans")}

	delegated := func(cond ssa.Value, taken bool, ctx *rctx) bool { return x.isDelegated(cond, taken, ctx) }
	lt, ct := x.perRound("transaction", trnCols, nil)
	lf, cf := x.perRound("transaction frame", frame, delegated)
	li, ci := x.perRound("input", txiCols, nil)
	lo, co := x.perRound("output", append(append([]alignCol{}, txoCols...), owners), nil)

	// the loops are reached
	x.reached("transaction", lt, ct, nil, nil, nil)
	x.reached("transaction frame", lf, cf, nil, nil, nil)
	if lt != nil {
		tn := x.counter(lt, ct)
		empty := func(inner *loop, ictx *rctx) func(cond ssa.Value, taken bool, ctx *rctx) bool {
			return func(cond ssa.Value, taken bool, ctx *rctx) bool {
				v, vc := x.zeroTestIn(cond, taken, ctx)
				if v == nil {
					return false
				}
				if in := inductionOf(inner); in != nil && in.bound != nil {
					return x.P.lin(v, vc, x.enter).String() == x.P.lin(in.bound, ictx, x.enter).String()
				}
				return false
			}
		}
		if li != nil {
			none := empty(li, ci)
			x.reached("input", li, ci, lt, ct, func(cond ssa.Value, taken bool, ctx *rctx) bool {
				if none(cond, taken, ctx) {
					return true
				}
				// the first transaction of a block is the coinbase, which has no inputs here
				v, vc := x.zeroTestIn(cond, taken, ctx)
				return v != nil && tn != nil && x.P.lin(v, vc, x.enter).String() == tn.String()
			})
		}
		if lo != nil {
			x.reached("output", lo, co, lt, ct, empty(lo, co))
		}
	}

	// indexes
	if li != nil {
		ix, at := x.sameIndex("input", txiCols, 1)
		x.nextIndex("new-index", "input", ix, at.site.Pos(), txiCols, li, ci, li, ci)
	}
	if lo != nil {
		ix, at := x.sameIndex("output", txoCols, 1)
		x.nextIndex("new-index", "output", ix, at.site.Pos(), txoCols, lo, co, lo, co)
	}
	if lt != nil {
		ix, at := x.sameIndex("transaction", trnCols, 1)
		fd := x.finding("new-index", "transaction", at.site.Pos())
		n := x.counter(lt, ct)
		if ix == nil || n == nil {
			fd.Msg = "cannot tell the index"
		} else {
			for k, c := range n.coef {
				if ix.coef[k] != c {
					fd.Msg = "the index does not advance by one with each transaction"
				}
			}
		}
		r.oblig(fd.Msg == "", fd)
		for i, g := range [][]alignCol{txiCols, txoCols} {
			for _, e := range x.of(trnCols[i]) {
				v := x.P.lin(argAt(e.site, 0), e.ctx, x.enter)
				x.nextIndex("first-columns", trnCols[i].name, v, e.site.Pos(), g, lt, ct, nil, nil)
			}
		}
	}

	// the block's own columns
	nei := alignCol{name: "Blocks/*", cols: []string{"Blocks/*"}, each: true}
	first := col("Blocks/firsttrans")
	q := x.query([]alignCol{nei})
	fd := x.finding("one-per-block", nei.name, x.f.Pos())
	if len(x.of(nei)) == 0 {
		fd.Msg = "is never written"
	}
	for _, o := range q.outcomes(x.f, &rctx{f: x.f, sym: &symCtx{f: x.f}}) {
		if o.err != vNonNil && o.vec[0] == 0 && fd.Msg == "" {
			fd.Msg = "a path that succeeds does not write it"
			fd.Path = P.pathText(o.path)
		}
	}
	x.decided("one-per-block", q)
	r.oblig(fd.Msg == "", fd)
	seen := map[string]bool{}
	for _, e := range x.of(nei) {
		x.tableLoop(nei, e)
		k := fmt.Sprintf("%p%s", e.over, chainKey(e.octx))
		if e.l != nil || len(seen) > 0 && !seen[k] {
			fd := x.finding("one-per-block", nei.name, e.site.Pos())
			fd.Msg = "is written more than once per block"
			r.oblig(false, fd)
		}
		seen[k] = true
	}
	x.firstTrans(first, lf, cf)
	blk, _ := x.sameIndex("block", []alignCol{nei, first}, 1)
	for _, e := range x.of(frame[0]) {
		v := x.P.lin(argAt(e.site, 0), e.ctx, x.enter)
		fd := x.finding("parent-block", frame[0].name, e.site.Pos())
		if blk == nil || v.String() != blk.String() {
			fd.Msg = "is not the number of the block being stored"
		}
		r.oblig(fd.Msg == "", fd)
		// at the transaction's own number: what its hash is indexed as
		fd = x.finding("frame-index", frame[0].name, e.site.Pos())
		ix := x.P.lin(argAt(e.site, 1), e.ctx, x.enter)
		lf, ok := ix.single()
		if !ok || x.lookupOf(lf) != "Transactions/Hashes" {
			fd.Msg = "is not written at the number the transaction's hash has in the index"
		}
		r.oblig(fd.Msg == "", fd)
	}
}

// lookupOf: the index a hash was looked up in to get this number.
func (x *alignRoot) lookupOf(lf leaf) string {
	v := lf.v
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return ""
	}
	rv, n := recvOf(c)
	if rv == nil || n != "IndexOfHash" {
		return ""
	}
	for _, k := range x.P.keysOf(rv, lf.ctx) {
		if c := x.columnKey(k); c != "" {
			return c
		}
	}
	return ""
}

// checkIndexer: the appendable chain, acting as indexer for whoever numbers the transactions, stores the number it is
// given where it is told.
func (P *Prog) checkIndexer(r *Result, method, column string) {
	x := P.alignRootOf(r, "concreteAppendableChain", method)
	if x == nil {
		r.oblig(false, Finding{Rule: "import-path", Func: method, Construct: method, Msg: "no such method of the appendable chain"})
		return
	}
	c := alignCol{name: column, cols: []string{column}}
	x.oncePerCall("delegated-store", c, nil)
	for _, e := range x.of(c) {
		fd := x.finding("delegated-store", column, e.site.Pos())
		v := P.lin(argAt(e.site, 0), e.ctx, x.enter)
		i := P.lin(argAt(e.site, 1), e.ctx, x.enter)
		ps := x.f.Params
		if len(ps) < 3 || i.String() != P.lin(ps[1], &rctx{f: x.f}, nil).String() || v.String() != P.lin(ps[2], &rctx{f: x.f}, nil).String() {
			fd.Msg = "does not store the given number at the given place"
		}
		r.oblig(fd.Msg == "", fd)
	}
}

// firstTrans: the block's first-transaction column is written once per block: on its first transaction, or outside
// the loop; unless somebody else does it.
func (x *alignRoot) firstTrans(c alignCol, lf *loop, cf *rctx) {
	es := x.of(c)
	fd := x.finding("one-per-block", c.name, x.f.Pos())
	if len(es) == 0 {
		fd.Msg = "is never written"
		x.r.oblig(false, fd)
		return
	}
	fd.Pos = x.P.Pos(es[0].site.Pos())
	defer func() { x.r.oblig(fd.Msg == "", fd) }()
	q := x.query([]alignCol{c})
	q.dims = []string{c.name, "delegated", "first", "later", "own"}
	q.norm = func(v []int8) {
		if len(v) < 5 {
			return
		}
		for i := range v {
			lim := int8(1)
			if i == 0 {
				lim = 3
			}
			if v[i] > lim {
				v[i] = lim
			}
		}
	}
	if es[0].l == nil {
		q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
			if x.isDelegated(cond, taken, ctx) {
				return []int{1}
			}
			if x.isDelegated(cond, !taken, ctx) {
				return []int{4}
			}
			return nil
		}
		for _, o := range q.outcomes(x.f, &rctx{f: x.f, sym: &symCtx{f: x.f}}) {
			if o.err != vNonNil && (o.vec[1] == 0 || o.vec[4] == 1) && o.vec[0] != 1 {
				fd.Msg = "a path that succeeds does not write it exactly once"
				fd.Path = x.P.pathText(o.path)
			}
		}
		x.decided("one-per-block", q)
		return
	}
	l, lctx := es[0].l, es[0].lctx
	n := x.counter(l, lctx)
	if n == nil {
		fd.Msg = "is written in a loop without a counter"
		return
	}
	for _, e := range es {
		if e.loopKey() != es[0].loopKey() {
			fd.Msg = "is written in more than one loop"
			return
		}
	}
	x.wholeLoop("transaction", l)
	q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
		if x.isDelegated(cond, taken, ctx) {
			return []int{1}
		}
		if x.isDelegated(cond, !taken, ctx) {
			return []int{4}
		}
		if v, vc := x.zeroTestIn(cond, taken, ctx); v != nil && x.P.lin(v, vc, x.enter).String() == n.String() {
			return []int{2}
		}
		if v, vc := x.zeroTestIn(cond, !taken, ctx); v != nil && x.P.lin(v, vc, x.enter).String() == n.String() {
			return []int{3}
		}
		return nil
	}
	back, _ := q.rounds(l, lctx)
	x.decided("one-per-block", q)
	ok := false
	for _, o := range back {
		if o.vec[2] == 1 && o.vec[3] == 1 || o.vec[1] == 1 && o.vec[4] == 1 {
			continue // impossible
		}
		want := int8(0)
		if o.vec[2] == 1 && o.vec[1] == 0 {
			want = 1
			ok = true
		}
		if o.vec[2] == 0 && o.vec[3] == 0 && o.vec[1] == 0 {
			fd.Msg = "a round neither is nor is not the first one"
			fd.Path = x.P.pathText(o.path)
		}
		if o.vec[0] != want {
			fd.Msg = fmt.Sprintf("is written %d times instead of %d in a round", o.vec[0], want)
			fd.Path = x.P.pathText(o.path)
		}
	}
	if !ok && fd.Msg == "" {
		fd.Msg = "is not written on the first transaction"
	}
}

func (P *Prog) checkAppendHashes(r *Result, name string) {
	x := P.alignRootOf(r, "concreteHashesChain", name)
	if x == nil {
		r.oblig(false, Finding{Rule: "import-path", Func: name, Construct: name, Msg: "no such method of the hashes chain"})
		return
	}
	col := func(n string) alignCol { return alignCol{name: n, cols: []string{n}} }
	lt, ct := x.perRound("transaction", []alignCol{col("trnHashList")}, nil)
	lo, co := x.perRound("output", []alignCol{col("adrHashList")}, nil)
	x.reached("transaction", lt, ct, nil, nil, nil)
	if lt != nil && lo != nil {
		x.reached("output", lo, co, lt, ct, func(cond ssa.Value, taken bool, ctx *rctx) bool {
			v, vc := x.zeroTestIn(cond, taken, ctx)
			in := inductionOf(lo)
			return v != nil && in != nil && in.bound != nil && P.lin(v, vc, x.enter).String() == P.lin(in.bound, co, x.enter).String()
		})
	}
	x.oncePerCall("one-per-block", col("blkHashList"), nil)
}

// oncePerCall: every successful path writes the column exactly once.
func (x *alignRoot) oncePerCall(rule string, c alignCol, excuse func(cond ssa.Value, taken bool, ctx *rctx) bool) {
	fd := x.finding(rule, c.name, x.f.Pos())
	defer func() { x.r.oblig(fd.Msg == "", fd) }()
	es := x.of(c)
	if len(es) == 0 {
		fd.Msg = "is never written"
		return
	}
	for _, e := range es {
		fd.Pos = x.P.Pos(e.site.Pos())
		if e.l != nil {
			fd.Msg = "is written in a loop, more than once"
			return
		}
	}
	q := x.query([]alignCol{c})
	q.dims = []string{c.name, "excused"}
	if excuse != nil {
		q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
			if excuse(cond, taken, ctx) {
				return []int{1}
			}
			return nil
		}
	}
	for _, o := range q.outcomes(x.f, &rctx{f: x.f, sym: &symCtx{f: x.f}}) {
		if o.err != vNonNil && o.vec[1] == 0 && o.vec[0] != 1 {
			fd.Msg = fmt.Sprintf("a path that succeeds writes it %d times", o.vec[0])
			fd.Path = x.P.pathText(o.path)
		}
	}
	x.decided(rule, q)
}

// checkDelegated: the holders that number transactions on arrival number every one of them once, consecutively.
func (P *Prog) checkDelegated(r *Result, pkg string) {
	f := P.Method(P.Named(pkg, "OneBlockHolder"), "PostIntrinsicGatherTransHashes")
	if f == nil {
		r.oblig(false, Finding{Rule: "import-path", Func: pkg, Construct: "PostIntrinsicGatherTransHashes", Msg: "no such method"})
		return
	}
	r.count("import paths", 1)
	x := &alignRoot{P: P, r: r, f: f, a: newEF(P)}
	x.enter = func(g *ssa.Function) bool { return relPkg(rootFn(g)) == pkg }
	x.col = func(site ssa.CallInstruction, ctx *rctx) string {
		_, m := recvOf(site)
		switch m {
		case "StoreTransHashToHeight", "StoreTransHeightToParentBlock", "StoreBlockHeightToFirstTrans":
			return m
		}
		return ""
	}
	x.collect()
	col := func(n string) alignCol { return alignCol{name: n, cols: []string{n}} }
	tr := []alignCol{col("StoreTransHeightToParentBlock"), col("StoreTransHashToHeight")}
	l, ctx := x.perRound("transaction", tr, nil)
	noIndexer := func(cond ssa.Value, taken bool, ctx *rctx) bool {
		bo, ok := cond.(*ssa.BinOp)
		if !ok || !strings.Contains(typeKey(bo.X.Type()), "ITransactionIndexer") {
			return false
		}
		return (bo.Op == token.EQL) == taken
	}
	x.oncePerCall("one-per-block", col("StoreBlockHeightToFirstTrans"), noIndexer)
	if l == nil {
		return
	}
	x.reached("transaction", l, ctx, nil, nil, noIndexer)
	// heights: both take the same one, it starts at the block's first and goes up by one
	var h *linExpr
	for i, c := range tr {
		for _, e := range x.of(c) {
			v := P.lin(argAt(e.site, i), e.ctx, x.enter)
			fd := x.finding("same-index", c.name, e.site.Pos())
			if h != nil && h.String() != v.String() {
				fd.Msg = "is stored for another transaction number"
			}
			h = v
			r.oblig(fd.Msg == "", fd)
		}
	}
	for _, e := range x.of(col("StoreBlockHeightToFirstTrans")) {
		first := P.lin(argAt(e.site, 1), e.ctx, x.enter)
		fd := x.finding("new-index", "first transaction of the block", e.site.Pos())
		start, step, ok := x.overRounds(h, l, ctx)
		if !ok || step != 1 {
			fd.Msg = "the transaction number does not go up by one with each transaction"
		} else if start.String() != first.String() {
			fd.Msg = "is not the number given to the first transaction"
		}
		r.oblig(fd.Msg == "", fd)
		if !ok {
			continue
		}
		// the last number is kept for the next block
		fd = x.finding("new-index", "number of the last transaction", f.Pos())
		fd.Msg = "is not kept for the next block"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isSt := in.(*ssa.Store)
				if !isSt {
					continue
				}
				fa, isF := st.Addr.(*ssa.FieldAddr)
				if !isF {
					continue
				}
				base := "field:" + fieldKey(fa.X, fa.Field)
				if first.coef[base] != 1 {
					continue
				}
				fd.Pos = P.Pos(st.Pos())
				fd.Msg = ""
				if l.body[b] {
					// kept in every round: the number just given
					if P.lin(st.Val, ctx, x.enter).String() != h.String() {
						fd.Msg = "another number is kept for the next block"
					}
					continue
				}
				v := P.lin(st.Val, ctx, x.enter)
				s, k, ok := x.overRounds(v, l, ctx)
				// at the end of the loop: the start of the round that did not happen; the number given was one less
				if !ok || k != 1 || s.plus(first, -1).String() != linConst(-1).String() {
					fd.Msg = "another number is kept for the next block"
				}
			}
		}
		r.oblig(fd.Msg == "", fd)
	}
}

// overRounds: the value of an expression in the first round of a loop, and how much it grows with each round.
func (x *alignRoot) overRounds(e *linExpr, l *loop, ctx *rctx) (*linExpr, int64, bool) {
	if e == nil {
		return nil, 0, false
	}
	start, step := e, int64(0)
	for k, n := range e.coef {
		phi, ok := e.leafs[k].v.(*ssa.Phi)
		if !ok || phi.Block() != l.header {
			continue
		}
		var s *linExpr
		for i, ed := range phi.Edges {
			v := x.P.lin(ed, ctx, x.enter)
			if l.body[phi.Block().Preds[i]] {
				d := v.plus(linLeaf(k, phi, ctx), -1)
				if len(d.coef) != 0 {
					return nil, 0, false
				}
				step += n * d.c
			} else {
				s = v
			}
		}
		if s == nil {
			return nil, 0, false
		}
		start = start.plus(linLeaf(k, phi, ctx), -n).plus(s, n)
	}
	return start, step, true
}

func initAlign(P *Prog) {
	m := P.colModelOf(newResult())
	P.resolveFolders(m)
	alignColumnOf = map[string]string{}
	for fld := range m.views["concreteAppendableChain"] {
		alignColumnOf[chainPkg+".concreteAppendableChain."+fld] = m.columnOf("concreteAppendableChain", fld)
	}
	alignColumnOf[chainPkg+".concreteAppendableChain.blkNonEssentialInts[]"] = "Blocks/*"
	alignColumnOf[chainPkg+".concreteAppendableChain.trnNonEssentialInts[]"] = "Transactions/*"
	for _, h := range []string{"blkHashList", "trnHashList", "adrHashList"} {
		alignColumnOf[chainPkg+".concreteHashesChain."+h] = h
	}
}
