package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: the two import paths give every column the same meaning.

// roleOf names what a value is, in terms of the block being imported: the same name for both kinds of source.
func roleOf(e *Expr) string {
	if e == nil {
		return "?"
	}
	switch e.Op {
	case "const":
		return e.Name
	case "field":
		switch strings.TrimPrefix(e.Name, "chainhandleinterface.") {
		case "BlockReceiver.BlockHash":
			return "hash of block"
		case "BlockReceiver.BlockHeight":
			return "height of block"
		case "BlockReceiver.FieldMap":
			return "numbers of block"
		case "BitcoinCoreTransactionReceiver.TransactionHash":
			return "hash of transaction"
		case "BitcoinCoreTransactionReceiver.FieldMap":
			return "numbers of transaction"
		case "TxiReceiver.IncomingTxid":
			return "hash of source transaction"
		case "TxiReceiver.IncomingVout":
			return "index of source output"
		case "TxoReceiver.SatoshisValue":
			return "value of output"
		case "TxoReceiver.ScriptPubBytes":
			return "script of output"
		}
		return e.Name
	case "conv":
		return roleOf(e.Args[0])
	case "phi":
		if e.isCounter(0) {
			return "round"
		}
		m := map[string]bool{}
		for _, a := range e.Args {
			m[roleOf(a)] = true
		}
		return strings.Join(sortedKeys(m), " or ")
	case "bin":
		if e.isCounter(-1) {
			return "round"
		}
		if e.Name == "+" {
			a := []string{roleOf(e.Args[0]), roleOf(e.Args[1])}
			sort.Strings(a)
			return strings.Join(a, " plus ")
		}
	case "param":
		if e.V != nil {
			switch n := typeKey(e.V.Type()); {
			case strings.HasSuffix(n, ".IBlockHandle"), strings.HasSuffix(n, ".IBlock"):
				return "block"
			case strings.HasSuffix(n, ".ITransHandle"), strings.HasSuffix(n, ".ITransaction"):
				return "transaction"
			}
		}
	case "index":
		if len(e.Args) == 2 {
			m := roleOf(e.Args[0])
			if k := e.Args[1]; strings.HasPrefix(m, "numbers of ") && k.Op == "call" && k.Name == "key" && k.Args[0].Op == "field" {
				return "named by " + k.Args[0].Name + " in " + m
			}
		}
	case "call":
		switch e.Name {
		case "BlockInterface", "TransInterface", "TxiInterface", "TxoInterface", "AddressInterface":
			if len(e.Args) == 2 {
				return roleOf(e.Args[1])
			}
		case "NthTransaction":
			return "transaction"
		case "NthTxi":
			return "input"
		case "NthTxo":
			return "output"
		case "SourceTxo":
			if roleOf(e.Args[0]) == "input" {
				return "source output"
			}
		case "ParentTrans":
			if roleOf(e.Args[0]) == "source output" {
				return "source transaction"
			}
		case "ParentIndex":
			if roleOf(e.Args[0]) == "source output" {
				return "index of source output"
			}
		case "Satoshis":
			return "value of " + roleOf(e.Args[0])
		case "Address":
			if roleOf(e.Args[0]) == "output" {
				return "script of output"
			}
		case "Hash":
			return "hash of " + roleOf(e.Args[0])
		case "Height":
			return "height of " + roleOf(e.Args[0])
		case "IndicesPath":
			return "block height of " + roleOf(e.Args[0])
		case "IndicesPath#1":
			return "place in block of " + roleOf(e.Args[0])
		case "NonEssentialInts":
			return "numbers of " + roleOf(e.Args[0])
		case "indexedhashes.HashOfBytes":
			return "hash of " + roleOf(e.Args[0])
		case "IndexOfHash":
			if len(e.Args) == 2 && e.Args[0].Op == "field" {
				return "number in " + alignColumn(e.Args[0].Name) + " of " + roleOf(e.Args[1])
			}
		case "ReadWordAt":
			if len(e.Args) == 2 && e.Args[0].Op == "field" {
				return "read from " + alignColumn(e.Args[0].Name) + " at " + roleOf(e.Args[1])
			}
		case "CountWords":
			if len(e.Args) == 1 && e.Args[0].Op == "field" {
				return "count of " + alignColumn(e.Args[0].Name)
			}
		}
	}
	return "[" + e.String() + "]"
}

// isCounter: a loop's counter, whose value in the first round is 0: {0|(1+rec)}, or (1+{-1|rec}).
func (e *Expr) isCounter(first int64) bool {
	isNext := func(a *Expr) bool {
		if a.Name == "rec" {
			return first == -1
		}
		if a.Op != "bin" || a.Name != "+" || len(a.Args) != 2 {
			return false
		}
		for i := range a.Args {
			if k, ok := a.Args[i].Int(); ok && k == 1 && a.Args[1-i].Name == "rec" {
				return true
			}
		}
		return false
	}
	if e.Op == "bin" && first == -1 && len(e.Args) == 2 && e.Name == "+" {
		for i := range e.Args {
			if k, ok := e.Args[i].Int(); ok && k == 1 && e.Args[1-i].Op == "phi" {
				return e.Args[1-i].isCounter(-1)
			}
		}
		return false
	}
	if e.Op != "phi" || len(e.Args) != 2 {
		return false
	}
	for i := range e.Args {
		if k, ok := e.Args[i].Int(); ok && k == first && isNext(e.Args[1-i]) {
			return true
		}
	}
	return false
}

const addrNumber = "number in Addresses/Hashes of hash of script of output"
const trnNumber = "number in Transactions/Hashes of hash of transaction"
const blkNumber = "number in Blocks/Hashes of hash of block"

// what the value written to a column may be; the first is required, the others are other ways to the same number
// that only a source that knows it offers
var pathValue = map[string][]string{
	"Blocks/*":       {"named by chainstorage.concreteAppendableChain.blkNonEssentialInts in numbers of block"},
	"Transactions/*": {"named by chainstorage.concreteAppendableChain.trnNonEssentialInts in numbers of transaction"},
	"Blocks/firsttrans": {trnNumber, "height of transaction",
		"place in block of transaction plus read from Blocks/firsttrans at " + blkNumber, "read from Blocks/firsttrans at " + blkNumber + " plus round"},
	"Parents/parentblockoftrans":    {blkNumber},
	"TransactionInputs/tx":          {"number in Transactions/Hashes of hash of source transaction", "height of source transaction", "place in block of source transaction plus read from Blocks/firsttrans at block height of source transaction"},
	"TransactionInputs/vout":        {"index of source output"},
	"TransactionOutputs/value":      {"value of output"},
	"TransactionOutputs/address":    {addrNumber},
	"TransactionOutputs/spenttotxi": {"0"},
	"blkHashList":                   {"hash of block"},
	"trnHashList":                   {"hash of transaction"},
	"adrHashList":                   {"hash of script of output"},
}

var pathKey = map[string]string{
	"Blocks/*":                   blkNumber,
	"Blocks/firsttrans":          blkNumber,
	"Parents/parentblockoftrans": trnNumber,
	"Addresses/firsttxo":         addrNumber,
}

func init() {
	checks["C16"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"role: on both import paths each column is written with the same kind of value at the same kind of index, from the same facts of the block",
			"own-index: parent columns, owner columns and the address columns hold the transaction's or output's own number",
			"first-or-later: an output goes to its address's first-output column exactly when the address's number has not been reached by that column, and to the additional outputs otherwise",
			"current-entity: in each round the source is asked for the entity the round is about, before anything of it is stored",
			"no-coinbase-inputs: the inputs of a block's first transaction are left out",
			"source: each accessor of a source and each callback to a receiver delivers the field of the parsed block it is named after",
		}
		r.Assume = []string{"the source chain given to the handle-based path is one of this module"}
		initAlign(P)
		for _, n := range [][2]string{{"concreteAppendableChain", "AppendBlock"}, {"concreteAppendableChain", "AppendBlockChi"},
			{"concreteHashesChain", "AppendHashesCri"}, {"concreteHashesChain", "AppendHashesChi"}} {
			x := P.alignRootOf(r, n[0], n[1])
			if x == nil {
				r.oblig(false, Finding{Rule: "import-path", Func: n[1], Construct: n[1], Msg: "no such method"})
				continue
			}
			x.checkRoles()
			x.checkEntities()
			if n[0] == "concreteAppendableChain" {
				x.checkOwn()
				x.checkFirstOrLater()
			}
		}
		P.checkSources(r)
		r.floor("import paths", 4)
		return r
	}
}

func (x *alignRoot) checkRoles() {
	for _, e := range x.evs {
		v := roleOf(x.P.symAlts(argAt(e.site, 0), e.ctx.sym))
		x.r.count("values traced", 1)
		if want, ok := pathValue[e.col]; ok {
			fd := x.finding("role", e.col, e.site.Pos())
			fd.Path = []string{"value: " + v}
			got := strings.Split(v, " or ")
			first := false
			for _, g := range got {
				in := false
				for i, w := range want {
					if g == w {
						in = true
						first = first || i == 0
					}
				}
				if !in {
					fd.Msg = "is given something else than the " + want[0]
				}
			}
			if !first && fd.Msg == "" {
				fd.Msg = "is never given the " + want[0]
			}
			x.r.oblig(fd.Msg == "", fd)
			if fd.Msg == "" {
				x.r.sample(fmt.Sprintf("%s: %s is the %s", fnName(x.f), e.col, v))
			}
		}
		if want, ok := pathKey[e.col]; ok {
			fd := x.finding("role", e.col+" index", e.site.Pos())
			k := roleOf(x.P.sym(argAt(e.site, 1), e.ctx.sym))
			fd.Path = []string{"index: " + k}
			if k != want {
				fd.Msg = "is written at something else than the " + want
			}
			x.r.oblig(fd.Msg == "", fd)
		}
		if e.col == "Addresses/additionaltxos" {
			fd := x.finding("role", e.col+" index", e.site.Pos())
			if v != addrNumber {
				fd.Msg = "is added to another list than that of the " + addrNumber
			}
			x.r.oblig(fd.Msg == "", fd)
		}
	}
}

// checkOwn: values and indexes that are the number of the entity itself.
func (x *alignRoot) checkOwn() {
	one := func(col string, arg int) (*linExpr, *alignEv) {
		for _, e := range x.evs {
			if e.col == col {
				return x.P.lin(argAt(e.site, arg), e.ctx, x.enter), e
			}
		}
		return nil, nil
	}
	eq := func(col string, arg int, want *linExpr, what string) {
		for _, e := range x.evs {
			if e.col != col {
				continue
			}
			fd := x.finding("own-index", col, e.site.Pos())
			v := x.P.lin(argAt(e.site, arg), e.ctx, x.enter)
			if want == nil || v.String() != want.String() {
				fd.Msg = "does not hold " + what
			}
			x.r.oblig(fd.Msg == "", fd)
		}
	}
	trn, _ := one("Transactions/firsttxo", 1)
	txo, _ := one("TransactionOutputs/value", 1)
	eq("Parents/parenttransoftxi", 0, trn, "the number of the transaction being stored")
	eq("Parents/parenttransoftxo", 0, trn, "the number of the transaction being stored")
	eq("Addresses/firsttxo", 0, txo, "the number of the output being stored")
	eq("Addresses/additionaltxos", 1, txo, "the number of the output being stored")
	// the transaction's number starts at the block's first, which is what the block's column says
	first, fe := one("Blocks/firsttrans", 0)
	fd := x.finding("own-index", "first transaction of the block", x.f.Pos())
	if trn == nil || first == nil {
		fd.Msg = "cannot tell the number of the block's first transaction"
	} else {
		fd.Pos = x.P.Pos(fe.site.Pos())
		fd.Msg = "transactions are not numbered from the one stored as the block's first"
		for k, lf := range trn.leafs {
			if trn.coef[k] != 1 {
				continue
			}
			if k == first.String() || x.assignedFrom(lf, first, map[ssa.Value]bool{}) {
				fd.Msg = ""
			}
		}
	}
	x.r.oblig(fd.Msg == "", fd)
}

// assignedFrom: a variable that is only ever assigned this value (or a constant before the first assignment).
func (x *alignRoot) assignedFrom(lf leaf, want *linExpr, seen map[ssa.Value]bool) bool {
	phi, ok := lf.v.(*ssa.Phi)
	if !ok {
		return x.P.lin(lf.v, lf.ctx, x.enter).String() == want.String()
	}
	if seen[phi] {
		return true
	}
	seen[phi] = true
	some := false
	for i, e := range phi.Edges {
		if k, isC := constInt(e); isC {
			if k != -1 {
				return false
			}
			continue
		}
		if e == ssa.Value(phi) {
			continue
		}
		if _, again := e.(*ssa.Phi); !again && !x.onlyFirstRound(phi, i, lf.ctx) {
			return false
		}
		if !x.assignedFrom(leaf{e, lf.ctx}, want, seen) {
			return false
		}
		some = true
	}
	return some
}

// onlyFirstRound: the variable is given this value in the first round of the loop only, or not in a loop.
func (x *alignRoot) onlyFirstRound(phi *ssa.Phi, edge int, ctx *rctx) bool {
	from := phi.Block().Preds[edge]
	l := innermostLoop(from, nil)
	if l == nil {
		return true
	}
	n := x.counter(l, ctx)
	to := phi.Block()
	for b := from; b != nil && l.body[b]; b = b.Idom() {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if ok {
			for i, s := range b.Succs {
				if s != to && !(len(s.Preds) == 1 && s.Dominates(to)) || s == to && len(s.Preds) > 1 && b != from {
					continue
				}
				if v, vc := x.zeroTestIn(iff.Cond, i == 0, ctx); v != nil && n != nil && x.P.lin(v, vc, x.enter).String() == n.String() {
					return true
				}
				// not assigned before
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && i == 0 || bo.Op == token.NEQ && i == 1) {
					p, isPhi := bo.X.(*ssa.Phi)
					if k, isC := constInt(bo.Y); isC && k == -1 && isPhi && p.Block() == l.header {
						return true
					}
				}
			}
		}
		to = b
	}
	return false
}

// boolIn follows a boolean through parameters, captured variables and helper functions to the comparison it is.
func (x *alignRoot) boolIn(cond ssa.Value, taken bool, ctx *rctx) (*ssa.BinOp, bool, *rctx) {
	for i := 0; i < 12; i++ {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, taken = u.X, !taken
			continue
		}
		if bo, ok := cond.(*ssa.BinOp); ok {
			return bo, taken, ctx
		}
		lf, ok := x.P.lin(cond, ctx, x.enter).single()
		if !ok || lf.v == cond {
			return nil, false, nil
		}
		cond, ctx = lf.v, lf.ctx
	}
	return nil, false, nil
}

// atLeast: what the branch establishes, as an expression that is at least zero (eq: is zero).
func (x *alignRoot) atLeast(cond ssa.Value, taken bool, ctx *rctx) (e *linExpr, eq, ne bool) {
	bo, taken, ctx := x.boolIn(cond, taken, ctx)
	if bo == nil || !isIntType(bo.X.Type()) {
		return nil, false, false
	}
	a, b, o := x.P.lin(bo.X, ctx, x.enter), x.P.lin(bo.Y, ctx, x.enter), bo.Op
	if !taken {
		switch o {
		case token.LSS:
			o = token.GEQ
		case token.LEQ:
			o = token.GTR
		case token.GTR:
			o = token.LEQ
		case token.GEQ:
			o = token.LSS
		case token.EQL:
			o = token.NEQ
		case token.NEQ:
			o = token.EQL
		}
	}
	switch o {
	case token.LSS:
		return b.plus(a, -1).plus(linConst(-1), 1), false, false
	case token.LEQ:
		return b.plus(a, -1), false, false
	case token.GTR:
		return a.plus(b, -1).plus(linConst(-1), 1), false, false
	case token.GEQ:
		return a.plus(b, -1), false, false
	case token.EQL:
		return a.plus(b, -1), true, false
	case token.NEQ:
		return a.plus(b, -1), false, true
	}
	return nil, false, false
}

func (x *alignRoot) checkFirstOrLater() {
	first := alignCol{name: "Addresses/firsttxo", cols: []string{"Addresses/firsttxo"}}
	later := alignCol{name: "Addresses/additionaltxos", cols: []string{"Addresses/additionaltxos"}}
	fe, le := x.of(first), x.of(later)
	fd := x.finding("first-or-later", first.name, x.f.Pos())
	defer func() { x.r.oblig(fd.Msg == "", fd) }()
	if len(fe) == 0 || len(le) == 0 || fe[0].l == nil {
		fd.Msg = "an output is not stored with its address in a loop over the outputs"
		return
	}
	fd.Pos = x.P.Pos(fe[0].site.Pos())
	addr := x.P.lin(argAt(fe[0].site, 1), fe[0].ctx, x.enter)
	// counts of the first-output column
	q := x.query([]alignCol{first, later})
	q.dims = []string{first.name, later.name, "new", "seen"}
	q.norm = at1
	q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
		e, eq, ne := x.atLeast(cond, taken, ctx)
		if e == nil {
			return nil
		}
		for sign := int64(1); sign >= -1; sign -= 2 {
			// e = sign * (count - addr) + c
			d := linConst(0).plus(e, sign).plus(addr, 1)
			c := d.c
			d.c = 0
			lf, ok := d.single()
			if !ok || x.countOf(lf, []alignCol{first}) == "" {
				continue
			}
			switch {
			case eq && c == 0:
				return []int{2} // the column never runs ahead of the addresses seen
			case ne && c == 0:
				return []int{3}
			case sign == 1 && c == -1: // count - addr - 1 >= 0
				return []int{3}
			case sign == -1 && c == 0: // addr - count >= 0
				return []int{2}
			}
		}
		return nil
	}
	back, _ := q.rounds(fe[0].l, fe[0].lctx)
	x.decided("first-or-later", q)
	for _, o := range back {
		v := o.vec
		if v[2] == 1 && v[3] == 1 {
			continue // impossible
		}
		if v[2] == 0 && v[3] == 0 || v[0] != v[2] || v[1] != v[3] {
			fd.Msg = "which of the two columns an output goes to is not decided by whether the first-output column has reached its address"
			fd.Path = x.P.pathText(o.path)
		}
	}
}

// checkEntities: every round deals with its own entity.
func (x *alignRoot) checkEntities() {
	kinds := map[string][]string{
		"transaction": {"NthTransaction", "GetTransactionInfo"},
		"input":       {"NthTxi", "GetTxiInfo"},
		"output":      {"NthTxo", "GetTxoInfo"},
	}
	handles := map[string]string{"GetTransactionInfo": ".TransactionHandles", "GetTxiInfo": ".TxiHandles", "GetTxoInfo": ".TxoHandles"}
	of := map[string]string{
		"Transactions/firsttxo": "transaction", "Parents/parentblockoftrans": "transaction", "trnHashList": "transaction",
		"TransactionInputs/tx": "input", "TransactionOutputs/value": "output", "adrHashList": "output",
	}
	for _, e := range x.evs {
		kind, ok := of[e.col]
		if !ok || e.l == nil {
			continue
		}
		x.r.count("entity loops", 1)
		fd := x.finding("current-entity", kind+" for "+e.col, e.site.Pos())
		n := x.counter(e.l, e.lctx)
		asks := func(site ssa.CallInstruction, ctx *rctx) bool {
			_, m := recvOf(site)
			for _, k := range kinds[kind] {
				if k != m {
					continue
				}
				a := argAt(site, 0)
				if h, isRecv := handles[m]; isRecv {
					// element of the list of handles
					lf, ok := x.P.lin(a, ctx, x.enter).single()
					if !ok {
						return false
					}
					ix, coll := indexedElem(lf.v)
					if ix == nil {
						return false
					}
					if n == nil || x.P.lin(ix, lf.ctx, x.enter).String() != n.String() {
						return false
					}
					for _, k := range x.P.keysOf(coll, lf.ctx) {
						if strings.HasSuffix(k, h) {
							return true
						}
					}
					return false
				}
				return n != nil && x.P.lin(a, ctx, x.enter).String() == n.String()
			}
			return false
		}
		other := func(site ssa.CallInstruction) bool {
			_, m := recvOf(site)
			for _, k := range kinds[kind] {
				if k == m {
					return true
				}
			}
			return false
		}
		q := x.query(nil)
		q.width = 3 // asked for this round's; something written without; asked for another's
		q.atoms = [][]int8{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
		q.compose = func(a, b []int8) []int8 {
			return []int8{a[0] | b[0], a[1] | b[1]&(1-a[0]), a[2] | b[2]}
		}
		col := e.col
		q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
			if asks(site, ctx) {
				return []int{0}, true
			}
			if other(site) {
				return []int{2}, true
			}
			if c := x.col(site, ctx); c != "" {
				if c == col {
					return []int{1}, true
				}
				return nil, true
			}
			return nil, false
		}
		back, _ := q.rounds(e.l, e.lctx)
		x.decided("current-entity", q)
		for _, o := range back {
			if o.vec[1] == 1 || o.vec[0] == 0 {
				fd.Msg = "is stored in a round that has not asked the source for the " + kind + " the round is about"
				fd.Path = x.P.pathText(o.path)
			}
			if o.vec[2] == 1 {
				fd.Msg = "is stored in a round that asks the source for another " + kind
				fd.Path = x.P.pathText(o.path)
			}
		}
		x.r.oblig(fd.Msg == "", fd)
	}
}

// indexedElem: v is an element of a list: the index and the list.
func indexedElem(v ssa.Value) (ssa.Value, ssa.Value) {
	switch t := v.(type) {
	case *ssa.UnOp:
		if ia, ok := t.X.(*ssa.IndexAddr); ok && t.Op == token.MUL {
			return ia.Index, ia.X
		}
	case *ssa.Index:
		return t.Index, t.X
	}
	return nil, nil
}
