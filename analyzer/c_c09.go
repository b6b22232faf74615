package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: every column is created, opened (for appending and for reading) and exposed under one name and width.

// recvOf: the receiver and the name of a method call.
func recvOf(site ssa.CallInstruction) (ssa.Value, string) {
	c := site.Common()
	if c.IsInvoke() {
		return c.Value, c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
		return c.Args[0], f.Name()
	}
	return nil, ""
}

// folders: the string fields of the creator, as paths below the chain's folder.
func (P *Prog) chainFolders() map[string]string {
	out := map[string]string{}
	ctor := P.Func(chainPkg, "NewConcreteAppendableChainCreator")
	if ctor == nil {
		return out
	}
	P.storesInto(ctor, chainPkg+".ConcreteAppendableChainCreator", func(g *ssa.Function) bool { return relPkg(g) == chainPkg }, func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx) {
		if b, ok := val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			out[field] = belowRoot(normPath(P.sym(val, ctx.sym)))
		}
	})
	return out
}

// belowRoot drops the leading variable component of a path.
func belowRoot(p string) string {
	if strings.HasPrefix(p, "<") {
		if i := strings.Index(p, ">/"); i >= 0 {
			return p[i+2:]
		}
	}
	return p
}

// resolveFolders rewrites the columns' folder fields into paths.
func (P *Prog) resolveFolders(m *colModel) map[string]string {
	fs := P.chainFolders()
	cr := chainPkg + ".ConcreteAppendableChainCreator."
	for f, c := range m.creators {
		for fld, p := range fs {
			c.id = strings.ReplaceAll(c.id, "<"+cr+fld+">", p)
		}
		c.id = belowRoot(c.id)
		m.creators[f] = c
	}
	return fs
}

func at1(v []int8) {
	for i := range v {
		if v[i] > 1 {
			v[i] = 1
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// everySuccess demands that on every path of f that can report success each dimension happened.
func (P *Prog) everySuccess(r *Result, q *evQuery, f *ssa.Function, rule string, what func(d string) string) {
	outs := q.outcomes(f, &rctx{f: f})
	if q.Over {
		r.oblig(false, Finding{Rule: rule, Func: fnName(f), Construct: "undecided", Pos: P.Pos(f.Pos()), Msg: "too many paths to decide"})
		return
	}
	for i, d := range q.dims {
		bad := -1
		for j, o := range outs {
			if o.err != vNonNil && o.vec[i] == 0 && (bad < 0 || len(o.path) < len(outs[bad].path)) {
				bad = j
			}
		}
		fd := Finding{Rule: rule, Func: fnName(f), Construct: d, Pos: P.Pos(f.Pos())}
		if bad >= 0 {
			fd.Msg = what(d)
			fd.Path = P.pathText(outs[bad].path)
		} else {
			r.sample(fnName(f) + ": " + rule + " " + d)
		}
		r.oblig(bad < 0, fd)
	}
}

var accessorColumns = map[string]string{
	"TxoSatsFile":        "TransactionOutputs/value",
	"TxiTxFile":          "TransactionInputs/tx",
	"TxiVoutFile":        "TransactionInputs/vout",
	"TransFirstTxiFile":  "Transactions/firsttxi",
	"TransFirstTxoFile":  "Transactions/firsttxo",
	"ParentBlockOfTrans": "Parents/parentblockoftrans",
	"ParentTransOfTxi":   "Parents/parenttransoftxi",
	"ParentTransOfTxo":   "Parents/parenttransoftxo",
}

// What the objects of a stored chain read, and (after "#") which entities they count.
var readerColumns = map[string]string{
	"Block.Hash":                                    "Blocks/Hashes",
	"Block.TransactionCount":                        "Blocks/firsttrans #Blocks #Transactions",
	"Block.NthTransaction":                          "Blocks/firsttrans",
	"Block.NonEssentialInts":                        "Blocks/*",
	"BlockHandle.Height":                            "Blocks/Hashes",
	"BlockHandle.Hash":                              "Blocks/Hashes",
	"TransHandle.Height":                            "Transactions/Hashes",
	"TransHandle.Hash":                              "Transactions/Hashes",
	"Transaction.Hash":                              "Transactions/Hashes",
	"Transaction.AllTxoSatoshis":                    "Transactions/firsttxo TransactionOutputs/value #Transactions #TransactionOutputs",
	"Transaction.TxiCount":                          "Transactions/firsttxi #Transactions #TransactionInputs",
	"Transaction.NthTxi":                            "Transactions/firsttxi",
	"Transaction.TxoCount":                          "Transactions/firsttxo #Transactions #TransactionOutputs",
	"Transaction.NthTxo":                            "Transactions/firsttxo",
	"Transaction.NonEssentialInts":                  "Transactions/*",
	"Txi.SourceTxo":                                 "TransactionInputs/tx TransactionInputs/vout",
	"Txo.Satoshis":                                  "TransactionOutputs/value",
	"Txo.Address":                                   "TransactionOutputs/address",
	"Address.TxoCount":                              "Addresses/Hashes Addresses/firsttxo Addresses/additionaltxos",
	"Address.NthTxo":                                "Addresses/Hashes Addresses/firsttxo Addresses/additionaltxos",
	"Address.Hash":                                  "Addresses/Hashes Addresses/firsttxo Addresses/additionaltxos",
	"concreteReadableChain.LatestBlock":             "#Blocks",
	"concreteReadableChain.NextBlock":               "#Blocks",
	"concreteReadableChain.LatestTransaction":       "#Transactions",
	"concreteReadableChain.NextTransaction":         "#Transactions",
	"concreteReadableChain.BlockInterface":          "Blocks/Hashes",
	"concreteReadableChain.TransInterface":          "Transactions/Hashes",
	"concreteReadableChain.TxiInterface":            "Transactions/firsttxi Transactions/Hashes",
	"concreteReadableChain.TxoInterface":            "Transactions/firsttxo Transactions/Hashes",
	"concreteReadableChain.AddressHandleByHash":     "Addresses/Hashes",
	"concreteReadableChain.AddressHandleByString":   "Addresses/Hashes",
	"concreteReadableChain.TransactionHandleByHash": "Transactions/Hashes",
	"concreteReadableChain.BlockHandleByHash":       "Blocks/Hashes",
}

var columnReads = map[string]bool{"ReadWordAt": true, "ReadWholeFileAsInt64s": true, "GetArray": true, "IndexOfHash": true, "GetHashAtIndex": true}
var columnCounts = map[string]bool{"CountWords": true, "CountHashes": true}

func init() {
	checks["C09"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"created: creating a chain creates the file of every column on every success path",
			"opened: each column field of both chain structures is opened from one creator, on every success path, and no two from the same one",
			"same-column: a field of the readable view holds the same column whether the chain was opened for reading or for appending",
			"exposed: every column field of the readable view is set from the open chain",
			"distinct-files: no two columns share folder and name",
			"optional-columns: the optional integer columns are created, opened and kept under one name, folder and width, per kind",
			"one-path: within a store's creator, the file is created and opened under the same path and word size",
			"reader-columns: each accessor and chain object reads the columns of the entity it describes",
		}
		r.Assume = []string{"hash stores are checked at their own creators; interface calls between creators follow the creator's declared type"}
		m := P.colModelOf(r)
		folders := P.resolveFolders(m)
		a := newEF(P)
		crTyp := chainPkg + ".ConcreteAppendableChainCreator"
		r.count("columns", len(m.creators))
		for _, f := range m.viewDup {
			r.oblig(false, f)
		}
		// distinct files
		byID := map[string]string{}
		for _, f := range sortedKeys(m.creators) {
			c := m.creators[f]
			o, dup := byID[c.id]
			bad := dup || strings.HasSuffix(c.id, "/") || strings.Contains(c.id, "<") || strings.HasPrefix(c.id, "?")
			msg := fmt.Sprintf("column %s is kept in %q, which is also the file of %s", f, c.id, o)
			if !dup {
				msg = fmt.Sprintf("cannot tell the file of column %s: %s", f, c.expr)
			}
			r.oblig(!bad, Finding{Rule: "distinct-files", Func: "chainstorage.NewConcreteAppendableChainCreator", Construct: f, Pos: P.Pos(c.pos.Pos()), Msg: msg})
			byID[c.id] = f
		}
		// created
		intCr, hashCr := map[string]string{}, map[string]string{}
		for f, c := range m.creators {
			if strings.HasSuffix(c.id, "/Hashes") {
				hashCr[f] = c.id
			} else {
				intCr[f] = c.id
			}
		}
		creates := func(root string, set map[string]string) {
			fn := P.Method(P.Named(chainPkg, "ConcreteAppendableChainCreator"), root)
			if fn == nil {
				return
			}
			var dims []string
			idx := map[string]int{}
			for _, f := range sortedKeys(set) {
				idx[crTyp+"."+f] = len(dims)
				dims = append(dims, m.creators[f].id)
			}
			q := newEvQuery(P, a, dims)
			q.force = true
			q.norm = at1
			q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
				v, n := recvOf(site)
				if v == nil || !strings.HasPrefix(n, "Create") {
					return nil, false
				}
				var out []int
				for _, k := range P.keysOf(v, ctx) {
					if i, ok := idx[strings.TrimSuffix(k, "[]")]; ok {
						out = append(out, i)
					}
				}
				return out, len(out) > 0
			}
			r.count("creation obligations", len(dims))
			P.everySuccess(r, q, fn, "created", func(d string) string {
				return "a path that can report success leaves the file of column " + d + " uncreated"
			})
		}
		creates("CreateFromHashStores", intCr)
		creates("Create", hashCr)
		creates("Create", intCr)
		r.floor("creation obligations", 20)

		// opened
		for _, v := range []struct{ view, opener, back string }{
			{"concreteAppendableChain", "Open", "appending"},
			{"concreteAppendableChain", "OpenWithIndexer", "appending"},
			{"concreteReadableChain", "OpenReadOnly", "reading"},
		} {
			st := structOf(P.Named(chainPkg, v.view))
			fn := P.Method(P.Named(chainPkg, "ConcreteAppendableChainCreator"), v.opener)
			if st == nil || fn == nil {
				continue
			}
			var dims []string
			idx := map[string]int{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !isColumnType(f.Type()) {
					continue
				}
				idx[chainPkg+"."+v.view+"."+f.Name()] = len(dims)
				dims = append(dims, f.Name())
			}
			r.count("open obligations", len(dims))
			q := newEvQuery(P, a, dims)
			q.norm = at1
			q.enter = func(g *ssa.Function) bool { return relPkg(g) == chainPkg }
			q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) { return nil, false }
			q.instr = func(in ssa.Instruction, ctx *rctx) []int {
				if s, ok := in.(*ssa.Store); ok {
					if i, ok := idx[P.addrKey(s.Addr, ctx)]; ok {
						if c, isC := s.Val.(*ssa.Const); !isC || !c.IsNil() {
							return []int{i}
						}
					}
				}
				return nil
			}
			P.everySuccess(r, q, fn, "opened", func(d string) string {
				return fmt.Sprintf("a path that can report success leaves column field %s of a chain opened for %s unset", d, v.back)
			})
		}
		r.floor("open obligations", 50)
		for _, view := range []string{"concreteAppendableChain", "concreteReadableChain"} {
			st := structOf(P.Named(chainPkg, view))
			if st == nil {
				continue
			}
			used := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !isColumnType(f.Type()) {
					continue
				}
				if _, isMap := f.Type().Underlying().(*types.Map); isMap {
					continue
				}
				cf, ok := m.views[view][f.Name()]
				fd := Finding{Rule: "opened", Func: "chainstorage." + view, Construct: f.Name(), Pos: P.Pos(f.Pos())}
				if !ok {
					fd.Msg = "no creator's Open… result is put in this field"
					r.oblig(false, fd)
					continue
				}
				id := m.columnOf(view, f.Name())
				fd.Msg = fmt.Sprintf("fields %s and %s are both opened from column %s", used[id], f.Name(), id)
				r.oblig(used[id] == "", fd)
				used[id] = f.Name()
				_ = cf
			}
			for _, cf := range sortedKeys(m.creators) {
				id := m.creators[cf].id
				r.oblig(used[id] != "", Finding{Rule: "opened", Func: "chainstorage." + view, Construct: id, Msg: "column " + id + " is not opened into any field of " + view})
			}
		}

		// exposed
		exp := P.Method(P.Named(chainPkg, "concreteAppendableChain"), "GetAsConcreteReadableChain")
		exposed := map[string]string{} // readable field -> appendable field
		if exp != nil {
			st := structOf(P.Named(chainPkg, "concreteReadableChain"))
			ap := chainPkg + ".concreteAppendableChain."
			P.storesInto(exp, chainPkg+".concreteReadableChain", func(g *ssa.Function) bool { return relPkg(g) == chainPkg }, func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx) {
				for _, k := range P.keysOf(val, ctx) {
					if strings.HasPrefix(k, ap) && !strings.HasSuffix(k, "[]") {
						exposed[field] = strings.TrimPrefix(k, ap)
					}
				}
			})
			P.mapStores(exp, chainPkg+".concreteReadableChain", func(field string, mu *ssa.MapUpdate, ctx *rctx) {
				ks := P.keysOf(mu.Value, ctx)
				fd := Finding{Rule: "exposed", Func: fnName(exp), Construct: field, Pos: P.Pos(mu.Pos())}
				if len(ks) != 1 || !strings.HasPrefix(ks[0], ap) {
					fd.Msg = fmt.Sprintf("an element of %s does not come from the open chain (%v)", field, ks)
					r.oblig(false, fd)
					return
				}
				ke, ve := mu.Key, mu.Value
				fd.Msg = "an element is not kept under the name it had"
				r.oblig(sameIteration(ke, ve), fd)
				exposed[field] = strings.TrimSuffix(strings.TrimPrefix(ks[0], ap), "[]")
			})
			var dims []string
			idx := map[string]int{}
			for i := 0; st != nil && i < st.NumFields(); i++ {
				f := st.Field(i)
				if !isColumnType(f.Type()) {
					continue
				}
				idx[chainPkg+".concreteReadableChain."+f.Name()] = len(dims)
				dims = append(dims, f.Name())
				r.count("exposed fields", 1)
				fd := Finding{Rule: "exposed", Func: fnName(exp), Construct: f.Name(), Pos: P.Pos(exp.Pos())}
				af, ok := exposed[f.Name()]
				if !ok {
					fd.Msg = "the readable view of an open chain does not get this column from the chain"
					r.oblig(false, fd)
					continue
				}
				if _, isMap := f.Type().Underlying().(*types.Map); isMap {
					continue
				}
				c1, c2 := m.columnOf("concreteAppendableChain", af), m.columnOf("concreteReadableChain", f.Name())
				fd.Rule = "same-column"
				fd.Msg = fmt.Sprintf("holds column %q when the chain is opened for reading but %q (field %s) in the view of an open chain", c2, c1, af)
				r.oblig(c1 == c2 && c1 != "", fd)
			}
			r.floor("exposed fields", 16)
			q := newEvQuery(P, a, dims)
			q.norm = at1
			q.force = true
			q.enter = func(g *ssa.Function) bool { return relPkg(g) == chainPkg }
			q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) { return nil, false }
			q.instr = func(in ssa.Instruction, ctx *rctx) []int {
				if s, ok := in.(*ssa.Store); ok {
					if i, ok := idx[P.addrKey(s.Addr, ctx)]; ok {
						return []int{i}
					}
				}
				return nil
			}
			P.everySuccess(r, q, exp, "exposed", func(d string) string { return "a path leaves column field " + d + " of the readable view unset" })
		}
		P.checkOptionalColumns(r, m, folders, exposed)
		P.checkColumnReaders(r, m, folders)
		P.checkCreatorPaths(r)
		return r
	}
}

// isColumnType: a field that holds a column, or a map of columns.
func isColumnType(t types.Type) bool {
	if mt, ok := t.Underlying().(*types.Map); ok {
		return isColumnType(mt.Elem())
	}
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return false
	}
	return hasMethod(t, []string{"ReadWordAt", "IndexOfHash", "GetArray"}) != ""
}

// sameIteration: key and value come from the same step of a range over a map.
func sameIteration(k, v ssa.Value) bool {
	ke, ok1 := stripIface(k).(*ssa.Extract)
	ve, ok2 := stripIface(v).(*ssa.Extract)
	if ok1 && ok2 && ke.Tuple == ve.Tuple && ke.Index == 1 && ve.Index == 2 {
		return true
	}
	// looked up by that same key
	if lk, ok := stripIface(v).(*ssa.Lookup); ok && lk.Index == k {
		return true
	}
	if ok2 {
		if lk, ok := ve.Tuple.(*ssa.Lookup); ok && lk.Index == k {
			return true
		}
	}
	return false
}

type neiUse struct {
	e          *neiEntry
	op, field  string
	fn         *ssa.Function
	pos        ssa.Instruction
	keyMatches bool
}

func (P *Prog) checkOptionalColumns(r *Result, m *colModel, folders map[string]string, exposed map[string]string) {
	cr := chainPkg + ".ConcreteAppendableChainCreator"
	n := P.Named(chainPkg, "ConcreteAppendableChainCreator")
	chain := func(g *ssa.Function) bool { return relPkg(g) == chainPkg }
	kind := map[string]string{} // folder field -> what the open ops agreed on (name of table | width)
	uses := map[string]map[string]*neiEntry{}
	note := func(op string, e *neiEntry, fn *ssa.Function, pos ssa.Instruction) {
		r.count("optional column sites", 1)
		p := folders[e.folder]
		if uses[op] == nil {
			uses[op] = map[string]*neiEntry{}
		}
		sig := e.table + "|" + e.width
		fd := Finding{Rule: "optional-columns", Func: fnName(fn), Construct: op + " " + p, Pos: P.Pos(pos.Pos())}
		if p == "" {
			fd.Msg = "cannot tell the folder"
			r.oblig(false, fd)
			return
		}
		if old, ok := kind[p]; ok && old != sig {
			fd.Msg = fmt.Sprintf("the optional columns in %s are named and sized by %s here but by %s elsewhere", p, sig, old)
			r.oblig(false, fd)
		} else {
			kind[p] = sig
			r.oblig(true, fd)
		}
		// the width must be the one listed with the name
		wm := fmt.Sprintf("the width of an optional column (%s) is not the one listed with its name (%s)", e.width, e.name)
		fd.Msg = wm
		r.oblig(strings.Contains(e.width, e.table), fd)
		uses[op][p] = e
	}
	// creations
	if fn := P.Method(n, "CreateFromHashStores"); fn != nil {
		P.visit(fn, true, chain, func(in ssa.Instruction, ctx *rctx) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			v, name := recvOf(site)
			if v == nil || name != "CreateWordFile" {
				return
			}
			if e := P.neiOf(P.symStop(v, ctx.sym, otherPkg(chainPkg)), cr); e != nil && e.table != "" {
				note("create", e, fn, in)
			}
		})
	}
	for _, o := range []struct{ method, view, op string }{{"Open", "concreteAppendableChain", "open"}, {"OpenReadOnly", "concreteReadableChain", "open-read-only"}} {
		fn := P.Method(n, o.method)
		if fn == nil {
			continue
		}
		P.mapStores(fn, chainPkg+"."+o.view, func(field string, mu *ssa.MapUpdate, ctx *rctx) {
			ve := P.symStop(mu.Value, ctx.sym, otherPkg(chainPkg))
			e := P.neiOf(ve, cr)
			fd := Finding{Rule: "optional-columns", Func: fnName(fn), Construct: o.op + " " + field, Pos: P.Pos(mu.Pos())}
			if e == nil || e.table == "" {
				fd.Msg = "cannot tell which optional column is kept here"
				r.oblig(false, fd)
				return
			}
			key := P.symStop(mu.Key, ctx.sym, otherPkg(chainPkg)).String()
			fd.Msg = fmt.Sprintf("the column of file %s is kept under the key %s", e.name, key)
			r.oblig(key == e.name, fd)
			note(o.op, e, fn, mu)
			if m.views[o.view][field] == "" {
				m.views[o.view][field] = "*" + folders[e.folder]
			} else if m.views[o.view][field] != "*"+folders[e.folder] {
				fd.Msg = fmt.Sprintf("field %s holds optional columns of both %s and %s", field, m.views[o.view][field], folders[e.folder])
				r.oblig(false, fd)
			}
		})
	}
	r.floor("optional column sites", 6)
	for _, op := range []string{"create", "open", "open-read-only"} {
		for _, p := range sortedKeys(kind) {
			r.oblig(uses[op][p] != nil, Finding{Rule: "optional-columns", Func: "chainstorage.ConcreteAppendableChainCreator", Construct: op + " " + p, Msg: "the optional columns of " + p + " are not covered by " + op})
		}
	}
	// exposed as the same kind
	for rf, af := range exposed {
		a, b := m.views["concreteAppendableChain"][af], m.views["concreteReadableChain"][rf]
		if strings.HasPrefix(a, "*") || strings.HasPrefix(b, "*") {
			r.oblig(a == b, Finding{Rule: "same-column", Func: "chainstorage.GetAsConcreteReadableChain", Construct: rf, Msg: fmt.Sprintf("holds the optional columns of %q when opened for reading but of %q in the view of an open chain", b, a)})
		}
	}
	// names must not collide with the fixed columns of the folder
	ctor := P.Func(chainPkg, "NewConcreteAppendableChainCreator")
	if ctor != nil {
		for p, sig := range kind {
			table := strings.SplitN(sig, "|", 2)[0]
			names := 0
			P.mapStores(ctor, cr, func(field string, mu *ssa.MapUpdate, ctx *rctx) {
				if field != table {
					return
				}
				names++
				k := strings.Trim(P.sym(mu.Key, ctx.sym).String(), "\"")
				for _, c := range m.creators {
					if c.id == p+"/"+k {
						r.oblig(false, Finding{Rule: "distinct-files", Func: fnName(ctor), Construct: p + "/" + k, Pos: P.Pos(mu.Pos()), Msg: "an optional column has the name of a fixed one"})
					}
				}
			})
			r.count("optional names", names)
		}
		r.floor("optional names", 10)
	}
}

// columnName: the column (folder/name, or folder/* for optional ones) a key of the readable chain stands for.
func (m *colModel) columnName(view, key string) string {
	pre := chainPkg + "." + view + "."
	if !strings.HasPrefix(key, pre) {
		return ""
	}
	f := strings.TrimSuffix(strings.TrimPrefix(key, pre), "[]")
	v := m.views[view][f]
	if strings.HasPrefix(v, "*") {
		return v[1:] + "/*"
	}
	return m.creators[v].id
}

func (P *Prog) checkColumnReaders(r *Result, m *colModel, folders map[string]string) {
	chain := func(g *ssa.Function) bool { return relPkg(g) == chainPkg }
	crc := P.Named(chainPkg, "concreteReadableChain")
	for _, acc := range sortedKeys(accessorColumns) {
		fn := P.Method(crc, acc)
		if fn == nil {
			continue
		}
		r.count("accessors", 1)
		got := map[string]bool{}
		for _, b := range fn.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, k := range P.keysOf(rt.Results[0], &rctx{f: fn}) {
				got[m.columnName("concreteReadableChain", k)] = true
			}
		}
		P.columnUses(fn, chain, m, "concreteReadableChain", func(col, entity string, _ ssa.Instruction) {
			if col != "" {
				got[col] = true
			}
		})
		delete(got, "")
		r.oblig(len(got) == 1 && got[accessorColumns[acc]], Finding{Rule: "reader-columns", Func: fnName(fn), Construct: acc, Pos: P.Pos(fn.Pos()),
			Msg: fmt.Sprintf("gives access to %v instead of %s", sortedKeys(got), accessorColumns[acc])})
	}
	r.floor("accessors", 8)
	for _, name := range sortedKeys(readerColumns) {
		p := strings.SplitN(name, ".", 2)
		fn := P.Method(P.Named(chainPkg, p[0]), p[1])
		if fn == nil {
			continue
		}
		r.count("readers", 1)
		want, wantC := map[string]bool{}, map[string]bool{}
		for _, w := range strings.Fields(readerColumns[name]) {
			if strings.HasPrefix(w, "#") {
				wantC[w[1:]] = true
			} else {
				want[w] = true
			}
		}
		got, gotC := map[string]bool{}, map[string]bool{}
		P.columnUses(fn, chain, m, "concreteReadableChain", func(col, entity string, _ ssa.Instruction) {
			if col != "" {
				got[col] = true
			} else {
				gotC[entity] = true
			}
		})
		r.oblig(sameSet(got, want) && subSet(gotC, wantC) && (len(gotC) > 0 || len(wantC) == 0), Finding{Rule: "reader-columns", Func: fnName(fn), Construct: name, Pos: P.Pos(fn.Pos()),
			Msg: fmt.Sprintf("reads columns %v and counts %v; it should read %v and count %v", sortedKeys(got), sortedKeys(gotC), sortedKeys(want), sortedKeys(wantC))})
	}
	r.floor("readers", 25)
	// the two parts of a source output
	if fn := P.Method(P.Named(chainPkg, "Txi"), "SourceTxo"); fn != nil {
		for typ, w := range map[string][2]string{chainPkg + ".HashHeight": {"height", "TransactionInputs/tx"}, chainPkg + ".TransIndex": {"index", "TransactionInputs/vout"}} {
			n := 0
			P.storesInto(fn, typ, chain, func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx) {
				if field != w[0] {
					return
				}
				e := P.sym(val, ctx.sym)
				if _, isC := e.Int(); isC {
					return
				}
				n++
				cols := map[string]bool{}
				e.walk(func(x *Expr) bool {
					if x.Op == "field" {
						if c := m.columnName("concreteReadableChain", x.Name); c != "" {
							cols[c] = true
						}
					}
					return false
				})
				r.oblig(len(cols) == 1 && cols[w[1]], Finding{Rule: "reader-columns", Func: fnName(fn), Construct: w[0], Pos: P.Pos(in.Pos()),
					Msg: fmt.Sprintf("the %s of a source output is read from %v instead of %s", w[0], sortedKeys(cols), w[1])})
			})
			r.count("source roles", n)
		}
		r.floor("source roles", 2)
	}
}

// columnUses reports the columns read (col) or counted (entity) by f.
func (P *Prog) columnUses(f *ssa.Function, enter func(*ssa.Function) bool, m *colModel, view string, fn func(col, entity string, in ssa.Instruction)) {
	P.visit(f, false, enter, func(in ssa.Instruction, ctx *rctx) {
		site, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		v, n := recvOf(site)
		if v == nil || (!columnReads[n] && !columnCounts[n]) {
			return
		}
		for _, k := range P.keysOf(v, ctx) {
			c := m.columnName(view, k)
			if c == "" {
				continue
			}
			if columnReads[n] {
				fn(c, "", in)
			} else {
				fn("", strings.SplitN(c, "/", 2)[0], in)
			}
		}
	})
}

func sameSet(a, b map[string]bool) bool { return subSet(a, b) && subSet(b, a) }
func subSet(a, b map[string]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// fileUse is a file opened or created under a symbolic path.
type fileUse struct {
	path   string
	create bool
	in     ssa.Instruction
	fn     *ssa.Function
}

// filesUsed lists the files f opens or creates, with their symbolic paths.
func (P *Prog) filesUsed(f *ssa.Function, enter func(*ssa.Function) bool) []fileUse {
	var out []fileUse
	P.visit(f, true, enter, func(in ssa.Instruction, ctx *rctx) {
		site, ok := in.(ssa.CallInstruction)
		if !ok || len(site.Common().Args) == 0 {
			return
		}
		n := calleeName(site.Common())
		create := false
		switch n {
		case "os.Create", "os.WriteFile":
			create = true
		case "os.Open", "os.ReadFile", "os.Stat":
		case "os.OpenFile":
			if fl, ok := P.sym(site.Common().Args[1], ctx.sym).Int(); !ok || fl&(64) != 0 {
				create = true
			}
		default:
			return
		}
		out = append(out, fileUse{normPath(P.sym(site.Common().Args[0], ctx.sym)), create, in, f})
	})
	return out
}

// checkCreatorPaths: inside one store's creator, the file has one path.
func (P *Prog) checkCreatorPaths(r *Result) {
	for _, t := range []struct {
		rel, typ     string
		sameForReads bool
	}{
		{"wordfile", "ConcreteWordFileCreator", true},
		{"wordfile", "ConcreteMmapWordFileCreator", true},
	} {
		paths := map[string][]fileUse{}
		for _, f := range P.methodsOf(t.rel, t.typ) {
			for _, u := range P.filesUsed(f, func(g *ssa.Function) bool { return relPkg(g) == t.rel }) {
				p := strings.ReplaceAll(u.path, "<"+t.rel+"."+t.typ+".", "<")
				paths[p] = append(paths[p], u)
				r.count("word file paths", 1)
			}
		}
		if len(paths) == 0 {
			continue
		}
		for p, us := range paths {
			for _, u := range us {
				r.oblig(len(paths) == 1 && strings.Contains(p, "folder") && strings.Contains(p, "name"), Finding{Rule: "one-path", Func: fnName(u.fn), Construct: p, Pos: P.Pos(u.in.Pos()),
					Msg: fmt.Sprintf("the file of a %s goes by %d different paths: %v", t.typ, len(paths), sortedKeys(paths))})
			}
		}
		// every word file object gets the creator's own word size
		for _, f := range P.methodsOf(t.rel, t.typ) {
			f := f
			P.visit(f, true, func(g *ssa.Function) bool { return relPkg(g) == t.rel }, func(in ssa.Instruction, ctx *rctx) {
				site, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				g := site.Common().StaticCallee()
				if g == nil || relPkg(g) != t.rel || g.Signature.Recv() != nil {
					return
				}
				for i := 0; i < g.Signature.Params().Len() && i < len(site.Common().Args); i++ {
					if strings.EqualFold(g.Signature.Params().At(i).Name(), "wordSize") {
						e := P.sym(site.Common().Args[i], ctx.sym)
						r.count("word sizes", 1)
						r.oblig(e.String() == t.rel+"."+t.typ+".wordSize", Finding{Rule: "one-path", Func: fnName(f), Construct: "wordSize", Pos: P.Pos(in.Pos()),
							Msg: "a word file is opened with word size " + e.String() + " instead of the creator's"})
					}
				}
			})
		}
	}
	r.floor("word file paths", 6)
	// a constructor keeps each parameter in the field of its own kind: name, folder and size are not mixed up
	for _, c := range []string{"NewConcreteWordFileCreator", "NewConcreteMmapWordFileCreator"} {
		fn := P.Func("wordfile", c)
		if fn == nil {
			continue
		}
		for _, typ := range []string{"ConcreteWordFileCreator", "ConcreteMmapWordFileCreator"} {
			got := map[string]string{}
			P.storesInto(fn, "wordfile."+typ, nil, func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx) {
				got[field] = P.sym(val, ctx.sym).String()
			})
			for _, f := range []string{"name", "folder", "wordSize"} {
				if v, ok := got[f]; ok {
					r.count("constructor fields", 1)
					r.oblig(strings.HasSuffix(v, "."+f), Finding{Rule: "one-path", Func: fnName(fn), Construct: typ + "." + f, Pos: P.Pos(fn.Pos()), Msg: "is set from " + v})
				} else if len(got) > 0 {
					r.oblig(false, Finding{Rule: "one-path", Func: fnName(fn), Construct: typ + "." + f, Pos: P.Pos(fn.Pos()), Msg: "is not set by the constructor"})
				}
			}
		}
	}
	// array maps: created in the folder the stores use, with the creator's element size and digits
	P.checkMapStorePaths(r)
	// hash lists and hash stores
	P.checkCreatedOpened(r, "ConcreteHashesChainCreator", chainPkg, []string{"Create"}, []string{"Open"}, 3)
	P.checkCreatedOpened(r, "ConcreteHashStoreCreator", "indexedhashes3", []string{"CreateHashStore"}, []string{"OpenHashStore", "OpenHashStoreReadOnly"}, 2)
	P.checkIndexFiles(r)
}

// checkIndexFiles: the builders of a hash index and its readers agree on the names of its files and on the width of
// the bin number column; the hash list goes by one name everywhere.
func (P *Prog) checkIndexFiles(r *Result) {
	made, used, opened := map[string]bool{"Hashes.hsh": true}, map[string]fileUse{}, map[string]bool{}
	for _, f := range P.FuncsIn("indexedhashes3", chainPkg) {
		if f.Parent() != nil {
			continue
		}
		for _, u := range P.filesUsed(f, func(g *ssa.Function) bool { return relPkg(g) == relPkg(f) }) {
			b := u.path[strings.LastIndex(u.path, "/")+1:]
			if strings.Contains(b, "<") || b == "" {
				continue
			}
			r.count("index files", 1)
			if u.create {
				made[b] = true
			} else {
				opened[b] = true
			}
			used[b] = u
		}
		P.visit(f, true, func(g *ssa.Function) bool { return relPkg(g) == relPkg(f) && g.Signature.Recv() == nil }, func(in ssa.Instruction, ctx *rctx) {
			site, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			switch calleeName(&site.Call) {
			case "wordfile.NewConcreteWordFileCreator", modulePath + "/wordfile.NewConcreteWordFileCreator":
				if relPkg(in.Parent()) != "indexedhashes3" {
					return
				}
				nm := strings.Trim(P.sym(site.Call.Args[0], ctx.sym).String(), "\"")
				if ctx.f == f {
					used[nm+".int"] = fileUse{in: in, fn: f}
					opened[nm+".int"] = true
				}
			}
			if g := site.Call.StaticCallee(); g != nil && relPkg(g) == "wordfile" && relPkg(in.Parent()) == "indexedhashes3" {
				for i := 0; i < g.Signature.Params().Len(); i++ {
					if strings.EqualFold(g.Signature.Params().At(i).Name(), "wordSize") && i < len(site.Call.Args) && ctx.f == f {
						e := P.sym(site.Call.Args[i], ctx.sym).String()
						r.count("bin number widths", 1)
						r.oblig(strings.Contains(strings.ToLower(e), "bytesroomforbinnum"), Finding{Rule: "one-path", Func: fnName(f), Construct: "bin number width", Pos: P.Pos(in.Pos()), Msg: "the bin number column has width " + e + " here"})
					}
				}
			}
		})
	}
	for _, b := range sortedKeys(used) {
		u := used[b]
		r.oblig(made[b], Finding{Rule: "one-path", Func: fnName(u.fn), Construct: b, Pos: P.Pos(u.in.Pos()), Msg: fmt.Sprintf("file %s is used but none of that name is ever created (%v)", b, sortedKeys(made))})
		r.oblig(opened[b], Finding{Rule: "one-path", Func: fnName(u.fn), Construct: b, Pos: P.Pos(u.in.Pos()), Msg: fmt.Sprintf("file %s is created but none of that name is ever opened (%v)", b, sortedKeys(opened))})
	}
	r.floor("index files", 10)
	r.floor("bin number widths", 3)
}

func (P *Prog) checkCreatedOpened(r *Result, typ, rel string, creators, openers []string, min int) {
	n := P.Named(rel, typ)
	if n == nil {
		return
	}
	enter := func(g *ssa.Function) bool { return true }
	created, opened := map[string]fileUse{}, map[string]fileUse{}
	for _, c := range creators {
		if f := P.Method(n, c); f != nil {
			for _, u := range P.filesUsed(f, enter) {
				if u.create {
					created[u.path] = u
				}
			}
		}
	}
	for _, c := range openers {
		if f := P.Method(n, c); f != nil {
			per := 0
			for _, u := range P.filesUsed(f, enter) {
				if !u.create && !strings.Contains(calleeName(u.in.(ssa.CallInstruction).Common()), "Stat") {
					opened[u.path] = u
					per++
				}
			}
			r.count("opened paths of "+typ, per)
		}
	}
	for _, p := range sortedKeys(opened) {
		u := opened[p]
		if strings.HasSuffix(p, "/Hashes.hsh") && typ != "ConcreteHashesChainCreator" {
			continue // the hash list is written by the hashes chain
		}
		if !strings.HasPrefix(p, "<"+rel+"."+typ+".") {
			continue // per-bin files, found by number
		}
		_, ok := created[p]
		r.oblig(ok, Finding{Rule: "one-path", Func: fnName(u.fn), Construct: p, Pos: P.Pos(u.in.Pos()), Msg: fmt.Sprintf("the file opened here is not one of those created: %v", sortedKeys(created))})
	}
	for _, p := range sortedKeys(created) {
		u := created[p]
		if strings.HasSuffix(p, ".json") {
			continue
		}
		_, ok := opened[p]
		if !ok && strings.Contains(p, "BinNums") {
			continue // opened through the word file creator, below
		}
		r.oblig(ok, Finding{Rule: "one-path", Func: fnName(u.fn), Construct: p, Pos: P.Pos(u.in.Pos()), Msg: fmt.Sprintf("the file created here is not one of those opened: %v", sortedKeys(opened))})
	}
	r.floor("opened paths of "+typ, min-1)
}

func (P *Prog) checkMapStorePaths(r *Result) {
	typ := "intarrayarray.ConcreteMapStoreCreator"
	n := P.Named("intarrayarray", "ConcreteMapStoreCreator")
	if n == nil {
		return
	}
	for _, store := range []string{"IntArrayMapStore", "CachedIntArrayMapStore"} {
		want := map[string]string{"folder": "folder", "name": "name", "elementByteSize": "elementByteSize", "arrayCountPerFile": "digitsPerFile", "numberedFolders": "digitsPerFile digitsPerFolder"}
		for _, m := range []string{"OpenMap", "OpenMapReadOnly"} {
			fn := P.Method(n, m)
			if fn == nil {
				continue
			}
			got := map[string]*Expr{}
			P.storesInto(fn, "intarrayarray."+store, func(g *ssa.Function) bool { return relPkg(g) == "intarrayarray" }, func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx) {
				if _, ok := want[field]; ok {
					got[field] = P.symStop(val, ctx.sym, otherPkg("intarrayarray"))
				}
			})
			if len(got) == 0 {
				continue
			}
			for _, f := range sortedKeys(want) {
				fd := Finding{Rule: "one-path", Func: fnName(fn), Construct: store + "." + f, Pos: P.Pos(fn.Pos())}
				r.count("map store parameters", 1)
				if got[f] == nil {
					fd.Msg = "is not set"
					r.oblig(false, fd)
					continue
				}
				var uses []string
				got[f].walk(func(x *Expr) bool {
					if x.Op == "field" && strings.HasPrefix(x.Name, typ+".") {
						uses = append(uses, strings.TrimPrefix(x.Name, typ+"."))
					}
					return false
				})
				fd.Msg = fmt.Sprintf("is set from %v instead of %s", uses, want[f])
				r.oblig(strings.Join(uses, " ") == want[f], fd)
			}
		}
	}
	r.floor("map store parameters", 15)
}
