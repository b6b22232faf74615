package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: the bin index: entry layout, bin storage, and the hash store built on them.

type binIndex struct {
	P                                          *Prog
	r                                          *Result
	params, entry, bin, store, creator, ovf    *types.Named
	newParams, newEntry, saveBin, loadBin, all *ssa.Function
}

func init() {
	checks["C13"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"entry-layout: interpreting the entry encoder with symbolic truncated hash, hash index and sort number for every pair of field widths: the entry is exactly as long as the parameters say, the fields need exactly that many bytes, decoding yields the three values written, and a value is refused only when it does not fit its field",
			"bin-storage: a bin of 0..5 entries (room for 2 in the bin start, symbolic contents, last entry ending in 0..entry-1 zero bytes) that was saved is loaded back byte for byte, alone and when all bins are loaded, with other bins saved around it; the bin starts lie at multiples of their size",
			"hash-halves: a hash is the inverse of its truncated and abbreviated parts; bin number and sort number of an abbreviated hash give it back; a sort number fits its field and a bin number its word",
			"store-roundtrip: interpreting CreateHashStore, OpenHashStore and AppendHash of a symbolic hash, IndexOfHash then finds it at the number AppendHash reported and GetHashAtIndex of that number yields it",
			"params-reload: a store reopened from its parameter file uses the same parameters, derived ones included, as when it was created",
			"file-size: the bin start file is created with room for every bin",
		}
		r.Assume = []string{
			"files transfer all bytes or fail (C08, C12); the folder path of an overflow file is an injective function of the bin number",
			"an entry's first byte is not zero (the hash of a block, transaction or address never is 24 zero bytes)",
		}
		b := &binIndex{P: P, r: r,
			params: P.Named("indexedhashes3", "HashIndexingParams"), entry: P.Named("indexedhashes3", "binEntryBytes"),
			bin: P.Named("indexedhashes3", "bin"), store: P.Named("indexedhashes3", "hashStore"),
			creator: P.Named("indexedhashes3", "ConcreteHashStoreCreator"), ovf: P.Named("indexedhashes3", "overflowFiles")}
		b.newParams = P.Func("indexedhashes3", "NewHashStoreParams")
		b.newEntry = P.Func("indexedhashes3", "newBinEntryBytes")
		b.saveBin, b.loadBin, b.all = P.Func("indexedhashes3", "saveBinToFiles"), P.Func("indexedhashes3", "loadBinFromFiles"), P.Func("indexedhashes3", "loadAllBinsFromFiles")
		for n, ok := range map[string]bool{"HashIndexingParams": b.params != nil, "binEntryBytes": b.entry != nil, "bin": b.bin != nil, "hashStore": b.store != nil, "ConcreteHashStoreCreator": b.creator != nil,
			"NewHashStoreParams": b.newParams != nil, "newBinEntryBytes": b.newEntry != nil, "saveBinToFiles": b.saveBin != nil, "loadBinFromFiles": b.loadBin != nil, "loadAllBinsFromFiles": b.all != nil} {
			if !ok {
				r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "indexedhashes3." + n, Msg: "the declaration the analysis starts from is gone"})
				return r
			}
		}
		b.entries()
		b.hashHalves()
		b.bins()
		b.stores()
		b.binStartSizes()
		b.reload()
		r.floor("field width pairs", 32)
		r.floor("bins saved and loaded", 30)
		r.floor("stores driven end to end", 3)
		r.floor("bin start files sized", 3)
		return r
	}
}

// mkParams interprets the parameter constructor.
func (b *binIndex) mkParams(c *codec, bits, bins, inStart, sortBytes int64) (*astate, aval) {
	m := c.m
	args := []aval{i64(aconst(bits)), i64(aconst(1000)), aInt{aconst(2), intType}, i64(aconst(bins)), i64(aconst(inStart)), i64(aconst(sortBytes))}
	outs := m.run(b.newParams, args, nil, m.newState())
	if len(outs) != 1 || outs[0].panic {
		c.about(b.newParams).oblig(false, "parameters", "the parameters of an ordinary store are refused")
		return m.newState(), aNil{}
	}
	return outs[0].st, outs[0].rets[0]
}

func (b *binIndex) entrySize(c *codec, st *astate, p aval) int64 {
	f := b.P.Method(b.params, "BytesPerBinEntry")
	if f == nil {
		return -1
	}
	outs := c.m.run(f, []aval{p}, nil, st.clone())
	if len(outs) == 1 && len(outs[0].rets) == 1 {
		if l, ok := c.m.intOf(outs[0].rets[0]); ok && l.isConst() {
			return l.c
		}
	}
	return -1
}

// symArray: a byte array of symbolic bytes.
func (m *amachine) symArray(st *astate, t types.Type, name string) aval {
	id := m.alloc(st, t, name)
	o := m.mut2(st, id)
	n := t.Underlying().(*types.Array).Len()
	for i := int64(0); i < n; i++ {
		s := fmt.Sprintf("%s%d", name, i)
		m.ivs[s] = ival{0, 255}
		off := aconst(i)
		o.cells[off.String()] = acell{off, aInt{asymbol(s), byteType}}
	}
	return aAgg{m.snapshot(st, id)}
}

func (m *amachine) boxed(st *astate, v aval, t types.Type) aval {
	id := m.alloc(st, t, "")
	if a, ok := v.(aAgg); ok {
		m.restore(st, id, a.o)
		return aPtr{obj: id}
	}
	m.writeCell(st, id, "v", alin{}, false, v)
	return aPtr{obj: id}
}

// arrayBytes: the bytes of a byte array value.
func (m *amachine) arrayBytes(st *astate, v aval, n int64) []ab {
	var id int
	switch a := v.(type) {
	case aAgg:
		id = m.alloc(st, a.o.typ, "")
		m.restore(st, id, a.o)
	case aPtr:
		id = a.obj
		if a.cell != "" {
			return nil
		}
	default:
		return nil
	}
	var out []ab
	s := aSlice{obj: id, elem: byteType}
	for i := int64(0); i < n; i++ {
		out = append(out, m.getByte(st, s, aconst(i)))
	}
	return out
}

func (m *amachine) sameBytes(st *astate, x, y []ab) bool {
	if len(x) != len(y) || len(x) == 0 {
		return false
	}
	canon := func(b ab) ab {
		if b.sym != "" && b.k == 0 {
			return m.bytesOf(st, asymbol(b.sym))[0] // what the path has found out about it
		}
		return b
	}
	for i := range x {
		if canon(x[i]) != canon(y[i]) || x[i].top {
			return false
		}
	}
	return true
}

func (m *amachine) sliceBytes(st *astate, v aval) ([]ab, bool) {
	s, ok := v.(aSlice)
	if !ok || !s.n.isConst() {
		if _, isNil := v.(aNil); isNil {
			return nil, true
		}
		return nil, false
	}
	out := []ab{}
	for i := int64(0); i < s.n.c; i++ {
		out = append(out, m.getByte(st, s, aconst(i)))
	}
	return out, true
}

func (b *binIndex) entries() {
	P := b.P
	th, both := P.Method(b.entry, "getTruncatedHash"), P.Method(b.entry, "getHashIndexSortNum")
	if th == nil || both == nil {
		b.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "indexedhashes3.binEntryBytes", Msg: "the entry decoders are gone"})
		return
	}
	arr := derefType(b.newEntry.Params[0].Type())
	for _, bits := range []int64{1, 7, 8, 9, 16, 17, 24, 25, 32, 33, 40, 48, 56, 57, 63} {
		for sn := int64(1); sn <= 8; sn++ {
			c := P.codec(b.r, "entry-layout", b.newEntry)
			m := c.m
			m.maxIter = 9
			st, p := b.mkParams(c, bits, 4, 2, sn)
			if _, bad := p.(aNil); bad {
				continue
			}
			b.r.count("field width pairs", 1)
			tag := fmt.Sprintf(" (%d bits of hash index, %d bytes of sort number)", bits, sn)
			E := b.entrySize(c, st, p)
			hiBytes := (bits + 7) / 8
			c.about(b.newParams).oblig(E == 24+hiBytes+sn, "entry size", fmt.Sprintf("an entry must have room for its fields and no more, it is %d bytes%s", E, tag))
			T := m.symArray(st, arr, "T")
			HI := m.symbol("HI", math.MinInt64, math.MaxInt64)
			SN := m.symbol("SN", math.MinInt64, math.MaxInt64)
			want := m.arrayBytes(st, T, 24)
			args := []aval{T, aInt{HI, basicOf(b.newEntry.Params[1].Type())}, aInt{SN, basicOf(b.newEntry.Params[2].Type())}, p}
			good := 0
			for _, o := range m.run(b.newEntry, args, nil, st) {
				c.about(b.newEntry)
				fits := mayFit(m, o.st, "HI", hiBytes) && mayFit(m, o.st, "SN", sn)
				if o.panic {
					c.oblig(!fits, "refused values", "values that fit their fields are refused"+tag)
					continue
				}
				good++
				c.oblig(fitsAll(m, o.st, "HI", hiBytes) && fitsAll(m, o.st, "SN", sn), "width check", "a value that does not fit its field is accepted"+tag)
				s, ok := o.rets[0].(aSlice)
				c.oblig(ok && s.n == aconst(E), "entry length", "the encoded entry does not have the length of an entry"+tag)
				if !ok {
					continue
				}
				box := m.boxed(o.st, s, b.entry)
				for _, d := range m.run(th, []aval{box}, nil, o.st.clone()) {
					c.about(th).oblig(!d.panic && len(d.rets) == 1 && m.sameBytes(d.st, m.arrayBytes(d.st, d.rets[0], 24), want), "truncated hash", "the truncated hash decoded is not the one encoded"+tag)
				}
				for _, d := range m.run(both, []aval{box, p}, nil, o.st.clone()) {
					ok := !d.panic && len(d.rets) == 2
					c.about(both).oblig(ok && sameInt(m, d.st, d.rets[0], HI), "hash index", "the hash index decoded is not the one encoded"+tag)
					c.oblig(ok && sameInt(m, d.st, d.rets[1], SN), "sort number", "the sort number decoded is not the one encoded"+tag)
				}
			}
			c.about(b.newEntry).oblig(good > 0, "encoding", "no path encodes an entry"+tag)
		}
	}
}

func (b *binIndex) hashHalves() {
	P := b.P
	hash := P.Named("indexedhashes3", "Hash")
	ah := P.Named("indexedhashes3", "abbreviatedHash")
	join := P.Func("indexedhashes3", "NewHashFromTruncatedHashAbbreviatedHash")
	back := P.Func("indexedhashes3", "newAbbreviatedHashFromBinNumSortNum")
	var tr, ab_, bnF, snF *ssa.Function
	if hash != nil && ah != nil {
		tr, ab_, bnF, snF = P.Method(hash, "toTruncatedHash"), P.Method(hash, "toAbbreviatedHash"), P.Method(ah, "toBinNum"), P.Method(ah, "toSortNum")
	}
	if tr == nil || ab_ == nil || bnF == nil || snF == nil || join == nil || back == nil {
		b.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "indexedhashes3.Hash", Msg: "the parts of a hash are gone"})
		return
	}
	room := P.Method(b.params, "BytesRoomForBinNum")
	for _, bins := range []int64{2, 4, 6, 254, 256, 258, 65536, 65538, 1000000, 1 << 30} {
		c := P.codec(b.r, "hash-halves", join)
		m := c.m
		st, p := b.mkParams(c, 32, bins, 2, 8)
		if _, bad := p.(aNil); bad {
			continue
		}
		tag := fmt.Sprintf(" (%d bins)", bins)
		H := m.symArray(st, hash.Underlying(), "H")
		want := m.arrayBytes(st, H, 32)
		box := m.boxed(st, H, hash)
		for _, t := range m.run(tr, []aval{box}, nil, st.clone()) {
			for _, a := range m.run(ab_, []aval{box}, nil, t.st) {
				if t.panic || a.panic {
					c.oblig(false, "splitting", "splitting a hash panics")
					continue
				}
				abox := m.boxed(a.st, a.rets[0], ah)
				for _, x := range m.run(bnF, []aval{abox, p}, nil, a.st.clone()) {
					for _, y := range m.run(snF, []aval{abox, p}, nil, x.st) {
						if x.panic || y.panic {
							c.oblig(false, "splitting", "splitting an abbreviated hash panics"+tag)
							continue
						}
						bn, ok := m.intOf(x.rets[0])
						sn, ok2 := m.intOf(y.rets[0])
						if room != nil && ok && ok2 {
							for _, w := range m.run(room, []aval{p}, nil, y.st.clone()) {
								l, ok := m.intOf(w.rets[0])
								c.about(room).oblig(ok && l.isConst() && l.c >= 1 && bins-1 <= maxOf(l.c), "bin number width", fmt.Sprintf("bin numbers are stored in %v bytes%s", w.rets[0], tag))
							}
							_, _ = bn, sn
						}
						for _, z := range m.run(back, []aval{x.rets[0], y.rets[0], p}, nil, y.st) {
							if z.panic {
								continue
							}
							k, ok := m.intOf(z.rets[0])
							orig, _ := m.intOf(a.rets[0])
							c.about(back).oblig(ok && m.same(z.st, k, orig), "abbreviated hash", fmt.Sprintf("the abbreviated hash rebuilt from its bin and sort number is not the original but %v%s", z.rets[0], tag))
							for _, j := range m.run(join, []aval{t.rets[0], z.rets[0]}, nil, z.st) {
								c.about(join).oblig(!j.panic && m.sameBytes(j.st, m.arrayBytes(j.st, j.rets[0], 32), want), "hash", "the hash rebuilt from its parts is not the original"+tag)
							}
						}
					}
				}
			}
		}
	}
}

// fsOrLib: the file system model; the append-optimised file is the file it wraps (C08); numbered folders
// name a file by its number.
func binModel(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	switch {
	case name == "NumberToFoldersAndFile" && !m.folders:
		k := m.argKey(st, args)
		l, _ := m.intOf(args[0])
		return one(st, aStr{id: "folders(" + k + ")"}, aStr{id: "file(" + k + ")"}, aInt{l, int64Type.Underlying().(*types.Basic)}), true
	case strings.HasSuffix(name, "/numberedfolders.NewNumberedFolders") && !m.folders:
		return one(st, aOpaque{"numbered", site.Common().Signature().Results().At(0).Type()}), true
	case strings.HasSuffix(name, "/memfile.NewAppendOptimizedFile"):
		c := st.clone()
		id := m.fresh("ioerr")
		c.errs[id] = false
		return []aout{{st: c, rets: []aval{aNil{}, aErr{id: "!" + id}}}, {st: st, rets: []aval{args[0], aErr{}}}}, true
	case strings.Contains(name, "/memfile.AppendOptimizedFile)."):
		if r, ok := unwrapOpaque(args[0]); ok {
			return m.fileOp(st, site, r, name[strings.LastIndex(name, ".")+1:], args[1:])
		}
	}
	return fsModel(m, st, site, name, recv, args)
}

// callArgs: arguments of a function by the types of its parameters.
func (b *binIndex) callArgs(f *ssa.Function, vals map[string]aval) []aval {
	var out []aval
	for _, p := range f.Params {
		t := derefType(p.Type())
		k := types.TypeString(t, func(*types.Package) string { return "" })
		if v, ok := vals[k]; ok {
			out = append(out, v)
			continue
		}
		out = append(out, aTop{})
	}
	return out
}

func (b *binIndex) mkOverflow(c *codec, st *astate, p aval) (*astate, aval) {
	f := b.P.Func("indexedhashes3", "newOverflowFiles")
	if f == nil {
		return st, c.m.unknownVal(st, types.NewPointer(b.ovf), "ovf")
	}
	for _, o := range c.m.run(f, []aval{aStr{id: "folder"}, p}, nil, st) {
		if !o.panic {
			return o.st, o.rets[0]
		}
	}
	return st, aNil{}
}

func (b *binIndex) bins() {
	P := b.P
	for _, sh := range []struct{ bits, sn int64 }{{8, 1}, {16, 5}, {24, 5}, {32, 8}, {33, 6}, {40, 2}, {20, 3}, {32, 4}} {
		for count := int64(0); count <= 5; count++ {
			tails := []int64{0}
			if count > 0 {
				tails = []int64{0, 1, 7, 8, 9, 24, -1}
			}
			for _, z := range tails {
				c := P.codec(b.r, "bin-storage", b.saveBin)
				m := c.m
				m.model = binModel
				st, p := b.mkParams(c, sh.bits, 4, 2, sh.sn)
				if _, bad := p.(aNil); bad {
					continue
				}
				E := b.entrySize(c, st, p)
				if z < 0 {
					z = E - 1
				}
				var ovf aval
				st, ovf = b.mkOverflow(c, st, p)
				file := aOpaque{"starts", nil}
				m.mut2(st, m.fileObj(st, "starts")).unknown = ""
				m.mut2(st, m.fileObj(st, "starts")).n = aconst(4 * 2 * E)
				mkBin := func(st *astate, name string, n int64, zeros func(entry int64) int64) (aval, []ab) {
					id := m.alloc(st, types.NewSlice(byteType), "")
					s := aSlice{obj: id, n: aconst(n * E), cap: aconst(n * E), elem: byteType}
					var bs []ab
					for i := int64(0); i < n*E; i++ {
						e := i / E
						if i%E >= E-zeros(e) && i%E > 0 {
							m.putByte(st, s, aconst(i), ab{})
							bs = append(bs, ab{})
							continue
						}
						v := m.symbol(fmt.Sprintf("%s%d", name, i), 1, 255)
						m.putByte(st, s, aconst(i), ab{sym: v.sym()})
						bs = append(bs, ab{sym: v.sym()})
					}
					bid := m.alloc(st, b.bin, "")
					fld := ""
					if stc, ok := b.bin.Underlying().(*types.Struct); ok {
						for i := 0; i < stc.NumFields(); i++ {
							if _, isSl := stc.Field(i).Type().Underlying().(*types.Slice); isSl {
								fld = fmt.Sprint(i)
							}
						}
					}
					m.writeCell(st, bid, fld, alin{}, false, s)
					return aAgg{m.snapshot(st, bid)}, bs
				}
				at := func(v int64) aval { return aInt{aconst(v), basicOf(b.saveBin.Params[0].Type())} }
				tail := func(e int64) int64 {
					if e == count-1 || e == 1 {
						return z
					}
					return 0
				}
				tag := fmt.Sprintf(" (%d entries of %d bytes, room for 2 in the bin start, last entry ending in %d zero bytes)", count, E, z)
				save := func(states []*astate, bn int64, name string, n int64, zeros func(int64) int64) ([]*astate, []ab) {
					var out []*astate
					var want []ab
					for _, s := range states {
						v, bs := mkBin(s, name, n, zeros)
						want = bs
						for _, o := range m.run(b.saveBin, b.callArgs(b.saveBin, map[string]aval{"binNum": at(bn), "bin": v, "File": file, "overflowFiles": ovf, "HashIndexingParams": p}), nil, s) {
							if !succeeded(o) {
								c.about(b.saveBin).oblig(!o.panic && ioFailed(o), "saving", "saving a bin fails without a file failing"+tag)
								continue
							}
							out = append(out, o.st)
						}
					}
					return out, want
				}
				none := func(int64) int64 { return 0 }
				states := []*astate{st}
				if count > 1 {
					// the same bin was smaller before
					states, _ = save(states, 1, "old", count-1, none)
				}
				states, want := save(states, 1, "e", count, tail)
				var w0, w2 []ab
				states, w0 = save(states, 0, "f", 3, none)
				states, w2 = save(states, 2, "g", 2, none)
				c.about(b.saveBin).oblig(len(states) > 0, "saving", "no path saves the bins"+tag)
				for _, s := range states {
					b.r.count("bins saved and loaded", 1)
					for bn, w := range [][]ab{w0, want, w2, {}} {
						n := 0
						for _, l := range m.run(b.loadBin, b.callArgs(b.loadBin, map[string]aval{"binNum": at(int64(bn)), "File": file, "overflowFiles": ovf, "HashIndexingParams": p}), nil, s.clone()) {
							c.about(b.loadBin)
							if !succeeded(l) {
								c.oblig(!l.panic && ioFailed(l), "loading", "loading a saved bin fails without a file failing"+tag)
								continue
							}
							n++
							got, ok := m.binBytes(l.st, l.rets[0], b.bin)
							c.oblig(ok && (len(got) == 0 && len(w) == 0 || m.sameBytes(l.st, got, w)), "bin contents", fmt.Sprintf("bin %d does not hold what was saved to it%s", bn, tag))
						}
						c.about(b.loadBin).oblig(n > 0, "loading", "no path loads the bin"+tag)
					}
					// all of them, in sequence
					sc := s.clone()
					m.writeCell(sc, m.fileObj(sc, "starts#pos"), "v", alin{}, false, aInt{aconst(0), types.Typ[types.Int64]})
					n := 0
					for _, l := range m.run(b.all, b.callArgs(b.all, map[string]aval{"File": file, "overflowFiles": ovf, "HashIndexingParams": p}), nil, sc) {
						c.about(b.all)
						if !succeeded(l) {
							c.oblig(!l.panic && ioFailed(l), "loading all", "loading the saved bins fails without a file failing"+tag)
							continue
						}
						n++
						vs, ok := m.sliceVals(l.st, l.rets[0])
						ok = ok && len(vs) == 4
						for bn, w := range [][]ab{w0, want, w2, {}} {
							if !ok {
								break
							}
							got, good := m.binBytes(l.st, vs[bn], b.bin)
							ok = good && (len(got) == 0 && len(w) == 0 || m.sameBytes(l.st, got, w))
						}
						c.oblig(ok, "all bins", "the bins loaded together are not the bins saved"+tag)
					}
					c.about(b.all).oblig(n > 0, "loading all", "no path loads all bins"+tag)
				}
			}
		}
	}
}

// binBytes: the bytes a bin holds.
func (m *amachine) binBytes(st *astate, v aval, n *types.Named) ([]ab, bool) {
	var id int
	switch a := v.(type) {
	case aAgg:
		id = m.alloc(st, n, "")
		m.restore(st, id, a.o)
	case aPtr:
		if a.cell != "" || a.idx {
			lv := m.load(st, a, n)
			if _, ok := lv.(aAgg); !ok {
				return nil, false
			}
			return m.binBytes(st, lv, n)
		}
		id = a.obj
	default:
		return nil, false
	}
	stc, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < stc.NumFields(); i++ {
		if _, isSl := stc.Field(i).Type().Underlying().(*types.Slice); isSl {
			return m.sliceBytes(st, m.readCell(st, id, fmt.Sprint(i), alin{}, false, stc.Field(i).Type()))
		}
	}
	return nil, false
}

// stores: the hash store from creation to lookup.
func (b *binIndex) stores() {
	P := b.P
	mk := P.Func("indexedhashes3", "NewHashStoreCreatorPrivate")
	create, open, openRO := P.Method(b.creator, "CreateHashStore"), P.Method(b.creator, "OpenHashStore"), P.Method(b.creator, "OpenHashStoreReadOnly")
	app, find, get := P.Method(b.store, "AppendHash"), P.Method(b.store, "IndexOfHash"), P.Method(b.store, "GetHashAtIndex")
	if mk == nil || create == nil || open == nil || openRO == nil || app == nil || find == nil || get == nil {
		b.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "indexedhashes3.hashStore", Msg: "the hash store's operations are gone"})
		return
	}
	hashT := derefType(app.Params[1].Type())
	for _, sh := range []struct{ bits, bins, sn, start int64 }{{16, 256, 8, 1}, {24, 1000000, 6, 2}, {33, 6, 8, 2}, {32, 65536, 6, 1}} {
		c := P.codec(b.r, "store-roundtrip", app)
		m := c.m
		m.maxIter = 9
		m.model = binModel
		tag := fmt.Sprintf(" (%d bits of hash index, %d bins, %d bytes of sort number)", sh.bits, sh.bins, sh.sn)
		st, p := b.mkParams(c, sh.bits, sh.bins, sh.start, sh.sn)
		if _, bad := p.(aNil); bad {
			continue
		}
		b.r.count("stores driven end to end", 1)
		step := func(st *astate, f *ssa.Function, args []aval, what string, then func(o aout)) {
			n := 0
			for _, o := range m.run(f, args, nil, st) {
				if !succeeded(o) {
					c.about(f).oblig(!o.panic && ioFailed(o), what, what+" fails without a file failing"+tag)
					continue
				}
				n++
				then(o)
			}
			c.about(f).oblig(n > 0, what, "no path on which "+what+" succeeds"+tag)
		}
		vals := map[string]aval{"HashIndexingParams": p, "string": aStr{id: "folder"}, "bool": aBool{known: true}}
		step(st, mk, b.callArgs(mk, vals), "making a creator", func(o aout) {
			cr := o.rets[0]
			step(o.st, create, []aval{cr}, "creating a store", func(o aout) {
				// the store already holds C hashes in other bins
				C := m.symbol("C", 0, maxOf((sh.bits+7)/8)-1)
				found := 0
				for id, obj := range o.st.files {
					if strings.HasPrefix(id, "path:") && !strings.HasPrefix(id, "path:\"fd") && strings.Contains(id, "BinNums") {
						w := int64(0)
						for w = 1; maxOf(w) < sh.bins-1; w++ {
						}
						ob := m.mut2(o.st, obj)
						ob.n, ob.unknown, ob.cells = C.times(w), "numbers", map[string]acell{}
						found++
					}
				}
				c.about(create).oblig(found == 1, "bin number file", "creating a store creates its bin number file"+tag)
				for _, ro := range []bool{false, true} {
					step(o.st.clone(), open, []aval{cr}, "opening a store", func(o aout) {
						H := m.symArray(o.st, hashT.Underlying(), "H")
						m.ivs["H8"] = ival{1, 255}
						want := m.arrayBytes(o.st, H, 32)
						hs := unwrapped(o.rets[0])
						box := m.boxed(o.st, H, hashT)
						step(o.st, app, []aval{hs, box}, "appending a hash", func(o aout) {
							c.about(app).oblig(sameInt(m, o.st, o.rets[0], C), "number reported", fmt.Sprintf("appending to a store of C hashes must report C, it reports %v%s", o.rets[0], tag))
							look := func(st *astate, hs aval) {
								step(st.clone(), find, []aval{hs, box}, "looking up a hash", func(l aout) {
									c.about(find).oblig(sameInt(m, l.st, l.rets[0], C), "number found", fmt.Sprintf("the hash appended as number C is found as %v%s", l.rets[0], tag))
								})
								out := m.alloc(st, hashT, "before")
								step(st.clone(), get, []aval{hs, i64(C), aPtr{obj: out}}, "reading a hash", func(l aout) {
									c.about(get).oblig(m.sameBytes(l.st, m.arrayBytes(l.st, aPtr{obj: out}, 32), want), "hash read", "the hash read at the number it was appended as is not the hash appended"+tag)
								})
							}
							if ro {
								// reopened; the bin number file has grown
								for id, obj := range o.st.files {
									if strings.HasPrefix(id, "path:") && strings.Contains(id, "BinNums") {
										w := int64(0)
										for w = 1; maxOf(w) < sh.bins-1; w++ {
										}
										m.mut2(o.st, obj).n = C.add(aconst(1), 1).times(w)
									}
								}
								step(o.st, openRO, []aval{cr}, "opening a store for reading", func(o aout) { look(o.st, unwrapped(o.rets[0])) })
								return
							}
							look(o.st, hs)
						})
					})
				}
			})
		})
	}
}

func unwrapped(v aval) aval {
	if i, ok := v.(aIface); ok {
		return i.v
	}
	return v
}

// binStartSizes: wherever the bin start file is given its size.
func (b *binIndex) binStartSizes() {
	P := b.P
	for _, f := range P.FuncsIn("indexedhashes3") {
		if testHelper(f) {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				site, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if recv, name := libMethod(site, "os.File"); recv == nil || name != "Truncate" {
					continue
				}
				b.r.count("bin start files sized", 1)
				c := P.codec(b.r, "file-size", f)
				c.pos = P.Pos(site.Pos())
				m := c.m
				st, p := b.mkParams(c, 20, 6, 3, 5)
				E := b.entrySize(c, st, p)
				sized := false
				m.model = func(m *amachine, st *astate, s ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
					if s == ssa.CallInstruction(site) {
						sized = true
						c.oblig(sameInt(m, st, args[1], aconst(6*3*E)), "bin start size", fmt.Sprintf("the file of bin starts must have room for every bin (6 bins of 3 entries of %d bytes), it is given %v bytes", E, args[1]))
					}
					return binModel(m, st, s, name, recv, args)
				}
				// every object of the receiver's type carries these parameters
				var args []aval
				for _, q := range f.Params {
					t := derefType(q.Type())
					if t == types.Type(b.params) {
						args = append(args, p)
						continue
					}
					v := m.unknownVal(st, q.Type(), "arg."+q.Name())
					if stc, ok := t.Underlying().(*types.Struct); ok {
						id := m.alloc(st, t, "arg."+q.Name())
						for i := 0; i < stc.NumFields(); i++ {
							if derefType(stc.Field(i).Type()) == types.Type(b.params) {
								m.writeCell(st, id, fmt.Sprint(i), alin{}, false, p)
							}
							if bt := basicOf(stc.Field(i).Type()); bt != nil && bt.Kind() == types.String {
								m.writeCell(st, id, fmt.Sprint(i), alin{}, false, aStr{id: "folder"})
							}
						}
						v = aPtr{obj: id}
					}
					args = append(args, v)
				}
				m.run(f, args, nil, st)
				c.oblig(sized, "bin start size", "the size given to the file of bin starts could not be determined")
			}
		}
	}
}

// reload: wherever parameters are read back from their file.
func (b *binIndex) reload() {
	P := b.P
	stc, ok := b.params.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, f := range P.FuncsIn("indexedhashes3") {
		if testHelper(f) {
			continue
		}
		reads := false
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if site, ok := in.(*ssa.Call); ok && libFunc(site) == "encoding/json.Unmarshal" {
					if mi, ok := site.Call.Args[1].(*ssa.MakeInterface); ok && derefType(mi.X.Type()) == types.Type(b.params) {
						reads = true
					}
				}
			}
		}
		if !reads {
			continue
		}
		b.r.count("parameter files read", 1)
		for _, sh := range [][4]int64{{16, 256, 1, 8}, {24, 1000, 3, 6}, {33, 70000, 2, 5}} {
			c := P.codec(b.r, "params-reload", f)
			m := c.m
			st, p := b.mkParams(c, sh[0], sh[1], sh[2], sh[3])
			orig, isP := p.(aPtr)
			if !isP {
				continue
			}
			loaded := -1
			m.model = func(m *amachine, st *astate, s ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
				if name == "encoding/json.Unmarshal" {
					q, ok := unwrapped(args[1]).(aPtr)
					if !ok {
						return nil, false
					}
					loaded = q.obj
					c2 := st.clone()
					id := m.fresh("ioerr")
					c2.errs[id] = false
					for i := 0; i < stc.NumFields(); i++ {
						if !stc.Field(i).Exported() || strings.Contains(stc.Tag(i), "json:\"-\"") {
							continue
						}
						m.writeCell(st, q.obj, fmt.Sprint(i), alin{}, false, m.readCell(st, orig.obj, fmt.Sprint(i), alin{}, false, stc.Field(i).Type()))
					}
					return []aout{{st: c2, rets: []aval{aErr{id: "!" + id}}}, {st: st, rets: []aval{aErr{}}}}, true
				}
				return binModel(m, st, s, name, recv, args)
			}
			var args []aval
			for _, q := range f.Params {
				if bt := basicOf(q.Type()); bt != nil && bt.Kind() == types.String {
					args = append(args, aStr{id: q.Name()})
					continue
				}
				args = append(args, m.unknownVal(st, q.Type(), "arg."+q.Name()))
			}
			n := 0
			for _, o := range m.run(f, args, nil, st) {
				if !succeeded(o) {
					c.oblig(!o.panic && ioFailed(o), "reading parameters", "reading the parameters back fails without a file failing")
					continue
				}
				if loaded < 0 {
					continue
				}
				n++
				for i := 0; i < stc.NumFields(); i++ {
					x, ok1 := m.intOf(m.readCell(o.st, orig.obj, fmt.Sprint(i), alin{}, false, stc.Field(i).Type()))
					y, ok2 := m.intOf(m.readCell(o.st, loaded, fmt.Sprint(i), alin{}, false, stc.Field(i).Type()))
					c.oblig(ok1 && ok2 && m.same(o.st, x, y), "parameter "+stc.Field(i).Name(), fmt.Sprintf("a store read back has %s %v, it was created with %v", stc.Field(i).Name(), y, x))
				}
			}
			c.oblig(n > 0, "reading parameters", "no path reads the parameters back")
		}
	}
	b.r.floor("parameter files read", 1)
}
