package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared by the checks of the tiers of the cake store: objects of its types, and models of the parts around the
// function interpreted.

// fieldKeyOf: the cell key of a field by name ("" when it is gone).
func fieldKeyOf(t types.Type, name string) (string, types.Type) {
	s, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fmt.Sprint(i), s.Field(i).Type()
		}
	}
	return "", nil
}

// setField of an object to a value.
func (m *amachine) setField(st *astate, obj int, name string, v aval) bool {
	k, t := fieldKeyOf(st.heap[obj].typ, name)
	if k == "" {
		return false
	}
	if id := m.sub(st, obj, k, alin{}, t); aggregate(t) {
		if a, ok := v.(aAgg); ok {
			m.restore(st, id, a.o)
			return true
		}
		return false
	}
	m.writeCell(st, obj, k, alin{}, false, v)
	return true
}

func (m *amachine) getField(st *astate, obj int, name string) aval {
	k, t := fieldKeyOf(st.heap[obj].typ, name)
	if k == "" {
		return nil
	}
	return m.readCell(st, obj, k, alin{}, false, t)
}

// sliceOf values.
func (m *amachine) sliceOf(st *astate, elem types.Type, vs ...aval) aval {
	id := m.alloc(st, types.NewSlice(elem), "")
	n := aconst(int64(len(vs)))
	st.heap[id].n = n
	s := aSlice{obj: id, n: n, cap: n, elem: elem}
	for i, v := range vs {
		off := aconst(int64(i))
		if aggregate(elem) {
			if a, ok := v.(aAgg); ok {
				m.restore(st, m.sub(st, id, off.String(), off, elem), a.o)
			}
			continue
		}
		m.writeCell(st, id, off.String(), off, true, v)
	}
	return s
}

// tiersInOrder: the number the cake gives for a hash is the oldest.
func (c *firstWins) cake() {
	P := c.P
	n := P.Named("weddingcakefront", "Cake")
	var find *ssa.Function
	if n != nil {
		find = P.Method(n, "IndexOfHash")
	}
	if find == nil {
		c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "weddingcakefront.Cake.IndexOfHash", Msg: "gone"})
		return
	}
	cd := P.codec(c.r, "first-wins", find)
	for combo := 0; combo < 16; combo++ {
		m := newMachine(P)
		cd.m = m
		m.maxIter = 10
		st := m.newState()
		id := m.alloc(st, n, "")
		_, tt := fieldKeyOf(n, "tierReader")
		if tt == nil {
			cd.oblig(false, "tiers", "the cake's first tier is unknown")
			return
		}
		tier := func(i int) aval { return aIface{aOpaque{fmt.Sprint("tier", i), tt}, types.Typ[types.Int]} }
		// Tiers 0..3, of which bit i says whether tier i has the hash
		m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
			r, ok := unwrapOpaque(recv)
			if !ok || !strings.HasPrefix(r.id, "tier") {
				return nil, false
			}
			i := int(r.id[4] - '0')
			switch name {
			case "TryIndexOfHash":
				bad := st.clone()
				id := m.fresh("ioerr")
				bad.errs[id] = false
				num := aInt{aconst(-1), int64Type.Underlying().(*types.Basic)}
				outs := []aout{{st: bad, rets: []aval{num, aBool{known: true}, aErr{id: "!" + id}}}}
				found := combo>>i&1 == 1
				if found {
					num.l = aconst(int64(40 - 10*i))
				}
				return append(outs, aout{st: st, rets: []aval{num, aBool{known: true, val: found}, aErr{}}}), true
			case "GetNextTier":
				if i == 3 {
					return one(st, aNil{}), true
				}
				return one(st, tier(i+1)), true
			}
			return nil, false
		}
		m.setField(st, id, "tierReader", tier(0))
		want := int64(-1)
		for i := 0; i < 4; i++ {
			if combo>>i&1 == 1 {
				want = int64(40 - 10*i)
			}
		}
		h := m.boxed(st, m.symArray(st, derefType(find.Params[1].Type()), "H"), derefType(find.Params[1].Type()))
		okPaths := 0
		for _, o := range m.run(find, []aval{aPtr{obj: id}, h}, nil, st) {
			if o.panic || !succeeded(o) {
				cd.oblig(!o.panic && ioFailed(o), "lookup fails", "a lookup fails though every tier answered")
				continue
			}
			okPaths++
			cd.oblig(sameInt(m, o.st, o.rets[0], aconst(want)), "number found", fmt.Sprintf("with a hash held by the tiers %04b (the lowest bit is the newest tier) the number found is %v, not the oldest, %d", combo, o.rets[0], want))
		}
		cd.oblig(okPaths > 0, "lookup", "no path on which the lookup succeeds")
	}
	c.r.count("orders of tiers", 1)
}

// hashPair: hashes that differ in their first byte.
func (m *amachine) constHash(st *astate, t types.Type, first int64, name string) aval {
	H := m.symArray(st, t, name).(aAgg)
	off := aconst(0)
	H.o.cells[off.String()] = acell{off, aInt{aconst(first), byteType}}
	return H
}

// handedOn: what a tier hands on for baking holds every hash once, under its oldest number (counted from 1).
func (c *firstWins) handedOn(d *driver, st *astate, f *ssa.Function, args []aval, want map[int64][]ab) {
	m := d.m
	n := 0
	for _, o := range m.run(f, args, nil, st) {
		if o.panic {
			d.cd.about(f).oblig(ioFailed(o), "hashes handed on", "a panic though no file failed"+d.tag)
			continue
		}
		n++
		vs, ok := m.sliceVals(o.st, o.rets[0])
		if !d.cd.about(f).oblig(ok && len(vs) == len(want), "hashes handed on", fmt.Sprintf("%d hashes are handed on for baking, of which %d are different%s", len(vs), len(want), d.tag)) {
			continue
		}
		for _, v := range vs {
			a, ok := v.(aAgg)
			if !ok {
				d.cd.oblig(false, "hashes handed on", "the hashes handed on are unknown"+d.tag)
				continue
			}
			id := m.alloc(o.st, a.o.typ, "")
			m.restore(o.st, id, a.o)
			num, _ := m.intOf(m.getField(o.st, id, "PresentationIndex"))
			bs, known := m.sliceBytes(o.st, m.getField(o.st, id, "Hash"))
			exp, mine := want[num.c]
			d.cd.oblig(num.isConst() && mine && known && m.sameBytes(o.st, bs, exp), "hashes handed on", fmt.Sprintf("a hash is handed on under the number %v, which is not where it came first%s", num, d.tag))
		}
	}
	d.cd.about(f).oblig(n > 0, "hashes handed on", "no path hands on the hashes"+d.tag)
}

// forests: the tiers below the newest look through their forests oldest first, and confirm what they find.
func (c *firstWins) forests() {
	P := c.P
	below := P.Named("weddingcakeback", "TierBelow")
	conf := P.Func("weddingcakeback", "NewCakeConfig")
	mk := P.Func("weddingcakeback", "NewTierBelow")
	var find, get *ssa.Function
	if below != nil {
		find, get = P.Method(below, "TryIndexOfHash"), P.Method(below, "GetHashesAtIndex")
	}
	if conf == nil || mk == nil || find == nil || get == nil {
		c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "weddingcakeback.TierBelow", Msg: "gone"})
		return
	}
	hashT := types.NewArray(byteType, 32)
	u64 := types.Typ[types.Uint64]
	// Hashes in the file of the tier, from number 10: two forests, of 3 and 4 hashes, then a third
	const file = "ABACBAD"
	firsts := []int64{10, 13}
	for _, tier := range []int64{0, 1, 2} {
		for held := 0; held < 4; held++ {
			cd := P.codec(c.r, "first-wins", find)
			m := cd.m
			m.maxIter = 300
			d := &driver{P: P, m: m, cd: cd, tag: fmt.Sprintf(" (tier %d)", tier)}
			st := m.newState()
			hashes := map[byte]aval{}
			for i, ch := range "ABCD" {
				hashes[byte(ch)] = m.constHash(st, hashT, int64(i+1), string(ch))
			}
			// Forest f yields the candidate cand[f] (a number within the forest from 1, 0 for none) for the hash looked up:
			// its hash number, when held bit f is set
			look := byte('B')
			cand := map[int]int64{}
			want := int64(-1)
			for f := range firsts {
				if held>>f&1 == 1 {
					cand[f] = []int64{2, 2}[f]
					if want < 0 {
						want = firsts[f] + cand[f] - 1
					}
				} else if f == 0 {
					cand[f] = 3 // A: a hash of which only the bytes compared agree
				}
			}
			m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
				name = name[strings.LastIndex(name, ".")+1:]
				switch name {
				case "ReadID":
					// The jump table leads somewhere
					return one(st, aInt{aconst(1), types.Typ[types.Uint64]}), true
				case "recurseLookupHash", "recurseVisitEveryLeaf":
					f := -1
					for _, a := range args {
						if p, ok := a.(aPtr); ok && strings.HasSuffix(types.TypeString(st.heap[p.obj].typ, nil), "DonutForestInfo") {
							if l, ok := m.intOf(m.getField(st, p.obj, "FirstGlobalPresentationIndex")); ok && l.isConst() {
								for i, x := range firsts {
									if x == l.c {
										f = i
									}
								}
							}
						}
					}
					if f < 0 {
						return nil, false
					}
					idT := site.Common().Signature().Results()
					if name == "recurseLookupHash" {
						return one(st, aInt{aconst(cand[f]), basicOf(idT.At(0).Type())}), true
					}
					fn, ok := args[len(args)-1].(aFn)
					if !ok {
						return nil, false
					}
					outs := []*astate{st}
					// The leaves come in any order
					for _, k := range [][]int64{{2, 1}, {3, 1, 4, 2}}[f] {
						var next []*astate
						for _, s := range outs {
							for _, o := range m.run(fn.fn, []aval{aInt{aconst(k), u64}}, fn.bind, s) {
								if !o.panic {
									next = append(next, o.st)
								}
							}
						}
						outs = next
					}
					var res []aout
					for _, s := range outs {
						res = append(res, aout{st: s})
					}
					return res, true
				case "ReadHashAt":
					l, ok := m.intOf(args[len(args)-1])
					if !ok || !l.isConst() || l.c < 0 || l.c >= int64(len(file)) {
						return []aout{{st: st, panic: true}}, true
					}
					return one(st, hashes[file[l.c]], aErr{}), true
				case "CountHashes":
					return one(st, i64(aconst(int64(len(file))))), true
				}
				return nil, false
			}
			d.step(st, conf, []aval{aInt{aconst(32), byteType}, aInt{aconst(4), byteType}}, "making the configuration", func(o aout) {
				d.step(o.st, mk, []aval{aStr{s: "folder", known: true}, aInt{aconst(tier), byteType}, o.rets[0]}, "making the tier", func(o aout) {
					st := o.st
					tb, ok := o.rets[0].(aPtr)
					if !cd.oblig(ok, "tier", "the tier made is unknown") {
						return
					}
					_, ft := fieldKeyOf(below, "DonutForestsInfo")
					_, jt := fieldKeyOf(below, "JumpTableMemoryMap")
					_, ht := fieldKeyOf(below, "hashesFile")
					if ft == nil || jt == nil || ht == nil {
						cd.oblig(false, "tier", "the parts of a tier are unknown")
						return
					}
					infoT := elemType(ft)
					var infos []aval
					for _, x := range firsts {
						id := m.alloc(st, infoT, "")
						m.setField(st, id, "FirstGlobalPresentationIndex", i64(aconst(x)))
						infos = append(infos, aAgg{m.snapshot(st, id)})
					}
					m.setField(st, tb.obj, "DonutForestsInfo", m.sliceOf(st, infoT, infos...))
					id := m.alloc(st, types.NewSlice(byteType), "jumps")
					n := aconst(1 << 30)
					st.heap[id].n = n
					m.setField(st, tb.obj, "JumpTableMemoryMap", aSlice{obj: id, n: n, cap: n, elem: byteType})
					m.setField(st, tb.obj, "hashesFile", aPtr{obj: m.alloc(st, derefType(ht), "hashes")})
					box := m.boxed(st, hashes[look], hashT).(aPtr)
					h := aSlice{obj: box.obj, n: aconst(32), cap: aconst(32), elem: byteType}
					n0 := 0
					for _, o := range m.run(find, []aval{tb, h}, nil, st.clone()) {
						if o.panic || !succeeded(o) {
							cd.about(find).oblig(!o.panic && ioFailed(o), "lookup fails", "a lookup fails though nothing read failed"+d.tag)
							continue
						}
						n0++
						f, _ := o.rets[1].(aBool)
						cd.about(find).oblig(f.known && f.val == (want >= 0), "found", fmt.Sprintf("a hash in forests %02b of a tier (the lowest bit is the oldest) is said to be found: %v%s", held, f.val, d.tag))
						if want >= 0 {
							cd.oblig(sameInt(m, o.st, o.rets[0], aconst(want)), "number found", fmt.Sprintf("a hash in forests %02b of a tier (the lowest bit is the oldest) is found at %v, not at its oldest number %d%s", held, o.rets[0], want, d.tag))
						}
					}
					cd.about(find).oblig(n0 > 0, "lookup", "no path on which the lookup succeeds"+d.tag)
					if held == 0 {
						want := map[int64][]ab{}
						for _, ch := range "ABCD" {
							want[int64(10+strings.IndexRune(file, ch)+1)] = m.arrayBytes(st, m.boxed(st, hashes[byte(ch)], hashT), 32)
						}
						c.handedOn(d, st, get, []aval{tb, aInt{alin{}, u64}, i64(aconst(firsts[0]))}, want)
					}
				})
			})
		}
	}
	c.r.count("forest lookups", 1)
}
