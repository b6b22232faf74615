package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parts of the layout that worlds of a few hashes cannot stretch: ids up to the width they have, places in jump
// tables of every tier and forest, and nodes of groups of any size. All with the quantities symbolic.

// tierConf makes the configuration and hands on the parts of each tier.
func (c *layouts) tierConf(rule string, f *ssa.Function, then func(cd *codec, d *driver, st *astate, conf aPtr, tier int, tc int)) {
	b := c.b
	for tier := 0; tier < 4; tier++ {
		cd := b.P.codec(b.r, rule, f)
		cd.m.maxIter, cd.m.maxSteps = 300, 100000000
		d := &driver{P: b.P, m: cd.m, cd: cd, tag: fmt.Sprintf(" (tier %d)", tier)}
		st := cd.m.newState()
		d.step(st, b.conf, []aval{aInt{aconst(32), byteType}, aInt{aconst(4), byteType}}, "making the configuration", func(o aout) {
			p, ok := o.rets[0].(aPtr)
			k, ct := "", types.Type(nil)
			if ok {
				k, ct = fieldKeyOf(o.st.heap[p.obj].typ, "TierBelowConfigs")
			}
			if !cd.oblig(k != "", "configuration", "the configuration made is unknown") {
				return
			}
			arr := cd.m.sub(o.st, p.obj, k, alin{}, ct)
			off := aconst(int64(tier))
			then(cd, d, o.st, p, tier, cd.m.sub(o.st, arr, off.String(), off, elemType(ct)))
		})
	}
}

// ids: every id that fits is read as it was written, and one that does not is refused.
func (c *layouts) ids() {
	widths := []int64{2, 3, 4, 5}
	c.tierConf("id-width", c.b.conf, func(cd *codec, d *driver, st *astate, conf aPtr, tier int, tc int) {
		m := cd.m
		for _, field := range []string{"NodeIdConfig", "HashIndexIdConfig"} {
			iface := m.getField(st, tc, field)
			size, self := d.method(st, iface, "StorageBytes")
			write, _ := d.method(st, iface, "WriteID")
			read, _ := d.method(st, iface, "ReadID")
			if !cd.oblig(size != nil && write != nil && read != nil, field, "the form of ids is unknown"+d.tag) {
				continue
			}
			w := int64(-1)
			d.step(st.clone(), size, []aval{self}, "the width of an id", func(o aout) {
				if l, ok := m.intOf(o.rets[0]); ok && l.isConst() {
					w = l.c
				}
			})
			if !cd.about(size).oblig(w >= widths[tier], "width", fmt.Sprintf("ids are %d bytes wide%s", w, d.tag)) {
				continue
			}
			limit := int64(1)<<(8*w) - 1
			for hi := w - 1; hi < 8; hi++ {
				// Byte hi is the highest that is not zero
				fits := hi < w
				name := fmt.Sprintf("id.%s.%d", field, hi)
				m.ivs[name] = ival{0, limit}
				id := asymbol(name)
				if !fits {
					var bs [8]ab
					for i := int64(0); i <= hi; i++ {
						s := fmt.Sprintf("%s.%d", name, i)
						m.ivs[s] = ival{0, 255}
						bs[i] = ab{sym: s}
					}
					m.ivs[bs[hi].sym] = ival{1, 127}
					id = m.fromBytes(st, bs)
				}
				c.b.r.count("ids written", 1)
				s2 := st.clone()
				buf := m.sliceOf(s2, byteType, make32()...).(aSlice)
				at := buf
				at.off, at.n, at.cap = buf.off.add(aconst(8), 1), aconst(w), aconst(w)
				for _, o := range m.run(write, []aval{self, at, aInt{id, types.Typ[types.Uint64]}}, nil, s2) {
					if o.panic {
						cd.about(write).oblig(!fits, "id refused", "an id that fits is refused"+d.tag)
						continue
					}
					if !fits {
						cd.about(write).oblig(false, "id cut short", fmt.Sprintf("an id beyond %d bytes is written without a word%s", w, d.tag))
						continue
					}
					for i := int64(0); i < 32; i++ {
						if i < 8 || i >= 8+w {
							bt := m.getByte(o.st, buf, aconst(i))
							cd.about(write).oblig(bt == (ab{}), "id beyond its place", "writing an id changes bytes beside it"+d.tag)
						}
					}
					for _, o2 := range m.run(read, []aval{self, at}, nil, o.st) {
						cd.about(read).oblig(!o2.panic && sameInt(m, o2.st, o2.rets[0], id), "id read", fmt.Sprintf("an id is read back as %v%s", safeRet(o2), d.tag))
					}
				}
			}
		}
	})
}

// jumps: the root of a tree is read where the bake put it: forest by forest, one id for every prefix in order.
func (c *layouts) jumps() {
	b := c.b
	mk := b.P.Func("weddingcakeback", "NewTierBelow")
	find, get := b.P.Method(b.below, "TryIndexOfHash"), b.P.Method(b.below, "GetHashesAtIndex")
	if mk == nil || find == nil || get == nil {
		b.lost("weddingcakeback.NewTierBelow")
		return
	}
	const forests = 3
	c.tierConf("jump-place", find, func(cd *codec, d *driver, st *astate, conf aPtr, tier int, tc int) {
		m := cd.m
		w := int64(0)
		iface := m.getField(st, tc, "NodeIdConfig")
		if size, self := d.method(st, iface, "StorageBytes"); size != nil {
			d.step(st.clone(), size, []aval{self}, "the width of an id", func(o aout) {
				if l, ok := m.intOf(o.rets[0]); ok && l.isConst() {
					w = l.c
				}
			})
		}
		if !cd.oblig(w > 0, "width", "the width of an id is unknown"+d.tag) {
			return
		}
		table := w << (8 * tier)
		jumps := -1
		var reads []alin
		m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
			if name[strings.LastIndex(name, ".")+1:] != "ReadID" {
				return nil, false
			}
			s, ok := args[len(args)-1].(aSlice)
			if !ok || s.obj != jumps {
				return nil, false
			}
			reads = append(reads, s.off)
			return one(st, aInt{aconst(0), types.Typ[types.Uint64]}), true
		}
		d.step(st, mk, []aval{aStr{s: "folder", known: true}, aInt{aconst(int64(tier)), byteType}, conf}, "making the tier", func(o aout) {
			st := o.st
			tb, ok := o.rets[0].(aPtr)
			_, ft := fieldKeyOf(b.below, "DonutForestsInfo")
			_, jt := fieldKeyOf(b.below, "JumpTableMemoryMap")
			if !cd.oblig(ok && ft != nil && jt != nil, "tier", "the parts of a tier are unknown") {
				return
			}
			var infos []aval
			for i := int64(0); i < forests; i++ {
				id := m.alloc(st, elemType(ft), "")
				m.setField(st, id, "FirstGlobalPresentationIndex", i64(aconst(i*5)))
				infos = append(infos, aAgg{m.snapshot(st, id)})
			}
			m.setField(st, tb.obj, "DonutForestsInfo", m.sliceOf(st, elemType(ft), infos...))
			jumps = m.alloc(st, types.NewSlice(byteType), "jumps")
			n := aconst(forests * table)
			st.heap[jumps].n = n
			m.setField(st, tb.obj, "JumpTableMemoryMap", aSlice{obj: jumps, n: n, cap: n, elem: byteType})
			var hash []aval
			prefix := alin{}
			for i := 0; i < 32; i++ {
				s := fmt.Sprintf("hash.%d", i)
				m.ivs[s] = ival{0, 255}
				hash = append(hash, aInt{asymbol(s), byteType})
				if i < tier {
					prefix = prefix.times(256).add(asymbol(s), 1)
				}
			}
			m.ivs["index"] = ival{0, 1<<(8*tier) - 1}
			for _, look := range []struct {
				f     *ssa.Function
				index alin
				args  []aval
			}{
				{find, prefix, []aval{tb, nil}},
				{get, asymbol("index"), []aval{tb, aInt{asymbol("index"), types.Typ[types.Uint64]}, i64(alin{})}},
			} {
				s2 := st.clone()
				if look.args[1] == nil {
					look.args[1] = m.sliceOf(s2, byteType, hash...)
				}
				reads = nil
				b.r.count("jump tables read", 1)
				outs := m.run(look.f, look.args, nil, s2)
				cd.about(look.f).oblig(len(outs) == 1 && !outs[0].panic, "jump table", fmt.Sprintf("reading the jump tables of %d forests has %d outcomes%s", forests, len(outs), d.tag))
				if len(outs) != 1 || outs[0].panic {
					continue
				}
				cd.oblig(len(reads) == forests, "jump tables", fmt.Sprintf("%d roots are read, of %d forests%s", len(reads), forests, d.tag))
				for f, at := range reads {
					want := look.index.times(w).add(aconst(int64(f)*table), 1)
					cd.oblig(m.same(outs[0].st, at, want), "place in the jump table", fmt.Sprintf("the root in forest %d is read at %v instead of %v%s", f, at, want, d.tag))
				}
			}
		})
	})
}

// nodes: a node is found at its place in its group, whatever the sizes of the groups.
func (c *layouts) nodes() {
	b := c.b
	lt := b.P.Named("weddingcakeback", "DonutForestLevelSlices")
	var f *ssa.Function
	if lt != nil {
		f = b.P.Method(lt, "ExtractNode")
	}
	if f == nil {
		b.lost("weddingcakeback.DonutForestLevelSlices.ExtractNode")
		return
	}
	nodeT := derefType(f.Params[2].Type())
	c.tierConf("node-place", f, func(cd *codec, d *driver, st *astate, conf aPtr, tier int, tc int) {
		m := cd.m
		k, it := fieldKeyOf(st.heap[tc].typ, "NodeIdConfig")
		w := int64(0)
		iface := m.getField(st, tc, "NodeIdConfig")
		if size, self := d.method(st, iface, "StorageBytes"); size != nil {
			d.step(st.clone(), size, []aval{self}, "the width of an id", func(o aout) {
				if l, ok := m.intOf(o.rets[0]); ok && l.isConst() {
					w = l.c
				}
			})
		}
		if !cd.oblig(k != "" && it != nil && w > 0, "width", "the width of an id is unknown"+d.tag) {
			return
		}
		sizes := []int64{9, 0x1234, 17}
		specs := []int64{9, 0x1234, 0x03000011}
		var bytes []aval
		bytes = append(bytes, numBytes(int64(len(sizes)), 2)...)
		var counts []alin
		for g := range sizes {
			s := fmt.Sprintf("count.%d", g)
			m.ivs[s] = ival{1, 1<<(8*w-2) - 1}
			counts = append(counts, asymbol(s))
			bs := m.bytesOf(st, asymbol(s))
			for i := int64(0); i < w; i++ {
				bytes = append(bytes, aInt{m.fromBytes(st, [8]ab{bs[i]}), byteType})
			}
			bytes = append(bytes, numBytes(specs[g], 4)...)
		}
		first, offset := aconst(1), alin{}
		for g := 0; g <= len(sizes); g++ {
			s2 := st.clone()
			ls := m.alloc(s2, lt, "")
			m.setField(s2, ls, "IndexBytes", m.sliceOf(s2, byteType, bytes...))
			nb := m.alloc(s2, types.NewSlice(byteType), "nodes")
			n := aconst(1 << 60)
			s2.heap[nb].n = n
			m.setField(s2, ls, "NodesBytes", aSlice{obj: nb, n: n, cap: n, elem: byteType})
			// The k-th node of the group, or one beyond all groups
			m.ivs["k"] = ival{0, 1<<(8*w-2) - 2}
			id := first.add(asymbol("k"), 1)
			if g < len(sizes) {
				m.refine(s2, token.LSS, asymbol("k").add(counts[g], -1))
			}
			target := m.alloc(s2, nodeT, "")
			conf := m.boxed(s2, iface, it)
			b.r.count("nodes placed", 1)
			n0 := 0
			for _, o := range m.run(f, []aval{aPtr{obj: ls}, aInt{id, types.Typ[types.Uint64]}, aPtr{obj: target}, conf}, nil, s2) {
				if o.panic {
					cd.oblig(false, "node", "finding a node panics"+d.tag)
					continue
				}
				n0++
				fb, _ := o.rets[0].(aBool)
				cd.oblig(fb.known && fb.val == (g < len(sizes)), "node found", fmt.Sprintf("a node of group %d of %d is said to be there: %v%s", g, len(sizes), fb, d.tag))
				if g < len(sizes) && fb.val {
					s, ok := m.getField(o.st, target, "nodeBytes").(aSlice)
					want := offset.add(asymbol("k").times(sizes[g]), 1)
					cd.oblig(ok && s.obj == nb && m.same(o.st, s.off, want) && m.same(o.st, s.n, aconst(sizes[g])), "node", fmt.Sprintf("a node of group %d is read at %v, %v long, instead of %v%s", g, s.off, s.n, want, d.tag))
					sp, _ := m.intOf(m.getField(o.st, target, "formatSpecBytes"))
					cd.oblig(m.same(o.st, sp, aconst(specs[g])), "node format", fmt.Sprintf("a node of group %d has the format %v%s", g, sp, d.tag))
				}
			}
			cd.oblig(n0 > 0, "node", "no path finds a node"+d.tag)
			if g < len(sizes) {
				first = first.add(counts[g], 1)
				offset = offset.add(counts[g].times(sizes[g]), 1)
			}
		}
	})
}

// groups: the ids a design gives out start, group by group, after all the nodes of the groups before.
func (c *layouts) groups() {
	b := c.b
	f := b.P.Method(b.design, "InitializeNodeIdAllocations")
	give := b.P.Method(b.design, "AllocateIdAndSpecForNode")
	if f == nil || give == nil {
		b.lost("weddingcakeback.BakingDesign.InitializeNodeIdAllocations")
		return
	}
	cd := b.P.codec(b.r, "id-allocation", f)
	m := cd.m
	m.maxIter, m.maxSteps = 300, 100000000
	st := m.newState()
	_, lt := fieldKeyOf(b.design, "LevelSpecs")
	et := elemType(lt)
	_, gt := fieldKeyOf(et, "Groups")
	ranges := [][2]int64{{2, 5}, {0, 1}, {5, 6}, {6, 257}}
	var ls []aval
	var counts []alin
	for l := 0; l < 2; l++ {
		var gs []aval
		for g, r := range ranges {
			id := m.alloc(st, elemType(gt), "")
			s := fmt.Sprintf("count.%d", g)
			m.ivs[s] = ival{2, 1 << 56}
			if l == 0 {
				counts = append(counts, asymbol(s))
			}
			m.setField(st, id, "NodesCount", aInt{asymbol(s), types.Typ[types.Uint64]})
			m.setField(st, id, "StartSlotsCount", i64(aconst(r[0])))
			m.setField(st, id, "EndSlotsCount", i64(aconst(r[1])))
			sk, spt := fieldKeyOf(elemType(gt), "Spec")
			if sk == "" {
				b.lost("weddingcakeback.NodeFormatGroup.Spec")
				return
			}
			sp := m.sub(st, id, sk, alin{}, spt)
			m.setField(st, sp, "SlotsCapacity", aInt{aconst(100 + int64(g)), types.Typ[types.Uint16]})
			gs = append(gs, aAgg{m.snapshot(st, id)})
		}
		id := m.alloc(st, et, "")
		m.setField(st, id, "Groups", m.sliceOf(st, elemType(gt), gs...))
		ls = append(ls, aAgg{m.snapshot(st, id)})
	}
	id := m.alloc(st, b.design, "")
	m.setField(st, id, "LevelSpecs", m.sliceOf(st, et, ls...))
	d := &driver{P: b.P, m: m, cd: cd}
	d.step(st, f, []aval{aPtr{obj: id}}, "giving out ids", func(o aout) {
		first := aconst(1)
		for g, r := range ranges {
			for _, slots := range []int64{r[0], r[1] - 1} {
				for _, o1 := range m.run(give, []aval{aPtr{obj: id}, aInt{aconst(1), byteType}, i64(aconst(slots))}, nil, o.st.clone()) {
					for n, o2 := range append([]aout{o1}, m.run(give, []aval{aPtr{obj: id}, aInt{aconst(1), byteType}, i64(aconst(slots))}, nil, o1.st.clone())...) {
						b.r.count("ids given out", 1)
						ok := !o2.panic && len(o2.rets) == 2 && sameInt(m, o2.st, o2.rets[0], first.add(aconst(int64(n)), 1))
						cd.about(give).oblig(ok, "id", fmt.Sprintf("node %d of group %d gets the id %v instead of %v", n, g, safeRet(o2), first.add(aconst(int64(n)), 1)))
						if a, is := secondRet(o2).(aAgg); is {
							k := m.alloc(o2.st, a.o.typ, "")
							m.restore(o2.st, k, a.o)
							cd.oblig(sameInt(m, o2.st, m.getField(o2.st, k, "SlotsCapacity"), aconst(100+int64(g))), "format", fmt.Sprintf("a node of %d slots gets a format not its own", slots))
						}
					}
				}
			}
			first = first.add(counts[g], 1)
		}
	})
}

func secondRet(o aout) aval {
	if o.panic || len(o.rets) < 2 {
		return nil
	}
	return o.rets[1]
}
