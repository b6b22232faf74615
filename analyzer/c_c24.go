package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: the files of the layered store are read as they were written. C23: the numbers of hashes survive every move.
// Both interpret whole stores: hashes are baked tier by tier in a closed world of files, with the number of the first
// hash symbolic, and asked for again through the tiers as they are left and as they are opened afresh.

// cakeWorld is one store under interpretation. A hash has four given bytes and a given last byte; the others are
// symbolic, as is the number of the first hash.
type cakeWorld struct {
	b      *bakes
	d      *driver
	m      *amachine
	cd     *codec
	first  alin
	hashes [][]aval
	conf   aPtr
	trees  int64 // trees per forest of a source tier, when not what the tier says
}

type hashBytes [4]int64

func (b *bakes) world(rule, tag string, quotas [4]int64, then func(w *cakeWorld, st *astate)) {
	cd := b.P.codec(b.r, rule, b.write)
	m := cd.m
	m.maxIter, m.maxSteps, m.closed = 3000, 1000000000, true
	w := &cakeWorld{b: b, m: m, cd: cd, d: &driver{P: b.P, m: m, cd: cd, tag: " (" + tag + ")"}}
	m.model = w.model
	w.first = m.symbol("first", 0, 1<<40)
	st := m.newState()
	b.r.count("stores interpreted", 1)
	w.d.step(st, b.conf, []aval{aInt{aconst(32), byteType}, aInt{aconst(4), byteType}}, "making the configuration", func(o aout) {
		p, ok := o.rets[0].(aPtr)
		if !cd.oblig(ok, "configuration", "the configuration made is unknown") {
			return
		}
		w.conf = p
		k, ct := fieldKeyOf(o.st.heap[p.obj].typ, "TierBelowConfigs")
		if k == "" {
			b.lost("weddingcakeback.CakeConfig.TierBelowConfigs")
			return
		}
		arr := m.sub(o.st, p.obj, k, alin{}, ct)
		for t, q := range quotas {
			off := aconst(int64(t))
			m.setField(o.st, m.sub(o.st, arr, off.String(), off, elemType(ct)), "MaxDonutForests", aInt{aconst(q), byteType})
		}
		then(w, o.st)
	})
}

func (w *cakeWorld) model(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	short := name
	if strings.Contains(name, modulePath+"/weddingcakeback.") {
		short = name[strings.LastIndex(name, ".")+1:]
	}
	switch short {
	case "partitioningEntropy":
		// More for more different bytes; none when all are the same
		s, ok1 := args[0].(aSlice)
		at, ok2 := m.intOf(args[1])
		if !ok1 || !ok2 || !at.isConst() || !s.n.isConst() {
			return nil, false
		}
		seen := map[string]bool{}
		for i := int64(0); i < s.n.c; i++ {
			off := s.off.add(aconst(i), 1)
			h, ok := m.getField(st, m.sub(st, s.obj, off.String(), off, s.elem), "Hash").(aSlice)
			if !ok {
				return nil, false
			}
			o := h.off.add(at, 1)
			l, _ := m.intOf(m.readCell(st, h.obj, o.String(), o, true, byteType))
			if !l.isConst() {
				seen = map[string]bool{"": true}
				break
			}
			seen[l.String()] = true
		}
		return one(st, aInt{aconst(int64(len(seen) - 1)), types.Typ[types.Float64]}), true
	case "GetIndicesCount":
		v := recv
		if v == nil && len(args) > 0 {
			v = args[0]
		}
		p, ok := unwrapped(v).(aPtr)
		if !ok || p.cell != "" {
			return nil, false
		}
		if t, ok := m.intOf(m.getField(st, p.obj, "TierIndex")); ok && w.trees > 0 && t.isConst() && t.c > 0 {
			return one(st, aInt{aconst(w.trees), types.Typ[types.Uint64]}), true
		}
	}
	before := ioFailures(st)
	outs, ok := closedFS(m, st, site, name, recv, args)
	if !ok {
		outs, ok = m.osFileOp(st, site, name, recv, args)
	}
	var keep []aout
	for _, o := range outs {
		if ioFailures(o.st) == before {
			keep = append(keep, o)
		}
	}
	return keep, ok
}

// hash made of given bytes.
func (w *cakeWorld) hash(k hashBytes, last int64, name string) []aval {
	var out []aval
	for i := 0; i < 32; i++ {
		l := aconst(last)
		if i < 4 {
			l = aconst(k[i])
		} else if i < 31 {
			s := fmt.Sprintf("%s.%d", name, i)
			w.m.ivs[s] = ival{0, 255}
			l = asymbol(s)
		}
		out = append(out, aInt{l, byteType})
	}
	return out
}

func (w *cakeWorld) slice(st *astate, h []aval) aval { return w.m.sliceOf(st, byteType, h...) }

// fresh store, whose newest tier holds the hashes.
func (w *cakeWorld) fresh(st *astate, keys []hashBytes) {
	var hs []aval
	for _, k := range keys {
		h := w.hash(k, 7, fmt.Sprint("h", len(w.hashes)))
		w.hashes = append(w.hashes, h)
		hs = append(hs, h...)
	}
	w.m.mkFile(st, "cake/TierTop/Hashes.hsh", hs)
	var bs []aval
	fb := w.m.bytesOf(st, w.first)
	for i := 0; i < 8; i++ {
		bs = append(bs, aInt{w.m.fromBytes(st, [8]ab{fb[i]}), byteType})
	}
	w.m.mkFile(st, "cake/TierTop/FirstPresentationIndex.bin", bs)
}

func (w *cakeWorld) open(st *astate, readOnly bool, then func(st *astate, top aval)) {
	w.d.step(st, w.b.mkTop, []aval{aStr{s: "cake", known: true}, w.conf, aBool{known: true, val: readOnly}}, "opening the tiers", func(o aout) { then(o.st, o.rets[0]) })
}

// bake the newest tier.
func (w *cakeWorld) bake(st *astate, top aval, then func(st *astate)) {
	w.d.step(st, w.b.mkWrite, []aval{aIface{top, types.NewPointer(w.b.top)}, w.conf}, "making the writer", func(o aout) {
		w.d.step(o.st, w.b.write, []aval{o.rets[0], aStr{s: "cake", known: true}}, "baking", func(o aout) {
			w.b.r.count("bakes interpreted", 1)
			w.m.collect(o.st, top, w.conf)
			then(o.st)
		})
	})
}

// append a hash to the newest tier.
func (w *cakeWorld) append1(st *astate, top aval, keys []hashBytes, then func(st *astate)) {
	if len(keys) == 0 {
		then(st)
		return
	}
	app := w.b.P.Method(w.b.top, "AppendHash")
	if app == nil {
		w.b.lost("weddingcakeback.TierTop.AppendHash")
		return
	}
	n := len(w.hashes)
	h := w.hash(keys[0], 7, fmt.Sprint("h", n))
	w.hashes = append(w.hashes, h)
	w.d.step(st, app, []aval{top, w.slice(st, h)}, "appending a hash", func(o aout) {
		w.cd.about(app).oblig(sameInt(w.m, o.st, o.rets[0], w.first.add(aconst(int64(n)), 1)), "number reported", fmt.Sprintf("the hash added as number %d is reported as %v%s", n, o.rets[0], w.d.tag))
		w.append1(o.st, top, keys[1:], then)
	})
}

// ask every tier for every hash, for hashes it has not, and for every number.
func (w *cakeWorld) ask(st *astate, top aval, how string) {
	m, cd := w.m, w.cd
	chain := w.b.chain(m, st, top)
	find := map[bool]*ssa.Function{true: w.b.P.Method(w.b.top, "TryIndexOfHash"), false: w.b.P.Method(w.b.below, "TryIndexOfHash")}
	get := map[bool]*ssa.Function{true: w.b.P.Method(w.b.top, "TryGetHashAtIndex"), false: w.b.P.Method(w.b.below, "TryGetHashAtIndex")}
	if find[true] == nil || find[false] == nil || get[true] == nil || get[false] == nil {
		w.b.lost("TryIndexOfHash")
		return
	}
	tag := ", " + how + w.d.tag
	yes := func(o aout, f *ssa.Function, what string) bool {
		if !succeeded(o) {
			cd.about(f).oblig(false, what, what+" fails though no file failed"+tag)
			return false
		}
		for _, v := range o.rets {
			if b, ok := v.(aBool); ok {
				return cd.about(f).oblig(b.known, what, what+" is undecided"+tag) && b.val
			}
		}
		cd.about(f).oblig(false, what, what+" has no answer"+tag)
		return false
	}
	step := 1 + len(w.hashes)/40
	for i, h := range w.hashes {
		if i%step != 0 && i != len(w.hashes)-1 {
			continue
		}
		holders := 0
		for t, tier := range chain {
			f := find[t == 0]
			s2 := st.clone()
			for _, o := range m.run(f, []aval{tier, w.slice(s2, h)}, nil, s2) {
				w.b.r.count("hashes looked up", 1)
				if yes(o, f, "looking up a hash") {
					holders++
					cd.about(f).oblig(sameInt(m, o.st, o.rets[0], w.first.add(aconst(int64(i)), 1)), "number found", fmt.Sprintf("hash %d of the store is found at %v%s", i, o.rets[0], tag))
				}
			}
		}
		cd.about(w.b.write).oblig(holders == 1, "hash found", fmt.Sprintf("hash %d (of %d, first bytes %v) is found in %d tiers%s", i, len(w.hashes), h[:4], holders, tag))
	}
	// Hashes that are not there: another last byte, and another byte in each of the first places
	if len(w.hashes) > 0 {
		var absent [][]aval
		for _, i := range []int{0, len(w.hashes) / 2, len(w.hashes) - 1} {
			places := []int{0, 1, 31}
			if w.trees > 0 {
				places = []int{3, 31}
			}
			for _, at := range places {
				for _, v := range []int64{0, 254, 255} {
					h := append([]aval{}, w.hashes[i]...)
					h[at] = aInt{aconst(v), byteType}
					known := false
					for _, g := range w.hashes {
						if g[0] == h[0] && g[1] == h[1] && g[2] == h[2] && g[3] == h[3] && g[31] == h[31] {
							known = true
						}
					}
					if !known {
						absent = append(absent, h)
					}
				}
			}
		}
		for _, h := range absent {
			for t, tier := range chain {
				f := find[t == 0]
				s2 := st.clone()
				for _, o := range m.run(f, []aval{tier, w.slice(s2, h)}, nil, s2) {
					w.b.r.count("absent hashes looked up", 1)
					cd.about(f).oblig(!yes(o, f, "looking up a hash"), "absent hash found", fmt.Sprintf("a hash with first bytes %v that was never added is found%s", h[:4], tag))
				}
			}
		}
	}
	for i := -1; i <= len(w.hashes); i++ {
		if i > 0 && i < len(w.hashes)-1 && i%step != 0 {
			continue
		}
		holders := 0
		for t, tier := range chain {
			f := get[t == 0]
			s2 := st.clone()
			out := w.slice(s2, make32()).(aSlice)
			for _, o := range m.run(f, []aval{tier, i64(w.first.add(aconst(int64(i)), 1)), out}, nil, s2) {
				w.b.r.count("numbers asked", 1)
				if yes(o, f, "asking for a number") {
					holders++
					if i >= 0 && i < len(w.hashes) {
						var want []ab
						for _, v := range w.hashes[i] {
							want = append(want, m.bytesOf(st, v.(aInt).l)[0])
						}
						bs, known := m.sliceBytes(o.st, out)
						cd.about(f).oblig(known && m.sameBytes(o.st, bs, want), "hash of a number", fmt.Sprintf("number %d of the store has another hash%s", i, tag))
					}
				}
			}
		}
		want := 1
		if i < 0 || i == len(w.hashes) {
			want = 0
		}
		cd.about(w.b.write).oblig(holders == want, "number held", fmt.Sprintf("number %d of a store of %d hashes is held by %d tiers%s", i, len(w.hashes), holders, tag))
	}
}

func make32() []aval {
	var out []aval
	for i := 0; i < 32; i++ {
		out = append(out, aInt{aconst(0), byteType})
	}
	return out
}

// handOn: what a tier would hand on for baking.
func (w *cakeWorld) handOn(st *astate, top aval, tier int, index int64, how string) {
	m, cd := w.m, w.cd
	chain := w.b.chain(m, st, top)
	for _, v := range chain[1:] {
		p := v.(aPtr)
		ti, _ := m.intOf(m.getField(st, p.obj, "TierIndex"))
		forests, _ := m.getField(st, p.obj, "DonutForestsInfo").(aSlice)
		if ti.c != int64(tier) || forests.obj < 0 || forests.n.isConst() && forests.n.c == 0 {
			continue
		}
		f := w.b.P.Method(w.b.below, "GetHashesAtIndex")
		first := w.b.P.Method(w.b.below, "GetFirstPresentationIndex")
		if f == nil || first == nil {
			w.b.lost("weddingcakeback.TierBelow.GetHashesAtIndex")
			return
		}
		want := map[int]bool{}
		for i, h := range w.hashes {
			n := int64(0)
			for k := 0; k < tier; k++ {
				n = n<<8 + h[k].(aInt).l.c
			}
			// held by this tier?
			s2 := st.clone()
			out := w.slice(s2, make32())
			held := false
			for _, o := range m.run(w.b.P.Method(w.b.below, "TryGetHashAtIndex"), []aval{v, i64(w.first.add(aconst(int64(i)), 1)), out}, nil, s2) {
				b, ok := o.rets[0].(aBool)
				held = held || ok && b.val
			}
			if n == index && held {
				want[i] = true
			}
		}
		got := map[int]bool{}
		for _, o := range m.run(f, []aval{v, aInt{aconst(index), types.Typ[types.Uint64]}, i64(w.first)}, nil, st.clone()) {
			w.b.r.count("hashes handed on", 1)
			vs, ok := m.sliceVals(o.st, safeRet(o))
			if !cd.about(f).oblig(!o.panic && ok, "hashes handed on", "the hashes handed on are unknown, "+how+w.d.tag) {
				continue
			}
			cd.oblig(len(vs) == len(want), "hashes handed on", fmt.Sprintf("%d hashes are handed on, of %d, %s%s", len(vs), len(want), how, w.d.tag))
			for _, x := range vs {
				a, ok := x.(aAgg)
				if !ok {
					continue
				}
				id := m.alloc(o.st, a.o.typ, "")
				m.restore(o.st, id, a.o)
				num, _ := m.intOf(m.getField(o.st, id, "PresentationIndex"))
				bs, known := m.sliceBytes(o.st, m.getField(o.st, id, "Hash"))
				i := num.add(w.first, -1)
				good := i.isConst() && want[int(i.c)-1] && !got[int(i.c)-1] && known
				if good {
					got[int(i.c)-1] = true
					var exp []ab
					for _, v := range w.hashes[i.c-1] {
						exp = append(exp, m.bytesOf(o.st, v.(aInt).l)[0])
					}
					good = m.sameBytes(o.st, bs, exp)
				}
				cd.oblig(good, "hash handed on", fmt.Sprintf("a hash is handed on under the number %v, which is not its own, %s%s", num, how, w.d.tag))
			}
		}
	}
}

func safeRet(o aout) aval {
	if o.panic || len(o.rets) == 0 {
		return nil
	}
	return o.rets[0]
}

// life of a store: the first hashes are baked, then the next, and so on, asking after every bake.
func (w *cakeWorld) life(st *astate, stages [][]hashBytes, look func(st *astate, top aval, stage int)) {
	w.fresh(st, stages[0])
	w.open(st, false, func(st *astate, top aval) {
		var next func(st *astate, i int)
		next = func(st *astate, i int) {
			w.bake(st, top, func(st *astate) {
				how := fmt.Sprintf("after bake %d", i+1)
				look(st, top, i)
				w.ask(st, top, how)
				w.open(st.clone(), true, func(st *astate, top aval) {
					look(st, top, i)
					w.ask(st, top, how+" and opening again")
				})
				if i+1 < len(stages) {
					w.append1(st, top, stages[i+1], func(st *astate) {
						w.ask(st, top, "with new hashes "+how)
						next(st, i+1)
					})
				}
			})
		}
		next(st, 0)
	})
}

func init() {
	checks["C24"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"id-width: every id a tier can have is read as it was written and one beyond the width of its field is refused, for every id (symbolic)",
			"jump-place: a tree's root is read at its forest's table and its prefix's place, for every prefix (symbolic), tier and forest",
			"node-place: a node is read at its place within its group after the groups before it, for every size of group (symbolic)",
			"id-allocation: ids are given to the nodes of a group one after another, after those of the groups before, for every size of group (symbolic)",
			"read-back: every hash baked into the tiers, whatever the formats of its nodes, is found by the tier that was left and by the tiers opened afresh, under its number, and no other hash is; every number yields its hash; every tree hands on its hashes once each",
		}
		r.Assume = []string{"a file operation either does all it is asked or fails (C08, C12)", "the byte of a hash a node examines tells its hashes apart (any such choice of bytes makes a tree)"}
		b := &bakes{P: P, r: r, what: "C24"}
		if !b.anchors() {
			return r
		}
		c := &layouts{b: b}
		c.all()
		r.floor("stores interpreted", 10)
		r.floor("bakes interpreted", 15)
		r.floor("hashes looked up", 1000)
		r.floor("absent hashes looked up", 200)
		r.floor("numbers asked", 1000)
		r.floor("hashes handed on", 30)
		r.floor("ids written", 40)
		r.floor("jump tables read", 8)
		r.floor("nodes placed", 16)
		r.floor("ids given out", 16)
		return r
	}
}

type layouts struct{ b *bakes }

func (c *layouts) all() {
	c.ids()
	c.jumps()
	c.nodes()
	c.groups()
	c.shapes("read-back", false)
}

func fan(n int, f func(i int64) hashBytes) []hashBytes {
	var out []hashBytes
	for i := 0; i < n; i++ {
		out = append(out, f(int64(i)))
	}
	return out
}

// spread is a tree whose root has the children given.
func spread(vals ...int64) []hashBytes {
	var out []hashBytes
	for _, v := range vals {
		out = append(out, hashBytes{v, 1, 1, 1})
	}
	return out
}

// fanOut is a tree whose root has a child for each count given, holding that many hashes.
func fanOut(counts ...int) []hashBytes {
	var out []hashBytes
	for i, n := range counts {
		for j := 0; j < n; j++ {
			out = append(out, hashBytes{int64(i * 3), int64(j * 5), int64(i), 0})
		}
	}
	return out
}

func (c *layouts) shapes(rule string, few bool) {
	plain := [4]int64{9, 9, 9, 9}
	quick := [4]int64{2, 9, 9, 9}
	last := func(n int) []hashBytes { return fan(n, func(i int64) hashBytes { return hashBytes{i, 1, 1, 1} }) }
	_ = quick
	one := func(ks ...hashBytes) []hashBytes { return ks }
	for _, s := range []struct {
		tag    string
		quotas [4]int64
		stages [][]hashBytes
		trees  int64
		index  []int64
	}{
		{tag: "one hash", quotas: plain, stages: [][]hashBytes{{{1, 2, 3, 4}}}},
		{tag: "tiny nodes", quotas: plain, stages: [][]hashBytes{{{1, 2, 0, 0}, {1, 255, 0, 0}, {0, 7, 0, 0}, {255, 7, 0, 0}}}},
		{tag: "five children", quotas: plain, stages: [][]hashBytes{last(5)}},
		{tag: "six children", quotas: plain, stages: [][]hashBytes{last(6)}},
		{tag: "40 children", quotas: plain, stages: [][]hashBytes{last(40)}},
		{tag: "120 children", quotas: plain, stages: [][]hashBytes{last(120)}},
		{tag: "256 children", quotas: plain, stages: [][]hashBytes{last(256)}},
		{tag: "edges of the words of the flags", quotas: plain, stages: [][]hashBytes{spread(0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255)}},
		{tag: "scattered children", quotas: plain, stages: [][]hashBytes{spread(3, 9, 10, 31, 33, 70, 71, 77, 99, 121, 131, 132, 140, 166, 188, 195, 201, 202, 230, 247)}},
		{tag: "the last children of a full node", quotas: plain, stages: [][]hashBytes{fan(250, func(i int64) hashBytes { return hashBytes{i + 6, 1, 1, 1} })}},
		{tag: "merged formats", quotas: plain, stages: [][]hashBytes{fanOut(2, 12, 3, 11, 4, 10, 1, 5, 9, 6, 7, 8)}},
		{tag: "two forests", quotas: plain, stages: [][]hashBytes{fanOut(3, 1, 2), {{200, 1, 0, 0}, {201, 1, 0, 0}, {201, 2, 0, 0}}}},
		{tag: "a tier of 256 trees", quotas: quick, stages: [][]hashBytes{
			one(hashBytes{0, 1, 1, 1}, hashBytes{255, 2, 1, 1}, hashBytes{7, 1, 2, 2}, hashBytes{7, 1, 2, 3}),
			one(hashBytes{7, 9, 2, 2}, hashBytes{255, 3, 3, 1}),
			one(hashBytes{7, 9, 3, 2}, hashBytes{0, 3, 3, 1}),
			one(hashBytes{7, 9, 3, 3}),
			one(hashBytes{7, 8, 3, 3}, hashBytes{255, 255, 3, 3})}, index: []int64{0, 7, 255}},
		{tag: "every tier", quotas: [4]int64{1, 1, 1, 9}, trees: 2, stages: [][]hashBytes{
			one(hashBytes{0, 0, 1, 1}, hashBytes{0, 1, 2, 1}, hashBytes{0, 1, 2, 2}, hashBytes{0, 1, 255, 1}, hashBytes{0, 0, 0, 2})}},
		{tag: "a tier of 65536 trees", quotas: [4]int64{1, 1, 9, 9}, trees: 2, stages: [][]hashBytes{
			one(hashBytes{0, 0, 1, 1}, hashBytes{1, 255, 2, 1}, hashBytes{1, 0, 2, 2}, hashBytes{1, 1, 255, 1}, hashBytes{0, 255, 0, 2}, hashBytes{0, 255, 0, 3})}},
	} {
		if few && len(s.stages) == 1 && len(s.stages[0]) > 10 {
			continue
		}
		c.b.world(rule, s.tag, s.quotas, func(w *cakeWorld, st *astate) {
			w.trees = s.trees
			w.life(st, s.stages, func(st *astate, top aval, stage int) {
				if len(w.hashes) < 100 {
					w.handOn(st, top, 0, 0, "then")
				}
				for _, i := range s.index {
					w.handOn(st, top, 1, i, "then")
				}
			})
		})
	}
}
