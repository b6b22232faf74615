package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: the capacity of every tier fits the widths of its identifiers. The configuration is interpreted for symbolic
// arguments, the limit of the newest tier is the largest count with which an append can succeed, and the limit of
// every tier below follows from its quota, which a bake is interpreted to keep.

func init() {
	checks["C25"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"top-limit: for every count of hashes, an append to the newest tier that does not refuse leaves at most as many hashes as the largest identifier of the tier below, and one that reaches the limit bakes; opening accepts exactly the counts up to the limit",
			"fits: with the limit of the newest tier and the quotas configured, the hashes of one forest number at most the largest identifier of its tier, both of hashes and of nodes",
			"position: the prefix length of tier t is t, its source has 256^(t-1) trees per forest (1 for the first two), and every tier answers with the index and prefix length of the tier that follows it",
			"quota-kept: a bake that fills a tier bakes that tier into the next, judged by the tier's own quota; a tier with more forests than its quota is not opened",
			"one-source: the widths, quotas and prefix lengths are stored only while the configuration is made",
		}
		c := &capacity{P: P, r: r}
		c.all()
		r.floor("tiers", 4)
		r.floor("appends decided", 3)
		r.floor("bakes interpreted", 5)
		r.floor("openings refused", 1)
		r.floor("stores of the configuration", 16)
		return r
	}
}

type capacity struct {
	P        *Prog
	r        *Result
	topLimit int64
}

func (c *capacity) lost(what string) {
	c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: what, Msg: "the layered store has no " + what + " any more"})
}

func (c *capacity) all() {
	P := c.P
	conf, mkBelow := P.Func("weddingcakeback", "NewCakeConfig"), P.Func("weddingcakeback", "NewTierBelow")
	top, below, tc := P.Named("weddingcakeback", "TierTop"), P.Named("weddingcakeback", "TierBelow"), P.Named("weddingcakeback", "TierBelowConfig")
	if conf == nil || mkBelow == nil || top == nil || below == nil || tc == nil {
		c.lost("weddingcakeback.NewCakeConfig")
		return
	}
	c.append1(top)
	c.open(top)
	c.config(conf, mkBelow, top, below)
	c.sources(conf, tc)
	c.quotas()
}

// append1: one append to the newest tier holding any number of hashes.
func (c *capacity) append1(top *types.Named) {
	P := c.P
	app := P.Method(top, "AppendHash")
	if app == nil {
		c.lost("weddingcakeback.TierTop.AppendHash")
		return
	}
	cd := P.codec(c.r, "top-limit", app)
	m := cd.m
	m.maxIter = 40
	const most = 1 << 40
	m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
		short := name[strings.LastIndex(name, ".")+1:]
		res := site.Common().Signature().Results()
		switch {
		case short == "NewDonutForestWrite":
			return one(st, aPtr{obj: m.alloc(st, derefType(res.At(0).Type()), "")}), true
		case short == "Write" && strings.Contains(name, "weddingcakeback"):
			m.note(st, "baked", "top", site)
			return one(st, aErr{}), true
		case short == "AppendHash" && res.Len() == 2 && !strings.Contains(name, "weddingcakeback"):
			return one(st, i64(aconst(0)), aErr{}), true
		}
		return nil, false
	}
	st := m.newState()
	id := m.alloc(st, top, "tier")
	n := m.symbol("n", 0, most)
	_, sliceT := fieldKeyOf(top, "theSlice")
	if sliceT == nil {
		c.lost("weddingcakeback.TierTop.theSlice")
		return
	}
	hashes := m.alloc(st, sliceT, "hashes")
	st.heap[hashes].n = n
	m.setField(st, id, "theSlice", aSlice{obj: hashes, n: n, cap: n, elem: elemType(sliceT)})
	if _, t := fieldKeyOf(top, "hashesFile"); t != nil {
		m.setField(st, id, "hashesFile", aPtr{obj: m.alloc(st, derefType(t), "file")})
	}
	m.setField(st, id, "firstGlobalPresentationIndex", i64(m.symbol("first", 0, 1<<50)))
	H := m.boxed(st, m.symArray(st, types.NewArray(byteType, 32), "H"), types.NewArray(byteType, 32)).(aPtr)
	h := aSlice{obj: H.obj, n: aconst(32), cap: aconst(32), elem: byteType}
	limit, plain, bakedMin := int64(-1), int64(-1), int64(most)
	for _, o := range m.run(app, []aval{aPtr{obj: id}, h}, nil, st) {
		c.r.count("appends decided", 1)
		if o.panic {
			continue
		}
		v := m.ivOf(o.st, n.add(aconst(1), 1))
		if v.hi > limit {
			limit = v.hi
		}
		baked := false
		for _, w := range o.st.writes {
			baked = baked || strings.HasPrefix(w.file, "!baked ")
		}
		if !baked && succeeded(o) && v.hi > plain {
			plain = v.hi
		}
		if baked && v.lo < bakedMin {
			bakedMin = v.lo
		}
	}
	cd.oblig(limit > 0 && limit < most, "limit", "no limit is found to the hashes of the newest tier")
	cd.oblig(plain < limit, "full and not baked", fmt.Sprintf("an append that leaves %d hashes in the newest tier succeeds without baking it", plain))
	cd.oblig(bakedMin <= limit, "never baked", "no append bakes the newest tier")
	c.topLimit = limit
	c.r.count("limit of the newest tier", int(limit))
}

// open accepts counts up to the limit.
func (c *capacity) open(top *types.Named) {
	P := c.P
	open := P.Method(top, "Open")
	if open == nil {
		c.lost("weddingcakeback.TierTop.Open")
		return
	}
	cd := P.codec(c.r, "top-limit", open)
	m := cd.m
	m.maxIter = 40
	var accepted []ival
	count := m.symbol("count", 0, 1<<30)
	var st0 *astate
	m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
		short := name[strings.LastIndex(name, ".")+1:]
		switch {
		case short == "ReadHashAt":
			accepted = append(accepted, m.ivOf(st, count))
			return nil, true
		case short == "Size" && site.Common().IsInvoke():
			return one(st, i64(count.times(32))), true
		}
		return binModel(m, st, site, name, recv, args)
	}
	st0 = m.newState()
	id := m.alloc(st0, top, "tier")
	conf := P.Func("weddingcakeback", "NewCakeConfig")
	for _, o := range m.run(conf, []aval{aInt{aconst(32), byteType}, aInt{aconst(4), byteType}}, nil, st0) {
		if o.panic {
			continue
		}
		st := o.st
		m.setField(st, id, "config", o.rets[0])
		m.setField(st, id, "folder", aStr{s: "cake", known: true})
		m.run(open, []aval{aPtr{obj: id}, aBool{known: true}}, nil, st)
	}
	hi := int64(-1)
	for _, v := range accepted {
		hi = max(hi, v.hi)
	}
	cd.oblig(hi == c.topLimit, "count opened", fmt.Sprintf("opening accepts up to %d hashes in the newest tier, whose limit is %d", hi, c.topLimit))
}

func (c *capacity) config(conf, mkBelow *ssa.Function, top, below *types.Named) {
	P := c.P
	cd := P.codec(c.r, "fits", conf)
	m := cd.m
	m.maxIter = 300
	d := &driver{P: P, m: m, cd: cd}
	st := m.newState()
	length, reass := m.symbol("hashLength", 0, 255), m.symbol("reassurance", 0, 255)
	var args []aval
	for i := range conf.Params {
		l := length
		if i == 1 {
			l = reass
		}
		args = append(args, aInt{l, byteType})
	}
	d.step(st, conf, args, "making the configuration", func(o aout) {
		st := o.st
		p, ok := o.rets[0].(aPtr)
		if !cd.oblig(ok, "configuration", "the configuration made is unknown") {
			return
		}
		k, ct := fieldKeyOf(st.heap[p.obj].typ, "TierBelowConfigs")
		if k == "" {
			c.lost("weddingcakeback.CakeConfig.TierBelowConfigs")
			return
		}
		cd.rule = "position"
		hl, _ := m.intOf(m.getField(st, p.obj, "HashLength"))
		cd.oblig(m.same(st, hl, length), "HashLength", "the hash length of a configuration is not the one given")
		arr := m.sub(st, p.obj, k, alin{}, ct)
		tiers := ct.Underlying().(*types.Array).Len()
		forest := c.topLimit // hashes of a forest of the tier
		for t := int64(0); t < tiers; t++ {
			c.r.count("tiers", 1)
			off := aconst(t)
			tc := m.sub(st, arr, off.String(), off, elemType(ct))
			num := func(f string) int64 {
				l, ok := m.intOf(m.getField(st, tc, f))
				if !ok || !l.isConst() {
					return -1
				}
				return l.c
			}
			cd.rule = "position"
			cd.oblig(num("PrefixBytesCount") == t, "PrefixBytesCount", fmt.Sprintf("the prefix length of tier %d is %d", t, num("PrefixBytesCount")))
			rb, _ := m.intOf(m.getField(st, tc, "ReassuranceBytesCount"))
			cd.oblig(m.same(st, rb, reass), "ReassuranceBytesCount", fmt.Sprintf("tier %d has not the number of confirming bytes given", t))
			// Five groups of nodes can always be reached by merging
			cd.oblig(num("NodeFormatSpecsPerLevel") >= 5, "NodeFormatSpecsPerLevel", fmt.Sprintf("tier %d allows %d groups of nodes, and cannot be designed", t, num("NodeFormatSpecsPerLevel")))
			cd.rule = "fits"
			quota := num("MaxDonutForests")
			cd.oblig(quota >= 1, "MaxDonutForests", fmt.Sprintf("the quota of tier %d is %d", t, quota))
			for _, f := range []string{"HashIndexIdConfig", "NodeIdConfig"} {
				w := int64(-1)
				if i, ok := m.getField(st, tc, f).(aIface); ok {
					if g := P.methodOfType(i.t, "StorageBytes"); g != nil {
						for _, o := range m.run(g, []aval{i.v}, nil, st.clone()) {
							if l, ok := m.intOf(o.rets[0]); ok && !o.panic && l.isConst() {
								w = l.c
							}
						}
					}
				}
				if cd.oblig(w > 0 && w <= 7, f, fmt.Sprintf("the width of %s of tier %d is unknown", f, t)) {
					most := int64(1)<<(8*w) - 1
					// A level of a tree has at most as many nodes as the tree has hashes
					cd.oblig(forest <= most, f, fmt.Sprintf("a forest of tier %d can receive %d hashes, but %s is of %d bytes, for at most %d", t, forest, f, w, most))
				}
			}
			if quota > 0 {
				forest = mulSat(forest, quota)
			}
		}
		c.neighbours(d, st, p, mkBelow, top, below, tiers)
	})
}

// methodOfType by name, whichever instance of a generic type it is.
func (P *Prog) methodOfType(t types.Type, name string) *ssa.Function {
	n, _ := derefType(t).(*types.Named)
	if n == nil {
		return nil
	}
	return P.SSA.LookupMethod(t, n.Obj().Pkg(), name)
}

// neighbours: what a tier says about the tier that follows.
func (c *capacity) neighbours(d *driver, st *astate, conf aPtr, mkBelow *ssa.Function, top, below *types.Named, tiers int64) {
	P, m, cd := c.P, d.m, d.cd
	cd.rule = "position"
	ask := func(st *astate, n *types.Named, tier aval, name, who string, want int64) {
		f := P.Method(n, name)
		if f == nil {
			c.lost(n.Obj().Name() + "." + name)
			return
		}
		for _, o := range m.run(f, []aval{tier}, nil, st.clone()) {
			if o.panic {
				cd.about(f).oblig(false, name, who+" panics when asked "+name)
				continue
			}
			l, ok := m.intOf(o.rets[0])
			cd.about(f).oblig(ok && l.isConst() && l.c == want, name, fmt.Sprintf("%s answers %s with %v instead of %d", who, name, l, want))
		}
	}
	tt := m.alloc(st, top, "tier")
	m.setField(st, tt, "config", conf)
	if mk := P.Func("weddingcakeback", "NewTierTop"); mk != nil {
		// The configuration of the tier below it, as the constructor sets it
		s2 := st.clone()
		m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
			if strings.HasSuffix(name, ".Open") && len(args) > 0 {
				if p, ok := args[0].(aPtr); ok && typeKey(st.heap[p.obj].typ) == typeKey(top) {
					ask(st, top, p, "GetNextTierIndex", "the newest tier", 0)
					ask(st, top, p, "GetNextTierPrefixBytesCount", "the newest tier", 0)
					ask(st, top, p, "GetIndicesCount", "the newest tier", 1)
					c.r.count("newest tiers", 1)
					return nil, true
				}
			}
			return nil, false
		}
		m.run(mk, []aval{aStr{s: "cake", known: true}, conf, aBool{known: true}}, nil, s2)
		m.model = nil
	}
	c.r.floor("newest tiers", 1)
	for t := int64(0); t < tiers; t++ {
		d.step(st.clone(), mkBelow, []aval{aStr{s: "cake", known: true}, aInt{aconst(t), byteType}, conf}, "making a tier", func(o aout) {
			who := fmt.Sprintf("tier %d", t)
			if t+1 < tiers {
				ask(o.st, below, o.rets[0], "GetNextTierIndex", who, t+1)
				ask(o.st, below, o.rets[0], "GetNextTierPrefixBytesCount", who, t+1)
			}
			ask(o.st, below, o.rets[0], "GetIndicesCount", who, 1<<(8*t))
			c.r.count("tiers asked", 1)
		})
	}
	c.r.floor("tiers asked", 4)
}

// sources of the configuration.
func (c *capacity) sources(conf *ssa.Function, tc *types.Named) {
	for _, f := range c.P.Funcs {
		if testHelper(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeKey(derefType(fa.X.Type())) != typeKey(tc) {
					continue
				}
				c.r.count("stores of the configuration", 1)
				c.r.oblig(rootFn(f) == conf, Finding{Rule: "one-source", Func: fnName(f), Construct: fieldKey(fa.X, fa.Field), Pos: c.P.Pos(s.Pos()), Msg: "the configuration of a tier is changed after it was made"})
			}
		}
	}
}

// quotas: a tier is baked when it has as many forests as its own quota.
func (c *capacity) quotas() {
	b := &bakes{P: c.P, r: c.r, what: "C25"}
	if !b.anchors() {
		return
	}
	for _, k := range []bakeCase{
		{-1, [4]int{1, 0, 0, 0}, 0, false},
		{-1, [4]int{1, 1, 0, 0}, 1, false},
		{-1, [4]int{1, 1, 1, 0}, 2, false},
		{0, [4]int{2, 2, 0, 0}, 1, false},
		{1, [4]int{1, 2, 1, 1}, 1, false},
		{-1, [4]int{2, 0, 0, 0}, 0, true},
	} {
		b.bake(k)
	}
}
