package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: the first occurrence of a repeated hash wins.

func init() {
	checks["C22"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"first-wins: interpreting every hash store from its creator (or from a file of hashes with repeats, in one or several passes, for both orders of what a sort finds equal): symbolic hashes A, B, A, A, B (equal in the bytes a partial key is made of) are appended, the store is reopened, and A is appended again; after every step the lookup of A yields 0 and of B 1, appending reports the next number, and every number reads back the hash added under it",
		}
		r.Assume = []string{"files transfer all bytes or fail (C08, C12)"}
		c := &firstWins{P: P, r: r, rule: "first-wins", hist: (*driver).history}
		c.stores()
		c.cake()
		c.forests()
		r.floor("stores driven", 8)
		r.floor("stores made from a file", 11)
		r.floor("orders of tiers", 1)
		return r
	}
}

type firstWins struct {
	P    *Prog
	r    *Result
	rule string
	hist func(d *driver, st *astate, store, cr aval, open, openRO *ssa.Function) // what is done with a store
}

type storeKind struct {
	rel, ctor string
	args      []aval
	tag       string
}

// callArgsByName: the arguments given by parameter name.
func numArg(v int64) aval { return aInt{aconst(v), intType} }

func (c *firstWins) stores() {
	str := func(s string) aval { return aStr{s: s, known: true} }
	big := func(v int64) aval { return i64(aconst(v)) }
	yes, no := aBool{known: true, val: true}, aBool{known: true}
	_ = no
	for _, k := range []storeKind{
		{"indexedhashes", "NewConcreteHashStoreCreatorMemory", []aval{str("name"), str("folder")}, ""},
		{"indexedhashes", "NewConcreteHashStoreCreator", []aval{str("name"), str("folder"), big(8), big(3), big(2), no, yes}, "2 entries per chunk"},
		{"indexedhashes", "NewConcreteHashStoreCreator", []aval{str("name"), str("folder"), big(8), big(3), big(4), no, no}, "4 entries per chunk"},
		{"indexedhashes", "NewConcreteHashStoreCreator", []aval{str("name"), str("folder"), big(8), big(4), big(3), no, yes}, "3 entries per chunk"},
		{"weddingcake", "NewTierZeroCreator", []aval{str("folder")}, ""},
		{"weddingcakefront", "NewCakeCreator", []aval{str("folder"), aInt{aconst(4), byteType}}, ""},
	} {
		c.drive(k)
	}
	c.binStores()
	c.preloaders()
}

// binStores: the store that sorts the hashes into bins.
func (c *firstWins) binStores() {
	P := c.P
	b := &binIndex{P: P, r: c.r, params: P.Named("indexedhashes3", "HashIndexingParams"), newParams: P.Func("indexedhashes3", "NewHashStoreParams"), creator: P.Named("indexedhashes3", "ConcreteHashStoreCreator")}
	mk := P.Func("indexedhashes3", "NewHashStoreCreatorPrivate")
	if b.params == nil || b.newParams == nil || b.creator == nil || mk == nil {
		c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "indexedhashes3.NewHashStoreCreatorPrivate", Msg: "the store's creator is gone"})
		return
	}
	for _, sh := range []struct{ bits, bins, start, sn int64 }{{24, 1000000, 2, 6}, {16, 256, 1, 8}, {32, 65536, 3, 6}} {
		cd := P.codec(c.r, c.rule, mk)
		m := cd.m
		m.maxIter, m.maxSteps = 40, 60000000
		m.model, m.closed = closedFS, true
		st, p := b.mkParams(cd, sh.bits, sh.bins, sh.start, sh.sn)
		if _, bad := p.(aNil); bad {
			continue
		}
		d := &driver{P: P, m: m, cd: cd, tag: fmt.Sprintf(" (%d bins, room for %d in the bin start)", sh.bins, sh.start)}
		vals := map[string]aval{"HashIndexingParams": p, "string": aStr{known: true, s: "folder"}, "bool": aBool{known: true}}
		c.run(d, st, mk, b.callArgs(mk, vals))
	}
}

// drive a store from its creator.
func (c *firstWins) drive(k storeKind) {
	P := c.P
	mk := P.Func(k.rel, k.ctor)
	if mk == nil {
		c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: k.rel + "." + k.ctor, Msg: "the store's creator is gone"})
		return
	}
	cd := P.codec(c.r, c.rule, mk)
	m := cd.m
	m.maxIter, m.maxSteps = 40, 60000000
	m.model, m.closed = closedFS, true
	tag := ""
	if k.tag != "" {
		tag = " (" + k.tag + ")"
	}
	c.run(&driver{P: P, m: m, cd: cd, tag: tag}, m.newState(), mk, k.args)
}

func (c *firstWins) run(d *driver, st *astate, mk *ssa.Function, args []aval) {
	P := c.P
	n, _ := derefType(mk.Signature.Results().At(0).Type()).(*types.Named)
	create, open, openRO := P.Method(n, "CreateHashStore"), P.Method(n, "OpenHashStore"), P.Method(n, "OpenHashStoreReadOnly")
	if create == nil || open == nil || openRO == nil {
		c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: fnName(mk), Msg: "the operations of the creator are gone"})
		return
	}
	c.r.count("stores driven", 1)
	d.step(st, mk, args, "making the creator", func(o aout) {
		cr := o.rets[0]
		d.step(o.st, create, []aval{cr}, "creating the store", func(o aout) {
			d.step(o.st, open, []aval{cr}, "opening the store", func(o aout) {
				c.hist(d, o.st, o.rets[0], cr, open, openRO)
			})
		})
	})
}

type driver struct {
	P   *Prog
	m   *amachine
	cd  *codec
	tag string

	mayPanic  bool          // when a file fails
	hashes    map[byte]aval // by the letters that stand for them
	hashBytes map[byte][]ab
	absent    string // those never added
	top       int64  // the highest byte of the address
	crowd     string // those added that are not looked at
}

func (d *driver) step(st *astate, f *ssa.Function, args []aval, what string, then func(o aout)) {
	n := 0
	for _, o := range d.m.run(f, args, nil, st) {
		if !succeeded(o) {
			d.cd.about(f).oblig((!o.panic || d.mayPanic) && ioFailed(o), what, what+" fails without a file failing"+d.tag)
			continue
		}
		n++
		then(o)
	}
	d.cd.about(f).oblig(n > 0, what, "no path on which "+what+" succeeds"+d.tag)
}

// method of the object an interface value holds.
func (d *driver) method(st *astate, v aval, name string) (*ssa.Function, aval) {
	i, ok := v.(aIface)
	if !ok {
		return nil, nil
	}
	n, _ := derefType(i.t).(*types.Named)
	if n == nil {
		return nil, nil
	}
	if f := d.P.Method(n, name); f != nil && f.Blocks != nil {
		return f, i.v
	}
	return d.P.methodOfType(i.t, name), i.v
}

func (d *driver) history(st *astate, store, cr aval, open, openRO *ssa.Function) {
	m := d.m
	app, _ := d.method(st, store, "AppendHash")
	find, _ := d.method(st, store, "IndexOfHash")
	get, _ := d.method(st, store, "GetHashAtIndex")
	if app == nil || find == nil || get == nil {
		d.cd.oblig(false, "store operations", fmt.Sprintf("the store opened is %T, whose operations are unknown%s", store, d.tag))
		return
	}
	hashT := derefType(app.Params[1].Type())
	mkHash := func(name string, ninth int64) aval {
		H := m.symArray(st, hashT.Underlying(), name)
		a := H.(aAgg)
		for i := int64(0); i < 9; i++ {
			v := int64(7 * (i + 1) % 5)
			if i == 8 {
				v = ninth
			}
			off := aconst(i)
			a.o.cells[off.String()] = acell{off, aInt{aconst(v), byteType}}
		}
		return m.boxed(st, a, hashT)
	}
	A, B := mkHash("A", 1), mkHash("B", 2)
	bytesA, bytesB := m.arrayBytes(st, A, 32), m.arrayBytes(st, B, 32)
	d.hashes = map[byte]aval{'A': A, 'B': B}
	d.hashBytes = map[byte][]ab{'A': bytesA, 'B': bytesB}
	look := func(st *astate, store aval, seq string, f *ssa.Function, g *ssa.Function) {
		d.look(st, store, seq, f, g, hashT, true)
	}
	var add func(st *astate, store aval, seq string, at int, then func(*astate))
	add = func(st *astate, store aval, seq string, at int, then func(*astate)) {
		if at == len(seq) {
			then(st)
			return
		}
		h := A
		if seq[at] == 'B' {
			h = B
		}
		_, hs := d.method(st, store, "AppendHash")
		d.step(st, app, []aval{hs, h}, "appending a hash", func(o aout) {
			d.cd.about(app).oblig(sameInt(m, o.st, o.rets[0], aconst(int64(at))), "number reported", fmt.Sprintf("appending to a store of %d hashes reports %v%s", at, o.rets[0], d.tag))
			add(o.st, store, seq, at+1, then)
		})
	}
	add(st, store, "ABAAB", 0, func(st *astate) {
		look(st, store, "ABAAB", find, get)
		d.step(st.clone(), openRO, []aval{cr}, "opening the store for reading", func(o aout) {
			f, _ := d.method(o.st, o.rets[0], "IndexOfHash")
			g, _ := d.method(o.st, o.rets[0], "GetHashAtIndex")
			if d.cd.about(openRO).oblig(f != nil && g != nil, "store operations", "the store opened for reading is of an unknown type"+d.tag) {
				look(o.st, o.rets[0], "ABAAB", f, g)
			}
		})
		d.step(st.clone(), open, []aval{cr}, "opening the store again", func(o aout) {
			add(o.st, o.rets[0], "ABAABA", 5, func(st *astate) { look(st, o.rets[0], "ABAABA", find, get) })
		})
	})
}

// look up every hash of the sequence, and read all of them (or the first of each).
func (d *driver) look(st *astate, store aval, seq string, f, g *ssa.Function, hashT types.Type, repeats bool) {
	m := d.m
	added := strings.Join(strings.Split(seq[len(d.crowd)+map[bool]int{true: 4}[d.crowd != ""]:], ""), ", ")
	if d.crowd != "" {
		added = fmt.Sprintf("%d others, %s", len(d.crowd)+4, added)
	}
	if d.absent != "" {
		m.reliable = true
		defer func() { m.reliable = false }()
	}
	_, hs := d.method(st, store, "IndexOfHash")
	for i := range seq {
		q := seq[i]
		want := strings.IndexByte(seq, q)
		if want == i && !strings.ContainsRune(d.crowd, rune(q)) {
			d.step(st.clone(), f, []aval{hs, d.hashes[q]}, "looking up a hash", func(l aout) {
				d.cd.about(f).oblig(sameInt(m, l.st, l.rets[0], aconst(int64(want))), "number found", fmt.Sprintf("after adding %s, %c is found at %v instead of %d%s", added, q, l.rets[0], want, d.tag))
			})
		}
	}
	for i := range d.absent {
		d.cd.r.count("absent hashes looked up", 1)
		d.step(st.clone(), f, []aval{hs, d.hashes[d.absent[i]]}, "looking up a hash", func(l aout) {
			d.cd.about(f).oblig(sameInt(m, l.st, l.rets[0], aconst(-1)), "absent hash", fmt.Sprintf("a hash that was never added is found at %v%s", l.rets[0], d.tag))
		})
	}
	for i := range seq {
		if !repeats && strings.IndexByte(seq, seq[i]) != i || strings.ContainsRune(d.crowd, rune(seq[i])) {
			continue
		}
		out := m.alloc(st, hashT, "before")
		d.step(st.clone(), g, []aval{hs, i64(aconst(int64(i))), aPtr{obj: out}}, "reading a hash", func(l aout) {
			d.cd.about(g).oblig(m.sameBytes(l.st, m.arrayBytes(l.st, aPtr{obj: out}, 32), d.hashBytes[seq[i]]), "hash read", fmt.Sprintf("the hash read at number %d is not the hash added under it%s", i, d.tag))
		})
	}
}
