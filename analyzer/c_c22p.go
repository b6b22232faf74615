package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// preloaders: the stores made in one go from a file of hashes.
func (c *firstWins) preloaders() {
	for _, k := range []struct {
		ctor          string
		estimate, mem int64
	}{
		{"NewHashStoreCreatorAndPreloader", 1000, 1},
		{"NewHashStoreCreatorAndPreloader", 61356672, 1},
		{"NewHashStoreCreatorAndPreloaderAdaptive", 1000, 1},
		{"NewHashStoreCreatorAndPreloaderAdaptive", 1000, 0},
	} {
		for _, swapped := range []bool{false, true} {
			c.preload(k.ctor, k.estimate, k.mem, swapped)
		}
	}
	c.uniform(false, 3, 600)
	c.uniform(false, 4, 600)
	c.uniform(true, 3, 525)
}

// uniform: the store whose bins are filled from the file of hashes in several passes; with crowded, one bin overflows.
func (c *firstWins) uniform(crowded bool, binsPerPass, expected int64) {
	P := c.P
	mkC, mkP := P.Func("indexedhashes", "NewUniformHashStoreCreatorPrivate"), P.Func("indexedhashes", "NewMultipassPreloader")
	cn, pn, hash := P.Named("indexedhashes", "UniformHashStoreCreator"), P.Named("indexedhashes", "MultipassPreloader"), P.Named("indexedhashes", "Sha256")
	create, open, openRO, index := P.Method(cn, "CreateHashStore"), P.Method(cn, "OpenHashStore"), P.Method(cn, "OpenHashStoreReadOnly"), P.Method(pn, "IndexTheHashes")
	if mkC == nil || mkP == nil || hash == nil || create == nil || open == nil || openRO == nil || index == nil {
		c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "indexedhashes.MultipassPreloader", Msg: "the maker of a uniform store from a file of hashes is gone"})
		return
	}
	cd := P.codec(c.r, c.rule, index)
	m := cd.m
	m.maxIter, m.maxSteps = 2000, 60000000
	m.closed, m.channels, m.demand, m.folders = true, true, true, true
	m.model = preloadFS
	d := &driver{P: P, m: m, cd: cd, mayPanic: true, tag: fmt.Sprintf(" (uniform store, %d bins per pass%s)", binsPerPass, map[bool]string{true: ", one bin overflowing"}[crowded])}
	c.r.count("stores made from a file", 1)
	str := func(s string) aval { return aStr{s: s, known: true} }
	st := m.newState()
	d.top = 0xf1
	if crowded {
		d.top = 0x61
	}
	seq := c.family(d, st, hash)
	more := "0"
	if c.rule == "first-wins" {
		more = "A"
	} else if crowded {
		more = "Z"
		d.define(st, hash, 'Z', map[int]int64{0: 9})
		d.absent = more + d.absent
	}
	if crowded {
		// the bin is all but full of others before A
		var fill []byte
		for ch := 1; ch < 256 && len(fill) < 101; ch++ {
			if d.hashes[byte(ch)] == nil {
				at := map[int]int64{}
				for i := range 32 {
					at[i] = int64((ch*(i+3) + i) % 120)
				}
				at[7], at[30] = d.top+int64(ch%7), int64(ch/2)
				at[31] = int64(ch % 2)
				d.define(st, hash, byte(ch), at)
				fill = append(fill, byte(ch))
			}
		}
		seq = string(fill) + seq + "B"
		d.crowd = string(fill[2 : len(fill)-2])
		if c.rule != "first-wins" {
			seq = seq[:len(seq)-1]
		}
	}
	if len(d.absent) > 17 {
		d.absent = d.absent[:17]
	}
	hashes := "path:" + strKey(aStr{known: true, s: "folder/name/Hashes.hsh"})
	d.step(st, mkC, []aval{i64(aconst(expected)), str("folder"), str("name"), numArg(2)}, "making the creator", func(o aout) {
		cr := o.rets[0]
		d.step(o.st, create, []aval{cr}, "creating the store", func(o aout) {
			if !d.cd.about(create).oblig(o.st.bools["exists:"+hashes], "file of hashes", "the file of hashes of the store created is not where it is looked for"+d.tag) {
				return
			}
			file := m.fileObj(o.st, hashes)
			b := m.mut2(o.st, file)
			b.cells, b.unknown, b.n = map[string]acell{}, "", aconst(int64(32*len(seq)))
			for i := range seq {
				for j, x := range d.hashBytes[seq[i]] {
					m.putByte(o.st, aSlice{obj: file, elem: byteType}, aconst(int64(32*i+j)), x)
				}
			}
			d.step(o.st, mkP, []aval{cr, i64(aconst(832 * binsPerPass))}, "making the maker", func(o aout) {
				d.step(o.st, index, []aval{o.rets[0]}, "indexing the hashes", func(o aout) {
					m.collect(o.st, append([]aval{cr}, d.all()...)...)
					d.openAndLook(o.st, cr, openRO, seq, hash, false, "the store opened for reading")
					d.step(o.st.clone(), open, []aval{cr}, "opening the store", func(o aout) {
						app, hs := d.method(o.st, o.rets[0], "AppendHash")
						if !d.cd.about(open).oblig(app != nil, "store operations", "the store opened is of an unknown type"+d.tag) {
							return
						}
						store := o.rets[0]
						d.step(o.st, app, []aval{hs, d.hashes[more[0]]}, "appending a hash", func(o aout) {
							d.cd.about(app).oblig(sameInt(m, o.st, o.rets[0], aconst(int64(len(seq)))), "number reported", fmt.Sprintf("appending to a store of %d hashes reports %v%s", len(seq), o.rets[0], d.tag))
							f, _ := d.method(o.st, store, "IndexOfHash")
							g, _ := d.method(o.st, store, "GetHashAtIndex")
							d.absent = strings.ReplaceAll(d.absent, more, "")
							d.look(o.st, store, seq+more, f, g, hash, false)
						})
					})
				})
			})
		})
	})
}

func (c *firstWins) preload(ctor string, estimate, mem int64, swapped bool) {
	P := c.P
	mk, newParams, hash := P.Func("indexedhashes3", ctor), P.Func("indexedhashes3", "NewHashStoreParams"), P.Named("indexedhashes", "Sha256")
	bins := P.Func("indexedhashes3", "NewBinsArray")
	if mk == nil || newParams == nil || hash == nil || bins == nil {
		c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "indexedhashes3." + ctor, Msg: "the maker of a store from a file of hashes is gone"})
		return
	}
	cd := P.codec(c.r, c.rule, mk)
	m := cd.m
	m.maxIter, m.maxSteps = 400, 60000000
	m.closed, m.channels, m.demand, m.tiesSwapped = true, true, true, swapped
	m.model = preloadFS
	d := &driver{P: P, m: m, cd: cd, mayPanic: true, tag: fmt.Sprintf(" (%s, %d hashes expected, %d GB, sorts %s)", ctor, estimate, mem, map[bool]string{true: "swap equals", false: "keep the order of equals"}[swapped])}
	c.r.count("stores made from a file", 1)
	str := func(s string) aval { return aStr{s: s, known: true} }
	big := func(v int64) aval { return i64(aconst(v)) }
	st := m.newState()
	seq := c.family(d, st, hash)
	hashes := "path:" + strKey(aStr{known: true, s: "folder/name/Hashes.hsh"})
	st.bools["exists:"+hashes] = true
	for _, d := range []string{"folder", "folder/name"} {
		st.bools["dir:path:"+strKey(aStr{known: true, s: d})] = true
	}
	file := m.fileObj(st, hashes)
	o := m.mut2(st, file)
	o.cells, o.unknown, o.n = map[string]acell{}, "", aconst(int64(32*len(seq)))
	for i := range seq {
		for j, b := range d.hashBytes[seq[i]] {
			m.putByte(st, aSlice{obj: file, elem: byteType}, aconst(int64(32*i+j)), b)
		}
	}
	d.step(st, newParams, []aval{big(24), big(estimate), numArg(2), big(4), big(2), big(8)}, "making the parameters", func(o aout) {
		params := o.rets[0]
		d.step(o.st, bins, []aval{big(2), big(35), big(4)}, "making the bins", func(o aout) {
			var args []aval
			strs := 0
			for _, p := range mk.Params {
				switch t := p.Type().Underlying().(type) {
				case *types.Basic:
					if t.Info()&types.IsString != 0 {
						args = append(args, str([]string{"folder", "name"}[strs%2]))
						strs++
						continue
					}
					args = append(args, aInt{aconst(mem), t})
				default:
					v := o.rets[0]
					if derefType(p.Type()) == derefType(newParams.Signature.Results().At(0).Type()) {
						v = params
					}
					args = append(args, v)
				}
			}
			d.step(o.st, mk, args, "making the creator", func(o aout) {
				cr, pre := unwrapped(o.rets[0]), o.rets[1]
				n, _ := derefType(mk.Signature.Results().At(1).Type()).(*types.Named)
				cn := P.Named("indexedhashes3", "ConcreteHashStoreCreator")
				if i, ok := o.rets[0].(aIface); ok {
					cn, _ = derefType(i.t).(*types.Named)
				}
				var index, open, openRO *ssa.Function
				if n != nil && cn != nil {
					index = P.Method(n, "IndexTheHashes")
					open, openRO = P.Method(cn, "OpenHashStore"), P.Method(cn, "OpenHashStoreReadOnly")
				}
				if index == nil || open == nil || openRO == nil {
					c.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: ctor, Msg: "the operations of the maker of a store from a file of hashes are gone"})
					return
				}
				d.step(o.st, index, []aval{pre, numArg(2)}, "indexing the hashes", func(o aout) {
					m.collect(o.st, append([]aval{cr, o.rets[0]}, d.all()...)...)
					d.openAndLook(o.st, cr, openRO, seq, hash, false, "the store opened for reading")
					d.step(o.st.clone(), open, []aval{cr}, "opening the store", func(o aout) {
						app, hs := d.method(o.st, o.rets[0], "AppendHash")
						if !d.cd.about(open).oblig(app != nil, "store operations", "the store opened is of an unknown type"+d.tag) {
							return
						}
						store := o.rets[0]
						d.step(o.st, app, []aval{hs, d.hashes['A']}, "appending a hash", func(o aout) {
							d.cd.about(app).oblig(sameInt(m, o.st, o.rets[0], aconst(int64(len(seq)))), "number reported", fmt.Sprintf("appending to a store of %d hashes reports %v%s", len(seq), o.rets[0], d.tag))
							f, _ := d.method(o.st, store, "IndexOfHash")
							g, _ := d.method(o.st, store, "GetHashAtIndex")
							d.look(o.st, store, seq+"A", f, g, hash, false)
						})
					})
				})
			})
		})
	})
}

func (d *driver) all() []aval {
	var out []aval
	for _, v := range d.hashes {
		out = append(out, v)
	}
	return out
}

// preloadFS: the file system, and parameters stored in a form that is not looked into.
func preloadFS(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	if name == "encoding/json.Marshal" {
		id := m.alloc(st, types.NewSlice(byteType), "")
		n := aconst(2)
		return one(st, aSlice{obj: id, n: n, cap: n, elem: byteType}, aErr{}), true
	}
	if strings.HasPrefix(name, "(*sync.") {
		return m.syncCall(st, site, name, args), true
	}
	if strings.HasPrefix(name, "os.") && len(args) > 0 {
		if p, ok := args[0].(aStr); ok && p.known {
			p.s = path.Clean(p.s)
			args = append([]aval{p}, args[1:]...)
			id := func(s string) string { return "path:" + strKey(aStr{known: true, s: s}) }
			creates := name == "os.Create" || name == "os.WriteFile"
			switch name {
			case "os.OpenFile":
				fl, ok := m.intOf(args[1])
				creates = ok && fl.isConst() && fl.c&0x40 != 0
			case "os.Mkdir", "os.MkdirAll":
				for d := p.s; d != "." && d != "/"; d = path.Dir(d) {
					st.bools["dir:"+id(d)] = true
					if name == "os.Mkdir" {
						break
					}
				}
			case "os.RemoveAll":
				for k := range st.bools {
					if q, ok := strings.CutPrefix(strings.TrimSuffix(k, "\""), "dir:"+strings.TrimSuffix(id(p.s), "\"")); ok && (q == "" || q[0] == '/') {
						delete(st.bools, k)
					}
				}
			case "os.Stat", "os.Lstat":
				if st.bools["dir:"+id(p.s)] {
					return one(st, aNil{}, aErr{}), true
				}
			}
			if creates && !m.exists(st, id(p.s)) && !st.bools["dir:"+id(path.Dir(p.s))] {
				outs := []aval{aErr{id: "!missing:" + id(p.s)}}
				if name != "os.WriteFile" {
					outs = append([]aval{aNil{}}, outs...)
				}
				return one(st, outs...), true
			}
		}
	}
	return closedFS(m, st, site, name, recv, args)
}

// openAndLook: a store opened holds the sequence.
func (d *driver) openAndLook(st *astate, cr aval, open *ssa.Function, seq string, hashT types.Type, repeats bool, what string) {
	d.step(st.clone(), open, []aval{cr}, "opening the store", func(o aout) {
		f, _ := d.method(o.st, o.rets[0], "IndexOfHash")
		g, _ := d.method(o.st, o.rets[0], "GetHashAtIndex")
		if d.cd.about(open).oblig(f != nil && g != nil, "store operations", what+" is of an unknown type"+d.tag) {
			d.look(o.st, o.rets[0], seq, f, g, hashT, repeats)
		}
	})
}

// define a hash: bytes from 8 on are symbolic, those given are constant.
func (d *driver) define(st *astate, hashT types.Type, ch byte, at map[int]int64) {
	m := d.m
	a := m.symArray(st, hashT.Underlying(), "T").(aAgg)
	for i := range 32 {
		m.ivs[fmt.Sprint("T", i)] = ival{0, 127}
		if v, ok := at[i]; ok || i < 8 {
			off := aconst(int64(i))
			if !ok {
				v = []int64{2, 4, 1, 3, 0, 2, 4, max(1, d.top)}[i]
			}
			a.o.cells[off.String()] = acell{off, aInt{aconst(v), byteType}}
		}
	}
	d.hashes[ch] = m.boxed(st, a, hashT)
	d.hashBytes[ch] = m.arrayBytes(st, d.hashes[ch], 32)
}

// family of hashes: A, B: the same partial key; C: as A but for the key; D: in another bin.
func (c *firstWins) family(d *driver, st *astate, hashT types.Type) string {
	d.hashes, d.hashBytes = map[byte]aval{}, map[byte][]ab{}
	d.define(st, hashT, 'A', map[int]int64{8: 7})
	d.define(st, hashT, 'B', map[int]int64{8: 8})
	d.define(st, hashT, 'C', map[int]int64{0: 1, 8: 7})
	d.define(st, hashT, 'D', map[int]int64{7: 0x41, 8: 7})
	if c.rule == "first-wins" {
		return "ABCDACB"
	}
	d.define(st, hashT, 'E', map[int]int64{0: 3})
	d.define(st, hashT, 'F', map[int]int64{31: 200})
	d.define(st, hashT, 'G', map[int]int64{3: 0x83, 20: 200})
	// that are not added
	zero := map[int]int64{}
	for i := range 32 {
		zero[i] = 0
	}
	d.define(st, hashT, '0', zero)
	d.absent = "0"
	for k := range 32 {
		// as A and as G, but for byte k
		for i, at := range []map[int]int64{{8: 7}, {3: 0x83, 20: 200}} {
			if v, ok := at[k]; ok {
				at[k] = v ^ 0x60
			} else {
				at[k] = 0x9a
			}
			ch := byte(128 + 2*k + i)
			d.define(st, hashT, ch, at)
			d.absent += string([]byte{ch})
		}
	}
	return "DAGBCEF"
}
