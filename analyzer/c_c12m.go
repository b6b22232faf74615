package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// ---- stores of arrays by number ----

// checkMapStores: what is appended to the arrays of a store, over several files and with any part of
// them held in memory, is read back in order, by the store itself and after it is opened again.
func (P *Prog) checkMapStores(r *Result) {
	mk := P.Func("intarrayarray", "NewConcreteMapStoreCreator")
	if mk == nil {
		r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "intarrayarray.NewConcreteMapStoreCreator", Msg: "the creator of stores of arrays is gone"})
		return
	}
	for _, k := range []struct{ file, folder, width, limit int64 }{
		{1, 1, 2, 0}, {2, 1, 3, 0}, {0, 2, 2, 0}, {1, 2, 4, 1}, {1, 1, 2, 2}, {1, 1, 3, 3}, {0, 1, 2, 3}, {2, 2, 5, 5}, {1, 1, 2, 1000},
	} {
		P.driveMapStore(r, mk, k.file, k.folder, k.width, k.limit)
	}
}

func (P *Prog) driveMapStore(r *Result, mk *ssa.Function, fileDigits, folderDigits, width, limit int64) {
	n, _ := derefType(mk.Signature.Results().At(0).Type()).(*types.Named)
	create, open, openRO := P.Method(n, "CreateMap"), P.Method(n, "OpenMap"), P.Method(n, "OpenMapReadOnly")
	if create == nil || open == nil || openRO == nil || len(mk.Params) != 6 {
		r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: fnName(mk), Msg: "the operations of the creator of stores of arrays are gone"})
		return
	}
	r.count("stores of arrays driven", 1)
	cd := P.codec(r, "map-store", mk)
	m := cd.m
	m.maxIter, m.maxSteps = 200, 20000000
	m.model, m.closed, m.reliable, m.channels, m.folders = closedFS, true, true, true, true
	d := &driver{P: P, m: m, cd: cd, tag: fmt.Sprintf(" (%d digits per file, %d per folder, %d byte elements, %s)", fileDigits, folderDigits, width,
		map[bool]string{true: fmt.Sprintf("at most %d elements in memory", limit), false: "not cached"}[limit > 0])}
	big := func(v int64) aval { return i64(aconst(v)) }
	str := func(s string) aval { return aStr{s: s, known: true} }
	per := int64(math.Pow10(int(fileDigits)))
	far := per * int64(math.Pow10(int(folderDigits)))
	keys := []int64{0, per, 0, per + 1, per, 2 * per, 0, far, per, far + 1, 0, 2 * per, far, 1}
	look := func(st *astate, store aval, upTo int, what string) {
		get, self := d.method(st, store, "GetArray")
		if !cd.oblig(get != nil, "store operations", what+" is of an unknown type"+d.tag) {
			return
		}
		for _, k := range []int64{0, 1, per, per + 1, 2 * per, far, far + 1} {
			var want []alin
			for i, q := range keys[:upTo] {
				if q == k {
					want = append(want, asymbol(fmt.Sprint("E", i)))
				}
			}
			if want == nil {
				continue
			}
			d.step(st.clone(), get, []aval{self, big(k)}, "reading an array", func(o aout) {
				vs, ok := m.sliceVals(o.st, o.rets[0])
				same := ok && len(vs) == len(want)
				for i := 0; same && i < len(want); i++ {
					same = sameInt(m, o.st, vs[i], want[i])
				}
				cd.about(get).oblig(same, "elements", fmt.Sprintf("%s: array %d is not what was appended to it (%d elements instead of %d, or others)%s", what, k, len(vs), len(want), d.tag))
			})
		}
	}
	reopened := func(st *astate, cr aval, upTo int, what string) {
		d.step(st.clone(), openRO, []aval{cr}, "opening for reading", func(o aout) { look(o.st, o.rets[0], upTo, what+", opened for reading") })
		d.step(st.clone(), open, []aval{cr}, "opening", func(o aout) { look(o.st, o.rets[0], upTo, what+", opened again") })
	}
	var add func(st *astate, store aval, at int, to int, then func(*astate))
	add = func(st *astate, store aval, at, to int, then func(*astate)) {
		if at == to {
			then(st)
			return
		}
		app, self := d.method(st, store, "AppendToArray")
		if !cd.oblig(app != nil, "store operations", "the store opened is of an unknown type"+d.tag) {
			return
		}
		v := m.symbol(fmt.Sprint("E", at), 0, maxOf(width))
		d.step(st, app, []aval{self, big(keys[at]), i64(v)}, "appending", func(o aout) { add(o.st, store, at+1, to, then) })
	}
	d.step(m.newState(), mk, []aval{str("name"), str("folder"), big(fileDigits), big(folderDigits), big(width), aBool{known: true, val: limit > 0}}, "making the creator", func(o aout) {
		cr := o.rets[0]
		d.step(o.st, create, []aval{cr}, "creating the store", func(o aout) {
			d.step(o.st, open, []aval{cr}, "opening the store", func(o aout) {
				store := o.rets[0]
				m.lowerLimit(o.st, store, limit)
				add(o.st, store, 0, len(keys)-3, func(st *astate) {
					look(st, store, len(keys)-3, "the store appended to")
					sync, self := d.method(st, store, "Sync")
					if !cd.oblig(sync != nil, "store operations", "the store cannot be synced"+d.tag) {
						return
					}
					d.step(st, sync, []aval{self}, "syncing", func(o aout) {
						reopened(o.st, cr, len(keys)-3, "the store synced")
						m.collect(o.st, cr, store)
						add(o.st, store, len(keys)-3, len(keys), func(st *astate) {
							flush, self := d.method(st, store, "FlushFile")
							if !cd.oblig(flush != nil, "store operations", "the store cannot be flushed"+d.tag) {
								return
							}
							d.step(st, flush, []aval{self}, "flushing", func(o aout) { reopened(o.st, cr, len(keys), "the store flushed") })
						})
					})
				})
			})
		})
	})
}

// lowerLimit: the number of elements the store keeps in memory is small.
func (m *amachine) lowerLimit(st *astate, store aval, limit int64) {
	p, ok := unwrapped(store).(aPtr)
	if !ok || limit == 0 {
		return
	}
	o := m.mut2(st, p.obj)
	for k, c := range o.cells {
		if v, ok := c.v.(aInt); ok && v.l.isConst() && v.l.c >= 100000000 {
			c.v = aInt{aconst(limit), v.t}
			o.cells[k] = c
		}
	}
}
