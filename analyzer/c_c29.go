package main

import (
	"golang.org/x/tools/go/ssa"
)

// C29: every lookup returns the right index.

func init() {
	checks["C29"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"lookup: interpreting every hash store from its creator (or from a file of hashes): seven different hashes with symbolic bytes, some equal in all a partial key, a bin or a sort number is made of, are added; each is found under its number and each number reads back its hash, before and after reopening; a hash that differs from an added one in any single byte, and the hash of zeros, are not found",
		}
		r.Assume = []string{"files transfer all bytes or fail (C08, C12)", "what holds for the placements driven (equal, neighbouring and distant keys; full and overflowing chunks and bins) is not thereby shown for every number of hashes"}
		c := &firstWins{P: P, r: r, rule: "lookup"}
		c.hist = c.distinct
		c.stores()
		r.floor("stores driven", 8)
		r.floor("stores made from a file", 11)
		r.floor("absent hashes looked up", 1000)
		return r
	}
}

// distinct hashes added one by one.
func (c *firstWins) distinct(d *driver, st *astate, store, cr aval, open, openRO *ssa.Function) {
	app, _ := d.method(st, store, "AppendHash")
	find, _ := d.method(st, store, "IndexOfHash")
	get, _ := d.method(st, store, "GetHashAtIndex")
	if app == nil || find == nil || get == nil {
		d.cd.oblig(false, "store operations", "the operations of the store opened are unknown"+d.tag)
		return
	}
	hashT := derefType(app.Params[1].Type())
	seq := c.family(d, st, hashT)
	var add func(st *astate, at int)
	add = func(st *astate, at int) {
		if at == len(seq) {
			d.m.collect(st, append([]aval{cr, store}, d.all()...)...)
			absent := d.absent
			d.absent = ""
			d.look(st, store, seq, find, get, hashT, true)
			d.openAndLook(st, cr, open, seq, hashT, true, "the store opened again")
			d.absent = absent
			d.openAndLook(st, cr, openRO, seq, hashT, true, "the store opened for reading")
			return
		}
		_, hs := d.method(st, store, "AppendHash")
		d.step(st, app, []aval{hs, d.hashes[seq[at]]}, "appending a hash", func(o aout) {
			d.cd.about(app).oblig(sameInt(d.m, o.st, o.rets[0], aconst(int64(at))), "number reported", "the number reported for a hash added is not the next"+d.tag)
			add(o.st, at+1)
		})
	}
	add(st, 0)
}
