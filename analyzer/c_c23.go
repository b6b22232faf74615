package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C23: the numbers of hashes survive every conversion.

func init() {
	checks["C23"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"conversions: each pair of conversions between a global number and a number within a tier is inverse for every number and offset (symbolic), keeps the value reserved for \"no match\" apart, and refuses a number below the offset; a number is in a range of a tier exactly when it is one of those the tier holds",
			"number-kept: in stores whose first number is symbolic, every hash is reported under first number + position when it is appended, looked up and asked for by number, in every tier it is moved to, and is handed on under it",
		}
		r.Assume = []string{"a file operation either does all it is asked or fails (C08, C12)", "the byte of a hash a node examines tells its hashes apart (any such choice of bytes makes a tree)", "numbers are below 2^40"}
		b := &bakes{P: P, r: r, what: "C23"}
		if !b.anchors() {
			return r
		}
		c := &layouts{b: b}
		c.conversions()
		c.shapes("number-kept", true)
		r.floor("conversions decided", 10)
		r.floor("stores interpreted", 6)
		r.floor("hashes looked up", 200)
		r.floor("numbers asked", 300)
		r.floor("hashes handed on", 20)
		return r
	}
}

func (c *layouts) conversions() {
	P, b := c.b.P, c.b
	fn := func(name string) *ssa.Function {
		f := P.Func("weddingcakeback", name)
		if f == nil {
			b.lost("weddingcakeback." + name)
		}
		return f
	}
	type pair struct {
		to, from string
		offset   bool // both take the offset
		reserved bool // -1 and 0 stand for no match
	}
	for _, p := range []pair{
		{"HashIndexIdFromGlobalPi", "GlobalPiFromHashIndexId", true, true},
		{"TierTopIndexFromGlobalPi", "GlobalPiFromTierTopIndex", true, false},
		{"SingleTreePiFromGlobalPi", "GlobalPiFromSingleTreePi", false, true},
	} {
		to, from := fn(p.to), fn(p.from)
		if to == nil || from == nil {
			continue
		}
		cd := P.codec(b.r, "conversions", to)
		m := cd.m
		call := func(f *ssa.Function, st *astate, x, off alin) []aout {
			b.r.count("conversions decided", 1)
			args := []aval{aInt{x, basicOf(f.Params[0].Type())}}
			if p.offset {
				args = append(args, aInt{off, basicOf(f.Params[1].Type())})
			}
			return m.run(f, args, nil, st)
		}
		st := m.newState()
		off, rel := m.symbol("offset", 0, 1<<40), m.symbol("position", 0, 1<<40)
		g := off.add(rel, 1)
		if !p.offset {
			g = rel
		}
		for _, o := range call(to, st.clone(), g, off) {
			if !cd.oblig(!o.panic, "conversion", "a number the tier has cannot be converted") {
				continue
			}
			l, ok := m.intOf(o.rets[0])
			if p.reserved {
				iv := m.ivOf(o.st, l)
				cd.oblig(ok && iv.lo > 0, "reserved value", "a number the tier has is converted to the value that stands for no match")
			}
			for _, o2 := range call(from, o.st, l, off) {
				cd.about(from).oblig(!o2.panic && sameInt(m, o2.st, o2.rets[0], g), "inverse", fmt.Sprintf("%s and back by %s leads from %v to %v", p.to, p.from, g, safeRet(o2)))
			}
		}
		if p.reserved {
			for _, o := range call(to, st.clone(), aconst(-1), off) {
				cd.about(to).oblig(!o.panic && sameInt(m, o.st, o.rets[0], alin{}), "no match", fmt.Sprintf("no match is converted to %v", safeRet(o)))
			}
			for _, o := range call(from, st.clone(), alin{}, off) {
				cd.about(from).oblig(!o.panic && sameInt(m, o.st, o.rets[0], aconst(-1)), "no match", fmt.Sprintf("no match is converted to %v", safeRet(o)))
			}
		}
		if p.offset && p.reserved {
			below := m.symbol("below", 1, 1<<40)
			s2 := st.clone()
			m.refine(s2, token.GEQ, off.add(below, -1))
			for _, o := range call(to, s2, off.add(below, -1), off) {
				l, ok := m.intOf(safeRet(o))
				cd.about(to).oblig(o.panic || ok && m.same(o.st, l, alin{}), "below the offset", "a number below the first of the tier is converted as if it were in the tier")
			}
		}
	}
	// Within range
	if f := fn("GlobalPiWithinRange"); f != nil {
		cd := P.codec(b.r, "conversions", f)
		m := cd.m
		off, n, k := m.symbol("offset", 0, 1<<40), m.symbol("count", 0, 1<<40), m.symbol("k", 0, 1<<40)
		for _, t := range []struct {
			what string
			g    alin
			in   bool
		}{
			{"a number below the first", off.add(k, -1).add(aconst(1), -1), false},
			{"one of the numbers", off.add(k, 1), true},
			{"a number past the last", off.add(n, 1).add(k, 1), false},
		} {
			st := m.newState()
			if t.in && !m.refine(st, token.LSS, k.add(n, -1)) {
				continue
			}
			b.r.count("conversions decided", 1)
			for _, o := range m.run(f, []aval{aInt{t.g, types.Typ[types.Int64]}, aInt{off, types.Typ[types.Int64]}, aInt{n, intType}}, nil, st) {
				v, _ := safeRet(o).(aBool)
				cd.oblig(!o.panic && v.known && v.val == t.in, "range", fmt.Sprintf("%s of a tier is said to be in its range: %v", t.what, v.val))
			}
		}
	}
}
