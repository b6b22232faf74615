package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the import loops ----

var appenders = map[string]bool{"AppendBlock": true, "AppendBlockChi": true, "AppendHashesCri": true, "AppendHashesChi": true}

func (c *pipeline) consumed() {
	for _, f := range c.P.FuncsIn("jobs") {
		if f.Parent() != nil || testHelper(f) {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(ssa.CallInstruction); ok && appenders[calledName(s)] {
					has = true
				}
			}
		}
		if has {
			c.loop(f)
		}
	}
}

// tagOf a value made with unknownVal.
func tagOf(v aval) string {
	switch x := v.(type) {
	case aAgg:
		return x.o.unknown
	case aOpaque:
		return x.id
	case aIface:
		return tagOf(x.v)
	}
	return ""
}

func (c *pipeline) loop(f *ssa.Function) {
	P := c.P
	c.r.count("import loops interpreted", 1)
	for n := 1; n <= 3; n++ {
		cd := P.codec(c.r, "consumed", f)
		m := cd.m
		m.maxIter = 20
		m.channels = true
		m.maxSteps = 5000000
		tag := fmt.Sprintf(" (a chain of %d blocks)", n)
		block := func(v aval) int {
			var i int
			t := tagOf(v)
			if j := strings.LastIndex(t, "!block"); j >= 0 {
				if _, err := fmt.Sscanf(t[j:], "!block%d", &i); err == nil {
					return i
				}
			}
			return -1
		}
		appended := func(st *astate) (out []int) {
			for _, x := range st.calls {
				var i int
				if k, _ := fmt.Sscanf(x, "!append %d", &i); k == 1 {
					out = append(out, i)
				}
			}
			return
		}
		m.enter = func(g *ssa.Function) bool { return pkgPath(g) == modulePath+"/jobs" }
		m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
			short := name[strings.LastIndex(name, ".")+1:]
			if outs, ok := syncModel(m, st, site, name, args); ok {
				return outs, true
			}
			res := site.Common().Signature().Results()
			// the results: v first, then no error; or some error
			give := func(v aval) []aout {
				if res.Len() == 1 {
					return one(st, v)
				}
				bad := st.clone()
				return []aout{{st: bad, rets: []aval{m.unknownVal(bad, res.At(0).Type(), m.fresh("none")), aErr{id: "!fail"}}}, {st: st, rets: []aval{v, aErr{}}}}
			}
			switch {
			case short == "GenesisBlock":
				return give(m.unknownVal(st, res.At(0).Type(), "!block0")), true
			case short == "NextBlock":
				i := block(args[len(args)-1])
				if i < 0 || i >= n {
					cd.oblig(false, "next", "the next block of something that is not the current block is asked for"+tag)
					return nil, true
				}
				if got := appended(st); len(got) == 0 || got[len(got)-1] != i {
					cd.oblig(false, "next", "the next block is asked for before the current one is appended"+tag)
				}
				return give(m.unknownVal(st, res.At(0).Type(), fmt.Sprintf("!block%d", i+1))), true
			case short == "IsInvalid" || short == "IsBlockHandleInvalid":
				v := recv
				if len(args) > 0 {
					v = args[len(args)-1]
				}
				i := block(v)
				if i < 0 {
					return nil, false
				}
				return one(st, aBool{known: true, val: i >= n}), true
			case short == "BlockInterface":
				i := block(args[len(args)-1])
				return give(m.unknownVal(st, res.At(0).Type(), fmt.Sprintf("!block%d", i))), true
			case appenders[short]:
				which := -1
				for _, a := range args {
					if i := block(a); i >= 0 {
						which = i
					}
				}
				bad := st.clone()
				if res.Len() != 1 {
					return nil, false
				}
				st.calls = append(st.calls, fmt.Sprint("!append ", which))
				return append(one(bad, aErr{id: "!fail"}), one(st, aErr{})...), true
			}
			return nil, false
		}
		st := m.newState()
		var args []aval
		for i, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				args = append(args, aInt{m.symbol(fmt.Sprintf("n%d", i), 0, 1<<40), b})
				continue
			}
			args = append(args, m.unknownVal(st, p.Type(), fmt.Sprintf("arg%d", i)))
		}
		good := 0
		for _, o := range m.run(f, args, nil, st) {
			if o.panic {
				continue
			}
			got := appended(o.st)
			for i, x := range got {
				if !cd.oblig(x == i, "order", fmt.Sprintf("what is appended as block %d is not block %d of the chain%s", i, i, tag)) {
					break
				}
			}
			if succeeded(o) {
				good++
				cd.oblig(len(got) == n, "count", fmt.Sprintf("%d blocks are appended and success is reported%s", len(got), tag))
			}
		}
		cd.oblig(good > 0, "works", "the import never succeeds"+tag)
	}
}
