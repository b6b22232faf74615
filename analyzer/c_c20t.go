package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the stream of block hashes ----

// headers interpreted: what the node answers to one request after another, in headers.
func (c *pipeline) stream() {
	P := c.P
	f := P.Func("corereader2", "StreamBlockHashesFromGenesis")
	if f == nil {
		c.lost("corereader2.StreamBlockHashesFromGenesis")
		return
	}
	for _, w := range []struct {
		ask     int64
		answers []int64
	}{
		{0, []int64{1002}}, {1, []int64{1002}}, {2, []int64{1002}}, {3, []int64{4}}, {9, []int64{1}}, {9, []int64{2}}, {9, []int64{3}}, {9, []int64{7}},
		{999, []int64{1002}}, {1000, []int64{1002, 1002}}, {1001, []int64{1002, 1002}}, {1003, []int64{1002, 6}}, {1500, []int64{1001}}, {1500, []int64{1002, 1}}, {1500, []int64{1002, 3}}, {2001, []int64{1002, 1002, 5}},
	} {
		c.streamOf(f, w.ask, w.answers)
	}
}

func (c *pipeline) streamOf(f *ssa.Function, ask int64, answers []int64) {
	P := c.P
	cd := P.codec(c.r, "stream", f)
	m := cd.m
	m.channels = true
	m.maxIter = 3000
	m.maxSteps = 50000000
	requests := func(st *astate) (n int, last string) {
		for _, x := range st.calls {
			if strings.HasPrefix(x, "!get ") {
				n++
				last = x[5:]
			}
		}
		return
	}
	var urls []string
	m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
		fail := func(v aval) aout {
			return aout{st: st.clone(), rets: []aval{v, aErr{id: "!io"}}}
		}
		switch {
		case strings.HasPrefix(name, "(*net/http.Client).") || name == "net/http.Get":
			url, _ := args[len(args)-1].(aStr)
			n, _ := requests(st)
			if n >= len(answers) {
				n = len(answers) - 1
				st.calls = append(st.calls, "!again")
			}
			bad := fail(aNil{})
			st.calls = append(st.calls, "!get "+strKey(url))
			t := derefType(site.Common().Signature().Results().At(0).Type())
			var outs []aout
			for _, code := range []int64{500, 200} {
				s := st
				if code == 500 {
					s = st.clone()
				}
				p := aPtr{obj: m.alloc(s, t, m.fresh("response"))}
				m.setField(s, p.obj, "StatusCode", aInt{aconst(code), intType})
				m.setField(s, p.obj, "Body", aOpaque{id: fmt.Sprintf("body%d", n), t: nil})
				outs = append(outs, one(s, p, aErr{})...)
			}
			return append(outs, bad), true
		case name == "io.ReadAll":
			b, _ := unwrapOpaque(args[0])
			var n int
			if _, err := fmt.Sscanf(b.id, "body%d", &n); err != nil {
				m.giveUp("reading something that is not a response")
				return nil, true
			}
			bad := fail(aSlice{obj: -1, elem: byteType})
			id := m.alloc(st, types.NewSlice(byteType), fmt.Sprintf("answer%d", n))
			size := aconst(80 * answers[n])
			st.heap[id].n = size
			return append(one(st, aSlice{obj: id, n: size, cap: size, elem: byteType}, aErr{}), bad), true
		case name == "Close":
			bad := aout{st: st.clone(), rets: []aval{aErr{id: "!io"}}}
			return append(one(st, aErr{}), bad), true
		case name == "encoding/hex.EncodeToString":
			bs, ok := m.sliceBytes(st, args[0])
			if !ok {
				return nil, false
			}
			return one(st, aStr{id: "hex" + fmt.Sprint(bs)}), true
		case strings.HasPrefix(name, "fmt.Print"):
			return one(st, aInt{aconst(0), intType}, aErr{}), true
		}
		return nil, false
	}
	st := m.newState()
	ch := m.newChan(st, types.NewChan(types.SendRecv, types.Typ[types.Int]))
	var args []aval
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Chan); ok {
			args = append(args, ch)
		} else {
			args = append(args, aInt{aconst(ask), basicOf(p.Type())})
		}
	}
	tag := fmt.Sprintf(" (%d asked for, answers of %v headers)", ask, answers)
	// the bytes of header h of an answer
	prev := func(st *astate, a int, h int64) []ab {
		id := m.alloc(st, types.NewSlice(byteType), fmt.Sprintf("answer%d", a))
		var out []ab
		for i := int64(0); i < 32; i++ {
			out = append(out, m.getByte(st, aSlice{obj: id, elem: byteType}, aconst(80*h+4+i)))
		}
		return out
	}
	// what must come out: the hash of a header is in the next header
	type where struct {
		a int
		h int64
	}
	var want []where
	var next []where // where the request after each answer takes its hash from
	for a, n := range answers {
		for h := int64(1); h < n-1 && int64(len(want)) < ask; h++ {
			want = append(want, where{a, h})
		}
		if int64(len(want)) == ask || n < 1002 {
			break
		}
		next = append(next, where{a, n - 1})
	}
	good := 0
	c.r.count("streams interpreted", 1)
	for _, o := range m.run(f, args, nil, st) {
		if !cd.oblig(!o.panic, "panic", "the stream panics"+tag) {
			continue
		}
		vs, closed, known := m.queued(o.st, ch)
		cd.oblig(known && closed, "closed", "the stream is not closed"+tag)
		ok := true
		for i, v := range vs {
			if i >= len(want) || !m.sameBytes(o.st, m.arrayBytes(o.st, v, 32), prev(o.st, want[i].a, want[i].h)) {
				ok = false
				cd.oblig(false, "order", fmt.Sprintf("hash %d of the stream is not that of block %d%s", i, i, tag))
				break
			}
		}
		urls = urls[:0]
		for _, x := range o.st.calls {
			if strings.HasPrefix(x, "!get ") {
				urls = append(urls, x[5:])
			}
		}
		for i, u := range urls {
			if i == 0 {
				continue
			}
			if !cd.oblig(i-1 < len(next), "request", "more is asked for although the answer was short or everything has come"+tag) {
				break
			}
			b := prev(o.st, next[i-1].a, next[i-1].h)
			r := make([]ab, 32)
			for k := range b {
				r[31-k] = b[k]
			}
			cd.oblig(strings.Contains(u, "hex"+fmt.Sprint(r)), "request", "the next headers are not asked for from the last known block on"+tag)
		}
		if safeRetErr(o) {
			good++
			cd.oblig(len(vs) == len(want), "count", fmt.Sprintf("%d hashes are streamed instead of %d, and no error is reported%s", len(vs), len(want), tag))
		}
		_ = ok
	}
	cd.oblig(good > 0, "works", "the stream never succeeds"+tag)
}

// safeRetErr: the error result is nil.
func safeRetErr(o aout) bool {
	return succeeded(o)
}
