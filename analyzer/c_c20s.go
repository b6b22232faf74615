package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the stages between the channels ----

func (c *pipeline) stages() {
	P := c.P
	for _, f := range P.FuncsIn("jobs", "corereader2") {
		if f.Parent() != nil || testHelper(f) {
			continue
		}
		spawns := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					spawns = true
				}
			}
		}
		if spawns {
			c.stagesOf(f)
		}
	}
}

var pipelinePackages = []string{"jobs", "corereader2", "concurrency", "intrinsicobjectscri", "intrinsicobjectschi"}

func inPipeline(g *ssa.Function) bool {
	p := pkgPath(g) // of the generic function, where g is an instance of one
	for _, r := range pipelinePackages {
		if p == modulePath+"/"+r {
			return true
		}
	}
	return false
}

// importArgs: arguments for a function of the import: fresh channels, small numbers.
func (c *pipeline) importArgs(m *amachine, st *astate, f *ssa.Function, n int64) []aval {
	var args []aval
	for i, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Chan:
			args = append(args, m.newChan(st, p.Type()))
			continue
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				args = append(args, aInt{aconst(n), t})
				continue
			}
		}
		args = append(args, m.unknownVal(st, p.Type(), fmt.Sprintf("arg%d", i)))
	}
	return args
}

func (c *pipeline) stagesOf(f *ssa.Function) {
	P := c.P
	cd := P.codec(c.r, "stage", f)
	m := cd.m
	m.channels = true
	m.maxSteps = 20000000
	m.maxIter = 40
	m.enter = inPipeline
	m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
		return syncModel(m, st, site, name, args)
	}
	st := m.newState()
	m.run(f, c.importArgs(m, st, f, 2), nil, st)
	spawned := m.spawned
	c.r.count("functions that start goroutines", 1)
	for _, s := range spawned {
		if c.seen[s.site] {
			continue
		}
		c.seen[s.site] = true
		c.stage(cd, s)
	}
	m.over = false
}

// stage: interpret a goroutine on the channel it waits on.
func (c *pipeline) stage(cd *codec, s aspawn) {
	m := cd.m
	m.over = false
	m.why = map[string]bool{}
	m.blocked, m.spawned = nil, nil
	m.waits = 0
	items := 0
	m.model = func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
		if strings.HasSuffix(name, "WaitForNotBloated") {
			return one(st), true
		}
		if outs, ok := c.nodeModel(m, st, site, name, recv, args, items); ok {
			return outs, true
		}
		return syncModel(m, st, site, name, args)
	}
	m.run(s.fn, s.args, s.bind, s.st.clone())
	if len(m.blocked) == 0 {
		return // not a stage: it takes nothing from a channel
	}
	in := m.blocked[0].ch
	m.logSends = true
	defer func() { m.logSends = false }()
	cd.about(s.fn)
	et := m.blocked[0].elem()
	c.r.count("stages interpreted", 1)
	for k := 0; k <= 2; k++ {
		items = k
		m.blocked = nil
		m.over = false
		m.why = map[string]bool{}
		m.steps, m.forks = 0, 0
		st := s.st.clone()
		var its []aval
		for i := 0; i < k; i++ {
			v := c.item(m, st, et, i)
			if v == nil {
				cd.oblig(false, "item", "an item of type "+et.String()+" is not understood")
				return
			}
			its = append(its, v)
			m.send(st, in, v)
		}
		m.closeChan(st, in)
		before := map[int]int64{}
		for id, o := range st.heap {
			if _, ok := o.cells["tail"]; ok {
				before[id] = o.count("tail")
			}
		}
		good := 0
		outsOf := m.run(s.fn, s.args, s.bind, st)
		for _, o := range outsOf {
			if o.panic {
				continue // loud
			}
			good++
			outs := 0
			c.fetched(cd, o.st, its)
			for id, b := range before {
				if aPtr(aPtr{obj: id}) == in {
					continue
				}
				n := o.st.heap[id].count("tail")
				if n == b {
					continue
				}
				outs++
				vs, _, _ := m.queued(o.st, aPtr{obj: id})
				if !cd.oblig(n-b == int64(k), "count", fmt.Sprintf("%d items are passed on although %d came in", n-b, k)) {
					continue
				}
				for i, v := range vs {
					why := c.passedItem(m, o.st, its[i], v, i)
					cd.oblig(why == "", "item", fmt.Sprintf("item %d of %d is not what is passed on as item %d: %s", i, k, i, why))
				}
			}
			cd.oblig(outs == 1 || k == 0, "count", fmt.Sprintf("%d items come in and are passed on to %d channels", k, outs))
		}
		cd.oblig(good > 0, "ends", fmt.Sprintf("with %d items the goroutine never ends without a panic", k))
	}
}

func (b ablocked) elem() types.Type {
	return b.at.X.Type().Underlying().(*types.Chan).Elem()
}

func isHash(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && byteArray(t) && a.Len() == 32
}

// item number i of a channel.
func (c *pipeline) item(m *amachine, st *astate, t types.Type, i int) aval {
	if isHash(t) {
		return m.symArray(st, t, fmt.Sprintf("hash%d_", i))
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if num := c.P.methodOfType(t, "SequenceNumber"); num != nil {
			return m.numbered(st, t, aconst(int64(i)), c.numberOf(m, num))
		}
		return aPtr{obj: m.alloc(st, p.Elem(), fmt.Sprintf("item%d", i))}
	}
	return nil
}

func (c *pipeline) numberOf(m *amachine, num *ssa.Function) func(st *astate, v aval) (alin, bool) {
	return func(st *astate, v aval) (alin, bool) {
		for _, o := range m.run(num, []aval{v}, nil, st.clone()) {
			if i, ok := safeRet(o).(aInt); ok {
				return i.l, true
			}
		}
		return alin{}, false
	}
}

// passedItem: is what leaves the thing that came in?
func (c *pipeline) passedItem(m *amachine, st *astate, in, out aval, i int) string {
	switch x := in.(type) {
	case aAgg:
		if _, ok := out.(aAgg); ok {
			if !m.sameHash(st, in, out) {
				return "another hash"
			}
			return ""
		}
		// a numbered object with this hash
		p, ok := out.(aPtr)
		if !ok || p.cell != "" {
			return "not an object"
		}
		t := types.NewPointer(st.heap[p.obj].typ)
		num := c.P.methodOfType(t, "SequenceNumber")
		if num == nil {
			return "not a numbered object"
		}
		if n, ok := c.numberOf(m, num)(st, out); !ok || !n.isConst() || n.c != int64(i) {
			return "its number is not " + fmt.Sprint(i)
		}
		s := st.heap[p.obj].typ.Underlying().(*types.Struct)
		for k := 0; k < s.NumFields(); k++ {
			if isHash(s.Field(k).Type()) && m.sameHash(st, in, m.getField(st, p.obj, s.Field(k).Name())) {
				return ""
			}
		}
		return "its hash is not the hash that came in"
	case aPtr:
		p, ok := out.(aPtr)
		if !ok {
			return "not an object"
		}
		if m.samePtr(x, p) {
			if num := c.P.methodOfType(types.NewPointer(st.heap[p.obj].typ), "SequenceNumber"); num != nil {
				if n, ok := c.numberOf(m, num)(st, out); !ok || !n.isConst() || n.c != int64(i) {
					return "its number has changed"
				}
			}
			return ""
		}
		// a part of it
		s, ok := st.heap[x.obj].typ.Underlying().(*types.Struct)
		if ok && p.cell == "" {
			for k := 0; k < s.NumFields(); k++ {
				if aggregate(s.Field(k).Type()) && m.sub(st, x.obj, fmt.Sprint(k), alin{}, s.Field(k).Type()) == p.obj {
					return ""
				}
			}
		}
		return "another object"
	}
	return "not understood"
}

// nodeModel: the node answers a request, or fails in one of the ways it can.
func (c *pipeline) nodeModel(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval, items int) ([]aout, bool) {
	res := site.Common().Signature().Results()
	failed := func(vs ...aval) aout {
		s := st.clone()
		s.calls = append(s.calls, "!bad")
		return aout{st: s, rets: append(vs, aErr{id: "!io"})}
	}
	switch {
	case strings.HasPrefix(name, "(*net/http.Client)."):
		// every combination of failures for one item; one retry in all for more
		n := 0
		for _, x := range st.calls {
			if x == "!get" {
				n++
			}
		}
		if items > 1 && n > items {
			return nil, true
		}
		st.calls = append(st.calls, "!get")
		url, _ := args[len(args)-1].(aStr)
		outs := []aout{failed(aNil{})}
		for _, code := range []int64{500, 200} {
			s := st
			if code == 500 {
				s = st.clone()
			}
			p := aPtr{obj: m.alloc(s, derefType(res.At(0).Type()), m.fresh("response"))}
			m.setField(s, p.obj, "StatusCode", aInt{aconst(code), intType})
			m.setField(s, p.obj, "Body", aOpaque{id: m.fresh("body")})
			s.calls = append(s.calls, map[bool]string{true: "!got ", false: "!bad "}[code == 200]+strKey(url))
			outs = append(outs, one(s, p, aErr{})...)
		}
		return outs, true
	case name == "io.ReadAll":
		bad := failed(aSlice{obj: -1, elem: byteType})
		id := m.alloc(st, types.NewSlice(byteType), m.fresh("content"))
		n := m.symbol(m.fresh("size"), 0, 1<<40)
		st.heap[id].n = n
		st.calls = append(st.calls, fmt.Sprint("!read ", id))
		return append(one(st, aSlice{obj: id, n: n, cap: n, elem: byteType}, aErr{}), bad), true
	case name == "Close" && res.Len() == 1:
		return append(one(st, aErr{}), failed()), true
	case name == "encoding/hex.EncodeToString":
		if bs, ok := m.sliceBytes(st, args[0]); ok {
			return one(st, aStr{id: "hex" + fmt.Sprint(bs)}), true
		}
	case strings.HasPrefix(name, modulePath+"/intrinsicobjects.Parse") && len(args) == 2:
		body, _ := args[0].(aSlice)
		blk, _ := args[1].(aPtr)
		var outs []aout
		if res.Len() == 1 {
			outs = append(outs, failed())
		}
		st.calls = append(st.calls, fmt.Sprintf("!parse %s %d %d", name[strings.LastIndex(name, ".")+1:], body.obj, blk.obj))
		if res.Len() == 1 {
			return append(outs, one(st, aErr{})...), true
		}
		return one(st), true
	}
	return nil, false
}

// fetched: a block that is passed on was asked for by its own hash, completely
// read, and parsed, without error and by the right parser, into itself.
func (c *pipeline) fetched(cd *codec, st *astate, its []aval) {
	m := cd.m
	asks := false
	for _, x := range st.calls {
		asks = asks || x == "!get"
	}
	if !asks {
		return
	}
	for i, it := range its {
		p, ok := it.(aPtr)
		if !ok {
			continue
		}
		s, _ := st.heap[p.obj].typ.Underlying().(*types.Struct)
		var hash string
		blocks := map[string]bool{}
		for k := 0; s != nil && k < s.NumFields(); k++ {
			t := s.Field(k).Type()
			if isHash(t) {
				bs := m.arrayBytes(st, m.getField(st, p.obj, s.Field(k).Name()), 32)
				r := make([]ab, len(bs))
				for q := range bs {
					r[len(bs)-1-q] = bs[q]
				}
				hash = "/rest/block/hex" + fmt.Sprint(r)
			} else if aggregate(t) {
				blocks[fmt.Sprint(m.sub(st, p.obj, fmt.Sprint(k), alin{}, t))] = true
			}
		}
		sent := -1
		for j, x := range st.calls {
			if x == fmt.Sprintf("!send %d", p.obj) {
				sent = j
			}
		}
		if sent < 0 {
			continue // said elsewhere
		}
		url, content, kind, into, body := "", "", "", "", ""
		for j := sent - 1; j >= 0; j-- {
			x := st.calls[j]
			if strings.HasPrefix(x, "!bad") {
				break
			}
			f := strings.Fields(x)
			switch f[0] {
			case "!parse":
				kind, body, into = f[1], f[2], f[3]
			case "!read":
				content = f[1]
			}
			if f[0] == "!got" {
				url = strings.ReplaceAll(strings.TrimPrefix(x, "!got "), `"+hex[`, "hex[")
				break
			}
		}
		c.r.count("fetches checked", 1)
		cd.oblig(hash != "" && strings.Contains(url, hash), "fetch", fmt.Sprintf("block %d is passed on without having been asked for by its own hash", i))
		cd.oblig(content != "" && content == body && blocks[into], "fetch", fmt.Sprintf("block %d is passed on without what was read having been parsed into it", i))
		ext := map[string]string{"ParseBinaryBlock": ".bin", "ParseJsonBlock": ".json"}[kind]
		cd.oblig(ext != "" && strings.Contains(url[strings.LastIndex(url, "]")+1:], ext), "fetch", fmt.Sprintf("block %d is parsed as another format than it was asked for in", i))
	}
}
