package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// closedFS models a file system in which exactly the files made during the interpretation exist. Files have a length,
// descriptors are open or closed, and every operation is logged in order (st.writes, operations other than writes
// under the name "!op path").

func (m *amachine) note(st *astate, op, what string, site ssa.Instruction) {
	st.writes = append(st.writes[:len(st.writes):len(st.writes)], awrite{file: "!" + op + " " + what, site: site})
}

// pathOf: the file a descriptor was opened for.
func pathOfFD(id string) string {
	if i := strings.Index(id, "path:"); i >= 0 {
		id = id[i+len("path:"):]
		if j := strings.LastIndex(id, "~"); j >= 0 {
			id = id[:j]
		}
	}
	return id
}

func (m *amachine) exists(st *astate, p string) bool { return st.bools["exists:"+p] }

// existing files, sorted.
func (m *amachine) existing(st *astate) []string {
	var out []string
	for k, v := range st.bools {
		if v && strings.HasPrefix(k, "exists:") {
			out = append(out, strings.TrimPrefix(k, "exists:"))
		}
	}
	sort.Strings(out)
	return out
}

// openFDs: descriptors that are open.
func (m *amachine) openFDs(st *astate) []string {
	var out []string
	for k, v := range st.bools {
		if v && strings.HasPrefix(k, "open:") {
			out = append(out, strings.TrimPrefix(k, "open:"))
		}
	}
	sort.Strings(out)
	return out
}

func closedFS(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	failed := func(vs ...aval) aout {
		c := st.clone()
		id := noFailure
		if !m.reliable {
			id = m.fresh("ioerr")
		}
		c.errs[id] = false
		return aout{st: c, rets: append(vs, aErr{id: "!" + id})}
	}
	res := func(i int) types.Type { return site.Common().Signature().Results().At(i).Type() }
	path := func(v aval) (string, bool) {
		s, ok := v.(aStr)
		return "path:" + strKey(s), ok
	}
	missing := func(p string, vs ...aval) aout {
		return aout{st: st, rets: append(vs, aErr{id: "!missing:" + p})}
	}
	switch name {
	case "os.Open", "os.Create", "os.OpenFile":
		p, ok := path(args[0])
		if !ok {
			return nil, false
		}
		flags := int64(0)
		switch name {
		case "os.Create":
			flags = 0x242
		case "os.OpenFile":
			fl, ok := m.intOf(args[1])
			if !ok || !fl.isConst() {
				m.giveUp("open flags")
				return nil, false
			}
			flags = fl.c
		}
		if !m.exists(st, p) && flags&0x40 == 0 {
			m.note(st, "tried", p, site)
			return []aout{missing(p, aNil{})}, true
		}
		bad := failed(aNil{})
		f := m.fileObj(st, p)
		if !m.exists(st, p) || flags&0x200 != 0 {
			o := m.mut2(st, f)
			o.cells, o.unknown, o.n = map[string]acell{}, "", aconst(0)
			m.note(st, map[bool]string{true: "truncate", false: "create"}[m.exists(st, p)], p, site)
			st.bools["exists:"+p] = true
		}
		m.note(st, "open", p, site)
		id := m.fresh("fd:" + p)
		st.files[id] = f
		m.writeCell(st, m.fileObj(st, id+"#pos"), "v", alin{}, false, aInt{aconst(0), types.Typ[types.Int64]})
		st.bools["open:"+id] = true
		if flags&0x400 != 0 {
			st.bools["append:"+id] = true
		}
		if flags&3 != 0 {
			st.bools["writable:"+id] = true
		}
		return []aout{bad, {st: st, rets: []aval{aOpaque{id, res(0)}, aErr{}}}}, true
	case "os.Stat", "os.Lstat":
		p, ok := path(args[0])
		if !ok {
			return nil, false
		}
		if !m.exists(st, p) {
			return []aout{missing(p, aNil{})}, true
		}
		return []aout{failed(aNil{}), {st: st, rets: []aval{m.statOf(st, p, res(0)), aErr{}}}}, true
	case "os.Remove", "os.RemoveAll":
		p, ok := path(args[0])
		if !ok {
			return nil, false
		}
		bad := failed()
		if name == "os.Remove" && !m.exists(st, p) {
			return []aout{missing(p)}, true
		}
		m.note(st, "remove", p, site)
		for _, q := range m.existing(st) {
			if q == p || name == "os.RemoveAll" && strings.HasPrefix(strings.TrimSuffix(q, "\""), strings.TrimSuffix(p, "\"")+"/") {
				delete(st.bools, "exists:"+q)
				delete(st.files, q)
			}
		}
		return []aout{bad, {st: st, rets: []aval{aErr{}}}}, true
	case "os.ReadFile":
		p, ok := path(args[0])
		if !ok {
			return nil, false
		}
		if !m.exists(st, p) {
			return []aout{missing(p, aSlice{obj: -1, elem: byteType})}, true
		}
		return wholeFileModel(m, st, site, name, recv, args)
	case "os.WriteFile":
		p, ok := path(args[0])
		if !ok {
			return nil, false
		}
		m.note(st, map[bool]string{true: "truncate", false: "create"}[m.exists(st, p)], p, site)
		st.bools["exists:"+p] = true
		return wholeFileModel(m, st, site, name, recv, args)
	case "errors.Is":
		if e, ok := args[0].(aErr); ok {
			if e.id == "" {
				return one(st, aBool{known: true}), true
			}
			is := "!missing:"
			if ld, ok := site.Common().Args[1].(*ssa.UnOp); ok {
				if g, ok := ld.X.(*ssa.Global); ok && g.Name() == "ErrClosed" {
					is = "!closed"
				} else if ok && g.Name() != "ErrNotExist" {
					is = "!@" + g.Pkg.Pkg.Path() + "." + g.Name()
				}
			}
			return one(st, aBool{known: true, val: strings.HasPrefix(e.id, is)}), true
		}
	case "fmt.Sprintf":
		s, ok := args[0].(aStr)
		vs, ok2 := m.sliceVals(st, args[1])
		if ok && ok2 && s.known {
			var goVals []interface{}
			for _, v := range vs {
				switch x := unwrapped(v).(type) {
				case aInt:
					if !x.l.isConst() {
						return nil, false
					}
					goVals = append(goVals, x.l.c)
				case aStr:
					if !x.known {
						return nil, false
					}
					goVals = append(goVals, x.s)
				default:
					return nil, false
				}
			}
			return one(st, aStr{known: true, s: fmt.Sprintf(s.s, goVals...)}), true
		}
	case "io.ReadAll":
		r, ok := unwrapOpaque(args[0])
		if !ok {
			return nil, false
		}
		bad := failed(aSlice{obj: -1, elem: byteType})
		f := m.fileObj(st, r.id)
		nid := m.alloc(st, types.NewSlice(byteType), "")
		m.restore(st, nid, m.snapshot(st, f))
		n := st.heap[f].n
		return []aout{bad, {st: st, rets: []aval{aSlice{obj: nid, n: n, cap: n, elem: byteType}, aErr{}}}}, true
	case "io.Copy":
		d, ok := unwrapOpaque(args[0])
		s, ok2 := unwrapOpaque(args[1])
		if !ok || !ok2 {
			return nil, false
		}
		if !st.bools["open:"+d.id] || !st.bools["open:"+s.id] {
			return []aout{{st: st, rets: []aval{i64(aconst(0)), aErr{id: "!closed"}}}}, true
		}
		bad := failed(i64(aconst(0)))
		sn := st.heap[m.fileObj(st, s.id)].n
		if !sn.isConst() {
			m.giveUp("copy of unknown length")
			return []aout{bad}, true
		}
		df := m.fileObj(st, d.id)
		pos := m.filePos(st, d.id)
		if st.bools["append:"+d.id] {
			pos = st.heap[df].n
		}
		var bs []aval
		for i := m.filePos(st, s.id).c; i < sn.c; i++ {
			b := m.getByte(st, aSlice{obj: m.fileObj(st, s.id), elem: byteType}, aconst(i))
			m.putByte(st, aSlice{obj: df, off: pos, elem: byteType}, aconst(int64(len(bs))), b)
			bs = append(bs, aInt{m.fromBytes(st, [8]ab{b}), byteType})
		}
		n := aconst(int64(len(bs)))
		m.grow(st, d.id, pos.add(n, 1))
		st.writes = append(st.writes[:len(st.writes):len(st.writes)], awrite{d.id, pos, n, bs, site})
		return []aout{bad, {st: st, rets: []aval{i64(n), aErr{}}}}, true
	case "encoding/binary.Write", "encoding/binary.Read":
		r, ok := unwrapOpaque(args[0])
		if !ok {
			return nil, false
		}
		ob, isIface := args[1].(aIface)
		big := isIface && strings.Contains(ob.t.String(), "big")
		read := name == "encoding/binary.Read"
		v := unwrapped(args[2])
		if i, ok := args[2].(aIface); ok {
			t := i.t
			var p aPtr
			if pt, isP := t.Underlying().(*types.Pointer); isP {
				p, ok = v.(aPtr)
				if !ok {
					return nil, false
				}
				t = pt.Elem()
				if !read {
					v = m.load(st, p, t)
				}
			}
			b := basicOf(t)
			if b == nil || b.Info()&types.IsInteger == 0 {
				return nil, false
			}
			w := int64(widthOf(b))
			id := m.alloc(st, types.NewSlice(byteType), "")
			buf := aSlice{obj: id, n: aconst(w), cap: aconst(w), elem: byteType}
			at := func(j int) alin {
				if big {
					return aconst(w - 1 - int64(j))
				}
				return aconst(int64(j))
			}
			if read {
				outs, ok := m.fileOp(st, site, r, "Read", []aval{buf})
				if !ok {
					return nil, false
				}
				for k := range outs {
					o := &outs[k]
					if e, isE := o.rets[len(o.rets)-1].(aErr); isE && e.id == "" {
						var bs [8]ab
						for j := 0; j < int(w); j++ {
							bs[j] = m.getByte(o.st, buf, at(j))
						}
						m.store(o.st, p, aInt{m.fromBytes(o.st, bs), b})
					}
					o.rets = o.rets[len(o.rets)-1:]
				}
				return outs, true
			}
			l, ok := m.intOf(v)
			if !ok {
				return nil, false
			}
			bs := m.bytesOf(st, l)
			for j := 0; j < int(w); j++ {
				m.putByte(st, buf, at(j), bs[j])
			}
			outs, ok := m.fileOp(st, site, r, "Write", []aval{buf})
			for k := range outs {
				outs[k].rets = outs[k].rets[len(outs[k].rets)-1:]
			}
			return outs, ok
		}
	case "github.com/edsrzf/mmap-go.Map":
		r, ok := unwrapOpaque(args[0])
		if !ok {
			return nil, false
		}
		none := aSlice{obj: -1, elem: byteType}
		if !st.bools["open:"+r.id] {
			return []aout{{st: st, rets: []aval{none, aErr{id: "!closed"}}}}, true
		}
		bad := failed(none)
		f := m.fileObj(st, r.id)
		n := st.heap[f].n
		if n == aconst(0) {
			return []aout{bad, {st: st, rets: []aval{none, aErr{id: "!empty"}}}}, true
		}
		id := m.fresh("map:" + "path:" + pathOfFD(r.id))
		st.bools["mapped:"+id] = true
		m.note(st, "map", pathOfFD(r.id), site)
		nid := m.alloc(st, types.NewSlice(byteType), "")
		m.restore(st, nid, m.snapshot(st, f))
		st.files[id] = nid
		return []aout{bad, {st: st, rets: []aval{aSlice{obj: nid, n: n, cap: n, elem: byteType}, aErr{}}}}, true
	case "(*github.com/edsrzf/mmap-go.MMap).Unmap":
		p, ok := args[0].(aPtr)
		if !ok {
			return nil, false
		}
		v := m.load(st, p, derefType(site.Common().Args[0].Type()))
		s, ok := v.(aSlice)
		if !ok {
			return nil, false
		}
		bad := failed()
		for id, o := range st.files {
			if o == s.obj && strings.HasPrefix(id, "map:") {
				delete(st.bools, "mapped:"+id)
			}
		}
		m.store(st, p, aNil{})
		return []aout{bad, {st: st, rets: []aval{aErr{}}}}, true
	case modulePath + "/memfile.NewAppendOptimizedFile":
		if r, ok := unwrapOpaque(args[0]); ok {
			return []aout{failed(aNil{}), {st: st, rets: []aval{aOpaque{r.id, res(0)}, aErr{}}}}, true
		}
	case "(*os.File).Name":
		if r, ok := unwrapOpaque(args[0]); ok {
			return one(st, aStr{id: "name(" + pathOfFD(r.id) + ")"}), true
		}
	}
	return binModel(m, st, site, name, recv, args)
}

// grow: a file reaches to at least end.
func (m *amachine) grow(st *astate, id string, end alin) {
	f := m.fileObj(st, id)
	n := st.heap[f].n
	d := m.ivOf(st, end.add(n, -1))
	switch {
	case d.hi <= 0:
	case d.lo >= 0:
		m.mut2(st, f).n = end
	default:
		m.giveUp("file length")
	}
}

// closedOp: what a descriptor refuses.
func (m *amachine) closedOp(st *astate, site ssa.CallInstruction, r aOpaque, op string) ([]aout, bool) {
	rs := site.Common().Signature().Results()
	refuse := func(why string) ([]aout, bool) {
		var vs []aval
		for i := 0; i < rs.Len()-1; i++ {
			vs = append(vs, m.zero(st, rs.At(i).Type()))
		}
		return []aout{{st: st, rets: append(vs, aErr{id: "!" + why})}}, true
	}
	if !strings.HasPrefix(r.id, "fd:") {
		return nil, false
	}
	switch op {
	case "Read", "ReadAt", "Write", "WriteAt", "Seek", "Sync", "Truncate", "Stat":
		if !st.bools["open:"+r.id] {
			return refuse("closed")
		}
	}
	switch op {
	case "Write", "WriteAt", "Truncate":
		if !st.bools["writable:"+r.id] {
			return refuse("read only")
		}
	}
	if op == "WriteAt" && st.bools["append:"+r.id] && strings.HasSuffix(typeKey(r.t), "os.File") {
		return refuse("WriteAt in append mode")
	}
	if op == "Close" && !st.bools["open:"+r.id] {
		return refuse("closed")
	}
	return nil, false
}

// collect forgets the objects that nothing reachable from the roots, the files and the package variables names.
func (m *amachine) collect(st *astate, roots ...aval) {
	live := map[int]bool{}
	var work []int
	mark := func(id int) {
		if !live[id] {
			live[id] = true
			work = append(work, id)
		}
	}
	var value func(v aval)
	var object func(o *aobj)
	value = func(v aval) {
		switch t := v.(type) {
		case aPtr:
			mark(t.obj)
		case aSlice:
			mark(t.obj)
		case aSub:
			mark(t.obj)
		case aAgg:
			object(t.o)
		case aIface:
			value(t.v)
		case aIter:
			value(t.m)
			if t.known {
				mark(t.at)
			}
		case aFn:
			for _, b := range t.bind {
				value(b)
			}
		case aTuple:
			for _, b := range t {
				value(b)
			}
		}
	}
	object = func(o *aobj) {
		for _, k := range o.keys {
			value(k)
		}
		for k, c := range o.cells {
			value(c.v)
			if o.isMap {
				var id int
				if n, _ := fmt.Sscanf(strings.TrimPrefix(k, "#"), "@%d", &id); n == 1 {
					mark(id)
				}
			}
		}
		for _, s := range o.subs {
			object(s)
		}
	}
	for _, v := range roots {
		value(v)
	}
	for _, id := range st.files {
		mark(id)
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		if o := st.heap[id]; o != nil {
			object(o)
		}
	}
	for id := range st.heap {
		if !live[id] {
			delete(st.heap, id)
			delete(st.own, id)
		}
	}
}
