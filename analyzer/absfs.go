package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- a file system for the interpreter: whole files by path ----

// fsModel keeps files by their path: what os.WriteFile, os.Create and the handles write is what
// os.ReadFile and later handles read. A path never written either is missing or fails.
func fsModel(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	failed := func(vs ...aval) aout {
		c := st.clone()
		id := m.fresh("ioerr")
		c.errs[id] = false
		return aout{st: c, rets: append(vs, aErr{id: "!" + id})}
	}
	res := func(i int) types.Type { return site.Common().Signature().Results().At(i).Type() }
	path := func(v aval) (string, bool) {
		s, ok := v.(aStr)
		return "path:" + strKey(s), ok
	}
	switch name {
	case "os.WriteFile", "os.ReadFile":
		p, ok := path(args[0])
		if !ok {
			return nil, false
		}
		if name == "os.WriteFile" {
			if s, isS := args[1].(aSlice); isS && !s.n.isConst() {
				m.forget(st, p, m.fresh("contents"))
				return []aout{failed(), {st: st, rets: []aval{aErr{}}}}, true
			}
			return wholeFileModel(m, st, site, name, recv, args)
		}
		if _, known := st.files[p]; known && !st.bools["missing:"+p] {
			return wholeFileModel(m, st, site, name, recv, args)
		}
		none := aSlice{obj: -1, elem: byteType}
		c := st.clone()
		return []aout{failed(none), {st: c, rets: []aval{none, aErr{id: "!missing:" + p}}}}, true
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		// reads its argument
		return []aout{failed(aSlice{obj: -1, elem: byteType}), {st: st, rets: []aval{m.unknownVal(st, res(0), m.fresh("json")), aErr{}}}}, true
	case "os.IsNotExist":
		if e, ok := args[0].(aErr); ok {
			if strings.HasPrefix(e.id, "!missing:") {
				return one(st, aBool{known: true, val: true}), true
			}
			return one(st, aBool{known: true}), true
		}
	case "os.MkdirAll", "os.Mkdir":
		return []aout{failed(), {st: st, rets: []aval{aErr{}}}}, true
	case "os.Remove", "os.RemoveAll":
		if p, ok := path(args[0]); ok {
			bad := failed()
			if _, known := st.files[p]; known {
				st.bools["missing:"+p] = true
			}
			return []aout{bad, {st: st, rets: []aval{aErr{}}}}, true
		}
	case "os.Create", "os.Open", "os.OpenFile":
		p, ok := path(args[0])
		if !ok {
			return nil, false
		}
		bad := failed(aNil{})
		trunc := name == "os.Create"
		if name == "os.OpenFile" {
			if fl, ok := m.intOf(args[1]); ok && fl.isConst() {
				trunc = fl.c&0x200 != 0
			} else {
				m.giveUp("open flags")
			}
		}
		f := m.fileObj(st, p)
		if trunc {
			o := m.mut2(st, f)
			o.cells, o.unknown, o.n = map[string]acell{}, "", aconst(0)
			delete(st.bools, "missing:"+p)
		}
		id := m.fresh("fd:" + p)
		st.files[id] = f
		m.writeCell(st, m.fileObj(st, id+"#pos"), "v", alin{}, false, aInt{aconst(0), types.Typ[types.Int64]})
		return []aout{bad, {st: st, rets: []aval{aOpaque{id, res(0)}, aErr{}}}}, true
	case "(*os.File).Truncate", "Truncate":
		r, ok := aOpaque{}, false
		if recv != nil {
			r, ok = unwrapOpaque(recv)
		} else if len(args) > 0 {
			r, ok = unwrapOpaque(args[0])
			args = args[1:]
		}
		n, ok2 := m.intOf(args[0])
		if !ok || !ok2 {
			return nil, false
		}
		bad := failed()
		m.mut2(st, m.fileObj(st, r.id)).n = n
		return []aout{bad, {st: st, rets: []aval{aErr{}}}}, true
	case "(*os.File).Stat", "Stat":
		r, ok := aOpaque{}, false
		if recv != nil {
			r, ok = unwrapOpaque(recv)
		} else if len(args) > 0 {
			r, ok = unwrapOpaque(args[0])
		}
		if !ok {
			return nil, false
		}
		return []aout{failed(aNil{}), {st: st, rets: []aval{m.statOf(st, r.id, res(0)), aErr{}}}}, true
	case "Size":
		if r, ok := unwrapOpaque(recv); ok && strings.HasPrefix(r.id, "stat:") {
			return one(st, aInt{st.heap[m.fileObj(st, r.id)].n, types.Typ[types.Int64]}), true
		}
	}
	return nil, false
}

// statOf: the length a file has now.
func (m *amachine) statOf(st *astate, file string, t types.Type) aval {
	id := m.fresh("stat:" + file)
	n := st.heap[m.fileObj(st, file)].n
	m.mut2(st, m.fileObj(st, id)).n = n
	return aOpaque{id, t}
}
