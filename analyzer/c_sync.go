package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: every Sync / Close (and flush) method covers every constituent store of its type on every success path.

type syncGroup struct {
	name    string
	methods []string // methods whose completeness is checked
	ops     []string // methods of a constituent that count as covering it
	needs   []string // a field is a constituent when its type has one of these
}

var syncGroups = []syncGroup{
	{"sync", []string{"Sync", "FlushFile"}, []string{"Sync", "FlushFile", "SaveFile", "Flush", "flush"}, []string{"Sync", "FlushFile", "SaveFile", "Flush"}},
	{"close", []string{"Close", "CloseAll"}, []string{"Close", "CloseAll", "Unmap", "FlushFile", "Sync!", "SaveFile", "Flush", "flush"}, []string{"Close", "CloseAll", "Unmap", "FlushFile", "SaveFile", "Flush"}},
	{"close-this", []string{"CloseThis"}, []string{"Close", "Unmap", "FlushFile", "SaveFile", "Flush", "flush"}, []string{"Close", "Unmap", "FlushFile", "SaveFile"}},
}

// Fields that hold an object another constituent of the same type wraps and closes.
var wrappedFields = map[string]string{
	"wordfile.WordFile.underlying":             "wordfile.WordFile.file",
	"weddingcakeback.TierTop.underlyingFile":   "weddingcakeback.TierTop.hashesFile",
	"weddingcakeback.TierBelow.underlyingFile": "weddingcakeback.TierBelow.hashesFile",
}

// "Nothing pending" markers: a flush may skip the constituent while its marker has its empty value.
var pendingMarker = map[string]string{
	"intarrayarray.IntArrayMapStore.latestFilepath": "intarrayarray.IntArrayMapStore.latestIntArrayArray",
	"intarrayarray.IntArrayMapStore.olderFilepath":  "intarrayarray.IntArrayMapStore.olderIntArrayArray",
}

func hasMethod(t types.Type, names []string) string {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		if _, isI := t.Underlying().(*types.Interface); isI && tt != t {
			continue
		}
		ms := types.NewMethodSet(tt)
		for _, n := range names {
			n = strings.TrimSuffix(n, "!")
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == n {
					return n
				}
			}
		}
	}
	return ""
}

// constituentType: the type of a field or of its elements.
func constituentType(t types.Type) types.Type {
	if _, named := types.Unalias(t).(*types.Named); named {
		return t // a named slice (a memory map) is one object
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return t
}

// aliasOf: field B of a type is only ever set to the value field A is set to, in the same function.
func (P *Prog) aliasFields() map[string]string {
	type st struct {
		key string
		val ssa.Value
	}
	per := map[string][]map[string]bool{}
	for _, f := range P.Funcs {
		var sts []st
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey(fa.X, fa.Field)
				if k == "" {
					continue
				}
				v := stripIface(s.Val)
				if c, ok := v.(*ssa.Const); ok && c.IsNil() {
					continue
				}
				sts = append(sts, st{k, v})
			}
		}
		copies := map[string]map[string]bool{}
		for _, a := range sts {
			if u, ok := a.val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if k := fieldKey(fa.X, fa.Field); k != "" && k != a.key && typeOfKey(k) == typeOfKey(a.key) {
						for _, p := range [][2]string{{k, a.key}, {a.key, k}} {
							if copies[p[0]] == nil {
								copies[p[0]] = map[string]bool{}
							}
							copies[p[0]][p[1]] = true
						}
					}
				}
			}
		}
		for _, a := range sts {
			same := map[string]bool{}
			for k := range copies[a.key] {
				same[k] = true
			}
			for _, b := range sts {
				if a.key != b.key && a.val == b.val && typeOfKey(a.key) == typeOfKey(b.key) {
					same[b.key] = true
				}
			}
			per[a.key] = append(per[a.key], same)
		}
	}
	out := map[string]string{}
	for k, l := range per {
		for c := range l[0] {
			all := true
			for _, m := range l[1:] {
				if !m[c] {
					all = false
				}
			}
			if all && (out[k] == "" || c < out[k]) {
				out[k] = c
			}
		}
	}
	return out
}

func typeOfKey(k string) string {
	i := strings.LastIndex(k, ".")
	return k[:i]
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch t := v.(type) {
		case *ssa.MakeInterface:
			v = t.X
		case *ssa.ChangeInterface:
			v = t.X
		case *ssa.ChangeType:
			v = t.X
		default:
			return v
		}
	}
}

func init() {
	checks["C07"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"sync-covers: on every success path of a Sync/Flush/Close method, each field (or element of a map or slice field) whose type can itself be synced/flushed/closed has that called on it, or is known to be nil there",
			"no-drop: content kept in memory is saved before it is replaced or dropped, and is marked as pending whenever it is changed",
			"sync-persists: a type that writes its content out in Close also does so in Sync",
		}
		r.Assume = []string{"a constituent's own Sync/Close is checked at its own type; types outside the module are trusted to do what their name says"}
		a := newEF(P)
		alias := P.aliasFields()
		for _, pk := range P.Pkgs {
			if pk.Types == nil {
				continue
			}
			sc := pk.Types.Scope()
			for _, nm := range sc.Names() {
				tn, ok := sc.Lookup(nm).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				named, ok := tn.Type().(*types.Named)
				if !ok {
					continue
				}
				stt, ok := named.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for _, g := range syncGroups {
					for _, mn := range g.methods {
						m := P.Method(named, mn)
						if m == nil || m.Blocks == nil || errResultIdx(m.Signature) < 0 {
							continue
						}
						P.checkSyncMethod(r, a, alias, named, stt, g, m)
					}
				}
				P.checkPersists(r, named)
				P.checkNoDrop(r, a, named, stt)
			}
		}
		r.floor("methods", 35)
		r.floor("memory-held arrays", 3)
		r.floor("obligations sync", 25)
		r.floor("obligations close", 25)
		return r
	}
}

func (P *Prog) checkSyncMethod(r *Result, a *efAnalysis, alias map[string]string, named *types.Named, stt *types.Struct, g syncGroup, m *ssa.Function) {
	tk := typeKey(named)
	var dims []string
	idx := map[string]int{}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		ct := constituentType(f.Type())
		if p, ok := ct.Underlying().(*types.Pointer); ok {
			if _, named := ct.(*types.Named); !named {
				ct = p.Elem()
			}
		}
		if hasMethod(ct, g.needs) == "" {
			continue
		}
		k := tk + "." + f.Name()
		if g.name == "sync" && typeKey(ct) == "os.File" && !P.writtenThrough(k) {
			r.count("files never written through their field", 1)
			continue // nothing to sync
		}
		if g.name == "sync" && hasMethod(ct, []string{"Sync", "FlushFile", "SaveFile"}) == "" && hasMethod(ct, []string{"Write", "WriteByte", "Flush"}) == "" {
			continue
		}
		idx[k] = len(dims)
		dims = append(dims, k)
	}
	r.count("methods", 1)
	if len(dims) == 0 {
		return
	}
	opset := map[string]bool{}
	for _, o := range g.ops {
		opset[strings.TrimSuffix(o, "!")] = true
	}
	cover := func(k string) []int {
		k = strings.TrimSuffix(k, "[]")
		var out []int
		if i, ok := idx[k]; ok {
			out = append(out, i)
		}
		for d, i := range idx {
			if d != k && (wrappedFields[d] == k || alias[d] == k) {
				out = append(out, i)
			}
		}
		sort.Ints(out)
		return out
	}
	q := newEvQuery(P, a, dims)
	q.force = true
	q.norm = func(v []int8) {
		for i := range v {
			if v[i] > 1 {
				v[i] = 1
			}
		}
	}
	q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		c := site.Common()
		var recv ssa.Value
		name := ""
		if c.IsInvoke() {
			recv, name = c.Value, c.Method.Name()
		} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
			recv, name = c.Args[0], f.Name()
		}
		if recv == nil || !opset[name] {
			return nil, false
		}
		ct := derefType(recv.Type())
		// a buffered writer must be flushed; a store with a Close of its own is not closed by syncing it
		if g.name != "sync" && name != "Close" && name != "CloseAll" && name != "Unmap" && hasMethod(ct, []string{"Close", "Unmap"}) != "" {
			return nil, false
		}
		if g.name == "sync" && (name == "Flush" || name == "flush") && hasMethod(ct, []string{"Sync"}) != "" {
			return nil, false
		}
		if types.Identical(ct, named) {
			return nil, false // a method of the type itself: look inside
		}
		var out []int
		for _, k := range P.keysOf(recv, ctx) {
			out = append(out, cover(k)...)
		}
		return out, len(out) > 0
	}
	q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, taken = u.X, !taken
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) || (bo.Op == token.EQL) != taken {
			return nil
		}
		for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			c, ok := xy[1].(*ssa.Const)
			if !ok {
				continue
			}
			var out []int
			if c.IsNil() {
				for _, k := range P.keysOf(xy[0], ctx) {
					out = append(out, cover(k)...)
				}
			} else if c.Value != nil && c.Value.String() == `""` {
				for _, k := range P.keysOf(xy[0], ctx) {
					if s, ok := pendingMarker[k]; ok {
						out = append(out, cover(s)...)
					}
				}
			}
			if len(out) > 0 {
				return out
			}
		}
		return nil
	}
	ctx := &rctx{f: m}
	outs := q.outcomes(m, ctx)
	if q.Over {
		r.oblig(false, Finding{Rule: "sync-covers", Func: fnName(m), Construct: "undecided", Pos: P.Pos(m.Pos()), Msg: "too many paths to decide"})
		return
	}
	for i, d := range dims {
		r.count("obligations "+strings.TrimSuffix(g.name, "-this"), 1)
		bad := -1
		for j, o := range outs {
			if o.err != vNonNil && o.vec[i] == 0 {
				if bad < 0 || len(o.path) < len(outs[bad].path) {
					bad = j
				}
			}
		}
		fd := Finding{Rule: "sync-covers", Func: fnName(m), Construct: d, Pos: P.Pos(m.Pos())}
		if bad >= 0 {
			fd.Msg = fmt.Sprintf("a path of %s that can report success leaves %s without %s", m.Name(), d, g.name)
			fd.Path = P.pathText(outs[bad].path)
		} else {
			r.sample(fnName(m) + " covers " + d)
		}
		r.oblig(bad < 0, fd)
	}
}

// checkPersists: content written out by Close is written out by Sync too.
func (P *Prog) checkPersists(r *Result, named *types.Named) {
	cl, sy := P.Method(named, "Close"), P.Method(named, "Sync")
	if cl == nil || sy == nil || cl.Blocks == nil || sy.Blocks == nil {
		return
	}
	if !P.reachesCall(cl, writesWholeFile, map[*ssa.Function]bool{}) {
		return
	}
	r.count("types that write out in Close", 1)
	ok := P.reachesCall(sy, writesWholeFile, map[*ssa.Function]bool{})
	r.oblig(ok, Finding{Rule: "sync-persists", Func: fnName(sy), Construct: typeKey(named), Pos: P.Pos(sy.Pos()), Msg: "Close writes the content to disk but Sync reports success without doing so"})
}

func writesWholeFile(n string) bool { return n == "os.WriteFile" }

func (P *Prog) reachesCall(f *ssa.Function, pred func(string) bool, seen map[*ssa.Function]bool) bool {
	if seen[f] || f.Blocks == nil {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if pred(calleeName(c.Common())) {
				return true
			}
			if g := c.Common().StaticCallee(); g != nil && inModule(g) && P.reachesCall(g, pred, seen) {
				return true
			}
		}
	}
	return false
}

// writtenThrough: the file in this field is written, truncated, or handed to code that may do so.
func (P *Prog) writtenThrough(key string) bool {
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldKey(fa.X, fa.Field) != key {
					continue
				}
				for _, u := range *fa.Referrers() {
					ld, ok := u.(*ssa.UnOp)
					if !ok {
						continue
					}
					for _, w := range *ld.Referrers() {
						switch t := w.(type) {
						case ssa.CallInstruction:
							c := t.Common()
							if g := c.StaticCallee(); g != nil && g.Signature.Recv() != nil && c.Args[0] == ssa.Value(ld) {
								switch g.Name() {
								case "Close", "Sync", "ReadAt", "Read", "Stat", "Seek", "Name", "Fd":
									continue
								}
							}
							return true
						case *ssa.BinOp, *ssa.DebugRef:
						default:
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// checkNoDrop: a field (or map of objects) that is loaded from and saved to files holds unsaved content; replacing or
// dropping it needs a save first.
func (P *Prog) checkNoDrop(r *Result, a *efAnalysis, named *types.Named, stt *types.Struct) {
	tk := typeKey(named)
	for i := 0; i < stt.NumFields(); i++ {
		ct := derefType(constituentType(stt.Field(i).Type()))
		if hasMethod(ct, []string{"SaveFile"}) == "" || hasMethod(ct, []string{"LoadFile"}) == "" {
			continue
		}
		key := tk + "." + stt.Field(i).Name()
		_, isMap := stt.Field(i).Type().Underlying().(*types.Map)
		marker := ""
		for m, k := range pendingMarker {
			if k == key {
				marker = m
			}
		}
		r.count("memory-held arrays", 1)
		is := func(v ssa.Value, ctx *rctx, want string) bool {
			for _, k := range P.keysOf(v, ctx) {
				if strings.TrimSuffix(k, "[]") == want {
					return true
				}
			}
			return false
		}
		markerEmpty := func(cond ssa.Value, taken bool, ctx *rctx) bool {
			bo, ok := cond.(*ssa.BinOp)
			if !ok || marker == "" || (bo.Op != token.EQL && bo.Op != token.NEQ) || (bo.Op == token.EQL) != taken {
				return false
			}
			for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				if c, ok := xy[1].(*ssa.Const); ok && c.Value != nil && c.Value.String() == `""` && is(xy[0], ctx, marker) {
					return true
				}
			}
			return false
		}
		emptyStr := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Value.String() == `""`
		}
		for j := 0; j < named.NumMethods(); j++ {
			m := P.SSA.FuncValue(named.Method(j))
			if m == nil || m.Blocks == nil || !named.Method(j).Exported() {
				continue
			}
			// 1. replaced only after being saved
			q := newEvQuery(P, a, nil)
			q.protocol()
			q.force = true
			q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
				c := site.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok && isMap && (b.Name() == "delete" || b.Name() == "clear") && is(c.Args[0], ctx, key) {
					return []int{1}, true
				}
				f := c.StaticCallee()
				if f == nil || f.Signature.Recv() == nil || len(c.Args) == 0 || !is(c.Args[0], ctx, key) {
					return nil, false
				}
				switch f.Name() {
				case "SaveFile":
					return []int{0}, true
				case "LoadFile":
					if isMap {
						return nil, true // a new element, loaded before it is entered
					}
					return []int{1}, true
				case "AppendToArray":
					return []int{2}, true
				}
				return nil, false
			}
			q.instr = func(in ssa.Instruction, ctx *rctx) []int {
				st, ok := in.(*ssa.Store)
				if !ok {
					return nil
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					return nil
				}
				k := fieldKey(fa.X, fa.Field)
				if k == key || (marker != "" && k == marker && emptyStr(st.Val)) {
					return []int{1}
				}
				return nil
			}
			q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
				if markerEmpty(cond, taken, ctx) {
					return []int{0}
				}
				return nil
			}
			fd := Finding{Rule: "no-drop", Func: fnName(m), Construct: key, Pos: P.Pos(m.Pos())}
			for _, o := range q.outcomes(m, &rctx{f: m}) {
				if o.vec[1] != 0 || o.vec[2] != 0 {
					fd.Msg = "a path replaces or drops " + key + " (or marks it as saved) without saving it first"
					fd.Path = P.pathText(o.path)
				}
			}
			r.oblig(fd.Msg == "" && !q.Over, fd)
			// 1b. taken on only after its file was read
			q = newEvQuery(P, a, nil)
			q.protocol()
			q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
				c := site.Common()
				f := c.StaticCallee()
				if f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 && f.Name() == "LoadFile" && types.Identical(derefType(c.Args[0].Type()), ct) && (isMap || is(c.Args[0], ctx, key)) {
					return []int{0}, true
				}
				return nil, false
			}
			q.instr = func(in ssa.Instruction, ctx *rctx) []int {
				switch t := in.(type) {
				case *ssa.Store:
					if fa, ok := t.Addr.(*ssa.FieldAddr); ok && marker != "" && fieldKey(fa.X, fa.Field) == marker && !emptyStr(t.Val) {
						return []int{1}
					}
				case *ssa.MapUpdate:
					if isMap && is(t.Map, ctx, key) {
						return []int{1}
					}
				}
				return nil
			}
			if marker != "" { // 1c. while it is being loaded it is not marked: a failed load must not be saved later
				q2 := newEvQuery(P, a, nil)
				q2.protocol()
				q2.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
					c := site.Common()
					f := c.StaticCallee()
					if f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 && f.Name() == "LoadFile" && is(c.Args[0], ctx, key) {
						return []int{1}, true
					}
					return nil, false
				}
				q2.instr = func(in ssa.Instruction, ctx *rctx) []int {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X, fa.Field) == marker {
							if emptyStr(st.Val) {
								return []int{0}
							}
							return []int{2}
						}
					}
					return nil
				}
				q2.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
					if markerEmpty(cond, taken, ctx) {
						return []int{0}
					}
					return nil
				}
				fd2 := Finding{Rule: "no-drop", Func: fnName(m), Construct: key + " while loading", Pos: P.Pos(m.Pos())}
				for _, o := range q2.outcomes(m, &rctx{f: m}) {
					if o.vec[1] != 0 || o.vec[2] != 0 {
						fd2.Msg = "a path loads into " + key + " while it is still marked as pending: after a failed load the emptied content would be saved over a file"
						fd2.Path = P.pathText(o.path)
					}
				}
				r.oblig(fd2.Msg == "" && !q2.Over, fd2)
			}
			fd = Finding{Rule: "no-drop", Func: fnName(m), Construct: key + " taken on", Pos: P.Pos(m.Pos())}
			for _, o := range q.outcomes(m, &rctx{f: m}) {
				if o.vec[1] != 0 || o.vec[2] != 0 {
					fd.Msg = "a path takes on another file in " + key + " without loading what that file already holds"
					fd.Path = P.pathText(o.path)
				}
			}
			r.oblig(fd.Msg == "" && !q.Over, fd)
			// 2. marked as pending when changed
			if marker == "" {
				continue
			}
			q = newEvQuery(P, a, []string{"changed", "marked"})
			q.norm = func(v []int8) {
				for i := range v {
					if v[i] > 1 {
						v[i] = 1
					}
				}
			}
			q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
				c := site.Common()
				f := c.StaticCallee()
				if f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 && f.Name() == "AppendToArray" && is(c.Args[0], ctx, key) {
					return []int{0}, true
				}
				return nil, false
			}
			q.instr = func(in ssa.Instruction, ctx *rctx) []int {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X, fa.Field) == marker && !emptyStr(st.Val) {
						return []int{1}
					}
				}
				return nil
			}
			q.cond = func(cond ssa.Value, taken bool, ctx *rctx) []int {
				bo, ok := cond.(*ssa.BinOp)
				if !ok {
					return nil
				}
				for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if !is(xy[0], ctx, marker) {
						continue
					}
					if emptyStr(xy[1]) && (bo.Op == token.NEQ) == taken || !emptyStr(xy[1]) && bo.Op == token.EQL && taken {
						return []int{1}
					}
				}
				return nil
			}
			fd = Finding{Rule: "no-drop", Func: fnName(m), Construct: key + " pending mark", Pos: P.Pos(m.Pos())}
			for _, o := range q.outcomes(m, &rctx{f: m}) {
				if o.err != vNonNil && o.vec[0] == 1 && o.vec[1] == 0 {
					fd.Msg = "a path changes " + key + " without marking it as pending in " + marker
					fd.Path = P.pathText(o.path)
				}
			}
			r.oblig(fd.Msg == "" && !q.Over, fd)
		}
	}
}
