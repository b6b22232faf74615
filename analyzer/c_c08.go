package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: what a buffered append accepted is visible to every other operation on the same file.

type bufferedType struct {
	named   *types.Named
	key     string
	file    string // field keys
	buf     string
	methods []*ssa.Function
}

// libMethod: the receiver and name of a call of a method of a library type ("os.File", "bufio.Writer").
func libMethod(site ssa.CallInstruction, typ string) (ssa.Value, string) {
	c := site.Common()
	if c.IsInvoke() {
		return nil, ""
	}
	g := c.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || len(c.Args) == 0 {
		return nil, ""
	}
	if n, ok := types.Unalias(derefType(g.Signature.Recv().Type())).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == typ {
		return c.Args[0], g.Name()
	}
	return nil, ""
}

// libFunc: the name of a called library function ("bufio.NewWriter"), "" for others.
func libFunc(site ssa.CallInstruction) string {
	g := site.Common().StaticCallee()
	if g == nil || inModule(g) || g.Signature.Recv() != nil || g.Pkg == nil {
		return ""
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

func isNamedType(t types.Type, full string) bool {
	n, ok := types.Unalias(derefType(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

func (P *Prog) hasKey(v ssa.Value, ctx *rctx, key string) bool {
	for _, k := range P.keysOf(v, ctx) {
		if k == key {
			return true
		}
	}
	return false
}

// bufferedTypes: the struct types that hold a file and a buffered writer on it.
func (P *Prog) bufferedTypes() []*bufferedType {
	var out []*bufferedType
	for _, p := range P.Pkgs {
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nm.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			b := &bufferedType{named: nm, key: typeKey(nm)}
			for i := 0; i < st.NumFields(); i++ {
				switch t := st.Field(i).Type(); {
				case isNamedType(t, "bufio.Writer"):
					b.buf = b.key + "." + st.Field(i).Name()
				case isNamedType(t, "os.File"):
					b.file = b.key + "." + st.Field(i).Name()
				}
			}
			if b.buf == "" || b.file == "" {
				continue
			}
			for i := 0; i < nm.NumMethods(); i++ {
				if m := P.Method(nm, nm.Method(i).Name()); m != nil && m.Blocks != nil {
					b.methods = append(b.methods, m)
				}
			}
			out = append(out, b)
		}
	}
	return out
}

func nilCompared(cond ssa.Value, taken bool) (v ssa.Value, isNil bool) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, false
	}
	x, y := b.X, b.Y
	if c, ok := x.(*ssa.Const); ok && c.IsNil() {
		x, y = y, x
	}
	if c, ok := y.(*ssa.Const); !ok || !c.IsNil() {
		return nil, false
	}
	return x, (b.Op == token.EQL) == taken
}

// comparison under NOTs, as the relation that holds when the branch is taken.
func relation(cond ssa.Value, taken bool) (op token.Token, x, y ssa.Value) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return token.ILLEGAL, nil, nil
	}
	op = b.Op
	if !taken {
		neg := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		op, ok = neg[op]
		if !ok {
			return token.ILLEGAL, nil, nil
		}
	}
	return op, b.X, b.Y
}

func init() {
	checks["C08"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"empty-before-use: in every method of a type holding a file and a buffered writer on it, each use of the file itself (reading, positioned writing, syncing, measuring, seeking, closing, wrapping) is reached only with the buffer known to be empty: after a successful flush, or where the writer is nil; a writer is only dropped or replaced when flushed (or on a path that reports a failure)",
			"append-at-end: bytes go into the buffer only where the requested offset was compared equal to the end of the file (to a remembered next offset only while a writer exists), and a new writer starts after a successful seek to the end",
			"size-accounting: every successful append adds what was written to the size and to the next offset; every positioned write raises the size to its own end when that is larger, and never lowers it",
			"no-bypass: a file that was wrapped for buffered appending is, apart from closing it, only used through the wrapper",
			"whole-file: a read of a whole file starts at byte 0",
		}
		r.Assume = []string{"bufio.Writer.Flush hands every accepted byte to the file when it succeeds, and Write accepts everything when it succeeds", "one object is used by one goroutine at a time"}
		a := newEF(P)
		_ = a
		ts := P.bufferedTypes()
		r.count("buffered types", len(ts))
		r.floor("buffered types", 1)
		for _, b := range ts {
			P.checkBuffered(r, b)
		}
		r.floor("entry points", 6)
		r.floor("uses of the file", 8)
		P.checkBypass(r)
		P.checkWholeReads(r)
		return r
	}
}

func (P *Prog) checkBuffered(r *Result, b *bufferedType) {
	enter := func(g *ssa.Function) bool { return relPkg(g) == qual(b.named.Obj().Pkg()) }
	a := newEF(P)
	isFile := func(v ssa.Value, ctx *rctx) bool { return P.hasKey(v, ctx, b.file) }
	isBuf := func(v ssa.Value, ctx *rctx) bool { return P.hasKey(v, ctx, b.buf) }
	none := func(ssa.CallInstruction, *rctx) ([]int, bool) { return nil, false }
	var entries []*ssa.Function
	for _, m := range b.methods {
		if token.IsExported(m.Name()) {
			entries = append(entries, m)
		}
	}
	fnd := func(rule, what, msg string, o evOut, f *ssa.Function) Finding {
		return Finding{Rule: rule, Func: fnName(f), Construct: what, Pos: P.Pos(f.Pos()), Msg: msg, Path: P.pathText(o.path)}
	}
	// --- the buffer is empty wherever the file is used directly; dims: emptied, needs, filled
	uses := map[ssa.Instruction]bool{}
	fileUse := func(site ssa.CallInstruction, ctx *rctx) bool {
		for _, x := range site.Common().Args {
			if isNamedType(x.Type(), "os.File") && isFile(x, ctx) {
				return true
			}
			if mi, ok := x.(*ssa.MakeInterface); ok && isNamedType(mi.X.Type(), "os.File") && isFile(mi.X, ctx) {
				return true
			}
		}
		return false
	}
	splitFlush := func(good, bad []int) func(ssa.CallInstruction, *rctx) ([]int, []int, bool) {
		return func(site ssa.CallInstruction, ctx *rctx) ([]int, []int, bool) {
			if x, n := libMethod(site, "bufio.Writer"); n == "Flush" && isBuf(x, ctx) {
				return good, bad, true
			}
			return nil, nil, false
		}
	}
	query := func(label string, closing bool) *evQuery {
		q := newEvQuery(P, a, []string{"emptied", "needs", "filled"})
		q.protocol()
		q.enter = enter
		q.split = splitFlush([]int{0}, nil)
		q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
			if x, n := libMethod(site, "bufio.Writer"); x != nil && isBuf(x, ctx) {
				switch n {
				case "Write", "WriteString", "WriteByte", "WriteRune", "ReadFrom":
					return []int{2}, true
				}
				return nil, true
			}
			g := site.Common().StaticCallee()
			if fileUse(site, ctx) && (g == nil || !inModule(g)) {
				uses[site] = true
				_, n := libMethod(site, "os.File")
				if n == "Name" || n == "Fd" {
					return nil, true
				}
				if (n == "Close") != closing {
					return nil, true
				}
				return []int{1}, true
			}
			return nil, false
		}
		q.instr = func(in ssa.Instruction, ctx *rctx) []int {
			if st, ok := in.(*ssa.Store); ok && P.addrKey(st.Addr, ctx) == b.buf && closing {
				// (the drop of a writer is judged with the paths that may end in a failure)
				return []int{1, 0}
			}
			return nil
		}
		q.cond = func(c ssa.Value, taken bool, ctx *rctx) []int {
			v, isNil := nilCompared(c, taken)
			if v == nil || !isBuf(v, ctx) {
				return nil
			}
			if isNil {
				return []int{0}
			}
			return []int{2}
		}
		return q
	}
	for _, closing := range []bool{false, true} {
		q := query("", closing)
		for _, m := range entries {
			r.count("entry points", 1)
			for _, o := range q.outcomes(m, &rctx{f: m}) {
				bad := o.vec[1] != 0 || o.vec[2] != 0
				if closing && o.err == vNonNil {
					bad = false
				}
				msg := "a path uses the file while accepted bytes may still be in the append buffer"
				if closing {
					msg = "a path that can report success closes the file, or drops its buffered writer, while accepted bytes may still be in it"
				}
				r.oblig(!bad, fnd("empty-before-use", b.file, msg, o, m))
			}
		}
		if q.Over {
			r.add(Finding{Rule: "undecided", Func: b.key, Construct: "paths", Msg: "too many paths"})
		}
	}
	r.count("uses of the file", len(uses))
	// --- what the file's size is
	sizeKey := ""
	for _, m := range entries {
		if m.Name() == "Size" {
			for _, bl := range m.Blocks {
				if rt, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					if ks := P.keysOf(rt.Results[0], &rctx{f: m}); len(ks) == 1 {
						sizeKey = ks[0]
					}
				}
			}
		}
	}
	if sizeKey == "" {
		r.add(Finding{Rule: "size-accounting", Func: b.key, Construct: "Size", Msg: "the size reported is not that of one accounting field"})
		return
	}
	// its first value is the size of that very file
	for _, f := range P.Funcs {
		if !enter(f) {
			continue
		}
		P.storesInto(f, b.key, func(g *ssa.Function) bool { return false }, func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx) {
			if b.key+"."+field != b.file {
				return
			}
			r.count("constructors", 1)
			ok := false
			P.storesInto(f, b.key, enter, func(field2 string, val2 ssa.Value, _ ssa.Instruction, _ *rctx) {
				if b.key+"."+field2 == sizeKey && sizeOfFile(val2, val) {
					ok = true
				}
			})
			r.oblig(ok, Finding{Rule: "size-accounting", Func: fnName(f), Construct: sizeKey, Pos: P.Pos(in.Pos()), Msg: "the size does not start as the size of the wrapped file"})
		})
	}
	r.floor("constructors", 1)
	// --- appends: where, and what they add
	var write *ssa.Function
	for _, m := range entries {
		if m.Name() == "WriteAt" {
			write = m
		}
	}
	if write == nil || len(write.Params) != 3 {
		r.add(Finding{Rule: "append-at-end", Func: b.key, Construct: "WriteAt", Msg: "no WriteAt method"})
		return
	}
	off := P.lin(write.Params[2], &rctx{f: write}, enter).String()
	buflen := func(v ssa.Value, ctx *rctx) string { return P.lin(v, ctx, enter).String() }
	field := func(k string) string { return "field:" + k }
	nextKeys := map[string]bool{}
	isWrite := func(site ssa.CallInstruction, ctx *rctx) bool {
		x, n := libMethod(site, "bufio.Writer")
		return x != nil && n == "Write"
	}
	other := func(c ssa.Value, taken bool, ctx *rctx, want token.Token) string {
		op, x, y := relation(c, taken)
		if op != want || !isIntType(x.Type()) {
			return ""
		}
		lx, ly := P.lin(x, ctx, enter).String(), P.lin(y, ctx, enter).String()
		if lx == off {
			return ly
		}
		if ly == off {
			return lx
		}
		return ""
	}
	// the fields the offset is compared with before an append
	P.visit(write, false, enter, func(in ssa.Instruction, ctx *rctx) {
		if iff, ok := in.(*ssa.If); ok {
			if k := strings.TrimPrefix(other(iff.Cond, true, ctx, token.EQL)+other(iff.Cond, false, ctx, token.EQL), "field:"); strings.HasPrefix(k, b.key+".") && k != sizeKey {
				nextKeys[k] = true
			}
		}
	})
	proto := func(split func(ssa.CallInstruction, *rctx) ([]int, []int, bool), match func(ssa.CallInstruction, *rctx) ([]int, bool), cond func(ssa.Value, bool, *rctx) []int, rule, what, msg string) {
		q := newEvQuery(P, a, []string{"enabled", "needs", "reset"})
		q.protocol()
		q.enter, q.split, q.match, q.cond = enter, split, match, cond
		for _, o := range q.outcomes(write, &rctx{f: write}) {
			r.oblig(o.vec[1] == 0 && o.vec[2] == 0, fnd(rule, what, msg, o, write))
		}
		if q.Over {
			r.add(Finding{Rule: "undecided", Func: b.key, Construct: "paths", Msg: "too many paths"})
		}
	}
	onWrite := func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		if isWrite(site, ctx) {
			r.count("appends", 1)
			return []int{1}, true
		}
		return nil, false
	}
	proto(nil, onWrite, func(c ssa.Value, taken bool, ctx *rctx) []int {
		o := other(c, taken, ctx, token.EQL)
		if o == field(sizeKey) || nextKeys[strings.TrimPrefix(o, "field:")] {
			return []int{0}
		}
		return nil
	}, "append-at-end", "Write", "bytes go into the append buffer on a path on which the offset was not found equal to the end of the file")
	r.floor("appends", 1)
	proto(nil, none, func(c ssa.Value, taken bool, ctx *rctx) []int {
		if v, isNil := nilCompared(c, taken); v != nil && isBuf(v, ctx) {
			if isNil {
				return []int{2}
			}
			return []int{0}
		}
		if nextKeys[strings.TrimPrefix(other(c, taken, ctx, token.EQL), "field:")] {
			return []int{1}
		}
		return nil
	}, "append-at-end", "next offset", "the remembered next offset decides although no append may have come before")
	proto(func(site ssa.CallInstruction, ctx *rctx) ([]int, []int, bool) {
		if x, n := libMethod(site, "os.File"); n == "Seek" && isFile(x, ctx) {
			c := site.Common().Args
			o, ok1 := constInt(c[1])
			w, ok2 := constInt(c[2])
			if ok1 && ok2 && o == 0 && w == 2 || buflen(c[1], ctx) == off && ok2 && w == 0 {
				return []int{0}, nil, true
			}
			return []int{2}, []int{2}, true
		}
		return nil, nil, false
	}, onWrite, func(c ssa.Value, taken bool, ctx *rctx) []int {
		if v, isNil := nilCompared(c, taken); v != nil && isBuf(v, ctx) {
			if isNil {
				return []int{2}
			}
			return []int{0}
		}
		return nil
	}, "append-at-end", "Seek", "a new append buffer is filled without the file having been positioned at its end")
	// a positioned write leaves no writer behind whose next offset it has made stale
	wr := newEvQuery(P, a, []string{"no writer", "positioned write", "writer"})
	wr.protocol()
	wr.enter = enter
	wr.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
		if x, n := libMethod(site, "os.File"); n == "WriteAt" && isFile(x, ctx) {
			return []int{1}, true
		}
		return nil, false
	}
	wr.instr = func(in ssa.Instruction, ctx *rctx) []int {
		if st, ok := in.(*ssa.Store); ok && P.addrKey(st.Addr, ctx) == b.buf {
			if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
				return []int{0}
			}
			return []int{2}
		}
		return nil
	}
	wr.cond = func(c ssa.Value, taken bool, ctx *rctx) []int {
		if v, isNil := nilCompared(c, taken); v != nil && isBuf(v, ctx) {
			if isNil {
				return []int{0}
			}
			return []int{2}
		}
		return nil
	}
	for _, o := range wr.outcomes(write, &rctx{f: write}) {
		r.oblig(o.vec[1] == 0 && o.vec[2] == 0, fnd("append-at-end", "stale writer", "a positioned write is done while a writer with a remembered next offset is still in place", o, write))
	}
	// --- accounting
	q := newEvQuery(P, a, []string{"append", "direct", "size+n", "size=off+n", "size=max", "larger", "not larger", "next", "size other"})
	q.enter = enter
	q.norm = at1
	var wrote func(v ssa.Value, ctx *rctx) bool
	// what a number added to an offset may be: the count returned by the write, or the length of what was given to it
	isCount := func(l *linExpr) bool {
		x, ok := l.single()
		if !ok {
			return false
		}
		if wrote(x.v, x.ctx) {
			return true
		}
		for k := range l.coef {
			if strings.HasPrefix(k, "len(") {
				return k == "len("+P.lin(write.Params[1], &rctx{f: write}, enter).String()+")"
			}
		}
		return false
	}
	wrote = func(v ssa.Value, ctx *rctx) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		if isWrite(c, ctx) {
			return true
		}
		_, n := libMethod(c, "os.File")
		return n == "WriteAt"
	}
	offPlus := func(v ssa.Value, ctx *rctx, base string) bool {
		l := P.lin(v, ctx, enter)
		bl := linConst(0)
		if base == off {
			bl = P.lin(write.Params[2], &rctx{f: write}, enter)
		} else {
			bl = linLeaf(base, nil, nil)
		}
		return isCount(l.plus(bl, -1))
	}
	q.split = func(site ssa.CallInstruction, ctx *rctx) ([]int, []int, bool) {
		if isWrite(site, ctx) {
			return []int{0}, nil, true
		}
		if x, n := libMethod(site, "os.File"); n == "WriteAt" && isFile(x, ctx) {
			if buflen(site.Common().Args[2], ctx) != off {
				return []int{1, 8}, nil, true
			}
			return []int{1}, nil, true
		}
		return splitFlush(nil, nil)(site, ctx)
	}
	q.match = none
	q.instr = func(in ssa.Instruction, ctx *rctx) []int {
		st, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		k := P.addrKey(st.Addr, ctx)
		if nextKeys[k] {
			if offPlus(st.Val, ctx, off) || offPlus(st.Val, ctx, field(k)) || offPlus(st.Val, ctx, field(sizeKey)) || buflen(st.Val, ctx) == field(sizeKey) {
				return []int{7}
			}
			return []int{8}
		}
		if k != sizeKey {
			return nil
		}
		if c, ok := st.Val.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "max" && len(c.Call.Args) == 2 {
				x, y := c.Call.Args[0], c.Call.Args[1]
				if offPlus(x, ctx, off) && buflen(y, ctx) == field(sizeKey) || offPlus(y, ctx, off) && buflen(x, ctx) == field(sizeKey) {
					return []int{4}
				}
			}
		}
		switch {
		case offPlus(st.Val, ctx, off):
			return []int{3}
		case offPlus(st.Val, ctx, field(sizeKey)):
			return []int{2}
		}
		for n := range nextKeys {
			if offPlus(st.Val, ctx, field(n)) || buflen(st.Val, ctx) == field(n) {
				return []int{2}
			}
		}
		return []int{8}
	}
	q.cond = func(c ssa.Value, taken bool, ctx *rctx) []int {
		op, x, y := relation(c, taken)
		if op == token.ILLEGAL || !isIntType(x.Type()) {
			return nil
		}
		swapped := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		if offPlus(y, ctx, off) && buflen(x, ctx) == field(sizeKey) {
			x, y, op = y, x, swapped[op]
		}
		if !offPlus(x, ctx, off) || buflen(y, ctx) != field(sizeKey) {
			return nil
		}
		switch op {
		case token.GTR, token.GEQ:
			return []int{5}
		case token.LSS, token.LEQ:
			return []int{6}
		}
		return nil
	}
	for _, o := range q.outcomes(write, &rctx{f: write}) {
		if o.err == vNonNil {
			continue
		}
		v := o.vec
		switch {
		case v[8] > 0:
			r.oblig(false, fnd("size-accounting", "WriteAt", "the size or next offset is set to something other than the end of what was written, or the write goes to another offset", o, write))
		case v[0] > 0:
			r.oblig(v[2]+v[3]+v[4] > 0 && v[2] < 2, fnd("size-accounting", "append", "an append is not added to the size", o, write))
			r.oblig(v[7] > 0 || len(nextKeys) == 0, fnd("size-accounting", "append", "an append does not move the next offset on", o, write))
		case v[1] > 0:
			ok := v[2] == 0 && (v[4] > 0 || v[5] > 0 && v[3] > 0 || v[6] > 0 && v[3] == 0)
			r.oblig(ok, fnd("size-accounting", "positioned write", "a positioned write does not raise the size to its own end exactly when that is larger", o, write))
		default:
			r.oblig(false, fnd("size-accounting", "WriteAt", "a path reports success without writing", o, write))
		}
	}
	if q.Over {
		r.add(Finding{Rule: "undecided", Func: b.key, Construct: "paths", Msg: "too many paths"})
	}
}

// sizeOfFile: v is the size that file's Stat gave.
func sizeOfFile(v, file ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Size" {
		return false
	}
	ex, ok := c.Call.Value.(*ssa.Extract)
	if !ok {
		return false
	}
	st, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	x, n := libMethod(st, "os.File")
	return n == "Stat" && x == file
}

// checkBypass: no use of a wrapped file but closing it.
func (P *Prog) checkBypass(r *Result) {
	wrapper := P.Func("memfile", "NewAppendOptimizedFile")
	if wrapper == nil {
		r.add(Finding{Rule: "no-bypass", Func: "memfile", Construct: "NewAppendOptimizedFile", Msg: "no such function"})
		return
	}
	// values that are the same file: the argument, and the fields it is kept in
	fields := map[string]bool{}
	for _, f := range P.Funcs {
		if testHelper(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != wrapper {
					continue
				}
				r.count("wrappings", 1)
				v := c.Call.Args[0]
				for _, k := range P.keysOf(v, &rctx{f: f}) {
					fields[k] = true
				}
				// kept by an object it is handed to along with the wrapper
				for g, i := range P.passedOn(v) {
					for _, k := range P.fieldsKeeping(g, i) {
						fields[k] = true
					}
				}
				if v.Referrers() == nil {
					continue
				}
				for _, u := range *v.Referrers() {
					us, ok := u.(ssa.CallInstruction)
					if !ok || u == ssa.Instruction(c) || !reachableAfter(c, u) {
						continue
					}
					x, n := libMethod(us, "os.File")
					bad := x == v && n != "Close" && n != "Name"
					if x == nil && libFunc(us) != "" {
						bad = true
					}
					r.oblig(!bad, Finding{Rule: "no-bypass", Func: fnName(f), Construct: "wrapped file", Pos: P.Pos(u.Pos()), Msg: "a file that is wrapped for buffered appending is used directly afterwards (" + n + libFunc(us) + ")"})
				}
			}
		}
	}
	r.floor("wrappings", 8)
	for k := range fields {
		if strings.HasPrefix(k, "memfile.") {
			delete(fields, k)
		}
	}
	r.count("fields holding a wrapped file", len(fields))
	for _, f := range P.Funcs {
		if testHelper(f) {
			continue
		}
		var wrap ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == wrapper {
					wrap = c
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				site, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				x, n := libMethod(site, "os.File")
				lf := libFunc(site)
				for _, a := range site.Common().Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					if !isNamedType(a.Type(), "os.File") || x == nil && lf == "" {
						continue
					}
					for _, k := range P.keysOf(a, &rctx{f: f}) {
						if !fields[k] {
							continue
						}
						r.count("uses of kept files", 1)
						okUse := n == "Close" || n == "Name" || wrap != nil && !reachableAfter(wrap, in)
						r.oblig(okUse, Finding{Rule: "no-bypass", Func: fnName(f), Construct: k, Pos: P.Pos(in.Pos()), Msg: fmt.Sprintf("%s%s goes straight to a file that is wrapped for buffered appending", n, lf)})
					}
				}
			}
		}
	}
}

// passedOn: module functions the value is an argument of, with the argument's place.
func (P *Prog) passedOn(v ssa.Value) map[*ssa.Function]int {
	out := map[*ssa.Function]int{}
	if v.Referrers() == nil {
		return out
	}
	for _, u := range *v.Referrers() {
		if c, ok := u.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && inModule(g) {
				for i, a := range c.Call.Args {
					if a == v {
						out[g] = i
					}
				}
			}
		}
	}
	return out
}

// fieldsKeeping: the fields a parameter is stored in.
func (P *Prog) fieldsKeeping(g *ssa.Function, i int) []string {
	var out []string
	if i >= len(g.Params) || g.Params[i].Referrers() == nil {
		return nil
	}
	for _, u := range *g.Params[i].Referrers() {
		switch t := u.(type) {
		case *ssa.Store:
			if fa, ok := t.Addr.(*ssa.FieldAddr); ok && t.Val == ssa.Value(g.Params[i]) {
				out = append(out, fieldKey(fa.X, fa.Field))
			}
		case *ssa.Call:
			if h := t.Call.StaticCallee(); h != nil && h != g && inModule(h) {
				for j, a := range t.Call.Args {
					if a == ssa.Value(g.Params[i]) {
						out = append(out, P.fieldsKeeping(h, j)...)
					}
				}
			}
		}
	}
	return out
}

// reachableAfter: b can be executed after a.
func reachableAfter(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// checkWholeReads: functions that read a whole file start at its first byte.
func (P *Prog) checkWholeReads(r *Result) {
	for _, f := range P.Funcs {
		if testHelper(f) || !strings.HasPrefix(f.Name(), "ReadAll") && !strings.HasPrefix(f.Name(), "ReadWhole") || f.Parent() != nil {
			continue
		}
		r.count("whole-file reads", 1)
		P.visit(f, false, func(g *ssa.Function) bool { return relPkg(g) == relPkg(f) }, func(in ssa.Instruction, ctx *rctx) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			bad := ""
			args := site.Common().Args
			switch n := libFunc(site); n {
			case "io.NewSectionReader":
				if o, ok := constInt(args[1]); !ok || o != 0 {
					bad = "the section read does not start at byte 0"
				}
			case "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "bufio.NewReader", "bufio.NewReaderSize", "io.Copy":
				x := args[0]
				if mi, ok := x.(*ssa.MakeInterface); ok {
					x = mi.X
				}
				if isNamedType(x.Type(), "os.File") {
					bad = n + " reads from wherever the file happens to be positioned"
				}
			}
			if x, n := libMethod(site, "os.File"); x != nil && (n == "Read" || n == "WriteTo") {
				bad = n + " reads from wherever the file happens to be positioned"
			}
			if site.Common().IsInvoke() && site.Common().Method.Name() == "ReadAt" {
				if o, ok := constInt(args[1]); ok && o != 0 {
					bad = "the read does not start at byte 0"
				}
			} else if x, n := libMethod(site, "os.File"); x != nil && n == "ReadAt" {
				if o, ok := constInt(args[2]); ok && o != 0 {
					bad = "the read does not start at byte 0"
				}
			}
			r.oblig(bad == "", Finding{Rule: "whole-file", Func: fnName(f), Construct: "start", Pos: P.Pos(in.Pos()), Msg: bad})
		})
	}
	r.floor("whole-file reads", 3)
	// and really read: success is reported only after a successful read into the bytes that are returned
	a := newEF(P)
	for _, f := range P.Funcs {
		if testHelper(f) || !strings.HasPrefix(f.Name(), "ReadAll") && !strings.HasPrefix(f.Name(), "ReadWhole") || f.Parent() != nil {
			continue
		}
		q := newEvQuery(P, a, []string{"read"})
		q.norm = at1
		q.enter = func(g *ssa.Function) bool { return relPkg(g) == relPkg(f) && g.Name() != "Sync" && g.Name() != "flush" }
		q.match = func(site ssa.CallInstruction, ctx *rctx) ([]int, bool) {
			n := libFunc(site)
			if _, m := libMethod(site, "os.File"); m != "" {
				n = m
			}
			if site.Common().IsInvoke() {
				n = site.Common().Method.Name()
			}
			switch {
			case n == "io.ReadFull" || n == "io.ReadAll" || n == "io.ReadAtLeast" || n == "os.ReadFile" || n == "ReadAt" || strings.HasPrefix(n, "ReadAll") || strings.HasPrefix(n, "ReadWhole"):
				return []int{0}, true
			}
			if g := site.Common().StaticCallee(); g != nil && inModule(g) && (g.Name() == "ReadAt" || strings.HasPrefix(g.Name(), "ReadAll") || strings.HasPrefix(g.Name(), "ReadWhole")) {
				return []int{0}, true
			}
			return nil, false
		}
		mapped := false
		for _, b := range f.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, x := range rt.Results {
					for _, k := range P.keysOf(x, &rctx{f: f}) {
						mapped = mapped || k != ""
					}
				}
			}
		}
		if mapped {
			continue // hands out the mapped file itself
		}
		for _, o := range q.outcomes(f, &rctx{f: f}) {
			if o.err != vNonNil {
				r.count("whole-file successes", 1)
				r.oblig(o.vec[0] > 0, Finding{Rule: "whole-file", Func: fnName(f), Construct: "read", Pos: P.Pos(f.Pos()), Msg: "a path reports success without having read the file", Path: P.pathText(o.path)})
			}
		}
	}
	r.floor("whole-file successes", 3)
}
