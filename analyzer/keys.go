package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A field key names a field of a struct type of the module ("chainstorage.concreteAppendableChain.txiTx"), whichever
// object it belongs to; elements of a map or slice field carry the suffix "[]".

type rctx struct {
	f    *ssa.Function
	args map[int][]string // parameter index -> keys it stands for
	fv   map[int][]string // captured variable index -> keys
	sym  *symCtx          // symbolic arguments, when wanted
	site ssa.CallInstruction
	up   *rctx
}

func (c *rctx) id() string {
	if c == nil || (len(c.args) == 0 && len(c.fv) == 0 && c.sym == nil) {
		return ""
	}
	var out []string
	if c.sym != nil {
		for i, e := range c.sym.args {
			out = append(out, "s"+string(rune('0'+i))+"="+e.String())
		}
		for i, e := range c.sym.fv {
			out = append(out, "t"+string(rune('0'+i))+"="+e.String())
		}
	}
	for i, k := range c.args {
		out = append(out, "p"+string(rune('0'+i))+"="+strings.Join(k, "|"))
	}
	for i, k := range c.fv {
		out = append(out, "f"+string(rune('0'+i))+"="+strings.Join(k, "|"))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func typeKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

func fieldKey(x ssa.Value, i int) string {
	t := x.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || typeKey(t) == "" {
		return ""
	}
	return typeKey(t) + "." + st.Field(i).Name()
}

type resolver struct {
	P    *Prog
	seen map[ssa.Value]bool
	n    int
}

// keysOf: the struct fields (or their elements) a value comes from; nil when unknown.
func (P *Prog) keysOf(v ssa.Value, ctx *rctx) []string {
	r := &resolver{P: P, seen: map[ssa.Value]bool{}}
	ks := r.val(v, ctx)
	return uniq(ks)
}

func uniq(ks []string) []string {
	m := map[string]bool{}
	var out []string
	for _, k := range ks {
		if k != "" && !m[k] {
			m[k] = true
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func elems(ks []string) []string {
	var out []string
	for _, k := range ks {
		if !strings.HasSuffix(k, "[]") {
			k += "[]"
		}
		out = append(out, k)
	}
	return out
}

func (r *resolver) val(v ssa.Value, ctx *rctx) []string {
	r.n++
	if r.seen[v] || r.n > 2000 {
		return nil
	}
	r.seen[v] = true
	defer delete(r.seen, v)
	switch t := v.(type) {
	case *ssa.MakeInterface:
		return r.val(t.X, ctx)
	case *ssa.ChangeInterface:
		return r.val(t.X, ctx)
	case *ssa.ChangeType:
		return r.val(t.X, ctx)
	case *ssa.Convert:
		return r.val(t.X, ctx)
	case *ssa.TypeAssert:
		return r.val(t.X, ctx)
	case *ssa.Phi:
		var out []string
		for _, e := range t.Edges {
			out = append(out, r.val(e, ctx)...)
		}
		return out
	case *ssa.UnOp:
		if t.Op == token.MUL {
			return r.addr(t.X, ctx)
		}
	case *ssa.FieldAddr:
		return r.addr(t, ctx)
	case *ssa.Field:
		if k := fieldKey(t.X, t.Field); k != "" {
			return []string{k}
		}
	case *ssa.Extract:
		switch u := t.Tuple.(type) {
		case *ssa.Next:
			if t.Index == 2 {
				if rg, ok := u.Iter.(*ssa.Range); ok {
					return elems(r.val(rg.X, ctx))
				}
			}
		case *ssa.Lookup:
			if t.Index == 0 {
				return elems(r.val(u.X, ctx))
			}
		case *ssa.TypeAssert:
			if t.Index == 0 {
				return r.val(u.X, ctx)
			}
		case *ssa.Call:
			return r.call(u, t.Index, ctx)
		}
	case *ssa.Lookup:
		return elems(r.val(t.X, ctx))
	case *ssa.Slice:
		return r.addrOrVal(t.X, ctx)
	case *ssa.Alloc: // the address of a variable: what it holds
		return r.addr(t, ctx)
	case *ssa.IndexAddr:
		return r.addr(t, ctx)
	case *ssa.Parameter:
		if ctx != nil && ctx.f == t.Parent() {
			for i, p := range t.Parent().Params {
				if p == t {
					return ctx.args[i]
				}
			}
		}
	case *ssa.FreeVar:
		if ctx != nil && ctx.f == t.Parent() && ctx.fv != nil {
			for i, p := range t.Parent().FreeVars {
				if p == t {
					if ks, ok := ctx.fv[i]; ok {
						return ks
					}
				}
			}
		}
		if b := bindingOf(t); b != nil {
			return r.val(b, nil)
		}
	case *ssa.Call:
		return r.call(t, 0, ctx)
	}
	return nil
}

func (r *resolver) addrOrVal(v ssa.Value, ctx *rctx) []string {
	if _, ok := v.Type().Underlying().(*types.Pointer); ok {
		return r.addr(v, ctx)
	}
	return r.val(v, ctx)
}

func (r *resolver) call(c *ssa.Call, idx int, ctx *rctx) []string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		var out []string
		for _, a := range c.Call.Args {
			out = append(out, r.val(a, ctx)...)
		}
		return out
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !inModule(g) {
		return nil
	}
	sub := &rctx{f: g, args: map[int][]string{}}
	for i, a := range c.Call.Args {
		if ks := r.val(a, ctx); len(ks) > 0 {
			sub.args[i] = ks
		}
	}
	var out []string
	for _, b := range g.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(rt.Results) {
			out = append(out, r.val(rt.Results[idx], sub)...)
		}
	}
	return out
}

// addr: what lies at the address.
func (r *resolver) addr(a ssa.Value, ctx *rctx) []string {
	switch t := a.(type) {
	case *ssa.FieldAddr:
		if k := fieldKey(t.X, t.Field); k != "" {
			return []string{k}
		}
		// an anonymous struct, or an element of a table: what was stored in that field
		return r.storedIn(t, ctx)
	case *ssa.IndexAddr:
		if al, ok := t.X.(*ssa.Alloc); ok {
			return r.allocContent(al, ctx)
		}
		if _, ok := t.X.Type().Underlying().(*types.Pointer); ok {
			return elems(r.addr(t.X, ctx))
		}
		ks := r.val(t.X, ctx)
		if r.literalSlice(t.X) {
			return ks
		}
		return elems(ks)
	case *ssa.Alloc:
		return r.allocContent(t, ctx)
	case *ssa.FreeVar:
		return r.val(t, ctx)
	case *ssa.Parameter:
		return r.val(t, ctx)
	case *ssa.Phi, *ssa.UnOp:
		return r.val(a, ctx)
	}
	return nil
}

// literalSlice: built in this function from listed elements.
func (r *resolver) literalSlice(v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.Slice:
		_, ok := t.X.(*ssa.Alloc)
		return ok
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return true
		}
		if g := t.Call.StaticCallee(); g != nil && inModule(g) {
			return true // a helper listing them
		}
	case *ssa.Phi:
		for _, e := range t.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			if _, ok := e.(*ssa.Phi); ok {
				continue
			}
			if !r.literalSlice(e) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := t.X.(*ssa.Alloc); ok && t.Op == token.MUL {
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
						continue
					}
					if !r.literalSlice(st.Val) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

// allocContent: the union of what is stored in a variable or its elements.
func (r *resolver) allocContent(al *ssa.Alloc, ctx *rctx) []string {
	var out []string
	var visit func(addr ssa.Value)
	seen := map[ssa.Value]bool{}
	visit = func(addr ssa.Value) {
		if seen[addr] || addr.Referrers() == nil {
			return
		}
		seen[addr] = true
		for _, u := range *addr.Referrers() {
			switch s := u.(type) {
			case *ssa.Store:
				if s.Addr == addr {
					out = append(out, r.val(s.Val, ctx)...)
				}
			case *ssa.IndexAddr:
				if s.X == addr {
					visit(s)
				}
			}
		}
	}
	visit(al)
	return out
}

// storedIn: values stored into the same field of a local (anonymous) struct or table of them.
func (r *resolver) storedIn(fa *ssa.FieldAddr, ctx *rctx) []string {
	var out []string
	f := fa.Parent()
	t := derefType(fa.X.Type())
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			o, ok := st.Addr.(*ssa.FieldAddr)
			if ok && o.Field == fa.Field && types.Identical(derefType(o.X.Type()), t) {
				out = append(out, r.val(st.Val, ctx)...)
			}
		}
	}
	return out
}

// closuresOf: the function values (closures, method values) a called value may be, when they are listed locally.
func (P *Prog) closuresOf(v ssa.Value, depth int) []ssa.Value {
	if depth > 8 {
		return nil
	}
	switch t := v.(type) {
	case *ssa.MakeClosure, *ssa.Function:
		return []ssa.Value{v}
	case *ssa.ChangeType:
		return P.closuresOf(t.X, depth+1)
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range t.Edges {
			out = append(out, P.closuresOf(e, depth+1)...)
		}
		return out
	case *ssa.Slice:
		return P.closuresOf(t.X, depth+1)
	case *ssa.Alloc:
		var out []ssa.Value
		var visit func(a ssa.Value)
		visit = func(a ssa.Value) {
			for _, u := range *a.Referrers() {
				switch s := u.(type) {
				case *ssa.Store:
					if s.Addr == a {
						out = append(out, P.closuresOf(s.Val, depth+1)...)
					}
				case *ssa.IndexAddr:
					if s.X == a {
						visit(s)
					}
				case *ssa.FieldAddr:
					if s.X == a {
						visit(s)
					}
				}
			}
		}
		visit(t)
		return out
	case *ssa.IndexAddr:
		return P.closuresOf(t.X, depth+1)
	case *ssa.FieldAddr:
		return P.closuresOf(t.X, depth+1)
	case *ssa.Field:
		return P.closuresOf(t.X, depth+1)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			return P.closuresOf(t.X, depth+1)
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			var out []ssa.Value
			for _, a := range t.Call.Args {
				out = append(out, P.closuresOf(a, depth+1)...)
			}
			return out
		}
	case *ssa.FreeVar:
		if b := bindingOf(t); b != nil {
			return P.closuresOf(b, depth+1)
		}
	}
	return nil
}
