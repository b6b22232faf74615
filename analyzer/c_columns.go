package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Columns: which file each column of a stored chain is kept in, and which struct fields it is opened into and exposed as.

type column struct {
	id    string // folder/name below the chain's folder
	width string // symbolic, for display and comparison
	expr  string // the whole creator expression
	pos   ssa.Instruction
}

type colModel struct {
	creators map[string]column            // creator field -> column
	views    map[string]map[string]string // struct type -> field -> creator field
	viewPos  map[string]map[string]ssa.Instruction
	viewDup  []Finding
}

const chainPkg = "chainstorage"

// pathParts flattens a path-building expression into its components.
func pathParts(e *Expr) []string {
	var out []string
	emit := func(s string) {
		for i, p := range strings.Split(strings.ReplaceAll(s, "\\", "/"), "/") {
			if i > 0 {
				out = append(out, "/")
			}
			if p != "" {
				out = append(out, p)
			}
		}
	}
	switch {
	case e.Op == "const" && e.C != nil:
		s := strings.Trim(e.C.ExactString(), "\"")
		if k, ok := e.Int(); ok && k == 47 {
			s = "/"
		}
		emit(s)
	case e.Op == "conv" && len(e.Args) == 1:
		return pathParts(e.Args[0])
	case e.Op == "bin" && e.Name == "+":
		for _, a := range e.Args {
			out = append(out, pathParts(a)...)
		}
	case e.Op == "call" && (e.Name == "path.Join" || e.Name == "filepath.Join"):
		args := e.Args
		if len(args) == 1 {
			if l := listed(args[0]); l != nil {
				args = l
			}
		}
		for i, a := range args {
			if i > 0 {
				out = append(out, "/")
			}
			out = append(out, pathParts(a)...)
		}
	default:
		out = append(out, "<"+e.String()+">")
	}
	return out
}

func normPath(e *Expr) string {
	s := strings.Join(pathParts(e), "")
	for strings.Contains(s, "//") {
		s = strings.ReplaceAll(s, "//", "/")
	}
	return strings.Trim(s, "/")
}

// listed: the elements of a variadic argument list.
func listed(e *Expr) []*Expr {
	if e.Op == "list" {
		return e.Args
	}
	return nil
}

func otherPkg(rel string) func(*ssa.Function) bool {
	return func(g *ssa.Function) bool { return relPkg(g) != rel }
}

// storesInto visits every store into a field of the named struct made while running f (through helpers too).
func (P *Prog) storesInto(f *ssa.Function, typ string, enter func(*ssa.Function) bool, fn func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx)) {
	P.visit(f, true, enter, func(in ssa.Instruction, ctx *rctx) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		k := P.addrKey(st.Addr, ctx)
		if strings.HasPrefix(k, typ+".") && !strings.HasSuffix(k, "[]") {
			fn(strings.TrimPrefix(k, typ+"."), st.Val, in, ctx)
		}
	})
}

// addrKey: the field an address denotes.
func (P *Prog) addrKey(a ssa.Value, ctx *rctx) string {
	switch t := a.(type) {
	case *ssa.FieldAddr:
		return fieldKey(t.X, t.Field)
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi:
		if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr {
			if ks := P.keysOf(a, ctx); len(ks) == 1 {
				return ks[0]
			}
		}
	case *ssa.UnOp: // a pointer kept in a table
		if ks := P.keysOf(a, ctx); len(ks) == 1 {
			return ks[0]
		}
	}
	return ""
}

func isOpener(n string) bool { return strings.HasPrefix(n, "Open") }

func hasOpener(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if isOpener(ms.At(i).Obj().Name()) {
			return true
		}
	}
	return false
}

func structOf(n *types.Named) *types.Struct {
	if n == nil {
		return nil
	}
	st, _ := n.Underlying().(*types.Struct)
	return st
}

// creatorTable: column of each creator field of the chain creator.
func (P *Prog) creatorTable(r *Result) map[string]column {
	out := map[string]column{}
	n := P.Named(chainPkg, "ConcreteAppendableChainCreator")
	st := structOf(n)
	ctor := P.Func(chainPkg, "NewConcreteAppendableChainCreator")
	if st == nil || ctor == nil {
		return out
	}
	typ := chainPkg + ".ConcreteAppendableChainCreator"
	isCr := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		if hasOpener(st.Field(i).Type()) {
			isCr[st.Field(i).Name()] = true
		}
	}
	P.storesInto(ctor, typ, func(g *ssa.Function) bool { return relPkg(g) == chainPkg }, func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx) {
		if !isCr[field] {
			return
		}
		e := P.symStop(val, ctx.sym, otherPkg(chainPkg))
		c := column{expr: e.String(), pos: in}
		name, folder := "", ""
		e.walk(func(x *Expr) bool {
			if x.Op != "call" || len(x.Args) < 2 || !strings.Contains(x.Name, ".") {
				return false
			}
			call, _ := callOf(x.V)
			if call == nil || call.StaticCallee() == nil {
				return false
			}
			sig := call.StaticCallee().Signature
			ints := 0
			for i := 0; i < sig.Params().Len() && i < len(x.Args); i++ {
				pn := sig.Params().At(i)
				if b, ok := pn.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					s := normPath(x.Args[i])
					if x.Args[i].Op == "const" {
						name = s
					} else {
						folder = s
					}
				} else if isIntType(pn.Type()) {
					if k, ok := x.Args[i].Int(); ok {
						c.width += fmt.Sprint(",", k)
						ints++
					}
				}
			}
			return true
		})
		c.id = folder + "/" + name
		if old, dup := out[field]; dup && old.expr != c.expr {
			c.id = "?" + c.id
		}
		out[field] = c
	})
	return out
}

func callOf(v ssa.Value) (*ssa.CallCommon, *ssa.Call) {
	switch t := v.(type) {
	case *ssa.Call:
		return &t.Call, t
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			return &c.Call, c
		}
	case *ssa.MakeInterface:
		return callOf(t.X)
	case *ssa.ChangeInterface:
		return callOf(t.X)
	}
	return nil, nil
}

// openedFrom: the creator field whose Open… method yields the value.
func openedFrom(e *Expr, typ string) (string, string) {
	var field, method string
	e.walk(func(x *Expr) bool {
		if x.Op == "call" && isOpener(strings.SplitN(x.Name, "#", 2)[0]) && len(x.Args) > 0 {
			a := x.Args[0]
			if a.Op == "field" && strings.HasPrefix(a.Name, typ+".") {
				field, method = strings.TrimPrefix(a.Name, typ+"."), x.Name
				return true
			}
		}
		return false
	})
	return field, method
}

type neiEntry struct {
	name, folder, width, table, method string
	keyMatches                         bool
	pos                                ssa.Instruction
}

// neiCreations: creators of optional columns made inside f from a table of names.
func (P *Prog) neiOf(e *Expr, typ string) *neiEntry {
	var out *neiEntry
	e.walk(func(x *Expr) bool {
		if x.Op != "call" || !strings.Contains(x.Name, "WordFileCreator") && !strings.Contains(x.Name, "Creator") {
			return false
		}
		call, _ := callOf(x.V)
		if call == nil || call.StaticCallee() == nil {
			return false
		}
		sig := call.StaticCallee().Signature
		n := &neiEntry{}
		for i := 0; i < sig.Params().Len() && i < len(x.Args); i++ {
			b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic)
			if !ok {
				continue
			}
			switch {
			case b.Kind() == types.String && x.Args[i].Op == "field":
				n.folder = strings.TrimPrefix(x.Args[i].Name, typ+".")
			case b.Kind() == types.String:
				n.name = x.Args[i].String()
				x.Args[i].walk(func(y *Expr) bool {
					if y.Op == "field" && strings.HasPrefix(y.Name, typ+".") {
						n.table = strings.TrimPrefix(y.Name, typ+".")
						return true
					}
					return false
				})
			case b.Info()&types.IsInteger != 0:
				n.width = x.Args[i].String()
			}
		}
		if n.name != "" && n.folder != "" {
			out = n
			return true
		}
		return false
	})
	return out
}

// mapStores visits every element stored into a map field of the named struct.
func (P *Prog) mapStores(f *ssa.Function, typ string, fn func(field string, mu *ssa.MapUpdate, ctx *rctx)) {
	P.visit(f, true, func(g *ssa.Function) bool { return relPkg(g) == chainPkg }, func(in ssa.Instruction, ctx *rctx) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		for _, k := range P.keysOf(mu.Map, ctx) {
			if strings.HasPrefix(k, typ+".") {
				fn(strings.TrimPrefix(k, typ+"."), mu, ctx)
				return
			}
		}
		// a map made here and stored into the field (before or after)
		if k := P.storedAsField(mu.Map, ctx); strings.HasPrefix(k, typ+".") {
			fn(strings.TrimPrefix(k, typ+"."), mu, ctx)
		}
	})
}

// storedAsField: the struct field a local value is stored into, here or after being returned to the caller.
func (P *Prog) storedAsField(v ssa.Value, ctx *rctx) string {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, ctx *rctx, d int) string
	rec = func(v ssa.Value, ctx *rctx, d int) string {
		if d > 12 || v == nil || seen[v] {
			return ""
		}
		seen[v] = true
		if ld, ok := v.(*ssa.UnOp); ok {
			if al, ok := ld.X.(*ssa.Alloc); ok {
				return rec(al, ctx, d+1)
			}
		}
		if p, ok := v.(*ssa.Parameter); ok && ctx != nil && ctx.site != nil && ctx.f == p.Parent() {
			for i, q := range p.Parent().Params {
				if q == p && i < len(ctx.site.Common().Args) {
					return rec(ctx.site.Common().Args[i], ctx.up, d+1)
				}
			}
		}
		if v.Referrers() == nil {
			return ""
		}
		for _, u := range *v.Referrers() {
			switch t := u.(type) {
			case *ssa.Store:
				if t.Val == v {
					if k := P.addrKey(t.Addr, ctx); k != "" {
						return k
					}
					if al, ok := t.Addr.(*ssa.Alloc); ok {
						if k := rec(al, ctx, d+1); k != "" {
							return k
						}
					}
				}
			case *ssa.UnOp:
				if k := rec(t, ctx, d+1); k != "" {
					return k
				}
			case *ssa.Phi:
				if k := rec(t, ctx, d+1); k != "" {
					return k
				}
			case *ssa.Return:
				if ctx != nil && ctx.site != nil {
					if c, ok := ctx.site.(*ssa.Call); ok {
						for i, x := range t.Results {
							if x != v {
								continue
							}
							var rv ssa.Value = c
							if len(t.Results) > 1 {
								rv = extractOf(c, i)
							}
							if rv != nil {
								if k := rec(rv, ctx.up, d+1); k != "" {
									return k
								}
							}
						}
					}
				}
			}
		}
		return ""
	}
	return rec(v, ctx, 0)
}

// colModelOf builds the model of the stored chain's columns.
func (P *Prog) colModelOf(r *Result) *colModel {
	m := &colModel{creators: P.creatorTable(r), views: map[string]map[string]string{}, viewPos: map[string]map[string]ssa.Instruction{}}
	cr := chainPkg + ".ConcreteAppendableChainCreator"
	for _, v := range []string{"concreteAppendableChain", "concreteReadableChain"} {
		m.views[v] = map[string]string{}
		m.viewPos[v] = map[string]ssa.Instruction{}
		for _, f := range P.methodsOf(chainPkg, "ConcreteAppendableChainCreator") {
			v, f := v, f
			P.storesInto(f, chainPkg+"."+v, func(g *ssa.Function) bool { return relPkg(g) == chainPkg }, func(field string, val ssa.Value, in ssa.Instruction, ctx *rctx) {
				e := P.symStop(val, ctx.sym, otherPkg(chainPkg))
				c, _ := openedFrom(e, cr)
				if c == "" {
					return
				}
				if old, ok := m.views[v][field]; ok && old != c {
					m.viewDup = append(m.viewDup, Finding{Rule: "one-column-per-field", Func: fnName(in.Parent()), Construct: field, Pos: P.Pos(in.Pos()),
						Msg: fmt.Sprintf("field %s of %s is opened from both %s and %s", field, v, old, c)})
				}
				m.views[v][field] = c
				m.viewPos[v][field] = in
			})
		}
	}
	return m
}

func (P *Prog) methodsOf(rel, typ string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.FuncsIn(rel) {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		if typeKey(f.Signature.Recv().Type()) == rel+"."+typ {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// columnOfField: the id of the column a chain field holds.
func (m *colModel) columnOf(view, field string) string {
	return m.creators[m.views[view][field]].id
}
