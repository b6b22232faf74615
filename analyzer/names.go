package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/packages"
)

// Names are no property of what the program does: a declaration that was given another name since the inventory was
// written is analysed under the name the checks know. A renamed type has the members of one that disappeared; a renamed
// field, function or variable has the type of one that disappeared from the same struct, receiver or package.

type declared struct {
	kind  string // type, field, func, var
	scope string // package, or package.type
	shape string
	name  string
	obj   types.Object
	pos   token.Position
}

func (a declared) before(b declared) bool {
	if a.pos.Filename != b.pos.Filename {
		return a.pos.Filename < b.pos.Filename
	}
	return a.pos.Offset < b.pos.Offset
}

func (d declared) line() string {
	return strings.Join([]string{d.kind, d.scope, d.name, d.shape}, "\t")
}

func qual(p *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modulePath), "/")
}

// declarations of one kind in the packages of the module.
func declarations(pkgs []*packages.Package, kind string) []declared {
	var out []declared
	for _, p := range pkgs {
		if p.Types == nil || !strings.HasPrefix(p.PkgPath, modulePath) {
			continue
		}
		add := func(d declared) {
			d.kind, d.pos = kind, p.Fset.Position(d.obj.Pos())
			out = append(out, d)
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			here := qual(p.Types)
			switch t := o.(type) {
			case *types.TypeName:
				named, ok := t.Type().(*types.Named)
				if t.IsAlias() || !ok || kind != "type" && named.TypeParams().Len() > 0 {
					continue // members of instances are copies: their names stay as they are
				}
				switch kind {
				case "type":
					var l []string
					if st, ok := named.Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							l = append(l, "."+st.Field(i).Name())
						}
					} else if it, ok := named.Underlying().(*types.Interface); ok {
						for i := 0; i < it.NumMethods(); i++ {
							l = append(l, it.Method(i).Name())
						}
					} else {
						l = append(l, types.TypeString(named.Underlying(), qual))
					}
					for i := 0; i < named.NumMethods(); i++ {
						l = append(l, named.Method(i).Name()+"()")
					}
					sort.Strings(l)
					add(declared{scope: here, name: t.Name(), shape: strings.Join(l, " "), obj: t})
				case "field":
					if st, ok := named.Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if v := st.Field(i); !v.Embedded() {
								add(declared{scope: here + "." + t.Name(), name: v.Name(), shape: types.TypeString(v.Type(), qual), obj: v})
							}
						}
					}
				case "func":
					for i := 0; i < named.NumMethods(); i++ {
						m := named.Method(i)
						add(declared{scope: here + "." + t.Name(), name: m.Name(), shape: sigShape(m), obj: m})
					}
				}
			case *types.Func:
				if kind == "func" {
					add(declared{scope: here, name: t.Name(), shape: sigShape(t), obj: t})
				}
			case *types.Var:
				if kind == "var" {
					add(declared{scope: here, name: t.Name(), shape: types.TypeString(t.Type(), qual), obj: t})
				}
			}
		}
	}
	return out
}

// sigShape is the signature without the names of the parameters.
func sigShape(f *types.Func) string {
	s := f.Signature()
	var l []string
	for i := 0; i < s.Params().Len(); i++ {
		l = append(l, types.TypeString(s.Params().At(i).Type(), qual))
	}
	l = append(l, "->")
	for i := 0; i < s.Results().Len(); i++ {
		l = append(l, types.TypeString(s.Results().At(i).Type(), qual))
	}
	return strings.Join(l, " ")
}

var declKinds = []string{"type", "field", "func", "var"}

// inventory: the declarations the checks were written for.
type inventory map[string]map[string][]declared // kind, scope

func readInventory(text string) inventory {
	inv := inventory{}
	for _, k := range declKinds {
		inv[k] = map[string][]declared{}
	}
	for _, l := range strings.Split(text, "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 4 && inv[f[0]] != nil {
			inv[f[0]][f[1]] = append(inv[f[0]][f[1]], declared{kind: f[0], scope: f[1], name: f[2], shape: f[3]})
		}
	}
	return inv
}

func (inv inventory) has(kind, scope, name string) bool {
	for _, d := range inv[kind][scope] {
		if d.name == name {
			return true
		}
	}
	return false
}

// rename gives renamed declarations their inventory names back.
func (inv inventory) rename(pkgs []*packages.Package) {
	ifaceM := map[string]bool{}
	for _, p := range pkgs {
		for _, n := range p.Types.Scope().Names() {
			if t, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok {
				if it, ok := t.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						ifaceM[it.Method(i).Name()] = true
					}
				}
			}
		}
	}
	renamed := map[types.Object]string{}
	for _, kind := range declKinds {
		now := map[string][]declared{}
		for _, d := range declarations(pkgs, kind) {
			now[d.scope] = append(now[d.scope], d)
		}
		for scope, ds := range now {
			have := map[string]bool{}
			for _, d := range ds {
				have[d.name] = true
			}
			added, lost := map[string][]declared{}, map[string][]declared{}
			for _, d := range ds {
				if !inv.has(kind, scope, d.name) && !generic(d.obj) && d.name != "_" && !(kind == "func" && ifaceM[d.name]) {
					added[d.shape] = append(added[d.shape], d)
				}
			}
			for _, d := range inv[kind][scope] {
				if !have[d.name] {
					lost[d.shape] = append(lost[d.shape], d)
				}
			}
			for shape, as := range added {
				ls := lost[shape]
				if len(ls) == 0 {
					continue
				}
				sort.Slice(as, func(i, j int) bool { return as[i].before(as[j]) })
				pair := func(a, l declared) {
					renamed[a.obj] = l.name
					setPriv(a.obj, "name", l.name)
					if sc := a.obj.Pkg().Scope(); sc.Lookup(a.name) == a.obj {
						dropName(sc, a.name)
						sc.Insert(a.obj)
					}
				}
				if len(as) == len(ls) {
					for i, a := range as {
						pair(a, ls[i])
					}
					continue
				}
				// the most alike first
				for len(as) > 0 && len(ls) > 0 {
					bi, bj, best := 0, 0, -1
					for i, a := range as {
						for j, l := range ls {
							if s := alike(a.name, l.name); s > best {
								bi, bj, best = i, j, s
							}
						}
					}
					pair(as[bi], ls[bj])
					as = append(append([]declared{}, as[:bi]...), as[bi+1:]...)
					ls = append(append([]declared{}, ls[:bj]...), ls[bj+1:]...)
				}
			}
		}
	}
	if len(renamed) == 0 {
		return
	}
	for _, p := range pkgs {
		for _, m := range []map[*ast.Ident]types.Object{p.TypesInfo.Defs, p.TypesInfo.Uses} {
			for id, o := range m {
				if n, ok := renamed[o]; ok {
					id.Name = n
				}
			}
		}
	}
}

func generic(o types.Object) bool {
	f, ok := o.(*types.Func)
	return ok && (f.Signature().TypeParams().Len() > 0 || f.Signature().RecvTypeParams().Len() > 0)
}

// dropName takes a name out of a scope.
func dropName(sc *types.Scope, name string) {
	f := reflect.ValueOf(sc).Elem().FieldByName("elems")
	m := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	m.SetMapIndex(reflect.ValueOf(name), reflect.Value{})
}

// alike counts the letters two names share at the start and at the end.
func alike(a, b string) int {
	a, b = strings.ToLower(a), strings.ToLower(b)
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	m := 0
	for m < len(a)-n && m < len(b)-n && a[len(a)-1-m] == b[len(b)-1-m] {
		m++
	}
	return n + m
}

func printInventory(pkgs []*packages.Package) {
	for _, k := range declKinds {
		ds := declarations(pkgs, k)
		sort.SliceStable(ds, func(i, j int) bool {
			if ds[i].scope != ds[j].scope {
				return ds[i].scope < ds[j].scope
			}
			return ds[i].before(ds[j])
		})
		for _, d := range ds {
			fmt.Println(d.line())
		}
	}
	os.Exit(0)
}
