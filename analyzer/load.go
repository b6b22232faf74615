package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/KitchenMishap/pudding-shed"

// Packages that do not compile at the pinned commit and are outside the analysed program.
var excludedPkgs = map[string]bool{
	modulePath:                        true,
	modulePath + "/chainreadentities": true,
}

// Prog is the analysed program.
type Prog struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	Funcs []*ssa.Function // every function with source in the module (closures included), sorted
	cg    *callgraph.Graph
	impls map[string][]*ssa.Function
}

func loadProg(repo, depsSum string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "pscheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	modfile := filepath.Join(tmp, "an.mod")
	if err := os.WriteFile(modfile, gomod, 0o644); err != nil {
		return nil, err
	}
	if sum, err := os.ReadFile(depsSum); err == nil {
		if err := os.WriteFile(filepath.Join(tmp, "an.sum"), sum, 0o644); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0",
		"GOFLAGS=-mod=mod -buildvcs=false -modfile="+modfile)
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:  repo,
		Env:  env,
		Fset: fset,
	}
	// First list the packages, to leave out those that are known not to compile.
	lcfg := *cfg
	lcfg.Mode = packages.NeedName | packages.NeedFiles
	listed, err := packages.Load(&lcfg, "./...")
	if err != nil {
		return nil, err
	}
	var pats []string
	for _, p := range listed {
		if excludedPkgs[p.PkgPath] || !strings.HasPrefix(p.PkgPath, modulePath) || len(p.GoFiles) == 0 {
			continue
		}
		pats = append(pats, p.PkgPath)
	}
	sort.Strings(pats)
	if len(pats) < 20 {
		return nil, fmt.Errorf("only %d packages found under %s", len(pats), repo)
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
		if p.Types == nil || p.TypesInfo == nil {
			errs = append(errs, p.PkgPath+": no type information")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if os.Getenv("PS_INVENTORY") != "" {
		printInventory(pkgs)
	}
	inv := readInventory(inventoryText)
	inv.rename(pkgs)
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Repo: repo, Fset: fset, Pkgs: pkgs, SSA: prog}
	var own []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && inModule(f) {
			own = append(own, f)
		}
	}
	if os.Getenv("PS_NOINLINE") == "" {
		normalise(own, inv)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || !inModule(f) {
			continue
		}
		if f.Synthetic != "" && f.Synthetic != "package initializer" && !strings.HasPrefix(f.Synthetic, "instance of") {
			continue
		}
		canonical(f)
		P.Funcs = append(P.Funcs, f)
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.Pos() != b.Pos() {
			return P.posLess(a.Pos(), b.Pos())
		}
		return a.String() < b.String()
	})
	return P, nil
}

func (P *Prog) posLess(a, b token.Pos) bool {
	pa, pb := P.Fset.Position(a), P.Fset.Position(b)
	if pa.Filename != pb.Filename {
		return pa.Filename < pb.Filename
	}
	return pa.Offset < pb.Offset
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg
		}
		if g.Parent() != nil {
			continue
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func pkgPath(f *ssa.Function) string {
	if p := pkgOf(f); p != nil {
		return p.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func inModule(f *ssa.Function) bool { return strings.HasPrefix(pkgPath(f), modulePath) }

// relPkg gives the package path below the module ("chainstorage").
func relPkg(f *ssa.Function) string {
	return strings.TrimPrefix(strings.TrimPrefix(pkgPath(f), modulePath), "/")
}

// CG is a VTA call graph over CHA.
func (P *Prog) CG() *callgraph.Graph {
	if P.cg == nil {
		all := ssautil.AllFunctions(P.SSA)
		P.cg = vta.CallGraph(all, cha.CallGraph(P.SSA))
	}
	return P.cg
}

// Pos renders a position relative to the repository.
func (P *Prog) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// fnName is a stable short name: pkg.(Type).Method or pkg.Func, closures as parent$n.
func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modulePath+"/", "")
	return s
}

// rootFn is the outermost enclosing declared function of a closure.
func rootFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// FuncsIn returns the functions of the given packages (relative paths).
func (P *Prog) FuncsIn(rel ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		for _, r := range rel {
			if relPkg(f) == r {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func (P *Prog) Package(rel string) *packages.Package {
	for _, p := range P.Pkgs {
		if p.PkgPath == modulePath+"/"+rel {
			return p
		}
	}
	return nil
}

func (P *Prog) SSAPackage(rel string) *ssa.Package {
	p := P.Package(rel)
	if p == nil {
		return nil
	}
	return P.SSA.Package(p.Types)
}

// Named finds a named type.
func (P *Prog) Named(rel, name string) *types.Named {
	p := P.Package(rel)
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method finds the declared method of a named type (pointer or value receiver).
func (P *Prog) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return P.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Func finds a package-level function.
func (P *Prog) Func(rel, name string) *ssa.Function {
	sp := P.SSAPackage(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Implementations gives the module's declared methods that an invoke of m may dispatch to.
func (P *Prog) Implementations(iface *types.Interface, m *types.Func) []*ssa.Function {
	key := types.TypeString(iface, nil) + "." + m.Name()
	if P.impls == nil {
		P.impls = map[string][]*ssa.Function{}
	}
	if r, ok := P.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, p := range P.Pkgs {
		sc := p.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := n.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(n, iface) || types.Implements(types.NewPointer(n), iface) {
				ms := P.SSA.MethodSets.MethodSet(types.NewPointer(n))
				sel := ms.Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				if fn, ok := sel.Obj().(*types.Func); ok {
					if sf := P.SSA.FuncValue(fn); sf != nil && sf.Blocks != nil {
						out = append(out, sf)
					}
				}
			}
		}
	}
	P.impls[key] = out
	return out
}

// Callees of a call within the module: static callee, closure, or interface implementations.
func (P *Prog) Callees(c ssa.CallInstruction) []*ssa.Function {
	com := c.Common()
	if com.IsInvoke() {
		it, ok := com.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		return P.Implementations(it, com.Method)
	}
	if f := com.StaticCallee(); f != nil {
		if f.Blocks != nil && inModule(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	// dynamic call of a function value: use the call graph
	if n := P.CG().Nodes[c.Parent()]; n != nil {
		var out []*ssa.Function
		for _, e := range n.Out {
			if e.Site == c && e.Callee.Func.Blocks != nil && inModule(e.Callee.Func) {
				out = append(out, e.Callee.Func)
			}
		}
		return out
	}
	return nil
}

// calleeName gives "pkg.Func" / "(*pkg.T).M" / "iface pkg.I.M" for matching external callees.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		if o := v.Object(); o != nil {
			if fn, ok := o.(*types.Func); ok {
				return fn.FullName()
			}
		}
		if v.Parent() == nil && v.Origin() != nil && v.Origin().Object() != nil {
			return v.Origin().Object().(*types.Func).FullName()
		}
		return v.String()
	case *ssa.Builtin:
		return "builtin " + v.Name()
	case *ssa.MakeClosure:
		return v.Fn.String()
	}
	return "dynamic"
}

// shortCallee names a callee for finding keys: receiver-independent method name plus the declaring type's short name.
func shortCallee(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Signature.Recv() != nil {
			return "." + f.Name()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Name() + "." + f.Name()
		}
		return "func literal"
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "func value"
}

// canonical brings comparisons and commutative operations into one form: constants on the right, otherwise < and <=
// rather than > and >=.
func canonical(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			_, cx := bo.X.(*ssa.Const)
			_, cy := bo.Y.(*ssa.Const)
			mirror, cmp := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR,
				token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[bo.Op]
			switch {
			case cx && !cy && cmp:
				bo.X, bo.Y, bo.Op = bo.Y, bo.X, mirror
			case cx && !cy && (bo.Op == token.ADD || bo.Op == token.MUL || bo.Op == token.AND || bo.Op == token.OR || bo.Op == token.XOR):
				if t, ok := bo.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
					bo.X, bo.Y = bo.Y, bo.X
				}
			case !cx && !cy && (bo.Op == token.GTR || bo.Op == token.GEQ):
				bo.X, bo.Y, bo.Op = bo.Y, bo.X, mirror
			}
		}
	}
}
