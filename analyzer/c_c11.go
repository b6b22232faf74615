package main

import (
	"fmt"
	"go/constant"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// creates: the operations documented to create, replace or rebuild a store, by package and name.
var creates = []struct{ pkg, name string }{
	{"", `^Create`},
	{"indexedhashes", `^(ReadIn|IndexTheHashes)$`},
	{"indexedhashes3", `^(New\w*Preloader(Adaptive)?|IndexTheHashes)$`},
	{"jobs", `^(RunIntrinsic|PhaseOneParallelIntrinsic(Chi)?)$`},
	{"weddingcakeback", `^MakeEmptyAfterBaking$`},
}

func creating(f *ssa.Function) bool {
	for _, c := range creates {
		if (c.pkg == "" || c.pkg == relPkg(f)) && regexp.MustCompile(c.name).MatchString(f.Name()) {
			return true
		}
	}
	return false
}

// saving: what is kept in memory is written whole over the store's own file when it is saved; these paths only.
var saving = map[string]bool{
	"<intarrayarray.IntArrayMapStore.folder>/<intarrayarray.IntArrayMapStore.name>/*":                   true,
	"<intarrayarray.CachedIntArrayMapStore.folder>/<intarrayarray.CachedIntArrayMapStore.name>/*":       true,
	"<indexedhashes.ConcreteHashStoreCreator.folder>/<indexedhashes.ConcreteHashStoreCreator.name>.lkp": true,
	"<indexedhashes3.overflowFiles.folderPath>/BinOverflows/*":                                          true,
}

// ownPaths: what each kind of store may truncate, replace or remove: its own files. A * is what is computed (the
// folders and file of a number).
var ownPaths = map[string]bool{
	"<$chainstorage.NewConcreteHashesChainCreator#0>/Blocks/Hashes/Hashes.hsh":                                                            true,
	"<$chainstorage.NewConcreteHashesChainCreator#0>/Transactions/Hashes/Hashes.hsh":                                                      true,
	"<$chainstorage.NewConcreteHashesChainCreator#0>/Addresses/Hashes/Hashes.hsh":                                                         true,
	"<indexedhashes.ConcreteHashStoreCreator.folder>/<indexedhashes.ConcreteHashStoreCreator.name>.hsh":                                   true,
	"<indexedhashes.ConcreteHashStoreCreator.folder>/<indexedhashes.ConcreteHashStoreCreator.name>.lkp":                                   true,
	"<indexedhashes.ConcreteHashStoreCreator.folder>/<indexedhashes.ConcreteHashStoreCreator.name>.cls":                                   true,
	"<indexedhashes.ConcreteHashStoreCreatorMemory.folder>/<indexedhashes.ConcreteHashStoreCreatorMemory.name>.hsh":                       true,
	"<indexedhashes.UniformHashStoreCreator.folder>/<indexedhashes.UniformHashStoreCreator.name>":                                         true,
	"<indexedhashes.UniformHashStoreCreator.folder>/<indexedhashes.UniformHashStoreCreator.name>/Hashes.hsh":                              true,
	"<indexedhashes.UniformHashStoreCreator.folder>/<indexedhashes.UniformHashStoreCreator.name>/Params.json":                             true,
	"<indexedhashes.UniformHashStoreCreator.folder>/<indexedhashes.UniformHashStoreCreator.name>/BinStarts.bst":                           true,
	"<indexedhashes.UniformHashStoreCreator.folder>/<indexedhashes.UniformHashStoreCreator.name>/BinOverflows/*":                          true,
	"<intarrayarray.ConcreteMapStoreCreator.folder>/<intarrayarray.ConcreteMapStoreCreator.name>":                                         true,
	"<weddingcake.TierZeroCreator.folder>/Tier0/Hashes.hsh":                                                                               true,
	"<indexedhashes3.AdaptivePassPreloader.folderPath>/BinNums.int":                                                                       true,
	"<indexedhashes3.AdaptivePassPreloader.folderPath>/BinStarts.bes":                                                                     true,
	"<indexedhashes3.ConcreteHashStoreCreator.folderPath>/BinStarts.bes":                                                                  true,
	"<indexedhashes3.MultipassPreloader.folderPath>/BinNums.int":                                                                          true,
	"<indexedhashes3.MultipassPreloader.folderPath>/BinStarts.bes":                                                                        true,
	"<$indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive#0>/<$indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive#1>/BinNums.int": true,
	"<$indexedhashes3.NewHashStoreCreatorAndPreloader#0>/<$indexedhashes3.NewHashStoreCreatorAndPreloader#1>/BinNums.int":                 true,
	"<$indexedhashes3.writeParamsFile#1>/HashIndexingParams.json":                                                                         true,
	"<$weddingcakeback.NewTierBelow#0>/Tier*":                                                                                             true,
	"<weddingcakeback.TierTop.folder>/TierTop/Hashes.hsh":                                                                                 true,
	"<weddingcakeback.TierTop.folder>/TierTop/FirstPresentationIndex.bin":                                                                 true,
	"<weddingcakeback.TierTopCreator.folder>/TierTop/Hashes.hsh":                                                                          true,
	"<weddingcakeback.TierTopCreator.folder>/TierTop/FirstPresentationIndex.bin":                                                          true,
	"<wordfile.ConcreteMmapWordFileCreator.folder>/<wordfile.ConcreteMmapWordFileCreator.name>.int":                                       true,
	"<wordfile.ConcreteWordFileCreator.folder>/<wordfile.ConcreteWordFileCreator.name>.int":                                               true,
	"<$jobs.RunIntrinsic#0>": true,
}

type pathsOf struct {
	P      *Prog
	stores map[string][]*ssa.Store
	calls  map[*ssa.Function][]ssa.CallInstruction
}

func newPathsOf(P *Prog) *pathsOf {
	p := &pathsOf{P: P, stores: map[string][]*ssa.Store{}, calls: map[*ssa.Function][]ssa.CallInstruction{}}
	for _, f := range P.Funcs {
		if testHelper(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Store:
					if fa, ok := t.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa.X, fa.Field)
						p.stores[k] = append(p.stores[k], t)
					}
				case ssa.CallInstruction:
					if g := t.Common().StaticCallee(); g != nil {
						p.calls[g] = append(p.calls[g], t)
					}
				}
			}
		}
	}
	return p
}

// of: every path a value may be. Fields that hold whole paths, and parameters of functions that are handed a whole
// path, are followed to where they come from.
func (p *pathsOf) of(v ssa.Value, f *ssa.Function, depth int) []string {
	var out []string
	for _, alt := range p.render(p.P.symAlts(v, &symCtx{f: f}), depth) {
		s := alt
		for strings.Contains(s, "//") {
			s = strings.ReplaceAll(s, "//", "/")
		}
		s = strings.TrimSuffix(s, "/")
		// what is computed, and what follows it, is one unknown part
		if i := strings.Index(s, "*"); i >= 0 && !strings.Contains(s, "..") {
			s = s[:i+1]
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return slices.Compact(out)
}

func (p *pathsOf) render(e *Expr, depth int) []string {
	cross := func(sep string, args []*Expr) []string {
		out := []string{""}
		for i, a := range args {
			var next []string
			for _, x := range p.render(a, depth) {
				for _, o := range out {
					if i > 0 {
						o += sep
					}
					next = append(next, o+x)
				}
			}
			out = next
		}
		return out
	}
	if depth > 6 {
		return []string{"?"}
	}
	switch {
	case e.Op == "const" && e.C != nil:
		if k, ok := e.Int(); ok && k == 47 {
			return []string{"/"}
		}
		if e.C.Kind() == constant.String {
			return []string{strings.ReplaceAll(constant.StringVal(e.C), "\\", "/")}
		}
		return []string{"*"}
	case e.Op == "conv" && len(e.Args) == 1:
		return p.render(e.Args[0], depth)
	case e.Op == "bin" && e.Name == "+":
		return cross("", e.Args)
	case e.Op == "call" && (e.Name == "path.Join" || e.Name == "filepath.Join"):
		args := e.Args
		if len(args) == 1 {
			if l := listed(args[0]); l != nil {
				args = l
			}
		}
		return cross("/", args)
	case e.Op == "call" && e.Name == "fmt.Sprintf" && len(e.Args) > 0 && e.Args[0].Op == "const" && e.Args[0].C.Kind() == constant.String:
		return []string{regexp.MustCompile(`%[0-9+# -]*[a-z]`).ReplaceAllString(constant.StringVal(e.Args[0].C), "*")}
	case e.Op == "phi":
		var out []string
		for _, a := range e.Args {
			out = append(out, p.render(a, depth)...)
		}
		// the empty string is "none yet" where there are others
		if full := slices.DeleteFunc(slices.Clone(out), func(s string) bool { return s == "" }); len(full) > 0 {
			return full
		}
		return out
	case e.Op == "field":
		var subs []string
		whole := false
		for _, st := range p.stores[e.Name] {
			for _, s := range p.render(p.P.symAlts(st.Val, &symCtx{f: st.Parent()}), depth+1) {
				if s == "" {
					continue
				}
				whole = whole || strings.Contains(s, "/")
				subs = append(subs, s)
			}
		}
		if whole {
			return subs
		}
		return []string{"<" + e.Name + ">"}
	case e.Op == "param":
		pa, ok := e.V.(*ssa.Parameter)
		if !ok {
			return []string{"<" + e.Name + ">"}
		}
		g := pa.Parent()
		i := -1
		for j, x := range g.Params {
			if x == pa {
				i = j
			}
		}
		// followed unless the function is one the user calls with his own folder
		var subs []string
		whole := len(p.calls[g]) > 0 && (g.Object() == nil || !g.Object().Exported() || g.Name() == "SaveFile" || g.Name() == "NewFixedSizeMemFile")
		for _, site := range p.calls[g] {
			if testHelper(site.Parent()) || i >= len(site.Common().Args) {
				continue
			}
			for _, s := range p.render(p.P.symAlts(site.Common().Args[i], &symCtx{f: site.Parent()}), depth+1) {
				whole = whole && strings.Contains(s, "/")
				subs = append(subs, s)
			}
		}
		if whole && len(subs) > 0 {
			return subs
		}
		return []string{fmt.Sprintf("<$%s#%d>", fnName(g), i)}
	}
	return []string{"*"}
}

func init() {
	checks["C11"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"deletes-nothing: nothing that can run when an operation other than those documented to create or replace a store is called removes, truncates or replaces a file, other than by saving what is kept in memory to its own file or by emptying a baked tier",
			"own-files: every removal, truncation or replacement is of the store's own files or its own folder",
			"asked-for: the whole folder of an import is removed only when its first phase is asked for",
		}
		r.Assume = []string{"what runs is closed under rapid type analysis from every exported operation not documented to create, with any arguments", "the order in which a bake empties its source is C26"}
		var api, every []*ssa.Function
		for _, f := range P.Funcs {
			if f.Parent() != nil || testHelper(f) || f.TypeParams().Len() > len(f.TypeArgs()) || f.Synthetic != "" || f.Name() == "init" {
				continue
			}
			every = append(every, f)
			if f.Object() != nil && f.Object().Exported() && !creating(f) {
				api = append(api, f)
			}
		}
		po := newPathsOf(P)
		rc := newReach(P)
		rc.stop = creating
		rc.run(nil, api)
		fx, calls := rc.effects()
		r.count("operations that are not to delete", len(api))
		r.count("functions that can run", len(rc.funcs))
		r.count("calls examined", calls)
		for _, e := range fx {
			if !e.kill {
				continue
			}
			ok := e.path != nil
			var ps []string
			if ok {
				ps = po.of(e.path, e.fn, 0)
			}
			for _, s := range ps {
				ok = ok && saving[s] && e.what == "replaces a file"
			}
			r.count("files saved over", 1)
			r.oblig(ok, Finding{Rule: "deletes-nothing", Func: fnName(e.fn), Construct: e.what, Pos: P.Pos(e.site.Pos()),
				Msg: fmt.Sprintf("%s %s (%s), and can run when %s is called", fnName(e.fn), e.what, strings.Join(ps, ", "), rc.path(e.fn)[0]), Path: rc.path(e.fn)})
		}
		all := newReach(P)
		all.run(nil, every)
		fx, _ = all.effects()
		for _, e := range fx {
			if !e.kill {
				continue
			}
			r.count("deletions", 1)
			if e.path == nil {
				// the truncation of a file just created: of what this function opened
				ok := false
				for _, o := range fx {
					ok = ok || o.fn == e.fn && o.path != nil
				}
				r.oblig(ok, Finding{Rule: "own-files", Func: fnName(e.fn), Construct: e.what, Pos: P.Pos(e.site.Pos()), Msg: fnName(e.fn) + " " + e.what + " that it did not create"})
				continue
			}
			for _, s := range po.of(e.path, e.fn, 0) {
				ok := (ownPaths[s] || saving[s]) && !strings.Contains(s, "..")
				r.sample(fnName(e.fn) + ": " + s)
				r.oblig(ok, Finding{Rule: "own-files", Func: fnName(e.fn), Construct: e.what + " " + s, Pos: P.Pos(e.site.Pos()),
					Msg: fmt.Sprintf("%s %s at %s, which is not a path of its own store", fnName(e.fn), e.what, s)})
			}
		}
		// the import removes everything only in its first phase
		if f := P.Func("jobs", "RunIntrinsic"); f != nil {
			n := 0
			var first *ssa.Parameter
			for _, p := range f.Params {
				if p.Type().String() == "bool" {
					if n++; n == 2 {
						first = p
					}
				}
			}
			rc := newReach(P)
			rc.fixed = map[ssa.Value]rval{first: rconst(constant.MakeBool(false))}
			rc.run(nil, []*ssa.Function{f})
			fx, _ := rc.effects()
			bad := false
			for _, e := range fx {
				if e.kill && e.fn == f {
					bad = true
					r.oblig(false, Finding{Rule: "asked-for", Func: fnName(f), Construct: e.what, Pos: P.Pos(e.site.Pos()), Msg: "RunIntrinsic " + e.what + " although the first phase is not asked for"})
				}
			}
			r.oblig(!bad, Finding{Rule: "asked-for", Func: fnName(f)})
			r.count("phases gated", 1)
		}
		r.floor("operations that are not to delete", 150)
		r.floor("deletions", 20)
		r.floor("files saved over", 2)
		r.floor("phases gated", 1)
		return r
	}
}
