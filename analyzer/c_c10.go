package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effect is what a call of the standard library (or of the module's dependencies) may do to files.
type effect struct {
	site ssa.CallInstruction
	fn   *ssa.Function
	what string // "creates", "removes", ... ; "" none
	path ssa.Value
	kill bool // may delete data: truncate or remove
}

var osQuiet = map[string]bool{"Open": true, "Stat": true, "Lstat": true, "ReadFile": true, "ReadDir": true, "Readlink": true, "IsNotExist": true, "IsExist": true, "IsPermission": true, "IsTimeout": true, "Exit": true, "Getenv": true, "LookupEnv": true,
	"Getwd": true, "Getpagesize": true, "Getpid": true, "TempDir": true, "UserHomeDir": true, "IsPathSeparator": true, "NewFile": true, "Hostname": true, "Environ": true, "Getuid": true, "SameFile": true, "DirFS": true, "Executable": true}
var fileQuiet = map[string]bool{"Read": true, "ReadAt": true, "Close": true, "Stat": true, "Seek": true, "Name": true, "Fd": true, "ReadDir": true, "Readdir": true, "Readdirnames": true, "Sync": true, "SyscallConn": true, "WriteTo": true}

// effectOf: what a callee without source in the module does to files.
func effectOf(r *reach, f *ssa.Function, site ssa.CallInstruction, g *ssa.Function) (effect, bool) {
	e := effect{site: site, fn: f}
	c := site.Common()
	pk := pkgPath(g)
	recv := ""
	if g.Signature.Recv() != nil {
		recv = typeKey(derefType(g.Signature.Recv().Type()))
		if n, ok := types.Unalias(derefType(g.Signature.Recv().Type())).(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	arg := func(i int) ssa.Value {
		if c.IsInvoke() {
			i--
		}
		if i >= 0 && i < len(c.Args) {
			return c.Args[i]
		}
		return nil
	}
	name := g.Name()
	switch {
	case pk == "os" && recv == "":
		e.path = arg(0)
		switch name {
		case "OpenFile":
			n, ok := r.flags(arg(1), 0)
			if !ok {
				e.what, e.kill = "opens with flags that are not constant", true
				return e, true
			}
			var fs []string
			if n&int64(os.O_WRONLY|os.O_RDWR) != 0 {
				fs = append(fs, "for writing")
			}
			if n&int64(os.O_CREATE) != 0 {
				fs = append(fs, "creating it")
			}
			if n&int64(os.O_TRUNC) != 0 {
				fs = append(fs, "truncating it")
				e.kill = true
			}
			if len(fs) == 0 {
				return e, false
			}
			e.what = "opens a file " + strings.Join(fs, ", ")
			return e, true
		case "Create":
			e.what, e.kill = "creates or truncates a file", true
		case "WriteFile":
			e.what, e.kill = "replaces a file", true
		case "Remove", "RemoveAll":
			e.what, e.kill = "removes a file or directory", true
		case "Truncate":
			e.what, e.kill = "truncates a file", true
		case "Rename":
			e.what, e.kill = "renames a file", true
		case "Mkdir", "MkdirAll", "MkdirTemp":
			e.what = "creates a directory"
		default:
			if osQuiet[name] {
				return e, false
			}
			e.what = "calls os." + name
		}
		return e, true
	case pk == "os" && recv == "File":
		switch {
		case fileQuiet[name]:
			return e, false
		case name == "Truncate":
			e.what, e.kill = "truncates an open file", true
		case strings.HasPrefix(name, "Write") || name == "ReadFrom":
			e.what = "writes to an open file"
		default:
			e.what = "calls (*os.File)." + name
		}
		return e, true
	case pk == "os":
		return e, false // FileInfo, errors and the like
	case pk == "bufio" && recv == "Writer" && (strings.HasPrefix(name, "Write") || name == "Flush" || name == "ReadFrom"):
		e.what = "writes through a buffer"
		return e, true
	case pk == "io" && (name == "Copy" || name == "CopyN" || name == "CopyBuffer" || name == "WriteString"):
		e.what = "writes to what it is given"
		return e, true
	case pk == "encoding/binary" && name == "Write":
		e.what = "writes to what it is given"
		return e, true
	case pk == "syscall" || pk == "os/exec" || strings.HasPrefix(pk, "golang.org/x/sys"):
		e.what = "calls " + pk + "." + name
		return e, true
	case strings.HasSuffix(pk, "mmap-go") && recv == "":
		fl := r.of(arg(1))
		if fl.k == 1 && fl.c != nil {
			if n, _ := constant.Int64Val(fl.c); n == 0 {
				return e, false
			}
		}
		e.what = "maps a file for writing"
		return e, true
	}
	return e, false
}

// flags: every flag an argument may hold.
func (r *reach) flags(v ssa.Value, depth int) (int64, bool) {
	if x := r.of(v); x.k == 1 && x.c != nil && x.c.Kind() == constant.Int {
		n, _ := constant.Int64Val(x.c)
		return n, true
	}
	if depth > 5 {
		return 0, false
	}
	switch t := v.(type) {
	case *ssa.Phi:
		var n int64
		for _, e := range t.Edges {
			m, ok := r.flags(e, depth+1)
			if !ok {
				return 0, false
			}
			n |= m
		}
		return n, true
	case *ssa.BinOp:
		x, ok := r.flags(t.X, depth+1)
		y, ok2 := r.flags(t.Y, depth+1)
		return x | y, ok && ok2 && t.Op == token.OR
	case *ssa.Parameter:
		f := t.Parent()
		i := -1
		for j, p := range f.Params {
			if p == t {
				i = j
			}
		}
		var n int64
		seen := false
		for g := range r.funcs {
			for _, b := range g.Blocks {
				if !r.blocks[b] {
					continue
				}
				for _, in := range b.Instrs {
					site, ok := in.(ssa.CallInstruction)
					if !ok || site.Common().StaticCallee() != f || i >= len(site.Common().Args) {
						continue
					}
					m, ok := r.flags(site.Common().Args[i], depth+1)
					if !ok {
						return 0, false
					}
					n |= m
					seen = true
				}
			}
		}
		return n, seen
	}
	return 0, false
}

// effects: every call that can run and may change files.
func (r *reach) effects() (out []effect, calls int) {
	var fs []*ssa.Function
	for f := range r.funcs {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		for _, b := range f.Blocks {
			if !r.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				site, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				calls++
				for _, g := range r.callees(f, site.Common()) {
					if inModule(g) {
						continue
					}
					if e, is := effectOf(r, f, site, g); is {
						out = append(out, e)
					}
				}
			}
		}
	}
	return out, calls
}

// readOnlyRoots: the entry points that open for reading, and the constructors of what they are called on.
func readOnlyRoots(P *Prog) (made, roots []*ssa.Function) {
	owners := map[string]bool{}
	for _, f := range P.Funcs {
		if f.Parent() != nil || testHelper(f) || f.TypeParams().Len() > len(f.TypeArgs()) {
			continue
		}
		if strings.HasPrefix(f.Name(), "Open") && strings.HasSuffix(f.Name(), "ReadOnly") || f.Name() == "NewMmapReadOnly" {
			roots = append(roots, f)
			if f.Signature.Recv() != nil {
				owners[typeKey(derefType(f.Signature.Recv().Type()))] = true
			}
		}
	}
	for _, f := range P.Funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || testHelper(f) || f.TypeParams().Len() > len(f.TypeArgs()) {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if owners[typeKey(derefType(t))] {
				made = append(made, f)
				break
			}
		}
	}
	return made, roots
}

func init() {
	checks["C10"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{"no-effect: nothing that can run when a store is opened for reading, or when the objects this gave are used, creates, writes, truncates, renames or removes a file or directory, or opens or maps one for writing"}
		r.Assume = []string{"what runs is closed under rapid type analysis from the read-only entry points, the constructors of their receivers and the methods of the interfaces they return; a guard is closed if the field it tests is only ever given that one value by what can run"}
		made, roots := readOnlyRoots(P)
		for _, root := range roots {
			rc := newReach(P).run(made, []*ssa.Function{root})
			fx, calls := rc.effects()
			r.count("read-only entry points", 1)
			r.count("functions that can run", len(rc.funcs))
			r.count("calls examined", calls)
			bad := 0
			for _, e := range fx {
				bad++
				r.oblig(false, Finding{Rule: "no-effect", Func: fnName(root), Construct: fnName(e.fn) + " " + e.what, Pos: P.Pos(e.site.Pos()),
					Msg: fmt.Sprintf("%s can run when %s is used, and %s", fnName(e.fn), fnName(root), e.what), Path: rc.path(e.fn)})
			}
			if bad == 0 {
				r.oblig(true, Finding{Rule: "no-effect", Func: fnName(root)})
			}
			var us []string
			for k := range rc.user {
				us = append(us, k[strings.LastIndex(k, "/")+1:])
			}
			sort.Strings(us)
			r.sample(fmt.Sprintf("%s: %d functions, %d calls, interfaces used: %s", fnName(root), len(rc.funcs), calls, strings.Join(us, ", ")))
		}
		r.floor("read-only entry points", 10)
		return r
	}
}
