package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error-flow analysis.
//
// For every construct that yields an error (a call, a receive from a channel of errors) the analysis assumes that
// the error is non-nil and follows every feasible path of the enclosing function under that assumption, keeping
// track of which values still carry the error. The obligation is broken when a path
//   - reaches a return that does not report (nil or unrelated error, or no error result at all), or
//   - loses the error (overwrites it and goes round a loop with other work)
// before the error was returned, wrapped and returned, panicked with, sent, or stored in an object.

type absv uint8

const (
	vUnknown absv = iota
	vNil
	vNonNil // some other error/pointer known to be non-nil
	vAlias  // carries the failing error
	vTrue
	vFalse
	vTolNotExist // boolean: "the failing error is not-exist"
	vTolEOF      // boolean: "the failing error is io.EOF"
	vTolClosed
	vNotTolEOF // negations
	vNotTolClosed
	vNotTolNotExist
)

type efState struct {
	blk  *ssa.BasicBlock
	env  map[ssa.Value]absv
	mem  map[ssa.Value]absv
	argc bool // an argument dependency of the source was re-evaluated on this path
	path []*ssa.BasicBlock
}

type efFunc struct {
	P       *Prog
	f       *ssa.Function
	ids     map[ssa.Value]int
	tracked map[ssa.Value]bool // error-typed or bool values worth keeping in env
	entry   map[*ssa.BasicBlock][]efState
	nStates int
}

type efAnalysis struct {
	P         *Prog
	fns       map[*ssa.Function]*efFunc
	noret     map[*ssa.Function]int
	nonnil    map[*ssa.Function]int
	nevererr  map[*ssa.Function]int
	consumes  map[string]int
	discrFn   map[*ssa.Function]absv
	undecided []string
}

func newEF(P *Prog) *efAnalysis {
	return &efAnalysis{P: P, fns: map[*ssa.Function]*efFunc{}, noret: map[*ssa.Function]int{}, nonnil: map[*ssa.Function]int{},
		nevererr: map[*ssa.Function]int{}, consumes: map[string]int{}, discrFn: map[*ssa.Function]absv{}}
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

func errResultIdx(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func (a *efAnalysis) fn(f *ssa.Function) *efFunc {
	if e := a.fns[f]; e != nil {
		return e
	}
	e := &efFunc{P: a.P, f: f, ids: map[ssa.Value]int{}, tracked: map[ssa.Value]bool{}}
	n := 0
	for _, p := range f.Params {
		e.ids[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		e.ids[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				e.ids[v] = n
				n++
			}
		}
	}
	a.fns[f] = e
	return e
}

func (e *efFunc) key(s *efState) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%v|", s.blk.Index, s.argc)
	w := func(m map[ssa.Value]absv) {
		ks := make([]string, 0, len(m))
		for v, x := range m {
			id, ok := e.ids[v]
			if ok {
				ks = append(ks, fmt.Sprintf("%d=%d", id, x))
			} else {
				ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), x))
			}
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		sb.WriteByte('|')
	}
	w(s.env)
	w(s.mem)
	return sb.String()
}

func cloneEnv(m map[ssa.Value]absv) map[ssa.Value]absv {
	r := make(map[ssa.Value]absv, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func eval(s *efState, v ssa.Value) absv {
	if x, ok := s.env[v]; ok {
		return x
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.IsNil() {
			return vNil
		}
		if t.Value != nil && t.Value.Kind() == constant.Bool {
			if constant.BoolVal(t.Value) {
				return vTrue
			}
			return vFalse
		}
	case *ssa.ChangeInterface:
		return eval(s, t.X)
	case *ssa.MakeInterface:
		if isErrorType(t.Type()) {
			// a concrete value stored in an error is a non-nil error; a wrapper struct carrying the
			// failing error counts as the failing error
			return vNonNil
		}
		return eval(s, t.X)
	case *ssa.ChangeType:
		return eval(s, t.X)
	}
	return vUnknown
}

func isMemAddr(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return true
	}
	return false
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func worthTracking(t types.Type) bool { return isErrorType(t) || isBool(t) }

// sentinel returns the name of the package-level error variable a value is loaded from.
func sentinel(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Path() + "." + g.Name()
		}
	}
	return ""
}

func tolOfSentinel(name string) absv {
	switch name {
	case "io.EOF":
		return vTolEOF
	case "os.ErrClosed", "io/fs.ErrClosed":
		return vTolClosed
	case "os.ErrNotExist", "io/fs.ErrNotExist":
		return vTolNotExist
	}
	return vUnknown
}

func negTol(x absv) absv {
	switch x {
	case vTolEOF:
		return vNotTolEOF
	case vTolClosed:
		return vNotTolClosed
	case vTolNotExist:
		return vNotTolNotExist
	case vNotTolEOF:
		return vTolEOF
	case vNotTolClosed:
		return vTolClosed
	case vNotTolNotExist:
		return vTolNotExist
	case vTrue:
		return vFalse
	case vFalse:
		return vTrue
	}
	return vUnknown
}

// outcome of stepping one instruction
type stepRes int

const (
	stCont stepRes = iota
	stEndOK
	stEndFail // path reaches success without reporting
)

type efRun struct {
	a    *efAnalysis
	e    *efFunc
	src  ssa.Instruction // nil for the pre-exploration
	srcV ssa.Value       // value carrying the error (after extraction)
	deps map[ssa.Instruction]bool
	// requests a freshly made error is about: making the same one again makes up for it
	redo map[ssa.Instruction]bool
	bad  func(why string, at ssa.Instruction, st *efState)
	hand string // how it was consumed (any)
	// deferred cleanup guarded by "captured variable != nil": addresses whose nil-ness is tracked
	guards map[ssa.Value]bool
}

func (r *efRun) anyAlias(s *efState) bool {
	for _, x := range s.env {
		if x == vAlias {
			return true
		}
	}
	for _, x := range s.mem {
		if x == vAlias {
			return true
		}
	}
	return false
}

var infallible = map[string]bool{
	"fmt.Print": true, "fmt.Println": true, "fmt.Printf": true,
	"fmt.Fprint": true, "fmt.Fprintln": true, "fmt.Fprintf": true,
	"(hash.Hash).Write": true, "(hash.Hash32).Write": true, "(hash.Hash64).Write": true,
	"(*strings.Builder).WriteString": true, "(*strings.Builder).WriteByte": true, "(*strings.Builder).WriteRune": true, "(*strings.Builder).Write": true,
	"(*bytes.Buffer).Write": true, "(*bytes.Buffer).WriteString": true, "(*bytes.Buffer).WriteByte": true, "(*bytes.Buffer).WriteRune": true,
	"fmt.Scanln": true, "fmt.Scan": true, // console prompts
	"math/rand.Read": true, "(*math/rand.Rand).Read": true, "crypto/rand.Read": true,
}

func isNoReturnExternal(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalln", "log.Fatalf", "log.Panic", "log.Panicln", "log.Panicf", "runtime.Goexit",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf":
		return true
	}
	return false
}

// noReturn: an in-module function that never returns normally.
func (a *efAnalysis) noReturn(f *ssa.Function) bool {
	if x, ok := a.noret[f]; ok {
		return x == 1
	}
	a.noret[f] = 0
	if f.Blocks == nil {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool // true if a return is reachable
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Panic:
				return false
			case *ssa.Call:
				if isNoReturnExternal(calleeName(&t.Call)) {
					return false
				}
				if g := t.Call.StaticCallee(); g != nil && g.Blocks != nil && inModule(g) && a.noReturn(g) {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	if !walk(f.Blocks[0]) {
		a.noret[f] = 1
		return true
	}
	return false
}

// alwaysNonNil: every return of f gives a freshly made error.
func (a *efAnalysis) alwaysNonNil(f *ssa.Function) bool {
	if x, ok := a.nonnil[f]; ok {
		return x == 1
	}
	a.nonnil[f] = 0
	i := errResultIdx(f.Signature)
	if i < 0 || f.Blocks == nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			v := ret.Results[i]
			if mi, ok := v.(*ssa.MakeInterface); ok && mi != nil {
				continue
			}
			c, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			nm := calleeName(&c.Call)
			if nm == "errors.New" || nm == "fmt.Errorf" {
				continue
			}
			if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil && inModule(g) && a.alwaysNonNil(g) {
				continue
			}
			return false
		}
	}
	if n > 0 {
		a.nonnil[f] = 1
		return true
	}
	return false
}

// neverErr: every return of f gives a nil error.
func (a *efAnalysis) neverErr(f *ssa.Function) bool {
	if x, ok := a.nevererr[f]; ok {
		return x == 1
	}
	a.nevererr[f] = 0
	i := errResultIdx(f.Signature)
	if i < 0 || f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			switch v := ret.Results[i].(type) {
			case *ssa.Const:
				if !v.IsNil() {
					return false
				}
			case *ssa.Call:
				g := v.Call.StaticCallee()
				if g == nil || !a.neverErr(g) {
					return false
				}
			default:
				return false
			}
		}
	}
	a.nevererr[f] = 1
	return true
}

// discriminator: an in-module predicate on an error that classifies it as not-exist/EOF/closed.
func (a *efAnalysis) discriminator(f *ssa.Function) absv {
	if x, ok := a.discrFn[f]; ok {
		return x
	}
	a.discrFn[f] = vUnknown
	if f.Signature.Results().Len() != 1 || !isBool(f.Signature.Results().At(0).Type()) || f.Blocks == nil {
		return vUnknown
	}
	res := vUnknown
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			x := a.callDiscr(&c.Call)
			if x != vUnknown {
				res = x
			}
		}
	}
	a.discrFn[f] = res
	return res
}

// callDiscr: os.IsNotExist(err), errors.Is(err, sentinel).
func (a *efAnalysis) callDiscr(c *ssa.CallCommon) absv {
	switch calleeName(c) {
	case "os.IsNotExist":
		return vTolNotExist
	case "errors.Is":
		if len(c.Args) == 2 {
			return tolOfSentinel(sentinel(c.Args[1]))
		}
	}
	if f := c.StaticCallee(); f != nil && f.Blocks != nil && inModule(f) {
		return a.discriminator(f)
	}
	return vUnknown
}

// consumesParam: given a non-nil error in parameter i, callee f always panics, stores or sends it.
func (a *efAnalysis) consumesParam(f *ssa.Function, i int) bool {
	if f.Blocks == nil || i >= len(f.Params) {
		return false
	}
	k := fmt.Sprintf("%p/%d", f, i)
	if x, ok := a.consumes[k]; ok {
		return x == 1
	}
	a.consumes[k] = 0 // assume not, for recursion
	ok := true
	e := a.fn(f)
	r := &efRun{a: a, e: e, srcV: f.Params[i], bad: func(string, ssa.Instruction, *efState) { ok = false }}
	st := efState{blk: f.Blocks[0], env: map[ssa.Value]absv{f.Params[i]: vAlias}, mem: map[ssa.Value]absv{}}
	if !r.explore([]efState{st}, true) {
		ok = false
	}
	if ok {
		a.consumes[k] = 1
	}
	return ok
}

// step executes one instruction in state s.
func (r *efRun) step(s *efState, in ssa.Instruction) stepRes {
	if r.src != nil && in == r.src && s.path != nil {
		// the source is executed again
		if r.srcV != nil {
			delete(s.env, r.srcV)
		}
		if !r.anyAlias(s) && !s.argc && r.retryable() {
			return stEndOK // a retry with the same arguments
		}
		// either still held in another variable, or lost: the path must then fail anyway
		return stCont
	}
	if r.redo[in] && s.path != nil && !r.anyAlias(s) && !s.argc {
		return stEndOK // the request the failure was about is made again
	}
	if v, ok := in.(ssa.Value); ok {
		delete(s.env, v)
	}
	switch t := in.(type) {
	case *ssa.Call:
		return r.stepCall(s, t, &t.Call)
	case *ssa.Extract:
		// tuple calls record their error component under the tuple value
		if x, ok := s.env[t.Tuple]; ok && isErrorType(t.Type()) {
			s.env[t] = x
		}
		if x, ok := s.env[t.Tuple]; ok && isBool(t.Type()) && (x == vTolNotExist || x == vTolEOF || x == vTolClosed) {
			s.env[t] = x
		}
	case *ssa.UnOp:
		switch t.Op {
		case token.MUL:
			if isMemAddr(t.X) {
				if x, ok := s.mem[t.X]; ok {
					s.env[t] = x
				}
			}
		case token.NOT:
			if x := negTol(eval(s, t.X)); x != vUnknown {
				s.env[t] = x
			}
		}
	case *ssa.BinOp:
		if t.Op == token.EQL || t.Op == token.NEQ {
			x, y := eval(s, t.X), eval(s, t.Y)
			res := vUnknown
			if isErrorType(t.X.Type()) || isErrorType(t.Y.Type()) {
				isN := func(q absv) bool { return q == vNonNil || q == vAlias }
				switch {
				case x == vNil && y == vNil:
					res = vTrue
				case x == vNil && isN(y), y == vNil && isN(x):
					res = vFalse
				case x == vAlias:
					res = r.tolSentinel(sentinel(t.Y))
				case y == vAlias:
					res = r.tolSentinel(sentinel(t.X))
				}
			} else if isBool(t.X.Type()) {
				if (x == vTrue || x == vFalse) && (y == vTrue || y == vFalse) {
					if x == y {
						res = vTrue
					} else {
						res = vFalse
					}
				} else if x == vTrue && y != vUnknown {
					res = y
				} else if y == vTrue && x != vUnknown {
					res = x
				} else if x == vFalse && y != vUnknown {
					res = negTol(y)
				} else if y == vFalse && x != vUnknown {
					res = negTol(x)
				}
			}
			if t.Op == token.NEQ {
				res = negTol(res)
			}
			if res != vUnknown {
				s.env[t] = res
			}
		}
	case *ssa.TypeAssert:
		// err.(*os.PathError): an identity of the value as far as the flow is concerned
		if x := eval(s, t.X); x == vAlias && !t.CommaOk {
			s.env[t] = vAlias
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := in.(ssa.Value)
		var x absv
		if c, ok := in.(*ssa.ChangeInterface); ok {
			x = eval(s, c.X)
		} else {
			x = eval(s, in.(*ssa.ChangeType).X)
		}
		if x != vUnknown {
			s.env[v] = x
		}
	case *ssa.MakeInterface:
		if x := eval(s, t.X); x == vAlias {
			s.env[t] = vAlias
		} else if isErrorType(t.Type()) {
			s.env[t] = vNonNil
		}
	case *ssa.Store:
		x := eval(s, t.Val)
		if r.guards[t.Addr] && !worthTracking(t.Val.Type()) {
			if x == vNil {
				s.mem[t.Addr] = vNil
			} else {
				delete(s.mem, t.Addr)
			}
			return stCont
		}
		if isMemAddr(t.Addr) && worthTracking(t.Val.Type()) {
			if x == vUnknown {
				delete(s.mem, t.Addr)
			} else {
				s.mem[t.Addr] = x
			}
			if _, isGlobal := t.Addr.(*ssa.Global); isGlobal && x == vAlias {
				r.hand = "stored in a package variable"
				return stEndOK
			}
			return stCont
		}
		if x == vAlias {
			if fieldEscapes(t.Addr) {
				r.hand = "stored in an object"
				return stEndOK
			}
		}
	case *ssa.Send:
		if eval(s, t.X) == vAlias {
			r.hand = "sent"
			return stEndOK
		}
	case *ssa.Select:
		for _, st := range t.States {
			if st.Dir == types.SendOnly && eval(s, st.Send) == vAlias {
				r.hand = "sent"
				return stEndOK
			}
		}
	case *ssa.MapUpdate:
		if eval(s, t.Value) == vAlias {
			r.hand = "stored in a map"
			return stEndOK
		}
	case *ssa.Panic:
		r.hand = "panic"
		return stEndOK
	case *ssa.Defer, *ssa.Go:
		return stCont
	case *ssa.Return:
		return r.stepReturn(s, t)
	}
	return stCont
}

// fieldEscapes: a field/element of something other than a purely local scratch array for variadic calls.
func fieldEscapes(addr ssa.Value) bool {
	switch t := addr.(type) {
	case *ssa.FieldAddr:
		return true
	case *ssa.IndexAddr:
		// varargs array: handled through the call that takes the slice
		if a, ok := t.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
			return false
		}
		return true
	}
	return true
}

// varargsAlias: does a variadic slice argument hold the failing error?
func varargsAlias(s *efState, v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				if eval(s, st.Val) == vAlias {
					return true
				}
				if mi, ok := st.Val.(*ssa.MakeInterface); ok && eval(s, mi.X) == vAlias {
					return true
				}
				if ci, ok := st.Val.(*ssa.ChangeInterface); ok && eval(s, ci.X) == vAlias {
					return true
				}
			}
		}
	}
	return false
}

func (r *efRun) stepCall(s *efState, v *ssa.Call, c *ssa.CallCommon) stepRes {
	name := calleeName(c)
	if isNoReturnExternal(name) {
		r.hand = "process ends"
		return stEndOK
	}
	if ex, ok := c.Value.(*ssa.Extract); ok && c.IsInvoke() && r.src != nil && ex.Index == 0 && asInstr(ex.Tuple) == r.src {
		switch calleeName(r.src.(*ssa.Call).Common()) {
		case "os.Stat", "os.Lstat", "(*os.File).Stat":
			r.hand = "panic: the FileInfo of a failed Stat is nil"
			return stEndOK
		}
	}
	f := c.StaticCallee()
	if f != nil && f.Blocks != nil && inModule(f) && r.a.noReturn(f) {
		r.hand = "callee never returns"
		return stEndOK
	}
	aliasArg := -1
	for i, a := range c.Args {
		if eval(s, a) == vAlias || varargsAlias(s, a) {
			aliasArg = i
		}
	}
	if (name == "errors.Is" || name == "os.IsNotExist" || name == "os.IsExist" || name == "errors.As") && len(c.Args) > 0 && eval(s, c.Args[0]) == vNil {
		s.env[v] = vFalse // no error is none of these
		return stCont
	}
	recvAlias := c.IsInvoke() && eval(s, c.Value) == vAlias
	errRes := errResultIdx(c.Signature())
	if aliasArg >= 0 || recvAlias {
		if d := r.a.callDiscr(c); d != vUnknown {
			s.env[v] = d
			return stCont
		}
		if name == "errors.As" {
			return stCont
		}
		if f != nil && f.Blocks != nil && inModule(f) {
			pi := aliasArg
			if r.a.consumesParam(f, pi) {
				r.hand = "handed to " + f.Name()
				return stEndOK
			}
			if errRes >= 0 {
				s.env[v] = vAlias
				return stCont
			}
		} else if errRes >= 0 && !strings.HasPrefix(name, "fmt.Print") && !strings.HasPrefix(name, "fmt.Fprint") {
			s.env[v] = vAlias // fmt.Errorf, errors.Join, ...
			return stCont
		} else if c.IsInvoke() && !recvAlias {
			// task.SetError(err): all implementations must keep it
			impls := r.a.P.Callees(v)
			all := len(impls) > 0
			for _, g := range impls {
				if !r.a.consumesParam(g, aliasArg+1) {
					all = false
				}
			}
			if all || len(impls) == 0 {
				r.hand = "handed to " + c.Method.Name()
				return stEndOK
			}
		} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if g, ok := mc.Fn.(*ssa.Function); ok && r.a.consumesParam(g, aliasArg) {
				return stEndOK
			}
		} else if f == nil && !c.IsInvoke() {
			if _, isB := c.Value.(*ssa.Builtin); !isB {
				impls := r.a.P.Callees(v)
				all := len(impls) > 0
				for _, g := range impls {
					if !r.a.consumesParam(g, aliasArg) {
						all = false
					}
				}
				if all {
					return stEndOK
				}
			} else if c.Value.Name() == "append" {
				s.env[v] = vAlias // collected
				return stCont
			}
		}
	}
	if errRes >= 0 {
		if name == "errors.New" || name == "fmt.Errorf" {
			s.env[v] = vNonNil
		} else if f != nil && f.Blocks != nil && inModule(f) && r.a.alwaysNonNil(f) {
			s.env[v] = vNonNil
		}
	}
	// a called closure may overwrite captured variables
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			if s.mem[b] != vAlias {
				delete(s.mem, b)
			}
		}
	}
	return stCont
}

func (r *efRun) stepReturn(s *efState, t *ssa.Return) stepRes {
	f := r.e.f
	if r.src == nil && r.srcV == nil {
		return stEndOK
	}
	for g := range r.guards {
		if s.mem[g] == vNil {
			return stEndOK // the deferred cleanup does nothing on this path
		}
	}
	// captured variables and named results still holding it outlive a closure
	for addr, x := range s.mem {
		if x == vAlias {
			if _, ok := addr.(*ssa.FreeVar); ok {
				r.hand = "left in captured variable"
				return stEndOK
			}
		}
	}
	idx := errResultIdx(f.Signature)
	if idx >= 0 {
		x := eval(s, t.Results[idx])
		if x == vAlias || x == vNonNil {
			r.hand = "returned"
			return stEndOK
		}
		for i := range t.Results {
			if eval(s, t.Results[i]) == vAlias {
				r.hand = "returned"
				return stEndOK
			}
		}
		if x == vNil {
			r.bad("a path returns success although it failed", t, s)
		} else {
			r.bad("a path returns another result instead of the failure", t, s)
		}
		return stEndFail
	}
	// functions without an error result
	for i := range t.Results {
		if eval(s, t.Results[i]) == vAlias {
			return stEndOK
		}
	}
	if strings.Contains(f.Name(), "Exists") && len(t.Results) == 1 && eval(s, t.Results[0]) == vFalse {
		r.hand = "existence predicate answers false"
		return stEndOK
	}
	// a deferred cleanup while another failure is already being reported
	if f.Parent() != nil {
		for v, x := range s.mem {
			if x == vNonNil && isErrorType(derefType(v.Type())) {
				return stEndOK
			}
		}
		for v, x := range s.env {
			if x == vNonNil && isErrorType(v.Type()) {
				if _, isCall := v.(*ssa.UnOp); isCall {
					return stEndOK
				}
			}
		}
	}
	r.bad("a path ends normally without reporting the failure", t, s)
	return stEndFail
}

const efCap = 40000

// explore runs the states; returns false when the budget was exceeded.
// skipping: states start at block entry (begin=true) or are mid-block continuations set by caller.
func (r *efRun) explore(work []efState, begin bool) bool {
	seen := map[string]bool{}
	n := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		r.e.nStates++
		if n > efCap {
			return false
		}
		work = append(work, r.runBlock(&s, 0, seen)...)
	}
	return true
}

// runBlock executes the block from instruction i and returns the successor states.
func (r *efRun) runBlock(s *efState, i int, seen map[string]bool) []efState {
	b := s.blk
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue // evaluated on the edge
		}
		if r.deps[in] {
			s.argc = true
		}
		if r.step(s, in) != stCont {
			return nil
		}
	}
	var outs []efState
	last := b.Instrs[len(b.Instrs)-1]
	if iff, ok := last.(*ssa.If); ok {
		c := eval(s, iff.Cond)
		switch c {
		case vTrue:
			outs = r.edge(outs, s, b, b.Succs[0], nil, false)
		case vFalse:
			outs = r.edge(outs, s, b, b.Succs[1], nil, false)
		case vTolEOF, vTolClosed, vTolNotExist:
			if !r.tolerates(c) {
				outs = r.edge(outs, s, b, b.Succs[0], nil, false)
			}
			outs = r.edge(outs, s, b, b.Succs[1], nil, false)
		case vNotTolEOF, vNotTolClosed, vNotTolNotExist:
			if !r.tolerates(negTol(c)) {
				outs = r.edge(outs, s, b, b.Succs[1], nil, false)
			}
			outs = r.edge(outs, s, b, b.Succs[0], nil, false)
		default:
			outs = r.edge(outs, s, b, b.Succs[0], iff.Cond, true)
			outs = r.edge(outs, s, b, b.Succs[1], iff.Cond, false)
		}
	} else {
		for _, n := range b.Succs {
			outs = r.edge(outs, s, b, n, nil, false)
		}
	}
	var res []efState
	for _, o := range outs {
		k := r.e.key(&o)
		if seen[k] {
			continue
		}
		seen[k] = true
		res = append(res, o)
	}
	return res
}

// retryable: repeating the very same call makes up for the failure (not so for stateful readers and writers).
func (r *efRun) retryable() bool {
	m := r.srcMethod()
	for _, p := range []string{"Read", "read", "Next", "Decode", "Append", "append", "Write", "write", "Scan", "Close", "Sync", "Flush"} {
		if strings.HasPrefix(m, p) && m != "ReadAll" && m != "ReadFile" {
			return false
		}
	}
	_, isCall := r.src.(*ssa.Call)
	return isCall
}

func (r *efRun) srcMethod() string {
	call, ok := r.src.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	com := call.Common()
	if com.IsInvoke() {
		return com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		return f.Name()
	}
	return com.Value.Name()
}

// tolerates says whether this class of error at this source is a documented non-failure.
func (r *efRun) tolerates(c absv) bool {
	m := r.srcMethod()
	has := func(subs ...string) bool {
		for _, x := range subs {
			if strings.Contains(m, x) {
				return true
			}
		}
		return false
	}
	switch c {
	case vTolNotExist:
		return has("Open", "open", "Load", "load", "Read", "read") || m == "Stat" || m == "Remove"
	case vTolEOF:
		return has("Read", "read") || m == "Decode" || m == "Token"
	case vTolClosed:
		return has("lose")
	}
	return false
}

func (r *efRun) edge(outs []efState, s *efState, from, to *ssa.BasicBlock, cond ssa.Value, taken bool) []efState {
	n := efState{blk: to, env: cloneEnv(s.env), mem: cloneEnv(s.mem), argc: s.argc}
	n.path = append(append([]*ssa.BasicBlock{}, s.path...), to)
	if len(n.path) > 60 {
		n.path = n.path[len(n.path)-60:]
	}
	if cond != nil {
		r.assume(&n, cond, taken)
	}
	// evaluate phis simultaneously
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	type upd struct {
		v *ssa.Phi
		x absv
	}
	var ups []upd
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if r.deps[in] {
			n.argc = true
		}
		ups = append(ups, upd{ph, eval(&n, ph.Edges[pi])})
	}
	for _, u := range ups {
		if u.x == vUnknown || !worthTracking(u.v.Type()) {
			if u.x == vAlias {
				n.env[u.v] = u.x
			} else {
				delete(n.env, u.v)
			}
		} else {
			n.env[u.v] = u.x
		}
	}
	// drop facts about values that are dead in the target (not used there or below): keep it simple and
	// only drop facts about values whose every use is in blocks not reachable from the target
	for v := range n.env {
		if !r.e.liveAt(v, to) {
			if n.env[v] == vAlias {
				// dead alias: the error is no longer reachable through this value
				delete(n.env, v)
				continue
			}
			delete(n.env, v)
		}
	}
	return append(outs, n)
}

func (r *efRun) assume(n *efState, cond ssa.Value, taken bool) {
	set := func(v ssa.Value, x absv) {
		if _, isC := v.(*ssa.Const); isC {
			return
		}
		n.env[v] = x
	}
	switch c := cond.(type) {
	case *ssa.BinOp:
		if c.Op == token.EQL || c.Op == token.NEQ {
			eq := (c.Op == token.EQL) == taken
			if isErrorType(c.X.Type()) {
				if k, ok := c.Y.(*ssa.Const); ok && k.IsNil() {
					if eq {
						set(c.X, vNil)
					} else {
						set(c.X, vNonNil)
					}
					if u, ok := c.X.(*ssa.UnOp); ok && u.Op == token.MUL && isMemAddr(u.X) {
						if eq {
							n.mem[u.X] = vNil
						} else {
							n.mem[u.X] = vNonNil
						}
					}
				}
			}
		}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			r.assume(n, c.X, !taken)
			return
		}
		if c.Op == token.MUL && isMemAddr(c.X) && isBool(c.Type()) {
			if taken {
				n.mem[c.X] = vTrue
			} else {
				n.mem[c.X] = vFalse
			}
		}
	}
	if isBool(cond.Type()) {
		if taken {
			set(cond, vTrue)
		} else {
			set(cond, vFalse)
		}
	}
}

// liveAt: on entering b, some use of v can be reached without first re-entering v's defining block (which
// computes a new v).
func (e *efFunc) liveAt(v ssa.Value, b *ssa.BasicBlock) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	var def *ssa.BasicBlock
	isPhi := false
	if in, ok := v.(ssa.Instruction); ok {
		def = in.Block()
		_, isPhi = v.(*ssa.Phi)
	}
	if def == b && !isPhi {
		return false
	}
	useAt := map[*ssa.BasicBlock]bool{}
	for _, u := range *refs {
		ub := u.Block()
		if ub == nil {
			continue
		}
		if ph, ok := u.(*ssa.Phi); ok {
			for i, ed := range ph.Edges {
				if ed == v {
					useAt[ub.Preds[i]] = true
				}
			}
			continue
		}
		useAt[ub] = true
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if useAt[x] {
			return true
		}
		for _, s := range x.Succs {
			if s == def || seen[s] {
				continue
			}
			seen[s] = true
			st = append(st, s)
		}
	}
	return false
}

var reachCache = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// reachFrom: blocks reachable from b by at least one edge, plus b itself.
func (e *efFunc) reachFrom(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if r, ok := reachCache[b]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]bool{b: true}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, s := range x.Succs {
			if !r[s] {
				r[s] = true
				st = append(st, s)
			}
		}
	}
	reachCache[b] = r
	return r
}

// entries gives the abstract environments with which each block can be entered (bounded; empty env on overflow).
func (a *efAnalysis) entries(e *efFunc) map[*ssa.BasicBlock][]efState {
	if e.entry != nil {
		return e.entry
	}
	e.entry = map[*ssa.BasicBlock][]efState{}
	r := &efRun{a: a, e: e}
	over := map[*ssa.BasicBlock]bool{}
	seen := map[string]bool{}
	start := efState{blk: e.f.Blocks[0], env: map[ssa.Value]absv{}, mem: map[ssa.Value]absv{}}
	// named results start as nil
	work := []efState{start}
	e.entry[start.blk] = append(e.entry[start.blk], start)
	n := 0
	for len(work) > 0 && n < efCap {
		n++
		s := work[len(work)-1]
		work = work[:len(work)-1]
		c := efState{blk: s.blk, env: cloneEnv(s.env), mem: cloneEnv(s.mem)}
		for _, o := range r.runBlock(&c, 0, seen) {
			if over[o.blk] {
				continue
			}
			o.path = nil
			if len(e.entry[o.blk]) >= 64 {
				over[o.blk] = true
				o = efState{blk: o.blk, env: map[ssa.Value]absv{}, mem: map[ssa.Value]absv{}}
				e.entry[o.blk] = []efState{o}
				work = append(work, o)
				continue
			}
			e.entry[o.blk] = append(e.entry[o.blk], o)
			work = append(work, o)
		}
	}
	if n >= efCap {
		for _, b := range e.f.Blocks {
			e.entry[b] = []efState{{blk: b, env: map[ssa.Value]absv{}, mem: map[ssa.Value]absv{}}}
		}
	}
	return e.entry
}

// argDeps: the instructions whose re-execution changes what the source call works on.
func argDeps(in ssa.Instruction) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		di, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		switch t := v.(type) {
		case *ssa.Phi, *ssa.Next, *ssa.Select, *ssa.Lookup:
			out[di] = true
		case *ssa.Call:
			switch calleeName(&t.Call) {
			case "(*net/http.Client).Get", "net/http.Get", "(*net/http.Client).Do", "io.ReadAll":
			default:
				out[di] = true
			}
		case *ssa.UnOp:
			if t.Op == token.ARROW {
				out[di] = true
			}
		}
		var ops []*ssa.Value
		for _, o := range di.Operands(ops) {
			walk(*o)
		}
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		walk(*o)
	}
	return out
}

// requestsBefore: the web requests that were certainly made before this instruction.
func requestsBefore(in ssa.Instruction) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	for b := in.Block(); b != nil; b = b.Idom() {
		for _, x := range b.Instrs {
			if x == in {
				break
			}
			if c, ok := x.(*ssa.Call); ok {
				switch calleeName(&c.Call) {
				case "(*net/http.Client).Get", "net/http.Get", "(*net/http.Client).Do":
					out[c] = true
				}
			}
		}
	}
	return out
}

type errSource struct {
	f    *ssa.Function
	in   ssa.Instruction
	val  ssa.Value // the value carrying the error, or nil when there is none (dropped)
	name string
	kind string // call, defer, go, recv
}

// errSources enumerates the error-yielding constructs of f.
func (a *efAnalysis) errSources(f *ssa.Function) []errSource {
	var out []errSource
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Call:
				if s, ok := a.callSource(f, t, &t.Call); ok {
					s.val = errValueOf(t, &t.Call)
					s.kind = "call"
					out = append(out, s)
				}
			case *ssa.Defer:
				if s, ok := a.callSource(f, t, &t.Call); ok {
					s.kind = "defer"
					out = append(out, s)
				}
			case *ssa.Go:
				if s, ok := a.callSource(f, t, &t.Call); ok {
					s.kind = "go"
					out = append(out, s)
				}
			case *ssa.UnOp:
				if t.Op == token.ARROW {
					if t.CommaOk {
						tup := t.Type().(*types.Tuple)
						if isErrorType(tup.At(0).Type()) {
							out = append(out, errSource{f: f, in: t, val: extractOf(t, 0), name: "receive", kind: "recv"})
						}
					} else if isErrorType(t.Type()) {
						var v ssa.Value
						if len(*t.Referrers()) > 0 {
							v = t
						}
						out = append(out, errSource{f: f, in: t, val: v, name: "receive", kind: "recv"})
					}
				}
			case *ssa.Select:
				tup := t.Type().(*types.Tuple)
				for i := 2; i < tup.Len(); i++ {
					if isErrorType(tup.At(i).Type()) {
						out = append(out, errSource{f: f, in: t, val: extractOf(t, i), name: "receive", kind: "recv"})
					}
				}
			}
		}
	}
	return out
}

func extractOf(v ssa.Value, i int) ssa.Value {
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

func errValueOf(v *ssa.Call, c *ssa.CallCommon) ssa.Value {
	i := errResultIdx(c.Signature())
	if c.Signature().Results().Len() == 1 {
		if len(*v.Referrers()) == 0 {
			return nil
		}
		return v
	}
	return extractOf(v, i)
}

func (a *efAnalysis) callSource(f *ssa.Function, in ssa.Instruction, c *ssa.CallCommon) (errSource, bool) {
	if errResultIdx(c.Signature()) < 0 {
		return errSource{}, false
	}
	name := calleeName(c)
	if infallible[name] {
		return errSource{}, false
	}
	if g := c.StaticCallee(); g != nil && g.Blocks != nil && inModule(g) && a.neverErr(g) {
		return errSource{}, false
	}
	return errSource{f: f, in: in, name: shortCallee(c)}, true
}

// readOnlyClose: closing something that was only opened for reading loses no data.
func (a *efAnalysis) readOnlyClose(c *ssa.CallCommon) bool {
	m := ""
	var recv ssa.Value
	if c.IsInvoke() {
		m, recv = c.Method.Name(), c.Value
	} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
		m, recv = f.Name(), c.Args[0]
	}
	if m != "Close" && m != "Unmap" {
		return false
	}
	return a.readOnlyValue(recv, map[ssa.Value]bool{})
}

func (a *efAnalysis) readOnlyValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if it, ok := v.Type().Underlying().(*types.Interface); ok {
		w := false
		nonClose := 0
		for i := 0; i < it.NumMethods(); i++ {
			n := it.Method(i).Name()
			if n != "Close" {
				nonClose++
			}
			if strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Append") || n == "Sync" || strings.HasPrefix(n, "Flush") {
				w = true
			}
		}
		if !w && nonClose > 0 {
			return true
		}
	}
	switch t := v.(type) {
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			return readOnlyOpenCall(&c.Call, a)
		}
	case *ssa.Call:
		return readOnlyOpenCall(&t.Call, a)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if !a.readOnlyValue(e, seen) {
				return false
			}
		}
		return len(t.Edges) > 0
	case *ssa.MakeInterface:
		return a.readOnlyValue(t.X, seen)
	case *ssa.ChangeInterface:
		return a.readOnlyValue(t.X, seen)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			// variable captured or field: every store into it
			if al, ok := t.X.(*ssa.Alloc); ok {
				return a.readOnlyAlloc(al, seen)
			}
			if fa, ok := t.X.(*ssa.FieldAddr); ok {
				return a.readOnlyField(fa, seen)
			}
			if fv, ok := t.X.(*ssa.FreeVar); ok {
				return a.readOnlyFreeVar(fv, seen)
			}
			if ia, ok := t.X.(*ssa.IndexAddr); ok {
				// element of a slice field: e.g. []mmap
				_ = ia
				if strings.Contains(types.TypeString(v.Type(), nil), "mmap-go.MMap") {
					return true
				}
			}
		}
	case *ssa.Parameter:
		// a parameter is read-only when every call site passes a read-only value
		f := t.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == t {
				idx = i
			}
		}
		n := a.P.CG().Nodes[f]
		if n == nil || idx < 0 || len(n.In) == 0 {
			return false
		}
		for _, e := range n.In {
			if e.Site == nil {
				return false
			}
			args := e.Site.Common().Args
			if e.Site.Common().IsInvoke() {
				return false
			}
			if idx >= len(args) || !a.readOnlyValue(args[idx], seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *efAnalysis) readOnlyAlloc(al *ssa.Alloc, seen map[ssa.Value]bool) bool {
	n := 0
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			n++
			if !a.readOnlyValue(st.Val, seen) {
				return false
			}
		}
	}
	return n > 0
}

// bindingOf finds what a closure's free variable is bound to.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	g := fv.Parent()
	idx := -1
	for i, v := range g.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if g.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range g.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == g {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

func (a *efAnalysis) readOnlyFreeVar(fv *ssa.FreeVar, seen map[ssa.Value]bool) bool {
	switch t := bindingOf(fv).(type) {
	case *ssa.Alloc:
		return a.readOnlyAlloc(t, seen)
	case *ssa.FreeVar:
		return a.readOnlyFreeVar(t, seen)
	}
	return false
}

// readOnlyField: every store to this field in the module stores a read-only handle.
func (a *efAnalysis) readOnlyField(fa *ssa.FieldAddr, seen map[ssa.Value]bool) bool {
	st := derefType(fa.X.Type())
	n := 0
	for _, f := range a.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || g.Field != fa.Field || !types.Identical(derefType(g.X.Type()), st) {
					continue
				}
				if c, ok := s.Val.(*ssa.Const); ok && c.IsNil() {
					continue
				}
				n++
				if !a.readOnlyValue(s.Val, seen) {
					return false
				}
			}
		}
	}
	return n > 0
}

func readOnlyOpenCall(c *ssa.CallCommon, a *efAnalysis) bool {
	switch calleeName(c) {
	case "os.Open":
		return true
	case "os.OpenFile":
		if k, ok := c.Args[1].(*ssa.Const); ok {
			if n, ok := constant.Int64Val(k.Value); ok {
				return n&(0x1|0x2|0x40|0x200|0x400) == 0
			}
		}
		return false
	case "github.com/edsrzf/mmap-go.Map":
		if k, ok := c.Args[1].(*ssa.Const); ok {
			if n, ok := constant.Int64Val(k.Value); ok {
				return n == 0
			}
		}
		return false
	case "(*net/http.Client).Get", "net/http.Get":
		return true
	}
	if f := c.StaticCallee(); f != nil && f.Blocks != nil && inModule(f) && strings.Contains(f.Name(), "ReadOnly") {
		return true
	}
	// an in-module helper all of whose returns give a read-only handle
	if f := c.StaticCallee(); f != nil && f.Blocks != nil && inModule(f) {
		ok := true
		n := 0
		for _, b := range f.Blocks {
			if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
				v := ret.Results[0]
				if k, isC := v.(*ssa.Const); isC && k.IsNil() {
					continue
				}
				n++
				if !a.readOnlyValue(v, map[ssa.Value]bool{}) {
					ok = false
				}
			}
		}
		return ok && n > 0
	}
	return false
}

// checkSource decides one source. Returns "" if the obligation holds, else the reason.
func (a *efAnalysis) checkSource(src errSource) (string, ssa.Instruction, []*ssa.BasicBlock) {
	return a.checkSourceG(src, nil)
}

func (a *efAnalysis) checkSourceG(src errSource, guards map[ssa.Value]bool) (string, ssa.Instruction, []*ssa.BasicBlock) {
	var com *ssa.CallCommon
	if ci, ok := src.in.(ssa.CallInstruction); ok {
		com = ci.Common()
	}
	if com != nil && a.readOnlyClose(com) {
		return "", nil, nil
	}
	e := a.fn(src.f)
	why := ""
	var at ssa.Instruction
	var path []*ssa.BasicBlock
	r := &efRun{a: a, e: e, src: src.in, srcV: src.val, deps: argDeps(src.in), guards: guards}
	if src.name == "errors.New" || src.name == "fmt.Errorf" {
		r.redo = requestsBefore(src.in)
		for q := range r.redo {
			for d := range argDeps(q) {
				r.deps[d] = true
			}
		}
	}
	r.bad = func(w string, in ssa.Instruction, st *efState) {
		if why == "" {
			why, at, path = w, in, st.path
		}
	}
	var starts []efState
	entries := a.entries(e)[src.in.Block()]
	if len(entries) == 0 {
		return "", nil, nil // unreachable
	}
	for _, en := range entries {
		s := efState{blk: en.blk, env: cloneEnv(en.env), mem: cloneEnv(en.mem)}
		// run up to the source without a failure
		pre := &efRun{a: a, e: e}
		i := 0
		dead := false
		for ; i < len(s.blk.Instrs); i++ {
			in := s.blk.Instrs[i]
			if in == src.in {
				break
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if pre.step(&s, in) != stCont {
				dead = true
				break
			}
		}
		if dead {
			continue
		}
		if src.kind != "call" && src.kind != "recv" {
			// deferred / spawned: nobody receives the error
			if src.kind == "go" {
				return "its error is discarded by the go statement", src.in, nil
			}
		} else {
			// the failing value
			if v, ok := src.in.(ssa.Value); ok {
				delete(s.env, v)
				if src.val != nil {
					if src.val == v {
						s.env[v] = vAlias
					} else {
						s.env[src.val] = vAlias // the Extract that follows
						s.env[v] = vAlias
					}
				}
			}
		}
		s.path = []*ssa.BasicBlock{}
		// continue after the source in this block
		seen := map[string]bool{}
		next := r.runBlock(&s, i+1, seen)
		starts = append(starts, next...)
	}
	if why != "" {
		return why, at, path
	}
	if !r.explore(starts, true) {
		a.undecided = append(a.undecided, fnName(src.f)+" "+src.name)
		return "undecided: too many paths", src.in, nil
	}
	return why, at, path
}

// decide is checkSource with one more chance for a cleanup helper or deferred closure that cannot report: dropping
// the failure there is fine when every place that runs it is already on its way to reporting another failure.
func (a *efAnalysis) decide(src errSource) (string, ssa.Instruction, []*ssa.BasicBlock) {
	why, at, path := a.checkSource(src)
	if why == "" || strings.HasPrefix(why, "undecided") || errResultIdx(src.f.Signature) >= 0 || src.kind == "go" || src.kind == "recv" {
		return why, at, path
	}
	if a.runsOnlyWhenFailing(src.f, src.in, 0) {
		return "", nil, nil
	}
	return why, at, path
}

func (a *efAnalysis) runsOnlyWhenFailing(g *ssa.Function, in ssa.Instruction, depth int) bool {
	if depth > 3 || errResultIdx(g.Signature) >= 0 {
		return false
	}
	var guards []*ssa.FreeVar
	if g.Parent() != nil {
		guards = nonNilGuards(in)
	}
	sites := 0
	for _, f := range a.P.Funcs {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				// any use of g other than calling or deferring it is out of reach
				if ci, ok := x.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == g {
					for _, arg := range ci.Common().Args {
						if arg == ssa.Value(g) {
							return false
						}
					}
					kind := ""
					switch x.(type) {
					case *ssa.Call:
						kind = "call"
					case *ssa.Defer:
						kind = "defer"
					default:
						return false
					}
					sites++
					gm := map[ssa.Value]bool{}
					for _, fv := range guards {
						if al, ok := bindingOf(fv).(*ssa.Alloc); ok {
							if isErrorType(derefType(al.Type())) {
								if namedResult(f, al) {
									gm = nil // runs only when a failure is being returned
									break
								}
							} else if !storedInClosures(al) {
								gm[al] = true
							}
						}
					}
					if gm == nil {
						continue
					}
					s := errSource{f: f, in: x, name: g.Name(), kind: kind}
					why, _, _ := a.checkSourceG(s, gm)
					if why != "" && !(errResultIdx(f.Signature) < 0 && a.runsOnlyWhenFailing(f, x, depth+1)) {
						return false
					}
					continue
				}
				if mc, ok := x.(*ssa.MakeClosure); ok && mc.Fn == g {
					for _, u := range *mc.Referrers() {
						if ci, ok := u.(ssa.CallInstruction); !ok || ci.Common().Value != ssa.Value(mc) {
							return false // handed on
						}
					}
					continue // its calls are found above
				}
				for _, o := range x.Operands(nil) {
					if *o == ssa.Value(g) {
						return false
					}
				}
			}
		}
	}
	return sites > 0
}

// namedResult: f returns what it loads from al.
func namedResult(f *ssa.Function, al *ssa.Alloc) bool {
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, x := range ret.Results {
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == al {
					return true
				}
			}
		}
	}
	return false
}

// storedInClosures: some function literal assigns to the captured variable.
func storedInClosures(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		mc, ok := u.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		for i, b := range mc.Bindings {
			if b != ssa.Value(al) {
				continue
			}
			fv := mc.Fn.(*ssa.Function).FreeVars[i]
			for _, w := range *fv.Referrers() {
				switch t := w.(type) {
				case *ssa.Store:
					if t.Addr == ssa.Value(fv) {
						return true
					}
				case *ssa.UnOp:
				default:
					return true
				}
			}
		}
	}
	return false
}

// nonNilGuards: the captured variables that are non-nil whenever in is reached.
func nonNilGuards(in ssa.Instruction) []*ssa.FreeVar {
	var out []*ssa.FreeVar
	for b := in.Block(); b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || (c.Op != token.NEQ && c.Op != token.EQL) {
			continue
		}
		k, ok := c.Y.(*ssa.Const)
		if !ok || !k.IsNil() {
			continue
		}
		u, ok := c.X.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		fv, ok := u.X.(*ssa.FreeVar)
		if !ok {
			continue
		}
		want := d.Succs[0]
		if c.Op == token.EQL {
			want = d.Succs[1]
		}
		if want == b && len(b.Preds) == 1 || want.Dominates(in.Block()) && len(want.Preds) == 1 {
			out = append(out, fv)
		}
	}
	return out
}

func (a *efAnalysis) dump(f *ssa.Function) {
	e := a.fn(f)
	en := a.entries(e)
	f.WriteTo(os.Stderr)
	for _, b := range f.Blocks {
		fmt.Fprintf(os.Stderr, "block %d (%s): %d entry envs\n", b.Index, b.Comment, len(en[b]))
		for _, s := range en[b] {
			for v, x := range s.env {
				fmt.Fprintf(os.Stderr, " %s=%d", v.Name(), x)
			}
			fmt.Fprintln(os.Stderr)
		}
	}
}

func asInstr(v ssa.Value) ssa.Instruction {
	in, _ := v.(ssa.Instruction)
	return in
}

// tolSentinel: as tolOfSentinel, and a short last block from io.ReadFull (whose count is examined) is an end of file.
func (r *efRun) tolSentinel(name string) absv {
	if name == "io.ErrUnexpectedEOF" {
		if c, ok := r.src.(*ssa.Call); ok && calleeName(&c.Call) == "io.ReadFull" {
			if n := extractOf(c, 0); n != nil && usesMeaningfully(n, map[ssa.Value]bool{}) {
				return vTolEOF
			}
		}
	}
	return tolOfSentinel(name)
}
