package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg := func(id string, floorCalls int, pkgs ...string) {
		checks[id] = func(P *Prog) *Result { return errCheck(P, floorCalls, pkgs...) }
	}
	reg("C01", 60, "memfile", "wordfile", "intarrayarray", "numberedfolders")
	reg("C02", 150, "indexedhashes", "indexedhashes3")
	reg("C03", 250, "chainstorage", "transactionindexing")
	reg("C04", 60, "jobs", "corereader2", "intrinsicobjects", "intrinsicobjectscri", "intrinsicobjectschi", "concurrency")
	reg("C05", 100, "weddingcake", "weddingcakefront", "weddingcakeback")
}

func errCheck(P *Prog, floorCalls int, pkgs ...string) *Result {
	r := newResult()
	r.Rules = []string{
		"error-flow: assume each fallible call (or receive of an error) fails; on every feasible path of its function the failure must be returned, wrapped and returned, panicked with, sent or stored; reaching a success return, losing it in a loop, a discarding go/defer, or ending a function that cannot report is a violation (tolerated: not-exist tests on opens/loads, io.EOF tests on reads, os.ErrClosed tests on closes, closing handles opened read-only)",
		"short-read: a plain Read must have its byte count examined",
		"recover: a recovered panic must be re-raised or turned into an error",
		"error-field: an error kept in a struct field, captured variable or channel must be consulted somewhere",
	}
	r.Assume = []string{"conditions other than tests of errors and constant booleans are treated as free (every branch feasible)",
		"functions of the standard library that cannot fail (fmt.Print*, hash writes, in-memory buffers) are exempt"}
	a := newEF(P)
	fns := P.FuncsIn(pkgs...)
	r.count("functions", len(fns))
	for _, f := range fns {
		if testHelper(f) {
			r.count("test helper functions left out", 1)
			continue
		}
		if os.Getenv("PS_DUMP") == fnName(f) {
			a.dump(f)
		}
		for _, s := range a.errSources(f) {
			if strings.HasPrefix(s.name, "strconv.") && relPkg(f) == "numberedfolders" {
				continue // digits it formatted itself: neither a file nor a lower-layer operation
			}
			r.count("fallible constructs", 1)
			why, at, path := a.decide(s)
			var steps []string
			for _, b := range path {
				for _, in := range b.Instrs {
					if in.Pos().IsValid() {
						steps = append(steps, P.Pos(in.Pos()))
						break
					}
				}
			}
			if at != nil && at.Pos().IsValid() {
				steps = append(steps, "ends at "+P.Pos(at.Pos()))
			}
			r.oblig(why == "", Finding{Rule: "error-flow", Func: fnName(f), Construct: s.name, Pos: P.Pos(s.in.Pos()), Msg: why, Path: steps})
			if why == "" {
				r.sample(fmt.Sprintf("%s %s in %s: failure reported on every path", P.Pos(s.in.Pos()), s.name, fnName(f)))
			}
		}
		shortReads(P, r, f)
		recovers(P, r, f)
	}
	errorSinks(P, r, pkgs)
	r.floor("fallible constructs", floorCalls)
	return r
}

// testHelper: a function (in a non-test file) that takes a *testing.T.
func testHelper(f *ssa.Function) bool {
	f = rootFn(f)
	for _, p := range f.Params {
		if types.TypeString(p.Type(), nil) == "*testing.T" {
			return true
		}
	}
	return false
}

func shortReads(P *Prog, r *Result, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			m := ""
			if c.Call.IsInvoke() {
				m = c.Call.Method.Name()
			} else if g := c.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil {
				m = g.Name()
			}
			sig := c.Call.Signature()
			if m != "Read" || sig.Results().Len() != 2 || !isErrorType(sig.Results().At(1).Type()) {
				continue
			}
			if strings.Contains(calleeName(&c.Call), "rand.") {
				continue
			}
			r.count("plain Read calls", 1)
			n := extractOf(c, 0)
			used := n != nil && usesMeaningfully(n, map[ssa.Value]bool{})
			r.oblig(used, Finding{Rule: "short-read", Func: fnName(f), Construct: ".Read", Pos: P.Pos(c.Pos()),
				Msg: "the number of bytes read is not examined: a short read is taken for a full record"})
		}
	}
}

// usesMeaningfully: the value reaches a comparison, slice bound, return or further call.
func usesMeaningfully(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch t := u.(type) {
		case *ssa.BinOp:
			switch t.Op {
			case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
				return true
			}
			if usesMeaningfully(t, seen) {
				return true
			}
		case *ssa.Slice, *ssa.Return, ssa.CallInstruction, *ssa.Store:
			return true
		case *ssa.Phi:
			if usesMeaningfully(t, seen) {
				return true
			}
		case *ssa.Convert:
			if usesMeaningfully(t, seen) {
				return true
			}
		case *ssa.ChangeType:
			if usesMeaningfully(t, seen) {
				return true
			}
		}
	}
	return false
}

func recovers(P *Prog, r *Result, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "recover" {
				continue
			}
			r.count("recover calls", 1)
			// the recovering function must re-panic, exit, send, or store an error/flag somewhere after it
			ok2 := false
			for _, b2 := range f.Blocks {
				for _, in2 := range b2.Instrs {
					switch t := in2.(type) {
					case *ssa.Panic, *ssa.Send:
						ok2 = true
					case *ssa.Store:
						if isErrorType(t.Val.Type()) {
							ok2 = true
						}
					case *ssa.Call:
						if isNoReturnExternal(calleeName(&t.Call)) {
							ok2 = true
						}
					}
				}
			}
			r.oblig(ok2, Finding{Rule: "recover", Func: fnName(f), Construct: "recover", Pos: P.Pos(c.Pos()),
				Msg: "a panic is recovered and neither re-raised nor turned into an error: the failed work counts as done"})
		}
	}
}

// errorSinks: error-typed struct fields and captured variables that are written must be read with effect.
func errorSinks(P *Prog, r *Result, pkgs []string) {
	type fk struct {
		t string
		i int
	}
	written := map[fk]ssa.Instruction{}
	names := map[fk]string{}
	read := map[fk]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Store:
					if fa, ok := t.Addr.(*ssa.FieldAddr); ok && isErrorType(t.Val.Type()) {
						k := fk{types.TypeString(derefType(fa.X.Type()), nil), fa.Field}
						if st, ok := derefType(fa.X.Type()).Underlying().(*types.Struct); ok {
							names[k] = k.t[strings.LastIndex(k.t, "/")+1:] + "." + st.Field(fa.Field).Name()
						}
						for _, p := range pkgs {
							if relPkg(f) == p {
								written[k] = in
							}
						}
					}
				case *ssa.UnOp:
					if fa, ok := t.X.(*ssa.FieldAddr); ok && t.Op == token.MUL && isErrorType(t.Type()) && len(*t.Referrers()) > 0 {
						read[fk{types.TypeString(derefType(fa.X.Type()), nil), fa.Field}] = true
					}
				case *ssa.Field:
					if isErrorType(t.Type()) && len(*t.Referrers()) > 0 {
						read[fk{types.TypeString(t.X.Type(), nil), t.Field}] = true
					}
				}
			}
		}
	}
	for k, in := range written {
		r.count("error fields", 1)
		r.oblig(read[k], Finding{Rule: "error-field", Func: fnName(in.Parent()), Construct: names[k], Pos: P.Pos(in.Pos()),
			Msg: "an error is stored in this field but the field is never read"})
	}
	// captured error variables assigned inside closures
	for _, f := range P.FuncsIn(pkgs...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !isErrorType(derefType(al.Type())) {
					continue
				}
				var w ssa.Instruction
				for _, ref := range *al.Referrers() {
					mc, ok := ref.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					g := mc.Fn.(*ssa.Function)
					for i, bd := range mc.Bindings {
						if bd == al {
							for _, u := range *g.FreeVars[i].Referrers() {
								if st, ok := u.(*ssa.Store); ok && st.Addr == g.FreeVars[i] {
									w = st
								}
							}
						}
					}
				}
				if w == nil {
					continue
				}
				r.count("captured error variables", 1)
				used := false
				for _, ref := range *al.Referrers() {
					if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL && len(*u.Referrers()) > 0 {
						used = true
					}
				}
				r.oblig(used, Finding{Rule: "error-field", Func: fnName(f), Construct: "captured variable " + al.Comment, Pos: P.Pos(w.Pos()),
					Msg: "a closure stores an error in this variable but the enclosing function never looks at it"})
			}
		}
	}
}
