package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership of handles (files, memory maps, response bodies).
//
// Flow summaries say, for a value entering a function (parameter, captured variable) or acquired in it, whether it
// may be closed, stored into the result, stored into another parameter, or given away. With those, each acquisition
// is followed on every feasible path of its function: at every exit it must have been closed, returned on success,
// or stored into an object the caller holds.

const (
	kSelf   = -2 // the handle itself
	kOpaque = -1 // something that owns the handle, in a way not resolved further
)

type flowSum struct {
	closes   map[int]bool // kinds of the entering value that are closed: kSelf or a field index
	toResult map[int]bool
	toParam  map[int]int // parameter index -> field (or kOpaque)
	escapes  bool
}

// putField records that a handle goes into a field; when it goes into several, which one is left open.
func putField(m map[int]int, i, fld int) {
	if old, ok := m[i]; ok && old != fld {
		fld = kOpaque
	}
	m[i] = fld
}

func (s *flowSum) closesAny() bool { return len(s.closes) > 0 }

func (s *flowSum) closesKind(k int) bool {
	if k == kSelf || k == kOpaque {
		return len(s.closes) > 0
	}
	return s.closes[k] || s.closes[kSelf]
}

type lkAnalysis struct {
	P       *Prog
	a       *efAnalysis
	sums    map[string]*flowSum
	acqMemo map[*ssa.Function]*acqSum
	failL   map[*ssa.Function]map[int]bool // parameters left owning a handle when the function fails
	okL     map[*ssa.Function]map[int]bool // parameters owning a handle when the function succeeds
	results map[*ssa.Function][]lkFinding
	done    map[*ssa.Function]bool
	nAcq    int
}

type lkFinding struct {
	acq  ssa.Instruction
	name string
	why  string
	at   ssa.Instruction
	path []*ssa.BasicBlock
}

func newLK(P *Prog) *lkAnalysis {
	return &lkAnalysis{P: P, a: newEF(P), sums: map[string]*flowSum{}, acqMemo: map[*ssa.Function]*acqSum{},
		failL: map[*ssa.Function]map[int]bool{}, okL: map[*ssa.Function]map[int]bool{}, results: map[*ssa.Function][]lkFinding{}, done: map[*ssa.Function]bool{}}
}

// place resolves an address (or aggregate value) to the object it lies in and the field of that object.
func place(addr ssa.Value) (ssa.Value, int) {
	field := kSelf
	for {
		switch t := addr.(type) {
		case *ssa.FieldAddr:
			field = t.Field
			addr = t.X
		case *ssa.Field:
			field = t.Field
			addr = t.X
		case *ssa.IndexAddr:
			if field != kSelf {
				field = kOpaque
			} else if _, ok := t.X.(*ssa.Alloc); ok {
				field = kOpaque
			}
			addr = t.X
			if field == kSelf {
				// element of a slice or array: owned by what holds the slice
				if u, ok := addr.(*ssa.UnOp); ok && u.Op == token.MUL {
					addr = u.X
					if _, isAlloc := addr.(*ssa.Alloc); isAlloc {
						field = kOpaque
					}
				} else if _, isFA := addr.(*ssa.FieldAddr); !isFA {
					field = kOpaque
				}
			}
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return addr, field
			}
			field = kOpaque
			addr = t.X
		case *ssa.Slice:
			field = kOpaque
			addr = t.X
		case *ssa.ChangeType:
			addr = t.X
		default:
			return addr, field
		}
	}
}

func isCloserName(n string) bool {
	return n == "Close" || n == "Unmap"
}

// primitiveClose: a call outside the module (or through an interface) that closes its receiver.
func primitiveClose(c *ssa.CallCommon) (ssa.Value, bool) {
	if c.IsInvoke() {
		if isCloserName(c.Method.Name()) {
			return c.Value, true
		}
		return nil, false
	}
	f := c.StaticCallee()
	if f == nil || inModule(f) || f.Signature.Recv() == nil || len(c.Args) == 0 {
		return nil, false
	}
	if isCloserName(f.Name()) {
		return c.Args[0], true
	}
	return nil, false
}

func primitiveAcquire(c *ssa.CallCommon) bool {
	switch calleeName(c) {
	case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp", "os.NewFile",
		"github.com/edsrzf/mmap-go.Map", "github.com/edsrzf/mmap-go.MapRegion",
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head",
		"(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).Do", "(*net/http.Client).Head", "(*net/http.Client).PostForm":
		return true
	}
	return false
}

// callArgs: actual values aligned with the callee's parameters (receiver first).
func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// flow computes the summary of the given start values within f (flow-insensitive, descending into callees).
func (l *lkAnalysis) flow(f *ssa.Function, start map[ssa.Value]int, depth int) *flowSum {
	s := &flowSum{closes: map[int]bool{}, toResult: map[int]bool{}, toParam: map[int]int{}}
	kind := map[ssa.Value]int{} // what part of the entering value this is; containers carry kOpaque
	var work []ssa.Value
	add := func(v ssa.Value, k int) {
		if old, ok := kind[v]; ok && (old == k || old == kOpaque) {
			return
		} else if ok && old != k {
			k = kOpaque
		}
		kind[v] = k
		work = append(work, v)
	}
	for v, k := range start {
		add(v, k)
	}
	closeIt := func(k int) {
		if k == kOpaque {
			k = kSelf
		}
		s.closes[k] = true
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		k := kind[v]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, u := range *refs {
			switch t := u.(type) {
			case *ssa.FieldAddr:
				if t.X == v {
					nk := k
					if k == kSelf {
						nk = t.Field
					}
					add(t, nk)
				}
			case *ssa.Field:
				nk := k
				if k == kSelf {
					nk = t.Field
				}
				add(t, nk)
			case *ssa.IndexAddr:
				if t.X == v {
					add(t, k)
				}
			case *ssa.Index, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.TypeAssert, *ssa.Slice, *ssa.Range, *ssa.Next, *ssa.Lookup:
				add(u.(ssa.Value), k)
			case *ssa.Extract:
				if ex := t; ex.Tuple == v {
					if _, isCall := v.(*ssa.Call); !isCall {
						add(t, k)
					}
				}
			case *ssa.UnOp:
				if t.Op == token.MUL {
					add(t, k)
				}
			case *ssa.Store:
				if t.Val != v {
					continue
				}
				root, fld := place(t.Addr)
				switch rt := root.(type) {
				case *ssa.Parameter:
					for i, p := range f.Params {
						if p == rt {
							putField(s.toParam, i, fld)
						}
					}
					if fld >= 0 { // what is read back from that field is it too
						for _, ru := range *rt.Referrers() {
							if fa, ok := ru.(*ssa.FieldAddr); ok && fa.X == ssa.Value(rt) && fa.Field == fld {
								for _, lu := range *fa.Referrers() {
									if ld, ok := lu.(*ssa.UnOp); ok && ld.Op == token.MUL {
										add(ld, k)
									}
								}
							}
						}
					}
				case *ssa.Global, *ssa.FreeVar:
					s.escapes = true
				default:
					if al, ok := root.(*ssa.Alloc); ok && fld == kSelf {
						add(al, k) // a variable holding it
					} else {
						add(root, kOpaque)
					}
				}
			case *ssa.MapUpdate:
				if t.Value == v {
					root, fld := place(t.Map)
					if p, ok := root.(*ssa.Parameter); ok {
						for i, q := range f.Params {
							if p == q {
								putField(s.toParam, i, fld)
							}
						}
					} else {
						add(root, kOpaque)
					}
				}
			case *ssa.Send:
				if t.X == v {
					s.escapes = true
				}
			case *ssa.Return:
				for i, x := range t.Results {
					if x == v {
						s.toResult[i] = true
					}
				}
			case *ssa.MakeClosure:
				fn := t.Fn.(*ssa.Function)
				for i, b := range t.Bindings {
					if b == v && depth < 6 {
						sub := l.entry(fn, -1-i, depth+1)
						for ck := range sub.closes {
							if k == kSelf {
								closeIt(ck)
							} else {
								closeIt(k)
							}
						}
					}
				}
			case ssa.CallInstruction:
				c := t.Common()
				if recv, ok := primitiveClose(c); ok && recv == v {
					closeIt(k)
					continue
				}
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						if cv, ok := t.(ssa.Value); ok {
							add(cv, kOpaque)
						}
					}
					continue
				}
				if depth > 6 {
					continue
				}
				cv, _ := t.(*ssa.Call)
				for _, g := range l.P.Callees(t) {
					for i, arg := range callArgs(c) {
						if arg != v {
							continue
						}
						sub := l.entry(g, i, depth+1)
						for ck := range sub.closes {
							if k == kSelf {
								closeIt(ck)
							} else {
								closeIt(k)
							}
						}
						if sub.escapes {
							s.escapes = true
						}
						for j, fl := range sub.toParam {
							if j == i || j >= len(callArgs(c)) {
								continue
							}
							root, fld := place(callArgs(c)[j])
							if fld == kSelf {
								fld = fl
							}
							if p, ok := root.(*ssa.Parameter); ok {
								for q, pp := range f.Params {
									if pp == p {
										putField(s.toParam, q, fld)
									}
								}
							} else {
								add(root, kOpaque)
							}
						}
						if cv != nil {
							for ri := range sub.toResult {
								if cv.Call.Signature().Results().Len() == 1 {
									add(cv, kOpaque)
								} else if ex := extractOf(cv, ri); ex != nil {
									add(ex, kOpaque)
								}
							}
						}
					}
				}
			}
		}
	}
	return s
}

// entry: summary for parameter i of f (i >= 0) or its captured variable -1-i.
func (l *lkAnalysis) entry(f *ssa.Function, i, depth int) *flowSum {
	key := fmt.Sprintf("%p/%d", f, i)
	if s := l.sums[key]; s != nil {
		return s
	}
	empty := &flowSum{closes: map[int]bool{}, toResult: map[int]bool{}, toParam: map[int]int{}}
	if f.Blocks == nil {
		return empty
	}
	l.sums[key] = empty // for recursion
	var v ssa.Value
	if i >= 0 {
		if i >= len(f.Params) {
			return empty
		}
		v = f.Params[i]
	} else {
		v = f.FreeVars[-1-i]
	}
	s := l.flow(f, map[ssa.Value]int{v: kSelf}, depth)
	delete(s.toParam, i) // moved about within the object itself
	l.sums[key] = s
	return s
}

// acquisitions

type acquisition struct {
	in     ssa.Instruction
	name   string
	result int // index of the result owning the handle, or -1
	param  int // index of the argument into which the handle is stored, or -1
	field  int
}

type acqSum struct {
	results map[int]bool
	params  map[int]int
}

func (l *lkAnalysis) acquisitions(f *ssa.Function) []acquisition {
	var out []acquisition
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if primitiveAcquire(&c.Call) {
				out = append(out, acquisition{in: in, name: shortCallee(&c.Call), result: 0, param: -1})
				continue
			}
			res := map[int]bool{}
			par := map[int]int{}
			for _, g := range l.P.Callees(c) {
				s := l.acqSumOf(g)
				for i := range s.results {
					res[i] = true
				}
				for i, fl := range s.params {
					putField(par, i, fl)
				}
			}
			var ks []int
			for i := range res {
				ks = append(ks, i)
			}
			sort.Ints(ks)
			for _, i := range ks {
				out = append(out, acquisition{in: in, name: shortCallee(&c.Call), result: i, param: -1})
			}
			ks = nil
			for i := range par {
				ks = append(ks, i)
			}
			sort.Ints(ks)
			for _, i := range ks {
				out = append(out, acquisition{in: in, name: shortCallee(&c.Call), result: -1, param: i, field: par[i]})
			}
		}
	}
	return out
}

// acqSumOf: may f hand a freshly acquired handle to its caller?
func (l *lkAnalysis) acqSumOf(f *ssa.Function) *acqSum {
	if s := l.acqMemo[f]; s != nil {
		return s
	}
	s := &acqSum{results: map[int]bool{}, params: map[int]int{}}
	l.acqMemo[f] = s
	if f.Blocks == nil || testHelper(f) {
		return s
	}
	for _, q := range l.acquisitions(f) {
		c := q.in.(*ssa.Call)
		start := map[ssa.Value]int{}
		if q.result >= 0 {
			if c.Call.Signature().Results().Len() == 1 {
				start[c] = kSelf
			} else if ex := extractOf(c, q.result); ex != nil {
				start[ex] = kSelf
			}
		} else {
			root, fld := place(callArgs(&c.Call)[q.param])
			if fld == kSelf {
				fld = q.field
			}
			if p, ok := root.(*ssa.Parameter); ok {
				for i, pp := range f.Params {
					if pp == p {
						putField(s.params, i, fld)
					}
				}
				continue
			}
			start[root] = kOpaque
		}
		fl := l.flow(f, start, 0)
		for i := range fl.toResult {
			if closeable(f.Signature.Results().At(i).Type()) {
				s.results[i] = true
			}
		}
		for i, fld := range fl.toParam {
			putField(s.params, i, fld)
		}
	}
	return s
}

// closeable: the type offers a way to close it.
func closeable(t types.Type) bool {
	if isErrorType(t) {
		return false
	}
	if _, ok := t.Underlying().(*types.Basic); ok {
		return false
	}
	return true
}

// path engine

type lkState struct {
	ef  efState
	al  map[ssa.Value]int
	esc map[int]bool // parameters (or -1 for other outside objects) that own the handle
}

type lkRun struct {
	l    *lkAnalysis
	f    *ssa.Function
	e    *efFunc
	pre  *efRun
	acq  acquisition
	bad  func(why string, at ssa.Instruction, s *lkState)
	fail map[int]bool // parameters left owning at a failing return
	good map[int]bool // parameters owning at a successful return
	loop map[*ssa.BasicBlock][]loopClose
	seen map[string]bool
	n    int
	// the receiver has no method that closes, and only outsiders call this function
	worker bool
}

type loopClose struct {
	root ssa.Value
	fld  int
	val  ssa.Value // when the loop is over a plain slice value
}

func (s *lkState) clone() *lkState {
	n := &lkState{ef: efState{blk: s.ef.blk, env: cloneEnv(s.ef.env), mem: cloneEnv(s.ef.mem), path: s.ef.path}, al: map[ssa.Value]int{}, esc: map[int]bool{}}
	for k, v := range s.al {
		n.al[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	return n
}

func (r *lkRun) key(s *lkState) string {
	var ks []string
	for v, k := range s.al {
		ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), k))
	}
	for i := range s.esc {
		ks = append(ks, fmt.Sprintf("esc%d", i))
	}
	sort.Strings(ks)
	return r.e.key(&s.ef) + strings.Join(ks, ",")
}

// kindOf: what the value is with respect to the handle followed.
func (r *lkRun) kindOf(s *lkState, v ssa.Value) (int, bool) {
	if k, ok := s.al[v]; ok {
		return k, true
	}
	switch t := v.(type) {
	case *ssa.MakeInterface:
		return r.kindOf(s, t.X)
	case *ssa.ChangeInterface:
		return r.kindOf(s, t.X)
	case *ssa.ChangeType:
		return r.kindOf(s, t.X)
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
		root, fld := place(v)
		if k, ok := s.al[root]; ok {
			if fld == k || k == kOpaque || fld == kOpaque || k == kSelf {
				return kOpaque, true
			}
		}
	}
	return 0, false
}

func (r *lkRun) own(s *lkState, root ssa.Value, fld int) {
	if p, ok := root.(*ssa.Parameter); ok {
		for i, q := range r.f.Params {
			if p == q {
				s.esc[i] = true
			}
		}
	}
	switch root.(type) {
	case *ssa.FreeVar, *ssa.Global:
		s.esc[-1] = true
	case *ssa.Phi:
		if _, ok := s.al[root]; !ok {
			s.esc[-1] = true // linked behind an object carried round a loop
		}
	}
	if old, ok := s.al[root]; ok && old != fld {
		fld = kOpaque
	}
	s.al[root] = fld
}

func (r *lkRun) disown(s *lkState, root ssa.Value) {
	delete(s.al, root)
	if p, ok := root.(*ssa.Parameter); ok {
		for i, q := range r.f.Params {
			if p == q {
				delete(s.esc, i)
			}
		}
	}
}

// run executes from instruction i; successors are appended to work.
func (r *lkRun) run(s *lkState, i int, work *[]*lkState) {
	b := s.ef.blk
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if in == r.acq.in && s.ef.path != nil {
			// acquired again: what the result variable held is gone
			if v, ok := in.(ssa.Value); ok {
				delete(s.al, v)
				for _, u := range *v.Referrers() {
					if ex, ok := u.(*ssa.Extract); ok {
						delete(s.al, ex)
					}
				}
			}
			if len(s.al) == 0 && len(s.esc) == 0 {
				r.bad("it is acquired again in a loop without having been closed", in, s)
			}
			return // the new acquisition is followed from its own start
		}
		if v, ok := in.(ssa.Value); ok {
			if _, isAlloc := in.(*ssa.Alloc); !isAlloc || s.ef.path != nil {
				if _, had := s.al[v]; had {
					delete(s.al, v)
				}
			}
		}
		switch t := in.(type) {
		case *ssa.Return:
			r.atReturn(s, t)
			return
		case *ssa.UnOp:
			if t.Op == token.MUL {
				root, fld := place(t.X)
				if k, ok := s.al[root]; ok {
					switch {
					case fld == kSelf: // the variable or the whole struct
						s.al[t] = k
					case k == kOpaque || fld == kOpaque:
						if pointerish(t.Type()) {
							s.al[t] = kOpaque
						}
					case k == kSelf:
						// a part of the handle itself (a response's body)
						if fname := fieldName(t.X); fname == "Body" {
							s.al[t] = kSelf
						}
					case k == fld:
						s.al[t] = kSelf
					}
				}
			}
		case *ssa.Field:
			if k, ok := s.al[t.X]; ok && (k == t.Field || k == kOpaque) {
				s.al[t] = kOpaque
			}
		case *ssa.TypeAssert:
			if k, ok := r.kindOf(s, t.X); ok {
				s.al[t] = k
			}
		case *ssa.Extract:
			if k, ok := s.al[t.Tuple]; ok {
				if _, isCall := t.Tuple.(*ssa.Call); !isCall && t.Index == 0 {
					s.al[t] = k
				}
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Slice:
			if k, ok := r.kindOf(s, t.(ssa.Value)); ok {
				s.al[t.(ssa.Value)] = k
			}
		case *ssa.Store:
			k, has := r.kindOf(s, t.Val)
			root, fld := place(t.Addr)
			if has {
				if fld == kSelf {
					if _, ok := root.(*ssa.Alloc); ok {
						s.al[root] = k
					} else {
						r.own(s, root, kOpaque)
					}
				} else {
					if k != kSelf && fld != kOpaque {
						// a container inside a field: closing that field closes it
					}
					r.own(s, root, fld)
				}
			} else if old, ok := s.al[root]; ok {
				if _, isAlloc := root.(*ssa.Alloc); fld == kSelf && isAlloc {
					delete(s.al, root)
				} else if fld >= 0 && old == fld {
					if _, isIdx := t.Addr.(*ssa.IndexAddr); !isIdx {
						r.disown(s, root)
					}
				}
			}
		case *ssa.MapUpdate:
			if _, has := r.kindOf(s, t.Value); has {
				root, fld := place(t.Map)
				if fld == kSelf {
					fld = kOpaque
				}
				r.own(s, root, fld)
			}
		case *ssa.Send:
			if _, has := r.kindOf(s, t.X); has {
				return // handed over
			}
		case *ssa.Defer:
			if r.closedBy(s, &t.Call, t) {
				return
			}
			continue
		case *ssa.Go:
			if r.closedBy(s, &t.Call, t) {
				return
			}
			for _, g := range r.l.P.Callees(t) {
				for ai, arg := range callArgs(&t.Call) {
					if _, has := r.kindOf(s, arg); has && (r.l.entry(g, ai, 0).closesAny() || r.l.entry(g, ai, 0).escapes) {
						return
					}
				}
			}
			continue
		case *ssa.Call:
			if r.pre.step(&s.ef, in) != stCont {
				return
			}
			if r.call(s, t, i, work) {
				return
			}
			continue
		}
		if r.pre.step(&s.ef, in) != stCont {
			return
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	go1 := func(to *ssa.BasicBlock, cond ssa.Value, taken bool) {
		outs := r.pre.edge(nil, &s.ef, b, to, cond, taken)
		for _, o := range outs {
			n := &lkState{ef: o, al: map[ssa.Value]int{}, esc: map[int]bool{}}
			for k, v := range s.al {
				n.al[k] = v
			}
			for k, v := range s.esc {
				n.esc[k] = v
			}
			pi := -1
			for i, p := range to.Preds {
				if p == b {
					pi = i
				}
			}
			type upd struct {
				v  ssa.Value
				k  int
				ok bool
			}
			var ups []upd
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				k, has := r.kindOf(s, ph.Edges[pi])
				ups = append(ups, upd{ph, k, has})
			}
			for _, u := range ups {
				if u.ok {
					n.al[u.v] = u.k
				} else {
					delete(n.al, u.v)
				}
			}
			// entering a loop that closes every element of what holds the handle
			closed := false
			for _, lc := range r.loop[to] {
				if lc.val != nil {
					if _, ok := r.kindOf(n, lc.val); ok {
						closed = true
					}
				} else if k, ok := n.al[lc.root]; ok && (k == lc.fld || k == kOpaque || lc.fld == kOpaque) {
					closed = true
				}
			}
			if closed {
				continue
			}
			for v := range n.al {
				if !r.e.liveAt(v, to) {
					switch v.(type) {
					case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
					default:
						delete(n.al, v)
					}
				}
			}
			k := r.key(n)
			if r.seen[k] {
				continue
			}
			r.seen[k] = true
			*work = append(*work, n)
		}
	}
	if iff, ok := last.(*ssa.If); ok {
		c := eval(&s.ef, iff.Cond)
		if x, eq := nilTest(iff.Cond); x != nil {
			if k, has := r.kindOf(s, x); has && (k == kSelf || k == kOpaque) {
				// it is known not to be nil
				if eq {
					c = vFalse
				} else {
					c = vTrue
				}
			}
		}
		switch c {
		case vTrue:
			go1(b.Succs[0], nil, false)
		case vFalse:
			go1(b.Succs[1], nil, false)
		default:
			go1(b.Succs[0], iff.Cond, true)
			go1(b.Succs[1], iff.Cond, false)
		}
	} else {
		for _, n := range b.Succs {
			go1(n, nil, false)
		}
	}
}

func pointerish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic:
		return false
	}
	return true
}

func fieldName(v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		if st, ok := derefType(fa.X.Type()).Underlying().(*types.Struct); ok {
			return st.Field(fa.Field).Name()
		}
	}
	return ""
}

// nilTest: cond compares x with nil; eq says which way.
func nilTest(cond ssa.Value) (ssa.Value, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return nil, false
	}
	if k, ok := b.Y.(*ssa.Const); ok && k.IsNil() {
		return b.X, b.Op == token.EQL
	}
	if k, ok := b.X.(*ssa.Const); ok && k.IsNil() {
		return b.Y, b.Op == token.EQL
	}
	return nil, false
}

// closedBy: this (deferred, spawned or plain) call closes what the state holds.
func (r *lkRun) closedBy(s *lkState, c *ssa.CallCommon, site ssa.CallInstruction) bool {
	if recv, ok := primitiveClose(c); ok {
		if k, has := r.kindOf(s, recv); has && (k == kSelf || k == kOpaque || c.IsInvoke()) {
			return true
		}
		if !c.IsInvoke() {
			return false
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		fn := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if k, has := r.kindOf(s, b); has {
				if r.l.entry(fn, -1-i, 0).closesKind(k) {
					return true
				}
			}
		}
	}
	for _, g := range r.l.P.Callees(site) {
		for i, arg := range callArgs(c) {
			k, has := r.kindOf(s, arg)
			if !has {
				continue
			}
			sum := r.l.entry(g, i, 0)
			if len(sum.toResult) == 0 && len(sum.toParam) == 0 && sum.closesKind(k) {
				return true
			}
		}
	}
	return false
}

// call handles a plain call; true when the state has been dealt with (closed, handed over or forked).
func (r *lkRun) call(s *lkState, t *ssa.Call, i int, work *[]*lkState) bool {
	c := &t.Call
	if r.closedBy(s, c, t) {
		return true
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range c.Args {
				if _, has := r.kindOf(s, a); has {
					s.al[t] = kOpaque
				}
			}
		}
		return false
	}
	callees := r.l.P.Callees(t)
	args := callArgs(c)
	toRes := map[int]bool{}
	closesOnSome := false
	touched := false
	for _, g := range callees {
		for ai, arg := range args {
			k, has := r.kindOf(s, arg)
			if !has {
				continue
			}
			touched = true
			sum := r.l.entry(g, ai, 0)
			if sum.escapes {
				return true
			}
			if sum.closesKind(k) {
				closesOnSome = true
			}
			for ri := range sum.toResult {
				toRes[ri] = true
			}
			for j, fl := range sum.toParam {
				if j < len(args) && j != ai {
					root, fld := place(args[j])
					if fld == kSelf {
						fld = fl
					}
					r.own(s, root, fld)
				}
			}
		}
	}
	if !touched {
		if len(callees) == 0 && c.StaticCallee() == nil && !c.IsInvoke() {
			for _, arg := range args {
				if _, has := r.kindOf(s, arg); has {
					return true // an unknown function value: handed over
				}
			}
		}
		return false
	}
	if len(toRes) == 0 {
		return false
	}
	sig := c.Signature()
	ei := errResultIdx(sig)
	mark := func(n *lkState) {
		if sig.Results().Len() == 1 {
			n.al[t] = kOpaque
			return
		}
		for ri := range toRes {
			if ex := extractOf(t, ri); ex != nil {
				n.al[ex] = kOpaque
			}
		}
	}
	if ei < 0 {
		mark(s)
		return false
	}
	// fork: success hands the handle to the result, failure leaves it here (or closed)
	ok := s.clone()
	setErr(ok, t, ei, vNil)
	mark2 := ok
	r.runMarked(mark2, t, i, work, mark)
	if !closesOnSome {
		bad := s.clone()
		setErr(bad, t, ei, vNonNil)
		r.run(bad, i+1, work)
	}
	return true
}

// runMarked continues after the call with the given results owning the handle. Extracts are executed after the call,
// and executing them must not lose the mark.
func (r *lkRun) runMarked(s *lkState, t *ssa.Call, i int, work *[]*lkState, mark func(*lkState)) {
	b := s.ef.blk
	j := i + 1
	for ; j < len(b.Instrs); j++ {
		ex, ok := b.Instrs[j].(*ssa.Extract)
		if !ok || ex.Tuple != ssa.Value(t) {
			break
		}
		r.pre.step(&s.ef, ex)
	}
	mark(s)
	r.run(s, j, work)
}

func setErr(s *lkState, t *ssa.Call, ei int, x absv) {
	s.ef.env[t] = x
	if t.Call.Signature().Results().Len() > 1 {
		if ex := extractOf(t, ei); ex != nil {
			s.ef.env[ex] = x
		}
	}
}

func (r *lkRun) atReturn(s *lkState, t *ssa.Return) {
	ei := errResultIdx(r.f.Signature)
	x := vNil
	if ei >= 0 {
		x = eval(&s.ef, t.Results[ei])
	}
	returned := false
	for _, v := range t.Results {
		if _, ok := r.kindOf(s, v); ok {
			returned = true
		}
	}
	switch {
	case x == vNonNil && returned && len(s.esc) == 0:
		r.bad("a path returns an error together with the open handle, which callers do not close", t, s)
	case x != vNonNil && returned:
	case len(s.esc) > 0:
		if s.esc[0] && r.worker {
			r.bad("the object it is kept in offers no way to close it, and nothing does before this return", t, s)
		}
		if x != vNil {
			for i := range s.esc {
				r.fail[i] = true
			}
		}
		if x != vNonNil {
			for i := range s.esc {
				r.good[i] = true
			}
		}
	default:
		if x == vNonNil {
			r.bad("a path that reports an error leaves it open", t, s)
		} else {
			r.bad("a path ends with it neither closed nor handed over", t, s)
		}
	}
}

// elementLoops finds the loops that close the elements of something.
func (l *lkAnalysis) elementLoops(f *ssa.Function) map[*ssa.BasicBlock][]loopClose {
	out := map[*ssa.BasicBlock][]loopClose{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
			c := ci.Common()
			var recvs []ssa.Value
			if recv, ok := primitiveClose(c); ok {
				recvs = append(recvs, recv)
			}
			for _, g := range l.P.Callees(ci) {
				for i, a := range callArgs(c) {
					if s := l.entry(g, i, 0); s.closesAny() && len(s.toResult) == 0 {
						recvs = append(recvs, a)
					}
				}
			}
			for _, recv := range recvs {
				lc, ok := elementOf(recv)
				if !ok {
					continue
				}
				if h := loopHeader(b); h != nil {
					out[h] = append(out[h], lc)
				}
			}
		}
	}
	return out
}

// elementOf: the value is an element of a slice/array/map; of which?
func elementOf(v ssa.Value) (loopClose, bool) {
	for i := 0; i < 10; i++ {
		switch t := v.(type) {
		case *ssa.MakeInterface:
			v = t.X
			continue
		case *ssa.ChangeType:
			v = t.X
			continue
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if ia, ok := t.X.(*ssa.IndexAddr); ok {
					return sliceBase(ia.X), true
				}
				if al, ok := t.X.(*ssa.Alloc); ok {
					// a loop variable: what was stored in it
					for _, u := range *al.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == al {
							if lc, ok := elementOf(st.Val); ok {
								return lc, true
							}
						}
					}
				}
			}
		case *ssa.Index:
			return sliceBase(t.X), true
		case *ssa.Extract:
			if nx, ok := t.Tuple.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					return sliceBase(rg.X), true
				}
			}
		case *ssa.Alloc:
			// addressable element copy
			for _, u := range *t.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == t {
					if lc, ok := elementOf(st.Val); ok {
						return lc, true
					}
				}
			}
		case *ssa.IndexAddr:
			return sliceBase(t.X), true
		}
		return loopClose{}, false
	}
	return loopClose{}, false
}

func sliceBase(v ssa.Value) loopClose {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		root, fld := place(u.X)
		return loopClose{root: root, fld: fld}
	}
	if _, ok := v.(*ssa.FieldAddr); ok {
		root, fld := place(v)
		return loopClose{root: root, fld: fld}
	}
	return loopClose{val: v}
}

// loopHeader: the header of the innermost loop b belongs to.
func loopHeader(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && reaches(b, p, h) {
				return h
			}
		}
	}
	return nil
}

// reaches: b reaches p without leaving through h.
func reaches(b, p, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == p {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if s != h && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

// failLeaves: the parameters of f that may be left owning a fresh handle when f reports an error.
// holderCloses: a local object whose type has a method that closes handles; objects from outside always count.
func (l *lkAnalysis) holderCloses(root ssa.Value) bool {
	if _, ok := root.(*ssa.Parameter); ok {
		return true
	}
	return l.holderClosesType(root.Type())
}

func (l *lkAnalysis) holderClosesType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if pp, ok := t.Underlying().(*types.Pointer); ok {
		t = pp.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	ms := l.P.SSA.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		m := l.P.SSA.MethodValue(ms.At(i))
		if m != nil && (isCloserName(m.Name()) || strings.HasPrefix(m.Name(), "Close")) {
			return true
		}
	}
	return types.IsInterface(n)
}

func (l *lkAnalysis) analyse(f *ssa.Function) []lkFinding {
	if l.done[f] {
		return l.results[f]
	}
	l.done[f] = true
	l.failL[f] = map[int]bool{}
	l.okL[f] = map[int]bool{}
	if f.Blocks == nil {
		return nil
	}
	var out []lkFinding
	loops := l.elementLoops(f)
	for _, q := range l.acquisitions(f) {
		l.nAcq++
		if fd := l.follow(f, q, loops); fd != nil {
			out = append(out, *fd)
		}
	}
	l.results[f] = out
	return out
}

// closelessEntry: a method whose receiver's type has no closing method, and which no other method of the type calls.
func (l *lkAnalysis) closelessEntry(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || len(f.Params) == 0 || l.holderClosesType(f.Params[0].Type()) {
		return false
	}
	if n := l.P.CG().Nodes[f]; n != nil {
		for _, e := range n.In {
			g := rootFn(e.Caller.Func)
			if g != f && g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), f.Signature.Recv().Type()) {
				return false
			}
		}
	}
	return true
}

// handleField: the acquisition puts a handle straight into a field of the receiver that can itself be closed.
func (l *lkAnalysis) handleField(f *ssa.Function, q acquisition) bool {
	fld := q.field
	if q.result >= 0 {
		c := q.in.(*ssa.Call)
		v := ssa.Value(c)
		if c.Call.Signature().Results().Len() > 1 {
			v = extractOf(c, q.result)
		}
		fld = kOpaque
		if v != nil && v.Referrers() != nil {
			for _, u := range *v.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Val == v {
					if root, fl := place(st.Addr); root == ssa.Value(f.Params[0]) {
						fld = fl
					}
				}
			}
		}
	} else if root, _ := place(callArgs(&q.in.(*ssa.Call).Call)[q.param]); root != ssa.Value(f.Params[0]) {
		return false
	}
	if fld < 0 {
		return false
	}
	st, ok := derefType(f.Params[0].Type()).Underlying().(*types.Struct)
	if !ok || fld >= st.NumFields() {
		return false
	}
	t := st.Field(fld).Type()
	ms := l.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if isCloserName(ms.At(i).Obj().Name()) {
			return true
		}
	}
	return false
}

func (l *lkAnalysis) follow(f *ssa.Function, q acquisition, loops map[*ssa.BasicBlock][]loopClose) *lkFinding {
	e := l.a.fn(f)
	var fd *lkFinding
	r := &lkRun{l: l, f: f, e: e, pre: &efRun{a: l.a, e: e}, acq: q, fail: l.failL[f], good: l.okL[f], loop: loops, seen: map[string]bool{}}
	r.bad = func(why string, at ssa.Instruction, s *lkState) {
		if fd == nil {
			fd = &lkFinding{acq: q.in, name: q.name, why: why, at: at, path: s.ef.path}
		}
	}
	c := q.in.(*ssa.Call)
	ei := errResultIdx(c.Call.Signature())
	r.worker = l.closelessEntry(f) && l.handleField(f, q)
	var work []*lkState
	for _, en := range l.a.entries(e)[q.in.Block()] {
		s := &lkState{ef: efState{blk: en.blk, env: cloneEnv(en.env), mem: cloneEnv(en.mem)}, al: map[ssa.Value]int{}, esc: map[int]bool{}}
		i, dead := 0, false
		for ; i < len(s.ef.blk.Instrs); i++ {
			in := s.ef.blk.Instrs[i]
			if in == q.in {
				break
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if r.pre.step(&s.ef, in) != stCont {
				dead = true
				break
			}
		}
		if dead {
			continue
		}
		s.ef.path = []*ssa.BasicBlock{}
		start := func(errx absv) {
			n := s.clone()
			n.ef.path = []*ssa.BasicBlock{}
			if ei >= 0 {
				setErr(n, c, ei, errx)
			}
			r.runMarked(n, c, i, &work, func(m *lkState) {
				if q.result >= 0 {
					if c.Call.Signature().Results().Len() == 1 {
						m.al[c] = kSelf
					} else if ex := extractOf(c, q.result); ex != nil {
						m.al[ex] = kSelf
					}
					if !primitiveAcquire(&c.Call) {
						for v := range m.al {
							m.al[v] = kOpaque
						}
					}
				} else {
					root, fld := place(callArgs(&c.Call)[q.param])
					if fld == kSelf {
						fld = q.field
					}
					r.own(m, root, fld)
				}
			})
		}
		if q.param < 0 {
			start(vNil)
			continue
		}
		if root, _ := place(callArgs(&c.Call)[q.param]); !l.holderCloses(root) {
			continue // a worker that offers no way to close: what it opened belongs to the objects it works on
		}
		keeps, leaves := false, false
		for _, g := range l.P.Callees(c) {
			l.analyse(g)
			keeps = keeps || l.okL[g][q.param]
			leaves = leaves || l.failL[g][q.param]
		}
		if keeps {
			start(vNil)
		}
		if leaves && ei >= 0 {
			start(vNonNil)
		}
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		r.n++
		if r.n > 20000 {
			return &lkFinding{acq: q.in, name: q.name, why: "undecided: too many paths", at: q.in}
		}
		r.run(s, 0, &work)
	}
	return fd
}
