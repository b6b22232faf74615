package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A check has 900 seconds; one that takes too long says so rather than nothing.
var started = time.Now()

type aframe struct {
	f     *ssa.Function
	env   map[ssa.Value]aval
	st    *astate
	undec map[*ssa.BasicBlock]int
	block *ssa.BasicBlock
	i     int
	steps int
	defs  []adefer
}

func (fr *aframe) clone() *aframe {
	n := *fr
	n.env = make(map[ssa.Value]aval, len(fr.env))
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.undec = map[*ssa.BasicBlock]int{}
	for k, v := range fr.undec {
		n.undec[k] = v
	}
	n.defs = fr.defs[:len(fr.defs):len(fr.defs)]
	n.st = fr.st.clone()
	return &n
}

// run interprets a function from a state: every way it can end.
func (m *amachine) run(f *ssa.Function, args []aval, bind []aval, st *astate) []aout {
	if m.depth > 40 || f.Blocks == nil {
		m.giveUp("call depth at " + fnName(f))
		return nil
	}
	m.depth++
	defer func() { m.depth-- }()
	fr := &aframe{f: f, env: map[ssa.Value]aval{}, st: st, undec: map[*ssa.BasicBlock]int{}, block: f.Blocks[0]}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if i < len(bind) {
			fr.env[v] = bind[i]
		}
	}
	var out []aout
	work := []*aframe{fr}
	for len(work) > 0 {
		fr := work[len(work)-1]
		work = work[:len(work)-1]
		for fr != nil {
			m.steps++
			if m.steps%4096 == 0 && (time.Since(started) > 12*time.Minute || memoryShort()) {
				m.over = true
			}
			if m.over || m.steps > m.maxSteps || m.forks > m.maxSteps/30 || len(work) > 4000 || len(out) > 4000 {
				m.over = true
				m.giveUp("too many states in " + fnName(f))
				return out
			}
			in := fr.block.Instrs[fr.i]
			fr.i++
			switch t := in.(type) {
			case *ssa.If:
				c := m.val(fr, t.Cond)
				b, ok := c.(aBool)
				if !ok {
					b = aBool{id: m.fresh("cond")}
				}
				if debugForks && !b.known {
					fmt.Println("fork at", m.P.Pos(t.Cond.Pos()), b)
				}
				if !b.known && b.id != "" && !strings.HasPrefix(b.id, "errnil:") {
					if v, ok := fr.st.bools[b.id]; ok {
						b = aBool{known: true, val: v != b.not}
					}
				}
				if b.known {
					k := 1
					if b.val {
						k = 0
					}
					fr.steps++
					if fr.steps > max(20000, m.maxSteps/100) {
						m.giveUp("loop in " + fnName(f))
						fr = nil
						continue
					}
					m.jump(fr, fr.block.Succs[k])
					continue
				}
				fr.undec[fr.block]++
				m.forks++
				no := fr.clone()
				cur := fr.block
				inLoop := func(s *ssa.BasicBlock) bool {
					l := innermostLoop(cur, nil)
					return l != nil && l.body[s]
				}
				var next *aframe
				for k, g := range []*aframe{fr, no} {
					s := cur.Succs[k]
					if g.undec[cur] > m.maxIter && inLoop(s) && !inLoop(cur.Succs[1-k]) {
						g.st.incomplete = true
						m.giveUp("unbounded loop in " + fnName(f))
						if debugPanics {
							fmt.Printf("unbounded at %s: %T %v\n", m.P.Pos(cur.Instrs[0].Pos()), c, c)
						}
						continue
					}
					if !m.assume(g.st, b, k == 0) {
						continue
					}
					m.jump(g, s)
					if next == nil {
						next = g
					} else {
						work = append(work, g)
					}
				}
				fr = next
			case *ssa.Jump:
				fr.steps++
				if fr.steps > max(20000, m.maxSteps/100) {
					m.giveUp("loop in " + fnName(f))
					fr = nil
					continue
				}
				m.jump(fr, fr.block.Succs[0])
			case *ssa.Return:
				var rs []aval
				for _, r := range t.Results {
					rs = append(rs, m.val(fr, r))
				}
				out = append(out, aout{st: fr.st, rets: rs})
				fr = nil
			case *ssa.Panic:
				if debugPanics {
					fmt.Println("panic at", m.P.Pos(t.Pos()), fr.st.bools)
				}
				out = append(out, aout{st: fr.st, panic: true})
				fr = nil
			case *ssa.Call:
				outs := m.callInstr(fr, t)
				if len(outs) == 0 {
					fr = nil
					continue
				}
				var next *aframe
				for i, o := range outs {
					g := fr
					if i < len(outs)-1 {
						m.forks++
						keep := fr.st
						g = fr.clone()
						fr.st = keep
					}
					g.st = o.st
					if o.panic {
						out = append(out, aout{st: o.st, panic: true})
						if g == fr {
							fr = nil
						}
						continue
					}
					switch len(o.rets) {
					case 0:
					case 1:
						g.env[t] = o.rets[0]
					default:
						g.env[t] = aTuple(o.rets)
					}
					if next == nil {
						next = g
					} else {
						work = append(work, g)
					}
				}
				fr = next
			case *ssa.Defer:
				d := adefer{site: t, fn: m.val(fr, t.Call.Value)}
				for _, a := range t.Call.Args {
					d.args = append(d.args, m.val(fr, a))
				}
				fr.defs = append(fr.defs, d)
			case *ssa.RunDefers:
				after := []*astate{fr.st}
				for i := len(fr.defs) - 1; i >= 0; i-- {
					var then []*astate
					for _, st := range after {
						for _, o := range m.deferred(st, fr.defs[i]) {
							if o.panic {
								out = append(out, o)
							} else {
								then = append(then, o.st)
							}
						}
					}
					after = then
				}
				fr.defs = nil
				if len(after) == 0 {
					fr = nil
					continue
				}
				for _, st := range after[1:] {
					keep := fr.st
					fr.st = st
					g := fr.clone()
					g.st = st
					fr.st = keep
					work = append(work, g)
				}
				fr.st = after[0]
			case *ssa.DebugRef:
			case *ssa.Go:
				if m.channels {
					m.spawn(fr, t)
				}
			case *ssa.Send:
				if m.channels && !m.send(fr.st, m.val(fr, t.Chan), m.val(fr, t.X)) {
					out = append(out, aout{st: fr.st, panic: true})
					fr = nil
					continue
				}
			case *ssa.Store:
				m.touched(fr.st, "w", m.val(fr, t.Addr), t)
				m.store(fr.st, m.val(fr, t.Addr), m.val(fr, t.Val))
			case *ssa.MapUpdate:
				m.touched(fr.st, "w", m.val(fr, t.Map), t)
				if _, isNil := m.val(fr, t.Map).(aNil); isNil {
					out = append(out, aout{st: fr.st, panic: true})
					fr = nil
					continue
				}
				m.mapSet(fr.st, m.val(fr, t.Map), m.val(fr, t.Key), m.val(fr, t.Value))
			case ssa.Value:
				if lk, ok := t.(*ssa.Lookup); ok {
					alts := m.lookup(fr, lk)
					for i, a := range alts {
						g := fr
						if i < len(alts)-1 {
							m.forks++
							keep := fr.st
							g = fr.clone()
							fr.st = keep
							work = append(work, g)
						}
						g.st = a.st
						if len(a.rets) == 2 {
							g.env[lk] = aTuple(a.rets)
						} else {
							g.env[lk] = a.rets[0]
						}
					}
					continue
				}
				if u, ok := t.(*ssa.UnOp); ok && u.Op == token.ARROW && m.channels {
					v, ok := m.recv(fr.st, m.val(fr, u.X), u)
					if !ok && m.demand && len(fr.st.pending) > 0 {
						// let the goroutines that have not run yet run now
						outs := m.runPending(fr.st)
						var next *aframe
						for _, o := range outs {
							if o.panic {
								out = append(out, aout{st: o.st, panic: true})
								continue
							}
							g := fr.clone()
							g.st = o.st
							g.i = fr.i - 1
							if next == nil {
								next = g
							} else {
								m.forks++
								work = append(work, g)
							}
						}
						fr = next
						continue
					}
					if !ok {
						m.blocked = append(m.blocked, ablocked{fr.st, u, m.val(fr, u.X)})
						fr = nil
						continue
					}
					fr.env[t] = v
					continue
				}
				fr.env[t] = m.eval(fr, t)
				if m.crash {
					m.crash = false
					if debugPanics {
						fmt.Println("crash at", m.P.Pos(t.(ssa.Instruction).Pos()), t)
					}
					out = append(out, aout{st: fr.st, panic: true})
					fr = nil
				}
			default:
				m.giveUp(fmt.Sprintf("%T in %s", in, fnName(f)))
			}
		}
	}
	return out
}

var debugForks = os.Getenv("PS_FORKS") != ""
var debugPanics = os.Getenv("PS_WHY") != ""

func (m *amachine) jump(fr *aframe, to *ssa.BasicBlock) {
	from := fr.block
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []aval
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, m.val(fr, p.Edges[idx]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	fr.block = to
	fr.i = len(phis)
}

func (m *amachine) val(fr *aframe, v ssa.Value) aval {
	switch t := v.(type) {
	case *ssa.Const:
		return m.constVal(fr.st, t)
	case *ssa.Function:
		return aFn{fn: t}
	case *ssa.Builtin:
		return aTop{}
	case *ssa.Global:
		return aPtr{obj: m.global(fr.st, t)}
	}
	if x, ok := fr.env[v]; ok && x != nil {
		return x
	}
	return m.unknownVal(fr.st, v.Type(), m.fresh(v.Name()))
}

var globalObj = map[*ssa.Global]int{}

func (m *amachine) global(st *astate, g *ssa.Global) int {
	k := "@" + g.Pkg.Pkg.Name() + "." + g.Name()
	if id, ok := st.files[k]; ok {
		return id
	}
	id := m.alloc(st, derefType(g.Type()), k)
	st.files[k] = id
	// a package variable with a literal value keeps it when nobody assigns it
	if v := m.P.globalConst(g); v != nil {
		m.writeCell(st, id, "v", alin{}, false, m.constVal(st, v))
	} else if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modulePath) && aggregate(derefType(g.Type())) {
		if cs := m.P.globalTable(g); cs != nil {
			for _, c := range cs {
				m.writeTable(st, id, c)
			}
		}
	} else if isErrorType(derefType(g.Type())) {
		m.writeCell(st, id, "v", alin{}, false, aErr{id: "!" + k})
	}
	if m.madeOnce != nil {
		if f := m.P.globalMaker(g); f != nil {
			if v, ok := m.made(st, f); ok {
				m.writeCell(st, id, "v", alin{}, false, v)
			}
		}
	}
	return id
}

// made: what a package variable that is made by a function, once, points to.
func (m *amachine) made(st *astate, f *ssa.Function) (aval, bool) {
	o := m.madeOnce[f]
	if o == nil {
		model := m.model
		m.model = nil
		outs := m.run(f, nil, nil, m.newState())
		m.model = model
		if len(outs) != 1 || outs[0].panic || len(outs[0].rets) != 1 {
			return nil, false
		}
		p, ok := outs[0].rets[0].(aPtr)
		if !ok || p.cell != "" {
			return nil, false
		}
		o = m.snapshot(outs[0].st, p.obj)
		m.madeOnce[f] = o
	}
	m.nobj++
	id := m.nobj
	m.restore(st, id, o)
	return aPtr{obj: id}, true
}

// globalMaker: the function whose result a package variable is initialised with when it is assigned nowhere else.
func (P *Prog) globalMaker(g *ssa.Global) *ssa.Function {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modulePath) {
		return nil
	}
	var made *ssa.Function
	n := 0
	look := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					n++
					if c, ok := st.Val.(*ssa.Call); ok && len(c.Call.Args) == 0 {
						made = c.Call.StaticCallee()
					}
				}
			}
		}
	}
	init := g.Pkg.Func("init")
	for _, f := range P.Funcs {
		if f != init {
			look(f)
		}
	}
	if init != nil {
		look(init)
	}
	if n != 1 || made == nil || !inModule(made) || made.Blocks == nil {
		return nil
	}
	return made
}

// globalConst: the constant a package variable is initialised with when it is assigned nowhere else.
func (P *Prog) globalConst(g *ssa.Global) *ssa.Const {
	var val ssa.Value
	n := 0
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					n++
					val = st.Val
				}
			}
		}
	}
	if g.Pkg != nil {
		if init := g.Pkg.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
						n++
						val = st.Val
					}
				}
			}
		}
	}
	if n == 1 {
		if k, ok := val.(*ssa.Const); ok {
			return k
		}
	}
	return nil
}

type tableCell struct {
	path []int64
	val  *ssa.Const
}

// globalTable: the literal contents of a package-level array or struct that only its initialiser writes.
func (P *Prog) globalTable(g *ssa.Global) []tableCell {
	if g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var out []tableCell
	var rec func(a ssa.Value, path []int64)
	rec = func(a ssa.Value, path []int64) {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.IndexAddr:
					if t.X == a {
						if k, ok := constInt(t.Index); ok {
							rec(t, append(path[:len(path):len(path)], k))
						}
					}
				case *ssa.FieldAddr:
					if t.X == a {
						rec(t, append(path[:len(path):len(path)], int64(t.Field)))
					}
				case *ssa.Store:
					if t.Addr == a {
						if k, ok := t.Val.(*ssa.Const); ok {
							out = append(out, tableCell{path, k})
						}
					}
				}
			}
		}
	}
	rec(g, nil)
	return out
}

func (m *amachine) writeTable(st *astate, id int, c tableCell) {
	for i, k := range c.path {
		o := st.heap[id]
		key, off, isIdx := strconv.FormatInt(k, 10), alin{}, false
		if _, isS := o.typ.Underlying().(*types.Struct); !isS {
			off, isIdx = aconst(k), true
			key = off.String()
		}
		if o.unknown != "" {
			m.mut2(st, id).unknown = ""
		}
		if i == len(c.path)-1 {
			m.writeCell(st, id, key, off, isIdx, m.constVal(st, c.val))
			return
		}
		id = m.sub(st, id, key, off, m.fieldOrElem(o, key))
	}
}

func (m *amachine) constVal(st *astate, k *ssa.Const) aval {
	if k.Value == nil {
		return m.zero(st, k.Type())
	}
	if b := basicOf(k.Type()); b != nil {
		switch {
		case b.Info()&types.IsInteger != 0:
			if v, ok := constOf(k); ok {
				return aInt{aconst(v), b}
			}
		case b.Info()&types.IsFloat != 0:
			if v, ok := constant.Int64Val(constant.ToInt(k.Value)); ok && constant.ToInt(k.Value).Kind() == constant.Int {
				return aInt{aconst(v), b}
			}
			if f, ok := constant.Float64Val(k.Value); ok {
				return aFloat{f, b}
			}
		case b.Info()&types.IsBoolean != 0:
			return aBool{known: true, val: constant.BoolVal(k.Value)}
		case b.Info()&types.IsString != 0:
			return aStr{s: constant.StringVal(k.Value), known: true}
		}
	}
	return aTop{}
}

func (m *amachine) intOf(v aval) (alin, bool) {
	if i, ok := v.(aInt); ok {
		return i.l, true
	}
	return alin{}, false
}

func (m *amachine) eval(fr *aframe, v ssa.Value) aval {
	st := fr.st
	switch t := v.(type) {
	case *ssa.Alloc:
		return aPtr{obj: m.alloc(st, derefType(t.Type()), "")}
	case *ssa.BinOp:
		x, y := m.val(fr, t.X), m.val(fr, t.Y)
		switch t.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.compare(st, t.Op, x, y)
		}
		if s, ok := x.(aStr); ok {
			if s2, ok := y.(aStr); ok {
				return concatStr(s, s2)
			}
		}
		a, ok1 := x.(aInt)
		b, ok2 := y.(aInt)
		if bt := basicOf(t.Type()); bt != nil && bt.Info()&types.IsFloat != 0 {
			if f, ok := floatOp(t.Op, x, y); ok {
				return mkFloat(f, bt)
			}
			if k, ok := floatTerm(t.Op, x, y); ok {
				return aOpaque{k, t.Type()}
			}
		} else if ok1 && ok2 && bt != nil {
			return aInt{m.binInt(st, t.Op, a.l, b.l, basicOf(t.Type())), basicOf(t.Type())}
		}
		return m.unknownVal(st, t.Type(), m.fresh("bin"))
	case *ssa.UnOp:
		x := m.val(fr, t.X)
		switch t.Op {
		case token.MUL:
			m.touched(fr.st, "r", x, t)
			return m.load(st, x, t.Type())
		case token.NOT:
			if b, ok := x.(aBool); ok {
				return m.not(b)
			}
		case token.SUB:
			if a, ok := x.(aInt); ok {
				return aInt{m.truncate(st, a.l.times(-1), basicOf(t.Type())), basicOf(t.Type())}
			}
		case token.XOR:
			if a, ok := x.(aInt); ok {
				return aInt{m.truncate(st, a.l.times(-1).add(aconst(-1), 1), basicOf(t.Type())), basicOf(t.Type())}
			}
		}
		return m.unknownVal(st, t.Type(), m.fresh("un"))
	case *ssa.Convert:
		x := m.val(fr, t.X)
		b := basicOf(t.Type())
		if a, ok := x.(aInt); ok && b != nil && b.Info()&types.IsInteger != 0 {
			return aInt{m.truncate(st, a.l, b), b}
		}
		if f, ok := floatOf(x); ok && b != nil && (b.Info()&types.IsFloat != 0 || b.Info()&types.IsInteger != 0 && math.Abs(f) < 1<<62) {
			if b.Info()&types.IsFloat != 0 {
				return mkFloat(f, b)
			}
			return aInt{m.truncate(st, aconst(int64(f)), b), b}
		}
		if f, ok := floatOf(x); ok && b != nil && b.Kind() == types.Uint64 && f >= 0 && f < 1<<64 {
			return aInt{m.truncate(st, aconst(int64(uint64(f))), b), b}
		}
		if f, ok := x.(aOpaque); ok && m.fromFloat != nil && strings.HasPrefix(f.id, "f:") && b != nil && b.Info()&types.IsInteger != 0 {
			if l, ok := m.fromFloat(f.id); ok {
				return aInt{m.truncate(st, l, b), b}
			}
		}
		return m.unknownVal(st, t.Type(), m.fresh("conv"))
	case *ssa.ChangeType:
		return m.val(fr, t.X)
	case *ssa.ChangeInterface:
		return m.val(fr, t.X)
	case *ssa.MakeInterface:
		x := m.val(fr, t.X)
		switch x.(type) {
		case aOpaque, aErr:
			return x
		}
		if isErrorType(t.Type()) {
			return aErr{id: "!" + m.fresh("e")}
		}
		return aIface{x, t.X.Type()}
	case *ssa.TypeAssert:
		x := m.val(fr, t.X)
		if i, ok := x.(aIface); ok {
			if types.Identical(i.t, t.AssertedType) || types.IsInterface(t.AssertedType) {
				r := i.v
				if types.IsInterface(t.AssertedType) {
					r = i
				}
				if t.CommaOk {
					return aTuple{r, aBool{known: true, val: true}}
				}
				return r
			}
		}
		if t.CommaOk {
			return aTuple{m.unknownVal(st, t.AssertedType, m.fresh("ta")), aBool{id: m.fresh("ok")}}
		}
		return x
	case *ssa.FieldAddr:
		x := m.val(fr, t.X)
		if _, isNil := x.(aNil); isNil {
			m.crash = true
		}
		p, ok := x.(aPtr)
		if !ok {
			return m.unknownVal(st, t.Type(), m.fresh("field"))
		}
		id := m.objOf(st, p, derefType(t.X.Type()))
		ft := derefType(t.Type())
		key := strconv.Itoa(t.Field)
		if aggregate(ft) {
			return aPtr{obj: m.sub(st, id, key, alin{}, ft)}
		}
		return aPtr{obj: id, cell: key}
	case *ssa.Field:
		if ag, ok := m.val(fr, t.X).(aAgg); ok {
			return m.fromAgg(st, ag.o, strconv.Itoa(t.Field), alin{}, t.Type())
		}
		return m.unknownVal(st, t.Type(), m.fresh("field"))
	case *ssa.Index:
		ix, ok := m.intOf(m.val(fr, t.Index))
		if s, isStr := m.val(fr, t.X).(aStr); ok && isStr && s.known && ix.isConst() {
			if ix.c < 0 || ix.c >= int64(len(s.s)) {
				m.crash = true
			} else {
				return aInt{aconst(int64(s.s[ix.c])), byteType.Underlying().(*types.Basic)}
			}
		}
		if ag, ok2 := m.val(fr, t.X).(aAgg); ok && ok2 {
			return m.fromAgg(st, ag.o, ix.String(), ix, t.Type())
		}
		return m.unknownVal(st, t.Type(), m.fresh("index"))
	case *ssa.IndexAddr:
		ix, ok := m.intOf(m.val(fr, t.Index))
		if !ok {
			break
		}
		et := derefType(t.Type())
		outside := func(n alin) bool {
			return m.ivOf(st, ix).hi < 0 || m.ivOf(st, ix.add(n, -1)).lo >= 0
		}
		switch b := m.val(fr, t.X).(type) {
		case aSlice:
			if outside(b.n) {
				m.crash = true
			}
			o := ix.add(b.off, 1)
			if b.obj < 0 {
				break
			}
			if aggregate(et) {
				return aPtr{obj: m.sub(st, b.obj, o.String(), o, et)}
			}
			return aPtr{obj: b.obj, cell: o.String(), off: o, idx: true}
		case aPtr:
			id := m.objOf(st, b, derefType(t.X.Type()))
			if outside(st.heap[id].n) {
				m.crash = true
			}
			if aggregate(et) {
				return aPtr{obj: m.sub(st, id, ix.String(), ix, et)}
			}
			return aPtr{obj: id, cell: ix.String(), off: ix, idx: true}
		}
		return m.unknownVal(st, t.Type(), m.fresh("idx"))
	case *ssa.Slice:
		return m.slice(fr, t)
	case *ssa.MakeSlice:
		n, _ := m.intOf(m.val(fr, t.Len))
		c, _ := m.intOf(m.val(fr, t.Cap))
		if m.ivOf(st, c.add(n, -1)).hi < 0 || m.ivOf(st, n).hi < 0 {
			m.crash = true
		}
		id := m.alloc(st, t.Type(), "")
		st.heap[id].n = c
		return aSlice{obj: id, n: n, cap: c, elem: elemType(t.Type())}
	case *ssa.MakeChan:
		if m.channels {
			return m.newChan(st, t.Type())
		}
	case *ssa.MakeMap:
		id := m.alloc(st, t.Type(), "")
		st.heap[id].isMap = true
		return aPtr{obj: id}
	case *ssa.Extract:
		if tp, ok := m.val(fr, t.Tuple).(aTuple); ok && t.Index < len(tp) {
			return tp[t.Index]
		}
		return m.unknownVal(st, t.Type(), m.fresh("ext"))
	case *ssa.MakeClosure:
		var bs []aval
		for _, b := range t.Bindings {
			bs = append(bs, m.val(fr, b))
		}
		return aFn{t.Fn.(*ssa.Function), bs}
	case *ssa.SliceToArrayPointer:
		if s, ok := m.val(fr, t.X).(aSlice); ok && s.off == (alin{}) {
			return aPtr{obj: s.obj}
		}
	case *ssa.Range:
		return m.iterate(st, m.val(fr, t.X))
	case *ssa.Next:
		tt := t.Type().(*types.Tuple)
		if r, ok := m.nextKey(fr, t); ok {
			return r
		}
		k := aval(aTop{})
		x := aval(aTop{})
		if b := tt.At(1).Type(); b != types.Typ[types.Invalid] {
			k = m.unknownVal(st, b, m.fresh("key"))
		}
		if b := tt.At(2).Type(); b != types.Typ[types.Invalid] {
			x = m.unknownVal(st, b, m.fresh("elem"))
		}
		return aTuple{aBool{id: m.fresh("more")}, k, x}
	}
	m.giveUp(fmt.Sprintf("%T in %s", v, fnName(fr.f)))
	if tp, ok := v.Type().(*types.Tuple); ok {
		var out aTuple
		for i := 0; i < tp.Len(); i++ {
			out = append(out, m.unknownVal(st, tp.At(i).Type(), m.fresh("x")))
		}
		return out
	}
	return m.unknownVal(st, v.Type(), m.fresh("x"))
}

// concatStr: adjacent literals are one literal, whatever the association.
func concatStr(a, b aStr) aStr {
	if a.known && b.known {
		return aStr{s: a.s + b.s, known: true}
	}
	if a.known && a.s == "" {
		return b
	}
	if b.known && b.s == "" {
		return a
	}
	x, y := strKey(a), strKey(b)
	if strings.HasSuffix(x, "\"") && strings.HasPrefix(y, "\"") {
		return aStr{id: x[:len(x)-1] + y[1:]}
	}
	return aStr{id: x + "+" + y}
}

func strKey(s aStr) string {
	if s.known {
		return strconv.Quote(s.s)
	}
	return s.id
}

// objOf: the object a pointer to an aggregate means.
func (m *amachine) objOf(st *astate, p aPtr, t types.Type) int {
	if p.cell == "" {
		return p.obj
	}
	return m.sub(st, p.obj, p.cell, p.off, t)
}

func (m *amachine) fromAgg(st *astate, o *aobj, key string, off alin, t types.Type) aval {
	if s, ok := o.subs[key]; ok {
		return aAgg{s}
	}
	if c, ok := o.cells[key]; ok && c.v != nil {
		return c.v
	}
	if _, isS := o.typ.Underlying().(*types.Struct); !isS && m.mayAlias(st, o, key, off) {
		return m.unknownVal(st, t, m.fresh("alias"))
	}
	if o.unknown == "" {
		return m.zero(st, t)
	}
	return m.unknownVal(st, t, o.unknown+"."+strings.ReplaceAll(cellName(o, key), " ", ""))
}

func (m *amachine) slice(fr *aframe, t *ssa.Slice) aval {
	st := fr.st
	lo, hi := aconst(0), alin{}
	if t.Low != nil {
		if l, ok := m.intOf(m.val(fr, t.Low)); ok {
			lo = l
		} else {
			return m.unknownVal(st, t.Type(), m.fresh("slice"))
		}
	}
	hasHi := t.High != nil
	if hasHi {
		if l, ok := m.intOf(m.val(fr, t.High)); ok {
			hi = l
		} else {
			return m.unknownVal(st, t.Type(), m.fresh("slice"))
		}
	}
	bad := func(hi, lim alin) {
		if m.ivOf(st, lo).hi < 0 || m.ivOf(st, hi.add(lo, -1)).hi < 0 || m.ivOf(st, hi.add(lim, -1)).lo > 0 {
			m.crash = true
		}
	}
	switch x := m.val(fr, t.X).(type) {
	case aPtr:
		at := derefType(t.X.Type())
		id := m.objOf(st, x, at)
		n := st.heap[id].n
		if !hasHi {
			hi = n
		}
		bad(hi, n)
		return aSlice{obj: id, off: lo, n: hi.add(lo, -1), cap: n.add(lo, -1), elem: elemType(at)}
	case aSlice:
		if !hasHi {
			hi = x.n
		}
		bad(hi, x.cap)
		return aSlice{obj: x.obj, off: x.off.add(lo, 1), n: hi.add(lo, -1), cap: x.cap.add(lo, -1), elem: x.elem}
	case aStr:
		if x.known && lo.isConst() && (!hasHi || hi.isConst()) {
			h := int64(len(x.s))
			if hasHi {
				h = hi.c
			}
			if lo.c >= 0 && lo.c <= h && h <= int64(len(x.s)) {
				return aStr{s: x.s[lo.c:h], known: true}
			}
		}
		return aStr{id: m.fresh("substr")}
	}
	return m.unknownVal(st, t.Type(), m.fresh("slice"))
}

// ---- maps ----

func (m *amachine) mapKey(st *astate, k aval) string {
	switch v := k.(type) {
	case aInt:
		return v.l.String()
	case aAgg:
		return m.aggKey(st, v.o)
	case aStr:
		return strKey(v)
	case aPtr:
		if v.cell == "" && !v.idx {
			return fmt.Sprint("@", v.obj)
		}
	}
	return ""
}

func (m *amachine) mapSet(st *astate, mp, k, v aval) {
	p, ok := mp.(aPtr)
	if !ok {
		return
	}
	key := m.mapKey(st, k)
	o := m.mut2(st, p.obj)
	if key == "" {
		o.cells = map[string]acell{}
		o.unknown = m.fresh("map")
		return
	}
	for q := range o.cells {
		if q != key {
			// may be the same key
			if strings.HasPrefix(q, "#") && q[1:] == key {
				continue
			}
			if m.distinct(st, q, key) {
				continue
			}
			delete(o.cells, q)
			if o.unknown == "" {
				o.unknown = m.fresh("map")
			}
		}
	}
	if ag, ok := v.(aAgg); ok {
		m.nobj++
		m.restore(st, m.nobj, ag.o)
		v = aSub{m.nobj}
	}
	o.cells[key] = acell{alin{}, v}
	o.cells["#"+key] = acell{alin{}, aBool{known: true, val: true}}
	keys := make(map[string]aval, len(o.keys)+1)
	for a, b := range o.keys {
		keys[a] = b
	}
	keys[key] = k
	o.keys = keys
}

func isNumber(s string) bool {
	_, err := strconv.ParseInt(strings.TrimPrefix(s, "#"), 10, 64)
	return err == nil
}

func (m *amachine) lookup(fr *aframe, t *ssa.Lookup) []aout {
	st := fr.st
	et := elemType(t.X.Type())
	mk := func(st *astate, v aval, ok bool) aout {
		if t.CommaOk {
			return aout{st: st, rets: []aval{v, aBool{known: true, val: ok}}}
		}
		return aout{st: st, rets: []aval{v}}
	}
	if _, isNil := m.val(fr, t.X).(aNil); isNil && et != nil {
		return []aout{mk(st, m.zero(st, et), false)}
	}
	if _, str := m.val(fr, t.X).(aStr); !str {
		m.touched(st, "r", m.val(fr, t.X), t)
	}
	p, ok := m.val(fr, t.X).(aPtr)
	key := m.mapKey(st, m.val(fr, t.Index))
	if !ok || key == "" || et == nil {
		if et == nil {
			et = types.Typ[types.Byte]
		}
		a := st.clone()
		return []aout{mk(a, m.unknownVal(a, et, m.fresh("lookup")), true), mk(st, m.zero(st, et), false)}
	}
	o := st.heap[p.obj]
	if c, ok := o.cells[key]; ok {
		if s, ok := c.v.(aSub); ok {
			return []aout{mk(st, aAgg{m.snapshot(st, s.obj)}, true)}
		}
		return []aout{mk(st, c.v, true)}
	}
	if c, ok := o.cells["#"+key]; ok {
		if b, ok := c.v.(aBool); ok && !b.val {
			return []aout{mk(st, m.zero(st, et), false)}
		}
	}
	if o.unknown == "" {
		if len(o.cells) == 0 {
			return []aout{mk(st, m.zero(st, et), false)}
		}
		all := true
		for q := range o.cells {
			if !m.distinct(st, q, key) {
				all = false
			}
		}
		if all {
			return []aout{mk(st, m.zero(st, et), false)}
		}
	}
	a := st.clone()
	v := m.unknownVal(a, et, m.fresh("map["+strings.ReplaceAll(key, " ", "")+"]"))
	oa := m.mut2(a, p.obj)
	if ag, ok := v.(aAgg); ok {
		m.nobj++
		m.restore(a, m.nobj, ag.o)
		oa.cells[key] = acell{alin{}, aSub{m.nobj}}
	} else {
		oa.cells[key] = acell{alin{}, v}
	}
	oa.cells["#"+key] = acell{alin{}, aBool{known: true, val: true}}
	m.mut2(st, p.obj).cells["#"+key] = acell{alin{}, aBool{known: true, val: false}}
	return []aout{mk(a, v, true), mk(st, m.zero(st, et), false)}
}

// ---- calls ----

func (m *amachine) callInstr(fr *aframe, t *ssa.Call) []aout {
	cc := t.Call
	var args []aval
	for _, a := range cc.Args {
		args = append(args, m.val(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return m.builtin(fr, b.Name(), args, t)
	}
	if cc.IsInvoke() {
		return m.invoke(fr.st, t, m.val(fr, cc.Value), cc.Method, args)
	}
	g := cc.StaticCallee()
	var bind []aval
	if g == nil || len(g.FreeVars) > 0 {
		if fn, ok := m.val(fr, cc.Value).(aFn); ok {
			g, bind = fn.fn, fn.bind
		} else {
			g = nil
		}
	}
	if g == nil {
		return m.opaqueCall(fr.st, t, "dynamic", args)
	}
	return m.callFn(fr.st, t, g, args, bind)
}

// adefer: a call deferred, its arguments fixed.
type adefer struct {
	site *ssa.Defer
	fn   aval
	args []aval
}

func (m *amachine) deferred(st *astate, d adefer) []aout {
	cc := d.site.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "close" && m.channels && !m.closeChan(st, d.args[0]) {
			return []aout{{st: st, panic: true}}
		}
		return one(st)
	}
	if cc.IsInvoke() {
		return m.invoke(st, d.site, d.fn, cc.Method, d.args)
	}
	if fn, ok := d.fn.(aFn); ok {
		return m.callFn(st, d.site, fn.fn, d.args, fn.bind)
	}
	if g := cc.StaticCallee(); g != nil && len(g.FreeVars) == 0 {
		return m.callFn(st, d.site, g, d.args, nil)
	}
	return m.opaqueCall(st, d.site, "dynamic", d.args)
}

func (m *amachine) callFn(st *astate, site ssa.CallInstruction, g *ssa.Function, args, bind []aval) []aout {
	name := g.String()
	if m.model != nil {
		if outs, ok := m.model(m, st, site, name, nil, args); ok {
			return m.happens(outs)
		}
	}
	if g.Blocks != nil && (inModule(g) || g.Synthetic != "" && g.Pkg == nil) && (m.enter == nil || m.enter(g)) {
		return m.run(g, args, bind, st)
	}
	return m.library(st, site, name, args)
}

func (m *amachine) invoke(st *astate, site ssa.CallInstruction, recv aval, meth *types.Func, args []aval) []aout {
	if m.model != nil {
		if outs, ok := m.model(m, st, site, meth.Name(), recv, args); ok {
			return m.happens(outs)
		}
	}
	switch r := recv.(type) {
	case aIface:
		if g := m.P.SSA.LookupMethod(r.t, meth.Pkg(), meth.Name()); g != nil {
			return m.callFn(st, site, g, append([]aval{r.v}, args...), nil)
		}
	case aOpaque:
		if outs, ok := m.fileOp(st, site, r, meth.Name(), args); ok {
			return m.happens(outs)
		}
	}
	return m.opaqueCall(st, site, meth.Name(), append([]aval{recv}, args...))
}

func one(st *astate, vs ...aval) []aout { return []aout{{st: st, rets: vs}} }

var stringType = types.Typ[types.String]
var byteType = types.Typ[types.Uint8]
var intType = types.Typ[types.Int]

func (m *amachine) library(st *astate, site ssa.CallInstruction, name string, args []aval) []aout {
	switch {
	case strings.HasPrefix(name, "(encoding/binary.littleEndian)."), strings.HasPrefix(name, "(encoding/binary.bigEndian)."):
		big := strings.Contains(name, "bigEndian")
		op := name[strings.LastIndex(name, ".")+1:]
		w := map[string]int{"PutUint16": 2, "PutUint32": 4, "PutUint64": 8, "Uint16": 2, "Uint32": 4, "Uint64": 8, "AppendUint16": 2, "AppendUint32": 4, "AppendUint64": 8}[op]
		if w > 0 && len(args) >= 2 {
			s, ok := args[1].(aSlice)
			if _, isNil := args[1].(aNil); isNil {
				s, ok = aSlice{obj: -1}, true
			}
			if !ok {
				break
			}
			if !strings.HasPrefix(op, "Append") && m.ivOf(st, s.n).hi < int64(w) {
				return []aout{{st: st, panic: true}}
			}
			if strings.HasPrefix(op, "Append") {
				v, ok := m.intOf(args[2])
				if !ok {
					break
				}
				bs := m.bytesOf(st, v)
				var vals []aval
				for i := range w {
					if big {
						i = w - 1 - i
					}
					vals = append(vals, aInt{m.fromBytes(st, [8]ab{bs[i]}), byteType})
				}
				s.elem = byteType
				return one(st, m.appendVals(st, s, vals, types.NewSlice(byteType)))
			}
			if strings.HasPrefix(op, "Put") {
				v, ok := m.intOf(args[2])
				if !ok {
					break
				}
				bs := m.bytesOf(st, v)
				for i := 0; i < w; i++ {
					j := i
					if big {
						j = w - 1 - i
					}
					m.putByte(st, s, aconst(int64(j)), bs[i])
				}
				return one(st)
			}
			var bs [8]ab
			for i := 0; i < w; i++ {
				j := i
				if big {
					j = w - 1 - i
				}
				bs[i] = m.getByte(st, s, aconst(int64(j)))
			}
			return one(st, aInt{m.fromBytes(st, bs), basicOf(site.Common().Signature().Results().At(0).Type())})
		}
	case name == "errors.New", name == "fmt.Errorf":
		return one(st, aErr{id: "!"})
	case strings.HasPrefix(name, "log."), strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "(*sync."), strings.HasPrefix(name, "time."), strings.HasPrefix(name, "runtime."):
		if strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") {
			return []aout{{st: st, panic: true}}
		}
		return m.havocResults(st, site, name)
	case name == "path/filepath.Join" && len(args) == 1:
		if s, ok := args[0].(aSlice); ok && s.obj >= 0 && s.n.isConst() {
			out := aStr{known: true}
			good := true
			vs, _ := m.sliceVals(st, s)
			for i, v := range vs {
				e, ok := v.(aStr)
				good = good && ok
				if i > 0 {
					out = concatStr(out, aStr{known: true, s: "/"})
				}
				out = concatStr(out, e)
			}
			if good {
				return one(st, out)
			}
		}
		return one(st, aStr{id: name + "(" + m.argKey(st, args) + ")"})
	case (name == "strconv.Itoa" || name == "strconv.FormatInt" || name == "strconv.Atoi" || name == "path/filepath.Dir" || name == "path/filepath.Base" || name == "path/filepath.Clean" || strings.HasPrefix(name, "strings.") && len(args) > 1) && constString(name, args) != nil:
		return one(st, constString(name, args)...)
	case name == "fmt.Sprintf", name == "strconv.Itoa", name == "strconv.FormatInt", name == "strings.Join", name == "fmt.Sprint":
		return one(st, aStr{id: name + "(" + m.argKey(st, args) + ")"})
	case name == "bufio.NewWriter", name == "bufio.NewReader", name == "bufio.NewWriterSize", name == "bufio.NewReaderSize":
		return one(st, args[0])
	case strings.HasPrefix(name, "(*os.File)."), strings.HasPrefix(name, "(*bufio.Writer)."), strings.HasPrefix(name, "(*bufio.Reader)."):
		op := name[strings.LastIndex(name, ".")+1:]
		if r, ok := unwrapOpaque(args[0]); ok {
			if outs, ok := m.fileOp(st, site, r, op, args[1:]); ok {
				return m.happens(outs)
			}
		}
	case name == "io.ReadFull":
		if r, ok := unwrapOpaque(args[0]); ok {
			if outs, ok := m.fileOp(st, site, r, "ReadFull", args[1:]); ok {
				return m.happens(outs)
			}
		}
	case name == "io.NewSectionReader":
		r, ok1 := unwrapOpaque(args[0])
		off, ok2 := m.intOf(args[1])
		if ok1 && ok2 {
			id := m.fresh("section")
			st.files[id] = m.fileObj(st, r.id)
			m.writeCell(st, m.fileObj(st, id+"#pos"), "v", alin{}, false, aInt{off, types.Typ[types.Int64]})
			return one(st, aOpaque{id, site.Common().Signature().Results().At(0).Type()})
		}
	case name == "bytes.Equal":
		x, ok1 := args[0].(aSlice)
		y, ok2 := args[1].(aSlice)
		if ok1 && ok2 {
			return one(st, m.bytesEqualSlices(st, x, y))
		}
	case strings.HasPrefix(name, "math.") && name != "math.Pow10" && len(args) == 1:
		fn := map[string]func(float64) float64{"Round": math.Round, "Floor": math.Floor, "Ceil": math.Ceil, "Abs": math.Abs, "Sqrt": math.Sqrt, "Log2": math.Log2, "Log": math.Log, "Exp": math.Exp, "Trunc": math.Trunc}[name[len("math."):]]
		if f, ok := floatOf(args[0]); ok && fn != nil {
			return one(st, mkFloat(fn(f), types.Typ[types.Float64]))
		}
		if f, ok := args[0].(aOpaque); ok && strings.HasPrefix(f.id, "f:") {
			return one(st, aOpaque{"f:" + name[len("math."):] + "(" + f.id + ")", types.Typ[types.Float64]})
		}
	case name == "math.Pow" && len(args) == 2:
		a, ok1 := floatOf(args[0])
		b, ok2 := floatOf(args[1])
		if ok1 && ok2 {
			return one(st, mkFloat(math.Pow(a, b), types.Typ[types.Float64]))
		}
	case name == "math.Pow10" && len(args) == 1:
		if v, ok := m.intOf(args[0]); ok && v.isConst() {
			return one(st, mkFloat(math.Pow10(int(v.c)), types.Typ[types.Float64]))
		}
	case name == "math/bits.OnesCount64":
		if v, ok := m.intOf(args[0]); ok && v.isConst() {
			return one(st, aInt{aconst(int64(bits.OnesCount64(uint64(v.c)))), intType})
		}
	case strings.HasPrefix(name, "slices."):
		if outs, ok := m.slicesOp(st, name[len("slices."):], args); ok {
			return outs
		}
	case name == "sort.SliceStable", name == "sort.Slice":
		if outs, ok := m.sortSlice(st, args, name == "sort.Slice"); ok {
			return outs
		}
	case name == "sort.Sort", name == "sort.Stable":
		if outs, ok := m.sortSort(st, args, name == "sort.Sort"); ok {
			return outs
		}
	case strings.HasPrefix(name, "sync/atomic.") && len(args) > 0:
		if outs, ok := m.atomicOp(st, site, strings.TrimPrefix(name, "sync/atomic."), args); ok {
			return outs
		}
	case name == "math/bits.LeadingZeros64":
		if v, ok := m.intOf(args[0]); ok {
			bs := m.bytesOf(st, v)
			for i := 7; i >= 0; i-- {
				if bs[i] == (ab{}) {
					continue
				}
				if bs[i].sym == "" && !bs[i].top {
					return one(st, aInt{aconst(int64(8*(7-i) + bits.LeadingZeros8(bs[i].c))), intType})
				}
				if !m.nonZero(st, bs[i]) {
					break
				}
				n := m.fresh("leading")
				m.ivs[n] = ival{int64(8 * (7 - i)), int64(8*(7-i) + 7)}
				return one(st, aInt{asymbol(n), intType})
			}
			if v.isConst() {
				return one(st, aInt{aconst(64), intType})
			}
			n := m.fresh("leading")
			m.ivs[n] = ival{0, 64}
			return one(st, aInt{asymbol(n), intType})
		}
	}
	return m.opaqueCall(st, site, name, args)
}

var memoryAsked time.Time

// memoryShort: the paths explored hold more than a check may use.
func memoryShort() bool {
	if time.Since(memoryAsked) < time.Second {
		return false
	}
	memoryAsked = time.Now()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc > 10<<30
}

// appendVals: always into fresh memory; the first array is copied.
func (m *amachine) appendVals(st *astate, s aSlice, vals []aval, t types.Type) aval {
	id := m.alloc(st, t, "")
	if s.obj >= 0 {
		m.restore(st, id, m.snapshot(st, s.obj))
		st.heap[id].typ = t
	}
	for i, v := range vals {
		o := s.off.add(s.n, 1).add(aconst(int64(i)), 1)
		m.writeCell(st, id, o.String(), o, true, v)
	}
	n := s.n.add(aconst(int64(len(vals))), 1)
	return aSlice{obj: id, off: s.off, n: n, cap: n, elem: s.elem}
}

// mkFloat: whole numbers are kept as such.
func mkFloat(f float64, t *types.Basic) aval {
	if t.Kind() == types.Float32 {
		f = float64(float32(f))
	}
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 && !(f == 0 && math.Signbit(f)) {
		return aInt{aconst(int64(f)), t}
	}
	return aFloat{f, t}
}

// floatTerm: numbers that are not known, by how they are worked out.
func floatTerm(op token.Token, x, y aval) (string, bool) {
	key := func(v aval) string {
		if o, ok := v.(aOpaque); ok && strings.HasPrefix(o.id, "f:") {
			return o.id
		}
		if f, ok := floatOf(v); ok {
			return strconv.FormatFloat(f, 'f', -1, 64)
		}
		return ""
	}
	a, b := key(x), key(y)
	if a == "" || b == "" {
		return "", false
	}
	switch op {
	case token.MUL:
		return mulFloats(a, b), true
	case token.ADD:
		return addFloats(a, b), true
	}
	return "f:(" + a + op.String() + b + ")", true
}

// floatOf a known number.
func floatOf(v aval) (float64, bool) {
	switch x := v.(type) {
	case aFloat:
		return x.f, true
	case aInt:
		if x.l.isConst() && !(unsignedKind(x.t) && x.l.c < 0) {
			return float64(x.l.c), true
		}
	}
	return 0, false
}

func floatOp(op token.Token, x, y aval) (float64, bool) {
	a, ok1 := floatOf(x)
	b, ok2 := floatOf(y)
	if !ok1 || !ok2 {
		return 0, false
	}
	switch op {
	case token.ADD:
		return a + b, true
	case token.SUB:
		return a - b, true
	case token.MUL:
		return a * b, true
	case token.QUO:
		return a / b, true
	}
	return 0, false
}

// sortSlice, when every comparison is decided.
func (m *amachine) sortSlice(st *astate, args []aval, anyOrder bool) ([]aout, bool) {
	s, ok1 := unwrapped(args[0]).(aSlice)
	less, ok2 := args[1].(aFn)
	if !ok1 || !ok2 || !s.n.isConst() || s.obj >= 0 && s.elem == nil {
		return nil, false
	}
	get, put := m.elements(s)
	return m.insertionSort(st, s.n.c, anyOrder, func(st *astate, i, j int64) []aout {
		return m.run(less.fn, []aval{numArg(i), numArg(j)}, less.bind, st)
	}, func(st *astate, i, j int64) []aout {
		x, y := get(st, i), get(st, j)
		put(st, i, y)
		put(st, j, x)
		return one(st)
	})
}

// elements of a slice, to read and to write.
func (m *amachine) elements(s aSlice) (func(*astate, int64) aval, func(*astate, int64, aval)) {
	return func(st *astate, i int64) aval {
			off := s.off.add(aconst(i), 1)
			if aggregate(s.elem) {
				return aAgg{m.snapshot(st, m.sub(st, s.obj, off.String(), off, s.elem))}
			}
			return m.readCell(st, s.obj, off.String(), off, true, s.elem)
		}, func(st *astate, i int64, v aval) {
			off := s.off.add(aconst(i), 1)
			if a, ok := v.(aAgg); ok {
				m.restore(st, m.sub(st, s.obj, off.String(), off, s.elem), a.o)
				return
			}
			m.writeCell(st, s.obj, off.String(), off, true, v)
		}
}

// slicesOp: searches and sorts of slices of known length.
func (m *amachine) slicesOp(st *astate, op string, args []aval) ([]aout, bool) {
	op, _, _ = strings.Cut(op, "[")
	s, ok := unwrapped(args[0]).(aSlice)
	if !ok || !s.n.isConst() || s.n.c > 1<<16 || s.obj >= 0 && s.elem == nil {
		return nil, false
	}
	get, put := m.elements(s)
	var fn aFn
	if strings.HasSuffix(op, "Func") {
		if fn, ok = args[1].(aFn); !ok {
			return nil, false
		}
	}
	switch op {
	case "Contains", "Index", "ContainsFunc", "IndexFunc":
		result := func(st *astate, i int64) aout {
			if strings.HasPrefix(op, "Contains") {
				return aout{st: st, rets: []aval{aBool{known: true, val: i >= 0}}}
			}
			return aout{st: st, rets: []aval{aInt{aconst(i), intType}}}
		}
		var outs []aout
		live := []*astate{st}
		for i := int64(0); i < s.n.c && len(live) > 0; i++ {
			var next []*astate
			for _, w := range live {
				var rs []aout
				if fn.fn != nil {
					rs = m.run(fn.fn, []aval{get(w, i)}, fn.bind, w)
				} else {
					rs = one(w, m.compare(w, token.EQL, get(w, i), args[1]))
				}
				for _, r := range rs {
					if r.panic {
						outs = append(outs, r)
						continue
					}
					b, ok := r.rets[0].(aBool)
					if !ok {
						b = aBool{id: m.fresh("cond")}
					}
					if b.known && b.val {
						outs = append(outs, result(r.st, i))
					} else if b.known {
						next = append(next, r.st)
					} else {
						m.forks++
						yes := r.st.clone()
						if m.assume(yes, b, true) {
							outs = append(outs, result(yes, i))
						}
						if m.assume(r.st, b, false) {
							next = append(next, r.st)
						}
					}
				}
			}
			live = next
			if m.over || len(live)+len(outs) > 4000 {
				m.giveUp("too many states in slices." + op)
				return outs, true
			}
		}
		for _, w := range live {
			outs = append(outs, result(w, -1))
		}
		return outs, true
	case "SortFunc", "SortStableFunc", "Sort":
		return m.insertionSort(st, s.n.c, op == "SortFunc", func(st *astate, i, j int64) []aout {
			if op == "Sort" {
				return one(st, m.compare(st, token.LSS, get(st, i), get(st, j)))
			}
			outs := m.run(fn.fn, []aval{get(st, i), get(st, j)}, fn.bind, st)
			for k := range outs {
				if !outs[k].panic {
					outs[k].rets = []aval{m.compare(outs[k].st, token.LSS, outs[k].rets[0], numArg(0))}
				}
			}
			return outs
		}, func(st *astate, i, j int64) []aout {
			x, y := get(st, i), get(st, j)
			put(st, i, y)
			put(st, j, x)
			return one(st)
		})
	case "Reverse":
		for i := int64(0); i < s.n.c/2; i++ {
			x, y := get(st, i), get(st, s.n.c-1-i)
			put(st, i, y)
			put(st, s.n.c-1-i, x)
		}
		return one(st), true
	}
	return nil, false
}

// sortSort: sort.Sort of a collection with methods.
func (m *amachine) sortSort(st *astate, args []aval, anyOrder bool) ([]aout, bool) {
	i, ok := args[0].(aIface)
	if !ok {
		return nil, false
	}
	call := func(name string) func(st *astate, at ...int64) []aout {
		f := m.P.methodOfType(i.t, name)
		return func(st *astate, at ...int64) []aout {
			if f == nil {
				return nil
			}
			vs := []aval{i.v}
			for _, a := range at {
				vs = append(vs, numArg(a))
			}
			return m.run(f, vs, nil, st)
		}
	}
	less, swap := call("Less"), call("Swap")
	outs := call("Len")(st.clone())
	if len(outs) != 1 || outs[0].panic {
		return nil, false
	}
	n, ok := m.intOf(outs[0].rets[0])
	if !ok || !n.isConst() {
		return nil, false
	}
	return m.insertionSort(outs[0].st, n.c, anyOrder, func(st *astate, i, j int64) []aout { return less(st, i, j) }, func(st *astate, i, j int64) []aout { return swap(st, i, j) })
}

// insertionSort by comparisons that are decided; equal elements may change places when the sort leaves them in any order.
func (m *amachine) insertionSort(st *astate, n int64, anyOrder bool, less, swap func(st *astate, i, j int64) []aout) ([]aout, bool) {
	st = st.clone()
	before := func(i, j int64) (bool, bool) {
		outs := less(st, i, j)
		if len(outs) != 1 || outs[0].panic {
			return false, false
		}
		b, ok := outs[0].rets[0].(aBool)
		st = outs[0].st
		return b.val, ok && b.known
	}
	for i := int64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			b, ok := before(j, j-1)
			if !ok {
				return nil, false
			}
			if !b && anyOrder && m.tiesSwapped {
				c, ok := before(j-1, j)
				if !ok {
					return nil, false
				}
				b = !c
			}
			if !b {
				break
			}
			outs := swap(st, j, j-1)
			if len(outs) != 1 || outs[0].panic {
				return nil, false
			}
			st = outs[0].st
		}
	}
	return one(st), true
}

// atomicOp: loads, stores and additions.
func (m *amachine) atomicOp(st *astate, site ssa.CallInstruction, op string, args []aval) ([]aout, bool) {
	p, ok := args[0].(aPtr)
	if !ok {
		return nil, false
	}
	t := derefType(site.Common().Args[0].Type())
	switch {
	case strings.HasPrefix(op, "Load"):
		return one(st, m.load(st, p, t)), true
	case strings.HasPrefix(op, "Store") && len(args) == 2:
		m.store(st, p, args[1])
		return one(st), true
	case strings.HasPrefix(op, "Add") && len(args) == 2:
		x, ok1 := m.intOf(m.load(st, p, t))
		y, ok2 := m.intOf(args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		v := aInt{x.add(y, 1), basicOf(t)}
		m.store(st, p, v)
		return one(st, v), true
	}
	return nil, false
}

func unwrapOpaque(v aval) (aOpaque, bool) {
	if i, ok := v.(aIface); ok {
		v = i.v
	}
	o, ok := v.(aOpaque)
	return o, ok
}

func (m *amachine) bytesEqualSlices(st *astate, x, y aSlice) aval {
	if x.n.isConst() && y.n.isConst() {
		if x.n.c != y.n.c {
			return aBool{known: true}
		}
		same := true
		var ks []string
		for i := int64(0); i < x.n.c; i++ {
			p, q := m.getByte(st, x, aconst(i)), m.getByte(st, y, aconst(i))
			if p != q || p.top {
				same = false
			}
			if p.sym == "" && q.sym == "" && !p.top && !q.top && p.c != q.c {
				return aBool{known: true}
			}
			ks = append(ks, p.String()+"="+q.String())
		}
		if same {
			return aBool{known: true, val: true}
		}
		return aBool{id: "bytes(" + strings.Join(ks, ",") + ")"}
	}
	return aBool{id: m.fresh("equal")}
}

func (m *amachine) argKey(st *astate, args []aval) string {
	var ps []string
	var one func(a aval) string
	one = func(a aval) string {
		switch v := a.(type) {
		case aInt:
			return v.l.String()
		case aStr:
			return strKey(v)
		case aIface:
			return one(v.v)
		case aAgg:
			return m.aggKey(st, v.o)
		case aSlice:
			if v.obj >= 0 && v.n.isConst() && v.n.c < 32 {
				var qs []string
				for i := int64(0); i < v.n.c; i++ {
					o := v.off.add(aconst(i), 1)
					if c, ok := st.heap[v.obj].cells[o.String()]; ok {
						qs = append(qs, one(c.v))
					} else {
						qs = append(qs, "_")
					}
				}
				return strings.Join(qs, ",")
			}
		case aOpaque:
			return v.id
		}
		return m.fresh("arg")
	}
	for _, a := range args {
		ps = append(ps, one(a))
	}
	return strings.Join(ps, ",")
}

func (m *amachine) getByte(st *astate, s aSlice, i alin) ab {
	o := s.off.add(i, 1)
	v := m.readCell(st, s.obj, o.String(), o, true, s.elem)
	if l, ok := m.intOf(v); ok {
		return m.bytesOf(st, l)[0]
	}
	return ab{top: true}
}

func (m *amachine) putByte(st *astate, s aSlice, i alin, b ab) {
	o := s.off.add(i, 1)
	m.writeCell(st, s.obj, o.String(), o, true, aInt{m.fromBytes(st, [8]ab{b}), byteType})
}

func (m *amachine) havocResults(st *astate, site ssa.CallInstruction, name string) []aout {
	rs := site.Common().Signature().Results()
	var vs []aval
	nm := m.fresh(short(name))
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, m.unknownVal(st, rs.At(i).Type(), fmt.Sprintf("%s#%d", nm, i)))
	}
	return one(st, vs...)
}

// opaqueCall: unknown results; what was handed over by reference may have changed.
func (m *amachine) opaqueCall(st *astate, site ssa.CallInstruction, name string, args []aval) []aout {
	st.calls = append(st.calls[:len(st.calls):len(st.calls)], name)
	for _, a := range args {
		m.havoc(st, a)
	}
	return m.havocResults(st, site, name)
}

func (m *amachine) havoc(st *astate, a aval) {
	switch v := a.(type) {
	case aSlice:
		if v.obj >= 0 {
			o := m.mut2(st, v.obj)
			o.cells = map[string]acell{}
			o.unknown = m.fresh("havoc")
		}
	case aPtr:
		o := m.mut2(st, v.obj)
		o.cells = map[string]acell{}
		o.unknown = m.fresh("havoc")
	case aIface:
		m.havoc(st, v.v)
	}
}

// fileObj: the contents of a file.
func (m *amachine) fileObj(st *astate, id string) int {
	if o, ok := st.files[id]; ok {
		return o
	}
	o := m.alloc(st, types.NewSlice(byteType), id)
	st.files[id] = o
	return o
}

func (m *amachine) filePos(st *astate, id string) alin {
	o := m.fileObj(st, id+"#pos")
	v := m.readCell(st, o, "v", alin{}, false, types.Typ[types.Int64])
	return v.(aInt).l
}

// constString: functions of strings and numbers, for constants.
func constString(name string, args []aval) []aval {
	str := func(s string) []aval { return []aval{aStr{s: s, known: true}} }
	switch a := args[0].(type) {
	case aInt:
		base := 10
		if len(args) == 2 {
			b, ok := args[1].(aInt)
			if !ok || !b.l.isConst() || b.l.c < 2 || b.l.c > 36 {
				return nil
			}
			base = int(b.l.c)
		}
		if a.l.isConst() {
			return str(strconv.FormatInt(a.l.c, base))
		}
	case aStr:
		if !a.known {
			return nil
		}
		switch name {
		case "strings.Replace", "strings.ReplaceAll", "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimRight", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.Repeat":
			var in []string
			num := -1
			for _, x := range args[1:] {
				switch x := x.(type) {
				case aStr:
					if !x.known {
						return nil
					}
					in = append(in, x.s)
				case aInt:
					if !x.l.isConst() || x.l.c > 1000 {
						return nil
					}
					num = int(x.l.c)
				default:
					return nil
				}
			}
			switch name[len("strings."):] {
			case "Replace", "ReplaceAll":
				return str(strings.Replace(a.s, in[0], in[1], num))
			case "Repeat":
				return str(strings.Repeat(a.s, max(num, 0)))
			case "HasPrefix":
				return []aval{aBool{known: true, val: strings.HasPrefix(a.s, in[0])}}
			case "HasSuffix":
				return []aval{aBool{known: true, val: strings.HasSuffix(a.s, in[0])}}
			case "Contains":
				return []aval{aBool{known: true, val: strings.Contains(a.s, in[0])}}
			case "TrimLeft":
				return str(strings.TrimLeft(a.s, in[0]))
			case "TrimRight":
				return str(strings.TrimRight(a.s, in[0]))
			case "TrimPrefix":
				return str(strings.TrimPrefix(a.s, in[0]))
			}
			return str(strings.TrimSuffix(a.s, in[0]))
		case "path/filepath.Dir":
			return str(filepath.Dir(a.s))
		case "path/filepath.Base":
			return str(filepath.Base(a.s))
		case "path/filepath.Clean":
			return str(filepath.Clean(a.s))
		case "strconv.Atoi":
			if n, err := strconv.Atoi(a.s); err == nil {
				return []aval{aInt{aconst(int64(n)), intType}, aErr{}}
			}
			return []aval{aInt{aconst(0), intType}, aErr{id: "!@syntax"}}
		}
	}
	return nil
}

const noFailure = "ioerr:none"

func (m *amachine) failure() string {
	if m.reliable {
		return noFailure
	}
	return m.fresh("ioerr")
}

// happens: without the failures of files, where these are assumed not to happen.
func (m *amachine) happens(outs []aout) []aout {
	if !m.reliable {
		return outs
	}
	var out []aout
	for _, o := range outs {
		if n := len(o.rets); n > 0 {
			if e, ok := o.rets[n-1].(aErr); ok && e.id == "!"+noFailure {
				continue
			}
		}
		out = append(out, o)
	}
	return out
}

func (m *amachine) fileOp(st *astate, site ssa.CallInstruction, r aOpaque, op string, args []aval) ([]aout, bool) {
	rs := site.Common().Signature().Results()
	if m.closed {
		if outs, done := m.closedOp(st, site, r, op); done {
			return outs, true
		}
	}
	fail := func(nres int) aout {
		c := st
		id := noFailure
		if !m.reliable {
			c = st.clone()
			id = m.fresh("ioerr")
		}
		var vs []aval
		if !m.reliable {
			c.errs[id] = false
			for i := 0; i < rs.Len()-1; i++ {
				vs = append(vs, m.unknownVal(c, rs.At(i).Type(), m.fresh("n")))
			}
		}
		return aout{st: c, rets: append(vs, aErr{id: "!" + id})}
	}
	move := func(buf aSlice, off alin, write bool) bool {
		if !buf.n.isConst() || buf.n.c > 1<<16 {
			return false
		}
		f := m.fileObj(st, r.id)
		fs := aSlice{obj: f, off: off, n: buf.n, elem: byteType}
		if write {
			var bs []aval
			for i := int64(0); i < buf.n.c; i++ {
				b := m.getByte(st, buf, aconst(i))
				m.putByte(st, fs, aconst(i), b)
				bs = append(bs, aInt{m.fromBytes(st, [8]ab{b}), byteType})
			}
			st.writes = append(st.writes[:len(st.writes):len(st.writes)], awrite{r.id, off, buf.n, bs, site})
			if m.closed {
				m.grow(st, r.id, off.add(buf.n, 1))
			}
			return true
		}
		for i := int64(0); i < buf.n.c; i++ {
			m.putByte(st, buf, aconst(i), m.getByte(st, fs, aconst(i)))
		}
		return true
	}
	switch op {
	case "ReadAt", "WriteAt":
		buf, ok := args[0].(aSlice)
		off, ok2 := m.intOf(args[1])
		if !ok || !ok2 {
			return nil, false
		}
		bad := fail(2)
		if op == "ReadAt" && !m.reliable {
			m.havoc(bad.st, buf)
		}
		if !move(buf, off, op == "WriteAt") {
			m.giveUp("file transfer of unknown length")
			if op == "ReadAt" {
				m.havoc(st, buf)
			}
		}
		return []aout{bad, {st: st, rets: []aval{aInt{buf.n, intType}, aErr{}}}}, true
	case "Write", "Read", "ReadFull":
		buf, ok := args[0].(aSlice)
		if !ok {
			return nil, false
		}
		bad := fail(2)
		pos := m.filePos(st, r.id)
		end := aErr{}
		if left := st.heap[m.fileObj(st, r.id)].n.add(pos, -1); m.closed && op != "Write" && left.isConst() && buf.n.isConst() && left.c < buf.n.c && buf.n.c > 0 {
			// the file ends
			switch {
			case left.c <= 0:
				return []aout{bad, {st: st, rets: []aval{aInt{aconst(0), intType}, aErr{id: "!@io.EOF"}}}}, true
			case op == "ReadFull":
				end = aErr{id: "!@io.ErrUnexpectedEOF"}
			}
			buf.n = left
		}
		if m.closed && op == "Write" && st.bools["append:"+r.id] {
			pos = st.heap[m.fileObj(st, r.id)].n
		}
		if !move(buf, pos, op == "Write") {
			m.giveUp("file transfer of unknown length")
			if op != "Write" {
				m.havoc(st, buf)
			}
		}
		m.writeCell(st, m.fileObj(st, r.id+"#pos"), "v", alin{}, false, aInt{pos.add(buf.n, 1), types.Typ[types.Int64]})
		return []aout{bad, {st: st, rets: []aval{aInt{buf.n, intType}, end}}}, true
	case "WriteByte":
		v, ok := m.intOf(args[0])
		if !ok {
			return nil, false
		}
		bad := fail(1)
		pos := m.filePos(st, r.id)
		f := m.fileObj(st, r.id)
		m.putByte(st, aSlice{obj: f, off: pos, elem: byteType}, aconst(0), m.bytesOf(st, v)[0])
		st.writes = append(st.writes[:len(st.writes):len(st.writes)], awrite{r.id, pos, aconst(1), []aval{args[0]}, site})
		m.writeCell(st, m.fileObj(st, r.id+"#pos"), "v", alin{}, false, aInt{pos.add(aconst(1), 1), types.Typ[types.Int64]})
		return []aout{bad, {st: st, rets: []aval{aErr{}}}}, true
	case "Seek":
		if w, ok := m.intOf(args[1]); ok && w == aconst(2) && m.closed {
			off, _ := m.intOf(args[0])
			off = off.add(st.heap[m.fileObj(st, r.id)].n, 1)
			bad := fail(2)
			m.writeCell(st, m.fileObj(st, r.id+"#pos"), "v", alin{}, false, aInt{off, types.Typ[types.Int64]})
			return []aout{bad, {st: st, rets: []aval{aInt{off, types.Typ[types.Int64]}, aErr{}}}}, true
		}
		if w, ok := m.intOf(args[1]); ok && w == aconst(0) {
			off, _ := m.intOf(args[0])
			bad := fail(2)
			m.writeCell(st, m.fileObj(st, r.id+"#pos"), "v", alin{}, false, aInt{off, types.Typ[types.Int64]})
			return []aout{bad, {st: st, rets: []aval{aInt{off, types.Typ[types.Int64]}, aErr{}}}}, true
		}
	case "Close", "Sync", "Flush":
		if m.closed && op == "Close" {
			delete(st.bools, "open:"+r.id)
			m.note(st, "close", pathOfFD(r.id), site)
		}
		bad := fail(1)
		return []aout{bad, {st: st, rets: []aval{aErr{}}}}, true
	}
	return nil, false
}

func (m *amachine) builtin(fr *aframe, name string, args []aval, t *ssa.Call) []aout {
	st := fr.st
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case aSlice:
			if name == "cap" {
				return one(st, aInt{v.cap, intType})
			}
			return one(st, aInt{v.n, intType})
		case aPtr:
			if st.heap[v.obj].isMap {
				if n, ok := m.mapLen(st, v); ok {
					return one(st, aInt{aconst(n), intType})
				}
				break
			}
			return one(st, aInt{st.heap[v.obj].n, intType})
		case aAgg:
			return one(st, aInt{v.o.n, intType})
		case aStr:
			if v.known {
				return one(st, aInt{aconst(int64(len(v.s))), intType})
			}
		}
		s := m.fresh("len")
		m.ivs[s] = ival{0, 1 << 40}
		return one(st, aInt{asymbol(s), intType})
	case "copy":
		m.touched(st, "w", args[0], t)
		m.touched(st, "r", args[1], t)
		d, ok1 := args[0].(aSlice)
		s, ok2 := args[1].(aSlice)
		if !ok1 || !ok2 {
			m.havoc(st, args[0])
			return one(st, m.unknownVal(st, intType, m.fresh("copied")))
		}
		n := d.n
		diff := s.n.add(d.n, -1)
		iv := m.ivOf(st, diff)
		if iv.hi <= 0 {
			n = s.n
		} else if iv.lo < 0 {
			m.giveUp("copy of unknown length in " + fnName(fr.f))
			m.havoc(st, d)
			return one(st, m.unknownVal(st, intType, m.fresh("copied")))
		}
		if !n.isConst() || n.c > 1<<16 {
			m.giveUp("copy of unknown length in " + fnName(fr.f))
			m.havoc(st, d)
			return one(st, aInt{n, intType})
		}
		vals := make([]aval, n.c)
		for i := range vals {
			o := s.off.add(aconst(int64(i)), 1)
			vals[i] = m.readCell(st, s.obj, o.String(), o, true, s.elem)
		}
		for i, v := range vals {
			o := d.off.add(aconst(int64(i)), 1)
			m.writeCell(st, d.obj, o.String(), o, true, v)
		}
		return one(st, aInt{n, intType})
	case "append":
		m.touched(st, "w", args[0], t)
		m.touched(st, "r", args[1], t)
		s, ok1 := args[0].(aSlice)
		if _, isNil := args[0].(aNil); isNil {
			s, ok1 = aSlice{obj: -1, elem: elemType(t.Type())}, true
		}
		a, ok2 := args[1].(aSlice)
		if !ok1 || !ok2 || !a.n.isConst() || a.n.c > 1<<16 {
			m.giveUp("append of unknown length in " + fnName(fr.f))
			return one(st, m.unknownVal(st, t.Type(), m.fresh("append")))
		}
		if s.elem == nil {
			s.elem = elemType(t.Type())
		}
		vals := make([]aval, a.n.c)
		for i := range vals {
			o := a.off.add(aconst(int64(i)), 1)
			vals[i] = m.readCell(st, a.obj, o.String(), o, true, s.elem)
		}
		return one(st, m.appendVals(st, s, vals, t.Type()))
	case "min", "max":
		if len(args) == 2 {
			x, ok1 := m.intOf(args[0])
			y, ok2 := m.intOf(args[1])
			if ok1 && ok2 {
				b := m.compareInt(st, token.LSS, x, y, false).(aBool)
				a := st.clone()
				var outs []aout
				bt := args[0].(aInt).t
				if m.assume(a, b, true) {
					outs = append(outs, one(a, aInt{map[bool]alin{true: x, false: y}[name == "min"], bt})...)
				}
				if m.assume(st, b, false) {
					outs = append(outs, one(st, aInt{map[bool]alin{true: y, false: x}[name == "min"], bt})...)
				}
				return outs
			}
		}
	case "panic":
		return []aout{{st: st, panic: true}}
	case "close":
		if m.channels && !m.closeChan(st, args[0]) {
			return []aout{{st: st, panic: true}}
		}
		return one(st)
	case "print", "println":
		return one(st)
	case "clear":
		m.touched(st, "w", args[0], t)
		m.clearAll(st, args[0])
		return one(st)
	case "delete":
		m.touched(st, "w", args[0], t)
		if !m.mapDelete(st, args[0], args[1]) {
			m.havoc(st, args[0])
		}
		return one(st)
	case "recover":
		return one(st, aNil{})
	}
	return m.havocResults(st, t, name)
}

// clearAll: the builtin clear.
func (m *amachine) clearAll(st *astate, a aval) {
	if p, ok := a.(aPtr); ok && st.heap[p.obj] != nil && st.heap[p.obj].isMap {
		o := st.mut(p.obj)
		o.cells = map[string]acell{}
		o.unknown = ""
		return
	}
	if s, ok := a.(aSlice); ok && s.obj >= 0 && s.n.isConst() && s.n.c <= 4096 {
		_, set := m.elements(s)
		for i := int64(0); i < s.n.c; i++ {
			set(st, i, m.zero(st, s.elem))
		}
		return
	}
	m.havoc(st, a)
}
