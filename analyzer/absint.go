package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An abstract interpreter for small codec functions. Integers are abstracted to linear forms over symbols, each byte of
// which is known by its provenance ("byte 3 of V"), with an interval per symbol; arrays and files are abstracted to
// cells at linear offsets. Branches that the abstract state does not decide partition the traces; the abstract state
// is refined by the branch taken. Nothing is executed and nothing is handed to a solver.

// ---- linear forms ----

type alin struct {
	c int64
	t string // canonical "coef*sym" terms joined by " "
}

type aterm struct {
	sym  string
	coef int64
}

func (l alin) terms() []aterm {
	if l.t == "" {
		return nil
	}
	var out []aterm
	for _, p := range strings.Split(l.t, " ") {
		i := strings.IndexByte(p, '*')
		k, _ := strconv.ParseInt(p[:i], 10, 64)
		out = append(out, aterm{p[i+1:], k})
	}
	return out
}

func mkLin(c int64, ts []aterm) alin {
	sort.Slice(ts, func(i, j int) bool { return ts[i].sym < ts[j].sym })
	var ps []string
	for i := 0; i < len(ts); {
		j, k := i, int64(0)
		for j < len(ts) && ts[j].sym == ts[i].sym {
			k += ts[j].coef
			j++
		}
		if k != 0 {
			ps = append(ps, strconv.FormatInt(k, 10)+"*"+ts[i].sym)
		}
		i = j
	}
	return alin{c, strings.Join(ps, " ")}
}

func aconst(c int64) alin { return alin{c: c} }
func asymbol(s string) alin {
	return alin{t: "1*" + s}
}
func (l alin) isConst() bool { return l.t == "" }
func (l alin) add(o alin, f int64) alin {
	if l.t == "" && o.t == "" {
		return alin{c: l.c + f*o.c}
	}
	ts := l.terms()
	for _, x := range o.terms() {
		ts = append(ts, aterm{x.sym, f * x.coef})
	}
	return mkLin(l.c+f*o.c, ts)
}
func (l alin) times(f int64) alin { return alin{}.add(l, f) }
func (l alin) String() string {
	if l.t == "" {
		return strconv.FormatInt(l.c, 10)
	}
	s := strings.ReplaceAll(l.t, "1*", "")
	if l.c != 0 {
		s += fmt.Sprintf(" %+d", l.c)
	}
	return s
}

// single symbol with coefficient 1 and no constant
func (l alin) sym() string {
	if l.c == 0 && strings.HasPrefix(l.t, "1*") && !strings.Contains(l.t, " ") {
		return l.t[2:]
	}
	return ""
}

// ---- bytes ----

type ab struct {
	sym string // "" : constant
	k   int    // which byte of sym
	c   byte
	top bool
}

func (b ab) String() string {
	if b.top {
		return "?"
	}
	if b.sym == "" {
		return fmt.Sprintf("%02X", b.c)
	}
	return fmt.Sprintf("%s.%d", b.sym, b.k)
}

type ival struct{ lo, hi int64 }

var fullIval = ival{math.MinInt64, math.MaxInt64}

// ---- values ----

type aval interface{}

// aFloat: a known number that is not whole.
type aFloat struct {
	f float64
	t *types.Basic
}

type (
	aInt struct {
		l alin
		t *types.Basic
	}
	aBool struct {
		known bool
		val   bool
		// unknown: d op 0, or the negation; ptr: something is nil
		op  token.Token
		d   alin
		u   bool
		not bool
		id  string // an opaque truth value: refined consistently
	}
	aPtr struct {
		obj  int
		cell string // "" whole object
		off  alin
		idx  bool
	}
	aNil   struct{}
	aSlice struct {
		obj     int
		off     alin
		n, cap  alin
		elem    types.Type
		nonzero bool
	}
	aAgg struct{ o *aobj }   // struct or array by value (snapshot)
	aErr struct{ id string } // an error value: "" nil, "!" certainly not nil, otherwise unknown
	aFn  struct {
		fn   *ssa.Function
		bind []aval
	}
	aOpaque struct {
		id string
		t  types.Type
	}
	aIface struct {
		v aval
		t types.Type
	}
	aTuple []aval
	aStr   struct {
		s     string
		known bool
		id    string
	}
	aSub  struct{ obj int } // aggregate held inside an aggregate
	aIter struct {
		m     aval
		keys  []string
		at    int
		known bool
	}
	aTop struct{}
)

type acell struct {
	off alin
	v   aval
}

type aobj struct {
	typ     types.Type
	cells   map[string]acell
	unknown string // "": zero elsewhere; otherwise unknown contents of this name
	n       alin
	isMap   bool
	keys    map[string]aval  // maps: the keys by name (never changed in place)
	varoff  bool             // a cell's place may not be a constant
	subs    map[string]*aobj // snapshots only: nested aggregates
}

type afact struct {
	d  alin // d >= 0
	eq bool
}

type awrite struct {
	file string
	off  alin
	n    alin
	buf  []aval
	site ssa.Instruction
}

type astate struct {
	heap       map[int]*aobj
	own        map[int]bool
	iv         map[string]ival
	excl       map[string][]ival
	facts      []alin // each >= 0
	eqs        []alin // each == 0
	bools      map[string]bool
	errs       map[string]bool // id -> is nil
	files      map[string]int  // file id -> object
	writes     []awrite
	calls      []string
	pending    []aspawn // goroutines that have not run
	incomplete bool
	trace      *atouch
}

func (s *astate) clone() *astate {
	n := &astate{heap: make(map[int]*aobj, len(s.heap)), own: map[int]bool{}, iv: make(map[string]ival, len(s.iv)), excl: map[string][]ival{}, bools: map[string]bool{}, errs: map[string]bool{}, files: map[string]int{}, incomplete: s.incomplete}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	s.own = map[int]bool{}
	for k, v := range s.iv {
		n.iv[k] = v
	}
	for k, v := range s.excl {
		n.excl[k] = v[:len(v):len(v)]
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	for k, v := range s.errs {
		n.errs[k] = v
	}
	for k, v := range s.files {
		n.files[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.eqs = s.eqs[:len(s.eqs):len(s.eqs)]
	n.writes = s.writes[:len(s.writes):len(s.writes)]
	n.calls = s.calls[:len(s.calls):len(s.calls)]
	n.pending = s.pending[:len(s.pending):len(s.pending)]
	n.trace = s.trace
	return n
}

func (s *astate) mut(id int) *aobj {
	o := s.heap[id]
	if s.own[id] {
		return o
	}
	c := *o
	c.cells = make(map[string]acell, len(o.cells))
	for k, v := range o.cells {
		c.cells[k] = v
	}
	s.heap[id] = &c
	s.own[id] = true
	return &c
}

type amachine struct {
	P      *Prog
	nobj   int
	nfresh int
	steps  int

	tiesSwapped bool // a sort that leaves equal elements in any order swaps them

	watch    bool // memory accesses are traced
	demand   bool // run goroutines when something waits for them
	channels bool // model channels and record goroutines
	spawned  []aspawn
	blocked  []ablocked // receives that wait for ever
	logSends bool
	waits    int // waits on a condition

	npaths int
	depth  int
	bytes  map[string][8]ab // interned byte vectors
	lins   map[string]alin  // interned linear forms used as byte sources
	ivs    map[string]ival  // initial intervals

	reliable bool            // files do not fail
	folders  bool            // the names of numbered files are interpreted, too
	why      map[string]bool // what could not be interpreted
	// opaqueCall may model a call: results and whether it did
	model             func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool)
	enter             func(*ssa.Function) bool
	madeOnce          map[*ssa.Function]*aobj      // nil: package variables made by functions are unknown
	fromFloat         func(id string) (alin, bool) // the whole part of a number that is not known
	maxIter, maxSteps int
	quot              map[string][3]alin // remainder -> dividend, divisor, quotient
	// crash: the instruction just interpreted certainly panics
	crash bool
	forks int
	over  bool
	// closed: only the files made during the interpretation exist
	closed bool
}

type aout struct {
	st    *astate
	rets  []aval
	panic bool
}

func newMachine(P *Prog) *amachine {
	return &amachine{P: P, bytes: map[string][8]ab{}, lins: map[string]alin{}, ivs: map[string]ival{}, quot: map[string][3]alin{}, why: map[string]bool{}, maxIter: 4, maxSteps: 600000}
}

func (m *amachine) newState() *astate {
	return &astate{heap: map[int]*aobj{}, own: map[int]bool{}, iv: map[string]ival{}, excl: map[string][]ival{}, bools: map[string]bool{}, errs: map[string]bool{}, files: map[string]int{}}
}

func (m *amachine) fresh(p string) string {
	m.nfresh++
	return fmt.Sprintf("%s~%d", p, m.nfresh)
}

func (m *amachine) symbol(name string, lo, hi int64) alin {
	name = symbolName.Replace(name)
	m.ivs[name] = ival{lo, hi}
	return asymbol(name)
}

var symbolName = strings.NewReplacer(" ", "_", "*", "x")

func (m *amachine) giveUp(what string) { m.why[what] = true }

func (m *amachine) ivSym(st *astate, s string) ival {
	if v, ok := st.iv[s]; ok {
		return v
	}
	if v, ok := m.ivs[s]; ok {
		return v
	}
	if l, ok := m.lins[s]; ok {
		return m.ivOf(st, l)
	}
	if w := m.wholeOf(st, s); w != "" {
		return m.ivSym(st, w)
	}
	if bs, ok := m.bytes[s]; ok {
		hi := uint64(0)
		lo := uint64(0)
		for i := 7; i >= 0; i-- {
			hi <<= 8
			lo <<= 8
			if bs[i].sym == "" && !bs[i].top {
				hi |= uint64(bs[i].c)
				lo |= uint64(bs[i].c)
			} else {
				hi |= 0xFF
			}
		}
		if hi > math.MaxInt64 {
			return fullIval
		}
		return ival{int64(lo), int64(hi)}
	}
	return fullIval
}

// wholeOf: the symbol whose low bytes an interned byte vector consists of, when the symbol has no others.
func (m *amachine) wholeOf(st *astate, s string) string {
	bs, ok := m.bytes[s]
	if !ok || bs[0].sym == "" || bs[0].sym == s {
		return ""
	}
	n := bytesUpTo(m.ivSym(st, bs[0].sym))
	for i, b := range bs {
		if i < n && (b.sym != bs[0].sym || b.k != i) {
			return ""
		}
		if i >= n && b != (ab{}) && !(b.sym == bs[0].sym && b.k >= n) {
			return ""
		}
	}
	return bs[0].sym
}

func mulSat(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	p := a * b
	if p/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		if (a < 0) != (b < 0) {
			return math.MinInt64
		}
		return math.MaxInt64
	}
	return p
}

func addSat(a, b int64) int64 {
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return math.MaxInt64
	}
	if a < 0 && b < 0 && s >= 0 {
		return math.MinInt64
	}
	return s
}

func (m *amachine) ivOf(st *astate, l alin) ival {
	lo, hi := l.c, l.c
	for _, t := range l.terms() {
		v := m.ivSym(st, t.sym)
		if t.coef == 1<<56 && v.lo >= 0 && v.hi > 127 {
			return fullIval // the top byte: the value may be negative
		}
		a, b := mulSat(t.coef, v.lo), mulSat(t.coef, v.hi)
		if a > b {
			a, b = b, a
		}
		if lo == math.MinInt64 || a == math.MinInt64 {
			lo = math.MinInt64
		} else {
			lo = addSat(lo, a)
		}
		if hi == math.MaxInt64 || b == math.MaxInt64 {
			hi = math.MaxInt64
		} else {
			hi = addSat(hi, b)
		}
	}
	// facts about exactly this form (up to a constant)
	for _, f := range st.facts {
		if f.t == l.t { // f.c + t >= 0  =>  t >= -f.c
			if v := l.c - f.c; v > lo {
				lo = v
			}
		}
		if n := f.times(-1); n.t == l.t { // f = f.c - t >= 0 => t <= f.c
			if v := l.c + f.c; v < hi {
				hi = v
			}
		}
	}
	for _, f := range st.eqs {
		if f.t == l.t && f.t != "" {
			lo, hi = l.c-f.c, l.c-f.c
		}
		if n := f.times(-1); n.t == l.t && f.t != "" {
			lo, hi = l.c+f.c, l.c+f.c
		}
	}
	return ival{lo, hi}
}

// nonneg bytes of a symbol that can be non-zero
func bytesUpTo(v ival) int {
	if v.lo < 0 {
		return 8
	}
	for n := 0; n < 8; n++ {
		if n == 0 && v.hi == 0 {
			return 0
		}
		if n > 0 && v.hi>>(8*uint(n)) == 0 {
			return n
		}
	}
	return 8
}

func (m *amachine) bytesOf(st *astate, l alin) [8]ab {
	var out [8]ab
	put := func(c int64) {
		for i := range out {
			out[i] = ab{c: byte(uint64(c) >> (8 * uint(i)))}
		}
	}
	if l.isConst() {
		put(l.c)
		return out
	}
	// disjoint shifted symbols
	ok := l.c >= 0
	if ok {
		put(l.c)
		for _, t := range l.terms() {
			j := -1
			for k := 0; k < 8; k++ {
				if t.coef == int64(1)<<(8*uint(k)) || (k == 7 && uint64(t.coef) == uint64(1)<<56) {
					j = k
				}
			}
			if j < 0 {
				ok = false
				break
			}
			bs := m.symBytes(st, t.sym)
			for i := 0; i < 8; i++ {
				if bs[i] == (ab{}) {
					continue
				}
				if i+j > 7 {
					if m.ivSym(st, t.sym) == fullIval || true {
						ok = false
					}
					break
				}
				if out[i+j] != (ab{}) {
					ok = false
					break
				}
				out[i+j] = bs[i]
			}
		}
	}
	if ok {
		return out
	}
	name := "(" + l.String() + ")"
	name = strings.ReplaceAll(name, " ", "")
	m.lins[name] = l
	n := bytesUpTo(m.ivOf(st, l))
	for i := range out {
		if i < n {
			out[i] = ab{sym: name, k: i}
		} else {
			out[i] = ab{}
		}
	}
	return out
}

func (m *amachine) symBytes(st *astate, s string) [8]ab {
	if bs, ok := m.bytes[s]; ok {
		// known pieces may have become zero
		for i, b := range bs {
			if b.sym != "" && b.k >= bytesUpTo(m.ivSym(st, b.sym)) {
				bs[i] = ab{}
			}
		}
		return bs
	}
	var out [8]ab
	n := bytesUpTo(m.ivSym(st, s))
	for i := 0; i < n; i++ {
		out[i] = ab{sym: s, k: i}
	}
	return out
}

func (m *amachine) fromBytes(st *astate, bs [8]ab) alin {
	c := uint64(0)
	var ts []aterm
	for i := 0; i < 8; {
		b := bs[i]
		if b.top {
			return asymbol(m.fresh("top"))
		}
		if b.sym == "" {
			c |= uint64(b.c) << (8 * uint(i))
			i++
			continue
		}
		if b.k != 0 {
			return m.intern(bs)
		}
		j := i
		for j < 8 && bs[j].sym == b.sym && bs[j].k == j-i {
			j++
		}
		if j-i < bytesUpTo(m.ivSym(st, b.sym)) {
			return m.intern(bs)
		}
		ts = append(ts, aterm{b.sym, int64(1) << (8 * uint(i))})
		i = j
	}
	if len(ts) == 1 && c == 0 && ts[0].coef == 1 {
		if l, ok := m.lins[ts[0].sym]; ok {
			return l
		}
	}
	return mkLin(int64(c), ts)
}

func (m *amachine) intern(bs [8]ab) alin {
	var ps []string
	for _, b := range bs {
		ps = append(ps, b.String())
	}
	// trailing zeros add nothing
	for len(ps) > 1 && ps[len(ps)-1] == "00" {
		ps = ps[:len(ps)-1]
	}
	n := "[" + strings.Join(ps, ",") + "]"
	m.bytes[n] = bs
	return asymbol(n)
}

// ---- types ----

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func widthOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func unsignedKind(b *types.Basic) bool { return b != nil && b.Info()&types.IsUnsigned != 0 }

func (m *amachine) zero(st *astate, t types.Type) aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return aInt{aconst(0), u}
		case u.Info()&types.IsBoolean != 0:
			return aBool{known: true}
		case u.Info()&types.IsString != 0:
			return aStr{known: true}
		case u.Info()&types.IsFloat != 0:
			return aInt{aconst(0), u} // whole numbers only
		}
		return aTop{}
	case *types.Struct, *types.Array:
		return aAgg{m.zeroObj(t)}
	case *types.Slice:
		return aSlice{obj: -1, elem: u.Elem()}
	case *types.Interface:
		if isErrorType(t) {
			return aErr{}
		}
	}
	return aNil{}
}

func (m *amachine) zeroObj(t types.Type) *aobj {
	o := &aobj{typ: t, cells: map[string]acell{}}
	if a, ok := t.Underlying().(*types.Array); ok {
		o.n = aconst(a.Len())
	}
	return o
}

func aggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (m *amachine) alloc(st *astate, t types.Type, unknown string) int {
	o := m.zeroObj(t)
	o.unknown = unknown
	m.nobj++
	st.heap[m.nobj] = o
	st.own[m.nobj] = true
	return m.nobj
}

// unknownVal: a stable unknown of a type.
func (m *amachine) unknownVal(st *astate, t types.Type, name string) aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if _, ok := m.ivs[name]; !ok {
				m.ivs[name] = rangeOf(u)
			}
			return aInt{asymbol(name), u}
		case u.Info()&types.IsBoolean != 0:
			return aBool{id: name}
		case u.Info()&types.IsString != 0:
			return aStr{id: name}
		}
		return aTop{}
	case *types.Struct, *types.Array:
		o := m.zeroObj(t)
		o.unknown = name
		return aAgg{o}
	case *types.Slice:
		id := m.alloc(st, t, name)
		n := m.symbol("len("+name+")", 0, 1<<40)
		o := st.heap[id]
		o.n = n
		return aSlice{obj: id, n: n, cap: n, elem: u.Elem()}
	case *types.Interface:
		if isErrorType(t) {
			return aErr{id: name}
		}
		return aOpaque{name, t}
	case *types.Pointer:
		if aggregate(u.Elem()) && moduleType(u.Elem()) {
			return aPtr{obj: m.alloc(st, u.Elem(), name)}
		}
		return aOpaque{name, t}
	case *types.Map:
		id := m.alloc(st, t, name)
		st.heap[id].isMap = true
		return aPtr{obj: id}
	}
	return aOpaque{name, t}
}

func moduleType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modulePath)
	}
	return true
}

func rangeOf(b *types.Basic) ival {
	switch b.Kind() {
	case types.Uint8:
		return ival{0, 255}
	case types.Uint16:
		return ival{0, 65535}
	case types.Uint32:
		return ival{0, math.MaxUint32}
	case types.Int8:
		return ival{-128, 127}
	case types.Int16:
		return ival{-32768, 32767}
	case types.Int32:
		return ival{math.MinInt32, math.MaxInt32}
	}
	return fullIval
}

// ---- memory ----

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (m *amachine) fieldOrElem(o *aobj, cell string) types.Type {
	if s, ok := o.typ.Underlying().(*types.Struct); ok {
		i, _ := strconv.Atoi(cell)
		return s.Field(i).Type()
	}
	return elemType(o.typ)
}

// snapshot of an object, nested aggregates included.
func (m *amachine) snapshot(st *astate, id int) *aobj {
	o := st.heap[id]
	n := *o
	n.cells = make(map[string]acell, len(o.cells))
	n.subs = map[string]*aobj{}
	for k, c := range o.cells {
		if s, ok := c.v.(aSub); ok {
			n.subs[k] = m.snapshot(st, s.obj)
			n.cells[k] = acell{c.off, nil}
			continue
		}
		n.cells[k] = c
	}
	return &n
}

func (m *amachine) restore(st *astate, id int, o *aobj) {
	n := *o
	n.cells = make(map[string]acell, len(o.cells))
	n.subs = nil
	st.heap[id] = &n
	st.own[id] = true
	for k, c := range o.cells {
		if sub, ok := o.subs[k]; ok {
			m.nobj++
			sid := m.nobj
			m.restore(st, sid, sub)
			n.cells[k] = acell{c.off, aSub{sid}}
			continue
		}
		n.cells[k] = c
	}
}

// sub gives the object of a nested aggregate, made on demand.
func (m *amachine) sub(st *astate, id int, key string, off alin, t types.Type) int {
	o := st.heap[id]
	if c, ok := o.cells[key]; ok {
		if s, ok := c.v.(aSub); ok {
			return s.obj
		}
	}
	un := ""
	if o.unknown != "" {
		un = o.unknown + "." + cellName(o, key)
	}
	sid := m.alloc(st, t, un)
	if c, ok := o.cells[key]; ok {
		if ag, ok := c.v.(aAgg); ok {
			m.restore(st, sid, ag.o)
		}
	}
	o = m.mut2(st, id)
	o.varoff = o.varoff || !off.isConst()
	o.cells[key] = acell{off, aSub{sid}}
	return sid
}

func (m *amachine) mut2(st *astate, id int) *aobj { return st.mut(id) }

func cellName(o *aobj, key string) string {
	if s, ok := o.typ.Underlying().(*types.Struct); ok {
		i, _ := strconv.Atoi(key)
		return s.Field(i).Name()
	}
	return key
}

// readCell reads an element.
func (m *amachine) readCell(st *astate, id int, key string, off alin, isIdx bool, t types.Type) aval {
	if id < 0 {
		return m.unknownVal(st, t, m.fresh("nil"))
	}
	o := st.heap[id]
	if aggregate(t) {
		if isIdx && m.mayAlias(st, o, key, off) {
			return m.unknownVal(st, t, m.fresh("alias"))
		}
		return aAgg{m.snapshot(st, m.sub(st, id, key, off, t))}
	}
	if c, ok := o.cells[key]; ok {
		return c.v
	}
	if isIdx && m.mayAlias(st, o, key, off) {
		return m.unknownVal(st, t, m.fresh("alias"))
	}
	if o.unknown == "" {
		return m.zero(st, t)
	}
	v := m.unknownVal(st, t, o.unknown+"."+strings.ReplaceAll(cellName(o, key), " ", ""))
	o = m.mut2(st, id)
	o.varoff = o.varoff || !off.isConst()
	o.cells[key] = acell{off, v}
	return v
}

// mayAlias: another cell may be the same place.
func (m *amachine) mayAlias(st *astate, o *aobj, key string, off alin) bool {
	if !o.varoff && off.isConst() {
		return false
	}
	for k, c := range o.cells {
		if k == key {
			continue
		}
		d := c.off.add(off, -1)
		if d.isConst() {
			continue
		}
		if iv := m.ivOf(st, d); iv.lo > 0 || iv.hi < 0 {
			continue
		}
		return true
	}
	return false
}

func (m *amachine) writeCell(st *astate, id int, key string, off alin, isIdx bool, v aval) {
	if id < 0 {
		return
	}
	o := m.mut2(st, id)
	varoff := o.varoff || !off.isConst()
	o.varoff = varoff
	if isIdx && varoff {
		for k, c := range o.cells {
			if k == key {
				continue
			}
			d := c.off.add(off, -1)
			if d.isConst() {
				continue
			}
			if iv := m.ivOf(st, d); iv.lo > 0 || iv.hi < 0 {
				continue
			}
			t := elemType(o.typ)
			o.cells[k] = acell{c.off, m.unknownVal(st, t, m.fresh("maybe"))}
		}
	}
	if ag, ok := v.(aAgg); ok {
		m.nobj++
		sid := m.nobj
		m.restore(st, sid, ag.o)
		o.cells[key] = acell{off, aSub{sid}}
		return
	}
	o.cells[key] = acell{off, v}
}

func (m *amachine) load(st *astate, a aval, t types.Type) aval {
	switch p := a.(type) {
	case aPtr:
		if p.cell == "" {
			o := st.heap[p.obj]
			if aggregate(o.typ) && aggregate(t) {
				return aAgg{m.snapshot(st, p.obj)}
			}
			return m.readCell(st, p.obj, "v", alin{}, false, t)
		}
		return m.readCell(st, p.obj, p.cell, p.off, p.idx, t)
	}
	return m.unknownVal(st, t, m.fresh("load"))
}

func (m *amachine) store(st *astate, a aval, v aval) {
	p, ok := a.(aPtr)
	if !ok {
		return
	}
	if p.cell == "" {
		if ag, ok := v.(aAgg); ok {
			m.restore(st, p.obj, ag.o)
			return
		}
		m.writeCell(st, p.obj, "v", alin{}, false, v)
		return
	}
	m.writeCell(st, p.obj, p.cell, p.off, p.idx, v)
}

// ---- integers ----

func (m *amachine) truncate(st *astate, l alin, t *types.Basic) alin {
	w := widthOf(t)
	if w == 8 {
		return l
	}
	iv := m.ivOf(st, l)
	r := rangeOf(t)
	if iv.lo >= r.lo && iv.hi <= r.hi {
		return l
	}
	if !unsignedKind(t) {
		if l.isConst() {
			switch w {
			case 1:
				return aconst(int64(int8(l.c)))
			case 2:
				return aconst(int64(int16(l.c)))
			default:
				return aconst(int64(int32(l.c)))
			}
		}
		return asymbol(m.named("int"+strconv.Itoa(8*w), st, l))
	}
	bs := m.bytesOf(st, l)
	for i := w; i < 8; i++ {
		bs[i] = ab{}
	}
	return m.fromBytes(st, bs)
}

// named: an uninterpreted function of linear forms
func (m *amachine) named(f string, st *astate, ls ...alin) string {
	var ps []string
	for _, l := range ls {
		ps = append(ps, strings.ReplaceAll(l.String(), " ", ""))
	}
	return f + "(" + strings.Join(ps, ",") + ")"
}

func pow2(k int64) (int64, bool) {
	if k >= 0 && k < 62 {
		return int64(1) << uint(k), true
	}
	return 0, false
}

func (m *amachine) binInt(st *astate, op token.Token, x, y alin, t *types.Basic) alin {
	r := m.binInt0(st, op, x, y, t)
	return m.truncate(st, r, t)
}

func (m *amachine) binInt0(st *astate, op token.Token, x, y alin, t *types.Basic) alin {
	// a symbol known exactly counts as a constant
	if iv := m.ivOf(st, x); iv.lo == iv.hi {
		x = aconst(iv.lo)
	}
	if iv := m.ivOf(st, y); iv.lo == iv.hi {
		y = aconst(iv.lo)
	}
	switch op {
	case token.ADD:
		return m.recombine(st, x.add(y, 1))
	case token.SUB:
		return x.add(y, -1)
	case token.MUL:
		if y.isConst() {
			return x.times(y.c)
		}
		if x.isConst() {
			return y.times(x.c)
		}
		a, b := x, y
		if a.String() > b.String() {
			a, b = b, a
		}
		// distribute over the terms
		var out alin
		aa, bb := append(a.terms(), aterm{"", a.c}), append(b.terms(), aterm{"", b.c})
		var ts []aterm
		c := int64(0)
		for _, p := range aa {
			for _, q := range bb {
				k := p.coef * q.coef
				switch {
				case k == 0:
				case p.sym == "" && q.sym == "":
					c += k
				case p.sym == "":
					ts = append(ts, aterm{q.sym, k})
				case q.sym == "":
					ts = append(ts, aterm{p.sym, k})
				default:
					u, v := p.sym, q.sym
					if u > v {
						u, v = v, u
					}
					n := "mul(" + u + "," + v + ")"
					iu, iv := m.ivSym(st, u), m.ivSym(st, v)
					if iu.lo >= 0 && iv.lo >= 0 {
						m.ivs[n] = ival{mulSat(iu.lo, iv.lo), mulSat(iu.hi, iv.hi)}
					}
					ts = append(ts, aterm{n, k})
				}
			}
		}
		out = mkLin(c, ts)
		return out
	case token.SHL:
		if y.isConst() {
			if k, ok := pow2(y.c); ok && !x.isConst() {
				// shifting by whole bytes may drop bytes
				iv := m.ivOf(st, x)
				if iv.lo >= 0 && iv.hi <= math.MaxInt64/k {
					return x.times(k)
				}
			}
			if x.isConst() {
				if y.c >= 64 || y.c < 0 {
					return aconst(0)
				}
				return aconst(x.c << uint(y.c))
			}
			if y.c >= 64 {
				return aconst(0)
			}
			if y.c%8 == 0 {
				bs := m.bytesOf(st, x)
				var out [8]ab
				for i := 7; i >= int(y.c/8); i-- {
					out[i] = bs[i-int(y.c/8)]
				}
				return m.fromBytes(st, out)
			}
			return asymbol(m.named("shl", st, x, y))
		}
	case token.SHR:
		if y.isConst() {
			if x.isConst() {
				if unsignedKind(t) {
					if y.c >= 64 {
						return aconst(0)
					}
					return aconst(int64(uint64(x.c) >> uint(y.c)))
				}
				return aconst(x.c >> uint(y.c))
			}
			iv := m.ivOf(st, x)
			if y.c >= 64 && (unsignedKind(t) || iv.lo >= 0) {
				return aconst(0)
			}
			if y.c%8 == 0 && (unsignedKind(t) || iv.lo >= 0) {
				bs := m.bytesOf(st, x)
				var out [8]ab
				for i := 0; i+int(y.c/8) < 8; i++ {
					out[i] = bs[i+int(y.c/8)]
				}
				return m.fromBytes(st, out)
			}
			if iv.lo >= 0 {
				if k, ok := pow2(y.c); ok {
					return m.divide(st, x, k, false)
				}
			}
			return asymbol(m.named("shr", st, x, y))
		}
	case token.QUO:
		if m.wide(st, x, t) || m.wide(st, y, t) {
			return m.quotient(st, x, y, false)
		}
		if y.isConst() && y.c > 0 {
			return m.divide(st, x, y.c, false)
		}
		return m.divideSym(st, x, y, false)
	case token.REM:
		if m.wide(st, x, t) || m.wide(st, y, t) {
			return m.quotient(st, x, y, true)
		}
		if y.isConst() && y.c > 0 {
			return m.divide(st, x, y.c, true)
		}
		return m.divideSym(st, x, y, true)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if x.isConst() && y.isConst() {
			switch op {
			case token.AND:
				return aconst(x.c & y.c)
			case token.OR:
				return aconst(x.c | y.c)
			case token.XOR:
				return aconst(x.c ^ y.c)
			default:
				return aconst(x.c &^ y.c)
			}
		}
		bx, by := m.bytesOf(st, x), m.bytesOf(st, y)
		var out [8]ab
		for i := range out {
			p, q := bx[i], by[i]
			z := func(b ab) bool { return b == (ab{}) }
			ff := func(b ab) bool { return b.sym == "" && !b.top && b.c == 0xFF }
			switch {
			case p.sym == "" && q.sym == "" && !p.top && !q.top:
				switch op {
				case token.AND:
					out[i] = ab{c: p.c & q.c}
				case token.OR:
					out[i] = ab{c: p.c | q.c}
				case token.XOR:
					out[i] = ab{c: p.c ^ q.c}
				default:
					out[i] = ab{c: p.c &^ q.c}
				}
			case op == token.AND && (z(p) || z(q)):
			case op == token.AND && ff(p):
				out[i] = q
			case op == token.AND && ff(q):
				out[i] = p
			case op == token.AND_NOT && z(q):
				out[i] = p
			case op == token.AND_NOT && ff(q):
			case (op == token.OR || op == token.XOR) && z(p):
				out[i] = q
			case (op == token.OR || op == token.XOR) && z(q):
				out[i] = p
			case op == token.OR && (ff(p) || ff(q)):
				out[i] = ab{c: 0xFF}
			default:
				s1, s2 := p.String(), q.String()
				if op != token.AND_NOT && s1 > s2 {
					s1, s2 = s2, s1
				}
				n := s1 + op.String() + s2
				m.ivs[n] = ival{0, 255}
				out[i] = ab{sym: n}
			}
		}
		return m.fromBytes(st, out)
	}
	n := m.named(op.String(), st, x, y)
	return asymbol(n)
}

// divide by a positive constant, exactly when the parts separate.
func (m *amachine) divide(st *astate, x alin, k int64, rem bool) alin {
	if x.isConst() {
		if rem {
			return aconst(x.c % k)
		}
		return aconst(x.c / k)
	}
	if k == 1 {
		if rem {
			return aconst(0)
		}
		return x
	}
	var q, r []aterm
	for _, t := range x.terms() {
		if t.coef%k == 0 {
			q = append(q, aterm{t.sym, t.coef / k})
		} else {
			r = append(r, t)
		}
	}
	qc, rc := x.c/k, x.c%k
	if rc < 0 {
		rc += k
		qc--
	}
	ql, rl := mkLin(qc, q), mkLin(rc, r)
	if iv := m.ivOf(st, rl); iv.lo >= 0 && iv.hi < k {
		if qi := m.ivOf(st, ql); qi.lo >= 0 || rl == aconst(0) {
			if rem {
				return rl
			}
			return ql
		}
	}
	if iv := m.ivOf(st, x); iv.lo >= 0 && iv.hi < math.MaxInt64 && iv.lo/k == iv.hi/k {
		if rem {
			return x.add(aconst(iv.lo/k*k), -1)
		}
		return aconst(iv.lo / k)
	}
	f := "div"
	if rem {
		f = "mod"
	}
	n := m.named(f, st, x, aconst(k))
	if iv := m.ivOf(st, x); iv.lo >= 0 {
		if rem {
			m.ivs[n] = ival{0, k - 1}
		} else {
			m.ivs[n] = ival{iv.lo / k, iv.hi / k}
		}
	}
	return asymbol(n)
}

// wide: an unsigned operand whose top bit may be set.
func (m *amachine) wide(st *astate, x alin, t *types.Basic) bool {
	return unsignedKind(t) && m.ivOf(st, x).lo < 0
}

// quotient: unsigned division whose operands may have the top bit set.
func (m *amachine) quotient(st *astate, x, y alin, rem bool) alin {
	if x.isConst() && y.isConst() && y.c != 0 {
		if rem {
			return aconst(int64(uint64(x.c) % uint64(y.c)))
		}
		return aconst(int64(uint64(x.c) / uint64(y.c)))
	}
	q, r := m.named("udiv", st, x, y), m.named("umod", st, x, y)
	if y.isConst() && y.c != 0 {
		if v := math.MaxUint64 / uint64(y.c); v <= math.MaxInt64 {
			m.ivs[q] = ival{0, int64(v)}
		}
		if y.c > 0 {
			m.ivs[r] = ival{0, y.c - 1}
		}
	}
	m.quot[r] = [3]alin{x, y, asymbol(q)}
	if rem {
		return asymbol(r)
	}
	return asymbol(q)
}

// recombine: q*d + r where q and r are quotient and remainder of x by d is x.
func (m *amachine) recombine(st *astate, l alin) alin {
	if len(m.quot) == 0 {
		return l
	}
	for r, f := range m.quot {
		iv := m.ivSym(st, r)
		if iv.lo != iv.hi || !f[1].isConst() {
			continue
		}
		for _, u := range l.terms() { // a known remainder
			if u.sym == f[2].sym() && u.coef == f[1].c {
				return l.add(asymbol(u.sym), -u.coef).add(f[0], 1).add(aconst(iv.lo), -1)
			}
		}
	}
	for _, t := range l.terms() {
		f, ok := m.quot[t.sym]
		if !ok || !f[1].isConst() {
			continue
		}
		for _, u := range l.terms() {
			if u.sym == f[2].sym() && u.coef == t.coef*f[1].c {
				l = l.add(asymbol(u.sym), -u.coef).add(asymbol(t.sym), -t.coef).add(f[0], t.coef)
				return m.recombine(st, l)
			}
		}
	}
	return l
}

// divideSym: a*d + r divided by the symbol d.
func (m *amachine) divideSym(st *astate, x, y alin, rem bool) alin {
	f := "div"
	if rem {
		f = "mod"
	}
	if s := y.sym(); s != "" {
		var q, r []aterm
		for _, t := range x.terms() {
			if t.sym == s {
				q = append(q, aterm{"", t.coef})
				continue
			}
			if strings.HasPrefix(t.sym, "mul(") {
				in := t.sym[4 : len(t.sym)-1]
				if strings.HasPrefix(in, s+",") {
					q = append(q, aterm{in[len(s)+1:], t.coef})
					continue
				}
				if strings.HasSuffix(in, ","+s) {
					q = append(q, aterm{in[:len(in)-len(s)-1], t.coef})
					continue
				}
			}
			r = append(r, t)
		}
		qc := int64(0)
		var qt []aterm
		for _, t := range q {
			if t.sym == "" {
				qc += t.coef
			} else {
				qt = append(qt, t)
			}
		}
		rl := mkLin(x.c, r)
		ri, rd := m.ivOf(st, rl), m.ivOf(st, rl.add(y, -1))
		if len(q) > 0 && ri.lo >= 0 && rd.hi < 0 {
			if rem {
				return rl
			}
			return mkLin(qc, qt)
		}
		if len(q) == 0 && ri.lo >= 0 && rd.hi < 0 {
			if rem {
				return rl
			}
			return aconst(0)
		}
	}
	n := m.named(f, st, x, y)
	ix, iy := m.ivOf(st, x), m.ivOf(st, y)
	if ix.lo >= 0 && iy.lo >= 1 {
		m.ivs[n] = ival{0, ix.hi}
		if rem {
			st.facts = append(st.facts, y.add(asymbol(n), -1).add(aconst(1), -1))
		}
	}
	return asymbol(n)
}

// ---- conditions ----

func (m *amachine) compare(st *astate, op token.Token, x, y aval) aval {
	if _, ok := x.(aFloat); !ok {
		_, ok = y.(aFloat)
		if ok {
			x, y, op = y, x, map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
	}
	if a, ok := x.(aFloat); ok {
		b, ok := floatOf(y)
		if !ok {
			return aBool{id: m.fresh("float")}
		}
		return aBool{known: true, val: map[token.Token]bool{token.LSS: a.f < b, token.LEQ: a.f <= b, token.GTR: a.f > b, token.GEQ: a.f >= b, token.EQL: a.f == b, token.NEQ: a.f != b}[op]}
	}
	switch a := x.(type) {
	case aInt:
		b, ok := y.(aInt)
		if !ok {
			return aBool{id: m.fresh("cmp")}
		}
		return m.compareInt(st, op, a.l, b.l, unsignedKind(a.t) || unsignedKind(b.t))
	case aBool:
		if b, ok := y.(aBool); ok && b.known {
			want := b.val == (op == token.EQL)
			if want {
				return a
			}
			return m.not(a)
		}
		if b, ok := y.(aBool); ok && a.known {
			if a.val == (op == token.EQL) {
				return b
			}
			return m.not(b)
		}
	case aErr:
		if _, ok := y.(aNil); ok {
			return m.errNil(st, a, op)
		}
		if b, ok := y.(aErr); ok {
			if b.id == "" {
				return m.errNil(st, a, op)
			}
			if a.id == "" {
				return m.errNil(st, b, op)
			}
			if named := strings.HasPrefix(a.id, "!@") || strings.HasPrefix(b.id, "!@"); named && (a.id == b.id || m.closed && a.id[0] == '!' && b.id[0] == '!') {
				return aBool{known: true, val: (a.id == b.id) == (op == token.EQL)}
			}
			return aBool{id: "same(" + a.id + "," + b.id + ")", not: op == token.NEQ}
		}
	case aNil:
		switch b := y.(type) {
		case aNil:
			return aBool{known: true, val: op == token.EQL}
		case aErr:
			return m.errNil(st, b, op)
		case aPtr, aFn, aIface:
			return aBool{known: true, val: op == token.NEQ}
		case aOpaque:
			return aBool{id: "nil(" + b.id + ")", not: op == token.NEQ}
		}
	case aPtr:
		if _, ok := y.(aNil); ok {
			return aBool{known: true, val: op == token.NEQ}
		}
		if b, ok := y.(aPtr); ok && a.cell == "" && b.cell == "" {
			return aBool{known: true, val: (a.obj == b.obj) == (op == token.EQL)}
		}
	case aFn, aIface:
		if _, ok := y.(aNil); ok {
			return aBool{known: true, val: op == token.NEQ}
		}
	case aOpaque:
		if _, ok := y.(aNil); ok {
			if m.closed && strings.HasPrefix(a.id, "fd:") {
				return aBool{known: true, val: op == token.NEQ}
			}
			return aBool{id: "nil(" + a.id + ")", not: op == token.NEQ}
		}
	case aSlice:
		_, none := y.(aNil)
		if b, ok := y.(aSlice); ok && b.obj < 0 {
			none = true
		}
		if none {
			if a.obj < 0 {
				return aBool{known: true, val: op == token.EQL}
			}
			if m.ivOf(st, a.n).lo > 0 {
				return aBool{known: true, val: op == token.NEQ}
			}
		}
	case aStr:
		if b, ok := y.(aStr); ok && a.known && b.known {
			return aBool{known: true, val: (a.s == b.s) == (op == token.EQL)}
		}
	case aAgg:
		if b, ok := y.(aAgg); ok {
			if eq, known := m.aggEqual(st, a.o, b.o); known {
				return aBool{known: true, val: eq == (op == token.EQL)}
			}
			k1, k2 := m.aggKey(st, a.o), m.aggKey(st, b.o)
			if k1 == k2 && !strings.Contains(k1, "~") {
				return aBool{known: true, val: op == token.EQL}
			}
			if m.distinct(st, k1, k2) {
				return aBool{known: true, val: op == token.NEQ}
			}
			if k1 > k2 {
				k1, k2 = k2, k1
			}
			return aBool{id: "eq(" + k1 + "," + k2 + ")", not: op == token.NEQ}
		}
	}
	return aBool{id: m.fresh("cmp")}
}

// aggEqual: whether two aggregates of integers are equal, if that is known.
func (m *amachine) aggEqual(st *astate, x, y *aobj) (eq, known bool) {
	if x.typ == nil || y.typ == nil || x.unknown != "" || y.unknown != "" || !types.Identical(x.typ.Underlying(), y.typ.Underlying()) {
		return false, false
	}
	var ids [2]int
	for i, o := range []*aobj{x, y} {
		ids[i] = m.alloc(st, o.typ, "")
		m.restore(st, ids[i], o)
	}
	eq, known = true, true
	var cmp func(a, b int, t types.Type)
	cell := func(a, b int, key string, off alin, isIdx bool, t types.Type) {
		if aggregate(t) {
			cmp(m.sub(st, a, key, off, t), m.sub(st, b, key, off, t), t)
			return
		}
		v, ok := m.intOf(m.readCell(st, a, key, off, isIdx, t))
		w, ok2 := m.intOf(m.readCell(st, b, key, off, isIdx, t))
		switch {
		case !ok || !ok2:
			known = false
		case m.same(st, v, w):
		default:
			iv := m.ivOf(st, v.add(w, -1))
			if iv.lo > 0 || iv.hi < 0 {
				eq = false
			} else {
				known = false
			}
		}
	}
	cmp = func(a, b int, t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				cell(a, b, fmt.Sprint(i), alin{}, false, u.Field(i).Type())
			}
		case *types.Array:
			if u.Len() > 64 {
				known = false
				return
			}
			for i := int64(0); i < u.Len(); i++ {
				cell(a, b, aconst(i).String(), aconst(i), true, u.Elem())
			}
		default:
			known = false
		}
	}
	cmp(ids[0], ids[1], x.typ)
	if !eq {
		return false, true
	}
	return eq, known
}

// aggKey: what an aggregate value consists of.
func (m *amachine) aggKey(st *astate, o *aobj) string {
	var ps []string
	for k, c := range o.cells {
		switch v := c.v.(type) {
		case aInt:
			ps = append(ps, k+"="+v.l.String())
		case nil:
			if s, ok := o.subs[k]; ok {
				ps = append(ps, k+"="+m.aggKey(st, s))
			}
		default:
			ps = append(ps, k+"="+fmt.Sprintf("%v", v))
		}
	}
	// cells that only repeat the unknown contents say nothing
	var qs []string
	for _, p := range ps {
		i := strings.IndexByte(p, '=')
		if o.unknown != "" && p[i+1:] == o.unknown+"."+p[:i] {
			continue
		}
		qs = append(qs, p)
	}
	sort.Strings(qs)
	if o.typ != nil {
		if at, ok := o.typ.Underlying().(*types.Array); ok && len(qs) == len(ps) && int64(len(ps)) == at.Len() {
			return "{" + strings.Join(qs, ";") + "}"
		}
	}
	return o.unknown + "{" + strings.Join(qs, ";") + "}"
}

// isObject: a key that is a pointer to an object.
func isObject(k string) bool { return strings.HasPrefix(strings.TrimPrefix(k, "#"), "@") }

// distinct: two aggregates (or map keys) differ: in a cell whose values are
// constants, or symbols of disjoint ranges.
func (m *amachine) distinct(st *astate, k1, k2 string) bool {
	cells := func(k string) map[string]string {
		i := strings.IndexByte(k, '{')
		if i < 0 || !strings.HasSuffix(k, "}") {
			return nil
		}
		out := map[string]string{}
		for _, p := range strings.Split(k[i+1:len(k)-1], ";") {
			if j := strings.IndexByte(p, '='); j > 0 && !strings.ContainsAny(p, "{}") {
				out[p[:j]] = p[j+1:]
			}
		}
		return out
	}
	if t1, t2 := strings.TrimPrefix(k1, "#"), strings.TrimPrefix(k2, "#"); strings.HasPrefix(t1, "\"") && strings.HasPrefix(t2, "\"") {
		return t1 != t2 // constant strings
	}
	if (isNumber(k1) || isObject(k1)) && (isNumber(k2) || isObject(k2)) {
		return strings.TrimPrefix(k1, "#") != strings.TrimPrefix(k2, "#")
	}
	if t1, n1, ok := termKey(k1); ok {
		if t2, n2, ok := termKey(k2); ok && t1 == t2 {
			return n1 != n2
		}
	}
	rangeOf := func(v string) (ival, bool) {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			return ival{n, n}, true
		}
		if _, ok := m.ivs[v]; ok {
			return m.ivSym(st, v), true
		}
		return ival{}, false
	}
	c1, c2 := cells(k1), cells(k2)
	for i, v := range c1 {
		w, ok := c2[i]
		if !ok || v == w {
			continue
		}
		if a, ok := rangeOf(v); ok {
			if b, ok := rangeOf(w); ok && (a.hi < b.lo || b.hi < a.lo) {
				return true
			}
		}
	}
	return false
}

func (m *amachine) errNil(st *astate, e aErr, op token.Token) aval {
	if e.id == "" {
		return aBool{known: true, val: op == token.EQL}
	}
	if e.id == "!" || strings.HasPrefix(e.id, "!") {
		return aBool{known: true, val: op == token.NEQ}
	}
	if v, ok := st.errs[e.id]; ok {
		return aBool{known: true, val: v == (op == token.EQL)}
	}
	return aBool{id: "errnil:" + e.id, not: op == token.NEQ}
}

func (m *amachine) not(b aBool) aBool {
	if b.known {
		return aBool{known: true, val: !b.val}
	}
	b.not = !b.not
	return b
}

func (m *amachine) compareInt(st *astate, op token.Token, x, y alin, unsigned bool) aval {
	if op == token.EQL || op == token.NEQ {
		bx, by := m.bytesOf(st, x), m.bytesOf(st, y)
		for i := range bx {
			if bx[i].sym == "" && by[i].sym == "" && !bx[i].top && !by[i].top && bx[i].c != by[i].c {
				return aBool{known: true, val: op == token.NEQ}
			}
			if by[i] == (ab{}) && m.nonZero(st, bx[i]) || bx[i] == (ab{}) && m.nonZero(st, by[i]) {
				return aBool{known: true, val: op == token.NEQ}
			}
		}
	}
	if unsigned && op != token.EQL && op != token.NEQ {
		ix, iy := m.ivOf(st, x), m.ivOf(st, y)
		if ix.lo < 0 || iy.lo < 0 {
			// A negative constant stands for a number above all that is not negative
			less := aBool{known: true, val: op == token.LSS || op == token.LEQ}
			if y.isConst() && y.c < 0 && ix.lo >= 0 {
				return less
			}
			if x.isConst() && x.c < 0 && iy.lo >= 0 {
				return m.not(less)
			}
			if x.isConst() && y.isConst() {
				less.val = less.val == (uint64(x.c) < uint64(y.c)) && x.c != y.c || x.c == y.c && (op == token.LEQ || op == token.GEQ)
				return less
			}
			// uint64(v) < 2^k and the like: v within [0, c)
			if y.isConst() && y.c > 0 && x.sym() != "" {
				return aBool{op: op, d: x.add(y, -1), u: true}
			}
			if x.isConst() && x.c > 0 && y.sym() != "" {
				return aBool{op: mirror(op), d: y.add(x, -1), u: true}
			}
			return aBool{id: m.fresh("ucmp")}
		}
	}
	d := x.add(y, -1)
	iv := m.ivOf(st, d)
	yes, no := aBool{known: true, val: true}, aBool{known: true}
	if s := d.sym(); s == "" && len(d.terms()) == 1 {
		t := d.terms()[0]
		if t.coef == 1 {
			for _, e := range st.excl[t.sym] {
				v := -d.c // sym == v ?
				if v >= e.lo && v <= e.hi {
					if op == token.EQL {
						return no
					}
					if op == token.NEQ {
						return yes
					}
				}
			}
		}
	} else if s != "" {
		for _, e := range st.excl[s] {
			if 0 >= e.lo && 0 <= e.hi {
				if op == token.EQL {
					return no
				}
				if op == token.NEQ {
					return yes
				}
			}
		}
	}
	switch op {
	case token.LSS:
		if iv.hi < 0 {
			return yes
		}
		if iv.lo >= 0 {
			return no
		}
	case token.LEQ:
		if iv.hi <= 0 {
			return yes
		}
		if iv.lo > 0 {
			return no
		}
	case token.GTR:
		if iv.lo > 0 {
			return yes
		}
		if iv.hi <= 0 {
			return no
		}
	case token.GEQ:
		if iv.lo >= 0 {
			return yes
		}
		if iv.hi < 0 {
			return no
		}
	case token.EQL:
		if iv.lo == 0 && iv.hi == 0 {
			return yes
		}
		if iv.lo > 0 || iv.hi < 0 {
			return no
		}
	case token.NEQ:
		if iv.lo == 0 && iv.hi == 0 {
			return no
		}
		if iv.lo > 0 || iv.hi < 0 {
			return yes
		}
	}
	return aBool{op: op, d: d}
}

// nonZero: a byte that is known not to be zero.
func (m *amachine) nonZero(st *astate, b ab) bool {
	if b.top {
		return false
	}
	if b.sym == "" {
		return b.c != 0
	}
	iv := m.ivSym(st, b.sym)
	return b.k == 0 && iv.lo >= 1 && iv.hi <= 255
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	}
	return token.EQL
}

// assume refines a state; false when it contradicts it.
func (m *amachine) assume(st *astate, b aBool, val bool) bool {
	if b.known {
		return b.val == val
	}
	if b.not {
		val = !val
	}
	if b.id != "" {
		if strings.HasPrefix(b.id, "errnil:") {
			id := b.id[7:]
			if v, ok := st.errs[id]; ok {
				return v == val
			}
			st.errs[id] = val
			return true
		}
		if v, ok := st.bools[b.id]; ok {
			return v == val
		}
		st.bools[b.id] = val
		return true
	}
	op := b.op
	if !val {
		op = negate(op)
	}
	if b.u {
		// unsigned: d = s - c with c > 0; s < c means 0 <= s < c
		t := b.d.terms()
		if len(t) != 1 || t[0].coef != 1 {
			return true
		}
		s, c := t[0].sym, -b.d.c
		switch op {
		case token.LSS:
			return m.narrow(st, s, 0, c-1)
		case token.LEQ:
			return m.narrow(st, s, 0, c)
		case token.GEQ:
			return m.exclude(st, s, 0, c-1)
		case token.GTR:
			return m.exclude(st, s, 0, c)
		}
		return true
	}
	return m.refine(st, op, b.d)
}

func (m *amachine) exclude(st *astate, s string, lo, hi int64) bool {
	iv := m.ivSym(st, s)
	if iv.lo >= lo && iv.hi <= hi {
		return false
	}
	if iv.lo >= lo && iv.lo <= hi {
		return m.narrow(st, s, hi+1, iv.hi)
	}
	if iv.hi >= lo && iv.hi <= hi {
		return m.narrow(st, s, iv.lo, lo-1)
	}
	st.excl[s] = append(st.excl[s][:len(st.excl[s]):len(st.excl[s])], ival{lo, hi})
	return true
}

func (m *amachine) narrow(st *astate, s string, lo, hi int64) bool {
	if w := m.wholeOf(st, s); w != "" {
		return m.narrow(st, w, lo, hi)
	}
	iv := m.ivSym(st, s)
	if lo > iv.lo {
		iv.lo = lo
	}
	if hi < iv.hi {
		iv.hi = hi
	}
	for ch := true; ch; {
		ch = false
		for _, e := range st.excl[s] {
			if iv.lo >= e.lo && iv.lo <= e.hi {
				if e.hi == math.MaxInt64 {
					return false
				}
				iv.lo, ch = e.hi+1, true
			}
			if iv.hi >= e.lo && iv.hi <= e.hi {
				if e.lo == math.MinInt64 {
					return false
				}
				iv.hi, ch = e.lo-1, true
			}
			if iv.lo > iv.hi {
				return false
			}
		}
	}
	if iv.lo > iv.hi {
		return false
	}
	st.iv[s] = iv
	return true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// refine by d op 0.
func (m *amachine) refine(st *astate, op token.Token, d alin) bool {
	ts := d.terms()
	if len(ts) == 0 {
		switch op {
		case token.LSS:
			return d.c < 0
		case token.LEQ:
			return d.c <= 0
		case token.GTR:
			return d.c > 0
		case token.GEQ:
			return d.c >= 0
		case token.EQL:
			return d.c == 0
		}
		return d.c != 0
	}
	if len(ts) == 1 {
		t := ts[0]
		k, c := t.coef, d.c
		if k < 0 {
			k, c = -k, -c
			op = mirror(op)
		}
		// k*s + c op 0
		s := t.sym
		ok := true
		switch op {
		case token.LSS:
			ok = m.narrow(st, s, math.MinInt64, floorDiv(-c-1, k))
		case token.LEQ:
			ok = m.narrow(st, s, math.MinInt64, floorDiv(-c, k))
		case token.GTR:
			ok = m.narrow(st, s, floorDiv(-c, k)+1, math.MaxInt64)
		case token.GEQ:
			ok = m.narrow(st, s, -floorDiv(c, k), math.MaxInt64)
		case token.EQL:
			if (-c)%k != 0 {
				return false
			}
			ok = m.narrow(st, s, -c/k, -c/k)
			if ok {
				m.bytesEqual(st, s, -c/k)
			}
		case token.NEQ:
			if (-c)%k != 0 {
				return true
			}
			ok = m.exclude(st, s, -c/k, -c/k)
			if ok && c == 0 {
				m.bytesNonZero(st, s)
			}
		}
		return ok
	}
	switch op {
	case token.LSS: // -d-1 >= 0
		st.facts = append(st.facts, d.times(-1).add(aconst(-1), 1))
	case token.LEQ:
		st.facts = append(st.facts, d.times(-1))
	case token.GTR:
		st.facts = append(st.facts, d.add(aconst(-1), 1))
	case token.GEQ:
		st.facts = append(st.facts, d)
	case token.EQL:
		st.eqs = append(st.eqs, d)
	}
	iv := m.ivOf(st, d)
	return iv.lo <= iv.hi
}

// bytesEqual: an interned byte vector is known to be a constant.
func (m *amachine) bytesEqual(st *astate, s string, v int64) {
	bs, ok := m.bytes[s]
	if !ok || v != 0 {
		return
	}
	// the top bytes of a symbol are all zero
	for _, b := range bs {
		if b.sym != "" {
			st.bools[fmt.Sprintf("zero:%s.%d", b.sym, b.k)] = true
		}
	}
	for i := 0; i < 8; i++ {
		b := bs[i]
		if b.sym == "" {
			continue
		}
		top := 8
		for top > 0 && (top-1 >= bytesUpTo(m.ivSym(st, b.sym)) || st.bools[fmt.Sprintf("zero:%s.%d", b.sym, top-1)]) {
			top--
		}
		if top < bytesUpTo(m.ivSym(st, b.sym)) {
			if top == 0 {
				m.narrow(st, b.sym, 0, 0)
			} else {
				m.narrow(st, b.sym, 0, int64(1)<<(8*uint(top))-1)
			}
			continue
		}
		all := true
		for k := b.k; k < 8; k++ {
			found := false
			for j := range bs {
				if bs[j].sym == b.sym && bs[j].k == k {
					found = true
				}
			}
			if !found && k < bytesUpTo(m.ivSym(st, b.sym)) {
				all = false
			}
		}
		if all {
			if b.k == 0 {
				m.narrow(st, b.sym, 0, 0)
			} else {
				m.narrow(st, b.sym, 0, int64(1)<<(8*uint(b.k))-1)
			}
		}
	}
}

func (m *amachine) bytesNonZero(st *astate, s string) {
	bs, ok := m.bytes[s]
	if !ok {
		return
	}
	// exactly the top bytes k.. of one symbol
	sym, k := "", 8
	for i := 0; i < 8; i++ {
		if bs[i].sym == "" {
			if bs[i].c != 0 {
				return
			}
			continue
		}
		if sym == "" {
			sym, k = bs[i].sym, bs[i].k
		}
		if bs[i].sym != sym {
			return
		}
		if bs[i].k < k {
			k = bs[i].k
		}
	}
	if sym == "" || k == 0 || k > 7 {
		return
	}
	m.exclude(st, sym, 0, int64(1)<<(8*uint(k))-1)
}

func constOf(k *ssa.Const) (int64, bool) {
	if k.Value == nil {
		return 0, false
	}
	c := constant.ToInt(k.Value)
	if c.Kind() != constant.Int {
		return 0, false
	}
	if v, ok := constant.Int64Val(c); ok {
		return v, true
	}
	if v, ok := constant.Uint64Val(c); ok {
		return int64(v), true
	}
	return 0, false
}
