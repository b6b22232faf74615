package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: stored numbers read back unchanged. The writers and readers are interpreted abstractly: bytes by provenance,
// positions as linear forms.

// codec drives one abstract analysis.
type codec struct {
	P     *Prog
	r     *Result
	rule  string
	fn    string
	pos   string
	m     *amachine
	n     int
	bad   map[string]bool
	fails int
}

func (P *Prog) codec(r *Result, rule string, f *ssa.Function) *codec {
	return &codec{P: P, r: r, rule: rule, fn: fnName(f), pos: P.Pos(f.Pos()), m: newMachine(P), bad: map[string]bool{}}
}

func (c *codec) oblig(ok bool, construct, msg string) bool {
	c.r.count("obligations decided by interpretation", 1)
	ok = ok && !c.m.over
	if !ok {
		if c.fails++; c.fails >= 300 {
			c.m.over = true // Enough is known
		}
		if c.bad[construct] {
			return false
		}
		c.bad[construct] = true
		for w := range c.m.why {
			msg += " [not interpreted: " + w + "]"
			break
		}
	}
	c.r.oblig(ok, Finding{Rule: c.rule, Func: c.fn, Construct: construct, Pos: c.pos, Msg: msg})
	return ok
}

func at(f *ssa.Function) func(P *Prog) string { return func(P *Prog) string { return P.Pos(f.Pos()) } }

func (c *codec) about(f *ssa.Function) *codec {
	c.fn, c.pos = fnName(f), c.P.Pos(f.Pos())
	return c
}

var int64Type = types.Typ[types.Int64]

func i64(l alin) aval { return aInt{l, int64Type.Underlying().(*types.Basic)} }

// good results: not panicked, nil error (when there is an error result).
func succeeded(o aout) bool {
	if o.panic {
		return false
	}
	for _, v := range o.rets {
		if e, ok := v.(aErr); ok && e.id != "" {
			if isNil, known := o.st.errs[e.id]; !known || !isNil {
				return false
			}
		}
	}
	return true
}

// ioFailed: the path contains a failure of the file itself.
func ioFailed(o aout) bool {
	for _, isNil := range o.st.errs {
		if !isNil {
			return true
		}
	}
	return false
}

// bytesAt: what a file holds at a position.
func (m *amachine) bytesAt(st *astate, file string, off alin, n int) [8]ab {
	s := aSlice{obj: m.fileObj(st, file), elem: byteType}
	var out [8]ab
	for i := 0; i < n; i++ {
		out[i] = m.getByte(st, s, off.add(aconst(int64(i)), 1))
	}
	return out
}

// forget: the file's contents become unknown (named name).
func (m *amachine) forget(st *astate, file, name string) {
	o := m.mut2(st, m.fileObj(st, file))
	o.cells = map[string]acell{}
	o.unknown = name
}

// sliceVals: the elements of a slice of known length.
func (m *amachine) sliceVals(st *astate, v aval) ([]aval, bool) {
	s, ok := v.(aSlice)
	if !ok {
		if _, isNil := v.(aNil); isNil {
			return nil, true
		}
		return nil, false
	}
	if !s.n.isConst() {
		return nil, false
	}
	var out []aval
	for i := int64(0); i < s.n.c; i++ {
		o := s.off.add(aconst(i), 1)
		out = append(out, m.readCell(st, s.obj, o.String(), o, true, s.elem))
	}
	return out, true
}

// canonical form of an integer in a state (a symbol confined to few bytes and its bytes are the same).
func (m *amachine) same(st *astate, x, y alin) bool {
	if x == y {
		return true
	}
	if iv := m.ivOf(st, x.add(y, -1)); iv.lo == 0 && iv.hi == 0 {
		return true
	}
	return m.bytesOf(st, x) == m.bytesOf(st, y) && !m.bytesOf(st, x)[0].top
}

func sameInt(m *amachine, st *astate, v aval, want alin) bool {
	l, ok := m.intOf(v)
	return ok && m.same(st, l, want)
}

func maxOf(w int64) int64 {
	if w >= 8 {
		return math.MaxInt64
	}
	return int64(1)<<(8*uint(w)) - 1
}

// fits: whether a symbol can / must be within the width.
func fitsAll(m *amachine, st *astate, s string, w int64) bool {
	if w >= 8 {
		return true
	}
	iv := m.ivSym(st, s)
	return iv.lo >= 0 && iv.hi <= maxOf(w)
}

// mayFit: some value that fits is left on this path.
func mayFit(m *amachine, st *astate, s string, w int64) bool {
	c := st.clone()
	lo := int64(0)
	if !m.narrow(c, s, lo, maxOf(w)) {
		return false
	}
	return true
}

func init() {
	checks["C12"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"word-roundtrip: interpreting WriteWordAt(v, off) abstractly from the state its constructor leaves, for every word size 1..8 and symbolic v, off and count: it succeeds only with v within the word size and never refuses a v that fits; it writes exactly the bytes [w*off, w*off+w) of the file; ReadWordAt(off) afterwards yields v; a read of any other contents yields exactly those bytes (nothing left over in the scratch space, also after a refused write); the count becomes max(count, off+1) and is untouched by a refused write",
			"hash-roundtrip: likewise for 32-byte hashes; AppendHash writes at the old count and reports it",
			"shadow-roundtrip: the in-memory copy agrees with the file after opening, after writing (inside, at and beyond the end) and after a failed write",
			"whole-file: reading the whole file yields count words, each from its own bytes",
			"varint: for each encoding path the value set it is taken for decodes to the same value with the same length; every non-negative value is encoded",
			"array-file: what SaveFile writes LoadFile reads back, element by element, for every element size; an element that does not fit is refused",
			"map-store: interpreting the stores of arrays from their creator: values appended to arrays in several files and folders, with any of them held in memory, are read back in order, before and after the store is opened again",
			"count-on-open: the element count an opened file starts with is its size divided by the element size (0 when just created)",
			"byte-order: nothing in the module uses another byte order than little-endian",
		}
		r.Assume = []string{
			"a file's ReadAt/WriteAt transfer all bytes of the buffer at the given offset or return an error (decided for the repository's own file types by C08)",
			"offset arithmetic does not overflow 64 bits; values at word size 8 are the non-negative and negative int64 bit patterns",
			"array files, shadows and whole-file reads are interpreted for instances of three elements per array; elements are symbolic",
		}
		P.checkWordFiles(r)
		P.checkHashFiles(r)
		P.checkShadowed(r)
		P.checkVarInt(r)
		P.checkArrayFile(r)
		P.checkByteOrder(r)
		P.checkMapStores(r)
		P.checkCounts(r)
		r.floor("word file constructors", 2)
		r.floor("stores of arrays driven", 9)
		r.floor("hash file constructors", 1)
		r.floor("shadowed constructors", 1)
		r.floor("obligations decided by interpretation", 400)
		r.floor("openings with a count", 10)
		return r
	}
}

// constructors of a type: functions returning it that set its fields.
func (P *Prog) constructorsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	if n == nil {
		return nil
	}
	sp := P.SSA.Package(n.Obj().Pkg())
	for _, mem := range sp.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || f.Signature.Results().Len() == 0 || f.Signature.Recv() != nil || f.Blocks == nil {
			continue
		}
		if derefType(f.Signature.Results().At(0).Type()) == types.Type(n) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// ctorArgs: opaque files for interface and pointer parameters; the integers in order.
func (m *amachine) ctorArgs(f *ssa.Function, file string, ints ...alin) []aval {
	var out []aval
	st := m.newState()
	k := 0
	for i, p := range f.Params {
		switch {
		case isIntType(p.Type()):
			if k < len(ints) {
				out = append(out, aInt{ints[k], basicOf(p.Type())})
			} else {
				out = append(out, m.unknownVal(st, p.Type(), fmt.Sprint("arg", i)))
			}
			k++
		case i == 0 || types.IsInterface(p.Type()):
			out = append(out, aOpaque{file, p.Type()})
		default:
			out = append(out, aOpaque{file + "'", p.Type()})
		}
	}
	return out
}

func (P *Prog) checkWordFiles(r *Result) {
	n := P.Named("wordfile", "WordFile")
	write, read, count := P.Method(n, "WriteWordAt"), P.Method(n, "ReadWordAt"), P.Method(n, "CountWords")
	whole := P.Method(n, "ReadWholeFileAsInt64s")
	for _, ctor := range P.constructorsOf(n) {
		if write == nil || read == nil || count == nil {
			continue
		}
		r.count("word file constructors", 1)
		for w := int64(1); w <= 8; w++ {
			P.wordRoundTrip(r, ctor, write, read, count, w)
			if whole != nil {
				P.wholeWords(r, ctor, whole, w)
			}
		}
	}
}

func (P *Prog) wordRoundTrip(r *Result, ctor, write, read, count *ssa.Function, w int64) {
	c := P.codec(r, "word-roundtrip", write)
	m := c.m
	C := m.symbol("C", 0, 1<<40)
	O := m.symbol("O", 0, 1<<40)
	O3 := m.symbol("O3", 0, 1<<40)
	V := m.symbol("V", math.MinInt64, math.MaxInt64)
	tag := fmt.Sprintf(" (word size %d, built by %s)", w, ctor.Name())
	for _, b := range m.run(ctor, m.ctorArgs(ctor, "F", aconst(w), C), nil, m.newState()) {
		if b.panic || len(b.rets) == 0 {
			continue
		}
		obj := b.rets[0]
		m.forget(b.st, "F", "F")
		outs := m.run(write, []aval{obj, i64(V), i64(O)}, nil, b.st.clone())
		ok := 0
		for _, o := range outs {
			if o.panic {
				c.oblig(!mayFit(m, o.st, "V", w), "write panics", "panics for a value that fits"+tag)
				continue
			}
			before := o.st.clone()
			if succeeded(o) {
				ok++
				c.oblig(fitsAll(m, o.st, "V", w), "width check", "a value that does not fit the word size is accepted"+tag)
				c.oblig(len(o.st.writes) == 1 && o.st.writes[0].file == "F" && m.same(o.st, o.st.writes[0].off, O.times(w)) && o.st.writes[0].n == aconst(w),
					"write position", "a successful write must write exactly the word's own bytes, once"+tag+writesOf(o.st))
				// reading back
				good := 0
				for _, b := range c.about(read).m.run(read, []aval{obj, i64(O)}, nil, o.st.clone()) {
					if !succeeded(b) {
						c.oblig(ioFailed(b), "read refuses", "a read of a written position fails without the file failing"+tag)
						continue
					}
					good++
					c.oblig(sameInt(m, b.st, b.rets[0], V), "value read back", fmt.Sprintf("the value read back is not the value written but %v%s", b.rets[0], tag))
				}
				c.oblig(good > 0, "value read back", "no successful read of a written position"+tag)
				c.about(write)
				// the count
				for _, b := range m.run(count, []aval{obj}, nil, o.st.clone()) {
					if !succeeded(b) {
						continue
					}
					k, isInt := m.intOf(b.rets[0])
					enough := isInt && m.ivOf(b.st, k.add(O, -1)).lo >= 1
					exact := isInt && (m.same(b.st, k, O.add(aconst(1), 1)) && m.ivOf(b.st, k.add(C, -1)).lo >= 0 || m.same(b.st, k, C))
					c.oblig(enough && exact, "count after write", fmt.Sprintf("after writing position O of a file of C words the count must be max(C, O+1), it is %v%s", b.rets[0], tag))
				}
			} else {
				if !ioFailed(o) {
					c.oblig(!mayFit(m, o.st, "V", w), "refused value", "a value that fits is refused"+tag)
					c.oblig(len(o.st.writes) == 0, "refused write", "a refused value is written nevertheless"+tag)
				}
				for _, b := range m.run(count, []aval{obj}, nil, o.st.clone()) {
					if succeeded(b) {
						c.oblig(sameInt(m, b.st, b.rets[0], C), "count after failed write", "a failed write changes the count"+tag)
					}
				}
			}
			// what is read next is only what the file holds
			m.forget(before, "F", "G")
			c.about(read)
			good := 0
			for _, b := range m.run(read, []aval{obj, i64(O3)}, nil, before) {
				if !succeeded(b) {
					continue
				}
				good++
				want := m.bytesAt(b.st, "F", O3.times(w), int(w))
				l, isInt := m.intOf(b.rets[0])
				c.oblig(isInt && m.bytesOf(b.st, l) == want, "bytes read", fmt.Sprintf("a read must yield exactly the bytes of its own position, zero-extended, whatever happened before%s", tag))
			}
			c.oblig(good > 0, "bytes read", "no successful read"+tag)
			c.about(write)
		}
		c.oblig(ok > 0, "write succeeds", "no path on which a value is written"+tag)
	}
}

func writesOf(st *astate) string {
	var ps []string
	for _, w := range st.writes {
		ps = append(ps, fmt.Sprintf("%s[%s,+%s]", w.file, w.off, w.n))
	}
	return " writes: " + strings.Join(ps, " ")
}

func (P *Prog) wholeWords(r *Result, ctor, whole *ssa.Function, w int64) {
	c := P.codec(r, "whole-file", whole)
	m := c.m
	for _, b := range m.run(ctor, m.ctorArgs(ctor, "F", aconst(w), aconst(3)), nil, m.newState()) {
		if b.panic {
			continue
		}
		m.forget(b.st, "F", "F")
		good := 0
		for _, o := range m.run(whole, []aval{b.rets[0]}, nil, b.st) {
			if !succeeded(o) {
				c.oblig(ioFailed(o), "whole read", "reading a whole file fails without the file failing")
				continue
			}
			good++
			vs, ok := m.sliceVals(o.st, o.rets[0])
			ok = ok && len(vs) == 3
			for i := 0; ok && i < 3; i++ {
				l, isInt := m.intOf(vs[i])
				ok = isInt && m.bytesOf(o.st, l) == m.bytesAt(o.st, "F", aconst(int64(i)*w), int(w))
			}
			c.oblig(ok, "whole read", fmt.Sprintf("reading the whole file must yield each word from its own bytes (word size %d)", w))
		}
		c.oblig(good > 0, "whole read", "no successful whole-file read is recognised")
	}
}

func (P *Prog) checkHashFiles(r *Result) {
	n := P.Named("wordfile", "HashFile")
	write, read, count, app := P.Method(n, "WriteHashAt"), P.Method(n, "ReadHashAt"), P.Method(n, "CountHashes"), P.Method(n, "AppendHash")
	if write == nil || read == nil || count == nil || app == nil {
		return
	}
	for _, ctor := range P.constructorsOf(n) {
		r.count("hash file constructors", 1)
		c := P.codec(r, "hash-roundtrip", write)
		m := c.m
		C := m.symbol("C", 0, 1<<40)
		O := m.symbol("O", 0, 1<<40)
		for _, b := range m.run(ctor, m.ctorArgs(ctor, "F", C), nil, m.newState()) {
			if b.panic {
				continue
			}
			obj := b.rets[0]
			m.forget(b.st, "F", "F")
			st0 := b.st
			hash := m.unknownVal(st0, write.Params[1].Type(), "H")
			try := func(f *ssa.Function, args []aval, off alin) {
				ok := 0
				c.about(f)
				for _, o := range m.run(f, args, nil, st0.clone()) {
					if !succeeded(o) {
						c.oblig(!o.panic && ioFailed(o), "refused hash", "a hash is refused")
						for _, b := range m.run(count, []aval{obj}, nil, o.st.clone()) {
							c.oblig(sameInt(m, b.st, b.rets[0], C), "count after failed write", "a failed write changes the count")
						}
						continue
					}
					ok++
					c.oblig(len(o.st.writes) == 1 && o.st.writes[0].file == "F" && m.same(o.st, o.st.writes[0].off, off.times(32)) && o.st.writes[0].n == aconst(32),
						"write position", "a hash must be written to its own 32 bytes, once."+writesOf(o.st))
					good := 0
					for _, b := range m.run(read, []aval{obj, i64(off)}, nil, o.st.clone()) {
						if !succeeded(b) {
							continue
						}
						good++
						c.oblig(m.compare(b.st, token.EQL, b.rets[0], hash) == aval(aBool{known: true, val: true}) || m.sameHash(b.st, b.rets[0], hash), "hash read back", "the hash read back is not the hash written")
					}
					c.oblig(good > 0, "hash read back", "no successful read")
					for _, b := range m.run(count, []aval{obj}, nil, o.st.clone()) {
						k, isInt := m.intOf(b.rets[0])
						c.oblig(isInt && m.ivOf(b.st, k.add(off, -1)).lo >= 1 && (m.same(b.st, k, off.add(aconst(1), 1)) && m.ivOf(b.st, k.add(C, -1)).lo >= 0 || m.same(b.st, k, C)),
							"count after write", fmt.Sprintf("after writing a hash the count must be the larger of the old count and the position after it, it is %v", b.rets[0]))
					}
					if f == app {
						c.oblig(sameInt(m, o.st, o.rets[0], C), "appended position", "AppendHash must report the position it wrote to")
					}
				}
				c.oblig(ok > 0, "write succeeds", "no path on which a hash is written")
			}
			try(write, []aval{obj, hash, i64(O)}, O)
			try(app, []aval{obj, hash}, C)
			// a read yields what the file holds
			c.about(read)
			for _, b := range m.run(read, []aval{obj, i64(O)}, nil, st0.clone()) {
				if !succeeded(b) {
					continue
				}
				ag, ok := b.rets[0].(aAgg)
				for i := int64(0); ok && i < 32; i++ {
					v := m.fromAgg(b.st, ag.o, aconst(i).String(), aconst(i), byteType)
					l, isInt := m.intOf(v)
					ok = isInt && m.bytesOf(b.st, l)[0] == m.bytesAt(b.st, "F", O.times(32).add(aconst(i), 1), 1)[0]
				}
				c.oblig(ok, "bytes read", "a hash must be read from its own 32 bytes")
			}
		}
	}
}

// sameHash: two byte arrays are equal byte by byte.
func (m *amachine) sameHash(st *astate, x, y aval) bool {
	a, ok1 := x.(aAgg)
	b, ok2 := y.(aAgg)
	if !ok1 || !ok2 || a.o.n != b.o.n {
		return false
	}
	for i := int64(0); i < a.o.n.c; i++ {
		p, ok1 := m.intOf(m.fromAgg(st, a.o, aconst(i).String(), aconst(i), byteType))
		q, ok2 := m.intOf(m.fromAgg(st, b.o, aconst(i).String(), aconst(i), byteType))
		if !ok1 || !ok2 || m.bytesOf(st, p) != m.bytesOf(st, q) {
			return false
		}
	}
	return true
}

func (P *Prog) checkShadowed(r *Result) {
	n := P.Named("wordfile", "MemShadowedWordFile")
	write, read := P.Method(n, "WriteWordAt"), P.Method(n, "ReadWordAt")
	count, whole := P.Method(n, "CountWords"), P.Method(n, "ReadWholeFileAsInt64s")
	if write == nil || read == nil || count == nil || whole == nil {
		return
	}
	for _, ctor := range P.constructorsOf(n) {
		r.count("shadowed constructors", 1)
		for _, w := range []int64{1, 3, 8} {
			for _, off := range []int64{0, 1, 2, 4} {
				c := P.codec(r, "shadow-roundtrip", ctor)
				m := c.m
				V := m.symbol("V", math.MinInt64, math.MaxInt64)
				st := m.newState()
				m.forget(st, "F", "F")
				good := 0
				for _, b := range m.run(ctor, m.ctorArgs(ctor, "F", aconst(w), aconst(2)), nil, st) {
					if !succeeded(b) {
						c.oblig(!b.panic && ioFailed(b), "opening", "opening fails without the file failing")
						continue
					}
					good++
					obj := b.rets[0]
					word := func(st *astate, i int64) [8]ab { return m.bytesAt(st, "F", aconst(i*w), int(w)) }
					// cells as in the file
					agree := func(st *astate, i int64, want [8]ab, what string) {
						ok := false
						for _, o := range m.run(read, []aval{obj, i64(aconst(i))}, nil, st.clone()) {
							if !succeeded(o) {
								continue
							}
							l, isInt := m.intOf(o.rets[0])
							ok = isInt && m.bytesOf(o.st, l) == want
							if !ok {
								break
							}
						}
						c.oblig(ok, what, fmt.Sprintf("the in-memory copy of word %d disagrees with the file (word size %d, written position %d)", i, w, off))
					}
					for i := int64(0); i < 2; i++ {
						agree(b.st, i, word(b.st, i), "copy after opening")
					}
					c.about(write)
					done := 0
					for _, o := range m.run(write, []aval{obj, i64(V), i64(aconst(off))}, nil, b.st.clone()) {
						if o.panic {
							c.oblig(!mayFit(m, o.st, "V", w), "write panics", "panics for a value that fits")
							continue
						}
						if succeeded(o) {
							done++
							agree(o.st, off, m.bytesOf(o.st, V), "copy after writing")
							for i := int64(2); i < off; i++ {
								agree(o.st, i, [8]ab{}, "words skipped over")
							}
						}
						for i := int64(0); i < 2; i++ {
							if i != off || !succeeded(o) {
								agree(o.st, i, word(b.st.clone(), i), "other words")
							}
						}
						want := int64(2)
						if succeeded(o) && off >= 2 {
							want = off + 1
						}
						for _, k := range m.run(count, []aval{obj}, nil, o.st.clone()) {
							if succeeded(k) {
								c.oblig(sameInt(m, k.st, k.rets[0], aconst(want)), "count after write", "the count must grow to the written position only when the write succeeded")
							}
						}
					}
					c.oblig(done > 0, "write succeeds", "no path on which a value is written")
				}
				c.oblig(good > 0, "opening", "no path on which the file is opened")
			}
		}
	}
}

func (P *Prog) checkVarInt(r *Result) {
	n := P.Named("intarrayarray", "VarInt")
	from, to, enc, dec := P.Method(n, "FromInt64"), P.Method(n, "ToInt64"), P.Method(n, "ToBytes"), P.Method(n, "FromBytes")
	if from == nil || to == nil || enc == nil || dec == nil {
		return
	}
	c := P.codec(r, "varint", enc)
	m := c.m
	V := m.symbol("V", 0, math.MaxInt64)
	st := m.newState()
	a := m.alloc(st, n, "")
	var covered []ival
	for _, s := range m.run(from, []aval{aPtr{obj: a}, i64(V)}, nil, st) {
		for _, e := range m.run(enc, []aval{aPtr{obj: a}}, nil, s.st) {
			if e.panic {
				c.oblig(false, "encoding panics", "encoding a non-negative value panics")
				continue
			}
			bs, ok := m.sliceVals(e.st, e.rets[0])
			if !c.oblig(ok, "encoding", "the encoding is not recognised") {
				continue
			}
			iv := m.ivSym(e.st, "V")
			covered = append(covered, iv)
			r.count("varint encodings", 1)
			// followed by unrelated bytes
			buf := m.alloc(e.st, types.NewSlice(byteType), "X")
			e.st.heap[buf].n = aconst(64)
			bufv := aSlice{obj: buf, n: aconst(64), cap: aconst(64), elem: byteType}
			for i, b := range bs {
				o := aconst(int64(i))
				m.writeCell(e.st, buf, o.String(), o, true, b)
			}
			b2 := m.alloc(e.st, n, "")
			good := 0
			for _, d := range c.about(dec).m.run(dec, []aval{aPtr{obj: b2}, bufv}, nil, e.st.clone()) {
				if d.panic {
					c.oblig(false, "decoding panics", "decoding what was encoded panics")
					continue
				}
				good++
				c.oblig(sameInt(m, d.st, d.rets[0], aconst(int64(len(bs)))), "decoded length", fmt.Sprintf("values %d..%d are encoded in %d bytes but %v are read", iv.lo, iv.hi, len(bs), d.rets[0]))
				for _, g := range m.run(to, []aval{aPtr{obj: b2}}, nil, d.st.clone()) {
					c.oblig(!g.panic && sameInt(m, g.st, g.rets[0], V), "decoded value", fmt.Sprintf("values %d..%d do not decode to themselves", iv.lo, iv.hi))
				}
			}
			c.oblig(good > 0, "decoded value", "no decoding path for what was encoded")
			c.about(enc)
		}
	}
	sort.Slice(covered, func(i, j int) bool { return covered[i].lo < covered[j].lo })
	next := int64(0)
	ok := true
	for i, iv := range covered {
		ok = ok && iv.lo == next
		if iv.hi == math.MaxInt64 {
			ok = ok && i == len(covered)-1
			break
		}
		next = iv.hi + 1
	}
	c.oblig(ok && len(covered) > 0, "value ranges", fmt.Sprintf("the encodings must cover the non-negative values exactly once: %v", covered))
	r.floor("varint encodings", 2)
}

func (P *Prog) checkArrayFile(r *Result) {
	n := P.Named("intarrayarray", "IntArrayArray")
	ctor := P.Func("intarrayarray", "NewIntArrayArray")
	add, get, save, load := P.Method(n, "AppendToArray"), P.Method(n, "GetArray"), P.Method(n, "SaveFile"), P.Method(n, "LoadFile")
	if ctor == nil || add == nil || get == nil || save == nil || load == nil {
		r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: "intarrayarray.IntArrayArray", Msg: "the array file type is gone"})
		return
	}
	for w := int64(1); w <= 8; w++ {
		c := P.codec(r, "array-file", save)
		m := c.m
		m.model = wholeFileModel
		names := []string{"A", "B", "D"}
		for _, s := range names {
			m.symbol(s, math.MinInt64, math.MaxInt64)
		}
		st := m.newState()
		mk := func(st *astate, name string) (*astate, aval) {
			for _, b := range m.run(ctor, m.ctorArgs(ctor, "", aconst(3), aconst(w)), nil, st) {
				ag, ok := b.rets[0].(aAgg)
				if !ok {
					return b.st, b.rets[0]
				}
				id := m.alloc(b.st, n, "")
				m.restore(b.st, id, ag.o)
				return b.st, aPtr{obj: id}
			}
			return st, aNil{}
		}
		st, src := mk(st, "src")
		step := func(st *astate, key int64, s string) *astate {
			for _, o := range m.run(add, []aval{src, i64(aconst(key)), i64(asymbol(s))}, nil, st) {
				if !o.panic {
					return o.st
				}
			}
			return st
		}
		// array 0 holds A, array 1 nothing, array 2 B and D
		st = step(step(step(st, 2, "B"), 0, "A"), 2, "D")
		want := [][]string{{"A"}, {}, {"B", "D"}}
		look := func(st *astate, obj aval, f *ssa.Function, what string) {
			for k, w := range want {
				ok := false
				for _, o := range m.run(get, []aval{obj, i64(aconst(int64(k)))}, nil, st.clone()) {
					vs, known := m.sliceVals(o.st, o.rets[0])
					ok = known && len(vs) == len(w) && !o.panic
					for i := 0; ok && i < len(w); i++ {
						ok = sameInt(m, o.st, vs[i], asymbol(w[i]))
					}
					if !ok {
						break
					}
				}
				c.about(f)
				c.oblig(ok, what, fmt.Sprintf("array %d does not hold the values put into it, in order", k))
			}
		}
		look(st, src, add, "arrays in memory")
		path := aStr{id: "path"}
		saved := 0
		for _, o := range m.run(save, []aval{src, path}, nil, st.clone()) {
			c.about(save)
			all, can := true, true
			for _, s := range names {
				all = all && fitsAll(m, o.st, s, w)
				can = can && mayFit(m, o.st, s, w)
			}
			if !succeeded(o) {
				c.oblig(!o.panic && (ioFailed(o) || !can), "refused arrays", fmt.Sprintf("values that fit are refused (element size %d)", w))
				c.oblig(ioFailed(o) || len(o.st.writes) == 0, "refused arrays", "refused values are written nevertheless")
				continue
			}
			saved++
			c.oblig(all, "width check", fmt.Sprintf("an element that does not fit the element size %d is accepted", w))
			if !all {
				continue
			}
			st2, dst := mk(o.st.clone(), "dst")
			loaded := 0
			for _, l := range m.run(load, []aval{dst, path}, nil, st2) {
				c.about(load)
				if !succeeded(l) {
					c.oblig(!l.panic && ioFailed(l), "loading", "loading what was saved fails without the file failing")
					continue
				}
				loaded++
				look(l.st, dst, load, "arrays read back")
			}
			c.oblig(loaded > 0, "loading", "no path on which what was saved is loaded")
		}
		c.about(save)
		c.oblig(saved > 0, "saving", "no path on which the arrays are saved")
	}
}

// wholeFileModel: os.WriteFile and os.ReadFile keep whole contents.
func wholeFileModel(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	switch name {
	case "os.WriteFile":
		s, ok := args[1].(aSlice)
		p, ok2 := args[0].(aStr)
		if !ok || !ok2 || !s.n.isConst() {
			return nil, false
		}
		c := st.clone()
		id := m.failure()
		c.errs[id] = false
		f := m.fileObj(st, "path:"+strKey(p))
		o := m.mut2(st, f)
		o.cells = map[string]acell{}
		o.n = s.n
		for i := int64(0); i < s.n.c; i++ {
			m.putByte(st, aSlice{obj: f, elem: byteType}, aconst(i), m.getByte(st, s, aconst(i)))
		}
		st.writes = append(st.writes, awrite{"path:" + strKey(p), aconst(0), s.n, nil, site})
		return []aout{{st: c, rets: []aval{aErr{id: "!" + id}}}, {st: st, rets: []aval{aErr{}}}}, true
	case "os.ReadFile":
		p, ok := args[0].(aStr)
		if !ok {
			return nil, false
		}
		c := st.clone()
		id := m.failure()
		c.errs[id] = false
		f := m.fileObj(st, "path:"+strKey(p))
		nid := m.alloc(st, types.NewSlice(byteType), "")
		m.restore(st, nid, m.snapshot(st, f))
		n := st.heap[f].n
		return []aout{{st: c, rets: []aval{aSlice{obj: -1, elem: byteType}, aErr{id: "!" + id}}}, {st: st, rets: []aval{aSlice{obj: nid, n: n, cap: n, elem: byteType}, aErr{}}}}, true
	}
	return nil, false
}

func (P *Prog) checkByteOrder(r *Result) {
	uses := 0
	for _, f := range P.Funcs {
		if testHelper(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/binary" {
						continue
					}
					uses++
					r.oblig(g.Name() == "LittleEndian", Finding{Rule: "byte-order", Func: fnName(f), Construct: "binary." + g.Name(), Pos: P.Pos(in.Pos()), Msg: "every stored number is little-endian; this uses another byte order"})
				}
			}
		}
	}
	r.count("byte order uses", uses)
	r.floor("byte order uses", 20)
}

// checkCounts: the count a file is opened with.
func (P *Prog) checkCounts(r *Result) {
	for _, f := range P.Funcs {
		if testHelper(f) || f.Parent() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				site, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := site.Call.StaticCallee()
				if g == nil || relPkg(g) != "wordfile" || g.Signature.Recv() != nil {
					continue
				}
				var ints []ssa.Value
				for _, a := range site.Call.Args {
					if isIntType(a.Type()) {
						ints = append(ints, a)
					}
				}
				var size *Expr
				switch g.Name() {
				case "NewHashFile":
					size = &Expr{Op: "const", Name: "32"}
				case "NewWordFile", "NewWordFileEx", "NewMemShadowedWordFile":
					if len(ints) != 2 {
						continue
					}
					size = P.sym(ints[0], nil)
				default:
					continue
				}
				if len(ints) == 0 {
					continue
				}
				if relPkg(f) == "wordfile" && P.passesThrough(f, ints[len(ints)-1]) {
					continue
				}
				n := P.symAlts(ints[len(ints)-1], nil)
				r.count("openings with a count", 1)
				ok2 := true
				var alts []*Expr
				if n.Op == "phi" {
					alts = n.Args
				} else {
					alts = []*Expr{n}
				}
				for _, e := range alts {
					if _, isC := e.Int(); isC {
						continue // just created, or a documented job's known count
					}
					if e.Op == "bin" && e.Name == "/" && e.Args[0].Op == "call" && e.Args[0].Name == "Size" {
						if d := e.Args[1].String(); d == size.String() || g.Name() == "NewHashFile" && strings.HasSuffix(d, ".HashLength") {
							continue
						}
					}
					ok2 = false
				}
				r.oblig(ok2, Finding{Rule: "count-on-open", Func: fnName(f), Construct: g.Name(), Pos: P.Pos(site.Pos()),
					Msg: fmt.Sprintf("the file is opened with the count %s, which is not its size divided by the element size %s", n, size)})
			}
		}
	}
}

// passesThrough: a parameter handed on by a constructor that wraps another.
func (P *Prog) passesThrough(f *ssa.Function, v ssa.Value) bool {
	p, ok := v.(*ssa.Parameter)
	return ok && p.Parent() == f
}
