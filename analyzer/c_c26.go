package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: a tier is emptied only after its content is safe below. C27: lookups never reach a closed or replaced tier.
// Both interpret a bake in a closed world of files: the tiers are opened from files of every shape of interest, the
// design of the trees and their nodes are modelled, and every file operation may fail.

func init() {
	checks["C26"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"content-first: on every path of a bake, when the first file of the source tier is truncated or removed, no file operation of the bake has failed, every file of the tier below has been written in full, closed, and is not written afterwards",
			"failure-keeps-content: a bake in which a file operation fails returns an error, and if it fails before the source tier is touched the source tier's files are as they were",
			"content-kept: after a successful bake the tier below holds the hashes of the source tier after those it had, byte for byte",
		}
		r.Assume = []string{"a file operation either does all it is asked or fails (C08, C12)", "the nodes of the trees are those of C24"}
		b := &bakes{P: P, r: r, what: "C26"}
		b.all()
		r.floor("bakes interpreted", 10)
		r.floor("paths through a bake", 300)
		r.floor("emptyings decided", 10)
		return r
	}
	checks["C27"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{
			"chain-current: after a successful bake the chain of tiers from the newest holds, in order and once each, an open tier for every tier with files, as many forests in each as its files hold, and no tier whose files or maps are closed",
			"nothing-left-open: after a successful bake the only files and maps open are those of the tiers in the chain",
			"numbers-kept: every number from before the bake is answered by exactly one tier of the chain, with the hash it had",
		}
		r.Assume = []string{"a file operation either does all it is asked or fails (C08, C12)"}
		b := &bakes{P: P, r: r, what: "C27"}
		b.all()
		r.floor("bakes interpreted", 10)
		r.floor("successful bakes", 10)
		r.floor("tiers in chains", 20)
		r.floor("numbers asked", 60)
		return r
	}
}

type bakes struct {
	P              *Prog
	r              *Result
	what           string
	top, below     *types.Named
	conf, mkTop    *ssa.Function
	mkWrite, write *ssa.Function
	design         *types.Named
	opening        bool
}

// bakeCase: a tier (-1 the newest) is baked; forests[i] of tier i exist on disk (0: the tier does not); full: the
// tier below is full after it.
type bakeCase struct {
	src     int
	forests [4]int
	full    int // tiers full after the bake into them: 0 none, 1 the one below, 2 also the next
	over    bool
}

func (c bakeCase) String() string {
	s := "the newest tier"
	if c.src >= 0 {
		s = fmt.Sprintf("tier %d", c.src)
	}
	return fmt.Sprintf(" (baking %s, with %v forests in the tiers below, %d of them full then)", s, c.forests, c.full)
}

func (b *bakes) lost(what string) {
	b.r.oblig(false, Finding{Rule: "anchor-lost", Func: "-", Construct: what, Msg: "the layered store has no " + what + " any more"})
}

func (b *bakes) all() {
	if !b.anchors() {
		return
	}
	for _, c := range []bakeCase{
		{-1, [4]int{0, 0, 0, 0}, 0, false},
		{-1, [4]int{1, 0, 0, 0}, 0, false},
		{-1, [4]int{2, 1, 0, 0}, 0, false},
		{-1, [4]int{0, 2, 0, 1}, 0, false},
		{-1, [4]int{1, 0, 0, 0}, 1, false},
		{-1, [4]int{1, 1, 0, 0}, 1, false},
		{-1, [4]int{2, 1, 1, 0}, 1, false},
		{-1, [4]int{1, 1, 1, 0}, 2, false},
		{0, [4]int{2, 0, 0, 0}, 0, false},
		{0, [4]int{2, 1, 1, 0}, 0, false},
		{1, [4]int{1, 2, 1, 1}, 0, false},
		{2, [4]int{0, 1, 2, 1}, 0, false},
	} {
		b.bake(c)
	}
}

func (b *bakes) anchors() bool {
	P := b.P
	b.top, b.below, b.design = P.Named("weddingcakeback", "TierTop"), P.Named("weddingcakeback", "TierBelow"), P.Named("weddingcakeback", "BakingDesign")
	b.conf, b.mkTop = P.Func("weddingcakeback", "NewCakeConfig"), P.Func("weddingcakeback", "NewTierTop")
	b.mkWrite = P.Func("weddingcakeback", "NewDonutForestWrite")
	if dfw := P.Named("weddingcakeback", "DonutForestWrite"); dfw != nil {
		b.write = P.Method(dfw, "Write")
	}
	if b.top == nil || b.below == nil || b.design == nil || b.conf == nil || b.mkTop == nil || b.mkWrite == nil || b.write == nil {
		b.lost("weddingcakeback.DonutForestWrite.Write")
		return false
	}
	return true
}

const tierHashes = 2 // hashes of every forest in the files
const topHashes = 3

func (m *amachine) mkFile(st *astate, path string, bytes []aval) {
	p := "path:" + strKey(aStr{s: path, known: true})
	st.bools["exists:"+p] = true
	f := m.fileObj(st, p)
	o := m.mut2(st, f)
	o.cells, o.unknown, o.n = map[string]acell{}, "", aconst(int64(len(bytes)))
	for i, v := range bytes {
		off := aconst(int64(i))
		o.cells[off.String()] = acell{off, v}
	}
}

func numBytes(v int64, w int) []aval {
	var out []aval
	for i := 0; i < w; i++ {
		out = append(out, aInt{aconst(v >> (8 * i) & 255), byteType})
	}
	return out
}

func (b *bakes) bake(c bakeCase) {
	P := b.P
	cd := P.codec(b.r, "chain-current", b.write)
	m := cd.m
	m.maxIter, m.maxSteps = 300, 100000000
	m.closed = true
	d := &driver{P: P, m: m, cd: cd, tag: c.String()}
	m.model = b.model(c)
	b.opening = true
	st := m.newState()
	// Files
	hash := func(i int) []aval {
		var out []aval
		out = append(out, aInt{aconst(int64(i)), byteType})
		for k := 1; k < 32; k++ {
			s := fmt.Sprintf("h%d.%d", i, k)
			m.ivs[s] = ival{0, 255}
			out = append(out, aInt{asymbol(s), byteType})
		}
		return out
	}
	next := 0
	var hashes [][]aval
	firstOf := map[int]int{}
	idSizes := []int{2, 3, 4, 5}
	for t := 3; t >= 0; t-- {
		firstOf[t] = next
		if c.forests[t] == 0 {
			continue
		}
		var hs, info, level, jumps []aval
		for f := 0; f < c.forests[t]; f++ {
			info = append(info, numBytes(int64(next), 8)...)
			info = append(info, numBytes(int64(t+1), 1)...)
			for l := 0; l <= t; l++ {
				info = append(info, numBytes(int64(2+idSizes[t]+4), 8)...)
				info = append(info, numBytes(7, 8)...)
			}
			level = append(level, numBytes(0, 2+idSizes[t]+4+7)...)
			jumps = append(jumps, numBytes(0, 8)...)
			for k := 0; k < tierHashes; k++ {
				hs = append(hs, hash(next)...)
				hashes = append(hashes, hash(next))
				next++
			}
		}
		dir := fmt.Sprintf("cake/Tier%d/", t)
		m.mkFile(st, dir+"Hashes.hsh", hs)
		m.mkFile(st, dir+"DonutForestsInfo.bin", info)
		m.mkFile(st, dir+"DonutForestsJumpTables.bin", jumps)
		for l := 0; l <= t; l++ {
			m.mkFile(st, fmt.Sprintf("%sLevel%02XNodes.bin", dir, l), level)
		}
	}
	first := next
	var hs []aval
	for k := 0; k < topHashes; k++ {
		hs = append(hs, hash(next)...)
		hashes = append(hashes, hash(next))
		next++
	}
	m.mkFile(st, "cake/TierTop/Hashes.hsh", hs)
	m.mkFile(st, "cake/TierTop/FirstPresentationIndex.bin", numBytes(int64(first), 8))
	d.step(st, b.conf, []aval{aInt{aconst(32), byteType}, aInt{aconst(4), byteType}}, "making the configuration", func(o aout) {
		config, _ := o.rets[0].(aPtr)
		// How many forests fill a tier
		for t := 0; t < 4; t++ {
			quota := int64(c.forests[t] + 100)
			if b.what == "C25" && t == c.src+1 {
				quota = int64(c.forests[t] + 2)
			}
			if c.over && t == 0 {
				quota = int64(c.forests[t] - 1)
			}
			if dest := c.src + 1; t >= dest && t < dest+c.full {
				quota = int64(c.forests[t] + 1)
			}
			k, ct := fieldKeyOf(o.st.heap[config.obj].typ, "TierBelowConfigs")
			if k == "" {
				b.lost("weddingcakeback.CakeConfig.TierBelowConfigs")
				return
			}
			arr := m.sub(o.st, config.obj, k, alin{}, ct)
			off := aconst(int64(t))
			tc := m.sub(o.st, arr, off.String(), off, elemType(ct))
			m.setField(o.st, tc, "MaxDonutForests", aInt{aconst(quota), byteType})
		}
		if c.over {
			for _, o := range m.run(b.mkTop, []aval{aStr{s: "cake", known: true}, config, aBool{known: true}}, nil, o.st) {
				b.r.count("openings refused", 1)
				cd.about(b.mkTop).oblig(!succeeded(o), "too many forests opened", "a tier with more forests than its quota is opened")
			}
			return
		}
		d.step(o.st, b.mkTop, []aval{aStr{s: "cake", known: true}, config, aBool{known: true}}, "opening the tiers", func(o aout) {
			chain := b.chain(m, o.st, o.rets[0])
			if !cd.about(b.mkTop).oblig(len(chain) > c.src+1, "tiers opened", fmt.Sprintf("%d tiers are opened%s", len(chain), d.tag)) {
				return
			}
			src := chain[c.src+1]
			var srcT types.Type = types.NewPointer(b.top)
			if c.src >= 0 {
				srcT = types.NewPointer(b.below)
			}
			d.step(o.st, b.mkWrite, []aval{aIface{src, srcT}, config}, "making the writer", func(w aout) {
				st := w.st
				st.writes, st.errs = nil, map[string]bool{}
				b.opening = b.what == "C25"
				b.r.count("bakes interpreted", 1)
				b.judge(c, d, st, o.rets[0], m.run(b.write, []aval{w.rets[0], aStr{s: "cake", known: true}}, nil, st.clone()), hashes)
			})
		})
	})
}

// chain of the tiers from the newest.
func (b *bakes) chain(m *amachine, st *astate, top aval) []aval {
	var out []aval
	v := top
	for len(out) < 8 {
		p, ok := v.(aPtr)
		if !ok {
			break
		}
		out = append(out, p)
		v = unwrapped(m.getField(st, p.obj, "nextTier"))
	}
	return out
}

// model of a bake: the trees are designed and serialised as one node of 7 bytes on every level.
func (b *bakes) model(c bakeCase) func(*amachine, *astate, ssa.CallInstruction, string, aval, []aval) ([]aout, bool) {
	return func(m *amachine, st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
		short := name
		if strings.Contains(name, modulePath+"/weddingcakeback.") {
			short = name[strings.LastIndex(name, ".")+1:]
		}
		switch short {
		case "GatherMetricsFromSourceTier":
			return one(st), true
		case "DesignTheDesign":
			t, ok := m.intOf(args[len(args)-1])
			if !ok || !t.isConst() {
				return nil, false
			}
			return one(st, b.aDesign(m, st, int(t.c)+1)), true
		case "GetHashesAtIndex":
			id := m.alloc(st, site.Common().Signature().Results().At(0).Type(), "")
			return one(st, aSlice{obj: id, elem: elemType(site.Common().Signature().Results().At(0).Type())}), true
		case "GetIndicesCount":
			return one(st, aInt{aconst(1), types.Typ[types.Uint64]}), true
		case "serializeSingleTreeNodeBytes":
			rs := site.Common().Signature().Results()
			t3 := rs.At(0).Type()
			t2, t1 := elemType(t3), elemType(elemType(t3))
			n := 1
			for _, a := range args {
				if p, ok := a.(aPtr); ok && typeKey(st.heap[p.obj].typ) == typeKey(b.design) {
					if s, ok := m.getField(st, p.obj, "LevelSpecs").(aSlice); ok && s.n.isConst() {
						n = int(s.n.c)
					}
				}
			}
			var levels []aval
			for i := 0; i < n; i++ {
				var bs []aval
				for k := 0; k < 7; k++ {
					bs = append(bs, aInt{aconst(int64(k)), byteType})
				}
				levels = append(levels, m.sliceOf(st, t1, m.sliceOf(st, elemType(t1), bs...)))
			}
			return one(st, m.sliceOf(st, t2, levels...), aInt{aconst(1), basicOf(rs.At(1).Type())}), true
		case "GenerateSingleTree":
			return one(st, aPtr{obj: m.alloc(st, derefType(site.Common().Signature().Results().At(0).Type()), "tree")}), true
		}
		before := ioFailures(st)
		switch name {
		case "os.Remove", "os.RemoveAll", "os.Create", "os.Truncate", "Truncate", "os.Rename", "os.WriteFile":
			for _, fd := range m.openFDs(st) {
				if st.bools["writable:"+fd] {
					m.note(st, "held", "path:"+pathOfFD(fd), site)
				}
			}
		}
		often := !b.opening && doneBefore(st, site)
		outs, ok := closedFS(m, st, site, name, recv, args)
		if !ok {
			outs, ok = m.osFileOp(st, site, name, recv, args)
		}
		var keep []aout
		for _, o := range outs {
			if ioFailures(o.st) > before {
				if strings.HasSuffix(name, "Close") && !writableFD(st, recv, args) {
					continue // closing a file that is only read loses nothing
				}
				if before > 0 || b.opening || often {
					continue // one failure is enough, of the first two times an operation is done
				}
				m.note(o.st, "failed", name, site)
			}
			keep = append(keep, o)
		}
		return keep, ok
	}
}

// osFileOp: the operations of a file itself.
func (m *amachine) osFileOp(st *astate, site ssa.CallInstruction, name string, recv aval, args []aval) ([]aout, bool) {
	if r, ok := recv.(aOpaque); ok {
		return m.fileOp(st, site, r, name, args)
	}
	if strings.HasPrefix(name, "(*os.File).") {
		if r, ok := unwrapOpaque(args[0]); ok {
			return m.fileOp(st, site, r, strings.TrimPrefix(name, "(*os.File)."), args[1:])
		}
	}
	return nil, false
}

func writableFD(st *astate, recv aval, args []aval) bool {
	r, ok := unwrapOpaque(recv)
	if !ok && len(args) > 0 {
		r, ok = unwrapOpaque(args[0])
	}
	return !ok || st.bools["writable:"+r.id]
}

// doneBefore: the operation at site was done twice before on this path.
func doneBefore(st *astate, site ssa.CallInstruction) bool {
	k := fmt.Sprintf("times:%p", site)
	for i := 0; i < 2; i++ {
		if t := fmt.Sprintf("%s:%d", k, i); !st.bools[t] {
			st.bools[t] = true
			return false
		}
	}
	return true
}

// ioFailures of file operations so far.
func ioFailures(st *astate) int {
	n := 0
	for _, isNil := range st.errs {
		if !isNil {
			n++
		}
	}
	return n
}

func (b *bakes) aDesign(m *amachine, st *astate, levels int) aval {
	_, lt := fieldKeyOf(b.design, "LevelSpecs")
	et := elemType(lt)
	_, gt := fieldKeyOf(et, "Groups")
	var ls []aval
	for i := 0; i < levels; i++ {
		g := m.alloc(st, elemType(gt), "")
		m.setField(st, g, "NodesCount", aInt{aconst(1), types.Typ[types.Uint64]})
		m.setField(st, g, "Bytes", aInt{aconst(7), types.Typ[types.Uint64]})
		l := m.alloc(st, et, "")
		m.setField(st, l, "Groups", m.sliceOf(st, elemType(gt), aAgg{m.snapshot(st, g)}))
		ls = append(ls, aAgg{m.snapshot(st, l)})
	}
	id := m.alloc(st, b.design, "")
	m.setField(st, id, "LevelSpecs", m.sliceOf(st, et, ls...))
	return aPtr{obj: id}
}

func (b *bakes) judge(c bakeCase, d *driver, st0 *astate, top aval, outs []aout, hashes [][]aval) {
	b.r.count("paths through a bake", len(outs))
	good := 0
	for _, o := range outs {
		if b.what == "C26" {
			b.order(c, d, st0, o)
		}
		if o.panic {
			d.cd.about(b.write).oblig(ioFailed(o), "a bake panics", "a bake panics though no file failed"+d.tag)
			continue
		}
		if !succeeded(o) {
			d.cd.about(b.write).oblig(ioFailed(o), "a bake fails", "a bake fails though no file failed"+d.tag)
			if b.what == "C06" && ioFailed(o) {
				b.r.count("bakes that fail", 1)
				d.cd.rule = "failed-bake"
				for _, fd := range d.m.openFDs(o.st) {
					if tierOf("path:"+pathOfFD(fd)) == "TierTop" {
						continue // the newest tier has its file open as before
					}
					d.cd.about(b.write).oblig(!o.st.bools["writable:"+fd], "left open", fmt.Sprintf("a bake that fails (%s) leaves %s open%s", lastFailure(o.st), pathOfFD(fd), d.tag))
				}
			}
			continue
		}
		if b.what == "C06" {
			good++
			continue
		}
		if ioFailed(o) {
			if b.what == "C26" {
				d.cd.rule = "failure-keeps-content"
				d.cd.about(b.write).oblig(false, "failure hidden", "a bake succeeds though a file failed: "+lastFailure(o.st)+d.tag)
			}
			continue
		}
		good++
		b.r.count("successful bakes", 1)
		b.after(c, d, o, top, hashes)
	}
	d.cd.rule = "chain-current"
	d.cd.about(b.write).oblig(good > 0, "bakes", "no path on which the bake succeeds"+d.tag)
}

func lastFailure(st *astate) string {
	s := "?"
	for _, w := range st.writes {
		if strings.HasPrefix(w.file, "!failed ") {
			s = strings.TrimPrefix(w.file, "!failed ")
		}
	}
	return s
}

// tierOf a path: the folder of the tier it lies in.
func tierOf(file string) string {
	p := file
	if i := strings.Index(p, "path:"); i >= 0 {
		p = pathOfFD(p)
	} else if i := strings.LastIndex(p, " "); strings.HasPrefix(p, "!") && i >= 0 {
		p = p[i+1:]
	}
	if i := strings.Index(p, "cake/"); i >= 0 {
		p = p[i+len("cake/"):]
		if j := strings.IndexAny(p, "/\""); j >= 0 {
			return p[:j]
		}
		return p
	}
	return ""
}

// order of the operations of one path.
func (b *bakes) order(c bakeCase, d *driver, st0 *astate, o aout) {
	failed := ""
	var held []string // files open for writing when the next file is removed or truncated
	name := func(t int) string {
		if t < 0 {
			return "TierTop"
		}
		return fmt.Sprintf("Tier%d", t)
	}
	// Each source in turn: the tier baked, then the one below it, if full
	touched := map[string]bool{}
	sources := map[string]string{}
	for i := 0; i <= c.full; i++ {
		sources[name(c.src+i)] = name(c.src + i + 1)
	}
	written := map[string]bool{}
	for _, w := range o.st.writes {
		if !strings.HasPrefix(w.file, "!") {
			t := tierOf(w.file)
			written[t] = true
			for s := range touched {
				if sources[s] == t {
					d.cd.rule = "content-first"
					d.cd.oblig(false, "written after emptying", fmt.Sprintf("a file of the tier below is written after the tier above it was emptied: %s%s", pathOfFD(w.file), d.tag))
				}
			}
			continue
		}
		op, rest, _ := strings.Cut(strings.TrimPrefix(w.file, "!"), " ")
		t := tierOf(w.file)
		switch op {
		case "failed":
			failed = rest
			held = nil
		case "held":
			held = append(held, rest)
		case "remove", "truncate":
			if dest, ok := sources[t]; ok && !touched[t] {
				touched[t] = true
				b.r.count("emptyings decided", 1)
				d.cd.rule = "content-first"
				d.cd.oblig(failed == "", "emptied after a failure", fmt.Sprintf("the source tier is emptied although %s failed%s", failed, d.tag))
				d.cd.oblig(written[dest], "emptied unwritten", "the source tier is emptied before the tier below is written"+d.tag)
				for _, p := range held {
					if tierOf(p) == dest {
						d.cd.oblig(false, "emptied while open", fmt.Sprintf("the source tier is emptied while a file of the tier below is still being written: %s%s", p, d.tag))
					}
				}
			}
			held = nil
		}
	}
	if failed != "" {
		d.cd.rule = "failure-keeps-content"
		for i := 0; i <= c.full; i++ {
			if src := name(c.src + i); !touched[src] {
				for _, f := range st0files(st0, src) {
					d.cd.oblig(o.st.bools["exists:"+f], "source kept", fmt.Sprintf("%s is gone after a failure%s", f, d.tag))
				}
			}
		}
	}
	if failed != "" && len(touched) == 0 {
		// The source is as it was
		src := name(c.src)
		d.cd.oblig(!written[src], "source kept", "the source tier is written to by a bake that fails"+d.tag)
	}
}

func st0files(st *astate, tier string) []string {
	var out []string
	for k, v := range st.bools {
		if v && strings.HasPrefix(k, "exists:") && tierOf(strings.TrimPrefix(k, "exists:")) == tier {
			out = append(out, strings.TrimPrefix(k, "exists:"))
		}
	}
	return out
}

// after a successful bake.
func (b *bakes) after(c bakeCase, d *driver, o aout, top aval, hashes [][]aval) {
	m, st, cd := d.m, o.st, d.cd
	chain := b.chain(m, st, top)
	if b.what == "C27" {
		cd.rule = "chain-current"
	} else {
		cd.rule = "content-kept"
	}
	if b.what == "C25" {
		cd.rule = "quota-kept"
	}
	// What the files say
	onDisk := map[int64]int64{}
	for t := int64(0); t < 4; t++ {
		p := "path:" + strKey(aStr{s: fmt.Sprintf("cake/Tier%d/DonutForestsInfo.bin", t), known: true})
		if st.bools["exists:"+p] {
			onDisk[t] = st.heap[m.fileObj(st, p)].n.c / (8 + 1 + 16*(t+1))
		}
	}
	if b.what == "C25" {
		want := c.forests
		if c.src >= 0 {
			want[c.src] = 0
		}
		for i := 0; i < c.full; i++ {
			want[c.src+1+i] = 0
		}
		want[c.src+1+c.full]++
		for t, n := range want {
			cd.oblig(onDisk[int64(t)] == int64(n), "forests after a bake", fmt.Sprintf("tier %d has %d forests instead of %d%s", t, onDisk[int64(t)], n, d.tag))
		}
		return
	}
	last := int64(-1)
	seen := map[int]bool{}
	inChain := map[int64]bool{}
	openNow := map[string]bool{}
	for _, fd := range m.openFDs(st) {
		openNow[fd] = true
	}
	for i, v := range chain {
		p := v.(aPtr)
		if b.what == "C27" {
			b.r.count("tiers in chains", 1)
			cd.oblig(!seen[p.obj], "tier twice", "a tier is its own successor after a bake"+d.tag)
		}
		seen[p.obj] = true
		hf := unwrapped(m.getField(st, p.obj, "underlyingFile"))
		fd, isFD := hf.(aOpaque)
		if i == 0 {
			if b.what == "C27" {
				cd.oblig(isFD && openNow[fd.id], "tier closed", "the newest tier is closed after a bake"+d.tag)
			}
			delete(openNow, fd.id)
			continue
		}
		ti, _ := m.intOf(m.getField(st, p.obj, "TierIndex"))
		forests := int64(-1)
		switch s := m.getField(st, p.obj, "DonutForestsInfo").(type) {
		case aSlice:
			if s.n.isConst() {
				forests = s.n.c
			}
		case aNil:
			forests = 0
		}
		inChain[ti.c] = true
		if b.what == "C27" {
			cd.oblig(ti.isConst() && ti.c > last, "tiers out of order", fmt.Sprintf("tier %v follows tier %d after a bake%s", ti, last, d.tag))
			last = ti.c
			cd.oblig(forests == onDisk[ti.c], "forests of a tier", fmt.Sprintf("tier %d in the chain has %d forests, its files %d%s", ti.c, forests, onDisk[ti.c], d.tag))
			if forests > 0 {
				cd.oblig(isFD && openNow[fd.id], "tier closed", fmt.Sprintf("tier %d in the chain is closed%s", ti.c, d.tag))
				var maps []aval
				if s, ok := m.sliceVals(st, m.getField(st, p.obj, "LevelXXNodesMemoryMaps")); ok {
					maps = s
				}
				cd.oblig(len(maps) > 0, "tier unmapped", fmt.Sprintf("tier %d in the chain has no maps%s", ti.c, d.tag))
				for _, mp := range append(maps, m.getField(st, p.obj, "JumpTableMemoryMap")) {
					cd.oblig(m.mappedNow(st, mp), "tier unmapped", fmt.Sprintf("a map of tier %d in the chain is unmapped%s", ti.c, d.tag))
				}
			}
		}
		if isFD {
			delete(openNow, fd.id)
		}
	}
	if b.what == "C27" {
		for t, n := range onDisk {
			cd.oblig(n == 0 || inChain[t], "tier out of reach", fmt.Sprintf("tier %d has files but is not in the chain%s", t, d.tag))
		}
		cd.rule = "nothing-left-open"
		for fd := range openNow {
			cd.oblig(false, "left open", fmt.Sprintf("%s is still open after a bake%s", pathOfFD(fd), d.tag))
		}
		maps := 0
		for k, v := range st.bools {
			if v && strings.HasPrefix(k, "mapped:") {
				maps++
			}
		}
		for _, v := range chain[1:] {
			p := v.(aPtr)
			s, _ := m.sliceVals(st, m.getField(st, p.obj, "LevelXXNodesMemoryMaps"))
			for _, mp := range append(s, m.getField(st, p.obj, "JumpTableMemoryMap")) {
				if m.mappedNow(st, mp) {
					maps--
				}
			}
		}
		cd.oblig(maps == 0, "left mapped", fmt.Sprintf("%d maps no tier in the chain has are still mapped after a bake%s", maps, d.tag))
	}
	b.numbers(c, d, st, chain, hashes)
}

func (m *amachine) mappedNow(st *astate, v aval) bool {
	s, ok := v.(aSlice)
	if !ok {
		return false
	}
	for id, o := range st.files {
		if o == s.obj && strings.HasPrefix(id, "map:") {
			return st.bools["mapped:"+id]
		}
	}
	return false
}

// numbers from before the bake.
func (b *bakes) numbers(c bakeCase, d *driver, st *astate, chain []aval, hashes [][]aval) {
	m, cd := d.m, d.cd
	cd.rule = map[string]string{"C26": "content-kept", "C27": "numbers-kept"}[b.what]
	get := map[bool]*ssa.Function{true: b.P.Method(b.top, "TryGetHashAtIndex"), false: b.P.Method(b.below, "TryGetHashAtIndex")}
	if get[true] == nil || get[false] == nil {
		b.lost("TryGetHashAtIndex")
		return
	}
	for i, h := range hashes {
		b.r.count("numbers asked", 1)
		var want []ab
		for _, v := range h {
			want = append(want, m.bytesOf(st, v.(aInt).l)[0])
		}
		holders := 0
		for t, tier := range chain {
			s2 := st.clone()
			buf := m.alloc(s2, types.NewSlice(byteType), "before")
			m.mut2(s2, buf).n = aconst(32)
			out := aSlice{obj: buf, n: aconst(32), cap: aconst(32), elem: byteType}
			for _, o := range m.run(get[t == 0], []aval{tier, i64(aconst(int64(i))), out}, nil, s2) {
				if !succeeded(o) {
					cd.about(get[t == 0]).oblig(!o.panic && ioFailed(o), "number unreadable", fmt.Sprintf("asking a tier for number %d fails though no file failed%s", i, d.tag))
					continue
				}
				f, ok := o.rets[0].(aBool)
				if !cd.oblig(ok && f.known, "number undecided", "whether a tier holds a number is undecided"+d.tag) || !f.val {
					continue
				}
				holders++
				bs, known := m.sliceBytes(o.st, out)
				cd.about(get[t == 0]).oblig(known && m.sameBytes(o.st, bs, want), "hash of a number", fmt.Sprintf("after a bake number %d has another hash%s", i, d.tag))
			}
		}
		cd.about(b.write).oblig(holders == 1, "number held", fmt.Sprintf("number %d is held by %d tiers after a bake%s", i, holders, d.tag))
	}
}
