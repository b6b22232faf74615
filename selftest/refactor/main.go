// refactor rewrites a copy of the repository without changing what it does, so that it can be seen whether the checks
// stay quiet.   refactor -repo DIR -kind KIND [-seed N]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	pkg   *packages.Package
	edits []edit
	tail  string
}

var fset = token.NewFileSet()
var rnd *rand.Rand
var nEdits int

func (f *file) off(p token.Pos) int { return fset.Position(p).Offset }
func (f *file) text(n ast.Node) string {
	return string(f.src[f.off(n.Pos()):f.off(n.End())])
}
func (f *file) span(a, b token.Pos) string { return string(f.src[f.off(a):f.off(b)]) }

// replace adds an edit unless it overlaps with one made before.
func (f *file) replace(a, b token.Pos, s string) bool {
	x, y := f.off(a), f.off(b)
	for _, e := range f.edits {
		if x < e.to && e.from < y || x == y && (e.from < x && x < e.to) {
			return false
		}
	}
	f.edits = append(f.edits, edit{x, y, s})
	nEdits++
	return true
}

func main() {
	repo := flag.String("repo", "", "")
	kind := flag.String("kind", "", "")
	seed := flag.Int64("seed", 1, "")
	only := flag.String("pkg", "", "only packages whose path contains this")
	flag.Parse()
	rnd = rand.New(rand.NewSource(*seed))
	pkgs, err := packages.Load(&packages.Config{Dir: *repo, Fset: fset, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps}, "./...")
	if err != nil {
		panic(err)
	}
	var files []*file
	for _, p := range pkgs {
		if len(p.Errors) > 0 || !strings.Contains(p.PkgPath, *only) {
			continue
		}
		for i, a := range p.Syntax {
			n := p.GoFiles[i]
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, err := os.ReadFile(n)
			if err != nil {
				panic(err)
			}
			files = append(files, &file{name: n, src: src, ast: a, pkg: p})
		}
	}
	if strings.HasPrefix(*kind, "rename") {
		rename(files, *kind)
	}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.TypeParams != nil {
				continue
			}
			switch *kind {
			case "inv":
				inv(f, fd)
			case "split":
				split(f, fd)
			case "swap":
				swap(f, fd)
			case "tmp":
				tmp(f, fd)
			case "retval":
				retval(f, fd)
			case "args":
				args(f, fd)
			case "loop1":
				loop1(f, fd)
			case "loop2":
				loop2(f, fd)
			case "else":
				elseReturn(f, fd)
			case "extract":
				extract(f, fd, false)
			case "tail":
				extract(f, fd, true)
			case "closure":
				closure(f, fd)
			case "reorder":
				reorder(f, fd)
			case "demorgan":
				demorgan(f, fd)
			case "switch":
				toSwitch(f, fd)
			case "rename", "renamef", "renamem", "renamet":
			default:
				panic("kind?")
			}
		}
		if len(f.edits) == 0 && f.tail == "" {
			continue
		}
		sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].from < f.edits[j].from })
		var out bytes.Buffer
		at := 0
		for _, e := range f.edits {
			out.Write(f.src[at:e.from])
			out.WriteString(e.text)
			at = e.to
		}
		out.Write(f.src[at:])
		out.WriteString(f.tail)
		if err := os.WriteFile(f.name, out.Bytes(), 0644); err != nil {
			panic(err)
		}
	}
	fmt.Println(*kind, *seed, nEdits, "edits")
}

func each(n ast.Node, fn func(ast.Node) bool) { ast.Inspect(n, fn) }

func inv(f *file, fd *ast.FuncDecl) {
	each(fd.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.IfStmt)
		if !ok {
			return true
		}
		b, ok := s.Else.(*ast.BlockStmt)
		if !ok {
			return true
		}
		if inElse(fd.Body, s) {
			return true
		}
		f.replace(s.Cond.Pos(), s.End(), "!("+f.text(s.Cond)+") "+f.text(b)+" else "+f.text(s.Body))
		return false
	})
}

func inElse(body ast.Node, s *ast.IfStmt) bool {
	r := false
	each(body, func(n ast.Node) bool {
		if o, ok := n.(*ast.IfStmt); ok && o.Else == ast.Stmt(s) {
			r = true
		}
		return true
	})
	return r
}

func lists(n ast.Node, fn func([]ast.Stmt, ast.Node)) {
	each(n, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			fn(b.List, b)
		case *ast.CaseClause:
			fn(b.Body, b)
		case *ast.CommClause:
			fn(b.Body, b)
		}
		return true
	})
}

func split(f *file, fd *ast.FuncDecl) {
	lists(fd.Body, func(l []ast.Stmt, _ ast.Node) {
		for i, s := range l {
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Init == nil {
				continue
			}
			_ = i
			// terminating statements stay terminating inside a block
			f.replace(x.Pos(), x.Cond.Pos(), "{\n"+f.text(x.Init)+"\nif ")
			f.replace(x.End(), x.End(), "\n}")
		}
	})
}

func calls(n ast.Node) int {
	k := 0
	each(n, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.CallExpr:
			_ = t
			k++
		case *ast.UnaryExpr:
			if t.Op == token.ARROW {
				k++
			}
		}
		return true
	})
	return k
}

func swap(f *file, fd *ast.FuncDecl) {
	each(fd.Body, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		tx := f.pkg.TypesInfo.TypeOf(b.X)
		if tx == nil {
			return true
		}
		if calls(b.X) > 0 && calls(b.Y) > 0 {
			return true
		}
		op := b.Op.String()
		switch b.Op {
		case token.EQL, token.NEQ:
		case token.LSS:
			op = ">"
		case token.GTR:
			op = "<"
		case token.LEQ:
			op = ">="
		case token.GEQ:
			op = "<="
		case token.ADD, token.MUL:
			bt, ok := tx.Underlying().(*types.Basic)
			if !ok || bt.Info()&types.IsInteger == 0 {
				return true
			}
		default:
			return true
		}
		if op == b.Op.String() && (b.Op == token.ADD || b.Op == token.MUL) {
			f.replace(b.Pos(), b.End(), "("+f.text(b.Y)+" "+op+" "+paren(f.text(b.X))+")")
		} else {
			f.replace(b.Pos(), b.End(), f.text(b.Y)+" "+op+" "+f.text(b.X))
		}
		return false
	})
}
func paren(s string) string { return "(" + s + ")" }

var ntmp int

func tmp(f *file, fd *ast.FuncDecl) {
	lists(fd.Body, func(l []ast.Stmt, _ ast.Node) {
		for _, s := range l {
			x, ok := s.(*ast.AssignStmt)
			if !ok || len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
				continue
			}
			if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			t := f.pkg.TypesInfo.TypeOf(x.Rhs[0])
			if t == nil {
				continue
			}
			if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				continue
			}
			if tv := f.pkg.TypesInfo.Types[x.Rhs[0]]; tv.Value != nil {
				continue
			}
			if _, lit := x.Rhs[0].(*ast.FuncLit); lit {
				continue
			}
			ntmp++
			f.replace(x.Pos(), x.End(), fmt.Sprintf("vft%d := %s\n%s %s vft%d", ntmp, f.text(x.Rhs[0]), f.text(x.Lhs[0]), x.Tok, ntmp))
		}
	})
}

func retval(f *file, fd *ast.FuncDecl) {
	lists(fd.Body, func(l []ast.Stmt, _ ast.Node) {
		for _, s := range l {
			x, ok := s.(*ast.ReturnStmt)
			if !ok || len(x.Results) != 1 {
				continue
			}
			c, ok := x.Results[0].(*ast.CallExpr)
			if !ok || f.pkg.TypesInfo.Types[c.Fun].IsType() {
				continue
			}
			n := 1
			if tu, ok := f.pkg.TypesInfo.TypeOf(c).(*types.Tuple); ok {
				n = tu.Len()
			}
			var ns []string
			for i := 0; i < n; i++ {
				ntmp++
				ns = append(ns, fmt.Sprintf("vft%d", ntmp))
			}
			f.replace(x.Pos(), x.End(), strings.Join(ns, ", ")+" := "+f.text(c)+"\nreturn "+strings.Join(ns, ", "))
		}
	})
}

// args: an argument that is computed without a call is computed before.
func args(f *file, fd *ast.FuncDecl) {
	lists(fd.Body, func(l []ast.Stmt, _ ast.Node) {
		for _, s := range l {
			var c *ast.CallExpr
			switch x := s.(type) {
			case *ast.ExprStmt:
				c, _ = x.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 {
					c, _ = x.Rhs[0].(*ast.CallExpr)
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					c, _ = x.Results[0].(*ast.CallExpr)
				}
			}
			if c == nil || c.Ellipsis.IsValid() {
				continue
			}
			if calls(c) != 1 {
				continue
			}
			pre := ""
			type sub struct {
				n ast.Expr
				s string
			}
			var subs []sub
			for _, a := range c.Args {
				tv := f.pkg.TypesInfo.Types[a]
				if tv.Value != nil || tv.IsType() || tv.IsNil() || tv.Type == nil {
					continue
				}
				switch a.(type) {
				case *ast.SelectorExpr, *ast.BinaryExpr, *ast.IndexExpr, *ast.UnaryExpr, *ast.SliceExpr:
				default:
					continue
				}
				if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					continue
				}
				ntmp++
				pre += fmt.Sprintf("vft%d := %s\n", ntmp, f.text(a))
				subs = append(subs, sub{a, fmt.Sprintf("vft%d", ntmp)})
			}
			if pre == "" {
				continue
			}
			if f.replace(s.Pos(), s.Pos(), pre) {
				for _, x := range subs {
					f.replace(x.n.Pos(), x.n.End(), x.s)
				}
			}
		}
	})
}

func hasBranch(n ast.Node, toks ...token.Token) bool {
	r := false
	each(n, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok {
			for _, t := range toks {
				r = r || b.Tok == t
			}
			r = r || b.Label != nil
		}
		return true
	})
	return r
}

func hasFuncLit(n ast.Node) bool {
	r := false
	each(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit, *ast.GoStmt, *ast.DeferStmt:
			r = true
		}
		return true
	})
	return r
}

// loop1: range loops become counting loops.
func loop1(f *file, fd *ast.FuncDecl) {
	each(fd.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.RangeStmt)
		if !ok || s.Tok == token.ASSIGN {
			return true
		}
		t := f.pkg.TypesInfo.TypeOf(s.X)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if _, isId := s.X.(*ast.Ident); !isId {
				if _, isSel := s.X.(*ast.SelectorExpr); !isSel {
					return true
				}
			}
			i := "vfi"
			if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
				i = k.Name
			} else {
				ntmp++
				i = fmt.Sprintf("vfi%d", ntmp)
			}
			ntmp++
			c := fmt.Sprintf("vfc%d", ntmp)
			h := fmt.Sprintf("%s := %s\nfor %s := 0; %s < len(%s); %s++ {\n", c, f.text(s.X), i, i, c, i)
			if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
				h += v.Name + " := " + c + "[" + i + "]\n"
			}
			f.replace(s.Pos(), s.Body.Lbrace+1, h)
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 || f.pkg.TypesInfo.Types[s.X].Value != nil && u.Info()&types.IsUntyped != 0 {
				return true
			}
			k, ok := s.Key.(*ast.Ident)
			if !ok || k.Name == "_" {
				return true
			}
			ntmp++
			c := fmt.Sprintf("vfc%d", ntmp)
			q, okq := f.typ(t)
			if !okq {
				return true
			}
			f.replace(s.Pos(), s.Body.Lbrace+1, fmt.Sprintf("%s := %s\nfor %s := %s(0); %s < %s; %s++ {\n", c, f.text(s.X), k.Name, q, k.Name, c, k.Name))
		}
		return true
	})
}

// loop2: counting loops become endless loops with a break.
func loop2(f *file, fd *ast.FuncDecl) {
	each(fd.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.ForStmt)
		if !ok || s.Cond == nil || hasBranch(s.Body, token.CONTINUE) || hasFuncLit(s.Body) {
			return true
		}
		pre, post := "{\n", ""
		if s.Init != nil {
			pre += f.text(s.Init) + "\n"
		}
		if s.Post != nil {
			post = "\n" + f.text(s.Post) + "\n"
		}
		if terminates(s.Body) {
			post = ""
		}
		if f.replace(s.Pos(), s.Body.Lbrace+1, pre+"for {\nif !("+f.text(s.Cond)+") {\nbreak\n}\n") {
			f.replace(s.Body.Rbrace, s.Body.Rbrace+1, post+"}\n}")
		}
		return true
	})
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	case *ast.IfStmt:
		e, ok := s.Else.(*ast.BlockStmt)
		return ok && terminates(e) && terminates(s.Body)
	}
	return false
}

// elseReturn: what follows an if that returns goes to its else branch.
func elseReturn(f *file, fd *ast.FuncDecl) {
	l := fd.Body.List
	if len(l) < 2 || !terminates(fd.Body) {
		return
	}
	for i, s := range l[:len(l)-1] {
		x, ok := s.(*ast.IfStmt)
		if !ok || x.Else != nil || !terminates(x.Body) || x.Init != nil || rnd.Intn(3) == 0 {
			continue
		}
		if hasBranch(fd.Body, token.GOTO) {
			return
		}
		_ = i
		f.replace(x.End(), x.End(), " else {")
		f.replace(fd.Body.Rbrace, fd.Body.Rbrace, "}\n")
	}
}

func demorgan(f *file, fd *ast.FuncDecl) {
	each(fd.Body, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND && b.Op != token.LOR {
			return true
		}
		o := "||"
		if b.Op == token.LOR {
			o = "&&"
		}
		f.replace(b.Pos(), b.End(), "!(!("+f.text(b.X)+") "+o+" !("+f.text(b.Y)+"))")
		return false
	})
}

// toSwitch: if-chains become switches.
func toSwitch(f *file, fd *ast.FuncDecl) {
	lists(fd.Body, func(l []ast.Stmt, _ ast.Node) {
		for _, s := range l {
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Init != nil || hasBranch(x, token.BREAK) {
				continue
			}
			b, ok := x.Else.(*ast.BlockStmt)
			els := ""
			if x.Else != nil && !ok {
				continue
			}
			if ok {
				els = "default:\n" + f.span(b.Lbrace+1, b.Rbrace)
			}
			f.replace(x.Pos(), x.End(), "switch {\ncase "+f.text(x.Cond)+":\n"+f.span(x.Body.Lbrace+1, x.Body.Rbrace)+"\n"+els+"\n}")
		}
	})
}

// reorder: neighbouring simple definitions that do not depend on each other change places.
func reorder(f *file, fd *ast.FuncDecl) {
	ids := func(n ast.Node) map[string]bool {
		m := map[string]bool{}
		each(n, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				m[i.Name] = true
			}
			return true
		})
		return m
	}
	simple := func(s ast.Stmt) *ast.AssignStmt {
		a, ok := s.(*ast.AssignStmt)
		if !ok || a.Tok != token.ASSIGN && a.Tok != token.DEFINE {
			return nil
		}
		for _, r := range a.Rhs {
			if hasFuncLit(r) {
				return nil
			}
			bad := false
			each(r, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.CallExpr:
					id, ok := t.Fun.(*ast.Ident)
					if !(ok && (id.Name == "len" || id.Name == "make") || f.pkg.TypesInfo.Types[t.Fun].IsType()) {
						bad = true
					}
				case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr:
					bad = true
				case *ast.UnaryExpr:
					bad = bad || t.Op == token.ARROW
				}
				return true
			})
			if bad {
				return nil
			}
		}
		return a
	}
	lists(fd.Body, func(l []ast.Stmt, _ ast.Node) {
		for i := 0; i+1 < len(l); i++ {
			a, b := simple(l[i]), simple(l[i+1])
			if a == nil || b == nil {
				continue
			}
			dep := false
			ia, ib := ids(a), ids(b)
			la, lb := map[string]bool{}, map[string]bool{}
			last := func(e ast.Expr, m map[string]bool) {
				switch t := e.(type) {
				case *ast.Ident:
					m[t.Name] = true
				case *ast.SelectorExpr:
					m[t.Sel.Name] = true
				default:
					m["*"] = true
				}
			}
			for _, x := range a.Lhs {
				last(x, la)
			}
			for _, x := range b.Lhs {
				last(x, lb)
			}
			for k := range la {
				dep = dep || ib[k]
			}
			for k := range lb {
				dep = dep || ia[k]
			}
			if dep || la["*"] || lb["*"] {
				continue
			}
			if f.replace(a.Pos(), a.End(), f.text(b)) {
				f.replace(b.Pos(), b.End(), f.text(a))
			}
			i++
		}
	})
}

// closure: a statement is put into a function literal called on the spot.
func closure(f *file, fd *ast.FuncDecl) {
	lists(fd.Body, func(l []ast.Stmt, _ ast.Node) {
		for _, s := range l {
			if rnd.Intn(3) != 0 || hasFuncLit(s) {
				continue
			}
			switch x := s.(type) {
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						continue
					}
				}
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
			case *ast.ForStmt, *ast.RangeStmt:
				ret := false
				each(s, func(n ast.Node) bool {
					if _, ok := n.(*ast.ReturnStmt); ok {
						ret = true
					}
					return true
				})
				if ret || hasBranch(s, token.GOTO) {
					continue
				}
			default:
				continue
			}
			f.replace(s.Pos(), s.End(), "func() {\n"+f.text(s)+"\n}()")
		}
	})
}

// typ writes a type the way it can be written in this file.
func (f *file) typ(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == f.pkg.Types {
			return ""
		}
		for _, im := range f.ast.Imports {
			if strings.Trim(im.Path.Value, "\"") == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "invalid type") || strings.Contains(s, "untyped") {
		ok = false
	}
	return s, ok
}

// extract moves a run of statements into a new function; with tail, one that reaches to the end of the function.
func extract(f *file, fd *ast.FuncDecl, tail bool) {
	if hasBranch(fd.Body, token.GOTO) {
		return
	}
	info := f.pkg.TypesInfo
	namedResults := fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0
	// variables of the function whose address is taken or that a function literal uses
	risky := map[types.Object]bool{}
	each(fd.Body, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.UnaryExpr:
			if t.Op == token.AND {
				if o := rootObj(info, t.X); o != nil {
					risky[o] = true
				}
			}
		case *ast.FuncLit:
			each(t, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if o := info.Uses[id]; o != nil {
						risky[o] = true
					}
				}
				return true
			})
		case *ast.SelectorExpr:
			// methods on addressable values
			if sel := info.Selections[t]; sel != nil && sel.Kind() == types.MethodVal {
				if o := rootObj(info, t.X); o != nil {
					if _, isPtr := o.Type().Underlying().(*types.Pointer); !isPtr {
						if _, isIf := o.Type().Underlying().(*types.Interface); !isIf {
							if fn, ok := sel.Obj().(*types.Func); ok {
								if _, p := fn.Signature().Recv().Type().(*types.Pointer); p {
									risky[o] = true
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	type cand struct {
		l    []ast.Stmt
		i, j int
		own  bool
	}
	var cs []cand
	lists(fd.Body, func(l []ast.Stmt, owner ast.Node) {
		if insideFuncLit(fd.Body, owner) {
			return
		}
		for i := range l {
			for j := i + 1; j <= len(l); j++ {
				if tail && (owner != ast.Node(fd.Body) || j != len(l) || i == 0) {
					continue
				}
				if !tail && owner == ast.Node(fd.Body) && i == 0 && j == len(l) {
					continue
				}
				if !tail && terminatesStmt(l[j-1]) {
					continue
				}
				cs = append(cs, cand{l, i, j, owner == ast.Node(fd.Body)})
			}
		}
	})
	rnd.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	tried := 0
	for _, c := range cs {
		tried++
		if tried > 60 {
			return
		}
		from, to := c.l[c.i].Pos(), c.l[c.j-1].End()
		in := func(p token.Pos) bool { return p >= from && p < to }
		ok := true
		nc := 0
		var rets []*ast.ReturnStmt
		var stmts []ast.Node
		for _, s := range c.l[c.i:c.j] {
			stmts = append(stmts, s)
			if _, isDecl := s.(*ast.LabeledStmt); isDecl {
				ok = false
			}
			nc += calls(s)
			each(s, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.FuncLit, *ast.GoStmt, *ast.DeferStmt, *ast.LabeledStmt, *ast.SelectStmt:
					ok = false
				case *ast.BranchStmt:
					if !targetIn(stmts, t, s) {
						ok = false
					}
				case *ast.ReturnStmt:
					rets = append(rets, t)
				case *ast.CallExpr:
					if id, isId := t.Fun.(*ast.Ident); isId && id.Name == "recover" {
						ok = false
					}
				}
				return true
			})
		}
		if !ok || nc == 0 {
			continue
		}
		// variables
		var outer, assigned, later []types.Object
		seenO, seenA, seenL := map[types.Object]bool{}, map[types.Object]bool{}, map[types.Object]bool{}
		isLocal := func(o types.Object) bool {
			v, ok := o.(*types.Var)
			return ok && !v.IsField() && o.Pos() >= fd.Pos() && o.Pos() < fd.End()
		}
		each(fd, func(n ast.Node) bool {
			id, isId := n.(*ast.Ident)
			if !isId {
				return true
			}
			o := info.Uses[id]
			if o == nil || !isLocal(o) {
				return true
			}
			if in(id.Pos()) && !in(o.Pos()) {
				if risky[o] {
					ok = false
				}
				if !seenO[o] {
					seenO[o] = true
					outer = append(outer, o)
				}
			}
			if !in(id.Pos()) && in(o.Pos()) {
				if risky[o] {
					ok = false
				}
				if !seenL[o] {
					seenL[o] = true
					later = append(later, o)
				}
			}
			return true
		})
		for _, s := range stmts {
			each(s, func(n ast.Node) bool {
				mark := func(e ast.Expr) {
					o := rootObj(info, e)
					if o != nil && seenO[o] && !seenA[o] {
						if _, isId := e.(*ast.Ident); !isId {
							switch o.Type().Underlying().(type) {
							case *types.Struct, *types.Array:
							default:
								return // through a pointer, slice or map
							}
						}
						seenA[o] = true
						assigned = append(assigned, o)
					}
				}
				switch t := n.(type) {
				case *ast.SliceExpr: // a slice of an array shares its memory
					if o := rootObj(info, t.X); o != nil && seenO[o] {
						if tv, has := info.Types[t.X]; has {
							if _, isArr := tv.Type.Underlying().(*types.Array); isArr {
								ok = false
							}
						}
					}
				case *ast.AssignStmt:
					for _, e := range t.Lhs {
						mark(e)
					}
				case *ast.IncDecStmt:
					mark(t.X)
				case *ast.RangeStmt:
					if t.Tok == token.ASSIGN {
						mark(t.Key)
						if t.Value != nil {
							mark(t.Value)
						}
					}
				}
				return true
			})
		}
		if !ok {
			continue
		}
		var params, argn []string
		for _, o := range outer {
			s, k := f.typ(o.Type())
			ok = ok && k
			if _, isLock := o.Type().Underlying().(*types.Struct); isLock && strings.Contains(s, "sync.") {
				ok = false
			}
			params = append(params, o.Name()+" "+s)
			argn = append(argn, o.Name())
		}
		if !ok {
			continue
		}
		ntmp++
		name := fmt.Sprintf("vfx%d", ntmp)
		body := string(f.src[f.off(from):f.off(to)])
		call := name + "(" + strings.Join(argn, ", ") + ")"
		if tail {
			if namedResults {
				continue
			}
			var rs []string
			sig := info.Defs[fd.Name].(*types.Func).Signature()
			for i := 0; i < sig.Results().Len(); i++ {
				s, k := f.typ(sig.Results().At(i).Type())
				ok = ok && k
				rs = append(rs, s)
			}
			if !ok {
				continue
			}
			if len(rs) > 0 {
				call = "return " + call
			}
			if f.replace(from, to, call) {
				f.tail += "\nfunc " + name + "(" + strings.Join(params, ", ") + ") (" + strings.Join(rs, ", ") + ") {\n" + body + "\n}\n"
			}
			return
		}
		// results
		var rt, names []string
		pre := ""
		for _, o := range later {
			s, k := f.typ(o.Type())
			ok = ok && k
			pre += "var " + o.Name() + " " + s + "\n"
			rt = append(rt, s)
			names = append(names, o.Name())
			if o.Parent() == nil {
				ok = false
			}
			// declared at the top of the run, not in a nested scope
			top := false
			for _, s := range stmts {
				if a, isA := s.(*ast.AssignStmt); isA {
					for _, e := range a.Lhs {
						if id, isId := e.(*ast.Ident); isId && info.Defs[id] == o {
							top = true
						}
					}
				}
				if d, isD := s.(*ast.DeclStmt); isD && d.Pos() <= o.Pos() && o.Pos() < d.End() {
					top = true
				}
			}
			ok = ok && top
		}
		for _, o := range assigned {
			s, k := f.typ(o.Type())
			ok = ok && k
			rt = append(rt, s)
			names = append(names, o.Name())
		}
		if !ok {
			continue
		}
		if len(rets) > 0 {
			if namedResults || fd.Type.Results == nil {
				continue
			}
			head := "?"
			for _, r := range rets {
				if len(r.Results) == 0 {
					ok = false
					break
				}
				e := r.Results[len(r.Results)-1]
				if t := info.TypeOf(e); t == nil || !types.Identical(t, types.Universe.Lookup("error").Type()) {
					ok = false
					break
				}
				if !surelyError(info, stmts, r, e) {
					ok = false
					break
				}
				h := ""
				for _, x := range r.Results[:len(r.Results)-1] {
					tv := info.Types[x]
					if tv.Value == nil && !tv.IsNil() {
						ok = false
					}
					h += f.text(x) + ", "
				}
				if head == "?" {
					head = h
				} else if head != h {
					ok = false
				}
			}
			if !ok {
				continue
			}
			// in the body, returns become returns of the helper
			var b strings.Builder
			at := f.off(from)
			zero := ""
			for _, s := range rt {
				zero += "*new(" + s + "), "
			}
			sort.Slice(rets, func(i, j int) bool { return rets[i].Pos() < rets[j].Pos() })
			for _, r := range rets {
				b.Write(f.src[at:f.off(r.Pos())])
				b.WriteString("return " + zero + f.text(r.Results[len(r.Results)-1]))
				at = f.off(r.End())
			}
			b.Write(f.src[at:f.off(to)])
			body = b.String() + "\nreturn " + strings.Join(append(append([]string{}, names...), "nil"), ", ")
			ntmp++
			e := fmt.Sprintf("vfe%d", ntmp)
			s := pre + "var " + e + " error\n" + strings.Join(append(append([]string{}, names...), e), ", ") + " = " + call +
				"\nif " + e + " != nil {\nreturn " + head + e + "\n}"
			if f.replace(from, to, s) {
				f.tail += "\nfunc " + name + "(" + strings.Join(params, ", ") + ") (" + strings.Join(append(rt, "error"), ", ") + ") {\n" + body + "\n}\n"
			}
			return
		}
		if len(names) > 0 {
			body += "\nreturn " + strings.Join(names, ", ")
			call = pre + strings.Join(names, ", ") + " = " + call
		}
		if f.replace(from, to, call) {
			f.tail += "\nfunc " + name + "(" + strings.Join(params, ", ") + ") (" + strings.Join(rt, ", ") + ") {\n" + body + "\n}\n"
		}
		return
	}
}

func insideFuncLit(body ast.Node, n ast.Node) bool {
	r := false
	each(body, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok && n.Pos() >= fl.Pos() && n.End() <= fl.End() {
			r = true
		}
		return true
	})
	return r
}

func terminatesStmt(s ast.Stmt) bool { return terminates(&ast.BlockStmt{List: []ast.Stmt{s}}) }

// targetIn: the branch leads to a loop or switch within the statements.
func targetIn(_ []ast.Node, br *ast.BranchStmt, s ast.Stmt) bool {
	if br.Label != nil {
		return false
	}
	r := false
	each(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if br.Pos() >= n.Pos() && br.End() <= n.End() {
				r = true
			}
		case *ast.SwitchStmt, *ast.TypeSwitchStmt:
			if br.Tok == token.BREAK && br.Pos() >= n.Pos() && br.End() <= n.End() {
				r = true
			}
		}
		return true
	})
	return r
}

func rootObj(info *types.Info, e ast.Expr) types.Object {
	for {
		switch t := e.(type) {
		case *ast.Ident:
			if o := info.Uses[t]; o != nil {
				return o
			}
			return info.Defs[t]
		case *ast.SelectorExpr:
			e = t.X
		case *ast.IndexExpr:
			e = t.X
		case *ast.ParenExpr:
			e = t.X
		case *ast.SliceExpr:
			e = t.X
		case *ast.StarExpr:
			return nil
		default:
			return nil
		}
	}
}

// surelyError: the returned error is not nil: made on the spot, or tested by the if around the return.
func surelyError(info *types.Info, stmts []ast.Node, r *ast.ReturnStmt, e ast.Expr) bool {
	if c, ok := e.(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				return x.Name == "errors" && s.Sel.Name == "New" || x.Name == "fmt" && s.Sel.Name == "Errorf"
			}
		}
		return false
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	sure := false
	for _, s := range stmts {
		each(s, func(n ast.Node) bool {
			x, ok := n.(*ast.IfStmt)
			if !ok || len(x.Body.List) == 0 || x.Body.List[len(x.Body.List)-1] != ast.Stmt(r) {
				return true
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if ok && b.Op == token.NEQ {
				if y, ok := b.X.(*ast.Ident); ok && info.Uses[y] == info.Uses[id] {
					sure = true
				}
			}
			return true
		})
	}
	return sure
}

// rename gives unexported functions and methods (or fields) other names.
func rename(files []*file, kind string) {
	ifaceM := map[string]bool{}
	for _, f := range files {
		each(f.ast, func(n ast.Node) bool {
			if it, ok := n.(*ast.InterfaceType); ok {
				for _, m := range it.Methods.List {
					for _, id := range m.Names {
						ifaceM[id.Name] = true
					}
				}
			}
			return true
		})
	}
	for _, f := range files {
		each(f.ast, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok || id.IsExported() || id.Name == "_" || id.Name == "init" || id.Name == "main" {
				return true
			}
			o := f.pkg.TypesInfo.Uses[id]
			if o == nil {
				o = f.pkg.TypesInfo.Defs[id]
			}
			if o == nil || o.Pkg() == nil || o.Pkg() != f.pkg.Types {
				return true
			}
			switch t := o.(type) {
			case *types.Func:
				if kind == "rename" {
					if r := t.Signature().Recv(); r != nil {
						return true
					}
					f.replace(id.Pos(), id.End(), id.Name+"Vf")
				}
				if kind == "renamem" && t.Signature().Recv() != nil && !ifaceM[id.Name] {
					f.replace(id.Pos(), id.End(), id.Name+"Vf")
				}
			case *types.TypeName:
				if kind == "renamet" && !t.IsAlias() && t.Parent() == t.Pkg().Scope() {
					f.replace(id.Pos(), id.End(), id.Name+"Vf")
				}
			case *types.Var:
				if kind == "renamef" && t.IsField() && !t.Embedded() {
					f.replace(id.Pos(), id.End(), id.Name+"Vf")
				}
			}
			return true
		})
	}
}
