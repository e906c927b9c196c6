package main

// Contracts of the functions of std/strings.tsh (C15). The file is read with Go's parser, since the part of the
// language it uses is written like Go, and executed with TypeShell's meaning: a short declaration assigns to
// the visible variables and declares the others, an assignment behind the last element of a slice adds one.
// The specifications are recursive definitions of Go's functions.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// libSlice is a list of strings: its content is a word whose letters are the terms item(e).
type libSlice struct{ content, n *Term }

type libCell struct{ v Val }

// libLoop is the contract of a loop.
type libLoop struct {
	inv   func(l *lib) []*Term
	facts func(l *lib)       // instances of definitions and lemmas
	rest  func(l *lib) *Term // what the state still has to do with the result
	split func(l *lib) *Term // the same, one step unfolded
	meas  func(l *lib) *Term // decreases
	shape map[string]string  // variables which are a suffix or a prefix of the first parameter
}

type libSpec struct {
	params, results string
	goal            func(l *lib, a []Val) []Val // the results
	panics          func(l *lib) *Term
	loops           []*libLoop
	early           func(l *lib) // unfolds the goal if no loop has been reached
	need            []string
}

type lib struct {
	x      *X
	t      *termTab
	spec   *libSpec
	fns    map[string]*ast.FuncDecl
	loops  map[*ast.ForStmt]int
	scopes []map[string]*libCell
	params []Val
	goal   []Val
	heads  map[int]map[string]Val
	looped bool
}

type libCtl int

const (
	libNext libCtl = iota
	libBreak
	libContinue
	libReturn
)

func (l *lib) cell(n string) *libCell {
	for i := len(l.scopes) - 1; i >= 0; i-- {
		if c := l.scopes[i][n]; c != nil {
			return c
		}
	}
	return nil
}

// v is the value of a variable.
func (l *lib) v(n string) *Term {
	c := l.cell(n)
	if c == nil {
		unsup("no variable %s", n)
	}
	if t, ok := c.v.(*Term); ok {
		return t
	}
	unsup("type of %s", n)
	return nil
}

func (l *lib) list(n string) *libSlice {
	c := l.cell(n)
	if c == nil {
		unsup("no variable %s", n)
	}
	if s, ok := c.v.(*libSlice); ok {
		return s
	}
	unsup("type of %s", n)
	return nil
}

func (l *lib) p(i int) *Term { return l.x.term(l.params[i]) }

func (l *lib) int(n int64) *Term { return l.t.Int(n) }

// cut is a part of a string.
func (l *lib) cut(s, lo, hi *Term) *Term {
	if lo.isConst() && lo.n == 0 && hi == l.t.Len(s) {
		return s
	}
	if b, l0, _, ok := l.t.text(s); ok {
		return l.t.sub(b, l.t.Add(l0, lo), l.t.Add(l0, hi))
	}
	if s.op != "var" && s.op != "uf" {
		unsup("a part of %s", s)
	}
	return l.t.sub(s, lo, hi)
}

// bounds are the limits of a part of the first parameter.
func (l *lib) bounds(s *Term) (lo, hi *Term) {
	if s == l.p(0) {
		return l.int(0), l.t.Len(s)
	}
	if b, lo, hi, ok := l.t.text(s); ok && b == l.p(0) {
		return lo, hi
	}
	unsup("%s is no part of the argument", s)
	return nil, nil
}

// norm removes empty parts and replaces parts which are everything.
func (l *lib) norm(t *Term) *Term {
	if t.sort != SStr {
		return t
	}
	out := []*Term{}
	for _, p := range pieces(t) {
		if b, lo, hi, ok := l.t.text(p); ok {
			if l.x.valid(l.t.Eq(lo, hi)) {
				continue
			}
			if l.x.valid(l.t.And(l.t.Eq(lo, l.int(0)), l.t.Eq(hi, l.t.Len(b)))) {
				p = b
			}
		}
		if p.op == "var" && l.x.valid(l.t.Eq(l.t.Len(p), l.int(0))) {
			continue
		}
		out = append(out, p)
	}
	return l.t.Cat(out...)
}

func (l *lib) same(a, b *Term) *Term {
	if a.sort != b.sort {
		unsup("comparison of %s and %s", a, b)
	}
	return l.t.Eq(l.norm(a), l.norm(b))
}

func (l *lib) item(e *Term) *Term { return l.t.UF("item", SStr, e) }

func (l *lib) str(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("a string is expected")
	}
	return t
}

// ---- execution

func (l *lib) block(b *ast.BlockStmt) libCtl {
	l.scopes = append(l.scopes, map[string]*libCell{})
	defer func() { l.scopes = l.scopes[:len(l.scopes)-1] }()
	for _, s := range b.List {
		if c := l.stmt(s); c != libNext {
			return c
		}
	}
	return libNext
}

func (l *lib) stmt(s ast.Stmt) libCtl {
	x, t := l.x, l.t
	switch s := s.(type) {
	case *ast.BlockStmt:
		return l.block(s)
	case *ast.EmptyStmt:
		return libNext
	case *ast.BranchStmt:
		if s.Label == nil && s.Tok == token.BREAK {
			return libBreak
		}
		if s.Label == nil && s.Tok == token.CONTINUE {
			return libContinue
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			l.call(c)
			return libNext
		}
	case *ast.IncDecStmt:
		id, ok := s.X.(*ast.Ident)
		if ok {
			d := int64(1)
			if s.Tok == token.DEC {
				d = -1
			}
			l.cell2(id.Name).v = t.AddN(l.v(id.Name), d)
			return libNext
		}
	case *ast.AssignStmt:
		l.assign(s)
		return libNext
	case *ast.IfStmt:
		if s.Init != nil {
			unsup("initialisation of an if statement")
		}
		if l.cond(s.Cond) {
			return l.block(s.Body)
		}
		if s.Else != nil {
			return l.stmt(s.Else)
		}
		return libNext
	case *ast.ForStmt:
		return l.loop(s)
	case *ast.ReturnStmt:
		vs := l.values(s.Results)
		if !l.looped && l.spec.early != nil {
			l.spec.early(l)
		}
		if len(vs) != len(l.goal) {
			unsup("number of results")
		}
		for i, v := range vs {
			want := l.str(l.goal[i])
			var got *Term
			if sl, ok := v.(*libSlice); ok {
				got = sl.content
			} else {
				got = l.str(v)
			}
			x.require("result", l.same(got, want), func() string {
				return fmt.Sprintf("result %d is %s, Go's is %s", i, l.norm(got), l.norm(want))
			})
		}
		return libReturn
	}
	unsup("statement %T", s)
	return libNext
}

func (l *lib) cell2(n string) *libCell {
	c := l.cell(n)
	if c == nil {
		unsup("no variable %s", n)
	}
	return c
}

func (l *lib) values(es []ast.Expr) []Val {
	if len(es) == 1 {
		if c, ok := es[0].(*ast.CallExpr); ok {
			return l.call(c)
		}
	}
	vs := []Val{}
	for _, e := range es {
		vs = append(vs, l.expr(e))
	}
	return vs
}

func (l *lib) assign(s *ast.AssignStmt) {
	x, t := l.x, l.t
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB}
		id, ok := s.Lhs[0].(*ast.Ident)
		op, known := ops[s.Tok]
		if !ok || !known || len(s.Lhs) != 1 {
			unsup("assignment %s", s.Tok)
		}
		v := l.binary(op, l.v(id.Name), l.str(l.expr(s.Rhs[0])))
		l.cell2(id.Name).v = v
		return
	}
	vs := l.values(s.Rhs)
	if len(vs) != len(s.Lhs) {
		unsup("number of values")
	}
	for i, e := range s.Lhs {
		switch e := e.(type) {
		case *ast.Ident:
			if c := l.cell(e.Name); c != nil {
				c.v = vs[i]
			} else if s.Tok == token.DEFINE {
				l.scopes[len(l.scopes)-1][e.Name] = &libCell{vs[i]}
			} else {
				unsup("no variable %s", e.Name)
			}
		case *ast.IndexExpr:
			id, ok := e.X.(*ast.Ident)
			if !ok || len(vs) != 1 {
				unsup("assignment to an element")
			}
			sl := l.list(id.Name)
			at := l.str(l.expr(e.Index))
			if !x.valid(t.Eq(at, sl.n)) {
				unsup("the index %s might not be the end of the slice", at)
			}
			// A new object: no other variable refers to the slice (slices are made by a literal only).
			l.cell2(id.Name).v = &libSlice{t.Cat(sl.content, l.item(l.str(vs[i]))), t.AddN(sl.n, 1)}
		default:
			unsup("assignment to %T", e)
		}
	}
}

func (l *lib) cond(e ast.Expr) bool { return l.x.branch(l.bool(e)) }

func (l *lib) bool(e ast.Expr) *Term {
	b := l.str(l.expr(e))
	if b.sort != SBool {
		unsup("condition")
	}
	return b
}

func (l *lib) binary(op token.Token, a, b *Term) *Term {
	t := l.t
	if a.sort != b.sort {
		unsup("types of %s", op)
	}
	if a.sort == SInt {
		switch op {
		case token.ADD:
			return t.Add(a, b)
		case token.SUB:
			return t.Sub(a, b)
		case token.LSS:
			return t.Lt(a, b)
		case token.LEQ:
			return t.Le(a, b)
		case token.GTR:
			return t.Lt(b, a)
		case token.GEQ:
			return t.Le(b, a)
		}
	}
	switch {
	case op == token.ADD && a.sort == SStr:
		return t.Cat(a, b)
	case op == token.EQL:
		return l.same(a, b)
	case op == token.NEQ:
		return t.Not(l.same(a, b))
	}
	unsup("operator %s", op)
	return nil
}

func (l *lib) expr(e ast.Expr) Val {
	x, t := l.x, l.t
	switch e := e.(type) {
	case *ast.ParenExpr:
		return l.expr(e.X)
	case *ast.Ident:
		if e.Name == "true" || e.Name == "false" {
			return t.Bool(e.Name == "true")
		}
		return l.cell2(e.Name).v
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			if n, err := strconv.ParseInt(e.Value, 10, 64); err == nil {
				return t.Int(n)
			}
		case token.STRING:
			if s, err := strconv.Unquote(e.Value); err == nil {
				return t.Str(s)
			}
		}
	case *ast.UnaryExpr:
		v := l.str(l.expr(e.X))
		if e.Op == token.SUB && v.sort == SInt {
			return t.Sub(t.Int(0), v)
		}
		if e.Op == token.NOT && v.sort == SBool {
			return t.Not(v)
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			if !l.cond(e.X) {
				return t.fls
			}
			return l.bool(e.Y)
		case token.LOR:
			if l.cond(e.X) {
				return t.tru
			}
			return l.bool(e.Y)
		}
		a := l.str(l.expr(e.X))
		return l.binary(e.Op, a, l.str(l.expr(e.Y)))
	case *ast.CallExpr:
		if r := l.call(e); len(r) == 1 {
			return r[0]
		}
	case *ast.CompositeLit:
		if _, ok := e.Type.(*ast.ArrayType); ok && len(e.Elts) == 0 {
			return &libSlice{t.Str(""), t.Int(0)}
		}
	case *ast.IndexExpr:
		v := l.expr(e.X)
		i := l.str(l.expr(e.Index))
		if s, ok := v.(*libSlice); ok {
			x.require("range", t.And(t.Le(t.Int(0), i), t.Lt(i, s.n)), nil)
			if s.content.op != "var" {
				unsup("an element of a new slice")
			}
			return l.elem(s, i)
		}
		s := l.str(v)
		x.require("range", t.And(t.Le(t.Int(0), i), t.Lt(i, t.Len(s))), nil)
		return l.cut(s, i, t.AddN(i, 1))
	case *ast.SliceExpr:
		s := l.str(l.expr(e.X))
		lo, hi := t.Int(0), t.Len(s)
		if e.Low != nil {
			lo = l.str(l.expr(e.Low))
		}
		if e.High != nil {
			hi = l.str(l.expr(e.High))
		}
		x.require("range", t.And(t.Le(t.Int(0), lo), t.Le(lo, hi), t.Le(hi, t.Len(s))), func() string {
			return fmt.Sprintf("%s[%s:%s]", s, lo, hi)
		})
		return l.cut(s, lo, hi)
	}
	unsup("expression %T", e)
	return nil
}

func (l *lib) elem(s *libSlice, i *Term) *Term { return l.t.UF("elem", SStr, s.content, i) }

func (l *lib) call(c *ast.CallExpr) []Val {
	x := l.x
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		unsup("call")
	}
	args := []Val{}
	for _, a := range c.Args {
		args = append(args, l.expr(a))
	}
	switch {
	case id.Name == "len" && len(args) == 1:
		if s, ok := args[0].(*libSlice); ok {
			return []Val{s.n}
		}
		return []Val{l.t.Len(l.str(args[0]))}
	case id.Name == "panic" && len(args) == 1:
		want := l.t.fls
		if l.spec.panics != nil {
			want = l.spec.panics(l)
		}
		x.require("panic", want, func() string { return "Go's function does not panic" })
		panic(pathEnd{"panic"})
	}
	s := libSpecs[id.Name]
	if s == nil || l.fns[id.Name] == nil {
		unsup("call of %s", id.Name)
	}
	if len(args) != len(strings.Fields(s.params)) {
		unsup("arguments of %s", id.Name)
	}
	x.p.fnUsed["std/strings."+id.Name] = true
	return s.goal(l, args)
}

// loop: the contract holds at the first repetition, and an arbitrary repetition keeps it.
func (l *lib) loop(s *ast.ForStmt) libCtl {
	x := l.x
	l.scopes = append(l.scopes, map[string]*libCell{})
	defer func() { l.scopes = l.scopes[:len(l.scopes)-1] }()
	if s.Init != nil {
		l.stmt(s.Init)
	}
	k := l.loops[s]
	if k >= len(l.spec.loops) {
		unsup("another loop")
	}
	c := l.spec.loops[k]
	name := fmt.Sprintf("loop%d.", k+1)
	check := func(what string) {
		if c.facts != nil {
			c.facts(l)
		}
		for _, f := range c.inv(l) {
			x.require(name+what, f, nil)
		}
		if c.rest != nil {
			x.require(name+what, l.same(c.rest(l), l.str(l.goal[0])), func() string {
				return fmt.Sprintf("%s is not %s", l.norm(c.rest(l)), l.norm(l.str(l.goal[0])))
			})
		}
	}
	check("init")
	// The variables which the loop changes.
	names := map[string]bool{}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if n == s.Init {
				return false
			}
			for _, e := range n.Lhs {
				if i, ok := e.(*ast.IndexExpr); ok {
					e = i.X
				}
				if id, ok := e.(*ast.Ident); ok {
					names[id.Name] = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := n.X.(*ast.Ident); ok {
				names[id.Name] = true
			}
		}
		return true
	})
	for _, n := range sorted(names) {
		cell := l.cell(n)
		if cell == nil {
			continue // of the body
		}
		switch v := cell.v.(type) {
		case *libSlice:
			m := x.tt.Var(x.name(n+" length"), SInt)
			x.assume(x.tt.Le(x.tt.Int(0), m))
			cell.v = &libSlice{x.tt.Var(x.name(n), SStr), m}
		case *Term:
			if sh := c.shape[n]; sh != "" {
				l.bounds(v)
				a, z := l.int(0), x.tt.Len(l.p(0))
				at := x.tt.Var(x.name("bound of "+n), SInt)
				x.assume(x.tt.And(x.tt.Le(a, at), x.tt.Le(at, z)))
				if sh == "suffix" {
					cell.v = x.tt.UF("substr", SStr, l.p(0), at, z)
				} else {
					cell.v = x.tt.UF("substr", SStr, l.p(0), a, at)
				}
				break
			}
			cell.v = x.tt.Var(x.name(n), v.sort)
		default:
			unsup("variable %s", n)
		}
	}
	if c.facts != nil {
		c.facts(l)
	}
	for _, f := range c.inv(l) {
		x.assumeSat(f)
	}
	l.looped = true
	if c.rest != nil {
		r := c.split(l)
		x.assume(x.tt.Eq(c.rest(l), r))
		l.goal = []Val{r}
	}
	head := map[string]Val{}
	for _, sc := range l.scopes {
		for n, c := range sc {
			head[n] = c.v
		}
	}
	l.heads[k] = head
	m := c.meas(l)
	if s.Cond != nil && !l.cond(s.Cond) {
		return libNext
	}
	switch ctl := l.block(s.Body); ctl {
	case libBreak:
		return libNext
	case libReturn:
		return ctl
	}
	if s.Post != nil {
		l.stmt(s.Post)
	}
	check("step")
	x.require(name+"ends", x.tt.And(x.tt.Le(l.int(0), m), x.tt.Lt(c.meas(l), m)), func() string {
		return fmt.Sprintf("%s before, %s behind", m, c.meas(l))
	})
	panic(pathEnd{"end of the loop"})
}

// at is the value of a variable at the head of an outer loop.
func (l *lib) at(k int, n string) *Term {
	if v, ok := l.heads[k][n].(*Term); ok {
		return v
	}
	unsup("no variable %s", n)
	return nil
}

// ---- the units

func (r *runner) library() []*prover {
	res := []*prover{}
	p := newProver(r.pg, "library.")
	res = append(res, p)
	defer p.so.stop()
	txt, err := os.ReadFile(filepath.Join(r.pg.repo, "std", "strings.tsh"))
	if err != nil {
		p.unsup[err.Error()]++
		return res
	}
	f, err := parser.ParseFile(token.NewFileSet(), "strings.tsh", "package strings\n"+string(txt), parser.SkipObjectResolution)
	if err != nil {
		p.unsup[err.Error()]++
		return res
	}
	p.ob("specification").Count++
	if d := libValidate(); d != "" {
		p.ob("specification").Status, p.ob("specification").Detail = "undecided", d
	}
	fns := map[string]*ast.FuncDecl{}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Recv != nil || fn.Type.TypeParams != nil || fn.Body == nil {
			p.unsup["other declarations"]++
			continue
		}
		if fns[fn.Name.Name] != nil {
			p.unsup["function "+fn.Name.Name+" declared twice"]++
		}
		fns[fn.Name.Name] = fn
	}
	libLemmas(p)
	names := []string{}
	for n := range libSpecs {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[string]bool{}
	for _, d := range f.Decls { // no recursion: calls of earlier functions only
		if fn, ok := d.(*ast.FuncDecl); ok {
			ast.Inspect(fn, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && fns[id.Name] != nil && !seen[id.Name] {
						p.unsup["call of "+id.Name+" before its declaration"]++
					}
				}
				return true
			})
			seen[fn.Name.Name] = true
		}
	}
	for _, n := range names {
		n := n
		q := newProver(r.pg, "strings."+n+".")
		q.deadline = r.deadline
		q.fnUsed["std/strings."+n] = true
		res = append(res, q)
		if fns[n] == nil {
			q.unsup["no function "+n]++
			continue
		}
		q.explore(func(x *X) {
			l := &lib{x: x, t: x.tt, spec: libSpecs[n], fns: fns, loops: map[*ast.ForStmt]int{}, heads: map[int]map[string]Val{}}
			l.run(fns[n])
		})
		for _, need := range append([]string{"result"}, libSpecs[n].need...) {
			if q.ob(need).Count == 0 {
				q.unsup["no obligation "+need]++
			}
		}
		q.so.stop()
	}
	return res
}

func (l *lib) run(fn *ast.FuncDecl) {
	x := l.x
	ast.Inspect(fn, func(n ast.Node) bool {
		if f, ok := n.(*ast.ForStmt); ok {
			l.loops[f] = len(l.loops)
		}
		return true
	})
	typ := func(e ast.Expr) string {
		switch e := e.(type) {
		case *ast.Ident:
			return e.Name
		case *ast.ArrayType:
			if id, ok := e.Elt.(*ast.Ident); ok && e.Len == nil {
				return "[]" + id.Name
			}
		}
		return "?"
	}
	l.scopes = []map[string]*libCell{{}}
	ps := []string{}
	for _, f := range fn.Type.Params.List {
		for _, id := range f.Names {
			k := len(ps)
			ps = append(ps, typ(f.Type))
			var v Val
			switch ps[k] {
			case "string":
				v = x.tt.Var(textVar+fmt.Sprint("argument ", k), SStr)
			case "int":
				v = x.tt.Var(fmt.Sprint("argument ", k), SInt)
			case "[]string":
				n := x.tt.Var(fmt.Sprint("length ", k), SInt)
				x.assume(x.tt.Le(x.tt.Int(0), n))
				v = &libSlice{x.tt.Var(fmt.Sprint("argument ", k), SStr), n}
			default:
				unsup("type of a parameter")
			}
			l.params = append(l.params, v)
			l.scopes[0][id.Name] = &libCell{v}
		}
	}
	rs := []string{}
	if fn.Type.Results != nil {
		for _, f := range fn.Type.Results.List {
			if len(f.Names) > 0 {
				unsup("names of results")
			}
			rs = append(rs, typ(f.Type))
		}
	}
	if s := strings.Join(ps, " "); s != l.spec.params {
		unsup("the parameters are %s", s)
	}
	if s := strings.Join(rs, " "); s != l.spec.results {
		unsup("the results are %s", s)
	}
	l.goal = l.spec.goal(l, l.params)
	if l.block(fn.Body) != libReturn {
		x.bad("result", "no result")
	}
}

// ---- the specifications

func (l *lib) split3(c *Term, a, b func() *Term) *Term {
	if l.x.branch(c) {
		return a()
	}
	return b()
}

// prefix says that p is at position i of s.
func (l *lib) prefixAt(s, i, p *Term) *Term {
	t := l.t
	n := t.Len(p)
	return t.And(t.Le(t.Add(i, n), t.Len(s)), l.same(l.cut(s, i, t.Add(i, n)), p))
}

// find(s, p, i): the first position of p in s from i on, or -1.
func (l *lib) find(s, p, i *Term) *Term { return l.t.UF("find", SInt, s, p, i) }

// count(s, p, i): the number of occurrences from i on which don't overlap.
func (l *lib) count(s, p, i *Term) *Term { return l.t.UF("count", SInt, s, p, i) }

func (l *lib) rangeLemma(s, p, i *Term) {
	f := l.find(s, p, i)
	t := l.t
	l.x.assume(t.Or(t.Eq(f, t.Int(-1)), t.And(t.Le(i, f), t.Le(t.Add(f, t.Len(p)), t.Len(s)))))
}

func (l *lib) tail(s, i *Term) *Term { return l.t.UF("substr", SStr, s, i, l.t.Len(s)) }

// none(s, a, c, i): the byte a of s is none of the first i bytes of c.
func (l *lib) none(s, a, c, i *Term) *Term { return l.t.UF("none", SBool, s, a, c, i) }

func (l *lib) noneFacts(s, a, c, i *Term) {
	t := l.t
	is := t.Eq(t.sub(s, a, t.AddN(a, 1)), l.cut(c, i, t.AddN(i, 1)))
	l.x.assume(l.none(s, a, c, t.Int(0)))
	l.x.assume(t.Imp(t.Le(t.Int(0), i), t.Eq(l.none(s, a, c, t.AddN(i, 1)), t.And(l.none(s, a, c, i), t.Not(is)))))
	// lemma "member"
	l.x.assume(t.Imp(t.And(t.Le(t.Int(0), i), t.Lt(i, t.Len(c)), is), t.Not(l.none(s, a, c, t.Len(c)))))
}

func rawSub(t *termTab, s, lo, hi *Term) *Term { return t.UF("substr", SStr, s, lo, hi) }

// libLemmas are proved by induction.
func libLemmas(p *prover) {
	p.explore(func(x *X) {
		l := &lib{x: x, t: x.tt}
		t := x.tt
		s, q, i := t.Var("s", SStr), t.Var("p", SStr), t.Var("i", SInt)
		x.assume(t.Le(t.Int(0), i))
		// find: induction over len(s)-i.
		l.rangeLemma(s, q, t.AddN(i, 1))
		x.assume(t.Eq(l.find(s, q, i), l.findStep(s, q, i)))
		f := l.find(s, q, i)
		x.require("lemma.find", t.Or(t.Eq(f, t.Int(-1)), t.And(t.Le(i, f), t.Le(t.Add(f, t.Len(q)), t.Len(s)))), nil)
	})
	p.explore(func(x *X) {
		l := &lib{x: x, t: x.tt}
		t := x.tt
		// none: induction over m.
		s, c, a, i, m := t.Var("s", SStr), t.Var("c", SStr), t.Var("a", SInt), t.Var("i", SInt), t.Var("m", SInt)
		is := func(k *Term) *Term {
			return t.Eq(rawSub(t, s, a, t.AddN(a, 1)), rawSub(t, c, k, t.AddN(k, 1)))
		}
		x.assume(t.And(t.Le(t.Int(0), i), t.Le(t.Int(0), m), is(i)))
		x.assume(t.Imp(t.Lt(i, m), t.Not(l.none(s, a, c, m))))
		x.assume(t.Eq(l.none(s, a, c, t.AddN(m, 1)), t.And(l.none(s, a, c, m), t.Not(is(m)))))
		x.assume(l.none(s, a, c, t.Int(0)))
		x.require("lemma.member", t.Imp(t.Lt(i, t.AddN(m, 1)), t.Not(l.none(s, a, c, t.AddN(m, 1)))), nil)
	})
}

func (l *lib) findStep(s, p, i *Term) *Term {
	t := l.t
	return l.split3(t.Lt(t.Len(s), t.Add(i, t.Len(p))), func() *Term { return t.Int(-1) }, func() *Term {
		return l.split3(l.prefixAt(s, i, p), func() *Term { return i }, func() *Term { return l.find(s, p, t.AddN(i, 1)) })
	})
}

func (l *lib) between(a, b, c *Term) *Term { return l.t.And(l.t.Le(a, b), l.t.Le(b, c)) }

func libStr(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("argument")
	}
	return t
}

// set is a cutset: the order does not matter.
func (l *lib) set(c *Term) *Term {
	if !c.isConst() {
		return c
	}
	m := map[string]bool{}
	for i := 0; i < len(c.s); i++ {
		m[c.s[i:i+1]] = true
	}
	return l.t.Str(strings.Join(sorted(m), ""))
}

func trimLoops(f string, left bool) []*libLoop {
	pos := func(l *lib) *Term {
		lo, hi := l.bounds(l.v(l.first()))
		if left {
			return lo
		}
		return hi
	}
	old := func(l *lib) *Term {
		lo, hi := l.bounds(l.at(0, l.first()))
		if left {
			return lo
		}
		return hi
	}
	uf := func(l *lib, a *Term) *Term { return l.t.UF(f, SStr, l.p(0), l.p(1), a) }
	byteOf := func(l *lib) *Term { // the position of the byte which is looked at
		if left {
			return pos(l)
		}
		return l.t.AddN(pos(l), -1)
	}
	done := func(l *lib) *Term {
		if left {
			return l.t.Le(l.t.Len(l.p(0)), pos(l))
		}
		return l.t.Le(pos(l), l.int(0))
	}
	split := func(l *lib) *Term {
		t := l.t
		return l.split3(done(l), func() *Term { return t.Str("") }, func() *Term {
			return l.split3(l.none(l.p(0), byteOf(l), l.p(1), t.Len(l.p(1))), func() *Term { return l.v(l.first()) }, func() *Term {
				if left {
					return uf(l, t.AddN(pos(l), 1))
				}
				return uf(l, t.AddN(pos(l), -1))
			})
		})
	}
	shape := map[bool]string{true: "suffix", false: "prefix"}[left]
	rest := func(l *lib) *Term { return uf(l, pos(l)) }
	size := func(l *lib) *Term {
		lo, hi := l.bounds(l.v(l.first()))
		return l.t.Sub(hi, lo)
	}
	whole := func(l *lib) *Term { // the other end has not moved
		lo, hi := l.bounds(l.v(l.first()))
		if left {
			return l.t.And(l.t.Eq(hi, l.t.Len(l.p(0))), l.between(l.int(0), lo, hi))
		}
		return l.t.And(l.t.Eq(lo, l.int(0)), l.between(lo, hi, l.t.Len(l.p(0))))
	}
	return []*libLoop{{
		shape: map[string]string{"s": shape}, rest: rest, split: split, meas: size,
		inv:   func(l *lib) []*Term { return []*Term{whole(l), l.t.Eq(l.v("lenCS"), l.t.Len(l.p(1)))} },
		facts: func(l *lib) { l.noneFacts(l.p(0), byteOf(l), l.p(1), l.int(0)) },
	}, {
		shape: map[string]string{"s": shape}, rest: rest, split: split,
		meas: func(l *lib) *Term { return l.t.Sub(l.v("lenCS"), l.v("i")) },
		facts: func(l *lib) {
			l.noneFacts(l.p(0), byteOf(l), l.p(1), l.int(0))
			l.noneFacts(l.p(0), byteOf(l), l.p(1), l.v("i"))
			l.noneFacts(l.p(0), byteOf(l), l.p(1), l.t.AddN(l.v("i"), -1))
		},
		inv: func(l *lib) []*Term {
			t := l.t
			fewer := t.Lt(old(l), pos(l))
			if !left {
				fewer = t.Lt(pos(l), old(l))
			}
			return []*Term{whole(l), l.between(l.int(0), l.v("i"), l.v("lenCS")),
				t.Imp(l.v("trimmed"), fewer),
				t.Imp(t.Not(l.v("trimmed")), t.And(t.Eq(pos(l), old(l)), t.Or(done(l), l.none(l.p(0), byteOf(l), l.p(1), l.v("i")))))}
		},
	}}
}

// first is the name of the variable which is trimmed.
func (l *lib) first() string { return "s" }

func trimSpec(f string, left bool) *libSpec {
	return &libSpec{params: "string string", results: "string", loops: trimLoops(f, left), need: strings.Fields("loop1.init loop1.step loop1.ends loop2.init loop2.step loop2.ends"),
		goal: func(l *lib, a []Val) []Val {
			s, c := libStr(a[0]), l.set(libStr(a[1]))
			if left {
				return []Val{l.t.UF(f, SStr, s, c, l.int(0))}
			}
			return []Val{l.t.UF(f, SStr, s, c, l.t.Len(s))}
		},
		early: func(l *lib) {
			l.x.assume(l.none(l.p(0), l.int(0), l.p(1), l.int(0)))
			l.x.assume(l.none(l.p(0), l.t.AddN(l.t.Len(l.p(0)), -1), l.p(1), l.int(0)))
			s := l.cell("s").v
			l.cell("s").v = l.p(0)
			l.goal = []Val{l.spec.loops[0].split(l)}
			l.cell("s").v = s
		}}
}

func (l *lib) hasPrefix(s, p *Term) *Term { return l.prefixAt(s, l.int(0), p) }
func (l *lib) hasSuffix(s, p *Term) *Term {
	t := l.t
	n := t.Len(p)
	return t.And(t.Le(n, t.Len(s)), l.same(l.cut(s, t.Sub(t.Len(s), n), t.Len(s)), p))
}

func (l *lib) replaceRest(i, r *Term) *Term {
	return l.t.UF("replace", SStr, l.p(0), l.p(1), l.p(2), l.p(3), i, r)
}

var libSpecs map[string]*libSpec

func init() {
	libSpecs = map[string]*libSpec{
		"HasPrefix": {params: "string string", results: "bool", goal: func(l *lib, a []Val) []Val { return []Val{l.hasPrefix(libStr(a[0]), libStr(a[1]))} }},
		"HasSuffix": {params: "string string", results: "bool", goal: func(l *lib, a []Val) []Val { return []Val{l.hasSuffix(libStr(a[0]), libStr(a[1]))} }},
		"CutPrefix": {params: "string string", results: "string bool", goal: func(l *lib, a []Val) []Val {
			s, p := libStr(a[0]), libStr(a[1])
			if l.x.branch(l.hasPrefix(s, p)) {
				return []Val{l.cut(s, l.t.Len(p), l.t.Len(s)), l.t.tru}
			}
			return []Val{s, l.t.fls}
		}},
		"CutSuffix": {params: "string string", results: "string bool", goal: func(l *lib, a []Val) []Val {
			s, p := libStr(a[0]), libStr(a[1])
			if l.x.branch(l.hasSuffix(s, p)) {
				return []Val{l.cut(s, l.int(0), l.t.Sub(l.t.Len(s), l.t.Len(p))), l.t.tru}
			}
			return []Val{s, l.t.fls}
		}},
		"TrimPrefix": {params: "string string", results: "string", goal: func(l *lib, a []Val) []Val { return libSpecs["CutPrefix"].goal(l, a)[:1] }},
		"TrimSuffix": {params: "string string", results: "string", goal: func(l *lib, a []Val) []Val { return libSpecs["CutSuffix"].goal(l, a)[:1] }},
		"Index": {params: "string string", results: "int", need: strings.Fields("loop1.init loop1.step loop1.ends"),
			goal: func(l *lib, a []Val) []Val {
				l.rangeLemma(libStr(a[0]), libStr(a[1]), l.int(0))
				return []Val{l.find(libStr(a[0]), libStr(a[1]), l.int(0))}
			},
			loops: []*libLoop{{
				inv: func(l *lib) []*Term {
					return []*Term{l.t.Le(l.int(0), l.v("i")), l.t.Eq(l.v("ind"), l.int(-1)), l.t.Eq(l.v("sul"), l.t.Len(l.p(1)))}
				},
				rest:  func(l *lib) *Term { return l.find(l.p(0), l.p(1), l.v("i")) },
				split: func(l *lib) *Term { return l.findStep(l.p(0), l.p(1), l.v("i")) },
				meas:  func(l *lib) *Term { return l.t.AddN(l.t.Sub(l.t.Sub(l.t.Len(l.p(0)), l.t.Len(l.p(1))), l.v("i")), 1) },
			}}},
		"Contains": {params: "string string", results: "bool", goal: func(l *lib, a []Val) []Val {
			l.rangeLemma(libStr(a[0]), libStr(a[1]), l.int(0))
			return []Val{l.t.Le(l.int(0), l.find(libStr(a[0]), libStr(a[1]), l.int(0)))}
		}},
		"Cut": {params: "string string", results: "string string bool", goal: func(l *lib, a []Val) []Val {
			s, p := libStr(a[0]), libStr(a[1])
			l.rangeLemma(s, p, l.int(0))
			m := l.find(s, p, l.int(0))
			if l.x.branch(l.t.Lt(m, l.int(0))) {
				return []Val{s, l.t.Str(""), l.t.fls}
			}
			return []Val{l.cut(s, l.int(0), m), l.cut(s, l.t.Add(m, l.t.Len(p)), l.t.Len(s)), l.t.tru}
		}},
		"Count": {params: "string string", results: "int", need: strings.Fields("loop1.init loop1.step loop1.ends"),
			goal: func(l *lib, a []Val) []Val {
				s, p := libStr(a[0]), libStr(a[1])
				return []Val{l.split3(l.t.Eq(l.t.Len(p), l.int(0)), func() *Term { return l.t.AddN(l.t.Len(s), 1) }, func() *Term { return l.count(s, p, l.int(0)) })}
			},
			loops: []*libLoop{{
				inv: func(l *lib) []*Term {
					return []*Term{l.between(l.int(0), l.v("i"), l.t.Len(l.p(0))), l.t.Eq(l.v("lenS"), l.t.Len(l.p(0))), l.t.Eq(l.v("lenSub"), l.t.Len(l.p(1)))}
				},
				rest: func(l *lib) *Term { return l.t.Add(l.v("c"), l.count(l.p(0), l.p(1), l.v("i"))) },
				split: func(l *lib) *Term {
					t, i := l.t, l.v("i")
					return t.Add(l.v("c"), l.split3(t.Lt(t.Len(l.p(0)), t.Add(i, t.Len(l.p(1)))), func() *Term { return l.int(0) }, func() *Term {
						return l.split3(l.prefixAt(l.p(0), i, l.p(1)), func() *Term { return t.AddN(l.count(l.p(0), l.p(1), t.Add(i, t.Len(l.p(1)))), 1) },
							func() *Term { return l.count(l.p(0), l.p(1), t.AddN(i, 1)) })
					}))
				},
				// The definition is also unfolded at the next position, where there may be too little left.
				facts: func(l *lib) {
					t := l.t
					for d := int64(0); d <= 1; d++ {
						i := t.AddN(l.v("i"), d)
						l.x.assume(t.Imp(t.Lt(t.Len(l.p(0)), t.Add(i, t.Len(l.p(1)))), t.Eq(l.count(l.p(0), l.p(1), i), l.int(0))))
					}
				},
				meas: func(l *lib) *Term { return l.t.Sub(l.t.Len(l.p(0)), l.v("i")) },
			}}},
		"Join": {params: "[]string string", results: "string", need: strings.Fields("loop1.init loop1.step loop1.ends"),
			goal: func(l *lib, a []Val) []Val {
				return []Val{l.t.UF("join", SStr, a[0].(*libSlice).content, libStr(a[1]), l.int(0))}
			},
			loops: []*libLoop{{
				inv: func(l *lib) []*Term {
					n := l.params[0].(*libSlice).n
					return []*Term{l.between(l.int(0), l.v("i"), n), l.t.Eq(l.v("l"), n)}
				},
				rest: func(l *lib) *Term {
					return l.t.Cat(l.v("s"), l.t.UF("join", SStr, l.params[0].(*libSlice).content, l.p(1), l.v("i")))
				},
				split: func(l *lib) *Term {
					t, i, e := l.t, l.v("i"), l.params[0].(*libSlice)
					next := t.UF("join", SStr, e.content, l.p(1), t.AddN(i, 1))
					return t.Cat(l.v("s"), l.split3(t.Le(e.n, i), func() *Term { return t.Str("") }, func() *Term {
						return l.split3(t.Eq(t.AddN(i, 1), e.n), func() *Term { return t.Cat(l.elem(e, i), next) }, func() *Term { return t.Cat(l.elem(e, i), l.p(1), next) })
					}))
				},
				meas: func(l *lib) *Term { return l.t.Sub(l.params[0].(*libSlice).n, l.v("i")) },
			}}},
		"Repeat": {params: "string int", results: "string", need: strings.Fields("panic loop1.init loop1.step loop1.ends"),
			goal: func(l *lib, a []Val) []Val {
				return []Val{l.t.UF("repeat", SStr, libStr(a[0]), libStr(a[1]), l.int(0))}
			},
			panics: func(l *lib) *Term { return l.t.Lt(l.p(1), l.int(0)) },
			loops: []*libLoop{{
				// A negative count is a panic.
				inv:  func(l *lib) []*Term { return []*Term{l.between(l.int(0), l.v("i"), l.p(1))} },
				rest: func(l *lib) *Term { return l.t.Cat(l.v("new"), l.t.UF("repeat", SStr, l.p(0), l.p(1), l.v("i"))) },
				split: func(l *lib) *Term {
					return l.t.Cat(l.v("new"), l.split3(l.t.Le(l.p(1), l.v("i")), func() *Term { return l.t.Str("") }, func() *Term {
						return l.t.Cat(l.p(0), l.t.UF("repeat", SStr, l.p(0), l.p(1), l.t.AddN(l.v("i"), 1)))
					}))
				},
				meas: func(l *lib) *Term { return l.t.Sub(l.p(1), l.v("i")) },
			}}},
		"Split": {params: "string string", results: "[]string", need: strings.Fields("loop1.init loop1.step loop1.ends loop2.init loop2.step loop2.ends"),
			goal: func(l *lib, a []Val) []Val {
				s, p := libStr(a[0]), libStr(a[1])
				return []Val{l.split3(l.t.Eq(l.t.Len(p), l.int(0)), func() *Term { return l.t.UF("chars", SStr, s, l.int(0)) }, func() *Term { return l.t.UF("split", SStr, s, p, l.int(0)) })}
			},
			loops: []*libLoop{{
				inv: func(l *lib) []*Term {
					return []*Term{l.between(l.int(0), l.v("i"), l.t.Len(l.p(0))), l.t.Eq(l.list("elems").n, l.v("i")), l.t.Eq(l.v("sLen"), l.t.Len(l.p(0)))}
				},
				rest: func(l *lib) *Term { return l.t.Cat(l.list("elems").content, l.t.UF("chars", SStr, l.p(0), l.v("i"))) },
				split: func(l *lib) *Term {
					t, i := l.t, l.v("i")
					return t.Cat(l.list("elems").content, l.split3(t.Le(t.Len(l.p(0)), i), func() *Term { return t.Str("") }, func() *Term {
						return t.Cat(l.item(l.cut(l.p(0), i, t.AddN(i, 1))), t.UF("chars", SStr, l.p(0), t.AddN(i, 1)))
					}))
				},
				meas: func(l *lib) *Term { return l.t.Sub(l.t.Len(l.p(0)), l.v("i")) },
			}, {
				inv: func(l *lib) []*Term {
					return []*Term{l.between(l.int(0), l.v("startI"), l.v("endI")), l.t.Le(l.v("endI"), l.t.Len(l.p(0))), l.t.Eq(l.list("elems").n, l.v("elIndex")),
						l.t.Eq(l.find(l.p(0), l.p(1), l.v("startI")), l.find(l.p(0), l.p(1), l.v("endI"))),
						l.t.Eq(l.v("sLen"), l.t.Len(l.p(0))), l.t.Eq(l.v("sepLen"), l.t.Len(l.p(1)))}
				},
				rest: func(l *lib) *Term {
					return l.t.Cat(l.list("elems").content, l.t.UF("split", SStr, l.p(0), l.p(1), l.v("startI")))
				},
				split: func(l *lib) *Term {
					t, s, p, a, z := l.t, l.p(0), l.p(1), l.v("startI"), l.v("endI")
					m := l.findStep(s, p, z)
					l.x.assume(t.Eq(l.find(s, p, z), m))
					r := t.UF("split", SStr, s, p, a)
					if m.isConst() {
						r = l.item(rawSub(t, s, a, t.Len(s)))
					} else if m == z {
						r = t.Cat(l.item(rawSub(t, s, a, z)), t.UF("split", SStr, s, p, t.Add(z, t.Len(p))))
					}
					return t.Cat(l.list("elems").content, r)
				},
				meas: func(l *lib) *Term { return l.t.Sub(l.t.Len(l.p(0)), l.v("endI")) },
			}}},
		"Replace": {params: "string string string int", results: "string", need: strings.Fields("loop1.init loop1.step loop1.ends"),
			goal: func(l *lib, a []Val) []Val {
				t := l.t
				s, o, w, n := libStr(a[0]), libStr(a[1]), libStr(a[2]), libStr(a[3])
				if l.x.branch(t.And(t.Eq(t.Len(o), l.int(0)), t.Not(t.Eq(n, l.int(0))))) {
					return []Val{t.Cat(w, t.UF("replace", SStr, s, o, w, n, l.int(0), l.int(1)))}
				}
				return []Val{t.UF("replace", SStr, s, o, w, n, l.int(0), l.int(0))}
			},
			loops: []*libLoop{{
				inv: func(l *lib) []*Term {
					return []*Term{l.between(l.int(0), l.v("i"), l.t.Len(l.p(0))), l.t.Le(l.int(0), l.v("rep")), l.t.Eq(l.v("lenOld"), l.t.Len(l.p(1)))}
				},
				rest: func(l *lib) *Term { return l.t.Cat(l.v("res"), l.replaceRest(l.v("i"), l.v("rep"))) },
				split: func(l *lib) *Term {
					t, i, r, n := l.t, l.v("i"), l.v("rep"), l.p(3)
					one, again := t.AddN(i, 1), t.AddN(r, 1)
					return t.Cat(l.v("res"), l.split3(t.Le(t.Len(l.p(0)), i), func() *Term { return t.Str("") }, func() *Term {
						return l.split3(t.And(t.Le(l.int(0), n), t.Le(n, r)), func() *Term { return rawSub(t, l.p(0), i, t.Len(l.p(0))) }, func() *Term {
							return l.split3(t.Eq(t.Len(l.p(1)), l.int(0)), func() *Term { return t.Cat(l.cut(l.p(0), i, one), l.p(2), l.replaceRest(one, again)) }, func() *Term {
								return l.split3(l.prefixAt(l.p(0), i, l.p(1)), func() *Term { return t.Cat(l.p(2), l.replaceRest(t.Add(i, t.Len(l.p(1))), again)) },
									func() *Term { return t.Cat(l.cut(l.p(0), i, one), l.replaceRest(one, r)) })
							})
						})
					}))
				},
				meas: func(l *lib) *Term { return l.t.Sub(l.t.Len(l.p(0)), l.v("i")) },
			}}},
		"ReplaceAll": {params: "string string string", results: "string", goal: func(l *lib, a []Val) []Val {
			return libSpecs["Replace"].goal(l, append(append([]Val{}, a...), l.int(-1)))
		}},
		"TrimLeft":  trimSpec("trimleft", true),
		"TrimRight": trimSpec("trimright", false),
		"Trim": {params: "string string", results: "string", goal: func(l *lib, a []Val) []Val {
			return libSpecs["TrimRight"].goal(l, []Val{libSpecs["TrimLeft"].goal(l, a)[0], a[1]})
		}},
		"TrimSpace": {params: "string", results: "string", goal: func(l *lib, a []Val) []Val { return libSpecs["Trim"].goal(l, []Val{a[0], l.t.Str("\t\n\v\f\r ")}) }},
	}
}

// libValidate compares the definitions with Go's functions.
func libValidate() string {
	words := []string{""}
	for i := 0; i < len(words); i++ {
		if len(words[i]) < 5 {
			words = append(words, words[i]+"a", words[i]+"b")
		}
	}
	short := words[:15]
	var find func(s, p string, i int) int
	find = func(s, p string, i int) int {
		if len(s) < i+len(p) {
			return -1
		}
		if s[i:i+len(p)] == p {
			return i
		}
		return find(s, p, i+1)
	}
	var count func(s, p string, i int) int
	count = func(s, p string, i int) int {
		if len(s) < i+len(p) {
			return 0
		}
		if s[i:i+len(p)] == p {
			return 1 + count(s, p, i+len(p))
		}
		return count(s, p, i+1)
	}
	var split func(s, p string, a int) []string
	split = func(s, p string, a int) []string {
		m := find(s, p, a)
		if m < 0 {
			return []string{s[a:]}
		}
		return append([]string{s[a:m]}, split(s, p, m+len(p))...)
	}
	var repl func(s, o, w string, n, i, r int) string
	repl = func(s, o, w string, n, i, r int) string {
		switch {
		case len(s) <= i:
			return ""
		case n >= 0 && n <= r:
			return s[i:]
		case o == "":
			return s[i:i+1] + w + repl(s, o, w, n, i+1, r+1)
		case strings.HasPrefix(s[i:], o):
			return w + repl(s, o, w, n, i+len(o), r+1)
		}
		return s[i:i+1] + repl(s, o, w, n, i+1, r)
	}
	var left func(s, c string, a int) string
	left = func(s, c string, a int) string {
		switch {
		case len(s) <= a:
			return ""
		case strings.IndexByte(c, s[a]) < 0:
			return s[a:]
		}
		return left(s, c, a+1)
	}
	var right func(s, c string, b int) string
	right = func(s, c string, b int) string {
		switch {
		case b <= 0:
			return ""
		case strings.IndexByte(c, s[b-1]) < 0:
			return s[:b]
		}
		return right(s, c, b-1)
	}
	var join func(e []string, sep string, i int) string
	join = func(e []string, sep string, i int) string {
		switch {
		case len(e) <= i:
			return ""
		case i+1 == len(e):
			return e[i] + join(e, sep, i+1)
		}
		return e[i] + sep + join(e, sep, i+1)
	}
	for _, s := range words {
		for _, p := range short {
			b := strings.Index(s, p) == find(s, p, 0) && strings.TrimLeft(s, p) == left(s, p, 0) && strings.TrimRight(s, p) == right(s, p, len(s)) &&
				strings.Trim(s, p) == right(left(s, p, 0), p, len(left(s, p, 0)))
			if p != "" {
				b = b && strings.Count(s, p) == count(s, p, 0) && strings.Join(strings.Split(s, p), "|") == strings.Join(split(s, p, 0), "|") && len(split(s, p, 0)) == len(strings.Split(s, p))
			} else {
				b = b && strings.Count(s, p) == len(s)+1 && len(strings.Split(s, p)) == len(s)
			}
			e := strings.Split(s, "a")
			b = b && join(e, p, 0) == strings.Join(e, p) && join(e[:0], p, 0) == ""
			for _, w := range short[:7] {
				for n := -2; n < 5; n++ {
					got := repl(s, p, w, n, 0, 0)
					if p == "" && n != 0 {
						got = w + repl(s, p, w, n, 0, 1)
					}
					b = b && got == strings.Replace(s, p, w, n)
				}
			}
			if !b {
				return fmt.Sprintf("the definitions differ from Go's functions for %q and %q", s, p)
			}
		}
	}
	return ""
}
