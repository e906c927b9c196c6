package main

// Program generator. Programs are built statement by statement and every prefix is run by the reference
// interpreter, so that the complete program stays within the specified behaviour.

import (
	"fmt"
	"math/rand"
	"strings"
)

type profile struct {
	types     []Ty
	funcs     int // chance (of 100) of a function definition at top level
	calls     int // weight of calls in expressions
	loops     bool
	switches  bool
	panics    bool
	strs      []string // pool of string contents
	strAlpha  string   // additional random content
	slices    bool
	trace     bool // functions print when they are called
	multi     bool
	extreme   bool // extreme integers
	compounds bool
	stmts     int
	depth     int
	files     bool // read/write/exists
	i32       bool
	strOrder  bool // < > <= >= on strings
}

type gen struct {
	r     *rand.Rand
	p     profile
	vis   []*Var
	fns   []*Func
	in    *Func
	loop  int
	inSw  int
	depth int
	next  int
	pref  string
	paths []string
	pool  []string
	fuel  int
	mod   int
	big   int
}

var namePool = []string{"a", "b", "c", "d", "e", "x", "y", "z", "i", "j", "k", "n", "m", "s", "t", "val", "tmp", "Res", "count", "_u", "aB", "ab"}

func (g *gen) n(k int) int        { return g.r.Intn(k) }
func (g *gen) pct(k int) bool     { return g.r.Intn(100) < k }
func (g *gen) pickTy() Ty         { return g.p.types[g.n(len(g.p.types))] }
func pick[T any](g *gen, l []T) T { return l[g.n(len(l))] }

func (g *gen) taken(n string) bool {
	for _, v := range g.vis {
		if v.Name == n {
			return true
		}
	}
	for _, f := range g.fns {
		if f.Name == n && f.Mod == g.mod {
			return true
		}
	}
	return g.in != nil && g.in.Name == n
}

func (g *gen) fresh() string {
	pool := namePool
	if g.pool != nil {
		pool = g.pool
	}
	for i := 0; i < 20; i++ {
		if n := pick(g, pool); !g.taken(n) {
			return n
		}
	}
	for {
		g.next++
		if n := fmt.Sprintf("v%d", g.next); !g.taken(n) {
			return n
		}
	}
}

func (g *gen) newVar(t Ty, top bool) *Var {
	return &Var{Name: g.fresh(), T: t, Global: top && g.in == nil}
}

func (g *gen) varsOf(t Ty, write bool) []*Var {
	r := []*Var{}
	for _, v := range g.vis {
		if v.T == t && !(write && v.RO) {
			r = append(r, v)
		}
	}
	return r
}

func (g *gen) str() string {
	if len(g.p.strs) > 0 && g.pct(70) {
		return pick(g, g.p.strs)
	}
	a := g.p.strAlpha
	if a == "" {
		a = "abcxyz 01"
	}
	s := ""
	for n := g.n(7); n > 0; n-- {
		s += string(a[g.n(len(a))])
	}
	return s
}

func (g *gen) intLit() Expr {
	switch {
	case g.p.extreme && g.pct(8):
		vs := []int64{9223372036854775807, -9223372036854775808, 4611686018427387904, 2147483648, -2147483648, 4294967296, 1000003}
		if g.p.i32 {
			vs = []int64{2147483647, -2147483647, 65536, 1000003}
		}
		return EInt{pick(g, vs)}
	case g.pct(15):
		return EInt{-int64(g.n(9)) - 1}
	}
	return EInt{int64(g.n(12))}
}

func (g *gen) lit(t Ty) Expr { return g.litd(t, 0) }

func (g *gen) litd(t Ty, d int) Expr {
	g.fuel--
	switch t {
	case TInt:
		return g.intLit()
	case TBool:
		return EBool{g.pct(50)}
	case TStr:
		if g.pct(4) {
			return ENil{}
		}
		return EStr{g.str(), g.pct(25)}
	}
	n := g.many(4)
	if g.fuel < 0 {
		n = 0
	}
	es := []Expr{}
	for i := 0; i < n; i++ {
		es = append(es, g.expr(t.elem(), d))
	}
	return ESlice{t, es}
}

func (g *gen) fnsOf(t Ty) []*Func {
	r := []*Func{}
	for _, f := range g.fns {
		if len(f.Rets) == 1 && f.Rets[0] == t {
			r = append(r, f)
		}
	}
	return r
}

func (g *gen) call(f *Func, d int) Expr {
	// A call which provides all the arguments.
	if g.p.multi && d > 0 && len(f.Params) > 1 && g.pct(25) {
		for _, h := range g.fns {
			if h != f && len(h.Rets) == len(f.Params) {
				ok := true
				for i := range h.Rets {
					ok = ok && h.Rets[i] == f.Params[i].T
				}
				if ok {
					return ECall{f, []Expr{g.call(h, d-1)}}
				}
			}
		}
	}
	as := []Expr{}
	for _, p := range f.Params {
		as = append(as, g.expr(p.T, d-1))
	}
	return ECall{f, as}
}

func (g *gen) expr(t Ty, d int) Expr {
	if d <= 0 || g.fuel < 0 || g.pct(12) {
		if vs := g.varsOf(t, false); len(vs) > 0 && g.pct(65) {
			return EVar{pick(g, vs)}
		}
		return g.litd(t, d-1)
	}
	if g.p.calls > 0 && g.pct(g.p.calls) {
		if fs := g.fnsOf(t); len(fs) > 0 {
			return g.call(pick(g, fs), d)
		}
	}
	if g.pct(8) && !t.slice() {
		return EGroup{g.expr(t, d-1)}
	}
	if g.p.slices && !t.slice() && g.pct(25) {
		if vs := g.varsOf(t.sliceOf(), false); len(vs) > 0 {
			return EIndex{pick(g, vs), g.index(d)}
		}
	}
	if g.p.files && g.pct(15) {
		switch t {
		case TStr:
			return ERead{g.path(d)}
		case TBool:
			return EExists{g.path(d)}
		}
	}
	if g.pct(2) && g.big == 0 && d > 1 {
		// A long chain.
		e := g.expr(t, 1)
		if t == TInt || t == TStr || t == TBool {
			for n := 3 + g.n(7); n > 0; n-- {
				switch t {
				case TInt:
					op := pick(g, []string{"+", "-", "*", "/", "%"})
					r := g.expr(t, 1)
					if op == "/" || op == "%" {
						r = EInt{pick(g, []int64{2, 3, -2, 7})}
					}
					e = EBin{op, e, r}
				case TStr:
					e = EBin{"+", e, g.expr(t, 1)}
				default:
					e = ELog{pick(g, []string{"&&", "||"}), e, g.expr(t, 1)}
				}
			}
		}
		return e
	}
	switch t {
	case TInt:
		switch k := g.n(10); {
		case k < 6:
			op := pick(g, []string{"+", "-", "*", "+", "-", "*", "/", "%"})
			if op == "/" || op == "%" {
				r := Expr(EInt{pick(g, []int64{1, 2, 3, 5, 7, -1, -2, -3, 10})})
				if g.pct(30) {
					r = g.expr(TInt, d-1)
				}
				return EBin{op, g.expr(TInt, d-1), r}
			}
			return EBin{op, g.expr(TInt, d-1), g.expr(TInt, d-1)}
		case k < 8 && len(g.strTypes()) > 0:
			return ELen{g.lenArg(d)}
		}
		if g.p.slices && g.pct(10) {
			st := pick(g, []Ty{TSInt, TSStr, TSBool})
			if vs := g.varsOf(st, true); len(vs) > 0 {
				src := g.varsOf(st, false)
				return ECopy{pick(g, vs), EVar{pick(g, src)}}
			}
		}
		if vs := g.varsOf(TInt, false); len(vs) > 0 {
			return EVar{pick(g, vs)}
		}
		return g.lit(t)
	case TBool:
		switch k := g.n(10); {
		case k < 5:
			ct := pick(g, []Ty{TInt, TInt, TBool, TStr})
			if !g.has(ct) {
				ct = TBool
				if g.has(TInt) {
					ct = TInt
				}
			}
			ops := []string{"==", "!="}
			if ct == TInt || ct == TStr && g.p.strOrder {
				ops = []string{"==", "!=", "<", "<=", ">", ">="}
			}
			return ECmp{pick(g, ops), g.expr(ct, d-1), g.expr(ct, d-1)}
		case k < 8:
			return ELog{pick(g, []string{"&&", "||"}), g.expr(TBool, d-1), g.expr(TBool, d-1)}
		}
		return ENot{g.expr(TBool, d-1)}
	case TStr:
		vs := g.varsOf(TStr, false)
		switch k := g.n(10); {
		case k < 4:
			return EBin{"+", g.expr(TStr, d-1), g.expr(TStr, d-1)}
		case k < 5 && g.has(TInt):
			return EItoa{g.expr(TInt, d-1)}
		case k < 7 && len(vs) > 0:
			return EIndex{pick(g, vs), g.index(d)}
		case k < 9 && len(vs) > 0:
			e := ESub{V: pick(g, vs)}
			if g.pct(70) {
				e.A = EInt{int64(g.n(3))}
				if g.pct(25) {
					e.A = g.index(d)
				}
			}
			if g.pct(70) {
				e.B = EInt{int64(g.n(5))}
				if g.pct(25) {
					e.B = ELen{EVar{e.V}}
				}
			}
			return e
		}
		return g.lit(t)
	}
	if vs := g.varsOf(t, false); len(vs) > 0 && g.pct(60) {
		return EVar{pick(g, vs)}
	}
	return g.litd(t, d-1)
}

func (g *gen) has(t Ty) bool {
	for _, x := range g.p.types {
		if x == t {
			return true
		}
	}
	return false
}

func (g *gen) strTypes() []Ty {
	r := []Ty{}
	for _, t := range g.p.types {
		if t >= TStr {
			r = append(r, t)
		}
	}
	return r
}

func (g *gen) lenArg(d int) Expr {
	t := pick(g, g.strTypes())
	if vs := g.varsOf(t, false); len(vs) > 0 && g.pct(80) {
		return EVar{pick(g, vs)}
	}
	return g.expr(t, d-1)
}

func (g *gen) index(d int) Expr {
	if g.pct(60) {
		return EInt{int64(g.n(3))}
	}
	return g.expr(TInt, d-1)
}

func (g *gen) path(d int) Expr { return EStr{pick(g, g.paths), false} }

// many is a number below k, or a large one now and then (long lists are not only repetitions of short ones).
func (g *gen) many(k int) int {
	if g.big == 0 && g.pct(3) {
		g.big = 12
	}
	if g.big > 0 && g.pct(60) {
		n := 4 + g.n(8)
		if n > g.big {
			n = g.big
		}
		g.big -= n
		return n
	}
	return g.n(k)
}

func (g *gen) body(k int) []Stmt {
	save := len(g.vis)
	b := []Stmt{}
	for n := g.many(k + 1); n > 0; n-- {
		b = append(b, g.stmt(false)...)
	}
	g.vis = g.vis[:save]
	return b
}

func (g *gen) call2(n int) *Func {
	fs := []*Func{}
	for _, f := range g.fns {
		if len(f.Rets) == n {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return nil
	}
	return pick(g, fs)
}

// manyRets picks a function with many values.
func (g *gen) manyRets(f **Func) bool {
	for _, h := range g.fns {
		if len(h.Rets) > 3 && g.pct(20) {
			*f = h
			return true
		}
	}
	return false
}

func (g *gen) counterLoop() []Stmt {
	// v := k; for v > 0 { ...; v = v - 1 } in several spellings.
	v := &Var{Name: g.fresh(), T: TInt, Global: false, RO: true}
	if g.in == nil && g.depth == 1 {
		v.Global = true
	}
	g.vis = append(g.vis, v)
	g.loop++
	sw := g.inSw
	g.inSw = 0
	k := int64(g.n(4))
	var dec Stmt = SInc{v, true}
	if g.pct(30) {
		dec = SCompound{v, "-", EInt{1}}
	}
	var b []Stmt
	if g.pct(50) {
		b = append([]Stmt{dec}, g.body(3)...)
		b = []Stmt{SDef{Vs: []*Var{v}, Es: []Expr{EInt{k}}}, SFor{Cond: ECmp{">", EVar{v}, EInt{0}}, Body: b}}
	} else {
		b = append([]Stmt{SIf{Cs: []Expr{ECmp{"<=", EVar{v}, EInt{0}}}, Bs: [][]Stmt{{SBreak{}}}}, dec}, g.body(3)...)
		b = []Stmt{SDef{Vs: []*Var{v}, Es: []Expr{EInt{k}}}, SFor{Body: b}}
	}
	g.loop--
	g.inSw = sw
	return b
}

// dispatch is a long chain of branches of which a late one is taken.
func (g *gen) dispatch() Stmt {
	n := 4 + g.n(9)
	at := n - 1 - g.n(4)
	tag := Expr(EInt{int64(at)})
	if vs := g.varsOf(TInt, false); len(vs) > 0 && g.pct(50) {
		v := pick(g, vs)
		tag = EBin{"+", EBin{"-", EVar{v}, EVar{v}}, tag}
	}
	mark := func(i int) []Stmt {
		b := []Stmt{SPrint{[]Expr{EStr{"branch", false}, EInt{int64(i)}}}}
		if g.pct(20) {
			b = append(g.body(1), b...)
		}
		return b
	}
	if g.p.switches && g.pct(50) {
		s := SSwitch{Tag: tag}
		g.inSw++
		for i := 0; i < n; i++ {
			s.Cs = append(s.Cs, EInt{int64(i)})
			s.Bs = append(s.Bs, mark(i))
		}
		if s.HasD = g.pct(50); s.HasD {
			s.Def = mark(n)
		}
		g.inSw--
		return s
	}
	s := SIf{}
	for i := 0; i < n; i++ {
		s.Cs = append(s.Cs, ECmp{"==", tag, EInt{int64(i)}})
		s.Bs = append(s.Bs, mark(i))
	}
	if s.HasE = g.pct(50); s.HasE {
		s.Else = mark(n)
	}
	return s
}

func (g *gen) stmt(top bool) []Stmt {
	g.depth++
	defer func() { g.depth-- }()
	g.fuel = 40
	d := g.p.depth
	one := func(s Stmt) []Stmt { return []Stmt{s} }
	k := g.n(100)
	deep := g.depth > 3
	if !deep && g.has(TInt) && g.pct(2) {
		return one(g.dispatch())
	}
	switch {
	case k < 18:
		return one(g.def(top))
	case k < 34:
		return one(g.assign())
	case k < 44:
		t := pick(g, g.p.types)
		if vs := g.varsOf(t, true); g.p.slices && t.slice() && len(vs) > 0 {
			return one(SIdx{pick(g, vs), g.index(d), g.expr(t.elem(), d)})
		}
		fallthrough
	case k < 60:
		es := []Expr{}
		for n := 1 + g.many(3); n > 0; n-- {
			t := g.pickTy()
			if t.slice() {
				t = TInt
			}
			es = append(es, g.expr(t, d))
		}
		return one(SPrint{es})
	case k < 70 && !deep:
		s := SIf{}
		for n := 1 + g.many(3); n > 0; n-- {
			s.Cs = append(s.Cs, g.expr(TBool, d-1))
		}
		for range s.Cs {
			s.Bs = append(s.Bs, g.body(3))
		}
		if s.HasE = g.pct(50); s.HasE {
			s.Else = g.body(3)
		}
		return one(s)
	case k < 78 && !deep && g.p.switches:
		s := SSwitch{}
		t := TBool
		if g.pct(80) {
			t = pick(g, []Ty{TInt, TStr, TBool})
			if !g.has(t) {
				t = TBool
			}
			s.Tag = g.expr(t, d-1)
		}
		for n := g.many(4); n > 0; n-- {
			s.Cs = append(s.Cs, g.expr(t, d-1))
		}
		g.inSw++
		for range s.Cs {
			s.Bs = append(s.Bs, g.body(2))
		}
		if s.HasD = len(s.Cs) == 0 || g.pct(50); s.HasD {
			s.Def = g.body(2)
		}
		g.inSw--
		return one(s)
	case k < 88 && !deep && g.p.loops:
		switch m := g.n(10); {
		case m < 3:
			return g.counterLoop()
		case m < 6 && len(g.strTypes()) > 0:
			save := len(g.vis)
			t := pick(g, g.strTypes())
			x := g.expr(t, 1)
			i := &Var{Name: g.fresh(), T: TInt}
			g.vis = append(g.vis, i)
			var v *Var
			vt := TStr
			if t.slice() {
				vt = t.elem()
			}
			v = &Var{Name: g.fresh(), T: vt}
			g.vis = append(g.vis, v)
			g.loop++
			sw := g.inSw
			g.inSw = 0
			b := g.body(3)
			g.loop--
			g.inSw = sw
			g.vis = g.vis[:save]
			return one(SRange{i, v, x, b})
		}
		save := len(g.vis)
		v := &Var{Name: g.fresh(), T: TInt, RO: true}
		def := SDef{Vs: []*Var{v}, Es: []Expr{EInt{int64(g.n(3))}}, Form: g.n(3)}
		g.vis = append(g.vis, v)
		if g.p.multi && g.pct(25) {
			if f := g.call2(2); f != nil && f.Rets[0] == TInt && g.pct(70) {
				g.vis = g.vis[:save]
				def.Es = []Expr{g.call(f, d-1)}
				g.vis = append(g.vis, v)
				def.Vs = append(def.Vs, g.newVar(f.Rets[1], false))
				def.Form = g.n(2)
				g.vis = append(g.vis, def.Vs[1])
			} else {
				g.vis = g.vis[:save]
				def.Es = append(def.Es, g.litd(g.pickTy(), 0))
				g.vis = append(g.vis, v)
				def.Vs = append(def.Vs, g.newVar(def.Es[1].ty(), false))
				def.Form = g.n(2)
				g.vis = append(g.vis, def.Vs[1])
			}
		}
		s := SFor{Init: def, Post: SInc{V: v}}
		lim := Expr(EInt{int64(g.n(6))})
		s.Cond = ECmp{pick(g, []string{"<", "<=", "!="}), EVar{v}, lim}
		if g.pct(20) {
			s.Cond = ELog{"&&", s.Cond, g.expr(TBool, 1)}
		}
		if g.pct(20) {
			s.Post = SCompound{v, "+", EInt{1}}
		} else if g.pct(15) {
			s.Post = SAssign{Vs: []*Var{v}, Es: []Expr{EBin{"+", EVar{v}, EInt{1 + int64(g.n(2))}}}}
		}
		if len(def.Vs) == 2 && g.pct(40) {
			if w := def.Vs[1]; !w.T.slice() {
				s.Post = SAssign{Vs: []*Var{v, w}, Es: []Expr{EBin{"+", EVar{v}, EInt{1}}, g.expr(w.T, d-1)}}
			}
		}
		g.loop++
		sw := g.inSw
		g.inSw = 0
		s.Body = g.body(3)
		g.loop--
		g.inSw = sw
		g.vis = g.vis[:save]
		return one(s)
	case k < 91 && (g.loop > 0 || g.inSw > 0):
		var s Stmt = SBreak{}
		if g.loop > 0 && g.pct(50) {
			s = SCont{}
		}
		return one(SIf{Cs: []Expr{g.expr(TBool, d-1)}, Bs: [][]Stmt{{s}}})
	case k < 92 && g.p.panics:
		return one(SIf{Cs: []Expr{g.expr(TBool, d-1)}, Bs: [][]Stmt{{SPanic{g.expr(TStr, d-1)}}}})
	case k < 95 && g.in != nil && g.pct(60):
		return one(SIf{Cs: []Expr{g.expr(TBool, d-1)}, Bs: [][]Stmt{{g.ret(d - 1)}}})
	case k < 98 && len(g.fns) > 0:
		if g.pct(35) {
			return one(g.exprStmt(d))
		}
		f := pick(g, g.fns)
		return one(SExpr{g.call(f, d)})
	case g.p.files && k < 100:
		s := SWrite{P: g.path(d), D: g.expr(TStr, d)}
		if g.pct(60) {
			s.A = g.expr(TBool, 1)
		}
		return one(s)
	}
	return one(g.def(top))
}

// exprStmt is an operation whose value isn't used.
func (g *gen) exprStmt(d int) Stmt {
	for i := 0; i < 6; i++ {
		e := g.expr(g.pickTy(), d)
		switch x := e.(type) {
		case EBin, ECmp, ELog, ENot, EGroup, ELen, EItoa, ECopy, ESub, EIndex:
			src := (&printer{}).expr(e)
			for _, v := range g.vis {
				// A slice variable at the start of a statement is the start of an assignment.
				if v.T.slice() && strings.HasPrefix(src, v.Name+"[") {
					x = EGroup{e}
				}
			}
			return SExpr{x}
		}
	}
	return SExpr{g.call(pick(g, g.fns), d)}
}

func (g *gen) ret(d int) Stmt {
	es := []Expr{}
	if len(g.in.Rets) > 1 && g.p.multi && g.pct(20) {
		for _, f := range g.fns {
			if fmt.Sprint(f.Rets) == fmt.Sprint(g.in.Rets) {
				return SRet{[]Expr{g.call(f, d)}}
			}
		}
	}
	for _, t := range g.in.Rets {
		es = append(es, g.expr(t, d))
	}
	return SRet{es}
}

func (g *gen) def(top bool) Stmt {
	d := g.p.depth
	if g.p.multi && g.pct(25) {
		if f := g.call2(2 + g.n(2)); f != nil && g.pct(60) || g.manyRets(&f) {
			e := g.call(f, d)
			s := SDef{Form: g.n(2), Es: []Expr{e}}
			for _, t := range f.Rets {
				s.Vs = append(s.Vs, g.newVar(t, top))
				g.vis = append(g.vis, s.Vs[len(s.Vs)-1])
			}
			return s
		}
		n := 2 + g.many(2)
		s := SDef{Form: g.n(2)}
		for i := 0; i < n; i++ {
			s.Es = append(s.Es, g.expr(g.pickTy(), d-1))
		}
		for i := 0; i < n; i++ {
			s.Vs = append(s.Vs, g.newVar(s.Es[i].ty(), top))
			g.vis = append(g.vis, s.Vs[i])
		}
		return s
	}
	t := g.pickTy()
	s := SDef{Form: g.n(4)}
	if s.Form < 3 {
		s.Es = []Expr{g.expr(t, d)}
	}
	v := g.newVar(t, top)
	s.Vs = []*Var{v}
	g.vis = append(g.vis, v)
	return s
}

func (g *gen) assign() Stmt {
	d := g.p.depth
	if g.p.multi && g.pct(30) {
		if f := g.call2(2); f != nil && g.pct(40) {
			s := SAssign{Es: []Expr{g.call(f, d)}}
			for _, t := range f.Rets {
				vs := g.varsOf(t, true)
				if len(vs) == 0 {
					return g.assign1()
				}
				v := pick(g, vs)
				if len(s.Vs) == 1 && s.Vs[0] == v {
					return g.assign1()
				}
				s.Vs = append(s.Vs, v)
			}
			return s
		}
		s := SAssign{}
		seen := map[*Var]bool{}
		for n := 2 + g.many(2); n > 0; n-- {
			if vs := g.varsOf(g.pickTy(), true); len(vs) > 0 {
				v := pick(g, vs)
				if !seen[v] {
					seen[v] = true
					s.Vs = append(s.Vs, v)
				}
			}
		}
		if len(s.Vs) > 0 {
			for i, v := range s.Vs {
				// Swaps and rotations.
				if w := s.Vs[(i+1)%len(s.Vs)]; w.T == v.T && g.pct(60) {
					s.Es = append(s.Es, EVar{w})
				} else {
					s.Es = append(s.Es, g.expr(v.T, d-1))
				}
			}
			return s
		}
	}
	return g.assign1()
}

func (g *gen) assign1() Stmt {
	d := g.p.depth
	for i := 0; i < 5; i++ {
		t := g.pickTy()
		vs := g.varsOf(t, true)
		if len(vs) == 0 {
			continue
		}
		v := pick(g, vs)
		if t == TInt && g.p.compounds {
			switch g.n(4) {
			case 0:
				return SInc{v, g.pct(50)}
			case 1:
				op := pick(g, []string{"+", "-", "*", "/", "%"})
				e := g.expr(TInt, d-1)
				if op == "/" || op == "%" {
					e = EInt{pick(g, []int64{2, 3, -2, 7})}
				}
				return SCompound{v, op, e}
			}
		}
		if t == TStr && g.p.compounds && g.pct(30) {
			return SCompound{v, "+", g.expr(TStr, d-1)}
		}
		return SAssign{Vs: []*Var{v}, Es: []Expr{g.expr(t, d)}}
	}
	return SPrint{[]Expr{g.expr(TBool, d)}}
}

func (g *gen) function() Stmt {
	f := &Func{Name: g.fresh(), Mod: g.mod}
	if g.pct(30) {
		f.Name = g.pref + pick(g, []string{"f", "g", "h", "Do", "get"})
		if g.taken(f.Name) {
			f.Name = g.fresh()
		}
	}
	save := g.vis
	saveLoop, saveDepth := g.loop, g.depth
	g.loop, g.depth = 0, 1
	g.in = f
	vis := []*Var{}
	for _, v := range g.vis {
		if v.Global {
			vis = append(vis, v)
		}
	}
	g.vis = vis
	np := g.n(4)
	if g.pct(6) {
		np = 9 + g.n(4)
	}
	for i := 0; i < np; i++ {
		p := &Var{Name: g.fresh(), T: g.pickTy()}
		f.Params = append(f.Params, p)
		g.vis = append(g.vis, p)
	}
	nr := pick(g, []int{0, 1, 1, 1})
	if g.p.multi {
		nr = pick(g, []int{0, 1, 1, 2, 2, 3})
		if g.pct(4) {
			nr = 4 + g.n(8)
		}
	}
	for i := 0; i < nr; i++ {
		f.Rets = append(f.Rets, g.pickTy())
	}
	if g.p.trace || g.pct(30) {
		es := []Expr{EStr{f.Name, false}}
		for _, p := range f.Params {
			if !p.T.slice() && len(es) < 3 {
				es = append(es, EVar{p})
			}
		}
		f.Body = append(f.Body, SPrint{es})
	}
	if g.p.trace || g.pct(40) {
		// Update a global variable in place.
		for _, t := range []Ty{TInt, TStr} {
			gl := []*Var{}
			for _, v := range g.varsOf(t, true) {
				if v.Global {
					gl = append(gl, v)
				}
			}
			if len(gl) > 0 {
				v := pick(g, gl)
				if t == TInt {
					f.Body = append(f.Body, pick(g, []Stmt{SInc{V: v}, SCompound{v, "+", EInt{int64(g.n(5))}}, SAssign{Vs: []*Var{v}, Es: []Expr{EBin{"-", EVar{v}, EInt{2}}}}}))
				} else if g.pct(40) {
					f.Body = append(f.Body, SCompound{v, "+", EStr{"+", false}})
				}
			}
		}
	}
	for n := g.n(4); n > 0; n-- {
		f.Body = append(f.Body, g.stmt(false)...)
	}
	if nr > 0 || g.pct(20) {
		switch m := g.n(10); {
		case m == 0 && g.p.panics && nr > 0:
			f.Body = append(f.Body, SIf{Cs: []Expr{g.expr(TBool, 2)}, Bs: [][]Stmt{{g.ret(1)}}, HasE: true, Else: []Stmt{SPanic{g.expr(TStr, 1)}}})
		case m < 3 && nr > 0:
			f.Body = append(f.Body, SIf{Cs: []Expr{g.expr(TBool, 2)}, Bs: [][]Stmt{{g.ret(1)}}, HasE: true, Else: []Stmt{g.ret(1)}})
		default:
			f.Body = append(f.Body, g.ret(2))
		}
	}
	g.in = nil
	g.vis = save
	g.loop, g.depth = saveLoop, saveDepth
	g.fns = append(g.fns, f)
	return SFunc{f}
}

// dump appends statements which show the final state.
func (g *gen) dump() []Stmt {
	b := []Stmt{}
	for _, v := range g.vis {
		if v.T.slice() {
			i := &Var{Name: g.fresh(), T: TInt}
			w := &Var{Name: g.fresh() + "q", T: v.T.elem()}
			b = append(b, SPrint{[]Expr{EStr{v.Name, false}, ELen{EVar{v}}}}, SRange{i, w, EVar{v}, []Stmt{SPrint{[]Expr{EVar{i}, EVar{w}}}}})
		} else {
			b = append(b, SPrint{[]Expr{EStr{v.Name, false}, EVar{v}}})
		}
	}
	return b
}

// program generates a program with specified behaviour together with its output and exit status.
func (g *gen) program(mk func() *interp) (b []Stmt, out string, code int) {
	for tries := 0; len(b) < g.p.stmts && tries < 4*g.p.stmts; tries++ {
		nv, nf := len(g.vis), len(g.fns)
		var s []Stmt
		if g.pct(g.p.funcs) {
			s = []Stmt{g.function()}
		} else {
			s = g.stmt(true)
		}
		o, c, why := mk().run(append(append([]Stmt{}, b...), s...))
		if why != "" || len(o) > 20000 {
			g.vis, g.fns = g.vis[:nv], g.fns[:nf]
			continue
		}
		b = append(b, s...)
		out, code = o, c
		if c != 0 {
			return
		}
	}
	b2 := append(append([]Stmt{}, b...), g.dump()...)
	if o, c, why := mk().run(b2); why == "" {
		return b2, o, c
	}
	return
}
