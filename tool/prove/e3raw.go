package main

// Contracts of the parser's helper functions: the look-ahead, the context and the functions of a
// program. These are the contracts which the other functions' units rest on.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rawUnits are verified without contracts of other functions, unless they are named.
var rawUnits = []*pDef{
	{fn: "peekAt", props: "C06 C07 C13", raw: rawPeek},
	{fn: "peek", props: "C06 C07 C13", raw: rawPeek},
	{fn: "eat", props: "C06 C07 C13", raw: rawPeek},
	{fn: "skipNewlines", props: "C07 C12 C13", raw: rawSkipNewlines},
	{fn: "skipNewlines", label: "lemma", props: "C07 C12 C13", raw: rawSkipLemma},
	{fn: "isShortVarInit", props: "C07 C13", raw: rawShortInit},
	{fn: "findBefore", props: "C07 C13", raw: rawBefore},
	{fn: "enterNesting", props: "C13", raw: rawEnter},
	{fn: "leaveNesting", props: "C13", raw: rawLeave},
	{fn: "newHiddenVariable", props: "C07 C10", raw: rawHidden},
	{fn: "isPublic", props: "C09", raw: rawPublic},
	{fn: "buildPrefixedName", props: "C09", raw: rawPrefixed},
	{fn: "context.findScope", props: "C07", raw: rawFindScope},
	{fn: "context.global", props: "C07", raw: rawGlobal},
	{fn: "context.clone", props: "C07", raw: rawClone},
	{fn: "context.addVariables", props: "C07 C09", raw: func(u *pUnit) { rawAdd(u, "variables", "Variable") }},
	{fn: "context.addFunctions", props: "C07 C09", raw: func(u *pUnit) { rawAdd(u, "functions", "FunctionDefinition") }},
	{fn: "context.addImport", props: "C09", raw: rawAddImport},
	{fn: "context.findImport", props: "C09", raw: rawFindImport},
	{fn: "context.findVariable", props: "C07 C09", raw: func(u *pUnit) { rawFind(u, "variables") }},
	{fn: "context.findFunction", props: "C07 C09", raw: func(u *pUnit) { rawFind(u, "functions") }},
	{fn: "isTerminating", props: "C06 C07", raw: rawTerminating},
	{fn: "getUsedFuncs", props: "C09", raw: rawUsedFuncs},
	{fn: "cleanProgram", props: "C09", raw: rawClean},
	{fn: "evaluateProgram", props: "C09 C13", raw: rawProgram},
	{fn: "prefixExists", props: "C09", raw: rawPrefixExists},
}

func init() { pUnits = append(pUnits, rawUnits...) }

// rawSetup prepares a unit: only the named functions are known by their contract.
func (u *pUnit) rawSetup(keep ...string) {
	x := u.x
	u.setup()
	for k := range x.hooks {
		ok := false
		for _, n := range keep {
			ok = ok || strings.HasSuffix(k, n)
		}
		if !ok {
			delete(x.hooks, k)
		}
	}
	u.top = true
	// The tokens.
	q := x.freshSeq(x.p.pg.typ("lexer", "Token"), "tokens")
	q.get = func(i *Term) Val { return u.tokAt(i) }
	u.pset("tokens", q)
	u.start["tokens"] = q
}

func (u *pUnit) tokens() *SymSeq { return u.pget("tokens").(*SymSeq) }

// beyond says that there is no token beyond the last one.
func (u *pUnit) beyond(i *Term) {
	x := u.x
	x.assume(x.tt.Imp(x.tt.Le(u.tokens().n, i), x.eqVal(u.tokAt(i), x.zero(x.p.pg.typ("lexer", "Token")))))
}

// self is the receiver.
func (u *pUnit) self() Val {
	if _, ok := u.fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		return &PtrV{obj: u.p}
	}
	return u.p.val
}

func (u *pUnit) runRaw(args ...Val) Val {
	u.top = true
	u.x.safety = true
	if len(u.x.allObjs) > 0 {
		u.x.loopBound = 5
	}
	r := u.x.call(u.fn, args, nil)
	u.x.safety = false
	u.x.cutter = nil
	return r
}

// must is a postcondition.
func (u *pUnit) must(name string, ok bool, f string, a ...any) {
	u.x.good(name)
	if !ok {
		if u.x.sat() == "unsat" {
			panic(pathEnd{"infeasible"})
		}
		u.guard(name, fmt.Sprintf(f, a...))
		u.x.bad(name, fmt.Sprintf(f, a...))
	}
}

func (u *pUnit) mustT(name string, c *Term, f string, a ...any) {
	if !u.x.valid(c) {
		if u.x.sat() == "unsat" {
			panic(pathEnd{"infeasible"})
		}
		u.guard(name, fmt.Sprintf(f, a...))
	}
	u.x.require(name, c, func() string { return fmt.Sprintf(f, a...) })
}

// guard: the invariants of the loops are guesses, nothing is known if they don't suffice.
func (u *pUnit) guard(name, det string) {
	if u.x.data["cut"] == true {
		if os.Getenv("PROVE_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "guard:", name, det)
		}
		unsup("the loop's invariant does not suffice")
	}
}

func (u *pUnit) same(a, b Val) bool { return u.sameVal(a, b) }

// framed requires that nothing but the named fields of the parser has changed.
func (u *pUnit) framed(but ...string) {
	for n, v := range u.start {
		if !strings.Contains(" "+strings.Join(but, " ")+" ", " "+n+" ") {
			if n == "tokens" {
				u.must("frame", u.pget(n) == v, "%s is changed", n)
				continue
			}
			u.must("frame", u.same(u.pget(n), v), "%s is changed", n)
		}
	}
}

// ---- loops whose n-th repetition is described by a formula

type countVar struct {
	get  func() Val
	set  func(v Val)
	v0   *Term
	step int64
	tok  int64 // the token at idx0+n+tok
	kind string
}

type countLoop struct {
	phis map[*ssa.Phi]Val
	idx  *Term
	objs map[*Obj]Val
	vars []*countVar
	n    *Term
	up   bool
}

// count handles the loops of a unit; inv is what holds after n repetitions, more what may be repeated.
func (u *pUnit) count(inv func(l *countLoop, n *Term) *Term, unfold func(n *Term), variant func(n *Term) *Term) {
	x := u.x
	if u.d.whole {
		return
	}
	ls := map[*ssa.BasicBlock]*countLoop{}
	guess := func(c *Term, what string) {
		if !x.valid(c) {
			unsup("loop: %s", what)
		}
	}
	at := map[*frame]map[*ssa.BasicBlock]*countLoop{}
	x.cutter = func(fr *frame, b, prev *ssa.BasicBlock) {
		if at[fr] == nil {
			at[fr] = map[*ssa.BasicBlock]*countLoop{}
		}
		ls = at[fr]
		l := ls[b]
		if !b.Dominates(prev) || l == nil {
			l = &countLoop{phis: map[*ssa.Phi]Val{}, idx: u.index(), objs: map[*Obj]Val{}, up: true}
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					l.phis[p] = fr.env[p]
				}
			}
			for _, o := range x.allObjs {
				if o.lazy == nil {
					l.objs[o] = o.val
				}
			}
			ls[b] = l
			unfold(x.tt.Int(0))
			return
		}
		if l.n != nil {
			// The end of an arbitrary repetition.
			n := x.tt.AddN(l.n, 1)
			for _, v := range l.vars {
				guess(u.countIs(v, n), "another step")
			}
			u.unchanged(l, fr, b)
			guess(inv(l, n), "the invariant is not inductive")
			if variant != nil {
				guess(variant(l.n), "no variant")
			}
			x.good("loop")
			panic(pathEnd{"end of the loop"})
		}
		one := x.tt.Int(1)
		add := func(get func() Val, set func(Val), was Val) {
			v := &countVar{get: get, set: set}
			switch p := get().(type) {
			case *Term:
				q := x.term(was)
				if p == q {
					return
				}
				if p.sort != SInt {
					unsup("changed variable of a loop")
				}
				d := x.tt.Sub(p, q)
				if !d.isConst() || d.n != 1 && d.n != -1 {
					unsup("step of a loop")
				}
				v.v0, v.step = q, d.n
				l.up = d.n > 0
				l.vars = append(l.vars, v)
				return
			case *StructV:
				if ident(p, was) {
					return
				}
				if strings.HasSuffix(p.t.String(), "lexer.Token") {
					for _, k := range []int64{0, -1, 1} {
						if u.same(p, u.tokAt(x.tt.AddN(u.idx0, 1+k))) {
							v.kind, v.tok = "tok", k
							l.vars = append(l.vars, v)
							return
						}
					}
				}
			}
			if u.same(get(), was) {
				return
			}
			unsup("changed variable of a loop")
		}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			add(func() Val { return fr.env[p] }, func(v Val) { fr.env[p] = v }, l.phis[p])
		}
		add(func() Val { return u.index() }, func(v Val) { u.pset("index", v) }, l.idx)
		for o, w := range l.objs {
			if o == u.p || ident(o.val, w) {
				continue
			}
			o := o
			add(func() Val { return o.val }, func(v Val) { o.val = v }, w)
		}
		guess(inv(l, one), "the invariant does not hold at the start")
		l.n = x.tt.Var(x.name("n"), SInt)
		x.assume(x.tt.Le(one, l.n))
		for _, v := range l.vars {
			if v.kind == "tok" {
				v.set(u.tokAt(x.tt.Add(u.idx0, x.tt.AddN(l.n, v.tok))))
				continue
			}
			v.set(u.countVal(v, l.n))
		}
		for _, o := range x.allObjs {
			if o.lazy == nil {
				l.objs[o] = o.val
			}
		}
		x.data["cut"] = true
		x.assume(inv(l, l.n))
		unfold(l.n)
	}
}

func (u *pUnit) countVal(v *countVar, n *Term) *Term {
	if v.step > 0 {
		return u.x.tt.Add(v.v0, n)
	}
	return u.x.tt.Sub(v.v0, n)
}

func (u *pUnit) countIs(v *countVar, n *Term) *Term {
	x := u.x
	if v.kind == "tok" {
		return x.tt.Bool(u.same(v.get(), u.tokAt(x.tt.Add(u.idx0, x.tt.AddN(n, v.tok)))))
	}
	return x.tt.Eq(x.term(v.get()), u.countVal(v, n))
}

// unchanged: nothing but the variables of the loop has changed since the cut.
func (u *pUnit) unchanged(l *countLoop, fr *frame, b *ssa.BasicBlock) {
	for o, w := range l.objs {
		if ident(o.val, w) {
			continue
		}
		if o == u.p {
			p, q := o.val.(*StructV), w.(*StructV)
			for i := range p.f {
				if i != u.field(u.pt, "index") && i != u.field(u.pt, "tokens") && !u.same(p.f[i], q.f[i]) {
					unsup("loop: the parser is changed")
				}
			}
			continue
		}
		counted := false
		for _, v := range l.vars {
			counted = counted || ident(v.get(), o.val)
		}
		if !counted && !u.same(o.val, w) {
			unsup("loop: an object is changed")
		}
	}
}

// ---- the tokens

func rawPeek(u *pUnit) {
	x := u.x
	u.rawSetup()
	add := x.tt.Int(0)
	args := []Val{u.self()}
	if u.d.fn == "peekAt" {
		add = x.tt.Var("add", SInt)
		x.assume(x.tt.Le(x.tt.Int(0), add))
		args = append(args, add)
	}
	i := x.tt.Add(u.idx0, add)
	u.beyond(i)
	r := u.runRaw(args...)
	u.must("result", u.same(r, u.tokAt(i)), "the token is %s", describe(r))
	if u.d.fn == "eat" {
		u.mustT("effect", x.tt.Eq(u.index(), x.tt.AddN(u.idx0, 1)), "position %s", u.index())
		u.framed("index")
	} else {
		u.framed()
	}
}

func (u *pUnit) isType(i *Term, names ...string) *Term {
	x := u.x
	l := []*Term{}
	for _, n := range names {
		l = append(l, x.tt.Eq(u.tokType(u.tokAt(i)), u.tk(n)))
	}
	return x.tt.Or(l...)
}

// unfoldNL is the definition of the position behind newlines.
func (u *pUnit) unfoldNL(i *Term) {
	x := u.x
	f := func(i *Term) *Term { return u.uf("skipNL", SInt, i) }
	u.beyond(i)
	x.assume(x.tt.Imp(u.isType(i, "NEWLINE"), x.tt.Eq(f(i), f(x.tt.AddN(i, 1)))))
	x.assume(x.tt.Imp(x.tt.Not(u.isType(i, "NEWLINE")), x.tt.Eq(f(i), i)))
}

func rawSkipNewlines(u *pUnit) {
	x := u.x
	u.rawSetup()
	f := func(i *Term) *Term { return u.uf("skipNL", SInt, i) }
	pos := func(n *Term) *Term { return x.tt.Add(u.idx0, n) }
	u.count(func(l *countLoop, n *Term) *Term { return x.tt.Eq(f(u.idx0), f(pos(n))) },
		func(n *Term) { u.unfoldNL(pos(n)) },
		func(n *Term) *Term { return x.tt.Lt(pos(n), u.tokens().n) })
	u.unfoldNL(u.idx0)
	u.runRaw(u.self())
	u.mustT("effect", x.tt.Eq(u.index(), f(u.idx0)), "position %s", u.index())
	u.framed("index")
}

// rawSkipLemma shows what the callers know of the position, by induction on the rest of the tokens.
func rawSkipLemma(u *pUnit) {
	x := u.x
	u.rawSetup()
	f := func(i *Term) *Term { return u.uf("skipNL", SInt, i) }
	i := u.idx0
	fact := func(i *Term) *Term {
		return x.tt.And(x.tt.Le(i, f(i)), x.tt.Not(u.isType(f(i), "NEWLINE")))
	}
	u.unfoldNL(i)
	u.beyond(f(i))
	if x.branch(x.tt.Lt(i, u.tokens().n)) {
		x.assume(fact(x.tt.AddN(i, 1)))
	}
	// The tokens at equal positions are equal.
	x.assume(x.tt.Imp(x.tt.Eq(f(i), i), x.eqVal(u.tokAt(f(i)), u.tokAt(i))))
	g := f(x.tt.AddN(i, 1))
	x.assume(x.tt.Imp(x.tt.Eq(f(i), g), x.eqVal(u.tokAt(f(i)), u.tokAt(g))))
	u.mustT("lemma", fact(i), "")
}

func rawShortInit(u *pUnit) {
	x := u.x
	u.rawSetup()
	f := func(i *Term) *Term { return u.uf("shortInit", SBool, i) }
	pos := func(n *Term) *Term { return x.tt.Add(u.idx0, n) }
	unfold := func(i *Term) {
		u.beyond(i)
		in := x.tt.Lt(i, u.tokens().n)
		end, more := u.isType(i, "SHORT_INIT_OPERATOR"), u.isType(i, "IDENTIFIER", "COMMA")
		x.assume(x.tt.Imp(x.tt.Or(x.tt.Not(in), x.tt.Not(x.tt.Or(end, more))), x.tt.Not(f(i))))
		x.assume(x.tt.Imp(x.tt.And(in, end), f(i)))
		x.assume(x.tt.Imp(x.tt.And(in, more), x.tt.Eq(f(i), f(x.tt.AddN(i, 1)))))
	}
	u.count(func(l *countLoop, n *Term) *Term { return x.tt.Eq(f(u.idx0), f(pos(n))) },
		func(n *Term) { unfold(pos(n)) },
		func(n *Term) *Term { return x.tt.Lt(pos(n), u.tokens().n) })
	unfold(u.idx0)
	r := x.term(u.runRaw(u.self()))
	u.mustT("result", x.tt.Eq(r, f(u.idx0)), "%s", r)
	// What the callers know.
	u.mustT("lemma", x.tt.Imp(f(u.idx0), u.isType(u.idx0, "IDENTIFIER", "COMMA", "SHORT_INIT_OPERATOR")), "")
	u.framed()
}

func rawBefore(u *pUnit) {
	x := u.x
	u.rawSetup()
	f := func(i *Term) *Term { return u.uf("before", SBool, i) }
	pos := func(n *Term) *Term { return x.tt.Add(u.idx0, n) }
	unfold := func(i *Term) {
		u.beyond(i)
		in := x.tt.Lt(i, u.tokens().n)
		end, stop := u.isType(i, "SEMICOLON"), u.isType(i, "NEWLINE")
		x.assume(x.tt.Imp(x.tt.Or(x.tt.Not(in), stop), x.tt.Not(f(i))))
		x.assume(x.tt.Imp(x.tt.And(in, end), f(i)))
		x.assume(x.tt.Imp(x.tt.And(in, x.tt.Not(end), x.tt.Not(stop)), x.tt.Eq(f(i), f(x.tt.AddN(i, 1)))))
	}
	u.count(func(l *countLoop, n *Term) *Term { return x.tt.Eq(f(u.idx0), f(pos(n))) },
		func(n *Term) { unfold(pos(n)) },
		func(n *Term) *Term { return x.tt.Lt(pos(n), u.tokens().n) })
	unfold(u.idx0)
	r := u.runRaw(u.self(), u.tk("SEMICOLON"), x.mkSlice([]Val{u.tk("NEWLINE")}, "stop"))
	ok := x.isNilIface(r.(TupleV)[1])
	u.mustT("result", x.tt.Eq(x.tt.Bool(ok), f(u.idx0)), "found: %v", ok)
	u.framed()
}

func rawEnter(u *pUnit) {
	x := u.x
	u.rawSetup("Parser).peek", "Parser).peekAt")
	n := x.term(u.start["nesting"])
	r := u.runRaw(u.self())
	now := x.term(u.pget("nesting"))
	if x.isNilIface(r) {
		u.mustT("effect", x.tt.Eq(now, x.tt.AddN(n, 1)), "nesting %s", now)
		// The recursion is bounded.
		u.mustT("limit", x.tt.Lt(n, x.tt.Int(1000000)), "accepted at %s", n)
	} else {
		u.mustT("effect", x.tt.Eq(now, n), "nesting %s", now)
		u.mustT("limit", x.tt.Le(x.tt.Int(100), n), "rejected at %s", n)
		m, ok := r.(*SymIface).ghost["Error"].(*Term)
		u.must("error-text", ok && x.valid(x.tt.Le(x.tt.Int(1), x.tt.Len(m))), "empty error")
	}
	u.framed("nesting")
}

func rawLeave(u *pUnit) {
	x := u.x
	u.rawSetup()
	u.runRaw(u.self())
	u.mustT("effect", x.tt.Eq(x.term(u.pget("nesting")), x.tt.AddN(x.term(u.start["nesting"]), -1)), "nesting")
	u.framed("nesting")
}

// rawHidden: the name is no identifier and differs from the names of the earlier ones.
func rawHidden(u *pUnit) {
	x := u.x
	u.rawSetup()
	vt := u.newType("type", singles...)
	h := x.term(u.start["hiddenVars"])
	x.assume(x.tt.Le(x.tt.Int(0), h))
	v := u.runRaw(u.self(), vt).(*StructV)
	f := func(n string) Val { return v.f[u.field(v.t, n)] }
	name := x.term(f("name"))
	ps := pieces(name)
	u.must("illegal", len(ps) > 0 && ps[0].isConst() && len(ps[0].s) > 0 && ps[0].s[0] >= '0' && ps[0].s[0] <= '9', "the name %s may be an identifier", name)
	fresh := len(ps) == 2 && ps[0].isConst() && ps[1] == x.tt.Itoa(h)
	u.must("fresh", fresh && u.same(u.pget("hiddenVars"), x.tt.AddN(h, 1)), "the name %s is not new", name)
	u.must("result", u.same(f("valueType"), vt) && u.same(f("global"), x.tt.fls) && u.same(f("public"), x.tt.fls), "%s", describe(v))
	u.framed("hiddenVars")
}

// ---- names

func rawPublic(u *pUnit) {
	x := u.x
	u.rawSetup()
	name := x.tt.Var("name", SStr)
	r := x.term(u.runRaw(name))
	want := x.tt.fls
	if x.branch(x.tt.Lt(x.tt.Int(0), x.tt.Len(name))) {
		// The first character is an upper case letter.
		t := types.NewSlice(types.Typ[types.Rune])
		q := x.convert(name, types.Typ[types.String], t).(*SymSeq)
		want = x.tt.UF("IsUpper", SBool, x.term(q.at(x, x.tt.Int(0))))
	}
	u.mustT("result", x.tt.Eq(r, want), "%s", r)
}

func rawPrefixed(u *pUnit) {
	x := u.x
	u.rawSetup()
	p, n := x.tt.Var("prefix", SStr), x.tt.Var("name", SStr)
	r := x.term(u.runRaw(p, n))
	if !x.branch(x.tt.Lt(x.tt.Int(0), x.tt.Len(p))) {
		u.mustT("result", x.tt.Eq(r, n), "%s", r)
		return
	}
	full := x.tt.Cat(p, x.tt.Str("_"))
	has := x.term(intrinsics["strings.HasPrefix"](x, nil, []Val{n, full}))
	if x.branch(has) {
		u.mustT("result", x.tt.Eq(r, n), "%s", r)
	} else {
		u.mustT("result", x.tt.Eq(r, x.tt.Cat(full, n)), "%s", r)
	}
}

// ---- the context

func rawFindScope(u *pUnit) {
	x := u.x
	u.rawSetup()
	c := u.newCtx()
	st := u.ctxField(c, "scopeStack").(*SymSeq)
	s := x.tt.Var("scope", SStr)
	// An arbitrary scope of the stack.
	j := x.tt.Var("j", SInt)
	x.assume(x.tt.And(x.tt.Le(x.tt.Int(0), j), x.tt.Lt(j, st.n)))
	at := func(i *Term) *Term { return x.term(st.at(x, i)) }
	u.count(func(l *countLoop, n *Term) *Term {
		seen := x.tt.Lt(j, n)
		if !l.up {
			seen = x.tt.Le(x.tt.Sub(st.n, n), j)
		}
		return x.tt.And(x.tt.Imp(seen, x.tt.Not(x.tt.Eq(at(j), s))), x.tt.Le(n, st.n))
	}, func(n *Term) {}, nil)
	r := x.term(u.runRaw(c, s))
	if x.branch(r) {
		// It has been found somewhere.
		alts := []*Term{}
		for _, v := range st.memo {
			alts = append(alts, x.tt.Eq(x.term(v), s))
		}
		sort.Slice(alts, func(a, b int) bool { return alts[a].id < alts[b].id })
		// Everything which has been read is an element (obligation safe.index).
		u.mustT("result", x.tt.Or(append(alts, x.tt.UF("contains "+st.name, SBool, s))...), "found, but not in the stack")
	} else {
		x.assume(x.tt.Imp(x.tt.Eq(at(j), s), x.tt.UF("contains "+st.name, SBool, s)))
		u.mustT("result", x.tt.Not(x.tt.Eq(at(j), s)), "not found, but in the stack")
	}
}

func rawGlobal(u *pUnit) {
	x := u.x
	u.rawSetup()
	c := u.newCtx()
	st := u.ctxField(c, "scopeStack").(*SymSeq)
	r := x.term(u.runRaw(c))
	u.mustT("result", x.tt.Eq(r, x.eqVal(st.at(x, x.tt.AddN(st.n, -1)), u.konst("parser", "SCOPE_PROGRAM"))), "%s", r)
}

func rawClone(u *pUnit) {
	u.rawSetup()
	c := u.newCtx()
	before := u.snap(c)
	d, ok := u.runRaw(c).(*StructV)
	if !ok {
		unsup("result of clone")
	}
	a, b := u.snap(c), u.snap(d)
	for k, m := range a.maps {
		u.must("independent", b.maps[k] != m, "the %s are shared", k)
		u.must("equal", b.maps[k].sym == m.sym && len(b.maps[k].ents) == 0 && len(b.maps[k].ops) == 0, "the %s differ", k)
		u.must("frame", before.maps[k] == m && len(m.ents) == 0, "the original's %s are changed", k)
	}
	u.must("equal", u.same(a.scope, b.scope) || a.scope == b.scope, "the scopes differ")
}

func (u *pUnit) trim(t *Term) *Term {
	return u.x.term(intrinsics["strings.TrimSpace"](u.x, nil, []Val{t}))
}

// key is the key of a name in the context's maps.
func (u *pUnit) key(c *StructV, name, prefix, global *Term, check bool) (*Term, bool) {
	x := u.x
	n := u.trim(name)
	if x.branch(x.tt.Eq(x.tt.Len(n), x.tt.Int(0))) {
		return nil, false
	}
	p := u.trim(prefix)
	if x.branch(x.tt.Lt(x.tt.Int(0), x.tt.Len(p))) && x.branch(global) {
		h, ok := x.mapGet(u.ctxField(c, "imports").(*MapV).m, p)
		if check && !x.branch(x.term(ok)) {
			return nil, false
		}
		n = u.uf("prefixed", SStr, x.term(h), n)
	}
	return n, true
}

func (u *pUnit) ctxFramed(c *StructV, but string) {
	for k, m := range u.snap(c).maps {
		if k != but {
			u.must("frame", len(m.ents) == 0, "the %s are changed", k)
		}
	}
}

func rawAdd(u *pUnit, what, typ string) {
	x := u.x
	u.rawSetup("parser.buildPrefixedName")
	x.p.limits["at most 3 names at a time"] = true
	c := u.newCtx()
	p, g := x.tt.Var("prefix", SStr), x.tt.Var("global", SBool)
	es := []Val{}
	for i := x.choose(4); i > 0; i-- {
		es = append(es, x.freshVal(u.typ(typ), "new"))
	}
	m := u.ctxField(c, what).(*MapV).m
	r := u.runRaw(c, p, g, x.mkSlice(es, "new"))
	got := append([]*mapEntry{}, m.ents...)
	m.ents = nil
	ok := true
	for _, e := range es {
		k, valid := u.key(c, x.term(u.method(e.(*StructV), "Name")), p, g, false)
		if !valid {
			ok = false
			break
		}
		x.mapSet(m, k, e)
	}
	u.must("result", x.isNilIface(r) == ok, "accepted: %v, expected %v", x.isNilIface(r), ok)
	if ok {
		u.must("effect", len(got) == len(m.ents), "%d entries, expected %d", len(got), len(m.ents))
		for i, e := range m.ents {
			u.must("effect", i < len(got) && u.same(got[i].k, e.k) && u.same(got[i].v, e.v) && !got[i].dead, "entry %d", i)
		}
	}
	u.ctxFramed(c, what)
}

func rawAddImport(u *pUnit) {
	x := u.x
	u.rawSetup()
	c := u.newCtx()
	a, h := x.tt.Var("alias", SStr), x.tt.Var("hash", SStr)
	r := u.runRaw(c, a, h)
	m := u.ctxField(c, "imports").(*MapV).m
	u.must("result", x.isNilIface(r), "rejected")
	u.must("effect", len(m.ents) == 1 && u.same(m.ents[0].k, a) && u.same(m.ents[0].v, h), "the import is not added")
	u.ctxFramed(c, "imports")
}

func rawFindImport(u *pUnit) {
	x := u.x
	u.rawSetup()
	c := u.newCtx()
	a := x.tt.Var("alias", SStr)
	r := u.runRaw(c, a).(TupleV)
	v, ok := x.mapGet(u.ctxField(c, "imports").(*MapV).m, a)
	u.must("result", u.same(r[0], v) && u.same(r[1], ok), "%s", describe(r))
	u.ctxFramed(c, "")
}

func rawFind(u *pUnit, what string) {
	x := u.x
	u.rawSetup("parser.buildPrefixedName")
	c := u.newCtx()
	n, p := x.tt.Var("name", SStr), x.tt.Var("prefix", SStr)
	r := u.runRaw(c, n, p).(TupleV)
	m := u.ctxField(c, what).(*MapV).m
	want := func() (Val, Val) {
		if what == "variables" {
			// Variables of inner scopes first.
			if v, ok := x.mapGet(m, u.trim(n)); x.branch(x.term(ok)) {
				return v, ok
			}
		}
		k, ok := u.key(c, n, p, x.tt.tru, true)
		if !ok {
			return x.zero(m.vt), x.tt.fls
		}
		return x.mapGet(m, k)
	}
	v, ok := want()
	u.must("result", u.same(r[1], ok), "found: %s", describe(r[1]))
	if ok == x.tt.tru {
		u.must("result", u.same(r[0], v), "%s", describe(r[0]))
	}
	u.ctxFramed(c, "")
}

// ---- the end of a function

func rawTerminating(u *pUnit) {
	x := u.x
	u.rawSetup()
	l := x.freshSeq(u.typ("Statement"), "body")
	all := x.tt.Var("all", SBool)
	w := x.tt.Var("w", SInt)
	T := func(i *Term) *Term { return u.uf("terminating elif", SBool, i) }
	term := func(v Val) *Term {
		q, ok := v.(*SymSeq)
		if !ok {
			unsup("list of statements %T", v)
		}
		if i, ok := q.ghost["i"].(*Term); ok {
			x.assume(x.tt.Imp(all, T(i)))
			return T(i)
		}
		return u.uf("terminating "+q.name, SBool)
	}
	var elif *SymSeq
	tb := u.typ("IfBranch")
	x.data["onResolve"] = func(a *SymIface) {
		if !types.Identical(a.dyn, u.typ("If")) {
			return
		}
		v := a.dynV.(*StructV)
		elif = v.f[u.field(v.t, "elifBranches")].(*SymSeq)
		elif.get = func(i *Term) Val {
			b := x.freshVal(tb, "elif["+i.String()+"]").(*StructV)
			b.f[u.field(tb, "body")].(*SymSeq).ghost["i"] = i
			return b
		}
		// Either all the branches are terminating or there is one which is not.
		x.assume(x.tt.Imp(x.tt.Not(all), x.tt.And(x.tt.Le(x.tt.Int(0), w), x.tt.Lt(w, elif.n), x.tt.Not(T(w)))))
	}
	u.hookFn("isTerminating", func(a []Val) Val { return term(a[0]) })
	u.hook("If.containsBreak", func(fn *ssa.Function, a []Val) Val { return x.tt.Var("breaks", SBool) })
	h := x.hooks[pp+".isTerminating"]
	first := true
	x.hooks[pp+".isTerminating"] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		if first {
			first = false
			return nil, false
		}
		u.top = false
		return h(x, fn, args)
	}
	u.count(func(c *countLoop, n *Term) *Term {
		if elif == nil || !c.up {
			unsup("loop over the branches")
		}
		return x.tt.And(x.tt.Imp(x.tt.And(x.tt.Not(all), x.tt.Lt(w, n)), T(w)), x.tt.Le(n, elif.n))
	}, func(n *Term) {}, nil)
	r := x.term(u.runRaw(l))
	want := x.tt.fls
	if x.branch(x.tt.Lt(x.tt.Int(0), l.n)) {
		last := l.at(x, x.tt.AddN(l.n, -1)).(*SymIface)
		is := func(n string) bool {
			return x.branch(x.term(x.typeAssert(last, u.typ(n), true, nil).(TupleV)[1]))
		}
		if is("Return") || is("Panic") {
			want = x.tt.tru
		} else if is("If") {
			v := last.dynV.(*StructV)
			f := func(v Val, n string) Val { return v.(*StructV).f[u.field(v.(*StructV).t, n)] }
			if !x.branch(x.tt.And(x.term(f(v, "isSwitch")), x.tt.Var("breaks", SBool))) {
				ifb := f(v, "ifBranch")
				never := x.tt.fls
				lit := x.typeAssert(f(ifb, "condition"), u.typ("BooleanLiteral"), true, nil).(TupleV)
				if x.branch(x.term(lit[1])) {
					never = x.tt.Not(x.term(f(lit[0], "value")))
				}
				want = x.tt.And(all, x.tt.Or(never, term(f(ifb, "body"))), term(f(f(v, "elseBranch"), "body")))
			}
		}
	}
	u.mustT("result", x.tt.Eq(r, want), "%s, expected %s", r, want)
}

// ---- the used functions

// mem is the question whether a list contains a text.
func (u *pUnit) mem(l Val, e *Term) *Term {
	x := u.x
	switch q := l.(type) {
	case *SliceV:
		r := x.tt.fls
		for _, v := range x.elems(q) {
			r = x.tt.Or(r, x.tt.Eq(x.term(v), e))
		}
		return r
	case *SymSeq:
		if b, ok := q.ghost["base"]; ok {
			return x.tt.Or(u.mem(b, e), u.mem(q.ghost["added"], e))
		}
		if b, ok := q.ghost["head"]; ok {
			return x.tt.Or(u.mem(b, e), u.mem(q.ghost["rest"], e))
		}
		r := x.tt.UF("contains "+q.name, SBool, e)
		x.assume(x.tt.Imp(x.tt.Eq(q.n, x.tt.Int(0)), x.tt.Not(r)))
		if p, ok := q.ghost["of"].(*SymSeq); ok {
			lo := x.term(q.ghost["lo"])
			if lo.isConst() && lo.n == 1 && x.valid(x.tt.Eq(q.n, x.tt.AddN(p.n, -1))) {
				// The rest of a list.
				x.assume(x.tt.Eq(u.mem(p, e), x.tt.Or(r, x.eqVal(p.at(x, x.tt.Int(0)), e))))
			}
		}
		return r
	}
	unsup("list %T", l)
	return nil
}

// rawUsedFuncs: the result contains the functions which are called by the start function and those
// which are called by the functions in the result.
func rawUsedFuncs(u *pUnit) {
	x := u.x
	u.rawSetup()
	start := x.tt.Var("start", SStr)
	f, g := x.tt.Var("f", SStr), x.tt.Var("g", SStr)
	m := u.pget("usedFuncs").(*MapV).m
	uses := func(n *Term) Val {
		v, _ := x.mapGet(m, n)
		return v
	}
	us, uf := uses(start), uses(f)
	type state struct{ pending, used *ssa.Phi }
	type cut struct{ st state }
	cuts := map[*ssa.BasicBlock]*cut{}
	old := len(x.allMaps)
	var vis *MapObj
	inv := func(pending, used Val) *Term {
		reach := x.tt.Or(u.mem(used, g), u.mem(pending, g))
		r := x.tt.And(x.tt.Imp(u.mem(us, g), reach), x.tt.Imp(x.tt.And(u.mem(used, f), u.mem(uf, g)), reach))
		if vis != nil {
			for _, k := range []*Term{f, g} {
				// What has been visited is part of the result.
				v, _ := x.mapGet(vis, k)
				r = x.tt.And(r, x.tt.Imp(x.term(v), u.mem(used, k)))
			}
		}
		return r
	}
	x.cutter = func(fr *frame, b, prev *ssa.BasicBlock) {
		if fr.fn != u.fn || u.d.whole {
			return
		}
		if !b.Dominates(prev) {
			return
		}
		phis := []*ssa.Phi{}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				phis = append(phis, p)
			}
		}
		if len(phis) != 2 {
			unsup("loop with %d variables", len(phis))
		}
		if vis == nil {
			for _, q := range x.allMaps[old:] {
				if q != m && q.sym == "" && !q.isNil && len(q.ents) > 0 {
					if vis != nil {
						unsup("several maps")
					}
					vis = q
				}
			}
		}
		c := cuts[b]
		if c == nil {
			// Elements are removed from the pending ones.
			o := 1
			for _, r := range *phis[0].Referrers() {
				if _, ok := r.(*ssa.Slice); ok {
					o = 0
				}
			}
			c = &cut{state{phis[o], phis[1-o]}}
			if !x.valid(inv(fr.env[c.st.pending], fr.env[c.st.used])) {
				unsup("loop: the invariant does not hold at the start")
			}
			cuts[b] = c
			x.data["cut"] = true
			fr.env[c.st.pending] = x.freshSeq(types.Typ[types.String], "pending")
			fr.env[c.st.used] = x.freshSeq(types.Typ[types.String], "used")
			if vis != nil {
				vis.sym, vis.ents = x.name("visited"), nil
			}
			x.assume(inv(fr.env[c.st.pending], fr.env[c.st.used]))
			return
		}
		if !x.valid(inv(fr.env[c.st.pending], fr.env[c.st.used])) {
			unsup("loop: the invariant is not inductive")
		}
		x.good("loop")
		panic(pathEnd{"end of the loop"})
	}
	r := u.runRaw(u.self(), start)
	u.mustT("direct", x.tt.Imp(u.mem(us, g), u.mem(r, g)), "a function which the start function calls is missing")
	u.mustT("closed", x.tt.Imp(x.tt.And(u.mem(r, f), u.mem(uf, g)), u.mem(r, g)), "a function which a used one calls is missing")
	u.framed("usedFuncs")
}

func rawClean(u *pUnit) {
	x := u.x
	u.rawSetup("getUsedFuncs")
	used := x.freshSeq(types.Typ[types.String], "used")
	u.hook("Parser.getUsedFuncs", func(fn *ssa.Function, a []Val) Val {
		u.mustT("start", x.tt.Eq(x.term(a[1]), x.tt.Str("")), "functions of %s", describe(a[1]))
		return used
	})
	t := u.typ("Program")
	prog := x.freshVal(t, "program").(*StructV)
	src := prog.f[u.field(t, "body")]
	r := u.runRaw(u.self(), prog).(TupleV)
	u.must("result", x.isNilIface(r[1]), "rejected")
	q, ok := r[0].(*StructV).f[u.field(t, "body")].(*SymSeq)
	d, is := x.data["deleted"].(*deleted)
	if !ok || !is {
		unsup("the way the statements are removed")
	}
	u.must("result", q == d.res && d.src == src, "other statements")
	e := d.elem.(*SymIface)
	want := x.tt.fls
	if x.branch(x.term(x.typeAssert(e, u.typ("FunctionDefinition"), true, nil).(TupleV)[1])) {
		v := e.dynV.(*StructV)
		want = x.tt.Not(x.tt.UF("contains "+used.name, SBool, x.term(v.f[u.field(v.t, "name")])))
	}
	// Nothing but functions which are not used is removed.
	u.mustT("keeps", x.tt.Imp(d.pred, want), "%s is removed, expected %s", d.pred, want)
	u.mustT("removes", x.tt.Imp(want, d.pred), "%s is removed, expected %s", d.pred, want)
}

// deleted is a call of slices.DeleteFunc.
type deleted struct {
	src, res, elem Val
	pred           *Term
}

func deleteFunc(x *X, fn *ssa.Function, args []Val) Val {
	q, ok := args[0].(*SymSeq)
	if !ok || x.data["deleted"] != nil {
		return unsup("slices.DeleteFunc")
	}
	d := &deleted{src: q, res: x.freshSeq(q.elem, "filtered")}
	d.elem = x.indexedVal(q.elem, "any element", x.tt.Var("any", SInt))
	d.pred = x.term(x.apply(args[1], []Val{d.elem}, nil))
	x.data["deleted"] = d
	return d.res
}

// rawProgram: the imported statements come first, the own prefix is known.
func rawProgram(u *pUnit) {
	x := u.x
	u.rawSetup()
	var imps, body *SymSeq
	var ctx *pCtx
	st := u.typ("Statement")
	u.hook("Parser.evaluateImports", func(fn *ssa.Function, a []Val) Val {
		ctx = u.snap(a[1].(*StructV))
		for k, m := range ctx.maps {
			u.must("context", len(m.ents) == 0 && m.sym == "" && !m.isNil, "the %s are not empty", k)
			m.sym = x.name("imported " + k)
		}
		if x.choose(2) == 1 {
			return TupleV{&SliceV{}, u.errOf("imports")}
		}
		imps = x.freshSeq(st, "imports")
		return TupleV{imps, &IfaceV{}}
	})
	u.hook("Parser.evaluateBlockContent", func(fn *ssa.Function, a []Val) Val {
		c := u.snap(a[3].(*StructV))
		if imps == nil {
			unsup("block before the imports")
		}
		for k, m := range c.maps {
			u.must("context", ctx.maps[k] == m || m.sym == ctx.maps[k].sym, "the %s are not those of the imports", k)
			if k == "imports" {
				v, ok := x.mapGet(m, u.start["prefix"])
				u.must("context", u.same(ok, x.tt.tru) && u.same(v, u.start["prefix"]), "the own prefix is unknown")
			} else {
				u.must("context", len(m.ents) == 0, "the %s are changed", k)
			}
		}
		es := x.elems(a[1])
		u.must("call", len(es) == 1 && u.same(es[0], u.tk("EOF")), "the end of the program")
		f, ok := a[2].(*FuncV)
		u.must("call", ok && f.isNil, "a callback")
		u.must("call", u.same(a[4], u.konst("parser", "SCOPE_PROGRAM")), "scope %s", describe(a[4]))
		if x.choose(2) == 1 {
			return TupleV{&SliceV{}, u.errOf("block")}
		}
		body = x.freshSeq(st, "statements")
		return TupleV{body, &IfaceV{}}
	})
	r := u.runRaw(u.self()).(TupleV)
	if !x.isNilIface(r[1]) {
		u.must("result", body == nil, "a legal program is rejected")
		e, ok := r[1].(*SymIface)
		u.must("error-text", ok && x.valid(x.tt.Le(x.tt.Int(1), x.tt.Len(x.term(e.ghost["Error"])))), "empty error")
		return
	}
	u.must("result", body != nil, "an illegal program is accepted")
	t := u.typ("Program")
	q, ok := r[0].(*StructV).f[u.field(t, "body")].(*SymSeq)
	u.must("result", ok && q.ghost["base"] == Val(imps) && q.ghost["added"] == Val(body), "the imports' statements are not followed by those of the file")
}

// rawPrefixExists: bounded number of files.
func rawPrefixExists(u *pUnit) {
	x := u.x
	u.rawSetup()
	x.p.limits["at most 3 files"] = true
	p := x.tt.Var("new prefix", SStr)
	t := u.typ("importedFile")
	x.objs++
	m := &MapObj{id: x.objs, kt: types.Typ[types.String], vt: types.NewPointer(t)}
	want := x.tt.fls
	for i := x.choose(4); i > 0; i-- {
		v := x.zero(t).(*StructV)
		q := x.tt.Var(fmt.Sprintf("prefix%d", i), SStr)
		v.f[u.field(t, "prefix")] = q
		m.ents = append(m.ents, &mapEntry{k: x.tt.Str(fmt.Sprintf("file%d", i)), v: &PtrV{obj: x.newObj(v, "file")}})
		want = x.tt.Or(want, x.tt.Eq(q, p))
	}
	u.pset("importedFiles", &MapV{m})
	r := x.term(u.runRaw(u.self(), p))
	u.mustT("result", x.tt.Eq(r, want), "%s", r)
}
