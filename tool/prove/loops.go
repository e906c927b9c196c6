package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loops of the parser's functions. The first iterations are executed one by one. At the first
// repetition of the loop head at which nothing is known about the next token, the state is replaced
// by an arbitrary one which fulfils the invariant; the path ends at the next such repetition, where
// the invariant is checked. The invariant says what stays as it is, where local copies of tokens
// come from and which variables are equal to variables of the specification (its loop head consumes
// the event of the cut). It is guessed from the values at the cut; refuted guesses are dropped until
// the rest is inductive.

type loopState struct {
	at   map[*Obj]Val // objects at the entry of the loop
	ops  map[*MapObj]int
	idx  *Term
	phis map[*ssa.Phi]Val
	cut  *cutEv
	defs int // deferred calls
	nest Val
}

// cutVar is a part of the state at a cut.
type cutVar struct {
	key  string
	t    types.Type
	get  func() Val
	set  func(v Val)
	kind string // const, tok, any
	off  int64
	pre  Val // before the cut
	post Val // arbitrary value
	end  Val // at the end of the path
	min  int // length of a list
	ge   *Term
	typ  *Term
}

// cutEv is the event of the cut.
type cutEv struct {
	vars []*cutVar
	idx  *Term // before
	idx2 *Term // arbitrary
	end  *Term
	cbs  int
	pair map[int]*cutVar // by the variable of the specification
	cons map[int]Val
	key  string
}

type loopEnd struct{ ev *cutEv }

// atBlock is called whenever a block is entered.
func (x *X) atBlock(fr *frame, b *ssa.BasicBlock, prev **ssa.BasicBlock) *ssa.BasicBlock {
	if x.loopBound > 0 && fr.visits[b] > x.loopBound && !strings.HasSuffix(fr.fn.Name(), "init") {
		x.p.bounds++
		panic(pathEnd{"bound"})
	}
	if d := x.p.deadline; !d.IsZero() && time.Now().After(d) {
		unsup("time is over")
	}
	if fr.visits[b] > 40 {
		unsup("more than 40 iterations of a loop")
	}
	return b
}

func isHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (x *X) afterPhis(fr *frame, b, prev *ssa.BasicBlock) {
	if x.cutter == nil || prev == nil || !isHead(b) {
		return
	}
	x.cutter(fr, b, prev)
}

func (u *pUnit) sameVal(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return (&pspec{u: u, x: u.x}).eq(a, b)
}

// flatten lists the parts of a value.
func (u *pUnit) flatten(key string, t types.Type, get func() Val, set func(v Val), out *[]*cutVar) {
	v := get()
	if s, ok := v.(*StructV); ok && s.t.String() != pp+".Variable" && !strings.HasSuffix(s.t.String(), "lexer.Token") {
		st := s.t.Underlying().(*types.Struct)
		for i := range s.f {
			i := i
			if n := st.Field(i).Name(); types.Identical(s.t, u.pt) && (n == "index" || n == "usedFuncs" || n == "tokens") {
				continue
			}
			u.flatten(key+"."+st.Field(i).Name(), st.Field(i).Type(), func() Val { return get().(*StructV).f[i] }, func(v Val) { set(setPath(get(), []int{i}, v)) }, out)
		}
		return
	}
	*out = append(*out, &cutVar{key: key, t: t, get: get, set: set})
}

// state lists the variables at a loop head.
func (u *pUnit) loopVars(fr *frame, b *ssa.BasicBlock, l *loopState) []*cutVar {
	x := u.x
	out := []*cutVar{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if fr.env[p] == nil {
			continue
		}
		u.flatten("phi "+p.Name(), p.Type(), func() Val { return fr.env[p] }, func(v Val) { fr.env[p] = v }, &out)
	}
	objs := []*Obj{}
	for o := range l.at {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	ts := map[*Obj]types.Type{}
	for v, w := range fr.env {
		if p, ok := w.(*PtrV); ok && p.obj != nil && len(p.path) == 0 {
			if t, ok := v.Type().Underlying().(*types.Pointer); ok {
				ts[p.obj] = t.Elem()
			}
		}
	}
	for _, o := range objs {
		o := o
		if o.lazy != nil || o.val == nil || ident(l.at[o], o.val) && l.cut == nil && !x.p.mutated[o.site] {
			continue
		}
		if _, ok := o.val.(*ArrV); ok {
			if !ident(l.at[o], o.val) {
				unsup("array modified in a loop")
			}
			continue
		}
		k := o.site
		u.flatten("obj "+k, ts[o], func() Val { return o.val }, func(v Val) { o.val = v }, &out)
	}
	return out
}

// known reports whether something is known about the type of the token.
func (u *pUnit) tokenKnown(i *Term) bool {
	x := u.x
	t := u.tokType(u.tokAt(i))
	var has func(c *Term) bool
	has = func(c *Term) bool {
		if c == t {
			return true
		}
		for _, a := range c.args {
			if has(a) {
				return true
			}
		}
		return false
	}
	for _, c := range x.pc {
		if !u.contract[c.id] && has(c) {
			return true
		}
	}
	return false
}

func (u *pUnit) cutLoop(fr *frame, b, prev *ssa.BasicBlock) {
	x := u.x
	if u.loops == nil {
		u.loops = map[*frame]map[*ssa.BasicBlock]*loopState{}
	}
	if u.loops[fr] == nil {
		u.loops[fr] = map[*ssa.BasicBlock]*loopState{}
	}
	l := u.loops[fr][b]
	if !b.Dominates(prev) || l == nil {
		l = &loopState{at: map[*Obj]Val{}, idx: u.index(), ops: map[*MapObj]int{}, defs: len(fr.defers), nest: u.pget("nesting")}
		for _, o := range x.allObjs {
			if o.lazy == nil {
				l.at[o] = o.val
			}
		}
		for _, m := range x.allMaps {
			l.ops[m] = len(m.ops)
		}
		u.loops[fr][b] = l
		return
	}
	if u.index() == l.idx {
		return // not a loop over tokens (or nothing read)
	}
	if u.tokenKnown(u.index()) {
		return
	}
	key := fmt.Sprintf("%s:%d", shortFn(fr.fn), b.Index)
	if l.cut == nil {
		c := &cutEv{idx: u.index(), cbs: len(u.cbs), pair: map[int]*cutVar{}, cons: map[int]Val{}, key: key}
		c.vars = u.loopVars(fr, b, l)
		c.vars = append(c.vars, u.mapVars(l)...)
		c.idx2 = x.freshVal(types.Typ[types.Int], "loop").(*Term)
		x.assume(x.tt.Le(c.idx, c.idx2))
		u.pset("index", c.idx2)
		u.havoc()
		for _, v := range c.vars {
			v.pre = v.get()
			if v.isNesting() && len(fr.defers) > l.defs {
				if !u.undone(fr, l.defs, l.nest) {
					unsup("deferred calls of a loop")
				}
				v.kind, v.post = "nest", x.tt.Var(x.name("nesting"), SInt)
				x.assume(x.tt.Le(x.term(l.nest), x.term(v.post)))
				v.set(v.post)
				nest := l.nest
				fr.defers = append(append([]func(){}, fr.defers[:l.defs]...), func() { u.pset("nesting", nest) })
				l.defs = len(fr.defers)
				continue
			}
			u.choose(c, v)
			v.set(v.post)
		}
		l.cut = c
		u.calls = append(u.calls, &pCall{name: "loop", cut: c})
		// The objects which exist now.
		for _, o := range x.allObjs {
			if o.lazy == nil {
				l.at[o] = o.val
			}
		}
		return
	}
	// The end of an arbitrary iteration.
	c := l.cut
	ok := true
	for _, v := range c.vars {
		v.end = v.get()
		if v.kind == "nest" {
			if len(fr.defers) < l.defs || !u.undone(fr, l.defs, v.post) {
				unsup("deferred calls of a loop")
			}
			continue
		}
		if !u.holds(c, v) {
			ok = false
			x.p.refute(c.key + " " + v.key + " " + v.kind + fmt.Sprint(v.off))
		}
	}
	if len(fr.defers) != l.defs && !hasNest(c) {
		unsup("deferred calls of a loop")
	}
	// Nothing else has changed.
	in := map[string]bool{}
	for _, v := range c.vars {
		in[v.key] = true
	}
	for _, o := range x.allObjs {
		w, had := l.at[o]
		if !had || ident(w, o.val) {
			continue
		}
		vs := []*cutVar{}
		u.flatten("obj "+o.site, nil, func() Val { return o.val }, func(Val) {}, &vs)
		for _, v := range vs {
			if !in[v.key] {
				x.p.mutated[o.site] = true
				x.p.refute(c.key + " object " + v.key)
				ok = false
			}
		}
	}
	c.end = u.index()
	if !ok {
		panic(pathEnd{"refuted"})
	}
	panic(loopEnd{c})
}

func (v *cutVar) isNesting() bool { return strings.HasSuffix(v.key, "parser.nesting") }

func hasNest(c *cutEv) bool {
	for _, v := range c.vars {
		if v.kind == "nest" {
			return true
		}
	}
	return false
}

// undone reports whether the deferred calls restore the nesting level and change nothing else.
func (u *pUnit) undone(fr *frame, from int, want Val) bool {
	x := u.x
	before := map[*Obj]Val{}
	for _, o := range x.allObjs {
		if o.lazy == nil {
			before[o] = o.val
		}
	}
	p := u.p.val
	for i := len(fr.defers) - 1; i >= from; i-- {
		fr.defers[i]()
	}
	ok := u.sameVal(u.pget("nesting"), want)
	st := u.pt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if n := st.Field(i).Name(); n != "nesting" && !u.sameVal(u.p.val.(*StructV).f[i], p.(*StructV).f[i]) && n != "tokens" {
			ok = false
		}
	}
	for o, v := range before {
		if o != u.p && !ident(o.val, v) {
			ok = false
		}
	}
	u.p.val = p
	return ok
}

// mapVars are the contexts' maps.
func (u *pUnit) mapVars(l *loopState) []*cutVar {
	out := []*cutVar{}
	for _, m := range u.x.allMaps {
		m := m
		if _, ok := l.ops[m]; !ok || len(m.ents) > 0 || m == u.usedMap() {
			continue
		}
		out = append(out, &cutVar{key: "map " + m.site, get: func() Val { return opsVal{m.sym, m.ops} }, set: func(v Val) { m.ops = v.(opsVal).ops }})
	}
	return out
}

func (u *pUnit) usedMap() *MapObj {
	if m, ok := u.pget("usedFuncs").(*MapV); ok {
		return m.m
	}
	return nil
}

// opsVal is the content of a context's map.
type opsVal struct {
	sym string
	ops []mapOp
}

func (p *prover) refute(k string) {
	if !p.refuted[k] {
		p.refuted[k] = true
		p.news++
	}
}

func ident(a, b Val) bool {
	if _, ok := a.(TupleV); ok {
		return false
	}
	if _, ok := b.(TupleV); ok {
		return false
	}
	return a == b
}

// choose selects the first guess about a variable which has not been refuted.
func (u *pUnit) choose(c *cutEv, v *cutVar) {
	x := u.x
	ref := func(k string, off int64) bool { return x.p.refuted[c.key+" "+v.key+" "+k+fmt.Sprint(off)] }
	v.kind, v.off, v.post = "const", 0, v.pre
	if !ref("const", 0) {
		return
	}
	if s, ok := v.pre.(*StructV); ok && strings.HasSuffix(s.t.String(), "lexer.Token") {
		for _, d := range []int64{0, -1, -2} {
			if !ref("tok", d) && u.sameVal(v.pre, u.tokAt(x.tt.AddN(c.idx, d))) {
				q := u.tokAt(x.tt.AddN(c.idx2, d))
				v.kind, v.off, v.post = "tok", d, q
				for k := int64(1); k < 80 && !ref("type", d); k++ {
					if x.pcSet[x.tt.Eq(u.tokType(s), x.tt.Int(k)).id] {
						v.typ = x.tt.Int(k)
						x.assume(x.tt.Eq(u.tokType(q), v.typ))
						break
					}
				}
				return
			}
		}
	}
	v.kind = "any"
	switch p := v.pre.(type) {
	case opsVal:
		v.post = opsVal{p.sym, []mapOp{{kind: "loop", v: x.tt.Var(x.name("operations"), SStr)}}}
		return
	case *SliceV:
		if v.t == nil {
			unsup("type of a list in a loop")
		}
		q := x.freshSeq(v.t.Underlying().(*types.Slice).Elem(), "list")
		v.min = p.len
		if ref("len", int64(p.len)) {
			v.min = 0
		}
		x.assume(x.tt.Le(x.tt.Int(int64(v.min)), q.n))
		v.post = q
		return
	case *SymSeq:
		v.post = x.freshSeq(p.elem, "list")
		return
	case *IfaceV, *SymIface:
		t := v.t
		if t == nil {
			unsup("type of a value in a loop")
		}
		if types.Implements(t, u.typ("Expression").Underlying().(*types.Interface)) {
			v.post = u.newExpr("loop value")
			return
		}
		if _, is := t.Underlying().(*types.Interface); is && !strings.HasSuffix(t.String(), "error") {
			v.post = x.freshIface(t, "loop value")
			return
		}
	case *Term:
		q := x.tt.Var(x.name("loop value"), p.sort)
		v.post = q
		if n, ok := x.concreteInt(p); ok && p.sort == SInt && !ref("ge", int64(n)) {
			v.ge = p
			x.assume(x.tt.Le(p, q))
		}
		return
	case *StructV:
		v.post = x.freshVal(p.t, "loop value")
		return
	}
	unsup("arbitrary %T in a loop", v.pre)
}

// holds checks the guess at the end of an iteration.
func (u *pUnit) holds(c *cutEv, v *cutVar) bool {
	x := u.x
	switch v.kind {
	case "const":
		return (&pspec{u: u, x: x}).sameAny(v.post, v.end)
	case "tok":
		if v.typ != nil && !x.valid(x.tt.Eq(u.tokType(v.end.(*StructV)), v.typ)) {
			x.p.refute(c.key + " " + v.key + " type" + fmt.Sprint(v.off))
			return false
		}
		return u.sameVal(v.end, u.tokAt(x.tt.AddN(u.index(), v.off)))
	}
	if v.ge != nil && !x.valid(x.tt.Le(v.ge, x.term(v.end))) {
		x.p.refute(c.key + " " + v.key + " ge" + fmt.Sprint(v.ge.n))
		return false
	}
	if v.min > 0 {
		n := x.tt.Int(0)
		switch q := v.end.(type) {
		case *SliceV:
			n = x.tt.Int(int64(q.len))
		case *SymSeq:
			n = q.n
		}
		if !x.valid(x.tt.Le(x.tt.Int(int64(v.min)), n)) {
			x.p.refute(c.key + " " + v.key + " len" + fmt.Sprint(v.min))
			return false
		}
	}
	return true
}

// ---- the specification's side

// specVar is a variable of the specification.
type specVar struct {
	get func() Val
	set func(v Val)
}

func (s *pspec) vars(l []any) []specVar {
	out := []specVar{}
	for _, v := range l {
		switch q := v.(type) {
		case *Val:
			out = append(out, specVar{func() Val { return *q }, func(v Val) { *q = v }})
		case **pCtx:
			for _, f := range sortedKeys((*q).maps) {
				f := f
				out = append(out, specVar{func() Val { return opsVal{(*q).maps[f].sym, (*q).ops[f]} }, func(v Val) {
					n := (*q).with(f)
					n.ops[f] = v.(opsVal).ops
					*q = n
				}})
			}
		default:
			unsup("variable %T of a specification", v)
		}
	}
	return out
}

// head is a loop head of the specification with the variables of the loop (**pCtx or *Val).
func (s *pspec) head(l ...any) {
	u := s.u
	if s.ended != nil && s.cut == s.ended && s.ev == len(u.calls) {
		// The end of the iteration.
		c := s.cut
		why := ""
		if !s.x.valid(s.x.tt.Eq(s.idx, c.end)) {
			why = "position"
		} else if s.cbn != len(u.cbs) {
			why = "callbacks"
		}
		for i, v := range s.vars(l) {
			if p := c.pair[i]; p != nil {
				if !s.sameAny(p.end, v.get()) {
					s.x.p.refute(c.key + " pair " + p.key + fmt.Sprint(i))
					why = "variable"
				}
			} else if !s.sameAny(c.cons[i], v.get()) {
				why = fmt.Sprintf("variable %d", i)
			}
		}
		if why != "" {
			s.x.p.cutFailed(c.key + ": the invariant does not hold (" + why + ")")
		}
		panic(pathEnd{"end of the loop"})
	}
	if s.fresh > 0 || s.ev >= len(u.calls) || u.calls[s.ev].cut == nil {
		return
	}
	c := u.calls[s.ev].cut
	if !s.x.valid(s.x.tt.Eq(s.idx, c.idx)) {
		return // another loop head
	}
	s.ev++
	if s.cbn != c.cbs {
		s.x.p.cutFailed(c.key + ": callbacks")
	}
	s.idx = c.idx2
	s.cut = c
	for i, v := range s.vars(l) {
		cur := v.get()
		found := false
		for _, k := range c.vars {
			if k.kind == "any" && !s.x.p.refuted[c.key+" pair "+k.key+fmt.Sprint(i)] && s.sameAny(k.pre, cur) {
				c.pair[i] = k
				v.set(k.post)
				found = true
				break
			}
		}
		if !found {
			c.cons[i] = cur
		}
	}
}

func (s *pspec) sameAny(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	p, ok1 := a.(opsVal)
	q, ok2 := b.(opsVal)
	if ok1 != ok2 {
		return false
	}
	if ok1 {
		return p.sym == q.sym && s.sameOps(p.ops, q.ops)
	}
	return s.eq(a, b)
}

func (p *prover) cutFailed(why string) {
	if p.cutWhy == "" {
		p.cutWhy = why
	}
}
