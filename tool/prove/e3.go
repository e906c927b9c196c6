package main

// Contracts of the parser: each function is compared with a specification over the tokens and the
// results of the other functions (which are known by their contract only).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapOp is a modification of a context's map.
type mapOp struct {
	kind   string // add, filter
	prefix *Term
	global *Term
	v      Val
	pred   *Term
}

// pCall is a call of another parser function.
type pCall struct {
	name  string
	idx   *Term
	ctx   *pCtx
	args  []Val
	ok    bool
	res   Val
	idx2  *Term
	state map[string]Val
	cb    Val
	cut   *cutEv
}

// pCtx is the content of a context.
type pCtx struct {
	maps  map[string]*MapObj // field name
	ops   map[string][]mapOp
	scope Val
}

type pDef struct {
	fn    string
	pkg   string // "" for the parser
	label string
	props string
	bound string
	args  func(u *pUnit) []Val // without the receiver
	spec  func(s *pspec) Val   // the expected result, rejects by panic
	prep  func(u *pUnit)
	raw   func(u *pUnit) // a unit without the usual environment
	fall  int
	cut   bool     // the loops over tokens are cut
	whole bool     // the loops of a raw unit are not cut
	cli   bool     // the unit of the command
	need  []string // obligations which have to be reached
}

type pUnit struct {
	x        *X
	d        *pDef
	fn       *ssa.Function
	p        *Obj
	pt       types.Type
	calls    []*pCall
	idx0     *Term
	start    map[string]Val
	ctx      *StructV
	ctx0     *pCtx
	top      bool
	argv     []Val
	finds    map[string]TupleV
	hidden   int
	hmap     map[string]string
	hrev     map[string]string
	got      Val
	toks     map[int]bool
	cbs      [][]Val
	cbErr    bool
	stop     []string
	loops    map[*frame]map[*ssa.BasicBlock]*loopState
	contract map[int]bool // what is known of every token
}

const pp = module + "/parser"

func (u *pUnit) typ(name string) types.Type {
	t := u.x.p.pg.typ("parser", name)
	if t == nil {
		unsup("type parser.%s", name)
	}
	return t
}

func (u *pUnit) konst(pkg, name string) *Term {
	return (&unitRun{x: u.x, pg: u.x.p.pg}).konst(pkg, name)
}

func (u *pUnit) tk(name string) *Term { return u.konst("lexer", name) }

func (u *pUnit) field(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	unsup("field %s of %s", name, t)
	return 0
}

func (u *pUnit) pget(name string) Val { return u.p.val.(*StructV).f[u.field(u.pt, name)] }
func (u *pUnit) pset(name string, v Val) {
	u.p.val = setPath(u.p.val, []int{u.field(u.pt, name)}, v)
}

func (u *pUnit) index() *Term { return u.x.term(u.pget("index")) }

// tokAt is the token at an index (the zero token beyond the last one).
func (u *pUnit) tokAt(i *Term) *StructV {
	x := u.x
	t := x.p.pg.typ("lexer", "Token")
	v := x.indexedVal(t, "tok", i).(*StructV)
	if !u.toks[i.id] {
		u.toks[i.id] = true
		ty, va := u.tokType(v), u.tokValue(v)
		// The lexer's contract.
		know := func(c *Term) {
			u.contract[c.id] = true
			x.assume(c)
		}
		know(x.tt.Imp(x.tt.Eq(ty, u.tk("BOOL_LITERAL")), x.tt.Or(x.tt.Eq(va, x.tt.Str("true")), x.tt.Eq(va, x.tt.Str("false")))))
		for _, k := range []string{"IDENTIFIER", "COMPOUND_ASSIGN_OPERATOR"} {
			know(x.tt.Imp(x.tt.Eq(ty, u.tk(k)), x.tt.Le(x.tt.Int(1), x.tt.Len(va))))
		}
	}
	return v
}

func (u *pUnit) method(v *StructV, name string) *Term {
	f := u.x.p.pg.method(v.t, name)
	if f == nil {
		unsup("method %s of %s", name, v.t)
	}
	return u.x.term(u.x.call(f, []Val{v}, nil))
}
func (u *pUnit) tokType(v *StructV) *Term  { return u.method(v, "Type") }
func (u *pUnit) tokValue(v *StructV) *Term { return u.method(v, "Value") }

func (u *pUnit) hook(name string, f func(fn *ssa.Function, args []Val) Val) {
	for _, n := range []string{"(*" + pp + "." + name[:strings.Index(name+".", ".")] + ")", "(" + pp + "." + name[:strings.Index(name+".", ".")] + ")"} {
		k := n + "." + name[strings.Index(name, ".")+1:]
		u.x.hooks[k] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
			if fn == u.fn && u.top {
				return nil, false
			}
			return f(fn, args), true
		}
	}
}

func (u *pUnit) hookFn(name string, f func(args []Val) Val) {
	u.x.hooks[pp+"."+name] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		if fn == u.fn && u.top {
			return nil, false
		}
		return f(args), true
	}
}

// newType is an arbitrary type of a value.
func (u *pUnit) newType(name string, kinds ...string) *StructV {
	x := u.x
	v := x.freshVal(u.typ("ValueType"), name).(*StructV)
	dt, sl := u.dt(v), u.slice(v)
	alts := []*Term{}
	for _, k := range kinds {
		alts = append(alts, x.tt.Eq(dt, u.konst("parser", "DATA_TYPE_"+k)))
		if k == "MULTIPLE" || k == "VOID" {
			x.assume(x.tt.Imp(x.tt.Eq(dt, u.konst("parser", "DATA_TYPE_"+k)), x.tt.Not(sl)))
		}
	}
	x.assume(x.tt.Or(alts...))
	return v
}

var singles = []string{"BOOLEAN", "INTEGER", "STRING"}

func (u *pUnit) dt(v Val) *Term    { return u.method(v.(*StructV), "DataType") }
func (u *pUnit) slice(v Val) *Term { return u.method(v.(*StructV), "IsSlice") }

func (u *pUnit) newExpr(name string) *SymIface {
	e := u.x.freshIface(u.typ("Expression"), name)
	e.ghost["ValueType"] = u.newType(e.name+".type", "BOOLEAN", "INTEGER", "STRING", "MULTIPLE", "VOID")
	return e
}

func (u *pUnit) isCall(e Val) bool {
	t := u.x.typeAssert(e, u.typ("Call"), true, nil).(TupleV)
	return u.x.branch(u.x.term(t[1]))
}

// valueType calls the method of the value.
func (u *pUnit) valueType(e Val) *StructV {
	return u.invoke(e, "ValueType").(*StructV)
}

func (u *pUnit) invoke(e Val, m string) Val {
	x := u.x
	switch a := e.(type) {
	case *IfaceV:
		f := x.p.pg.method(a.t, m)
		if a.t == nil || f == nil {
			unsup("method %s", m)
		}
		return x.call(f, []Val{a.v}, nil)
	case *SymIface:
		if a.dyn != nil {
			return x.call(x.p.pg.method(a.dyn, m), []Val{a.dynV}, nil)
		}
		if v, ok := a.ghost[m]; ok {
			return v
		}
		o, _, _ := types.LookupFieldOrMethod(a.t, true, x.p.pg.pkgs["parser"].Pkg, m)
		if f, ok := o.(*types.Func); ok {
			return x.defaultSymCall(a, f, nil)
		}
	case *StructV:
		return x.call(x.p.pg.method(a.t, m), []Val{a}, nil)
	}
	return unsup("method %s of %T", m, e)
}

// snapshot of a context.
func (u *pUnit) snap(c *StructV) *pCtx {
	st := c.t.Underlying().(*types.Struct)
	r := &pCtx{maps: map[string]*MapObj{}, ops: map[string][]mapOp{}}
	for i := 0; i < st.NumFields(); i++ {
		switch m := c.f[i].(type) {
		case *MapV:
			r.maps[st.Field(i).Name()] = m.m
			r.ops[st.Field(i).Name()] = append([]mapOp{}, m.m.ops...)
		default:
			r.scope = m
		}
	}
	return r
}

func (u *pUnit) setup() {
	x := u.x
	pg := x.p.pg
	u.top = true
	u.pt = u.typ("Parser")
	x.safety = true
	x.loopBound = 4
	if u.d.fall > 0 {
		x.loopBound = u.d.fall
	}
	x.initPkg(pg.pkgs["lexer"])
	x.initPkg(pg.pkgs["parser"])
	if n, ok := strings.CutPrefix(u.d.fn, "context."); ok {
		u.fn = pg.method(u.typ("context"), n)
	} else {
		u.fn = pg.method(u.pt, u.d.fn)
	}
	if u.fn == nil {
		u.fn = pg.fn("parser", u.d.fn)
	}
	if u.fn == nil {
		unsup("function %s", u.d.fn)
	}
	v := x.zero(u.pt).(*StructV)
	st := u.pt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		v.f[i] = x.freshVal(st.Field(i).Type(), "p."+st.Field(i).Name())
	}
	u.p = x.newObj(v, "parser")
	x.assume(x.tt.Le(x.tt.Int(0), u.index()))
	x.assume(x.tt.Le(x.tt.Int(0), x.term(u.pget("nesting"))))
	u.idx0 = u.index()
	// A function returns single values (contract of evaluateFunctionDefinition).
	x.data["onResolve"] = func(a *SymIface) {
		if !types.Identical(a.dyn, u.typ("FunctionCall")) {
			return
		}
		u.singleTypes(u.invoke(a, "ReturnTypes"))
	}
	x.data["newElem"] = func(t types.Type, name string) Val {
		if types.Identical(t, u.typ("Expression")) {
			return u.newExpr(name)
		}
		return nil
	}
	u.hooks()
	if u.d.prep != nil {
		u.d.prep(u)
	}
	u.start = map[string]Val{}
	for i := 0; i < st.NumFields(); i++ {
		u.start[st.Field(i).Name()] = u.p.val.(*StructV).f[i]
	}
}

// singleTypes assumes that the first types of a list are those of single values.
func (u *pUnit) singleTypes(v Val) {
	if rt, ok := v.(*SymSeq); ok {
		for i := int64(0); i < 5; i++ {
			u.x.assume(u.single(rt.at(u.x, u.x.tt.Int(i))))
		}
	}
}

// typed is the guarantee about the types in a result which the callers assume.
func (u *pUnit) typed(res Val) {
	x := u.x
	x.good("typed")
	req := func(c *Term, what Val) { x.require("typed", c, func() string { return "type of " + describe(what) }) }
	vars := func(l Val) {
		q, ok := l.(*SliceV)
		if !ok {
			return // from a contract
		}
		for _, v := range x.elems(q) {
			req(u.single(v.(*StructV).f[u.field(v.(*StructV).t, "valueType")]), v)
		}
	}
	types_ := func(l Val) {
		if q, ok := l.(*SliceV); ok {
			for _, v := range x.elems(q) {
				req(u.single(v), v)
			}
		}
	}
	switch q := res.(type) {
	case *SliceV:
		if u.d.fn == "evaluateParams" {
			vars(q)
		}
	case *StructV:
		if u.d.fn == "evaluateValueType" {
			req(u.single(q), q)
		}
	case *IfaceV:
		if q.t == nil {
			return
		}
		f := func(n string) Val { return q.v.(*StructV).f[u.field(q.t, n)] }
		switch q.t.String() {
		case pp + ".VariableDefinition", pp + ".VariableDefinitionCallAssignment":
			vars(f("variables"))
		case pp + ".FunctionDefinition":
			vars(f("params"))
			types_(f("returnTypes"))
		}
		if types.Implements(q.t, u.typ("Expression").Underlying().(*types.Interface)) {
			vt := u.valueType(q)
			mv := x.tt.Or(x.tt.Eq(u.dt(vt), u.konst("parser", "DATA_TYPE_MULTIPLE")), x.tt.Eq(u.dt(vt), u.konst("parser", "DATA_TYPE_VOID")))
			req(x.tt.Or(u.single(vt), mv), q)
			req(x.tt.Imp(mv, x.tt.Not(u.slice(vt))), q)
		}
	}
}

func (u *pUnit) newCtx() *StructV {
	c := u.x.freshVal(u.typ("context"), "ctx").(*StructV)
	for _, f := range c.f {
		if s, ok := f.(*SymSeq); ok {
			u.x.assume(u.x.tt.Le(u.x.tt.Int(1), s.n))
		}
	}
	return c
}

func (u *pUnit) parserOf(v Val) *StructV {
	if p, ok := v.(*PtrV); ok {
		v = u.x.load(p)
	}
	return v.(*StructV)
}

func (u *pUnit) pindex(v Val) *Term {
	return u.x.term(u.parserOf(v).f[u.field(u.pt, "index")])
}

func (u *pUnit) uf(name string, s Sort, args ...*Term) *Term { return u.x.tt.UF(name, s, args...) }

// scopeIs is the question whether a scope is the current one, whether the stack contains it.
func (u *pUnit) scopeQ(what string, stack Val, s *Term) *Term {
	x := u.x
	q, ok := stack.(*SymSeq)
	if !ok {
		unsup("scope stack %T", stack)
	}
	if b, ok := q.ghost["base"].(*SymSeq); ok {
		r := x.tt.fls
		es := x.elems(q.ghost["added"])
		for i, e := range es {
			if what == "contains" || i == len(es)-1 {
				r = x.tt.Or(r, x.eqVal(e, s))
			}
		}
		if what == "contains" {
			r = x.tt.Or(r, u.scopeQ(what, b, s))
		}
		return r
	}
	return u.uf("scope "+what+" "+q.name, SBool, s)
}

func (u *pUnit) ctxField(c Val, typ string) Val {
	s := c.(*StructV)
	st := s.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == typ {
			return s.f[i]
		}
	}
	return unsup("no field %s of the context", typ)
}

// find looks something up: the same question has the same answer.
func (u *pUnit) find(what string, c Val, name, prefix *Term) TupleV {
	x := u.x
	m := u.ctxField(c, what).(*MapV).m
	if len(m.ops) > 0 {
		unsup("lookup in a modified context")
	}
	k := fmt.Sprint(what, m.sym, " ", name.id, " ", prefix.id)
	if r, ok := u.finds[k]; ok {
		return r
	}
	var r TupleV
	if x.choose(2) == 0 {
		r = TupleV{x.zero(m.vt), x.tt.fls}
	} else if what == "variables" {
		v := x.freshVal(m.vt, "var").(*StructV)
		st := v.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if strings.HasSuffix(st.Field(i).Type().String(), ".ValueType") {
				v.f[i] = u.newType("var.type", singles...)
			}
		}
		r = TupleV{v, x.tt.tru}
	} else {
		v := x.freshVal(m.vt, "func").(*StructV)
		u.singleTypes(v.f[u.field(v.t, "returnTypes")])
		r = TupleV{v, x.tt.tru}
	}
	u.finds[k] = r
	return r
}

func (u *pUnit) hooks() {
	x := u.x
	u.hook("Parser.peekAt", func(fn *ssa.Function, a []Val) Val { return u.tokAt(x.tt.Add(u.pindex(a[0]), x.term(a[1]))) })
	u.hook("Parser.peek", func(fn *ssa.Function, a []Val) Val { return u.tokAt(u.pindex(a[0])) })
	u.hook("Parser.eat", func(fn *ssa.Function, a []Val) Val {
		i := u.pindex(a[0])
		if p, ok := a[0].(*PtrV); !ok || p.obj != u.p || fn.Signature.Results().Len() != 1 {
			unsup("eat")
		}
		u.pset("index", x.tt.AddN(i, 1))
		return u.tokAt(i)
	})
	u.hook("Parser.skipNewlines", func(fn *ssa.Function, a []Val) Val {
		u.pset("index", u.skipNL(u.pindex(a[0])))
		return TupleV{}
	})
	u.hook("Parser.isShortVarInit", func(fn *ssa.Function, a []Val) Val { return u.shortInit(u.pindex(a[0])) })
	u.hook("Parser.findBefore", func(fn *ssa.Function, a []Val) Val {
		ts := []*Term{x.term(a[1])}
		for _, e := range x.elems(a[2]) {
			ts = append(ts, x.term(e))
		}
		if x.branch(u.before(u.pindex(a[0]), ts[0], ts[1:])) {
			return TupleV{x.freshVal(x.p.pg.typ("lexer", "Token"), "found"), &IfaceV{}}
		}
		return TupleV{x.zero(x.p.pg.typ("lexer", "Token")), x.errVal(x.tt.Str("not found"))}
	})
	for _, n := range []string{"enterNesting"} {
		n := n
		f := x.p.pg.method(u.pt, n)
		if f == nil {
			continue
		}
		x.hooks[f.String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
			if fn == u.fn && u.top {
				return nil, false
			}
			h := x.hooks[f.String()]
			delete(x.hooks, f.String())
			r := x.call(f, args, nil)
			x.hooks[f.String()] = h
			if !x.isNilIface(r) {
				x.data["resource"] = true
			}
			return r, true
		}
	}
	// The context.
	u.hook("context.clone", func(fn *ssa.Function, a []Val) Val {
		s := a[0].(*StructV)
		c := &StructV{s.t, append([]Val{}, s.f...)}
		for i, f := range c.f {
			if m, ok := f.(*MapV); ok {
				x.objs++
				q := &MapObj{id: x.objs, kt: m.m.kt, vt: m.m.vt, sym: m.m.sym, ops: append([]mapOp{}, m.m.ops...), site: x.name("clone of " + m.m.sym)}
				x.allMaps = append(x.allMaps, q)
				c.f[i] = &MapV{q}
			}
		}
		return c
	})
	for _, what := range []string{"variables", "functions"} {
		what := what
		u.hook("context.add"+strings.ToUpper(what[:1])+what[1:], func(fn *ssa.Function, a []Val) Val {
			m := u.ctxField(a[0], what).(*MapV).m
			for i := 0; ; i++ {
				l, ok := a[3].(*SliceV)
				if !ok {
					m.ops = append(m.ops, mapOp{kind: "addall", prefix: x.term(a[1]), global: x.term(a[2]), v: a[3]})
					break
				}
				if i >= l.len {
					break
				}
				m.ops = append(m.ops, mapOp{kind: "add", prefix: x.term(a[1]), global: x.term(a[2]), v: x.elems(l)[i]})
			}
			return &IfaceV{}
		})
	}
	u.hook("context.findVariable", func(fn *ssa.Function, a []Val) Val {
		return u.find("variables", a[0], x.term(a[1]), x.term(a[2]))
	})
	u.hook("context.findFunction", func(fn *ssa.Function, a []Val) Val {
		return u.find("functions", a[0], x.term(a[1]), x.term(a[2]))
	})
	u.hook("context.global", func(fn *ssa.Function, a []Val) Val {
		return u.scopeQ("is", u.ctxField(a[0], "scopeStack"), u.konst("parser", "SCOPE_PROGRAM"))
	})
	u.hook("context.findScope", func(fn *ssa.Function, a []Val) Val {
		return u.scopeQ("contains", u.ctxField(a[0], "scopeStack"), x.term(a[1]))
	})
	u.hookFn("buildPrefixedName", func(a []Val) Val { return u.uf("prefixed", SStr, x.term(a[0]), x.term(a[1])) })
	u.hookFn("isPublic", func(a []Val) Val { return u.uf("isPublic", SBool, x.term(a[0])) })
	u.hookFn("isTerminating", func(a []Val) Val { return u.terminating(a[0]) })
	u.hook("Parser.newHiddenVariable", func(fn *ssa.Function, a []Val) Val {
		u.hidden++
		return u.hiddenVar(fmt.Sprintf("hidden%d", u.hidden), a[1])
	})
	// The other functions of the parser.
	ms := x.p.pg.prog.MethodSets.MethodSet(types.NewPointer(u.pt))
	for i := 0; i < ms.Len(); i++ {
		f := x.p.pg.prog.MethodValue(ms.At(i))
		if !pTable[f.Name()] {
			continue
		}
		x.hooks[f.String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
			if fn == u.fn && u.top {
				u.top = false
				return nil, false
			}
			return u.call(fn, args), true
		}
	}
}

// pTable contains the functions which are known by their contract to their callers.
var pTable = map[string]bool{
	"evaluateValues": true, "evaluateBlockContent": true, "evaluateBlock": true, "evaluateValueType": true,
	"evaluateVarDefinition": true, "evaluateCompoundAssignment": true, "evaluateVarAssignment": true, "evaluateParams": true,
	"evaluateFunctionDefinition": true, "evaluateReturn": true, "evaluateBreak": true, "evaluateContinue": true,
	"evaluateIf": true, "evaluateSwitch": true, "evaluateFor": true, "evaluateVarEvaluation": true,
	"evaluateSingleExpression": true, "evaluateUnaryOperation": true, "evaluateMultiplication": true, "evaluateAddition": true,
	"evaluateLogicalAnd": true, "evaluateLogicalOr": true, "evaluateExpression": true, "evaluateStatement": true,
	"evaluateComparison": true, "evaluateArguments": true, "evaluateFunctionCall": true, "evaluateAppCall": true,
	"evaluateSliceInstantiation": true, "evaluateSubscript": true, "evaluateSliceAssignment": true,
	"evaluateIncrementDecrement": true, "evaluateLen": true, "evaluateInput": true, "evaluatePrint": true, "evaluatePanic": true,
	"evaluateCopy": true, "evaluateItoa": true, "evaluateExists": true, "evaluateRead": true, "evaluateWrite": true,
}

func (u *pUnit) hiddenVar(name string, vt Val) Val {
	x := u.x
	f := x.p.pg.fn("parser", "NewVariable")
	if f == nil {
		unsup("NewVariable")
	}
	return x.call(f, []Val{x.tt.Var(name, SStr), vt, x.tt.fls, x.tt.fls}, nil)
}

func (u *pUnit) skipNL(i *Term) *Term {
	x := u.x
	r := u.uf("skipNL", SInt, i)
	x.assume(x.tt.Le(i, r))
	x.assume(x.tt.Not(x.tt.Eq(u.tokType(u.tokAt(r)), u.tk("NEWLINE"))))
	x.assume(x.tt.Imp(x.tt.Not(x.tt.Eq(u.tokType(u.tokAt(i)), u.tk("NEWLINE"))), x.tt.Eq(i, r)))
	return r
}

func (u *pUnit) shortInit(i *Term) *Term {
	x := u.x
	r := u.uf("shortInit", SBool, i)
	ty := u.tokType(u.tokAt(i))
	x.assume(x.tt.Imp(r, x.tt.Or(x.tt.Eq(ty, u.tk("IDENTIFIER")), x.tt.Eq(ty, u.tk("COMMA")), x.tt.Eq(ty, u.tk("SHORT_INIT_OPERATOR")))))
	return r
}

func (u *pUnit) before(i, what *Term, stop []*Term) *Term {
	n := fmt.Sprint("before ", what.n)
	for _, t := range stop {
		n += fmt.Sprint(" ", t.n)
	}
	return u.uf(n, SBool, i)
}

func (u *pUnit) terminating(l Val) *Term {
	switch q := l.(type) {
	case *SymSeq:
		return u.uf("terminating "+q.name, SBool)
	}
	return u.x.tt.Var("terminating "+describe(l), SBool)
}

func (u *pUnit) errOf(name string) Val {
	m := u.x.tt.Var(u.x.name("error of "+name), SStr)
	u.x.assume(u.x.tt.Le(u.x.tt.Int(1), u.x.tt.Len(m)))
	return u.x.errVal(m)
}

// progress: these functions may succeed without consuming a token.
var noProgress = map[string]bool{"evaluateBlockContent": true, "evaluateParams": true}

// call is a call of a function which is known by its contract.
func (u *pUnit) call(fn *ssa.Function, args []Val) Val {
	x := u.x
	e := &pCall{name: fn.Name(), idx: u.index(), state: map[string]Val{}}
	for _, n := range []string{"currFunc", "currReturnTypes", "prefix", "path", "nesting"} {
		e.state[n] = u.pget(n)
	}
	var cb *FuncV
	for _, a := range args[1:] {
		switch v := a.(type) {
		case *StructV:
			if strings.HasSuffix(v.t.String(), ".context") {
				e.ctx = u.snap(v)
				continue
			}
		case *FuncV:
			cb = v
			e.cb = v
			continue
		}
		e.args = append(e.args, a)
	}
	u.calls = append(u.calls, e)
	res := fn.Signature.Results()
	fail := func() Val { return TupleV{x.zero(res.At(0).Type()), u.errOf(e.name)} }
	if x.choose(2) == 1 {
		u.pset("index", x.freshVal(types.Typ[types.Int], "index after the error"))
		return fail()
	}
	e.ok = true
	v, keep := u.result(fn.Name(), res.At(0).Type())
	e.res = keep
	e.idx2 = x.freshVal(types.Typ[types.Int], fmt.Sprintf("i%d", len(u.calls))).(*Term)
	d := int64(1)
	if noProgress[e.name] {
		d = 0
	}
	x.assume(x.tt.Le(x.tt.AddN(e.idx, d), e.idx2))
	u.pset("index", e.idx2)
	u.havoc()
	if cb != nil && !cb.isNil {
		part := x.freshSeq(u.typ("Statement"), "part of the block")
		for _, c := range []struct {
			l Val
			b *Term
		}{{part, x.tt.fls}, {v, x.tt.tru}} {
			if r := x.apply(cb, []Val{c.l, c.b}, nil); !x.isNilIface(r) {
				return TupleV{x.zero(res.At(0).Type()), r}
			}
		}
	}
	return TupleV{v, &IfaceV{}}
}

// havoc forgets what the other functions may change.
func (u *pUnit) havoc() {
	x := u.x
	if m, ok := u.pget("usedFuncs").(*MapV); ok {
		m.m.sym = x.name("p.usedFuncs")
		m.m.ents, m.m.known = nil, nil
	}
}

// result is an arbitrary result which fulfils the contract (and a copy of it for the specification).
func (u *pUnit) result(name string, t types.Type) (Val, Val) {
	x := u.x
	switch name {
	case "evaluateValues":
		n := x.choose(3) + 1
		x.p.limits["at most 3 values"] = true
		es := []Val{}
		for i := 0; i < n; i++ {
			e := u.newExpr("value")
			es = append(es, e)
			if n == 1 && x.choose(2) == 1 {
				// A call which returns several values.
				if !u.isCall(e) {
					panic(pathEnd{"no call"})
				}
				x.assumeSat(x.tt.Eq(u.dt(u.valueType(e)), u.konst("parser", "DATA_TYPE_MULTIPLE")))
				k := x.choose(3)
				rt := u.invoke(e, "ReturnTypes")
				switch r := rt.(type) {
				case *SymSeq:
					x.assumeSat(x.tt.Eq(r.n, x.tt.Int(int64(k+2))))
				case *SliceV:
					if k != r.len-2 {
						panic(pathEnd{"other length"})
					}
				}
				continue
			}
			x.assumeSat(u.single(u.valueType(e)))
		}
		s := x.zero(t).(*StructV)
		a, b := &StructV{s.t, append([]Val{}, s.f...)}, &StructV{s.t, append([]Val{}, s.f...)}
		a.f[0], b.f[0] = x.mkSlice(es, "values"), x.mkSlice(es, "values")
		return a, b
	case "evaluateParams":
		n := x.choose(3)
		x.p.limits["at most 2 parameters"] = true
		es := []Val{}
		for i := 0; i < n; i++ {
			v := x.freshVal(u.typ("Variable"), "param").(*StructV)
			v.f[u.field(v.t, "valueType")] = u.newType("param.type", singles...)
			es = append(es, v)
		}
		return x.mkSlice(es, "params"), x.mkSlice(es, "params")
	case "evaluateValueType":
		v := u.newType("type", singles...)
		return v, v
	case "evaluateAppCall":
		e := x.freshIface(t, "program call")
		d := u.typ("AppCall")
		e.dyn, e.dynV = d, x.freshVal(d, e.name)
		return e, e
	}
	switch q := t.Underlying().(type) {
	case *types.Interface:
		e := x.freshIface(t, strings.TrimPrefix(name, "evaluate"))
		if types.Implements(t, u.typ("Expression").Underlying().(*types.Interface)) {
			e.ghost["ValueType"] = u.newType(e.name+".type", "BOOLEAN", "INTEGER", "STRING", "MULTIPLE", "VOID")
		}
		return e, e
	case *types.Slice:
		s := x.freshSeq(q.Elem(), name)
		return s, s
	}
	unsup("result of %s", name)
	return nil, nil
}

func (u *pUnit) single(vt Val) *Term {
	x := u.x
	alts := []*Term{}
	for _, k := range singles {
		alts = append(alts, x.tt.Eq(u.dt(vt), u.konst("parser", "DATA_TYPE_"+k)))
	}
	return x.tt.Or(alts...)
}

// ---- the specification

type pspec struct {
	u      *pUnit
	x      *X
	idx    *Term
	ev     int
	accept bool // the function accepted
	ctx    *pCtx
	ctxV   *StructV
	hid    int
	state  map[string]Val
	fresh  int // calls beyond those of the function
	why    string
	effect map[string]Val // expected fields of the parser
	post   func()
	cb     Val
	cut    *cutEv
	ended  *cutEv
	cbn    int // callbacks
}

type specReject struct{ why string }

func (s *pspec) reject(f string, a ...any) { panic(specReject{fmt.Sprintf(f, a...)}) }

func (s *pspec) tok(k int64) *StructV { return s.u.tokAt(s.x.tt.AddN(s.idx, k)) }
func (s *pspec) typ(k int64) *Term    { return s.u.tokType(s.tok(k)) }
func (s *pspec) val(k int64) *Term    { return s.u.tokValue(s.tok(k)) }
func (s *pspec) is(names ...string) bool {
	return s.isAt(0, names...)
}
func (s *pspec) isAt(k int64, names ...string) bool {
	t := s.typ(k)
	for _, n := range names {
		if s.x.branch(s.x.tt.Eq(t, s.u.tk(n))) {
			return true
		}
	}
	return false
}
func (s *pspec) eat() *Term {
	v := s.val(0)
	s.idx = s.x.tt.AddN(s.idx, 1)
	return v
}
func (s *pspec) expect(names ...string) *Term {
	if !s.is(names...) {
		s.reject("%v expected", names)
	}
	return s.eat()
}
func (s *pspec) want(c bool, f string, a ...any) {
	if !c {
		s.reject(f, a...)
	}
}
func (s *pspec) cond(c *Term) bool { return s.x.branch(c) }

func (s *pspec) vt(e Val) *StructV { return s.u.valueType(e) }
func (s *pspec) isType(vt Val, kind string, slice bool) bool {
	x := s.x
	sl := s.u.slice(vt)
	if !slice {
		sl = x.tt.Not(sl)
	}
	return x.branch(x.tt.And(x.tt.Eq(s.u.dt(vt), s.u.konst("parser", "DATA_TYPE_"+kind)), sl))
}
func (s *pspec) eqType(a, b Val) bool {
	x := s.x
	return x.branch(x.tt.And(x.tt.Eq(s.u.dt(a), s.u.dt(b)), x.tt.Eq(s.u.slice(a), s.u.slice(b))))
}
func (s *pspec) isSlice(vt Val) bool  { return s.x.branch(s.u.slice(vt)) }
func (s *pspec) isSingle(vt Val) bool { return s.x.branch(s.u.single(vt)) }
func (s *pspec) mkType(kind string, slice bool) Val {
	return s.x.call(s.x.p.pg.fn("parser", "NewValueType"), []Val{s.u.konst("parser", "DATA_TYPE_"+kind), s.x.tt.Bool(slice)}, nil)
}
func (s *pspec) newType(dt *Term, slice *Term) Val {
	return s.x.call(s.x.p.pg.fn("parser", "NewValueType"), []Val{dt, slice}, nil)
}

// node builds a node by the names of its fields.
func (s *pspec) node(typ string, kv ...any) *IfaceV {
	v := s.strct(typ, kv...)
	return &IfaceV{v.t, v}
}
func (s *pspec) strct(typ string, kv ...any) *StructV {
	t := s.u.typ(typ)
	v := s.x.zero(t).(*StructV)
	for i := 0; i < len(kv); i += 2 {
		v.f[s.u.field(t, kv[i].(string))] = kv[i+1]
	}
	return v
}
func (s *pspec) list(es ...Val) Val { return s.x.mkSlice(es, "list") }
func (s *pspec) str(t string) *Term { return s.x.tt.Str(t) }
func (s *pspec) boolLit(b bool) Val { return s.node("BooleanLiteral", "value", s.x.tt.Bool(b)) }
func (s *pspec) intLit(n int64) Val { return s.node("IntegerLiteral", "value", s.x.tt.Int(n)) }
func (s *pspec) varEval(v Val) Val  { return s.node("VariableEvaluation", "Variable", v) }
func (s *pspec) newVar(name *Term, vt Val, global, public *Term) Val {
	return s.strct("Variable", "name", name, "valueType", vt, "global", global, "public", public)
}
func (s *pspec) hidden(vt Val) Val {
	s.hid++
	return s.u.hiddenVar(fmt.Sprintf("spechidden%d", s.hid), vt)
}
func (s *pspec) konst(n string) *Term { return s.u.konst("parser", n) }
func (s *pspec) field(v Val, name string) Val {
	if i, ok := v.(*IfaceV); ok {
		v = i.v
	}
	q := v.(*StructV)
	return q.f[s.u.field(q.t, name)]
}

// with is the context with modifications.
func (c *pCtx) with(f string, ops ...mapOp) *pCtx {
	n := &pCtx{maps: c.maps, ops: map[string][]mapOp{}, scope: c.scope}
	for k, v := range c.ops {
		n.ops[k] = v
	}
	n.ops[f] = append(append([]mapOp{}, n.ops[f]...), ops...)
	return n
}
func (s *pspec) scoped(c *pCtx, scope *Term) *pCtx {
	n := c.with("variables")
	n.scope = s.x.appendTo(c.scope, s.list(scope), nil)
	return n
}

// call expects a call of another function.
func (s *pspec) call(name string, ctx *pCtx, args ...Val) Val {
	x := s.x
	u := s.u
	if s.fresh == 0 && (s.ev < len(u.calls) && u.calls[s.ev].cut != nil || s.ev == len(u.calls) && s.ended != nil) {
		x.p.cutFailed("no corresponding loop before the call of " + name)
		panic(pathEnd{"loop"})
	}
	if s.fresh == 0 && s.ev < len(u.calls) {
		e := u.calls[s.ev]
		s.ev++
		why := ""
		if e.name != name {
			why = "the call of " + e.name
		} else if !x.valid(x.tt.Eq(e.idx, s.idx)) {
			why = "the position of the call of " + name
		} else if ctx != nil && e.ctx == nil || ctx != nil && !s.sameCtx(e.ctx, ctx) {
			why = "the context of the call of " + name + ": " + s.why
		} else {
			for i, a := range args {
				if a != nil && (i >= len(e.args) || !s.eq(e.args[i], a)) {
					why = fmt.Sprintf("argument %d of the call of %s", i, name)
				}
			}
			for k, v := range s.state {
				if !s.eq(e.state[k], v) {
					why = k + " at the call of " + name
				}
			}
		}
		if s.cb != nil && e.cb != s.cb {
			why = "the callback of " + name
		}
		if why == "" {
			if !e.ok {
				s.reject("%s fails", name)
			}
			s.idx = e.idx2
			return e.res
		}
		if s.accept {
			x.bad("calls", why+" differs from the specification")
			panic(pathEnd{"different calls"})
		}
	} else if s.accept {
		x.bad("calls", "a call of "+name+" is missing")
		panic(pathEnd{"different calls"})
	}
	if s.fresh++; s.fresh > 3 {
		x.p.bounds++
		panic(pathEnd{"bound"})
	}
	f := x.p.pg.method(u.pt, name)
	if f == nil {
		unsup("function %s", name)
	}
	_, v := u.result(name, f.Signature.Results().At(0).Type())
	i := x.freshVal(types.Typ[types.Int], "s").(*Term)
	x.assume(x.tt.Le(s.idx, i))
	s.idx = i
	return v
}

func (s *pspec) sameCtx(a, b *pCtx) bool {
	for k, m := range a.maps {
		if b.maps[k].sym != m.sym {
			s.why = k
			return false
		}
		if !s.sameOps(a.ops[k], b.ops[k]) {
			s.why = fmt.Sprintf("%s: %d modifications, %d expected", k, len(a.ops[k]), len(b.ops[k]))
			return false
		}
	}
	if a.scope != b.scope && !s.sameScope(a.scope, b.scope) {
		s.why = "scopes"
		return false
	}
	return true
}

func (s *pspec) sameScope(a, b Val) bool {
	p, ok1 := a.(*SymSeq)
	q, ok2 := b.(*SymSeq)
	if !ok1 || !ok2 {
		return false
	}
	if p == q {
		return true
	}
	pb, ok1 := p.ghost["base"].(*SymSeq)
	qb, ok2 := q.ghost["base"].(*SymSeq)
	return ok1 && ok2 && s.sameScope(pb, qb) && s.eq(p.ghost["added"], q.ghost["added"])
}

func (s *pspec) sameOps(a, b []mapOp) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, q := a[i], b[i]
		if p.kind != q.kind {
			return false
		}
		if p.kind == "loop" {
			if p.v != q.v {
				return false
			}
			continue
		}
		if p.kind == "filter" {
			// The predicate of the specification is a function of the value.
			if !s.x.valid(s.x.tt.Eq(p.pred, s.u.dropsLocals(p.v))) {
				return false
			}
			continue
		}
		if !s.x.valid(s.x.tt.Eq(p.global, q.global)) || !s.eq(p.v, q.v) {
			return false
		}
		if !s.x.valid(s.x.tt.Or(s.x.tt.Not(p.global), s.x.tt.Eq(p.prefix, q.prefix))) {
			return false
		}
	}
	return true
}

func (u *pUnit) dropsLocals(v Val) *Term { return u.x.tt.Not(u.method(v.(*StructV), "Global")) }

// eq compares a value with an expected one.
func (s *pspec) eq(a, b Val) bool {
	x := s.x
	if a == b {
		return true
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			return false
		}
		if q.op == "var" && strings.HasPrefix(q.s, "spechidden") {
			if p.op != "var" || !strings.HasPrefix(p.s, "hidden") {
				return false
			}
			if s.u.hmap[q.s] == "" && s.u.hrev[p.s] == "" {
				s.u.hmap[q.s], s.u.hrev[p.s] = p.s, q.s
			}
			return s.u.hmap[q.s] == p.s
		}
		return p.sort == q.sort && x.valid(x.tt.Eq(p, q))
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || !types.Identical(p.t, q.t) || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !s.eq(p.f[i], q.f[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		switch q := b.(type) {
		case *IfaceV:
			if p.t == nil || q.t == nil {
				return p.t == nil && q.t == nil
			}
			return types.Identical(p.t, q.t) && s.eq(p.v, q.v)
		case *SymIface:
			return q.dyn != nil && p.t != nil && types.Identical(p.t, q.dyn) && s.eq(p.v, q.dynV)
		}
	case *SymIface:
		if q, ok := b.(*IfaceV); ok {
			return p.dyn != nil && q.t != nil && types.Identical(p.dyn, q.t) && s.eq(p.dynV, q.v)
		}
	case *SliceV:
		switch q := b.(type) {
		case *SliceV:
			if p.len != q.len {
				return false
			}
			for i, e := range x.elems(p) {
				if !s.eq(e, x.elems(q)[i]) {
					return false
				}
			}
			return true
		case *SymSeq:
			return p.len == 0 && x.valid(x.tt.Eq(q.n, x.tt.Int(0)))
		}
	case *SymSeq:
		switch q := b.(type) {
		case *SliceV:
			return q.len == 0 && x.valid(x.tt.Eq(p.n, x.tt.Int(0)))
		case *SymSeq:
			for _, k := range []string{"base", "added", "head", "rest"} {
				g, ok1 := p.ghost[k]
				h, ok2 := q.ghost[k]
				if ok1 != ok2 {
					return false
				}
				if ok1 && !s.eq(g, h) {
					return false
				}
			}
			_, ok1 := p.ghost["base"]
			_, ok2 := p.ghost["head"]
			return ok1 || ok2
		}
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok || p.obj == nil || q.obj == nil {
			return ok && p.obj == nil && q.obj == nil
		}
		return s.eq(x.load(p), x.load(q))
	case *MapV:
		q, ok := b.(*MapV)
		return ok && (p.m == q.m)
	}
	return false
}

// run verifies the function on one path.
func (u *pUnit) run() {
	x := u.x
	u.finds = map[string]TupleV{}
	u.hmap, u.hrev = map[string]string{}, map[string]string{}
	u.toks, u.contract = map[int]bool{}, map[int]bool{}
	if u.d.raw != nil {
		u.d.raw(u)
		return
	}
	u.setup()
	args := []Val{}
	if u.d.args != nil {
		args = u.d.args(u)
	} else {
		u.ctx = u.newCtx()
		args = append(args, u.ctx)
	}
	if u.ctx != nil {
		u.ctx0 = u.snap(u.ctx)
	}
	u.argv = args
	if u.d.cut {
		x.cutter = u.cutLoop
	}
	var ended *cutEv
	r := func() (r Val) {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(loopEnd)
				if !ok {
					panic(r)
				}
				x.stack, x.depth = nil, 0
				ended = e.ev
			}
		}()
		return x.call(u.fn, append([]Val{&PtrV{obj: u.p}}, args...), nil)
	}()
	x.safety = false
	x.cutter = nil
	if ended != nil {
		r = TupleV{nil, &IfaceV{}}
	}
	var res, err Val
	if t, ok := r.(TupleV); ok && len(t) == 2 {
		res, err = t[0], t[1]
	} else if u.fn.Signature.Results().Len() == 1 && strings.HasSuffix(u.fn.Signature.Results().At(0).Type().String(), "error") {
		err = r
	} else {
		unsup("results of %s", u.fn)
	}
	u.got = res
	accepted := x.isNilIface(err)
	s := &pspec{u: u, x: x, idx: u.idx0, accept: accepted, ended: ended, ctx: u.ctx0, ctxV: u.ctx, state: map[string]Val{}, effect: map[string]Val{}}
	for _, n := range []string{"currFunc", "currReturnTypes", "prefix", "path"} {
		s.state[n] = u.start[n]
	}
	calls := u.calls
	var want Val
	why := ""
	ok := func() (ok bool) {
		if !accepted && x.data["resource"] == true {
			why = "the nesting limit"
			return false
		}
		defer func() {
			if r := recover(); r != nil {
				q, is := r.(specReject)
				if !is {
					panic(r)
				}
				why = q.why
				ok = false
			}
		}()
		want = u.d.spec(s)
		return true
	}()
	_ = calls
	if ended != nil {
		x.p.cutFailed(ended.key + ": the specification leaves the loop " + why)
		return
	}
	if !accepted {
		// An error says something.
		x.good("error-text")
		if e, is := err.(*SymIface); is {
			if m, is := e.ghost["Error"].(*Term); is {
				x.require("error-text", x.tt.Le(x.tt.Int(1), x.tt.Len(m)), nil)
			}
		}
		x.good("accepts")
		if ok {
			x.bad("accepts", "the function rejects what the specification accepts\nerror: "+u.errText(err))
		}
		return
	}
	x.good("rejects")
	if !ok {
		x.bad("rejects", "the function accepts what the specification rejects: "+why)
		return
	}
	x.good("calls")
	if s.ev != len(u.calls) {
		x.bad("calls", fmt.Sprintf("%d calls instead of %d", len(u.calls), s.ev))
	}
	x.good("consumes")
	x.require("consumes", x.tt.Eq(u.index(), s.idx), func() string {
		return "position " + u.index().String() + ", expected " + s.idx.String()
	})
	if want != nil {
		x.good("node")
		if !s.eq(res, want) {
			x.bad("node", "got "+describe(res)+"\nexpected "+describe(want))
		}
	}
	u.typed(res)
	x.good("progress")
	d := int64(1)
	if noProgress[u.d.fn] {
		d = 0
	}
	x.require("progress", x.tt.Le(x.tt.AddN(u.idx0, d), u.index()), nil)
	if s.post != nil {
		s.post()
	}
	// Frame.
	x.good("frame")
	for n, v := range u.start {
		if n == "index" || n == "hiddenVars" || n == "usedFuncs" || n == "importedFiles" {
			continue
		}
		w := v
		if e, ok := s.effect[n]; ok {
			w = e
		}
		if !s.eq(u.pget(n), w) {
			x.bad("frame", n+" is changed: "+describe(u.pget(n)))
		}
	}
	if u.ctx0 != nil {
		for k, m := range u.ctx0.maps {
			if len(m.ops) != 0 || len(m.ents) != 0 {
				x.bad("frame", "the "+k+" of the caller's context are changed")
			}
		}
	}
}

func (u *pUnit) errText(e Val) string {
	if q, ok := e.(*SymIface); ok {
		if m, ok := q.ghost["Error"].(*Term); ok {
			return m.String()
		}
	}
	return "?"
}
