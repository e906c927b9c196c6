package main

// Engine E2: contracts of the code generation, per kind of node. The real code runs symbolically on a node with
// opaque children (which fulfil the contract), the emitted text is interpreted and compared with the meaning of
// the node.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// child is an arbitrary expression or statement.
type child struct {
	id    int
	class string // read, nocall, call, stmt
	tags  []vtag // types of the results
	v     *Term  // variable of a read (name in the script)
	ctl   []string
	iface *SymIface
	isBrk bool
}

type funcDef struct {
	name *Term
	body shList
}

// houdini collects what is learnt over all the units.
type houdini struct {
	mutExpr, mutStmt, mutTop map[string]bool // int fields
	flags                    map[string]bool
	retRegs                  map[int]string
	allocRegs                map[string]bool
	families                 map[string]string          // family of temporary variables -> counter
	writtenRegs              map[string]map[string]bool // register -> units
	names                    map[string]bool
	fieldKind                string
	helperOK                 map[string]string
}

func newHoudini() *houdini {
	return &houdini{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[int]string{}, map[string]bool{}, map[string]string{}, map[string]map[string]bool{}, map[string]bool{}, "", map[string]string{}}
}

type unitRun struct {
	x         *X
	pg        *program
	h         *houdini // what is known of all the units
	out       *houdini // what this run finds out
	valueUsed bool
	nonEmpty  bool
	noEnd     bool
	loopDepth int
	loopEnd   string
	unit      *unitDef
	conv      Val // interface value of the converter
	convT     types.Type
	convP     *PtrV
	tr        *PtrV
	frags     map[int]*fragInfo
	counters  map[string]string
	children  []*child
	readFirst map[string]bool
	defines   []*funcDef
	calls     []*callEv
	inHelper  bool
	inFunc    bool
	injected  bool
	entry     map[string]*Term
	entryAll  map[string]string
	cur       *shState
	allFlags  bool

	batchResults []*Term
	batchEnds    []string
	fcTerm       *Term
	errFork      bool
	finished     bool
	nMark        int
	flagVars     map[string]*Term
	flagOld      map[string]Val
	regs         map[string]bool
	start        map[string]*shFunc
}

type unitDef struct {
	name  string
	kind  string // expr, stmt, top
	props []string
	bound string
	batch bool // with the Batch converter, structure only
	run   func(u *unitRun)
}

// ---- construction of nodes

func (u *unitRun) konst(pkg, name string) *Term {
	p := u.pg.pkgs[pkg]
	if p == nil {
		unsup("package %s", pkg)
	}
	c, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		unsup("constant %s", name)
	}
	if c.Val().Kind() == constant.String {
		return u.x.tt.Str(constant.StringVal(c.Val()))
	}
	n, _ := constant.Int64Val(c.Val())
	return u.x.tt.Int(n)
}

func (u *unitRun) ptype(name string) types.Type {
	t := u.pg.typ("parser", name)
	if t == nil {
		unsup("type parser.%s", name)
	}
	return t
}

func (u *unitRun) dataType(t vtag) *Term {
	switch t.elem() {
	case "i":
		return u.konst("parser", "DATA_TYPE_INTEGER")
	case "b":
		return u.konst("parser", "DATA_TYPE_BOOLEAN")
	}
	return u.konst("parser", "DATA_TYPE_STRING")
}

func (u *unitRun) valueType(t vtag) Val {
	return u.x.call(u.fn("parser", "NewValueType"), []Val{u.dataType(t), u.x.tt.Bool(t.slice())}, nil)
}

func (u *unitRun) fn(pkg, name string) *ssa.Function {
	f := u.pg.fn(pkg, name)
	if f == nil {
		unsup("function %s.%s", pkg, name)
	}
	return f
}

// node builds a node whose accessors return the values.
func (u *unitRun) node(typ string, acc map[string]Val) *StructV {
	t := u.ptype(typ)
	s := u.x.zero(t).(*StructV)
	for _, name := range sortedKeys(acc) {
		p := u.accessor(t, name)
		s = setPath(s, p, acc[name]).(*StructV)
	}
	return s
}

// accessor finds the field an accessor method returns.
func (u *unitRun) accessor(t types.Type, name string) []int {
	key := "acc:" + t.String() + "." + name
	if p, ok := u.x.p.accs[key]; ok {
		return p
	}
	f := u.pg.method(t, name)
	if f == nil {
		unsup("accessor %s of %s", name, t)
	}
	marks := map[Val][]int{}
	var mark func(v Val, path []int) Val
	mark = func(v Val, path []int) Val {
		var m Val
		switch a := v.(type) {
		case *StructV:
			c := &StructV{a.t, append([]Val{}, a.f...)}
			for i := range c.f {
				c.f[i] = mark(c.f[i], append(append([]int{}, path...), i))
			}
			m = c
		case *Term:
			m = u.x.tt.Var(u.x.name("mark"), a.sort)
		case *SliceV:
			m = &SliceV{}
		case *IfaceV:
			m = u.x.freshIface(types.NewInterfaceType(nil, nil), "mark")
		case *PtrV:
			m = &PtrV{}
		default:
			unsup("field of type %T", v)
		}
		marks[m] = path
		return m
	}
	r := u.x.call(f, []Val{mark(u.x.zero(t), nil)}, nil)
	p, ok := marks[r]
	if !ok || len(p) == 0 {
		unsup("accessor %s of %s returns no field", name, t)
	}
	u.x.p.accs[key] = p
	return p
}

func (u *unitRun) iface(s *StructV) *IfaceV { return &IfaceV{s.t, s} }
func (u *unitRun) list(es ...Val) *SliceV   { return u.x.mkSlice(es, "list") }

func (u *unitRun) newChild(class string, tags ...vtag) *child {
	c := &child{id: len(u.children), class: class, tags: tags}
	u.children = append(u.children, c)
	kind := "Expression"
	if class == "stmt" {
		kind = "Statement"
	}
	c.iface = u.x.freshIface(u.ptype(kind), fmt.Sprintf("child%d", c.id))
	c.iface.ghost["child"] = c
	if class != "stmt" {
		switch len(tags) {
		case 0:
			c.iface.ghost["ValueType"] = u.x.call(u.fn("parser", "NewValueType"), []Val{u.konst("parser", "DATA_TYPE_VOID"), u.x.tt.fls}, nil)
		case 1:
			c.iface.ghost["ValueType"] = u.valueType(tags[0])
		default:
			c.iface.ghost["ValueType"] = u.x.call(u.fn("parser", "NewValueType"), []Val{u.konst("parser", "DATA_TYPE_MULTIPLE"), u.x.tt.fls}, nil)
		}
	}
	ct := u.ptype("Call")
	c.iface.impl[ct.String()] = class == "call"
	rts := []Val{}
	for _, t := range tags {
		rts = append(rts, u.valueType(t))
	}
	c.iface.ghost["ReturnTypes"] = u.list(rts...)
	if class == "read" {
		name := u.x.tt.Var(fmt.Sprintf("name%d", c.id), SStr)
		c.v = u.mangled(name, tags[0], u.x.choose(2) == 1)
	}
	return c
}

// expr is an arbitrary operand of a type.
func (u *unitRun) expr(tag vtag) *child {
	class := "nocall"
	if !u.errFork {
		class = []string{"read", "nocall", "call"}[u.x.choose(3)]
	}
	return u.newChild(class, tag)
}

func (u *unitRun) exprs(n int, tag vtag) []*child {
	r := []*child{}
	for i := 0; i < n; i++ {
		r = append(r, u.expr(tag))
	}
	return r
}

func vals(cs []*child) []Val {
	r := []Val{}
	for _, c := range cs {
		r = append(r, c.iface)
	}
	return r
}

func (u *unitRun) stmt(ctl ...string) *child {
	c := u.newChild("stmt")
	c.ctl = ctl
	return c
}

func (u *unitRun) variable(name *Term, tag vtag, global bool) *StructV {
	return u.node("Variable", map[string]Val{"Name": name, "ValueType": u.valueType(tag), "Global": u.x.tt.Bool(global)})
}

// target is the name of a variable or function in the script, without the decoration of the converter.
func (u *unitRun) target(name *Term) *Term {
	return u.x.term(u.x.call(u.fn("transpiler", "toTargetName"), []Val{name}, nil))
}

// mangled is the name the converter uses for a variable.
func (u *unitRun) mangled(name *Term, tag vtag, global bool) *Term {
	r := u.convCall("VarEvaluation", u.target(name), u.x.tt.tru, u.x.tt.Bool(global)).(TupleV)
	n := u.plainName(u.x.term(r[0]))
	u.x.data["vt:"+n.key] = tag
	return n
}

// plainName is NAME of ${NAME}.
func (u *unitRun) plainName(text *Term) *Term {
	if u.unit.batch {
		return u.batchName(text)
	}
	ids := 0
	p := &shParser{s: symsOf(text, false), ids: &ids}
	w := u.parseDQ(p)
	if len(w) == 1 {
		if v, ok := w[0].(pVar); ok && !v.length && v.index == nil && v.op == "" && !v.all {
			st := &shState{x: u.x, u: u}
			return st.nameTerm(v.name)
		}
	}
	unsup("evaluation of a variable is %s", text)
	return nil
}

func (u *unitRun) parseDQ(p *shParser) (w []shPart) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(shError); ok {
				unsup("text of a result: %s", e.why)
			}
			panic(r)
		}
	}()
	return p.dq(func() bool { return false })
}

func (u *unitRun) convCall(m string, args ...Val) Val {
	f := u.pg.method(u.convT, m)
	if f == nil {
		unsup("method %s of the converter", m)
	}
	r := u.x.call(f, append([]Val{u.convP}, args...), nil)
	if u.unit.batch {
		u.batchOpen(m)
	}
	return r
}

func (u *unitRun) mark(s string) {
	u.convCall("VarAssignment", u.x.tt.Str(markByte+s+markByte), u.x.tt.Str(""), u.x.tt.tru)
}

// ---- state of the converter and the transpiler

func (u *unitRun) fields(f func(key string, t types.Type, p *PtrV)) {
	for _, o := range []struct {
		n string
		p *PtrV
	}{{"c", u.convP}, {"t", u.tr}} {
		s, ok := u.x.load(o.p).(*StructV)
		if !ok {
			continue
		}
		st := s.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f(o.n+"."+st.Field(i).Name(), st.Field(i).Type(), &PtrV{o.p.obj, append(append([]int{}, o.p.path...), i)})
		}
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isTextBuffer(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	return false
}

func (u *unitRun) snapshot() map[string]*Term {
	r := map[string]*Term{}
	u.fields(func(k string, t types.Type, p *PtrV) {
		if isIntType(t) {
			r[k] = u.x.term(u.x.load(p))
		}
	})
	return r
}

// bump makes the counters which children may change arbitrary (but not smaller).
func (u *unitRun) bump(set map[string]bool) {
	u.fields(func(k string, t types.Type, p *PtrV) {
		if !set[k] {
			return
		}
		old := u.x.term(u.x.load(p))
		n := u.x.name("cnt:" + k)
		v := u.x.tt.Var(n, SInt)
		u.counters[n] = k
		u.x.assume(u.x.tt.Le(old, v))
		u.x.store(p, v)
	})
}

func (u *unitRun) allMut() map[string]bool {
	r := map[string]bool{}
	for _, m := range []map[string]bool{u.h.mutExpr, u.h.mutStmt, u.h.mutTop} {
		for k := range m {
			r[k] = true
		}
	}
	return r
}

// setup prepares the real converter and transpiler and the hooks.
func (u *unitRun) setup() {
	x := u.x
	x.safety = true
	for _, n := range []string{"parser", "transpiler", u.convPkg()} {
		p := u.pg.pkgs[n]
		if p == nil {
			unsup("package %s", n)
		}
		x.initPkg(p)
	}
	u.installHooks()
	c := x.call(u.fn(u.convPkg(), "New"), nil, nil)
	p, ok := c.(*PtrV)
	if !ok {
		unsup("bash.New returns %T", c)
	}
	u.convP = p
	u.convT = u.fn(u.convPkg(), "New").Signature.Results().At(0).Type()
	u.conv = &IfaceV{u.convT, p}
	// The transpiler with the converter.
	nf := u.fn("transpiler", "New")
	tt := nf.Signature.Results().At(0).Type()
	tv, ok := x.call(nf, nil, nil).(*StructV)
	if !ok {
		unsup("transpiler.New")
	}
	ci := u.pg.typ("transpiler", "Converter")
	st := tt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if ci != nil && types.Identical(st.Field(i).Type(), ci) {
			tv = setPath(tv, []int{i}, u.conv).(*StructV)
		}
	}
	u.tr = &PtrV{obj: x.newObj(tv, "transpiler")}
	u.mark("START")
}

// begin starts the part which is under verification: the counters are arbitrary.
func (u *unitRun) begin() {
	if u.unit.batch && u.unit.kind == "stmt" {
		// Inside of other constructs.
		for _, m := range []string{"IfStart", "ForStart", "SwitchStart"} {
			a := []Val{}
			if m == "IfStart" {
				a = append(a, u.x.tt.Str("1"))
			}
			u.convCall(m, a...)
		}
	}
	u.bump(u.allMut())
	// Requests of helpers by other parts are arbitrary.
	u.flagVars = map[string]*Term{}
	u.fields(func(k string, t types.Type, p *PtrV) {
		if isBoolType(t) {
			u.flagOld[k] = u.x.load(p)
			u.flagVars[k] = u.x.tt.Var("flag:"+k, SBool)
			u.x.store(p, u.flagVars[k])
		}
	})
	u.entry = u.snapshot()
	u.entryAll = map[string]string{}
	u.fields(func(k string, t types.Type, p *PtrV) {
		if !isIntType(t) && !isTextBuffer(t) && !isBoolType(t) && !u.batchBuffer(t) {
			if s, ok := t.Underlying().(*types.Interface); ok {
				_ = s
				return
			}
			u.entryAll[k] = describe(u.x.load(p))
		}
	})
	u.mark("BEGIN")
}

// function enters a function.
func (u *unitRun) function() {
	u.inFunc = true
	u.convCall("FuncStart", u.target(u.x.tt.Var("fname", SStr)), u.list(), u.list())
}

// end finishes the part and returns the state after the real end of the program.
func (u *unitRun) end() {
	u.mark("FINISH")
	x := u.x
	mut := u.out.mutExpr
	switch u.unit.kind {
	case "stmt":
		mut = u.out.mutStmt
	case "top":
		mut = u.out.mutTop
	}
	exit := u.snapshot()
	for k, v := range exit {
		if v == u.entry[k] || x.valid(x.tt.Eq(v, u.entry[k])) {
			continue
		}
		mut[k] = true
		x.require("counters", x.tt.Le(u.entry[k], v), func() string { return "counter " + k + " decreases" })
	}
	u.fields(func(k string, t types.Type, p *PtrV) {
		if v := u.flagVars[k]; v != nil {
			now := x.term(x.load(p))
			if now == v {
				// Untouched: whether it has been requested does not matter for this part.
				switch {
				case x.pcSet[v.id]:
					x.store(p, x.tt.tru)
				case x.pcSet[x.tt.Not(v).id]:
					x.store(p, x.tt.fls)
				default:
					x.store(p, u.flagOld[k])
				}
				return
			}
			x.require("helper-defined", x.tt.Imp(v, now), func() string { return "the request of a helper is withdrawn: " + k })
			u.out.flags[k] = true
			return
		}
		e, ok := u.entryAll[k]
		if !ok {
			return
		}
		now := describe(x.load(p))
		if e != now {
			x.undecided("balance", "field "+k+" changes from "+e+" to "+now)
		} else {
			x.good("balance")
		}
	})
}

func (x *X) undecided(name, detail string) {
	o := x.p.ob(name)
	o.Count++
	if o.Status == "discharged" {
		o.Status = "undecided"
	}
	if o.Detail == "" {
		o.Detail = detail
	}
}

// text is the text of the script between the marks and the functions of the start code.
func (u *unitRun) text() shList {
	x := u.x
	if u.unit.batch {
		u.batchText()
		panic(pathEnd{"structure"})
	}
	if !u.noEnd {
		u.convCall("ProgramEnd")
	}
	r, ok := u.convCall("Dump").(TupleV)
	if !ok {
		unsup("Dump")
	}
	ss := symsOf(x.term(r[0]), false)
	find := func(m string, from int) (int, int) {
		m = markByte + m + markByte
		for i := from; i+len(m) <= len(ss); i++ {
			ok := true
			for k := 0; k < len(m) && ok; k++ {
				ok = ss[i+k].t == nil && ss[i+k].b == m[k]
			}
			if ok {
				lo, hi := i, i
				for lo > 0 && !(ss[lo-1].t == nil && ss[lo-1].b == '\n') {
					lo--
				}
				for hi < len(ss) && !(ss[hi].t == nil && ss[hi].b == '\n') {
					hi++
				}
				return lo, hi
			}
		}
		unsup("mark %s is missing", m)
		return 0, 0
	}
	s0, s1 := find("START", 0)
	_, b1 := find("BEGIN", s1)
	e0, _ := find("FINISH", b1)
	u.start = map[string]*shFunc{}
	ids := 0
	l, err := parseShell(ss[:s0], &ids)
	if err != nil {
		unsup("start code: %s", err.why)
	}
	for _, n := range l {
		if f, ok := n.(*shFunc); ok {
			st := &shState{x: x, u: u}
			u.start[st.nameTerm(f.name[0].(pLit).text).s] = f
		} else {
			unsup("start code contains commands")
		}
	}
	body, err := parseShell(ss[b1:e0], &ids)
	if err != nil {
		x.undecided("shell-parse", err.why)
		unsup("emitted code: %s", err.why)
	}
	x.good("shell-parse")
	if u.nonEmpty {
		// A block must not be empty.
		n := 0
		for _, c := range body {
			if f, ok := c.(*shFrag); ok && u.frags[f.id] != nil && u.frags[f.id].child.class != "stmt" {
				continue
			}
			n++
		}
		if n == 0 {
			x.bad("nonempty", "no command is emitted")
		} else {
			x.good("nonempty")
		}
	}
	debugf("---- %s\n%s", u.unit.name, symText(ss[b1:e0]))
	return body
}

func (u *unitRun) newState(W *Term) *shState {
	x := u.x
	return &shState{x: x, u: u, W: W, funcs: u.start, status: x.tt.Int(0), ok: x.tt.tru, args: [][]*Term{nil}, ids: 1000}
}

func (u *unitRun) wrote(st *shState, name *Term) {
	x := u.x
	if name.isConst() {
		if !u.inHelper && st.capture == nil && len(st.args) == 1 {
			m := u.out.writtenRegs[name.s]
			if m == nil {
				m = map[string]bool{}
				u.out.writtenRegs[name.s] = m
			}
			m[u.unit.name] = true
		}
		return
	}
	field, idx, fam := st.counterOf(name)
	if field == "" {
		// Neither a variable of the program nor a numbered one.
		x.undecided("frame", "write of "+name.String())
		return
	}
	exit := u.snapshot()
	x.require("frame", x.tt.And(x.tt.Le(u.entry[field], idx), x.tt.Lt(idx, exit[field])), func() string {
		return "temporary variable " + name.String() + " is not reserved by the counter " + field
	})
	u.out.families[fam] = field
}

func (u *unitRun) nameText(p []shPart) {}

// ---- meaning of children

func (u *unitRun) childVal(c *child, k int, W *Term) *Term {
	if k >= len(c.tags) {
		unsup("result %d of child %d", k, c.id)
	}
	if c.class == "read" {
		return u.x.wGet(W, c.v)
	}
	return u.x.typedUF(c.tags[k], fmt.Sprintf("V:%d:%d", c.id, k), W)
}

func (u *unitRun) childEffect(c *child, W *Term) *Term {
	switch c.class {
	case "read":
		return W
	case "nocall":
		return u.x.tt.UF(fmt.Sprintf("EXn:%d", c.id), SAny, W)
	case "call":
		return u.x.tt.UF(fmt.Sprintf("EXc:%d", c.id), SAny, W)
	}
	return u.x.tt.UF(fmt.Sprintf("EXs:%d", c.id), SAny, W)
}

func (u *unitRun) childCtl(c *child, W *Term) string {
	for i, k := range c.ctl {
		if u.x.branch(u.x.tt.Eq(u.x.tt.UF(fmt.Sprintf("ctl:%d", c.id), SInt, W), u.x.tt.Int(int64(i+1)))) {
			return k
		}
	}
	return ""
}

func childOf(v Val) *child {
	if s, ok := v.(*SymIface); ok {
		if c, ok := s.ghost["child"].(*child); ok {
			return c
		}
	}
	return nil
}

// emitChild stands for the evaluation of a child by the transpiler.
func (u *unitRun) emitChild(c *child, used bool, results bool) Val {
	x := u.x
	if u.errFork && x.choose(2) == 1 {
		u.injected = true
		e := x.errVal(x.tt.Var(x.name("message"), SStr))
		if results {
			return TupleV{x.zero(u.resultType()), e}
		}
		return e
	}
	f := &fragInfo{id: len(u.frags) + 1, child: c, entry: u.snapshot(), used: used}
	u.frags[f.id] = f
	u.mark(fmt.Sprintf("FRAG %d", f.id))
	for _, k := range c.ctl {
		u.mark(fmt.Sprintf("CTL %d %s", f.id, k))
		switch k {
		case "break":
			u.convCall("Break")
		case "continue":
			u.convCall("Continue")
		case "return":
			u.convCall("Return", u.list())
		}
		u.mark("END")
	}
	if c.class == "stmt" {
		u.bump(u.h.mutStmt)
		u.bump(u.h.mutExpr)
	} else if c.class != "read" {
		u.bump(u.h.mutExpr)
	}
	f.exit = u.snapshot()
	if !results {
		return &IfaceV{}
	}
	out := []Val{}
	n := len(c.tags)
	for k := 0; k < n; k++ {
		out = append(out, x.tt.Var(fmt.Sprintf("res:%d:%d", f.id, k), SStr))
	}
	t := u.resultType()
	r := x.zero(t).(*StructV)
	st := t.Underlying().(*types.Struct)
	done := false
	for i := 0; i < st.NumFields(); i++ {
		if isTextBuffer(st.Field(i).Type()) {
			r = setPath(r, []int{i}, u.list(out...)).(*StructV)
			done = true
		}
	}
	if !done {
		unsup("result of an expression")
	}
	return TupleV{r, &IfaceV{}}
}

func (u *unitRun) evalExprFn() *ssa.Function {
	t := u.pg.typ("transpiler", "transpiler")
	if t == nil {
		unsup("type transpiler")
	}
	f := u.pg.method(t, "evaluateExpression")
	if f == nil {
		unsup("evaluateExpression")
	}
	return f
}
func (u *unitRun) evalStmtFn() *ssa.Function {
	f := u.pg.method(u.pg.typ("transpiler", "transpiler"), "evaluate")
	if f == nil {
		unsup("evaluate")
	}
	return f
}
func (u *unitRun) resultType() types.Type { return u.evalExprFn().Signature.Results().At(0).Type() }

func (u *unitRun) installHooks() {
	x := u.x
	x.hooks[u.evalExprFn().String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		c := childOf(args[1])
		if c == nil {
			return nil, false
		}
		return u.emitChild(c, x.branch(x.term(args[2])), true), true
	}
	x.hooks[u.evalStmtFn().String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		c := childOf(args[1])
		if c == nil {
			return nil, false
		}
		return u.emitChild(c, false, false), true
	}
	if f := u.isReadFn(); f != nil {
		x.hooks[f.String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
			if c := childOf(args[0]); c != nil {
				return x.tt.Bool(c.class == "read"), true
			}
			return nil, false
		}
	}
	if f := u.hasCallFn(); f != nil {
		x.hooks[f.String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
			l, ok := x.listOf(args[0])
			if !ok {
				return nil, false
			}
			if len(l) == 1 && childOf(l[0]) == nil {
				return nil, false
			}
			r := x.tt.fls
			for _, e := range l {
				if c := childOf(e); c != nil {
					r = x.tt.Or(r, x.tt.Bool(c.class == "call"))
				} else {
					r = x.tt.Or(r, x.term(x.call(fn, []Val{u.list(e)}, nil)))
				}
			}
			return r, true
		}
	}
	x.hooks[u.fn("transpiler", "toTargetName").String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		n := x.term(args[0])
		if n.isConst() {
			return nil, false
		}
		pre := x.term(x.call(fn, []Val{x.tt.Str("")}, nil))
		return x.tt.Cat(pre, x.tt.UF("TT", SStr, n)), true
	}
	x.data["mayBe"] = func(a *SymIface, t types.Type) bool {
		c := childOf(a)
		if c == nil {
			return true
		}
		n, ok := t.(*types.Named)
		if !ok {
			return false
		}
		switch n.Obj().Name() {
		case "Break":
			return c.isBrk
		case "VariableEvaluation":
			return c.class == "read" && u.isReadFn() == nil
		case "FunctionCall":
			return c.class == "call" && u.hasCallFn() == nil
		}
		return false
	}
}

// isReadFn: func(Expression) bool.
func (u *unitRun) isReadFn() *ssa.Function { return u.predFn("isVariableRead", false) }

// hasCallFn: func(...Expression) bool.
func (u *unitRun) hasCallFn() *ssa.Function { return u.predFn("containsFunctionCall", true) }

func (u *unitRun) predFn(name string, variadic bool) *ssa.Function {
	ok := func(f *ssa.Function) bool {
		s := f.Signature
		return s.Recv() == nil && s.Params().Len() == 1 && s.Variadic() == variadic && s.Results().Len() == 1 && isBoolType(s.Results().At(0).Type()) && strings.HasSuffix(s.Params().At(0).Type().String(), "parser.Expression")
	}
	if f := u.pg.fn("transpiler", name); f != nil && ok(f) {
		return f
	}
	var found *ssa.Function
	for _, m := range u.pg.pkgs["transpiler"].Members {
		if f, isF := m.(*ssa.Function); isF && ok(f) {
			if found != nil {
				return nil
			}
			found = f
		}
	}
	return found
}

// evalExpr runs the real code on an expression node and returns the texts of the results.
func (u *unitRun) evalExpr(n *StructV, used bool) []*Term {
	r, ok := u.x.call(u.evalExprFn(), []Val{u.tr, u.iface(n), u.x.tt.Bool(used)}, nil).(TupleV)
	if !ok {
		unsup("result of evaluateExpression")
	}
	u.checkErr(r[1])
	out := []*Term{}
	for _, f := range r[0].(*StructV).f {
		if s, ok := f.(*SliceV); ok {
			for _, e := range u.x.elems(s) {
				out = append(out, u.x.term(e))
			}
		}
	}
	u.batchResults = out
	return out
}

func (u *unitRun) evalStmt(n *StructV) {
	u.checkErr(u.x.call(u.evalStmtFn(), []Val{u.tr, u.iface(n)}, nil))
}

func (u *unitRun) checkErr(e Val) {
	isNil := u.x.isNilIface(e)
	if u.injected {
		if isNil {
			u.x.bad("error-propagation", "an error of a child is ignored")
		} else {
			u.x.good("error-propagation")
		}
		panic(pathEnd{"error"})
	}
	if !isNil {
		d := describe(e)
		if s, ok := e.(*SymIface); ok {
			if g, ok := s.ghost["Error"].(*Term); ok {
				d = g.String()
			}
		}
		u.x.bad("accepts", "the node is rejected: "+d)
		panic(pathEnd{"rejected"})
	}
	u.x.good("accepts")
}

// ref is the reference execution.
type ref struct {
	u                 *unitRun
	W                 *Term
	hasAlloc, hasCall bool
	alloc             []*Term
	callW, callName   *Term
	callArgs          []*Term
	callTypes         []vtag
}

func (r *ref) all(c *child) []*Term {
	out := []*Term{}
	for k := range c.tags {
		out = append(out, r.u.childVal(c, k, r.W))
	}
	r.W = r.u.childEffect(c, r.W)
	return out
}
func (r *ref) ev(c *child) *Term { return r.all(c)[0] }
func (r *ref) evs(cs []*child) []*Term {
	out := []*Term{}
	for _, c := range cs {
		out = append(out, r.ev(c))
	}
	return out
}

func (u *unitRun) ref() *ref { return &ref{u: u, W: u.x.tt.Var("W0", SAny)} }

// run interprets the emitted text.
func (u *unitRun) run() (*shState, outcome) {
	u.end()
	l := u.text()
	st := u.newState(u.x.tt.Var("W0", SAny))
	o := st.run(l)
	return st, o
}

func (u *unitRun) compareWorld(st *shState, W *Term) {
	x := u.x
	x.require("world", x.wEq(st.W, W), func() string {
		return fmt.Sprintf("world after the emitted code: %s\nmeaning: %s", x.wNorm(st.W), x.wNorm(W))
	})
}

func (u *unitRun) compareCtl(got, want outcome) {
	x := u.x
	n := func(o outcome) string {
		if o.kind == "break" || o.kind == "continue" {
			if o.n == 0 {
				o.n = 1
			}
			return fmt.Sprintf("%s %d", o.kind, o.n)
		}
		return o.kind
	}
	if n(got) != n(want) {
		x.bad("control", fmt.Sprintf("the emitted code ends with %q instead of %q", n(got), n(want)))
		return
	}
	x.good("control")
	if got.kind == "exit" {
		x.require("control", x.tt.Eq(got.code, want.code), func() string { return "exit status" })
	}
}

// textValue is the value of a text within double quotes in a state.
func (u *unitRun) textValue(st *shState, text *Term) *Term {
	ids := 0
	return st.expand(u.parseDQ(&shParser{s: symsOf(text, false), ids: &ids}))
}

// finishExpr compares the outcome of an expression with its meaning.
func (u *unitRun) finishExpr(n *StructV, texts []*Term, used bool, r *ref, want []*Term) {
	x := u.x
	st, o := u.run()
	u.compareCtl(o, outcome{})
	if r.hasAlloc {
		want = u.allocated(st, r, texts)
	}
	u.compareWorld(st, r.W)
	if r.hasCall {
		want = u.callResults(st, r, texts)
	}
	if len(texts) != len(want) {
		x.bad("value", fmt.Sprintf("%d results instead of %d", len(texts), len(want)))
		return
	}
	unstable := false
	if f := u.isReadFn(); f != nil {
		unstable = x.branch(x.term(x.call(f, []Val{u.iface(n)}, nil)))
	}
	for i := range texts {
		v := u.textValue(st, texts[i])
		x.require("value", x.tt.Eq(v, want[i]), func() string {
			return fmt.Sprintf("result %d: %s has the value %s instead of %s", i, texts[i], v, want[i])
		})
	}
	// Whatever runs afterwards: registers and later temporary variables change, the world does too.
	later := &fragInfo{id: 9999, child: &child{id: 9999, class: "call"}, entry: u.snapshot(), exit: map[string]*Term{}}
	for k := range later.entry {
		later.exit[k] = x.tt.Add(later.entry[k], x.tt.Int(1000000))
	}
	st.log = append(st.log, logEntry{frag: later, W: st.W})
	before := st.W
	st.W = x.tt.Var("Wlater", SAny)
	for i := range texts {
		v := u.textValue(st, texts[i])
		w := want[i]
		if unstable {
			// The text refers to a variable: its value is the one of that time.
			continue
		}
		x.require("stable", x.tt.Eq(v, w), func() string {
			return fmt.Sprintf("result %d: %s has the value %s later, instead of %s", i, texts[i], v, w)
		})
	}
	_ = before
	// A node which calls a function must be known as such.
	if f := u.hasCallFn(); f != nil {
		calls := len(u.calls) > 0
		for _, c := range u.children {
			if c.class == "call" {
				calls = true
			}
		}
		if calls {
			g := x.term(x.call(f, []Val{u.list(u.iface(n))}, nil))
			x.require("calls-known", g, func() string { return "the call of a function is not found by " + f.Name() })
		}
	}
}

func (u *unitRun) finishStmt(r *ref, want outcome) *shState {
	st, o := u.run()
	u.compareCtl(o, want)
	if r.hasAlloc {
		u.allocated(st, r, nil)
	}
	u.compareWorld(st, r.W)
	return st
}

// allocated: the result is a slice which did not exist before, the world contains its elements.
func (u *unitRun) allocated(st *shState, r *ref, texts []*Term) []*Term {
	x := u.x
	var R *Term
	if len(texts) == 1 {
		R = u.textValue(st, texts[0])
	}
	ops := []*Term{}
	W := st.W
	for i := len(r.alloc) - 1; i >= 0; i-- {
		if W.op != "uf" || W.s != "growset" {
			unsup("slice with elements: %s", st.W)
		}
		ops = append([]*Term{W}, ops...)
		if R == nil {
			R = W.args[1]
		}
		W = W.args[0]
	}
	for i, v := range r.alloc {
		r.W = x.tt.UF("growset", SAny, r.W, R, x.tt.Int(int64(i)), v, ops[i].args[4])
	}
	if R == nil {
		return nil
	}
	// The slice is numbered by a register which only grows.
	ps := pieces(R)
	if len(ps) != 2 || !ps[0].isConst() || ps[1].op != "itoa" {
		unsup("new slice %s", R)
	}
	t := ps[1].args[0]
	reg := ""
	var old *Term
	walk(t, map[int]bool{}, func(y *Term) {
		if y.op == "uf" && y.s == "atoi" {
			a := y.args[0]
			if a.op == "var" && strings.HasPrefix(a.s, "initial:") {
				reg, old = constName(a.s[len("initial:"):]), y
			}
			if a.op == "uf" && strings.HasPrefix(a.s, "left:") && a.args[1].isConst() {
				reg, old = a.args[1].s, y
			}
		}
	})
	if reg == "" {
		x.undecided("fresh", "number of the new slice: "+t.String())
		return one(R)
	}
	u.out.allocRegs[reg] = true
	x.require("fresh", x.tt.Lt(old, t), func() string { return "the number of the new slice is not larger than the one before" })
	now := x.intOf(st.read(x.tt.Str(reg)))
	x.require("fresh", x.tt.Le(t, now), func() string { return "the register " + reg + " is less than the number of the new slice" })
	u.out.families["slices "+ps[0].s] = reg
	return one(R)
}

func constName(s string) string { return strings.Trim(s, "\"") }

// callResults: the results are the registers after the call.
func (u *unitRun) callResults(st *shState, r *ref, texts []*Term) []*Term {
	x := u.x
	if len(texts) != len(r.callTypes) {
		x.bad("value", fmt.Sprintf("%d results instead of %d", len(texts), len(r.callTypes)))
		panic(pathEnd{"results"})
	}
	out := []*Term{}
	for i, t := range texts {
		v := u.textValue(st, t)
		out = append(out, v)
		reg := ""
		if v.op == "uf" && strings.HasPrefix(v.s, "RET:") {
			reg = constName(v.s[len("RET:"):])
		}
		if reg == "" {
			x.bad("value", fmt.Sprintf("result %d is %s", i, v))
			continue
		}
		wa := append([]*Term{r.callW, r.callName}, r.callArgs...)
		x.require("value", x.tt.Eq(v, x.tt.UF(v.s, SStr, wa...)), func() string { return fmt.Sprintf("result %d is the one of another call: %s", i, v) })
		if o := u.h.retRegs[i]; o != "" && o != reg {
			x.undecided("value", fmt.Sprintf("result %d is in different registers: %s, %s", i, o, reg))
		}
		for j, o := range u.h.retRegs {
			x.require("value", x.tt.Bool(j == i || o != reg), func() string { return fmt.Sprintf("results %d and %d are in the same register %s", i, j, reg) })
		}
		u.out.retRegs[i] = reg
	}
	return out
}
