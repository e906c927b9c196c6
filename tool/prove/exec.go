package main

// Symbolic execution of the SSA form. A path is replayed from the start: the trail contains its decisions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	v, n   int
	forced bool
}

type oblig struct {
	Name   string `json:"name"`
	Status string `json:"status"` // discharged, failed, undecided
	Where  string `json:"where,omitempty"`
	Detail string `json:"detail,omitempty"`
	Count  int    `json:"paths"`
	Bound  string `json:"bounded,omitempty"`
}

// prover verifies one unit (function or node kind).
type prover struct {
	pg       *program
	tt       *termTab
	so       *solver
	obl      map[string]*oblig
	order    []string
	paths    int
	unsup    map[string]int
	trusted  map[string]bool
	fnUsed   map[string]bool
	limit    int // paths
	prefix   string
	bound    string
	refuted  map[string]bool // guesses about loops
	mutated  map[string]bool
	news     int
	bounds   int // paths which have been cut off
	limits   map[string]bool
	cutWhy   string
	cover    map[string]bool
	accs     map[string][]int
	deadline time.Time
}

func newProver(pg *program, prefix string) *prover {
	return &prover{pg: pg, tt: newTermTab(), so: newSolver(), obl: map[string]*oblig{}, unsup: map[string]int{}, trusted: map[string]bool{}, fnUsed: map[string]bool{}, limit: 6000, prefix: prefix, refuted: map[string]bool{}, mutated: map[string]bool{}, limits: map[string]bool{}, cover: map[string]bool{}, accs: map[string][]int{}}
}

func (p *prover) ob(name string) *oblig {
	name = p.prefix + name
	o := p.obl[name]
	if o == nil {
		o = &oblig{Name: name, Status: "discharged", Bound: p.bound}
		p.obl[name] = o
		p.order = append(p.order, name)
	}
	return o
}

// X is one path.
type X struct {
	p         *prover
	tt        *termTab
	trail     []decision
	pos       int
	pc        []*Term
	pcSet     map[int]bool
	fresh     map[string]int
	objs      int
	globals   map[*ssa.Global]*Obj
	steps     int
	depth     int
	hooks     map[string]func(x *X, fn *ssa.Function, args []Val) (Val, bool)
	after     map[string]func(x *X)
	symCall   func(x *X, v *SymIface, m *types.Func, args []Val) (Val, bool)
	stack     []*frame
	safety    bool // emit obligations for run-time panics
	data      map[string]any
	onStore   func(o *Obj, path []int)
	cutter    func(fr *frame, b, prev *ssa.BasicBlock)
	loopBound int
	allObjs   []*Obj
	allMaps   []*MapObj
	inited    map[*ssa.Package]bool
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []func()
	visits map[*ssa.BasicBlock]int
}

// explore runs body on all the paths.
func (p *prover) explore(body func(x *X)) {
	trail := []decision{}
	for {
		p.paths++
		x := &X{p: p, tt: p.tt, trail: trail, pcSet: map[int]bool{}, fresh: map[string]int{}, globals: map[*ssa.Global]*Obj{}, hooks: map[string]func(x *X, fn *ssa.Function, args []Val) (Val, bool){}, after: map[string]func(x *X){}, data: map[string]any{}, inited: map[*ssa.Package]bool{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case pathEnd:
					case unsupported:
						w := r.why
						if len(x.stack) > 0 {
							w += " in " + x.stack[len(x.stack)-1].fn.String()
						}
						p.unsup[w]++
					case restart:
						panic(r)
					case runtime.Error:
						// The verifier does not understand the code.
						if os.Getenv("PROVE_PANIC") != "" {
							panic(r)
						}
						p.unsup["internal error: "+r.Error()]++
					default:
						panic(r)
					}
				}
			}()
			body(x)
		}()
		trail = x.trail[:x.pos]
		for len(trail) > 0 && (trail[len(trail)-1].forced || trail[len(trail)-1].v+1 >= trail[len(trail)-1].n) {
			trail = trail[:len(trail)-1]
		}
		if len(trail) == 0 {
			return
		}
		trail = append([]decision{}, trail...)
		trail[len(trail)-1].v++
		if !p.deadline.IsZero() && time.Now().After(p.deadline) {
			p.unsup["time limit"]++
			return
		}
		if p.paths >= p.limit {
			p.unsup[fmt.Sprintf("more than %d paths", p.limit)]++
			return
		}
	}
}

type restart struct{}

func (x *X) choose(n int) int {
	if n == 1 {
		return 0
	}
	if x.pos < len(x.trail) {
		d := x.trail[x.pos]
		x.pos++
		return d.v
	}
	x.trail = append(x.trail, decision{0, n, false})
	x.pos++
	return 0
}

func (x *X) sat(fs ...*Term) string {
	r, _ := x.p.so.check(x.tt, append(append([]*Term{}, x.pc...), fs...), false)
	return r
}

func (x *X) assume(c *Term) {
	if c.isConst() {
		if c.n == 0 {
			panic(pathEnd{"assume false"})
		}
		return
	}
	if x.pcSet[c.id] {
		return
	}
	if c.op == "and" {
		for _, a := range c.args {
			x.assume(a)
		}
		return
	}
	x.pc = append(x.pc, c)
	x.pcSet[c.id] = true
}

// assumeSat ends the path if the assumption contradicts what is known.
func (x *X) assumeSat(c *Term) {
	x.assume(c)
	if x.pos < len(x.trail) {
		return // checked when the trail has been recorded
	}
	if x.sat() == "unsat" {
		panic(pathEnd{"infeasible"})
	}
}

func (x *X) branch(c *Term) bool {
	if c.isConst() {
		return c.n == 1
	}
	if x.pcSet[c.id] {
		return true
	}
	nc := x.tt.Not(c)
	if x.pcSet[nc.id] {
		return false
	}
	if x.pos < len(x.trail) {
		d := x.trail[x.pos]
		x.pos++
		if d.v == 0 {
			x.assume(c)
			return true
		}
		x.assume(nc)
		return false
	}
	t := x.sat(c) != "unsat"
	f := true
	if t {
		f = x.sat(nc) != "unsat"
	}
	d := decision{0, 2, false}
	if !t {
		d = decision{1, 2, true}
	} else if !f {
		d = decision{0, 2, true}
	}
	x.trail = append(x.trail, d)
	x.pos++
	if d.v == 0 {
		x.assume(c)
		return true
	}
	x.assume(nc)
	return false
}

// valid reports whether the condition holds on the path.
func (x *X) valid(c *Term) bool {
	if c.isConst() {
		return c.n == 1
	}
	if x.pcSet[c.id] {
		return true
	}
	return x.sat(x.tt.Not(c)) == "unsat"
}

// require is a proof obligation.
func (x *X) require(name string, c *Term, detail func() string) bool {
	o := x.p.ob(name)
	o.Count++
	if x.valid(c) {
		return true
	}
	r, m := x.p.so.check(x.tt, append(append([]*Term{}, x.pc...), x.tt.Not(c)), true)
	d := ""
	if detail != nil {
		d = detail()
	}
	d = fmt.Sprintf("%s\ncondition: %s\npath: %s\nmodel: %s", d, c, x.path(), m)
	if r == "sat" {
		o.Status = "failed"
	} else if o.Status != "failed" {
		o.Status = "undecided"
	}
	if o.Detail == "" {
		o.Detail = d
	}
	return false
}

func (x *X) path() string {
	s := []string{}
	for _, c := range x.pc {
		s = append(s, c.String())
	}
	return strings.Join(s, " & ")
}

// bad is an obligation which is known to fail on this path (if it is feasible).
func (x *X) bad(name string, detail string) {
	if x.sat() == "unsat" {
		panic(pathEnd{"infeasible"})
	}
	x.require(name, x.tt.fls, func() string { return detail })
}

func (x *X) good(name string) { o := x.p.ob(name); o.Count++ }

func (x *X) name(base string) string {
	x.fresh[base]++
	if n := x.fresh[base]; n > 1 {
		return fmt.Sprintf("%s#%d", base, n)
	}
	return base
}

func (x *X) newObj(v Val, site string) *Obj {
	x.objs++
	o := &Obj{id: x.objs, val: v, site: site}
	x.allObjs = append(x.allObjs, o)
	return o
}

// freshVal is an arbitrary value of a type.
func (x *X) freshVal(t types.Type, name string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := x.name(name)
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.tt.Var(n, SBool)
		case u.Info()&types.IsInteger != 0:
			v := x.tt.Var(n, SInt)
			if u.Info()&types.IsUnsigned != 0 {
				x.assume(x.tt.Le(x.tt.Int(0), v))
			}
			return v
		case u.Info()&types.IsString != 0:
			return x.tt.Var(n, SStr)
		}
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.freshVal(u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Slice:
		return x.freshSeq(u.Elem(), name)
	case *types.Interface:
		return x.freshIface(t, name)
	case *types.Map:
		x.objs++
		m := &MapObj{id: x.objs, kt: u.Key(), vt: u.Elem(), sym: x.name(name)}
		x.allMaps = append(x.allMaps, m)
		return &MapV{m}
	case *types.Pointer:
		if x.choose(2) == 0 {
			return &PtrV{}
		}
		o := x.newObj(nil, "fresh "+name)
		o.lazy = func() Val { return x.freshVal(u.Elem(), name+".*") }
		return &PtrV{obj: o}
	case *types.Signature:
		return unsup("arbitrary function %s", name)
	}
	return unsup("arbitrary value of type %s", t)
}

func (x *X) freshSeq(elem types.Type, name string) *SymSeq {
	n := x.name(name)
	s := &SymSeq{name: n, elem: elem, n: x.tt.Var("len("+n+")", SInt), memo: map[int]Val{}, ghost: map[string]Val{}}
	x.assume(x.tt.Le(x.tt.Int(0), s.n))
	return s
}

func (s *SymSeq) at(x *X, i *Term) Val {
	if v, ok := s.memo[i.id]; ok {
		return v
	}
	var v Val
	if s.get != nil {
		v = s.get(i)
	}
	// Parts of lists which have been appended to.
	if b, ok := s.ghost["base"].(*SymSeq); ok {
		if x.branch(x.tt.Lt(i, b.n)) {
			v = b.at(x, i)
		} else if l, ok := s.ghost["added"].(*SliceV); ok {
			for k, e := range x.elems(l) {
				if x.branch(x.tt.Eq(i, x.tt.AddN(b.n, int64(k)))) {
					v = e
					break
				}
			}
		}
	}
	if f, ok := x.data["newElem"].(func(t types.Type, name string) Val); ok && v == nil {
		v = f(s.elem, s.name+"["+i.String()+"]")
	}
	if v == nil {
		v = x.indexedVal(s.elem, s.name, i)
	}
	s.memo[i.id] = v
	return v
}

// indexedVal is the i-th value of an unknown sequence: a function of the index.
func (x *X) indexedVal(t types.Type, name string, i *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.tt.UF(name, SBool, i)
		case u.Info()&types.IsInteger != 0:
			v := x.tt.UF(name, SInt, i)
			if u.Info()&types.IsUnsigned != 0 {
				x.assume(x.tt.Le(x.tt.Int(0), v))
			}
			return v
		case u.Info()&types.IsString != 0:
			return x.tt.UF(name, SStr, i)
		}
	case *types.Struct:
		s := &StructV{t: t}
		for k := 0; k < u.NumFields(); k++ {
			s.f = append(s.f, x.indexedVal(u.Field(k).Type(), name+"."+u.Field(k).Name(), i))
		}
		return s
	case *types.Slice:
		return x.freshSeq(u.Elem(), name+"["+i.String()+"]")
	case *types.Interface:
		return x.freshIface(t, name+"["+i.String()+"]")
	}
	return unsup("element of type %s", t)
}

func (x *X) freshIface(t types.Type, name string) *SymIface {
	x.objs++
	return &SymIface{id: x.objs, name: x.name(name), t: t, impl: map[string]bool{}, ghost: map[string]Val{}}
}

func (x *X) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.tt.fls
		case u.Info()&types.IsInteger != 0:
			return x.tt.Int(0)
		case u.Info()&types.IsString != 0:
			return x.tt.Str("")
		case u.Kind() == types.UntypedNil:
			return &IfaceV{}
		}
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		return &SliceV{}
	case *types.Interface:
		return &IfaceV{}
	case *types.Map:
		return &MapV{&MapObj{isNil: true, kt: u.Key(), vt: u.Elem()}}
	case *types.Pointer:
		return &PtrV{}
	case *types.Signature:
		return &FuncV{isNil: true}
	case *types.Array:
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, x.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(u.At(i).Type()))
		}
		return tv
	}
	return unsup("zero value of %s", t)
}

// load and store follow a path into an object.
func (x *X) load(p *PtrV) Val {
	p.obj.force()
	v := p.obj.val
	for _, i := range p.path {
		switch a := v.(type) {
		case *StructV:
			v = a.f[i]
		case *ArrV:
			v = a.e[i]
		default:
			return unsup("load through %T", v)
		}
	}
	return v
}

func setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	switch a := v.(type) {
	case *StructV:
		c := &StructV{a.t, append([]Val{}, a.f...)}
		c.f[path[0]] = setPath(a.f[path[0]], path[1:], n)
		return c
	case *ArrV:
		c := &ArrV{append([]Val{}, a.e...)}
		c.e[path[0]] = setPath(a.e[path[0]], path[1:], n)
		return c
	}
	return unsup("store through %T", v)
}

func (x *X) store(p *PtrV, v Val) {
	if x.onStore != nil {
		x.onStore(p.obj, p.path)
	}
	p.obj.force()
	p.obj.val = setPath(p.obj.val, p.path, v)
}

func (x *X) global(g *ssa.Global) *Obj {
	if o := x.globals[g]; o != nil {
		return o
	}
	et := g.Type().(*types.Pointer).Elem()
	var o *Obj
	if g.Pkg != nil && x.p.pg.own[g.Pkg] {
		o = x.newObj(x.zero(et), "global "+g.Name())
	} else {
		o = x.newObj(x.freshVal(et, g.String()), "global "+g.Name())
	}
	x.globals[g] = o
	return o
}

// initPkg runs the initialisation of a package of the repository.
func (x *X) initPkg(pk *ssa.Package) {
	if x.inited[pk] {
		return
	}
	x.inited[pk] = true
	if f := pk.Func("init"); f != nil {
		x.call(f, nil, nil)
	}
}

func (x *X) value(fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Global:
		return &PtrV{obj: x.global(v)}
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &FuncV{name: "builtin " + v.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (x *X) constant(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.tt.Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			n, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				return unsup("constant %s", c)
			}
			return x.tt.Int(n)
		case u.Info()&types.IsString != 0:
			return x.tt.Str(constant.StringVal(c.Value))
		}
	case *types.Interface:
		return unsup("interface constant %s", c)
	}
	return unsup("constant %s", c)
}

func (x *X) where() string {
	if len(x.stack) == 0 {
		return "?"
	}
	return x.stack[len(x.stack)-1].fn.String()
}

// safe is a run-time safety condition: an obligation if wanted, then assumed.
func (x *X) safe(what string, c *Term, in ssa.Instruction) {
	if c == x.tt.tru {
		if x.safety {
			x.good("safe." + what + "@" + x.fnLabel())
		}
		return
	}
	if x.safety {
		x.require("safe."+what+"@"+x.fnLabel(), c, func() string {
			return "at " + x.p.pg.pos(in)
		})
	} else if !x.valid(c) {
		// Not the concern of this unit (it is one of the safety units): the panic ends the path.
	}
	x.assumeSat(c)
}

func (x *X) fnLabel() string {
	if len(x.stack) == 0 {
		return "?"
	}
	return shortFn(x.stack[len(x.stack)-1].fn)
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/monstermichl/typeshell/", "")
	return s
}

// call executes a function.
func (x *X) call(fn *ssa.Function, args []Val, bind []Val) Val {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if h := x.hooks[name]; h != nil {
		if v, ok := h(x, fn, args); ok {
			return v
		}
	}
	if f := intrinsics[name]; f != nil {
		x.p.trusted[name] = true
		return f(x, fn, args)
	}
	own := fn.Pkg != nil && x.p.pg.own[fn.Pkg] || fn.Pkg == nil && fn.Synthetic != "" || fn.Parent() != nil
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && !x.p.pg.own[fn.Pkg] {
		return TupleV{}
	}
	if fn.Name() == "init" && fn.Pkg != nil && x.p.pg.own[fn.Pkg] && len(x.stack) > 0 && x.inited[fn.Pkg] && x.stack[len(x.stack)-1].fn.Name() == "init" {
		return TupleV{}
	}
	if !own || len(fn.Blocks) == 0 {
		return unsup("call of %s", name)
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		x.inited[fn.Pkg] = true
	}
	if x.depth > 60 {
		return unsup("recursion of %s", name)
	}
	x.p.fnUsed[shortFn(fn)] = true
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	x.stack = append(x.stack, fr)
	x.depth++
	r := x.body(fr)
	x.depth--
	x.stack = x.stack[:len(x.stack)-1]
	if f := x.after[name]; f != nil {
		f(x)
	}
	return r
}

func (x *X) body(fr *frame) Val {
	b := fr.fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		fr.visits[b]++
		if b = x.atBlock(fr, b, &prev); b == nil {
			return unsup("no block")
		}
		// The phis are evaluated simultaneously.
		phis := map[*ssa.Phi]Val{}
		k := 0
		for ; k < len(b.Instrs); k++ {
			p, ok := b.Instrs[k].(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range b.Preds {
				if e == prev {
					phis[p] = x.value(fr, p.Edges[i])
				}
			}
		}
		for p, v := range phis {
			fr.env[p] = v
		}
		x.afterPhis(fr, b, prev)
		var next *ssa.BasicBlock
		for ; k < len(b.Instrs); k++ {
			x.steps++
			if x.steps > 400000 {
				return unsup("too many steps")
			}
			switch in := b.Instrs[k].(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				if x.branch(x.term(x.value(fr, in.Cond))) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				if len(in.Results) == 1 {
					return x.value(fr, in.Results[0])
				}
				r := TupleV{}
				for _, v := range in.Results {
					r = append(r, x.value(fr, v))
				}
				return r
			case *ssa.Panic:
				if x.safety && x.data["panics"] == nil {
					x.bad("safe.panic@"+x.fnLabel(), "panic at "+x.p.pg.pos(in))
				}
				panic(pathEnd{"panic"})
			default:
				x.instr(fr, in)
			}
		}
		prev, b = b, next
	}
}

func (x *X) term(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("%T is no term", v)
	}
	return t
}

// split makes a choice for ite-valued terms used as control data.
func (x *X) concreteInt(t *Term) (int, bool) {
	if t.isConst() {
		return int(t.n), true
	}
	return 0, false
}

func (x *X) instr(fr *frame, in ssa.Instruction) {
	set := func(v Val) { fr.env[in.(ssa.Value)] = v }
	val := func(v ssa.Value) Val { return x.value(fr, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(&PtrV{obj: x.newObj(x.zero(in.Type().(*types.Pointer).Elem()), x.p.pg.site(in))})
	case *ssa.BinOp:
		set(x.binop(in.Op, val(in.X), val(in.Y), in.X.Type(), in))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p, ok := val(in.X).(*PtrV)
			if !ok {
				unsup("load of %T", val(in.X))
			}
			if p.obj == nil {
				x.nilDeref(in)
			}
			set(x.load(p))
		case token.NOT:
			set(x.tt.Not(x.term(val(in.X))))
		case token.SUB:
			set(x.tt.Sub(x.tt.Int(0), x.term(val(in.X))))
		default:
			unsup("operator %s", in.Op)
		}
	case *ssa.Call:
		set(x.doCall(fr, in.Common(), in))
	case *ssa.Defer:
		c := in.Common()
		fn, args := x.resolve(fr, c, in)
		fr.defers = append(fr.defers, func() { x.apply(fn, args, in) })
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			fr.defers[i]()
		}
		fr.defers = nil
	case *ssa.ChangeInterface:
		set(val(in.X))
	case *ssa.ChangeType:
		v := val(in.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{in.Type(), s.f}
		}
		set(v)
	case *ssa.Convert:
		set(x.convert(val(in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		tv, ok := val(in.Tuple).(TupleV)
		if !ok {
			unsup("extract from %T", val(in.Tuple))
		}
		set(tv[in.Index])
	case *ssa.Field:
		s, ok := val(in.X).(*StructV)
		if !ok {
			unsup("field of %T", val(in.X))
		}
		set(s.f[in.Field])
	case *ssa.FieldAddr:
		p := val(in.X).(*PtrV)
		if p.obj == nil {
			x.nilDeref(in)
		}
		set(&PtrV{p.obj, append(append([]int{}, p.path...), in.Field)})
	case *ssa.Index:
		i := x.term(val(in.Index))
		switch a := val(in.X).(type) {
		case *ArrV:
			k, ok := x.concreteInt(i)
			if !ok {
				unsup("symbolic array index")
			}
			set(a.e[k])
		case *Term:
			set(x.strIndex(a, i, in))
		default:
			unsup("index of %T", a)
		}
	case *ssa.IndexAddr:
		i := x.term(val(in.Index))
		switch a := val(in.X).(type) {
		case *SliceV:
			x.safe("index", x.tt.And(x.tt.Le(x.tt.Int(0), i), x.tt.Lt(i, x.tt.Int(int64(a.len)))), in)
			k := x.pick(i, 0, a.len)
			set(&PtrV{a.arr, []int{a.off + k}})
		case *SymSeq:
			x.safe("index", x.tt.And(x.tt.Le(x.tt.Int(0), i), x.tt.Lt(i, a.n)), in)
			// A read-only view of the element.
			set(&PtrV{obj: &Obj{id: -1, site: "element of " + a.name, val: a.at(x, i)}})
		case *PtrV:
			arr := x.load(a).(*ArrV)
			x.safe("index", x.tt.And(x.tt.Le(x.tt.Int(0), i), x.tt.Lt(i, x.tt.Int(int64(len(arr.e))))), in)
			k := x.pick(i, 0, len(arr.e))
			set(&PtrV{a.obj, append(append([]int{}, a.path...), k)})
		default:
			unsup("index address of %T", a)
		}
	case *ssa.Lookup:
		switch m := val(in.X).(type) {
		case *Term:
			set(x.strIndex(m, x.term(val(in.Index)), in))
		case *MapV:
			v, ok := x.mapGet(m.m, val(in.Index))
			if in.CommaOk {
				set(TupleV{v, ok})
			} else {
				set(v)
			}
		default:
			unsup("lookup in %T", m)
		}
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, val(b))
		}
		set(f)
	case *ssa.MakeInterface:
		set(&IfaceV{in.X.Type(), val(in.X)})
	case *ssa.MakeMap:
		t := in.Type().Underlying().(*types.Map)
		x.objs++
		m := &MapObj{id: x.objs, kt: t.Key(), vt: t.Elem()}
		x.allMaps = append(x.allMaps, m)
		set(&MapV{m})
	case *ssa.MakeSlice:
		n, ok := x.concreteInt(x.term(val(in.Len)))
		if !ok {
			// Only the length is known.
			s := x.freshSeq(in.Type().Underlying().(*types.Slice).Elem(), "make")
			x.assume(x.tt.Eq(s.n, x.term(val(in.Len))))
			set(s)
			return
		}
		a := &ArrV{}
		for i := 0; i < n; i++ {
			a.e = append(a.e, x.zero(in.Type().Underlying().(*types.Slice).Elem()))
		}
		set(&SliceV{x.newObj(a, x.p.pg.site(in)), 0, n, n})
	case *ssa.MapUpdate:
		m := val(in.Map).(*MapV)
		if m.m.isNil {
			if x.safety {
				x.bad("safe.nilmap@"+x.fnLabel(), "at "+x.p.pg.pos(in))
			}
			panic(pathEnd{"nil map"})
		}
		x.mapSet(m.m, val(in.Key), val(in.Value))
	case *ssa.Range:
		switch m := val(in.X).(type) {
		case *MapV:
			if m.m.sym != "" {
				unsup("iteration over an unknown map")
			}
			it := &IterV{m: m.m}
			for _, e := range m.m.ents {
				if !e.dead {
					it.keys = append(it.keys, e)
				}
			}
			// The order is arbitrary.
			for i := range it.keys {
				j := i + x.choose(len(it.keys)-i)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
			set(it)
		case *Term:
			if !m.isConst() {
				if x.data["strRange"] == nil {
					unsup("iteration over an unknown string")
				}
				set(&IterV{isS: true, sym: m})
				return
			}
			it := &IterV{isS: true}
			for o, c := range m.s {
				it.str = append(it.str, c)
				it.offs = append(it.offs, o)
			}
			set(it)
		default:
			unsup("range over %T", m)
		}
	case *ssa.Next:
		it := val(in.Iter).(*IterV)
		t := in.Type().(*types.Tuple)
		if it.sym != nil {
			if c, ok := x.data["strRange"].(func(t *Term) (*Term, bool))(it.sym); ok {
				set(TupleV{x.tt.tru, x.tt.Var(x.name("offset"), SInt), c})
			} else {
				set(TupleV{x.tt.fls, x.tt.Int(0), x.tt.Int(0)})
			}
			return
		}
		if it.isS {
			if it.i < len(it.str) {
				it.i++
				set(TupleV{x.tt.tru, x.tt.Int(int64(it.offs[it.i-1])), x.tt.Int(int64(it.str[it.i-1]))})
			} else {
				set(TupleV{x.tt.fls, x.tt.Int(0), x.tt.Int(0)})
			}
			return
		}
		for it.i < len(it.keys) && it.keys[it.i].dead {
			it.i++
		}
		if it.i < len(it.keys) {
			e := it.keys[it.i]
			it.i++
			set(TupleV{x.tt.tru, e.k, e.v})
		} else {
			z := func(i int) Val {
				if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					return x.tt.Int(0)
				}
				return x.zero(t.At(i).Type())
			}
			set(TupleV{x.tt.fls, z(1), z(2)})
		}
	case *ssa.Slice:
		set(x.slice(fr, in))
	case *ssa.Store:
		p := val(in.Addr).(*PtrV)
		if p.obj == nil {
			x.nilDeref(in)
		}
		if p.obj.id == -1 {
			unsup("store to %s", p.obj.site)
		}
		x.store(p, val(in.Val))
	case *ssa.TypeAssert:
		set(x.typeAssert(val(in.X), in.AssertedType, in.CommaOk, in))
	default:
		unsup("instruction %T", in)
	}
}

func (x *X) nilDeref(in ssa.Instruction) {
	if x.safety && x.data["panics"] == nil {
		x.bad("safe.nil@"+x.fnLabel(), "nil dereference at "+x.p.pg.pos(in))
	}
	panic(pathEnd{"nil dereference"})
}

// pick decides which of the values lo..hi-1 a term has.
func (x *X) pick(i *Term, lo, hi int) int {
	if i.isConst() {
		return int(i.n)
	}
	for k := lo; k < hi-1; k++ {
		if x.branch(x.tt.Eq(i, x.tt.Int(int64(k)))) {
			return k
		}
	}
	x.assume(x.tt.Eq(i, x.tt.Int(int64(hi-1))))
	return hi - 1
}

func (x *X) strIndex(s, i *Term, in ssa.Instruction) Val {
	x.safe("strindex", x.tt.And(x.tt.Le(x.tt.Int(0), i), x.tt.Lt(i, x.tt.Len(s))), in)
	if s.isConst() && i.isConst() {
		return x.tt.Int(int64(s.s[i.n]))
	}
	if b, lo, _, ok := x.tt.text(s); ok {
		return x.byteAt(b, x.tt.Add(lo, i))
	}
	r := x.tt.UF("byteat", SInt, s, i)
	x.assume(x.tt.And(x.tt.Le(x.tt.Int(0), r), x.tt.Le(r, x.tt.Int(255))))
	return r
}

func (x *X) eqVal(a, b Val) *Term {
	switch a := a.(type) {
	case *Term:
		return x.tt.Eq(a, b.(*Term))
	case *StructV:
		r := x.tt.tru
		for i := range a.f {
			r = x.tt.And(r, x.eqVal(a.f[i], b.(*StructV).f[i]))
		}
		return r
	case *PtrV:
		q := b.(*PtrV)
		return x.tt.Bool(a.obj == q.obj && fmt.Sprint(a.path) == fmt.Sprint(q.path))
	case *IfaceV:
		switch q := b.(type) {
		case *IfaceV:
			if a.t == nil || q.t == nil {
				return x.tt.Bool(a.t == nil && q.t == nil)
			}
			if !types.Identical(a.t, q.t) {
				return x.tt.fls
			}
			return x.eqVal(a.v, q.v)
		case *SymIface:
			if a.t == nil {
				return x.tt.fls
			}
		}
	case *SymIface:
		if q, ok := b.(*IfaceV); ok && q.t == nil {
			return x.tt.fls
		}
		if q, ok := b.(*SymIface); ok && q == a {
			return x.tt.tru
		}
	case *SliceV: // only comparable with nil
		if q, ok := b.(*SliceV); ok && (q.arr == nil || a.arr == nil) {
			return x.tt.Bool(q.arr == nil && a.arr == nil)
		}
	case *FuncV:
		if q, ok := b.(*FuncV); ok && (q.isNil || a.isNil) {
			return x.tt.Bool(q.isNil && a.isNil)
		}
	case *MapV:
		if q, ok := b.(*MapV); ok && (q.m.isNil || a.m.isNil) {
			return x.tt.Bool(q.m.isNil && a.m.isNil)
		}
	case *SymSeq:
		if q, ok := b.(*SliceV); ok && q.arr == nil {
			g, ok := a.ghost["nil"].(*Term)
			if !ok {
				g = x.tt.Var("nil("+a.name+")", SBool)
				a.ghost["nil"] = g
				x.assume(x.tt.Imp(g, x.tt.Eq(a.n, x.tt.Int(0))))
			}
			return g
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *X) binop(op token.Token, a, b Val, t types.Type, in ssa.Instruction) Val {
	switch op {
	case token.EQL:
		return x.eqVal(a, b)
	case token.NEQ:
		return x.tt.Not(x.eqVal(a, b))
	}
	l, r := x.term(a), x.term(b)
	bt, _ := t.Underlying().(*types.Basic)
	if bt == nil {
		return unsup("operator %s on %s", op, t)
	}
	if bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return x.tt.Cat(l, r)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if l.isConst() && r.isConst() {
				switch op {
				case token.LSS:
					return x.tt.Bool(l.s < r.s)
				case token.GTR:
					return x.tt.Bool(l.s > r.s)
				case token.LEQ:
					return x.tt.Bool(l.s <= r.s)
				}
				return x.tt.Bool(l.s >= r.s)
			}
			if c := x.compareText(op, l, r); c != nil {
				return c
			}
		}
		return unsup("operator %s on strings", op)
	}
	if bt.Info()&types.IsInteger == 0 {
		return unsup("operator %s on %s", op, t)
	}
	unsigned := bt.Info()&types.IsUnsigned != 0
	switch op {
	case token.ADD:
		return x.tt.Add(l, r)
	case token.SUB:
		d := x.tt.Sub(l, r)
		if unsigned {
			x.safe("unsigned", x.tt.Le(x.tt.Int(0), d), in)
		}
		return d
	case token.MUL:
		return x.tt.Mul(l, r)
	case token.LSS:
		return x.tt.Lt(l, r)
	case token.GTR:
		return x.tt.Lt(r, l)
	case token.LEQ:
		return x.tt.Le(l, r)
	case token.GEQ:
		return x.tt.Le(r, l)
	case token.QUO, token.REM:
		x.safe("div", x.tt.Not(x.tt.Eq(r, x.tt.Int(0))), in)
		if l.isConst() && r.isConst() {
			if op == token.QUO {
				return x.tt.Int(l.n / r.n)
			}
			return x.tt.Int(l.n % r.n)
		}
		if op == token.QUO {
			return x.tt.UF("quo", SInt, l, r)
		}
		m := x.tt.UF("rem", SInt, l, r)
		if r.isConst() && r.n > 0 && x.valid(x.tt.Le(x.tt.Int(0), l)) {
			x.assume(x.tt.And(x.tt.Le(x.tt.Int(0), m), x.tt.Lt(m, r)))
		}
		return m
	}
	return unsup("operator %s on integers", op)
}

func (x *X) convert(v Val, from, to types.Type) Val {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		fi, ti := f.Info(), t.Info()
		switch {
		case fi&types.IsString != 0 && ti&types.IsString != 0, fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if ti&types.IsUnsigned != 0 && fi&types.IsUnsigned == 0 {
				if tm, ok := v.(*Term); ok && tm.isConst() && tm.n < 0 {
					return unsup("conversion of a negative number")
				}
			}
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			if tm := x.term(v); tm.isConst() {
				return x.tt.Str(string(rune(tm.n)))
			}
			return x.tt.UF("runestr", SStr, x.term(v))
		}
	}
	if ok1 && f.Info()&types.IsString != 0 {
		if s, ok := to.Underlying().(*types.Slice); ok {
			if tm := x.term(v); tm.isConst() {
				a := &ArrV{}
				if b := s.Elem().Underlying().(*types.Basic); b.Kind() == types.Byte {
					for i := 0; i < len(tm.s); i++ {
						a.e = append(a.e, x.tt.Int(int64(tm.s[i])))
					}
				} else {
					for _, c := range tm.s {
						a.e = append(a.e, x.tt.Int(int64(c)))
					}
				}
				return &SliceV{x.newObj(a, "convert"), 0, len(a.e), len(a.e)}
			}
			k := fmt.Sprint("bytes ", x.term(v).id, " ", s.Elem().Underlying().(*types.Basic).Kind())
			if q, ok := x.data[k].(*SymSeq); ok {
				return q
			}
			q := x.freshSeq(s.Elem(), "bytes("+x.term(v).String()+")")
			x.data[k] = q
			x.assume(x.tt.Le(q.n, x.tt.Len(x.term(v))))
			x.assume(x.tt.Imp(x.tt.Lt(x.tt.Int(0), x.tt.Len(x.term(v))), x.tt.Lt(x.tt.Int(0), q.n)))
			q.ghost["string"] = v
			return q
		}
	}
	if ok2 && t.Info()&types.IsString != 0 {
		switch s := v.(type) {
		case *SymSeq:
			if g, ok := s.ghost["string"]; ok {
				return g
			}
			return x.tt.Var(x.name("string("+s.name+")"), SStr)
		case *SliceV:
			out := ""
			for i := 0; i < s.len; i++ {
				e := x.term(s.arr.val.(*ArrV).e[s.off+i])
				if !e.isConst() {
					if s.len == 1 && from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic).Kind() == types.Byte {
						return x.byteStr(e)
					}
					return x.tt.Var(x.name("string(bytes)"), SStr)
				}
				if from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic).Kind() == types.Byte {
					out += string([]byte{byte(e.n)})
				} else {
					out += string(rune(e.n))
				}
			}
			return x.tt.Str(out)
		}
	}
	return unsup("conversion from %s to %s", from, to)
}

func (x *X) elems(v Val) []Val {
	s, ok := v.(*SliceV)
	if !ok {
		unsup("elements of %T", v)
	}
	if s.arr == nil {
		return nil
	}
	return s.arr.val.(*ArrV).e[s.off : s.off+s.len]
}

func (x *X) mkSlice(es []Val, site string) *SliceV {
	return &SliceV{x.newObj(&ArrV{append([]Val{}, es...)}, site), 0, len(es), len(es)}
}

func (x *X) slice(fr *frame, in *ssa.Slice) Val {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(x.value(fr, v))
	}
	v := x.value(fr, in.X)
	switch a := v.(type) {
	case *Term:
		n := x.tt.Len(a)
		lo, hi := get(in.Low, x.tt.Int(0)), get(in.High, n)
		x.safe("slice", x.tt.And(x.tt.Le(x.tt.Int(0), lo), x.tt.Le(lo, hi), x.tt.Le(hi, n)), in)
		return x.substr(a, lo, hi)
	case *PtrV:
		arr := x.load(a).(*ArrV)
		if len(a.path) != 0 {
			return unsup("slice of a part of an object")
		}
		lo, ok1 := x.concreteInt(get(in.Low, x.tt.Int(0)))
		hi, ok2 := x.concreteInt(get(in.High, x.tt.Int(int64(len(arr.e)))))
		if !ok1 || !ok2 {
			return unsup("symbolic slice bounds")
		}
		return &SliceV{a.obj, lo, hi - lo, len(arr.e) - lo}
	case *SliceV:
		lo, hi := get(in.Low, x.tt.Int(0)), get(in.High, x.tt.Int(int64(a.len)))
		x.safe("slice", x.tt.And(x.tt.Le(x.tt.Int(0), lo), x.tt.Le(lo, hi), x.tt.Le(hi, x.tt.Int(int64(a.cap)))), in)
		l := x.pick(lo, 0, a.cap+1)
		h := x.pick(hi, l, a.cap+1)
		if a.arr == nil {
			return a
		}
		return &SliceV{a.arr, a.off + l, h - l, a.cap - l}
	case *SymSeq:
		lo, hi := get(in.Low, x.tt.Int(0)), get(in.High, a.n)
		x.safe("slice", x.tt.And(x.tt.Le(x.tt.Int(0), lo), x.tt.Le(lo, hi), x.tt.Le(hi, a.n)), in)
		s := x.freshSeq(a.elem, a.name+"[:]")
		x.assume(x.tt.Eq(s.n, x.tt.Sub(hi, lo)))
		s.ghost["of"] = a
		s.ghost["lo"] = lo
		return s
	}
	return unsup("slice of %T", v)
}

func (x *X) substr(a, lo, hi *Term) Val {
	if a.isConst() && lo.isConst() && hi.isConst() {
		return x.tt.Str(a.s[lo.n:hi.n])
	}
	if lo.isConst() && lo.n == 0 && hi == x.tt.Len(a) {
		return a
	}
	if lo == hi {
		return x.tt.Str("")
	}
	if lo.isConst() && hi == x.tt.Len(a) { // without a constant prefix
		if p := pieces(a); p[0].isConst() && int64(len(p[0].s)) >= lo.n {
			return x.tt.Cat(append([]*Term{x.tt.Str(p[0].s[lo.n:])}, p[1:]...)...)
		}
	}
	if lo.isConst() && lo.n == 0 { // without the last pieces
		p := pieces(a)
		for i := len(p) - 1; i > 0; i-- {
			if hi == x.tt.Len(x.tt.Cat(p[:i]...)) {
				return x.tt.Cat(p[:i]...)
			}
		}
	}
	if s, l, _, ok := x.tt.text(a); ok {
		return x.tt.sub(s, x.tt.Add(l, lo), x.tt.Add(l, hi))
	}
	r := x.tt.UF("substr", SStr, a, lo, hi)
	x.assume(x.tt.Eq(x.tt.Len(r), x.tt.Sub(hi, lo)))
	return r
}

func (x *X) mapGet(m *MapObj, k Val) (Val, Val) {
	for i := len(m.ents) - 1; i >= 0; i-- {
		e := m.ents[i]
		if x.branch(x.eqVal(e.k, k)) {
			if e.dead {
				return x.zero(m.vt), x.tt.fls
			}
			return e.v, x.tt.tru
		}
	}
	if m.sym == "" {
		return x.zero(m.vt), x.tt.fls
	}
	for _, e := range m.known {
		if x.branch(x.eqVal(e.k, k)) {
			if e.v == nil {
				return x.zero(m.vt), x.tt.fls
			}
			return e.v, x.tt.tru
		}
	}
	e := &mapEntry{k: k}
	m.known = append(m.known, e)
	if x.choose(2) == 0 {
		return x.zero(m.vt), x.tt.fls
	}
	e.v = x.freshVal(m.vt, m.sym+"["+describe(k)+"]")
	return e.v, x.tt.tru
}

func (x *X) mapSet(m *MapObj, k, v Val) {
	if f, ok := x.data["onMapSet"].(func(m *MapObj, k, v Val)); ok {
		f(m, k, v)
	}
	m.ents = append(m.ents, &mapEntry{k: k, v: v})
	// Earlier entries of the same key are hidden as the last one is found first; concrete duplicates are removed.
	for i := 0; i < len(m.ents)-1; i++ {
		if x.eqVal(m.ents[i].k, k) == x.tt.tru {
			e := m.ents[len(m.ents)-1]
			m.ents[i] = e
			m.ents = m.ents[:len(m.ents)-1]
			break
		}
	}
}

func (x *X) typeAssert(v Val, t types.Type, commaOk bool, in ssa.Instruction) Val {
	_, toIface := t.Underlying().(*types.Interface)
	result := func(ok bool, r Val) Val {
		if commaOk {
			if !ok {
				r = x.zero(t)
			}
			return TupleV{r, x.tt.Bool(ok)}
		}
		if !ok {
			if x.safety {
				x.bad("safe.typeassert@"+x.fnLabel(), "at "+x.p.pg.pos(in))
			}
			panic(pathEnd{"type assertion"})
		}
		if x.safety {
			x.good("safe.typeassert@" + x.fnLabel())
		}
		return r
	}
	switch a := v.(type) {
	case *IfaceV:
		if a.t == nil {
			return result(false, nil)
		}
		if toIface {
			return result(types.Implements(a.t, t.Underlying().(*types.Interface)), a)
		}
		return result(types.Identical(a.t, t), a.v)
	case *SymIface:
		if a.dyn != nil {
			if toIface {
				return result(types.Implements(a.dyn, t.Underlying().(*types.Interface)), a)
			}
			return result(types.Identical(a.dyn, t), a.dynV)
		}
		if toIface {
			it := t.Underlying().(*types.Interface)
			if types.Implements(a.t, it) {
				return result(true, a)
			}
			k := t.String()
			is, ok := a.impl[k]
			if !ok && a.t != nil {
				if c := x.p.pg.implementors(a.t, it); len(c) > 0 && len(c) <= 3 {
					is = false
					for _, d := range c {
						if x.resolveDyn(a, d) {
							is = true
							break
						}
					}
					a.impl[k] = is
					ok = true
				}
			}
			if !ok {
				is = x.branch(x.tt.Var(fmt.Sprintf("%s is %s", a.name, shortType(t)), SBool))
				a.impl[k] = is
			}
			return result(is, a)
		}
		return result(x.resolveDyn(a, t), a.dynV)
	}
	return unsup("type assertion on %T", v)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// resolveDyn decides whether the dynamic type of an unknown value is t.
func (x *X) resolveDyn(a *SymIface, t types.Type) bool {
	if a.dyn != nil {
		return types.Identical(a.dyn, t)
	}
	for _, n := range a.not {
		if types.Identical(n, t) {
			return false
		}
	}
	for k, is := range a.impl {
		it := x.p.pg.ifaces[k]
		if it != nil && types.Implements(t, it) != is {
			return false
		}
	}
	if r, ok := x.data["mayBe"].(func(a *SymIface, t types.Type) bool); ok && !r(a, t) {
		return false
	}
	c := x.tt.Var(fmt.Sprintf("%s is %s", a.name, shortType(t)), SBool)
	if st, ok := a.ghost["StatementType"].(*Term); ok {
		// Statement types and dynamic types correspond to each other (obligation of the unit "types").
		if k := x.p.pg.stmtType(x, t); k != nil {
			c = x.tt.Eq(st, k)
		}
	}
	if !x.branch(c) {
		a.not = append(a.not, t)
		return false
	}
	a.dyn = t
	a.dynV = x.freshVal(t, a.name)
	// What is known about the value holds for the method of the type.
	for m, v := range a.ghost {
		if f := x.p.pg.method(t, m); f != nil && len(f.Params) == 1 {
			if _, isTerm := v.(*Term); isTerm || isStruct(v) {
				r := x.call(f, []Val{a.dynV}, nil)
				x.assumeSat(x.eqVal(v, r))
			}
		}
	}
	if f, ok := x.data["onResolve"].(func(a *SymIface)); ok {
		f(a)
	}
	return true
}

func isStruct(v Val) bool { _, ok := v.(*StructV); return ok }

// resolve determines the callee and its arguments.
func (x *X) resolve(fr *frame, c *ssa.CallCommon, in ssa.Instruction) (Val, []Val) {
	args := []Val{}
	if c.IsInvoke() {
		recv := x.value(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.value(fr, a))
		}
		switch r := recv.(type) {
		case *IfaceV:
			if r.t == nil {
				x.nilDeref(in)
			}
			f := x.p.pg.method(r.t, c.Method.Name())
			if f == nil {
				unsup("method %s of %s", c.Method.Name(), r.t)
			}
			return &FuncV{fn: f}, append([]Val{r.v}, args...)
		case *SymIface:
			if r.dyn != nil {
				return &FuncV{fn: x.p.pg.method(r.dyn, c.Method.Name())}, append([]Val{r.dynV}, args...)
			}
			m := c.Method
			return &FuncV{native: func(x *X, args []Val) Val {
				if x.symCall != nil {
					if v, ok := x.symCall(x, r, m, args); ok {
						return v
					}
				}
				return x.defaultSymCall(r, m, args)
			}}, args
		}
		unsup("method call on %T", recv)
	}
	for _, a := range c.Args {
		args = append(args, x.value(fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return &FuncV{native: func(x *X, args []Val) Val { return x.builtin(b.Name(), args, c, in) }}, args
	}
	return x.value(fr, c.Value), args
}

func (x *X) defaultSymCall(r *SymIface, m *types.Func, args []Val) Val {
	sig := m.Type().(*types.Signature)
	if len(args) == 0 && sig.Results().Len() == 1 {
		if v, ok := r.ghost[m.Name()]; ok {
			return v
		}
		v := x.freshVal(sig.Results().At(0).Type(), r.name+"."+m.Name())
		r.ghost[m.Name()] = v
		return v
	}
	return unsup("method %s of an unknown value", m.Name())
}

func (x *X) apply(fv Val, args []Val, in ssa.Instruction) Val {
	f, ok := fv.(*FuncV)
	if !ok {
		return unsup("call of %T", fv)
	}
	if f.isNil {
		x.nilDeref(in)
	}
	if f.native != nil {
		return f.native(x, args)
	}
	return x.call(f.fn, args, f.bind)
}

func (x *X) doCall(fr *frame, c *ssa.CallCommon, in ssa.Instruction) Val {
	f, args := x.resolve(fr, c, in)
	return x.apply(f, args, in)
}

func (x *X) builtin(name string, args []Val, c *ssa.CallCommon, in ssa.Instruction) Val {
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *Term:
			return x.tt.Len(a)
		case *SliceV:
			if name == "cap" {
				return x.tt.Int(int64(a.cap))
			}
			return x.tt.Int(int64(a.len))
		case *SymSeq:
			return a.n
		case *MapV:
			if a.m.sym == "" {
				return x.tt.Int(int64(len(a.m.ents)))
			}
			n := x.tt.Var(x.name("len("+a.m.sym+")"), SInt)
			x.assume(x.tt.Le(x.tt.Int(0), n))
			return n
		}
		return unsup("len of %T", args[0])
	case "append":
		return x.appendTo(args[0], args[1], c.Args[0].Type())
	case "delete":
		m := args[0].(*MapV).m
		m.ents = append(m.ents, &mapEntry{k: args[1], dead: true})
		return TupleV{}
	case "print", "println":
		return TupleV{}
	case "min", "max":
		r := x.term(args[0])
		for _, a := range args[1:] {
			if r.sort != SInt {
				return unsup("builtin %s", name)
			}
			r = x.tt.Ite(x.tt.Eq(x.tt.Bool(name == "min"), x.tt.Lt(r, x.term(a))), r, x.term(a))
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	case "copy":
		return unsup("copy")
	}
	return unsup("builtin %s", name)
}

func (x *X) appendTo(s, add Val, t types.Type) Val {
	switch a := s.(type) {
	case *SliceV:
		switch b := add.(type) {
		case *SliceV:
			if b.len == 0 {
				return a
			}
			if a.cap-a.len >= b.len { // in place
				es := append([]Val{}, x.elems(b)...)
				for i, e := range es {
					x.store(&PtrV{a.arr, []int{a.off + a.len + i}}, e)
				}
				return &SliceV{a.arr, a.off, a.len + b.len, a.cap}
			}
			return x.mkSlice(append(append([]Val{}, x.elems(a)...), x.elems(b)...), "append")
		case *SymSeq:
			if a.len == 0 {
				return b
			}
			r := x.freshSeq(b.elem, "append("+b.name+")")
			x.assume(x.tt.Eq(r.n, x.tt.AddN(b.n, int64(a.len))))
			for i, e := range x.elems(a) {
				r.memo[x.tt.Int(int64(i)).id] = e
			}
			r.ghost["head"], r.ghost["rest"] = a, b
			return r
		}
	case *SymSeq:
		r := x.freshSeq(a.elem, "append("+a.name+")")
		switch b := add.(type) {
		case *SliceV:
			if b.len == 0 {
				return a
			}
			x.assume(x.tt.Eq(r.n, x.tt.AddN(a.n, int64(b.len))))
			for i, e := range x.elems(b) {
				r.memo[x.tt.AddN(a.n, int64(i)).id] = e
			}
			r.ghost["base"] = a
			r.ghost["added"] = b
		case *SymSeq:
			x.assume(x.tt.Eq(r.n, x.tt.Add(a.n, b.n)))
			r.ghost["base"] = a
			r.ghost["added"] = b
		case *Term:
			return unsup("append of a string")
		}
		return r
	}
	return unsup("append to %T of %T", s, add)
}

func debugf(f string, a ...any) {
	if os.Getenv("PROVE_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
