package main

// The contract of the command: its state after k pairs of arguments, and what an arbitrary target
// makes of the file system, for any number of arguments and of targets.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	pUnits = append(pUnits, &pDef{fn: "main", pkg: "main", props: "C19", raw: rawMain, cli: true,
		need: strings.Fields("option unknown-option all-options path once fresh target targets rename place input bytes written nothing no-reason end")})
}

// cliVar is a variable of the argument loop: its meaning is found by running the first repetition.
type cliVars map[string]string

type cliFile struct {
	path    *Term
	data    []*Term
	wrong   bool // a write failed
	closed  bool
	removed bool
	moved   bool
}

type cli struct {
	u     *pUnit
	x     *X
	vars  cliVars
	mode  int
	head  *ssa.BasicBlock
	fr    *frame
	phis  map[*ssa.Phi]Val
	objs  map[*Obj]Val
	k     *Term // pairs of arguments which have been read
	n, m  *Term
	cnt   *ssa.Phi
	flag  *Term // the current option and its value
	value *Term
	types *SymSeq // the targets before the current pair

	bhead  *ssa.BasicBlock
	bphi   *ssa.Phi
	bobjs  map[*Obj]Val
	target *Term

	stats  map[int]Val // the answers of the file system by path
	why    []*Term     // what justifies an error exit
	files  []*cliFile
	opened map[*Obj]*cliFile
	dump   *Term
	conv   Val
	runs   int
	same   map[[2]int]*Term
	dirty  string
}

var cliMemo = map[*pDef]cliVars{}

func (c *cli) lit(t *Term, ss ...string) *Term {
	r := c.x.tt.fls
	for _, s := range ss {
		r = c.x.tt.Or(r, c.x.tt.Eq(t, c.x.tt.Str(s)))
	}
	return r
}

func (c *cli) isIn() *Term   { return c.lit(c.flag, "-i", "--in") }
func (c *cli) isOut() *Term  { return c.lit(c.flag, "-o", "--out") }
func (c *cli) isType() *Term { return c.lit(c.flag, "-t", "--type") }

// spec is the variable after k pairs.
func (c *cli) spec(name string, k *Term) *Term {
	if k.isConst() && k.n == 0 {
		return c.x.tt.Str("")
	}
	return c.x.tt.UF("last "+name, SStr, k)
}

// parts lists the strings and lists which a value consists of.
func (c *cli) parts(key string, v Val, f func(key string, v Val, path []int)) {
	var walk func(key string, v Val, path []int)
	walk = func(key string, v Val, path []int) {
		if s, ok := v.(*StructV); ok {
			for i := range s.f {
				walk(fmt.Sprint(key, ".", i), s.f[i], append(append([]int{}, path...), i))
			}
			return
		}
		f(key, v, path)
	}
	walk(key, v, nil)
}

// state calls f for each part of the variables.
func (c *cli) state(f func(key string, now, was Val, set func(Val))) {
	for _, in := range c.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		p0 := p
		was := c.phis[p]
		c.parts("phi "+p.Name(), c.fr.env[p], func(key string, v Val, path []int) {
			f(key, v, partOf(was, path), func(v Val) { c.fr.env[p0] = setPath(c.fr.env[p0], path, v) })
		})
	}
	for i, o := range c.x.allObjs {
		was, ok := c.objs[o]
		if !ok || o.lazy != nil {
			continue
		}
		o := o
		c.parts(fmt.Sprint("object ", i, " ", o.site), o.val, func(key string, v Val, path []int) {
			f(key, v, partOf(was, path), func(v Val) { o.val = setPath(o.val, path, v) })
		})
	}
}

func partOf(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(*StructV)
		if !ok {
			return nil
		}
		v = s.f[i]
	}
	return v
}

func (c *cli) snapshot() map[*Obj]Val {
	r := map[*Obj]Val{}
	for _, o := range c.x.allObjs {
		if o.lazy == nil {
			r[o] = o.val
		}
	}
	return r
}

func (c *cli) quiet() bool { return len(c.files) == 0 && c.runs == 0 && c.dirty == "" }

// cut is called at the heads of the loops.
func (c *cli) cut(fr *frame, b, prev *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return
		}
	}
	switch {
	case b == c.head && fr == c.fr:
		c.argsEnd()
	case b == c.bhead:
		c.targetEnd(fr)
	case b.Dominates(prev):
		unsup("loop in %s", fr.fn)
	case c.head == nil:
		c.argsStart(fr, b)
	case c.bhead == nil && c.k != nil:
		c.targetStart(fr, b)
	default:
		unsup("loop in %s", fr.fn)
	}
}

// argsStart is the head of the loop over the arguments.
func (c *cli) argsStart(fr *frame, b *ssa.BasicBlock) {
	x := c.x
	c.head, c.fr, c.phis = b, fr, map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			c.phis[p] = fr.env[p]
			if t, ok := fr.env[p].(*Term); ok && t.sort == SInt {
				if c.cnt != nil || !t.isConst() || t.n != 1 {
					unsup("counters of the arguments")
				}
				c.cnt = p
			}
		}
	}
	if c.cnt == nil {
		unsup("no counter of the arguments")
	}
	if !c.quiet() {
		unsup("effects before the arguments are read")
	}
	c.objs = c.snapshot()
	if c.mode < 3 {
		c.k = x.tt.Int(0)
		c.flag, c.value = c.arg(1), c.arg(2)
		x.assume(x.tt.Eq(c.flag, x.tt.Str([]string{"-i", "-o", "-t"}[c.mode])))
		return
	}
	// An arbitrary repetition.
	c.k = x.tt.Var("k", SInt)
	x.assume(x.tt.Le(x.tt.Int(0), c.k))
	i := x.tt.AddN(x.tt.Add(c.k, c.k), 1)
	c.flag, c.value = x.term(c.args().at(x, i)), x.term(c.args().at(x, x.tt.AddN(i, 1)))
	c.types = x.freshSeq(types.Typ[types.String], "targets")
	seen := map[string]bool{}
	c.state(func(key string, now, was Val, set func(Val)) {
		switch w := c.vars[key]; w {
		case "in", "out":
			if t, ok := now.(*Term); !ok || !t.isConst() || t.s != "" {
				unsup("initial value of the option")
			}
			set(c.spec(w, c.k))
			seen[w] = true
		case "types":
			if s, ok := now.(*SliceV); !ok || s.len != 0 {
				unsup("initial targets")
			}
			set(c.types)
			seen[w] = true
		}
	})
	if len(seen) != 3 {
		unsup("the options are not found")
	}
	fr.env[c.cnt] = i
	// After all the pairs.
	x.assume(x.tt.Le(c.k, c.m))
	// The values after this pair.
	k1 := x.tt.AddN(c.k, 1)
	for _, n := range []string{"in", "out"} {
		is := c.isIn()
		if n == "out" {
			is = c.isOut()
		}
		x.assume(x.tt.Imp(is, x.tt.Eq(c.spec(n, k1), c.value)))
		x.assume(x.tt.Imp(x.tt.Not(is), x.tt.Eq(c.spec(n, k1), c.spec(n, c.k))))
	}
	for _, n := range []string{"in", "out"} {
		x.assume(x.tt.Imp(x.tt.Eq(c.k, x.tt.Int(0)), x.tt.Eq(c.spec(n, c.k), x.tt.Str(""))))
	}
	x.assume(x.tt.Imp(x.tt.Eq(c.k, x.tt.Int(0)), x.tt.Eq(c.types.n, x.tt.Int(0))))
}

func (c *cli) args() *SymSeq { return c.x.data["args"].(*SymSeq) }

func (c *cli) arg(i int64) *Term { return c.x.term(c.args().at(c.x, c.x.tt.Int(i))) }

// argsEnd is the end of a repetition.
func (c *cli) argsEnd() {
	x, u := c.x, c.u
	if !c.quiet() {
		unsup("effects while the arguments are read")
	}
	if c.mode < 3 {
		w := []string{"in", "out", "types"}[c.mode]
		c.state(func(key string, now, was Val, set func(Val)) {
			switch v := now.(type) {
			case *Term:
				if v == c.value && now != was {
					c.vars[key] = w
				}
			case *SliceV:
				if q, ok := was.(*SliceV); ok && v.len == 1 && q.len == 0 && w == "types" {
					c.vars[key] = w
				}
			}
		})
		panic(pathEnd{"end of the loop"})
	}
	k1 := x.tt.AddN(c.k, 1)
	c.state(func(key string, now, was Val, set func(Val)) {
		switch w := c.vars[key]; {
		case w == "in" || w == "out":
			u.known("option", x.valid(x.tt.Eq(x.term(now), c.spec(w, k1))), "%s after -%s is %s", w, c.flag, describe(now))
		case w == "types":
			if x.valid(c.isType()) {
				q, ok := now.(*SymSeq)
				ok = ok && q.ghost["base"] == Val(c.types)
				if ok {
					l, is := q.ghost["added"].(*SliceV)
					ok = is && l.len == 1 && x.valid(x.eqVal(x.elems(l)[0], c.value))
				}
				u.known("option", ok, "the targets are %s", describe(now))
			} else {
				u.known("option", x.valid(x.tt.Not(c.isType())) && now == Val(c.types), "the targets are changed")
			}
		case key == "phi "+c.cnt.Name():
			u.known("option", x.valid(x.tt.Eq(x.term(now), x.tt.AddN(x.tt.Add(k1, k1), 1))), "the next option is at %s", describe(now))
		default:
			u.known("option", ident(now, was) || u.same(now, was), "%s is changed", key)
		}
	})
	u.known("unknown-option", x.valid(x.tt.Or(c.isIn(), c.isOut(), c.isType())), "an unknown option is accepted")
	panic(pathEnd{"end of the loop"})
}

// targetStart is the head of the loop over the targets.
func (c *cli) targetStart(fr *frame, b *ssa.BasicBlock) {
	x, u := c.x, c.u
	if c.mode < 3 {
		panic(pathEnd{"the options are known"})
	}
	if !c.quiet() {
		unsup("effects before the first target")
	}
	c.arguments()
	c.bhead = b
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			t, ok := fr.env[p].(*Term)
			if c.bphi != nil || !ok || t.sort != SInt || !t.isConst() || t.n != -1 && t.n != 0 {
				unsup("loop over the targets")
			}
			c.bphi = p
		}
	}
	if c.bphi == nil {
		unsup("loop over the targets")
	}
	d := 0 - x.term(fr.env[c.bphi]).n
	j := x.tt.Var("j", SInt)
	x.assume(x.tt.Le(x.tt.Int(0), j))
	fr.env[c.bphi] = x.tt.AddN(j, -d)
	c.target = x.term(c.types.at(x, j))
	// All the targets before have been written.
	x.assume(x.tt.Le(j, c.types.n))
	x.data["target"] = j
	c.bobjs = c.snapshot()
	u.x.good("targets")
}

// arguments: all the arguments have been read and are complete.
func (c *cli) arguments() {
	x, u := c.x, c.u
	u.known("all-options", c.k != nil && x.valid(x.tt.Eq(c.k, c.m)), "not all the options are read")
	u.known("all-options", x.valid(x.tt.Eq(c.n, x.tt.AddN(x.tt.Add(c.m, c.m), 1))), "an option without a value is accepted")
	u.known("all-options", x.valid(x.tt.Not(x.tt.Eq(c.spec("in", c.k), x.tt.Str("")))), "no input is accepted")
	u.known("all-options", x.valid(x.tt.Not(x.tt.Eq(c.spec("out", c.k), x.tt.Str("")))), "no output is accepted")
	u.known("all-options", x.valid(x.tt.Lt(x.tt.Int(0), c.types.n)), "no target is accepted")
}

// targetEnd: the file of the target has been written.
func (c *cli) targetEnd(fr *frame) {
	x, u := c.x, c.u
	c.done()
	now := x.term(fr.env[c.bphi])
	j := x.data["target"].(*Term)
	d := x.valid(x.tt.Eq(now, j)) || x.valid(x.tt.Eq(now, x.tt.AddN(j, 1)))
	u.known("targets", d, "the next target is %s", now)
	for o, w := range c.bobjs {
		u.known("targets", ident(o.val, w) || u.same(o.val, w), "%s is changed", o.site)
	}
	panic(pathEnd{"end of the loop"})
}

// done is the postcondition of a target without an error.
func (c *cli) done() {
	x, u := c.x, c.u
	u.known("written", c.runs == 1 && c.dump != nil, "the target is not translated")
	u.known("written", c.dirty == "", "%s", c.dirty)
	u.known("written", len(c.files) == 1, "%d files are written", len(c.files))
	f := c.files[0]
	u.known("written", f.moved && f.closed && !f.wrong, "the file is not complete")
	u.known("bytes", len(f.data) > 0 && x.valid(x.tt.Eq(x.tt.Cat(f.data...), c.dump)), "the file contains %v", f.data)
}

// failed is the postcondition of an exit with an error.
func (c *cli) failed() {
	x, u := c.x, c.u
	u.known("nothing", c.dirty == "", "%s", c.dirty)
	for _, f := range c.files {
		u.known("nothing", !f.moved, "a file is written although the command fails")
		u.known("nothing", f.removed, "the temporary file %s remains", f.path)
	}
	why := append([]*Term{}, c.why...)
	if c.target != nil {
		why = append(why, x.tt.Not(c.lit(c.target, "bash", "batch")))
	}
	if c.bhead == nil {
		why = append(why, x.tt.Not(x.tt.Eq(c.n, x.tt.AddN(x.tt.Add(c.m, c.m), 1))))
		if c.k != nil {
			last := x.tt.Eq(c.k, c.m)
			for _, n := range []string{"in", "out"} {
				why = append(why, x.tt.And(last, x.tt.Eq(c.spec(n, c.k), x.tt.Str(""))))
			}
			if c.types != nil {
				why = append(why, x.tt.And(last, x.tt.Eq(c.types.n, x.tt.Int(0))))
			}
		}
		if c.flag != nil {
			more := x.tt.Lt(c.k, c.m)
			why = append(why, x.tt.And(more, x.tt.Not(x.tt.Or(c.isIn(), c.isOut(), c.isType()))))
			why = append(why, x.tt.And(more, c.isType(), x.tt.Not(c.lit(c.value, "bash", "batch"))))
			stat := func(is *Term, dir bool) {
				v, ok := c.stats[c.value.id].(TupleV)
				if !ok {
					return
				}
				if x.isNilIface(v[1]) {
					d, ok := v[0].(*SymIface).ghost["IsDir"].(*Term)
					if !ok {
						return
					}
					if !dir {
						d = x.tt.Not(d)
					}
					why = append(why, x.tt.And(more, is, d))
					return
				}
				why = append(why, x.tt.And(more, is))
			}
			stat(c.isIn(), true)
			stat(c.isOut(), false)
		}
	}
	u.known("no-reason", c.mode < 3 || x.valid(x.tt.Or(why...)), "the command fails without a reason: %s", x.path())
}

func (c *cli) because(t *Term) { c.why = append(c.why, t) }

// place is the path of the file of the target.
func (c *cli) place() *Term {
	x := c.x
	ext := x.tt.Str("")
	if i, ok := c.conv.(*IfaceV); ok && i.t != nil {
		if m := x.p.pg.method(i.t, "Extension"); m != nil {
			ext = x.term(x.call(m, []Val{i.v}, nil))
		}
	}
	in := c.spec("in", c.k)
	return c.join(c.spec("out", c.k), x.tt.Cat(x.tt.UF("stem", SStr, in), x.tt.Str("."), ext))
}

func (c *cli) join(a, b *Term) *Term {
	if a.op == "uf" && a.s == "Clean" {
		a = a.args[0]
	}
	return c.x.tt.UF("Join", SStr, a, b)
}

func (c *cli) stat(t *Term, rt types.Type) Val {
	x := c.x
	r, ok := c.stats[t.id].(TupleV)
	if !ok {
		if x.choose(2) == 0 {
			i := x.freshIface(rt, "info")
			i.ghost["path"] = t
			r = TupleV{i, &IfaceV{}}
		} else {
			r = TupleV{&IfaceV{}, c.u.errOf("Stat")}
			if c.bhead != nil && t == c.spec("in", c.k) {
				c.because(x.tt.tru)
			}
		}
		c.stats[t.id] = r
	}
	return r
}

func (c *cli) hooks() {
	x, u := c.x, c.u
	h := func(name string, f func(fn *ssa.Function, args []Val) Val) {
		x.hooks[name] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
			v := f(fn, args)
			return v, v != nil
		}
	}
	fail := func(name string) Val {
		c.because(x.tt.tru)
		return u.errOf(name)
	}
	stat := func(fn *ssa.Function, a []Val) Val { return c.stat(x.term(a[0]), fn.Signature.Results().At(0).Type()) }
	h("os.Stat", stat)
	h("os.SameFile", func(fn *ssa.Function, a []Val) Val {
		p, ok1 := a[0].(*SymIface)
		q, ok2 := a[1].(*SymIface)
		if !ok1 || !ok2 {
			unsup("os.SameFile")
		}
		s, t := p.ghost["path"].(*Term), q.ghost["path"].(*Term)
		r := x.tt.Var(x.name("same"), SBool)
		c.same[[2]int{s.id, t.id}], c.same[[2]int{t.id, s.id}] = r, r
		if in := c.spec("in", c.k); c.bhead != nil && c.conv != nil && (s == in && t == c.place() || t == in && s == c.place()) {
			c.because(r)
		}
		return r
	})
	h("path/filepath.Base", func(fn *ssa.Function, a []Val) Val {
		t := x.term(a[0])
		return x.tt.Cat(x.tt.UF("stem", SStr, t), x.tt.UF("ext", SStr, t))
	})
	h("path/filepath.Ext", func(fn *ssa.Function, a []Val) Val {
		t := x.term(a[0])
		if p := pieces(t); len(p) == 2 && p[0].op == "uf" && p[0].s == "stem" && p[1].op == "uf" && p[1].s == "ext" && p[0].args[0] == p[1].args[0] {
			return p[1]
		}
		return x.tt.UF("ext", SStr, t)
	})
	h("strings.TrimSuffix", func(fn *ssa.Function, a []Val) Val {
		p, q := pieces(x.term(a[0])), pieces(x.term(a[1]))
		if len(p) < len(q) {
			return nil
		}
		for i := range q {
			if p[len(p)-len(q)+i] != q[i] {
				return nil
			}
		}
		return x.tt.Cat(p[:len(p)-len(q)]...)
	})
	h("path/filepath.Join", func(fn *ssa.Function, a []Val) Val {
		l, ok := x.listOf(a[0])
		if !ok || len(l) != 2 {
			unsup("filepath.Join")
		}
		return c.join(x.term(l[0]), x.term(l[1]))
	})
	h("path/filepath.Dir", func(fn *ssa.Function, a []Val) Val {
		// The name which has been joined is not empty and has no separators.
		t := x.term(a[0])
		if c.conv == nil || t != c.place() {
			unsup("filepath.Dir")
		}
		return x.tt.UF("Clean", SStr, t.args[0])
	})
	h("os.Getpid", func(fn *ssa.Function, a []Val) Val { return x.tt.Var("pid", SInt) })
	// New files.
	create := func(p *Term, errName string, rt types.Type) Val {
		if c.bhead == nil {
			unsup("a file is made before the options are known")
		}
		if x.choose(2) == 1 {
			return TupleV{x.zero(rt), fail(errName)}
		}
		f := &cliFile{path: p}
		c.files = append(c.files, f)
		o := &Obj{id: -1, site: "a file"}
		c.opened[o] = f
		return TupleV{&PtrV{obj: o}, &IfaceV{}}
	}
	h("os.OpenFile", func(fn *ssa.Function, a []Val) Val {
		p, flags := x.term(a[0]), x.term(a[1])
		const creat, excl, wronly, trunc = 0x40, 0x80, 0x1, 0x200
		if !flags.isConst() || flags.n&(creat|excl) != creat|excl || flags.n&3 == 0 {
			unsup("a file is opened which may exist")
		}
		// Neither the input nor an output: those exist, or have another name.
		if !c.temporary(p) {
			unsup("the file %s is made", p)
		}
		return create(p, "OpenFile", fn.Signature.Results().At(0).Type())
	})
	h("os.CreateTemp", func(fn *ssa.Function, a []Val) Val {
		d := x.term(a[0])
		if d.op == "uf" && d.s == "Clean" {
			d = d.args[0]
		}
		if d != c.spec("out", c.k) {
			unsup("a file is made in %s", d)
		}
		return create(x.tt.UF("Join", SStr, d, x.tt.Var(x.name("random"), SStr)), "CreateTemp", fn.Signature.Results().At(0).Type())
	})
	file := func(v Val) *cliFile {
		p, ok := v.(*PtrV)
		if !ok || p.obj == nil || c.opened[p.obj] == nil {
			unsup("unknown file")
		}
		return c.opened[p.obj]
	}
	write := func(fn *ssa.Function, a []Val) Val {
		f := file(a[0])
		t, ok := a[1].(*Term)
		if !ok {
			q, is := a[1].(*SymSeq)
			if !is {
				unsup("bytes of the file")
			}
			if t, ok = q.ghost["string"].(*Term); !ok {
				unsup("bytes of the file")
			}
		}
		if f.closed {
			unsup("write to a closed file")
		}
		if x.choose(2) == 1 {
			f.wrong = true
			return TupleV{x.tt.Var(x.name("written"), SInt), fail("Write")}
		}
		f.data = append(f.data, t)
		return TupleV{x.tt.Len(t), &IfaceV{}}
	}
	h("(*os.File).WriteString", write)
	h("(*os.File).Write", write)
	h("(*os.File).Sync", func(fn *ssa.Function, a []Val) Val {
		f := file(a[0])
		if x.choose(2) == 1 {
			f.wrong = true
			return fail("Sync")
		}
		return &IfaceV{}
	})
	h("(*os.File).Chmod", func(fn *ssa.Function, a []Val) Val {
		if x.choose(2) == 1 {
			return fail("Chmod")
		}
		return &IfaceV{}
	})
	h("(*os.File).Close", func(fn *ssa.Function, a []Val) Val {
		f := file(a[0])
		if f.closed {
			return u.errOf("Close")
		}
		f.closed = true
		if x.choose(2) == 1 {
			f.wrong = true
			return fail("Close")
		}
		return &IfaceV{}
	})
	h("(*os.File).Name", func(fn *ssa.Function, a []Val) Val { return file(a[0]).path })
	h("os.Remove", func(fn *ssa.Function, a []Val) Val {
		for _, f := range c.files {
			if f.path == x.term(a[0]) && !f.moved {
				f.removed = true
				return &IfaceV{}
			}
		}
		for _, f := range c.files {
			if f.path == x.term(a[0]) && f.moved {
				return u.errOf("Remove")
			}
		}
		return unsup("a file is removed: %s", describe(a[0]))
	})
	h("os.Rename", func(fn *ssa.Function, a []Val) Val {
		p, q := x.term(a[0]), x.term(a[1])
		var f *cliFile
		for _, g := range c.files {
			if g.path == p && !g.removed && !g.moved {
				f = g
			}
		}
		u.known("rename", f != nil, "the file %s is renamed", p)
		u.known("rename", f.closed && !f.wrong, "an incomplete file is renamed")
		u.known("place", c.conv != nil && q == c.place(), "the result is written to %s", q)
		in := c.spec("in", c.k)
		known := false
		for _, t := range []*Term{in, q} {
			if v, ok := c.stats[t.id].(TupleV); ok && !x.isNilIface(v[1]) {
				known = true
			}
		}
		if s := c.same[[2]int{in.id, q.id}]; s != nil && x.valid(x.tt.Not(s)) {
			known = true
		}
		u.known("input", known, "the input may be overwritten")
		if x.choose(2) == 1 {
			return fail("Rename")
		}
		f.moved = true
		return &IfaceV{}
	})
	h("os.Exit", func(fn *ssa.Function, a []Val) Val {
		t := x.term(a[0])
		if x.valid(x.tt.Not(x.tt.Eq(t, x.tt.Int(0)))) {
			panic(pathEnd{"panic"})
		}
		return unsup("os.Exit(%s)", t)
	})
	for _, n := range []string{"fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint"} {
		h(n, func(fn *ssa.Function, a []Val) Val {
			if i, ok := a[0].(*IfaceV); ok {
				if p, ok := i.v.(*PtrV); ok && p.obj != nil && strings.Contains(p.obj.site, "Stderr") {
					return TupleV{x.tt.Int(0), &IfaceV{}}
				}
			}
			return unsup("%s", fn)
		})
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		h(n, func(fn *ssa.Function, a []Val) Val { return TupleV{x.tt.Int(0), &IfaceV{}} })
	}
	// The library: its contract is that of Transpile.
	pg := x.p.pg
	tn := pg.fn("transpiler", "New")
	if tn == nil {
		unsup("transpiler.New")
	}
	tr := pg.method(tn.Signature.Results().At(0).Type(), "Transpile")
	if tr == nil || len(tr.Params) != 3 {
		unsup("Transpile")
	}
	h(tr.String(), func(fn *ssa.Function, a []Val) Val {
		if c.bhead == nil || c.mode < 3 {
			unsup("the input is translated before the options are known")
		}
		c.runs++
		u.known("once", c.runs == 1, "the target is translated twice")
		u.known("path", u.same(a[1], c.spec("in", c.k)), "%s is translated", describe(a[1]))
		c.converter(a[2])
		c.conv = a[2]
		if x.choose(2) == 1 {
			return TupleV{x.tt.Str(""), fail("Transpile")}
		}
		c.dump = x.tt.Var("script", SStr)
		return TupleV{c.dump, &IfaceV{}}
	})
}

// temporary: the name is none which another run with the same options writes as a result.
func (c *cli) temporary(p *Term) bool {
	if p.op != "uf" || p.s != "Join" || p.args[0] != c.spec("out", c.k) || p == c.place() {
		return false
	}
	q := pieces(p.args[1])
	return len(q) > 0 && q[len(q)-1].isConst() && !strings.HasSuffix(q[len(q)-1].s, ".sh") && !strings.HasSuffix(q[len(q)-1].s, ".bat")
}

// converter: it is a new one, of the target.
func (c *cli) converter(v Val) {
	x, u := c.x, c.u
	i, ok := v.(*IfaceV)
	if !ok || i.t == nil {
		unsup("converter %s", describe(v))
	}
	p, ok := i.v.(*PtrV)
	if !ok || p.obj == nil {
		unsup("converter %s", describe(v))
	}
	_, old := c.bobjs[p.obj]
	u.known("fresh", !old, "the converter has been used before")
	n, ok := i.t.(*types.Pointer).Elem().(*types.Named)
	if !ok {
		unsup("converter %s", i.t)
	}
	name := n.Obj().Pkg().Name()
	u.known("target", x.valid(x.tt.Eq(c.target, x.tt.Str(name))), "the target %s gets a converter of %s", c.target, name)
	mk := x.p.pg.fn("converters/"+name, "New")
	if mk == nil {
		unsup("New of %s", name)
	}
	w := x.call(mk, nil, nil)
	if q, ok := w.(*IfaceV); ok {
		w = q.v
	}
	q, ok := w.(*PtrV)
	if !ok || q.obj == nil {
		unsup("New of %s", name)
	}
	same, ok := u.alike(x.load(p), x.load(q))
	u.known("fresh", same && ok, "the converter is not a new one")
}

func rawMain(u *pUnit) {
	x := u.x
	if u.d.whole {
		unsup("main")
	}
	pg := x.p.pg
	mp := pg.pkgs[""]
	if mp == nil || mp.Func("main") == nil {
		unsup("function main")
	}
	c := &cli{u: u, x: x, stats: map[int]Val{}, opened: map[*Obj]*cliFile{}, same: map[[2]int]*Term{}}
	if cliMemo[u.d] == nil {
		cliMemo[u.d] = cliVars{}
	}
	c.vars = cliMemo[u.d]
	c.mode = x.choose(4)
	x.initPkg(mp)
	u.fn = mp.Func("main")
	u.top = true
	args := x.freshSeq(types.Typ[types.String], "arg")
	x.data["args"] = args
	osp := pg.prog.ImportedPackage("os")
	if osp == nil || osp.Var("Args") == nil {
		unsup("os.Args")
	}
	x.globals[osp.Var("Args")] = x.newObj(args, "os.Args")
	c.n, c.m = args.n, x.tt.Var("m", SInt)
	x.assume(x.tt.Le(x.tt.Int(0), c.m))
	rem := x.tt.UF("rem", SInt, c.n, x.tt.Int(2))
	if c.mode < 3 || x.choose(2) == 0 {
		x.assume(x.tt.Eq(c.n, x.tt.AddN(x.tt.Add(c.m, c.m), 1)))
		x.assume(x.tt.Eq(rem, x.tt.Int(1)))
		if c.mode < 3 {
			x.assume(x.tt.Eq(c.m, x.tt.Int(1)))
		}
	} else {
		x.assume(x.tt.Eq(c.n, x.tt.AddN(x.tt.Add(c.m, c.m), 2)))
		x.assume(x.tt.Eq(rem, x.tt.Int(0)))
	}
	c.hooks()
	x.cutter = c.cut
	defer func() {
		x.cutter = nil
		if r := recover(); r != nil {
			if e, ok := r.(pathEnd); ok && (e.why == "panic" || e.why == "nil dereference") {
				x.safety = false
				x.cutter = nil
				c.failed()
			}
			panic(r)
		}
	}()
	x.safety = true
	x.data["panics"] = true // is an exit with an error
	x.call(u.fn, nil, nil)
	x.safety = false
	// The end of the command: all the targets have been written.
	if c.mode < 3 {
		return
	}
	u.known("end", c.bhead != nil && c.quiet(), "the command ends before the targets are written")
	u.known("end", x.valid(x.tt.Eq(x.data["target"].(*Term), c.types.n)), "not all the targets are written")
}
