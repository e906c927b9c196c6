package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C07"] = checkC07 }

// scopeGen writes programs statement by statement and knows by the lexical rules whether they are valid.
type scopeGen struct {
	r      *rand.Rand
	b      strings.Builder
	frames []map[string]bool
	fns    map[string]int // name -> parameters
	ret    map[string]bool
	fn     string // current function
	fnRet  bool
	inFn   bool
	loop   int
	sw     int
	depth  int
	bad    string // first violated rule
	risk   int
	fuel   int
	unspec bool
}

var svars = []string{"a", "b", "c", "d", "e", "A", "aa"}
var sfns = []string{"f", "g", "h", "F"}

func (s *scopeGen) vis(n string) bool {
	for _, f := range s.frames {
		if f[n] {
			return true
		}
	}
	return false
}

func (s *scopeGen) w(f string, a ...any) {
	fmt.Fprintf(&s.b, "%s"+f+"\n", append([]any{strings.Repeat("\t", s.depth)}, a...)...)
}

func (s *scopeGen) wrong(why string) {
	if s.bad == "" {
		s.bad = why
	}
}

func (s *scopeGen) sinful() bool { return s.bad == "" && s.r.Intn(1000) < s.risk }

// use returns a name for reading or writing a variable.
func (s *scopeGen) use() string {
	if s.sinful() {
		n := svars[s.r.Intn(len(svars))]
		if !s.vis(n) {
			s.wrong("use of " + n + " outside its scope")
		}
		return n
	}
	c := []string{}
	for _, n := range svars {
		if s.vis(n) {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return ""
	}
	return c[s.r.Intn(len(c))]
}

func (s *scopeGen) newName(not ...string) string {
	c := []string{}
	for _, n := range svars {
		ok := !s.vis(n)
		for _, x := range not {
			ok = ok && x != n
		}
		if ok {
			c = append(c, n)
		}
	}
	if s.sinful() {
		n := svars[s.r.Intn(len(svars))]
		ok := false
		for _, x := range c {
			ok = ok || x == n
		}
		if !ok {
			s.wrong("redefinition of " + n)
		}
		return n
	}
	if len(c) == 0 {
		return ""
	}
	return c[s.r.Intn(len(c))]
}

func (s *scopeGen) expr() string {
	switch s.r.Intn(5) {
	case 0, 1:
		if n := s.use(); n != "" {
			return n
		}
	case 2:
		if c := s.call(true); c != "" {
			return c
		}
	case 3:
		if n := s.use(); n != "" {
			return n + " + 1"
		}
	}
	return fmt.Sprint(s.r.Intn(5))
}

func (s *scopeGen) call(val bool) string {
	if s.fuel--; s.fuel < 0 {
		return ""
	}
	f := sfns[s.r.Intn(len(sfns))]
	np, ok := s.fns[f]
	if ok && f == s.fn || !ok || val && !s.ret[f] {
		if ok || !s.sinful() {
			return ""
		}
		s.wrong("call of " + f + " before its definition")
	}
	a := []string{}
	for i := 0; i < np; i++ {
		a = append(a, s.expr())
	}
	return f + "(" + strings.Join(a, ", ") + ")"
}

func (s *scopeGen) push() { s.frames = append(s.frames, map[string]bool{}) }
func (s *scopeGen) pop()  { s.frames = s.frames[:len(s.frames)-1] }
func (s *scopeGen) add(n string) {
	if n != "" {
		s.frames[len(s.frames)-1][n] = true
	}
}

type flow struct{ term, ends, brk bool } // Go's terminating statement, end reachable, contains break of this loop

// body writes a block.
func (s *scopeGen) body(max int) flow {
	s.push()
	s.depth++
	f := s.seq(s.r.Intn(max + 1))
	s.depth--
	s.pop()
	return f
}

func (s *scopeGen) seq(n int) flow {
	f := flow{ends: true}
	for i := 0; i < n; i++ {
		g := s.stmt()
		f.brk = f.brk || g.brk
		f.term = g.term
		f.ends = f.ends && g.ends
	}
	return f
}

func (s *scopeGen) leave() flow {
	switch k := s.r.Intn(3); {
	case s.inFn && k == 0 || !s.inFn && s.sinful():
		if !s.inFn {
			s.wrong("return outside a function")
			s.w("return")
		} else if s.fnRet {
			s.w("return %s", s.expr())
		} else {
			s.w("return")
		}
		return flow{term: true}
	case s.loop > 0 || s.sinful():
		if s.loop == 0 {
			s.wrong("break/continue outside a loop")
		}
		if s.r.Intn(2) == 0 && (s.sw == 0 || s.loop > 0) {
			s.w("break")
			return flow{brk: true}
		}
		s.w("continue")
		return flow{}
	}
	return flow{ends: true}
}

func (s *scopeGen) stmt() flow {
	if s.fuel--; s.fuel < 0 {
		s.w("print(1)")
		return flow{ends: true}
	}
	done := flow{ends: true}
	was := s.bad // restored where a chosen part isn't written
	switch k := s.r.Intn(20); {
	case k < 4:
		n := s.newName()
		if n == "" {
			s.bad = was
			return done
		}
		was = s.bad
		e := s.expr()
		switch s.r.Intn(5) {
		case 0:
			s.bad = was
			s.w("var %s int", n)
		case 1:
			s.w("var %s = %s", n, e)
		case 2:
			was = s.bad
			e2 := s.expr()
			m := s.newName(n)
			if m == "" || s.vis(n) || s.vis(m) {
				// A definition with at least one new variable may reuse others.
				s.bad = was
				s.w("%s := %s", n, e)
				break
			}
			s.w("%s, %s := %s, %s", n, m, e, e2)
			s.add(m)
		case 3:
			if s.sinful() && !s.vis(n) {
				s.bad = was
				s.wrong("use of " + n + " in its own definition")
				s.w("%s := %s + 1", n, n)
			} else {
				s.w("%s := %s", n, e)
			}
		default:
			s.w("%s := %s", n, e)
		}
		s.add(n)
	case k < 7:
		n := s.use()
		was = s.bad
		e := s.expr()
		if n == "" {
			s.bad = was
		} else {
			switch s.r.Intn(3) {
			case 0:
				s.bad = was
				s.w("%s++", n)
			case 1:
				s.w("%s += %s", n, e)
			default:
				s.w("%s = %s", n, e)
			}
		}
	case k < 9:
		s.w("print(%s)", s.expr())
	case k < 10:
		if c := s.call(false); c != "" {
			s.w("%s", c)
		}
	case k < 13 && s.depth < 4:
		cs := 1 + s.r.Intn(2)
		f := flow{term: true}
		es := []string{}
		for i := 0; i < cs; i++ {
			es = append(es, s.expr())
		}
		for i, e := range es {
			if i == 0 {
				s.w("if %s == 1 {", e)
			} else {
				s.w("} else if %s == 1 {", e)
			}
			g := s.body(3)
			f = flow{f.term && g.term, f.ends || g.ends, f.brk || g.brk}
		}
		if s.r.Intn(2) == 0 {
			s.w("} else {")
			g := s.body(3)
			f = flow{f.term && g.term, f.ends || g.ends, f.brk || g.brk}
		} else {
			f = flow{false, true, f.brk}
		}
		s.w("}")
		return f
	case k < 14 && s.depth < 4:
		e := s.expr()
		e2 := s.expr()
		s.w("switch %s {", e)
		s.w("case %s:", e2)
		s.sw++
		f := s.body(3)
		if s.r.Intn(2) == 0 {
			s.w("default:")
			g := s.body(3)
			f = flow{f.term && g.term, f.ends || g.ends, f.brk || g.brk}
		} else {
			f = flow{false, true, f.brk}
		}
		s.w("}")
		s.sw--
		if f.brk {
			// A break leaves the switch.
			f = flow{ends: true}
		}
		return f
	case k < 17 && s.depth < 4:
		s.push()
		infinite := false
		switch s.r.Intn(4) {
		case 0:
			s.w("for %s < 3 {", s.expr())
		case 1:
			s.w("for {")
			infinite = true
		case 2:
			e := s.expr()
			n := s.newName()
			if n == "" {
				s.bad = was
				s.w("for true {")
				break
			}
			s.add(n)
			if s.sinful() {
				m := svars[s.r.Intn(len(svars))]
				if !s.vis(m) {
					s.wrong("use of " + m + " in a loop header")
				}
				s.w("for %s := %s; %s < 3; %s++ {", n, e, m, m)
			} else {
				s.w("for %s := %s; %s < 3; %s++ {", n, e, n, n)
			}
		case 3:
			n := s.newName()
			if n == "" {
				s.w("for true {")
				break
			}
			m := s.newName(n)
			if m == "" {
				s.bad = was
				s.w("for true {")
				break
			}
			x := "[]int{1, 2}"
			if s.sinful() {
				x = "[]int{" + m + "}"
				if !s.vis(m) {
					s.wrong("use of the range variable in the range expression")
				}
			}
			s.add(n)
			s.add(m)
			s.w("for %s, %s := range %s {", n, m, x)
		}
		s.loop++
		f := s.body(4)
		s.loop--
		s.pop()
		s.w("}")
		if infinite && !f.brk {
			return flow{} // the end isn't reachable, whether that is seen isn't specified
		}
		return done
	case k < 18:
		return s.leave()
	case k < 19 && (s.depth == 0 && !s.inFn || s.sinful()):
		return s.function()
	}
	return done
}

func (s *scopeGen) function() flow {
	n := sfns[s.r.Intn(len(sfns))]
	if _, ok := s.fns[n]; ok {
		if !s.sinful() {
			return flow{ends: true}
		}
		s.wrong("second function " + n)
	}
	if s.depth > 0 {
		s.wrong("function definition below top level")
	}
	// Only global variables are visible.
	save := s.frames
	var loop = s.loop
	wasFn, wasRet, wasName := s.inFn, s.fnRet, s.fn
	s.loop, s.inFn, s.fn = 0, true, n
	s.push()
	ps := []string{}
	for i := s.r.Intn(3); i > 0; i-- {
		if p := s.newName(); p != "" {
			ps = append(ps, p+" int")
			s.add(p)
		}
	}
	s.fnRet = s.r.Intn(2) == 0
	r := ""
	if s.fnRet {
		r = "int "
	}
	s.w("func %s(%s) %s{", n, strings.Join(ps, ", "), r)
	// The name is not usable within the body.
	s.depth++
	f := s.seq(s.r.Intn(5))
	s.depth--
	if s.fnRet && !f.term {
		if f.ends && s.sinful() {
			s.wrong("function can fall off its end")
		} else {
			s.depth++
			s.w("return %s", s.expr())
			s.depth--
			f = flow{term: true}
		}
	}
	if s.fnRet && f.term != !f.ends {
		s.unspec = true
	}
	s.pop()
	s.w("}")
	s.frames, s.loop = save, loop
	s.inFn, s.fnRet, s.fn = wasFn, wasRet, wasName
	if _, ok := s.fns[n]; !ok {
		s.fns[n] = len(ps)
		s.ret[n] = r != ""
	}
	return flow{ends: true}
}

func checkC07(h *harness) {
	h.each(runs(h, 20000), func(l *lane, r *rand.Rand, i int) {
		s := &scopeGen{r: r, fns: map[string]int{}, ret: map[string]bool{}, fuel: 45, risk: []int{0, 20, 60, 150}[i%4]}
		s.push()
		s.seq(4 + r.Intn(10))
		if s.unspec && s.bad == "" {
			h.count("C07 discarded", 1)
			return
		}
		src := s.b.String()
		o := l.do(&req{Files: map[string]string{"main.tsh": src}, Main: "main.tsh", Targets: []string{"bash", "batch"}})
		judge(h, o, src, s.bad)
	})
	// Names of other files.
	mod := "var pub int\nvar priv int\nfunc Pub() int {\n\treturn pub\n}\nfunc priv2() int {\n\treturn priv\n}\nfunc Pub2(a int) int {\n\treturn priv2() + a\n}\n"
	for _, c := range []struct{ use, bad string }{
		{"print(m.Pub())", ""}, {"print(m.Pub2(1))", ""}, {"print(m.priv2())", "private function"}, {"print(m.None())", "undefined function"}, {"print(n.Pub())", "undefined alias"},
		{"print(Pub())", "function of another file without alias"}, {"print(priv2())", "private function without alias"}, {"print(pub)", "variable of another file"}, {"print(priv)", "variable of another file"},
		{"pub := 3\nprint(pub, m.Pub())", ""}, {"func Pub() int {\n\treturn 5\n}\nprint(Pub(), m.Pub())", ""}, {"m.priv2()", "private function as statement"}, {"m.Pub()", ""},
		{"func x() int {\n\treturn m.Pub()\n}\nprint(x())", ""}, {"func x() int {\n\treturn m.priv2()\n}\nprint(x())", "private function in a function"}, {"pub = 3", "assignment to a variable of another file"}, {"pub++", "increment of a variable of another file"},
	} {
		src := "import (\n\tm \"mod.tsh\"\n)\n" + c.use + "\n"
		o := h.lanes[0].do(&req{Files: map[string]string{"main.tsh": src, "mod.tsh": mod}, Main: "main.tsh", Targets: []string{"bash", "batch"}})
		judge(h, o, src+"\n--- mod.tsh\n"+mod, c.bad)
	}
}

func judge(h *harness, o *res, src, bad string) {
	if o.Crash+o.Panic != "" {
		h.fail("transpilation crashes", "program", src, "observed", o.Crash+o.Panic)
		return
	}
	for k := range o.IsErr {
		if o.IsErr[k] && (o.Out[k] != "" || o.Err[k] == "") {
			h.fail("an error comes with a script or without a message", "program", src, "observed", o.Err[k]+o.Out[k])
			return
		}
		if o.IsErr[k] && bad == "" {
			h.fail("a valid program is rejected", "program", src, "observed", o.Err[k])
			return
		}
		if !o.IsErr[k] && bad != "" {
			h.fail("an invalid program is accepted: "+bad, "program", src)
			return
		}
	}
	h.count(h.id+" programs which are "+map[bool]string{true: "accepted", false: "rejected"}[bad == ""], 1)
}
