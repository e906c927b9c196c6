package main

// Symbolic interpretation of the emitted Bash text.

import (
	"fmt"
	"sort"
	"strings"
)

type outcome struct {
	kind string // "", break, continue, return, exit
	n    int
	code *Term
}

// fragInfo is an opaque child: an arbitrary expression or statement which fulfils the contract of its class.
type fragInfo struct {
	id      int
	child   *child
	entry   map[string]*Term // counters
	exit    map[string]*Term
	results []*Term // text of the results
	used    bool
}

type logEntry struct {
	name, val *Term     // write
	frag      *fragInfo // event
	call      *callEv
	W         *Term
	forget    int // everything before is unknown
}
type callEv struct {
	name *Term
	args []*Term
	W    *Term
}

type shState struct {
	x       *X
	u       *unitRun
	W       *Term
	log     []logEntry
	args    [][]*Term
	funcs   map[string]*shFunc
	status  *Term
	ok      *Term
	capture **Term
	depth   int
	ids     int
	loop    func(st *shState, w *shWhile) outcome
	unk     int
}

func (st *shState) unknown(why string) *Term {
	st.unk++
	return st.x.tt.Var(st.x.name(fmt.Sprintf("unknown(%s)", why)), SStr)
}

func (st *shState) quotingBad(what string) {
	st.x.bad("quoting", what)
	panic(pathEnd{"quoting"})
}

func (st *shState) nameTerm(ss []sym) *Term {
	ts := []*Term{}
	for _, s := range ss {
		if s.t == nil {
			ts = append(ts, st.x.tt.Str(string([]byte{s.b})))
			continue
		}
		if !(s.t.op == "itoa" || s.t.op == "uf" && s.t.s == "TT" || s.v && isRef(s.t)) {
			unsup("name contains %s", s.t)
		}
		ts = append(ts, s.t)
	}
	st.u.named("var", st.x.tt.Cat(ts...))
	return st.x.tt.Cat(ts...)
}

func (st *shState) isProgVar(name *Term) bool { return containsUF(name, "TT") }

// counterOf determines which counter numbers a temporary variable.
func (st *shState) counterOf(name *Term) (field string, idx *Term, family string) {
	ps := pieces(name)
	for i := len(ps) - 1; i >= 0; i-- {
		if ps[i].op != "itoa" {
			continue
		}
		idx := ps[i].args[0]
		field := ""
		walk(idx, map[int]bool{}, func(y *Term) {
			if y.op == "var" {
				if f := st.u.counters[y.s]; f != "" {
					field = f
				}
			}
		})
		if field == "" {
			return "", nil, ""
		}
		fam := ""
		for j, q := range ps {
			if j != i {
				fam += q.String() + "."
			} else {
				fam += "#."
			}
		}
		return field, idx, fam
	}
	return "", nil, ""
}

func (st *shState) write(name, val *Term) {
	if st.isProgVar(name) {
		st.W = st.x.wSet(st.W, name, val)
		return
	}
	st.u.wrote(st, name)
	st.log = append(st.log, logEntry{name: name, val: val})
}

func (st *shState) read(name *Term) *Term {
	x := st.x
	if name.isConst() && len(name.s) > 0 && name.s[0] >= '0' && name.s[0] <= '9' {
		n := int(x.intOf(name).n)
		a := st.args[len(st.args)-1]
		if n == 0 || n > len(a) {
			return x.tt.Str("")
		}
		return a[n-1]
	}
	if name.isConst() && name.s == "?" {
		return x.tt.Itoa(st.status)
	}
	if st.isProgVar(name) {
		return x.wGet(st.W, name)
	}
	field, idx, _ := st.counterOf(name)
	for i := len(st.log) - 1; i >= 0; i-- {
		e := st.log[i]
		switch {
		case e.name != nil:
			if x.branch(x.tt.Eq(e.name, name)) {
				return e.val
			}
		case e.frag != nil:
			// The child only writes the variables which are numbered from entry to exit and registers.
			if field != "" && (x.valid(x.tt.Lt(idx, e.frag.entry[field])) || x.valid(x.tt.Le(e.frag.exit[field], idx))) {
				continue
			}
			return x.tt.UF("left:"+fmt.Sprint(e.frag.id), SStr, e.W, name)
		case e.call != nil:
			if field != "" { // numbered variables of other functions have other numbers
				continue
			}
			return x.tt.UF("RET:"+name.String(), SStr, append([]*Term{e.call.W, e.call.name}, e.call.args...)...)
		case e.forget != 0:
			return x.tt.Var(fmt.Sprintf("left%d:%s", e.forget, name), SStr)
		}
	}
	if name.isConst() {
		st.u.readFirst[name.s] = true
	}
	return x.tt.Var("initial:"+name.String(), SStr)
}

// textValue is the value of an atom of the script text within double quotes.
func (st *shState) atomValue(s sym, quoted bool) *Term {
	x := st.x
	t := s.t
	if s.v { // a value in a text which is parsed by eval
		if t.op == "itoa" || isRef(t) {
			return t
		}
		st.quotingBad("the value " + t.String() + " is parsed as code")
	}
	switch {
	case t.op == "itoa":
		return t
	case t.op == "uf" && t.s == "TT":
		return t
	case t.op == "var" && strings.HasPrefix(t.s, "res:"):
		var id, k int
		fmt.Sscanf(t.s, "res:%d:%d", &id, &k)
		f := st.u.frags[id]
		if !quoted && x.valid(x.tt.Eq(x.tt.Len(t), x.tt.Int(0))) {
			// An empty text denotes the empty string.
			v := st.childValue(f, k)
			if v.op != "itoa" && !isRef(v) {
				x.assumeSat(x.tt.Eq(v, x.tt.Str("")))
			}
			return x.tt.Str("")
		}
		v := st.childValue(f, k)
		if !quoted && !(v.op == "itoa") && !isRef(v) {
			st.quotingBad("the value " + v.String() + " is used outside of double quotes")
		}
		return v
	case t.op == "uf" && strings.HasPrefix(t.s, "replace:"):
		if !quoted {
			st.quotingBad("the text " + t.String() + " is used outside of double quotes")
		}
		why := dqLemma(strings.Split(strings.TrimPrefix(t.s, "replace:"), "\x00"))
		if why == "?" {
			unsup("replacement of several characters")
		}
		x.require("escape", x.tt.Bool(why == ""), func() string { return why })
		return t.args[0]
	}
	if t.sort == SStr {
		if t.op == "ite" {
			return x.tt.Ite(t.args[0], st.atomValue(sym{t: t.args[1]}, quoted), st.atomValue(sym{t: t.args[2]}, quoted))
		}
		if t.isConst() {
			return t
		}
		if t.op == "var" && strings.HasPrefix(t.s, "raw:") || t.op == "uf" {
			st.quotingBad("the text " + t.String() + " is part of the script without being escaped")
		}
	}
	unsup("text %s", t)
	return nil
}

// childValue is the value the text of a result denotes now.
func (st *shState) childValue(f *fragInfo, k int) *Term {
	x := st.x
	if f == nil {
		unsup("unknown result")
	}
	if !f.used {
		return st.unknown("value of an unused result")
	}
	// The variables the text refers to must not have been changed since then.
	for i := len(st.log) - 1; ; i-- {
		if i < 0 {
			// The child has not been evaluated.
			return st.unknown(fmt.Sprintf("result %d before its evaluation", f.id))
		}
		e := st.log[i]
		if e.frag == f {
			W := e.W
			if f.child.class == "read" {
				return x.wGet(st.W, f.child.v)
			}
			return st.u.childVal(f.child, k, W)
		}
		switch {
		case e.name != nil:
			field, idx, _ := st.counterOf(e.name)
			if field == "" {
				continue // registers are no results
			}
			if x.valid(x.tt.Le(f.exit[field], idx)) || x.valid(x.tt.Lt(idx, f.entry[field])) {
				continue
			}
			return st.unknown(fmt.Sprintf("result %d after a write of %s", f.id, e.name))
		case e.frag != nil:
			ok := true
			for fd, q := range e.frag.entry {
				if !(x.valid(x.tt.Le(f.exit[fd], q)) || x.valid(x.tt.Le(e.frag.exit[fd], f.entry[fd])) || x.valid(x.tt.Eq(f.entry[fd], f.exit[fd])) || x.valid(x.tt.Eq(e.frag.entry[fd], e.frag.exit[fd]))) {
					ok = false
				}
			}
			if !ok {
				return st.unknown(fmt.Sprintf("result %d after %d", f.id, e.frag.id))
			}
		case e.forget != 0:
			return st.unknown(fmt.Sprintf("result %d of an earlier iteration", f.id))
		}
	}
}

// expand is the value of a word in a quoted context (no splitting).
func (st *shState) expand(w []shPart) *Term {
	ts := []*Term{}
	for _, p := range w {
		ts = append(ts, st.part(p, true))
	}
	return st.x.tt.Cat(ts...)
}

// expandAssign: the value of an assignment is not split.
func (st *shState) expandAssign(w []shPart) *Term {
	ts := []*Term{}
	for _, p := range w {
		q := true
		if l, ok := p.(pLit); ok && !l.quoted {
			q = false
			if len(l.text) > 0 && l.text[0].t == nil && l.text[0].b == '~' {
				unsup("tilde")
			}
		}
		ts = append(ts, st.part(p, q))
	}
	return st.x.tt.Cat(ts...)
}

// expandWord returns no or one field. Unquoted expansions must not be split.
func (st *shState) expandWord(w []shPart) (*Term, bool) {
	ts := []*Term{}
	quoted := false
	for _, p := range w {
		q := true
		switch l := p.(type) {
		case pLit:
			q = l.quoted
			quoted = true
			if !l.quoted {
				for _, s := range l.text {
					if s.t == nil && strings.IndexByte("*?[~{", s.b) >= 0 && len(w) > 0 && !(len(l.text) == 1 && s.b == '[') {
						unsup("pattern")
					}
				}
			}
		case pVar:
			q = l.quoted
		case pArith:
			q = true
		case pSub:
			q = l.quoted
		}
		if q {
			quoted = true
		}
		t := st.part(p, q)
		if !q {
			if _, isLit := p.(pLit); !isLit {
				st.splitSafe(t)
			}
		}
		ts = append(ts, t)
	}
	r := st.x.tt.Cat(ts...)
	if !quoted && r.isConst() && r.s == "" {
		return nil, false
	}
	if !quoted && !r.isConst() && !nonEmptyTerm(r) {
		unsup("unquoted expansion of %s", r)
	}
	return r, true
}

func nonEmptyTerm(t *Term) bool {
	for _, p := range pieces(t) {
		if p.op == "itoa" || isRef(p) || p.isConst() && p.s != "" {
			return true
		}
		if p.op == "ite" && nonEmptyTerm(p.args[1]) && nonEmptyTerm(p.args[2]) {
			return true
		}
	}
	return false
}

func (st *shState) splitSafe(t *Term) {
	for _, p := range pieces(t) {
		switch {
		case p.op == "itoa" || isRef(p):
		case p.isConst():
			if strings.ContainsAny(p.s, " \t\n*?[") {
				st.quotingBad("the value " + p.String() + " is split")
			}
		case p.op == "ite":
			st.splitSafe(p.args[1])
			st.splitSafe(p.args[2])
		default:
			if p.op == "var" && (strings.HasPrefix(p.s, "unknown(") || strings.HasPrefix(p.s, "left") || strings.HasPrefix(p.s, "initial:")) {
				unsup("unquoted expansion of %s", p)
			}
			st.quotingBad("the value " + p.String() + " is split as it is not quoted")
		}
	}
}

func (st *shState) part(p shPart, quoted bool) *Term {
	x := st.x
	switch p := p.(type) {
	case pLit:
		ts := []*Term{}
		for _, s := range p.text {
			if s.t == nil {
				ts = append(ts, x.tt.Str(string([]byte{s.b})))
			} else {
				if p.single {
					unsup("atom in single quotes")
				}
				ts = append(ts, st.atomValue(s, p.quoted))
			}
		}
		return x.tt.Cat(ts...)
	case pVar:
		return st.variable(p)
	case pArith:
		return x.tt.Itoa(st.arith(p.expr))
	case pSub:
		return st.substitution(p.code)
	}
	unsup("part %T", p)
	return nil
}

func (st *shState) variable(p pVar) *Term {
	x := st.x
	name := st.nameTerm(p.name)
	if p.all {
		if !p.length {
			unsup("all the elements")
		}
		return x.tt.Itoa(x.wLen(st.W, name))
	}
	var v *Term
	if p.index != nil {
		v = x.wElem(st.W, name, st.arith(p.index))
	} else {
		v = st.read(name)
	}
	if p.length {
		return x.tt.Itoa(x.tt.UF("strlen", SInt, v))
	}
	switch p.op {
	case "":
		return v
	case "%":
		a := st.expand(p.arg)
		if !a.isConst() || strings.ContainsAny(a.s, "*?[\\") {
			unsup("removal of %s", a)
		}
		return st.trimSuffix(v, a.s)
	case ":":
		from := st.arith(p.arg)
		if p.arg2 == nil {
			unsup("substring without a length")
		}
		return x.tt.UF("strsub", SStr, v, from, st.arith(p.arg2))
	}
	unsup("expansion %s", p.op)
	return nil
}

func (st *shState) trimSuffix(v *Term, s string) *Term {
	ps := pieces(v)
	if len(ps) > 0 && ps[len(ps)-1].isConst() {
		l := ps[len(ps)-1].s
		if strings.HasSuffix(l, s) {
			return st.x.tt.Cat(append(append([]*Term{}, ps[:len(ps)-1]...), st.x.tt.Str(l[:len(l)-len(s)]))...)
		}
		if len(l) >= len(s) {
			return v
		}
	}
	if len(ps) == 0 {
		return v
	}
	return st.x.tt.UF("trimsuffix", SStr, v, st.x.tt.Str(s))
}

// substitution runs a command substitution and returns its output without trailing newlines.
func (st *shState) substitution(l shList) *Term {
	x := st.x
	sub := *st
	out := x.tt.Str("")
	sub.capture = &out
	sub.log = append([]logEntry{}, st.log...)
	sub.loop = nil
	W := sub.W
	o := sub.run(l)
	if o.kind == "exit" {
		sub.status = o.code
	} else if o.kind != "" {
		unsup("%s in a command substitution", o.kind)
	}
	// Assignments within the subshell are lost.
	st.W = x.keepEffects(W, sub.W)
	st.status = sub.status
	st.unk = sub.unk
	return st.stripNewlines(out)
}

// keepEffects drops assignments of variables which were made since the base.
func (x *X) keepEffects(base, W *Term) *Term {
	if W == base {
		return W
	}
	if W.op != "uf" {
		unsup("world of a command substitution")
	}
	in := x.keepEffects(base, W.args[0])
	if W.s == "set" || W.s == "aset" || W.s == "growset" || W.s == "copy" {
		return in
	}
	return x.tt.UF(W.s, SAny, append([]*Term{in}, W.args[1:]...)...)
}

func (st *shState) stripNewlines(t *Term) *Term {
	ps := pieces(t)
	if len(ps) == 0 {
		return t
	}
	l := ps[len(ps)-1]
	switch {
	case l.isConst():
		s := strings.TrimRight(l.s, "\n")
		r := st.x.tt.Cat(append(append([]*Term{}, ps[:len(ps)-1]...), st.x.tt.Str(s))...)
		if s == "" && len(ps) > 1 {
			return st.stripNewlines(r)
		}
		return r
	case l.op == "itoa" || isRef(l):
		return t
	}
	return st.x.tt.UF("stripnewlines", SStr, t)
}

func (st *shState) emit(text *Term) {
	if st.capture != nil {
		*st.capture = st.x.tt.Cat(*st.capture, text)
		return
	}
	st.W = st.x.wOut(st.W, text)
}

// arith evaluates an arithmetic expression.
func (st *shState) arith(parts []shPart) *Term {
	type tok struct {
		op string
		v  *Term
	}
	x := st.x
	toks := []tok{}
	num := ""
	name := []sym{}
	flush := func() {
		if num != "" {
			toks = append(toks, tok{v: x.intOf(x.tt.Str(num))})
			num = ""
		}
		if len(name) > 0 {
			toks = append(toks, tok{v: x.intOf(st.read(st.nameTerm(name)))})
			name = nil
		}
	}
	for _, p := range parts {
		if l, ok := p.(pLit); ok {
			for _, s := range l.text {
				if s.t != nil {
					if num != "" || len(name) > 0 {
						if len(name) > 0 {
							name = append(name, s)
							continue
						}
						unsup("number composed of parts")
					}
					v := st.atomValue(s, true)
					if v.op != "itoa" && !v.isConst() {
						unsup("arithmetic on %s", v)
					}
					toks = append(toks, tok{v: x.intOf(v)})
					continue
				}
				switch {
				case s.b >= '0' && s.b <= '9' && len(name) == 0:
					num += string([]byte{s.b})
				case nameByte(s.b):
					if num != "" {
						unsup("arithmetic name")
					}
					name = append(name, s)
				case strings.IndexByte("+-*/%()", s.b) >= 0:
					flush()
					toks = append(toks, tok{op: string([]byte{s.b})})
				case s.b == ' ':
					flush()
				default:
					unsup("arithmetic operator %c", s.b)
				}
			}
			continue
		}
		if num != "" || len(name) > 0 {
			unsup("number composed of parts")
		}
		v := st.part(p, true)
		toks = append(toks, tok{v: x.intOf(v)})
	}
	flush()
	i := 0
	var expr func() *Term
	var factor func() *Term
	factor = func() *Term {
		if i >= len(toks) {
			unsup("arithmetic expression")
		}
		t := toks[i]
		i++
		switch {
		case t.v != nil:
			return t.v
		case t.op == "(":
			v := expr()
			if i >= len(toks) || toks[i].op != ")" {
				unsup("arithmetic parentheses")
			}
			i++
			return v
		case t.op == "-":
			return x.tt.Sub(x.tt.Int(0), factor())
		case t.op == "+":
			return factor()
		}
		unsup("arithmetic expression")
		return nil
	}
	term := func() *Term {
		v := factor()
		for i < len(toks) && (toks[i].op == "*" || toks[i].op == "/" || toks[i].op == "%") {
			op := toks[i].op
			i++
			v = x.arithOp(op, v, factor())
		}
		return v
	}
	expr = func() *Term {
		v := term()
		for i < len(toks) && (toks[i].op == "+" || toks[i].op == "-") {
			op := toks[i].op
			i++
			v = x.arithOp(op, v, term())
		}
		return v
	}
	v := expr()
	if i < len(toks) {
		unsup("arithmetic expression")
	}
	return v
}

// arithOp is the meaning of an arithmetic operator in Bash and in Go: wrapping addition, subtraction and
// multiplication are taken as mathematical ones, division and remainder truncate.
func (x *X) arithOp(op string, a, b *Term) *Term {
	switch op {
	case "+":
		return x.tt.Add(a, b)
	case "-":
		return x.tt.Sub(a, b)
	case "*":
		return x.tt.Mul(a, b)
	case "/":
		return x.tt.UF("quo", SInt, a, b)
	case "%":
		return x.tt.UF("rem", SInt, a, b)
	}
	unsup("operator %s", op)
	return nil
}

func (st *shState) setOK(c *Term) {
	st.ok = c
	st.status = st.x.tt.Ite(c, st.x.tt.Int(0), st.x.tt.Int(1))
}

func (st *shState) run(l shList) outcome {
	st.depth++
	defer func() { st.depth-- }()
	if st.depth > 60 {
		unsup("nesting of the emitted code")
	}
	for _, n := range l {
		if o := st.cmd(n); o.kind != "" {
			return o
		}
	}
	return outcome{}
}

func (st *shState) cond(l shList) (bool, outcome) {
	o := st.run(l)
	if o.kind != "" {
		return false, o
	}
	return st.x.branch(st.ok), o
}

func (st *shState) cmd(n shNode) outcome {
	x := st.x
	switch n := n.(type) {
	case *shFrag:
		return st.fragment(n)
	case *shIf:
		for i, c := range n.conds {
			ok, o := st.cond(c)
			if o.kind != "" {
				return o
			}
			if ok {
				return st.run(n.thens[i])
			}
		}
		st.setOK(x.tt.tru)
		return st.run(n.els)
	case *shAndOr:
		if o := st.cmd(n.l); o.kind != "" {
			return o
		}
		if x.branch(st.ok) == (n.op == "&&") {
			return st.cmd(n.r)
		}
		return outcome{}
	case *shNot:
		o := st.cmd(n.c)
		st.setOK(x.tt.Not(st.ok))
		return o
	case *shWhile:
		if st.loop != nil {
			f := st.loop
			st.loop = nil
			o := f(st, n)
			return o
		}
		return st.onceLoop(n)
	case *shFunc:
		name := st.nameTerm(n.name[0].(pLit).text)
		st.u.named("func", name)
		if !name.isConst() {
			st.u.defines = append(st.u.defines, &funcDef{name, n.body})
			return outcome{}
		}
		st.funcs[name.s] = n
		return outcome{}
	case *shPipe:
		return st.pipe(n.cmds)
	case *shSimple:
		return st.simple(n)
	}
	unsup("command %T", n)
	return outcome{}
}

// onceLoop is a loop which is only there to be left by break.
func (st *shState) onceLoop(n *shWhile) outcome {
	ok, o := st.cond(n.cond)
	if o.kind != "" {
		return o
	}
	if !ok {
		return outcome{}
	}
	o = st.run(n.body)
	switch {
	case o.kind == "break" && o.n <= 1:
		return outcome{}
	case o.kind == "break" || o.kind == "continue" && o.n > 1:
		return outcome{kind: o.kind, n: o.n - 1}
	case o.kind == "return" || o.kind == "exit":
		return o
	}
	st.x.bad("control", "a loop which is no loop of the program is repeated")
	panic(pathEnd{"repeated"})
}

func (st *shState) pipe(cmds []shNode) outcome {
	all := [][]*Term{}
	for _, c := range cmds {
		s, ok := c.(*shSimple)
		if !ok || len(s.assigns) > 0 || len(s.redirs) > 0 {
			unsup("pipeline")
		}
		ws := st.words(s)
		if len(ws) == 0 || st.known(ws[0]) {
			unsup("pipeline of builtins")
		}
		all = append(all, ws)
	}
	st.external(all)
	return outcome{}
}

func (st *shState) known(w *Term) bool {
	if !w.isConst() {
		return false
	}
	if st.funcs[w.s] != nil {
		return true
	}
	switch w.s {
	case "[", "printf", "echo", ":", "true", "false", "read", "eval", "local", "exit", "return", "break", "continue", "cat", "test", "unset", "declare", "let", "shift", "set", "export", "trap", "source", "exec", "cd":
		return true
	}
	return false
}

func appShape(cmds [][]*Term) (string, []*Term) {
	shape := ""
	args := []*Term{}
	for _, c := range cmds {
		shape += fmt.Sprintf("/%d", len(c))
		args = append(args, c...)
	}
	return shape, args
}

func (st *shState) external(cmds [][]*Term) {
	x := st.x
	shape, args := appShape(cmds)
	wa := append([]*Term{st.W}, args...)
	st.status = x.tt.UF("appcode"+shape, SInt, wa...)
	st.ok = x.tt.Eq(st.status, x.tt.Int(0))
	if st.capture != nil {
		*st.capture = x.tt.Cat(*st.capture, x.tt.UF("appout"+shape, SStr, wa...))
		st.W = x.tt.UF("appcap"+shape, SAny, wa...)
	} else {
		st.W = x.tt.UF("apprun"+shape, SAny, wa...)
	}
}

func (st *shState) words(s *shSimple) []*Term {
	ws := []*Term{}
	for _, w := range s.words {
		if t, ok := st.expandWord(w); ok {
			ws = append(ws, t)
		}
	}
	return ws
}

func (st *shState) assign(a shAssign) {
	x := st.x
	sub := false
	for _, p := range a.value {
		if _, ok := p.(pSub); ok {
			sub = true
		}
	}
	st.u.nameText(a.name)
	name := st.nameTerm(a.name[0].(pLit).text)
	var idx *Term
	if a.index != nil {
		idx = st.arith(a.index)
	}
	if !sub {
		st.setOK(x.tt.tru)
	}
	old := st.status
	v := st.expandAssign(a.value)
	if a.local || !sub {
		st.setOK(x.tt.tru)
	} else {
		_ = old
		st.ok = x.tt.Eq(st.status, x.tt.Int(0))
	}
	if idx != nil {
		st.W = x.tt.UF("aset", SAny, st.W, name, idx, v)
		return
	}
	st.write(name, v)
}

func (st *shState) simple(n *shSimple) outcome {
	x := st.x
	if len(n.words) == 0 {
		if len(n.redirs) > 0 {
			unsup("redirection without a command")
		}
		for _, a := range n.assigns {
			// $? of the preceding command is available to the value.
			st.assign2(a)
		}
		return outcome{}
	}
	ws := st.words(n)
	if len(ws) == 0 {
		unsup("empty command")
	}
	name := ws[0]
	args := ws[1:]
	if name.isConst() || containsUF(name, "TT") {
		st.u.named("func", name)
	}
	if !name.isConst() {
		if len(n.redirs) > 0 || len(n.assigns) > 0 {
			unsup("assignments or redirections of a call")
		}
		if containsUF(name, "TT") {
			return st.userCall(name, args)
		}
		// The name must be given in quotes.
		st.external([][]*Term{ws})
		return outcome{}
	}
	if len(n.assigns) > 0 && name.s != "local" && name.s != "read" {
		unsup("assignment in front of %s", name.s)
	}
	if len(n.redirs) > 0 && name.s != "printf" && name.s != "cat" && name.s != "echo" && name.s != ":" {
		unsup("redirection of %s", name.s)
	}
	level := func() int {
		if len(args) == 0 {
			return 1
		}
		if !args[0].isConst() {
			unsup("symbolic level")
		}
		return int(x.intOf(args[0]).n)
	}
	switch name.s {
	case ":", "true":
		if len(n.redirs) > 0 {
			unsup("redirection")
		}
		st.setOK(x.tt.tru)
		return outcome{}
	case "false":
		st.setOK(x.tt.fls)
		return outcome{}
	case "[", "test":
		if name.s == "[" {
			if len(args) == 0 || !args[len(args)-1].isConst() || args[len(args)-1].s != "]" {
				unsup("test without ]")
			}
			args = args[:len(args)-1]
		}
		st.setOK(st.test(args))
		return outcome{}
	case "local":
		if len(n.assigns) > 0 {
			if len(args) > 0 {
				unsup("local")
			}
			for _, a := range n.assigns {
				st.assign(a)
			}
		} else {
			for _, a := range args {
				st.write(a, x.tt.Str(""))
			}
		}
		st.setOK(x.tt.tru)
		return outcome{}
	case "break":
		return outcome{kind: "break", n: level()}
	case "continue":
		return outcome{kind: "continue", n: level()}
	case "return":
		return outcome{kind: "return"}
	case "exit":
		c := st.status
		if len(args) > 0 {
			c = x.intOf(args[0])
		}
		return outcome{kind: "exit", code: c}
	case "printf", "echo":
		var text *Term
		if name.s == "echo" {
			for i, a := range args {
				if !(a.op == "itoa" || a.isConst() && !strings.HasPrefix(a.s, "-") || i > 0 && args[0].isConst()) {
					st.quotingBad("echo interprets the value " + a.String() + " as an option")
				}
				if i > 0 {
					text = x.tt.Cat(text, x.tt.Str(" "), a)
				} else {
					text = a
				}
			}
			if text == nil {
				text = x.tt.Str("")
			}
			text = x.tt.Cat(text, x.tt.Str("\n"))
		} else {
			if len(args) > 0 && args[0].isConst() && args[0].s == "--" {
				args = args[1:]
			}
			if len(args) == 0 {
				unsup("printf without a format")
			}
			if !args[0].isConst() {
				st.quotingBad("the value " + args[0].String() + " is a format")
			}
			if strings.HasPrefix(args[0].s, "-") {
				unsup("printf option")
			}
			text = st.printf(args[0].s, args[1:])
		}
		st.setOK(x.tt.tru)
		switch len(n.redirs) {
		case 0:
			st.emit(text)
		case 1:
			path := st.expand(n.redirs[0].target)
			if len(n.redirs[0].target) > 0 {
				if _, ok := st.expandWord(n.redirs[0].target); !ok {
					unsup("empty target")
				}
			}
			switch n.redirs[0].op {
			case ">":
				st.W = x.tt.UF("fwrite", SAny, st.W, path, text)
			case ">>":
				st.W = x.tt.UF("fappend", SAny, st.W, path, text)
			default:
				unsup("redirection")
			}
			st.status = x.tt.UF("filestatus", SInt, st.W)
			st.ok = x.tt.Eq(st.status, x.tt.Int(0))
		default:
			unsup("redirections")
		}
		return outcome{}
	case "cat":
		var path *Term
		if len(args) > 0 && args[0].isConst() && args[0].s == "--" && len(args) == 2 && len(n.redirs) == 0 {
			path = args[1]
		} else if len(args) == 0 && len(n.redirs) == 1 && n.redirs[0].op == "<" {
			p, ok := st.expandWord(n.redirs[0].target)
			if !ok {
				unsup("empty target")
			}
			path = p
		} else {
			if len(args) == 1 && !args[0].isConst() {
				st.quotingBad("cat interprets the value " + args[0].String() + " as an option")
			}
			unsup("cat")
		}
		st.emit(x.tt.UF("fread", SStr, fileView(st.W), path))
		st.status = x.tt.UF("filestatus", SInt, st.W)
		st.ok = x.tt.Eq(st.status, x.tt.Int(0))
		return outcome{}
	case "read":
		raw, ifs := false, false
		prompt := x.tt.Str("")
		for _, a := range n.assigns {
			if nm := st.nameTerm(a.name[0].(pLit).text); nm.isConst() && nm.s == "IFS" {
				if v := st.expandAssign(a.value); v.isConst() && v.s == "" {
					ifs = true
				}
			}
		}
		i := 0
		for ; i < len(args); i++ {
			if args[i].isConst() && args[i].s == "-r" {
				raw = true
			} else if args[i].isConst() && args[i].s == "-p" && i+1 < len(args) {
				prompt = args[i+1]
				i++
			} else if args[i].isConst() && args[i].s == "-rp" && i+1 < len(args) {
				raw = true
				prompt = args[i+1]
				i++
			} else {
				break
			}
		}
		if len(args) != i+1 {
			unsup("read")
		}
		v := x.tt.UF("stdinline", SStr, st.W)
		if !raw || !ifs {
			v = x.tt.UF("processedline", SStr, v)
		}
		st.W = x.tt.UF("rd", SAny, st.W, prompt)
		st.write(args[i], v)
		st.setOK(x.tt.tru)
		return outcome{}
	case "eval":
		text := args[0]
		for _, a := range args[1:] {
			text = x.tt.Cat(text, x.tt.Str(" "), a)
		}
		l, err := parseShell(symsOf(text, true), &st.ids)
		if err != nil {
			for _, p := range pieces(text) {
				if p.op != "itoa" && !p.isConst() && !isRef(p) {
					st.quotingBad("the value " + p.String() + " is parsed as code")
				}
			}
			unsup("eval of %s: %s", text, err.why)
		}
		return st.run(l)
	}
	if f := st.funcs[name.s]; f != nil {
		return st.helper(name.s, f, args)
	}
	if st.known(name) {
		unsup("command %s", name.s)
	}
	// A command of the emitted code itself which is not defined.
	if strings.HasPrefix(name.s, "_") || strings.HasPrefix(name.s, "v_") {
		x.bad("helper-defined", "the function "+name.s+" is not defined")
		panic(pathEnd{"undefined helper"})
	}
	st.external([][]*Term{ws})
	return outcome{}
}

// assign2 keeps $? of the preceding command for the value.
func (st *shState) assign2(a shAssign) {
	usesStatus := false
	for _, p := range a.value {
		if v, ok := p.(pVar); ok && len(v.name) == 1 && v.name[0].t == nil && v.name[0].b == '?' {
			usesStatus = true
		}
	}
	if usesStatus {
		x := st.x
		v := st.expandAssign(a.value)
		st.setOK(x.tt.tru)
		if a.index != nil {
			unsup("status as an element")
		}
		st.write(st.nameTerm(a.name[0].(pLit).text), v)
		return
	}
	st.assign(a)
}

func fileView(W *Term) *Term {
	for W.op == "uf" {
		switch W.s {
		case "set", "out", "growset", "aset", "copy", "rd":
			W = W.args[0]
			continue
		}
		break
	}
	return W
}

func (st *shState) printf(f string, args []*Term) *Term {
	x := st.x
	out := []*Term{}
	k := 0
	for {
		used := false
		for i := 0; i < len(f); i++ {
			switch {
			case f[i] == '\\' && i+1 < len(f):
				i++
				switch f[i] {
				case 'n':
					out = append(out, x.tt.Str("\n"))
				case 't':
					out = append(out, x.tt.Str("\t"))
				case '\\':
					out = append(out, x.tt.Str("\\"))
				default:
					unsup("printf escape")
				}
			case f[i] == '%' && i+1 < len(f):
				i++
				switch f[i] {
				case '%':
					out = append(out, x.tt.Str("%"))
				case 's':
					if k < len(args) {
						out = append(out, args[k])
						k++
					}
					used = true
				case 'b':
					st.quotingBad("printf interprets escapes of a value")
				default:
					unsup("printf conversion")
				}
			default:
				out = append(out, x.tt.Str(f[i:i+1]))
			}
		}
		if k >= len(args) || !used {
			return x.tt.Cat(out...)
		}
	}
}

func (st *shState) test(args []*Term) *Term {
	x := st.x
	isOp := func(t *Term, ops ...string) bool {
		if !t.isConst() {
			return false
		}
		for _, o := range ops {
			if t.s == o {
				return true
			}
		}
		return false
	}
	switch len(args) {
	case 0:
		return x.tt.fls
	case 1:
		return x.tt.Not(x.tt.Eq(args[0], x.tt.Str("")))
	case 2:
		if isOp(args[0], "!") {
			return x.tt.Not(st.test(args[1:]))
		}
		switch {
		case isOp(args[0], "-z"):
			return x.tt.Eq(args[1], x.tt.Str(""))
		case isOp(args[0], "-n"):
			return x.tt.Not(x.tt.Eq(args[1], x.tt.Str("")))
		case isOp(args[0], "-e"):
			return x.tt.UF("exists", SBool, fileView(st.W), args[1])
		case args[0].isConst():
			return x.tt.UF("test"+args[0].s, SBool, fileView(st.W), args[1])
		}
	case 3:
		if args[1].isConst() {
			switch args[1].s {
			case "-eq", "-ne", "-lt", "-le", "-gt", "-ge":
				a, b := x.intOf(args[0]), x.intOf(args[2])
				switch args[1].s {
				case "-eq":
					return x.tt.Eq(a, b)
				case "-ne":
					return x.tt.Not(x.tt.Eq(a, b))
				case "-lt":
					return x.tt.Lt(a, b)
				case "-le":
					return x.tt.Le(a, b)
				case "-gt":
					return x.tt.Lt(b, a)
				}
				return x.tt.Le(b, a)
			case "==", "=":
				return x.tt.Eq(args[0], args[2])
			case "!=":
				return x.tt.Not(x.tt.Eq(args[0], args[2]))
			case "<":
				return x.strLt(args[0], args[2])
			case ">":
				return x.strLt(args[2], args[0])
			}
		}
		if isOp(args[0], "!") {
			return x.tt.Not(st.test(args[1:]))
		}
	}
	unsup("test with %d operands", len(args))
	return nil
}

func (x *X) strLt(a, b *Term) *Term {
	if a == b {
		return x.tt.fls
	}
	return x.tt.UF("strlt", SBool, a, b)
}

func (st *shState) userCall(name *Term, args []*Term) outcome {
	x := st.x
	ev := &callEv{name, args, st.W}
	st.u.calls = append(st.u.calls, ev)
	st.log = append(st.log, logEntry{call: ev, W: st.W})
	wa := append([]*Term{st.W, name}, args...)
	st.W = x.tt.UF(fmt.Sprintf("CALL/%d", len(args)), SAny, wa...)
	st.setOK(x.tt.tru)
	return outcome{}
}

// hasLoop reports whether a function of the script loops.
func hasLoop(l shList) bool {
	for _, n := range l {
		switch n := n.(type) {
		case *shWhile:
			return true
		case *shIf:
			for _, t := range n.thens {
				if hasLoop(t) {
					return true
				}
			}
			if hasLoop(n.els) {
				return true
			}
		}
	}
	return false
}

// helper calls a function of the script's own code.
func (st *shState) helper(name string, f *shFunc, args []*Term) outcome {
	if hasLoop(f.body) {
		if st.u.inHelper {
			unsup("nested helper")
		}
		return st.helperContract(name, f, args)
	}
	st.args = append(st.args, args)
	o := st.run(f.body)
	st.args = st.args[:len(st.args)-1]
	if o.kind == "return" {
		return outcome{}
	}
	return o
}

func (st *shState) fragment(n *shFrag) outcome {
	x := st.x
	f := st.u.frags[n.id]
	if f == nil {
		unsup("unknown fragment")
	}
	if st.capture != nil {
		unsup("child within a command substitution")
	}
	W := st.W
	st.log = append(st.log, logEntry{frag: f, W: W})
	st.W = st.u.childEffect(f.child, W)
	st.setOK(x.tt.UF(fmt.Sprintf("status:%d", f.child.id), SBool, W))
	c := st.u.childCtl(f.child, W)
	if c == "" {
		return outcome{}
	}
	for _, b := range n.ctls {
		if b.kind == c {
			o := st.run(b.code)
			if o.kind == "" {
				x.bad("control", c+" does not leave the block")
				panic(pathEnd{"control"})
			}
			return o
		}
	}
	unsup("no code for %s", c)
	return outcome{}
}

func sortedKeys[V any](m map[string]V) []string {
	k := []string{}
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// helperContract verifies a helper with a loop and replaces the call by its meaning.
func (st *shState) helperContract(name string, f *shFunc, args []*Term) outcome {
	x := st.x
	W := st.W
	log := len(st.log)
	st.u.inHelper = true
	old := st.loop
	st.args = append(st.args, args)
	st.loop = (*shState).fillLoop
	o := st.run(f.body)
	st.loop = old
	st.args = st.args[:len(st.args)-1]
	st.u.inHelper = false
	_ = log
	if o.kind == "return" {
		o = outcome{}
	}
	if o.kind != "" {
		return o
	}
	// fill(W, slice, from, to, value of the element K): aset(fill(W, ref, L, l, d), ref, i, v) is growset.
	K := x.tt.Var("K!", SInt)
	if e := st.W; e.op == "uf" && e.s == "aset" && e.args[0].op == "uf" && e.args[0].s == "fill" && e.args[0].args[0] == W {
		fl := e.args[0]
		ref, idx := e.args[1], e.args[2]
		from, to, val := fl.args[2], fl.args[3], fl.args[4]
		n := x.wLen(W, ref)
		max := x.tt.Ite(x.tt.Lt(n, idx), idx, n)
		dep := false
		walk(val, map[int]bool{}, func(y *Term) { dep = dep || y == K })
		if !dep && x.valid(x.tt.And(x.tt.Eq(fl.args[1], ref), x.tt.Eq(from, n), x.tt.Eq(to, max))) {
			st.W = x.tt.UF("growset", SAny, W, ref, idx, e.args[3], val)
			x.good("helper-" + name)
			return outcome{}
		}
	}
	if fl := st.W; fl.op == "uf" && fl.s == "fill" && fl.args[0] == W {
		val := fl.args[4]
		if val.op == "uf" && strings.HasSuffix(val.s, "elem") || val.op == "itoa" && val.args[0].op == "uf" && strings.HasSuffix(val.args[0].s, "elem") {
			e := val
			if val.op == "itoa" {
				e = val.args[0]
			}
			src := e.args[1]
			n := x.wLen(W, src)
			if e.args[2] == K && x.valid(x.tt.And(x.tt.Eq(fl.args[2], x.tt.Int(0)), x.tt.Eq(fl.args[3], n))) {
				st.W = x.tt.UF("copy", SAny, W, fl.args[1], src)
				x.good("helper-" + name)
				return outcome{}
			}
		}
	}
	unsup("effect of the helper %s: %s", name, st.W)
	return outcome{}
}

// fillLoop is the rule for loops which set the elements of a slice one after the other: a counter grows by one
// with each iteration, the condition only depends on the counter.
func (st *shState) fillLoop(w *shWhile) outcome {
	x := st.x
	// A trial iteration determines the counter.
	W0 := st.W
	trial := *st
	trial.log = append([]logEntry{}, st.log...)
	trial.loop = nil
	mark := len(trial.log)
	if o := trial.run(w.cond); o.kind != "" {
		unsup("loop condition of a helper")
	}
	if o := trial.run(w.body); o.kind != "" {
		unsup("%s in the loop of a helper", o.kind)
	}
	var cnt *Term
	for _, e := range trial.log[mark:] {
		if e.name == nil || cnt != nil && cnt != e.name {
			unsup("several variables change in the loop of a helper")
		}
		cnt = e.name
	}
	if cnt == nil {
		unsup("the loop of a helper has no counter")
	}
	from := x.intOf(st.read(cnt))
	l := x.tt.Var(x.name("loopcounter"), SInt)
	at := func(n, W *Term) *shState {
		s := *st
		s.log = append(append([]logEntry{}, st.log...), logEntry{name: cnt, val: x.tt.Itoa(n)})
		s.loop = nil
		s.W = W
		return &s
	}
	cond := func(n *Term) *Term {
		s := at(n, W0)
		if o := s.run(w.cond); o.kind != "" || s.W != W0 {
			unsup("loop condition of a helper")
		}
		return s.ok
	}
	x.assume(x.tt.Le(from, l))
	x.assume(x.tt.Or(x.tt.Eq(l, from), cond(x.tt.AddN(l, -1))))
	// One iteration.
	Wh := x.tt.Var("Wh!", SAny)
	it := at(l, Wh)
	x.assume(x.tt.tru)
	if o := it.run(w.body); o.kind != "" {
		unsup("loop of a helper")
	}
	if !x.valid(x.tt.Eq(x.intOf(it.read(cnt)), x.tt.AddN(l, 1))) {
		unsup("the counter of the loop of a helper")
	}
	a := it.W
	if a.op != "uf" || a.s != "aset" || a.args[0] != Wh || !x.valid(x.tt.Eq(a.args[2], l)) {
		unsup("loop of a helper: %s", a)
	}
	K := x.tt.Var("K!", SInt)
	val := x.subst(x.subst(a.args[3], l, K), Wh, W0)
	st.write(cnt, x.tt.Itoa(l))
	st.W = x.tt.UF("fill", SAny, W0, a.args[1], from, l, val)
	x.assumeSat(x.tt.Not(cond(l)))
	st.setOK(x.tt.tru)
	return outcome{}
}

// subst replaces a subterm.
func (x *X) subst(t, a, b *Term) *Term {
	if t == a {
		return b
	}
	if len(t.args) == 0 {
		return t
	}
	args := []*Term{}
	same := true
	for _, s := range t.args {
		n := x.subst(s, a, b)
		same = same && n == s
		args = append(args, n)
	}
	if same {
		return t
	}
	switch t.op {
	case "itoa":
		return x.tt.Itoa(args[0])
	case "uf":
		return x.tt.UF(t.s, t.sort, args...)
	case "cat":
		return x.tt.Cat(args...)
	}
	unsup("substitution in %s", t.op)
	return nil
}
