package main

// Contract of the lexer: the text is split along the token grammar, one token per repetition of the
// main loop, for texts and tokens of any length.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	pUnits = append(pUnits, &pDef{fn: "Tokenize", pkg: "lexer", props: "C11 C12 C13", raw: rawTokenize})
}

// ---- texts: strings whose bytes are known as terms

const textVar = "text:"

// text is the range of a text which a term stands for.
func (t *termTab) text(a *Term) (s, lo, hi *Term, ok bool) {
	switch {
	case a.op == "var" && a.sort == SStr && strings.HasPrefix(a.s, textVar):
		return a, t.Int(0), t.UF("len", SInt, a), true
	case a.op == "uf" && a.s == "substr" && a.args[0].op == "var" && strings.HasPrefix(a.args[0].s, textVar):
		return a.args[0], a.args[1], a.args[2], true
	}
	return nil, nil, nil, false
}

func (t *termTab) sub(s, lo, hi *Term) *Term {
	if lo == hi {
		return t.Str("")
	}
	return t.UF("substr", SStr, s, lo, hi)
}

// eqText compares a part of a text with a constant.
func (t *termTab) eqText(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	s, lo, hi, ok := t.text(a)
	if !ok || !b.isConst() {
		return nil
	}
	r := t.Eq(t.Sub(hi, lo), t.Int(int64(len(b.s))))
	for i := 0; i < len(b.s); i++ {
		r = t.And(r, t.Eq(t.UF("byteat", SInt, s, t.AddN(lo, int64(i))), t.Int(int64(b.s[i]))))
	}
	return r
}

func (x *X) byteAt(s, i *Term) *Term {
	r := x.tt.UF("byteat", SInt, s, i)
	x.assume(x.tt.And(x.tt.Le(x.tt.Int(0), r), x.tt.Le(r, x.tt.Int(255))))
	return r
}

// lines are the number of newlines in a range and the position behind the last one.
func (x *X) lines(s, a, b *Term) (count, last *Term) {
	t := x.tt
	if d := t.Sub(b, a); d.isConst() && d.n <= 3 {
		count, last = t.Int(0), a
		for i := int64(0); i < d.n; i++ {
			p := t.AddN(a, i)
			is := t.Eq(x.byteAt(s, p), t.Int('\n'))
			count = t.Add(count, t.Ite(is, t.Int(1), t.Int(0)))
			last = t.Ite(is, t.AddN(p, 1), last)
		}
		return count, last
	}
	count, last = t.UF("newlines", SInt, s, a, b), t.UF("lastline", SInt, s, a, b)
	none := t.Eq(count, t.Int(0))
	x.assume(t.Le(t.Int(0), count))
	x.assume(t.Eq(none, t.Eq(last, a)))
	x.assume(t.And(t.Le(a, last), t.Le(last, b)))
	return count, last
}

// noLines is known of ranges of characters which are no newlines.
func (x *X) noLines(s, a, b *Term) {
	c, l := x.lines(s, a, b)
	x.assume(x.tt.Eq(c, x.tt.Int(0)))
	x.assume(x.tt.Eq(l, a))
}

// class is a set of bytes.
type class [256]bool

func classOf(f func(b byte) bool) *class {
	c := &class{}
	for i := range c {
		c[i] = f(byte(i))
	}
	return c
}

var (
	digits   = classOf(func(b byte) bool { return b >= '0' && b <= '9' })
	letters  = classOf(func(b byte) bool { return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' })
	alnums   = classOf(func(b byte) bool { return digits[b] || letters[b] })
	noBreaks = classOf(func(b byte) bool { return b != '\n' })
)

func (c *class) ranges() [][2]int64 {
	r := [][2]int64{}
	for i := 0; i < 256; i++ {
		if c[i] {
			j := i
			for j < 255 && c[j+1] {
				j++
			}
			r = append(r, [2]int64{int64(i), int64(j)})
			i = j
		}
	}
	return r
}

func (x *X) inClass(c *class, b *Term) *Term {
	r := x.tt.fls
	for _, q := range c.ranges() {
		r = x.tt.Or(r, x.tt.And(x.tt.Le(x.tt.Int(q[0]), b), x.tt.Le(b, x.tt.Int(q[1]))))
	}
	return r
}

// is: there is a byte of the class.
func (x *X) is(c *class, s, i *Term) *Term {
	return x.tt.And(x.tt.Lt(i, x.tt.Len(s)), x.inClass(c, x.byteAt(s, i)))
}

// runEnd is the end of the longest run of bytes of a class.
func (x *X) runEnd(c *class, s, i *Term) *Term {
	t := x.tt
	r := t.UF("run:"+fmt.Sprint(c.ranges()), SInt, s, i)
	n := t.Len(s)
	x.assume(t.Imp(t.Le(i, n), t.And(t.Le(i, r), t.Le(r, n))))
	x.assume(t.Not(x.is(c, s, r)))
	x.assume(t.Eq(t.Eq(r, i), t.Not(x.is(c, s, i))))
	return r
}

// unfoldRun: a run is one byte longer than that behind it.
func (x *X) unfoldRun(c *class, s, i *Term) {
	x.assume(x.tt.Imp(x.is(c, s, i), x.tt.Eq(x.runEnd(c, s, i), x.runEnd(c, s, x.tt.AddN(i, 1)))))
}

func (x *X) at(l string, s, i *Term) *Term {
	r := x.tt.Le(x.tt.AddN(i, int64(len(l))), x.tt.Len(s))
	for k := 0; k < len(l); k++ {
		r = x.tt.And(r, x.tt.Eq(x.byteAt(s, x.tt.AddN(i, int64(k))), x.tt.Int(int64(l[k]))))
	}
	return r
}

// findFirst is the position of the first occurrence behind a position (-1).
func (x *X) findFirst(l string, s, i *Term) *Term {
	t := x.tt
	r := t.UF("find:"+l, SInt, s, i)
	x.assume(t.Or(t.Eq(r, t.Int(-1)), t.And(t.Le(i, r), x.at(l, s, r))))
	x.assume(t.Imp(x.at(l, s, i), t.Eq(r, i)))
	return r
}

func (x *X) unfoldFind(l string, s, i *Term) {
	t := x.tt
	x.assume(t.Imp(t.And(t.Lt(i, t.Len(s)), t.Not(x.at(l, s, i))), t.Eq(x.findFirst(l, s, i), x.findFirst(l, s, t.AddN(i, 1)))))
	x.assume(t.Imp(t.Le(t.Len(s), i), t.Eq(x.findFirst(l, s, i), t.Int(-1))))
}

// ---- regular expressions (leftmost match, first alternative)

type rxMatch struct {
	x    *X
	s    *Term
	lo   *Term
	hi   *Term
	caps map[int][2]*Term
}

func (m *rxMatch) classOf(re *syntax.Regexp) *class {
	c := &class{}
	switch re.Op {
	case syntax.OpAnyChar:
		return classOf(func(b byte) bool { return true })
	case syntax.OpAnyCharNotNL:
		return noBreaks
	case syntax.OpLiteral:
		if len(re.Rune) == 1 && re.Rune[0] < 128 && re.Flags&syntax.FoldCase == 0 {
			c[re.Rune[0]] = true
			return c
		}
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			a, b := re.Rune[i], re.Rune[i+1]
			if b >= 128 && (b != 0x10ffff || a > 128) {
				unsup("regular expression %s", re)
			}
			for k := a; k <= min(b, 255); k++ {
				c[k] = true
			}
		}
		return c
	}
	return nil
}

func ascii(c *class) bool { return !c[128] }

func (m *rxMatch) match(re *syntax.Regexp, pos *Term, k func(pos *Term) bool) bool {
	x, t := m.x, m.x.tt
	switch re.Op {
	case syntax.OpEmptyMatch:
		return k(pos)
	case syntax.OpBeginText:
		return x.branch(t.Eq(pos, m.lo)) && k(pos)
	case syntax.OpEndText:
		return x.branch(t.Eq(pos, m.hi)) && k(pos)
	case syntax.OpLiteral:
		if re.Flags&syntax.FoldCase != 0 {
			unsup("regular expression %s", re)
		}
		l := string(re.Rune)
		end := t.AddN(pos, int64(len(l)))
		return x.branch(t.And(t.Le(end, m.hi), x.at(l, m.s, pos))) && k(end)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		c := m.classOf(re)
		if !ascii(c) {
			unsup("a single character in %s", re)
		}
		return x.branch(t.And(t.Lt(pos, m.hi), x.is(c, m.s, pos))) && k(t.AddN(pos, 1))
	case syntax.OpCapture:
		old, had := m.caps[re.Cap]
		if m.match(re.Sub[0], pos, func(e *Term) bool {
			o, h := m.caps[re.Cap]
			m.caps[re.Cap] = [2]*Term{pos, e}
			if k(e) {
				return true
			}
			if delete(m.caps, re.Cap); h {
				m.caps[re.Cap] = o
			}
			return false
		}) {
			return true
		}
		if had {
			m.caps[re.Cap] = old
		}
		return false
	case syntax.OpQuest:
		if re.Flags&syntax.NonGreedy != 0 {
			return k(pos) || m.match(re.Sub[0], pos, k)
		}
		return m.match(re.Sub[0], pos, k) || k(pos)
	case syntax.OpStar, syntax.OpPlus:
		c := m.classOf(re.Sub[0])
		if c == nil || re.Flags&syntax.NonGreedy != 0 || m.hi != t.Len(m.s) {
			unsup("regular expression %s", re)
		}
		e := x.runEnd(c, m.s, pos)
		empty := x.branch(t.Eq(e, pos))
		if empty && re.Op == syntax.OpPlus {
			return false
		}
		if k(e) {
			return true
		}
		if !empty {
			unsup("backtracking of %s", re)
		}
		return false
	case syntax.OpConcat:
		return m.concat(re.Sub, pos, k)
	case syntax.OpAlternate:
		for _, r := range re.Sub {
			if m.match(r, pos, k) {
				return true
			}
		}
		return false
	}
	unsup("regular expression %s", re)
	return false
}

func (m *rxMatch) concat(rs []*syntax.Regexp, pos *Term, k func(pos *Term) bool) bool {
	if len(rs) == 0 {
		return k(pos)
	}
	lazy, cap := rs[0], -1
	if lazy.Op == syntax.OpCapture {
		lazy, cap = lazy.Sub[0], lazy.Cap
	}
	if lazy.Op == syntax.OpStar && len(rs) > 1 && rs[1].Op == syntax.OpLiteral && m.hi == m.x.tt.Len(m.s) && (lazy.Sub[0].Op == syntax.OpAnyChar || lazy.Flags&syntax.NonGreedy != 0 && lazy.Sub[0].Op == syntax.OpAnyCharNotNL) {
		x, t := m.x, m.x.tt
		l := string(rs[1].Rune)
		f := x.findFirst(l, m.s, pos)
		if x.branch(t.Lt(f, t.Int(0))) {
			return false
		}
		if lazy.Sub[0].Op == syntax.OpAnyCharNotNL {
			if c, _ := x.lines(m.s, pos, f); !x.branch(t.Eq(c, t.Int(0))) {
				return false
			}
		}
		if lazy.Flags&syntax.NonGreedy == 0 {
			first := f
			f = t.UF("findlast:"+l, SInt, m.s, pos)
			x.assume(t.And(t.Le(first, f), x.at(l, m.s, f)))
		}
		if cap >= 0 {
			m.caps[cap] = [2]*Term{pos, f}
		}
		if m.concat(rs[2:], m.x.tt.AddN(f, int64(len(l))), k) {
			return true
		}
		unsup("backtracking of %s", lazy)
	}
	return m.match(rs[0], pos, func(e *Term) bool { return m.concat(rs[1:], e, k) })
}

// find is the leftmost match, nil if there is none.
func (x *X) rxFind(pat string, a *Term) *rxMatch {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		unsup("regular expression %s", pat)
	}
	s, lo, hi, ok := x.tt.text(a)
	if !ok {
		unsup("text of a regular expression: %s", a)
	}
	first := re
	for first.Op == syntax.OpConcat {
		first = first.Sub[0]
	}
	m := &rxMatch{x: x, s: s, lo: lo, hi: hi, caps: map[int][2]*Term{}}
	try := func(p *Term) bool {
		return m.match(re, p, func(e *Term) bool { m.caps[0] = [2]*Term{p, e}; return true })
	}
	if try(lo) {
		return m
	}
	if first.Op == syntax.OpBeginText {
		return nil
	}
	if d := x.tt.Sub(hi, lo); !d.isConst() || d.n != 1 {
		unsup("unanchored regular expression %s", pat)
	}
	if try(hi) {
		return m
	}
	return nil
}

func (m *rxMatch) group(i int) *Term {
	c, ok := m.caps[i]
	if !ok {
		return m.x.tt.Str("")
	}
	return m.x.tt.sub(m.s, c[0], c[1])
}

func init() {
	pat := func(x *X, v Val) string {
		p, ok := v.(*PtrV)
		if ok && p.obj != nil {
			p.obj.force()
			if t, ok := p.obj.val.(*Term); ok && t.isConst() && p.obj.site == "regexp" {
				return t.s
			}
		}
		unsup("regular expression")
		return ""
	}
	compile := func(x *X, fn *ssa.Function, args []Val) Val {
		t := x.term(args[0])
		if !t.isConst() {
			return unsup("regular expression")
		}
		return &PtrV{obj: &Obj{id: -3, site: "regexp", val: t}}
	}
	in := intrinsics
	in["regexp.MustCompile"] = compile
	ngroups := func(p string) int { return regexp.MustCompile(p).NumSubexp() }
	sub := func(x *X, fn *ssa.Function, args []Val) Val {
		p, a := pat(x, args[0]), x.term(args[1])
		if a.isConst() {
			m := regexp.MustCompile(p).FindStringSubmatch(a.s)
			if m == nil {
				return &SliceV{}
			}
			es := []Val{}
			for _, s := range m {
				es = append(es, x.tt.Str(s))
			}
			return x.mkSlice(es, "match")
		}
		m := x.rxFind(p, a)
		if m == nil {
			return &SliceV{}
		}
		es := []Val{}
		for i := 0; i <= ngroups(p); i++ {
			es = append(es, m.group(i))
		}
		return x.mkSlice(es, "match")
	}
	in["(*regexp.Regexp).FindStringSubmatch"] = sub
	in["(*regexp.Regexp).FindString"] = func(x *X, fn *ssa.Function, args []Val) Val {
		s := sub(x, fn, args).(*SliceV)
		if s.arr == nil {
			return x.tt.Str("")
		}
		return x.elems(s)[0]
	}
	in["(*regexp.Regexp).MatchString"] = func(x *X, fn *ssa.Function, args []Val) Val {
		return x.tt.Bool(sub(x, fn, args).(*SliceV).arr != nil)
	}
	in["(*regexp.Regexp).FindStringIndex"] = func(x *X, fn *ssa.Function, args []Val) Val {
		a := x.term(args[1])
		if a.isConst() {
			return unsup("FindStringIndex")
		}
		m := x.rxFind(pat(x, args[0]), a)
		if m == nil {
			return &SliceV{}
		}
		return x.mkSlice([]Val{x.tt.Sub(m.caps[0][0], m.lo), x.tt.Sub(m.caps[0][1], m.lo)}, "match")
	}
	// Strings.
	konst := func(v Val) (string, bool) {
		t, ok := v.(*Term)
		if !ok || !t.isConst() {
			return "", false
		}
		if t.sort == SInt {
			return string(rune(t.n)), true
		}
		return t.s, t.sort == SStr
	}
	plain := map[string]func(x *X, a, b string) Val{
		"strings.Count":         func(x *X, a, b string) Val { return x.tt.Int(int64(strings.Count(a, b))) },
		"strings.Index":         func(x *X, a, b string) Val { return x.tt.Int(int64(strings.Index(a, b))) },
		"strings.LastIndex":     func(x *X, a, b string) Val { return x.tt.Int(int64(strings.LastIndex(a, b))) },
		"strings.IndexByte":     func(x *X, a, b string) Val { return x.tt.Int(int64(strings.Index(a, b))) },
		"strings.LastIndexByte": func(x *X, a, b string) Val { return x.tt.Int(int64(strings.LastIndex(a, b))) },
		"strings.Split": func(x *X, a, b string) Val {
			es := []Val{}
			for _, s := range strings.Split(a, b) {
				es = append(es, x.tt.Str(s))
			}
			return x.mkSlice(es, "lines")
		},
	}
	over := func(name string, f func(x *X, s, lo, hi *Term, args []Val) Val) {
		old := in[name]
		in[name] = func(x *X, fn *ssa.Function, args []Val) Val {
			if a, ok := args[0].(*Term); ok {
				if f := plain[name]; f != nil && a.isConst() {
					if b, ok := konst(args[1]); ok {
						return f(x, a.s, b)
					}
				}
				if s, lo, hi, ok := x.tt.text(a); ok {
					if r := f(x, s, lo, hi, args); r != nil {
						return r
					}
				}
			}
			if old == nil {
				return unsup("%s", name)
			}
			return old(x, fn, args)
		}
	}
	over("strings.HasPrefix", func(x *X, s, lo, hi *Term, args []Val) Val {
		if l, ok := konst(args[1]); ok {
			return x.tt.And(x.tt.Le(x.tt.AddN(lo, int64(len(l))), hi), x.at(l, s, lo))
		}
		return nil
	})
	over("strings.Split", func(x *X, s, lo, hi *Term, args []Val) Val {
		if l, ok := konst(args[1]); ok && l == "\n" {
			c, last := x.lines(s, lo, hi)
			q := x.freshSeq(types.Typ[types.String], "lines")
			x.assume(x.tt.Eq(q.n, x.tt.AddN(c, 1)))
			q.get = func(i *Term) Val {
				if x.valid(x.tt.Eq(i, x.tt.AddN(q.n, -1))) {
					return x.tt.sub(s, last, hi)
				}
				return x.tt.Var(x.name("line"), SStr)
			}
			return q
		}
		return nil
	})
	over("strings.Count", func(x *X, s, lo, hi *Term, args []Val) Val {
		if l, ok := konst(args[1]); ok && l == "\n" {
			c, _ := x.lines(s, lo, hi)
			return c
		}
		return nil
	})
	over("strings.Contains", func(x *X, s, lo, hi *Term, args []Val) Val {
		if l, ok := konst(args[1]); ok && l == "\n" {
			c, _ := x.lines(s, lo, hi)
			return x.tt.Lt(x.tt.Int(0), c)
		} else if ok && l != "" && hi == x.tt.Len(s) {
			return x.tt.Le(x.tt.Int(0), x.findFirst(l, s, lo))
		}
		return nil
	})
	lastIndex := func(x *X, s, lo, hi *Term, args []Val) Val {
		l, ok := konst(args[1])
		if ok && l == "\n" {
			c, last := x.lines(s, lo, hi)
			return x.tt.Ite(x.tt.Eq(c, x.tt.Int(0)), x.tt.Int(-1), x.tt.AddN(x.tt.Sub(last, lo), -1))
		}
		return nil
	}
	over("strings.LastIndex", lastIndex)
	over("strings.LastIndexByte", lastIndex)
	index := func(x *X, s, lo, hi *Term, args []Val) Val {
		l, ok := konst(args[1])
		if ok && l != "" && hi == x.tt.Len(s) {
			f := x.findFirst(l, s, lo)
			return x.tt.Ite(x.tt.Lt(f, x.tt.Int(0)), x.tt.Int(-1), x.tt.Sub(f, lo))
		}
		return nil
	}
	over("strings.Index", index)
	over("strings.IndexByte", index)
	// What is behind a backslash.
	in["strconv.UnquoteChar"] = func(x *X, fn *ssa.Function, args []Val) Val {
		s, lo, hi, ok := x.tt.text(x.term(args[0]))
		if !ok || hi != x.tt.Len(s) {
			return unsup("strconv.UnquoteChar")
		}
		e := x.escape(s, lo, x.term(args[1]))
		if x.branch(e.bad) {
			m := x.tt.Var(x.name("message"), SStr)
			x.assume(x.tt.Le(x.tt.Int(1), x.tt.Len(m)))
			return TupleV{x.tt.Int(0), x.tt.fls, x.tt.Str(""), x.errVal(m)}
		}
		return TupleV{e.r, e.multi, x.tt.sub(s, e.end, hi), &IfaceV{}}
	}
	// Builders.
	content := func(x *X, v Val) string {
		p, ok := v.(*PtrV)
		if !ok || p.obj == nil {
			unsup("builder")
		}
		k := fmt.Sprint("builder ", p.obj.id, p.path)
		if x.data[k] == nil {
			c := x.tt.Str("")
			if f, ok := x.data["content"].(func(o *Obj) *Term); ok {
				c = f(p.obj)
			}
			x.data[k] = c
		}
		return k
	}
	write := func(f func(x *X, v *Term) *Term, two bool) func(x *X, fn *ssa.Function, args []Val) Val {
		return func(x *X, fn *ssa.Function, args []Val) Val {
			k := content(x, args[0])
			s := f(x, x.term(args[1]))
			x.data[k] = x.tt.Cat(x.data[k].(*Term), s)
			if two {
				return TupleV{x.tt.Len(s), &IfaceV{}}
			}
			return &IfaceV{}
		}
	}
	in["(*strings.Builder).WriteString"] = write(func(x *X, v *Term) *Term { return v }, true)
	in["(*strings.Builder).WriteRune"] = write(func(x *X, v *Term) *Term { return x.utf8(v) }, true)
	in["(*strings.Builder).WriteByte"] = write(func(x *X, v *Term) *Term { return x.byteStr(v) }, false)
	in["(*strings.Builder).String"] = func(x *X, fn *ssa.Function, args []Val) Val { return x.data[content(x, args[0])].(*Term) }
	in["(*strings.Builder).Len"] = func(x *X, fn *ssa.Function, args []Val) Val {
		return x.tt.Len(x.data[content(x, args[0])].(*Term))
	}
	in["(*strings.Builder).Reset"] = func(x *X, fn *ssa.Function, args []Val) Val {
		x.data[content(x, args[0])] = x.tt.Str("")
		return TupleV{}
	}
	in["(*strings.Builder).Grow"] = func(x *X, fn *ssa.Function, args []Val) Val { return TupleV{} }
}

// compareText compares a character with another one.
func (x *X) compareText(op token.Token, l, r *Term) Val {
	num := func(a *Term) *Term {
		if a.isConst() && len(a.s) == 1 {
			return x.tt.Int(int64(a.s[0]))
		}
		if s, lo, hi, ok := x.tt.text(a); ok && hi == x.tt.AddN(lo, 1) {
			return x.byteAt(s, lo)
		}
		return nil
	}
	a, b := num(l), num(r)
	if a == nil || b == nil {
		return nil
	}
	switch op {
	case token.LSS:
		return x.tt.Lt(a, b)
	case token.GTR:
		return x.tt.Lt(b, a)
	case token.LEQ:
		return x.tt.Le(a, b)
	}
	return x.tt.Le(b, a)
}

func (x *X) utf8(v *Term) *Term {
	if v.isConst() {
		return x.tt.Str(string(rune(v.n)))
	}
	return x.tt.UF("runestr", SStr, v)
}

func (x *X) byteStr(v *Term) *Term {
	if v.isConst() {
		return x.tt.Str(string([]byte{byte(v.n)}))
	}
	if v.op == "uf" && v.s == "byteat" {
		if s, _, _, ok := x.tt.text(v.args[0]); ok {
			return x.tt.sub(s, v.args[1], x.tt.AddN(v.args[1], 1))
		}
	}
	return x.tt.UF("bytestr", SStr, v)
}

// escaped is an escape sequence (strconv.UnquoteChar).
type escaped struct{ bad, multi, r, end *Term }

func (x *X) escape(s, i, quote *Term) escaped {
	t := x.tt
	e := escaped{t.UF("badEscape", SBool, s, i, quote), t.UF("multibyte", SBool, s, i, quote), t.UF("unquoted", SInt, s, i, quote), t.UF("unquotedEnd", SInt, s, i, quote)}
	x.assume(t.Or(e.bad, t.And(t.Le(t.AddN(i, 2), e.end), t.Le(e.end, t.Len(s)))))
	return e
}

// ---- the specification

var lexKeywords = map[string]string{
	"import": "IMPORT", "var": "VAR_DEFINITION", "func": "FUNCTION_DEFINITION", "return": "RETURN", "if": "IF", "else": "ELSE",
	"switch": "SWITCH", "case": "CASE", "default": "DEFAULT", "for": "FOR", "range": "RANGE", "break": "BREAK", "continue": "CONTINUE",
	"nil": "NIL_LITERAL", "true": "BOOL_LITERAL", "false": "BOOL_LITERAL",
	"len": "LEN", "print": "PRINT", "input": "INPUT", "copy": "COPY", "itoa": "ITOA", "exists": "EXISTS", "read": "READ", "write": "WRITE", "panic": "PANIC",
	"bool": "DATA_TYPE", "int": "DATA_TYPE", "string": "DATA_TYPE", "error": "DATA_TYPE",
}

var lexSymbols = map[string]string{
	"(": "OPENING_ROUND_BRACKET", ")": "CLOSING_ROUND_BRACKET", "[": "OPENING_SQUARE_BRACKET", "]": "CLOSING_SQUARE_BRACKET",
	"{": "OPENING_CURLY_BRACKET", "}": "CLOSING_CURLY_BRACKET",
	"==": "COMPARE_OPERATOR", "!=": "COMPARE_OPERATOR", "<=": "COMPARE_OPERATOR", ">=": "COMPARE_OPERATOR", "<": "COMPARE_OPERATOR", ">": "COMPARE_OPERATOR",
	"&&": "LOGICAL_OPERATOR", "||": "LOGICAL_OPERATOR",
	"+=": "COMPOUND_ASSIGN_OPERATOR", "-=": "COMPOUND_ASSIGN_OPERATOR", "*=": "COMPOUND_ASSIGN_OPERATOR", "/=": "COMPOUND_ASSIGN_OPERATOR", "%=": "COMPOUND_ASSIGN_OPERATOR",
	"=": "ASSIGN_OPERATOR", ":=": "SHORT_INIT_OPERATOR", "++": "INCREMENT_OPERATOR", "--": "DECREMENT_OPERATOR", "!": "UNARY_OPERATOR",
	"+": "BINARY_OPERATOR", "-": "BINARY_OPERATOR", "*": "BINARY_OPERATOR", "/": "BINARY_OPERATOR", "%": "BINARY_OPERATOR",
	",": "COMMA", ":": "COLON", ";": "SEMICOLON", ".": "DOT", "@": "AT", "|": "PIPE", "\n": "NEWLINE", " ": "", "\t": "",
}

// lexStep is what the text at a position is.
type lexStep struct {
	err  bool
	typ  *Term // nil for blanks and comments
	val  *Term
	next *Term
}

type lexUnit struct {
	u       *pUnit
	x       *X
	s, n    *Term
	i       *Term
	row     *Term
	col     *Term
	tokens  *SymSeq
	tokType types.Type
	started bool
	values  map[*Term]int64 // known values of terms
	seen    int
	// The cut of an inner loop.
	str    bool // the scan of a string, from q with the content g
	q, g   *Term
	raw    bool
	inner  *ssa.BasicBlock
	innerF *frame
}

func (l *lexUnit) field(v Val, n string) *Term {
	s := v.(*StructV)
	return l.x.term(s.f[l.u.field(s.t, n)])
}

func (l *lexUnit) operandBefore() bool {
	x := l.x
	if !l.branch(x.tt.Lt(x.tt.Int(0), l.tokens.n)) {
		return false
	}
	t := l.field(l.tokens.at(x, x.tt.AddN(l.tokens.n, -1)), "tokenType")
	c := x.tt.fls
	for _, n := range []string{"IDENTIFIER", "BOOL_LITERAL", "NUMBER_LITERAL", "STRING_LITERAL", "NIL_LITERAL", "CLOSING_ROUND_BRACKET", "CLOSING_SQUARE_BRACKET"} {
		c = x.tt.Or(c, x.tt.Eq(t, l.u.tk(n)))
	}
	return l.branch(c)
}

// scan is the rest of a string literal.
func (l *lexUnit) scan(i *Term, raw bool, g *Term) lexStep {
	x, t := l.x, l.x.tt
	quote := t.Int('"')
	if raw {
		quote = t.Int('`')
	}
	for n := 0; ; n++ {
		if n > 12 {
			panic(pathEnd{"bound"})
		}
		if !l.branch(t.Lt(i, l.n)) {
			return lexStep{err: true}
		}
		b := x.byteAt(l.s, i)
		if l.branch(t.Eq(b, quote)) {
			return lexStep{typ: l.u.tk("STRING_LITERAL"), val: g, next: t.AddN(i, 1)}
		}
		if !raw && l.branch(t.Eq(b, t.Int('\\'))) {
			e := x.escape(l.s, i, quote)
			if l.branch(e.bad) {
				return lexStep{err: true}
			}
			if l.branch(e.multi) {
				g = t.Cat(g, x.utf8(e.r))
			} else {
				g = t.Cat(g, x.byteStr(e.r))
			}
			i = e.end
			continue
		}
		g = t.Cat(g, t.sub(l.s, i, t.AddN(i, 1)))
		i = t.AddN(i, 1)
	}
}

// unfold makes the ends of short runs known.
func (l *lexUnit) unfold(c *class, i *Term) {
	n := int64(1)
	if l.u.d.whole {
		n = 12
	}
	for k := int64(0); k < n; k++ {
		l.x.unfoldRun(c, l.s, l.x.tt.AddN(i, k))
	}
}

func (l *lexUnit) step() lexStep {
	x, t, u := l.x, l.x.tt, l.u
	s, n, i := l.s, l.n, l.i
	b := x.byteAt(s, i)
	for _, raw := range []bool{true, false} {
		q := int64('"')
		if raw {
			q = '`'
		}
		if l.branch(t.Eq(b, t.Int(q))) {
			if l.str {
				return l.scan(l.q, raw, l.g)
			}
			return l.scan(t.AddN(i, 1), raw, t.Str(""))
		}
	}
	if l.branch(x.at("/*", s, i)) {
		f := x.findFirst("*/", s, t.AddN(i, 2))
		for k := 2; l.u.d.whole && k < 12; k++ {
			x.unfoldFind("*/", s, t.AddN(i, int64(k)))
		}
		if l.branch(t.Lt(f, t.Int(0))) {
			return lexStep{err: true}
		}
		return lexStep{next: t.AddN(f, 2)}
	}
	if l.branch(x.at("//", s, i)) {
		l.unfold(noBreaks, t.AddN(i, 2))
		e := x.runEnd(noBreaks, s, t.AddN(i, 2))
		x.noLines(s, i, e)
		return lexStep{next: e}
	}
	number := func(p *Term) lexStep {
		l.unfold(digits, p)
		e := x.runEnd(digits, s, p)
		if l.branch(t.And(x.at(".", s, e), x.is(digits, s, t.AddN(e, 1)))) {
			l.unfold(digits, t.AddN(e, 1))
			e = x.runEnd(digits, s, t.AddN(e, 1))
		}
		x.noLines(s, i, e)
		return lexStep{typ: u.tk("NUMBER_LITERAL"), val: t.sub(s, i, e), next: e}
	}
	if l.branch(x.is(digits, s, i)) {
		return number(i)
	}
	if l.branch(t.And(x.at("-", s, i), x.is(digits, s, t.AddN(i, 1)))) && !l.operandBefore() {
		return number(t.AddN(i, 1))
	}
	if l.branch(x.is(letters, s, i)) {
		l.unfold(alnums, i)
		e := x.runEnd(alnums, s, i)
		x.noLines(s, i, e)
		v := t.sub(s, i, e)
		ks := []string{}
		for k := range lexKeywords {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if l.branch(t.Eq(v, t.Str(k))) {
				return lexStep{typ: u.tk(lexKeywords[k]), val: v, next: e}
			}
		}
		return lexStep{typ: u.tk("IDENTIFIER"), val: v, next: e}
	}
	ks := []string{}
	for k := range lexSymbols {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool {
		if len(ks[a]) != len(ks[b]) {
			return len(ks[a]) > len(ks[b])
		}
		return ks[a] < ks[b]
	})
	for _, k := range ks {
		if l.branch(x.at(k, s, i)) {
			r := lexStep{next: t.AddN(i, int64(len(k)))}
			if lexSymbols[k] != "" {
				r.typ, r.val = u.tk(lexSymbols[k]), t.Str(k)
			}
			return r
		}
	}
	_ = n
	return lexStep{err: true}
}

// valueIs is the value of the only number in a term of the form n = c.
func valueIs(c *Term) (*Term, int64, bool) {
	if c.op != "eq0" {
		return nil, 0, false
	}
	switch d := c.args[0]; {
	case d.op != "add":
		return d, 0, true
	case len(d.args) == 1 && d.cs[0] == 1:
		return d.args[0], -d.n, true
	case len(d.args) == 1 && d.cs[0] == -1:
		return d.args[0], d.n, true
	}
	return nil, 0, false
}

// known reports that a condition contradicts a known value.
func (l *lexUnit) contradicts(c *Term) bool {
	x := l.x
	if l.values == nil || l.seen > len(x.pc) {
		l.values, l.seen = map[*Term]int64{}, 0
	}
	for ; l.seen < len(x.pc); l.seen++ {
		if a, n, ok := valueIs(x.pc[l.seen]); ok {
			l.values[a] = n
		}
	}
	if c.op == "and" {
		for _, a := range c.args {
			if l.contradicts(a) {
				return true
			}
		}
	}
	a, n, ok := valueIs(c)
	if !ok {
		return false
	}
	m, ok := l.values[a]
	return ok && m != n
}

func (l *lexUnit) branch(c *Term) bool { return !l.contradicts(c) && l.x.branch(c) }

// ---- the unit

func (l *lexUnit) sameText(a, b *Term) *Term {
	t := l.x.tt
	if a == b {
		return t.tru
	}
	s1, a1, b1, ok1 := t.text(a)
	s2, a2, b2, ok2 := t.text(b)
	if ok1 && ok2 && s1 == s2 {
		return t.And(t.Eq(a1, a2), t.Eq(b1, b2))
	}
	return t.Eq(a, b)
}

// check compares a repetition with the specification.
func (l *lexUnit) check(i, row, col *Term, tokens Val) {
	u, x, t := l.u, l.x, l.x.tt
	st := l.step()
	if st.err {
		u.must("rejects", false, "an illegal token at %s is accepted", l.i)
		return
	}
	u.must("rejects", true, "")
	u.mustT("progress", t.Lt(l.i, i), "position %s behind %s", i, l.i)
	u.mustT("advance", t.Eq(i, st.next), "position %s, expected %s", i, st.next)
	if st.typ == nil {
		u.must("skips", ident(tokens, l.tokens), "a token for a blank or a comment")
	} else {
		q, ok := tokens.(*SymSeq)
		if ok {
			ok = false
			if a, is := q.ghost["added"].(*SliceV); is && a.len == 1 && q.ghost["base"] == Val(l.tokens) {
				ok = true
				v := x.elems(a)[0]
				u.mustT("kind", t.Eq(l.field(v, "tokenType"), st.typ), "kind %s, expected %s", l.field(v, "tokenType"), st.typ)
				u.mustT("value", l.sameText(l.field(v, "value"), st.val), "value %s, expected %s", l.field(v, "value"), st.val)
				u.mustT("position", t.Eq(l.field(v, "row"), l.row), "row %s, expected %s", l.field(v, "row"), l.row)
				u.mustT("position", t.Eq(l.field(v, "column"), l.col), "column %s, expected %s", l.field(v, "column"), l.col)
			}
		}
		u.must("token", ok, "not exactly one token")
	}
	c, last := x.lines(l.s, l.i, st.next)
	u.mustT("row", t.Eq(row, t.Add(l.row, c)), "row %s, expected %s", row, t.Add(l.row, c))
	if x.branch(t.Lt(t.Int(0), c)) {
		want := t.AddN(t.Sub(st.next, last), 1)
		u.mustT("column", t.Eq(col, want), "column %s, expected %s", col, want)
	} else {
		want := t.Add(l.col, t.Sub(st.next, l.i))
		u.mustT("column", t.Eq(col, want), "column %s, expected %s", col, want)
	}
}

type lexMain struct {
	b         *ssa.BasicBlock
	fr        *frame
	pos       *ssa.Phi
	row, col  *ssa.Phi
	tok       *ssa.Phi
	objs      map[*Obj]Val
	innerObjs map[*Obj]Val
	p         *ssa.Phi
	kind      string
	acc       *ssa.Phi
	rel       func(p *Term) *Term
	unfold    func(p *Term)
}

func (l *lexUnit) objects() map[*Obj]Val {
	r := map[*Obj]Val{}
	for _, o := range l.x.allObjs {
		if o.lazy == nil {
			r[o] = o.val
		}
	}
	return r
}

func (l *lexUnit) unchanged(m map[*Obj]Val) {
	for o, v := range m {
		if !ident(o.val, v) && !l.u.same(o.val, v) {
			unsup("an object is changed in a loop")
		}
	}
}

func (l *lexUnit) cut(m *lexMain, fr *frame, b, prev *ssa.BasicBlock) {
	x, t, u := l.x, l.x.tt, l.u
	edge := -1
	for i, p := range b.Preds {
		if p != prev && b.Dominates(p) {
			edge = i
		}
	}
	phis := []*ssa.Phi{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	isInt := func(p *ssa.Phi) bool { q, ok := fr.env[p].(*Term); return ok && q.sort == SInt }
	switch {
	case m.b == nil:
		m.b, m.fr = b, fr
		for _, p := range phis {
			switch v := fr.env[p].(type) {
			case *Term:
				n := strings.ToLower(p.Comment)
				switch {
				case isInt(p) && v == t.Int(0) && m.pos == nil:
					m.pos = p
				case isInt(p) && v == t.Int(1) && (strings.Contains(n, "row") || strings.Contains(n, "line")) && m.row == nil:
					m.row = p
				case isInt(p) && v == t.Int(1) && strings.Contains(n, "col") && m.col == nil:
					m.col = p
				default:
					unsup("variable %s of the lexer's loop", p.Comment)
				}
			case *SliceV:
				if m.tok != nil || v.len != 0 {
					unsup("variable %s of the lexer's loop", p.Comment)
				}
				m.tok = p
			case *IfaceV:
				if v.t != nil {
					unsup("variable %s of the lexer's loop", p.Comment)
				}
			default:
				unsup("variable %s of the lexer's loop", p.Comment)
			}
		}
		if m.pos == nil || m.row == nil || m.col == nil || m.tok == nil {
			unsup("variables of the lexer's loop")
		}
		u.must("start", true, "")
		l.i, l.row, l.col = t.Var("i", SInt), t.Var("row", SInt), t.Var("column", SInt)
		l.tokens = x.freshSeq(l.tokType, "tokens")
		x.assume(t.And(t.Le(t.Int(0), l.i), t.Le(l.i, l.n), t.Le(t.Int(1), l.row), t.Le(t.Int(1), l.col)))
		x.assume(t.Le(t.AddN(t.Add(l.row, l.col), -2), l.i))
		x.assume(t.Le(l.tokens.n, l.i))
		fr.env[m.pos], fr.env[m.row], fr.env[m.col], fr.env[m.tok] = l.i, l.row, l.col, l.tokens
		if u.d.whole {
			// Short tokens.
			x.assume(t.Le(l.n, t.AddN(l.i, 11)))
			for _, q := range "\"`" {
				x.assume(t.Imp(t.Eq(x.byteAt(l.s, l.i), t.Int(int64(q))), t.Le(l.n, t.AddN(l.i, 5))))
			}
		}
		m.objs = l.objects()
		l.started = true
		return
	case b == m.b && fr == m.fr:
		// The end of an arbitrary repetition.
		for _, p := range phis {
			if e, ok := fr.env[p].(*IfaceV); p != m.pos && p != m.row && p != m.col && p != m.tok && !(ok && e.t == nil) {
				unsup("variable %s of the lexer's loop", p.Comment)
			}
		}
		l.unchanged(m.objs)
		l.check(x.term(fr.env[m.pos]), x.term(fr.env[m.row]), x.term(fr.env[m.col]), fr.env[m.tok])
		panic(pathEnd{"end of the loop"})
	case m.b == nil || u.d.whole:
		return
	case l.inner == nil:
		// A loop over the characters of a token.
		var p *ssa.Phi
		for _, q := range phis {
			if edge >= 0 && q.Edges[edge] == ssa.Value(q) {
				continue
			}
			if v, ok := fr.env[q].(*Term); ok && isInt(q) && !v.isConst() {
				if p != nil {
					return
				}
				p = q
			}
		}
		if p == nil {
			return
		}
		v0 := x.term(fr.env[p])
		if !x.valid(t.And(t.Le(l.i, v0), t.Le(v0, t.AddN(l.i, 2)))) {
			return
		}
		m.p = p
		b0 := x.byteAt(l.s, l.i)
		str := func(raw bool) {
			m.kind, l.raw = "string", raw
		}
		run := func(c *class) {
			m.kind = "run"
			end := x.runEnd(c, l.s, v0)
			m.rel = func(p *Term) *Term { return t.Eq(x.runEnd(c, l.s, p), end) }
			m.unfold = func(p *Term) { x.unfoldRun(c, l.s, p) }
		}
		switch {
		case x.valid(t.Eq(b0, t.Int('"'))) && x.valid(t.Eq(v0, t.AddN(l.i, 1))):
			str(false)
		case x.valid(t.Eq(b0, t.Int('`'))) && x.valid(t.Eq(v0, t.AddN(l.i, 1))):
			str(true)
		case x.valid(x.at("/*", l.s, l.i)):
			m.kind = "run"
			f := x.findFirst("*/", l.s, v0)
			m.rel = func(p *Term) *Term { return t.Eq(x.findFirst("*/", l.s, p), f) }
			m.unfold = func(p *Term) { x.unfoldFind("*/", l.s, p) }
		case x.valid(x.at("//", l.s, l.i)):
			run(noBreaks)
		case x.valid(x.is(letters, l.s, l.i)):
			run(alnums)
		case x.valid(t.Or(x.is(digits, l.s, l.i), x.is(digits, l.s, t.AddN(l.i, 1)))):
			run(digits)
		default:
			return
		}
		l.inner, l.innerF = b, fr
		if !x.valid(t.Le(v0, l.n)) {
			unsup("a loop beyond the end")
		}
		l.q = t.Var("q", SInt)
		x.assume(t.And(t.Le(v0, l.q), t.Le(l.q, l.n)))
		for _, q := range phis {
			if q == p || edge >= 0 && q.Edges[edge] == ssa.Value(q) {
				continue
			}
			v, ok := fr.env[q].(*Term)
			switch {
			case ok && v.sort == SStr && v == t.Str("") && m.kind == "string" && m.acc == nil:
				m.acc = q
			case ok && (v.sort == SStr || v.sort == SBool):
				// Not all of its values are possible ones.
				fr.env[q] = x.freshVal(q.Type(), q.Comment)
				x.data["cut"] = true
			default:
				if e, ok := fr.env[q].(*IfaceV); !ok || e.t != nil {
					unsup("variable %s of an inner loop", q.Comment)
				}
			}
		}
		fr.env[p] = l.q
		m.innerObjs = l.objects()
		if m.kind == "string" {
			x.data["cut"] = true
			l.str, l.g = true, t.Var("content", SStr)
			bs := l.builders()
			if m.acc != nil {
				fr.env[m.acc] = l.g
			} else if len(bs) == 1 && x.data[bs[0]] == t.Str("") {
				x.data[bs[0]] = l.g
			} else if len(bs) == 0 {
				x.data["content"] = func(o *Obj) *Term {
					if _, ok := m.innerObjs[o]; !ok {
						return t.Str("")
					} else if len(l.builders()) > 0 {
						unsup("content of a string")
					}
					return l.g
				}
			} else {
				unsup("content of a string")
			}
			return
		}
		x.assume(m.rel(l.q))
		m.unfold(l.q)
	case b == l.inner && fr == l.innerF:
		// The end of an arbitrary repetition.
		for _, q := range phis {
			if e, ok := fr.env[q].(*IfaceV); ok && e.t != nil {
				unsup("variable %s of an inner loop", q.Comment)
			}
		}
		l.unchanged(m.innerObjs)
		p := x.term(fr.env[m.p])
		guess := func(c *Term, what string) {
			if !x.valid(c) {
				unsup("loop of a token: %s", what)
			}
		}
		guess(t.And(t.Lt(l.q, p), t.Le(p, l.n)), "no progress")
		if m.kind != "string" {
			guess(m.rel(p), "the invariant is not inductive")
		} else {
			g := fr.env[m.acc]
			if m.acc == nil {
				bs := l.builders()
				if len(bs) != 1 {
					unsup("content of a string")
				}
				g = x.data[bs[0]].(*Term)
			}
			next, want, ok := l.one()
			guess(t.Bool(ok), "the string is at its end")
			guess(t.Eq(p, next), "position in a string")
			debugf("content %s want %s", x.term(g), want)
			guess(l.sameText(x.term(g), want), "content of a string")
		}
		x.good("loop")
		panic(pathEnd{"end of the loop"})
	}
}

// one is one character of a string, ok is false at its end.
func (l *lexUnit) one() (next, g *Term, ok bool) {
	x, t := l.x, l.x.tt
	quote := t.Int('"')
	if l.raw {
		quote = t.Int('`')
	}
	if !x.branch(t.Lt(l.q, l.n)) {
		return nil, nil, false
	}
	b := x.byteAt(l.s, l.q)
	if x.branch(t.Eq(b, quote)) {
		return nil, nil, false
	}
	if !l.raw && x.branch(t.Eq(b, t.Int('\\'))) {
		e := x.escape(l.s, l.q, quote)
		if x.branch(e.bad) {
			return nil, nil, false
		}
		if x.branch(e.multi) {
			return e.end, t.Cat(l.g, x.utf8(e.r)), true
		}
		return e.end, t.Cat(l.g, x.byteStr(e.r)), true
	}
	return t.AddN(l.q, 1), t.Cat(l.g, t.sub(l.s, l.q, t.AddN(l.q, 1))), true
}

func (l *lexUnit) builders() []string {
	r := []string{}
	for k := range l.x.data {
		if strings.HasPrefix(k, "builder ") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func rawTokenize(u *pUnit) {
	x := u.x
	t := x.tt
	x.safety = true
	x.initPkg(x.p.pg.pkgs["lexer"])
	u.fn = x.p.pg.fn("lexer", "Tokenize")
	if u.fn == nil {
		unsup("function Tokenize")
	}
	u.top = true
	x.loopBound = 0
	if u.d.whole {
		x.loopBound = 14
	}
	l := &lexUnit{u: u, x: x, tokType: x.p.pg.typ("lexer", "Token")}
	source := t.Var(textVar+"source", SStr)
	l.s = t.Var(textVar+"source without carriage returns", SStr)
	l.n = t.Len(l.s)
	x.assume(t.Le(t.Int(0), l.n))
	x.assume(t.Le(t.Int(0), t.Len(source)))
	replaced := 0
	x.hooks["strings.ReplaceAll"] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		if args[0] != Val(source) {
			return nil, false
		}
		replaced++
		u.must("text", u.same(args[1], t.Str("\r\n")) && u.same(args[2], t.Str("\n")), "replaces %s by %s", describe(args[1]), describe(args[2]))
		return l.s, true
	}
	m := &lexMain{}
	x.cutter = func(fr *frame, b, prev *ssa.BasicBlock) { l.cut(m, fr, b, prev) }
	r, ok := x.call(u.fn, []Val{source}, nil).(TupleV)
	x.cutter = nil
	x.safety = false
	if !ok || len(r) != 2 {
		unsup("result of Tokenize")
	}
	if !l.started || replaced != 1 {
		unsup("the lexer's loop")
	}
	if !x.isNilIface(r[1]) {
		u.errMust(r[1])
		if !x.valid(t.Lt(l.i, l.n)) {
			u.mustT("accepts", t.Lt(l.i, l.n), "error at the end of the text")
			return
		}
		st := l.step()
		u.must("accepts", st.err, "a legal token is rejected")
		return
	}
	u.mustT("complete", t.Eq(l.i, l.n), "the text ends at %s", l.i)
	q, ok := r[0].(*SymSeq)
	if ok {
		a, is := q.ghost["added"].(*SliceV)
		ok = is && a.len == 1 && q.ghost["base"] == Val(l.tokens)
		if ok {
			v := x.elems(a)[0]
			u.mustT("end", t.Eq(l.field(v, "tokenType"), u.tk("EOF")), "kind %s at the end", l.field(v, "tokenType"))
			u.mustT("end", t.Eq(l.field(v, "value"), t.Str("")), "value %s at the end", l.field(v, "value"))
			u.mustT("end", t.And(t.Eq(l.field(v, "row"), l.row), t.Eq(l.field(v, "column"), l.col)), "position at the end")
		}
	}
	u.must("end", ok, "not exactly one token at the end")
}
