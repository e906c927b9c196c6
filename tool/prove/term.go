package main

// Terms of the logic: booleans, mathematical integers and strings (kept as concatenations of constants and atoms).

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sort byte

const (
	SBool Sort = iota
	SInt
	SStr
	SAny // uninterpreted (worlds)
)

func (s Sort) smt() string { return []string{"Bool", "Int", "S", "W"}[s] }

type Term struct {
	op   string // const, var, uf:<name>, not, and, or, eq, lt, add, mul, ite, cat
	sort Sort
	args []*Term
	s    string // constant of a string, name of a variable or function
	n    int64  // constant of an int or bool, constant part of add
	cs   []int64
	id   int
	key  string
}

// Terms are hash-consed per prover instance.
type termTab struct {
	m   map[string]*Term
	tru *Term
	fls *Term
}

func newTermTab() *termTab {
	t := &termTab{m: map[string]*Term{}}
	t.tru = t.mk(&Term{op: "const", sort: SBool, n: 1})
	t.fls = t.mk(&Term{op: "const", sort: SBool, n: 0})
	return t
}

func (t *termTab) mk(x *Term) *Term {
	b := strings.Builder{}
	b.WriteString(x.op)
	b.WriteByte(byte('0' + x.sort))
	b.WriteString(strconv.Quote(x.s))
	b.WriteString(strconv.FormatInt(x.n, 10))
	for i, a := range x.args {
		b.WriteByte(',')
		if x.cs != nil {
			b.WriteString(strconv.FormatInt(x.cs[i], 10))
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if o := t.m[k]; o != nil {
		return o
	}
	x.id = len(t.m) + 1
	x.key = k
	t.m[k] = x
	return x
}

func (t *termTab) Bool(b bool) *Term {
	if b {
		return t.tru
	}
	return t.fls
}
func (t *termTab) Int(n int64) *Term  { return t.mk(&Term{op: "const", sort: SInt, n: n}) }
func (t *termTab) Str(s string) *Term { return t.mk(&Term{op: "const", sort: SStr, s: s}) }
func (t *termTab) Var(name string, s Sort) *Term {
	return t.mk(&Term{op: "var", sort: s, s: name})
}
func (t *termTab) UF(name string, s Sort, args ...*Term) *Term {
	return t.mk(&Term{op: "uf", sort: s, s: name, args: args})
}

func (x *Term) isConst() bool { return x.op == "const" }

func (t *termTab) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(a.n == 0)
	}
	if a.op == "not" {
		return a.args[0]
	}
	return t.mk(&Term{op: "not", sort: SBool, args: []*Term{a}})
}

func (t *termTab) nary(op string, unit int64, as []*Term) *Term {
	seen := map[int]bool{}
	out := []*Term{}
	for _, a := range as {
		l := []*Term{a}
		if a.op == op {
			l = a.args
		}
		for _, x := range l {
			if x.isConst() {
				if x.n != unit {
					return x
				}
				continue
			}
			if seen[x.id] {
				continue
			}
			if seen[t.Not(x).id] {
				return t.Bool(unit == 0)
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return t.Bool(unit == 1)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return t.mk(&Term{op: op, sort: SBool, args: out})
}
func (t *termTab) And(as ...*Term) *Term { return t.nary("and", 1, as) }
func (t *termTab) Or(as ...*Term) *Term  { return t.nary("or", 0, as) }
func (t *termTab) Imp(a, b *Term) *Term  { return t.Or(t.Not(a), b) }

func (t *termTab) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.n != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool && a.isConst() && b.isConst() {
		if a.n == 1 {
			return c
		}
		return t.Not(c)
	}
	if c.op == "not" {
		return t.Ite(c.args[0], b, a)
	}
	return t.mk(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}

// Linear integer terms: n + sum cs[i]*args[i].
func (t *termTab) lin(n int64, m map[*Term]int64) *Term {
	as := []*Term{}
	for a, c := range m {
		if c != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 0 {
		return t.Int(n)
	}
	if n == 0 && len(as) == 1 && m[as[0]] == 1 {
		return as[0]
	}
	cs := []int64{}
	for _, a := range as {
		cs = append(cs, m[a])
	}
	return t.mk(&Term{op: "add", sort: SInt, n: n, args: as, cs: cs})
}

func unlin(a *Term, k int64, n *int64, m map[*Term]int64) {
	switch {
	case a.isConst():
		*n += k * a.n
	case a.op == "add":
		*n += k * a.n
		for i, x := range a.args {
			m[x] += k * a.cs[i]
		}
	default:
		m[a] += k
	}
}

func (t *termTab) Add(a, b *Term) *Term { return t.comb(a, 1, b, 1) }
func (t *termTab) Sub(a, b *Term) *Term { return t.comb(a, 1, b, -1) }
func (t *termTab) comb(a *Term, ka int64, b *Term, kb int64) *Term {
	var n int64
	m := map[*Term]int64{}
	unlin(a, ka, &n, m)
	unlin(b, kb, &n, m)
	return t.lin(n, m)
}
func (t *termTab) AddN(a *Term, k int64) *Term { return t.Add(a, t.Int(k)) }
func (t *termTab) Mul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return t.comb(b, a.n, t.Int(0), 0)
	}
	return t.mk(&Term{op: "mul", sort: SInt, args: []*Term{a, b}})
}

// Lt is a < b.
func (t *termTab) Lt(a, b *Term) *Term {
	d := t.Sub(a, b)
	if d.isConst() {
		return t.Bool(d.n < 0)
	}
	return t.mk(&Term{op: "lt0", sort: SBool, args: []*Term{d}}) // d < 0
}
func (t *termTab) Le(a, b *Term) *Term { return t.Lt(a, t.AddN(b, 1)) }

func (t *termTab) Eq(a, b *Term) *Term {
	if a == b {
		return t.tru
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq of %s and %s", a, b))
	}
	switch a.sort {
	case SBool:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.n == 1 {
				return a
			}
			return t.Not(a)
		}
		if a == t.Not(b) {
			return t.fls
		}
	case SInt:
		d := t.Sub(a, b)
		if d.isConst() {
			return t.Bool(d.n == 0)
		}
		if d.op == "add" && d.cs[0] < 0 {
			d = t.Sub(b, a)
		}
		return t.mk(&Term{op: "eq0", sort: SBool, args: []*Term{d}})
	case SStr:
		if r := t.eqText(a, b); r != nil {
			return r
		}
		return t.eqStr(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(&Term{op: "eq", sort: SBool, args: []*Term{a, b}})
}

// Strings.

func pieces(a *Term) []*Term {
	if a.op == "cat" {
		return a.args
	}
	if a.isConst() && a.s == "" {
		return nil
	}
	return []*Term{a}
}

func (t *termTab) Cat(as ...*Term) *Term {
	out := []*Term{}
	for _, a := range as {
		for _, p := range pieces(a) {
			if p.isConst() && len(out) > 0 && out[len(out)-1].isConst() {
				out[len(out)-1] = t.Str(out[len(out)-1].s + p.s)
			} else if q := t.join(out, p); q != nil {
				out[len(out)-1] = q
			} else {
				out = append(out, p)
			}
		}
	}
	if len(out) == 0 {
		return t.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return t.mk(&Term{op: "cat", sort: SStr, args: out})
}

// join joins adjacent parts of a text.
func (t *termTab) join(out []*Term, p *Term) *Term {
	if len(out) == 0 || p.op != "uf" || out[len(out)-1].op != "uf" {
		return nil
	}
	s, a, b, ok := t.text(out[len(out)-1])
	s2, b2, c, ok2 := t.text(p)
	if !ok || !ok2 || s != s2 || b != b2 {
		return nil
	}
	return t.sub(s, a, c)
}

func (t *termTab) Itoa(a *Term) *Term {
	if a.isConst() {
		return t.Str(strconv.FormatInt(a.n, 10))
	}
	return t.mk(&Term{op: "itoa", sort: SStr, args: []*Term{a}})
}

// firstByte: what a string term may start with, if known.
func isDigitLed(p *Term) bool { return p.op == "itoa" }

func (t *termTab) eqStr(a, b *Term) *Term {
	pa, pb := pieces(a), pieces(b)
	pa, pb = append([]*Term{}, pa...), append([]*Term{}, pb...)
	// Common prefix.
	strip := func(rev bool) *Term {
		for len(pa) > 0 && len(pb) > 0 {
			i, j := 0, 0
			if rev {
				i, j = len(pa)-1, len(pb)-1
			}
			x, y := pa[i], pb[j]
			cut := func(p *[]*Term, i int) { *p = append((*p)[:i:i], (*p)[i+1:]...) }
			switch {
			case x == y:
				cut(&pa, i)
				cut(&pb, j)
			case x.isConst() && y.isConst():
				n := min(len(x.s), len(y.s))
				xs, ys := x.s[:n], y.s[:n]
				if rev {
					xs, ys = x.s[len(x.s)-n:], y.s[len(y.s)-n:]
				}
				if xs != ys {
					return t.fls
				}
				rx, ry := x.s[n:], y.s[n:]
				if rev {
					rx, ry = x.s[:len(x.s)-n], y.s[:len(y.s)-n]
				}
				if rx == "" {
					cut(&pa, i)
				} else {
					pa[i] = t.Str(rx)
				}
				if ry == "" {
					cut(&pb, j)
				} else {
					pb[j] = t.Str(ry)
				}
			default:
				return nil
			}
		}
		return nil
	}
	if r := strip(false); r != nil {
		return r
	}
	if r := strip(true); r != nil {
		return r
	}
	nonEmpty := func(p []*Term) bool {
		for _, x := range p {
			if x.isConst() || x.op == "itoa" {
				return true
			}
		}
		return false
	}
	if len(pa) == 0 && len(pb) == 0 {
		return t.tru
	}
	if len(pa) == 0 && nonEmpty(pb) || len(pb) == 0 && nonEmpty(pa) {
		return t.fls
	}
	if len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if y.op == "itoa" {
			x, y = y, x
		}
		if x.op == "itoa" && y.isConst() && !(y.s[0] == '-' || y.s[0] >= '0' && y.s[0] <= '9') {
			return t.fls
		}
	}
	if len(pa) == 1 && len(pb) == 1 {
		x, y := pa[0], pb[0]
		if y.op == "itoa" {
			x, y = y, x
		}
		if x.op == "itoa" && y.op == "itoa" {
			return t.Eq(x.args[0], y.args[0])
		}
		if x.op == "itoa" && y.isConst() {
			n, err := strconv.ParseInt(y.s, 10, 64)
			if err != nil || strconv.FormatInt(n, 10) != y.s {
				return t.fls
			}
			return t.Eq(x.args[0], t.Int(n))
		}
	}
	// ite against a constant
	if len(pa) == 1 && len(pb) == 1 {
		x, y := pa[0], pb[0]
		if y.op == "ite" {
			x, y = y, x
		}
		if x.op == "ite" && (y.isConst() || x.args[1].isConst() && x.args[2].isConst()) {
			return t.Ite(x.args[0], t.eqStr(x.args[1], y), t.eqStr(x.args[2], y))
		}
	}
	x, y := t.Cat(pa...), t.Cat(pb...)
	if x.id > y.id {
		x, y = y, x
	}
	return t.mk(&Term{op: "eq", sort: SBool, args: []*Term{x, y}})
}

func (t *termTab) Len(a *Term) *Term {
	r := t.Int(0)
	for _, p := range pieces(a) {
		if p.isConst() {
			r = t.AddN(r, int64(len(p.s)))
		} else if _, lo, hi, ok := t.text(p); ok {
			r = t.Add(r, t.Sub(hi, lo))
		} else {
			r = t.Add(r, t.UF("len", SInt, p))
		}
	}
	return r
}

func (x *Term) String() string {
	switch x.op {
	case "const":
		switch x.sort {
		case SBool:
			return fmt.Sprint(x.n == 1)
		case SInt:
			return fmt.Sprint(x.n)
		}
		return strconv.Quote(x.s)
	case "var":
		return x.s
	case "add":
		s := []string{}
		for i, a := range x.args {
			if x.cs[i] == 1 {
				s = append(s, a.String())
			} else {
				s = append(s, fmt.Sprintf("%d*%s", x.cs[i], a))
			}
		}
		if x.n != 0 {
			s = append(s, fmt.Sprint(x.n))
		}
		return "(" + strings.Join(s, "+") + ")"
	}
	s := []string{}
	for _, a := range x.args {
		s = append(s, a.String())
	}
	n := x.op
	if n == "uf" {
		n = x.s
	}
	return n + "(" + strings.Join(s, ", ") + ")"
}

// walk visits all the subterms.
func walk(x *Term, seen map[int]bool, f func(*Term)) {
	if seen[x.id] {
		return
	}
	seen[x.id] = true
	for _, a := range x.args {
		walk(a, seen, f)
	}
	f(x)
}

// SMT text of a term, shared subterms are defined by the caller.
func (x *Term) smt(b *strings.Builder) {
	bin := func(op string) {
		b.WriteString("(" + op)
		for _, a := range x.args {
			b.WriteByte(' ')
			a.smt(b)
		}
		b.WriteByte(')')
	}
	num := func(n int64) string {
		if n < 0 {
			return "(- " + strings.TrimPrefix(strconv.FormatInt(n, 10), "-") + ")"
		}
		return strconv.FormatInt(n, 10)
	}
	switch x.op {
	case "const":
		switch x.sort {
		case SBool:
			b.WriteString(map[bool]string{true: "true", false: "false"}[x.n == 1])
		case SInt:
			b.WriteString(num(x.n))
		default:
			fmt.Fprintf(b, "s%d", x.id)
		}
	case "var":
		fmt.Fprintf(b, "v%d", x.id)
	case "lt0":
		b.WriteString("(< ")
		x.args[0].smt(b)
		b.WriteString(" 0)")
	case "eq0":
		b.WriteString("(= ")
		x.args[0].smt(b)
		b.WriteString(" 0)")
	case "add":
		b.WriteString("(+")
		for i, a := range x.args {
			if x.cs[i] == 1 {
				b.WriteByte(' ')
				a.smt(b)
			} else {
				b.WriteString(" (* " + num(x.cs[i]) + " ")
				a.smt(b)
				b.WriteByte(')')
			}
		}
		if x.n != 0 || len(x.args) == 1 {
			b.WriteString(" " + num(x.n))
		}
		b.WriteByte(')')
	case "mul":
		bin("*")
	case "eq":
		bin("=")
	case "itoa":
		bin("itoa")
	case "cat": // nested to the right
		for i, a := range x.args {
			if i < len(x.args)-1 {
				b.WriteString("(cat ")
			}
			a.smt(b)
			if i < len(x.args)-1 {
				b.WriteByte(' ')
			}
		}
		b.WriteString(strings.Repeat(")", len(x.args)-1))
	case "uf":
		if len(x.args) == 0 {
			b.WriteString(ufName(x))
			return
		}
		bin(ufName(x))
	default:
		bin(x.op)
	}
}

func ufName(x *Term) string {
	s := "f_"
	for _, c := range x.s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			s += string(c)
		} else {
			s += fmt.Sprintf("_x%x_", c)
		}
	}
	for _, a := range x.args {
		s += "_" + a.sort.smt()
	}
	return s + "__" + x.sort.smt()
}
