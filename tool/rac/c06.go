package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C06"] = checkC06 }

// Type codes of the table: the single types, V (call without value), M (call with two int values).
var shapes = map[string][]string{
	"I":  {"1", "iv", "fi()", "(iv)", "iv + 1", "li[0]", "len(sv)", "len(li)", "fi1(iv)", "-3", "(iv * (2 + fi()))", "copy(li, li)", "iv % 2", "gi"},
	"B":  {"true", "false", "bv", "fb()", "(bv)", "!bv", "iv < 2", "bv && bv", "lb[0]", `sv == "x"`, `exists("f")`, "!(bv || !bv)", "iv != 1 || bv", "bv == true", "sv != nil"},
	"S":  {`"x"`, "`r`", "sv", "fs()", "(sv)", `sv + "y"`, "ls[0]", "sv[0]", "sv[0:1]", "sv[:1]", "itoa(iv)", `read("f")`, "nil", "input()", `fs1(sv + "a")`, "sv + sv + sv", "ev"},
	"LI": {"li", "fli()", "[]int{1, 2}", "[]int{}", "[]int{iv, fi()}"},
	"LB": {"lb", "flb()", "[]bool{true}", "[]bool{}"},
	"LS": {"ls", "fls()", `[]string{"a"}`, "[]string{}"},
	"V":  {"fv()", "fv1(1)", "(fv())"},
	"M":  {"fm()", "fm()"},
}

var single = []string{"I", "B", "S", "LI", "LB", "LS"}
var allTy = []string{"I", "B", "S", "LI", "LB", "LS", "V", "M"}
var tyName = map[string]string{"I": "int", "B": "bool", "S": "string", "LI": "[]int", "LB": "[]bool", "LS": "[]string"}

const c06Pre = `func fi() int {
	return 1
}
func fi1(p int) int {
	return p
}
func fb() bool {
	return true
}
func fs() string {
	return "s"
}
func fs1(p string) string {
	return p
}
func fli() []int {
	return []int{1}
}
func flb() []bool {
	return []bool{true}
}
func fls() []string {
	return []string{"a"}
}
func fv() {
}
func fv1(p int) {
}
func fm() (int, int) {
	return 1, 2
}
func fms() (string, int) {
	return "a", 2
}
func f2(p int, q int) int {
	return p
}
func f2s(p string, q int) string {
	return p
}
func f2b(p []int, q bool) {
}
func f0() int {
	return 0
}
func fpp(p int, q string, r []int) (int, string, []int) {
	return p, q, r
}
func fnb {
}
`

const c06Vars = `var iv int
var bv bool
var sv string
var ev error
var li []int
var lb []bool
var ls []string
`

// pos is a typed position: a statement (or an expression yielding a type) with holes and the rule for them.
type pos struct {
	text string
	n    int
	res  string               // result type if it is an expression ("" statement)
	ok   func(t []string) int // 1 accept, 0 reject, -1 unspecified
	rt   func(t []string) string
	ret  string // return types of the surrounding function which are required
}

func is(t string) func([]string) int {
	return func(x []string) int { return b2i(x[0] == t) }
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
func isSingle(t string) bool { return t != "V" && t != "M" }
func slicet(t string) bool   { return t[0] == 'L' && len(t) == 2 }

func positions() (ex, st []pos) {
	same := func(f func(t string) bool) func([]string) int {
		return func(x []string) int { return b2i(x[0] == x[1] && f(x[0])) }
	}
	isI := func(t string) bool { return t == "I" }
	for _, op := range []string{"-", "*", "/", "%"} {
		ex = append(ex, pos{text: "~ " + op + " ~", n: 2, res: "I", ok: same(isI)})
	}
	ex = append(ex, pos{text: "~ + ~", n: 2, ok: same(func(t string) bool { return t == "I" || t == "S" }), rt: func(t []string) string { return t[0] }})
	for _, op := range []string{"==", "!="} {
		ex = append(ex, pos{text: "~ " + op + " ~", n: 2, res: "B", ok: same(func(t string) bool { return t == "I" || t == "S" || t == "B" })})
	}
	for _, op := range []string{"<", "<=", ">", ">="} {
		ex = append(ex, pos{text: "~ " + op + " ~", n: 2, res: "B", ok: same(func(t string) bool { return t == "I" || t == "S" })})
	}
	for _, op := range []string{"&&", "||"} {
		ex = append(ex, pos{text: "~ " + op + " ~", n: 2, res: "B", ok: same(func(t string) bool { return t == "B" })})
	}
	ex = append(ex, pos{text: "!~", n: 1, res: "B", ok: is("B")}, pos{text: "!(~)", n: 1, res: "B", ok: is("B")})
	ex = append(ex, pos{text: "(~)", n: 1, ok: func(x []string) int { return b2i(isSingle(x[0])) }, rt: func(t []string) string { return t[0] }})
	for v, t := range map[string]string{"li": "I", "lb": "B", "ls": "S", "sv": "S"} {
		ex = append(ex, pos{text: v + "[~]", n: 1, res: t, ok: is("I")})
	}
	two := func(a, b string) func([]string) int {
		return func(x []string) int { return b2i(x[0] == a && x[1] == b) }
	}
	ex = append(ex, pos{text: "sv[~:~]", n: 2, res: "S", ok: two("I", "I")}, pos{text: "sv[~:]", n: 1, res: "S", ok: is("I")}, pos{text: "sv[:~]", n: 1, res: "S", ok: is("I")})
	for _, v := range []string{"iv", "bv"} {
		ex = append(ex, pos{text: v + "[~]", n: 1, ok: func([]string) int { return 0 }}, pos{text: v + "[~:~]", n: 2, ok: func([]string) int { return 0 }})
	}
	for _, e := range []string{"I", "B", "S"} {
		l := "L" + e
		for k := 1; k <= 3; k++ {
			ex = append(ex, pos{text: tyName[l] + "{~" + strings.Repeat(", ~", k-1) + "}", n: k, res: l, ok: func(x []string) int {
				for _, t := range x {
					if t != e {
						return 0
					}
				}
				return 1
			}})
		}
	}
	ex = append(ex,
		pos{text: "len(~)", n: 1, res: "I", ok: func(x []string) int { return b2i(x[0] == "S" || slicet(x[0])) }},
		pos{text: "itoa(~)", n: 1, res: "S", ok: is("I")}, pos{text: "exists(~)", n: 1, res: "B", ok: is("S")}, pos{text: "read(~)", n: 1, res: "S", ok: is("S")}, pos{text: "input(~)", n: 1, res: "S", ok: is("S")},
		pos{text: "copy(li, ~)", n: 1, res: "I", ok: is("LI")}, pos{text: "copy(ls, ~)", n: 1, res: "I", ok: is("LS")}, pos{text: "copy(lb, ~)", n: 1, res: "I", ok: is("LB")},
		pos{text: "copy(iv, ~)", n: 1, ok: func(x []string) int { return 0 }},
		pos{text: "fi1(~)", n: 1, res: "I", ok: is("I")}, pos{text: "fs1(~)", n: 1, res: "S", ok: is("S")},
		pos{text: "f2(~, ~)", n: 2, res: "I", ok: two("I", "I")}, pos{text: "f2s(~, ~)", n: 2, res: "S", ok: two("S", "I")},
		pos{text: "f2(~)", n: 1, res: "I", ok: is("M")}, pos{text: "f2s(~)", n: 1, res: "S", ok: func(x []string) int { return 0 }},
		pos{text: "f2(~, ~, ~)", n: 3, ok: func(x []string) int { return 0 }}, pos{text: "fi1(~, ~)", n: 2, ok: func(x []string) int { return 0 }},
		pos{text: "f0(~)", n: 1, ok: func(x []string) int {
			if x[0] == "V" {
				return -1
			}
			return 0
		}},
		pos{text: "len()", ok: never}, pos{text: "itoa()", ok: never}, pos{text: "read()", ok: never}, pos{text: "exists()", ok: never}, pos{text: "f2()", ok: never}, pos{text: "fi1()", ok: never}, pos{text: "copy(li)", ok: never}, pos{text: "copy()", ok: never},
		pos{text: "len(~, ~)", n: 2, ok: never}, pos{text: "itoa(~, ~)", n: 2, ok: never}, pos{text: "read(~, ~)", n: 2, ok: never}, pos{text: "exists(~, ~)", n: 2, ok: never}, pos{text: "copy(li, ~, ~)", n: 2, ok: never}, pos{text: "input(~, ~)", n: 2, ok: never},
	)
	s := func(text string, n int, ok func([]string) int) { st = append(st, pos{text: text, n: n, ok: ok}) }
	s("q := ~", 1, func(x []string) int { return b2i(isSingle(x[0])) })
	s("var q = ~", 1, func(x []string) int { return b2i(isSingle(x[0])) })
	s("q, q2 := ~", 1, is("M"))
	s("var q, q2 = ~", 1, is("M"))
	s("var q, q2 int = ~", 1, is("M"))
	s("var q, q2 string = ~", 1, never)
	s("q, q2, q3 := ~", 1, never)
	s("q := fms()", 0, never)
	s("fnb()", 0, always)
	s("fnb(~)", 1, func(x []string) int {
		if x[0] == "V" {
			return -1
		}
		return 0
	})
	s("fnb(~, ~)", 2, never)
	s("q, q2, q3 := fpp(~, ~, ~)", 3, func(x []string) int { return b2i(x[0] == "I" && x[1] == "S" && x[2] == "LI") })
	s("fpp(~, ~)", 2, never)
	s("q, q2, q3 := fpp(fpp(~, ~, ~))", 3, func(x []string) int { return b2i(x[0] == "I" && x[1] == "S" && x[2] == "LI") })
	s("q, q2 := fms()", 0, always)
	s("sv, iv = fms()", 0, always)
	s("iv, sv = fms()", 0, never)
	s("iv, gi = ~", 1, is("M"))
	s("q, q2 := ~, ~", 2, func(x []string) int { return b2i(isSingle(x[0]) && isSingle(x[1])) })
	s("q := ~, ~", 2, never)
	s("q, q2 := ~, ~, ~", 3, never)
	// A definition which redefines a variable next to a new one is an assignment to it.
	for v, t := range map[string]string{"iv": "I", "bv": "B", "sv": "S", "li": "LI", "lb": "LB", "ls": "LS"} {
		v, t := v, t
		s("q, "+v+" := ~, ~", 2, func(x []string) int { return b2i(isSingle(x[0]) && x[1] == t) })
		s(v+", q := ~, ~", 2, func(x []string) int { return b2i(isSingle(x[1]) && x[0] == t) })
		s("q, "+v+" := fms()", 0, func([]string) int { return b2i(t == "I") })
		s(v+", q := fms()", 0, func([]string) int { return b2i(t == "S") })
	}
	for _, t := range single {
		t := t
		s("var q "+tyName[t]+" = ~", 1, is(t))
		s("var q, q2 "+tyName[t]+" = ~, ~", 2, two(t, t))
	}
	vs := map[string]string{"iv": "I", "bv": "B", "sv": "S", "li": "LI", "lb": "LB", "ls": "LS", "ev": "S"}
	for v, t := range vs {
		v, t := v, t
		s(v+" = ~", 1, is(t))
		s(v+" = ~, ~", 2, never)
		s(v+", gi = ~, ~", 2, two(t, "I"))
		s(v+" += ~", 1, func(x []string) int { return b2i(x[0] == t && (t == "I" || t == "S")) })
		for _, op := range []string{"-", "*", "/", "%"} {
			s(v+" "+op+"= ~", 1, func(x []string) int { return b2i(x[0] == t && t == "I") })
		}
		s(v+"++", 0, func([]string) int { return b2i(t == "I") })
		s(v+"--", 0, func([]string) int { return b2i(t == "I") })
		if slicet(t) {
			s(v+"[~] = ~", 2, two("I", t[1:]))
		} else {
			s(v+"[~] = ~", 2, never)
		}
	}
	s("if ~ {\n}", 1, is("B"))
	s("if bv {\n} else if ~ {\n}", 1, is("B"))
	s("if bv {\n} else if bv {\n} else if ~ {\n} else {\n}", 1, is("B"))
	s("for ~ {\nbreak\n}", 1, is("B"))
	s("for q := 0; ~; q++ {\nbreak\n}", 1, is("B"))
	s("for q := ~; q < 3; q++ {\nbreak\n}", 1, is("I"))
	s("for q := 0; q < 3; q += ~ {\nbreak\n}", 1, is("I"))
	s("for q, q2 := range ~ {\n}", 1, func(x []string) int { return b2i(x[0] == "S" || slicet(x[0])) })
	s("switch ~ {\ncase ~:\n}", 2, func(x []string) int {
		if slicet(x[0]) {
			return 0
		}
		return b2i(x[0] == x[1] && isSingle(x[0]))
	})
	s("switch ~ {\ncase iv:\ncase ~:\ndefault:\n}", 2, func(x []string) int { return b2i(x[0] == "I" && x[1] == "I") })
	s("switch {\ncase ~:\n}", 1, is("B"))
	s("switch {\ncase bv:\ncase ~:\ndefault:\n}", 1, is("B"))
	s("print(~)", 1, func(x []string) int {
		if x[0] == "M" || slicet(x[0]) {
			return -1
		}
		return b2i(isSingle(x[0]))
	})
	s("print(~, ~)", 2, func(x []string) int {
		if slicet(x[0]) || slicet(x[1]) {
			if x[0] == "V" || x[1] == "V" || x[0] == "M" || x[1] == "M" {
				return 0
			}
			return -1
		}
		return b2i(isSingle(x[0]) && isSingle(x[1]))
	})
	s("panic(~)", 1, func(x []string) int {
		if isSingle(x[0]) && x[0] != "S" {
			return -1 // README: panic(err), Go: any value
		}
		return b2i(x[0] == "S")
	})
	s("write(~, ~)", 2, two("S", "S"))
	s("write(sv, ~, ~)", 2, two("S", "B"))
	s("write(~)", 1, never)
	s("write(sv, sv, bv, ~)", 1, never)
	s("panic()", 0, never)
	s("panic(~, ~)", 2, never)
	s("f2b(~, ~)", 2, two("LI", "B"))
	s("fv1(~)", 1, is("I"))
	s("q := @cat(~)", 1, never)
	s("q, q2, q3 := @cat(sv)\nq4 := q + q2\nq5 := q3 + 1", 0, always)
	s("q, q2, q3 := @cat(sv)\nq4 := q + q3", 0, never)
	s("q, q2 := @cat(sv)", 0, never)
	s("@cat(~)", 1, func(x []string) int {
		if x[0] == "S" {
			return 1
		}
		if x[0] == "V" || x[0] == "M" {
			return 0
		}
		return -1
	})
	for _, t := range single {
		t := t
		r := func(text string, n int, ret string, ok func([]string) int) {
			st = append(st, pos{text: text, n: n, ok: ok, ret: ret})
		}
		r("return ~", 1, tyName[t], is(t))
		r("return ~, ~", 2, tyName[t], never)
		r("return", 0, tyName[t], never)
		r("return ~, ~", 2, "("+tyName[t]+", string)", two(t, "S"))
		r("return ~", 1, "("+tyName[t]+", int)", func(x []string) int { return b2i(x[0] == "M" && t == "I") })
		r("return ~, ~, ~", 3, "("+tyName[t]+", string)", never)
	}
	st = append(st, pos{text: "return", ok: always, ret: "-"}, pos{text: "return ~", n: 1, ret: "-", ok: func(x []string) int {
		if x[0] == "V" {
			return -1
		}
		return 0
	}})
	return
}

func never([]string) int  { return 0 }
func always([]string) int { return 1 }

// where an expression of a type may stand so that it is accepted
var hosts = map[string][]string{
	"I":  {"q := ~", "iv = ~", "iv += ~", "print(~)", "li[~] = 1", "li[0] = ~", "fv1(~)", "if ~ == 1 {\n}", "fv1(fi1(~))", "q := []int{1, ~}", "q := sv[~]", "q := 1 + (2 * ~)", "switch ~ {\ncase 1:\n}", "switch iv {\ncase ~:\n}", "print(itoa(~))", "q, q2 := 1, ~", "for q := ~; q < 1; q++ {\n}"},
	"B":  {"q := ~", "bv = ~", "print(~)", "if ~ {\n}", "for ~ {\nbreak\n}", "lb[1] = ~", "q := bv && (~)", "q := !(~)", "switch {\ncase ~:\n}", "if bv {\n} else if ~ {\n}", "write(sv, sv, ~)"},
	"S":  {"q := ~", "sv = ~", "sv += ~", "print(~)", "ls[1] = ~", `q := "a" + (~)`, "print(fs1(~))", "write(~, sv)", "write(sv, ~)", "panic(~)", "@cat(~)", "for q, q2 := range ~ {\n}", "q := len(~)", "switch sv {\ncase ~:\n}"},
	"LI": {"q := ~", "li = ~", "f2b(~, bv)", "for q, q2 := range ~ {\n}", "q := len(~)", "q := copy(li, ~)"},
	"LB": {"q := ~", "lb = ~", "q := len(~)"},
	"LS": {"q := ~", "ls = ~", "q := len(~)"},
}

var ctxs = []struct{ pre, post string }{
	{"", ""}, {"if bv {\n", "\n}"}, {"if bv {\n} else {\n", "\n}"}, {"if bv {\n} else if true {\n", "\n}"}, {"for bv {\nbreak\n", "\n}"}, {"for w := 0; w < 2; w++ {\n", "\n}"}, {"for w, w2 := range sv {\n", "\n}"},
	{"switch iv {\ncase 1:\n", "\n}"}, {"switch {\ndefault:\n", "\n}"}, {"if bv {\nfor bv {\nif bv {\n", "\nbreak\n}\n}\n}"},
}

func fill(text string, parts []string) string {
	for _, p := range parts {
		text = strings.Replace(text, "~", "\x00"+p+"\x00", 1)
	}
	return strings.ReplaceAll(text, "\x00", "")
}

// fillP puts parentheses around operands of operators where precedence would regroup them.
func fillP(r *rand.Rand, p pos, ts []string) string {
	ps := []string{}
	for _, t := range ts {
		x := shapes[t][r.Intn(len(shapes[t]))]
		bare := strings.Contains(p.text, "~ ") || strings.Contains(p.text, " ~") || strings.HasPrefix(p.text, "!~")
		if bare && strings.ContainsAny(x, " !") && !strings.HasPrefix(x, "(") && !strings.HasSuffix(x, "}") && p.res+"x" != "x" || bare && p.rt != nil && strings.Contains(x, " ") && !strings.HasSuffix(x, "}") {
			x = "(" + x + ")"
		}
		ps = append(ps, x)
	}
	return fill(p.text, ps)
}

func tuples(n int, f func([]string)) {
	t := make([]string, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(t)
			return
		}
		for _, x := range allTy {
			t[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

type typed struct {
	p  pos
	ts []string
	ok int
	ex bool
}

func checkC06(h *harness) {
	ex, st := positions()
	all, good := []typed{}, []typed{}
	for k, l := range [][]pos{ex, st} {
		for _, p := range l {
			tuples(p.n, func(t []string) {
				if ok := p.ok(t); ok >= 0 {
					c := typed{p, append([]string{}, t...), ok, k == 0}
					all = append(all, c)
					if ok == 1 {
						good = append(good, c)
					}
				}
			})
		}
	}
	h.count("C06 typed combinations", len(all))
	rounds := 4
	if h.thorough {
		rounds = 200
	}
	h.each(len(all)*rounds, func(l *lane, r *rand.Rand, i int) {
		c := all[r.Intn(len(all))]
		if i < len(all) {
			c = all[i]
		} else if i%2 == 0 {
			c = good[(i/2)%len(good)] // also shows that the scaffolding is accepted
		}
		ok, what, src := c.ok, "", ""
		if i >= len(all) && i%3 == 0 {
			src, ok, what = longCase(r)
			h.count("C06 long lists", 1)
		} else if src, what = c06Program(r, c); src == "" {
			return
		}
		o := l.do(&req{Files: map[string]string{"main.tsh": src}, Main: "main.tsh", Targets: []string{"bash", "batch"}})
		if o.Crash+o.Panic != "" {
			h.fail("transpilation crashes", "program", src, "observed", o.Crash+o.Panic)
			return
		}
		if (o.IsErr[0]) != (o.IsErr[1]) || o.Err[0] != o.Err[1] {
			h.fail("the targets disagree about the typing", "program", src, "observed", fmt.Sprintf("bash: %q batch: %q", o.Err[0], o.Err[1]))
			return
		}
		if o.IsErr[0] && (o.Out[0] != "" || o.Out[1] != "" || o.Err[0] == "") {
			h.fail("an error comes with a script or without a message", "program", src, "observed", o.Err[0]+o.Out[0]+o.Out[1])
			return
		}
		if ok == 1 && o.IsErr[0] {
			h.fail("a well-typed program is rejected: "+what, "program", src, "observed", o.Err[0])
			return
		}
		if ok == 0 && !o.IsErr[0] {
			h.fail("an ill-typed program is translated: "+what, "program", src, "observed", "a script of "+fmt.Sprint(len(o.Out[0]))+" bytes and no error")
			return
		}
		h.count("C06 accepted programs", ok)
		h.count("C06 rejected programs", 1-ok)
	})
}

// c06Program puts a typed position into a program.
func c06Program(r *rand.Rand, c typed) (src, what string) {
	text := fillP(r, c.p, c.ts)
	if c.p.ret != "" && c.ok == 0 && strings.Contains(text, "nil") {
		return "", "" // nil is also a slice value when it is returned
	}
	what = c.p.text + " with " + strings.Join(c.ts, ", ")
	if c.ex {
		rt := c.p.res
		if c.p.rt != nil && c.ok == 1 {
			rt = c.p.rt(c.ts)
		}
		if c.ok == 0 || rt == "" {
			// An ill-typed expression is rejected wherever it stands.
			k := r.Intn(len(single))
			rt = single[k]
			if c.p.res != "" && r.Intn(4) > 0 {
				rt = c.p.res
			}
		}
		if r.Intn(3) == 0 && !strings.HasPrefix(text, "(") {
			text = "(" + text + ")"
		} else if strings.ContainsAny(text, " !") && (strings.Contains(c.p.text, "~ ") || strings.HasPrefix(c.p.text, "!")) {
			text = "(" + text + ")"
		}
		hs := hosts[rt]
		text = fill(hs[r.Intn(len(hs))], []string{text})
	}
	ctx := ctxs[r.Intn(len(ctxs))]
	if r.Intn(3) == 0 {
		ctx = ctxs[0]
	}
	text = ctx.pre + text + ctx.post
	src = needed(c06Pre, "func ", "}\n", text)
	vars := needed(c06Vars, "var ", "\n", text+" gi")
	if strings.Contains(text, "gi") {
		src = "var gi int\n" + src
	}
	switch {
	case c.p.ret != "":
		rt, tail := c.p.ret+" ", ""
		if rt == "- " {
			rt = ""
		} else if ctx.pre != "" || r.Intn(2) == 0 {
			tail = "\npanic(\"x\")"
		}
		src += "func target() " + rt + "{\n" + vars + text + tail + "\n}\n"
	case r.Intn(2) == 0:
		src += "func target() {\n" + vars + text + "\n}\n"
		if r.Intn(2) == 0 {
			src += "target()\n"
		}
	default:
		src += vars + text + "\n"
	}
	return src, what
}

// needed keeps the definitions of the preamble which the text mentions.
func needed(pre, start, end, text string) string {
	out := ""
	for _, d := range strings.SplitAfter(pre, "\n"+start) {
		d = strings.TrimSuffix(d, start)
		if !strings.HasPrefix(d, start) {
			d = start + d
		}
		n := d[len(start):]
		n = n[:strings.IndexAny(n, "( ")]
		if strings.Contains(text, n) && d != start {
			out += d
		}
	}
	return out
}
