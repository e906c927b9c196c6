package main

import (
	"fmt"
	"math/rand"
)

// checkC08 sends special characters along every path a string value can take.
func checkC08(h *harness) {
	differential(h, runs(h, 3500), []profile{
		{types: []Ty{TStr, TStr, TSStr, TInt, TBool}, slices: true, loops: true, funcs: 20, calls: 20, compounds: true, multi: true, stmts: 14, depth: 2, strs: nasty, strAlpha: printable, switches: true, panics: true},
		{types: []Ty{TStr}, loops: true, funcs: 15, calls: 30, compounds: true, multi: true, stmts: 12, depth: 3, strs: nasty, strAlpha: printable},
		{types: []Ty{TStr, TSStr, TBool}, slices: true, loops: true, stmts: 16, depth: 2, strs: nasty, strAlpha: printable},
	}, "C08 literals")
	if h.over() {
		return
	}
	// Values which are obtained at run time.
	h.each(runs(h, 1200), func(l *lane, r *rand.Rand, i int) {
		s, s2 := nastyStr(r), nastyStr(r)
		in := oneLine(nastyStr(r))
		q := func(x string) string { return quoteStr(x, r.Intn(3) == 0) }
		src := "w := " + q(s) + `
f := read("file")
o, e, c := @cat("file2")
n := input()
func id(p string, q string) string {
	return p
}
func two(p string) (string, string) {
	return p, p
}
func inner() string {
	x := read("file2")
	y := [` + `]string{x}
	return y[0]
}
print(f == w, o, c)
print(f)
print(n)
print(f + n + o)
l := []string{f, o, n}
l[4] = f
for j, v := range l {
	print(j, v, len(v), v == f)
}
l2 := []string{}
print(copy(l2, l), l2[0] == f, l2[2] == n)
print(id(f, n) + id(n, f))
a, b := two(o)
print(a == b, a == o, a)
print(inner() == o)
for j, ch := range f {
	print(j, ch)
}
write("out", f)
write("out", o, true)
write("out2", n)
print(read("out") == f + "\n" + o, read("out2") == n, exists("canary"))
if n == f {
	print("same")
} else if n != o {
	print("other")
}
switch f {
case w:
	print("w")
}
`
		_ = fmt.Sprint
		in1 := &interp{max: 100000}
		exp := expC08(s, s2, in)
		_ = in1
		script, err := l.tr(src)
		if err != "" {
			h.fail("a well-typed program is not accepted", "program", src, "observed", err)
			return
		}
		var out, out2 []byte
		canary := false
		got := l.sh(script, in+"\n", func(d string) {
			put(d, "file", s+"\n")
			put(d, "file2", s2+"\n")
		}, func(d string) {
			out, out2 = get(d, "out"), get(d, "out2")
			canary = get(d, "canary") != nil
		})
		if got.Out != exp || got.Err != "" || got.Code != 0 || canary || string(out) != s+"\n"+s2+"\n" || string(out2) != in+"\n" {
			h.fail("a string value obtained at run time is not treated as opaque data", "file", fmt.Sprintf("%q", s), "command output", fmt.Sprintf("%q", s2), "input", fmt.Sprintf("%q", in), "program", src, "expected", fmt.Sprintf("%q", exp), "observed", got.String()+fmt.Sprintf("\nout %q out2 %q canary %v", out, out2, canary), "script", script)
			return
		}
		h.count("C08 runtime values", 3)
	})
}

func expC08(s, o, n string) string {
	b := func(x bool) string {
		if x {
			return "1"
		}
		return "0"
	}
	e := ""
	p := func(a ...string) {
		for i, x := range a {
			if i > 0 {
				e += " "
			}
			e += x
		}
		e += "\n"
	}
	d := func(i int) string { return fmt.Sprint(i) }
	p("1", o, "0")
	p(s)
	p(n)
	p(s + n + o)
	for j, v := range []string{s, o, n, "", s} {
		p(d(j), v, d(len(v)), b(v == s))
	}
	p("5", "1", "1")
	p(s + n)
	p("1", "1", o)
	p("1")
	for j := range s {
		p(d(j), s[j:j+1])
	}
	p("1", "1", "0")
	if n == s {
		p("same")
	} else if n != o {
		p("other")
	}
	p("w")
	return e
}
