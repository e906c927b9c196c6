package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
)

func init() { checks["C13"] = checkC13; checks["C14"] = checkC14 }

// total checks that the outcome is a script or an error.
func total(h *harness, o *res, input string) bool {
	if o.Crash != "" || o.Panic != "" {
		h.fail("transpilation crashes or doesn't end", "input", input, "observed", o.Crash+o.Panic)
		return false
	}
	for i := range o.IsErr {
		if o.IsErr[i] && o.Err[i] == "" {
			h.fail("empty error", "input", input)
			return false
		}
		if o.IsErr[i] == (o.Out[i] != "") {
			h.fail("neither a script nor an error or both", "input", input, "observed", o.Err[i]+"\n"+o.Out[i])
			return false
		}
		if o.IsErr[i] {
			h.count(h.id+" errors", 1)
		} else {
			h.count(h.id+" scripts", 1)
		}
	}
	return true
}

var bt = []string{"bash", "batch"}

func rndTokens(r *rand.Rand, max int) string {
	b := strings.Builder{}
	for n := r.Intn(max); n > 0; n-- {
		b.WriteString(lexBits[r.Intn(len(lexBits))])
		b.WriteString(pickS(r, " ", " ", " ", "", "\n"))
	}
	return b.String()
}

var stubs = []string{"a := 1\n", "var s string\n", "l := []int{1}\n", "func f() int {\n\treturn 1\n}\n", "func v() {\n}\n", "func m() (int, int) {\n\treturn 1, 2\n}\n", "if true {\n", "for i := 0; i < 3; i++ {\n", "switch a {\ncase 1:\n", "}\n", "print(", "@x(", "l[", "import (\n", "func g(", "for i, c := range s {\n", "return ", "var q, w = ", "q, w := ", "a = ", "copy(l, ", "write(", ")"}

func checkC13(h *harness) {
	h.each(runs(h, 40000), func(l *lane, r *rand.Rand, i int) {
		files := map[string]string{}
		src := ""
		switch i % 6 {
		case 0: // arbitrary bytes
			b := make([]byte, r.Intn(60))
			for k := range b {
				if r.Intn(2) == 0 {
					b[k] = byte(r.Intn(256))
				} else {
					b[k] = lexChars[r.Intn(len(lexChars))]
				}
			}
			src = string(b)
		case 1: // arbitrary tokens
			src = rndTokens(r, 30)
		case 2: // arbitrary tokens after some meaningful text
			for n := r.Intn(6); n > 0; n-- {
				src += stubs[r.Intn(len(stubs))]
			}
			src += rndTokens(r, 8)
			for n := r.Intn(4); n > 0; n-- {
				src += stubs[r.Intn(len(stubs))] + rndTokens(r, 3)
			}
		case 3, 4: // token edits of valid programs
			files, src = corpus(r)
			src = mutate(r, src)
			if r.Intn(4) == 0 {
				src = src[:r.Intn(len(src)+1)]
			}
		case 5: // imported files
			src = pickS(r, "import (\n\tx \"m.tsh\"\n)\n", "import x \"m.tsh\"\n", "import (\n\tx \"m.tsh\"\n\ty \"m.tsh\"\n)\n", "import (\n\tx \"no.tsh\"\n)\n", "import (\n\tx \"\"\n)\n", "import (\n\tx \".\"\n)\n", "import (\n\t\"strings\"\n\tx \"m.tsh\"\n)\n", "import (\n\t\"none\"\n)\n", "import (\n\t\"../x\"\n)\n")
			src += pickS(r, "", "x.f()\n", "print(x.F())\n", "x.F\n", "y.F()\n", "x := 1\n", "a := x.F() + x.F()\n")
			switch r.Intn(3) {
			case 0:
				files["m.tsh"] = rndTokens(r, 20)
			case 1:
				_, m := corpus(r)
				files["m.tsh"] = mutate(r, m)
			case 2:
				files["m.tsh"] = stubs[r.Intn(len(stubs))] + "func F() int {\n\treturn 1\n}\n" + rndTokens(r, 4)
			}
		}
		files["main.tsh"] = src
		o := l.doT(&req{Files: files, Main: "main.tsh", Targets: bt}, 20*time.Second)
		total(h, o, fmt.Sprintf("%s\nas Go strings: %q", src, files))
	})
	if h.over() {
		return
	}
	// Import graphs over three files (exhaustive).
	names := []string{"main.tsh", "b.tsh", "c.tsh"}
	h.each(512, func(l *lane, r *rand.Rand, g int) {
		files := map[string]string{}
		for a := 0; a < 3; a++ {
			s := ""
			for b := 0; b < 3; b++ {
				if g>>(3*a+b)&1 == 1 {
					s += fmt.Sprintf("\ti%d \"%s\"\n", b, names[b])
				}
			}
			if s != "" {
				s = "import (\n" + s + ")\n"
			}
			s += fmt.Sprintf("func F%d() int {\n\treturn %d\n}\n", a, a)
			for b := 0; b < 3; b++ {
				if g>>(3*a+b)&1 == 1 && r.Intn(2) == 0 {
					s += fmt.Sprintf("print(i%d.F%d())\n", b, b)
				}
			}
			files[names[a]] = s
		}
		o := l.doT(&req{Files: files, Main: "main.tsh", Targets: bt}, 20*time.Second)
		if total(h, o, fmt.Sprintf("import graph %v", files)) {
			h.count("C13 import graphs", 1)
		}
	})
	// Special files and sizes.
	rep := strings.Repeat
	big := []string{rep("(", 200000), rep("a(", 100000), "a := " + rep("(", 50000) + "1" + rep(")", 50000), "a := " + rep("!", 200000) + "true", rep("if true {\n", 30000), rep("for {\n", 20000) + rep("}\n", 20000), rep("func f() {\n", 20000), "a := 1" + rep(" + 1", 20000), "a := " + rep("[]int{", 30000), rep("[", 100000), "@a()" + rep(" | @a()", 8000),
		"if true {\n}" + rep(" else if true {\n}", 3000), "switch 1 {\n" + rep("case 1:\n", 3000) + "}\n", "print(" + rep("1, ", 20000) + "1)", "a := \"" + rep("x", 300000) + "\"", rep("/*", 100000), rep("\n", 100000), rep("a := 1\n", 2000), "import (\n" + rep("x \"main.tsh\"\n", 500) + ")", "a := true" + rep(" && true", 5000), "x := len(" + rep("len(", 20000), "a := \"x\"\nb := a" + rep("[0:1]", 3000), rep("switch 1 {\ncase 1:\n", 20000), "l := []int{1}\nx := " + rep("l[", 20000) + "0" + rep("]", 20000), "a := " + rep("1 == ", 3000) + "1", "a := " + rep("itoa(", 6000) + "1", "func f() int {\n" + rep("if true {\n", 4000) + "return 1\n" + rep("}\n", 4000) + "}\n", rep("import ", 1000), rep("\"a\" ", 3000), rep("`", 100001), rep("-", 100000), rep("1", 100000), "a := " + rep("9", 30), "a := -" + rep("9", 30), "a := 1.5", rep("a.b(", 50000)}
	h.each(len(big), func(l *lane, r *rand.Rand, i int) {
		o := l.doT(&req{Files: map[string]string{"main.tsh": big[i]}, Main: "main.tsh", Targets: bt}, 100*time.Second)
		show := big[i]
		if len(show) > 200 {
			show = fmt.Sprintf("%s... (%d bytes, number %d)", show[:200], len(show), i)
		}
		if l.slow > 20*time.Second {
			h.notes = append(h.notes, fmt.Sprintf("%v for %s", l.slow, show))
		}
		if total(h, o, show) {
			h.count("C13 large inputs", 1)
		}
	})
	l := h.lanes[0]
	for _, q := range []*req{{Main: "none.tsh"}, {Main: "", Dirs: []string{"x"}}, {Main: "x", Dirs: []string{"x"}}, {Main: "l", Links: map[string]string{"l": "l"}}, {Main: "l", Links: map[string]string{"l": "none"}},
		{Main: "main.tsh", Files: map[string]string{"main.tsh": "import (\n\tx \"d\"\n)\n"}, Dirs: []string{"d"}}, {Main: "main.tsh", Files: map[string]string{"main.tsh": "import (\n\tx \"l\"\n)\n"}, Links: map[string]string{"l": "main.tsh"}},
		{Main: "main.tsh", Files: map[string]string{"main.tsh": "import (\n\tx \"l\"\n)\n"}, Links: map[string]string{"l": "l"}}} {
		q.Targets = bt
		o := l.do(q)
		if total(h, o, fmt.Sprintf("%+v", *q)) && !o.IsErr[0] {
			h.fail("a script for an unreadable program", "input", fmt.Sprintf("%+v", *q))
		}
		h.count("C13 unreadable inputs", 1)
	}
}

func checkC14(h *harness) {
	h.each(runs(h, 1500), func(l *lane, r *rand.Rand, i int) {
		// Programs which use imports, so that all the maps are in use.
		files := map[string]string{}
		mains := []string{}
		n := 2 + r.Intn(3)
		for k := 0; k < n; k++ {
			var src string
			for {
				_, src = corpus(r)
				if !strings.HasPrefix(src, "import") {
					break
				}
			}
			imp := ""
			for m := 0; m < 5; m++ {
				if r.Intn(3) == 0 {
					imp += fmt.Sprintf("\tz%d \"lib/m%d.tsh\"\n", m, m)
					src += fmt.Sprintf("print(z%d.Pub(%d))\n", m, m)
				}
			}
			if r.Intn(3) == 0 {
				imp += "\t\"strings\"\n"
				src += "print(strings." + pickS(r, "Index(\"a\", \"b\")", "TrimSpace(\" a\")", "Replace(\"a\", \"b\", \"c\", 2)", "Contains(\"a\", \"b\")") + ")\n"
			}
			if imp != "" {
				src = "import (\n" + imp + ")\n" + src
			}
			if r.Intn(6) == 0 {
				src = mutate(r, src)
			}
			f := fmt.Sprintf("p%d.tsh", k)
			files[f] = src
			mains = append(mains, f)
		}
		for m := 0; m < 5; m++ {
			_, s := corpus(r)
			if strings.HasPrefix(s, "import") || r.Intn(2) == 0 {
				s = ""
			}
			files[fmt.Sprintf("lib/m%d.tsh", m)] = s + fmt.Sprintf("func Pub(pp int) int {\n\treturn pp + %d\n}\nfunc priv%d(pq int) int {\n\treturn Pub(pq)\n}\nfunc Other() int {\n\treturn priv%d(3)\n}\n", m, m, m)
		}
		type key struct{ m, t string }
		type val struct{ out, err string }
		base := map[key]val{}
		show := fmt.Sprintf("%q", files)
		do := func(q *req) *res {
			q.Files = files
			o := l.do(q)
			if o.Crash+o.Panic != "" {
				h.fail("transpilation crashes", "files", show, "observed", o.Crash+o.Panic)
				return nil
			}
			return o
		}
		check := func(k key, v val, how string) bool {
			h.count("C14 transpilations", 1)
			b, ok := base[k]
			if !ok {
				base[k] = v
				return true
			}
			if b != v {
				h.fail("the result differs "+how, "main file", k.m, "target", k.t, "files", show, "first", b.err+b.out, "other", v.err+v.out)
				return false
			}
			return true
		}
		for _, m := range mains {
			o := do(&req{Main: m, Targets: []string{"bash", "batch", "bash", "batch"}})
			if o == nil {
				return
			}
			for k := range o.Out {
				if !check(key{m, bt[k%2]}, val{o.Out[k], o.Err[k]}, "on repetition") {
					return
				}
			}
		}
		// Interleaved on one transpiler object.
		steps := []step{}
		for k := 4 + r.Intn(8); k > 0; k-- {
			steps = append(steps, step{mains[r.Intn(n)], bt[r.Intn(2)]})
		}
		o := do(&req{Script: steps})
		if o == nil {
			return
		}
		for k, s := range steps {
			if !check(key{s.Main, s.Target}, val{o.Out[k], o.Err[k]}, fmt.Sprintf("after other transpilations (%v)", steps[:k])) {
				return
			}
		}
		// Another process and another place.
		if r.Intn(4) == 0 {
			l.w.stop()
			l.w = nil
		}
		moved := map[string]string{}
		pre := pickS(r, "x/", "some dir/deep/er/", "_/")
		for f, c := range files {
			moved[pre+f] = c
		}
		m := mains[r.Intn(n)]
		q := &req{Files: moved, Main: pre + m, Targets: bt}
		o = l.do(q)
		if o.Crash+o.Panic != "" {
			h.fail("transpilation crashes", "files", show, "observed", o.Crash+o.Panic)
			return
		}
		for k := range o.Out {
			// Messages may contain the path.
			if !check(key{m, bt[k]}, val{o.Out[k], base[key{m, bt[k]}].err}, "in another directory") {
				return
			}
			if o.IsErr[k] != (base[key{m, bt[k]}].err != "") {
				h.fail("acceptance differs in another directory", "files", show)
			}
		}
		h.count("C14 histories", 1)
	})
}
