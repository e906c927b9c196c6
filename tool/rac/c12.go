package main

import (
	"fmt"
	"math/rand"
	"strings"

	lx "github.com/monstermichl/typeshell/lexer"
)

func init() { checks["C12"] = checkC12 }

func pickS(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// relayout renders the tokens of a source text with another layout.
func relayout(r *rand.Rand, src string, style int) (string, bool) {
	want, bad, unspec := refLex(src)
	if bad || unspec || strings.Contains(src, "\r") {
		return "", false
	}
	comment := func() string {
		return pickS(r, "// c", "//", "// \"x", "// } {", "//`", "// /* x", "// if a {", "//\t", "// a // b", "// ünï")
	}
	block := func() string {
		return pickS(r, "/* c */", "/**/", "/***/", "/* \" */", "/* // */", "/* } */", "/*a*/ /*b*/", "/*\t*/", "/* ü */")
	}
	eol := "\n"
	if style&1 == 1 {
		eol = "\r\n"
	}
	nl := func() string {
		e := eol
		if style&2 == 2 && r.Intn(2) == 0 {
			e = pickS(r, "\n", "\r\n")
		}
		s := ""
		if style&4 == 4 {
			s += pickS(r, "", " ", "\t ", " "+comment(), comment(), block(), " "+block()+" ")
			s += e
			for r.Intn(3) == 0 {
				s += pickS(r, "", " ", "\t", comment(), "  "+comment(), block(), "\t"+block()+" "+comment()) + e
			}
			if r.Intn(12) == 0 {
				s += strings.Repeat(e, 3+r.Intn(10))
			}
			s += pickS(r, "", " ", "\t", "      ", block())
		} else {
			s += e
		}
		return s
	}
	gaps := make([]string, len(want))
	for i, t := range want {
		if i == 0 {
			gaps[i] = ""
			if style&4 == 4 {
				gaps[i] = pickS(r, "", " ", block(), "\t", strings.Repeat("\n", r.Intn(10)))
			}
			continue
		}
		if t.T == lx.NEWLINE || want[i-1].T == lx.NEWLINE {
			continue
		}
		switch {
		case style&8 == 8:
			gaps[i] = pickS(r, "", "", "", " ", "\t", block(), "  ")
			if r.Intn(30) == 0 {
				gaps[i] = pickS(r, strings.Repeat(" ", 20+r.Intn(300)), "/*"+strings.Repeat("*", 20+r.Intn(200))+"*/")
			}
		case style&16 == 16:
			gaps[i] = ""
		default:
			gaps[i] = pickS(r, " ", "\t", "   ")
		}
	}
	for tries := 0; tries < 20; tries++ {
		b := strings.Builder{}
		for i, t := range want {
			b.WriteString(gaps[i])
			switch {
			case t.T == lx.EOF:
			case t.T == lx.NEWLINE && i == len(want)-2:
				// The last newline is optional.
				if r.Intn(2) == 0 {
					b.WriteString(nl())
				} else if style&4 == 4 {
					b.WriteString(pickS(r, "", " ", comment(), block()))
				}
			case t.T == lx.NEWLINE:
				b.WriteString(nl())
			default:
				s := strings.ReplaceAll(src, "\r\n", "\n")[t.Start:t.End]
				b.WriteString(s)
			}
		}
		out := b.String()
		// The layout must not change the tokens themselves.
		got, bad2, _ := refLex(out)
		x, y := significant(want), significant(got)
		if !bad2 && len(x) == len(y) {
			same := true
			for i := range x {
				if x[i].T != y[i].T || x[i].V != y[i].V {
					same = false
					break
				}
			}
			if same {
				return out, true
			}
		}
		// Separate the first tokens which grew together.
		k := 0
		wi := 0
		for k < len(x) && k < len(y) && x[k].T == y[k].T && x[k].V == y[k].V {
			k++
		}
		n := 0
		for wi = range want {
			if want[wi].T != lx.NEWLINE {
				if n == k {
					break
				}
				n++
			}
		}
		for d := -1; d <= 1; d++ {
			if j := wi + d; j > 0 && j < len(want) && want[j].T != lx.NEWLINE && want[j-1].T != lx.NEWLINE && gaps[j] == "" {
				gaps[j] = " "
			}
		}
		if tries > 10 {
			for j := 1; j < len(gaps); j++ {
				if want[j].T != lx.NEWLINE && want[j-1].T != lx.NEWLINE && r.Intn(2) == 0 && gaps[j] == "" {
					gaps[j] = " "
				}
			}
		}
	}
	return "", false
}

func significant(ts []rtok) []rtok {
	r := []rtok{}
	for _, t := range ts {
		if t.T != lx.NEWLINE {
			r = append(r, t)
		}
	}
	return r
}

// corpus returns a random program over the whole language (whether it can be run or not).
func corpus(r *rand.Rand) (files map[string]string, src string) {
	return corpusWith(r, []string{"a", "b c", "", "x\"y", "//", "/*", "\t", "é"})
}

func corpusWith(r *rand.Rand, strs []string) (files map[string]string, src string) {
	all := []Ty{TInt, TBool, TStr, TSInt, TSStr, TSBool}
	g := &gen{r: r, paths: []string{"p", "q r"}, p: profile{types: all, slices: true, loops: true, switches: true, panics: true, funcs: 20, calls: 20, multi: true, compounds: true, stmts: 4 + r.Intn(10), depth: 2 + r.Intn(2), files: true, strOrder: true, strs: strs}}
	b := []Stmt{}
	for len(b) < g.p.stmts {
		if g.pct(g.p.funcs) {
			b = append(b, g.function())
		} else {
			b = append(b, g.stmt(true)...)
		}
	}
	src = source(b)
	files = map[string]string{}
	// Constructs the interpreter doesn't know.
	lines := strings.SplitAfter(src, "\n")
	extra := []string{}
	k := 0
	n := func(s string) string { k++; return fmt.Sprintf("%s%dz", s, k) }
	for r.Intn(3) == 0 {
		extra = append(extra, pickS(r,
			n("o")+", "+n("e")+", "+n("c")+" := @ls(\"-l\", \"a b\") | @sort() | @`/bin/cat`(\"-\")\n",
			"@ls()\n", "@\"/bin/ls\"(itoa(3)) | @cat()\n", n("i")+" := input()\n", n("i")+" := input(\"prompt\")\n", "var "+n("v")+" error = nil\n",
			n("l")+" := len(read(\"f\"))\n", "write(\"f\", \"x\", !exists(\"f\"))\n", "if "+pickS(r, "true", "false")+" {\n}\n", "func "+n("f")+"() {\n\treturn\n}\n", "for {\n\tbreak\n}\n", "switch {\n}\n", "switch 1 {\ndefault:\n\tprint(1)\n}\n",
			"func "+n("f")+"(pz int, qz string) (string, int) {\n\tif pz == 1 {\n\t\treturn qz, pz\n\t}\n\treturn qz, 2\n}\n", "\n", "\n\n"))
	}
	at := 0
	if len(lines) > 1 && r.Intn(2) == 0 {
		at = len(lines) - 1
	}
	src = strings.Join(lines[:at], "") + strings.Join(extra, "") + strings.Join(lines[at:], "")
	if r.Intn(4) == 0 {
		files["m.tsh"] = "func Pub(p int) int {\n\treturn p\n}\nfunc priv() {\n}\n"
		imp := "import (\n\tmm \"m.tsh\"\n"
		if r.Intn(2) == 0 {
			imp += "\tother \"./m.tsh\"\n"
		}
		if r.Intn(12) == 0 {
			return files, pickS(r, imp+")\n", "import mm \"m.tsh\"\n")
		}
		src = imp + ")\n" + pickS(r, "", "\n") + src + "print(mm.Pub(1))\n"
	}
	return
}

// mutate edits one or two tokens of a program.
func mutate(r *rand.Rand, src string) string {
	ts, _, _ := refLex(src)
	src = strings.ReplaceAll(src, "\r\n", "\n")
	for n := 1 + r.Intn(2); n > 0 && len(ts) > 1; n-- {
		k := r.Intn(len(ts) - 1)
		t := ts[k]
		w := lexBits[r.Intn(len(lexBits)-12)]
		if r.Intn(2) == 0 {
			o := ts[r.Intn(len(ts)-1)]
			w = src[o.Start:o.End]
		}
		switch r.Intn(4) {
		case 0:
			src = src[:t.Start] + src[t.End:]
		case 1:
			src = src[:t.Start] + w + src[t.End:]
		case 2:
			src = src[:t.Start] + w + " " + src[t.Start:]
		case 3:
			src = src[:t.End] + " " + src[t.Start:]
		}
		ts, _, _ = refLex(src)
	}
	return src
}

func checkC12(h *harness) {
	h.each(runs(h, 5000), func(l *lane, r *rand.Rand, i int) {
		files, src := corpus(r)
		if i%3 == 0 {
			src = mutate(r, src)
		}
		q := &req{Files: map[string]string{"main.tsh": src}, Main: "main.tsh", Targets: []string{"bash", "batch"}}
		for k, v := range files {
			q.Files[k] = v
		}
		o := l.do(q)
		if o.Crash+o.Panic != "" {
			h.fail("transpilation crashes", "program", src, "observed", o.Crash+o.Panic)
			return
		}
		if i%3 != 0 && o.IsErr[0] {
			h.fail("a valid program is rejected", "program", src, "observed", o.Err[0])
			return
		}
		for k := 0; k < 4; k++ {
			src2, ok := relayout(r, src, r.Intn(32))
			if !ok {
				h.count("C12 discarded", 1)
				continue
			}
			q.Files["main.tsh"] = src2
			o2 := l.do(q)
			if o2.Crash+o2.Panic != "" {
				h.fail("transpilation crashes", "program", src2, "observed", o2.Crash+o2.Panic)
				return
			}
			for t := range o.Out {
				if o.IsErr[t] != o2.IsErr[t] || o.Out[t] != o2.Out[t] {
					h.fail("layout changes the result", "program", src, "result", o.Err[t]+o.Out[t], "other layout", src2, "as Go string", fmt.Sprintf("%q", src2), "other result", o2.Err[t]+o2.Out[t])
					return
				}
			}
			if o.IsErr[0] {
				h.count("C12 layouts of rejected programs", 1)
			} else {
				h.count("C12 layouts of accepted programs", 1)
			}
		}
	})
}
