package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C15"] = checkC15 }

func checkC15(h *harness) {
	b := func(x bool) string { return map[bool]string{true: "1", false: "0"}[x] }
	h.each(runs(h, 1500), func(l *lane, r *rand.Rand, i int) {
		alpha := pickS(r, "ab", "ab", "aab ", "abc", "a \t\n", "xy *$\"\\`", " \t\n\r\v\f", "a-", "-n")
		str := func(max int) string {
			s := ""
			for n := r.Intn(max + 1); n > 0; n-- {
				s += string(alpha[r.Intn(len(alpha))])
			}
			return s
		}
		src := strings.Builder{}
		src.WriteString("import (\n\t\"strings\"\n)\n\n")
		want := strings.Builder{}
		desc := []string{}
		inFn := r.Intn(3) == 0
		if inFn {
			src.WriteString("func run() {\n")
		}
		panics := false
		for n := 0; n < 10 && !panics; n++ {
			s, t, u := str(6), str(2), str(2)
			if r.Intn(4) == 0 {
				t = s[:r.Intn(len(s)+1)]
			}
			if r.Intn(4) == 0 {
				t = s[r.Intn(len(s)+1):]
			}
			k := r.Intn(7) - 2
			val := func(x string) string {
				switch r.Intn(3) {
				case 0:
					v := fmt.Sprintf("w%dw%d", n, src.Len())
					src.WriteString(v + " := " + quoteStr(x, false) + "\n")
					return v
				}
				return quoteStr(x, r.Intn(4) == 0)
			}
			p1 := func(f, r string) {
				src.WriteString(fmt.Sprintf("print(\"<\" + %s + \">\")\n", f))
				want.WriteString("<" + r + ">\n")
			}
			p2 := func(f, r string) {
				src.WriteString(fmt.Sprintf("print(%s)\n", f))
				want.WriteString(r + "\n")
			}
			call := func(n string, a ...string) string { return "strings." + n + "(" + strings.Join(a, ", ") + ")" }
			f := r.Intn(19)
			desc = append(desc, fmt.Sprintf("%d: function %d %q %q %q %d", n, f, s, t, u, k))
			switch f {
			case 0:
				p2(call("Index", val(s), val(t)), fmt.Sprint(strings.Index(s, t)))
			case 1:
				p2(call("Contains", val(s), val(t)), b(strings.Contains(s, t)))
			case 2:
				es := []string{}
				vs := []string{}
				for m := r.Intn(4); m > 0; m-- {
					es = append(es, str(3))
					vs = append(vs, quoteStr(es[len(es)-1], false))
				}
				sl := "[]string{" + strings.Join(vs, ", ") + "}"
				p1(call("Join", sl, val(t)), strings.Join(es, t))
			case 3:
				p2(call("HasPrefix", val(s), val(t)), b(strings.HasPrefix(s, t)))
			case 4:
				p2(call("HasSuffix", val(s), val(t)), b(strings.HasSuffix(s, t)))
			case 5:
				p2(call("Count", val(s), val(t)), fmt.Sprint(strings.Count(s, t)))
			case 6:
				v := fmt.Sprintf("sp%d", n)
				src.WriteString(v + " := " + call("Split", val(s), val(t)) + "\n")
				src.WriteString(fmt.Sprintf("print(len(%s))\nfor i%d, e%d := range %s {\n\tprint(\"<\" + e%d + \">\")\n}\n", v, n, n, v, n))
				es := strings.Split(s, t)
				want.WriteString(fmt.Sprintln(len(es)))
				for _, e := range es {
					want.WriteString("<" + e + ">\n")
				}
			case 7:
				if k < 0 && r.Intn(4) > 0 {
					k = r.Intn(5)
				}
				if k < 0 {
					panics = true // Go panics with a negative count
					src.WriteString("print(" + call("Repeat", val(s), fmt.Sprint(k)) + ")\n")
				} else {
					p1(call("Repeat", val(s), fmt.Sprint(k)), strings.Repeat(s, k))
				}
			case 8, 9:
				p1(call("Replace", val(s), val(t), val(u), fmt.Sprint(k)), strings.Replace(s, t, u, k))
			case 10:
				p1(call("ReplaceAll", val(s), val(t), val(u)), strings.ReplaceAll(s, t, u))
			case 11, 12, 13:
				nm := []string{"CutPrefix", "CutSuffix"}[r.Intn(2)]
				a1, a2 := val(s), val(t)
				if f == 13 {
					src.WriteString(fmt.Sprintf("x%d, y%d, z%d := %s\n", n, n, n, call("Cut", a1, a2)))
					src.WriteString(fmt.Sprintf("print(\"<\" + x%d + \">\", \"<\" + y%d + \">\", z%d)\n", n, n, n))
					x, y, z := strings.Cut(s, t)
					want.WriteString("<" + x + "> <" + y + "> " + b(z) + "\n")
					break
				}
				src.WriteString(fmt.Sprintf("x%d, z%d := %s\n", n, n, call(nm, a1, a2)))
				src.WriteString(fmt.Sprintf("print(\"<\" + x%d + \">\", z%d)\n", n, n))
				x, z := strings.CutPrefix(s, t)
				if nm == "CutSuffix" {
					x, z = strings.CutSuffix(s, t)
				}
				want.WriteString("<" + x + "> " + b(z) + "\n")
			case 14:
				p1(call("TrimPrefix", val(s), val(t)), strings.TrimPrefix(s, t))
			case 15:
				p1(call("TrimSuffix", val(s), val(t)), strings.TrimSuffix(s, t))
			case 16:
				p1(call("TrimLeft", val(s), val(t)), strings.TrimLeft(s, t))
			case 17:
				if r.Intn(2) == 0 {
					p1(call("TrimRight", val(s), val(t)), strings.TrimRight(s, t))
				} else {
					p1(call("Trim", val(s), val(t)), strings.Trim(s, t))
				}
			case 18:
				p1(call("TrimSpace", val(s)), strings.TrimSpace(s))
			}
		}
		if inFn {
			src.WriteString("}\nrun()\n")
		}
		script, err := l.tr(src.String())
		if err != "" {
			h.fail("a program which uses std/strings is not accepted", "program", src.String(), "observed", err)
			return
		}
		got := l.sh(script, "", nil, nil)
		if panics {
			if got.Code == 0 || !strings.HasPrefix(got.Out, want.String()) || got.Timeout {
				h.fail("Repeat with a negative count returns", "program", src.String(), "observed", got.String())
			}
			h.count("C15 panics", 1)
			return
		}
		if got.Out != want.String() || got.Err != "" || got.Code != 0 {
			h.fail("std/strings differs from Go's strings package", "program", src.String(), "calls", strings.Join(desc, "\n"), "expected", fmt.Sprintf("%q", want.String()), "observed", got.String())
			return
		}
		h.count("C15 calls", len(desc))
	})
}
