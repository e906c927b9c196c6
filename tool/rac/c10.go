package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

func init() { checks["C10"] = checkC10 }

var hostile = []string{
	"_h0", "_h1", "_h2", "h0", "_rv0", "_rv1", "rv0", "_sah", "_sch", "_ssh", "_slh", "_fh", "_i", "_ret", "_dvc0", "_dv0", "dvc0", "_sa", "sl0", "_fc", "_e0", "_f0_a", "f_a", "v_a", "v_v_a", "v_", "_v", "_s", "_v_a", "_lb", "_le", "_ls", "_bs", "_bsl",
	"PATH", "IFS", "HOME", "BASH", "BASH_VERSION", "RANDOM", "SECONDS", "LINENO", "UID", "EUID", "PPID", "OPTIND", "REPLY", "PWD", "OLDPWD", "SHELLOPTS", "BASHOPTS", "GROUPS", "FUNCNAME", "PIPESTATUS", "HOSTNAME", "LC_ALL", "PS4", "ENV", "BASH_ENV", "DIRSTACK", "POSIXLY_CORRECT", "TMOUT",
	"echo", "eval", "local", "test", "printf", "read_", "set", "unset", "exit", "export", "declare", "shift", "cd", "source", "trap", "exec", "kill", "let", "wait", "true_", "then", "fi", "do", "done", "esac", "elif", "until", "select", "time", "function", "cat", "seq", "in", "end", "goto", "call", "rem", "nul", "con", "errorlevel", "ERRORLEVEL", "CD", "DATE", "TIME",
	"a", "A", "aa", "Aa", "aA", "AA", "ab", "AB", "aB", "a_b", "a_B", "_a", "_A", "a_", "__", "_", "_0", "_1", "a0", "a1", "a_0", "a_1", "f", "F", "f_0", "f0", "fa", "i", "I",
	"_fl0", "_fl1", "_lc0", "_iv", "fv0", "_c", "_c0", "__c0", "_n", "_l", "_o", "_stdout", "_stderr", "_code", "arg1", "argv", "status", "global", "_h", "_rv", "_hh", "hidden0", "_r0", "_range0", "_len0", "_index0", "_for0", "_sw0",
}

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
var keywordsT = map[string]bool{"var": true, "func": true, "return": true, "if": true, "else": true, "for": true, "range": true, "break": true, "continue": true, "switch": true, "case": true, "default": true, "import": true, "true": true, "false": true, "nil": true, "int": true, "bool": true, "string": true, "error": true, "len": true, "print": true, "panic": true, "input": true, "copy": true, "read": true, "write": true, "exists": true, "itoa": true}

// names collects the variables and functions of a program.
func names(b []Stmt) (vs []*Var, fs []*Func) {
	seen := map[*Var]bool{}
	add := func(v *Var) {
		if v != nil && !seen[v] {
			seen[v] = true
			vs = append(vs, v)
		}
	}
	var walk func(b []Stmt)
	walk = func(b []Stmt) {
		for _, s := range b {
			switch x := s.(type) {
			case SDef:
				for _, v := range x.Vs {
					add(v)
				}
			case SIf:
				for _, c := range x.Bs {
					walk(c)
				}
				walk(x.Else)
			case SSwitch:
				for _, c := range x.Bs {
					walk(c)
				}
				walk(x.Def)
			case SFor:
				if x.Init != nil {
					walk([]Stmt{x.Init})
				}
				walk(x.Body)
			case SRange:
				add(x.I)
				add(x.V)
				walk(x.Body)
			case SFunc:
				fs = append(fs, x.F)
				for _, v := range x.F.Params {
					add(v)
				}
				walk(x.F.Body)
			}
		}
	}
	walk(b)
	return
}

func checkC10(h *harness) {
	ps := []profile{
		{types: scalar, loops: true, switches: true, funcs: 25, calls: 30, multi: true, compounds: true, stmts: 12, depth: 3},
		{types: []Ty{TInt, TStr, TSInt, TSStr}, slices: true, loops: true, funcs: 25, calls: 30, multi: true, compounds: true, stmts: 12, depth: 2},
		{types: []Ty{TInt, TStr, TBool, TSStr}, slices: true, loops: true, switches: true, funcs: 20, calls: 20, compounds: true, stmts: 10, depth: 3, files: true},
	}
	h.each(runs(h, 2600), func(l *lane, r *rand.Rand, i int) {
		g := &gen{r: r, p: ps[i%len(ps)], paths: []string{"f1", "f2"}}
		// Unique names in the original.
		b, out, code := g.program(func() *interp { return &interp{} })
		if len(b) == 0 {
			return
		}
		vs, fs := names(b)
		k := 0
		base := map[string]bool{}
		for _, v := range vs {
			v.Name = fmt.Sprintf("xq%dq", k)
			base[v.Name] = true
			k++
		}
		for _, f := range fs {
			f.Name = fmt.Sprintf("xq%dq", k)
			base[f.Name] = true
			k++
		}
		src := source(b)
		o := l.do(&req{Files: map[string]string{"main.tsh": src}, Main: "main.tsh", Targets: []string{"bash", "batch"}})
		if o.Crash+o.Panic != "" || o.IsErr[0] || o.IsErr[1] {
			h.fail("a well-typed program is not accepted", "program", src, "observed", o.Crash+o.Panic+strings.Join(o.Err, "\n"))
			return
		}
		// The output contains the names of variables and functions as text.
		pool := append([]string{}, hostile...)
		have := map[string]bool{}
		for _, n := range pool {
			have[n] = true
		}
		emitted := []string{}
		for _, s := range o.Out {
			for _, n := range identRe.FindAllString(s, -1) {
				if !have[n] && !keywordsT[n] && !strings.Contains(n, "xq") {
					have[n] = true
					emitted = append(emitted, n)
				}
			}
		}
		// Names whose translation is a name of the script which is not that of an identifier.
		if i := strings.Index(o.Out[0], "xq"); i > 0 {
			j := i
			for j > 0 && (o.Out[0][j-1] == '_' || o.Out[0][j-1] >= '0' && o.Out[0][j-1] <= '9' || o.Out[0][j-1] >= 'a' && o.Out[0][j-1] <= 'z') {
				j--
			}
			for k := j; k < i; k++ {
				pre := o.Out[0][k:i]
				for _, n := range append([]string{}, emitted...) {
					if m := strings.TrimPrefix(n, pre); m != n && identRe.FindString(m) == m && m != "" && !have[m] && !keywordsT[m] {
						have[m] = true
						emitted = append(emitted, m)
					}
				}
			}
		}
		for _, n := range identRe.FindAllString(o.Out[0], -1) {
			// Names which look like the mangled names of other identifiers.
			if strings.Contains(n, "xq") && !base[n] && !have[n] {
				have[n] = true
				emitted = append(emitted, n)
			}
		}
		sort.Strings(emitted)
		for round := 0; round < 3; round++ {
			cand := append([]string{}, pool...)
			if round != 0 {
				cand = append([]string{}, emitted...)
			}
			r.Shuffle(len(cand), func(x, y int) { cand[x], cand[y] = cand[y], cand[x] })
			if round == 2 {
				// Names which differ only in letter case.
				w := []string{"ab", "aB", "Ab", "AB", "abc", "abC", "aBc", "aBC", "Abc", "AbC", "ABc", "ABC", "x", "X", "_x", "_X", "x_", "X_"}
				if r.Intn(2) == 0 {
					l := strings.Repeat("long", 1+r.Intn(10))
					w = []string{l + "a", l + "A", l + "b", l + "B", l, l[:len(l)-1] + "G", l + "_a", l + "_A"}
				}
				r.Shuffle(len(w), func(x, y int) { w[x], w[y] = w[y], w[x] })
				cand = append(w, cand...)
			}
			uniq, got := []string{}, map[string]bool{}
			for _, n := range cand {
				if !got[n] {
					got[n] = true
					uniq = append(uniq, n)
				}
			}
			cand = uniq
			for len(cand) < k {
				cand = append(cand, fmt.Sprintf("zz%d", len(cand)))
			}
			m := map[string]string{}
			n := 0
			for _, v := range vs {
				m[fmt.Sprintf("xq%dq", n)] = cand[n]
				v.Name = cand[n]
				n++
			}
			for _, f := range fs {
				m[fmt.Sprintf("xq%dq", n)] = cand[n]
				f.Name = cand[n]
				n++
			}
			src2 := source(b)
			o2 := l.do(&req{Files: map[string]string{"main.tsh": src2}, Main: "main.tsh", Targets: []string{"bash", "batch"}})
			if o2.Crash+o2.Panic != "" {
				h.fail("transpilation crashes", "program", src2, "observed", o2.Crash+o2.Panic)
				return
			}
			if !o2.IsErr[0] {
				got := l.sh(o2.Out[0], "", nil, nil)
				if got.Out != out || got.Err != "" || got.Code != code {
					h.fail("renaming identifiers changes the behaviour of the Bash script", "program", src2, "expected", fmt.Sprintf("exit status %d\nstdout: %q", code, out), "observed", got.String(), "program with other names", src, "script", o2.Out[0])
					return
				}
				h.count("C10 renamed programs which run", 1)
			} else {
				h.count("C10 renamed programs which are rejected", 1)
			}
			for t, name := range []string{"Bash", "Batch"} {
				if o2.IsErr[t] {
					continue
				}
				if why := consistent(o.Out[t], o2.Out[t], t == 1); why != "" {
					h.fail("renaming identifiers isn't consistent in the "+name+" script: "+why, "program", src2, "program with other names", src, "script", o2.Out[t], "script with other names", o.Out[t])
					return
				}
				h.count("C10 consistent "+name+" scripts", 1)
			}
		}
	})
}

// consistent compares two scripts of renamed programs: up to an injective mapping of words they have to be equal.
func consistent(a, b string, fold bool) string {
	word := regexp.MustCompile(`[A-Za-z0-9_]+`)
	wa, wb := word.FindAllStringIndex(a, -1), word.FindAllStringIndex(b, -1)
	if len(wa) != len(wb) {
		return fmt.Sprintf("%d words instead of %d", len(wb), len(wa))
	}
	f := func(s string) string {
		if fold {
			return strings.ToLower(s)
		}
		return s
	}
	to, from := map[string]string{}, map[string]string{}
	pa, pb := 0, 0
	for i := range wa {
		if a[pa:wa[i][0]] != b[pb:wb[i][0]] {
			return fmt.Sprintf("different text %q and %q", a[pa:wa[i][1]], b[pb:wb[i][1]])
		}
		pa, pb = wa[i][1], wb[i][1]
		x, y := f(a[wa[i][0]:pa]), f(b[wb[i][0]:pb])
		if t, ok := to[x]; ok && t != y {
			return fmt.Sprintf("%q became %q and %q", x, t, y)
		}
		if t, ok := from[y]; ok && t != x {
			return fmt.Sprintf("%q and %q became %q", t, x, y)
		}
		to[x], from[y] = y, x
	}
	if a[pa:] != b[pb:] {
		return "different end"
	}
	return ""
}
