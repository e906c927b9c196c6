package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C04"] = checkC04
	checks["C08"] = checkC08
}

// differential runs generated programs on the real tool chain and compares them with the reference meaning.
func differential(h *harness, n int, profiles []profile, tag string) {
	h.each(n, func(l *lane, r *rand.Rand, i int) {
		g := &gen{r: r, p: profiles[i%len(profiles)]}
		b, out, code := g.program(func() *interp { return &interp{} })
		if len(b) == 0 {
			h.count(tag+" discarded", 1)
			return
		}
		if !compareRun(l, b, out, code) {
			b = shrink(l, b)
			o, c, _ := (&interp{}).run(b)
			script, err := l.tr(source(b))
			got := run{}
			if err == "" {
				got = l.sh(script, "", nil, nil)
			}
			kind := "the emitted Bash script behaves differently from the meaning of the program"
			if err != "" {
				kind = "a well-typed program is not accepted"
			}
			h.fail(kind, "program", source(b), "expected", fmt.Sprintf("exit status %d\nstdout: %q\nstderr: \"\"", c, o), "observed", got.String()+err, "script", script)
			return
		}
		h.count(tag+" programs", 1)
		h.count(tag+" statements", len(b))
	})
}

func compareRun(l *lane, b []Stmt, out string, code int) bool {
	script, err := l.tr(source(b))
	if err != "" {
		return false
	}
	r := l.sh(script, "", nil, nil)
	return r.Out == out && r.Err == "" && r.Code == code && !r.Timeout
}

// shrink removes statements as long as the program stays specified and still fails.
func shrink(l *lane, b []Stmt) []Stmt {
	budget := 150
	bad := func(c []Stmt) bool {
		if budget--; budget < 0 {
			return false
		}
		o, code, why := func() (o string, c2 int, w string) {
			defer func() {
				if r := recover(); r != nil {
					w = "x"
				}
			}()
			return (&interp{}).run(c)
		}()
		if why != "" || !closed(c) {
			return false
		}
		return !compareRun(l, c, o, code)
	}
	for size := len(b) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(b); {
			c := append(append([]Stmt{}, b[:i]...), b[i+size:]...)
			if bad(c) {
				b = c
			} else {
				i += size
			}
		}
	}
	return b
}

// closed reports whether every variable and function used at top level is defined (also in parts which are not run).
func closed(b []Stmt) bool {
	names := map[string]bool{}
	src := ""
	for _, s := range b {
		one := source([]Stmt{s})
		src += one
		switch x := s.(type) {
		case SDef:
			for _, v := range x.Vs {
				names[v.Name] = true
			}
		case SFunc:
			names[x.F.Name] = true
		}
	}
	used := map[*Var]bool{}
	defd := map[*Var]bool{}
	fns := map[*Func]bool{}
	ok := true
	var we func(e Expr)
	var ws func(s []Stmt)
	wes := func(es []Expr) {
		for _, e := range es {
			we(e)
		}
	}
	we = func(e Expr) {
		switch x := e.(type) {
		case EVar:
			used[x.V] = true
		case EBin:
			we(x.L)
			we(x.R)
		case ECmp:
			we(x.L)
			we(x.R)
		case ELog:
			we(x.L)
			we(x.R)
		case ENot:
			we(x.X)
		case EGroup:
			we(x.X)
		case ECall:
			if !fns[x.F] {
				ok = false
			}
			wes(x.Args)
		case EIndex:
			used[x.V] = true
			we(x.I)
		case ESub:
			used[x.V] = true
			if x.A != nil {
				we(x.A)
			}
			if x.B != nil {
				we(x.B)
			}
		case ELen:
			we(x.X)
		case EItoa:
			we(x.X)
		case ESlice:
			wes(x.Vs)
		case ECopy:
			used[x.Dst] = true
			we(x.Src)
		case ERead:
			we(x.P)
		case EExists:
			we(x.P)
		}
	}
	ws = func(ss []Stmt) {
		for _, s := range ss {
			switch x := s.(type) {
			case SDef:
				wes(x.Es)
				for _, v := range x.Vs {
					defd[v] = true
				}
			case SAssign:
				wes(x.Es)
				for _, v := range x.Vs {
					used[v] = true
				}
			case SCompound:
				used[x.V] = true
				we(x.E)
			case SInc:
				used[x.V] = true
			case SIdx:
				used[x.V] = true
				we(x.I)
				we(x.E)
			case SIf:
				wes(x.Cs)
				for _, b := range x.Bs {
					ws(b)
				}
				ws(x.Else)
			case SSwitch:
				if x.Tag != nil {
					we(x.Tag)
				}
				wes(x.Cs)
				for _, b := range x.Bs {
					ws(b)
				}
				ws(x.Def)
			case SFor:
				if x.Init != nil {
					ws([]Stmt{x.Init})
				}
				if x.Cond != nil {
					we(x.Cond)
				}
				if x.Post != nil {
					ws([]Stmt{x.Post})
				}
				ws(x.Body)
			case SRange:
				we(x.X)
				defd[x.I] = true
				if x.V != nil {
					defd[x.V] = true
				}
				ws(x.Body)
			case SRet:
				wes(x.Es)
			case SPrint:
				wes(x.Es)
			case SPanic:
				we(x.E)
			case SExpr:
				we(x.E)
			case SFunc:
				for _, p := range x.F.Params {
					defd[p] = true
				}
				ws(x.F.Body)
				fns[x.F] = true
			case SWrite:
				we(x.P)
				we(x.D)
			}
		}
	}
	ws(b)
	for v := range used {
		if !defd[v] {
			ok = false
		}
	}
	_ = strings.Join
	return ok
}

var scalar = []Ty{TInt, TInt, TBool, TStr}

func runs(h *harness, quick int) int {
	if h.thorough {
		return quick * 30
	}
	return quick
}

func checkC01(h *harness) {
	differential(h, runs(h, 6000), []profile{
		{types: scalar, loops: true, switches: true, panics: true, compounds: true, stmts: 10, depth: 3, strOrder: true, multi: true},
		{types: []Ty{TInt, TInt, TBool}, loops: true, switches: true, compounds: true, extreme: true, stmts: 8, depth: 5},
		{types: []Ty{TInt, TBool}, loops: true, stmts: 6, depth: 4, compounds: true},
		{types: []Ty{TBool, TInt}, stmts: 12, depth: 6, switches: true},
		{types: scalar, loops: true, switches: true, stmts: 25, depth: 2, compounds: true, panics: true},
	}, "C01")
}

func checkC02(h *harness) {
	differential(h, runs(h, 6000), []profile{
		{types: scalar, loops: true, funcs: 30, calls: 30, multi: true, compounds: true, stmts: 14, depth: 3},
		{types: []Ty{TInt, TStr, TSInt, TSStr}, slices: true, loops: true, funcs: 30, calls: 30, multi: true, compounds: true, stmts: 14, depth: 2},
		{types: []Ty{TInt}, funcs: 35, calls: 45, multi: true, compounds: true, stmts: 12, depth: 3, trace: true},
		{types: scalar, loops: true, switches: true, panics: true, funcs: 25, calls: 25, multi: true, compounds: true, stmts: 20, depth: 2},
	}, "C02")
}

func checkC03(h *harness) {
	all := []Ty{TInt, TBool, TStr, TStr, TSInt, TSBool, TSStr, TSStr}
	differential(h, runs(h, 6000), []profile{
		{types: all, slices: true, loops: true, compounds: true, stmts: 14, depth: 3, multi: true},
		{types: all, slices: true, loops: true, funcs: 20, calls: 20, compounds: true, stmts: 14, depth: 2, multi: true, switches: true},
		{types: []Ty{TStr, TInt}, loops: true, compounds: true, stmts: 12, depth: 4, strs: []string{"abc", "hello world", "", "x", "a b  c", "0123456789"}},
		{types: []Ty{TSStr, TStr, TInt}, slices: true, loops: true, stmts: 16, depth: 2, strs: []string{"", " ", "a b", "*", "-n", "x y z"}},
	}, "C03")
}

func checkC04(h *harness) {
	differential(h, runs(h, 6000), []profile{
		{types: scalar, funcs: 25, calls: 60, trace: true, loops: true, switches: true, multi: true, compounds: true, stmts: 12, depth: 3},
		{types: []Ty{TInt, TBool, TBool}, funcs: 25, calls: 60, trace: true, loops: true, switches: true, stmts: 12, depth: 3},
		{types: []Ty{TInt, TStr, TBool, TSInt, TSStr}, slices: true, funcs: 25, calls: 50, trace: true, loops: true, switches: true, multi: true, stmts: 12, depth: 3},
	}, "C04")
}

var nasty = []string{
	`"`, `$`, "`", `\`, `'`, `*`, `?`, `[a-z]`, `~`, `!`, `#`, `&`, `;`, `|`, `<`, `>`, `(`, `)`, `{`, `}`, `%`, `^`, `=`, ` `, `  `, "\n", "\n\n", "\t",
	`-n`, `-e`, `-E`, `--`, `-`, `-ne x`, ` lead`, `trail `, `a  b`, "\nx", "x\n", "x\n\n", `$HOME`, `${HOME}`, `$(touch canary)`, "`touch canary`",
	`"; touch canary; "`, `'; touch canary; '`, `$((1+1))`, `\n`, `\\`, `\"`, `\$x`, `*.sh`, `a;b`, `a&b`, `a|b`, `a>b`, `${x}`, `$1`, `$@`, `$?`, `$$`,
	`"a" "b"`, `%s`, `%d%n`, `[0]`, `]`, `!!`, `{a,b}`, `~root`, `\`+"\n", `x=y`, `$'a'`, `_h0`, `${_h0}`, `(a b)`, `)`, `"$(touch canary)"`, `\$(touch canary)`,
	"a\\", "$", "a$", "\"\"", "''", "x`", "==", "-eq", "!=", "-f", "-a", "-o", "( x )", "/", "//", "\\\\\\",
}

const printable = " !\"#$%&'()*+,-./0:;<=>?@AZ[\\]^_`az{|}~\n\t"

func nastyStr(r *rand.Rand) string {
	if r.Intn(3) > 0 {
		return nasty[r.Intn(len(nasty))]
	}
	s := ""
	for n := r.Intn(9); n > 0; n-- {
		if r.Intn(3) == 0 {
			s += nasty[r.Intn(len(nasty))]
		} else {
			s += string(printable[r.Intn(len(printable))])
		}
	}
	return s
}
