package main

// The names of the script: the translation of identifiers is injective, and no identifier gets a name
// which the converter or the shell uses itself. The units of E2 treat both as different names.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	pUnits = append(pUnits, &pDef{fn: "toTargetName", pkg: "transpiler", props: nameProps, raw: rawTargetName, need: []string{"step", "injective", "alphabet"}})
}

// nameProps are the properties which rest on different names for different things.
const nameProps = "C10 C01 C02 C03 C04 C15"

const identChars = "_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// codes are the translations of the characters of an identifier.
type codes struct {
	prefix string
	code   map[byte]string
	ok     bool
}

// rawTargetName runs the body of the translation's loop once per character.
func rawTargetName(u *pUnit) {
	x := u.x
	if p := x.p.pg.pkgs["transpiler"]; p != nil {
		x.initPkg(p)
	}
	u.fn = x.p.pg.fn("transpiler", "toTargetName")
	if u.fn == nil || len(u.fn.Params) != 1 || u.fn.Signature.Results().Len() != 1 {
		unsup("function toTargetName")
	}
	u.top = true
	c := codesOf[x.p.pg]
	if c == nil {
		c = &codes{code: map[byte]string{}}
		codesOf[x.p.pg] = c
	}
	name := x.tt.Var("identifier", SStr)
	k := x.choose(len(identChars) + 1)
	var acc *Term
	var phi *ssa.Phi
	visits := 0
	x.data["strRange"] = func(t *Term) (*Term, bool) {
		if t != name {
			unsup("range over %s", t)
		}
		visits++
		if visits == 1 && k < len(identChars) {
			return x.tt.Int(int64(identChars[k])), true
		}
		return nil, false
	}
	x.cutter = func(fr *frame, b, prev *ssa.BasicBlock) {
		if fr.fn != u.fn {
			unsup("loop in %s", fr.fn)
		}
		if !b.Dominates(prev) {
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					if phi != nil || x.term(fr.env[p]).sort != SStr {
						unsup("variables of the loop")
					}
					phi = p
				}
			}
			if phi == nil {
				unsup("no variable of the loop")
			}
			pre := x.term(fr.env[phi])
			if !pre.isConst() {
				unsup("start of the name")
			}
			c.prefix = pre.s
			// The translation of the characters before.
			acc = x.tt.Var("translated", SStr)
			fr.env[phi] = acc
			return
		}
		p := pieces(x.term(fr.env[phi]))
		if len(p) != 2 || p[0] != acc || !p[1].isConst() {
			unsup("the translation of %q is %s", identChars[k], x.term(fr.env[phi]))
		}
		x.good("step")
		c.code[identChars[k]] = p[1].s
		panic(pathEnd{"end of the loop"})
	}
	objs := len(x.allObjs)
	r := x.call(u.fn, []Val{name}, nil)
	x.cutter = nil
	if k < len(identChars) || len(x.allObjs) != objs || acc == nil {
		unsup("another translation")
	}
	u.known("step", x.term(r) == acc, "the result is %s", describe(r))
	if len(c.code) != len(identChars) {
		unsup("%d of %d characters are translated", len(c.code), len(identChars))
	}
	x.good("alphabet")
	x.good("injective")
	fold := map[byte]string{}
	for ch, s := range c.code {
		u.known("alphabet", strings.Trim(s, identChars) == "", "the translation of %q is %q", ch, s)
		fold[ch] = strings.ToLower(s) // cmd.exe does not know letter case
	}
	u.known("alphabet", strings.Trim(c.prefix, identChars) == "", "the prefix is %q", c.prefix)
	if a, b, ok := ambiguous(fold); ok {
		x.bad("injective", fmt.Sprintf("the identifiers %q and %q have the same translation (regardless of letter case)", a, b))
		return
	}
	c.ok = true
}

var codesOf = map[*program]*codes{}

// ambiguous looks for two texts with the same translation (Sardinas and Patterson).
func ambiguous(code map[byte]string) (string, string, bool) {
	type st struct{ rest, a, b string } // code(a) = code(b)+rest
	q := []st{}
	seen := map[string]bool{}
	chars := []byte{}
	for c := range code {
		chars = append(chars, c)
	}
	sort.Slice(chars, func(i, j int) bool { return chars[i] < chars[j] })
	for _, a := range chars {
		for _, b := range chars {
			if a != b && strings.HasPrefix(code[a], code[b]) {
				q = append(q, st{code[a][len(code[b]):], string(a), string(b)})
			}
		}
	}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		if s.rest == "" {
			return s.a, s.b, true
		}
		if seen[s.rest] {
			continue
		}
		seen[s.rest] = true
		for _, c := range chars {
			switch w := code[c]; {
			case strings.HasPrefix(s.rest, w):
				q = append(q, st{s.rest[len(w):], s.a, s.b + string(c)})
			case strings.HasPrefix(w, s.rest):
				q = append(q, st{w[len(s.rest):], s.b + string(c), s.a})
			}
		}
	}
	return "", "", false
}

// ---- the names of the script

// namePattern describes a name: constants, # for digits, @ for a translated identifier (without the prefix),
// $ for the name of a slice, a zero byte for anything else.
func namePattern(t *Term) string {
	r := ""
	for _, p := range pieces(t) {
		switch {
		case p.isConst():
			r += strings.NewReplacer("#", "\x01", "@", "\x01", "$", "\x01").Replace(p.s) // of no name
		case p.op == "itoa":
			r += "#"
		case p.op == "uf" && p.s == "TT":
			r += "@"
		case isRef(p):
			r += "$"
		default:
			r += "\x00"
		}
	}
	return r
}

func (u *unitRun) named(role string, t *Term) {
	if u != nil && u.out != nil {
		if u.out.names == nil {
			u.out.names = map[string]bool{}
		}
		u.out.names[role+" "+namePattern(t)] = true
	}
}

// nfa is an automaton: state -> letter -> states.
type nfa struct {
	next   []map[byte][]int
	final  map[int]bool
	starts []int
}

func (n *nfa) state() int {
	n.next = append(n.next, map[byte][]int{})
	return len(n.next) - 1
}

func (n *nfa) edge(a int, c byte, b int) { n.next[a][c] = append(n.next[a][c], b) }

func (n *nfa) word(a int, s string, b int) {
	for i := 0; i < len(s); i++ {
		q := b
		if i < len(s)-1 {
			q = n.state()
		}
		n.edge(a, s[i], q)
		a = q
	}
}

// automaton of the names of a pattern.
func automaton(p string, c *codes, slices []string) *nfa {
	n := &nfa{final: map[int]bool{}}
	cur := []int{n.state()}
	n.starts = cur
	step := func(f func(a, b int)) {
		b := n.state()
		for _, a := range cur {
			f(a, b)
		}
		cur = []int{b}
	}
	digits := func(a, b int) {
		for d := byte('0'); d <= '9'; d++ {
			n.edge(a, d, b)
			n.edge(b, d, b)
		}
		m := n.state()
		n.edge(a, '-', m)
		for d := byte('0'); d <= '9'; d++ {
			n.edge(m, d, b)
		}
	}
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '#':
			step(digits)
		case '@':
			step(func(a, b int) {
				for _, w := range c.code {
					n.word(a, w, b)
					n.word(b, w, b)
				}
			})
		case '$':
			from := cur
			end := n.state()
			for _, s := range slices {
				cur = from
				for j := 0; j < len(s); j++ {
					step(func(a, b int) { n.edge(a, s[j], b) })
				}
				for _, a := range cur {
					digits(a, end)
				}
			}
			cur = []int{end}
		default:
			step(func(a, b int) { n.edge(a, p[i], b) })
		}
	}
	for _, a := range cur {
		n.final[a] = true
	}
	return n
}

// common is a word of both automata.
func common(a, b *nfa) (string, bool) {
	type st struct {
		p, q int
		w    string
	}
	q := []st{}
	for _, s := range a.starts {
		for _, t := range b.starts {
			q = append(q, st{s, t, ""})
		}
	}
	seen := map[[2]int]bool{}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		if seen[[2]int{s.p, s.q}] {
			continue
		}
		seen[[2]int{s.p, s.q}] = true
		if a.final[s.p] && b.final[s.q] {
			return s.w, true
		}
		for c, ps := range a.next[s.p] {
			for _, p := range ps {
				for _, r := range b.next[s.q][c] {
					q = append(q, st{p, r, s.w + string(c)})
				}
			}
		}
	}
	return "", false
}

// unambiguous: the parts of a name are determined by the name.
func unambiguous(p string) bool {
	i := strings.IndexByte(p, '@')
	if i != len(p)-1 || strings.ContainsAny(p, "\x00$") {
		return false
	}
	for j := 0; j < i; j++ {
		if p[j] == '#' && (j > 0 && strings.IndexByte("0123456789-#", p[j-1]) >= 0 || j+1 >= i || strings.IndexByte("0123456789#", p[j+1]) >= 0) {
			return false
		}
	}
	return true
}

// shellNames are the words which mean something to Bash.
var shellNames = strings.Fields(`if then else elif fi case esac for select while until do done in function time coproc
alias bg bind break builtin caller cd command compgen complete compopt continue declare dirs disown echo enable eval exec exit export
false fc fg getopts hash help history jobs kill let local logout mapfile popd printf pushd pwd read readarray readonly return set shift
shopt source suspend test times trap true type typeset ulimit umask unalias unset wait
BASH BASHOPTS BASHPID BASH_ALIASES BASH_ARGC BASH_ARGV BASH_ARGV0 BASH_CMDS BASH_COMMAND BASH_COMPAT BASH_ENV BASH_EXECUTION_STRING BASH_LINENO
BASH_LOADABLES_PATH BASH_REMATCH BASH_SOURCE BASH_SUBSHELL BASH_VERSINFO BASH_VERSION BASH_XTRACEFD CHILD_MAX COLUMNS COMP_CWORD COMP_KEY
COMP_LINE COMP_POINT COMP_TYPE COMP_WORDBREAKS COMP_WORDS COMPREPLY COPROC DIRSTACK EMACS ENV EPOCHREALTIME EPOCHSECONDS EUID EXECIGNORE FCEDIT
FIGNORE FUNCNAME FUNCNEST GLOBIGNORE GROUPS HISTCMD HISTCONTROL HISTFILE HISTFILESIZE HISTIGNORE HISTSIZE HISTTIMEFORMAT HOME HOSTFILE HOSTNAME
HOSTTYPE IFS IGNOREEOF INPUTRC INSIDE_EMACS LANG LC_ALL LC_COLLATE LC_CTYPE LC_MESSAGES LC_NUMERIC LC_TIME LINENO LINES MACHTYPE MAILCHECK
MAIL MAILPATH MAPFILE OLDPWD OPTARG OPTERR OPTIND OSTYPE PATH PIPESTATUS POSIXLY_CORRECT PPID PROMPT_COMMAND PROMPT_DIRTRIM PS0 PS1 PS2 PS3 PS4
PWD RANDOM READLINE_ARGUMENT READLINE_LINE READLINE_MARK READLINE_POINT REPLY SECONDS SHELL SHELLOPTS SHLVL SRANDOM TIMEFORMAT TMOUT TMPDIR UID _`)

// scriptNames are the obligations on the names which the units of E2 have met.
func scriptNames(names, slicePrefixes map[string]bool, c *codes) []*oblig {
	ob := func(n string) *oblig { return &oblig{Name: "names." + n, Status: "discharged"} }
	distinct, reserved, shell, parts := ob("distinct"), ob("reserved"), ob("shell"), ob("parts")
	scratch := ob("scratch")
	all := []*oblig{distinct, reserved, shell, parts, scratch}
	weak := func(o *oblig, f string, a ...any) {
		o.Status, o.Detail = "undecided", o.Detail+fmt.Sprintf(f, a...)+"\n"
	}
	if c == nil || !c.ok {
		for _, o := range all {
			o.Count++
			weak(o, "the translation of identifiers is not known")
		}
		return all
	}
	slices := sorted(slicePrefixes)
	user, other := map[string][]string{}, map[string][]string{}
	for _, n := range sorted(names) {
		f := strings.SplitN(n, " ", 2)
		role, p := f[0], f[1]
		if strings.Contains(p, "\x00") {
			weak(parts, "the name %s is not known", p)
			continue
		}
		if strings.Contains(p, "@") {
			user[role] = append(user[role], p)
		} else {
			other[role] = append(other[role], p)
		}
	}
	if len(user["var"]) == 0 || len(user["func"]) == 0 || len(other["var"]) == 0 || len(other["func"]) == 0 {
		weak(reserved, "there are no names: %v", sorted(names))
	}
	for _, role := range []string{"var", "func"} {
		as := []*nfa{}
		for i, p := range user[role] {
			parts.Count++
			if !unambiguous(p) {
				weak(parts, "%s %s: another identifier or number may give the same name", role, p)
			}
			as = append(as, automaton(p, c, slices))
			for j := 0; j < i; j++ {
				distinct.Count++
				if w, ok := common(as[i], as[j]); ok {
					weak(distinct, "%s and %s have the common name %s", p, user[role][j], w)
				}
			}
		}
		for i, p := range user[role] {
			for _, q := range other[role] {
				reserved.Count++
				if w, ok := common(as[i], automaton(q, c, slices)); ok {
					weak(reserved, "%s and the converter's %s have the common name %s", p, q, w)
				}
			}
			for _, q := range shellNames {
				shell.Count++
				if w, ok := common(as[i], automaton(q, c, nil)); ok {
					weak(shell, "%s: the shell uses the name %s", p, w)
				}
			}
		}
	}
	// The temporary variables, the registers and those of the routines.
	for i, p := range other["var"] {
		if !strings.Contains(p, "#") {
			continue
		}
		for j, q := range other["var"] {
			if j == i || j < i && strings.Contains(q, "#") || q == "$" {
				continue
			}
			scratch.Count++
			if w, ok := common(automaton(p, c, slices), automaton(q, c, slices)); ok {
				weak(scratch, "%s and %s have the common name %s", p, q, w)
			}
		}
	}
	return all
}
