package main

// The structure of Batch scripts (C16) and their names (C10): the units of E2 with the Batch converter. There is no
// semantics of cmd.exe here: parentheses, labels, jumps, helper routines and words are what is verified.

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// batchUnits are the same nodes as those of E2.
func batchUnits() []*unitDef {
	r, rest := []*unitDef{}, []*unitDef{}
	for _, d := range unitList {
		e := *d
		e.name, e.batch = "batch/"+d.name, true
		if strings.HasPrefix(d.name, "If/2") || strings.HasPrefix(d.name, "Switch") {
			r = append(r, &e) // These take long.
		} else {
			rest = append(rest, &e)
		}
	}
	r = append(r, rest...)
	r = append(r, &unitDef{name: "batch/ProgramEnd", kind: "top", batch: true, run: func(u *unitRun) {
		u.begin()
		u.mark("FINISH")
		u.allFlags = true
		u.batchText()
	}})
	return r
}

func (u *unitRun) convPkg() string {
	if u.unit.batch {
		return "converters/batch"
	}
	return "converters/bash"
}

// batchName is NAME of !NAME!.
func (u *unitRun) batchName(text *Term) *Term {
	p := pieces(text)
	if n := len(p); n >= 2 && p[0].isConst() && p[n-1].isConst() && strings.HasPrefix(p[0].s, "!") && strings.HasSuffix(p[n-1].s, "!") {
		q := append([]*Term{}, p...)
		q[0], q[n-1] = u.x.tt.Str(p[0].s[1:]), u.x.tt.Str(strings.TrimSuffix(p[n-1].s, "!"))
		return u.x.tt.Cat(q...)
	}
	unsup("evaluation of a variable is %s", text)
	return nil
}

type batchLine struct {
	s     []sym
	label *Term
	own   bool
}

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (u *unitRun) symTerm(ss []sym) *Term {
	ts := []*Term{}
	b := ""
	for _, s := range ss {
		if s.t == nil {
			b += string([]byte{s.b})
			continue
		}
		ts = append(ts, u.x.tt.Str(b), s.t)
		b = ""
	}
	return u.x.tt.Cat(append(ts, u.x.tt.Str(b))...)
}

// batchOpen records what the unit has opened around its node.
func (u *unitRun) batchOpen(m string) {
	switch m {
	case "ForStart":
		u.convCall("ForCondition", u.x.tt.Str("1"))
		u.batchEnds = append(u.batchEnds, "ForEnd")
	case "IfStart":
		u.batchEnds = append(u.batchEnds, "IfEnd")
	case "SwitchStart":
		u.batchEnds = append(u.batchEnds, "SwitchEnd")
	case "FuncStart":
		u.batchEnds = append(u.batchEnds, "FuncEnd")
	}
}

// batchBuffer: the code of the functions, and (outside of functions) the function which it is of.
func (u *unitRun) batchBuffer(t types.Type) bool {
	if !u.unit.batch {
		return false
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isTextBuffer(s.Elem())
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0 && u.unit.kind == "top"
}

// batchText verifies the structure of the script: complete, but for the children.
func (u *unitRun) batchText() {
	x := u.x
	for i := len(u.batchEnds) - 1; i >= 0; i-- {
		u.convCall(u.batchEnds[i])
	}
	if !u.noEnd {
		u.convCall("ProgramEnd")
	}
	r, ok := u.convCall("Dump").(TupleV)
	if !ok {
		unsup("Dump")
	}
	lines := []*batchLine{{}}
	for _, s := range symsOf(x.term(r[0]), false) {
		l := lines[len(lines)-1]
		if s.t == nil && s.b == '\n' {
			if n := len(l.s); n > 0 && l.s[n-1].t == nil && l.s[n-1].b == '\r' {
				l.s = l.s[:n-1]
			} else {
				x.undecided("lines", "a line feed without a carriage return: "+symText(l.s))
			}
			lines = append(lines, &batchLine{})
			continue
		}
		l.s = append(l.s, s)
	}
	x.good("lines")
	markOf := func(l *batchLine) string {
		t := ""
		for _, s := range l.s {
			if s.t == nil {
				t += string([]byte{s.b})
			}
		}
		if i := strings.Index(t, markByte); i >= 0 {
			t = t[i+len(markByte):]
			if j := strings.Index(t, markByte); j >= 0 {
				return t[:j]
			}
		}
		return ""
	}
	// Which lines are those of the node?
	started, in := false, false
	for _, l := range lines {
		switch markOf(l) {
		case "START":
			started = true
		case "BEGIN":
			in = true
		case "FINISH":
			in = false
		}
		l.own = in || !started && !u.inFunc && u.unit.kind == "top"
	}
	type jump struct {
		call, own bool
		to        *Term
		text, ctl string
	}
	jumps := []jump{}
	labels := map[*Term]int{}
	routines := map[string]bool{}
	depth, lowest := 0, 0
	quotes := true
	ctl := ""
	for k := 0; k < len(lines); k++ {
		l := lines[k]
		txt := symText(l.s)
		if m := markOf(l); m != "" {
			if strings.HasPrefix(m, "CTL ") {
				ctl = m[strings.LastIndexByte(m, ' ')+1:]
			} else {
				ctl = ""
			}
			continue
		}
		if strings.HasPrefix(txt, "::") {
			u.batchWords(l.s, true)
			continue
		}
		if strings.HasPrefix(txt, ":") {
			l.label = u.symTerm(l.s[1:])
			labels[l.label]++
			if l.label.isConst() {
				if n := strings.TrimPrefix(l.label.s, "_eo_"); n != l.label.s {
					routines[n] = true
				}
			}
			u.batchWords(l.s, true)
			u.named("func", l.label)
			continue
		}
		u.batchWords(l.s, false)
		q := false
		bare := []sym{}
		for i := 0; i < len(l.s); i++ {
			s := l.s[i]
			switch {
			case s.t != nil:
			case s.b == '"':
				q = !q
				s = sym{b: '_'}
			case q:
				s = sym{b: '_'}
			case s.b == '^':
				i++
			case s.b == '(':
				depth++
			case s.b == ')':
				if depth--; depth < lowest {
					lowest = depth
				}
			}
			bare = append(bare, s)
		}
		quotes = quotes && !q
		if strings.HasSuffix(txt, "^") && k+1 < len(lines) && len(lines[k+1].s) == 0 {
			k++ // the line feed variable
		}
		low := strings.ToLower(symText(bare))
		if !strings.Contains(low, "goto") && !strings.Contains(low, "call") {
			continue
		}
		at := func(i int, w string) bool {
			for j := 0; j < len(w); j++ {
				if i+j >= len(bare) || bare[i+j].t != nil || bare[i+j].b|32 != w[j] && bare[i+j].b != w[j] {
					return false
				}
			}
			return i == 0 || bare[i-1].t == nil && !isWordByte(bare[i-1].b) && bare[i-1].b != ':'
		}
		for i := range bare {
			call := at(i, "call :")
			if !call && !at(i, "goto ") {
				continue
			}
			j := i + 5
			if j < len(bare) && bare[j].t == nil && bare[j].b == ':' {
				j++
			}
			e := j
			for e < len(bare) && (bare[e].t != nil || isWordByte(bare[e].b)) {
				e++
			}
			to := u.symTerm(bare[j:e])
			jumps = append(jumps, jump{call, l.own, to, txt, ctl})
			u.named("func", to)
		}
	}
	check := func(name string, ok bool, f string, a ...any) {
		x.good(name)
		if !ok {
			x.undecided(name, fmt.Sprintf(f, a...))
		}
	}
	all := []string{}
	for _, l := range lines {
		all = append(all, symText(l.s))
	}
	check("parentheses", depth == 0 && lowest == 0, "parentheses: %d are open, minimum %d\n%s", depth, lowest, strings.Join(all, "\n"))
	check("quotes", quotes, "a quote is open at the end of a line")
	for l, n := range labels {
		check("labels", n == 1, "label %s is defined %d times", l, n)
	}
	called := map[string]bool{}
	for _, j := range jumps {
		if j.call && j.to.isConst() {
			called[j.to.s] = true
		}
		if j.call && !j.to.isConst() && labels[j.to] == 0 && strings.HasSuffix(namePattern(j.to), "@") {
			continue // a function of the program: C07, the pattern is compared with those of the definitions
		}
		check("jumps", labels[j.to] == 1, "label %s of %q is defined %d times", j.to, j.text, labels[j.to])
		if j.call || !j.own || u.unit.kind == "top" {
			continue
		}
		at, last, before, after := 0, 0, 0, 0
		for k, l := range lines {
			if l.own && l.label == j.to {
				at = k
			}
			if l.own && markOf(l) == "" {
				last, after = k, 0
			}
			if l.label != nil && last == 0 {
				before = k
			}
			if l.label != nil && after == 0 {
				after = k
			}
		}
		// Jumps of the node stay inside; those of a statement inside leave it or continue the loop.
		kind := strings.Split(strings.TrimPrefix(u.unit.name, "batch/"), "/")[0]
		where := fmt.Sprintf("%q %s goes to the line %d (the last one is %d)", j.text, j.ctl, at, last)
		switch {
		case kind == "Break":
			check("inside", lines[after].label == j.to && after > last, "%s, not out of the innermost construct", where)
		case kind == "Continue":
			check("inside", lines[before].label == j.to, "%s, not to the innermost loop", where)
		case kind == "Return" || kind == "Panic":
			check("inside", at == 0, "%s", where)
		case j.ctl == "" || kind == "For" && j.ctl == "continue":
			check("inside", at > 0, "%s", where)
		case (kind == "For" || kind == "Switch") && j.ctl == "break":
			check("inside", at > 0 && at == last, "%s", where)
		default:
			check("inside", at == 0, "%s", where)
		}
	}
	// The routines, exactly if they are used (those which others request are not part of the script here).
	for n := range called {
		check("helpers", routines[n], "routine %s is missing", n)
	}
	if u.allFlags {
		on := []string{}
		for _, k := range sortedKeys(u.flagVars) {
			if x.valid(u.flagVars[k]) {
				on = append(on, k)
			}
		}
		u.out.families["routines "+strings.Join(on, ",")] = strings.Join(sorted(routines), ",")
	} else if u.unit.kind != "top" {
		for n := range routines {
			check("helpers", called[n], "routine %s is not used", n)
		}
	}
	// The numbers of the labels are the node's own.
	exit := u.snapshot()
	num := map[string]map[*Term]bool{}
	for _, l := range lines {
		if l.label == nil || l.label.isConst() || !l.own {
			continue
		}
		pat := namePattern(l.label)
		if strings.Contains(pat, "@") && !strings.Contains(pat, "#") {
			continue // named after a function: unique by C07
		}
		var n *Term
		for _, p := range pieces(l.label) {
			if p.op == "itoa" && n == nil {
				n = p.args[0]
			} else if !p.isConst() {
				n = nil
				break
			}
		}
		if n == nil || strings.Count(pat, "#") != 1 {
			x.undecided("fresh", "label "+l.label.String())
			continue
		}
		field := u.out.families["label "+pat]
		for _, k := range sortedKeys(exit) {
			if v := u.entry[k]; field == "" && v != nil && v != exit[k] && x.valid(x.tt.And(x.tt.Le(v, n), x.tt.Lt(n, exit[k]))) {
				field = k
			}
		}
		if field == "" {
			x.undecided("fresh", "no counter for the label "+l.label.String())
			continue
		}
		u.out.families["label "+pat] = field
		cs := []*Term{x.tt.Le(u.entry[field], n), x.tt.Lt(n, exit[field])}
		for _, f := range u.frags {
			if a, b := f.entry[field], f.exit[field]; a != nil && b != nil && a != b {
				cs = append(cs, x.tt.Or(x.tt.Lt(n, a), x.tt.Le(b, n)))
			}
		}
		if num[pat] == nil {
			num[pat] = map[*Term]bool{}
		}
		for m := range num[pat] {
			cs = append(cs, x.tt.Not(x.tt.Eq(m, n)))
		}
		ok := x.valid(x.tt.And(cs...))
		num[pat][n] = true
		check("fresh", ok, "label %s: its number is not reserved by %s", l.label, field)
	}
	for _, t := range u.batchResults {
		u.batchWords(symsOf(t, false), false)
	}
}

// batchWords records the words of a line: identifiers of the program occur as (parts of) whole words only.
func (u *unitRun) batchWords(s []sym, label bool) {
	x := u.x
	for i := 0; i < len(s); {
		word := func(c sym) bool { return c.t != nil || isWordByte(c.b) }
		if !word(s[i]) {
			i++
			continue
		}
		j := i
		for j < len(s) && word(s[j]) {
			j++
		}
		w := u.symTerm(s[i:j])
		i = j
		p := namePattern(w)
		if !strings.Contains(p, "\x00") {
			x.good("words")
			if !label {
				u.named("var", w)
			}
			continue
		}
		// Operands are texts of their own, which must not touch an identifier.
		if strings.Contains(p, "@") {
			x.undecided("words", "the identifier in "+w.String()+" is no whole word")
		}
	}
}

// batchNames: no user's name is a name of the converter, regardless of letter case.
func batchNames(names map[string]bool, c *codes) []*oblig {
	ob := func(n string) *oblig { return &oblig{Name: "batch/names." + n, Status: "discharged"} }
	distinct, reserved, parts := ob("distinct"), ob("reserved"), ob("parts")
	all := []*oblig{distinct, reserved, parts}
	weak := func(o *oblig, f string, a ...any) {
		o.Status, o.Detail = "undecided", o.Detail+fmt.Sprintf(f, a...)+"\n"
	}
	if c == nil || !c.ok {
		for _, o := range all {
			o.Count++
			weak(o, "the translation of identifiers is not known")
		}
		return all
	}
	fold := &codes{code: map[byte]string{}, ok: true}
	for k, v := range c.code {
		fold.code[k] = strings.ToLower(v)
	}
	user, other := map[string][]string{}, map[string][]string{}
	for _, n := range sorted(names) {
		f := strings.SplitN(n, " ", 2)
		p := strings.ToLower(f[1])
		if strings.Contains(p, "\x00") {
			weak(parts, "the name %s is not known", p)
		} else if strings.Contains(p, "@") {
			user[f[0]] = append(user[f[0]], p)
		} else {
			other[f[0]] = append(other[f[0]], p)
		}
	}
	other["var"] = append(other["var"], strings.Fields("path pathext comspec temp tmp cd date time random errorlevel cmdcmdline cmdextversion userprofile username prompt os windir systemroot")...)
	other["func"] = append(other["func"], "eof")
	if len(user["var"]) == 0 || len(user["func"]) == 0 {
		weak(reserved, "there are no names")
	}
	for _, role := range []string{"var", "func"} {
		as := []*nfa{}
		for i, p := range user[role] {
			parts.Count++
			if !unambiguous(p) {
				weak(parts, "%s %s: another identifier or number may give the same name", role, p)
			}
			as = append(as, automaton(p, fold, nil))
			for j := 0; j < i; j++ {
				distinct.Count++
				if w, ok := common(as[i], as[j]); ok {
					weak(distinct, "%s and %s have the common name %s", p, user[role][j], w)
				}
			}
			for _, q := range other[role] {
				reserved.Count++
				if w, ok := common(as[i], automaton(q, fold, nil)); ok {
					weak(reserved, "%s and the converter's %s have the common name %s", p, q, w)
				}
			}
		}
	}
	return all
}

var batchAssumptions = []string{
	"Batch: the statements of a block, the operands and the parts of a node are texts of their own, with balanced parentheses and quotes, whose jumps are inside; for each kind of node that is what is verified",
	"Batch: parentheses in the values of literals do not count, as the values are assigned in quotes or escaped: bounded",
	"Batch: cmd.exe compares names only for equality, regardless of letter case; there is no semantics of cmd.exe",
}

// What C10 needs of the structure.
var batchWordObs = map[string]bool{"words": true, "coverage": true, "lines": true, "labels": true, "fresh": true, "counters": true}

// batch verifies the Batch converter.
func (r *runner) batch() []*unitResult {
	units := batchUnits()
	h := newHoudini()
	if r.only != "" || !h.read(batchHint) {
		h = newHoudini()
	}
	for round := 0; round < 6; round++ {
		r.batchRes = r.e2round(units, h, func(d *unitDef) bool { return true })
		n := newHoudini()
		for _, x := range r.batchRes {
			n.merge(x.out)
		}
		if n.key() == h.key() {
			break
		}
		h = n
	}
	if r.hint != "" {
		os.WriteFile(r.hint, []byte(h.key()+"\n"), 0644)
	}
	return r.batchRes
}

// batchGlobal compares the units.
func (r *runner) batchGlobal() []*oblig {
	names := map[string]bool{}
	fam := map[string]string{}
	helpers := &oblig{Name: "batch/helpers.union", Status: "discharged"}
	numb := &oblig{Name: "batch/labels.numbering", Status: "discharged", Count: 1}
	for _, x := range r.batchRes {
		for n := range x.out.names {
			names[n] = true
		}
		for _, f := range sortedKeys(x.out.families) {
			c := x.out.families[f]
			if on, ok := strings.CutPrefix(f, "routines "); ok {
				// Each request adds its own routines.
				want := map[string]bool{}
				for _, k := range strings.Split(on, ",") {
					for _, n := range strings.Split(x.out.families["routines "+k], ",") {
						want[n] = true
					}
				}
				helpers.Count++
				delete(want, "")
				if w := strings.Join(sorted(want), ","); w != c {
					helpers.Status, helpers.Detail = "undecided", helpers.Detail+fmt.Sprintf("requests %s: the routines are %s, not %s\n", on, c, w)
				}
			}
			if !strings.HasPrefix(f, "label ") {
				continue
			}
			if fam[f] != "" && fam[f] != c {
				numb.Status, numb.Detail = "undecided", numb.Detail+f+" is numbered by "+fam[f]+" and "+c+"\n"
			}
			fam[f] = c
		}
	}
	if helpers.Count == 0 {
		helpers.Status, helpers.Detail = "undecided", "the end of the script is not known"
	}
	if codesOf[r.pg] == nil {
		r.e3(func(d *pDef) bool { return d.fn == "toTargetName" })
	}
	return append([]*oblig{numb, helpers}, batchNames(names, codesOf[r.pg])...)
}
