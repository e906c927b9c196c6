package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

func init() { checks["C16"] = checkC16 }

// bashSyntax runs the syntax check of the shell.
func bashSyntax(l *lane, script string) string {
	f := filepath.Join(l.dir, "n.sh")
	os.WriteFile(f, []byte(script), 0644)
	out, err := exec.Command("/bin/bash", "-n", f).CombinedOutput()
	if err != nil || len(out) > 0 {
		return fmt.Sprintf("bash -n: %v %s", err, out)
	}
	return ""
}

var bashFn = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_]*)\(\) *\{$`)
var bashWord = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

// bashCalls finds the functions which are defined but not called or called but not defined. A call is a command
// word (the start of a line or what follows a list operator) outside of quotes which is shaped like the name of a
// routine of the compiler or of a defined function.
func bashCalls(script string) string {
	type fn struct{ calls map[string]bool }
	defs := map[string]*fn{}
	top := &fn{map[string]bool{}}
	cur := top
	lines := strings.Split(script, "\n")
	quoted := false
	for i, ln := range lines {
		if !quoted {
			if m := bashFn.FindStringSubmatch(ln); m != nil {
				if defs[m[1]] != nil {
					return fmt.Sprintf("line %d: %s is defined twice", i+1, m[1])
				}
				cur = &fn{map[string]bool{}}
				defs[m[1]] = cur
				continue
			}
			if ln == "}" {
				cur = top
				continue
			}
		}
		cmd := true
		for k := 0; k < len(ln); k++ {
			c := ln[k]
			switch {
			case c == '\\':
				k++
				cmd = false
			case c == '"':
				quoted = !quoted
				cmd = false
			case quoted:
			case c == '\'':
				e := strings.IndexByte(ln[k+1:], '\'')
				if e < 0 {
					return fmt.Sprintf("line %d: open single quote", i+1)
				}
				k += e + 1
				cmd = false
			case c == '#' && cmd:
				k = len(ln)
			case c == ' ' || c == '\t':
			case strings.IndexByte(";|&(", c) >= 0:
				cmd = true
			default:
				w := bashWord.FindString(ln[k:])
				if w != "" && strings.HasPrefix(ln[k:], w) {
					e := k + len(w)
					if cmd && (e == len(ln) || strings.IndexByte(" ;)", ln[e]) >= 0) {
						cur.calls[w] = true
					}
					cmd = cmd && (w == "then" || w == "else" || w == "do" || w == "if" || w == "elif" || w == "while")
					k = e - 1
				} else {
					cmd = false
				}
			}
		}
	}
	if quoted {
		return "open double quote"
	}
	builtin := map[string]bool{}
	for _, w := range strings.Fields("if elif else fi then while do done break continue return exit printf local eval read cat true echo case esac for in unset declare test shift set") {
		builtin[w] = true
	}
	seen := map[string]bool{}
	var visit func(f *fn) string
	visit = func(f *fn) string {
		for c := range f.calls {
			d := defs[c]
			if d == nil {
				if !builtin[c] && strings.HasPrefix(c, "_") {
					return "the script calls " + c + " which it doesn't contain"
				}
				continue
			}
			if !seen[c] {
				seen[c] = true
				if e := visit(d); e != "" {
					return e
				}
			}
		}
		return ""
	}
	if e := visit(top); e != "" {
		return e
	}
	for d := range defs {
		if !seen[d] {
			return "the script contains " + d + " but doesn't call it"
		}
	}
	return ""
}

var batJump = regexp.MustCompile(`(?i)(?:^|[\s(&|])(goto|call)\s+(:?)([^\s&|()<>"]+)`)

// batchSyntax parses the structure of a Batch script.
func batchSyntax(script string) string {
	lines := strings.Split(script, "\r\n")
	if strings.Contains(strings.Join(lines, ""), "\n") {
		return "a line feed without a carriage return"
	}
	type label struct {
		name  string
		line  int
		depth int
	}
	type jump struct {
		kind, to string
		line     int
		blk      []int
	}
	labels := map[string]label{}
	order := []label{}
	jumps := []jump{}
	blk := []int{} // line numbers of the open blocks
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		t := strings.TrimLeft(ln, " \t")
		if strings.HasPrefix(t, "::") {
			continue
		}
		if strings.HasPrefix(t, ":") {
			f := strings.FieldsFunc(t[1:], func(c rune) bool { return strings.ContainsRune(" \t:+,;=", c) })
			if len(f) == 0 {
				return fmt.Sprintf("line %d: label without a name", i+1)
			}
			n := strings.ToLower(f[0])
			if o, ok := labels[n]; ok {
				return fmt.Sprintf("line %d: label %s is already defined in line %d", i+1, f[0], o.line+1)
			}
			labels[n] = label{n, i, len(blk)}
			order = append(order, labels[n])
			continue
		}
		// Outside of quotes: blocks, jumps.
		q := false
		bare := []byte(ln)
		for k := 0; k < len(ln); k++ {
			c := ln[k]
			if c == '"' {
				q = !q
				continue
			}
			if q {
				bare[k] = '_'
				continue
			}
			switch c {
			case '^':
				k++
			case '(':
				blk = append(blk, i)
			case ')':
				if len(blk) == 0 {
					return fmt.Sprintf("line %d: closing parenthesis without an opening one: %s", i+1, ln)
				}
				blk = blk[:len(blk)-1]
			}
		}
		if q {
			return fmt.Sprintf("line %d: open quote: %s", i+1, ln)
		}
		if strings.HasSuffix(ln, "^") { // The line feed variable.
			if i+2 >= len(lines) || lines[i+1] != "" {
				return fmt.Sprintf("line %d: incomplete line feed definition", i+1)
			}
			i++
		}
		for _, m := range batJump.FindAllStringSubmatch(string(bare), -1) {
			kind := strings.ToLower(m[1])
			if kind == "call" && m[2] == "" {
				continue // Another program.
			}
			jumps = append(jumps, jump{kind, strings.ToLower(m[3]), i, append([]int{}, blk...)})
		}
	}
	if len(blk) != 0 {
		return fmt.Sprintf("line %d: a block isn't closed: %s", blk[len(blk)-1]+1, lines[blk[len(blk)-1]])
	}
	for _, j := range jumps {
		if j.to == "eof" {
			continue
		}
		if _, ok := labels[j.to]; !ok {
			return fmt.Sprintf("line %d: label %s doesn't exist: %s", j.line+1, j.to, lines[j.line])
		}
	}
	// Routines: goto :_eo_x, :x, ..., exit /B, :_eo_x
	type routine struct{ from, to int }
	rs := map[string]routine{}
	regionOf := make([]string, len(lines))
	for i := range lines {
		n, ok := strings.CutPrefix(lines[i], ":_eo_")
		if !ok {
			continue
		}
		n = strings.ToLower(n)
		s, ok := labels[n]
		if !ok || s.line > i || s.depth != 0 {
			return fmt.Sprintf("line %d: the routine %s has no start", i+1, n)
		}
		if lines[s.line-1] != "goto "+lines[i] {
			return fmt.Sprintf("line %d: the routine %s isn't skipped", s.line+1, n)
		}
		k := i - 1
		if strings.ToLower(lines[k]) != "exit /b" {
			return fmt.Sprintf("line %d: the routine %s doesn't end with exit /B", i+1, n)
		}
		rs[n] = routine{s.line, k}
		for x := s.line; x <= k; x++ {
			if regionOf[x] != "" {
				return fmt.Sprintf("line %d: the routines %s and %s overlap", x+1, n, regionOf[x])
			}
			regionOf[x] = n
		}
	}
	calls := map[string][]string{}
	for _, j := range jumps {
		here := regionOf[j.line]
		if j.kind == "call" {
			if _, ok := rs[j.to]; !ok {
				return fmt.Sprintf("line %d: %s is called but is no routine", j.line+1, j.to)
			}
			calls[here] = append(calls[here], j.to)
			continue
		}
		if j.to == "end" || j.to == "eof" {
			continue
		}
		if regionOf[labels[j.to].line] != here {
			return fmt.Sprintf("line %d: goto leaves the routine %q for %q", j.line+1, here, regionOf[labels[j.to].line])
		}
	}
	seen := map[string]bool{"": true}
	var visit func(n string)
	visit = func(n string) {
		for _, c := range calls[n] {
			if !seen[c] {
				seen[c] = true
				visit(c)
			}
		}
	}
	visit("")
	for n := range rs {
		if !seen[n] {
			return "the script contains the routine " + n + " but doesn't call it"
		}
	}
	// Jumps: A backward jump is the end or a continue of a loop. Its span must not cross the one of another loop,
	// and a forward jump has to end up at the end of a construct it is in, i.e. it must not enter a loop.
	type span struct{ from, to int }
	loops := map[int]*span{}
	for _, j := range jumps {
		if t := labels[j.to]; j.kind == "goto" && t.line < j.line && j.to != "end" {
			if s := loops[t.line]; s == nil {
				loops[t.line] = &span{t.line, j.line}
			} else if s.to < j.line {
				s.to = j.line
			}
		}
	}
	for _, a := range loops {
		for _, b := range loops {
			if a != b && a.from < b.from && b.from < a.to && b.to > a.to {
				return fmt.Sprintf("lines %d-%d and %d-%d: loops overlap", a.from+1, a.to+1, b.from+1, b.to+1)
			}
		}
	}
	for _, j := range jumps {
		t := labels[j.to]
		if j.kind != "goto" || j.to == "end" {
			continue
		}
		for _, a := range loops {
			in := func(x int) bool { return a.from <= x && x <= a.to }
			if in(t.line) && !in(j.line) {
				return fmt.Sprintf("line %d: %s enters the loop of lines %d-%d", j.line+1, strings.TrimSpace(lines[j.line]), a.from+1, a.to+1)
			}
		}
	}
	return ""
}

func checkC16(h *harness) {
	strs := []string{"a", "b c", "", "(", ")", ")) else (", ":x", "goto :end", "x(y)", "//", "f1"}
	h.each(runs(h, 14000), func(l *lane, r *rand.Rand, i int) {
		files, src := corpusWith(r, strs)
		q := &req{Files: map[string]string{"main.tsh": src}, Main: "main.tsh", Targets: []string{"bash", "batch"}}
		for k, v := range files {
			q.Files[k] = v
		}
		o := l.do(q)
		if o.Crash+o.Panic != "" {
			h.fail("transpilation crashes", "program", src, "observed", o.Crash+o.Panic)
			return
		}
		if o.IsErr[0] || o.IsErr[1] {
			h.fail("a valid program is rejected", "program", src, "observed", o.Err[0]+o.Err[1])
			return
		}
		e := bashSyntax(l, o.Out[0])
		if e == "" {
			e = bashCalls(o.Out[0])
		}
		if e != "" {
			h.fail("the Bash script isn't well-formed", "program", src, "observed", e, "script", o.Out[0])
			return
		}
		if e := batchSyntax(o.Out[1]); e != "" {
			h.fail("the Batch script isn't well-formed", "program", src, "observed", e, "script", o.Out[1])
			return
		}
		h.count("C16 programs", 1)
	})
}
