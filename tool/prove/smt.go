package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// solver is an interactive z3 process.
type solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	decl    map[string]bool
	queries int
	spent   time.Duration
	cache   map[string]string
	byName  map[string]int
	log     *strings.Builder
}

func newSolver() *solver {
	s := &solver{decl: map[string]bool{}, cache: map[string]string{}, byName: map[string]int{}}
	s.start()
	return s
}

func (s *solver) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2", "-t:4000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		panic("cannot start z3: " + err.Error())
	}
	s.decl = map[string]bool{}
	s.send("(set-option :print-success false)\n(declare-sort S 0)\n(declare-sort W 0)\n(declare-fun cat (S S) S)\n(declare-fun itoa (Int) S)\n(declare-fun unitoa (S) Int)\n")
}

func (s *solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *solver) send(x string) { io.WriteString(s.in, x) }

// check decides the satisfiability of a conjunction.
func (s *solver) check(tt *termTab, fs []*Term, wantModel bool) (string, string) {
	for _, f := range fs {
		if f == tt.fls {
			return "unsat", ""
		}
	}
	key := ""
	if !wantModel {
		b := strings.Builder{}
		for _, f := range fs {
			fmt.Fprintf(&b, "%d,", f.id)
		}
		key = b.String()
		if r, ok := s.cache[key]; ok {
			return r, ""
		}
	}
	decls := strings.Builder{}
	body := strings.Builder{}
	seen := map[int]bool{}
	strs := []*Term{}
	named := []*Term{}
	var extra []string
	for _, f := range fs {
		walk(f, seen, func(x *Term) {
			d := func(n, txt string) {
				if !s.decl[n] {
					s.decl[n] = true
					decls.WriteString(txt)
				}
			}
			switch {
			case x.op == "var":
				n := fmt.Sprintf("v%d", x.id)
				d(n, fmt.Sprintf("(declare-const %s %s)\n", n, x.sort.smt()))
				named = append(named, x)
			case x.op == "const" && x.sort == SStr:
				n := fmt.Sprintf("s%d", x.id)
				d(n, fmt.Sprintf("(declare-const %s S)\n", n))
				strs = append(strs, x)
			case x.op == "uf":
				n := ufName(x)
				as := []string{}
				for _, a := range x.args {
					as = append(as, a.sort.smt())
				}
				d(n, fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), x.sort.smt()))
				if x.s == "len" {
					b := strings.Builder{}
					x.smt(&b)
					extra = append(extra, fmt.Sprintf("(>= %s 0)", b.String()))
					e := tt.Str("")
					a := strings.Builder{}
					x.args[0].smt(&a)
					d(fmt.Sprintf("s%d", e.id), fmt.Sprintf("(declare-const s%d S)\n", e.id))
					if !seen[e.id] {
						seen[e.id] = true
						strs = append(strs, e)
					}
					extra = append(extra, fmt.Sprintf("(= (= %s 0) (= %s s%d))", b.String(), a.String(), e.id))
				}
			case x.op == "itoa":
				b, a := strings.Builder{}, strings.Builder{}
				x.smt(&b)
				x.args[0].smt(&a)
				extra = append(extra, fmt.Sprintf("(= (unitoa %s) %s)", b.String(), a.String()))
			}
		})
	}
	body.WriteString("(push)\n")
	if len(strs) > 1 {
		body.WriteString("(assert (distinct")
		for _, x := range strs {
			fmt.Fprintf(&body, " s%d", x.id)
		}
		body.WriteString("))\n")
	}
	for _, x := range strs { // len of constants
		if s.decl["f_len_S__Int"] {
			fmt.Fprintf(&body, "(assert (= (f_len_S__Int s%d) %d))\n", x.id, len(x.s))
		}
	}
	for _, e := range extra {
		body.WriteString("(assert " + e + ")\n")
	}
	for _, f := range fs {
		body.WriteString("(assert ")
		f.smt(&body)
		body.WriteString(")\n")
	}
	body.WriteString("(check-sat)\n")
	start := time.Now()
	s.queries++
	s.send(decls.String() + body.String())
	r := s.line()
	model := ""
	if wantModel && r == "sat" {
		n := []string{}
		for _, x := range named {
			if x.sort == SBool || x.sort == SInt {
				n = append(n, fmt.Sprintf("v%d", x.id))
			}
		}
		if len(n) > 0 {
			s.send("(get-value (" + strings.Join(n, " ") + "))\n(echo \"END\")\n")
			txt := ""
			for {
				l := s.line()
				if l == "END" || l == "" {
					break
				}
				txt += l + " "
			}
			for _, x := range named {
				txt = strings.ReplaceAll(txt, fmt.Sprintf("(v%d ", x.id), "("+x.s+" ")
			}
			model = txt
		}
	}
	s.send("(pop)\n")
	s.spent += time.Since(start)
	if r != "sat" && r != "unsat" && r != "unknown" && r != "timeout" {
		panic("z3: " + r + "\n" + decls.String() + body.String())
	}
	if r == "timeout" {
		r = "unknown"
	}
	if key != "" {
		s.cache[key] = r
	}
	return r, model
}

func (s *solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return ""
	}
	return strings.TrimSpace(l)
}
