package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// outFile is what check.py reads.
type outFile struct {
	Obligations []*oblig       `json:"obligations"`
	Functions   []string       `json:"functions"`
	Trusted     []string       `json:"trusted"`
	Assumptions []string       `json:"assumptions"`
	Backends    map[string]int `json:"backends"`
	SolverS     float64        `json:"solver_s"`
	Queries     int            `json:"queries"`
	Paths       int            `json:"paths"`
	Bounded     []string       `json:"bounded"`
	Error       string         `json:"error,omitempty"`
	Reach       map[string]int `json:"reachability"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	_ = flag.String("verif", "/verif", "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("o", "", "")
	only := flag.String("only", "", "")
	limit := flag.Int("limit", 200, "time limit in seconds")
	hint := flag.String("hint", "", "file for the sets which have been found")
	prof := flag.String("prof", "", "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	id := flag.Arg(0)
	if *hint != "" {
		hintData, batchHint = nil, nil
	}
	pg, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := &runner{pg: pg, hint: *hint, tier: *tier, only: *only, verbose: *verbose, deadline: time.Now().Add(time.Duration(*limit) * time.Second)}
	if *tier == "thorough" {
		r.deadline = time.Now().Add(2000 * time.Second)
	}
	o := r.property(id)
	b, _ := json.MarshalIndent(o, "", " ")
	if *out != "" {
		if err := os.WriteFile(*out, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	n := map[string]int{}
	for _, x := range o.Obligations {
		n[x.Status]++
		if *verbose && x.Status != "discharged" {
			d := x.Detail
			if len(d) > 1500 {
				d = d[:1500]
			}
			fmt.Printf("%s %s (%d)\n   %s\n", x.Status, x.Name, x.Count, strings.ReplaceAll(d, "\n", "\n   "))
		}
	}
	fmt.Println(id, n, "paths", o.Paths, "queries", o.Queries, fmt.Sprintf("solver %.1fs", o.SolverS))
}

type runner struct {
	pg       *program
	tier     string
	only     string
	hint     string
	verbose  bool
	deadline time.Time
	batchRes []*unitResult
}

type unitResult struct {
	d   *unitDef
	p   *prover
	out *houdini
}

func (r *runner) e2(want func(d *unitDef) bool) (*houdini, []*unitResult) {
	var res []*unitResult
	// The sets of an earlier run are a guess which is confirmed by a single round.
	if r.only == "" {
		h := newHoudini()
		if h.read(hintData) {
			res = r.e2round(unitList, h, want)
			n := newHoudini()
			for _, x := range res {
				n.merge(x.out)
			}
			if n.key() == h.key() {
				return n, res
			}
		}
	}
	h := newHoudini()
	for round := 0; round < 8; round++ {
		res = r.e2round(unitList, h, want)
		n := newHoudini()
		n.merge(h)
		for _, x := range res {
			n.merge(x.out)
		}
		if n.key() == h.key() {
			n = newHoudini()
			for _, x := range res {
				n.merge(x.out)
			}
			return n, res
		}
		h = n
	}
	return h, res
}

func (r *runner) e2round(list []*unitDef, h *houdini, want func(d *unitDef) bool) []*unitResult {
	res := make([]*unitResult, len(list))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i, d := range list {
		if !want(d) || r.only != "" && !strings.HasPrefix(d.name, r.only) {
			continue
		}
		i, d := i, d
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			res[i] = r.unit(d, h)
		}()
	}
	wg.Wait()
	out := []*unitResult{}
	for _, x := range res {
		if x != nil {
			out = append(out, x)
		}
	}
	return out
}

func (r *runner) unit(d *unitDef, h *houdini) *unitResult {
	prefix := d.name + "."
	t0 := time.Now()
	p := newProver(r.pg, prefix)
	p.bound = d.bound
	p.deadline = r.deadline
	out := newHoudini()
	p.explore(func(x *X) {
		u := newUnitRun(x, h, out, d)
		u.setup()
		d.run(u)
	})
	p.so.stop()
	o := p.ob("coverage")
	o.Count++
	if len(p.unsup) > 0 {
		o.Status = "undecided"
		for _, k := range sortedKeys(p.unsup) {
			o.Detail += fmt.Sprintf("%s (%d paths)\n", k, p.unsup[k])
		}
	}
	if r.verbose {
		fmt.Fprintf(os.Stderr, "%s: %.1fs, %d paths, solver %.1fs\n", d.name, time.Since(t0).Seconds(), p.paths, p.so.spent.Seconds())
	}
	return &unitResult{d, p, out}
}

func (p *prover) ok() bool {
	for _, o := range p.obl {
		if o.Status != "discharged" {
			return false
		}
	}
	return len(p.unsup) == 0
}

func (p *prover) summary() string {
	s := ""
	for _, n := range p.order {
		if o := p.obl[n]; o.Status != "discharged" {
			s += o.Status + " " + n + ": " + strings.SplitN(o.Detail, "\n", 2)[0] + "; "
		}
	}
	for k := range p.unsup {
		s += k + "; "
	}
	return s
}

type pResult struct {
	d *pDef
	p *prover
}

func (d *pDef) name() string {
	n := "parser."
	if d.pkg != "" {
		n = d.pkg + "."
	}
	n += d.fn
	if d.label != "" {
		n += "(" + d.label + ")"
	}
	return n
}

// e3 verifies the functions of the parser and of the lexer.
func (r *runner) e3(want func(d *pDef) bool) []*pResult {
	res := make([]*pResult, len(pUnits))
	missing := missingContracts(r.pg)
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i, d := range pUnits {
		n := d.name()
		if !want(d) || r.only != "" && r.only != n && !(strings.HasSuffix(r.only, ".") && strings.HasPrefix(n, r.only)) {
			continue
		}
		i, d := i, d
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			t0 := time.Now()
			var p *prover
			run := func(cut bool, refuted, mutated map[string]bool) {
				p = newProver(r.pg, n+".")
				p.deadline = r.deadline
				if refuted != nil {
					p.refuted, p.mutated = refuted, mutated
				}
				e := *d
				e.cut = cut
				e.whole = d.raw != nil && refuted != nil
				p.explore(func(x *X) { (&pUnit{x: x, d: &e}).run() })
				p.so.stop()
			}
			why := ""
			if d.cut {
				for round := 0; round < 12; round++ {
					if p == nil {
						run(true, nil, nil)
					} else {
						run(true, p.refuted, p.mutated)
					}
					if p.news == 0 {
						break
					}
				}
				if why = p.cutWhy; p.news > 0 {
					why = "no inductive invariant"
				} else if p.bounds > 0 {
					why = "cut off"
				} else if why == "" && !p.ok() {
					why = "not discharged"
				}
				if why != "" && r.verbose {
					fmt.Fprintf(os.Stderr, "%s: no loop invariant: %s %s\n", n, why, p.summary())
				}
			}
			if !d.cut || why != "" {
				run(false, nil, nil)
			}
			if d.raw != nil && !d.cli && len(p.unsup) > 0 {
				// No invariant: the first repetitions only.
				q := p
				if r.verbose {
					fmt.Fprintf(os.Stderr, "%s: no loop invariant: %v %s\n", n, q.unsup, q.summary())
				}
				run(false, map[string]bool{}, map[string]bool{})
				for k, v := range q.unsup {
					p.unsup[k] = v
				}
			}
			if d.cut {
				o := p.ob("loop-invariant")
				o.Count++
				if why != "" {
					o.Status, o.Detail = "undecided", why
				}
			}
			if p.bounds > 0 {
				p.limits["at most 3 repetitions of a loop"] = true
			}
			if d.bound != "" {
				p.limits[d.bound] = true
			}
			if len(p.limits) > 0 {
				for _, o := range p.obl {
					o.Bound = strings.Join(sorted(p.limits), ", ")
				}
				p.bound = strings.Join(sorted(p.limits), ", ")
			}
			if len(missing) > 0 && d.pkg == "" {
				for _, o := range p.obl {
					if o.Status == "failed" {
						o.Status, o.Detail = "undecided", "known by contract, but not found: "+strings.Join(missing, ", ")+"\n"+o.Detail
					}
				}
			}
			for _, n := range d.need {
				if p.obl[p.prefix+n] == nil {
					p.unsup["no path reaches the obligation "+n]++
				}
			}
			o := p.ob("coverage")
			o.Count++
			if len(p.unsup) > 0 {
				o.Status = "undecided"
				for _, k := range sortedKeys(p.unsup) {
					o.Detail += fmt.Sprintf("%s (%d paths)\n", k, p.unsup[k])
				}
			}
			if r.verbose {
				fmt.Fprintf(os.Stderr, "%s: %.1fs, %d paths, solver %.1fs\n", n, time.Since(t0).Seconds(), p.paths, p.so.spent.Seconds())
			}
			res[i] = &pResult{d, p}
		}()
	}
	wg.Wait()
	out := []*pResult{}
	for _, p := range res {
		if p != nil {
			out = append(out, p)
		}
	}
	return out
}

func (h *houdini) merge(o *houdini) {
	for _, m := range []struct{ a, b map[string]bool }{{h.mutExpr, o.mutExpr}, {h.mutStmt, o.mutStmt}, {h.mutTop, o.mutTop}, {h.flags, o.flags}, {h.allocRegs, o.allocRegs}} {
		for k := range m.b {
			m.a[k] = true
		}
	}
	for k, v := range o.retRegs {
		if h.retRegs[k] == "" {
			h.retRegs[k] = v
		}
	}
	for k, v := range o.families {
		if h.families[k] == "" {
			h.families[k] = v
		}
	}
	for k, v := range o.writtenRegs {
		if h.writtenRegs[k] == nil {
			h.writtenRegs[k] = map[string]bool{}
		}
		for u := range v {
			h.writtenRegs[k][u] = true
		}
	}
}

func (h *houdini) list() []any {
	return []any{&h.mutExpr, &h.mutStmt, &h.mutTop, &h.retRegs}
}

func (h *houdini) key() string {
	b, _ := json.MarshalIndent(h.list(), "", " ")
	return string(b)
}

//go:embed houdini.json
var hintData []byte

//go:embed batch.json
var batchHint []byte

func (h *houdini) read(b []byte) bool {
	var raw []json.RawMessage
	if json.Unmarshal(b, &raw) != nil {
		return false
	}
	l := h.list()
	for i, m := range raw {
		if i >= len(l) || json.Unmarshal(m, l[i]) != nil {
			return false
		}
	}
	return len(raw) == len(l)
}

func (r *runner) property(id string) *outFile {
	o := &outFile{Backends: map[string]int{}, Reach: map[string]int{}, Assumptions: e2Assumptions}
	fns := map[string]bool{}
	tr := map[string]bool{}
	bs := map[string]bool{}
	finish := func() *outFile {
		for _, ob := range o.Obligations {
			if ob.Bound != "" {
				bs[strings.SplitN(strings.TrimPrefix(ob.Name, "parser."), ".", 2)[0]+": "+ob.Bound] = true
			}
		}
		o.Bounded = sorted(bs)
		o.Backends["z3"] = o.Queries
		o.Functions = sorted(fns)
		o.Trusted = sorted(tr)
		return o
	}
	uses := false
	for _, d := range pUnits {
		uses = uses || d.concerns(id, "") || id == "C13"
	}
	if uses {
		o.Assumptions = append(o.Assumptions, e3Assumptions...)
		if id == "C11" || id == "C13" {
			o.Assumptions = append(o.Assumptions, lexAssumptions...)
		}
		for _, e := range r.e3(func(d *pDef) bool { return id == "C13" || d.concerns(id, "") }) {
			for _, n := range e.p.order {
				if e.d.concerns(id, strings.TrimPrefix(n, e.p.prefix)) {
					if ob := e.p.obl[n]; (id == "C12" || id == "C19" || id == "C15" || id == "C10" && e.d.fn != "toTargetName" || id != "C10" && e.d.fn == "toTargetName") && ob.Status == "failed" {
						// Another language, whose layout might still not matter.
						ob.Status = "undecided"
					}
					o.Obligations = append(o.Obligations, e.p.obl[n])
				}
			}
			for f := range e.p.fnUsed {
				fns[f] = true
			}
			for f := range e.p.trusted {
				tr[f] = true
			}
			o.Reach[e.d.name()] = e.p.paths
			o.Paths += e.p.paths
			o.Queries += e.p.so.queries
			o.SolverS += e.p.so.spent.Seconds()
		}
	}
	if id == "C14" {
		f := r.frames()
		fo := f.obligations()
		o.Obligations = append(o.Obligations, fo...)
		o.Backends["frame analysis of go/ssa"] = len(fo)
		for _, fn := range f.order {
			fns[short(fn)] = true
		}
		for t := range f.trusted {
			tr[t] = true
		}
	}
	if id == "C12" {
		f := r.layout()
		fo := f.layoutObligations()
		o.Obligations = append(o.Obligations, fo...)
		o.Backends["frame analysis of go/ssa"] = len(fo)
	}
	if id == "BATCH" {
		r.batchPart(id, o, fns, tr)
		return finish()
	}
	if id == "C15" {
		o.Assumptions = append(o.Assumptions, libAssumptions...)
		for _, p := range r.library() {
			for w := range p.unsup {
				ob := p.ob("coverage")
				ob.Count++
				ob.Status, ob.Detail = "undecided", ob.Detail+w+"\n"
			}
			for _, n := range p.order {
				ob := p.obl[n]
				if ob.Status == "failed" {
					// The invariants and the definitions may not suffice for another way to compute it.
					ob.Status = "undecided"
				}
				o.Obligations = append(o.Obligations, ob)
			}
			for f := range p.fnUsed {
				fns[f] = true
			}
			o.Reach[strings.TrimSuffix(p.prefix, ".")] = p.paths
			o.Paths += p.paths
			o.Queries += p.so.queries
			o.SolverS += p.so.spent.Seconds()
		}
	}
	if id == "E3" || e3Only[id] {
		o.Assumptions = append([]string{}, e3Assumptions...)
		switch id {
		case "C11":
			o.Assumptions = lexAssumptions
		case "C12":
			o.Assumptions = append(o.Assumptions, append(lexAssumptions, frameAssumptions[:2]...)...)
		case "C14":
			o.Assumptions = frameAssumptions
		case "C19":
			o.Assumptions = cliAssumptions
		case "C13", "E3":
			o.Assumptions = append(o.Assumptions, lexAssumptions...)
		}
		return finish()
	}
	h, res := r.e2(func(d *unitDef) bool { return true })
	if r.hint != "" {
		os.WriteFile(r.hint, []byte(h.key()+"\n"), 0644)
	}
	// Registers which number slices are written by slice literals only.
	glob := &oblig{Name: "registers.allocation", Status: "discharged", Count: 1}
	for reg := range h.allocRegs {
		for u := range h.writtenRegs[reg] {
			if !strings.HasPrefix(u, "SliceInstantiation") {
				glob.Status, glob.Detail = "undecided", glob.Detail+reg+" is written by "+u+"\n"
			}
		}
	}
	o.Obligations = append(o.Obligations, glob)
	fam := map[string]string{}
	numb := &oblig{Name: "registers.numbering", Status: "discharged", Count: 1}
	for _, x := range res {
		for f, c := range x.out.families {
			if fam[f] != "" && fam[f] != c {
				numb.Status, numb.Detail = "undecided", numb.Detail+f+" is numbered by "+c+" and "+fam[f]+"\n"
			}
			fam[f] = c
		}
	}
	o.Obligations = append(o.Obligations, numb)
	names, slicePrefixes := map[string]bool{}, map[string]bool{}
	for _, x := range res {
		for n := range x.out.names {
			names[n] = true
		}
		for f := range x.out.families {
			if p := strings.TrimPrefix(f, "slices "); p != f {
				slicePrefixes[p] = true
			}
		}
	}
	if id == "E2" || id != "" && strings.Contains(" "+nameProps+" ", " "+id+" ") {
		if codesOf[r.pg] == nil {
			r.e3(func(d *pDef) bool { return d.fn == "toTargetName" })
		}
		o.Obligations = append(o.Obligations, scriptNames(names, slicePrefixes, codesOf[r.pg])...)
		if r.verbose {
			fmt.Fprintf(os.Stderr, "names: %v slices %v\n", sorted(names), sorted(slicePrefixes))
		}
	}
	for _, x := range res {
		for _, n := range x.p.order {
			ob := x.p.obl[n]
			if r.concerns(id, x.d, strings.TrimPrefix(n, x.p.prefix)) {
				if (id == "C10" || id == "C15") && ob.Status == "failed" {
					// Another meaning, which might not depend on the names.
					ob.Status = "undecided"
				}
				o.Obligations = append(o.Obligations, ob)
			}
		}
		for f := range x.p.fnUsed {
			fns[f] = true
		}
		for f := range x.p.trusted {
			tr[f] = true
		}
		o.Reach[x.d.name] = x.p.paths
		o.Paths += x.p.paths
		o.Queries += x.p.so.queries
		o.SolverS += x.p.so.spent.Seconds()
	}
	if id == "C10" || id == "C16" {
		r.batchPart(id, o, fns, tr)
	}
	return finish()
}

func (r *runner) concerns(id string, d *unitDef, ob string) bool {
	if i := strings.Index(ob, "@"); i >= 0 && strings.HasSuffix(ob, ".init") {
		return false // initialisation of the packages
	}
	if id == "" || id == "E2" || id == "C10" || id == "C15" {
		return true
	}
	switch ob {
	case "quoting", "escape":
		if id == "C08" {
			return true
		}
	case "helper-defined", "shell-parse", "nonempty", "balance":
		if id == "C16" {
			return true
		}
	}
	for _, p := range d.props {
		if p == id {
			return true
		}
	}
	return false
}

func sorted(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// What the obligations about the converter rest on.
var e2Assumptions = []string{
	"the abstract syntax trees are those which the parser builds (well-typed nodes, see C06); nodes are verified one by one, by induction over the tree: a child is known by its contract only",
	"the meaning of the emitted shell text is that of tool/prove/shparse.go and shexec.go (a semantics of the used part of Bash, validated by running Bash on the generated programs, not proved)",
	"machine integers are mathematical integers in the obligations; Go's and Bash's 64-bit wrap-around agree",
	"test's = and != on strings are equality, -lt etc. compare the integers the operands denote",
	"loops of the helper routines terminate (partial correctness)",
	"the language has no recursion (functions are visible after their definition only), so one set of registers per function is enough",
	"the environment predefines no variable with one of the names the converter introduces (_h1, _dvc, ...); the list of the names which mean something to Bash is in names.go",
	"strings are sequences of code points of valid UTF-8",
}

// batchPart adds the obligations of the Batch converter.
func (r *runner) batchPart(id string, o *outFile, fns, tr map[string]bool) {
	o.Assumptions = append(o.Assumptions, batchAssumptions...)
	for _, e := range r.batch() {
		for _, n := range e.p.order {
			ob := e.p.obl[n]
			if ob.Status == "failed" {
				ob.Status = "undecided"
			}
			last := n[strings.LastIndexByte(n, '.')+1:]
			if id == "C10" && !batchWordObs[last] || id == "C16" && last == "words" {
				continue
			}
			o.Obligations = append(o.Obligations, ob)
		}
		for f := range e.p.fnUsed {
			fns[f] = true
		}
		for f := range e.p.trusted {
			tr[f] = true
		}
		o.Reach[e.d.name] = e.p.paths
		o.Paths += e.p.paths
		o.Queries += e.p.so.queries
		o.SolverS += e.p.so.spent.Seconds()
	}
	for _, ob := range r.batchGlobal() {
		if id == "BATCH" || (id == "C10") == strings.HasPrefix(ob.Name, "batch/names.") {
			o.Obligations = append(o.Obligations, ob)
		}
	}
}
