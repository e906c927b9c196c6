package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C09"] = checkC09 }

type module struct {
	path    string
	body    []Stmt
	fns     []*Func
	imports []modImport
	seed    int64
}

type modImport struct {
	alias, path string
	m           *module
}

func public(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

// genModule generates the body of one file. prefix are the statements which are run before.
func genModule(r *rand.Rand, p profile, mod int, imported []*Func, prefix []Stmt, pool []string) (*module, string, int, bool) {
	m := &module{}
	g := &gen{r: r, p: p, mod: mod, pool: pool}
	g.fns = append(g.fns, imported...)
	out, code := "", 0
	o, c, why := (&interp{max: 20000}).run(prefix)
	if why != "" {
		return nil, "", 0, false
	}
	out, code = o, c
	add := func(s []Stmt) bool {
		o, c, why := (&interp{max: 20000}).run(append(append(append([]Stmt{}, prefix...), m.body...), s...))
		if why != "" || len(o) > 20000 || c != 0 {
			return false
		}
		m.body = append(m.body, s...)
		out, code = o, c
		return true
	}
	for tries := 0; len(m.body) < p.stmts && tries < 4*p.stmts; tries++ {
		nv, nf := len(g.vis), len(g.fns)
		var s []Stmt
		if g.pct(p.funcs) {
			s = []Stmt{g.function()}
		} else {
			s = g.stmt(true)
		}
		if !add(s) {
			g.vis, g.fns = g.vis[:nv], g.fns[:nf]
		}
	}
	add(g.dump())
	for _, f := range g.fns {
		if f.Mod == mod {
			m.fns = append(m.fns, f)
		}
	}
	return m, out, code, true
}

func (m *module) text() string {
	b := strings.Builder{}
	if len(m.imports) > 0 {
		b.WriteString("import (\n")
		for _, i := range m.imports {
			fmt.Fprintf(&b, "\t%s %q\n", i.alias, i.path)
			for _, f := range i.m.fns {
				f.Alias = i.alias
			}
		}
		b.WriteString(")\n\n")
	}
	b.WriteString(source(m.body))
	for _, i := range m.imports {
		for _, f := range i.m.fns {
			f.Alias = ""
		}
	}
	return b.String()
}

var modNames = []string{"A", "B", "F", "Get", "f", "get", "x", "y", "a", "b", "n", "Value", "value", "s", "t", "Do", "i", "j", "k", "c"}

func relPath(from, to string, r *rand.Rand) string {
	fd, p := "", to
	if i := strings.LastIndex(from, "/"); i >= 0 {
		fd = from[:i]
	}
	switch {
	case fd == "":
	case strings.HasPrefix(to, fd+"/"):
		p = to[len(fd)+1:]
	default:
		p = strings.Repeat("../", strings.Count(fd, "/")+1) + to
	}
	switch r.Intn(6) {
	case 0:
		if p[0] != '.' {
			p = "./" + p
		}
	case 1:
		p = "./sub/../" + p
		if fd != "" {
			p = "../" + strings.Repeat("../", strings.Count(fd, "/")) + "sub/../" + to
		}
	}
	return p
}

func checkC09(h *harness) {
	paths := []string{"main.tsh", "m1.tsh", "sub/m2.tsh", "sub/m3.tsh", "other dir/m4.tsh", "m5"}
	profiles := []profile{
		{types: []Ty{TInt, TStr}, funcs: 40, calls: 45, stmts: 6, depth: 2, compounds: true, trace: true},
		{types: scalar, funcs: 40, calls: 40, multi: true, stmts: 7, depth: 2, compounds: true, loops: true, switches: true},
		{types: []Ty{TInt, TStr, TSStr, TSInt}, slices: true, funcs: 40, calls: 40, stmts: 7, depth: 2, loops: true},
		{types: []Ty{TInt}, funcs: 70, calls: 60, stmts: 9, depth: 2, trace: true},
	}
	h.each(runs(h, 4500), func(l *lane, r *rand.Rand, i int) {
		p := profiles[i%len(profiles)]
		n := 2 + r.Intn(4)
		mods := make([]*module, n)
		prefix := []Stmt{}
		out, code := "", 0
		// Files are executed in the order in which they are reached first; generate the imports first.
		imp := make([][]int, n)
		for a := 0; a < n; a++ {
			for b := a + 1; b < n; b++ {
				if r.Intn(100) < 60 {
					imp[a] = append(imp[a], b)
				}
			}
			r.Shuffle(len(imp[a]), func(x, y int) { imp[a][x], imp[a][y] = imp[a][y], imp[a][x] })
		}
		if len(imp[0]) == 0 {
			imp[0] = []int{1}
		}
		twin := -1 // a file with the same content as another one
		ok := true
		var visit func(a int)
		visit = func(a int) {
			if mods[a] != nil || !ok {
				return
			}
			for _, b := range imp[a] {
				visit(b)
			}
			if !ok {
				return
			}
			fns := []*Func{}
			ims := []modImport{}
			for _, b := range imp[a] {
				for k := 0; k < 1+b2i(r.Intn(6) == 0); k++ {
					ims = append(ims, modImport{fmt.Sprintf("%s%d", []string{"q", "mod", "X"}[r.Intn(3)], len(ims)), relPath(paths[a], paths[b], r), mods[b]})
				}
				for _, f := range mods[b].fns {
					if public(f.Name) {
						fns = append(fns, f)
					}
				}
			}
			seed := r.Int63()
			if len(imp[a]) == 0 && twin >= 0 && r.Intn(2) == 0 {
				seed = mods[twin].seed
			}
			m, o, c, good := genModule(rand.New(rand.NewSource(seed)), p, a, fns, prefix, modNames)
			if !good {
				ok = false
				return
			}
			m.seed = seed
			if len(imp[a]) == 0 {
				twin = a
			}
			m.path, m.imports = paths[a], ims
			mods[a] = m
			prefix = append(prefix, m.body...)
			out, code = o, c
		}
		visit(0)
		if !ok {
			h.count("C09 discarded", 1)
			return
		}
		files := map[string]string{"sub/x": ""}
		show := ""
		for _, m := range mods {
			if m != nil {
				files[m.path] = m.text()
				show += "--- " + m.path + "\n" + files[m.path] + "\n"
			}
		}
		script, err := l.trFiles(files, "main.tsh", "bash")
		if err != "" {
			h.fail("a valid multi-file program is not accepted", "files", show, "observed", err)
			return
		}
		got := l.sh(script, "", nil, nil)
		if got.Out != out || got.Err != "" || got.Code != code {
			h.fail("a multi-file program behaves differently from the composition of its files", "files", show, "expected", fmt.Sprintf("exit status %d\nstdout: %q", code, out), "observed", got.String(), "script", script)
			return
		}
		h.count("C09 programs", 1)
		h.count("C09 files", len(files)-1)
		// Names which must not be reachable.
		im := mods[0].imports[r.Intn(len(mods[0].imports))]
		bad := ""
		for _, f := range im.m.fns {
			if !public(f.Name) {
				a := []string{}
				for _, v := range f.Params {
					a = append(a, map[Ty]string{TInt: "1", TBool: "true", TStr: `""`, TSInt: "[]int{}", TSStr: "[]string{}", TSBool: "[]bool{}"}[v.T])
				}
				bad = im.alias + "." + f.Name + "(" + strings.Join(a, ", ") + ")"
			}
		}
		if bad == "" || r.Intn(3) == 0 {
			bad = im.alias + ".Nowhere()"
		}
		files["main.tsh"] += bad + "\n"
		if s, err := l.trFiles(files, "main.tsh", "bash"); !strings.HasPrefix(err, "ERROR ") || s != "" {
			h.fail("a private or undefined name of another file is accepted: "+bad, "files", show, "observed", err)
			return
		}
		h.count("C09 rejected programs", 1)
	})
}
