package main

// Contracts of the functions which import files.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	pUnits = append(pUnits,
		&pDef{fn: "importFile", props: "C09 C13", raw: rawImportFile},
		&pDef{fn: "addPublicVariables", props: "C09", raw: rawPublicVariables},
		&pDef{fn: "evaluateImports", props: "C09 C13", raw: rawImports},
		&pDef{fn: "parse", props: "C09 C13", raw: rawParse},
	)
}

// files are the answers of the file system: the same question has the same answer.
func (u *pUnit) files() {
	x := u.x
	strErr := func(name string) func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		return func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
			ts := []*Term{}
			k := "file " + name
			for _, a := range args {
				ts = append(ts, x.term(a))
				k += fmt.Sprint(" ", x.term(a).id)
			}
			r, ok := x.data[k].(TupleV)
			if !ok {
				if x.choose(2) == 0 {
					r = TupleV{x.tt.UF(name, SStr, ts...), &IfaceV{}}
				} else {
					r = TupleV{x.tt.Str(""), u.errOf(name)}
				}
				x.data[k] = r
			}
			return r, true
		}
	}
	x.hooks["path/filepath.EvalSymlinks"] = strErr("EvalSymlinks")
	x.hooks["path/filepath.Abs"] = strErr("Abs")
	x.hooks["os.Executable"] = strErr("Executable")
	x.hooks["os.Stat"] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		t := x.term(args[0])
		k := fmt.Sprint("file stat ", t.id)
		r, ok := x.data[k].(TupleV)
		if !ok {
			if x.choose(2) == 0 {
				i := x.freshIface(fn.Signature.Results().At(0).Type(), "info")
				i.ghost["path"] = t
				r = TupleV{i, &IfaceV{}}
			} else {
				r = TupleV{&IfaceV{}, u.errOf("Stat")}
			}
			x.data[k] = r
		}
		return r, true
	}
	old := x.symCall
	x.symCall = func(x *X, v *SymIface, m *types.Func, args []Val) (Val, bool) {
		if p, ok := v.ghost["path"].(*Term); ok {
			switch m.Name() {
			case "Mode":
				return x.tt.UF("mode", SInt, p), true
			case "IsDir":
				return x.tt.UF("isDir", SBool, p), true
			}
		}
		if old != nil {
			return old(x, v, m, args)
		}
		return nil, false
	}
	x.hooks["(io/fs.FileMode).IsRegular"] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		return x.tt.UF("isRegular", SBool, x.term(args[0])), true
	}
	str := func(name string, s Sort) func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		return func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
			ts := []*Term{}
			for _, a := range args {
				if l, ok := a.(*SliceV); ok {
					for _, e := range x.elems(l) {
						ts = append(ts, x.term(e))
					}
					continue
				}
				ts = append(ts, x.term(a))
			}
			return x.tt.UF(name, s, ts...), true
		}
	}
	x.hooks["path/filepath.IsAbs"] = str("IsAbs", SBool)
	x.hooks["path/filepath.Join"] = str("Join", SStr)
	x.hooks["path/filepath.Dir"] = str("Dir", SStr)
	x.hooks["path/filepath.Ext"] = str("Ext", SStr)
	x.hooks["path/filepath.Base"] = str("Base", SStr)
}

// ask asks the file system for the specification.
func (u *pUnit) ask(name string, args ...Val) Val {
	r, _ := u.x.hooks[name](u.x, u.statFn(name), args)
	return r
}

func (u *pUnit) statFn(name string) *ssa.Function {
	if name != "os.Stat" {
		return nil
	}
	for _, p := range u.x.p.pg.prog.AllPackages() {
		if p.Pkg.Path() == "os" {
			return p.Func("Stat")
		}
	}
	return nil
}

func (u *pUnit) isReg(p *Term) *Term {
	return u.x.tt.UF("isRegular", SBool, u.x.tt.UF("mode", SInt, p))
}

func (u *pUnit) errMust(e Val) {
	x := u.x
	q, ok := e.(*SymIface)
	if ok {
		m, is := q.ghost["Error"].(*Term)
		ok = is && x.valid(x.tt.Le(x.tt.Int(1), x.tt.Len(m)))
	}
	u.must("error-text", ok, "empty error")
}

// rawImportFile: a file is parsed once, by its own parser, and a file which is being parsed is no legal import.
func rawImportFile(u *pUnit) {
	x := u.x
	u.rawSetup("parser.New")
	u.files()
	path := x.tt.Var("import path", SStr)
	t := u.typ("importedFile")
	m := u.pget("importedFiles").(*MapV).m
	f := func(v Val, n string) Val { return v.(*StructV).f[u.field(v.(*StructV).t, n)] }
	// There are no empty entries.
	real := x.tt.UF("EvalSymlinks", SStr, path)
	var old *Obj
	if x.choose(2) == 0 {
		old = x.newObj(x.freshVal(t, "file"), "imported file")
		m.known = append(m.known, &mapEntry{k: real, v: &PtrV{obj: old}})
	} else {
		m.known = append(m.known, &mapEntry{k: real})
	}
	parsed := 0
	var sub *Obj
	var subRes Val
	u.hook("Parser.parse", func(fn *ssa.Function, a []Val) Val {
		parsed++
		p, ok := a[0].(*PtrV)
		if !ok || len(p.path) > 0 {
			unsup("parser of the import")
		}
		sub = p.obj
		u.must("own-parser", p.obj != u.p, "the file is parsed by the same parser")
		v := p.obj.val
		q, ok := f(v, "importedFiles").(*MapV)
		u.must("own-parser", ok && q.m == m, "the parser does not know the imported files")
		for _, n := range []string{"currFunc", "path", "prefix"} {
			u.must("own-parser", u.same(f(v, n), x.tt.Str("")), "%s of the parser", n)
		}
		w, ok := f(v, "usedFuncs").(*MapV)
		u.must("own-parser", ok && !w.m.isNil && w.m.sym == "" && len(w.m.ents) == 0, "used functions of the parser")
		u.must("call", u.same(a[1], real) && u.same(a[2], x.tt.tru), "parse(%s, %s)", describe(a[1]), describe(a[2]))
		// The file is known as being parsed.
		e, found := x.mapGet(m, real)
		ep, is := e.(*PtrV)
		u.must("cycle", found == x.tt.tru && is && ep.obj != nil, "the file is not registered before it is parsed")
		if is && ep.obj != nil {
			u.must("cycle", u.same(f(x.load(ep), "parsed"), x.tt.fls), "the file is registered as parsed")
		}
		if x.choose(2) == 1 {
			return TupleV{x.zero(u.typ("Program")), u.errOf("parse")}
		}
		s := v.(*StructV)
		nv := &StructV{s.t, append([]Val{}, s.f...)}
		nv.f[u.field(u.pt, "prefix")] = x.tt.Var("prefix of the import", SStr)
		w.m.sym = "functions of the import"
		p.obj.val = nv
		subRes = x.freshVal(u.typ("Program"), "imported program")
		return TupleV{subRes, &IfaceV{}}
	})
	r := u.runRaw(u.self(), path).(TupleV)
	rej := !x.isNilIface(r[2])
	if rej {
		u.errMust(r[2])
	}
	link := u.ask("path/filepath.EvalSymlinks", path).(TupleV)
	if !x.isNilIface(link[1]) {
		u.must("result", rej && parsed == 0, "a missing file is accepted")
		return
	}
	st := u.ask("os.Stat", real).(TupleV)
	if !x.isNilIface(st[1]) || !x.branch(u.isReg(real)) {
		u.must("result", rej && parsed == 0, "something which is no file is accepted")
		return
	}
	if old != nil {
		u.must("once", parsed == 0, "the file is parsed again")
		if x.branch(x.term(f(x.load(&PtrV{obj: old}), "parsed"))) {
			p, ok := r[0].(*PtrV)
			u.must("result", !rej && ok && p.obj == old && u.same(r[1], x.tt.tru), "another file")
		} else {
			u.must("cycle", rej, "an import cycle is accepted")
		}
		return
	}
	u.must("once", parsed == 1, "the file is parsed %d times", parsed)
	if subRes == nil {
		u.must("result", rej, "an illegal file is accepted")
		return
	}
	p, ok := r[0].(*PtrV)
	u.must("result", !rej && ok && p.obj != nil && u.same(r[1], x.tt.fls), "accepted: %v", !rej)
	v := x.load(p)
	e, found := x.mapGet(m, real)
	ep, is := e.(*PtrV)
	u.must("result", found == x.tt.tru && is && ep.obj == p.obj, "the file is not registered")
	u.must("result", u.same(f(v, "parsed"), x.tt.tru), "the file is not marked as parsed")
	u.must("result", u.same(f(v, "program"), subRes) || ident(f(v, "program"), subRes), "another program")
	u.must("result", u.same(f(v, "prefix"), f(sub.val, "prefix")), "another prefix")
	w, ok := f(v, "usedFuncs").(*MapV)
	u.must("result", ok && w.m == f(sub.val, "usedFuncs").(*MapV).m, "other used functions")
	u.framed("importedFiles")
}

// rawPublicVariables: bounded number of variables.
func rawPublicVariables(u *pUnit) {
	x := u.x
	u.rawSetup()
	x.p.limits["at most 3 names at a time"] = true
	c := u.newCtx()
	es := []Val{}
	for i := x.choose(4); i > 0; i-- {
		es = append(es, x.freshVal(u.typ("Variable"), "new"))
	}
	m := u.ctxField(c, "variables").(*MapV).m
	u.runRaw(u.self(), c, x.mkSlice(es, "new"))
	got := append([]*mapEntry{}, m.ents...)
	m.ents = nil
	u.addPublic(m, es)
	u.sameEnts("effect", got, m.ents)
	u.ctxFramed(c, "variables")
	u.framed()
}

func (u *pUnit) addPublic(m *MapObj, es []Val) {
	x := u.x
	for _, e := range es {
		if x.branch(u.method(e.(*StructV), "Public")) {
			x.mapSet(m, u.method(e.(*StructV), "Name"), e)
		}
	}
}

func (u *pUnit) sameEnts(name string, got, want []*mapEntry) {
	u.must(name, len(got) == len(want), "%d entries, expected %d", len(got), len(want))
	for i, e := range want {
		u.must(name, i < len(got) && u.same(got[i].k, e.k) && u.same(got[i].v, e.v) && !got[i].dead, "entry %d", i)
	}
}

// rawImports: bounded number of imports and of their declarations.
func rawImports(u *pUnit) {
	x := u.x
	u.rawSetup("Parser).peek", "Parser).peekAt", "Parser).eat", "Parser).skipNewlines", "parser.addPublicVariables")
	u.files()
	x.p.limits["at most 2 imports with at most 1 declaration each"] = true
	x.loopBound = 6
	c := u.newCtx()
	for _, m := range u.snap(c).maps {
		m.sym = "" // the context of a program is new
	}
	fileT := u.typ("importedFile")
	type imp struct {
		alias, path *Term
		at, idx2    *Term
		ok          bool
	}
	type file struct {
		path    *Term
		ok      bool
		already *Term
		prefix  *Term
		body    []Val
		fn, use *Term
		ctx     int
	}
	imps, files := []*imp{}, []*file{}
	// Either one import of any kind or two imports of existing files.
	max := 1 + x.choose(2)
	u.hook("Parser.evaluateImport", func(fn *ssa.Function, a []Val) Val {
		if len(imps) == max {
			panic(pathEnd{"bound"})
		}
		i := &imp{at: u.index()}
		imps = append(imps, i)
		v := x.zero(u.typ("evaluatedImport")).(*StructV)
		if x.choose(2) == 1 {
			return TupleV{v, u.errOf("import")}
		}
		i.ok = true
		k := len(imps)
		i.alias, i.path = x.tt.Var(fmt.Sprintf("alias%d", k), SStr), x.tt.Var(fmt.Sprintf("path%d", k), SStr)
		v.f[u.field(v.t, "alias")], v.f[u.field(v.t, "path")] = i.alias, i.path
		i.idx2 = x.freshVal(types.Typ[types.Int], "behind the import").(*Term)
		x.assume(x.tt.Lt(i.at, i.idx2))
		u.pset("index", i.idx2)
		if max == 2 {
			x.assume(x.tt.UF("IsAbs", SBool, i.path))
			x.data[fmt.Sprint("file stat ", i.path.id)] = TupleV{x.freshIface(u.statFn("os.Stat").Signature.Results().At(0).Type(), "info"), &IfaceV{}}
			if k > 1 {
				x.assume(x.tt.Lt(x.tt.Int(0), x.tt.Len(i.alias)))
			}
		}
		return TupleV{v, &IfaceV{}}
	})
	mk := func(k int) Val {
		kind := k - 1
		if max == 1 {
			kind = x.choose(4)
		}
		switch kind {
		case 0:
			v := x.freshVal(u.typ("VariableDefinition"), "definition").(*StructV)
			v.f[u.field(v.t, "variables")] = x.mkSlice([]Val{x.freshVal(u.typ("Variable"), "imported variable")}, "variables")
			return &IfaceV{v.t, v}
		case 1:
			v := x.freshVal(u.typ("VariableDefinitionCallAssignment"), "definition").(*StructV)
			v.f[u.field(v.t, "variables")] = x.mkSlice([]Val{x.freshVal(u.typ("Variable"), "imported variable")}, "variables")
			return &IfaceV{v.t, v}
		case 2:
			v := x.freshVal(u.typ("FunctionDefinition"), "function").(*StructV)
			return &IfaceV{v.t, v}
		}
		v := x.freshVal(u.typ("Print"), "statement").(*StructV)
		return &IfaceV{v.t, v}
	}
	u.hook("Parser.importFile", func(fn *ssa.Function, a []Val) Val {
		i := &file{path: x.term(a[1]), ctx: len(u.snap(c).maps["imports"].ents)}
		files = append(files, i)
		if x.choose(2) == 1 {
			return TupleV{&PtrV{}, x.tt.fls, u.errOf("file")}
		}
		i.ok = true
		k := len(files)
		i.already = x.tt.Bool(x.choose(2) == 1)
		i.prefix = x.tt.Var(fmt.Sprintf("prefix%d", k), SStr)
		v := x.zero(fileT).(*StructV)
		p := x.zero(u.typ("Program")).(*StructV)
		i.body = []Val{mk(k)}
		p.f[u.field(p.t, "body")] = x.mkSlice(i.body, "imported statements")
		x.objs++
		m := &MapObj{id: x.objs, kt: types.Typ[types.String], vt: types.NewSlice(types.Typ[types.String])}
		if k == 1 {
			i.fn, i.use = x.tt.Var("using function", SStr), x.tt.Var("used function", SStr)
			m.ents = append(m.ents, &mapEntry{k: i.fn, v: x.mkSlice([]Val{i.use}, "used")})
		}
		for n, w := range map[string]Val{"parsed": x.tt.tru, "prefix": i.prefix, "program": p, "usedFuncs": &MapV{m}} {
			v.f[u.field(fileT, n)] = w
		}
		return TupleV{&PtrV{obj: x.newObj(v, "imported file")}, i.already, &IfaceV{}}
	})
	r := u.runRaw(u.self(), c).(TupleV)
	rej := !x.isNilIface(r[1])
	if rej {
		u.errMust(r[1])
	}
	got := map[string][]*mapEntry{}
	maps := u.snap(c).maps
	for k, m := range maps {
		got[k] = m.ents
		m.ents = nil
	}
	// The specification.
	s := &pspec{u: u, x: x, idx: u.idx0, accept: !rej}
	var stmts, decl []Val
	ni, nf := 0, 0
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(specReject); !is {
					panic(r)
				}
				ok = false
			}
		}()
		s.idx = u.skipNL(s.idx)
		if !s.is("IMPORT") {
			return true
		}
		s.eat()
		multi := s.is("OPENING_ROUND_BRACKET")
		if multi {
			s.eat()
			s.expect("NEWLINE")
			s.idx = u.skipNL(s.idx)
		}
		for {
			if ni >= len(imps) {
				if s.accept {
					u.must("calls", false, "an import is missing")
				}
				panic(pathEnd{"unknown"})
			}
			i := imps[ni]
			ni++
			u.mustT("position", x.tt.Eq(i.at, s.idx), "import at %s, expected %s", i.at, s.idx)
			s.want(i.ok, "an import")
			s.idx = i.idx2
			abs := i.path
			if !x.branch(x.tt.UF("IsAbs", SBool, abs)) {
				abs = x.tt.UF("Join", SStr, x.tt.UF("Dir", SStr, x.term(u.start["path"])), abs)
			}
			alias := i.alias
			empty := x.branch(x.tt.Eq(x.tt.Len(alias), x.tt.Int(0)))
			if !x.isNilIface(u.ask("os.Stat", abs).(TupleV)[1]) {
				ex := u.ask("os.Executable").(TupleV)
				s.want(x.isNilIface(ex[1]), "the path of the program")
				short := x.tt.UF("TrimSuffix", SStr, i.path, x.tt.UF("Ext", SStr, i.path))
				abs = x.tt.UF("Join", SStr, x.tt.UF("Dir", SStr, x.term(ex[0])), x.tt.Str("std"), x.tt.Cat(short, x.tt.Str(".tsh")))
				if empty {
					alias = x.tt.UF("Base", SStr, short)
				}
			} else {
				s.want(!empty, "an alias")
			}
			if nf >= len(files) {
				if s.accept {
					u.must("calls", false, "a file is not imported")
				}
				panic(pathEnd{"unknown"})
			}
			f := files[nf]
			nf++
			u.mustT("file", x.tt.Eq(f.path, abs), "file %s, expected %s", f.path, abs)
			s.want(f.ok, "a legal file")
			_, known := x.mapGet(maps["imports"], alias)
			s.want(!x.branch(x.term(known)), "a new alias")
			x.mapSet(maps["imports"], alias, f.prefix)
			decl = append(decl, f.body...)
			if f.already == x.tt.fls {
				stmts = append(stmts, f.body...)
			}
			if !multi {
				break
			}
			s.idx = u.skipNL(s.idx)
			if s.is("CLOSING_ROUND_BRACKET") {
				s.eat()
				break
			}
			s.want(s.is("IDENTIFIER", "STRING_LITERAL"), "another import")
		}
		for _, d := range decl {
			v := d.(*IfaceV).v.(*StructV)
			switch shortType(v.t) {
			case "VariableDefinition", "VariableDefinitionCallAssignment":
				u.addPublic(maps["variables"], x.elems(v.f[u.field(v.t, "variables")]))
			case "FunctionDefinition":
				if x.branch(u.method(v, "Public")) {
					x.mapSet(maps["functions"], u.method(v, "Name"), v)
				}
			}
		}
		return true
	}()
	u.must("accepts", !rej || !ok, "a legal list of imports is rejected")
	u.must("rejects", rej || ok, "an illegal list of imports is accepted")
	if rej {
		return
	}
	u.must("calls", ni == len(imps) && nf == len(files), "%d imports, %d files", ni, nf)
	u.mustT("consumes", x.tt.Eq(u.index(), s.idx), "position %s, expected %s", u.index(), s.idx)
	l, isL := r[0].(*SliceV)
	u.must("statements", isL && l.len == len(stmts), "%s", describe(r[0]))
	if isL && l.len == len(stmts) {
		for i, e := range x.elems(l) {
			u.must("statements", u.same(e, stmts[i]), "statement %d", i)
		}
	}
	for k, m := range maps {
		u.sameEnts(k, got[k], m.ents)
	}
	for _, f := range files {
		if f.fn != nil {
			v, found := x.mapGet(u.pget("usedFuncs").(*MapV).m, f.fn)
			u.mustT("used", x.term(found), "the calls of the imported functions are lost")
			u.mustT("used", u.mem(v, f.use), "a call of an imported function is lost")
		}
	}
	u.framed("index", "usedFuncs")
}

// rawParse: a file is parsed from its own text, with an own prefix.
func rawParse(u *pUnit) {
	x := u.x
	u.rawSetup()
	u.files()
	path := x.tt.Var("file", SStr)
	imported := x.tt.Bool(x.choose(2) == 1)
	abs := path
	if !x.branch(x.tt.UF("IsAbs", SBool, path)) {
		abs = nil
	}
	if abs == nil {
		if r := u.ask("path/filepath.Abs", path).(TupleV); x.isNilIface(r[1]) {
			abs = x.term(r[0])
		}
	}
	text := x.freshSeq(types.Typ[types.Byte], "content")
	src := x.tt.Var("source", SStr)
	text.ghost["string"] = src
	reads, lexed, evaluated, cleaned := 0, 0, 0, 0
	readable := x.choose(2) == 0
	x.hooks["os.ReadFile"] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		reads++
		u.must("call", abs != nil && u.same(args[0], abs), "reads %s", describe(args[0]))
		if !readable {
			return TupleV{&SliceV{}, u.errOf("ReadFile")}, true
		}
		return TupleV{text, &IfaceV{}}, true
	}
	var toks, prog, clean Val
	x.hooks["github.com/monstermichl/typeshell/lexer.Tokenize"] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		lexed++
		u.must("call", u.same(args[0], src), "tokenizes %s", describe(args[0]))
		if x.choose(2) == 1 {
			return TupleV{&SliceV{}, u.errOf("Tokenize")}, true
		}
		toks = x.freshSeq(x.p.pg.typ("lexer", "Token"), "tokens of the file")
		return TupleV{toks, &IfaceV{}}, true
	}
	hashed := x.tt.Str("")
	x.hooks["crypto/sha256.New"] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		i := x.freshIface(fn.Signature.Results().At(0).Type(), "hash")
		i.ghost["hash"] = i
		return i, true
	}
	old := x.symCall
	x.symCall = func(x *X, v *SymIface, m *types.Func, args []Val) (Val, bool) {
		if v.ghost["hash"] == v {
			switch m.Name() {
			case "Write":
				q, ok := args[0].(*SymSeq)
				if !ok || q.ghost["string"] == nil {
					unsup("text of the hash")
				}
				hashed = x.tt.Cat(hashed, x.term(q.ghost["string"]))
				return TupleV{q.n, &IfaceV{}}, true
			case "Sum":
				t := x.tt.UF("sha256", SStr, hashed)
				x.assume(x.tt.Eq(x.tt.Len(x.tt.UF("showx", SStr, t)), x.tt.Int(64)))
				return t, true
			}
		}
		return old(x, v, m, args)
	}
	exists := func(p *Term) *Term { return x.tt.UF("prefix exists", SBool, p) }
	u.hook("Parser.prefixExists", func(fn *ssa.Function, a []Val) Val { return exists(x.term(a[1])) })
	m := u.pget("importedFiles").(*MapV).m
	var own *Obj
	if imported == x.tt.tru && abs != nil {
		// importFile has registered the file.
		own = x.newObj(x.freshVal(u.typ("importedFile"), "file"), "imported file")
		m.known = append(m.known, &mapEntry{k: abs, v: &PtrV{obj: own}})
	}
	x.p.limits["the first three prefixes at most are in use"] = true
	x.loopBound = 3
	var prefix *Term
	u.hook("Parser.evaluateProgram", func(fn *ssa.Function, a []Val) Val {
		evaluated++
		u.must("start", u.pget("tokens") == toks, "other tokens")
		u.mustT("start", x.tt.Eq(u.index(), x.tt.Int(0)), "position %s", u.index())
		u.must("start", u.same(u.pget("path"), abs), "path %s", describe(u.pget("path")))
		prefix = x.term(u.pget("prefix"))
		files, ok := u.pget("importedFiles").(*MapV)
		if imported == x.tt.tru {
			u.mustT("prefix", x.tt.Not(exists(prefix)), "the prefix %s exists", prefix)
			ps := pieces(prefix)
			digit := len(ps) > 0 && (isDigitLed(ps[0]) || ps[0].isConst() && ps[0].s[0] >= '0' && ps[0].s[0] <= '9')
			u.must("prefix", digit, "the prefix %s might be part of a name", prefix)
			// It depends on the text only (and on the prefixes which exist).
			walk(prefix, map[int]bool{}, func(t *Term) {
				u.must("prefix", t.op != "var" || t == src, "the prefix depends on %s", t)
			})
			u.must("start", ok && files.m == m, "other imported files")
			u.must("start", u.same(own.val.(*StructV).f[u.field(u.typ("importedFile"), "prefix")], prefix), "the prefix of the file is not known")
		} else {
			u.mustT("prefix", x.tt.Eq(prefix, x.tt.Str("")), "prefix %s", prefix)
			real := x.term(u.ask("path/filepath.EvalSymlinks", abs).(TupleV)[0])
			good := ok && files.m != m && len(files.m.ents) == 1 && u.same(files.m.ents[0].k, real) && files.m.sym == ""
			u.must("start", good, "the imported files are not the main file")
			if good {
				p, is := files.m.ents[0].v.(*PtrV)
				u.must("start", is && p.obj != nil && u.same(x.load(p).(*StructV).f[u.field(u.typ("importedFile"), "parsed")], x.tt.fls), "the main file is no pending file")
			}
		}
		if x.choose(2) == 1 {
			return TupleV{x.zero(u.typ("Program")), u.errOf("program")}
		}
		prog = x.freshVal(u.typ("Program"), "program")
		return TupleV{prog, &IfaceV{}}
	})
	u.hook("Parser.cleanProgram", func(fn *ssa.Function, a []Val) Val {
		cleaned++
		u.must("call", prog != nil && (ident(a[1], prog) || u.same(a[1], prog)), "another program is cleaned")
		if x.choose(2) == 1 {
			return TupleV{x.zero(u.typ("Program")), u.errOf("clean")}
		}
		clean = x.freshVal(u.typ("Program"), "cleaned program")
		return TupleV{clean, &IfaceV{}}
	})
	r := u.runRaw(u.self(), path, imported).(TupleV)
	rej := !x.isNilIface(r[1])
	if rej {
		u.errMust(r[1])
	}
	ok := abs != nil && x.isNilIface(u.ask("os.Stat", abs).(TupleV)[1]) && readable
	if ok {
		u.must("call", reads == 1 && lexed == 1, "read %d times, tokenized %d times", reads, lexed)
	}
	ok = ok && toks != nil
	if ok && imported == x.tt.fls {
		ok = x.isNilIface(u.ask("path/filepath.EvalSymlinks", abs).(TupleV)[1])
	}
	if ok {
		u.must("call", evaluated == 1, "evaluated %d times", evaluated)
	}
	ok = ok && prog != nil
	want := prog
	if ok && imported == x.tt.fls {
		u.must("call", cleaned == 1, "cleaned %d times", cleaned)
		ok = clean != nil
		want = clean
	} else {
		u.must("call", cleaned == 0, "an import is cleaned")
	}
	u.must("accepts", !ok || !rej, "a legal file is rejected")
	u.must("rejects", ok || rej, "an illegal file is accepted")
	if !rej && ok {
		u.must("result", ident(r[0], want) || u.same(r[0], want), "another program")
	}
}
