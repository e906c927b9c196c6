package main

// Contracts of Transpile and of the functions which make converters: each transpilation starts
// from the same state.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	pUnits = append(pUnits,
		&pDef{fn: "Transpile", pkg: "transpiler", props: "C14 C13", raw: rawTranspile},
		&pDef{fn: "New", pkg: "converters/bash", props: "C14", raw: rawNewConverter},
		&pDef{fn: "New", pkg: "converters/batch", props: "C14", raw: rawNewConverter},
	)
}

// alike tells whether two values are the same constants in objects of their own; ok is false if it isn't known.
func (u *pUnit) alike(a, b Val) (same, ok bool) {
	x := u.x
	all := func(as, bs []Val) (bool, bool) {
		if len(as) != len(bs) {
			return false, true
		}
		for i := range as {
			if s, ok := u.alike(as[i], bs[i]); !s || !ok {
				return s, ok
			}
		}
		return true, true
	}
	switch a := a.(type) {
	case *Term:
		c, ok := b.(*Term)
		if !ok || !a.isConst() || !c.isConst() {
			return false, false
		}
		return a == c, true
	case *StructV:
		c, ok := b.(*StructV)
		if !ok {
			return false, false
		}
		return all(a.f, c.f)
	case *ArrV:
		c, ok := b.(*ArrV)
		if !ok {
			return false, false
		}
		return all(a.e, c.e)
	case *SliceV:
		c, ok := b.(*SliceV)
		if !ok {
			return false, false
		}
		if a.cap > 0 && a.arr == c.arr {
			return false, true
		}
		if a.len != c.len {
			return false, true
		}
		if a.len == 0 {
			return true, true
		}
		return all(x.elems(a), x.elems(c))
	case MapV:
		return u.alike(&a, b)
	case *MapV:
		c, ok := b.(*MapV)
		if !ok || a.m == nil || c.m == nil {
			return false, false
		}
		if a.m.sym != "" || c.m.sym != "" {
			return false, false
		}
		if a.m == c.m && !a.m.isNil {
			return false, true
		}
		if len(a.m.ents) != len(c.m.ents) {
			return false, true
		}
		for i, e := range a.m.ents {
			f := c.m.ents[i]
			if e.dead != f.dead {
				return false, false
			}
			if s, ok := all([]Val{e.k, e.v}, []Val{f.k, f.v}); !s || !ok {
				return s, ok
			}
		}
		return true, true
	case *PtrV:
		c, ok := b.(*PtrV)
		if !ok {
			return false, false
		}
		if a.obj == nil || c.obj == nil {
			return a.obj == c.obj, true
		}
		if a.obj == c.obj {
			return false, true
		}
		return u.alike(x.load(a), x.load(c))
	case *IfaceV:
		c, ok := b.(*IfaceV)
		if !ok {
			return false, false
		}
		if a.t == nil || c.t == nil {
			return a.t == nil && c.t == nil, true
		}
		if !types.Identical(a.t, c.t) {
			return false, true
		}
		return u.alike(a.v, c.v)
	case *FuncV:
		c, ok := b.(*FuncV)
		return ok && a.isNil && c.isNil, ok && a.isNil && c.isNil
	}
	return false, false
}

// rawNewConverter: two converters are alike and share nothing.
func rawNewConverter(u *pUnit) {
	x := u.x
	x.safety = true
	for _, k := range []string{"lexer", "parser", "transpiler", u.d.pkg} {
		if p := x.p.pg.pkgs[k]; p != nil {
			x.initPkg(p)
		}
	}
	u.fn = x.p.pg.fn(u.d.pkg, "New")
	if u.fn == nil || len(u.fn.Params) > 0 {
		unsup("function New")
	}
	u.top = true
	a := x.call(u.fn, nil, nil)
	b := x.call(u.fn, nil, nil)
	x.safety = false
	same, ok := u.alike(a, b)
	if !ok {
		unsup("the state of a new converter is not known: %s", describe(a))
	}
	u.known("fresh", same, "the states of two new converters differ or are shared: %s, %s", describe(a), describe(b))
}

// rawTranspile: the result is that of a fresh parser, of the node functions on a state which is
// independent of earlier transpilations, and of the given converter.
func rawTranspile(u *pUnit) {
	x := u.x
	pg := x.p.pg
	for _, k := range []string{"lexer", "parser", "transpiler"} {
		if p := pg.pkgs[k]; p != nil {
			x.initPkg(p)
		}
	}
	tn := pg.fn("transpiler", "New")
	if tn == nil || len(tn.Params) > 0 {
		unsup("function New")
	}
	tt := tn.Signature.Results().At(0).Type()
	u.fn = pg.method(tt, "Transpile")
	pt := pg.typ("parser", "Parser")
	if u.fn == nil || pt == nil || len(u.fn.Params) != 3 {
		unsup("function Transpile")
	}
	parse, eval := pg.method(pt, "Parse"), pg.method(tt, "evaluate")
	pnew := pg.fn("parser", "New")
	if parse == nil || eval == nil || pnew == nil {
		unsup("Parse, evaluate or New")
	}
	u.top = true
	x.safety = true
	fresh := x.call(tn, nil, nil)
	freshP := x.call(pnew, nil, nil)
	var self Val
	st, ok := tt.Underlying().(*types.Struct)
	if !ok {
		unsup("type of the transpiler")
	}
	v := x.zero(tt).(*StructV)
	for i := 0; i < st.NumFields(); i++ {
		v.f[i] = x.freshVal(st.Field(i).Type(), "t."+st.Field(i).Name())
	}
	obj := x.newObj(v, "transpiler")
	self = &PtrV{obj: obj}
	if _, isPtr := u.fn.Params[0].Type().Underlying().(*types.Pointer); !isPtr {
		self = v
	}
	path := x.tt.Var("path", SStr)
	conv := x.freshIface(u.fn.Params[2].Type(), "converter")
	parsed, evaluated, dumped := 0, 0, 0
	var prog Val
	var text *Term
	x.hooks[parse.String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		parsed++
		u.known("path", u.same(args[1], path), "parses %s", describe(args[1]))
		p, ok := args[0].(*PtrV)
		if !ok || p.obj == nil {
			unsup("parser")
		}
		if same, ok := u.alike(x.load(p), freshP); !same || !ok {
			unsup("the parser is not a new one")
		}
		if x.choose(2) == 1 {
			return TupleV{x.zero(fn.Signature.Results().At(0).Type()), u.errOf("Parse")}, true
		}
		prog = x.freshVal(fn.Signature.Results().At(0).Type(), "program")
		return TupleV{prog, &IfaceV{}}, true
	}
	x.hooks[eval.String()] = func(x *X, fn *ssa.Function, args []Val) (Val, bool) {
		evaluated++
		i, ok := args[1].(*IfaceV)
		u.known("program", prog != nil && ok && (ident(i.v, prog) || u.same(i.v, prog)), "evaluates %s", describe(args[1]))
		var s *StructV
		if p, ok := args[0].(*PtrV); ok && p.obj != nil {
			s, _ = x.load(p).(*StructV)
		} else {
			s, _ = args[0].(*StructV)
		}
		if s == nil {
			unsup("transpiler")
		}
		used := false
		for i := range s.f {
			if ident(s.f[i], conv) {
				used = true
				continue
			}
			if same, ok := u.alike(s.f[i], fresh.(*StructV).f[i]); !same || !ok {
				unsup("field %s of the transpiler is not that of a new one: %s", st.Field(i).Name(), describe(s.f[i]))
			}
		}
		u.known("converter", used, "another converter is used")
		if x.choose(2) == 1 {
			return u.errOf("evaluate"), true
		}
		return &IfaceV{}, true
	}
	x.symCall = func(x *X, v *SymIface, m *types.Func, args []Val) (Val, bool) {
		if v != conv {
			return nil, false
		}
		if m.Name() != "Dump" {
			unsup("call of %s", m.Name())
		}
		dumped++
		u.known("program", evaluated == 1, "the code is collected before the program is evaluated")
		if x.choose(2) == 1 {
			return TupleV{x.tt.Str(""), u.errOf("Dump")}, true
		}
		text = x.tt.Var("script", SStr)
		return TupleV{text, &IfaceV{}}, true
	}
	r, ok := x.call(u.fn, []Val{self, path, conv}, nil).(TupleV)
	x.safety = false
	if !ok || len(r) != 2 {
		unsup("results of Transpile")
	}
	u.known("program", parsed == 1 && evaluated < 2 && dumped < 2, "parsed %d times, evaluated %d times, collected %d times", parsed, evaluated, dumped)
	if !x.isNilIface(r[1]) {
		u.errMust(r[1])
	}
	if t := x.term(r[0]); text != nil || !t.isConst() {
		walk(t, map[int]bool{}, func(t *Term) {
			u.known("result", t.op != "var" || t == text, "the result depends on %s", t)
		})
	}
	u.x.good("result")
}

// known: nothing is known about what is different.
func (u *pUnit) known(name string, ok bool, f string, a ...any) {
	u.x.good(name)
	if !ok {
		unsup(f, a...)
	}
}
