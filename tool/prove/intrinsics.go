package main

// Trusted contracts of the standard library.

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]func(x *X, fn *ssa.Function, args []Val) Val

// errVal is a non-nil error.
func (x *X) errVal(msg *Term) Val {
	i := x.freshIface(types.Universe.Lookup("error").Type(), "error")
	i.ghost["Error"] = msg
	return i
}

func (x *X) isNilIface(v Val) bool {
	i, ok := v.(*IfaceV)
	return ok && i.t == nil
}

// show is the text of a value printed with a verb.
func (x *X) show(v Val, verb byte) *Term {
	if i, ok := v.(*IfaceV); ok {
		if i.t == nil {
			return x.tt.Str("<nil>")
		}
		v = i.v
		if verb == 's' || verb == 'v' {
			if f := x.p.pg.method(i.t, "String"); f != nil && f.Pkg != nil && x.p.pg.own[f.Pkg] {
				return x.term(x.call(f, []Val{i.v}, nil))
			}
		}
	}
	switch t := v.(type) {
	case *Term:
		switch {
		case t.sort == SStr && (verb == 's' || verb == 'v'):
			return t
		case t.sort == SInt && (verb == 'd' || verb == 'v'):
			return x.tt.Itoa(t)
		case t.sort == SStr && verb == 'q' && t.isConst():
			return x.tt.Str(fmt.Sprintf("%q", t.s))
		}
		return x.tt.UF("show"+string(verb), SStr, t)
	case *SymIface:
		if g, ok := t.ghost["Error"].(*Term); ok {
			return g
		}
	}
	return x.tt.Var(x.name("shown"), SStr)
}

func (x *X) sprintf(format *Term, args []Val) *Term {
	if !format.isConst() {
		return x.tt.Var(x.name("formatted"), SStr)
	}
	out := []*Term{}
	s := format.s
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			out = append(out, x.tt.Str(s[i:j]))
			i = j - 1
			continue
		}
		i++
		if i < len(s) && s[i] == '%' {
			out = append(out, x.tt.Str("%"))
			continue
		}
		if i >= len(s) || k >= len(args) || strings.IndexByte("svdqwtxT", s[i]) < 0 {
			return x.tt.Var(x.name("formatted"), SStr)
		}
		out = append(out, x.show(args[k], s[i]))
		k++
	}
	return x.tt.Cat(out...)
}

func (x *X) listOf(v Val) ([]Val, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	return x.elems(s), true
}

// replacer is what strings.NewReplacer returns.
type replacer struct{ pairs []string }

func init() {
	str := func(x *X, v Val) *Term { return x.term(v) }
	fold := func(f func(a ...string) *Term, ts ...*Term) *Term {
		a := []string{}
		for _, t := range ts {
			if !t.isConst() {
				return nil
			}
			a = append(a, t.s)
		}
		return f(a...)
	}
	_ = fold
	opaqueStr := func(name string) func(x *X, fn *ssa.Function, args []Val) Val {
		return func(x *X, fn *ssa.Function, args []Val) Val {
			ts := []*Term{}
			for _, a := range args {
				if t, ok := a.(*Term); ok {
					ts = append(ts, t)
				} else {
					return x.tt.Var(x.name(name), SStr)
				}
			}
			return x.tt.UF(name, SStr, ts...)
		}
	}
	trim := func(name string, f func(a, b string) string) func(x *X, fn *ssa.Function, args []Val) Val {
		return func(x *X, fn *ssa.Function, args []Val) Val {
			a := str(x, args[0])
			b := x.tt.Str("")
			if len(args) > 1 {
				b = str(x, args[1])
			}
			if a.isConst() && b.isConst() {
				return x.tt.Str(f(a.s, b.s))
			}
			if p := pieces(a); name == "TrimLeft" && b.isConst() && len(p) > 1 && p[0].isConst() {
				// What begins with another letter is not trimmed further.
				if s := f(p[0].s, b.s); s != "" {
					return x.tt.Cat(append([]*Term{x.tt.Str(s)}, p[1:]...)...)
				}
			}
			if len(args) > 1 {
				return x.tt.UF(name, SStr, a, b)
			}
			return x.tt.UF(name, SStr, a)
		}
	}
	pred := func(name string, f func(a, b string) bool) func(x *X, fn *ssa.Function, args []Val) Val {
		return func(x *X, fn *ssa.Function, args []Val) Val {
			a, b := str(x, args[0]), str(x, args[1])
			if a.isConst() && b.isConst() {
				return x.tt.Bool(f(a.s, b.s))
			}
			if b.isConst() {
				p := pieces(a)
				if name == "HasPrefix" && len(p) > 0 && p[0].isConst() {
					if len(p[0].s) >= len(b.s) || !strings.HasPrefix(b.s, p[0].s) {
						return x.tt.Bool(strings.HasPrefix(p[0].s, b.s))
					}
				}
				if name == "HasSuffix" && len(p) > 0 && p[len(p)-1].isConst() {
					l := p[len(p)-1].s
					if len(l) >= len(b.s) || !strings.HasSuffix(b.s, l) {
						return x.tt.Bool(strings.HasSuffix(l, b.s))
					}
				}
			}
			return x.tt.UF(name, SBool, a, b)
		}
	}
	intrinsics = map[string]func(x *X, fn *ssa.Function, args []Val) Val{
		"fmt.Sprintf": func(x *X, fn *ssa.Function, args []Val) Val {
			l, ok := x.listOf(args[1])
			if !ok {
				return x.tt.Var(x.name("formatted"), SStr)
			}
			return x.sprintf(str(x, args[0]), l)
		},
		"fmt.Errorf": func(x *X, fn *ssa.Function, args []Val) Val {
			l, ok := x.listOf(args[1])
			if !ok {
				return x.errVal(x.tt.Var(x.name("formatted"), SStr))
			}
			return x.errVal(x.sprintf(str(x, args[0]), l))
		},
		"errors.New": func(x *X, fn *ssa.Function, args []Val) Val { return x.errVal(str(x, args[0])) },
		"strings.Join": func(x *X, fn *ssa.Function, args []Val) Val {
			l, ok := x.listOf(args[0])
			if !ok {
				return x.tt.Var(x.name("joined"), SStr)
			}
			out := []*Term{}
			for i, e := range l {
				if i > 0 {
					out = append(out, str(x, args[1]))
				}
				out = append(out, x.term(e))
			}
			return x.tt.Cat(out...)
		},
		"strings.Repeat": opaqueStr("Repeat"),
		"strings.ReplaceAll": func(x *X, fn *ssa.Function, args []Val) Val {
			a, b, c := str(x, args[0]), str(x, args[1]), str(x, args[2])
			if a.isConst() && b.isConst() && c.isConst() {
				return x.tt.Str(strings.ReplaceAll(a.s, b.s, c.s))
			}
			return x.tt.UF("ReplaceAll", SStr, a, b, c)
		},
		"strings.NewReplacer": func(x *X, fn *ssa.Function, args []Val) Val {
			l, ok := x.listOf(args[0])
			if !ok {
				return unsup("replacer")
			}
			r := &replacer{}
			for _, e := range l {
				t := x.term(e)
				if !t.isConst() {
					return unsup("replacer")
				}
				r.pairs = append(r.pairs, t.s)
			}
			return &PtrV{obj: &Obj{id: -2, site: "replacer", val: r}}
		},
		"(*strings.Replacer).Replace": func(x *X, fn *ssa.Function, args []Val) Val {
			p := args[0].(*PtrV)
			p.obj.force()
			r, ok := p.obj.val.(*replacer)
			if !ok {
				return unsup("replacer")
			}
			a := str(x, args[1])
			if a.isConst() {
				return x.tt.Str(strings.NewReplacer(r.pairs...).Replace(a.s))
			}
			// The pairs are part of the name of the function.
			return x.tt.UF("replace:"+strings.Join(r.pairs, "\x00"), SStr, a)
		},
		"strings.TrimSpace":  trim("TrimSpace", func(a, b string) string { return strings.TrimSpace(a) }),
		"strings.TrimLeft":   trim("TrimLeft", strings.TrimLeft),
		"strings.TrimRight":  trim("TrimRight", strings.TrimRight),
		"strings.TrimPrefix": trim("TrimPrefix", strings.TrimPrefix),
		"strings.TrimSuffix": trim("TrimSuffix", strings.TrimSuffix),
		"strings.ToLower":    trim("ToLower", func(a, b string) string { return strings.ToLower(a) }),
		"strings.ToUpper":    trim("ToUpper", func(a, b string) string { return strings.ToUpper(a) }),
		"strings.HasPrefix":  pred("HasPrefix", strings.HasPrefix),
		"strings.HasSuffix":  pred("HasSuffix", strings.HasSuffix),
		"strings.Contains":   pred("Contains", strings.Contains),
		"strings.Split": func(x *X, fn *ssa.Function, args []Val) Val {
			q := x.freshSeq(types.Typ[types.String], "split("+describe(args[0])+")")
			if t, ok := args[1].(*Term); ok && t.isConst() && t.s != "" {
				x.assume(x.tt.Le(x.tt.Int(1), q.n))
			}
			return q
		},
		"strconv.Itoa": func(x *X, fn *ssa.Function, args []Val) Val { return x.tt.Itoa(x.term(args[0])) },
		"strconv.Atoi": func(x *X, fn *ssa.Function, args []Val) Val {
			a := x.term(args[0])
			if x.branch(x.tt.UF("isInt64", SBool, a)) {
				return TupleV{x.tt.UF("atoi", SInt, a), &IfaceV{}}
			}
			m := x.tt.Var(x.name("message"), SStr)
			x.assume(x.tt.Le(x.tt.Int(1), x.tt.Len(m)))
			return TupleV{x.tt.Int(0), x.errVal(m)}
		},
		"strconv.ParseBool": func(x *X, fn *ssa.Function, args []Val) Val {
			a := str(x, args[0])
			if x.branch(x.tt.Eq(a, x.tt.Str("true"))) {
				return TupleV{x.tt.tru, &IfaceV{}}
			}
			if x.branch(x.tt.Eq(a, x.tt.Str("false"))) {
				return TupleV{x.tt.fls, &IfaceV{}}
			}
			if x.branch(x.tt.UF("parsesAsBool", SBool, a)) {
				return TupleV{x.tt.UF("parsedBool", SBool, a), &IfaceV{}}
			}
			m := x.tt.Var(x.name("message"), SStr)
			x.assume(x.tt.Le(x.tt.Int(1), x.tt.Len(m)))
			return TupleV{x.tt.fls, x.errVal(m)}
		},
		"maps.DeleteFunc": func(x *X, fn *ssa.Function, args []Val) Val {
			m := args[0].(*MapV).m
			if m.sym == "" {
				return unsup("maps.DeleteFunc")
			}
			v := x.freshVal(m.vt, "any entry")
			m.ops = append(m.ops, mapOp{kind: "filter", v: v, pred: x.term(x.apply(args[1], []Val{x.freshVal(m.kt, "any key"), v}, nil))})
			return TupleV{}
		},
		"unicode.IsUpper": func(x *X, fn *ssa.Function, args []Val) Val {
			if t := x.term(args[0]); t.isConst() {
				return x.tt.Bool(unicode.IsUpper(rune(t.n)))
			}
			return x.tt.UF("IsUpper", SBool, x.term(args[0]))
		},
		"unicode.ToLower": func(x *X, fn *ssa.Function, args []Val) Val {
			if t := x.term(args[0]); t.isConst() {
				return x.tt.Int(int64(unicode.ToLower(rune(t.n))))
			}
			return x.tt.UF("ToLower", SInt, x.term(args[0]))
		},
		"slices.Delete": func(x *X, fn *ssa.Function, args []Val) Val {
			s, ok := args[0].(*SliceV)
			i, j := x.term(args[1]), x.term(args[2])
			if !ok {
				q, ok := args[0].(*SymSeq)
				if !ok {
					return unsup("slices.Delete of %T", args[0])
				}
				x.safe("slices.Delete", x.tt.And(x.tt.Le(x.tt.Int(0), i), x.tt.Le(i, j), x.tt.Le(j, q.n)), nil)
				r := x.freshSeq(q.elem, q.name+"-")
				x.assume(x.tt.Eq(r.n, x.tt.Sub(q.n, x.tt.Sub(j, i))))
				if b, ok := q.ghost["base"].(*SymSeq); ok && x.valid(x.tt.Eq(i, b.n)) && x.valid(x.tt.Eq(j, q.n)) {
					return b
				}
				return r
			}
			x.safe("slices.Delete", x.tt.And(x.tt.Le(x.tt.Int(0), i), x.tt.Le(i, j), x.tt.Le(j, x.tt.Int(int64(s.len)))), nil)
			if !i.isConst() || !j.isConst() {
				return unsup("slices.Delete with symbolic bounds")
			}
			es := x.elems(s)
			return x.mkSlice(append(append([]Val{}, es[:i.n]...), es[j.n:]...), "slices.Delete")
		},
		"slices.DeleteFunc": deleteFunc,
		"slices.Clone": func(x *X, fn *ssa.Function, args []Val) Val {
			if s, ok := args[0].(*SliceV); ok {
				if s.arr == nil {
					return s
				}
				return x.mkSlice(x.elems(s), "slices.Clone")
			}
			return args[0]
		},
		"slices.Contains": func(x *X, fn *ssa.Function, args []Val) Val {
			l, ok := x.listOf(args[0])
			if !ok {
				if q, is := args[0].(*SymSeq); is {
					if e, is := args[1].(*Term); is {
						return x.tt.UF("contains "+q.name, SBool, e)
					}
				}
				return x.tt.Var(x.name("contains"), SBool)
			}
			r := x.tt.fls
			for _, e := range l {
				r = x.tt.Or(r, x.eqVal(e, args[1]))
			}
			return r
		},
		"maps.Clone": func(x *X, fn *ssa.Function, args []Val) Val {
			m := args[0].(*MapV).m
			x.objs++
			c := &MapObj{id: x.objs, kt: m.kt, vt: m.vt, sym: m.sym, isNil: m.isNil}
			for _, e := range m.ents {
				q := *e
				c.ents = append(c.ents, &q)
			}
			c.known = m.known
			x.allMaps = append(x.allMaps, c)
			return &MapV{c}
		},
	}
}
