package main

// Reference interpreter: the Go meaning of a program, with eagerly evaluated conditions and operands
// (README, Caveats).

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

type Val struct {
	T  Ty
	I  int64
	B  bool
	S  string
	Sl *[]Val
}

func (v Val) str() string {
	switch v.T {
	case TInt:
		return strconv.FormatInt(v.I, 10)
	case TBool:
		if v.B {
			return "1"
		}
		return "0"
	}
	return v.S
}

func zero(t Ty) Val {
	if t.slice() {
		return Val{T: t, Sl: &[]Val{}}
	}
	return Val{T: t}
}

type discard struct{ why string } // the program leaves the specified behaviour
type exitT struct{ code int }

type ctl int

const (
	cNone ctl = iota
	cBreak
	cCont
	cRet
)

type interp struct {
	out    strings.Builder
	env    []map[*Var]*Val // [0]: globals, top: current frame
	ret    []Val
	steps  int
	max    int
	files  map[string]string
	input  []string
	calls  map[string]int
	noOvfl bool
	app    func(in *interp, calls []AppC, args [][]string) (string, int)
}

func (in *interp) slot(v *Var) *Val {
	m := in.env[len(in.env)-1]
	if v.Global {
		m = in.env[0]
	}
	p := m[v]
	if p == nil {
		panic(discard{"undefined " + v.Name})
	}
	return p
}

func (in *interp) define(v *Var, x Val) {
	m := in.env[len(in.env)-1]
	if v.Global {
		m = in.env[0]
	}
	m[v] = &x
}

func (in *interp) tick() {
	in.steps++
	if in.steps > in.max {
		panic(discard{"steps"})
	}
}

func arith(op string, a, b int64) int64 {
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		if b == 0 {
			panic(discard{"div"})
		}
		if a == math.MinInt64 && b == -1 {
			return a
		}
		return a / b
	case "%":
		if b == 0 {
			panic(discard{"mod"})
		}
		if a == math.MinInt64 && b == -1 {
			return 0
		}
		return a % b
	}
	panic(op)
}

func cmpVals(op string, l, r Val) bool {
	c := 0
	switch l.T {
	case TInt:
		if l.I < r.I {
			c = -1
		} else if l.I > r.I {
			c = 1
		}
	case TStr:
		c = strings.Compare(l.S, r.S)
	case TBool:
		if l.B != r.B {
			c = 1
		}
	}
	switch op {
	case "==":
		return c == 0
	case "!=":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	}
	panic(op)
}

func (in *interp) evals(es []Expr) []Val {
	r := []Val{}
	for _, e := range es {
		if c, ok := e.(ECall); ok && len(es) == 1 {
			return in.call(c)
		}
		if a, ok := e.(EApp); ok {
			out, code := in.runApp(a)
			return []Val{{T: TStr, S: out}, {T: TStr}, {T: TInt, I: int64(code)}}
		}
		r = append(r, in.eval(e))
	}
	return r
}

func (in *interp) runApp(a EApp) (string, int) {
	args := [][]string{}
	for _, c := range a.Calls {
		as := []string{}
		for _, e := range c.Args {
			as = append(as, in.eval(e).str())
		}
		args = append(args, as)
	}
	if in.app == nil {
		panic(discard{"app"})
	}
	return in.app(in, a.Calls, args)
}

func (in *interp) call(c ECall) []Val {
	args := []Val{}
	if len(c.Args) == 1 {
		args = in.evals(c.Args)
	} else {
		for _, a := range c.Args {
			args = append(args, in.eval(a))
		}
	}
	if in.calls != nil {
		in.calls[c.F.Name]++
	}
	in.tick()
	frame := map[*Var]*Val{}
	for i, p := range c.F.Params {
		v := args[i]
		frame[p] = &v
	}
	in.env = append(in.env, frame)
	in.ret = nil
	in.block(c.F.Body)
	in.env = in.env[:len(in.env)-1]
	r := in.ret
	in.ret = nil
	if len(r) != len(c.F.Rets) {
		panic(discard{"missing return"})
	}
	return r
}

func (in *interp) eval(e Expr) Val {
	in.tick()
	switch x := e.(type) {
	case EInt:
		return Val{T: TInt, I: x.V}
	case EBool:
		return Val{T: TBool, B: x.V}
	case EStr:
		return Val{T: TStr, S: x.V}
	case ENil:
		return Val{T: TStr}
	case EVar:
		return *in.slot(x.V)
	case EBin:
		l, r := in.eval(x.L), in.eval(x.R)
		if l.T == TStr {
			if len(l.S)+len(r.S) > 4000 {
				panic(discard{"long"})
			}
			return Val{T: TStr, S: l.S + r.S}
		}
		return Val{T: TInt, I: arith(x.Op, l.I, r.I)}
	case ECmp:
		l, r := in.eval(x.L), in.eval(x.R)
		return Val{T: TBool, B: cmpVals(x.Op, l, r)}
	case ELog:
		l, r := in.eval(x.L), in.eval(x.R)
		if x.Op == "&&" {
			return Val{T: TBool, B: l.B && r.B}
		}
		return Val{T: TBool, B: l.B || r.B}
	case ENot:
		return Val{T: TBool, B: !in.eval(x.X).B}
	case EGroup:
		return in.eval(x.X)
	case ECall:
		return in.call(x)[0]
	case EIndex:
		v := *in.slot(x.V)
		i := in.eval(x.I).I
		if v.T.slice() {
			if i < 0 || i >= int64(len(*v.Sl)) {
				panic(discard{"index"})
			}
			return (*v.Sl)[i]
		}
		if i < 0 || i >= int64(len(v.S)) {
			panic(discard{"index"})
		}
		return Val{T: TStr, S: v.S[i : i+1]}
	case ESub:
		v := *in.slot(x.V)
		a, b := int64(0), int64(len(v.S))
		if x.A != nil {
			a = in.eval(x.A).I
		}
		if x.B != nil {
			b = in.eval(x.B).I
		}
		if a < 0 || b < a || b > int64(len(v.S)) {
			panic(discard{"range"})
		}
		return Val{T: TStr, S: v.S[a:b]}
	case ELen:
		v := in.eval(x.X)
		if v.T.slice() {
			return Val{T: TInt, I: int64(len(*v.Sl))}
		}
		return Val{T: TInt, I: int64(len(v.S))}
	case EItoa:
		return Val{T: TStr, S: strconv.FormatInt(in.eval(x.X).I, 10)}
	case ESlice:
		s := []Val{}
		for _, y := range x.Vs {
			s = append(s, in.eval(y))
		}
		return Val{T: x.T, Sl: &s}
	case ECopy:
		src := in.eval(x.Src)
		dst := in.slot(x.Dst).Sl
		n := len(*src.Sl)
		for i := 0; i < n; i++ {
			if i < len(*dst) {
				(*dst)[i] = (*src.Sl)[i]
			} else {
				*dst = append(*dst, (*src.Sl)[i])
			}
		}
		return Val{T: TInt, I: int64(n)}
	case ERead:
		p := in.eval(x.P).S
		c, ok := in.files[p]
		if !ok {
			panic(discard{"no file"})
		}
		return Val{T: TStr, S: strings.TrimSuffix(c, "\n")}
	case EExists:
		_, ok := in.files[in.eval(x.P).S]
		return Val{T: TBool, B: ok}
	case EInput:
		if x.P != nil {
			in.eval(x.P)
		}
		if len(in.input) == 0 {
			panic(discard{"input"})
		}
		s := in.input[0]
		in.input = in.input[1:]
		return Val{T: TStr, S: s}
	}
	panic(fmt.Sprintf("eval %T", e))
}

func (in *interp) block(b []Stmt) ctl {
	for _, s := range b {
		if c := in.stmt(s); c != cNone {
			return c
		}
	}
	return cNone
}

func (in *interp) stmt(st Stmt) ctl {
	in.tick()
	switch x := st.(type) {
	case SDef:
		vals := []Val{}
		if len(x.Es) == 0 {
			for _, v := range x.Vs {
				vals = append(vals, zero(v.T))
			}
		} else {
			vals = in.evals(x.Es)
		}
		for i, v := range x.Vs {
			if x.Old != nil && x.Old[i] {
				*in.slot(v) = vals[i]
			} else {
				in.define(v, vals[i])
			}
		}
	case SAssign:
		vals := in.evals(x.Es)
		for i, v := range x.Vs {
			*in.slot(v) = vals[i]
		}
	case SCompound:
		v := *in.slot(x.V)
		r := in.eval(x.E)
		if v.T == TStr {
			v.S += r.S
			if len(v.S) > 4000 {
				panic(discard{"long"})
			}
		} else {
			v.I = arith(x.Op, v.I, r.I)
		}
		*in.slot(x.V) = v
	case SInc:
		if x.Dec {
			in.slot(x.V).I--
		} else {
			in.slot(x.V).I++
		}
	case SIdx:
		i := in.eval(x.I).I
		v := in.eval(x.E)
		s := in.slot(x.V)
		if i < 0 || i > 200 {
			panic(discard{"index"})
		}
		for int64(len(*s.Sl)) <= i {
			*s.Sl = append(*s.Sl, zero(s.T.elem()))
		}
		(*s.Sl)[i] = v
	case SIf:
		cs := []bool{}
		for _, c := range x.Cs {
			cs = append(cs, in.eval(c).B)
		}
		for i, c := range cs {
			if c {
				return in.block(x.Bs[i])
			}
		}
		if x.HasE {
			return in.block(x.Else)
		}
	case SSwitch:
		cs := []bool{}
		var tag Val
		if x.Tag != nil {
			tag = in.eval(x.Tag)
		} else {
			tag = Val{T: TBool, B: true}
		}
		for _, c := range x.Cs {
			cs = append(cs, cmpVals("==", tag, in.eval(c)))
		}
		r := cNone
		hit := false
		for i, c := range cs {
			if c {
				r = in.block(x.Bs[i])
				hit = true
				break
			}
		}
		if !hit && x.HasD {
			r = in.block(x.Def)
		}
		if r == cBreak {
			return cNone
		}
		return r
	case SFor:
		if x.Init != nil {
			in.stmt(x.Init)
		}
		for first := true; ; first = false {
			in.tick()
			if !first && x.Post != nil {
				in.stmt(x.Post)
			}
			if x.Cond != nil && !in.eval(x.Cond).B {
				break
			}
			c := in.block(x.Body)
			if c == cBreak {
				break
			}
			if c == cRet {
				return c
			}
		}
	case SRange:
		v := in.eval(x.X)
		n := len(v.S)
		if v.T.slice() {
			n = len(*v.Sl)
		}
		for i := 0; i < n; i++ {
			in.tick()
			in.define(x.I, Val{T: TInt, I: int64(i)})
			if x.V != nil {
				if v.T.slice() {
					in.define(x.V, (*v.Sl)[i])
				} else {
					in.define(x.V, Val{T: TStr, S: v.S[i : i+1]})
				}
			}
			c := in.block(x.Body)
			if c == cBreak {
				break
			}
			if c == cRet {
				return c
			}
		}
	case SBreak:
		return cBreak
	case SCont:
		return cCont
	case SRet:
		in.ret = in.evals(x.Es)
		return cRet
	case SPrint:
		ss := []string{}
		for _, v := range in.evals(x.Es) {
			ss = append(ss, v.str())
		}
		in.out.WriteString(strings.Join(ss, " ") + "\n")
	case SPanic:
		in.out.WriteString("panic: " + in.eval(x.E).S + "\n")
		panic(exitT{1})
	case SExpr:
		switch y := x.E.(type) {
		case ECall:
			in.call(y)
		case EApp:
			out, _ := in.runApp(y)
			in.out.WriteString(out)
		default:
			in.eval(x.E)
		}
	case SFunc:
	case SWrite:
		p, d := in.eval(x.P).S, in.eval(x.D).S
		if x.A != nil && in.eval(x.A).B {
			in.files[p] += d + "\n"
		} else {
			in.files[p] = d + "\n"
		}
	default:
		panic(fmt.Sprintf("stmt %T", st))
	}
	return cNone
}

// run returns the output, the exit status and whether the behaviour of the program is specified.
func (in *interp) run(b []Stmt) (out string, code int, why string) {
	in.env = []map[*Var]*Val{{}}
	if in.max == 0 {
		in.max = 3000
	}
	if in.files == nil {
		in.files = map[string]string{}
	}
	defer func() {
		out = in.out.String()
		if r := recover(); r != nil {
			switch x := r.(type) {
			case discard:
				why = x.why
			case exitT:
				code = x.code
			default:
				panic(r)
			}
		}
	}()
	in.block(b)
	return
}
