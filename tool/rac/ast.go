package main

// Reference syntax of TypeShell programs: typed trees, a printer which renders them as TypeShell source
// and an interpreter (interp.go) which gives them the meaning the properties prescribe.

import (
	"fmt"
	"strconv"
	"strings"
)

type Ty int

const (
	TInt Ty = iota
	TBool
	TStr
	TSInt
	TSBool
	TSStr
	TVoid
)

func (t Ty) String() string {
	return [...]string{"int", "bool", "string", "[]int", "[]bool", "[]string", "void"}[t]
}
func (t Ty) slice() bool { return t >= TSInt && t <= TSStr }
func (t Ty) elem() Ty    { return t - TSInt }
func (t Ty) sliceOf() Ty { return t + TSInt }

type Var struct {
	Name   string
	T      Ty
	Global bool
	RO     bool // never written by generated statements (loop counters)
	id     int
}

type Func struct {
	Name   string
	Params []*Var
	Rets   []Ty
	Body   []Stmt
	Alias  string // import alias when the function lives in another file
	Mod    int    // file
}

type Expr interface{ ty() Ty }

type (
	EInt  struct{ V int64 }
	EBool struct{ V bool }
	EStr  struct {
		V   string
		Raw bool
	}
	ENil struct{}
	EVar struct{ V *Var }
	EBin struct { // + - * / % on int, + on string
		Op   string
		L, R Expr
	}
	ECmp struct {
		Op   string
		L, R Expr
	}
	ELog struct {
		Op   string
		L, R Expr
	}
	ENot   struct{ X Expr }
	EGroup struct{ X Expr }
	ECall  struct {
		F    *Func
		Args []Expr
	}
	EIndex struct { // slice element or string character
		V *Var
		I Expr
	}
	ESub struct { // string range, nil bounds are missing
		V    *Var
		A, B Expr
	}
	ELen   struct{ X Expr }
	EItoa  struct{ X Expr }
	ESlice struct {
		T  Ty
		Vs []Expr
	}
	ECopy struct {
		Dst *Var
		Src Expr
	}
	ERead   struct{ P Expr }
	EExists struct{ P Expr }
	EInput  struct{ P Expr }
	EApp    struct { // only through multi assignments or statements
		Calls []AppC
	}
)

type AppC struct {
	Name string
	Lit  bool
	Args []Expr
}

func (EInt) ty() Ty     { return TInt }
func (EBool) ty() Ty    { return TBool }
func (EStr) ty() Ty     { return TStr }
func (ENil) ty() Ty     { return TStr }
func (e EVar) ty() Ty   { return e.V.T }
func (e EBin) ty() Ty   { return e.L.ty() }
func (ECmp) ty() Ty     { return TBool }
func (ELog) ty() Ty     { return TBool }
func (ENot) ty() Ty     { return TBool }
func (e EGroup) ty() Ty { return e.X.ty() }
func (e ECall) ty() Ty {
	if len(e.F.Rets) == 0 {
		return TVoid
	}
	return e.F.Rets[0]
}
func (e EIndex) ty() Ty {
	if e.V.T.slice() {
		return e.V.T.elem()
	}
	return TStr
}
func (ESub) ty() Ty     { return TStr }
func (ELen) ty() Ty     { return TInt }
func (EItoa) ty() Ty    { return TStr }
func (e ESlice) ty() Ty { return e.T }
func (ECopy) ty() Ty    { return TInt }
func (ERead) ty() Ty    { return TStr }
func (EExists) ty() Ty  { return TBool }
func (EInput) ty() Ty   { return TStr }
func (EApp) ty() Ty     { return TVoid }

type Stmt interface{}

type (
	SDef struct { // definition of new variables
		Vs   []*Var
		Es   []Expr // empty: default values
		Form int    // 0: :=  1: var x = e  2: var x T = e  3: var x T
		Old  []bool // := with already existing variables
	}
	SAssign struct {
		Vs []*Var
		Es []Expr // one call may provide several values
	}
	SCompound struct {
		V  *Var
		Op string
		E  Expr
	}
	SInc struct {
		V   *Var
		Dec bool
	}
	SIdx struct { // s[i] = e
		V    *Var
		I, E Expr
	}
	SIf struct {
		Cs   []Expr
		Bs   [][]Stmt
		Else []Stmt
		HasE bool
	}
	SSwitch struct {
		Tag   Expr // nil: no tag
		Cs    []Expr
		Bs    [][]Stmt
		Def   []Stmt
		HasD  bool
		Brk   bool
		DefAt int
	}
	SFor struct {
		Init Stmt
		Cond Expr
		Post Stmt
		Body []Stmt
	}
	SRange struct {
		I, V *Var
		X    Expr
		Body []Stmt
	}
	SBreak struct{}
	SCont  struct{}
	SRet   struct{ Es []Expr }
	SPrint struct{ Es []Expr }
	SPanic struct{ E Expr }
	SExpr  struct{ E Expr }
	SFunc  struct{ F *Func }
	SWrite struct{ P, D, A Expr }
)

// ---------------------------------------------------------------- printer

type printer struct {
	b    strings.Builder
	ind  int
	vary func(n int) int // layout choices, nil: canonical
}

func prec(e Expr) int {
	switch x := e.(type) {
	case ELog:
		if x.Op == "||" {
			return 1
		}
		return 2
	case ECmp:
		return 3
	case EBin:
		if x.Op == "+" || x.Op == "-" {
			return 4
		}
		return 5
	case ENot:
		return 6
	}
	return 7
}

func (p *printer) bin(op string, pr int, l, r Expr) string {
	ls, rs := p.expr(l), p.expr(r)
	if prec(l) < pr {
		ls = "(" + ls + ")"
	}
	if prec(r) <= pr {
		rs = "(" + rs + ")"
	}
	return ls + " " + op + " " + rs
}

func quoteStr(s string, raw bool) string {
	if raw && !strings.ContainsAny(s, "`\r") {
		return "`" + s + "`"
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 32 || c == 127:
			fmt.Fprintf(&b, `\x%02x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) args(es []Expr) string {
	s := []string{}
	for _, e := range es {
		s = append(s, p.expr(e))
	}
	return strings.Join(s, ", ")
}

func (p *printer) expr(e Expr) string {
	switch x := e.(type) {
	case EInt:
		return strconv.FormatInt(x.V, 10)
	case EBool:
		return strconv.FormatBool(x.V)
	case EStr:
		return quoteStr(x.V, x.Raw)
	case ENil:
		return "nil"
	case EVar:
		return x.V.Name
	case EBin:
		return p.bin(x.Op, prec(e), x.L, x.R)
	case ECmp:
		return p.bin(x.Op, prec(e), x.L, x.R)
	case ELog:
		return p.bin(x.Op, prec(e), x.L, x.R)
	case ENot:
		s := p.expr(x.X)
		if prec(x.X) < 6 {
			s = "(" + s + ")"
		}
		return "!" + s
	case EGroup:
		return "(" + p.expr(x.X) + ")"
	case ECall:
		n := x.F.Name
		if x.F.Alias != "" {
			n = x.F.Alias + "." + n
		}
		return n + "(" + p.args(x.Args) + ")"
	case EIndex:
		return x.V.Name + "[" + p.expr(x.I) + "]"
	case ESub:
		s := x.V.Name + "["
		if x.A != nil {
			s += p.expr(x.A)
		}
		s += ":"
		if x.B != nil {
			s += p.expr(x.B)
		}
		return s + "]"
	case ELen:
		return "len(" + p.expr(x.X) + ")"
	case EItoa:
		return "itoa(" + p.expr(x.X) + ")"
	case ESlice:
		return x.T.String() + "{" + p.args(x.Vs) + "}"
	case ECopy:
		return "copy(" + x.Dst.Name + ", " + p.expr(x.Src) + ")"
	case ERead:
		return "read(" + p.expr(x.P) + ")"
	case EExists:
		return "exists(" + p.expr(x.P) + ")"
	case EInput:
		if x.P == nil {
			return "input()"
		}
		return "input(" + p.expr(x.P) + ")"
	case EApp:
		cs := []string{}
		for _, c := range x.Calls {
			n := c.Name
			if c.Lit {
				n = quoteStr(n, false)
			}
			cs = append(cs, "@"+n+"("+p.args(c.Args)+")")
		}
		return strings.Join(cs, " | ")
	}
	panic(fmt.Sprintf("expr %T", e))
}

func (p *printer) line(s string) {
	p.b.WriteString(strings.Repeat("\t", p.ind) + s + "\n")
}

func (p *printer) names(vs []*Var) string {
	s := []string{}
	for _, v := range vs {
		s = append(s, v.Name)
	}
	return strings.Join(s, ", ")
}

func (p *printer) simple(st Stmt) string {
	switch x := st.(type) {
	case SDef:
		switch x.Form {
		case 0:
			return p.names(x.Vs) + " := " + p.args(x.Es)
		case 1:
			return "var " + p.names(x.Vs) + " = " + p.args(x.Es)
		case 2:
			return "var " + p.names(x.Vs) + " " + x.Vs[0].T.String() + " = " + p.args(x.Es)
		}
		return "var " + p.names(x.Vs) + " " + x.Vs[0].T.String()
	case SAssign:
		return p.names(x.Vs) + " = " + p.args(x.Es)
	case SCompound:
		return x.V.Name + " " + x.Op + "= " + p.expr(x.E)
	case SInc:
		if x.Dec {
			return x.V.Name + "--"
		}
		return x.V.Name + "++"
	case SIdx:
		return x.V.Name + "[" + p.expr(x.I) + "] = " + p.expr(x.E)
	case SBreak:
		return "break"
	case SCont:
		return "continue"
	case SRet:
		if len(x.Es) == 0 {
			return "return"
		}
		return "return " + p.args(x.Es)
	case SPrint:
		return "print(" + p.args(x.Es) + ")"
	case SPanic:
		return "panic(" + p.expr(x.E) + ")"
	case SExpr:
		return p.expr(x.E)
	case SWrite:
		s := "write(" + p.expr(x.P) + ", " + p.expr(x.D)
		if x.A != nil {
			s += ", " + p.expr(x.A)
		}
		return s + ")"
	}
	panic(fmt.Sprintf("stmt %T", st))
}

func (p *printer) block(b []Stmt) {
	p.ind++
	for _, s := range b {
		p.stmt(s)
	}
	p.ind--
}

func (p *printer) stmt(st Stmt) {
	switch x := st.(type) {
	case SIf:
		for i, c := range x.Cs {
			if i == 0 {
				p.line("if " + p.expr(c) + " {")
			} else {
				p.line("} else if " + p.expr(c) + " {")
			}
			p.block(x.Bs[i])
		}
		if x.HasE {
			p.line("} else {")
			p.block(x.Else)
		}
		p.line("}")
	case SSwitch:
		if x.Tag != nil {
			p.line("switch " + p.expr(x.Tag) + " {")
		} else {
			p.line("switch {")
		}
		for i, c := range x.Cs {
			p.line("case " + p.expr(c) + ":")
			p.block(x.Bs[i])
		}
		if x.HasD {
			p.line("default:")
			p.block(x.Def)
		}
		p.line("}")
	case SFor:
		s := "for "
		if x.Init != nil || x.Post != nil {
			if x.Init != nil {
				s += p.simple(x.Init)
			}
			s += "; "
			if x.Cond != nil {
				s += p.expr(x.Cond)
			}
			s += "; "
			if x.Post != nil {
				s += p.simple(x.Post) + " "
			}
		} else if x.Cond != nil {
			s += p.expr(x.Cond) + " "
		}
		p.line(s + "{")
		p.block(x.Body)
		p.line("}")
	case SRange:
		n := x.I.Name
		if x.V != nil {
			n += ", " + x.V.Name
		}
		p.line("for " + n + " := range " + p.expr(x.X) + " {")
		p.block(x.Body)
		p.line("}")
	case SFunc:
		ps := []string{}
		for _, v := range x.F.Params {
			ps = append(ps, v.Name+" "+v.T.String())
		}
		rs := []string{}
		for _, r := range x.F.Rets {
			rs = append(rs, r.String())
		}
		r := ""
		if len(rs) == 1 {
			r = rs[0] + " "
		} else if len(rs) > 1 {
			r = "(" + strings.Join(rs, ", ") + ") "
		}
		p.line("func " + x.F.Name + "(" + strings.Join(ps, ", ") + ") " + r + "{")
		p.block(x.F.Body)
		p.line("}")
	default:
		p.line(p.simple(st))
	}
}

func source(b []Stmt) string {
	p := &printer{}
	for _, s := range b {
		p.stmt(s)
	}
	return p.b.String()
}
