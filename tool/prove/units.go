package main

// The contracts: one unit per kind of node, with the meaning of the node.

import (
	"fmt"
	"go/types"
	"strings"
)

func newUnitRun(x *X, h, out *houdini, d *unitDef) *unitRun {
	return &unitRun{x: x, pg: x.p.pg, h: h, out: out, unit: d, frags: map[int]*fragInfo{}, counters: map[string]string{}, readFirst: map[string]bool{}, start: map[string]*shFunc{}, flagOld: map[string]Val{}}
}

// set sets a field by its type name, for fields without an accessor.
func (u *unitRun) setByType(s *StructV, typ string, v Val) *StructV {
	st := s.t.Underlying().(*types.Struct)
	n := -1
	for i := 0; i < st.NumFields(); i++ {
		if strings.HasSuffix(st.Field(i).Type().String(), typ) {
			if n >= 0 {
				unsup("several fields of type %s", typ)
			}
			n = i
		}
	}
	if n < 0 {
		unsup("no field of type %s in %s", typ, s.t)
	}
	return setPath(s, []int{n}, v).(*StructV)
}

// expr2 finishes an expression unit: used, or as a statement.
func (u *unitRun) exprUnit(n *StructV, meaning func(r *ref) []*Term) {
	u.valueUsed = true
	texts := u.evalExpr(n, true)
	r := u.ref()
	want := meaning(r)
	u.finishExpr(n, texts, true, r, want)
}

func (u *unitRun) exprStmt(n *StructV, meaning func(r *ref) []*Term) {
	u.evalStmt(n)
	r := u.ref()
	meaning(r)
	u.nonEmpty = true
	u.finishStmt(r, outcome{})
}

func (u *unitRun) stmtUnit(n *StructV, meaning func(r *ref) outcome) *shState {
	u.evalStmt(n)
	r := u.ref()
	u.nonEmpty = true
	o := meaning(r)
	return u.finishStmt(r, o)
}

func (u *unitRun) str(s string) *Term { return u.x.tt.Str(s) }
func (u *unitRun) num(n int64) *Term  { return u.x.tt.Int(n) }

func join(u *unitRun, vs []*Term) *Term {
	ts := []*Term{}
	for i, v := range vs {
		if i > 0 {
			ts = append(ts, u.str(" "))
		}
		ts = append(ts, v)
	}
	return u.x.tt.Cat(append(ts, u.str("\n"))...)
}

var unitList []*unitDef

// exprKind registers an expression: used and as a statement, with errors of the children.
func exprKind(name string, props string, bound string, build func(u *unitRun) (*StructV, func(r *ref) []*Term)) {
	add := func(suffix string, run func(u *unitRun)) {
		unitList = append(unitList, &unitDef{name: name + suffix, kind: "expr", props: strings.Fields(props), bound: bound, run: run})
	}
	add("", func(u *unitRun) {
		u.context()
		u.begin()
		n, m := build(u)
		u.exprUnit(n, m)
	})
	add("/statement", func(u *unitRun) {
		u.context()
		u.begin()
		n, m := build(u)
		u.exprStmt(n, m)
	})
	unitList[len(unitList)-1].kind = "stmt"
	add("/errors", func(u *unitRun) {
		u.errFork = true
		u.begin()
		n, _ := build(u)
		u.evalExpr(n, true)
	})
}

func stmtKind(name string, props string, bound string, build func(u *unitRun) (*StructV, func(r *ref) outcome)) {
	add := func(suffix string, run func(u *unitRun)) {
		unitList = append(unitList, &unitDef{name: name + suffix, kind: "stmt", props: strings.Fields(props), bound: bound, run: run})
	}
	add("", func(u *unitRun) {
		u.context()
		u.begin()
		n, m := build(u)
		u.stmtUnit(n, m)
	})
	add("/errors", func(u *unitRun) {
		u.errFork = true
		u.begin()
		n, _ := build(u)
		u.evalStmt(n)
	})
}

// context: at top level or in a function.
func (u *unitRun) context() {
	if u.x.choose(2) == 1 {
		u.function()
	}
}

func (u *unitRun) vname(i int) *Term { return u.x.tt.Var(fmt.Sprintf("v%d", i), SStr) }

// vars are variables of a type, local or global.
func (u *unitRun) vars(n int, tags []vtag) (list []Val, names []*Term) {
	g := u.x.choose(2) == 1
	for i := 0; i < n; i++ {
		if i > 0 && n == 2 {
			g = u.x.choose(2) == 1
		}
		list = append(list, u.variable(u.vname(i), tags[i], g))
		names = append(names, u.mangled(u.vname(i), tags[i], g))
	}
	return
}

func (u *unitRun) pickTag(tags ...vtag) vtag { return tags[u.x.choose(len(tags))] }

func one(t *Term) []*Term { return []*Term{t} }

func init() {
	scalar := "C01 C04"
	exprKind("BooleanLiteral", "C01", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		v := u.x.tt.Var("lit", SBool)
		return u.node("BooleanLiteral", map[string]Val{"Value": v}), func(r *ref) []*Term { return one(u.x.boolVal(v)) }
	})
	exprKind("IntegerLiteral", "C01", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		v := u.x.tt.Var("lit", SInt)
		return u.node("IntegerLiteral", map[string]Val{"Value": v}), func(r *ref) []*Term { return one(u.x.tt.Itoa(v)) }
	})
	exprKind("StringLiteral", "C01 C03 C08", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		v := u.x.tt.Var("raw:lit", SStr)
		return u.node("StringLiteral", map[string]Val{"Value": v}), func(r *ref) []*Term { return one(v) }
	})
	exprKind("Negation", scalar, "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		c := u.expr("b")
		n := u.node("UnaryOperation", map[string]Val{"Expression": c.iface, "Operator": u.konst("parser", "UNARY_OPERATOR_NEGATE"), "ValueType": u.valueType("b")})
		return n, func(r *ref) []*Term { return one(u.x.boolVal(u.x.tt.Not(u.x.boolOf(r.ev(c))))) }
	})
	for _, op := range []struct{ k, o string }{{"MULTIPLICATION", "*"}, {"DIVISION", "/"}, {"MODULO", "%"}, {"ADDITION", "+"}, {"SUBTRACTION", "-"}} {
		op := op
		exprKind("BinaryOperation/int"+op.o, scalar, "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
			a, b := u.expr("i"), u.expr("i")
			n := u.node("BinaryOperation", map[string]Val{"Left": a.iface, "Operator": u.konst("parser", "BINARY_OPERATOR_"+op.k), "Right": b.iface})
			return n, func(r *ref) []*Term {
				va := u.x.intOf(r.ev(a))
				return one(u.x.tt.Itoa(u.x.arithOp(op.o, va, u.x.intOf(r.ev(b)))))
			}
		})
	}
	exprKind("BinaryOperation/string+", "C01 C03 C04 C08", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		a, b := u.expr("s"), u.expr("s")
		n := u.node("BinaryOperation", map[string]Val{"Left": a.iface, "Operator": u.konst("parser", "BINARY_OPERATOR_ADDITION"), "Right": b.iface})
		return n, func(r *ref) []*Term {
			va := r.ev(a)
			return one(u.x.tt.Cat(va, r.ev(b)))
		}
	})
	cmp := map[string]func(x *X, a, b *Term) *Term{
		"EQUAL":            func(x *X, a, b *Term) *Term { return x.tt.Eq(a, b) },
		"NOT_EQUAL":        func(x *X, a, b *Term) *Term { return x.tt.Not(x.tt.Eq(a, b)) },
		"LESS":             func(x *X, a, b *Term) *Term { return x.less(a, b) },
		"LESS_OR_EQUAL":    func(x *X, a, b *Term) *Term { return x.tt.Not(x.less(b, a)) },
		"GREATER":          func(x *X, a, b *Term) *Term { return x.less(b, a) },
		"GREATER_OR_EQUAL": func(x *X, a, b *Term) *Term { return x.tt.Not(x.less(a, b)) },
	}
	for _, op := range sortedKeys(cmp) {
		for _, t := range []vtag{"b", "i", "s"} {
			op, t := op, t
			if t == "b" && op != "EQUAL" && op != "NOT_EQUAL" {
				continue
			}
			pr := scalar
			if t == "s" {
				pr += " C03 C08"
			}
			exprKind("Comparison/"+string(t)+"/"+op, pr, "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
				a, b := u.expr(t), u.expr(t)
				n := u.node("Comparison", map[string]Val{"Left": a.iface, "Operator": u.konst("parser", "COMPARE_OPERATOR_"+op), "Right": b.iface})
				return n, func(r *ref) []*Term {
					va := r.ev(a)
					vb := r.ev(b)
					if t != "s" {
						va, vb = u.x.intOf(va), u.x.intOf(vb)
					}
					return one(u.x.boolVal(cmp[op](u.x, va, vb)))
				}
			})
		}
	}
	for _, op := range []string{"AND", "OR"} {
		op := op
		exprKind("LogicalOperation/"+op, scalar, "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
			a, b := u.expr("b"), u.expr("b")
			n := u.node("LogicalOperation", map[string]Val{"Left": a.iface, "Operator": u.konst("parser", "LOGICAL_OPERATOR_"+op), "Right": b.iface})
			return n, func(r *ref) []*Term {
				va := u.x.boolOf(r.ev(a))
				vb := u.x.boolOf(r.ev(b))
				if op == "AND" {
					return one(u.x.boolVal(u.x.tt.And(va, vb)))
				}
				return one(u.x.boolVal(u.x.tt.Or(va, vb)))
			}
		})
	}
	for _, t := range []vtag{"i", "b", "s", "[]i", "[]b", "[]s"} {
		t := t
		exprKind("VariableEvaluation/"+string(t), "C01 C02 C10", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
			g := u.x.choose(2) == 1
			n := u.x.zero(u.ptype("VariableEvaluation")).(*StructV)
			n = u.setByType(n, "parser.Variable", u.variable(u.vname(0), t, g))
			name := u.mangled(u.vname(0), t, g)
			return n, func(r *ref) []*Term { return one(u.x.wGet(r.W, name)) }
		})
	}
	exprKind("Group", scalar, "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		c := u.expr(u.pickTag("i", "b", "s"))
		return u.node("Group", map[string]Val{"Child": c.iface}), func(r *ref) []*Term { return one(r.ev(c)) }
	})
	exprKind("Itoa", scalar, "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		c := u.expr("i")
		return u.node("Itoa", map[string]Val{"Value": c.iface}), func(r *ref) []*Term { return one(r.ev(c)) }
	})
	exprKind("Len/string", "C03 C04 C08", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		c := u.expr("s")
		return u.node("Len", map[string]Val{"Expression": c.iface}), func(r *ref) []*Term {
			return one(u.x.tt.Itoa(u.x.tt.UF("strlen", SInt, r.ev(c))))
		}
	})
	exprKind("Len/slice", "C03 C04", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		c := u.expr(u.pickTag("[]i", "[]b", "[]s"))
		return u.node("Len", map[string]Val{"Expression": c.iface}), func(r *ref) []*Term {
			v := r.ev(c)
			return one(u.x.tt.Itoa(u.x.wLen(r.W, v)))
		}
	})
	exprKind("SliceEvaluation", "C03 C04", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		t := u.pickTag("[]i", "[]b", "[]s")
		s, i := u.expr(t), u.expr("i")
		n := u.node("SliceEvaluation", map[string]Val{"Value": s.iface, "Index": i.iface})
		n = u.setByType(n, "parser.DataType", u.dataType(t))
		return n, func(r *ref) []*Term {
			vs := r.ev(s)
			vi := r.ev(i)
			return one(u.x.wElem(r.W, vs, u.x.intOf(vi)))
		}
	})
	exprKind("StringSubscript", "C03 C04 C08", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		s, a := u.expr("s"), u.expr("i")
		acc := map[string]Val{"Value": s.iface, "StartIndex": a.iface}
		var b *child
		if u.x.choose(2) == 1 {
			b = u.expr("i")
			acc["EndIndex"] = b.iface
		}
		return u.node("StringSubscript", acc), func(r *ref) []*Term {
			vs := r.ev(s)
			va := u.x.intOf(r.ev(a))
			l := u.num(1)
			if b != nil {
				l = u.x.tt.AddN(u.x.tt.Sub(u.x.intOf(r.ev(b)), va), 1)
			}
			return one(u.x.tt.UF("strsub", SStr, vs, va, l))
		}
	})
	for n := 0; n <= 3; n++ {
		n := n
		bound := "at most 3 elements"
		exprKind(fmt.Sprintf("SliceInstantiation/%d", n), "C03 C04", bound, func(u *unitRun) (*StructV, func(r *ref) []*Term) {
			t := u.pickTag("i", "b", "s")
			if n == 3 {
				t = "s"
			}
			cs := u.exprs(n, t)
			node := u.node("SliceInstantiation", map[string]Val{"Values": u.list(vals(cs)...)})
			node = u.setByType(node, "parser.DataType", u.dataType(t))
			return node, func(r *ref) []*Term {
				vs := r.evs(cs)
				r.alloc = vs
				r.hasAlloc = true
				return nil
			}
		})
	}
	for n := 0; n <= 3; n++ {
		n := n
		exprKind(fmt.Sprintf("FunctionCall/%d", n), "C02 C04 C08", "at most 3 arguments and 2 results", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
			cs := []*child{}
			if n == 1 && u.x.choose(2) == 1 {
				cs = append(cs, u.newChild("call", "i", "s"))
			} else {
				for i := 0; i < n; i++ {
					cs = append(cs, u.expr([]vtag{"s", "i", "[]s"}[i]))
				}
			}
			rt := [][]vtag{{}, {"s"}, {"i", "s"}}[u.x.choose(3)]
			rts := []Val{}
			for _, t := range rt {
				rts = append(rts, u.valueType(t))
			}
			fname := u.x.tt.Var("fun", SStr)
			node := u.node("FunctionCall", map[string]Val{"Name": fname, "ReturnTypes": u.list(rts...), "Args": u.list(vals(cs)...)})
			return node, func(r *ref) []*Term {
				args := []*Term{}
				for _, c := range cs {
					args = append(args, r.all(c)...)
				}
				return r.call(u.target(fname), args, rt)
			}
		})
	}
	for _, shape := range [][]int{{0}, {1}, {2}, {1, 1}, {0, 1, 0}} {
		shape := shape
		exprKind("AppCall/"+strings.Trim(fmt.Sprint(shape), "[]"), "C18 C04 C08", "at most 3 commands with at most 2 arguments", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
			type call struct {
				name *Term
				args []*child
			}
			calls := []call{}
			for i, n := range shape {
				calls = append(calls, call{u.x.tt.Var(fmt.Sprintf("raw:app%d", i), SStr), u.exprs(n, "s")})
			}
			var next Val
			var node *StructV
			for i := len(calls) - 1; i >= 0; i-- {
				acc := map[string]Val{"Name": calls[i].name, "Args": u.list(vals(calls[i].args)...)}
				if next != nil {
					acc["Next"] = next
				}
				node = u.node("AppCall", acc)
				next = &PtrV{obj: u.x.newObj(node, "call")}
			}
			return node, func(r *ref) []*Term {
				cmds := [][]*Term{}
				for _, c := range calls {
					cmds = append(cmds, append([]*Term{c.name}, r.evs(c.args)...))
				}
				shape, args := appShape(cmds)
				wa := append([]*Term{r.W}, args...)
				if !u.valueUsed {
					r.W = u.x.tt.UF("apprun"+shape, SAny, wa...)
					return nil
				}
				out := u.x.tt.UF("appout"+shape, SStr, wa...)
				code := u.x.tt.UF("appcode"+shape, SInt, wa...)
				r.W = u.x.tt.UF("appcap"+shape, SAny, wa...)
				return []*Term{u.x.tt.UF("trimsuffix", SStr, out, u.str("\n")), u.str(""), u.x.tt.Itoa(code)}
			}
		})
	}
	exprKind("Input", "C04 C08", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		acc := map[string]Val{}
		var c *child
		if u.x.choose(2) == 1 {
			c = u.expr("s")
			acc["Prompt"] = c.iface
		}
		return u.node("Input", acc), func(r *ref) []*Term {
			p := u.str("")
			if c != nil {
				p = r.ev(c)
			}
			v := u.x.tt.UF("stdinline", SStr, r.W)
			r.W = u.x.tt.UF("rd", SAny, r.W, p)
			return one(v)
		}
	})
	exprKind("Copy", "C03 C04", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		t := u.pickTag("[]i", "[]s")
		g := u.x.choose(2) == 1
		c := u.expr(t)
		name := u.mangled(u.vname(0), t, g)
		return u.node("Copy", map[string]Val{"Destination": u.variable(u.vname(0), t, g), "Source": c.iface}), func(r *ref) []*Term {
			src := r.ev(c)
			dst := u.x.wGet(r.W, name)
			n := u.x.wLen(r.W, src)
			r.W = u.x.tt.UF("copy", SAny, r.W, dst, src)
			return one(u.x.tt.Itoa(n))
		}
	})
	exprKind("Exists", "C17 C04 C08", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		c := u.expr("s")
		return u.node("Exists", map[string]Val{"Path": c.iface}), func(r *ref) []*Term {
			p := r.ev(c)
			return one(u.x.boolVal(u.x.tt.UF("exists", SBool, fileView(r.W), p)))
		}
	})
	exprKind("Read", "C17 C04 C08", "", func(u *unitRun) (*StructV, func(r *ref) []*Term) {
		c := u.expr("s")
		return u.node("Read", map[string]Val{"Path": c.iface}), func(r *ref) []*Term {
			p := r.ev(c)
			return one(u.x.tt.UF("trimsuffix", SStr, u.x.tt.UF("fread", SStr, fileView(r.W), p), u.str("\n")))
		}
	})

	// Statements.
	for n := 0; n <= 3; n++ {
		n := n
		stmtKind(fmt.Sprintf("Print/%d", n), "C01 C04 C08", "at most 3 values", func(u *unitRun) (*StructV, func(r *ref) outcome) {
			cs := []*child{}
			if n == 1 && u.x.choose(2) == 1 {
				cs = append(cs, u.newChild("call", "i", "s"))
			} else {
				for i := 0; i < n; i++ {
					cs = append(cs, u.expr([]vtag{"s", "i", "b"}[i]))
				}
			}
			return u.node("Print", map[string]Val{"Expressions": u.list(vals(cs)...)}), func(r *ref) outcome {
				vs := []*Term{}
				for _, c := range cs {
					vs = append(vs, r.all(c)...)
				}
				r.W = u.x.wOut(r.W, join(u, vs))
				return outcome{}
			}
		})
	}
	stmtKind("Panic", scalar+" C08", "", func(u *unitRun) (*StructV, func(r *ref) outcome) {
		c := u.expr(u.pickTag("s", "i"))
		return u.node("Panic", map[string]Val{"Expression": c.iface}), func(r *ref) outcome {
			v := r.ev(c)
			r.W = u.x.wOut(r.W, u.x.tt.Cat(u.str("panic: "), v, u.str("\n")))
			return outcome{kind: "exit", code: u.num(1)}
		}
	})
	stmtKind("Write", "C17 C04 C08", "", func(u *unitRun) (*StructV, func(r *ref) outcome) {
		p, d := u.expr("s"), u.expr("s")
		acc := map[string]Val{"Path": p.iface, "Data": d.iface}
		var a *child
		if u.x.choose(2) == 1 {
			a = u.expr("b")
			acc["Append"] = a.iface
		}
		return u.node("Write", acc), func(r *ref) outcome {
			vp := r.ev(p)
			vd := u.x.tt.Cat(r.ev(d), u.str("\n"))
			if a != nil && u.x.branch(u.x.boolOf(r.ev(a))) {
				r.W = u.x.tt.UF("fappend", SAny, r.W, vp, vd)
			} else {
				r.W = u.x.tt.UF("fwrite", SAny, r.W, vp, vd)
			}
			return outcome{}
		}
	})
	for _, kind := range []string{"VariableDefinition", "VariableAssignment"} {
		for n := 1; n <= 3; n++ {
			kind, n := kind, n
			stmtKind(fmt.Sprintf("%s/%d", kind, n), "C01 C02 C04 C08", "at most 3 variables", func(u *unitRun) (*StructV, func(r *ref) outcome) {
				tags := [][]vtag{{u.pickTag("i", "b", "s", "[]i")}, {"s", "s"}, {"i", "i", "s"}}[n-1]
				vs, names := u.vars(n, tags)
				cs := []*child{}
				for i := 0; i < n; i++ {
					cs = append(cs, u.expr(tags[i]))
				}
				return u.node(kind, map[string]Val{"Variables": u.list(vs...), "Values": u.list(vals(cs)...)}), func(r *ref) outcome {
					vals := r.evs(cs)
					for i, v := range vals {
						r.W = u.x.wSet(r.W, names[i], v)
					}
					return outcome{}
				}
			})
		}
		for n := 1; n <= 3; n++ {
			kind, n := kind, n
			stmtKind(fmt.Sprintf("%sCallAssignment/%d", kind, n), "C02 C04 C08", "at most 3 variables", func(u *unitRun) (*StructV, func(r *ref) outcome) {
				tags := []vtag{"s", "i", "[]s"}[:n]
				vs, names := u.vars(n, tags)
				class := []string{"call", "nocall"}[u.x.choose(2)]
				c := u.newChild(class, tags...)
				c.iface.impl[u.ptype("Call").String()] = true
				return u.node(kind+"CallAssignment", map[string]Val{"Variables": u.list(vs...), "Call": c.iface}), func(r *ref) outcome {
					for i, v := range r.all(c) {
						r.W = u.x.wSet(r.W, names[i], v)
					}
					return outcome{}
				}
			})
		}
	}
	stmtKind("SliceAssignment", "C03 C04 C08", "", func(u *unitRun) (*StructV, func(r *ref) outcome) {
		t := u.pickTag("[]i", "[]b", "[]s")
		g := u.x.choose(2) == 1
		i, v := u.expr("i"), u.expr(t.elem())
		name := u.mangled(u.vname(0), t, g)
		n := u.node("SliceAssignment", map[string]Val{"Index": i.iface, "Value": v.iface})
		n = u.setByType(n, "parser.Variable", u.variable(u.vname(0), t, g))
		return n, func(r *ref) outcome {
			vi := u.x.intOf(r.ev(i))
			vv := r.ev(v)
			def := u.str("0")
			if t == "[]s" {
				def = u.str("")
			}
			r.W = u.x.tt.UF("growset", SAny, r.W, u.x.wGet(r.W, name), vi, vv, def)
			return outcome{}
		}
	})
	for n := 0; n <= 3; n++ {
		n := n
		unitList = append(unitList, &unitDef{name: fmt.Sprintf("Return/%d", n), kind: "stmt", props: []string{"C02", "C04", "C08"}, bound: "at most 3 values", run: func(u *unitRun) {
			u.function()
			u.errFork = u.x.choose(2) == 1
			u.begin()
			cs := []*child{}
			tags := []vtag{"s", "i", "[]s"}
			if n == 2 && u.x.choose(2) == 1 {
				cs = append(cs, u.newChild("call", "i", "s"))
			} else {
				for i := 0; i < n; i++ {
					cs = append(cs, u.expr(tags[i]))
				}
			}
			var want []*Term
			node := u.node("Return", map[string]Val{"Values": u.list(vals(cs)...)})
			st := u.stmtUnit(node, func(r *ref) outcome {
				for _, c := range cs {
					want = append(want, r.all(c)...)
				}
				return outcome{kind: "return"}
			})
			for i, w := range want {
				reg := u.h.retRegs[i]
				if reg == "" {
					continue
				}
				v := st.read(u.str(reg))
				u.x.require("value", u.x.tt.Eq(v, w), func() string {
					return fmt.Sprintf("result %d: the register %s contains %s instead of %s", i, reg, v, w)
				})
			}
		}})
	}

	// Control flow.
	ifUnit := func(name string, elifs int, hasElse bool, props string, sw bool) {
		unitList = append(unitList, &unitDef{name: name, kind: "stmt", props: strings.Fields(props), bound: "at most 2 else-if branches and 2 statements per block", run: func(u *unitRun) {
			u.contextLoop()
			u.errFork = u.x.choose(2) == 1
			u.begin()
			small := elifs > 0 || u.errFork
			outer := u.loopDepth > 0
			ctl := func() []string {
				c := []string{}
				if u.inFunc {
					c = append(c, "return")
				}
				if outer && !(elifs > 1 && u.inFunc) {
					c = append(c, "continue")
					if !sw {
						c = append(c, "break")
					}
				}
				return c
			}
			brk := sw && u.x.choose(2) == 1
			nested := brk && u.x.choose(2) == 1
			block := func(n int, withBreak bool) (v []Val, run func(r *ref) outcome) {
				cs := []*child{}
				for i := 0; i < n; i++ {
					c := u.stmt(ctl()...)
					cs = append(cs, c)
					v = append(v, c.iface)
				}
				var nc *child
				if withBreak && nested {
					nc = u.expr("b")
					inner := u.ifNode(nc, []Val{u.iface(u.x.zero(u.ptype("Break")).(*StructV))}, nil, nil, nil, nil, false)
					v = append(v, u.iface(inner))
				} else if withBreak {
					v = append(v, u.iface(u.x.zero(u.ptype("Break")).(*StructV)))
				}
				return v, func(r *ref) outcome {
					for _, c := range cs {
						k := u.childCtl(c, r.W)
						r.W = u.childEffect(c, r.W)
						if k != "" {
							if sw && k == "continue" {
								return outcome{kind: k, n: 2}
							}
							return outcome{kind: k}
						}
					}
					if withBreak && (nc == nil || u.x.branch(u.x.boolOf(r.ev(nc)))) {
						return outcome{kind: "swbreak"}
					}
					return outcome{}
				}
			}
			setup := []Val{}
			var sc *child
			if small || u.x.choose(2) == 1 {
				sc = u.stmt()
				setup = append(setup, sc.iface)
			}
			conds := []*child{}
			bodies := []func(r *ref) outcome{}
			var first []Val
			elifB := [][]Val{}
			for i := 0; i <= elifs; i++ {
				conds = append(conds, u.expr("b"))
				n := 1
				if i == 0 && !small {
					n = u.x.choose(3)
				}
				v, f := block(n, brk && i == 0)
				bodies = append(bodies, f)
				if i == 0 {
					first = v
				} else {
					elifB = append(elifB, v)
				}
			}
			var elseB []Val
			if hasElse {
				v, f := block(1, false)
				elseB = v
				bodies = append(bodies, f)
			}
			cv := []Val{}
			for _, c := range conds[1:] {
				cv = append(cv, c.iface)
			}
			node := u.ifNode(conds[0], first, cv, elifB, elseB, setup, sw)
			u.stmtUnit(node, func(r *ref) outcome {
				if sc != nil {
					r.W = u.childEffect(sc, r.W)
				}
				vs := []*Term{}
				for _, c := range conds {
					vs = append(vs, r.ev(c))
				}
				o := outcome{}
				done := false
				for i, v := range vs {
					if u.x.branch(u.x.boolOf(v)) {
						o = bodies[i](r)
						done = true
						break
					}
				}
				if !done && hasElse {
					o = bodies[len(bodies)-1](r)
				}
				if o.kind == "swbreak" {
					o = outcome{}
				}
				o.n = 0
				return o
			})
		}})
	}
	for e := 0; e <= 2; e++ {
		ifUnit(fmt.Sprintf("If/%d", e), e, false, "C01 C04", false)
		ifUnit(fmt.Sprintf("If/%d/else", e), e, true, "C01 C04", false)
	}
	ifUnit("Switch/0", 0, false, "C01 C04", true)
	ifUnit("Switch/1/else", 1, true, "C01 C04", true)

	unitList = append(unitList, &unitDef{name: "For", kind: "stmt", props: []string{"C01", "C04"}, bound: "body of at most 2 statements", run: forUnit})
	for _, k := range []string{"Break", "Continue"} {
		k := k
		unitList = append(unitList, &unitDef{name: k, kind: "stmt", props: []string{"C01"}, bound: "at most 2 enclosing switches", run: func(u *unitRun) {
			if u.x.choose(2) == 1 {
				u.function()
			}
			u.convCall("ForStart")
			n := 0
			if k == "Continue" {
				n = u.x.choose(3)
			}
			for i := 0; i < n; i++ {
				u.convCall("SwitchStart")
			}
			u.begin()
			u.stmtUnit(u.x.zero(u.ptype(k)).(*StructV), func(r *ref) outcome { return outcome{kind: strings.ToLower(k), n: n + 1} })
		}})
	}
	for n := 0; n <= 3; n++ {
		n := n
		unitList = append(unitList, &unitDef{name: fmt.Sprintf("FunctionDefinition/%d", n), kind: "top", props: []string{"C02"}, bound: "at most 3 parameters, 2 statements", run: func(u *unitRun) {
			u.errFork = u.x.choose(2) == 1
			u.begin()
			tags := []vtag{"s", "i", "[]s"}
			ps := []Val{}
			for i := 0; i < n; i++ {
				ps = append(ps, u.variable(u.vname(i), tags[i], false))
				for j := 0; j < i; j++ {
					u.x.assume(u.x.tt.Not(u.x.tt.Eq(u.x.tt.UF("TT", SStr, u.vname(i)), u.x.tt.UF("TT", SStr, u.vname(j)))))
				}
			}
			cs := []*child{}
			body := []Val{}
			for i := u.x.choose(3); i > 0; i-- {
				c := u.stmt("return")
				cs = append(cs, c)
				body = append(body, c.iface)
			}
			fname := u.x.tt.Var("fun", SStr)
			node := u.node("FunctionDefinition", map[string]Val{"Name": fname, "ReturnTypes": u.list(), "Params": u.list(ps...), "Body": u.list(body...)})
			// The names of the parameters within the function.
			fs := u.pg.method(u.convT, "FuncStart").String()
			names := []*Term{}
			u.x.after[fs] = func(x *X) {
				names = nil
				for i := 0; i < n; i++ {
					names = append(names, u.mangled(u.vname(i), tags[i], false))
				}
			}
			u.evalStmt(node)
			delete(u.x.after, fs)
			u.end()
			l := u.text()
			st := u.newState(u.x.tt.Var("W0", SAny))
			o := st.run(l)
			u.compareCtl(o, outcome{})
			r := u.ref()
			u.compareWorld(st, r.W)
			if len(u.defines) != 1 {
				u.x.bad("defines", fmt.Sprintf("%d functions are defined", len(u.defines)))
				return
			}
			d := u.defines[0]
			u.x.require("defines", u.x.tt.Eq(d.name, u.target(fname)), func() string { return "the function is called " + d.name.String() })
			args := []*Term{}
			for i := 0; i < n; i++ {
				args = append(args, u.x.typedUF(tags[i], fmt.Sprintf("arg%d", i)))
			}
			st = u.newState(u.x.tt.Var("W0", SAny))
			st.args = append(st.args, args)
			o = st.run(d.body)
			want := outcome{}
			for i, a := range args {
				r.W = u.x.wSet(r.W, names[i], a)
			}
			for _, c := range cs {
				k := u.childCtl(c, r.W)
				r.W = u.childEffect(c, r.W)
				if k != "" {
					want.kind = k
					break
				}
			}
			u.compareCtl(o, want)
			u.compareWorld(st, r.W)
		}})
	}
	for n := 0; n <= 3; n++ {
		n := n
		unitList = append(unitList, &unitDef{name: fmt.Sprintf("Program/%d", n), kind: "top", props: []string{"C01", "C04"}, bound: "at most 3 statements", run: func(u *unitRun) {
			u.errFork = u.x.choose(2) == 1
			u.begin()
			cs := []*child{}
			body := []Val{}
			for i := 0; i < n; i++ {
				c := u.stmt()
				cs = append(cs, c)
				body = append(body, c.iface)
			}
			node := u.node("Program", map[string]Val{"Body": u.list(body...)})
			u.evalStmt(node)
			r := u.ref()
			for _, c := range cs {
				r.W = u.childEffect(c, r.W)
			}
			u.noEnd = true
			u.finishStmt(r, outcome{})
		}})
	}
}

// less: integers and strings.
func (x *X) less(a, b *Term) *Term {
	if a.sort == SInt {
		return x.tt.Lt(a, b)
	}
	return x.strLt(a, b)
}

// contextLoop: top level or function, within a loop or not, within a switch of a loop.
func (u *unitRun) contextLoop() {
	u.context()
	switch u.x.choose(2) {
	case 1:
		u.convCall("ForStart")
		u.loopDepth = 1
	}
}

func (u *unitRun) ifNode(cond *child, body []Val, conds []Val, bodies [][]Val, elseB []Val, setup []Val, sw bool) *StructV {
	branch := func(c Val, b []Val) *StructV {
		return u.node("IfBranch", map[string]Val{"Condition": c, "Body": u.list(b...)})
	}
	elifs := []Val{}
	for i := range conds {
		elifs = append(elifs, branch(conds[i], bodies[i]))
	}
	acc := map[string]Val{"IfBranch": branch(cond.iface, body), "ElseIfBranches": u.list(elifs...), "Setup": u.list(setup...)}
	if elseB != nil {
		acc["Else"] = u.node("Else", map[string]Val{"Body": u.list(elseB...)})
	}
	n := u.node("If", acc)
	if sw {
		n = u.setByType(n, "bool", u.x.tt.tru)
	}
	return n
}

// forUnit: induction over the iterations.
func forUnit(u *unitRun) {
	x := u.x
	u.context()
	u.errFork = x.choose(2) == 1
	u.begin()
	acc := map[string]Val{}
	opt := func(name string, list bool) *child {
		if x.choose(2) == 0 {
			return nil
		}
		c := u.stmt()
		if list {
			acc[name] = u.list(c.iface)
		} else {
			acc[name] = c.iface
		}
		return c
	}
	setup := opt("Setup", true)
	init := opt("Init", false)
	inc := opt("Increment", false)
	cond := u.expr("b")
	acc["Condition"] = cond.iface
	body := []*child{}
	bv := []Val{}
	ctl := []string{"break", "continue"}
	if u.inFunc {
		ctl = append(ctl, "return")
	}
	for i := x.choose(3); i > 0; i-- {
		c := u.stmt(ctl...)
		body = append(body, c)
		bv = append(bv, c.iface)
		ctl = nil
	}
	acc["Body"] = u.list(bv...)
	node := u.node("For", acc)
	u.evalStmt(node)
	u.nonEmpty = true
	u.end()
	l := u.text()
	st := u.newState(x.tt.Var("W0", SAny))
	r := u.ref()
	if setup != nil {
		r.W = u.childEffect(setup, r.W)
	}
	if init != nil {
		r.W = u.childEffect(init, r.W)
	}
	// refIteration runs one iteration of the meaning: "" back to the head, "end" the loop is over.
	refIteration := func(first bool) string {
		if !first && inc != nil {
			r.W = u.childEffect(inc, r.W)
		}
		if !x.branch(x.boolOf(r.ev(cond))) {
			return "end"
		}
		for _, c := range body {
			k := u.childCtl(c, r.W)
			r.W = u.childEffect(c, r.W)
			switch k {
			case "break":
				return "end"
			case "continue":
				return ""
			case "return":
				return "return"
			}
		}
		return ""
	}
	loops := 0
	st.loop = func(st *shState, w *shWhile) outcome {
		loops++
		if loops > 1 {
			unsup("several loops")
		}
		u.compareWorld(st, r.W)
		for round := 0; round < 2; round++ {
			if round == 1 {
				// An arbitrary later iteration: only constants which hold at the end of every iteration are kept.
				keep := map[string]*Term{}
				names := []*Term{}
				for _, e := range st.log {
					if e.name != nil && keep[e.name.key] == nil {
						if v := st.read(e.name); v.isConst() {
							keep[e.name.key] = v
							names = append(names, e.name)
						}
					}
				}
				W := x.tt.Var("Wk", SAny)
				st.W, r.W = W, W
				st.log = []logEntry{{forget: 1}}
				for _, n := range names {
					st.log = append(st.log, logEntry{name: n, val: keep[n.key]})
				}
				st.setOK(x.tt.Var("okk", SBool))
				invariant := func() {
					for _, n := range names {
						if v := st.read(n); !x.valid(x.tt.Eq(v, keep[n.key])) {
							x.undecided("loop-invariant", fmt.Sprintf("%s is %s instead of %s at the end of an iteration", n, v, keep[n.key]))
							panic(pathEnd{"invariant"})
						}
					}
				}
				got, o := u.loopBody(st, w)
				want := refIteration(false)
				if !u.sameLoop(st, r, got, want) {
					return o
				}
				if got == "" {
					invariant()
					panic(pathEnd{"iteration"})
				}
				return o
			}
			got, o := u.loopBody(st, w)
			want := refIteration(true)
			if !u.sameLoop(st, r, got, want) {
				return o
			}
			if got != "" {
				return o
			}
			u.compareWorld(st, r.W)
		}
		return outcome{}
	}
	o := st.run(l)
	if loops == 0 {
		x.bad("control", "there is no loop")
		return
	}
	want := outcome{}
	if u.loopEnd == "return" {
		want.kind = "return"
	}
	u.compareCtl(o, want)
	u.compareWorld(st, r.W)
}

// loopBody runs one iteration of a loop of the script: "" next iteration, "end" or "return".
func (u *unitRun) loopBody(st *shState, w *shWhile) (string, outcome) {
	ok, o := st.cond(w.cond)
	if o.kind == "" {
		if !ok {
			return "end", outcome{}
		}
		o = st.run(w.body)
	}
	switch o.kind {
	case "":
		return "", outcome{}
	case "break":
		if o.n <= 1 {
			return "end", outcome{}
		}
	case "continue":
		if o.n <= 1 {
			return "", outcome{}
		}
	case "return":
		return "return", o
	}
	u.x.bad("control", "the loop is left by "+o.kind)
	panic(pathEnd{"control"})
}

func (u *unitRun) sameLoop(st *shState, r *ref, got, want string) bool {
	u.loopEnd = want
	if got != want {
		n := map[string]string{"": "the next iteration", "end": "the end of the loop", "return": "return"}
		u.x.bad("control", "an iteration leads to "+n[got]+" instead of "+n[want])
		panic(pathEnd{"control"})
	}
	u.x.good("control")
	u.compareWorld(st, r.W)
	return true
}

// call is the meaning of a call.
func (r *ref) call(name *Term, args []*Term, rt []vtag) []*Term {
	x := r.u.x
	wa := append([]*Term{r.W, name}, args...)
	r.callW, r.callArgs, r.callName, r.callTypes = r.W, args, name, rt
	r.hasCall = true
	r.W = x.tt.UF(fmt.Sprintf("CALL/%d", len(args)), SAny, wa...)
	return nil
}
