package main

import "go/types"

// The specifications of the parser's functions.

var pUnits = []*pDef{
	{fn: "evaluateVarNames", cut: true, args: noArgs, spec: func(s *pspec) Val {
		l := s.list()
		for {
			t := s.tok(0)
			s.expect("IDENTIFIER")
			s.push(&l, t)
			if !s.is("COMMA") {
				return l
			}
			s.eat()
			s.head(&l)
		}
	}},
	{fn: "evaluateValueType", args: noArgs, spec: func(s *pspec) Val {
		slice := s.is("OPENING_SQUARE_BRACKET")
		if slice {
			s.eat()
			s.expect("CLOSING_SQUARE_BRACKET")
		}
		v := s.expect("DATA_TYPE")
		for _, k := range [][2]string{{"bool", "BOOLEAN"}, {"int", "INTEGER"}, {"string", "STRING"}, {"error", "STRING"}} {
			if s.cond(s.x.tt.Eq(v, s.str(k[0]))) {
				return s.mkType(k[1], slice)
			}
		}
		s.reject("unknown type")
		return nil
	}},
	{fn: "evaluateImport", args: noArgs, spec: func(s *pspec) Val {
		alias := s.str("")
		if s.is("IDENTIFIER") {
			alias = s.eat()
		}
		path := s.expect("STRING_LITERAL")
		if s.is("NEWLINE") {
			s.eat()
		} else {
			s.want(s.is("EOF"), "newline or end of the file")
		}
		return s.strct("evaluatedImport", "alias", alias, "path", path)
	}},
	{fn: "evaluateValues", cut: true, spec: func(s *pspec) Val {
		es := s.list()
		for {
			e := s.expr()
			s.push(&es, e)
			more := s.is("COMMA")
			several := s.cond(s.isLen(es, 1)) && !more && s.u.isCall(e) && s.cond(s.x.tt.Eq(s.u.dt(s.vt(e)), s.konst("DATA_TYPE_MULTIPLE")))
			s.want(several || s.isSingle(s.vt(e)), "a single value")
			if !more {
				break
			}
			s.eat()
			s.head(&es)
		}
		return s.strct("evaluatedValues", "values", es)
	}},
	{fn: "evaluateBlock", args: blockArgs, spec: func(s *pspec) Val {
		s.expect("OPENING_CURLY_BRACKET")
		s.expect("NEWLINE")
		s.cb = s.u.argv[0]
		b := s.call("evaluateBlockContent", s.ctx, s.tks("CLOSING_CURLY_BRACKET"), s.u.argv[2])
		s.want(!s.u.cbErr, "callback")
		s.expect("CLOSING_CURLY_BRACKET")
		return b
	}},
	{fn: "evaluateBlockContent", cut: true, fall: 3, args: contentArgs, spec: specContent},
	{fn: "evaluateVarDefinition", spec: specVarDefinition},
	{fn: "evaluateCompoundAssignment", spec: func(s *pspec) Val {
		ns := s.names()
		s.want(len(ns) == 1, "one variable")
		name := s.u.tokValue(ns[0])
		op := s.firstChar(s.expect("COMPOUND_ASSIGN_OPERATOR"))
		es, _, ts := s.values()
		s.want(len(ts) == 1, "one value")
		v := s.variable(name)
		s.want(s.eqType(ts[0], s.field(v, "valueType")), "the same type")
		s.want(s.allowed(op, ts[0]), "an operator of the type")
		return s.assign(v, s.node("BinaryOperation", "left", s.varEval(v), "operator", op, "right", es[0]))
	}},
	{fn: "evaluateVarAssignment", spec: func(s *pspec) Val {
		ns := s.names()
		s.expect("ASSIGN_OPERATOR")
		es, call, ts := s.values()
		s.want(len(ns) == len(ts), "as many values as variables")
		vs := []Val{}
		for i, n := range ns {
			v := s.variable(s.u.tokValue(n))
			s.want(s.eqType(ts[i], s.field(v, "valueType")), "the same type")
			vs = append(vs, v)
		}
		if call != nil {
			return s.node("VariableAssignmentCallAssignment", "variables", s.list(vs...), "call", call)
		}
		return s.node("VariableAssignment", "variables", s.list(vs...), "values", s.list(es...))
	}},
	{fn: "evaluateParams", spec: func(s *pspec) Val {
		ps := []Val{}
		names := []*Term{}
		for !s.is("CLOSING_ROUND_BRACKET") {
			n := s.expect("IDENTIFIER")
			s.want(!s.known(n), "a new name")
			for _, o := range names {
				s.want(!s.cond(s.x.tt.Eq(o, n)), "different names")
			}
			names = append(names, n)
			t := s.call("evaluateValueType", nil)
			if s.is("COMMA") {
				s.eat()
			} else {
				s.want(s.is("CLOSING_ROUND_BRACKET"), "comma or bracket")
			}
			ps = append(ps, s.newVar(n, t, s.x.tt.fls, s.x.tt.fls))
		}
		return s.list(ps...)
	}},
	{fn: "evaluateFunctionDefinition", spec: specFunction},
	{fn: "evaluateReturn", spec: func(s *pspec) Val {
		s.want(s.cond(s.u.scopeQ("contains", s.ctx.scope, s.konst("SCOPE_FUNCTION"))), "a function")
		s.expect("RETURN")
		var es, ts []Val
		if !s.is("NEWLINE", "CLOSING_CURLY_BRACKET", "EOF") {
			es, _, ts = s.values()
		}
		rs := s.u.start["currReturnTypes"].(*SymSeq)
		s.want(s.cond(s.x.tt.Eq(rs.n, s.x.tt.Int(int64(len(ts))))), "as many values as results")
		for i, t := range ts {
			r := rs.at(s.x, s.x.tt.Int(int64(i)))
			if len(es) == len(ts) && s.isSlice(r) && s.isDyn(es[i], "StringLiteral") && s.cond(s.x.term(s.field(s.dyn(es[i]), "isNil"))) {
				es[i] = s.node("SliceInstantiation", "dataType", s.u.dt(r))
				continue
			}
			s.want(s.eqType(t, r), "the type of the result")
		}
		return s.node("Return", "values", s.list(es...))
	}},
	{fn: "evaluateBreak", prep: startsWith("BREAK"), spec: func(s *pspec) Val {
		s.want(s.inScope("SCOPE_FOR") || s.inScope("SCOPE_SWITCH"), "a loop or switch")
		s.eat()
		return s.node("Break")
	}},
	{fn: "evaluateContinue", prep: startsWith("CONTINUE"), spec: func(s *pspec) Val {
		s.want(s.inScope("SCOPE_FOR"), "a loop")
		s.eat()
		return s.node("Continue")
	}},
	{fn: "evaluateIf", cut: true, spec: func(s *pspec) Val {
		s.expect("IF")
		branch := func() *StructV {
			e := s.expr()
			s.want(s.isType(s.vt(e), "BOOLEAN", false), "a boolean condition")
			return s.strct("IfBranch", "condition", e, "body", s.block(s.ctx, "SCOPE_IF"))
		}
		first := branch()
		elifs := s.list()
		els := s.x.zero(s.u.typ("Else"))
		for {
			s.head(&elifs)
			if !s.is("ELSE") {
				break
			}
			s.eat()
			if s.is("IF") {
				s.eat()
				s.push(&elifs, branch())
				continue
			}
			els = s.strct("Else", "body", s.block(s.ctx, "SCOPE_IF"))
			break
		}
		return s.node("If", "ifBranch", first, "elifBranches", elifs, "elseBranch", els)
	}},
	{fn: "evaluateSwitch", cut: true, spec: specSwitch},
	{fn: "evaluateFor", label: "range", prep: forKind(true), spec: specForRange},
	{fn: "evaluateFor", label: "others", prep: forKind(false), spec: specFor},
	{fn: "evaluateVarEvaluation", spec: func(s *pspec) Val {
		return s.varEval(s.variable(s.expect("IDENTIFIER")))
	}},
	{fn: "evaluateSingleExpression", spec: func(s *pspec) Val {
		switch {
		case s.is("BOOL_LITERAL"):
			v := s.eat()
			return s.boolLit(s.cond(s.x.tt.Eq(v, s.str("true"))))
		case s.is("NUMBER_LITERAL"):
			v := s.eat()
			s.want(s.cond(s.u.uf("isInt64", SBool, v)), "an integer")
			return s.node("IntegerLiteral", "value", s.u.uf("atoi", SInt, v))
		case s.is("NIL_LITERAL"):
			s.eat()
			return s.node("StringLiteral", "isNil", s.x.tt.tru)
		case s.is("STRING_LITERAL"):
			return s.node("StringLiteral", "value", s.eat())
		case s.is("OPENING_ROUND_BRACKET"):
			s.eat()
			e := s.expr()
			s.expect("CLOSING_ROUND_BRACKET")
			return s.node("Group", "child", e)
		case s.is("IDENTIFIER"):
			if s.isAt(1, "OPENING_ROUND_BRACKET", "DOT") {
				return s.call("evaluateFunctionCall", s.ctx)
			}
			if s.isAt(1, "OPENING_SQUARE_BRACKET") {
				return s.call("evaluateSubscript", s.ctx)
			}
			return s.call("evaluateVarEvaluation", s.ctx)
		}
		for _, k := range [][2]string{{"OPENING_SQUARE_BRACKET", "evaluateSliceInstantiation"}, {"INPUT", "evaluateInput"}, {"READ", "evaluateRead"}, {"COPY", "evaluateCopy"}, {"ITOA", "evaluateItoa"}, {"EXISTS", "evaluateExists"}, {"LEN", "evaluateLen"}, {"AT", "evaluateAppCall"}} {
			if s.is(k[0]) {
				return s.call(k[1], s.ctx)
			}
		}
		s.reject("no expression")
		return nil
	}},
	{fn: "evaluateUnaryOperation", spec: func(s *pspec) Val {
		if s.is("UNARY_OPERATOR") && s.cond(s.x.tt.Eq(s.val(0), s.str("!"))) {
			s.eat()
			e := s.call("evaluateUnaryOperation", s.ctx)
			s.want(s.isType(s.vt(e), "BOOLEAN", false), "a boolean value")
			return s.node("UnaryOperation", "expr", e, "operator", s.str("!"), "valueType", s.mkType("BOOLEAN", false))
		}
		return s.call("evaluateSingleExpression", s.ctx)
	}},
	{fn: "evaluateMultiplication", cut: true, spec: func(s *pspec) Val { return s.binary("evaluateUnaryOperation", "*", "/", "%") }},
	{fn: "evaluateAddition", cut: true, spec: func(s *pspec) Val { return s.binary("evaluateMultiplication", "+", "-") }},
	{fn: "evaluateComparison", cut: true, spec: func(s *pspec) Val {
		l := s.call("evaluateAddition", s.ctx)
		for {
			s.head(&l)
			if !s.is("COMPARE_OPERATOR") {
				break
			}
			op := s.eat()
			r := s.call("evaluateAddition", s.ctx)
			s.want(s.eqType(s.vt(l), s.vt(r)), "the same type")
			ordered := s.isType(s.vt(l), "INTEGER", false) || s.isType(s.vt(l), "STRING", false)
			s.want(ordered || s.isType(s.vt(l), "BOOLEAN", false), "a comparable type")
			s.want(s.oneOf(op, "==", "!=") || ordered && s.oneOf(op, "<", "<=", ">", ">="), "an operator of the type")
			l = s.node("Comparison", "left", l, "operator", op, "right", r)
		}
		return l
	}},
	{fn: "evaluateLogicalAnd", cut: true, spec: func(s *pspec) Val { return s.logical("evaluateComparison", "&&") }},
	{fn: "evaluateLogicalOr", cut: true, spec: func(s *pspec) Val { return s.logical("evaluateLogicalAnd", "||") }},
	{fn: "evaluateExpression", spec: func(s *pspec) Val { return s.call("evaluateLogicalOr", s.ctx) }},
	{fn: "evaluateStatement", spec: func(s *pspec) Val {
		for _, k := range [][2]string{{"VAR_DEFINITION", "evaluateVarDefinition"}, {"FUNCTION_DEFINITION", "evaluateFunctionDefinition"}, {"RETURN", "evaluateReturn"}, {"IF", "evaluateIf"}, {"SWITCH", "evaluateSwitch"}, {"FOR", "evaluateFor"}, {"BREAK", "evaluateBreak"}, {"CONTINUE", "evaluateContinue"}, {"PRINT", "evaluatePrint"}, {"WRITE", "evaluateWrite"}, {"PANIC", "evaluatePanic"}} {
			if s.is(k[0]) {
				return s.call(k[1], s.ctx)
			}
		}
		if s.cond(s.u.shortInit(s.idx)) {
			return s.call("evaluateVarDefinition", s.ctx)
		}
		if s.is("IDENTIFIER") {
			switch {
			case s.isAt(1, "INCREMENT_OPERATOR", "DECREMENT_OPERATOR"):
				return s.call("evaluateIncrementDecrement", s.ctx)
			case s.isAt(1, "COMPOUND_ASSIGN_OPERATOR"):
				return s.call("evaluateCompoundAssignment", s.ctx)
			case s.isAt(1, "ASSIGN_OPERATOR", "COMMA"):
				return s.call("evaluateVarAssignment", s.ctx)
			}
			f := s.find(s.val(0))
			if s.cond(s.x.term(f[1])) && s.isSlice(s.field(f[0], "valueType")) {
				return s.call("evaluateSliceAssignment", s.ctx)
			}
		}
		return s.call("evaluateExpression", s.ctx)
	}},
	{fn: "evaluateArguments", label: "function", args: argsArgs(true), spec: specArguments},
	{fn: "evaluateArguments", label: "program", cut: true, args: argsArgs(false), spec: func(s *pspec) Val {
		s.expect("OPENING_ROUND_BRACKET")
		es := s.list()
		if !s.is("CLOSING_ROUND_BRACKET") {
			for {
				e := s.expr()
				s.want(!s.isSlice(s.vt(e)) && s.isSingle(s.vt(e)), "a single value")
				s.push(&es, e)
				if !s.is("COMMA") {
					break
				}
				s.eat()
				s.head(&es)
			}
		}
		s.expect("CLOSING_ROUND_BRACKET")
		return es
	}},
	{fn: "evaluateFunctionCall", prep: startsWith("IDENTIFIER"), spec: specFunctionCall},
	{fn: "evaluateAppCall", spec: func(s *pspec) Val {
		s.expect("AT")
		name := s.expect("IDENTIFIER", "STRING_LITERAL")
		args := s.call("evaluateArguments", s.ctx, nil, nil, &SliceV{})
		next := &PtrV{}
		if s.is("PIPE") {
			s.eat()
			n := s.call("evaluateAppCall", s.ctx)
			next = &PtrV{obj: s.x.newObj(s.dyn(n), "next call")}
		}
		return s.node("AppCall", "name", name, "args", args, "next", next)
	}},
	{fn: "evaluateSliceInstantiation", cut: true, spec: func(s *pspec) Val {
		t := s.call("evaluateValueType", nil)
		s.want(s.isSlice(t), "a slice type")
		s.expect("OPENING_CURLY_BRACKET")
		es := s.list()
		if !s.is("CLOSING_CURLY_BRACKET") {
			for {
				e := s.expr()
				s.want(s.eqType(s.vt(e), s.newType(s.u.dt(t), s.x.tt.fls)), "the type of the elements")
				s.push(&es, e)
				if !s.is("COMMA") {
					break
				}
				s.eat()
				s.head(&es)
			}
		}
		s.expect("CLOSING_CURLY_BRACKET")
		return s.node("SliceInstantiation", "dataType", s.u.dt(t), "values", es)
	}},
	{fn: "evaluateSubscript", prep: startsWith("IDENTIFIER"), spec: func(s *pspec) Val {
		v := s.call("evaluateVarEvaluation", s.ctx)
		t := s.vt(v)
		slice := s.isSlice(t)
		s.want(slice || s.isType(t, "STRING", false), "a slice or a string")
		s.expect("OPENING_SQUARE_BRACKET")
		var from, to Val
		rng := s.is("COLON")
		leading := rng
		if rng {
			s.eat()
			from = s.intLit(0)
		} else {
			from = s.expr()
			s.want(s.isType(s.vt(from), "INTEGER", false), "an integer")
			if rng = s.is("COLON"); rng {
				s.eat()
			}
		}
		s.want(!rng || !slice, "no range of a slice")
		minusOne := func(e Val) Val {
			return s.node("BinaryOperation", "left", e, "operator", s.str("-"), "right", s.intLit(1))
		}
		if !s.is("CLOSING_SQUARE_BRACKET") {
			s.want(rng && !(leading && s.is("COLON")), "colon or bracket")
			e := s.expr()
			s.want(s.isType(s.vt(e), "INTEGER", false), "an integer")
			to = minusOne(e)
		} else if rng {
			to = minusOne(s.node("Len", "expression", v))
		}
		s.expect("CLOSING_SQUARE_BRACKET")
		if slice {
			return s.node("SliceEvaluation", "value", v, "index", from, "dataType", s.u.dt(t))
		}
		if to == nil {
			to = &IfaceV{}
		}
		return s.node("StringSubscript", "value", v, "startIndex", from, "endIndex", to)
	}},
	{fn: "evaluateSliceAssignment", spec: func(s *pspec) Val {
		v := s.variable(s.expect("IDENTIFIER"))
		t := s.field(v, "valueType")
		s.want(s.isSlice(t), "a slice")
		s.expect("OPENING_SQUARE_BRACKET")
		i := s.expr()
		s.want(s.isType(s.vt(i), "INTEGER", false), "an integer")
		s.expect("CLOSING_SQUARE_BRACKET")
		s.expect("ASSIGN_OPERATOR")
		e := s.expr()
		s.want(s.eqType(s.vt(e), s.newType(s.u.dt(t), s.x.tt.fls)), "the type of the elements")
		return s.node("SliceAssignment", "Variable", v, "index", i, "value", e)
	}},
	{fn: "evaluateIncrementDecrement", spec: func(s *pspec) Val {
		v := s.variable(s.expect("IDENTIFIER"))
		s.want(s.isType(s.field(v, "valueType"), "INTEGER", false), "an integer")
		inc := s.is("INCREMENT_OPERATOR")
		s.expect("INCREMENT_OPERATOR", "DECREMENT_OPERATOR")
		return s.incDec(v, inc)
	}},
	{fn: "evaluateLen", cut: true, spec: func(s *pspec) Val {
		e := s.builtin("LEN", 1, 1)[0]
		s.want(s.isSlice(s.vt(e)) || s.isType(s.vt(e), "STRING", false), "a slice or a string")
		return s.node("Len", "expression", e)
	}},
	{fn: "evaluateInput", cut: true, spec: func(s *pspec) Val {
		es := s.builtin("INPUT", 0, 1)
		if len(es) == 0 {
			return s.node("Input")
		}
		s.want(s.isType(s.vt(es[0]), "STRING", false), "a string")
		return s.node("Input", "prompt", es[0])
	}},
	{fn: "evaluatePrint", cut: true, spec: func(s *pspec) Val {
		return s.node("Print", "expressions", s.arguments("PRINT"))
	}},
	{fn: "evaluatePanic", cut: true, spec: func(s *pspec) Val { return s.node("Panic", "expression", s.builtin("PANIC", 1, 1)[0]) }},
	{fn: "evaluateCopy", cut: true, spec: func(s *pspec) Val {
		es := s.builtin("COPY", 2, 2)
		s.want(s.isSlice(s.vt(es[0])) && s.isDyn(es[0], "VariableEvaluation"), "a slice variable")
		s.want(s.eqType(s.vt(es[0]), s.vt(es[1])), "the same type")
		return s.node("Copy", "destination", s.field(s.dyn(es[0]), "Variable"), "source", es[1])
	}},
	{fn: "evaluateItoa", cut: true, spec: func(s *pspec) Val {
		e := s.builtin("ITOA", 1, 1)[0]
		s.want(s.isType(s.vt(e), "INTEGER", false), "an integer")
		return s.node("Itoa", "value", e)
	}},
	{fn: "evaluateExists", cut: true, spec: func(s *pspec) Val {
		e := s.builtin("EXISTS", 1, 1)[0]
		s.want(s.isType(s.vt(e), "STRING", false), "a string")
		return s.node("Exists", "path", e)
	}},
	{fn: "evaluateRead", cut: true, spec: func(s *pspec) Val {
		e := s.builtin("READ", 1, 1)[0]
		s.want(s.isType(s.vt(e), "STRING", false), "a string")
		return s.node("Read", "path", e)
	}},
	{fn: "evaluateWrite", cut: true, spec: func(s *pspec) Val {
		es := s.builtin("WRITE", 2, 3)
		s.want(s.isType(s.vt(es[0]), "STRING", false), "a string")
		s.want(s.isType(s.vt(es[1]), "STRING", false), "a string")
		var app Val = s.boolLit(false)
		if len(es) > 2 {
			app = es[2]
			s.want(s.isType(s.vt(app), "BOOLEAN", false), "a boolean")
		}
		return s.node("Write", "path", es[0], "data", es[1], "append", app)
	}},
}

func noArgs(u *pUnit) []Val { return []Val{} }

func startsWith(t string) func(u *pUnit) {
	return func(u *pUnit) { u.x.assume(u.x.tt.Eq(u.tokType(u.tokAt(u.idx0)), u.tk(t))) }
}

// callback is an arbitrary callback of a block.
func (u *pUnit) callback() Val {
	if u.x.choose(2) == 0 {
		return &FuncV{isNil: true}
	}
	return &FuncV{native: func(x *X, args []Val) Val {
		u.cbs = append(u.cbs, args)
		if x.choose(2) == 0 {
			return &IfaceV{}
		}
		u.cbErr = true
		return u.errOf("callback")
	}}
}

func (u *pUnit) anyScope() Val { return u.x.tt.Var("scope", SStr) }

func blockArgs(u *pUnit) []Val {
	u.ctx = u.newCtx()
	return []Val{u.callback(), u.ctx, u.anyScope()}
}

func contentArgs(u *pUnit) []Val {
	u.ctx = u.newCtx()
	l := [][]string{{"EOF"}, {"CLOSING_CURLY_BRACKET"}, {"CASE", "DEFAULT", "CLOSING_CURLY_BRACKET"}}[u.x.choose(3)]
	u.stop = l
	es := []Val{}
	for _, t := range l {
		es = append(es, u.tk(t))
	}
	return []Val{u.x.mkSlice(es, "end"), u.callback(), u.ctx, u.anyScope()}
}

func argsArgs(fn bool) func(u *pUnit) []Val {
	return func(u *pUnit) []Val {
		u.ctx = u.newCtx()
		var ps Val = &SliceV{}
		if fn {
			es := []Val{}
			u.x.p.limits["at most 3 parameters"] = true
			for i := u.x.choose(4); i > 0; i-- {
				v := u.x.freshVal(u.typ("Variable"), "param").(*StructV)
				v.f[u.field(v.t, "valueType")] = u.newType("param.type", singles...)
				es = append(es, v)
			}
			ps = u.x.mkSlice(es, "params")
		}
		return []Val{u.x.tt.Var("what", SStr), u.x.tt.Var("name", SStr), ps, u.ctx}
	}
}

func forKind(rng bool) func(u *pUnit) {
	return func(u *pUnit) {
		x := u.x
		if x.branch(u.isRange()) != rng {
			panic(pathEnd{"other form"})
		}
	}
}

// isRange tells whether a for statement iterates over a range.
func (u *pUnit) isRange() *Term {
	x := u.x
	ty := func(k int64) *Term { return u.tokType(u.tokAt(x.tt.AddN(u.idx0, k))) }
	is := func(k int64, n string) *Term { return x.tt.Eq(ty(k), u.tk(n)) }
	three := u.before(x.tt.AddN(u.idx0, 1), u.tk("SEMICOLON"), []*Term{u.tk("NEWLINE")})
	return x.tt.And(is(1, "IDENTIFIER"), x.tt.Or(x.tt.And(is(2, "COMMA"), x.tt.Not(three)), x.tt.And(is(2, "SHORT_INIT_OPERATOR"), is(3, "RANGE"))))
}

// ---- parts of specifications

func (s *pspec) names() []*StructV {
	r := []*StructV{}
	for {
		t := s.tok(0)
		s.expect("IDENTIFIER")
		r = append(r, t)
		if !s.is("COMMA") {
			return r
		}
		s.eat()
	}
}

func (s *pspec) expr() Val { return s.call("evaluateExpression", s.ctx) }

func (s *pspec) block(c *pCtx, scope string) Val {
	return s.call("evaluateBlock", c, s.konst(scope))
}

func (s *pspec) tks(names ...string) Val {
	es := []Val{}
	for _, n := range names {
		es = append(es, s.u.tk(n))
	}
	return s.list(es...)
}

// values are the values on the right side, the call which returns several values and the types.
func (s *pspec) values() (es []Val, call Val, ts []Val) {
	v := s.call("evaluateValues", s.ctx)
	es = append([]Val{}, s.x.elems(s.field(v, "values"))...)
	if len(es) == 1 && s.u.isCall(es[0]) {
		rt := s.types(s.u.invoke(es[0], "ReturnTypes"))
		if len(rt) > 1 {
			return es, es[0], rt
		}
	}
	for _, e := range es {
		ts = append(ts, s.vt(e))
	}
	return es, nil, ts
}

func (s *pspec) types(v Val) []Val {
	q, ok := v.(*SymSeq)
	if !ok {
		return s.x.elems(v)
	}
	for n := 0; n <= 6; n++ {
		if s.x.branch(s.x.tt.Eq(q.n, s.x.tt.Int(int64(n)))) {
			r := []Val{}
			for i := 0; i < n; i++ {
				r = append(r, q.at(s.x, s.x.tt.Int(int64(i))))
			}
			return r
		}
	}
	s.x.p.limits["at most 6 results"] = true
	panic(pathEnd{"bound"})
}

func (s *pspec) find(name *Term) TupleV {
	return s.u.find("variables", s.ctxV, name, s.x.term(s.u.start["prefix"]))
}
func (s *pspec) known(name *Term) bool { return s.cond(s.x.term(s.find(name)[1])) }
func (s *pspec) variable(name *Term) Val {
	f := s.find(name)
	s.want(s.cond(s.x.term(f[1])), "a known variable")
	return f[0]
}
func (s *pspec) inScope(n string) bool {
	return s.cond(s.u.scopeQ("contains", s.ctx.scope, s.konst(n)))
}
func (s *pspec) oneOf(v *Term, l ...string) bool {
	alts := []*Term{}
	for _, k := range l {
		alts = append(alts, s.x.tt.Eq(v, s.str(k)))
	}
	return s.cond(s.x.tt.Or(alts...))
}
func (s *pspec) allowed(op *Term, t Val) bool {
	return s.isType(t, "INTEGER", false) && s.oneOf(op, "+", "-", "*", "/", "%") || s.isType(t, "STRING", false) && s.oneOf(op, "+")
}

// firstChar is the string of the first byte.
func (s *pspec) firstChar(v *Term) *Term {
	return s.x.term(s.x.convert(s.x.strIndex(v, s.x.tt.Int(0), nil), types.Typ[types.Uint8], types.Typ[types.String]))
}
func (s *pspec) assign(v, e Val) Val {
	return s.node("VariableAssignment", "variables", s.list(v), "values", s.list(e))
}
func (s *pspec) incDec(v Val, inc bool) Val {
	op := "-"
	if inc {
		op = "+"
	}
	return s.assign(v, s.node("BinaryOperation", "left", s.varEval(v), "operator", s.str(op), "right", s.intLit(1)))
}
func (s *pspec) isDyn(e Val, typ string) bool {
	return s.cond(s.x.term(s.x.typeAssert(e, s.u.typ(typ), true, nil).(TupleV)[1]))
}
func (s *pspec) dyn(e Val) Val {
	switch q := e.(type) {
	case *IfaceV:
		return q.v
	case *SymIface:
		if q.dyn != nil {
			return q.dynV
		}
	}
	return unsup("dynamic type of %s", describe(e))
}
func (s *pspec) skipNL() { s.idx = s.u.skipNL(s.idx) }

func (s *pspec) builtin(tok string, min, max int) []Val {
	l := s.arguments(tok)
	for n := min; n <= max; n++ {
		if s.cond(s.isLen(l, n)) {
			return s.first(l, n)
		}
	}
	s.reject("the number of arguments")
	return nil
}

// first are the elements of a list of a known length.
func (s *pspec) first(l Val, n int) []Val {
	q, ok := l.(*SymSeq)
	if !ok {
		return s.x.elems(l)
	}
	r := []Val{}
	for i := 0; i < n; i++ {
		r = append(r, q.at(s.x, s.x.tt.Int(int64(i))))
	}
	return r
}

func (s *pspec) push(l *Val, e Val) { *l = s.x.appendTo(*l, s.list(e), nil) }
func (s *pspec) isLen(l Val, n int) *Term {
	if q, ok := l.(*SymSeq); ok {
		return s.x.tt.Eq(q.n, s.x.tt.Int(int64(n)))
	}
	return s.x.tt.Bool(len(s.x.elems(l)) == n)
}

func (s *pspec) arguments(tok string) Val {
	s.expect(tok)
	s.expect("OPENING_ROUND_BRACKET")
	es := s.list()
	if !s.is("CLOSING_ROUND_BRACKET") {
		for {
			e := s.expr()
			s.push(&es, e)
			more := s.is("COMMA")
			several := tok == "PRINT" && s.cond(s.isLen(es, 1)) && !more && s.u.isCall(e) && s.cond(s.x.tt.Eq(s.u.dt(s.vt(e)), s.konst("DATA_TYPE_MULTIPLE")))
			s.want(several || s.isSingle(s.vt(e)), "a single value")
			if !more {
				break
			}
			s.eat()
			s.head(&es)
		}
	}
	s.expect("CLOSING_ROUND_BRACKET")
	return es
}

func (s *pspec) binary(next string, ops ...string) Val {
	l := s.call(next, s.ctx)
	for {
		s.head(&l)
		if !(s.is("BINARY_OPERATOR") && s.oneOf(s.val(0), ops...)) {
			break
		}
		op := s.eat()
		r := s.call(next, s.ctx)
		s.want(s.eqType(s.vt(l), s.vt(r)), "the same type")
		s.want(s.allowed(op, s.vt(l)), "an operator of the type")
		l = s.node("BinaryOperation", "left", l, "operator", op, "right", r)
	}
	return l
}

func (s *pspec) logical(next string, op string) Val {
	l := s.call(next, s.ctx)
	for {
		s.head(&l)
		if !(s.is("LOGICAL_OPERATOR") && s.oneOf(s.val(0), op)) {
			break
		}
		s.want(s.isType(s.vt(l), "BOOLEAN", false), "boolean values")
		o := s.eat()
		r := s.call(next, s.ctx)
		s.want(s.isType(s.vt(r), "BOOLEAN", false), "boolean values")
		l = s.node("LogicalOperation", "left", l, "operator", o, "right", r)
	}
	return l
}

func specContent(s *pspec) Val {
	u, x := s.u, s.x
	c := s.scoped(s.ctx, x.term(u.argv[3]))
	global := u.scopeQ("is", c.scope, s.konst("SCOPE_PROGRAM"))
	prefix := x.term(u.start["prefix"])
	var l Val = &SliceV{}
	cb := !u.argv[1].(*FuncV).isNil
	callback := func(last bool) {
		if !cb {
			return
		}
		if s.cbn < len(u.cbs) {
			a := u.cbs[s.cbn]
			if !s.eq(a[0], l) || !s.eq(a[1], x.tt.Bool(last)) {
				x.bad("callback", "the callback gets "+describe(a[0])+", "+describe(a[1])+"\nexpected "+describe(l))
			}
			x.good("callback")
			s.cbn++
			s.want(s.cbn < len(u.cbs) || !u.cbErr, "callback")
		} else if s.accept {
			x.bad("callback", "the callback is not called")
		}
	}
	for {
		s.head(&l, &c)
		if s.is(u.stop...) {
			callback(true)
			break
		}
		if s.is("NEWLINE") {
			s.eat()
			continue
		}
		st := s.call("evaluateStatement", c)
		switch {
		case s.isDyn(st, "VariableDefinition"), s.isDyn(st, "VariableDefinitionCallAssignment"):
			c = c.with("variables", mapOp{kind: "addall", prefix: prefix, global: global, v: s.field(s.dyn(st), "variables")})
		case s.isDyn(st, "FunctionDefinition"):
			c = c.with("functions", mapOp{kind: "add", prefix: prefix, global: global, v: s.dyn(st)})
		}
		l = x.appendTo(l, s.list(st), nil)
		callback(false)
		if s.is("NEWLINE") {
			s.eat()
		} else {
			s.want(s.is(u.stop...), "the end of the statement")
		}
	}
	if s.cbn < len(u.cbs) {
		x.bad("callback", "the callback is called too often")
	}
	return l
}

func specVarDefinition(s *pspec) Val {
	u, x := s.u, s.x
	short := s.cond(u.shortInit(s.idx))
	if !short {
		s.expect("VAR_DEFINITION")
	}
	ns := s.names()
	known := 0
	for i, n := range ns {
		for _, o := range ns[:i] {
			s.want(!s.cond(x.tt.Eq(u.tokValue(n), u.tokValue(o))), "different variables")
		}
		if s.known(u.tokValue(n)) {
			known++
			s.want(short, "new variables")
		}
	}
	s.want(known < len(ns), "a new variable")
	var t Val
	value := short
	if short {
		s.expect("SHORT_INIT_OPERATOR")
	} else {
		if s.is("DATA_TYPE", "OPENING_SQUARE_BRACKET") {
			t = s.call("evaluateValueType", nil)
		}
		if s.is("ASSIGN_OPERATOR") {
			s.eat()
			value = true
		}
		s.want(t != nil || value, "a type or a value")
	}
	var es, ts []Val
	var call Val
	if value {
		es, call, ts = s.values()
		s.want(len(ts) == len(ns), "as many values as variables")
	}
	global := u.scopeQ("is", s.ctx.scope, s.konst("SCOPE_PROGRAM"))
	isGlobal := s.cond(global)
	vs := []Val{}
	for i, n := range ns {
		name := u.tokValue(n)
		if s.known(name) {
			v := s.find(name)[0]
			s.want(s.eqType(s.field(v, "valueType"), ts[i]), "the same type")
			vs = append(vs, v)
			continue
		}
		stored := name
		if isGlobal {
			stored = u.uf("prefixed", SStr, x.term(u.start["prefix"]), name)
		}
		vt := t
		if value {
			vt = ts[i]
			s.want(t == nil || s.eqType(t, vt), "the stated type")
		}
		vs = append(vs, s.newVar(stored, vt, x.tt.Bool(isGlobal), u.uf("isPublic", SBool, name)))
	}
	if call != nil {
		return s.node("VariableDefinitionCallAssignment", "variables", s.list(vs...), "call", call)
	}
	if !value {
		for range ns {
			es = append(es, s.defaultOf(t))
		}
	}
	return s.node("VariableDefinition", "variables", s.list(vs...), "values", s.list(es...))
}

func (s *pspec) defaultOf(t Val) Val {
	switch {
	case s.isSlice(t):
		return s.node("SliceInstantiation", "dataType", s.u.dt(t))
	case s.isType(t, "BOOLEAN", false):
		return s.boolLit(false)
	case s.isType(t, "INTEGER", false):
		return s.intLit(0)
	}
	return s.node("StringLiteral", "value", s.str(""))
}

func specFunction(s *pspec) Val {
	u, x := s.u, s.x
	s.want(s.cond(u.scopeQ("is", s.ctx.scope, s.konst("SCOPE_PROGRAM"))), "top level")
	s.expect("FUNCTION_DEFINITION")
	name := s.expect("IDENTIFIER")
	f := u.find("functions", s.ctxV, name, x.term(u.start["prefix"]))
	s.want(!s.cond(x.term(f[1])), "a new function")
	c := s.ctx.with("variables", mapOp{kind: "filter"})
	var params Val = &SliceV{}
	if s.is("OPENING_ROUND_BRACKET") {
		s.eat()
		params = s.call("evaluateParams", c)
		s.expect("CLOSING_ROUND_BRACKET")
	}
	rts := []Val{}
	isType := func() bool { return s.is("DATA_TYPE", "OPENING_SQUARE_BRACKET") }
	if s.is("OPENING_ROUND_BRACKET") {
		s.eat()
		for {
			if isType() {
				rts = append(rts, s.call("evaluateValueType", nil))
			}
			if s.is("CLOSING_ROUND_BRACKET") {
				break
			}
			s.expect("COMMA")
		}
		s.eat()
	} else if isType() {
		rts = append(rts, s.call("evaluateValueType", nil))
	}
	for _, p := range x.elems(params) {
		c = c.with("variables", mapOp{kind: "add", prefix: x.term(u.start["prefix"]), global: x.tt.fls, v: p})
	}
	full := u.uf("prefixed", SStr, x.term(u.start["prefix"]), name)
	s.state["currFunc"], s.state["currReturnTypes"] = full, s.list(rts...)
	body := s.block(c, "SCOPE_FUNCTION")
	if len(rts) > 0 {
		s.want(s.cond(u.terminating(body)), "a result on each path")
	}
	s.effect["currFunc"], s.effect["currReturnTypes"] = s.str(""), &SliceV{}
	return s.node("FunctionDefinition", "name", full, "returnTypes", s.list(rts...), "params", params, "body", body, "public", u.uf("isPublic", SBool, name))
}

func specSwitch(s *pspec) Val {
	s.expect("SWITCH")
	var e Val
	if s.is("OPENING_CURLY_BRACKET") {
		e = s.boolLit(true)
	} else {
		e = s.expr()
	}
	t := s.vt(e)
	s.want(!s.isSlice(t) && s.isSingle(t), "a single value")
	s.expect("OPENING_CURLY_BRACKET")
	s.expect("NEWLINE")
	setup := []Val{}
	if !s.isDyn(e, "BooleanLiteral") && !s.isDyn(e, "IntegerLiteral") && !s.isDyn(e, "StringLiteral") {
		h := s.hidden(t)
		setup = append(setup, s.assign(h, e))
		e = s.varEval(h)
	}
	s.skipNL()
	// Without a case there is a branch which is never taken.
	fc, fb, rest := s.boolLit(false), Val(&SliceV{}), s.list()
	def := Val(&SliceV{})
	var mock, seen Val = s.x.tt.tru, s.x.tt.fls
	for {
		s.head(&fc, &fb, &rest, &def, &mock, &seen)
		if s.is("CLOSING_CURLY_BRACKET") {
			break
		}
		var k Val
		if s.is("CASE") {
			s.eat()
			k = s.expr()
			s.want(s.eqType(s.vt(k), t), "the same type")
		} else {
			s.expect("DEFAULT")
			s.want(!s.cond(s.x.term(seen)), "one default")
		}
		s.expect("COLON")
		b := s.call("evaluateBlockContent", s.ctx, s.tks("CASE", "DEFAULT", "CLOSING_CURLY_BRACKET"), s.konst("SCOPE_SWITCH"))
		if k == nil {
			def, seen = b, s.x.tt.tru
			continue
		}
		c := s.node("Comparison", "left", e, "operator", s.str("=="), "right", k)
		if s.cond(s.x.term(mock)) {
			fc, fb, mock = c, b, s.x.tt.fls
		} else {
			s.push(&rest, s.strct("IfBranch", "condition", c, "body", b))
		}
	}
	s.eat()
	first := s.strct("IfBranch", "condition", fc, "body", fb)
	return s.node("If", "setup", s.list(setup...), "isSwitch", s.x.tt.tru, "ifBranch", first, "elifBranches", rest, "elseBranch", s.strct("Else", "body", def))
}

func specForRange(s *pspec) Val {
	u, x := s.u, s.x
	s.expect("FOR")
	prefix := x.term(u.start["prefix"])
	i := s.expect("IDENTIFIER")
	s.want(!s.known(i), "a new variable")
	var v *Term
	if s.is("COMMA") {
		s.eat()
		v = s.expect("IDENTIFIER")
		s.want(!s.known(v), "a new variable")
		s.want(!s.cond(x.tt.Eq(i, v)), "different variables")
	}
	s.expect("SHORT_INIT_OPERATOR")
	s.expect("RANGE")
	e := s.expr()
	t := s.vt(e)
	integer := s.mkType("INTEGER", false)
	seq, length, index := s.hidden(t), s.hidden(integer), s.hidden(integer)
	elem := Val(nil)
	if s.isSlice(t) {
		elem = s.node("SliceEvaluation", "value", s.varEval(seq), "index", s.varEval(index), "dataType", u.dt(t))
	} else {
		s.want(s.isType(t, "STRING", false), "a slice or a string")
		elem = s.node("StringSubscript", "value", s.varEval(seq), "startIndex", s.varEval(index))
	}
	iv := s.newVar(i, integer, x.tt.fls, x.tt.fls)
	c := s.ctx.with("variables", mapOp{kind: "add", prefix: prefix, global: x.tt.fls, v: iv})
	head := []Val{s.assign(iv, s.varEval(index))}
	if v != nil {
		vv := s.newVar(v, s.newType(u.dt(t), x.tt.fls), x.tt.fls, x.tt.fls)
		c = c.with("variables", mapOp{kind: "add", prefix: prefix, global: x.tt.fls, v: vv})
		head = append(head, s.assign(vv, elem))
	}
	b := s.block(c, "SCOPE_FOR")
	return s.node("For",
		"setup", s.list(s.assign(seq, e), s.assign(length, s.node("Len", "expression", s.varEval(seq)))),
		"init", s.assign(index, s.intLit(0)),
		"condition", s.node("Comparison", "left", s.varEval(index), "operator", s.str("<"), "right", s.varEval(length)),
		"increment", s.incDec(index, true),
		"body", x.appendTo(s.list(head...), b, nil))
}

func specFor(s *pspec) Val {
	u, x := s.u, s.x
	s.expect("FOR")
	three := s.cond(u.before(s.idx, u.tk("SEMICOLON"), []*Term{u.tk("NEWLINE")}))
	prefix := x.term(u.start["prefix"])
	c := s.ctx
	var init, cond, inc Val = &IfaceV{}, s.boolLit(true), &IfaceV{}
	switch {
	case s.is("OPENING_CURLY_BRACKET"):
	case three:
		if !s.is("SEMICOLON") {
			init = s.call("evaluateStatement", c)
			switch {
			case s.isDyn(init, "VariableDefinition"), s.isDyn(init, "VariableDefinitionCallAssignment"):
				c = c.with("variables", mapOp{kind: "addall", prefix: prefix, global: x.tt.fls, v: s.field(s.dyn(init), "variables")})
			case s.isDyn(init, "VariableAssignment"), s.isDyn(init, "VariableAssignmentCallAssignment"):
			default:
				s.reject("an assignment or definition")
			}
		}
		s.expect("SEMICOLON")
		if !s.is("SEMICOLON") {
			cond = s.call("evaluateExpression", c)
		}
		s.expect("SEMICOLON")
		if !s.is("OPENING_CURLY_BRACKET") {
			inc = s.call("evaluateStatement", c)
			s.want(s.isDyn(inc, "VariableAssignment") || s.isDyn(inc, "VariableAssignmentCallAssignment"), "an assignment")
		}
	default:
		cond = s.expr()
	}
	s.want(s.isType(s.vt(cond), "BOOLEAN", false), "a boolean condition")
	return s.node("For", "init", init, "condition", cond, "increment", inc, "body", s.block(c, "SCOPE_FOR"))
}

func specArguments(s *pspec) Val {
	ps := s.x.elems(s.u.argv[2])
	s.expect("OPENING_ROUND_BRACKET")
	es := []Val{}
	for more := !s.is("CLOSING_ROUND_BRACKET"); more; {
		e := s.expr()
		es = append(es, e)
		s.want(len(es) <= len(ps), "not too many arguments")
		if len(es) == 1 && s.is("CLOSING_ROUND_BRACKET") && s.u.isCall(e) {
			if rt := s.types(s.u.invoke(e, "ReturnTypes")); len(rt) > 1 {
				s.want(len(rt) == len(ps), "as many values as parameters")
				for i, t := range rt {
					s.want(s.eqType(t, s.field(ps[i], "valueType")), "the type of the parameter")
				}
				s.eat()
				return s.list(es...)
			}
		}
		s.want(s.eqType(s.vt(e), s.field(ps[len(es)-1], "valueType")), "the type of the parameter")
		if more = s.is("COMMA"); more {
			s.eat()
		}
	}
	s.expect("CLOSING_ROUND_BRACKET")
	s.want(len(es) == len(ps), "as many arguments as parameters")
	return s.list(es...)
}

func specFunctionCall(s *pspec) Val {
	u, x := s.u, s.x
	prefix := x.term(u.start["prefix"])
	name := s.expect("IDENTIFIER")
	if s.is("DOT") {
		s.eat()
		prefix = name
		name = s.expect("IDENTIFIER")
	}
	f := u.find("functions", s.ctxV, name, prefix)
	s.want(s.cond(x.term(f[1])), "a known function")
	args := s.call("evaluateArguments", s.ctx, nil, nil, s.field(f[0], "params"))
	// The function is used by the current one.
	s.post = func() {
		m := u.pget("usedFuncs").(*MapV).m
		v, ok := x.mapGet(m, u.start["currFunc"])
		x.good("used")
		if !x.valid(x.term(ok)) || !s.contains(v, x.term(s.field(f[0], "name"))) {
			x.bad("used", "the call of the function is not recorded")
		}
	}
	return s.node("FunctionCall", "name", s.field(f[0], "name"), "arguments", args, "returnTypes", s.field(f[0], "returnTypes"))
}

func (s *pspec) contains(v Val, e *Term) bool {
	switch q := v.(type) {
	case *SliceV:
		for _, f := range s.x.elems(q) {
			if s.x.valid(s.x.tt.Eq(s.x.term(f), e)) {
				return true
			}
		}
	case *SymSeq:
		if b, ok := q.ghost["base"]; ok {
			return s.contains(b, e) || s.contains(q.ghost["added"], e)
		}
		return s.x.valid(s.x.tt.UF("contains "+q.name, SBool, e))
	}
	return false
}
