package main

import (
	"go/types"
	"sort"
	"strings"
)

// sigOf is the signature of a function of the parser, if there is one ("" otherwise).
func sigOf(pg *program, name string) string {
	q := func(p *types.Package) string { return p.Name() }
	str := func(s *types.Signature) string {
		return types.TypeString(types.NewSignatureType(nil, nil, nil, unnamed(s.Params()), unnamed(s.Results()), s.Variadic()), q)
	}
	if t, ok := strings.CutPrefix(name, "type "); ok {
		return structOf(pg, t)
	}
	recv, n, m := strings.Cut(name, ".")
	if !m {
		if f := pg.fn("parser", name); f != nil {
			return str(f.Signature)
		}
		return ""
	}
	t := pg.typ("parser", recv)
	if t == nil {
		return ""
	}
	if f := pg.method(t, n); f != nil {
		return str(f.Signature)
	}
	return ""
}

// structOf are the fields of a node.
func structOf(pg *program, name string) string {
	if t := pg.typ("parser", name); t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok {
			fs := []string{}
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, s.Field(i).Name())
			}
			sort.Strings(fs)
			return strings.Join(fs, " ")
		}
	}
	return ""
}

func unnamed(t *types.Tuple) *types.Tuple {
	vs := []*types.Var{}
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// missingContracts are the functions which are known by contract but which are not there (any more) as the contract
// expects them. Without them, the verifier looks at something else than what the specification speaks about.
func missingContracts(pg *program) []string {
	r := []string{}
	for n, s := range contractSigs {
		if sigOf(pg, n) != s {
			r = append(r, n)
		}
	}
	// A node which is not known here.
	if st, ok := pg.typ("parser", "Statement").(*types.Named); ok {
		for _, t := range pg.implementors(st, st.Underlying().(*types.Interface)) {
			n := t.(*types.Named).Obj()
			if _, ok := contractSigs["type "+n.Name()]; !ok && n.Pkg().Name() == "parser" && structOf(pg, n.Name()) != "" {
				r = append(r, "node "+n.Name())
			}
		}
	} else {
		r = append(r, "Statement")
	}
	sort.Strings(r)
	return r
}

var contractSigs = map[string]string{
	"Parser.enterNesting":                   "func() error",
	"Parser.evaluateAddition":               "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateAppCall":                "func(parser.context) (parser.Call, error)",
	"Parser.evaluateArguments":              "func(string, string, []parser.Variable, parser.context) ([]parser.Expression, error)",
	"Parser.evaluateBlock":                  "func(parser.blockCallback, parser.context, parser.scope) ([]parser.Statement, error)",
	"Parser.evaluateBlockContent":           "func([]lexer.TokenType, parser.blockCallback, parser.context, parser.scope) ([]parser.Statement, error)",
	"Parser.evaluateBreak":                  "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateComparison":             "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateCompoundAssignment":     "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateContinue":               "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateCopy":                   "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateExists":                 "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateExpression":             "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateFor":                    "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateFunctionCall":           "func(parser.context) (parser.Call, error)",
	"Parser.evaluateFunctionDefinition":     "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateIf":                     "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateIncrementDecrement":     "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateInput":                  "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateItoa":                   "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateLen":                    "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateLogicalAnd":             "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateLogicalOr":              "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateMultiplication":         "func(parser.context) (parser.Expression, error)",
	"Parser.evaluatePanic":                  "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateParams":                 "func(parser.context) ([]parser.Variable, error)",
	"Parser.evaluatePrint":                  "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateRead":                   "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateReturn":                 "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateSingleExpression":       "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateSliceAssignment":        "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateSliceInstantiation":     "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateStatement":              "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateSubscript":              "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateSwitch":                 "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateUnaryOperation":         "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateValueType":              "func() (parser.ValueType, error)",
	"Parser.evaluateValues":                 "func(parser.context) (parser.evaluatedValues, error)",
	"Parser.evaluateVarAssignment":          "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateVarDefinition":          "func(parser.context) (parser.Statement, error)",
	"Parser.evaluateVarEvaluation":          "func(parser.context) (parser.Expression, error)",
	"Parser.evaluateWrite":                  "func(parser.context) (parser.Expression, error)",
	"Parser.findBefore":                     "func(lexer.TokenType, ...lexer.TokenType) (lexer.Token, error)",
	"Parser.isShortVarInit":                 "func() bool",
	"Parser.newHiddenVariable":              "func(parser.ValueType) parser.Variable",
	"Parser.peek":                           "func() lexer.Token",
	"Parser.peekAt":                         "func(uint) lexer.Token",
	"Parser.skipNewlines":                   "func()",
	"buildPrefixedName":                     "func(string, string) string",
	"context.addFunctions":                  "func(string, bool, ...parser.FunctionDefinition) error",
	"context.addVariables":                  "func(string, bool, ...parser.Variable) error",
	"context.clone":                         "func() parser.context",
	"context.findFunction":                  "func(string, string) (parser.FunctionDefinition, bool)",
	"context.findScope":                     "func(parser.scope) bool",
	"context.findVariable":                  "func(string, string) (parser.Variable, bool)",
	"context.global":                        "func() bool",
	"isPublic":                              "func(string) bool",
	"isTerminating":                         "func([]parser.Statement) bool",
	"type AppCall":                          "args name next",
	"type BinaryOperation":                  "left operator right",
	"type BooleanLiteral":                   "value",
	"type Comparison":                       "left operator right",
	"type Copy":                             "destination source",
	"type Else":                             "body",
	"type Exists":                           "path",
	"type For":                              "body condition increment init setup",
	"type FunctionCall":                     "arguments name returnTypes",
	"type FunctionDefinition":               "body name params public returnTypes",
	"type Group":                            "child",
	"type If":                               "elifBranches elseBranch ifBranch isSwitch setup",
	"type IfBranch":                         "body condition",
	"type Input":                            "prompt",
	"type IntegerLiteral":                   "value",
	"type Itoa":                             "value",
	"type Len":                              "expression",
	"type LogicalOperation":                 "left operator right",
	"type Panic":                            "expression",
	"type Print":                            "expressions",
	"type Program":                          "body",
	"type Read":                             "path",
	"type Return":                           "values",
	"type SliceAssignment":                  "Variable index value",
	"type SliceEvaluation":                  "dataType index value",
	"type SliceInstantiation":               "dataType values",
	"type StringLiteral":                    "isNil value",
	"type StringSubscript":                  "endIndex startIndex value",
	"type UnaryOperation":                   "expr operator valueType",
	"type ValueType":                        "dataType isSlice",
	"type Variable":                         "global name public valueType",
	"type VariableAssignment":               "values variables",
	"type VariableAssignmentCallAssignment": "call variables",
	"type VariableDefinition":               "values variables",
	"type VariableDefinitionCallAssignment": "call variables",
	"type VariableEvaluation":               "Variable",
	"type Write":                            "append data path",
	"type evaluatedImport":                  "alias path",
	"type evaluatedValues":                  "values",
}
