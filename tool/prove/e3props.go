package main

import "strings"

// pProps tells which properties rest on the contract of which function of the parser.
var pProps = map[string]string{
	"evaluateVarNames":           "C01 C02 C07",
	"evaluateValueType":          "C06 C02 C03",
	"evaluateImport":             "C09",
	"evaluateValues":             "C06 C04",
	"evaluateBlock":              "C07 C01",
	"evaluateBlockContent":       "C07 C01 C02",
	"evaluateVarDefinition":      "C06 C07 C01 C02",
	"evaluateCompoundAssignment": "C06 C07 C01",
	"evaluateVarAssignment":      "C06 C07 C01 C02",
	"evaluateParams":             "C06 C07 C02",
	"evaluateFunctionDefinition": "C06 C07 C02",
	"evaluateReturn":             "C06 C07 C02",
	"evaluateBreak":              "C07 C01",
	"evaluateContinue":           "C07 C01",
	"evaluateIf":                 "C06 C07 C01",
	"evaluateSwitch":             "C06 C07 C01 C04",
	"evaluateFor":                "C06 C07 C01 C04",
	"evaluateVarEvaluation":      "C07 C01 C09",
	"evaluateSingleExpression":   "C06 C01",
	"evaluateUnaryOperation":     "C06 C01",
	"evaluateMultiplication":     "C06 C01",
	"evaluateAddition":           "C06 C01",
	"evaluateComparison":         "C06 C01",
	"evaluateLogicalAnd":         "C06 C01",
	"evaluateLogicalOr":          "C06 C01",
	"evaluateExpression":         "C06 C01",
	"evaluateStatement":          "C07 C01",
	"evaluateArguments":          "C06 C02 C18",
	"evaluateFunctionCall":       "C07 C06 C02 C09",
	"evaluateAppCall":            "C18",
	"evaluateSliceInstantiation": "C06 C03",
	"evaluateSubscript":          "C06 C03",
	"evaluateSliceAssignment":    "C06 C07 C03",
	"evaluateIncrementDecrement": "C06 C07 C01",
	"evaluateLen":                "C06 C03",
	"evaluateInput":              "C06",
	"evaluatePrint":              "C06 C01",
	"evaluatePanic":              "C06 C01",
	"evaluateCopy":               "C06 C03",
	"evaluateItoa":               "C06 C01",
	"evaluateExists":             "C06 C17",
	"evaluateRead":               "C06 C17",
	"evaluateWrite":              "C06 C17",
}

// e3Only are the properties which rest on the contracts of the parser but not on those of the converter.
var e3Only = map[string]bool{"C06": true, "C07": true, "C09": true, "C11": true, "C12": true, "C13": true, "C14": true, "C19": true}

// concerns tells whether an obligation belongs to a property.
func (d *pDef) concerns(id, ob string) bool {
	if i := strings.Index(ob, "@"); i >= 0 && strings.HasSuffix(ob, ".init") {
		return false // initialisation of the packages
	}
	if id == "E3" {
		return true
	}
	if id == "C10" && d.fn != "toTargetName" {
		// Names are known by what they refer to: what C07 says.
		return d.concerns("C07", ob)
	}
	if id == "C15" && d.fn != "toTargetName" {
		// The library is compiled like every other module.
		return d.concerns("C06", ob) || d.concerns("C07", ob) || d.concerns("C09", ob)
	}
	if d.pkg != "" && !strings.Contains(" "+d.props+" ", " "+id+" ") {
		return false
	}
	if id == "C13" {
		// No crash, progress, no empty error; all the paths are covered.
		return strings.Contains(ob, "safe") || strings.HasSuffix(ob, "progress") || strings.HasSuffix(ob, "error-text") || strings.HasSuffix(ob, "coverage") || strings.HasSuffix(ob, "frame")
	}
	for _, p := range strings.Fields(pProps[d.fn] + " " + d.props) {
		if p == id {
			return true
		}
	}
	return false
}

var cliAssumptions = []string{
	"main: os.Stat, os.SameFile, os.OpenFile (O_CREATE|O_EXCL: a new file or an error), File.WriteString, Close, os.Rename (complete or no effect), os.Remove (of an own file) have their documented meaning; the files are not changed by others meanwhile",
	"main: filepath.Base(p) ends with filepath.Ext(p) and has no separator; filepath.Dir(filepath.Join(d, name)) is Clean(d); equal paths are compared as terms, the file system by os.SameFile",
	"main: the results of Transpile for the same file and target are equal (contract of Transpile, C14); a panic which is not recovered ends the command with a non-zero status",
}

var libAssumptions = []string{
	"std/strings: read with Go's parser and executed with TypeShell's meaning (the parser's own contracts: C06, C07); the definitions of Go's functions in library.go are compared with package strings on all words over two letters up to length 5",
	"std/strings: strings are sequences of ASCII characters, integers are mathematical",
}

var lexAssumptions = []string{
	"lexer: regular expressions have the meaning of regexp/syntax (leftmost match, first alternative); the matcher covers anchored expressions, runs of one class, and the first occurrence of a literal",
	"lexer: strconv.UnquoteChar is an uninterpreted function of the text from a position on and of the quote: it fails, or gives a character and a position which is at least two bytes behind; strings.ReplaceAll (carriage returns) is not interpreted, its arguments are verified",
	"lexer: the end of a run of a class, the first occurrence of a literal and the number of newlines of a range are functions of the text which are known by their unfolding at a position",
	"lexer: positions are mathematical integers, only the text of errors is not specified (it is not empty)",
}

var e3Assumptions = []string{
	"parser: the tokens fulfil the lexer's contract (identifiers and compound assignment operators are not empty, the text of a boolean literal is true or false; these follow from the contract of Tokenize which C11 verifies)",
	"parser: each function is verified against the contracts of the functions it calls: the position behind the construct is arbitrary but not before the start, an expression has one of the parser's types, a failure is arbitrary (partial correctness: recursion ends because every callee starts at a later token or is a smaller construct, obligations progress)",
	"parser: strconv.Atoi, strconv.ParseInt, unicode.IsUpper, strings.TrimSpace, path/filepath, os and crypto/sha256 are uninterpreted functions of their arguments (the same question has the same answer); texts of errors are not empty if they contain a non-empty literal part",
	"parser: the callers know lookups in the context by their answer only (the same question has the same answer as long as the context is not modified) and compare additions as operations; the lookups and additions themselves are verified in units of their own",
	"parser: containsBreak (nested break statements) is an uninterpreted function of the statements in the unit of isTerminating; getUsedFuncs is partially correct (closure of the calls), its termination is not shown",
}
