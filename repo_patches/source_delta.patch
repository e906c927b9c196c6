From ce0823be4b282c6122ef4e16f53b2a31780cbda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 01/47] fix: lex true/false only as whole words

---
 lexer/lexer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 330a093..4bdd762 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -193,6 +193,8 @@ var keywords = map[string]TokenType{
 	"break":    BREAK,
 	"continue": CONTINUE,
 	"nil":      NIL_LITERAL,
+	"true":     BOOL_LITERAL,
+	"false":    BOOL_LITERAL,
 
 	// Builtin functions.
 	"len":    LEN,
@@ -298,10 +300,6 @@ func Tokenize(source string) ([]Token, error) {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^(true|false)`).FindString(source[i:]); match != "" {
-			// Create bool token.
-			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
-			i += len(match)
 		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
-- 
2.43.0


From 95f5eaa2b7be783194acf23e26cec068537b19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 02/47] fix: end block comments at their first terminator,
 reject unterminated ones

---
 lexer/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4bdd762..ece9fff 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -286,7 +286,7 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
-		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
+		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			match := matches[0]
@@ -296,6 +296,9 @@ func Tokenize(source string) ([]Token, error) {
 			ogColumn = startIndex
 			i += len(match)
 			ogI = i - len(lines[lastLinesIndex])
+		} else if strings.HasPrefix(source[i:], "/*") {
+			err = fmt.Errorf("comment at row %d, column %d has not been terminated", ogRow, ogColumn)
+			break
 		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-- 
2.43.0


From b8c3814aef46dcc6d76151d165774d0d7cc93d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 03/47] fix: keep non-ASCII bytes of string literals as they
 are

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index ece9fff..08edfaf 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -227,7 +227,7 @@ func char(s string, position int) string {
 	c := ""
 
 	if position < len(s) {
-		c = string(s[position])
+		c = s[position : position+1] // Slice to keep the byte as is (a string conversion would encode it as UTF-8 code point).
 	}
 	return c
 }
-- 
2.43.0


From 4b683508e24db6a0f2ffeddfb23fa1adbc514b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 04/47] fix: decode all Go escape sequences in string literals

---
 lexer/lexer.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 08edfaf..afe5f80 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -259,15 +259,20 @@ func Tokenize(source string) ([]Token, error) {
 				c0 = char(source, i)
 				appended := false
 
-				if match := regexp.MustCompile(`^\\.`).FindString(source[i:]); !raw && match != "" {
-					// Convert escaped character to be a control character (https://pkg.go.dev/strconv#Unquote).
-					parsed, err := strconv.Unquote(fmt.Sprintf(`"%s"`, match))
+				if !raw && c0 == `\` {
+					// Convert escape sequence to the character it stands for (https://pkg.go.dev/strconv#UnquoteChar).
+					parsed, multibyte, tail, err := strconv.UnquoteChar(source[i:], '"')
 
 					if err != nil {
-						return nil, fmt.Errorf(`invalid escape sequence "%s"`, match)
+						return nil, fmt.Errorf(`invalid escape sequence "%s" in string at row %d, column %d`, source[i:min(i+2, sourceLength)], ogRow, ogColumn)
 					}
-					str += parsed
-					i += len(match)
+
+					if multibyte {
+						str += string(parsed)
+					} else {
+						str += string([]byte{byte(parsed)})
+					}
+					i = sourceLength - len(tail)
 					appended = true
 				} else if (raw && c0 == "`") || (!raw && c0 == `"`) {
 					// Detected string end.
-- 
2.43.0


From cd35262ee089c01b5e222215616490556ab9ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 05/47] fix: correct rows and columns after multi-line strings
 and block comments

---
 lexer/lexer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index afe5f80..c2475ce 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -295,12 +295,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			match := matches[0]
-			lines := strings.Split(match, "\n")
-			lastLinesIndex := len(lines) - 1
-			row += lastLinesIndex
-			ogColumn = startIndex
 			i += len(match)
-			ogI = i - len(lines[lastLinesIndex])
 		} else if strings.HasPrefix(source[i:], "/*") {
 			err = fmt.Errorf("comment at row %d, column %d has not been terminated", ogRow, ogColumn)
 			break
@@ -356,6 +351,12 @@ func Tokenize(source string) ([]Token, error) {
 			column = startIndex
 		} else {
 			column = ogColumn + (i - ogI)
+
+			// Comments and strings might span several lines.
+			if lines := strings.Split(source[ogI:i], "\n"); len(lines) > 1 {
+				row += len(lines) - 1
+				column = startIndex + len(lines[len(lines)-1])
+			}
 		}
 
 		// If still no token has been found, exit with error.
-- 
2.43.0


From 2b8c35192021757bf8a81b1dc197019717ce9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 06/47] fix: lex minus after an operand as subtraction operator

---
 lexer/lexer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index c2475ce..e02f6f0 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -232,6 +232,23 @@ func char(s string, position int) string {
 	return c
 }
 
+// endsOperand returns true if the last token is the end of an operand. In that
+// case a following minus is the subtraction operator and not part of a number.
+func endsOperand(tokens []Token) bool {
+	if len(tokens) == 0 {
+		return false
+	}
+	return slices.Contains([]TokenType{
+		IDENTIFIER,
+		BOOL_LITERAL,
+		NUMBER_LITERAL,
+		STRING_LITERAL,
+		NIL_LITERAL,
+		CLOSING_ROUND_BRACKET,
+		CLOSING_SQUARE_BRACKET,
+	}, tokens[len(tokens)-1].tokenType)
+}
+
 func Tokenize(source string) ([]Token, error) {
 	var err error = nil
 	tokens := []Token{}
@@ -303,7 +320,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" && !(c0 == "-" && endsOperand(tokens)) {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From 8f6a4f5e83cf039b758df043773a8797abc60d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 07/47] fix: reject non-boolean right operands of logical
 operators

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 819565f..c0c7a7c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2306,11 +2306,16 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		}
 		p.eat() // Eat operator token.
 		operatorValue := operatorToken.Value()
+		rightToken := p.peek()
 		rightExpression, errTemp := higherPrioOperation(ctx)
 
 		if errTemp != nil {
 			return nil, errTemp
 		}
+
+		if !rightExpression.ValueType().IsBool() {
+			return nil, p.expectedError("boolean value", rightToken)
+		}
 		leftExpression = LogicalOperation{
 			left:     leftExpression,
 			operator: operatorValue,
-- 
2.43.0


From 48454c8020a7fa45a9d5ff1b2b7ccf8142aa2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 08/47] fix: check the type of write's content

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index c0c7a7c..a10fbe6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2916,7 +2916,7 @@ func (p *Parser) evaluateWrite(ctx context) (Expression, error) {
 		}
 		data := expressions[1]
 
-		if !path.ValueType().IsString() {
+		if !data.ValueType().IsString() {
 			return nil, p.expectedError("data string as second parameter", keywordToken)
 		}
 		var append Expression = BooleanLiteral{false}
-- 
2.43.0


From f8b593ddad6c86af7c58150f6a59d0e5c698cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 09/47] fix: reject slices as values of slice elements

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a10fbe6..f7243e0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2720,11 +2720,11 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 	if err != nil {
 		return nil, err
 	}
-	variableDataType := variableValueType.DataType()
-	assignedDataType := value.ValueType().DataType()
+	elementValueType := NewValueType(variableValueType.DataType(), false)
+	assignedValueType := value.ValueType()
 
-	if variableDataType != assignedDataType {
-		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", variableDataType, assignedDataType), valueToken)
+	if !elementValueType.Equals(assignedValueType) {
+		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", elementValueType.String(), assignedValueType.String()), valueToken)
 	}
 	return SliceAssignment{
 		Variable: variable,
-- 
2.43.0


From 6414b65d9b531f82255645c1fb0af7d8ed7312bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 10/47] fix: reject calls without or with several return values
 where one value is required

---
 parser/function.go |  9 ++++++---
 parser/parser.go   | 33 +++++++++++++++++++++++++++++++++
 parser/types.go    | 11 ++++++++++-
 3 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c330183..32db2ca 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -65,10 +65,13 @@ func (e FunctionCall) Args() []Expression {
 func functionValueType(returnTypes []ValueType) ValueType {
 	var valueType ValueType
 
-	if len(returnTypes) > 1 {
-		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
-	} else {
+	switch len(returnTypes) {
+	case 0:
+		valueType = NewValueType(DATA_TYPE_VOID, false)
+	case 1:
 		valueType = returnTypes[0]
+	default:
+		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
 	}
 	return valueType
 }
diff --git a/parser/parser.go b/parser/parser.go
index f7243e0..8c63a2f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -527,6 +527,18 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 				return evaluatedValues{}, p.expectedError(fmt.Sprintf(`return value from function "%s"`, funcName), exprToken)
 			}
 		}
+		_, isCall := expr.(Call)
+
+		// Only calls are allowed to return several values.
+		if !isCall && !expr.ValueType().IsSingleValue() {
+			return evaluatedValues{}, p.expectedError("single value", exprToken)
+		}
+
+		// If there are several values, each of them must be a single value.
+		if len(expressions) > 1 && !expr.ValueType().IsSingleValue() {
+			return evaluatedValues{}, p.expectedError("single value", exprToken)
+		}
+
 		// Check if other values follow.
 		if nextToken.Type() != lexer.COMMA {
 			break
@@ -536,6 +548,8 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 		// If other values follow, function must only return one value.
 		if returnValuesLength > 1 {
 			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
+		} else if !expr.ValueType().IsSingleValue() {
+			return evaluatedValues{}, p.expectedError("single value", exprToken)
 		}
 	}
 	return evaluatedValues{
@@ -561,6 +575,7 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 	// Evaluate arguments if it's a print call with arguments.
 	if nextToken.Type() != lexer.CLOSING_ROUND_BRACKET {
 		for {
+			exprToken := p.peek()
 			expr, err := p.evaluateExpression(ctx)
 
 			if err != nil {
@@ -569,6 +584,13 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 			expressions = append(expressions, expr)
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
+			_, isCall := expr.(Call)
+			valueType := expr.ValueType()
+
+			// Arguments must be single values, except for print which prints all the values of its only call argument.
+			if multiple := valueType.DataType() == DATA_TYPE_MULTIPLE && isCall; !valueType.IsSingleValue() && !(multiple && tokenType == lexer.PRINT && len(expressions) == 1 && nextTokenType != lexer.COMMA) {
+				return nil, p.expectedError(fmt.Sprintf("single value as %s argument", keyword), exprToken)
+			}
 
 			if nextTokenType == lexer.COMMA {
 				p.eat()
@@ -1631,6 +1653,8 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 
 	if switchExprValueType.IsSlice() {
 		return nil, p.atError("slices are not allowed in switch statements", exprToken)
+	} else if !switchExprValueType.IsSingleValue() {
+		return nil, p.expectedError("single value in switch statement", exprToken)
 	}
 	beginToken := p.eat()
 
@@ -2355,6 +2379,11 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 		}
 		args = append(args, expr)
 
+		// Arguments which are not checked against a parameter must at least be non-slice single values.
+		if valueType := expr.ValueType(); ignoreParams && (valueType.IsSlice() || !valueType.IsSingleValue()) {
+			return nil, p.expectedError(fmt.Sprintf("single non-slice value as %s argument", typeName), argToken)
+		}
+
 		if !ignoreParams {
 			argsLength := len(args)
 
@@ -2789,6 +2818,10 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 		if len(expressions) > 0 {
 			expr = expressions[0]
+
+			if !expr.ValueType().IsString() {
+				return nil, p.expectedError("prompt string", keywordToken)
+			}
 		}
 		return Input{
 			prompt: expr,
diff --git a/parser/types.go b/parser/types.go
index a38d93a..a8a62df 100644
--- a/parser/types.go
+++ b/parser/types.go
@@ -1,6 +1,9 @@
 package parser
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 type StatementType string
 type DataType string
@@ -54,6 +57,11 @@ func (vt ValueType) IsString() bool {
 	return vt.isNonSliceType(DATA_TYPE_STRING)
 }
 
+// IsSingleValue returns true if the type describes exactly one value (not none and not several ones).
+func (vt ValueType) IsSingleValue() bool {
+	return !slices.Contains([]DataType{DATA_TYPE_UNKNOWN, DATA_TYPE_MULTIPLE, DATA_TYPE_VOID}, vt.DataType())
+}
+
 func (vt ValueType) isNonSliceType(dataType DataType) bool {
 	return vt.DataType() == dataType && !vt.IsSlice()
 }
@@ -102,6 +110,7 @@ const (
 const (
 	DATA_TYPE_UNKNOWN  DataType = "unknown"
 	DATA_TYPE_MULTIPLE DataType = "multiple"
+	DATA_TYPE_VOID     DataType = "void"
 	DATA_TYPE_BOOLEAN  DataType = "bool"
 	DATA_TYPE_INTEGER  DataType = "int"
 	DATA_TYPE_STRING   DataType = "string"
-- 
2.43.0


From 7c35403b6c5137bcc249d7d0eefe4c078655e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 11/47] fix: check every return statement against the
 function's return types, accept bare returns

---
 parser/literals.go       |   1 +
 parser/parser.go         | 125 ++++++++++++++++++++++++++-------------
 transpiler/transpiler.go |  21 +++++--
 3 files changed, 102 insertions(+), 45 deletions(-)

diff --git a/parser/literals.go b/parser/literals.go
index 8171ee3..f3eebdc 100644
--- a/parser/literals.go
+++ b/parser/literals.go
@@ -34,6 +34,7 @@ func (l IntegerLiteral) Value() int {
 
 type StringLiteral struct {
 	value string
+	isNil bool
 }
 
 func (l StringLiteral) StatementType() StatementType {
diff --git a/parser/parser.go b/parser/parser.go
index 8c63a2f..67854a6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -180,15 +180,29 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 	return multi, call
 }
 
+// valueTypes returns the types of all the values, including the ones of a multi-return call.
+func (ev evaluatedValues) valueTypes() []ValueType {
+	if multi, call := ev.isMultiReturnCall(); multi {
+		return call.ReturnTypes()
+	}
+	valueTypes := []ValueType{}
+
+	for _, value := range ev.values {
+		valueTypes = append(valueTypes, value.ValueType())
+	}
+	return valueTypes
+}
+
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
-	tokens    []lexer.Token
-	index     int
-	path      string
-	prefix    string
-	currFunc  string
-	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	tokens          []lexer.Token
+	index           int
+	path            string
+	prefix          string
+	currFunc        string
+	currReturnTypes []ValueType         // Stores the return types of the current function.
+	usedFuncs       map[string][]string // Stores which function (key) calls which functions (values).
 }
 
 func New() Parser {
@@ -1453,45 +1467,22 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 	// Make sure sub-statements know in which function they are currently in.
 	p.currFunc = prefixedName
 
-	statements, err := p.evaluateBlock(func(statements []Statement, last bool) error {
-		var errTemp error
-		var lastStatement Statement
-		length := len(statements)
-
-		if length > 0 {
-			lastStatement = statements[length-1]
-		}
-
-		if len(returnTypes) > 0 {
-			// If a return value is required, the last statement must be a return statement.
-			if last {
-				// TODO: Add token position to errors to raise clearer error messages.
-				if lastStatement == nil || lastStatement.StatementType() != STATEMENT_TYPE_RETURN {
-					errTemp = fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
-				} else if returnStatement := lastStatement.(Return); len(returnStatement.Values()) != len(returnTypes) {
-					errTemp = fmt.Errorf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(returnStatement.Values()))
-				} else {
-					for i, returnValue := range returnStatement.Values() {
-						returnType := returnTypes[i]
-						returnValueType := returnValue.ValueType()
+	p.currReturnTypes = returnTypes
 
-						if !returnValueType.Equals(returnType) {
-							errTemp = fmt.Errorf(`function "%s" returns %s but expects %s`, name, returnValueType.String(), returnType.String())
-							break
-						}
-					}
-				}
-			}
-		} else if lastStatement != nil && lastStatement.StatementType() == STATEMENT_TYPE_RETURN {
-			errTemp = fmt.Errorf("function %s must not have a return statement", name)
+	statements, err := p.evaluateBlock(func(statements []Statement, last bool) error {
+		// If a return value is required, the function must not fall off its end.
+		// TODO: Add token position to errors to raise clearer error messages.
+		if last && len(returnTypes) > 0 && !isTerminating(statements) {
+			return fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
 		}
-		return errTemp
+		return nil
 	}, ctx, SCOPE_FUNCTION)
 
 	if err != nil {
 		return nil, err
 	}
 	p.currFunc = ""
+	p.currReturnTypes = nil
 
 	return FunctionDefinition{
 		name:        prefixedName,
@@ -1511,16 +1502,68 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 	if returnToken.Type() != lexer.RETURN {
 		return nil, p.expectedKeywordError("return", returnToken)
 	}
-	evaluatedVals, err := p.evaluateValues(ctx)
+	evaluatedVals := evaluatedValues{}
 
-	if err != nil {
-		return nil, err
+	// A return statement without values ends at the end of the line or the block.
+	if !slices.Contains([]lexer.TokenType{lexer.NEWLINE, lexer.CLOSING_CURLY_BRACKET, lexer.EOF}, p.peek().Type()) {
+		var err error
+		evaluatedVals, err = p.evaluateValues(ctx)
+
+		if err != nil {
+			return nil, err
+		}
+	}
+	valueTypes := evaluatedVals.valueTypes()
+	returnTypes := p.currReturnTypes
+
+	if len(valueTypes) != len(returnTypes) {
+		return nil, p.atError(fmt.Sprintf(`function "%s" requires %d return values but returns %d`, p.currFunc, len(returnTypes), len(valueTypes)), returnToken)
+	}
+
+	for i, valueType := range valueTypes {
+		// nil is also allowed as slice return value which is an empty slice then.
+		if len(evaluatedVals.values) == len(returnTypes) && returnTypes[i].IsSlice() {
+			if literal, isLiteral := evaluatedVals.values[i].(StringLiteral); isLiteral && literal.isNil {
+				evaluatedVals.values[i] = SliceInstantiation{dataType: returnTypes[i].DataType()}
+				continue
+			}
+		}
+
+		if !valueType.Equals(returnTypes[i]) {
+			return nil, p.atError(fmt.Sprintf(`function "%s" returns %s but expects %s`, p.currFunc, valueType.String(), returnTypes[i].String()), returnToken)
+		}
 	}
 	return Return{
 		values: evaluatedVals.values,
 	}, nil
 }
 
+// isTerminating returns true if the end of the statement list cannot be reached (see https://go.dev/ref/spec#Terminating_statements).
+func isTerminating(statements []Statement) bool {
+	if len(statements) == 0 {
+		return false
+	}
+
+	switch lastStatement := statements[len(statements)-1].(type) {
+	case Return, Panic:
+		return true
+	case If:
+		for _, branch := range lastStatement.ElseIfBranches() {
+			if !isTerminating(branch.Body()) {
+				return false
+			}
+		}
+		// The first branch of a switch without cases is never entered.
+		if condition, isLiteral := lastStatement.IfBranch().Condition().(BooleanLiteral); !isLiteral || condition.Value() {
+			if !isTerminating(lastStatement.IfBranch().Body()) {
+				return false
+			}
+		}
+		return isTerminating(lastStatement.Else().Body())
+	}
+	return false
+}
+
 func (p *Parser) evaluateBreak(ctx context) (Statement, error) {
 	breakToken := p.eat()
 	breakScopes := []scope{SCOPE_FOR, SCOPE_SWITCH}
@@ -2022,7 +2065,7 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 		}
 	case lexer.NIL_LITERAL:
 		p.eat()                // Eat string token.
-		expr = StringLiteral{} // nil is an empty string literal.
+		expr = StringLiteral{isNil: true} // nil is an empty string literal.
 	case lexer.STRING_LITERAL:
 		p.eat() // Eat string token.
 		expr = StringLiteral{
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 6787bb6..01f2831 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -556,10 +556,23 @@ func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
 		if err != nil {
 			return err
 		}
-		returnValues = append(returnValues, ReturnValue{
-			value:     result.firstValue(),
-			valueType: expr.ValueType(),
-		})
+		valueTypes := []parser.ValueType{expr.ValueType()}
+
+		// The values of a multi-return call are returned as they are.
+		if call, isCall := expr.(parser.Call); isCall {
+			valueTypes = call.ReturnTypes()
+		}
+
+		if len(valueTypes) != len(result.values) {
+			return fmt.Errorf("require %d return values but got %d", len(valueTypes), len(result.values))
+		}
+
+		for i, value := range result.values {
+			returnValues = append(returnValues, ReturnValue{
+				value:     value,
+				valueType: valueTypes[i],
+			})
+		}
 	}
 	return t.converter.Return(returnValues)
 }
-- 
2.43.0


From 244e1421070a60d6ce0fa19b45c84b0a950f1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 12/47] fix: accept a multi-return call as the arguments of a
 call

---
 parser/parser.go         | 20 +++++++++++++++++++-
 transpiler/transpiler.go |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 67854a6..1cdd7e8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2407,6 +2407,7 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 	if !ignoreParams {
 		paramsLength = len(params)
 	}
+	argsProvided := false // If all parameters are provided by a multi-return call.
 	argsLengthError := func(amount int) error {
 		return fmt.Errorf("%s %s expects %d parameters but got %d", typeName, name, paramsLength, amount)
 	}
@@ -2435,6 +2436,23 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 				return nil, argsLengthError(argsLength)
 			}
 
+			// A multi-return call as only argument provides all the parameters.
+			if multi, call := (evaluatedValues{args}).isMultiReturnCall(); multi && p.peek().Type() == lexer.CLOSING_ROUND_BRACKET {
+				returnTypes := call.ReturnTypes()
+
+				if len(returnTypes) != paramsLength {
+					return nil, argsLengthError(len(returnTypes))
+				}
+
+				for i, returnType := range returnTypes {
+					if paramType := params[i].ValueType(); !paramType.Equals(returnType) {
+						return nil, p.expectedError(fmt.Sprintf("parameter %s (%s) but got %s", paramType.String(), params[i].Name(), returnType.String()), argToken)
+					}
+				}
+				argsProvided = true
+				break
+			}
+
 			// Make sure argument type fits parameter type.
 			lastArgsIndex := argsLength - 1
 			param := params[lastArgsIndex]
@@ -2457,7 +2475,7 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 	}
 
 	// Check for the appropriate arguments amount.
-	if !ignoreParams {
+	if !ignoreParams && !argsProvided {
 		argsLength := len(args)
 
 		if len(args) != paramsLength {
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 01f2831..c7717f2 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -608,7 +608,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		if err != nil {
 			return expressionResult{}, err
 		}
-		args = append(args, result.firstValue())
+		args = append(args, result.values...) // A multi-return call provides several arguments.
 	}
 	returnTypes := functionCall.ReturnTypes()
 	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
-- 
2.43.0


From 3d8516b3498ff31b8f2cf64e3ac65bb0d01b4df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 13/47] fix: keep type and identity of existing variables in
 definitions, reject variables listed twice

---
 parser/parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1cdd7e8..db45dba 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1048,6 +1048,15 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 			return nil, err
 		}
 	}
+
+	// Each variable must only be listed once.
+	for i, nameToken := range nameTokens {
+		for _, otherToken := range nameTokens[:i] {
+			if otherToken.Value() == nameToken.Value() {
+				return nil, p.atError(fmt.Sprintf("variable %s is listed several times", nameToken.Value()), nameToken)
+			}
+		}
+	}
 	specifiedType := NewValueType(DATA_TYPE_UNKNOWN, false)
 
 	if isShortVarInit {
@@ -1095,6 +1104,12 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		if exists && specifiedType.DataType() != DATA_TYPE_UNKNOWN && !specifiedType.Equals(variableValueType) {
 			return nil, p.atError(fmt.Sprintf(`variable "%s" already exists but has type %s`, name, variableValueType.String()), nextToken)
 		}
+
+		// Variables which already exist just get a new value.
+		if exists {
+			variables = append(variables, variable)
+			continue
+		}
 		storedName := name
 
 		if global {
-- 
2.43.0


From 88b200a0a4b2049f779d9b784da0f92e1b97c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 14/47] fix: require a value after the assignment operator of a
 variable definition

---
 parser/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index db45dba..a6e68f6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1058,6 +1058,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		}
 	}
 	specifiedType := NewValueType(DATA_TYPE_UNKNOWN, false)
+	valueExpected := isShortVarInit
 
 	if isShortVarInit {
 		nextToken := p.eat() // Eat short init operator.
@@ -1086,10 +1087,10 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 			return nil, p.expectedError("data type or value assignment", nextToken)
 		} else if nextTokenType == lexer.ASSIGN_OPERATOR {
 			p.eat()
+			valueExpected = true
 		}
 	}
 	nextToken := p.peek()
-	nextTokenType := nextToken.Type()
 	variables := []Variable{}
 
 	// Fill variables slice (might not contain the final type after this step).
@@ -1119,8 +1120,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 	}
 	values := []Expression{}
 
-	// TODO: Improve check (avoid NEWLINE and EOF check).
-	if nextTokenType != lexer.NEWLINE && nextTokenType != lexer.EOF {
+	if valueExpected {
 		evaluatedVals, err := p.evaluateValues(ctx)
 
 		if err != nil {
-- 
2.43.0


From e3254256bbc4abad41ec7a5e03bd4c31b1b928c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 15/47] fix: assign to the variable that has been defined
 (global or local)

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a6e68f6..070f0b7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1330,7 +1330,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		if valueType != expectedValueType {
 			return nil, p.expectedError(fmt.Sprintf("%s but got %s", expectedValueType.String(), valueType.String()), valuesToken)
 		}
-		variables = append(variables, NewVariable(name, valueType, ctx.global(), isPublic(name)))
+		variables = append(variables, definedVariable)
 	}
 
 	if isMultiReturnFuncCall {
-- 
2.43.0


From 043ab291f4ff85d1bfb7cc4804b0b1d34711ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 16/47] fix: reject duplicate parameters and range variables

---
 parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 070f0b7..99bdd96 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1367,6 +1367,12 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
 		}
+
+		for _, param := range params {
+			if param.Name() == name {
+				return params, p.atError(fmt.Sprintf("parameter %s has already been defined", name), nameToken)
+			}
+		}
 		valueType, err := p.evaluateValueType()
 
 		if err != nil {
@@ -1841,6 +1847,10 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 				return nil, err
 			}
 			valueVarName = nextToken.Value()
+
+			if valueVarName == indexVarName {
+				return nil, p.atError(fmt.Sprintf("variable %s has already been defined", valueVarName), nextToken)
+			}
 		}
 		nextToken = p.eat()
 		hasNamedVar := len(valueVarName) > 0
-- 
2.43.0


From 724d8fab44d83507d6ee0fcea6617fe71ffc8183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 17/47] fix: find global variables of imported files in inner
 scopes

---
 parser/parser.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 99bdd96..9ef606f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -126,8 +126,12 @@ func (c context) findImport(alias string) (string, bool) {
 	return hash, exists
 }
 
-func (c context) findVariable(name string, prefix string, global bool) (Variable, bool) {
-	prefixedName, err := c.buildPrefixedName(name, prefix, global, true)
+func (c context) findVariable(name string, prefix string) (Variable, bool) {
+	// Variables of inner scopes are stored by their plain name.
+	if variable, exists := c.variables[strings.TrimSpace(name)]; exists {
+		return variable, true
+	}
+	prefixedName, err := c.buildPrefixedName(name, prefix, true, true)
 
 	if err != nil {
 		return Variable{}, false
@@ -445,7 +449,7 @@ func (p *Parser) isShortVarInit() bool {
 
 func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error {
 	name := token.Value()
-	_, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	_, exists := ctx.findVariable(name, p.prefix)
 
 	if exists {
 		return p.atError(fmt.Sprintf("variable %s has already been defined", name), token)
@@ -1098,7 +1102,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		prefix := p.prefix
 		global := ctx.global()
 		name := nameToken.Value()
-		variable, exists := ctx.findVariable(name, prefix, global)
+		variable, exists := ctx.findVariable(name, prefix)
 		variableValueType := variable.ValueType()
 
 		// If the variable already exists, make sure it has the same type as the specified type.
@@ -1248,7 +1252,7 @@ func (p *Parser) evaluateCompoundAssignment(ctx context) (Statement, error) {
 	name := nameToken.Value()
 
 	// Make sure variable has been defined.
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1319,7 +1323,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		name := nameToken.Value()
 
 		// Make sure variable has been defined.
-		definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+		definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 		if !exists {
 			return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1362,7 +1366,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		p.eat()
 
 		name := nameToken.Value()
-		_, exists := ctx.findVariable(name, p.prefix, false)
+		_, exists := ctx.findVariable(name, p.prefix)
 
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
@@ -2046,7 +2050,7 @@ func (p *Parser) evaluateVarEvaluation(ctx context) (Expression, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
@@ -2277,7 +2281,7 @@ func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 					stmt, err = p.evaluateVarAssignment(ctx)
 				default:
 					// Handle slice assignment.
-					variable, exists := ctx.findVariable(token.Value(), p.prefix, ctx.global())
+					variable, exists := ctx.findVariable(token.Value(), p.prefix)
 
 					// If variable has been defined and is a slice, handles slice assignment.
 					if exists && variable.ValueType().IsSlice() {
@@ -2793,7 +2797,7 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 		return nil, p.expectedError("slice variable", nameToken)
 	}
 	name := nameToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -2855,7 +2859,7 @@ func (p *Parser) evaluateIncrementDecrement(ctx context) (Statement, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
-- 
2.43.0


From 5e697fc0e686ec645704322a68ce21126383d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 18/47] fix: separate user-defined names from the names of the
 converters and shells

---
 transpiler/transpiler.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index c7717f2..d2d2046 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -3,6 +3,7 @@ package transpiler
 import (
 	"fmt"
 	"strconv"
+	"unicode"
 
 	"github.com/monstermichl/typeshell/parser"
 )
@@ -39,6 +40,25 @@ func BoolToString(b bool) string {
 	return "0"
 }
 
+// toTargetName converts the name of a variable or a function to the name which
+// is used in the target script. The prefix separates it from the names used by
+// the converters and the shells, the encoding of upper-case letters makes sure
+// that names which only differ in case stay different on case-insensitive targets.
+func toTargetName(name string) string {
+	targetName := "v_"
+
+	for _, r := range name {
+		if r == '_' {
+			targetName += "__"
+		} else if lower := unicode.ToLower(r); lower != r {
+			targetName += "_" + string(lower)
+		} else {
+			targetName += string(r)
+		}
+	}
+	return targetName
+}
+
 func IntToString(i int) string {
 	return strconv.Itoa(i)
 }
@@ -372,7 +392,7 @@ func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition)
 		if err != nil {
 			return err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		err = t.converter.VarDefinition(toTargetName(variable.Name()), result.firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -397,7 +417,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(toTargetName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -413,7 +433,7 @@ func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment)
 		if err != nil {
 			return err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		err = t.converter.VarDefinition(toTargetName(variable.Name()), result.firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -438,7 +458,7 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(toTargetName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -465,11 +485,11 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(assignment.Name(), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(toTargetName(assignment.Name()), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
-	s, err := t.converter.VarEvaluation(evaluation.Name(), valueUsed, evaluation.Global())
+	s, err := t.converter.VarEvaluation(toTargetName(evaluation.Name()), valueUsed, evaluation.Global())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -582,10 +602,10 @@ func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.Functi
 	params := []string{}
 
 	for _, param := range functionDefinition.Params() {
-		params = append(params, param.Name())
+		params = append(params, toTargetName(param.Name()))
 	}
 	conv := t.converter
-	err := conv.FuncStart(name, params, functionDefinition.ReturnTypes())
+	err := conv.FuncStart(toTargetName(name), params, functionDefinition.ReturnTypes())
 
 	if err != nil {
 		return err
@@ -611,7 +631,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		args = append(args, result.values...) // A multi-return call provides several arguments.
 	}
 	returnTypes := functionCall.ReturnTypes()
-	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
+	values, err := t.converter.FuncCall(toTargetName(name), args, returnTypes, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -701,7 +721,7 @@ func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionR
 		return expressionResult{}, err
 	}
 	destination := copy.Destination()
-	amount, err := t.converter.Copy(destination.Name(), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(toTargetName(destination.Name()), expr.firstValue(), valueUsed, destination.Global())
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From 4057fbc381ae4e29311d4f771bb2162e7482a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 19/47] fix: evaluate comparisons left-associative

---
 parser/parser.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9ef606f..b15109c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2356,12 +2356,16 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
-	operatorToken := p.peek()
-	operator := operatorToken.Value()
+	// To implement associativity, use for-loop and keep appending comparisons.
+	for {
+		operatorToken := p.peek()
+		operator := operatorToken.Value()
 
-	if operatorToken.Type() == lexer.COMPARE_OPERATOR {
+		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
+			break
+		}
 		p.eat() // Eat operator token.
-		rightExpression, err := p.evaluateComparison(ctx)
+		rightExpression, err := p.evaluateAddition(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2377,7 +2381,7 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if !slices.Contains(allowedOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		return NewComparison(leftExpression, operator, rightExpression), nil
+		leftExpression = NewComparison(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
-- 
2.43.0


From 905fb8d355ee98996c6608460221e13e546224d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 20/47] fix: accept repeated negations

---
 parser/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b15109c..738151b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2194,7 +2194,15 @@ func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 		}
 	}
 	valueToken := p.peek()
-	expr, err := p.evaluateSingleExpression(ctx)
+	var expr Expression
+	var err error
+
+	// Negations might be repeated (e.g. !!b).
+	if negate {
+		expr, err = p.evaluateUnaryOperation(ctx)
+	} else {
+		expr, err = p.evaluateSingleExpression(ctx)
+	}
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 436f51718171cdc3be2e874aba8377f23008c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 21/47] fix: accept blank lines in switches and import groups
 and imports at the end of the file

---
 parser/parser.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 738151b..8ef560f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -440,6 +440,12 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+func (p *Parser) skipNewlines() {
+	for p.peek().Type() == lexer.NEWLINE {
+		p.eat()
+	}
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -670,14 +676,8 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	var nextToken lexer.Token
 	statementsTemp := []Statement{}
 
-	// Skip empty characters.
-	for {
-		nextToken = p.peek()
-		if !slices.Contains([]lexer.TokenType{lexer.NEWLINE}, nextToken.Type()) {
-			break
-		}
-		p.eat()
-	}
+	p.skipNewlines()
+	nextToken = p.peek()
 
 	if nextToken.Type() == lexer.IMPORT {
 		p.eat()
@@ -691,6 +691,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if nextToken.Type() != lexer.NEWLINE {
 				return nil, p.expectedNewlineError(nextToken)
 			}
+			p.skipNewlines()
 		}
 
 		for {
@@ -761,12 +762,14 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				}
 			}
 
+			if !multiple {
+				break
+			}
+			p.skipNewlines()
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
 
-			if !multiple {
-				break
-			} else if nextTokenType == lexer.CLOSING_ROUND_BRACKET {
+			if nextTokenType == lexer.CLOSING_ROUND_BRACKET {
 				p.eat()
 				break
 			} else if slices.Contains([]lexer.TokenType{lexer.IDENTIFIER, lexer.STRING_LITERAL}, nextTokenType) {
@@ -823,9 +826,14 @@ func (p *Parser) evaluateImport() (evaluatedImport, error) {
 		return evaluatedImport{}, p.expectedError("import path", nextToken)
 	}
 	path := nextToken.Value()
-	nextToken = p.eat()
+	nextToken = p.peek()
 
-	if !slices.Contains([]lexer.TokenType{lexer.NEWLINE, lexer.EOF}, nextToken.Type()) {
+	switch nextToken.Type() {
+	case lexer.NEWLINE:
+		p.eat()
+	case lexer.EOF:
+		// Leave end-of-file token as it terminates the program.
+	default:
 		return evaluatedImport{}, p.expectedError("newline or end-of-file", nextToken)
 	}
 	return evaluatedImport{
@@ -1741,6 +1749,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		},
 	}
 	useMock := true
+	p.skipNewlines()
 	nextToken = p.peek()
 	defaultSet := false
 
@@ -2093,7 +2102,7 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 			value: integer,
 		}
 	case lexer.NIL_LITERAL:
-		p.eat()                // Eat string token.
+		p.eat()                           // Eat string token.
 		expr = StringLiteral{isNil: true} // nil is an empty string literal.
 	case lexer.STRING_LITERAL:
 		p.eat() // Eat string token.
-- 
2.43.0


From 163cc3301909f02d0169dfb0aa81fff15e2b5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 22/47] fix: evaluate range expressions only once and
 independent of changes made by the body

---
 parser/for.go            |  6 ++++
 parser/parser.go         | 62 +++++++++++++++++++++++++++++-----------
 transpiler/transpiler.go |  8 ++++++
 3 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/parser/for.go b/parser/for.go
index f47736b..bbfaa47 100644
--- a/parser/for.go
+++ b/parser/for.go
@@ -1,6 +1,7 @@
 package parser
 
 type For struct {
+	setup     []Statement
 	init      Statement
 	condition Expression
 	increment Statement
@@ -11,6 +12,11 @@ func (f For) StatementType() StatementType {
 	return STATEMENT_TYPE_FOR
 }
 
+// Setup returns the statements which need to be executed before the loop's init statement.
+func (f For) Setup() []Statement {
+	return f.setup
+}
+
 func (f For) Init() Statement {
 	return f.init
 }
diff --git a/parser/parser.go b/parser/parser.go
index 8ef560f..ca9422d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -205,6 +205,7 @@ type Parser struct {
 	path            string
 	prefix          string
 	currFunc        string
+	hiddenVars      int                 // Stores the amount of hidden variables.
 	currReturnTypes []ValueType         // Stores the return types of the current function.
 	usedFuncs       map[string][]string // Stores which function (key) calls which functions (values).
 }
@@ -446,6 +447,14 @@ func (p *Parser) skipNewlines() {
 	}
 }
 
+// newHiddenVariable creates a variable which cannot be accessed by the program (the name is no legal identifier).
+func (p *Parser) newHiddenVariable(valueType ValueType) Variable {
+	name := fmt.Sprintf("0i%d", p.hiddenVars)
+	p.hiddenVars++
+
+	return NewVariable(name, valueType, false, false)
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -1883,25 +1892,37 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			return nil, err
 		}
 		iterableValueType := iterableExpression.ValueType()
-		indexVar := NewVariable(indexVarName, NewValueType(DATA_TYPE_INTEGER, false), false, false)
+		indexValueType := NewValueType(DATA_TYPE_INTEGER, false)
+		indexVar := NewVariable(indexVarName, indexValueType, false, false)
 		var iterableEvaluation Expression
 
+		// The iterable and its length are evaluated only once before the first iteration and the
+		// iteration doesn't depend on the visible variables, as they might be changed by the body.
+		hiddenIterableVar := p.newHiddenVariable(iterableValueType)
+		hiddenLenVar := p.newHiddenVariable(indexValueType)
+		hiddenIndexVar := p.newHiddenVariable(indexValueType)
+
 		if iterableValueType.IsSlice() {
 			iterableEvaluation = SliceEvaluation{
-				value:    iterableExpression,
-				index:    VariableEvaluation{indexVar},
+				value:    VariableEvaluation{hiddenIterableVar},
+				index:    VariableEvaluation{hiddenIndexVar},
 				dataType: iterableValueType.DataType(),
 			}
 		} else if iterableValueType.IsString() {
 			iterableEvaluation = StringSubscript{
-				value:      iterableExpression,
-				startIndex: VariableEvaluation{indexVar},
+				value:      VariableEvaluation{hiddenIterableVar},
+				startIndex: VariableEvaluation{hiddenIndexVar},
 			}
 		} else {
 			return nil, p.expectedError("slice or string", nextToken)
 		}
 		iterableValueType.isSlice = false // Make sure the value var is not a slice.
-		forRangeStatements := []Statement{}
+		forRangeStatements := []Statement{
+			VariableAssignment{
+				variables: []Variable{indexVar},
+				values:    []Expression{VariableEvaluation{hiddenIndexVar}},
+			},
+		}
 
 		// Add count variable.
 		ctx.addVariables(p.prefix, false, indexVar)
@@ -1913,24 +1934,32 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			// Add value variable.
 			ctx.addVariables(p.prefix, false, valueVar)
 
-			forRangeStatements = []Statement{
-				VariableAssignment{
-					variables: []Variable{valueVar},
-					values:    []Expression{iterableEvaluation},
-				},
-			}
+			forRangeStatements = append(forRangeStatements, VariableAssignment{
+				variables: []Variable{valueVar},
+				values:    []Expression{iterableEvaluation},
+			})
 		}
 
+		setup := []Statement{
+			VariableAssignment{
+				variables: []Variable{hiddenIterableVar},
+				values:    []Expression{iterableExpression},
+			},
+			VariableAssignment{
+				variables: []Variable{hiddenLenVar},
+				values:    []Expression{Len{VariableEvaluation{hiddenIterableVar}}},
+			},
+		}
 		init := VariableAssignment{
-			variables: []Variable{indexVar},
+			variables: []Variable{hiddenIndexVar},
 			values:    []Expression{IntegerLiteral{0}},
 		}
 		condition := Comparison{
-			left:     VariableEvaluation{indexVar},
+			left:     VariableEvaluation{hiddenIndexVar},
 			operator: COMPARE_OPERATOR_LESS,
-			right:    Len{iterableExpression},
+			right:    VariableEvaluation{hiddenLenVar},
 		}
-		increment := incrementDecrementStatement(indexVar, true)
+		increment := incrementDecrementStatement(hiddenIndexVar, true)
 		statements, err := p.evaluateBlock(nil, ctx, SCOPE_FOR)
 
 		if err != nil {
@@ -1938,6 +1967,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		}
 
 		stmt = For{
+			setup:     setup,
 			init:      init,
 			condition: condition,
 			increment: increment,
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index d2d2046..22fabcb 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -334,6 +334,14 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 
 func (t *transpiler) evaluateFor(forStatement parser.For) error {
 	conv := t.converter
+
+	for _, statement := range forStatement.Setup() {
+		err := t.evaluate(statement)
+
+		if err != nil {
+			return err
+		}
+	}
 	init := forStatement.Init()
 
 	if init != nil {
-- 
2.43.0


From 11fb49d8cefdbacb2ba34d75f066c50837fe56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 23/47] fix: evaluate the index of a single character subscript
 only once

---
 parser/parser.go         | 14 ++++++++++----
 parser/string.go         |  9 ++-------
 transpiler/transpiler.go | 15 +++++++++------
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ca9422d..f7670b2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2790,7 +2790,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	}
 	nextToken = p.peek()
 	endToken := nextToken
-	endIndex := startIndex
+	var endIndex Expression
 
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
 		// If range but no end-index is provided, create one by using Len-expression.
@@ -2802,6 +2802,8 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			}
 		}
 		p.eat() // Eat square bracket.
+	} else if !gotRange {
+		return nil, p.expectedError(`":" or "]"`, nextToken)
 	} else {
 		endIndex, err = p.evaluateExpression(ctx)
 
@@ -2821,10 +2823,14 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			right:    IntegerLiteral{1},
 		}
 	}
-	endIndexValueType := endIndex.ValueType()
 
-	if !endIndexValueType.IsInt() {
-		return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+	// End-index is only set for ranges.
+	if endIndex != nil {
+		endIndexValueType := endIndex.ValueType()
+
+		if !endIndexValueType.IsInt() {
+			return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+		}
 	}
 
 	if !isSlice {
diff --git a/parser/string.go b/parser/string.go
index 0a80b43..8273fb9 100644
--- a/parser/string.go
+++ b/parser/string.go
@@ -22,12 +22,7 @@ func (s StringSubscript) StartIndex() Expression {
 	return s.startIndex
 }
 
+// EndIndex returns the (included) end-index or nil if the subscript addresses only the character at the start-index.
 func (s StringSubscript) EndIndex() Expression {
-	endIndex := s.endIndex
-
-	// Automatically define end-index.
-	if endIndex == nil {
-		endIndex = s.startIndex
-	}
-	return endIndex
+	return s.endIndex
 }
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 22fabcb..7008463 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -527,21 +527,24 @@ func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation,
 }
 
 func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, valueUsed bool) (expressionResult, error) {
-	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
+	str, err := t.evaluateExpression(subscript.Value(), true)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	endIndexResult, err := t.evaluateIndex(subscript.EndIndex(), true)
+	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	value := subscript.Value()
-	str, err := t.evaluateExpression(value, true)
+	endIndexResult := startIndexResult // A single character must not evaluate the index twice.
 
-	if err != nil {
-		return expressionResult{}, err
+	if endIndex := subscript.EndIndex(); endIndex != nil {
+		endIndexResult, err = t.evaluateIndex(endIndex, true)
+
+		if err != nil {
+			return expressionResult{}, err
+		}
 	}
 	s, err := t.converter.StringSubscript(str.firstValue(), startIndexResult.firstValue(), endIndexResult.firstValue(), valueUsed)
 
-- 
2.43.0


From f4392913f7661d0c4ad1baa38ce90c07a3cba384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 24/47] fix: collect used functions without exponential
 recursion

---
 parser/parser.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f7670b2..bd049bc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -474,24 +474,18 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 
 func (p *Parser) getUsedFuncs(startFunc string) []string {
 	usedFuncs := []string{}
-	startFunc = strings.TrimSpace(startFunc)
-
-	if usedFuncsTemp, exists := p.usedFuncs[startFunc]; exists {
-		if len(startFunc) > 0 && !slices.Contains(usedFuncs, startFunc) {
-			usedFuncs = append(usedFuncs, startFunc)
-		}
-
-		for _, usedFuncTemp := range usedFuncsTemp {
-			if !slices.Contains(usedFuncs, usedFuncTemp) {
-				usedFuncs = append(usedFuncs, usedFuncTemp)
-			}
-			usedSubFuncs := p.getUsedFuncs(usedFuncTemp)
-
-			for _, usedSubFunc := range usedSubFuncs {
-				if !slices.Contains(usedFuncs, usedSubFunc) {
-					usedFuncs = append(usedFuncs, usedSubFunc)
-				}
-			}
+	visitedFuncs := map[string]bool{}
+	pendingFuncs := slices.Clone(p.usedFuncs[startFunc])
+
+	// Collect all functions which are reachable from the start function.
+	for len(pendingFuncs) > 0 {
+		usedFunc := pendingFuncs[0]
+		pendingFuncs = pendingFuncs[1:]
+
+		if !visitedFuncs[usedFunc] {
+			visitedFuncs[usedFunc] = true
+			usedFuncs = append(usedFuncs, usedFunc)
+			pendingFuncs = append(pendingFuncs, p.usedFuncs[usedFunc]...)
 		}
 	}
 	return usedFuncs
-- 
2.43.0


From 55507a744990ab88dc131c9be383d28f3e9c95d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 25/47] fix: merge the used functions of imported files
 completely

---
 parser/parser.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index bd049bc..b361e5e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -754,13 +754,9 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 
 			// Import-parser funcs with current parser funcs.
 			for funcName, usedFuncs := range importParser.usedFuncs {
-				if foundUsedFuncs, exists := p.usedFuncs[funcName]; !exists {
-					p.usedFuncs[funcName] = usedFuncs
-				} else {
-					for _, usedFunc := range foundUsedFuncs {
-						if !slices.Contains(foundUsedFuncs, usedFunc) {
-							p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
-						}
+				for _, usedFunc := range usedFuncs {
+					if !slices.Contains(p.usedFuncs[funcName], usedFunc) {
+						p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
 					}
 				}
 			}
-- 
2.43.0


From b4b616a3402f66ad1a545863c975d517ca50ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 26/47] fix: import each file once, keep different files apart
 and reject import cycles

---
 parser/parser.go | 146 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 111 insertions(+), 35 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b361e5e..ac12ae2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -164,6 +164,14 @@ type evaluatedImport struct {
 	path  string
 }
 
+// importedFile stores the result of an imported file.
+type importedFile struct {
+	parsed    bool
+	prefix    string
+	program   Program
+	usedFuncs map[string][]string
+}
+
 type evaluatedValues struct {
 	values []Expression
 }
@@ -205,14 +213,16 @@ type Parser struct {
 	path            string
 	prefix          string
 	currFunc        string
-	hiddenVars      int                 // Stores the amount of hidden variables.
-	currReturnTypes []ValueType         // Stores the return types of the current function.
-	usedFuncs       map[string][]string // Stores which function (key) calls which functions (values).
+	hiddenVars      int                      // Stores the amount of hidden variables.
+	importedFiles   map[string]*importedFile // Stores the files which have been imported by the program (including the main file).
+	currReturnTypes []ValueType              // Stores the return types of the current function.
+	usedFuncs       map[string][]string      // Stores which function (key) calls which functions (values).
 }
 
 func New() Parser {
 	return Parser{
-		usedFuncs: map[string][]string{},
+		usedFuncs:     map[string][]string{},
+		importedFiles: map[string]*importedFile{},
 	}
 }
 
@@ -255,7 +265,26 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		h := sha256.New()
 		h.Write(source)
 
-		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		hash := fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+
+		// Different files might have the same hash. The leading number keeps them apart and
+		// makes sure that the prefix cannot be part of a name used by the program.
+		for i := 0; len(p.prefix) == 0; i++ {
+			prefix := fmt.Sprintf("%d%s", i, hash)
+
+			if !p.prefixExists(prefix) {
+				p.prefix = prefix
+			}
+		}
+		p.importedFiles[path].prefix = p.prefix
+	} else {
+		// If the main file is imported, this is an import cycle.
+		realPath, err := filepath.EvalSymlinks(path)
+
+		if err != nil {
+			return Program{}, err
+		}
+		p.importedFiles = map[string]*importedFile{realPath: {}}
 	}
 	program, err := p.evaluateProgram()
 
@@ -677,7 +706,8 @@ func (p *Parser) evaluateProgram() (Program, error) {
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	var nextToken lexer.Token
-	statementsTemp := []Statement{}
+	statements := []Statement{}
+	declaredStatements := []Statement{}
 
 	p.skipNewlines()
 	nextToken = p.peek()
@@ -735,8 +765,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
-			importParser := New()
-			importedProg, err := importParser.parse(absPath, true)
+			imported, alreadyImported, err := p.importFile(absPath)
 
 			if err != nil {
 				return nil, err
@@ -745,15 +774,21 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if _, exists := ctx.findImport(alias); exists {
 				return nil, fmt.Errorf(`import alias "%s" already exists`, alias)
 			}
-			err = ctx.addImport(alias, importParser.prefix)
+			err = ctx.addImport(alias, imported.prefix)
 
 			if err != nil {
 				return nil, err
 			}
-			statementsTemp = append(statementsTemp, importedProg.Body()...)
+			importedStatements := imported.program.Body()
+			declaredStatements = append(declaredStatements, importedStatements...)
+
+			// Prevent code duplication.
+			if !alreadyImported {
+				statements = append(statements, importedStatements...)
+			}
 
 			// Import-parser funcs with current parser funcs.
-			for funcName, usedFuncs := range importParser.usedFuncs {
+			for funcName, usedFuncs := range imported.usedFuncs {
 				for _, usedFunc := range usedFuncs {
 					if !slices.Contains(p.usedFuncs[funcName], usedFunc) {
 						p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
@@ -778,38 +813,79 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 		}
 	}
-	statements := []Statement{}
 
-	// Add functions add variables.
-	for _, statement := range statementsTemp {
-		exists := false
+	// Add public functions and variables.
+	for _, statement := range declaredStatements {
+		switch declaration := statement.(type) {
+		case VariableDefinition:
+			p.addPublicVariables(ctx, declaration.Variables())
+		case VariableDefinitionCallAssignment:
+			p.addPublicVariables(ctx, declaration.Variables())
+		case FunctionDefinition:
+			if declaration.Public() {
+				ctx.functions[declaration.Name()] = declaration
+			}
+		}
+	}
+	return statements, nil
+}
+
+func (p *Parser) prefixExists(prefix string) bool {
+	for _, imported := range p.importedFiles {
+		if imported.prefix == prefix {
+			return true
+		}
+	}
+	return false
+}
+
+func (p *Parser) addPublicVariables(ctx context, variables []Variable) {
+	for _, variable := range variables {
+		if variable.Public() {
+			ctx.variables[variable.Name()] = variable
+		}
+	}
+}
 
-		switch statement.StatementType() {
-		case STATEMENT_TYPE_VAR_DEFINITION:
-			definedVariable := statement.(VariableDefinition)
+// importFile parses the file if it hasn't been imported before. The second return value
+// states, if the file (and therefore its code) is already part of the program.
+func (p *Parser) importFile(path string) (*importedFile, bool, error) {
+	realPath, err := filepath.EvalSymlinks(path)
 
-			for _, variable := range definedVariable.Variables() {
-				name := variable.Name()
+	if err != nil {
+		return nil, false, err
+	}
+	info, err := os.Stat(realPath)
 
-				if _, exists = ctx.variables[name]; !exists && variable.Public() {
-					ctx.variables[name] = variable
-				}
-			}
-		case STATEMENT_TYPE_FUNCTION_DEFINITION:
-			definedFunction := statement.(FunctionDefinition)
-			name := definedFunction.Name()
+	if err != nil {
+		return nil, false, err
+	} else if !info.Mode().IsRegular() {
+		return nil, false, fmt.Errorf(`"%s" is not a file`, path)
+	}
+	files := p.importedFiles
 
-			if _, exists = ctx.functions[name]; !exists && definedFunction.Public() {
-				ctx.functions[name] = definedFunction
-			}
+	if imported, exists := files[realPath]; exists {
+		if !imported.parsed {
+			return nil, false, fmt.Errorf(`import cycle via "%s" in "%s"`, path, p.path)
 		}
+		return imported, true, nil
+	}
+	imported := &importedFile{}
+	files[realPath] = imported
 
-		// Prevent code duplication.
-		if !exists {
-			statements = append(statements, statement)
-		}
+	importParser := New()
+	importParser.importedFiles = files
+	program, err := importParser.parse(realPath, true)
+
+	if err != nil {
+		return nil, false, err
 	}
-	return statements, nil
+	imported.parsed = true
+	imported.prefix = importParser.prefix
+	imported.program = program
+	imported.usedFuncs = importParser.usedFuncs
+
+	return imported, false, nil
 }
 
 func (p *Parser) evaluateImport() (evaluatedImport, error) {
-- 
2.43.0


From 5f0af329d7ceeb2ad782a3c98a630457601f3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 27/47] fix: tokenize strings and identifiers in linear time

---
 lexer/lexer.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index e02f6f0..caa7dcd 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -269,7 +269,7 @@ func Tokenize(source string) ([]Token, error) {
 
 		if raw := c0 == "`"; raw || c0 == `"` {
 			// Evaluate string.
-			str := ""
+			str := strings.Builder{}
 			i++
 
 			for i < sourceLength {
@@ -285,21 +285,21 @@ func Tokenize(source string) ([]Token, error) {
 					}
 
 					if multibyte {
-						str += string(parsed)
+						str.WriteRune(parsed)
 					} else {
-						str += string([]byte{byte(parsed)})
+						str.WriteByte(byte(parsed))
 					}
 					i = sourceLength - len(tail)
 					appended = true
 				} else if (raw && c0 == "`") || (!raw && c0 == `"`) {
 					// Detected string end.
 					i++
-					token = newToken(str, STRING_LITERAL, ogRow, ogColumn)
+					token = newToken(str.String(), STRING_LITERAL, ogRow, ogColumn)
 					break
 				}
 
 				if !appended {
-					str += c0
+					str.WriteString(c0)
 					i++
 				}
 			}
@@ -325,7 +325,7 @@ func Tokenize(source string) ([]Token, error) {
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
 			i += len(match)
 		} else if regexp.MustCompile(`[a-zA-Z_]`).MatchString(c0) {
-			identifier := ""
+			identifierStart := i
 
 			for {
 				c0 = char(source, i)
@@ -333,9 +333,9 @@ func Tokenize(source string) ([]Token, error) {
 				if !regexp.MustCompile(`[a-zA-Z0-9_]`).MatchString(c0) {
 					break
 				}
-				identifier += c0
 				i++
 			}
+			identifier := source[identifierStart:i]
 
 			// Check if identifier is a keyword.
 			tokenType, hasKey := keywords[identifier]
-- 
2.43.0


From df273354698ae5bd93bd23590ed1ea511812ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 28/47] fix: limit the nesting to prevent unbound recursion

---
 parser/parser.go | 61 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ac12ae2..f315770 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -22,6 +22,9 @@ var typeMapping = map[lexer.VarType]DataType{
 	lexer.DATA_TYPE_ERROR:   DATA_TYPE_STRING, // error is internally just a string to make heandling easier.
 }
 
+// Maximum amount of nested statements and operands.
+const maxNesting = 5000
+
 type scope string
 
 const (
@@ -213,6 +216,7 @@ type Parser struct {
 	path            string
 	prefix          string
 	currFunc        string
+	nesting         int                      // Stores the current nesting level.
 	hiddenVars      int                      // Stores the amount of hidden variables.
 	importedFiles   map[string]*importedFile // Stores the files which have been imported by the program (including the main file).
 	currReturnTypes []ValueType              // Stores the return types of the current function.
@@ -2304,7 +2308,13 @@ func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 
 	// Negations might be repeated (e.g. !!b).
 	if negate {
+		err = p.enterNesting()
+
+		if err != nil {
+			return nil, err
+		}
 		expr, err = p.evaluateUnaryOperation(ctx)
+		p.leaveNesting()
 	} else {
 		expr, err = p.evaluateSingleExpression(ctx)
 	}
@@ -2345,12 +2355,37 @@ func (p *Parser) evaluateLogicalOr(ctx context) (Expression, error) {
 }
 
 func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
+	err := p.enterNesting()
+
+	if err != nil {
+		return nil, err
+	}
+	defer p.leaveNesting()
+
 	return p.evaluateLogicalOr(ctx)
 }
 
+// enterNesting must be called whenever the nesting level increases to prevent an unbound recursion.
+func (p *Parser) enterNesting() error {
+	if p.nesting >= maxNesting {
+		return p.atError("nesting is too deep", p.peek())
+	}
+	p.nesting++
+	return nil
+}
+
+func (p *Parser) leaveNesting() {
+	p.nesting--
+}
+
 func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 	var stmt Statement
-	var err error
+	err := p.enterNesting()
+
+	if err != nil {
+		return nil, err
+	}
+	defer p.leaveNesting()
 
 	token := p.peek()
 	tokenType := token.Type()
@@ -2434,6 +2469,12 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 		if operatorToken.Type() != lexer.BINARY_OPERATOR || !slices.Contains(allowedOperators, operator) {
 			break
 		}
+		err := p.enterNesting() // Each operation contains all the operations on its left.
+
+		if err != nil {
+			return nil, err
+		}
+		defer p.leaveNesting()
 		p.eat() // Eat operator token.
 		rightExpression, err := higherPrioOperation(ctx)
 
@@ -2477,6 +2518,12 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
 			break
 		}
+		err := p.enterNesting() // Each operation contains all the operations on its left.
+
+		if err != nil {
+			return nil, err
+		}
+		defer p.leaveNesting()
 		p.eat() // Eat operator token.
 		rightExpression, err := p.evaluateAddition(ctx)
 
@@ -2513,6 +2560,12 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		if operatorToken.Type() != lexer.LOGICAL_OPERATOR || operatorToken.Value() != operator {
 			break
 		}
+		err := p.enterNesting() // Each operation contains all the operations on its left.
+
+		if err != nil {
+			return nil, err
+		}
+		defer p.leaveNesting()
 
 		if !leftExpression.ValueType().IsBool() {
 			return nil, p.expectedError("boolean value", conditionToken)
@@ -2722,7 +2775,13 @@ func (p *Parser) evaluateAppCall(ctx context) (Call, error) {
 
 	if p.peek().Type() == lexer.PIPE {
 		p.eat() // Eat pipe token.
+		err := p.enterNesting()
+
+		if err != nil {
+			return nil, err
+		}
 		nextCall, err := p.evaluateAppCall(ctx)
+		p.leaveNesting()
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 57f6560b60c04da1cc35f72abbc1fdd5d501507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 29/47] fix: use a unique end label for each loop of the Batch
 script

---
 converters/batch/converter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2d11ebc..48c1f98 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -48,6 +48,7 @@ type converter struct {
 	varCounter                    int
 	ifCounter                     int
 	forCounter                    int
+	endCounter                    int
 	endLabels                     []string
 	funcs                         []funcInfo
 	funcCounter                   int
@@ -880,7 +881,9 @@ func (c *converter) popEndLabel() string {
 }
 
 func (c *converter) nextEndLabel() string {
-	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", len(c.endLabels)))
+	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", c.endCounter))
+	c.endCounter++
+
 	return c.mustCurrentEndLabel()
 }
 
-- 
2.43.0


From 0d9d94aecb98a3111127217e671aca4307b8f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 30/47] fix: keep Batch jumps and iteration flags in their loop
 if loops are nested

---
 converters/batch/converter.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 48c1f98..fba2ff2 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -31,7 +31,8 @@ type funcInfo struct {
 }
 
 type forInfo struct {
-	label string
+	label    string
+	variable string
 }
 
 type ifInfo struct {
@@ -342,10 +343,12 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	variable := fmt.Sprintf("_fv%d", c.forCounter)
 	label := c.nextForLabel()
 	c.nextEndLabel()
 	c.fors = append(c.fors, forInfo{
-		label: label,
+		label:    label,
+		variable: variable,
 	})
 	c.addLine(fmt.Sprintf(`set "%s="`, c.mustCurrentForVar()))
 	c.addLine(label)
@@ -369,9 +372,7 @@ func (c *converter) ForCondition(condition string) error {
 }
 
 func (c *converter) ForEnd() error {
-	w := c.fors[len(c.fors)-1]
-
-	c.addLine(fmt.Sprintf("goto %s", w.label))
+	c.addLine(fmt.Sprintf("goto %s", c.mustCurrentForLabel()))
 	c.addLine(")")
 
 	endLabel := c.popEndLabel()
@@ -818,12 +819,16 @@ func (c *converter) addEndLine(line string) {
 	c.endCode = append(c.endCode, line)
 }
 
+func (c *converter) mustCurrentForInfo() forInfo {
+	return c.fors[len(c.fors)-1]
+}
+
 func (c *converter) mustCurrentForLabel() string {
-	return forLabel(c.forCounter - 1)
+	return c.mustCurrentForInfo().label
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter-1)
+	return c.mustCurrentForInfo().variable
 }
 
 func (c *converter) nextForLabel() string {
-- 
2.43.0


From 250fed47bc291e75b7dc1ebb6e6c65b039e95877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 31/47] fix: add the Batch slice length helper instead of the
 slice assignment helper on instantiation

---
 converters/batch/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index fba2ff2..0965b02 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -585,7 +585,7 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, "_dv!_dvc!", false)
 
-	c.sliceAssignmentHelperRequired = true
+	c.sliceLenSetHelperRequired = true
 	c.callFunc(sliceLenSetHelper, []string{}, c.varEvaluationString(helper, false), strconv.Itoa(len(values)))
 
 	// Init slice values.
-- 
2.43.0


From b4ac3cd91d1d71968deea91e5903ac1727b80eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 32/47] fix: use a separate iteration flag for nested loops in
 Bash

---
 converters/bash/converter.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c388c71..c8314c9 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -13,12 +13,17 @@ type funcInfo struct {
 	name string
 }
 
+type forInfo struct {
+	variable string
+}
+
 type converter struct {
 	interpreter                   string
 	startCode                     []string
 	code                          []string
 	varCounter                    int
 	forCounter                    int
+	fors                          []forInfo
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -167,6 +172,11 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	c.fors = append(c.fors, forInfo{
+		variable: fmt.Sprintf("_fv%d", c.forCounter),
+	})
+	c.forCounter++
+
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.addLine("while true; do")
 	return nil
@@ -190,7 +200,9 @@ func (c *converter) ForCondition(condition string) error {
 
 func (c *converter) ForEnd() error {
 	c.addLine("done")
-	c.forCounter++
+
+	lastIndex := len(c.fors) - 1
+	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
 
 	return nil
 }
@@ -542,7 +554,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter)
+	return c.fors[len(c.fors)-1].variable
 }
 
 func (c *converter) varName(name string, global bool) string {
-- 
2.43.0


From 249ce3456bcc00451979379d44a9f0ca42642ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 33/47] fix: evaluate the value of a switch only once

---
 parser/if.go             |  6 ++++++
 parser/parser.go         | 15 +++++++++++++++
 transpiler/transpiler.go |  8 ++++++++
 3 files changed, 29 insertions(+)

diff --git a/parser/if.go b/parser/if.go
index d9b0d46..07596a5 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -22,6 +22,7 @@ func (e Else) Body() []Statement {
 }
 
 type If struct {
+	setup        []Statement
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
@@ -31,6 +32,11 @@ func (i If) StatementType() StatementType {
 	return STATEMENT_TYPE_IF
 }
 
+// Setup returns the statements which need to be executed before the conditions are evaluated.
+func (i If) Setup() []Statement {
+	return i.setup
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index f315770..0993c1c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1821,7 +1821,22 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.NEWLINE {
 		return nil, p.expectedNewlineError(nextToken)
 	}
+	setup := []Statement{}
+
+	// The switch value is evaluated only once, so store it to be able to compare it with each case.
+	switch switchExpr.(type) {
+	case BooleanLiteral, IntegerLiteral, StringLiteral:
+		// Literals can be compared as they are.
+	default:
+		switchVar := p.newHiddenVariable(switchExprValueType)
+		setup = append(setup, VariableAssignment{
+			variables: []Variable{switchVar},
+			values:    []Expression{switchExpr},
+		})
+		switchExpr = VariableEvaluation{switchVar}
+	}
 	fakeIf := If{
+		setup: setup,
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
 			body:      []Statement{},
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 7008463..7dfc68b 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -267,6 +267,14 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	conv := t.converter
 	ifBranch := ifStatement.IfBranch()
+
+	for _, statement := range ifStatement.Setup() {
+		err := t.evaluate(statement)
+
+		if err != nil {
+			return err
+		}
+	}
 	result, err := t.evaluateExpression(ifBranch.Condition(), true)
 
 	if err != nil {
-- 
2.43.0


From 5d568ee81d18eeeb9daac28768d144908da99b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 34/47] fix: leave the switch instead of the loop on break
 within a switch

---
 converters/bash/converter.go  | 30 ++++++++++++++++++++++++++++--
 converters/batch/converter.go | 11 +++++++++++
 parser/if.go                  | 29 +++++++++++++++++++++++++++++
 parser/parser.go              |  7 ++++++-
 transpiler/converter.go       |  2 ++
 transpiler/transpiler.go      | 20 +++++++++++++++++++-
 6 files changed, 95 insertions(+), 4 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c8314c9..7f5f2bd 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -15,6 +15,7 @@ type funcInfo struct {
 
 type forInfo struct {
 	variable string
+	isSwitch bool
 }
 
 type converter struct {
@@ -171,6 +172,25 @@ func (c *converter) ElseEnd() error {
 	return nil
 }
 
+// SwitchStart is called in front of a switch that contains a break statement which leaves it.
+func (c *converter) SwitchStart() error {
+	c.fors = append(c.fors, forInfo{
+		isSwitch: true,
+	})
+	c.addLine("while true; do") // Use a loop that is left after the first iteration to be able to use break.
+	return nil
+}
+
+func (c *converter) SwitchEnd() error {
+	c.addLine("break")
+	c.addLine("done")
+
+	lastIndex := len(c.fors) - 1
+	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
+
+	return nil
+}
+
 func (c *converter) ForStart() error {
 	c.fors = append(c.fors, forInfo{
 		variable: fmt.Sprintf("_fv%d", c.forCounter),
@@ -208,12 +228,18 @@ func (c *converter) ForEnd() error {
 }
 
 func (c *converter) Break() error {
-	c.addLine("break") // TODO: Break within switch. This might be a good solution -> https://stackoverflow.com/a/30874026.
+	c.addLine("break")
 	return nil
 }
 
 func (c *converter) Continue() error {
-	c.addLine("continue")
+	level := 1
+
+	// Skip the switches which are part of the loop.
+	for i := len(c.fors) - 1; i >= 0 && c.fors[i].isSwitch; i-- {
+		level++
+	}
+	c.addLine(fmt.Sprintf("continue %d", level))
 	return nil
 }
 
diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 0965b02..c805a52 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -342,6 +342,17 @@ func (c *converter) ElseEnd() error {
 	return nil
 }
 
+// SwitchStart is called in front of a switch that contains a break statement which leaves it.
+func (c *converter) SwitchStart() error {
+	c.nextEndLabel()
+	return nil
+}
+
+func (c *converter) SwitchEnd() error {
+	c.addLine(c.popEndLabel())
+	return nil
+}
+
 func (c *converter) ForStart() error {
 	variable := fmt.Sprintf("_fv%d", c.forCounter)
 	label := c.nextForLabel()
diff --git a/parser/if.go b/parser/if.go
index 07596a5..702d0cd 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -23,6 +23,7 @@ func (e Else) Body() []Statement {
 
 type If struct {
 	setup        []Statement
+	isSwitch     bool
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
@@ -37,6 +38,34 @@ func (i If) Setup() []Statement {
 	return i.setup
 }
 
+// Breakable returns true if it's a switch which contains a break statement that leaves it.
+func (i If) Breakable() bool {
+	return i.isSwitch && i.containsBreak()
+}
+
+func (i If) containsBreak() bool {
+	bodies := [][]Statement{i.IfBranch().Body(), i.Else().Body()}
+
+	for _, branch := range i.ElseIfBranches() {
+		bodies = append(bodies, branch.Body())
+	}
+
+	for _, body := range bodies {
+		for _, statement := range body {
+			switch s := statement.(type) {
+			case Break:
+				return true
+			case If:
+				// Breaks of nested switches and loops only leave those.
+				if !s.isSwitch && s.containsBreak() {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index 0993c1c..d731ea1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1660,6 +1660,10 @@ func isTerminating(statements []Statement) bool {
 	case Return, Panic:
 		return true
 	case If:
+		if lastStatement.Breakable() {
+			return false
+		}
+
 		for _, branch := range lastStatement.ElseIfBranches() {
 			if !isTerminating(branch.Body()) {
 				return false
@@ -1836,7 +1840,8 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		switchExpr = VariableEvaluation{switchVar}
 	}
 	fakeIf := If{
-		setup: setup,
+		setup:    setup,
+		isSwitch: true,
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
 			body:      []Statement{},
diff --git a/transpiler/converter.go b/transpiler/converter.go
index c0561c4..bc172a5 100644
--- a/transpiler/converter.go
+++ b/transpiler/converter.go
@@ -67,6 +67,8 @@ type Converter interface {
 	ElseIfEnd() error
 	ElseStart() error
 	ElseEnd() error
+	SwitchStart() error
+	SwitchEnd() error
 	ForStart() error
 	ForIncrementStart() error
 	ForIncrementEnd() error
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 7dfc68b..e96fb95 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -291,6 +291,15 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 		}
 		elifConditions = append(elifConditions, result.firstValue())
 	}
+	breakable := ifStatement.Breakable()
+
+	if breakable {
+		err = conv.SwitchStart()
+
+		if err != nil {
+			return err
+		}
+	}
 	err = conv.IfStart(result.firstValue())
 
 	if err != nil {
@@ -337,7 +346,16 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 			return err
 		}
 	}
-	return conv.IfEnd()
+	err = conv.IfEnd()
+
+	if err != nil {
+		return err
+	}
+
+	if breakable {
+		return conv.SwitchEnd()
+	}
+	return nil
 }
 
 func (t *transpiler) evaluateFor(forStatement parser.For) error {
-- 
2.43.0


From 397e3241d1583c3bfec4dc491bb2cb324791f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 35/47] fix: evaluate operands from left to right and assigned
 values before the assignment

---
 transpiler/transpiler.go | 206 ++++++++++++++++++++++++++++++++-------
 1 file changed, 173 insertions(+), 33 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index e96fb95..238a209 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -2,6 +2,7 @@ package transpiler
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"unicode"
 
@@ -64,7 +65,8 @@ func IntToString(i int) string {
 }
 
 type transpiler struct {
-	converter Converter
+	converter   Converter
+	tempCounter int
 }
 
 func New() transpiler {
@@ -79,6 +81,7 @@ func (t *transpiler) Transpile(path string, converter Converter) (string, error)
 		return "", err
 	}
 	t.converter = converter
+	t.tempCounter = 0
 	err = t.evaluate(ast)
 
 	if err != nil {
@@ -104,6 +107,121 @@ func (t *transpiler) evaluateValueTypeDefaultValue(valueType parser.ValueType) (
 	return defaultValue, nil
 }
 
+// isVariableRead returns true if the result of the expression refers to a variable of the program.
+func isVariableRead(expression parser.Expression) bool {
+	switch expr := expression.(type) {
+	case parser.VariableEvaluation:
+		return true
+	case parser.Group:
+		return isVariableRead(expr.Child())
+	case parser.Itoa:
+		return isVariableRead(expr.Value())
+	}
+	return false
+}
+
+// containsFunctionCall returns true if the evaluation of the expression calls a function which might change variables.
+func containsFunctionCall(expressions ...parser.Expression) bool {
+	for _, expression := range expressions {
+		found := false
+
+		switch expr := expression.(type) {
+		case parser.FunctionCall:
+			found = true
+		case parser.AppCall:
+			for call := &expr; call != nil && !found; call = call.Next() {
+				found = containsFunctionCall(call.Args()...)
+			}
+		case parser.Operation:
+			found = containsFunctionCall(expr.Left(), expr.Right())
+		case parser.UnaryOperation:
+			found = containsFunctionCall(expr.Expression())
+		case parser.Group:
+			found = containsFunctionCall(expr.Child())
+		case parser.Itoa:
+			found = containsFunctionCall(expr.Value())
+		case parser.Len:
+			found = containsFunctionCall(expr.Expression())
+		case parser.Exists:
+			found = containsFunctionCall(expr.Path())
+		case parser.Read:
+			found = containsFunctionCall(expr.Path())
+		case parser.Input:
+			found = expr.Prompt() != nil && containsFunctionCall(expr.Prompt())
+		case parser.Copy:
+			found = containsFunctionCall(expr.Source())
+		case parser.SliceInstantiation:
+			found = containsFunctionCall(expr.Values()...)
+		case parser.SliceEvaluation:
+			found = containsFunctionCall(expr.Value(), expr.Index())
+		case parser.StringSubscript:
+			found = containsFunctionCall(expr.Value(), expr.StartIndex()) || (expr.EndIndex() != nil && containsFunctionCall(expr.EndIndex()))
+		}
+
+		if found {
+			return true
+		}
+	}
+	return false
+}
+
+// storeValue stores the value in a temporary variable and returns the evaluation of that variable.
+func (t *transpiler) storeValue(value string) (string, error) {
+	name := fmt.Sprintf("_t%d", t.tempCounter)
+	t.tempCounter++
+	err := t.converter.VarDefinition(name, value, false)
+
+	if err != nil {
+		return "", err
+	}
+	return t.converter.VarEvaluation(name, true, false)
+}
+
+// evaluateOperand evaluates an operand which is followed by the passed operands. If it is a variable
+// which might be changed by the evaluation of those, the current value is stored.
+func (t *transpiler) evaluateOperand(operand parser.Expression, followingOperands ...parser.Expression) (expressionResult, error) {
+	result, err := t.evaluateExpression(operand, true)
+
+	if err != nil {
+		return expressionResult{}, err
+	}
+
+	if isVariableRead(operand) && containsFunctionCall(followingOperands...) {
+		value, err := t.storeValue(result.firstValue())
+
+		if err != nil {
+			return expressionResult{}, err
+		}
+		return newExpressionResult(value), nil
+	}
+	return result, nil
+}
+
+// evaluateAssignedValues evaluates all the values before any of them is assigned. If there are several
+// values, variables are stored as they might be changed by the assignment of the preceding values.
+func (t *transpiler) evaluateAssignedValues(expressions []parser.Expression) ([]string, error) {
+	values := []string{}
+
+	for _, expression := range expressions {
+		result, err := t.evaluateExpression(expression, true)
+
+		if err != nil {
+			return nil, err
+		}
+		value := result.firstValue()
+
+		if len(expressions) > 1 && isVariableRead(expression) {
+			value, err = t.storeValue(value)
+
+			if err != nil {
+				return nil, err
+			}
+		}
+		values = append(values, value)
+	}
+	return values, nil
+}
+
 func (t *transpiler) evaluateIndex(index parser.Expression, valueUsed bool) (expressionResult, error) {
 	return t.evaluateExpression(index, true)
 }
@@ -143,7 +261,7 @@ func (t *transpiler) evaluateOperation(
 	callout func(left string, operator string, right string, valueType parser.ValueType, valueUsed bool) (string, error),
 	valueUsed bool,
 ) (expressionResult, error) {
-	left, err := t.evaluateExpression(operation.Left(), true)
+	left, err := t.evaluateOperand(operation.Left(), operation.Right())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -199,8 +317,8 @@ func (t *transpiler) evaluateContinue() error {
 func (t *transpiler) evaluatePrint(print parser.Print) error {
 	values := []string{}
 
-	for _, expr := range print.Expressions() {
-		result, err := t.evaluateExpression(expr, true)
+	for i, expr := range print.Expressions() {
+		result, err := t.evaluateOperand(expr, print.Expressions()[i+1:]...)
 
 		if err != nil {
 			return err
@@ -226,7 +344,12 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as read path", valueType.String())
 	}
-	result, err := t.evaluateExpression(path, true)
+	operands := []parser.Expression{path, write.Data()}
+
+	if write.Append() != nil {
+		operands = append(operands, write.Append())
+	}
+	result, err := t.evaluateOperand(path, operands[1:]...)
 
 	if err != nil {
 		return err
@@ -238,7 +361,7 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as data", valueType.String())
 	}
-	result, err = t.evaluateExpression(data, true)
+	result, err = t.evaluateOperand(data, operands[2:]...)
 
 	if err != nil {
 		return err
@@ -275,7 +398,12 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 			return err
 		}
 	}
-	result, err := t.evaluateExpression(ifBranch.Condition(), true)
+	conditions := []parser.Expression{ifBranch.Condition()}
+
+	for _, branch := range ifStatement.ElseIfBranches() {
+		conditions = append(conditions, branch.Condition())
+	}
+	result, err := t.evaluateOperand(conditions[0], conditions[1:]...)
 
 	if err != nil {
 		return err
@@ -283,8 +411,8 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	elifConditions := []string{}
 
 	// Evaluate all conditions first to make sure they are added in front of the first if.
-	for _, branch := range ifStatement.ElseIfBranches() {
-		result, err := t.evaluateExpression(branch.Condition(), true)
+	for i, condition := range conditions[1:] {
+		result, err := t.evaluateOperand(condition, conditions[i+2:]...)
 
 		if err != nil {
 			return err
@@ -420,13 +548,14 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 }
 
 func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
-	for i, variable := range definition.Variables() {
-		result, err := t.evaluateExpression(definition.Values()[i], true)
+	values, err := t.evaluateAssignedValues(definition.Values())
 
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(toTargetName(variable.Name()), result.firstValue(), variable.Global())
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range definition.Variables() {
+		err = t.converter.VarDefinition(toTargetName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -461,13 +590,14 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 }
 
 func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment) error {
-	for i, variable := range assignment.Variables() {
-		result, err := t.evaluateExpression(assignment.Values()[i], true)
+	values, err := t.evaluateAssignedValues(assignment.Values())
 
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(toTargetName(variable.Name()), result.firstValue(), variable.Global())
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range assignment.Variables() {
+		err = t.converter.VarDefinition(toTargetName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -502,7 +632,7 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 }
 
 func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment) error {
-	indexResult, err := t.evaluateIndex(assignment.Index(), true)
+	indexResult, err := t.evaluateOperand(assignment.Index(), assignment.Value())
 
 	if err != nil {
 		return err
@@ -533,7 +663,7 @@ func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation,
 
 func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation, valueUsed bool) (expressionResult, error) {
 	value := evaluation.Value()
-	result, err := t.evaluateExpression(value, true)
+	result, err := t.evaluateOperand(value, evaluation.Index())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -553,12 +683,17 @@ func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation,
 }
 
 func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, valueUsed bool) (expressionResult, error) {
-	str, err := t.evaluateExpression(subscript.Value(), true)
+	indexes := []parser.Expression{subscript.StartIndex()}
+
+	if endIndex := subscript.EndIndex(); endIndex != nil {
+		indexes = append(indexes, endIndex)
+	}
+	str, err := t.evaluateOperand(subscript.Value(), indexes...)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
+	startIndexResult, err := t.evaluateOperand(indexes[0], indexes[1:]...)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -607,8 +742,8 @@ func (t *transpiler) evaluateBlock(block parser.Block) error {
 func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
 	returnValues := []ReturnValue{}
 
-	for _, expr := range returnStatement.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	for i, expr := range returnStatement.Values() {
+		result, err := t.evaluateOperand(expr, returnStatement.Values()[i+1:]...)
 
 		if err != nil {
 			return err
@@ -659,8 +794,8 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 	name := functionCall.Name()
 	args := []string{}
 
-	for _, arg := range functionCall.Args() {
-		result, err := t.evaluateExpression(arg, true)
+	for i, arg := range functionCall.Args() {
+		result, err := t.evaluateOperand(arg, functionCall.Args()[i+1:]...)
 
 		if err != nil {
 			return expressionResult{}, err
@@ -690,8 +825,13 @@ func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expre
 		name := nextCall.Name()
 		args := []string{}
 
-		for _, arg := range nextCall.Args() {
-			result, err := t.evaluateExpression(arg, true)
+		for i, arg := range nextCall.Args() {
+			followingArgs := slices.Clone(nextCall.Args()[i+1:])
+
+			for followingCall := nextCall.Next(); followingCall != nil; followingCall = followingCall.Next() {
+				followingArgs = append(followingArgs, followingCall.Args()...)
+			}
+			result, err := t.evaluateOperand(arg, followingArgs...)
 
 			if err != nil {
 				return expressionResult{}, err
@@ -715,8 +855,8 @@ func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expre
 func (t *transpiler) evaluateSliceInstantiation(instantiation parser.SliceInstantiation, valueUsed bool) (expressionResult, error) {
 	values := []string{}
 
-	for _, expr := range instantiation.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	for i, expr := range instantiation.Values() {
+		result, err := t.evaluateOperand(expr, instantiation.Values()[i+1:]...)
 
 		if err != nil {
 			return expressionResult{}, err
-- 
2.43.0


From cb9109baf5c297d5a73514f252a50bdff3bb16a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 36/47] fix: keep values opaque in the Bash script

Literals are escaped, all values are only expanded within double quotes and
never become part of an eval'd text, captured outputs and file contents keep all
but the last newline, printing doesn't interpret options, input works inside of
functions, more than nine parameters are supported and copy returns the number
of copied elements.
---
 converters/bash/converter.go | 171 ++++++++++++++++++-----------------
 std/os.tsh                   |   2 +-
 transpiler/transpiler.go     |   2 +-
 3 files changed, 88 insertions(+), 87 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 7f5f2bd..624b349 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -9,6 +9,9 @@ import (
 	"github.com/monstermichl/typeshell/transpiler"
 )
 
+// The characters which are not taken literally within double quotes.
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`, `$`, `\$`, "`", "\\`")
+
 type funcInfo struct {
 	name string
 }
@@ -32,6 +35,10 @@ type converter struct {
 	stringSubscriptHelperRequired bool
 }
 
+func quote(value string) string {
+	return fmt.Sprintf(`"%s"`, value)
+}
+
 func New() *converter {
 	return &converter{
 		interpreter: "/bin/bash",
@@ -39,8 +46,10 @@ func New() *converter {
 	}
 }
 
+// StringToString escapes the characters which have a special meaning within double quotes. All values
+// are only used within double quotes.
 func (c *converter) StringToString(value string) string {
-	return value
+	return stringEscaper.Replace(value)
 }
 
 func (c *converter) Dump() (string, error) {
@@ -70,31 +79,35 @@ func (c *converter) ProgramEnd() error {
 		// $4: Default value
 		c.addHelper("slice assignment", "_sah",
 			"local _i=${2}",
-			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${1}")),
-			`for ((_c=${_l};_c<${_i};_c++)); do`,
-			c.sliceAssignmentString("${1}", "${_c}", "${4}", false),
+			"local _l",
+			c.sliceLenString("_l", "${1}"),
+			`while [ ${_l} -lt ${_i} ]; do`,
+			c.sliceAssignmentString("${1}", "${_l}", "4"),
+			"_l=$((${_l}+1))",
 			`done`,
-			c.sliceAssignmentString("${1}", "${_i}", "${3}", false),
+			c.sliceAssignmentString("${1}", "${_i}", "3"),
 		)
 	}
 
 	if c.sliceCopyHelperRequired {
+		// $1: Destination slice name
+		// $2: Source slice name
 		c.addHelper("slice copy", "_sch",
 			"local _i=0",
-			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${2}")),
-			"local _n=$(eval \"echo \\${${1}}\")",
+			"local _l",
+			c.sliceLenString("_l", "${2}"),
 			"while [ ${_i} -lt ${_l} ]; do",
-			fmt.Sprintf("local _v=%s", c.sliceEvaluationString("${2}", "${_i}")),
-			c.sliceAssignmentString("${_n}", "${_i}", "${_v}", false),
+			c.sliceAssignmentString("${1}", "${_i}", "${2}[${_i}]"),
 			"_i=$((${_i}+1))",
 			"done",
+			"_ret=${_l}",
 		)
 	}
 
 	if c.stringSubscriptHelperRequired {
 		c.addHelper("substring", "_ssh",
-			`_ls=$((${2}))`,
-			`_ll=$(((${3}-${2})+1))`,
+			`local _ls=$((${2}))`,
+			`local _ll=$(((${3}-${2})+1))`,
 			`_ret="${1:${_ls}:${_ll}}"`,
 		)
 	}
@@ -111,8 +124,7 @@ func (c *converter) VarAssignment(name string, value string, global bool) error
 }
 
 func (c *converter) SliceAssignment(name string, index string, value string, defaultValue string, global bool) error {
-	c.sliceAssignmentHelperRequired = true
-	c.addLine(fmt.Sprintf(`_sah %s %s "%s" "%s"`, c.varEvaluationString(name, global), index, value, defaultValue))
+	c.addSliceAssignment(c.varEvaluationString(name, global), index, value, defaultValue)
 	return nil
 }
 
@@ -124,7 +136,7 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 	c.addLine(fmt.Sprintf("%s() {", name))
 
 	for i, param := range params {
-		s := c.varAssignmentString(param, fmt.Sprintf("$%d", i+1), false)
+		s := c.varAssignmentString(param, fmt.Sprintf("${%d}", i+1), false)
 		c.addLine(fmt.Sprintf("local %s", s))
 	}
 	return nil
@@ -244,22 +256,22 @@ func (c *converter) Continue() error {
 }
 
 func (c *converter) Print(values []string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", strings.Join(values, " ")))
+	c.addLine(c.printString(strings.Join(values, " ")))
 	return nil
 }
 
 func (c *converter) Panic(value string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", value))
+	c.addLine(c.printString(value))
 	c.addLine("exit 1")
 	return nil
 }
 
 func (c *converter) WriteFile(path string, content string, append string) error {
-	helper := c.nextHelperVar()
-
-	c.VarAssignment(helper, fmt.Sprintf(`$(if [ "%s" -eq "%s" ]; then echo ">>"; else echo ">"; fi)`, append, transpiler.BoolToString(true)), false)
-	c.addLine(fmt.Sprintf(`eval "echo \"%s\" %s %s"`, content, c.varEvaluationString(helper, false), path))
-	return nil
+	c.ifStart(append, "if")
+	c.addLine(fmt.Sprintf(`%s >> "%s"`, c.printString(content), path))
+	c.ElseStart()
+	c.addLine(fmt.Sprintf(`%s > "%s"`, c.printString(content), path))
+	return c.IfEnd()
 }
 
 func (c *converter) Nop() error {
@@ -313,7 +325,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-			c.VarAssignment(helper, fmt.Sprintf("\"%s%s\"", left, right), false)
+			c.VarAssignment(helper, fmt.Sprintf("%s%s", left, right), false)
 		default:
 			return notAllowedError()
 		}
@@ -418,30 +430,21 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, fmt.Sprintf(`_dv%s`, c.varEvaluationString("_dvc", true)), false)
 
-	if len(values) > 0 {
-		vals := ""
-
-		for _, value := range values {
-			vals = fmt.Sprintf(`%s \"%s\"`, vals, value)
-		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), strings.TrimSpace(vals)))
+	for i, value := range values {
+		c.addSliceAssignment(c.varEvaluationString(helper, false), transpiler.IntToString(i), value, "")
 	}
 	return c.varEvaluationString(helper, false), nil
 }
 
 func (c *converter) SliceEvaluation(name string, index string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(
-		helper,
-		c.sliceEvaluationString(name, index),
-		false,
-	)
+	c.addLine(c.sliceEvaluationString(c.varName(helper, false), name, index))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) SliceLen(name string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(name), false)
+	c.addLine(c.sliceLenString(c.varName(helper, false), name))
 
 	return c.VarEvaluation(helper, valueUsed, false)
 }
@@ -470,13 +473,8 @@ func (c *converter) Group(value string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) FuncCall(name string, args []string, returnTypes []parser.ValueType, valueUsed bool) ([]string, error) {
-	argsCopy := args
-
-	for i, arg := range argsCopy {
-		argsCopy[i] = fmt.Sprintf("\"%s\"", arg)
-	}
 	returnValues := []string{}
-	c.addLine(fmt.Sprintf("%s %s", name, strings.Join(argsCopy, " "))) // TODO: Remove general parameter quoting.
+	c.addLine(c.callString(name, args))
 
 	if valueUsed {
 		for i, _ := range returnTypes {
@@ -496,40 +494,26 @@ func (c *converter) FuncCall(name string, args []string, returnTypes []parser.Va
 }
 
 func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]string, error) {
-	callsCopy := calls
 	callStrings := []string{}
 
-	for _, call := range callsCopy {
-		argsCopy := call.Args()
-
-		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "$") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf("\"%s\"", arg)
-			}
-			argsCopy[j] = arg
-		}
-		space := ""
-
-		if len(argsCopy) > 0 {
-			space = " "
-		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+	for _, call := range calls {
+		callStrings = append(callStrings, c.callString(quote(call.Name()), call.Args()))
 	}
 	callString := strings.Join(callStrings, " | ")
 
 	if valueUsed {
-		callString = fmt.Sprintf("$(%s)", callString)
 		helper1 := c.nextHelperVar()
 		helper2 := c.nextHelperVar()
 
-		c.VarDefinition(helper1, callString, false)
+		// Terminate the output by an additional character as trailing newlines get lost otherwise.
+		c.VarDefinition(helper1, fmt.Sprintf("$(%s; _s=$?; printf x; exit ${_s})", callString), false)
+		c.VarDefinition(helper2, "$?", false)
+		c.removeOutputEnd(helper1)
 		eval, err := c.VarEvaluation(helper1, valueUsed, false)
 
 		if err != nil {
 			return nil, err
 		}
-		c.VarDefinition(helper2, "$?", false)
 		return []string{eval, "", c.varEvaluationString(helper2, false)}, nil // TODO: Return stderr (https://github.com/monstermichl/TypeShell/issues/28).
 	}
 	c.addLine(callString)
@@ -542,19 +526,16 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	if len(prompt) > 0 {
 		prompt = fmt.Sprintf(" -p \"%s\"", prompt)
 	}
-	c.addLine(fmt.Sprintf("read%s %s", prompt, helper))
+	c.addLine(fmt.Sprintf("IFS= read -r%s %s", prompt, c.varName(helper, false)))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) Copy(destination string, source string, valueUsed bool, global bool) (string, error) {
-	destination = c.varName(destination, global)
-
-	c.addLine(fmt.Sprintf("_sch %s %s", destination, source))
-	c.sliceAssignmentHelperRequired = true
+	c.addLine(c.callString("_sch", []string{c.varEvaluationString(destination, global), source}))
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(c.varEvaluationString(destination, true)), false)
+	c.VarAssignment(helper, c.varEvaluationString("_ret", true), false)
 
 	return c.varEvaluationString(helper, false), nil
 }
@@ -575,7 +556,10 @@ func (c *converter) Exists(path string, valueUsed bool) (string, error) {
 
 func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, fmt.Sprintf("$(cat \"%s\")", path), false)
+
+	// Terminate the content by an additional character as trailing newlines get lost otherwise.
+	c.VarAssignment(helper, fmt.Sprintf(`$(cat < "%s"; printf x)`, path), false)
+	c.removeOutputEnd(helper)
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -591,34 +575,51 @@ func (c *converter) varName(name string, global bool) string {
 }
 
 func (c *converter) varAssignmentString(name string, value string, global bool) string {
-	length := len(value)
-
-	if length > 0 {
-		if string(value[length-1]) != `"` {
-			value = fmt.Sprintf(`%s"`, value)
-		}
-		if string(value[0]) != `"` {
-			value = fmt.Sprintf(`"%s`, value)
-		}
-	}
-	return fmt.Sprintf("%s=%s", c.varName(name, global), value)
+	return fmt.Sprintf("%s=%s", c.varName(name, global), quote(value))
 }
 
 func (c *converter) varEvaluationString(name string, global bool) string {
 	return fmt.Sprintf("${%s}", c.varName(name, global))
 }
 
-func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
+// sliceAssignmentString returns the code which assigns the value of the given variable to a slice element.
+// As eval runs its argument as code, the value itself must not be part of it.
+func (c *converter) sliceAssignmentString(name string, index string, variable string) string {
+	return fmt.Sprintf(`eval "%s[%s]=\"\${%s}\""`, name, index, variable)
+}
+
+func (c *converter) sliceEvaluationString(variable string, name string, index string) string {
+	return fmt.Sprintf(`eval "%s=\"\${%s[%s]}\""`, variable, name, index)
+}
+
+func (c *converter) sliceLenString(variable string, name string) string {
+	return fmt.Sprintf(`eval "%s=\${#%s[@]}"`, variable, name)
+}
+
+func (c *converter) addSliceAssignment(name string, index string, value string, defaultValue string) {
 	c.sliceAssignmentHelperRequired = true
-	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
+	c.addLine(c.callString("_sah", []string{name, index, value, defaultValue}))
 }
 
-func (c *converter) sliceEvaluationString(name string, index string) string {
-	return fmt.Sprintf(`$(eval "echo \${%s[%s]}")`, name, index)
+func (c *converter) printString(value string) string {
+	return fmt.Sprintf(`printf '%%s\n' %s`, quote(value))
 }
 
-func (c *converter) sliceLenString(name string) string {
-	return fmt.Sprintf(`$(eval "echo \${#%s[@]}")`, name)
+func (c *converter) callString(name string, args []string) string {
+	words := []string{name}
+
+	for _, arg := range args {
+		words = append(words, quote(arg))
+	}
+	return strings.Join(words, " ")
+}
+
+// removeOutputEnd removes the additional character and one trailing newline from a captured output.
+func (c *converter) removeOutputEnd(name string) {
+	variable := c.varName(name, false)
+
+	c.VarAssignment(name, fmt.Sprintf("${%s%%x}", variable), false)
+	c.VarAssignment(name, fmt.Sprintf(`${%s%%$'\n'}`, variable), false)
 }
 
 func (c *converter) ifStart(condition string, startWord string) error {
diff --git a/std/os.tsh b/std/os.tsh
index de27e0d..d01c2cc 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -5,7 +5,7 @@ func Shell() string {
 	if win[:3] == "Win" {
 		shell = "batch"
 	} else {
-		stdout, stderr, code := @ps("-p", "$$", "-o", "args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", `"[0-9a-zA-Z][0-9a-zA-Z]*$"`)
+		stdout, stderr, code := @sh("-c", "ps -p $PPID -o args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", "[0-9a-zA-Z][0-9a-zA-Z]*$")
 		shell = stdout
 	}
 	return shell
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 238a209..4b2cd9f 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -822,7 +822,7 @@ func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expre
 	nextCall := &call
 
 	for nextCall != nil {
-		name := nextCall.Name()
+		name := t.converter.StringToString(nextCall.Name())
 		args := []string{}
 
 		for i, arg := range nextCall.Args() {
-- 
2.43.0


From 0d2d38c237166a4f133943a9b5c8ff430393fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 37/47] fix: support the comparison operators which are
 accepted for strings

---
 converters/bash/converter.go  | 18 ++++++++++++++++--
 converters/batch/converter.go | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 624b349..8bcd525 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -337,6 +337,8 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 
 func (c *converter) Comparison(left string, operator parser.CompareOperator, right string, valueType parser.ValueType, valueUsed bool) (string, error) {
 	var operatorString string
+	trueString := transpiler.BoolToString(true)
+	falseString := transpiler.BoolToString(false)
 
 	if !valueType.IsSlice() {
 		switch valueType.DataType() {
@@ -368,6 +370,18 @@ func (c *converter) Comparison(left string, operator parser.CompareOperator, rig
 				operatorString = "=="
 			case parser.COMPARE_OPERATOR_NOT_EQUAL:
 				operatorString = "!="
+			case parser.COMPARE_OPERATOR_GREATER:
+				operatorString = "\\>"
+			case parser.COMPARE_OPERATOR_GREATER_OR_EQUAL:
+				// Bash only knows the opposite.
+				operatorString = "\\<"
+				trueString, falseString = falseString, trueString
+			case parser.COMPARE_OPERATOR_LESS:
+				operatorString = "\\<"
+			case parser.COMPARE_OPERATOR_LESS_OR_EQUAL:
+				// Bash only knows the opposite.
+				operatorString = "\\>"
+				trueString, falseString = falseString, trueString
 			}
 		}
 	}
@@ -383,8 +397,8 @@ func (c *converter) Comparison(left string, operator parser.CompareOperator, rig
 			left,
 			operatorString,
 			right,
-			transpiler.BoolToString(true),
-			transpiler.BoolToString(false),
+			trueString,
+			falseString,
 		),
 		false,
 	)
diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index c805a52..9345496 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -491,6 +491,10 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 func (c *converter) Comparison(left string, operator parser.CompareOperator, right string, valueType parser.ValueType, valueUsed bool) (string, error) {
 	EQUAL_OPERATOR := "equ"
 	NOT_EQUAL_OPERATOR := "neq"
+	GREATER_OPERATOR := "gtr"
+	GREATER_OR_EQUAL_OPERATOR := "geq"
+	LESS_OPERATOR := "lss"
+	LESS_OR_EQUAL_OPERATOR := "leq"
 
 	var operatorString string
 	quote := ""
@@ -511,13 +515,13 @@ func (c *converter) Comparison(left string, operator parser.CompareOperator, rig
 			case parser.COMPARE_OPERATOR_NOT_EQUAL:
 				operatorString = NOT_EQUAL_OPERATOR
 			case parser.COMPARE_OPERATOR_GREATER:
-				operatorString = "gtr"
+				operatorString = GREATER_OPERATOR
 			case parser.COMPARE_OPERATOR_GREATER_OR_EQUAL:
-				operatorString = "geq"
+				operatorString = GREATER_OR_EQUAL_OPERATOR
 			case parser.COMPARE_OPERATOR_LESS:
-				operatorString = "lss"
+				operatorString = LESS_OPERATOR
 			case parser.COMPARE_OPERATOR_LESS_OR_EQUAL:
-				operatorString = "leq"
+				operatorString = LESS_OR_EQUAL_OPERATOR
 			}
 		case parser.DATA_TYPE_STRING:
 			switch operator {
@@ -525,6 +529,14 @@ func (c *converter) Comparison(left string, operator parser.CompareOperator, rig
 				operatorString = EQUAL_OPERATOR
 			case parser.COMPARE_OPERATOR_NOT_EQUAL:
 				operatorString = NOT_EQUAL_OPERATOR
+			case parser.COMPARE_OPERATOR_GREATER:
+				operatorString = GREATER_OPERATOR
+			case parser.COMPARE_OPERATOR_GREATER_OR_EQUAL:
+				operatorString = GREATER_OR_EQUAL_OPERATOR
+			case parser.COMPARE_OPERATOR_LESS:
+				operatorString = LESS_OPERATOR
+			case parser.COMPARE_OPERATOR_LESS_OR_EQUAL:
+				operatorString = LESS_OR_EQUAL_OPERATOR
 			}
 			quote = `"` // Strings shall be quoted.
 		}
-- 
2.43.0


From bdbd4027e0d04a01825da7e2851a5ef5ecef25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 38/47] fix: Batch input/copy results and copy helper
 dependencies

---
 converters/batch/converter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 9345496..cd4c309 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -165,7 +165,6 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceCopyHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Destination slice
 		// %2: Source slice
@@ -743,7 +742,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 
 func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, helper, prompt))
+	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, c.varName(helper, false), prompt))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -751,8 +750,10 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 	c.callFunc(sliceCopyHelper, []string{}, c.varName(destination, global), source)
 
-	c.callFunc(sliceLenGetHelper, []string{}, c.varEvaluationString(destination, global))
-	return c.varEvaluationString("_len", true), nil
+	helper := c.nextHelperVar()
+	c.VarAssignment(helper, c.varEvaluationString("_i", true), false)
+
+	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) Exists(path string, valueUsed bool) (string, error) {
-- 
2.43.0


From 29c3ef3d4cf6aca663881944d3e6cca9a753c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 39/47] fix: std/strings corner cases (empty strings and
 separators, counts)

---
 std/strings.tsh | 76 ++++++++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 49 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index e9426f9..c8920ed 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -2,19 +2,9 @@ func Index(s string, substr string) int {
 	sul := len(substr)
 	ind := -1
 
-	for i := 0; i < len(s); i++ {
-		j := 0
-
-		for ; j < sul; j++ {
-			si := i + j
-			char := s[si]
-
-			if s[i+j] != substr[j] {
-				break
-			}
-		}
-
-		if j == sul {
+	// An empty substring is even contained in an empty string.
+	for i := 0; i <= len(s)-sul; i++ {
+		if s[i:i+sul] == substr {
 			ind = i
 			break
 		}
@@ -53,8 +43,7 @@ func HasSuffix(s string, suffix string) bool {
 	l := len(suffix)
 
 	if len(s) >= l {
-		l *= -1
-		return s[l:] == suffix
+		return s[len(s)-l:] == suffix
 	}
 	return false
 }
@@ -84,48 +73,41 @@ func Split(s string, sep string) []string {
 	sepLen := len(sep)
 	elems := []string{}
 
-	// If s and sep are empty, slice will be empty.
-	if sLen > 0 || sepLen > 0 {
+	if sepLen == 0 {
+		// If sep is empty, split after every char.
+		for i := 0; i < sLen; i++ {
+			elems[i] = s[i]
+		}
+	} else {
 		startI := 0
 		endI := 0
 		elIndex := 0
-		boundary := len(s)
 
-		if sLen > 0 {
-			boundary -= sepLen
-		}
-
-		for endI <= boundary {
+		for endI <= sLen-sepLen {
 			if s[endI:endI+sepLen] == sep {
-				sepEmpty := sepLen == 0
-
-				// If sep is empty, split after every char.
-				if sepEmpty {
-					endI++
-				}
-
-				if !sepEmpty || endI <= boundary {
-					elems[elIndex] = s[startI:endI]
-					endI += sepLen
-					startI = endI
-				}
+				elems[elIndex] = s[startI:endI]
+				endI += sepLen
+				startI = endI
 				elIndex++
-			} else if endI == boundary {
-				// Add last element to slice.
-				elems[elIndex] = s[startI:]
-				break
 			} else {
 				endI++
 			}
 		}
+
+		// Add last element to slice.
+		elems[elIndex] = s[startI:]
 	}
 	return elems
 }
 
 func Repeat(s string, count int) string {
-	new := s
+	new := ""
 
-	for i := 1; i < count; i++ {
+	if count < 0 {
+		panic("strings: negative Repeat count")
+	}
+
+	for i := 0; i < count; i++ {
 		new += s
 	}
 	return new
@@ -138,7 +120,7 @@ func Replace(s string, old string, new string, n int) string {
 	lenOld := len(old)
 	lenNew := len(new)
 
-	if lenOld == 0 {
+	if lenOld == 0 && n != 0 {
 		res = new
 		rep++
 	}
@@ -181,14 +163,10 @@ func CutSuffix(s string, suffix string) (string, bool) {
 }
 
 func Cut(s string, sep string) (string, string, bool) {
-	lenS := len(s)
+	i := Index(s, sep)
 
-	if lenS > 0 {
-		i := Index(s, sep)
-
-		if i >= 0 {
-			return s[0:i], s[i+len(sep):], true
-		}
+	if i >= 0 {
+		return s[0:i], s[i+len(sep):], true
 	}
 	return s, "", false
 }
-- 
2.43.0


From 25acd5363e934620c59a321c9542065e8fc06cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 40/47] fix: tsh writes exactly one complete output per target
 or fails

---
 tsh.go | 74 +++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/tsh.go b/tsh.go
index 92bab69..0feff9e 100644
--- a/tsh.go
+++ b/tsh.go
@@ -16,15 +16,16 @@ const (
 	typeBash  string = "bash"
 )
 
-var convMapping = map[string]transpiler.Converter{
-	typeBatch: batch.New(),
-	typeBash:  bash.New(),
+// A converter collects the code of one transpilation. Therefore, each transpilation needs a new one.
+var convMapping = map[string]func() transpiler.Converter{
+	typeBatch: func() transpiler.Converter { return batch.New() },
+	typeBash:  func() transpiler.Converter { return bash.New() },
 }
 
 type options struct {
-	in         string
-	out        string
-	converters []transpiler.Converter
+	in    string
+	out   string
+	types []string
 }
 
 func parseOptions() options {
@@ -36,6 +37,10 @@ func parseOptions() options {
 		types = append(types, k)
 	}
 
+	if len(args)%2 == 0 {
+		panic(fmt.Errorf("no value provided for option %s", args[len(args)-1]))
+	}
+
 	for i := 1; i < (len(args) - 1); i += 2 {
 		cSwitch := args[i]
 		cValue := args[i+1]
@@ -58,12 +63,10 @@ func parseOptions() options {
 			}
 			options.out = cValue
 		case "-t", "--type":
-			conv, ok := convMapping[cValue]
-
-			if !ok {
+			if _, ok := convMapping[cValue]; !ok {
 				panic(fmt.Errorf("unknown converter type %s. Allowed types are %s", cValue, strings.Join(types, ", ")))
 			}
-			options.converters = append(options.converters, conv)
+			options.types = append(options.types, cValue)
 		default:
 			panic(fmt.Errorf("unknown option %s", cSwitch))
 		}
@@ -73,17 +76,52 @@ func parseOptions() options {
 		panic("no input file provided (-i/--in)")
 	} else if len(options.out) == 0 {
 		panic("no output directory provided (-o/--out)")
-	} else if len(options.converters) == 0 {
+	} else if len(options.types) == 0 {
 		panic("no output type provided (-t/--type)")
 	}
 	return options
 }
 
+func isSameFile(path1 string, path2 string) bool {
+	stat1, err := os.Stat(path1)
+
+	if err != nil {
+		return false
+	}
+	stat2, err := os.Stat(path2)
+
+	return err == nil && os.SameFile(stat1, stat2)
+}
+
+// writeFile writes the complete content to the file or leaves it as it is.
+func writeFile(path string, content string) error {
+	file, err := os.OpenFile(fmt.Sprintf("%s.tmp%d", path, os.Getpid()), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0777)
+
+	if err != nil {
+		return err
+	}
+	_, err = file.WriteString(content)
+
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+
+	if err == nil {
+		err = os.Rename(file.Name(), path)
+	}
+
+	if err != nil {
+		os.Remove(file.Name())
+	}
+	return err
+}
+
 func main() {
 	options := parseOptions()
 	t := transpiler.New()
 
-	for _, conv := range options.converters {
+	for _, convType := range options.types {
+		conv := convMapping[convType]()
 		in := options.in
 		dump, err := t.Transpile(in, conv)
 
@@ -93,6 +131,16 @@ func main() {
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
 
-		os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		out := filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension()))
+
+		// Make sure the input file doesn't get overwritten.
+		if isSameFile(in, out) {
+			panic(fmt.Errorf("output file %s would overwrite the input file", out))
+		}
+		err = writeFile(out, dump)
+
+		if err != nil {
+			panic(err)
+		}
 	}
 }
-- 
2.43.0


From 3bd64fbf4dc9f580e0899de3c85dda17caca6338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 41/47] fix: tsh writes exactly one complete output per target
 or fails (short temporary name)

---
 tsh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index 0feff9e..438e473 100644
--- a/tsh.go
+++ b/tsh.go
@@ -95,7 +95,7 @@ func isSameFile(path1 string, path2 string) bool {
 
 // writeFile writes the complete content to the file or leaves it as it is.
 func writeFile(path string, content string) error {
-	file, err := os.OpenFile(fmt.Sprintf("%s.tmp%d", path, os.Getpid()), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0777)
+	file, err := os.OpenFile(filepath.Join(filepath.Dir(path), fmt.Sprintf(".tsh%d.tmp", os.Getpid())), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0777)
 
 	if err != nil {
 		return err
-- 
2.43.0


From a72ae70062daa428bc20c10c719326aae60f5b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 42/47] fix: accept slice literals in the header of for-loops

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d731ea1..a71b957 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2075,8 +2075,8 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		// Therefore create a fake condition.
 		if nextTokenType == lexer.OPENING_CURLY_BRACKET {
 			condition = trueCondition
-		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.OPENING_CURLY_BRACKET); err == nil {
-			// If a semicolon was found before the curly bracket, consider for as a three-part for-loop.
+		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.NEWLINE); err == nil {
+			// If a semicolon was found in the header, consider for as a three-part for-loop.
 			nextToken := p.peek()
 
 			// If the next token is not a semicolon, consider it a statement.
-- 
2.43.0


From 8cd0276eccc38c2d8ca10839a4ba10624e3e02b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 43/47] fix: accept several variables in the initialization of
 a for-loop

---
 parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a71b957..fd46fa6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1934,8 +1934,12 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 	// Clone context to avoid modification of the original.
 	ctx = ctx.clone()
 
+	// If there's a semicolon in the header, a comma is part of the initialization (e.g. for i, j := 0, 1; ...).
+	_, err := p.findBefore(lexer.SEMICOLON, lexer.NEWLINE)
+	isThreePart := err == nil
+
 	// If next token is an identifier and the one after it a comma or a short-init operator and range keyword, parse a for-range statement.
-	if nextTokenType == lexer.IDENTIFIER && (nextAfterNextTokenType == lexer.COMMA || (nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE)) {
+	if nextTokenType == lexer.IDENTIFIER && ((nextAfterNextTokenType == lexer.COMMA && !isThreePart) || (nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE)) {
 		p.eat()
 		err := p.checkNewVariableNameToken(nextToken, ctx)
 
@@ -2075,7 +2079,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		// Therefore create a fake condition.
 		if nextTokenType == lexer.OPENING_CURLY_BRACKET {
 			condition = trueCondition
-		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.NEWLINE); err == nil {
+		} else if isThreePart {
 			// If a semicolon was found in the header, consider for as a three-part for-loop.
 			nextToken := p.peek()
 
-- 
2.43.0


From bd2933dda0541af50da33f469e362bc986b2dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 44/47] fix: accept assignments of several return values in the
 header of a for-loop

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fd46fa6..453e196 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2105,7 +2105,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					if err != nil {
 						return nil, err
 					}
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment or variable definition", nextToken)
 				}
@@ -2144,7 +2144,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					return nil, err
 				}
 				switch increment.StatementType() {
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment", nextToken)
 				}
-- 
2.43.0


From c04d0e37677d683087d2593a4c1f5e0ae344df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:13 +0000
Subject: [PATCH 45/47] fix: blocks which only contain unused values resulted
 in empty blocks

---
 transpiler/transpiler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 4b2cd9f..9f61b84 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -1018,6 +1018,11 @@ func (t *transpiler) evaluate(statement parser.Statement) error {
 			return fmt.Errorf("statement is not an expression (%v)", statement)
 		}
 		_, err := t.evaluateExpression(expression, false)
+
+		// A value which is not used might not result in any code but a block must not be empty.
+		if err == nil && !slices.Contains([]parser.StatementType{parser.STATEMENT_TYPE_FUNCTION_CALL, parser.STATEMENT_TYPE_APP_CALL}, statementType) {
+			err = t.converter.Nop()
+		}
 		return err
 	}
 }
-- 
2.43.0


From cab3fceaad4344dc0881aeaa495cdbd963c10841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 46/47] fix: the prompt of an input whose value is not used got
 lost if it was returned by a function

---
 transpiler/transpiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 9f61b84..13d599e 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -876,7 +876,7 @@ func (t *transpiler) evaluateInput(input parser.Input, valueUsed bool) (expressi
 	prompt := input.Prompt()
 
 	if prompt != nil {
-		result, err := t.evaluateExpression(prompt, valueUsed)
+		result, err := t.evaluateExpression(prompt, true)
 
 		if err != nil {
 			return expressionResult{}, err
-- 
2.43.0


From 9396986475d5363df46f4bc19e81d376f25ac12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 47/47] fix: reject branches after the else-branch of an if
 statement

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 453e196..3506ebf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1777,6 +1777,7 @@ func (p *Parser) evaluateIf(ctx context) (Statement, error) {
 				ifStatement.elseBranch = Else{
 					body: statements,
 				}
+				break // The else-branch is always the last one.
 			} else {
 				ifStatement.elifBranches = append(ifStatement.elifBranches, IfBranch{
 					condition: condition,
-- 
2.43.0

