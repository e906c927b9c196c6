package main

// Reference tokenizer: the token grammar, written as one left-to-right scanner. It also knows the extent of
// every token, which the layout checks use.

import (
	"strconv"
	"strings"

	lx "github.com/monstermichl/typeshell/lexer"
)

type rtok struct {
	T          lx.TokenType
	V          string
	Start, End int
	R, C       int
	NoCol      bool // non-ASCII text before it on its line
}

var rkw = map[string]lx.TokenType{
	"import": lx.IMPORT, "var": lx.VAR_DEFINITION, "func": lx.FUNCTION_DEFINITION, "return": lx.RETURN, "if": lx.IF, "else": lx.ELSE, "switch": lx.SWITCH, "case": lx.CASE, "default": lx.DEFAULT, "for": lx.FOR, "range": lx.RANGE, "break": lx.BREAK, "continue": lx.CONTINUE,
	"nil": lx.NIL_LITERAL, "true": lx.BOOL_LITERAL, "false": lx.BOOL_LITERAL, "len": lx.LEN, "print": lx.PRINT, "input": lx.INPUT, "copy": lx.COPY, "itoa": lx.ITOA, "exists": lx.EXISTS, "read": lx.READ, "write": lx.WRITE, "panic": lx.PANIC,
	"bool": lx.DATA_TYPE, "int": lx.DATA_TYPE, "string": lx.DATA_TYPE, "error": lx.DATA_TYPE,
}

var rops = map[string]lx.TokenType{
	"(": lx.OPENING_ROUND_BRACKET, ")": lx.CLOSING_ROUND_BRACKET, "[": lx.OPENING_SQUARE_BRACKET, "]": lx.CLOSING_SQUARE_BRACKET, "{": lx.OPENING_CURLY_BRACKET, "}": lx.CLOSING_CURLY_BRACKET,
	"==": lx.COMPARE_OPERATOR, "!=": lx.COMPARE_OPERATOR, "<=": lx.COMPARE_OPERATOR, ">=": lx.COMPARE_OPERATOR, "<": lx.COMPARE_OPERATOR, ">": lx.COMPARE_OPERATOR,
	"&&": lx.LOGICAL_OPERATOR, "||": lx.LOGICAL_OPERATOR, "+=": lx.COMPOUND_ASSIGN_OPERATOR, "-=": lx.COMPOUND_ASSIGN_OPERATOR, "*=": lx.COMPOUND_ASSIGN_OPERATOR, "/=": lx.COMPOUND_ASSIGN_OPERATOR, "%=": lx.COMPOUND_ASSIGN_OPERATOR,
	"=": lx.ASSIGN_OPERATOR, ":=": lx.SHORT_INIT_OPERATOR, "++": lx.INCREMENT_OPERATOR, "--": lx.DECREMENT_OPERATOR, "!": lx.UNARY_OPERATOR, "+": lx.BINARY_OPERATOR, "-": lx.BINARY_OPERATOR, "*": lx.BINARY_OPERATOR, "/": lx.BINARY_OPERATOR, "%": lx.BINARY_OPERATOR,
	",": lx.COMMA, ":": lx.COLON, ";": lx.SEMICOLON, ".": lx.DOT, "@": lx.AT, "|": lx.PIPE, "\n": lx.NEWLINE,
}

func isDig(c byte) bool { return c >= '0' && c <= '9' }
func isLet(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// refLex returns the tokens, whether the text is an error and whether its meaning isn't specified.
func refLex(src string) (ts []rtok, bad, unspec bool) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	row, line := 1, 0 // line: offset of the first character of the row
	ascii := true
	i := 0
	advance := func(to int) {
		for ; i < to; i++ {
			if src[i] == '\n' {
				row++
				line = i + 1
				ascii = true
			} else if src[i] >= 0x80 {
				ascii = false
			}
		}
	}
	at := func(k int) byte {
		if k < len(src) {
			return src[k]
		}
		return 0
	}
	operand := func() bool {
		if len(ts) == 0 {
			return false
		}
		switch ts[len(ts)-1].T {
		case lx.IDENTIFIER, lx.BOOL_LITERAL, lx.NUMBER_LITERAL, lx.STRING_LITERAL, lx.NIL_LITERAL, lx.CLOSING_ROUND_BRACKET, lx.CLOSING_SQUARE_BRACKET:
			return true
		}
		return false
	}
	add := func(t lx.TokenType, v string, end int) {
		ts = append(ts, rtok{t, v, i, end, row, i - line + 1, !ascii})
		advance(end)
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t':
			advance(i + 1)
		case c == '/' && at(i+1) == '/':
			j := i
			for j < len(src) && src[j] != '\n' {
				j++
			}
			advance(j)
		case c == '/' && at(i+1) == '*':
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return ts, true, unspec
			}
			advance(i + 2 + j + 2)
		case c == '`':
			j := strings.IndexByte(src[i+1:], '`')
			if j < 0 {
				return ts, true, unspec
			}
			v := src[i+1 : i+1+j]
			if strings.Contains(v, "\r") {
				unspec = true
			}
			add(lx.STRING_LITERAL, v, i+1+j+1)
		case c == '"':
			j := i + 1
			v := []byte{}
			for {
				if j >= len(src) {
					return ts, true, unspec
				}
				if src[j] == '"' {
					break
				}
				if src[j] == '\n' || src[j] == '\r' {
					unspec = true
				}
				if src[j] != '\\' {
					v = append(v, src[j])
					j++
					continue
				}
				k := j + 2
				switch at(j + 1) {
				case 'x':
					k = j + 4
				case 'u':
					k = j + 6
				case 'U':
					k = j + 10
				case '0', '1', '2', '3', '4', '5', '6', '7':
					k = j + 4
				}
				if k > len(src) {
					return ts, true, unspec
				}
				s, err := strconv.Unquote(`"` + src[j:k] + `"`)
				if err != nil {
					return ts, true, unspec
				}
				v = append(v, s...)
				j = k
			}
			add(lx.STRING_LITERAL, string(v), j+1)
		case isDig(c) || c == '-' && isDig(at(i+1)) && !operand():
			if c == '-' && len(ts) > 0 && ts[len(ts)-1].T == lx.CLOSING_CURLY_BRACKET {
				unspec = true
			}
			j := i + 1
			for isDig(at(j)) {
				j++
			}
			if at(j) == '.' && isDig(at(j+1)) {
				j++
				for isDig(at(j)) {
					j++
				}
			}
			add(lx.NUMBER_LITERAL, src[i:j], j)
		case isLet(c):
			j := i
			for isLet(at(j)) || isDig(at(j)) {
				j++
			}
			w := src[i:j]
			t, ok := rkw[w]
			if !ok {
				t = lx.IDENTIFIER
			}
			add(t, w, j)
		default:
			if i+2 <= len(src) {
				if t, ok := rops[src[i:i+2]]; ok {
					add(t, src[i:i+2], i+2)
					continue
				}
			}
			t, ok := rops[string(c)]
			if !ok {
				return ts, true, unspec
			}
			add(t, string(c), i+1)
		}
	}
	add(lx.EOF, "", i)
	return ts, false, unspec
}
