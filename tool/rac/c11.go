package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C11"] = checkC11 }

var lexBits = []string{
	"import", "var", "func", "return", "if", "else", "switch", "case", "default", "for", "range", "break", "continue", "nil", "true", "false", "len", "print", "input", "copy", "itoa", "exists", "read", "write", "panic", "bool", "int", "string", "error",
	"(", ")", "[", "]", "{", "}", "==", "!=", "<=", ">=", "<", ">", "&&", "||", "+=", "-=", "*=", "/=", "%=", "=", ":=", "++", "--", "!", "+", "-", "*", "/", "%", ",", ":", ";", ".", "@", "|", "\n", "\r\n", " ", "\t", "  ",
	"a", "x1", "_", "trueish", "nilx", "format", "iff", "_if", "returns", "lens", "e1", "True", "integer", "x", "falsey", "forx", "in", "printer",
	"0", "1", "42", "-1", "-42", "007", "1.5", "-0", "9223372036854775807", "3.", "1a", "a1",
	`""`, `"a"`, `"a b"`, `"\n"`, `"\t\\\""`, `"\x41\101é\U0001F600"`, `"ü"`, "\"\xff\"", "`raw`", "`a\\nb`", "`a\nb\nc`", "`ü`", `"//"`, `"/*"`, "`*/`", `"'"`, `"\a\b\f\r\v"`, "``", `"\377"`, `" "`,
	"// comment", "//", "/* c */", "/**/", "/***/", "/* a\nb */", "/* * / */", "// /* x", "/* // */", "/*/ */", "//\"", "/* \" */", "/* ü */",
}
var lexBad = []string{`"`, "`", "/*", "&", "#", "$", "~", "?", "'", "\\", "^", "\x00", "\x7f", "ü", "\xff", `"\q"`, `"\'"`, `"\x4"`, `"\u12"`, `"\400"`, `"\ud800"`, "\r", "/*/", "\f"}

const lexChars = " \t\n\n\"`\\/*-+=!<>&|:;.,()[]{}@%azAZ_09tnxu1"

func checkC11(h *harness) {
	h.each(runs(h, 120000), func(l *lane, r *rand.Rand, i int) {
		b := strings.Builder{}
		switch i % 4 {
		case 0, 1: // lexemes with and without separators
			sep := r.Intn(3)
			for n := 1 + r.Intn(14); n > 0; n-- {
				if r.Intn(60) == 0 {
					b.WriteString(lexBad[r.Intn(len(lexBad))])
				} else {
					b.WriteString(lexBits[r.Intn(len(lexBits))])
				}
				if sep == 1 || sep == 2 && r.Intn(2) == 0 {
					b.WriteString([]string{" ", "\t", "\n", "/**/", " // x\n", "\r\n"}[r.Intn(6)])
				}
			}
		case 2: // arbitrary characters of the alphabet
			for n := 1 + r.Intn(24); n > 0; n-- {
				b.WriteByte(lexChars[r.Intn(len(lexChars))])
			}
		case 3: // string literals
			for n := 1 + r.Intn(3); n > 0; n-- {
				s := ""
				for k := r.Intn(12); k > 0; k-- {
					switch r.Intn(5) {
					case 0:
						s += string(rune(r.Intn(0x2fff)))
					case 1:
						s += nasty[r.Intn(len(nasty))]
					default:
						s += string(rune(32 + r.Intn(95)))
					}
				}
				switch r.Intn(4) {
				case 0:
					s = "`" + strings.ReplaceAll(s, "`", "'") + "`"
				case 1:
					s = fmt.Sprintf("%+q", s)
				case 2:
					s = fmt.Sprintf("%q", s)
				default:
					s = quoteStr(s, false)
				}
				b.WriteString(s + []string{" ", "\n", "+", "", " // c\n"}[r.Intn(5)])
			}
		}
		src := b.String()
		want, bad, unspec := refLex(src)
		o := l.do(&req{DoLex: true, Lex: src})
		if o.Crash+o.Panic != "" {
			h.fail("the tokenizer crashes", "source", fmt.Sprintf("%q", src), "observed", o.Crash+o.Panic)
			return
		}
		if unspec {
			h.count("C11 discarded", 1)
			return
		}
		if o.WasErr != bad {
			h.fail(map[bool]string{true: "an invalid text is tokenized", false: "a valid text is rejected"}[bad], "source", fmt.Sprintf("%q", src), "observed", fmt.Sprint(o.Err, o.Toks))
			return
		}
		if bad {
			h.count("C11 rejected texts", 1)
			return
		}
		diff := ""
		for k := 0; k < len(want) || k < len(o.Toks); k++ {
			if k >= len(want) || k >= len(o.Toks) {
				diff = fmt.Sprintf("%d tokens instead of %d", len(o.Toks), len(want))
				break
			}
			w, g := want[k], o.Toks[k]
			if int(w.T) != g.T || w.V != g.V || w.R != g.R || w.C != g.C && !w.NoCol {
				diff = fmt.Sprintf("token %d: type %d value %q row %d column %d instead of type %d value %q row %d column %d", k, g.T, g.V, g.R, g.C, w.T, w.V, w.R, w.C)
				break
			}
		}
		if diff != "" {
			h.fail("the tokens differ from the token grammar: "+diff, "source", fmt.Sprintf("%q", src))
			return
		}
		h.count("C11 accepted texts", 1)
		h.count("C11 tokens", len(want))
	})
}
