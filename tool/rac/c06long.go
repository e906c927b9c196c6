package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// longCase is a construct with a long list of elements of which at most one (at any position) is ill-typed.
func longCase(r *rand.Rand) (src string, ok int, what string) {
	k := 2 + r.Intn(9)
	bad := -1
	if r.Intn(2) == 0 {
		bad = r.Intn(k)
		if r.Intn(3) == 0 {
			bad = k - 1
		}
	}
	ok = b2i(bad < 0)
	ex := func(t string) string {
		x := shapes[t][r.Intn(len(shapes[t]))]
		for x == "nil" || x == "gi" {
			x = shapes[t][r.Intn(len(shapes[t]))]
		}
		if strings.ContainsAny(x, " !") && !strings.HasPrefix(x, "(") || strings.HasPrefix(x, "(") && !strings.HasSuffix(x, ")") || strings.HasPrefix(x, "-") {
			x = "(" + x + ")"
		}
		if strings.Contains(x, ") ") {
			x = "(" + x + ")"
		}
		return x
	}
	other := func(ts ...string) string {
		for {
			t := allTy[r.Intn(len(allTy))]
			in := false
			for _, u := range ts {
				in = in || t == u
			}
			if !in {
				return t
			}
		}
	}
	elem := func(i int, t string) string {
		if i == bad {
			t = other(t)
		}
		return ex(t)
	}
	each := func(sep string, f func(i int) string) string {
		l := []string{}
		for i := 0; i < k; i++ {
			l = append(l, f(i))
		}
		return strings.Join(l, sep)
	}
	types := make([]string, k)
	for i := range types {
		types[i] = single[r.Intn(len(single))]
	}
	if r.Intn(3) == 0 {
		for i := range types {
			types[i] = types[0]
		}
	}
	pre, text := "", ""
	params := each(", ", func(i int) string { return fmt.Sprintf("p%d %s", i, tyName[types[i]]) })
	rets := each(", ", func(i int) string { return tyName[types[i]] })
	vars := each("\n", func(i int) string { return fmt.Sprintf("var v%d %s", i, tyName[types[i]]) }) + "\n"
	names := each(", ", func(i int) string { return fmt.Sprintf("v%d", i) })
	news := each(", ", func(i int) string { return fmt.Sprintf("n%d", i) })
	count := func(l string) string { // one element too many or missing
		if r.Intn(2) == 0 {
			return l + ", " + ex(single[r.Intn(len(single))])
		}
		return l[:strings.LastIndex(l, ", ")]
	}
	arity := false
	if bad >= 0 && r.Intn(4) == 0 {
		arity, bad = true, -1
	}
	list := func() string {
		l := each(", ", func(i int) string {
			t := types[i]
			if i == bad {
				t = other(t)
			}
			// Parts of expressions without a comma, so that the list can be cut.
			x := ex(t)
			for strings.Contains(x, ",") {
				x = ex(t)
				if t == "LI" || t == "LB" || t == "LS" {
					x = map[string]string{"LI": "li", "LB": "lb", "LS": "ls"}[t]
				}
			}
			return x
		})
		if arity {
			return count(l)
		}
		return l
	}
	var kind string
	switch n := r.Intn(20); n {
	case 0:
		kind = "call"
		pre = "func lf(" + params + ") {\n}\n"
		text = "lf(" + list() + ")"
	case 1:
		kind = "return"
		pre = "func lf() (" + rets + ") {\n" + c06Vars + "return " + list() + "\n}\n"
	case 2:
		kind = "assignment"
		text = vars + names + " = " + list()
	case 3:
		kind = "definition"
		t := ""
		for i := range types {
			types[i] = types[0]
		}
		if t = " " + tyName[types[0]]; arity || bad < 0 && r.Intn(2) == 0 {
			t = ""
		}
		text = "var " + news + t + " = " + list()
	case 4:
		kind = "short definition"
		for i := range types {
			if i == bad {
				bad = -2
				types[i] = []string{"V", "M"}[r.Intn(2)]
			}
		}
		text = news + " := " + list()
	case 5:
		kind = "redefinition"
		text = ""
		text = each("", func(i int) string {
			if i == 0 {
				return ""
			}
			return fmt.Sprintf("var n%d %s\n", i, tyName[types[i]])
		})
		if bad == 0 {
			bad = 1
		}
		text += news + " := " + list()
	case 6:
		kind = "assignment of a call"
		pre = "func lf() (" + rets + ") {\npanic(\"x\")\n}\n"
		if bad >= 0 {
			types[bad] = single[r.Intn(len(single))]
			ok = -1
		}
		was := vars
		text = each("\n", func(i int) string { return fmt.Sprintf("var v%d %s", i, tyName[types[i]]) }) + "\n"
		if text == was {
			ok = 1
		} else {
			ok = 0
		}
		if arity {
			ok = 0
			if r.Intn(2) == 0 {
				names += ", iv"
			} else {
				names = names[:strings.LastIndex(names, ", ")]
			}
		}
		text += names + " = lf()"
	case 7:
		kind = "arguments by a call"
		pre = "func lf() (" + rets + ") {\npanic(\"x\")\n}\n"
		if bad >= 0 {
			t := types[bad]
			for t == types[bad] {
				t = single[r.Intn(len(single))]
			}
			types[bad] = t
		}
		params = each(", ", func(i int) string { return fmt.Sprintf("p%d %s", i, tyName[types[i]]) })
		if arity {
			if r.Intn(2) == 0 {
				params += ", px int"
			} else {
				params = params[:strings.LastIndex(params, ", ")]
			}
		}
		pre += "func lg(" + params + ") {\n}\n"
		text = "lg(lf())"
	case 8:
		kind = "slice literal"
		t := []string{"I", "B", "S"}[r.Intn(3)]
		if arity {
			ok = 1
		}
		text = "q := " + tyName["L"+t] + "{" + each(", ", func(i int) string { return elem(i, t) }) + "}"
	case 9:
		kind = "print"
		if arity {
			ok = 1
		}
		text = "print(" + each(", ", func(i int) string {
			if i == bad {
				return ex([]string{"V", "M"}[r.Intn(2)])
			}
			return ex([]string{"I", "B", "S"}[r.Intn(3)])
		}) + ")"
	case 10, 11:
		kind = "if"
		if arity {
			switch r.Intn(3) {
			case 0:
				text = " else {\n} else {\n}"
			case 1:
				text = " else {\n} else if bv {\n}"
			default:
				text = " else\n{\n}"
			}
		} else if r.Intn(2) == 0 {
			text = " else {\n}"
		}
		text = "if " + each(" else if ", func(i int) string { return elem(i, "B") + " {\nprint(1)\n}" }) + text
	case 12, 13:
		kind = "switch"
		t := []string{"I", "B", "S"}[r.Intn(3)]
		head := "switch " + ex(t)
		if t == "B" && r.Intn(2) == 0 {
			head = "switch"
		}
		tail := ""
		if arity {
			tail = "default:\nprint(2)\ndefault:\nprint(3)\n"
			if r.Intn(2) == 0 {
				tail = "default:\ncase " + ex(t) + ":\ndefault:\n"
			}
		} else if r.Intn(2) == 0 {
			tail = "default:\nprint(2)\n"
		}
		text = head + " {\n" + each("", func(i int) string {
			return "case " + elem(i, t) + ":\nprint(1)\n"
		}) + tail + "}"
	case 14:
		kind = "operators"
		if arity {
			ok = 1
		}
		t, ops := "I", []string{" + ", " - ", " * ", " / ", " % "}
		switch r.Intn(3) {
		case 0:
			t, ops = "S", []string{" + "}
		case 1:
			t, ops = "B", []string{" && ", " || "}
		}
		text = "q := " + elem(0, t)
		for i := 1; i < k; i++ {
			text += ops[r.Intn(len(ops))] + elem(i, t)
		}
	case 15:
		kind = "statements"
		if arity {
			ok = 1
		}
		text = each("\n", func(i int) string {
			t := types[i]
			v := map[string]string{"I": "iv", "B": "bv", "S": "sv", "LI": "li", "LB": "lb", "LS": "ls"}[t]
			return v + " = " + elem(i, t)
		})
	case 16:
		kind = "nested blocks"
		if arity {
			ok = 1
		}
		t := "B"
		if bad >= 0 {
			t = other("B")
		}
		end := ""
		for i := 0; i < k; i++ {
			x := ex("B")
			if i == bad {
				x = ex(t)
			}
			switch r.Intn(3) {
			case 0:
				text += "if " + x + " {\n"
				end = "}\n" + end
			case 1:
				text += "for " + x + " {\n"
				end = "break\n}\n" + end
			default:
				text += "switch {\ncase " + x + ":\n"
				end = "}\n" + end
			}
		}
		text += end
	case 17:
		kind = "nested calls"
		if arity {
			ok = 1
		}
		in := ex("I")
		for i := 0; i < k; i++ {
			if i == bad {
				in = ex(other("I"))
			}
			in = []string{"fi1(", "f2(1, ", "(2 + ", "(3 * ", "len(f2s(fs1(itoa(1)), ", "len(itoa("}[r.Intn(6)] + in + ")"
			if strings.HasPrefix(in, "len(itoa(") || strings.HasPrefix(in, "len(f2s(") {
				in += ")"
			}
		}
		text = "q := " + in
	case 18:
		kind = "functions"
		if arity {
			ok = 1
		}
		pre = each("", func(i int) string {
			return fmt.Sprintf("func lf%d() %s {\n%sreturn %s\n}\n", i, tyName[types[i]], c06Vars, elem(i, types[i]))
		})
	default:
		kind = "commands"
		if arity {
			ok = 1
		}
		text = "@cat(" + each(", ", func(i int) string {
			if i == bad {
				return ex([]string{"V", "M", "LI", "LB", "LS"}[r.Intn(5)])
			}
			return ex("S")
		}) + ")"
		if r.Intn(2) == 0 {
			text = each(" | ", func(i int) string {
				if i == bad {
					return "@cat(sv, " + ex([]string{"V", "M", "LI", "LB", "LS"}[r.Intn(5)]) + ")"
				}
				return "@cat(" + ex("S") + ")"
			})
		}
	}
	src = c06Pre + pre
	if r.Intn(2) == 0 {
		src += "func target() {\n" + c06Vars + text + "\n}\n"
	} else {
		src += c06Vars + text + "\n"
	}
	return src, ok, fmt.Sprintf("%s of %d elements", kind, k)
}
