package main

// The state of the running script: the world (program variables, slices, files, streams) is a term, temporary
// variables are a log of writes and events.

import (
	"strings"
)

// tag of the type of a value: i int, b bool, s string, and the same with [] for slices.
type vtag string

func (v vtag) slice() bool { return strings.HasPrefix(string(v), "[]") }
func (v vtag) elem() vtag  { return vtag(strings.TrimPrefix(string(v), "[]")) }

// typedUF is an unknown value of a type: a function of the arguments.
func (x *X) typedUF(tag vtag, name string, args ...*Term) *Term {
	switch tag {
	case "i":
		return x.tt.Itoa(x.tt.UF(name, SInt, args...))
	case "b":
		return x.boolVal(x.tt.UF(name, SBool, args...))
	case "s":
		return x.tt.UF(name, SStr, args...)
	}
	return x.tt.UF("ref:"+string(tag.elem())+":"+name, SStr, args...)
}

func (x *X) boolVal(b *Term) *Term {
	return x.tt.Itoa(x.tt.Ite(b, x.tt.Int(1), x.tt.Int(0)))
}

func isRef(t *Term) bool { return t.op == "uf" && strings.HasPrefix(t.s, "ref:") }

// isBoolVal returns the condition of a boolean value.
func (x *X) boolOf(t *Term) *Term {
	return x.tt.Eq(x.intOf(t), x.tt.Int(1))
}

// intOf is the number a text denotes.
func (x *X) intOf(t *Term) *Term {
	if t.op == "itoa" {
		return t.args[0]
	}
	if t.op == "ite" {
		return x.tt.Ite(t.args[0], x.intOf(t.args[1]), x.intOf(t.args[2]))
	}
	if t.isConst() {
		n := int64(0)
		s := t.s
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		if s == "" || len(s) > 18 || len(s) > 1 && s[0] == '0' {
			unsup("number %q", t.s)
		}
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				unsup("number %q", t.s)
			}
			n = n*10 + int64(s[i]-'0')
		}
		if neg {
			n = -n
		}
		return x.tt.Int(n)
	}
	return x.tt.UF("atoi", SInt, t)
}

func containsUF(t *Term, name string) bool {
	found := false
	walk(t, map[int]bool{}, func(y *Term) {
		if y.op == "uf" && y.s == name {
			found = true
		}
	})
	return found
}

// wGet reads a program variable.
func (x *X) wGet(W, name *Term) *Term {
	tag, _ := x.data["vt:"+name.key].(vtag)
	for {
		if W.op != "uf" {
			break
		}
		switch {
		case W.s == "set":
			if x.branch(x.nameEq(W.args[1], name)) {
				return W.args[2]
			}
			W = W.args[0]
			continue
		case strings.HasPrefix(W.s, "EXn:") || x.scalarFree(W.s):
			W = W.args[0]
			continue
		}
		break
	}
	if tag == "" {
		tag = "s"
	}
	return x.typedUF(tag, "get", W, name)
}

// nameEq: variables of different types are different variables.
func (x *X) nameEq(a, b *Term) *Term {
	e := x.tt.Eq(a, b)
	if e.isConst() {
		return e
	}
	ta, ok1 := x.data["vt:"+a.key].(vtag)
	tb, ok2 := x.data["vt:"+b.key].(vtag)
	if ok1 && ok2 && ta != tb {
		return x.tt.fls
	}
	return e
}

// scalarFree: constructors of the world which do not touch program variables.
func (x *X) scalarFree(op string) bool {
	switch op {
	case "out", "growset", "aset", "copy", "fwrite", "fappend", "rd":
		return true
	}
	return strings.HasPrefix(op, "apprun") || strings.HasPrefix(op, "appcap")
}

func (x *X) wSet(W, name, v *Term) *Term { return x.tt.UF("set", SAny, W, name, v) }
func (x *X) wOut(W, text *Term) *Term    { return x.tt.UF("out", SAny, W, text) }

// sliceView removes what does not touch slices.
func (x *X) sliceView(W *Term) *Term {
	for W.op == "uf" {
		switch W.s {
		case "set", "out", "fwrite", "fappend", "rd":
			W = W.args[0]
			continue
		}
		if strings.HasPrefix(W.s, "apprun") || strings.HasPrefix(W.s, "appcap") {
			W = W.args[0]
			continue
		}
		break
	}
	return W
}

func refTag(ref *Term) vtag {
	if isRef(ref) {
		return vtag(strings.SplitN(ref.s, ":", 3)[1])
	}
	return "s"
}

func (x *X) wElem(W, ref, idx *Term) *Term {
	W = x.sliceView(W)
	if W.op == "uf" && (W.s == "aset" || W.s == "growset") {
		if x.branch(x.tt.And(x.tt.Eq(W.args[1], ref), x.tt.Eq(W.args[2], idx))) {
			return W.args[3]
		}
	}
	return x.typedUF(refTag(ref), "elem", W, ref, idx)
}

func (x *X) wLen(W, ref *Term) *Term {
	n := x.tt.UF("slicelen", SInt, x.sliceView(W), ref)
	x.assume(x.tt.Le(x.tt.Int(0), n))
	return n
}

// wNorm sorts independent assignments of variables and removes overwritten ones.
func (x *X) wNorm(W *Term) *Term {
	if W.op != "uf" || len(W.args) == 0 || W.args[0].sort != SAny {
		return W
	}
	base := x.wNorm(W.args[0])
	if W.s != "set" {
		return x.tt.UF(W.s, SAny, append([]*Term{base}, W.args[1:]...)...)
	}
	n, v := W.args[1], W.args[2]
	// insert into the run of assignments
	type st struct{ n, v *Term }
	run := []st{}
	for base.op == "uf" && base.s == "set" {
		run = append([]st{{base.args[1], base.args[2]}}, run...)
		base = base.args[0]
	}
	keep := []st{}
	for _, e := range run {
		if eq := x.nameEq(e.n, n); eq == x.tt.tru || !eq.isConst() && x.branch(eq) {
			continue
		}
		keep = append(keep, e)
	}
	// An assignment of the value the variable has anyway is no change.
	pos := len(keep)
	for pos > 0 && keep[pos-1].n.id > n.id {
		pos--
	}
	keep = append(keep[:pos:pos], append([]st{{n, v}}, keep[pos:]...)...)
	for _, e := range keep {
		base = x.wSet(base, e.n, e.v)
	}
	return base
}

// wDiff describes where two worlds differ.
func (x *X) wEq(a, b *Term) *Term {
	a, b = x.wNorm(a), x.wNorm(b)
	r := x.tt.tru
	for a != b {
		if a.op != "uf" || b.op != "uf" || a.s != b.s || len(a.args) != len(b.args) || len(a.args) == 0 || a.args[0].sort != SAny {
			return x.tt.And(r, x.tt.Eq(a, b))
		}
		for i := 1; i < len(a.args); i++ {
			if a.args[i].sort != b.args[i].sort {
				return x.tt.fls
			}
			if a.args[i].sort == SAny {
				r = x.tt.And(r, x.wEq(a.args[i], b.args[i]))
			} else {
				r = x.tt.And(r, x.tt.Eq(a.args[i], b.args[i]))
			}
		}
		a, b = a.args[0], b.args[0]
	}
	return r
}

// dqLemma checks that a replacement makes a text literal within double quotes.
func dqLemma(pairs []string) string {
	if len(pairs)%2 != 0 {
		return "odd number of replacements"
	}
	eval := func(s string) (string, bool) {
		out := ""
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '\\':
				if i+1 < len(s) && strings.IndexByte("$`\"\\", s[i+1]) >= 0 {
					out += string([]byte{s[i+1]})
					i++
					continue
				}
				if i+1 >= len(s) || s[i+1] == '\n' {
					return "", false // the backslash might affect what follows
				}
				out += "\\"
			case '"', '$', '`':
				return "", false
			default:
				out += string([]byte{s[i]})
			}
		}
		return out, true
	}
	rep := strings.NewReplacer(pairs...)
	for c := 1; c < 256; c++ {
		s := string([]byte{byte(c)})
		if r, ok := eval(rep.Replace(s)); !ok || r != s {
			return "character " + s + " is not kept"
		}
	}
	for i := 0; i < len(pairs); i += 2 {
		if len(pairs[i]) != 1 { // with single bytes the replacement works byte by byte
			return "?"
		}
	}
	return ""
}
