package main

// Parser of the emitted Bash text. The text is a sequence of bytes and atoms (terms of the symbolic execution).

import (
	"fmt"
	"strings"
)

type sym struct {
	b byte
	t *Term // an atom, nil for a byte
	v bool  // the atom is a value (text which is parsed by eval), not text of the script
}

func symsOf(t *Term, value bool) []sym {
	out := []sym{}
	for _, p := range pieces(t) {
		if p.isConst() {
			for i := 0; i < len(p.s); i++ {
				out = append(out, sym{b: p.s[i]})
			}
		} else {
			out = append(out, sym{t: p, v: value})
		}
	}
	return out
}

func symText(ss []sym) string {
	b := strings.Builder{}
	for _, s := range ss {
		if s.t != nil {
			fmt.Fprintf(&b, "<%s>", s.t)
		} else {
			b.WriteByte(s.b)
		}
	}
	return b.String()
}

// Syntax tree.
type shNode interface{}
type shList []shNode

type shAssign struct {
	name  []shPart
	index []shPart // nil if there is none
	value []shPart
	local bool
}
type shRedir struct {
	op     string
	target []shPart
}
type shSimple struct {
	assigns []shAssign
	words   [][]shPart
	redirs  []shRedir
}
type shPipe struct{ cmds []shNode }
type shAndOr struct {
	op   string
	l, r shNode
}
type shNot struct{ c shNode }
type shIf struct {
	conds []shList
	thens []shList
	els   shList
}
type shWhile struct {
	cond, body shList
	id         int
}
type shFunc struct {
	name []shPart
	body shList
}
type shFrag struct {
	id   int
	ctls []shCtl
}
type shCtl struct {
	kind string
	code shList
}

// Parts of words.
type shPart interface{}
type pLit struct {
	text   []sym
	quoted bool
	single bool
}
type pVar struct {
	name   []sym
	length bool
	index  []shPart // nil if there is none
	all    bool     // [@]
	op     string   // "", "%", ":"
	arg    []shPart
	arg2   []shPart
	quoted bool
}
type pArith struct {
	expr   []shPart
	quoted bool
}
type pSub struct {
	code   shList
	quoted bool
}

type shError struct{ why string }

type shParser struct {
	s   []sym
	i   int
	ids *int
}

func (p *shParser) fail(f string, a ...any) {
	lo := max(0, p.i-30)
	hi := min(len(p.s), p.i+30)
	panic(shError{fmt.Sprintf(f, a...) + " near " + symText(p.s[lo:hi])})
}

func parseShell(s []sym, ids *int) (l shList, err *shError) {
	p := &shParser{s: s, ids: ids}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(shError); ok {
				err = &e
				return
			}
			panic(r)
		}
	}()
	l = p.list(nil)
	if p.i < len(p.s) {
		p.fail("unexpected text")
	}
	return
}

func (p *shParser) peek() byte {
	if p.i < len(p.s) && p.s[p.i].t == nil {
		return p.s[p.i].b
	}
	return 0
}
func (p *shParser) eof() bool { return p.i >= len(p.s) }
func (p *shParser) looking(s string) bool {
	for k := 0; k < len(s); k++ {
		if p.i+k >= len(p.s) || p.s[p.i+k].t != nil || p.s[p.i+k].b != s[k] {
			return false
		}
	}
	return true
}
func (p *shParser) blanks() {
	for !p.eof() && p.s[p.i].t == nil && (p.peek() == ' ' || p.peek() == '\t' || p.looking("\\\n")) {
		if p.peek() == '\\' {
			p.i++
		}
		p.i++
	}
	if !p.eof() && p.s[p.i].t == nil && p.peek() == '#' {
		for !p.eof() && !(p.s[p.i].t == nil && p.s[p.i].b == '\n') {
			p.i++
		}
	}
}
func (p *shParser) skip() { // separators
	for {
		p.blanks()
		if p.eof() || p.s[p.i].t != nil || p.peek() != '\n' && p.peek() != ';' {
			return
		}
		p.i++
	}
}

// word looks for a reserved word.
func (p *shParser) reserved() string {
	for _, w := range []string{"if", "then", "elif", "else", "fi", "while", "until", "do", "done", "}", "{", "!", "case", "for", "function", "select", "[[", "((", "esac"} {
		if p.looking(w) {
			k := p.i + len(w)
			if k >= len(p.s) || p.s[k].t == nil && strings.IndexByte(" \t\n;)&|", p.s[k].b) >= 0 {
				return w
			}
		}
	}
	return ""
}

func (p *shParser) want(w string) {
	p.skip()
	if p.reserved() != w {
		p.fail("expected %s", w)
	}
	p.i += len(w)
}

// list parses commands until one of the terminators (reserved words or a closing parenthesis).
func (p *shParser) list(end []string) shList {
	l := shList{}
	for {
		p.skip()
		if p.eof() {
			return l
		}
		r := p.reserved()
		for _, e := range end {
			if r == e || e == ")" && p.peek() == ')' {
				return l
			}
		}
		switch r {
		case "then", "elif", "else", "fi", "do", "done", "}", "esac":
			p.fail("unexpected %s", r)
		}
		n := p.andOr()
		if c, ok := n.(shCtlMark); ok {
			// Control block of the preceding fragment.
			if len(l) == 0 {
				p.fail("misplaced control block")
			}
			f, ok := l[len(l)-1].(*shFrag)
			if !ok {
				p.fail("misplaced control block")
			}
			f.ctls = append(f.ctls, shCtl{c.kind, c.code})
			continue
		}
		l = append(l, n)
		p.blanks()
		if p.eof() {
			return l
		}
		if p.s[p.i].t != nil || strings.IndexByte("\n;)", p.peek()) < 0 {
			if p.peek() == '&' {
				p.fail("background command")
			}
			p.fail("unexpected text after a command")
		}
	}
}

type shCtlMark struct {
	kind string
	code shList
}

func (p *shParser) andOr() shNode {
	l := p.pipeline()
	for {
		p.blanks()
		if p.looking("&&") || p.looking("||") {
			op := string([]byte{p.s[p.i].b, p.s[p.i+1].b})
			p.i += 2
			p.skipNl()
			l = &shAndOr{op, l, p.pipeline()}
			continue
		}
		return l
	}
}
func (p *shParser) skipNl() {
	p.blanks()
	for p.peek() == '\n' {
		p.i++
		p.blanks()
	}
}

func (p *shParser) pipeline() shNode {
	p.blanks()
	if p.reserved() == "!" {
		p.i++
		return &shNot{p.pipeline()}
	}
	c := p.command()
	cmds := []shNode{c}
	for {
		p.blanks()
		if p.peek() == '|' && !p.looking("||") {
			p.i++
			p.skipNl()
			cmds = append(cmds, p.command())
			continue
		}
		break
	}
	if len(cmds) == 1 {
		return c
	}
	return &shPipe{cmds}
}

const markByte = "\xc2\xa7" // the section sign

// mark recognises a marker line.
func (p *shParser) mark() (string, bool) {
	k := p.i
	txt := ""
	for k < len(p.s) && !(p.s[k].t == nil && p.s[k].b == '\n') {
		if p.s[k].t == nil {
			txt += string([]byte{p.s[k].b})
		}
		k++
	}
	if strings.Count(txt, markByte) < 2 {
		return "", false
	}
	if strings.ContainsAny(strings.Split(txt, markByte)[0], " '\"$") {
		return "", false
	}
	return strings.Split(txt, markByte)[1], true
}
func (p *shParser) line() {
	for !p.eof() && !(p.s[p.i].t == nil && p.s[p.i].b == '\n') {
		p.i++
	}
}

func (p *shParser) command() shNode {
	if m, ok := p.mark(); ok {
		p.line()
		var id int
		var kind string
		if n, _ := fmt.Sscanf(m, "FRAG %d", &id); n == 1 {
			return &shFrag{id: id}
		}
		if n, _ := fmt.Sscanf(m, "CTL %d %s", &id, &kind); n == 2 {
			// The text up to the end marker.
			start := p.i
			for !p.eof() {
				p.i++
				if e, ok := p.mark(); ok && p.s[p.i-1].t == nil && p.s[p.i-1].b == '\n' && e == "END" {
					sub := &shParser{s: p.s[start:p.i], ids: p.ids}
					l := sub.list(nil)
					if sub.i < len(sub.s) {
						sub.fail("unexpected text in a control block")
					}
					p.line()
					return shCtlMark{kind, l}
				}
			}
			p.fail("no end of a control block")
		}
		p.fail("unexpected marker %q", m)
	}
	switch p.reserved() {
	case "if":
		p.i += 2
		n := &shIf{}
		for {
			n.conds = append(n.conds, p.list([]string{"then"}))
			p.want("then")
			n.thens = append(n.thens, p.nonEmpty(p.list([]string{"elif", "else", "fi"})))
			switch p.reserved() {
			case "elif":
				p.i += 4
				continue
			case "else":
				p.i += 4
				n.els = p.nonEmpty(p.list([]string{"fi"}))
			}
			break
		}
		p.want("fi")
		return n
	case "while":
		p.i += 5
		*p.ids++
		n := &shWhile{id: *p.ids}
		n.cond = p.list([]string{"do"})
		p.want("do")
		n.body = p.nonEmpty(p.list([]string{"done"}))
		p.want("done")
		return n
	case "":
	default:
		p.fail("unsupported command")
	}
	return p.simple()
}

func (p *shParser) nonEmpty(l shList) shList {
	if len(l) == 0 {
		p.fail("empty block")
	}
	return l
}

func nameByte(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

// assignment tries to parse NAME=VALUE or NAME[INDEX]=VALUE.
func (p *shParser) assignment() (shAssign, bool) {
	k := p.i
	for k < len(p.s) && (p.s[k].t != nil || nameByte(p.s[k].b)) {
		k++
	}
	if k == p.i || k >= len(p.s) {
		return shAssign{}, false
	}
	a := shAssign{name: []shPart{pLit{text: p.s[p.i:k]}}}
	j := k
	if p.s[k].t == nil && p.s[k].b == '[' {
		d := k + 1
		for d < len(p.s) && !(p.s[d].t == nil && (p.s[d].b == ']' || p.s[d].b == '\n')) {
			d++
		}
		if d+1 >= len(p.s) || p.s[d+1].t != nil || p.s[d+1].b != '=' || p.s[d].b != ']' {
			return shAssign{}, false
		}
		q := &shParser{s: p.s[k+1 : d], ids: p.ids}
		a.index = q.dq(func() bool { return false })
		j = d + 1
	}
	if p.s[j].t != nil || p.s[j].b != '=' {
		return shAssign{}, false
	}
	p.i = j + 1
	a.value = p.word()
	return a, true
}

func (p *shParser) simple() shNode {
	n := &shSimple{}
	for {
		p.blanks()
		if p.eof() {
			break
		}
		if p.s[p.i].t == nil {
			c := p.peek()
			if c == '\n' || c == ';' || c == '|' || c == ')' || c == '&' {
				break
			}
			if c == '>' || c == '<' {
				op := string([]byte{c})
				p.i++
				if p.peek() == '>' {
					op = ">>"
					p.i++
				} else if p.peek() == '&' || p.peek() == '(' || p.peek() == '<' {
					p.fail("unsupported redirection")
				}
				p.blanks()
				n.redirs = append(n.redirs, shRedir{op, p.word()})
				continue
			}
			if c == '(' {
				if len(n.words) == 1 && p.looking("()") {
					p.i += 2
					p.skipNl()
					if p.reserved() != "{" {
						p.fail("unsupported function body")
					}
					p.i++
					body := p.nonEmpty(p.list([]string{"}"}))
					p.want("}")
					return &shFunc{n.words[0], body}
				}
				p.fail("unexpected parenthesis")
			}
		}
		isLocal := len(n.words) == 1 && len(n.assigns) == 0 && isLit(n.words[0], "local")
		if len(n.words) == 0 || isLocal {
			save := p.i
			if a, ok := p.assignment(); ok {
				a.local = isLocal
				n.assigns = append(n.assigns, a)
				continue
			}
			p.i = save
		}
		if len(n.words) == 1 && len(n.assigns) > 0 && n.assigns[0].local {
			if a, ok := p.assignment(); ok {
				a.local = true
				n.assigns = append(n.assigns, a)
				continue
			}
		}
		n.words = append(n.words, p.word())
	}
	if len(n.words) == 0 && len(n.assigns) == 0 && len(n.redirs) == 0 {
		p.fail("empty command")
	}
	return n
}

func isLit(w []shPart, s string) bool {
	if len(w) != 1 {
		return false
	}
	l, ok := w[0].(pLit)
	if !ok || l.quoted || len(l.text) != len(s) {
		return false
	}
	for i, c := range l.text {
		if c.t != nil || c.b != s[i] {
			return false
		}
	}
	return true
}

func (p *shParser) word() []shPart {
	parts := []shPart{}
	lit := func(s sym, quoted bool) {
		if len(parts) > 0 {
			if l, ok := parts[len(parts)-1].(pLit); ok && l.quoted == quoted && !l.single {
				l.text = append(l.text[:len(l.text):len(l.text)], s)
				parts[len(parts)-1] = l
				return
			}
		}
		parts = append(parts, pLit{text: []sym{s}, quoted: quoted})
	}
	for !p.eof() {
		s := p.s[p.i]
		if s.t != nil {
			lit(s, false)
			p.i++
			continue
		}
		switch s.b {
		case ' ', '\t', '\n', ';', '|', '&', ')', '<', '>':
			return parts
		case '(':
			return parts
		case '"':
			p.i++
			q := p.dq(func() bool { return p.peek() == '"' && p.s[p.i].t == nil })
			if p.eof() {
				p.fail("unterminated quote")
			}
			p.i++
			if len(q) == 0 {
				q = []shPart{pLit{quoted: true}}
			}
			parts = append(parts, q...)
		case '\'':
			p.i++
			l := pLit{quoted: true, single: true}
			for !p.eof() && !(p.s[p.i].t == nil && p.s[p.i].b == '\'') {
				l.text = append(l.text, p.s[p.i])
				p.i++
			}
			if p.eof() {
				p.fail("unterminated quote")
			}
			p.i++
			parts = append(parts, l)
		case '\\':
			p.i++
			if p.eof() {
				p.fail("trailing backslash")
			}
			lit(p.s[p.i], true)
			p.i++
		case '$':
			if p.looking("$'") {
				parts = append(parts, p.ansiC())
				continue
			}
			parts = append(parts, p.dollar(false))
		case '`':
			p.fail("backquote")
		default:
			lit(s, false)
			p.i++
		}
	}
	return parts
}

func (p *shParser) ansiC() shPart {
	p.i += 2
	l := pLit{quoted: true, single: true}
	for !p.eof() && p.peek() != '\'' {
		if p.s[p.i].t != nil {
			p.fail("atom in $'...'")
		}
		if p.peek() == '\\' {
			p.i++
			switch p.peek() {
			case 'n':
				l.text = append(l.text, sym{b: '\n'})
			case 't':
				l.text = append(l.text, sym{b: '\t'})
			case 'r':
				l.text = append(l.text, sym{b: '\r'})
			case '\\', '\'':
				l.text = append(l.text, sym{b: p.peek()})
			default:
				p.fail("escape in $'...'")
			}
			p.i++
			continue
		}
		l.text = append(l.text, p.s[p.i])
		p.i++
	}
	p.i++
	return l
}

// dq parses text within double quotes up to the end condition.
func (p *shParser) dq(end func() bool) []shPart {
	parts := []shPart{}
	lit := func(s sym) {
		if len(parts) > 0 {
			if l, ok := parts[len(parts)-1].(pLit); ok {
				l.text = append(l.text[:len(l.text):len(l.text)], s)
				parts[len(parts)-1] = l
				return
			}
		}
		parts = append(parts, pLit{text: []sym{s}, quoted: true})
	}
	for !p.eof() && !end() {
		s := p.s[p.i]
		if s.t != nil {
			lit(s)
			p.i++
			continue
		}
		switch s.b {
		case '\\':
			if p.i+1 < len(p.s) && p.s[p.i+1].t == nil && strings.IndexByte("$`\"\\\n", p.s[p.i+1].b) >= 0 {
				if p.s[p.i+1].b != '\n' {
					lit(p.s[p.i+1])
				}
				p.i += 2
				continue
			}
			if p.i+1 < len(p.s) && p.s[p.i+1].t != nil {
				p.fail("backslash in front of an atom")
			}
			lit(s)
			p.i++
		case '$':
			if p.i+1 < len(p.s) && p.s[p.i+1].t == nil && (strings.IndexByte("{(?#@*$!-", p.s[p.i+1].b) >= 0 || nameByte(p.s[p.i+1].b)) {
				parts = append(parts, p.dollar(true))
				continue
			}
			if p.i+1 < len(p.s) && p.s[p.i+1].t != nil {
				p.fail("dollar in front of an atom")
			}
			lit(s)
			p.i++
		case '`':
			p.fail("backquote")
		default:
			lit(s)
			p.i++
		}
	}
	return parts
}

func (p *shParser) dollar(quoted bool) shPart {
	p.i++ // the dollar
	switch {
	case p.looking("(("):
		p.i += 2
		depth := 0
		e := p.dq(func() bool {
			if p.s[p.i].t != nil {
				return false
			}
			switch p.peek() {
			case '(':
				depth++
			case ')':
				if depth == 0 {
					return p.looking("))")
				}
				depth--
			}
			return false
		})
		if !p.looking("))") {
			p.fail("unterminated arithmetic expansion")
		}
		p.i += 2
		return pArith{e, quoted}
	case p.looking("("):
		p.i++
		l := p.list([]string{")"})
		p.skip()
		if p.peek() != ')' || p.eof() {
			p.fail("unterminated command substitution")
		}
		p.i++
		return pSub{l, quoted}
	case p.looking("{"):
		p.i++
		v := pVar{quoted: quoted}
		if p.peek() == '#' {
			v.length = true
			p.i++
		}
		for !p.eof() && (p.s[p.i].t != nil || nameByte(p.s[p.i].b) || p.s[p.i].b == '?' && len(v.name) == 0) {
			v.name = append(v.name, p.s[p.i])
			p.i++
		}
		if len(v.name) == 0 {
			p.fail("no name")
		}
		if p.looking("[@]") {
			v.all = true
			p.i += 3
		} else if p.peek() == '[' && !p.eof() {
			p.i++
			v.index = p.dq(func() bool { return p.s[p.i].t == nil && p.peek() == ']' })
			p.i++
		}
		if p.eof() {
			p.fail("unterminated expansion")
		}
		isEnd := func() bool { return p.s[p.i].t == nil && p.peek() == '}' }
		switch {
		case isEnd():
		case p.looking("%") && !p.looking("%%"):
			v.op = "%"
			p.i++
			if p.looking("$'") {
				v.arg = []shPart{p.ansiC()}
			} else {
				v.arg = p.dq(isEnd)
			}
		case p.looking(":"):
			v.op = ":"
			p.i++
			v.arg = p.dq(func() bool { return isEnd() || p.s[p.i].t == nil && p.peek() == ':' })
			if p.looking(":") {
				p.i++
				v.arg2 = p.dq(isEnd)
			}
		default:
			p.fail("unsupported expansion")
		}
		if p.eof() || !isEnd() {
			p.fail("unterminated expansion")
		}
		p.i++
		return v
	}
	if c := p.peek(); c == '?' || c >= '0' && c <= '9' {
		p.i++
		return pVar{name: []sym{{b: c}}, quoted: quoted}
	}
	v := pVar{quoted: quoted}
	for !p.eof() && (p.s[p.i].t != nil || nameByte(p.s[p.i].b)) {
		v.name = append(v.name, p.s[p.i])
		p.i++
	}
	if len(v.name) == 0 {
		p.fail("unsupported expansion")
	}
	for _, s := range v.name {
		if s.t != nil {
			p.fail("atom in an unbraced name")
		}
	}
	return v
}
