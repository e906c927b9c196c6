package main

// Frames of all functions a transpilation consists of: what they may write, what they may depend
// on (no order of maps, no state outside of the arguments) and where the location of the files
// may flow to. The obligations are discharged by an analysis of the functions' SSA form, function
// by function; what it can't show is undecided.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frames struct {
	pg    *program
	fns   map[*ssa.Function]bool
	order []*ssa.Function
	addr  map[string][]*ssa.Function // functions used as values, by signature
	why   map[string]map[string]bool // obligation -> reasons

	taint   map[any]bool // values, locations
	source  bool         // the files' location is what is tracked
	changed bool
	trusted map[string]bool
}

type tupleIdx struct {
	v ssa.Value
	i int
}
type retIdx struct {
	f *ssa.Function
	i int
}
type fieldLoc struct {
	t string
	i int
}
type elemLoc string
type keyLoc string

func (r *runner) frames() *frames {
	f := &frames{pg: r.pg, fns: map[*ssa.Function]bool{}, addr: map[string][]*ssa.Function{}, why: map[string]map[string]bool{}, taint: map[any]bool{}, trusted: map[string]bool{}}
	f.reach()
	for _, fn := range f.order {
		f.pure(fn)
	}
	f.location()
	return f
}

// layout: rows and columns of tokens influence nothing but the texts of errors.
func (r *runner) layout() *frames {
	f := &frames{pg: r.pg, fns: map[*ssa.Function]bool{}, addr: map[string][]*ssa.Function{}, why: map[string]map[string]bool{}, taint: map[any]bool{}, trusted: map[string]bool{}}
	f.reach()
	tok := r.pg.typ("lexer", "Token")
	n := 0
	for _, m := range []string{"Row", "Column"} {
		var fn *ssa.Function
		if tok != nil {
			fn = r.pg.method(tok, m)
		}
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Field:
					f.mark(fieldLoc{tkey(in.X.Type()), in.Field})
					n++
				case *ssa.FieldAddr:
					if _, ok := deref(in.X.Type()).Underlying().(*types.Struct); ok {
						f.mark(fieldLoc{tkey(deref(in.X.Type())), in.Field})
						n++
					}
				}
			}
		}
	}
	if n < 2 {
		f.why["transpiler.Transpile.layout-of-result"] = map[string]bool{"rows and columns are not found": true}
	}
	f.sinks("layout", "the rows and columns of the tokens")
	return f
}

func (f *frames) layoutObligations() []*oblig {
	r := []*oblig{}
	for _, n := range f.names("layout") {
		o := &oblig{Name: n, Status: "discharged", Count: 1}
		if w := f.why[n]; len(w) > 0 {
			o.Status, o.Detail = "undecided", strings.Join(sorted(w), "\n")
		}
		r = append(r, o)
	}
	return r
}

func (f *frames) names(ob string) []string {
	r := []string{}
	for _, fn := range f.order {
		if !strings.HasPrefix(short(fn), "lexer.") {
			r = append(r, short(fn)+"."+ob)
		}
	}
	return append(r, "transpiler.Transpile."+ob+"-of-result")
}

// obligations are one per function and one for the result of a transpilation.
func (f *frames) obligations() []*oblig {
	r := []*oblig{}
	add := func(n string) {
		o := &oblig{Name: n, Status: "discharged", Count: 1}
		if w := f.why[n]; len(w) > 0 {
			o.Status, o.Detail = "undecided", strings.Join(sorted(w), "\n")
		}
		r = append(r, o)
	}
	for _, fn := range f.order {
		add(short(fn) + ".assigns")
		add(short(fn) + ".repeatable")
		add(short(fn) + ".location")
	}
	add("transpiler.Transpile.location-of-result")
	return r
}

func short(fn *ssa.Function) string { return strings.ReplaceAll(fn.String(), module+"/", "") }

func (f *frames) blame(fn *ssa.Function, ob string, in ssa.Instruction, s string, a ...any) {
	n := short(fn) + "." + ob
	if f.why[n] == nil {
		f.why[n] = map[string]bool{}
	}
	p := ""
	if in != nil {
		p = f.pg.pos(in) + ": "
	}
	f.why[n][p+fmt.Sprintf(s, a...)] = true
}

func (f *frames) own(fn *ssa.Function) bool {
	for p := fn.Parent(); p != nil; p = p.Parent() {
		fn = p
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return f.pg.own[fn.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		p := o.Pkg().Path()
		return p == module || strings.HasPrefix(p, module+"/")
	}
	return false
}

// reach collects the functions of a transpilation.
func (f *frames) reach() {
	work := []*ssa.Function{}
	add := func(fn *ssa.Function) {
		if fn != nil && !f.fns[fn] && f.own(fn) && fn.Blocks != nil {
			f.fns[fn] = true
			f.order = append(f.order, fn)
			work = append(work, fn)
		}
	}
	conv, _ := f.pg.typ("transpiler", "Converter").Underlying().(*types.Interface)
	tr := f.pg.fn("transpiler", "New")
	add(tr)
	if tr != nil {
		add(f.pg.method(tr.Signature.Results().At(0).Type(), "Transpile"))
	}
	for _, k := range sortedKeys(f.pg.pkgs) {
		if k == "" {
			continue
		}
		p := f.pg.pkgs[k]
		add(p.Func("init"))
		if strings.HasPrefix(k, "converters/") {
			add(p.Func("New"))
		}
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || conv == nil {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI && types.Implements(t, conv) {
					for i := 0; i < conv.NumMethods(); i++ {
						add(f.pg.method(t, conv.Method(i).Name()))
					}
				}
			}
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range f.impls(c.Common()) {
						add(g)
					}
				}
				if m, ok := in.(*ssa.MakeInterface); ok {
					// Methods which are called by others (errors, texts).
					for _, n := range []string{"Error", "String"} {
						add(f.pg.method(m.X.Type(), n))
					}
				}
			}
		}
	}
	sort.Slice(f.order, func(i, j int) bool { return short(f.order[i]) < short(f.order[j]) })
	for _, fn := range f.order {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == g {
						used := false
						for _, a := range c.Common().Args {
							used = used || a == g
						}
						if !used {
							continue
						}
					}
					k := sigKey(g.Signature)
					dup := false
					for _, o := range f.addr[k] {
						dup = dup || o == g
					}
					if !dup {
						f.addr[k] = append(f.addr[k], g)
					}
				}
			}
		}
	}
}

func sigKey(s *types.Signature) string {
	k := ""
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < t.Len(); i++ {
			k += tkey(t.At(i).Type()) + ","
		}
		k += ";"
	}
	return k
}

// impls are the functions of the repository a call through an interface may reach.
func (f *frames) impls(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	r := []*ssa.Function{}
	for _, k := range sortedKeys(f.pg.pkgs) {
		sc := f.pg.pkgs[k].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			if t := tn.Type(); types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
				if g := f.pg.method(t, c.Method.Name()); g != nil {
					r = append(r, g)
				}
			}
		}
	}
	return r
}

// callees are the functions of the repository a call may reach; ext is the name of an external one.
func (f *frames) callees(c *ssa.CallCommon) (own []*ssa.Function, ext string, dyn bool) {
	if c.IsInvoke() {
		n := tkey(c.Value.Type()) + "." + c.Method.Name()
		own = f.impls(c)
		if !strings.Contains(n, module) {
			ext = n
		}
		return own, ext, false
	}
	if g := c.StaticCallee(); g != nil {
		if f.own(g) && g.Blocks != nil {
			return []*ssa.Function{g}, "", false
		}
		n := g
		if o := g.Origin(); o != nil {
			n = o
		}
		return nil, n.String(), false
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return nil, "builtin " + b.Name(), false
	}
	return f.addr[sigKey(c.Value.Type().Underlying().(*types.Signature))], "", true
}

// repeatable are the functions of other packages whose results depend on their arguments (and on
// the files they name) only and which write at most what their arguments refer to.
var repeatableExt = []string{
	"strings.", "(*strings.Builder).", "(*strings.Replacer).", "strconv.", "unicode.", "unicode/utf8.", "errors.", "slices.",
	"maps.Clone", "maps.Copy", "maps.DeleteFunc", "maps.Equal", "maps.EqualFunc",
	"fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintln", "sort.", "bytes.", "(*bytes.Buffer).", "regexp.", "(*regexp.Regexp).",
	"crypto/sha256.", "encoding/hex.", "hash.Hash.", "(hash.Hash).", "math.", "path.", "cmp.",
	"path/filepath.Join", "path/filepath.Dir", "path/filepath.Base", "path/filepath.Ext", "path/filepath.IsAbs", "path/filepath.Clean", "path/filepath.EvalSymlinks", "path/filepath.Rel", "path/filepath.ToSlash", "path/filepath.Abs",
	"os.Stat", "os.Lstat", "os.ReadFile", "os.Executable", "os.IsNotExist",
	"io/fs.FileInfo.Mode", "io/fs.FileInfo.IsDir", "io/fs.FileInfo.Size", "os.FileInfo.Mode", "os.FileInfo.IsDir", "(io/fs.FileMode).",
	"error.Error",
}

func isRepeatable(n string) bool {
	for _, p := range repeatableExt {
		if n == p || strings.HasSuffix(p, ".") && strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// answers are the calls which tell something about the files but nothing about their location.
func isAnswer(n string, i int) bool {
	switch n {
	case "os.Stat", "os.Lstat", "os.ReadFile":
		return true
	case "io/fs.FileInfo.Mode", "io/fs.FileInfo.IsDir", "io/fs.FileInfo.Size", "os.FileInfo.Mode", "os.FileInfo.IsDir":
		return true
	case "os.Executable", "path/filepath.EvalSymlinks", "path/filepath.Abs":
		return i == 1
	case "path/filepath.IsAbs", "os.IsNotExist":
		return false
	}
	return false
}

// ---- what is written, what the results depend on

func (f *frames) pure(fn *ssa.Function) {
	isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if !isInit {
				f.globals(fn, in)
			}
			switch in := in.(type) {
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
				f.blame(fn, "repeatable", in, "concurrency")
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					if why := f.orderFree(fn, in); why != "" {
						f.blame(fn, "repeatable", in, "the order of a map's keys matters: %s", why)
					}
				}
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					f.blame(fn, "repeatable", in, "concurrency")
				}
			case *ssa.Convert:
				for _, t := range []types.Type{in.Type(), in.X.Type()} {
					if bt, ok := t.Underlying().(*types.Basic); ok && (bt.Kind() == types.UnsafePointer || bt.Kind() == types.Uintptr) {
						f.blame(fn, "repeatable", in, "unsafe")
					}
				}
			case ssa.CallInstruction:
				c := in.Common()
				own, ext, dyn := f.callees(c)
				if strings.HasPrefix(ext, "builtin ") {
					break
				}
				if dyn && len(own) == 0 {
					f.blame(fn, "repeatable", in, "call of an unknown function")
				}
				if ext != "" {
					if isInit && strings.HasSuffix(ext, ".init") {
						break
					}
					if !isRepeatable(ext) {
						f.blame(fn, "repeatable", in, "call of %s", ext)
					} else {
						f.trusted[ext] = true
					}
					if strings.HasPrefix(ext, "fmt.") && ext != "fmt.Errorf" {
						f.printed(fn, in)
					}
				}
			}
		}
	}
}

// printed: no addresses in texts.
func (f *frames) printed(fn *ssa.Function, in ssa.CallInstruction) {
	for _, a := range in.Common().Args {
		s, ok := a.(*ssa.Slice)
		if !ok {
			if bt, ok := a.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(constant.StringVal(k.Value), "%p") {
					f.blame(fn, "repeatable", in, "address in a text")
				}
				continue
			}
			if k, ok := a.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			f.blame(fn, "repeatable", in, "unknown arguments of a text")
			continue
		}
		al, ok := s.X.(*ssa.Alloc)
		if !ok {
			f.blame(fn, "repeatable", in, "unknown arguments of a text")
			continue
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, q := range *ia.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok {
					continue
				}
				t := st.Val.Type()
				if m, ok := st.Val.(*ssa.MakeInterface); ok {
					t = m.X.Type()
				}
				if !printable(t, map[types.Type]bool{}) {
					f.blame(fn, "repeatable", in, "text of a value of type %s", t)
				}
			}
		}
	}
}

func printable(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if types.Implements(t, errIface) || hasString(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Slice:
		return printable(u.Elem(), seen)
	case *types.Array:
		return printable(u.Elem(), seen)
	case *types.Map:
		return printable(u.Key(), seen) && printable(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !printable(u.Field(i).Type(), seen) {
				return false
			}
		}
		return true
	}
	return false
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func hasString(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "String")
	fn, ok := o.(*types.Func)
	return ok && fn.Type().(*types.Signature).Params().Len() == 0
}

// globals: package variables and what they refer to are not written.
func (f *frames) globals(fn *ssa.Function, in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		g, ok := (*op).(*ssa.Global)
		if !ok {
			continue
		}
		if strings.Contains(g.Name(), "init$") {
			continue
		}
		if g.Pkg != nil && !f.pg.own[g.Pkg] {
			f.blame(fn, "assigns", in, "variable %s of another package", g)
			continue
		}
		v, ok := in.(ssa.Value)
		if !ok {
			f.blame(fn, "assigns", in, "package variable %s", g.Name())
			continue
		}
		if why := f.reads(v, g, map[ssa.Value]bool{}); why != "" {
			f.blame(fn, "assigns", in, "package variable %s: %s", g.Name(), why)
		}
	}
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// reads tells why a value which refers to a package variable's memory is not only read.
func (f *frames) reads(v ssa.Value, from ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return ""
		}
		if !refType(i.Type()) {
			return ""
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		// An address: only loads, see below.
	case *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.Phi, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.ChangeType, *ssa.Slice:
		if !refType(i.Type()) {
			if _, ok := v.(*ssa.Range); !ok {
				if _, ok := v.(*ssa.Next); !ok {
					return ""
				}
			}
		}
	case *ssa.BinOp:
		return ""
	case *ssa.Call:
		c := i.Common()
		own, ext, _ := f.callees(c)
		switch {
		case len(own) > 0:
			return "passed to " + short(own[0])
		case ext == "builtin len" || ext == "builtin cap":
			return ""
		case c.Value == from && ext == "":
			return "called"
		case strings.HasPrefix(ext, "slices.Contains"), strings.HasPrefix(ext, "slices.Index"), strings.HasPrefix(ext, "strings."), strings.HasPrefix(ext, "(*strings.Replacer)."), strings.HasPrefix(ext, "(*regexp.Regexp)."), ext == "slices.Clone", ext == "maps.Clone":
			if !refType(i.Type()) || strings.HasSuffix(ext, ".Clone") && !refType(elemOf(i.Type())) || strings.HasPrefix(ext, "(*regexp") {
				return ""
			}
			return "result of " + ext
		}
		return "passed to " + ext
	default:
		return fmt.Sprintf("%T", v)
	}
	rs := v.Referrers()
	if rs == nil {
		return ""
	}
	for _, r := range *rs {
		switch u := r.(type) {
		case *ssa.DebugRef, *ssa.If:
			continue
		case *ssa.Store:
			return "stored"
		case *ssa.Return:
			return "returned"
		case ssa.Value:
			if why := f.reads(u, v, seen); why != "" {
				return why
			}
		default:
			return fmt.Sprintf("%T", r)
		}
	}
	return ""
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return t
}

// orderFree tells why the order in which a loop visits the keys of a map matters.
func (f *frames) orderFree(fn *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, r := range *rg.Referrers() {
		n, ok := r.(*ssa.Next)
		if !ok || next != nil {
			return "unknown use"
		}
		next = n
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// The blocks of the loop.
	body := map[*ssa.BasicBlock]bool{head: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if !body[b] {
			body[b] = true
			for _, p := range b.Preds {
				up(p)
			}
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			up(p)
		}
	}
	var key ssa.Value
	for _, r := range *next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	for _, in := range head.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			return "a variable is carried from key to key"
		}
	}
	isKey := func(v ssa.Value) bool { return key != nil && v == key }
	// Leaving the loop early: the same constants from everywhere, and nothing is written.
	early, writes := "", false
	for b := range body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !f.local(in.Addr, body) {
					return "a variable is written"
				}
			case *ssa.MapUpdate:
				writes = true
				if !isKey(in.Key) {
					return "a map is written at another key"
				}
			case *ssa.Lookup:
				// The maps which are written are read at the key only (or not at all, see MapUpdate).
			case ssa.CallInstruction:
				own, ext, dyn := f.callees(in.Common())
				if len(own) > 0 || dyn {
					for _, g := range own {
						if !f.silent(g, map[*ssa.Function]bool{}) {
							return "a call of " + short(g)
						}
					}
					if dyn {
						return "a call of a function value"
					}
				} else if !strings.HasPrefix(ext, "builtin ") && !strings.HasPrefix(ext, "slices.Contains") && !strings.HasPrefix(ext, "slices.Index") && !strings.HasPrefix(ext, "strings.") {
					return "a call of " + ext
				}
			case *ssa.Go, *ssa.Defer, *ssa.Panic:
				return "another effect"
			}
		}
		for _, s := range b.Succs {
			if body[s] || b == head {
				continue
			}
			k := ""
			if len(s.Instrs) != 1 {
				return "the loop is left early"
			}
			rt, ok := s.Instrs[0].(*ssa.Return)
			if !ok {
				return "the loop is left early"
			}
			for _, v := range rt.Results {
				c, ok := v.(*ssa.Const)
				if !ok {
					return "a value of one key is returned"
				}
				k += c.String() + ";"
			}
			if early != "" && early != k {
				return "different values are returned"
			}
			early = k
		}
		if len(b.Instrs) > 0 {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				_ = rt
				return "the loop is left early"
			}
		}
	}
	if writes && early != "" {
		return "the loop is left early"
	}
	if writes {
		// Maps which are written in the loop are read at the key.
		for b := range body {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok && !isKey(l.Index) {
					if _, isMap := l.X.Type().Underlying().(*types.Map); isMap {
						return "a map is read at another key"
					}
				}
				if r, ok := in.(*ssa.Range); ok {
					if _, isMap := r.X.Type().Underlying().(*types.Map); isMap {
						return "a map is read at another key"
					}
				}
			}
		}
	}
	return ""
}

// local tells whether an address is one of a variable made in the loop.
func (f *frames) local(a ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	switch a := a.(type) {
	case *ssa.Alloc:
		return body[a.Block()]
	case *ssa.FieldAddr:
		return f.local(a.X, body)
	case *ssa.IndexAddr:
		return f.local(a.X, body)
	}
	return false
}

// silent tells whether a function writes nothing.
func (f *frames) silent(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !f.local(in.Addr, all) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Send:
				return false
			case ssa.CallInstruction:
				own, ext, dyn := f.callees(in.Common())
				if dyn || ext != "" && ext != "builtin len" && ext != "builtin cap" && !strings.HasPrefix(ext, "strings.") && !strings.HasPrefix(ext, "slices.Contains") {
					return false
				}
				for _, g := range own {
					if !f.silent(g, seen) {
						return false
					}
				}
			}
		}
	}
	return true
}

// ---- where the location of the files flows to

func (f *frames) mark(k any) {
	if !f.taint[k] {
		f.taint[k] = true
		f.changed = true
	}
}

// loc is the abstract location of an address.
func (f *frames) loc(a ssa.Value) any {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fieldLoc{tkey(deref(a.X.Type())), a.Field}
	case *ssa.IndexAddr:
		if al, ok := a.X.(*ssa.Alloc); ok {
			return al
		}
		if s, ok := a.X.(*ssa.Slice); ok {
			if al, ok := s.X.(*ssa.Alloc); ok {
				return al
			}
		}
		return elemLoc(tkey(a.Type()))
	case *ssa.Alloc, *ssa.Global:
		return a
	case *ssa.FreeVar:
		return a
	}
	return elemLoc(tkey(a.Type()))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// carries tells whether a value of a type may contain a location.
func (f *frames) carries(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return f.taint[elemLoc(tkey(t))] || f.carries(u.Elem(), seen)
	case *types.Slice:
		return f.taint[elemLoc(tkey(types.NewPointer(u.Elem())))] || f.carries(u.Elem(), seen)
	case *types.Array:
		return f.carries(u.Elem(), seen)
	case *types.Map:
		return f.taint[keyLoc(tkey(t))] || f.taint[elemLoc("map "+tkey(t))] || f.carries(u.Key(), seen) || f.carries(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if f.taint[fieldLoc{tkey(t), i}] || f.carries(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// t tells whether a value depends on the location.
func (f *frames) t(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return false
	}
	if f.taint[v] {
		return true
	}
	if s, ok := v.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok && f.taint[al] {
			return true
		}
	}
	return false
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func isNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// location computes what depends on the location of the files (but not on their content).
func (f *frames) location() {
	tp := f.pg.typ("parser", "Parser")
	var parse *ssa.Function
	if tp != nil {
		parse = f.pg.method(tp, "Parse")
	}
	var trans *ssa.Function
	if tr := f.pg.fn("transpiler", "New"); tr != nil {
		trans = f.pg.method(tr.Signature.Results().At(0).Type(), "Transpile")
	}
	if trans == nil || parse == nil {
		f.why["transpiler.Transpile.location-of-result"] = map[string]bool{"not found": true}
		return
	}
	for _, fn := range []*ssa.Function{trans, parse} {
		for _, p := range fn.Params {
			if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				f.mark(p)
			}
		}
	}
	f.source = true
	f.sinks("location", "the location of the files")
}

// sinks: nothing which is tracked is looked at or reaches the script.
func (f *frames) sinks(ob, what string) {
	var trans *ssa.Function
	if tr := f.pg.fn("transpiler", "New"); tr != nil {
		trans = f.pg.method(tr.Signature.Results().At(0).Type(), "Transpile")
	}
	for {
		f.changed = false
		for _, fn := range f.order {
			f.flow(fn)
		}
		if !f.changed {
			break
		}
	}
	for _, fn := range f.order {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.If:
					if f.t(in.Cond) && !f.absolute(in) {
						f.blame(fn, ob, in, "a branch depends on %s", what)
					}
				case *ssa.IndexAddr:
					if f.t(in.Index) {
						f.blame(fn, ob, in, "an index depends on %s", what)
					}
				case *ssa.TypeAssert:
					if f.t(in.X) && !isErrLike(in.X.Type()) {
						f.blame(fn, ob, in, "a type depends on %s", what)
					}
				case ssa.CallInstruction:
					if c := in.Common(); !c.IsInvoke() && f.t(c.Value) {
						f.blame(fn, ob, in, "a call depends on %s", what)
					}
				}
			}
		}
	}
	if trans == nil || f.taint[retIdx{trans, 0}] {
		f.why["transpiler.Transpile."+ob+"-of-result"] = map[string]bool{"the result depends on " + what: true}
	}
}

// absolute tells whether a branch only replaces a path by the absolute path of the same file.
func (f *frames) absolute(in *ssa.If) bool {
	cond, rel := in.Cond, 1
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, rel = u.X, 0
	}
	c, ok := cond.(*ssa.Call)
	if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().String() != "path/filepath.IsAbs" {
		return false
	}
	first := in.Block().Succs[rel]
	if len(first.Preds) != 1 || len(in.Block().Succs[1-rel].Preds) == 1 && first.Dominates(in.Block().Succs[1-rel]) {
		return false
	}
	for _, b := range first.Parent().Blocks {
		if !first.Dominates(b) {
			continue
		}
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Call:
				g := i.Common().StaticCallee()
				if g == nil || g.String() != "path/filepath.Abs" || i.Common().Args[0] != c.Common().Args[0] {
					return false
				}
			case *ssa.BinOp:
				if !isNil(i.X) && !isNil(i.Y) {
					return false
				}
			case *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Alloc:
			case *ssa.UnOp:
				if _, ok := i.X.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.Return:
				if e := i.Results[len(i.Results)-1]; !isErr(e.Type()) || isNil(e) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func isErrLike(t types.Type) bool { return types.Implements(t, errIface) }

func (f *frames) flow(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.flowIn(fn, in)
		}
	}
}

func (f *frames) flowIn(fn *ssa.Function, ins ssa.Instruction) {
	switch in := ins.(type) {
	case *ssa.Store:
		if f.t(in.Val) {
			f.mark(f.loc(in.Addr))
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if f.taint[f.loc(in.X)] || f.t(in.X) {
				f.mark(in)
			}
		} else if f.t(in.X) {
			f.mark(in)
		}
	case *ssa.Field:
		if f.taint[fieldLoc{tkey(in.X.Type()), in.Field}] || f.t(in.X) {
			f.mark(in)
		}
	case *ssa.MapUpdate:
		if f.t(in.Key) {
			f.mark(keyLoc(tkey(in.Map.Type())))
		}
		if f.t(in.Value) {
			f.mark(elemLoc("map " + tkey(in.Map.Type())))
		}
	case *ssa.Lookup:
		// Which key is looked up by a location doesn't depend on the location itself.
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			if f.taint[elemLoc("map "+tkey(in.X.Type()))] || f.t(in.X) {
				f.mark(in)
			}
			if f.t(in.Index) && !f.taint[keyLoc(tkey(in.X.Type()))] {
				f.mark(in) // The keys are no locations.
			}
		} else if f.t(in.X) || f.t(in.Index) {
			f.mark(in)
		}
	case *ssa.Range:
		if f.t(in.X) {
			f.mark(in)
		}
	case *ssa.Next:
		if rg, ok := in.Iter.(*ssa.Range); ok {
			mt := tkey(rg.X.Type())
			if f.taint[keyLoc(mt)] || f.t(rg.X) {
				f.mark(tupleIdx{in, 1})
			}
			if f.taint[elemLoc("map "+mt)] || f.t(rg.X) {
				f.mark(tupleIdx{in, 2})
			}
		}
	case *ssa.Extract:
		if f.taint[tupleIdx{in.Tuple, in.Index}] || f.t(in.Tuple) {
			f.mark(in)
		}
	case *ssa.BinOp:
		if in.Op == token.EQL || in.Op == token.NEQ {
			if isNil(in.X) || isNil(in.Y) {
				break
			}
			if f.t(in.X) && f.t(in.Y) {
				break // The same locations stay the same.
			}
		}
		if f.t(in.X) || f.t(in.Y) {
			f.mark(in)
		}
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		for i, v := range in.Bindings {
			fv := g.FreeVars[i]
			if f.t(v) || f.taint[f.loc(v)] {
				f.mark(fv)
			}
			if f.taint[fv] {
				f.mark(f.loc(v))
			}
		}
	case *ssa.Return:
		for i, v := range in.Results {
			if f.t(v) {
				f.mark(retIdx{fn, i})
			}
		}
	case *ssa.MakeInterface:
		if f.t(in.X) {
			f.mark(in)
		}
	case ssa.CallInstruction:
		f.flowCall(fn, in)
	case *ssa.IndexAddr:
		if f.t(in.X) {
			f.mark(in)
		}
	case *ssa.FieldAddr:
		if f.t(in.X) {
			f.mark(in)
		}
	case *ssa.Alloc, *ssa.If, *ssa.Jump, *ssa.RunDefers, *ssa.Panic, *ssa.DebugRef:
	case ssa.Value:
		for _, op := range ins.Operands(nil) {
			if *op != nil && f.t(*op) {
				f.mark(in)
			}
		}
	}
}

func (f *frames) flowCall(fn *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	own, ext, _ := f.callees(c)
	v, _ := in.(ssa.Value)
	n := c.Signature().Results().Len()
	res := func(i int) {
		if v == nil {
			return
		}
		if n > 1 {
			f.mark(tupleIdx{v, i})
		} else {
			f.mark(v)
		}
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for _, g := range own {
		if !f.fns[g] {
			continue
		}
		for i, a := range args {
			if i < len(g.Params) {
				if f.t(a) {
					f.mark(g.Params[i])
				}
				// An address which is passed.
				if al, ok := a.(*ssa.Alloc); ok && f.taint[elemLoc(tkey(a.Type()))] {
					if _, isStruct := deref(a.Type()).Underlying().(*types.Struct); !isStruct {
						f.mark(al)
					}
				}
			}
		}
		for i := 0; i < n; i++ {
			if f.taint[retIdx{g, i}] {
				res(i)
			}
		}
	}
	if ext == "" {
		return
	}
	t := false
	for _, a := range args {
		// Copied elements stay in the locations of their type.
		if f.t(a) || !strings.HasPrefix(ext, "builtin ") && !strings.HasPrefix(ext, "slices.Clone") && !strings.HasPrefix(ext, "maps.Clone") && f.carriesArg(a) {
			t = true
		}
	}
	if ext == "os.Executable" && f.source {
		res(0)
		return
	}
	if !t {
		return
	}
	for i := 0; i < n; i++ {
		if !isAnswer(ext, i) {
			res(i)
		}
	}
	if strings.HasPrefix(ext, "builtin ") {
		if ext == "builtin copy" {
			f.mark(elemLoc(tkey(types.NewPointer(elemOf(args[0].Type())))))
		}
		return
	}
	for _, a := range args {
		switch u := a.Type().Underlying().(type) {
		case *types.Pointer:
			if al, ok := a.(*ssa.Alloc); ok {
				f.mark(al)
			} else {
				f.mark(f.loc(a))
			}
			_ = u
		case *types.Interface, *types.Map, *types.Slice, *types.Chan:
			// What the argument refers to.
			if k, ok := a.(*ssa.Const); ok && k.IsNil() {
				break
			}
			f.mark(a)
			if l, ok := a.(*ssa.UnOp); ok && l.Op == token.MUL {
				f.mark(f.loc(l.X))
			}
		case *types.Signature:
			if mc, ok := a.(*ssa.MakeClosure); ok {
				for _, p := range mc.Fn.(*ssa.Function).Params {
					f.mark(p)
				}
			} else if g, ok := a.(*ssa.Function); ok {
				for _, p := range g.Params {
					f.mark(p)
				}
			}
		}
	}
}

// carriesArg tells whether something an argument refers to depends on the location.
func (f *frames) carriesArg(a ssa.Value) bool {
	t := a.Type()
	if m, ok := a.(*ssa.MakeInterface); ok {
		t = m.X.Type()
	}
	if al, ok := a.(*ssa.Alloc); ok && f.taint[al] {
		return true
	}
	if s, ok := a.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok {
			// The arguments of a variadic function.
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok {
							if m, ok := st.Val.(*ssa.MakeInterface); ok && f.carries(m.X.Type(), map[types.Type]bool{}) {
								return true
							}
						}
					}
				}
			}
			return false
		}
	}
	return f.carries(t, map[types.Type]bool{})
}

var frameAssumptions = []string{
	"frames: the functions of other packages which are called (list of trusted functions) depend on their arguments, the files they name and the place of the executable only, and write at most what their arguments refer to",
	"frames: calls through interfaces and function values reach functions of the repository with the right method or signature (or the trusted ones); the analysis of writes and of the location is independent of the order of the statements and treats all objects of a type alike",
	"location: the answers of the file system (exists, is a regular file, content) are those of the relocated tree; maps with paths as keys are only looked up; texts of errors name the location and are no part of the result",
	"location: replacing a relative path by the absolute one names the same file",
	"repeatable: the lists which evaluateImports extends per function share no memory between functions",
}

// tkey names a type, the names of aliases don't matter.
func tkey(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + tkey(u.Elem())
	case *types.Slice:
		return "[]" + tkey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]", u.Len()) + tkey(u.Elem())
	case *types.Map:
		return "map[" + tkey(u.Key()) + "]" + tkey(u.Elem())
	case *types.Signature:
		return "func(" + sigKey(u) + ")"
	default:
		return types.TypeString(u, nil)
	}
}
