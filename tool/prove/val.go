package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Values of the symbolic execution. Booleans, integers and strings are terms.
type Val interface{}

type StructV struct {
	t types.Type
	f []Val
}
type ArrV struct{ e []Val }
type Obj struct {
	id   int
	site string
	val  Val
	lazy func() Val
}

// force makes the value of an arbitrary object.
func (o *Obj) force() {
	if o.lazy != nil {
		f := o.lazy
		o.lazy = nil
		o.val = f()
	}
}

type PtrV struct {
	obj  *Obj
	path []int
}
type SliceV struct {
	arr           *Obj // of *ArrV, nil for the nil slice
	off, len, cap int
}

// SymSeq is an immutable slice of unknown length and content.
type SymSeq struct {
	name  string
	elem  types.Type
	n     *Term
	memo  map[int]Val
	ghost map[string]Val
	get   func(i *Term) Val // the elements, nil if they are arbitrary
}
type mapEntry struct {
	k, v Val
	dead bool
}
type MapObj struct {
	id     int
	kt, vt types.Type
	ents   []*mapEntry
	sym    string      // name of the unknown part, "" if there is none
	known  []*mapEntry // what is known of the unknown part, a nil value means absent
	isNil  bool
	ops    []mapOp // modifications of an abstract context
	site   string
}
type MapV struct{ m *MapObj }
type IfaceV struct {
	t types.Type // nil for the nil interface
	v Val
}

// SymIface is a non-nil interface value of unknown dynamic type.
type SymIface struct {
	id    int
	name  string
	t     types.Type
	dyn   types.Type
	dynV  Val
	not   []types.Type
	impl  map[string]bool
	ghost map[string]Val
}
type FuncV struct {
	fn     *ssa.Function
	bind   []Val
	native func(x *X, args []Val) Val
	name   string
	isNil  bool
}
type TupleV []Val
type IterV struct {
	m    *MapObj
	keys []*mapEntry
	i    int
	str  []rune
	offs []int
	isS  bool
	sym  *Term // an unknown string
}

type unsupported struct{ why string }
type pathEnd struct{ why string }

func unsup(f string, a ...any) Val { panic(unsupported{fmt.Sprintf(f, a...)}) }

func describe(v Val) string {
	switch v := v.(type) {
	case *Term:
		return v.String()
	case *StructV:
		s := "{"
		for i, f := range v.f {
			if i > 0 {
				s += " "
			}
			s += describe(f)
		}
		return s + "}"
	case *SliceV:
		s := "["
		for i := 0; i < v.len; i++ {
			if i > 0 {
				s += " "
			}
			s += describe(v.arr.val.(*ArrV).e[v.off+i])
		}
		return s + "]"
	case *SymSeq:
		return v.name + "[...]"
	case *IfaceV:
		if v.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", types.TypeString(v.t, func(*types.Package) string { return "" }), describe(v.v))
	case *SymIface:
		return v.name
	case *PtrV:
		if v.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&obj%d%v", v.obj.id, v.path)
	case TupleV:
		s := "("
		for i, f := range v {
			if i > 0 {
				s += ", "
			}
			s += describe(f)
		}
		return s + ")"
	}
	return fmt.Sprintf("%T", v)
}
