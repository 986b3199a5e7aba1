package sym

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integer, float64), *Str, Ptr, Slice, *StructV,
// *ArrV, Iface, *FnV, Tuple, Opaque, Poison, nil (unset register).
// Values are immutable.
type Value interface{}

// Str is a string of known length with symbolic bytes, or an opaque string
// (the text of an error message, say) whose content is not modelled.
type Str struct {
	B      []*Term
	Opaque bool
	Doc    *JNode // set for rendered JSON documents
}

type ObjID struct{ K, N int32 }

func (o ObjID) Nil() bool { return o.K == 0 && o.N == 0 }

type PE struct {
	I int
	S *Term // optional symbolic index, added to I (array elements only)
}

// Ptr is a pointer: an object and the path to the addressed component.
type Ptr struct {
	Obj  ObjID
	Path []PE
}

func (p Ptr) Nil() bool { return p.Obj.Nil() }

// Slice refers to an array component; Off is concrete, Len and Cap may be
// symbolic.
type Slice struct {
	Arr      Ptr
	Off      int
	Len, Cap *Term
}

type StructV struct{ F []Value }

// ArrV is an array; elements past E are Def (the zero value).
type ArrV struct {
	E   []Value
	Def Value
	N   *Term
}

type Iface struct {
	T types.Type // nil for a nil interface
	V Value
}

type FnV struct {
	F    *ssa.Function
	Free []Value
	B    *ssa.Builtin
	Name string // for intrinsic closures
}

type Tuple []Value

// Poison marks a value the model could not compute; using it is unsupported.
type Poison struct{ Why string }

// MapV is the content of a map object. Keys are concrete (Term const, concrete
// Str, Iface/Struct of those).
type MapV struct {
	Keys []Value
	Vals []Value
}

// ChanV is the content of a channel object.
type ChanV struct {
	Buf    []Value
	Cap    int
	Closed bool
	Timer  bool // always ready
}

// IterV is the content of a map or string iterator object.
type IterV struct {
	Keys []Value
	Vals []Value
	Map  Ptr
	Str  *Str
	Pos  int
}

func ptrEq(a, b Ptr) bool {
	if a.Obj != b.Obj || len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		if a.Path[i] != b.Path[i] {
			return false
		}
	}
	return true
}

func (p Ptr) add(e PE) Ptr {
	np := make([]PE, len(p.Path)+1)
	copy(np, p.Path)
	np[len(p.Path)] = e
	return Ptr{p.Obj, np}
}

func (e *Exec) strConst(s string) *Str {
	b := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = e.b.Const(8, uint64(s[i]))
	}
	return &Str{B: b}
}

// concStr returns the Go string if every byte is constant.
func concStr(s *Str) (string, bool) {
	if s.Opaque || s.Doc != nil {
		return "", false
	}
	out := make([]byte, len(s.B))
	for i, t := range s.B {
		if !t.IsConst() {
			return "", false
		}
		out[i] = byte(t.Val)
	}
	return string(out), true
}

func typeWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Float32, types.Float64, types.UntypedFloat:
		return WFloat, true, true
	}
	return 0, false, false
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Info()&types.IsString != 0:
			return &Str{}
		case u.Kind() == types.Float32:
			return e.b.FConst(0)
		case u.Info()&types.IsComplex != 0:
			return Poison{"complex"}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		w, _, ok := typeWidth(t)
		if !ok {
			return Poison{"zero of " + t.String()}
		}
		if w == WFloat {
			return e.b.FConst(0)
		}
		if w == 0 {
			return e.b.False
		}
		return e.b.Const(w, 0)
	case *types.Pointer, *types.Map, *types.Chan:
		return Ptr{}
	case *types.Slice:
		return Slice{Len: e.b.Int(0), Cap: e.b.Int(0)}
	case *types.Signature:
		return (*FnV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := &StructV{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return e.newArr(u.Elem(), e.b.Int(int(u.Len())))
	case *types.Tuple:
		tv := make(Tuple, u.Len())
		for i := range tv {
			tv[i] = e.zero(u.At(i).Type())
		}
		return tv
	}
	return Poison{"zero of " + t.String()}
}

const materialise = 64

func (e *Exec) newArr(elem types.Type, n *Term) *ArrV {
	z := e.zero(elem)
	a := &ArrV{Def: z, N: n}
	if n.IsConst() && n.Val <= materialise {
		a.E = make([]Value, n.Val)
		for i := range a.E {
			a.E[i] = z
		}
	}
	return a
}

func (a *ArrV) get(i int) Value {
	if i < len(a.E) {
		return a.E[i]
	}
	return a.Def
}

func (a *ArrV) set(i int, v Value) *ArrV {
	n := len(a.E)
	if i >= n {
		n = i + 1
	}
	ne := make([]Value, n)
	copy(ne, a.E)
	for j := len(a.E); j < n; j++ {
		ne[j] = a.Def
	}
	ne[i] = v
	return &ArrV{E: ne, Def: a.Def, N: a.N}
}

func (a *ArrV) setRange(at int, vs []Value) *ArrV {
	if len(vs) == 0 {
		return a
	}
	n := len(a.E)
	if at+len(vs) > n {
		n = at + len(vs)
	}
	ne := make([]Value, n)
	copy(ne, a.E)
	for j := len(a.E); j < at; j++ {
		ne[j] = a.Def
	}
	copy(ne[at:], vs)
	return &ArrV{E: ne, Def: a.Def, N: a.N}
}

func valString(v Value) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Str:
		if x.Opaque {
			return "<opaque string>"
		}
		if s, ok := concStr(x); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("str[%d]", len(x.B))
	case Ptr:
		if x.Nil() {
			return "nil"
		}
		return fmt.Sprintf("&%v%v", x.Obj, x.Path)
	case Slice:
		return fmt.Sprintf("slice(%v+%d len %v)", x.Arr.Obj, x.Off, x.Len)
	case *StructV:
		var p []string
		for _, f := range x.F {
			p = append(p, valString(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *ArrV:
		return fmt.Sprintf("arr[%v]", x.N)
	case Iface:
		if x.T == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%v: %s)", x.T, valString(x.V))
	case *FnV:
		if x == nil {
			return "nil-func"
		}
		return "func"
	case Tuple:
		var p []string
		for _, f := range x {
			p = append(p, valString(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case Poison:
		return "poison(" + x.Why + ")"
	}
	return fmt.Sprintf("%T", v)
}
