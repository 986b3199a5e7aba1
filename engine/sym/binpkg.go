package sym

import (
	"go/types"
	"strings"
)

// encoding/binary of structures, arrays and named types. The basic types take
// the fast path of its source, everything else goes through reflection there
// and is modelled here from the type.

// binFast: the type is one the source of encoding/binary handles without
// reflection.
func binFast(t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		return binBasic(u.Elem())
	case *types.Slice:
		return binBasic(u.Elem())
	}
	return binBasic(t)
}

func binBasic(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Uint, types.Uintptr, types.String, types.Complex64, types.Complex128:
		return false
	}
	return true
}

// binSize is the encoded size of a type, -1 if it has none.
func binSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		case types.Int64, types.Uint64:
			return 8
		case types.Float32, types.Float64:
			panic(unsup("encoding/binary of a float in a structure"))
		}
	case *types.Array:
		if n := binSize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := binSize(u.Field(i).Type())
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	}
	return -1
}

func (e *Exec) binEncode(out []Value, t types.Type, v Value, big bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x, ok := v.(*Term)
		if !ok {
			panic(unsup("encoding/binary of an unknown value"))
		}
		n := binSize(t)
		if u.Kind() == types.Bool {
			return append(out, e.b.Ite(x, e.b.Const(8, 1), e.b.Const(8, 0)))
		}
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			out = append(out, e.b.Extract(x, 8*k+7, 8*k))
		}
		return out
	case *types.Array:
		a := v.(*ArrV)
		for i := 0; i < int(u.Len()); i++ {
			x := a.Def
			if i < len(a.E) {
				x = a.E[i]
			}
			out = e.binEncode(out, u.Elem(), x, big)
		}
		return out
	case *types.Struct:
		s := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			x := s.F[i]
			if u.Field(i).Name() == "_" {
				x = e.zero(u.Field(i).Type())
			}
			out = e.binEncode(out, u.Field(i).Type(), x, big)
		}
		return out
	}
	panic(unsup("encoding/binary of " + t.String()))
}

// binDecode builds a value of type t from the front of in; old is the value the
// blank fields keep.
func (e *Exec) binDecode(in []Value, t types.Type, old Value, big bool) (Value, []Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := binSize(t)
		w := 8 * n
		x := e.b.Const(w, 0)
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			y, ok := in[i].(*Term)
			if !ok {
				panic(unsup("encoding/binary of an unknown byte"))
			}
			if n == 1 {
				x = y
				continue
			}
			x = e.b.BOr(x, e.b.Shl(e.b.ZExt(y, w), e.b.Const(w, uint64(8*k))))
		}
		if u.Kind() == types.Bool {
			x = e.b.Not(e.b.Eq(x, e.b.Const(8, 0)))
		}
		return x, in[n:]
	case *types.Array:
		a := e.zero(t).(*ArrV)
		vs := make([]Value, int(u.Len()))
		for i := range vs {
			vs[i], in = e.binDecode(in, u.Elem(), e.zero(u.Elem()), big)
		}
		return &ArrV{E: vs, Def: a.Def, N: a.N}, in
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i], in = e.binDecode(in, u.Field(i).Type(), old.(*StructV).F[i], big)
			if u.Field(i).Name() == "_" {
				f[i] = old.(*StructV).F[i]
			}
		}
		return &StructV{F: f}, in
	}
	panic(unsup("encoding/binary of " + t.String()))
}

// binOperand: the elements an operand of encoding/binary stands for, with their
// type. ok is false if the operand is left to the source.
func (c *ictx) binOperand(i Iface) (et types.Type, vs []Value, at []Ptr, ok bool) {
	if i.T == nil || binFast(i.T) {
		return
	}
	switch u := i.T.Underlying().(type) {
	case *types.Pointer:
		p, isP := i.V.(Ptr)
		if !isP || p.Nil() || binSize(u.Elem()) < 0 {
			return
		}
		return u.Elem(), []Value{c.e.load(c.st, p)}, []Ptr{p}, true
	case *types.Slice:
		s, isS := i.V.(Slice)
		if !isS || binSize(u.Elem()) < 0 {
			return
		}
		n := c.e.concInt(c.st, s.Len, "slice length")
		for k := 0; k < n; k++ {
			at = append(at, s.Arr.add(PE{I: s.Off + k}))
		}
		return u.Elem(), c.e.sliceVals(c.st, s, n), at, true
	}
	if binSize(i.T) < 0 {
		return
	}
	return i.T, []Value{i.V}, nil, true
}

func binBig(i Iface) bool {
	if i.T == nil {
		panic(unsup("encoding/binary without byte order"))
	}
	n := i.T.String()
	switch {
	case strings.HasSuffix(n, "bigEndian"):
		return true
	case strings.HasSuffix(n, "littleEndian"), strings.HasSuffix(n, "nativeEndian"):
		return false
	}
	panic(unsup("encoding/binary with byte order " + n))
}

func binWrite(c *ictx) []Outcome {
	i, ok := c.args[2].(Iface)
	if !ok || i.T == nil {
		return nil
	}
	// an empty []byte takes the reflection path and writes nothing
	if s, ok := i.V.(Slice); ok && s.Len.IsConst() && s.Len.Val == 0 {
		if sl, ok := i.T.Underlying().(*types.Slice); ok && binSize(sl.Elem()) >= 0 {
			return c.ret(Iface{})
		}
	}
	et, vs, _, ok := c.binOperand(i)
	if !ok {
		return nil
	}
	var out []Value
	for _, v := range vs {
		out = c.e.binEncode(out, et, v, binBig(c.args[1].(Iface)))
	}
	w := c.args[0].(Iface)
	if w.T == nil {
		return nil
	}
	m := c.e.lookupMethod(w.T, "Write")
	if m == nil {
		return nil
	}
	b := c.e.newSlice(c.st, types.Typ[types.Uint8], out)
	var res []Outcome
	for _, o := range c.e.callFn(m, []Value{w.V, b}, nil, c.st, c.depth+1) {
		if o.kind == oRet {
			o.vals = o.vals[1:]
		}
		res = append(res, o)
	}
	return res
}

func binRead(c *ictx) []Outcome {
	i, ok := c.args[2].(Iface)
	if !ok {
		return nil
	}
	et, vs, at, ok := c.binOperand(i)
	if !ok || at == nil {
		return nil
	}
	f := c.e.Prog.ImportedPackage("io").Func("ReadFull")
	n := binSize(et) * len(vs)
	z := make([]Value, n)
	for k := range z {
		z[k] = c.e.b.Const(8, 0)
	}
	b := c.e.newSlice(c.st, types.Typ[types.Uint8], z)
	big := binBig(c.args[1].(Iface))
	var res []Outcome
	for _, o := range c.e.callFn(f, []Value{c.args[0], b}, nil, c.st, c.depth+1) {
		if o.kind == oRet {
			err := o.vals[1].(Iface)
			o.vals = o.vals[1:]
			if err.T == nil {
				in := c.e.sliceVals(o.st, b, n)
				for k, p := range at {
					var v Value
					v, in = c.e.binDecode(in, et, vs[k], big)
					c.e.store(o.st, p, v)
				}
			}
		}
		res = append(res, o)
	}
	return res
}

func binSizeOf(c *ictx) []Outcome {
	et, vs, _, ok := c.binOperand(c.args[0].(Iface))
	if !ok {
		return nil
	}
	return c.ret(c.e.b.Int(binSize(et) * len(vs)))
}

func binAppend(c *ictx) []Outcome {
	et, vs, _, ok := c.binOperand(c.args[2].(Iface))
	if !ok {
		return nil
	}
	var out []Value
	for _, v := range vs {
		out = c.e.binEncode(out, et, v, binBig(c.args[1].(Iface)))
	}
	return c.ret(c.e.appendVals(c.st, c.args[0].(Slice), out, types.Typ[types.Uint8]), Iface{})
}
