package sym

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// roundUp is the runtime's roundupsize.
func roundUp(n int, noscan bool) int {
	req := n
	if !noscan && n > 512 {
		req += 8
	}
	if req <= 32768 {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - n)
			}
		}
	}
	return (req + 8191) &^ 8191
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

// growCap is the runtime's growslice capacity rule.
func (e *Exec) growCap(oldCap, newLen int, elem types.Type) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(e.Sizes.Sizeof(elem))
	if sz == 0 {
		return newLen
	}
	return roundUp(nc*sz, !hasPointers(elem)) / sz
}

func (e *Exec) appendVals(st *State, s Slice, vs []Value, elem types.Type) Slice {
	n := e.concInt(st, s.Len, "append to slice of symbolic length")
	c := e.concInt(st, s.Cap, "append to slice of symbolic capacity")
	if len(vs) == 0 {
		return s
	}
	if n+len(vs) <= c {
		r := Slice{Arr: s.Arr, Off: s.Off, Len: e.b.Int(n + len(vs)), Cap: s.Cap}
		e.sliceStore(st, Slice{Arr: s.Arr, Off: s.Off + n}, vs)
		return r
	}
	var old []Value
	if n > 0 {
		old = e.sliceVals(st, s, n)
	}
	nc := e.growCap(c, n+len(vs), elem)
	all := append(append(make([]Value, 0, n+len(vs)), old...), vs...)
	return e.newSliceCap(st, elem, all, nc)
}

func (a *act) builtin(th *thread, name string, args []Value, c *ssa.CallCommon, in ssa.Instruction) []Outcome {
	e := a.e
	b := e.b
	st := th.st
	ret := func(vs ...Value) []Outcome { return []Outcome{{st: st, kind: oRet, vals: vs}} }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			if x.Opaque || x.Doc != nil {
				panic(unsup("length of an opaque string"))
			}
			return ret(b.Int(len(x.B)))
		case Slice:
			return ret(x.Len)
		case *ArrV:
			return ret(x.N)
		case Ptr:
			if x.Nil() {
				return ret(b.Int(0))
			}
			e.accessMap(st, x, false)
			switch m := e.obj(st, x.Obj).V.(type) {
			case *MapV:
				return ret(b.Int(len(m.Keys)))
			case *ChanV:
				return ret(b.Int(len(m.Buf)))
			case *ArrV:
				return ret(m.N)
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return ret(x.Cap)
		case *ArrV:
			return ret(x.N)
		case Ptr:
			if x.Nil() {
				return ret(b.Int(0))
			}
			if m, ok := e.obj(st, x.Obj).V.(*ChanV); ok {
				return ret(b.Int(m.Cap))
			}
		}
	case "append":
		s := args[0].(Slice)
		var elem types.Type
		if c != nil {
			elem = c.Args[0].Type().Underlying().(*types.Slice).Elem()
		} else {
			panic(unsup("append as a function value"))
		}
		var vs []Value
		switch x := args[1].(type) {
		case Slice:
			n := e.concInt(st, x.Len, "append of slice of symbolic length")
			if n > 0 {
				vs = e.sliceVals(st, x, n)
			}
		case *Str:
			if x.Opaque || x.Doc != nil {
				panic(unsup("append of opaque string"))
			}
			for _, t := range x.B {
				vs = append(vs, t)
			}
		default:
			panic(unsup("append of %T", args[1]))
		}
		return ret(e.appendVals(st, s, vs, elem))
	case "copy":
		d := args[0].(Slice)
		var ln *Term
		switch x := args[1].(type) {
		case Slice:
			ln = x.Len
		case *Str:
			if x.Opaque || x.Doc != nil {
				panic(unsup("copy of opaque string"))
			}
			ln = b.Int(len(x.B))
		}
		n := e.concInt(st, e.minLen(st, d.Len, ln), "copy length")
		var vs []Value
		switch x := args[1].(type) {
		case Slice:
			vs = e.sliceVals(st, x, n)
		case *Str:
			for _, t := range x.B[:n] {
				vs = append(vs, t)
			}
		}
		e.sliceStore(st, d, vs)
		return ret(b.Int(n))
	case "delete":
		e.mapDel(st, args[0].(Ptr), args[1])
		return ret()
	case "clear":
		switch x := args[0].(type) {
		case Slice:
			n := e.concInt(st, x.Len, "clear")
			elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			vs := make([]Value, n)
			for i := range vs {
				vs[i] = e.zero(elem)
			}
			e.sliceStore(st, x, vs)
		case Ptr:
			if !x.Nil() {
				e.accessMap(st, x, true)
				e.setObj(st, x.Obj, &MapV{})
			}
		}
		return ret()
	case "close":
		p := args[0].(Ptr)
		ch := e.obj(st, p.Obj).V.(*ChanV)
		n := *ch
		n.Closed = true
		e.setObj(st, p.Obj, &n)
		return ret()
	case "print", "println":
		return ret()
	case "recover":
		if st.curPanic == nil {
			return ret(Iface{})
		}
		v := st.curPanic.V
		st.curPanic = nil
		if _, ok := v.(Iface); !ok {
			v = Iface{T: e.can(types.Typ[types.String]), V: &Str{Opaque: true}}
		}
		return ret(v)
	case "min", "max":
		v := args[0]
		for _, w := range args[1:] {
			if s, ok := v.(*Str); ok {
				lt := e.strLess(s, w.(*Str))
				if name == "max" {
					lt = e.strLess(w.(*Str), s)
				}
				m, ok := e.mergeVal(lt, s, w, true)
				if !ok {
					panic(unsup("min of strings"))
				}
				v = m
				continue
			}
			x, y := v.(*Term), w.(*Term)
			var lt *Term
			if x.W == WFloat {
				lt = b.FCmp(OFLt, x, y)
			} else if _, sg, _ := typeWidth(c.Args[0].Type()); sg {
				lt = b.Slt(x, y)
			} else {
				lt = b.Ult(x, y)
			}
			if name == "min" {
				v = b.Ite(lt, x, y)
			} else {
				v = b.Ite(lt, y, x)
			}
		}
		return ret(v)
	case "ssa:wrapnilchk":
		p, ok := args[0].(Ptr)
		if ok && p.Nil() {
			return []Outcome{{st: st, kind: oPanic, pv: &PanicVal{V: e.runtimeErr("nil receiver"), Msg: "runtime error: value method called using nil pointer"}}}
		}
		return ret(args[0])
	case "ssa:deferstack":
		return ret(b.Int(0))
	case "SliceData":
		s := args[0].(Slice)
		if s.Arr.Nil() {
			return ret(Ptr{})
		}
		return ret(s.Arr.add(PE{I: s.Off}))
	case "StringData":
		s := args[0].(*Str)
		sl := e.strToBytes(st, s, types.Typ[types.Uint8])
		return ret(sl.Arr.add(PE{I: 0}))
	case "String":
		p := args[0].(Ptr)
		n := e.concInt(st, e.to64w(args[1].(*Term)), "unsafe.String length")
		if n == 0 {
			return ret(&Str{})
		}
		arr, off := p, 0
		arr = Ptr{p.Obj, p.Path[:len(p.Path)-1]}
		off = p.Path[len(p.Path)-1].I
		return ret(e.bytesToStr(st, Slice{Arr: arr, Off: off, Len: b.Int(n), Cap: b.Int(n)}))
	case "Slice":
		p := args[0].(Ptr)
		n := e.concInt(st, e.to64w(args[1].(*Term)), "unsafe.Slice length")
		if p.Nil() {
			return ret(Slice{Len: b.Int(0), Cap: b.Int(0)})
		}
		arr := Ptr{p.Obj, p.Path[:len(p.Path)-1]}
		return ret(Slice{Arr: arr, Off: p.Path[len(p.Path)-1].I, Len: b.Int(n), Cap: b.Int(n)})
	}
	panic(unsup("builtin %s on %T", name, firstOf(args)))
}

func firstOf(a []Value) Value {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}

func (e *Exec) to64w(t *Term) *Term {
	if t.W == 64 {
		return t
	}
	return e.b.ZExt(t, 64)
}

// minLen is min(x, y) for lengths, resolved by the path condition if it can be.
func (e *Exec) minLen(st *State, x, y *Term) *Term {
	b := e.b
	c := e.simp(st, b.Slt(x, y))
	if c == b.True {
		return x
	}
	if c == b.False {
		return y
	}
	if e.feas(st, c) == Unsat {
		return y
	}
	if e.feas(st, b.Not(c)) == Unsat {
		return x
	}
	return b.Ite(c, x, y)
}
