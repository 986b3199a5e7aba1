package sym

import (
	"go/token"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

// conc returns the concrete value of t, forking the path on its feasible
// values if there are several (at most lim; false if there are more).
func (e *Exec) conc(st *State, t *Term, lim int) (uint64, bool) {
	if t.IsConst() {
		return t.Val, true
	}
	if v, ok := st.known[t]; ok {
		return v, true
	}
	var vals []uint64
	var conds []*Term
	var block []*Term
	if t.hasFloat {
		panic(unsup("concretisation of a float-derived value"))
	}
	base := e.relevant(st, []*Term{t})
	for {
		v, ev := e.S.Check(append(base[:len(base):len(base)], block...))
		if v == Unsat {
			break
		}
		if v == Unknown || ev == nil {
			panic(unsup("solver gave no value for concretisation"))
		}
		x := ev.U(t)
		c := e.b.Eq(t, e.b.Const(t.W, x))
		vals = append(vals, x)
		conds = append(conds, c)
		block = append(block, e.b.Not(c))
		if len(vals) > lim {
			return 0, false
		}
	}
	if len(vals) == 0 {
		panic(deadPath{})
	}
	if len(vals) == 1 {
		st.setKnown(t, vals[0])
		return vals[0], true
	}
	// deterministic order
	for i := range vals {
		for j := i + 1; j < len(vals); j++ {
			if vals[j] < vals[i] {
				vals[i], vals[j] = vals[j], vals[i]
				conds[i], conds[j] = conds[j], conds[i]
			}
		}
	}
	panic(splitReq{conds: conds, T: t, Vals: vals})
}

// concSome concretises t; if it has too many values, explores the small ones
// and the extremes and records the rest as outside the bound.
func (e *Exec) concSome(st *State, t *Term, what string) uint64 {
	v, ok := e.conc(st, t, e.Lim.Conc)
	if ok {
		return v
	}
	var conds []*Term
	var vals []uint64
	add := func(x uint64) {
		for _, y := range vals {
			if y == x {
				return
			}
		}
		vals = append(vals, x)
		conds = append(conds, e.b.Eq(t, e.b.Const(t.W, x)))
	}
	for i := 0; i <= 24; i++ {
		add(uint64(i))
	}
	for _, x := range []uint64{31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 4096, 32767, 32768, 65535, 65536, 1<<64 - 1, 1<<64 - 2} {
		add(x & mask(t.W))
	}
	e.Notes["values beyond the sampled ones not explored: "+what+" at "+e.curPos()]++
	e.finding(st, "bound", "too many values: "+what, e.curPos())
	panic(splitReq{conds: conds, T: t, Vals: vals})
}

func (e *Exec) concInt(st *State, t *Term, what string) int {
	return int(sext(e.concSome(st, t, what), t.W))
}

// to64 widens an index or size operand to 64 bits.
func (e *Exec) to64(t *Term, typ types.Type) *Term {
	w, signed, _ := typeWidth(typ)
	if w == 64 {
		return t
	}
	if signed {
		return e.b.SExt(t, 64)
	}
	return e.b.ZExt(t, 64)
}

func (a *act) set(th *thread, v ssa.Value, x Value) {
	th.regs[a.inf.reg[v]] = x
}

// step executes one non-control instruction; false means the thread ended.
func (a *act) step(th *thread, instr ssa.Instruction) bool {
	e := a.e
	b := e.b
	switch in := instr.(type) {
	case *ssa.BinOp:
		v, ok := a.binop(th, in)
		if !ok {
			return false
		}
		a.set(th, in, v)
	case *ssa.UnOp:
		x := a.get(th, in.X)
		switch in.Op {
		case token.MUL:
			p, ok := x.(Ptr)
			if !ok {
				panic(unsup("deref of %T", x))
			}
			if p.Nil() {
				return a.check(th, b.False, "invalid memory address or nil pointer dereference", in)
			}
			v := e.load(th.st, p)
			if pz, bad := v.(Poison); bad && !a.init {
				panic(unsup("load of poison: %s", pz.Why))
			}
			a.set(th, in, v)
		case token.NOT:
			a.set(th, in, b.Not(x.(*Term)))
		case token.SUB:
			t := x.(*Term)
			if t.W == WFloat {
				a.set(th, in, b.FNeg(t))
			} else {
				a.set(th, in, b.Neg(t))
			}
		case token.XOR:
			a.set(th, in, b.BNot(x.(*Term)))
		case token.ARROW:
			return a.recv(th, in, x)
		default:
			panic(unsup("unop %s", in.Op))
		}
	case *ssa.Alloc:
		if a.pure {
			panic(notPure{})
		}
		t := in.Type().Underlying().(*types.Pointer).Elem()
		a.set(th, in, e.allocT(th.st, t, e.zero(t)))
	case *ssa.Store:
		p := a.get(th, in.Addr).(Ptr)
		v := a.get(th, in.Val)
		if p.Nil() {
			return a.check(th, b.False, "invalid memory address or nil pointer dereference", in)
		}
		e.store(th.st, p, v)
	case *ssa.FieldAddr:
		p, ok := a.get(th, in.X).(Ptr)
		if !ok {
			panic(unsup("fieldaddr of %T", a.get(th, in.X)))
		}
		if p.Nil() {
			return a.check(th, b.False, "invalid memory address or nil pointer dereference", in)
		}
		a.set(th, in, p.add(PE{I: in.Field}))
	case *ssa.Field:
		s, ok := a.get(th, in.X).(*StructV)
		if !ok {
			panic(unsup("field of %T", a.get(th, in.X)))
		}
		a.set(th, in, s.F[in.Field])
	case *ssa.IndexAddr:
		return a.indexAddr(th, in)
	case *ssa.Index:
		x := a.get(th, in.X)
		i := e.to64(a.get(th, in.Index).(*Term), in.Index.Type())
		if s, ok := x.(*Str); ok {
			v, ok := a.strIndex(th, s, i, in)
			if !ok {
				return false
			}
			a.set(th, in, v)
			return true
		}
		arr := x.(*ArrV)
		if !a.check(th, b.Ult(i, arr.N), "index out of range", in) {
			return false
		}
		if i.IsConst() {
			a.set(th, in, arr.get(int(i.Val)))
		} else {
			a.set(th, in, e.loadSym(arr, PE{S: i}, nil))
		}
	case *ssa.Slice:
		return a.slice(th, in)
	case *ssa.Convert:
		a.set(th, in, a.convert(th, a.get(th, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		a.set(th, in, a.convert(th, a.get(th, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeType:
		a.set(th, in, a.get(th, in.X))
	case *ssa.ChangeInterface:
		a.set(th, in, a.get(th, in.X))
	case *ssa.MakeInterface:
		a.set(th, in, Iface{T: e.can(in.X.Type()), V: a.get(th, in.X)})
	case *ssa.TypeAssert:
		return a.typeAssert(th, in)
	case *ssa.Extract:
		tv, ok := a.get(th, in.Tuple).(Tuple)
		if !ok {
			panic(unsup("extract of %T", a.get(th, in.Tuple)))
		}
		v := tv[in.Index]
		if pz, bad := v.(Poison); bad && !a.init {
			panic(unsup("poison: %s", pz.Why))
		}
		a.set(th, in, v)
	case *ssa.MakeSlice:
		n := e.to64(a.get(th, in.Len).(*Term), in.Len.Type())
		c := e.to64(a.get(th, in.Cap).(*Term), in.Cap.Type())
		if !a.check(th, b.And(b.Sle(b.Int(0), n), b.Slt(n, b.Const(64, 1<<40))), "makeslice: len out of range", in) {
			return false
		}
		if c != n && !a.check(th, b.And(b.Sle(n, c), b.Slt(c, b.Const(64, 1<<40))), "makeslice: cap out of range", in) {
			return false
		}
		n = e.tryConc(th.st, n)
		c = e.tryConc(th.st, c)
		elem := in.Type().Underlying().(*types.Slice).Elem()
		arr := e.allocArr(th.st, elem, e.newArr(elem, c))
		a.set(th, in, Slice{Arr: arr, Len: n, Cap: c})
	case *ssa.MakeMap:
		a.set(th, in, e.alloc(th.st, e.typeKey(in.Type(), 2, 0), &MapV{}))
	case *ssa.MakeChan:
		n := e.concInt(th.st, e.to64(a.get(th, in.Size).(*Term), in.Size.Type()), "channel size")
		a.set(th, in, e.alloc(th.st, e.typeKey(in.Type(), 3, 0), &ChanV{Cap: n}))
	case *ssa.MakeClosure:
		f := &FnV{F: in.Fn.(*ssa.Function)}
		for _, x := range in.Bindings {
			f.Free = append(f.Free, a.get(th, x))
		}
		a.set(th, in, f)
	case *ssa.MapUpdate:
		m := a.get(th, in.Map).(Ptr)
		if m.Nil() {
			return a.check(th, b.False, "assignment to entry in nil map", in)
		}
		k := a.get(th, in.Key)
		v := a.get(th, in.Value)
		e.mapSet(th.st, m, k, v)
	case *ssa.Lookup:
		x := a.get(th, in.X)
		if s, ok := x.(*Str); ok {
			v, ok := a.strIndex(th, s, e.to64(a.get(th, in.Index).(*Term), in.Index.Type()), in)
			if !ok {
				return false
			}
			a.set(th, in, v)
			return true
		}
		m := x.(Ptr)
		mt := in.X.Type().Underlying().(*types.Map)
		v, found := e.mapGet(th.st, m, a.get(th, in.Index), mt.Elem())
		if in.CommaOk {
			a.set(th, in, Tuple{v, b.Bool(found)})
		} else {
			a.set(th, in, v)
		}
	case *ssa.Range:
		x := a.get(th, in.X)
		it := &IterV{}
		if s, ok := x.(*Str); ok {
			it.Str = s
		} else {
			p := x.(Ptr)
			if !p.Nil() {
				e.accessMap(th.st, p, false)
				m := e.obj(th.st, p.Obj).V.(*MapV)
				it.Keys = e.permute(th.st, in, m.Keys)
				it.Map = p
			}
		}
		a.set(th, in, e.alloc(th.st, e.typeKey(types.Typ[types.Int], 4, 0), it))
	case *ssa.Next:
		return a.next(th, in)
	case *ssa.SliceToArrayPointer:
		s := a.get(th, in.X).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !a.check(th, b.Sle(b.Int(int(n)), s.Len), "cannot convert slice to array pointer", in) {
			return false
		}
		_ = n
		panic(unsup("slice to array pointer"))
	case *ssa.Send:
		p := a.get(th, in.Chan).(Ptr)
		if p.Nil() {
			panic(unsup("send on nil channel"))
		}
		c := e.obj(th.st, p.Obj).V.(*ChanV)
		if c.Closed {
			return a.check(th, b.False, "send on closed channel", in)
		}
		if len(c.Buf) >= c.Cap {
			panic(unsup("blocking channel send"))
		}
		e.setObj(th.st, p.Obj, &ChanV{Buf: append(append([]Value(nil), c.Buf...), a.get(th, in.X)), Cap: c.Cap})
	case *ssa.Select:
		return a.sel(th, in)
	default:
		panic(unsup("instruction %T", instr))
	}
	return true
}

// tryConc concretises a size if it has few values and leaves it symbolic
// otherwise.
func (e *Exec) tryConc(st *State, t *Term) *Term {
	if t.IsConst() {
		return t
	}
	if v, ok := e.conc(st, t, e.Lim.Conc); ok {
		return e.b.Const(t.W, v)
	}
	return t
}

func (a *act) recv(th *thread, in *ssa.UnOp, x Value) bool {
	e := a.e
	p := x.(Ptr)
	if p.Nil() {
		panic(unsup("receive from nil channel"))
	}
	c := e.obj(th.st, p.Obj).V.(*ChanV)
	elem := in.X.Type().Underlying().(*types.Chan).Elem()
	var v Value
	ok := true
	switch {
	case len(c.Buf) > 0:
		v = c.Buf[0]
		e.setObj(th.st, p.Obj, &ChanV{Buf: c.Buf[1:], Cap: c.Cap, Closed: c.Closed})
	case c.Timer:
		v = e.zero(elem)
	case c.Closed:
		v, ok = e.zero(elem), false
	default:
		panic(unsup("blocking channel receive"))
	}
	if in.CommaOk {
		a.set(th, in, Tuple{v, e.b.Bool(ok)})
	} else {
		a.set(th, in, v)
	}
	return true
}

// sel takes the first ready case (or default); with no ready case and no
// default it is unsupported.
func (a *act) sel(th *thread, in *ssa.Select) bool {
	e := a.e
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(idx int, ok bool, ri int, v Value) Value {
		t := Tuple{e.b.Int(idx), e.b.Bool(ok)}
		k := 0
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				if k == ri {
					t = append(t, v)
				} else {
					t = append(t, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				k++
			}
		}
		return t
	}
	k := 0
	for i, s := range in.States {
		p := a.get(th, s.Chan).(Ptr)
		if s.Dir == types.SendOnly {
			if p.Nil() {
				continue
			}
			c := e.obj(th.st, p.Obj).V.(*ChanV)
			if len(c.Buf) < c.Cap {
				e.setObj(th.st, p.Obj, &ChanV{Buf: append(append([]Value(nil), c.Buf...), a.get(th, s.Send)), Cap: c.Cap})
				a.set(th, in, mk(i, false, -1, nil))
				return true
			}
			continue
		}
		ri := k
		k++
		if p.Nil() {
			continue
		}
		c := e.obj(th.st, p.Obj).V.(*ChanV)
		elem := s.Chan.Type().Underlying().(*types.Chan).Elem()
		switch {
		case len(c.Buf) > 0:
			e.setObj(th.st, p.Obj, &ChanV{Buf: c.Buf[1:], Cap: c.Cap, Closed: c.Closed})
			a.set(th, in, mk(i, true, ri, c.Buf[0]))
			return true
		case c.Timer:
			a.set(th, in, mk(i, true, ri, e.zero(elem)))
			return true
		case c.Closed:
			a.set(th, in, mk(i, false, ri, e.zero(elem)))
			return true
		}
	}
	if !in.Blocking {
		a.set(th, in, mk(-1, false, -1, nil))
		return true
	}
	panic(unsup("blocking select"))
}

func (a *act) indexAddr(th *thread, in *ssa.IndexAddr) bool {
	e := a.e
	b := e.b
	x := a.get(th, in.X)
	i := e.to64(a.get(th, in.Index).(*Term), in.Index.Type())
	if !i.IsConst() {
		if v, ok := th.st.known[i]; ok {
			i = b.Const(64, v)
		}
	}
	switch p := x.(type) {
	case Ptr:
		if p.Nil() {
			return a.check(th, b.False, "invalid memory address or nil pointer dereference", in)
		}
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !a.check(th, b.Ult(i, b.Int(int(n))), "index out of range", in) {
			return false
		}
		if i.IsConst() {
			a.set(th, in, p.add(PE{I: int(i.Val)}))
		} else {
			a.set(th, in, p.add(PE{S: i}))
		}
	case Slice:
		if !a.check(th, b.Ult(i, p.Len), "index out of range", in) {
			return false
		}
		if i.IsConst() {
			a.set(th, in, p.Arr.add(PE{I: p.Off + int(i.Val)}))
		} else {
			a.set(th, in, p.Arr.add(PE{I: p.Off, S: i}))
		}
	default:
		panic(unsup("indexaddr of %T", x))
	}
	return true
}

func (a *act) strIndex(th *thread, s *Str, i *Term, in ssa.Instruction) (Value, bool) {
	e := a.e
	if s.Opaque || s.Doc != nil {
		panic(unsup("indexing an opaque string"))
	}
	if !a.check(th, e.b.Ult(i, e.b.Int(len(s.B))), "index out of range", in) {
		return nil, false
	}
	if i.IsConst() {
		return s.B[i.Val], true
	}
	arr := &ArrV{Def: e.b.Const(8, 0), N: e.b.Int(len(s.B))}
	for _, t := range s.B {
		arr.E = append(arr.E, t)
	}
	return e.loadSym(arr, PE{S: i}, nil), true
}

func (a *act) slice(th *thread, in *ssa.Slice) bool {
	e := a.e
	b := e.b
	x := a.get(th, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		t := e.to64(a.get(th, v).(*Term), v.Type())
		if kv, ok := th.st.known[t]; ok {
			t = b.Const(64, kv)
		}
		return t
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = b.Int(0)
	}
	if s, ok := x.(*Str); ok {
		if s.Opaque || s.Doc != nil {
			if in.Low == nil && in.High == nil {
				a.set(th, in, s)
				return true
			}
			panic(unsup("slicing an opaque string"))
		}
		if hi == nil {
			hi = b.Int(len(s.B))
		}
		if !a.check(th, b.And(b.Sle(b.Int(0), hi), b.Sle(hi, b.Int(len(s.B)))), "slice bounds out of range", in) {
			return false
		}
		if !a.check(th, b.And(b.Sle(b.Int(0), lo), b.Sle(lo, hi)), "slice bounds out of range", in) {
			return false
		}
		l := e.concInt(th.st, lo, "string slice bound")
		h := e.concInt(th.st, hi, "string slice bound")
		a.set(th, in, &Str{B: s.B[l:h:h]})
		return true
	}
	var base Slice
	switch p := x.(type) {
	case Slice:
		base = p
	case Ptr: // pointer to array
		if p.Nil() {
			return a.check(th, b.False, "invalid memory address or nil pointer dereference", in)
		}
		n := b.Int(int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		base = Slice{Arr: p, Len: n, Cap: n}
	default:
		panic(unsup("slice of %T", x))
	}
	if hi == nil {
		hi = base.Len
	}
	lim := base.Cap
	if mx != nil {
		if !a.check(th, b.And(b.Sle(b.Int(0), mx), b.Sle(mx, base.Cap)), "slice bounds out of range", in) {
			return false
		}
		lim = mx
	}
	if !a.check(th, b.And(b.Sle(b.Int(0), hi), b.Sle(hi, lim)), "slice bounds out of range", in) {
		return false
	}
	if !a.check(th, b.And(b.Sle(b.Int(0), lo), b.Sle(lo, hi)), "slice bounds out of range", in) {
		return false
	}
	l := e.concInt(th.st, lo, "slice low bound")
	if hi != base.Len {
		hi = e.tryConc(th.st, hi)
	}
	if lim != base.Cap {
		lim = e.tryConc(th.st, lim)
	}
	r := Slice{Arr: base.Arr, Off: base.Off + l, Len: b.Sub(hi, b.Int(l)), Cap: b.Sub(lim, b.Int(l))}
	if base.Arr.Nil() {
		r.Off = 0
	}
	a.set(th, in, r)
	return true
}

func (a *act) typeAssert(th *thread, in *ssa.TypeAssert) bool {
	e := a.e
	x, ok := a.get(th, in.X).(Iface)
	if !ok {
		panic(unsup("type assert on %T", a.get(th, in.X)))
	}
	var v Value
	match := false
	if x.T != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			match = e.implements(x.T, it)
			v = x
		} else {
			match = e.can(in.AssertedType) == x.T
			v = x.V
		}
	}
	if in.CommaOk {
		if !match {
			v = e.zero(in.AssertedType)
		}
		a.set(th, in, Tuple{v, e.b.Bool(match)})
		return true
	}
	if !match {
		return a.check(th, e.b.False, "interface conversion", in)
	}
	a.set(th, in, v)
	return true
}

func (e *Exec) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (a *act) next(th *thread, in *ssa.Next) bool {
	e := a.e
	p := a.get(th, in.Iter).(Ptr)
	it := e.obj(th.st, p.Obj).V.(*IterV)
	tt := in.Type().(*types.Tuple)
	end := Tuple{e.b.False, e.zeroOrNil(tt.At(1).Type()), e.zeroOrNil(tt.At(2).Type())}
	if in.IsString {
		if it.Str == nil || it.Str.Opaque || it.Str.Doc != nil {
			panic(unsup("range over opaque string"))
		}
		if it.Pos >= len(it.Str.B) {
			a.set(th, in, end)
			return true
		}
		r, w := e.decodeRune(th.st, it.Str.B[it.Pos:])
		n := *it
		n.Pos += w
		e.setObj(th.st, p.Obj, &n)
		a.set(th, in, Tuple{e.b.True, e.b.Int(it.Pos), r})
		return true
	}
	for it.Pos < len(it.Keys) {
		k := it.Keys[it.Pos]
		n := *it
		n.Pos++
		it = &n
		e.setObj(th.st, p.Obj, it)
		e.accessMap(th.st, it.Map, false)
		m := e.obj(th.st, it.Map.Obj).V.(*MapV)
		for i := range m.Keys {
			if e.valEq(m.Keys[i], k) == e.b.True {
				a.set(th, in, Tuple{e.b.True, k, m.Vals[i]})
				return true
			}
		}
	}
	a.set(th, in, end)
	return true
}

// decodeRune decodes the UTF-8 sequence that s starts with; the path splits on
// its length if that is undecided.
func (e *Exec) decodeRune(st *State, s []*Term) (*Term, int) {
	b := e.b
	if s[0].IsConst() && s[0].Val < 0x80 {
		return b.ZExt(s[0], 32), 1
	}
	c8 := func(v uint64) *Term { return b.Const(8, v) }
	cont := func(t *Term) *Term { return b.Eq(b.BAnd(t, c8(0xC0)), c8(0x80)) }
	in := func(t *Term, lo, hi uint64) *Term {
		return b.And(b.Not(b.Ult(t, c8(lo))), b.Not(b.Ult(c8(hi), t)))
	}
	bits := func(t *Term, m, sh uint64) *Term {
		return b.Shl(b.ZExt(b.BAnd(t, c8(m)), 32), b.Const(32, sh))
	}
	conds := []*Term{b.Ult(s[0], c8(0x80))}
	runes := []*Term{b.ZExt(s[0], 32)}
	if len(s) > 1 {
		conds = append(conds, b.And(in(s[0], 0xC2, 0xDF), cont(s[1])))
		runes = append(runes, b.BOr(bits(s[0], 0x1F, 6), bits(s[1], 0x3F, 0)))
	}
	if len(s) > 2 {
		conds = append(conds, b.And(in(s[0], 0xE0, 0xEF), cont(s[1]), cont(s[2]), b.Not(b.And(b.Eq(s[0], c8(0xE0)), b.Ult(s[1], c8(0xA0)))), b.Not(b.And(b.Eq(s[0], c8(0xED)), b.Ult(c8(0x9F), s[1])))))
		runes = append(runes, b.BOr(b.BOr(bits(s[0], 0x0F, 12), bits(s[1], 0x3F, 6)), bits(s[2], 0x3F, 0)))
	}
	if len(s) > 3 {
		conds = append(conds, b.And(in(s[0], 0xF0, 0xF4), cont(s[1]), cont(s[2]), cont(s[3]), b.Not(b.And(b.Eq(s[0], c8(0xF0)), b.Ult(s[1], c8(0x90)))), b.Not(b.And(b.Eq(s[0], c8(0xF4)), b.Ult(c8(0x8F), s[1])))))
		runes = append(runes, b.BOr(b.BOr(bits(s[0], 0x07, 18), bits(s[1], 0x3F, 12)), b.BOr(bits(s[2], 0x3F, 6), bits(s[3], 0x3F, 0))))
	}
	bad := make([]*Term, len(conds))
	for i, c := range conds {
		bad[i] = b.Not(c)
	}
	conds, runes = append(conds, b.And(bad...)), append(runes, b.Const(32, 0xFFFD))
	var open []*Term
	last := 0
	for i, c := range conds {
		x := e.simp(st, c)
		if x == b.True {
			open, last = []*Term{c}, i
			break
		}
		if x != b.False && e.feas(st, c) != Unsat {
			open, last = append(open, c), i
		}
	}
	if len(open) > 1 {
		panic(splitReq{conds: open})
	}
	if last == len(conds)-1 {
		return runes[last], 1
	}
	return runes[last], last + 1
}

func (e *Exec) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return e.b.False
	}
	return e.zero(t)
}

// permute chooses the iteration order of a map: every order for up to four
// keys, rotations beyond that.
func (e *Exec) permute(st *State, in *ssa.Range, keys []Value) []Value {
	n := len(keys)
	if n <= 1 {
		return keys
	}
	var perms [][]int
	if n <= 3 {
		var rec func(cur []int, used int)
		rec = func(cur []int, used int) {
			if len(cur) == n {
				perms = append(perms, append([]int(nil), cur...))
				return
			}
			for i := 0; i < n; i++ {
				if used>>uint(i)&1 == 0 {
					rec(append(cur, i), used|1<<uint(i))
				}
			}
		}
		rec(nil, 0)
	} else {
		for r := 0; r < n; r++ {
			var p []int
			for i := 0; i < n; i++ {
				p = append(p, (i+r)%n)
			}
			perms = append(perms, p)
		}
		e.Notes["map iteration orders limited to rotations"]++
	}
	name := e.fresh(st, "$maporder")
	v := e.b.Var(8, name)
	if x, ok := st.known[v]; ok {
		e.commitFresh(st, "$maporder")
		out := make([]Value, n)
		for i, j := range perms[x] {
			out[i] = keys[j]
		}
		return out
	}
	var conds []*Term
	var vals []uint64
	for i := range perms {
		conds = append(conds, e.b.Eq(v, e.b.Const(8, uint64(i))))
		vals = append(vals, uint64(i))
	}
	panic(splitReq{conds: conds, T: v, Vals: vals})
}

// fresh names the next variable of a family; commitFresh consumes it.
func (e *Exec) fresh(st *State, name string) string {
	return name + "#" + itoa(st.occ[name])
}
func (e *Exec) commitFresh(st *State, name string) { st.occ[name]++ }

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

func (e *Exec) mapFind(st *State, m *MapV, k Value) int {
	for i := range m.Keys {
		c := e.simp(st, e.valEq(m.Keys[i], k))
		if c == e.b.True {
			return i
		}
		if c == e.b.False {
			continue
		}
		vt := e.feas(st, c)
		if vt == Unsat {
			continue
		}
		nc := e.b.Not(c)
		if e.feas(st, nc) == Unsat {
			return i
		}
		panic(splitReq{conds: []*Term{c, nc}})
	}
	return -1
}

func (e *Exec) mapGet(st *State, p Ptr, k Value, elem types.Type) (Value, bool) {
	if p.Nil() {
		return e.zero(elem), false
	}
	e.accessMap(st, p, false)
	m, ok := e.obj(st, p.Obj).V.(*MapV)
	if !ok {
		panic(unsup("map lookup in %T", e.obj(st, p.Obj).V))
	}
	if i := e.mapFind(st, m, k); i >= 0 {
		return m.Vals[i], true
	}
	return e.zero(elem), false
}

func (e *Exec) mapSet(st *State, p Ptr, k, v Value) {
	e.accessMap(st, p, true)
	m, ok := e.obj(st, p.Obj).V.(*MapV)
	if !ok {
		panic(unsup("map update in %T", e.obj(st, p.Obj).V))
	}
	i := e.mapFind(st, m, k)
	n := &MapV{Keys: append([]Value(nil), m.Keys...), Vals: append([]Value(nil), m.Vals...)}
	if i >= 0 {
		n.Vals[i] = v
	} else {
		n.Keys = append(n.Keys, k)
		n.Vals = append(n.Vals, v)
	}
	e.setObj(st, p.Obj, n)
}

func (e *Exec) mapDel(st *State, p Ptr, k Value) {
	if p.Nil() {
		return
	}
	e.accessMap(st, p, true)
	m := e.obj(st, p.Obj).V.(*MapV)
	i := e.mapFind(st, m, k)
	if i < 0 {
		return
	}
	n := &MapV{}
	for j := range m.Keys {
		if j != i {
			n.Keys = append(n.Keys, m.Keys[j])
			n.Vals = append(n.Vals, m.Vals[j])
		}
	}
	e.setObj(st, p.Obj, n)
}

// valEq is Go's == on values of the same type.
func (e *Exec) valEq(a, b Value) *Term {
	bb := e.b
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.W == 0 {
			return bb.EqB(x, y)
		}
		if x.W == WFloat {
			return bb.FCmp(OFEq, x, y)
		}
		return bb.Eq(x, y)
	case *Str:
		y := b.(*Str)
		if x == y {
			return bb.True
		}
		if x.Doc != nil && y.Doc != nil {
			return e.jEq(x.Doc, y.Doc)
		}
		if x.Opaque || y.Opaque || x.Doc != nil || y.Doc != nil {
			if (x.Opaque || x.Doc != nil) && !y.Opaque && y.Doc == nil && len(y.B) == 0 || (y.Opaque || y.Doc != nil) && !x.Opaque && x.Doc == nil && len(x.B) == 0 {
				return bb.False // formatted messages are not empty
			}
			panic(unsup("comparison of opaque strings"))
		}
		if len(x.B) != len(y.B) {
			return bb.False
		}
		var cs []*Term
		for i := range x.B {
			c := bb.Eq(x.B[i], y.B[i])
			if c == bb.False {
				return c
			}
			cs = append(cs, c)
		}
		return bb.And(cs...)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return bb.False
		}
		if ptrEq(x, y) {
			return bb.True
		}
		for _, p := range append(append([]PE(nil), x.Path...), y.Path...) {
			if p.S != nil {
				panic(unsup("comparison of symbolic pointers"))
			}
		}
		return bb.False
	case Iface:
		y := b.(Iface)
		if x.T == nil || y.T == nil {
			return bb.Bool(x.T == nil && y.T == nil)
		}
		if x.T != y.T {
			return bb.False
		}
		return e.valEq(x.V, y.V)
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.F {
			c := e.valEq(x.F[i], y.F[i])
			if c == bb.False {
				return c
			}
			cs = append(cs, c)
		}
		return bb.And(cs...)
	case *ArrV:
		y := b.(*ArrV)
		n := len(x.E)
		if len(y.E) > n {
			n = len(y.E)
		}
		var cs []*Term
		for i := 0; i < n; i++ {
			cs = append(cs, e.valEq(x.get(i), y.get(i)))
		}
		return bb.And(cs...)
	case Slice:
		y := b.(Slice)
		if x.Arr.Nil() || y.Arr.Nil() {
			return bb.Bool(x.Arr.Nil() && y.Arr.Nil())
		}
		panic(unsup("slice comparison"))
	case *FnV:
		y, _ := b.(*FnV)
		if x == nil || y == nil {
			return bb.Bool(x == nil && y == nil)
		}
		panic(unsup("func comparison"))
	}
	panic(unsup("comparison of %T", a))
}

func (e *Exec) strLess(x, y *Str) *Term {
	bb := e.b
	if x.Opaque || y.Opaque || x.Doc != nil || y.Doc != nil {
		panic(unsup("comparison of opaque strings"))
	}
	n := len(x.B)
	if len(y.B) < n {
		n = len(y.B)
	}
	r := bb.Bool(len(x.B) < len(y.B))
	for i := n - 1; i >= 0; i-- {
		r = bb.Or(bb.Ult(x.B[i], y.B[i]), bb.And(bb.Eq(x.B[i], y.B[i]), r))
	}
	return r
}

func (a *act) binop(th *thread, in *ssa.BinOp) (Value, bool) {
	e := a.e
	b := e.b
	x, y := a.get(th, in.X), a.get(th, in.Y)
	switch in.Op {
	case token.EQL:
		return e.valEqT(x, y, in.X.Type(), in.Y.Type()), true
	case token.NEQ:
		return b.Not(e.valEqT(x, y, in.X.Type(), in.Y.Type())), true
	}
	if xs, ok := x.(*Str); ok {
		ys := y.(*Str)
		switch in.Op {
		case token.ADD:
			return concatStr(xs, ys), true
		case token.LSS:
			return e.strLess(xs, ys), true
		case token.GTR:
			return e.strLess(ys, xs), true
		case token.LEQ:
			return b.Not(e.strLess(ys, xs)), true
		case token.GEQ:
			return b.Not(e.strLess(xs, ys)), true
		}
		panic(unsup("string op %s", in.Op))
	}
	p, ok1 := x.(*Term)
	q, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(unsup("binop %s on %T", in.Op, x))
	}
	if p.W == WFloat {
		// a float32 operation is the float64 one rounded (53 >= 2*24+2 bits, so
		// rounding twice does no harm)
		f := func(op Op) (Value, bool) {
			r := b.FBin(op, p, q)
			if isFloat32(in.X.Type()) {
				r = b.F32(r)
			}
			return r, true
		}
		switch in.Op {
		case token.ADD:
			return f(OFAdd)
		case token.SUB:
			return f(OFSub)
		case token.MUL:
			return f(OFMul)
		case token.QUO:
			return f(OFDiv)
		case token.LSS:
			return b.FCmp(OFLt, p, q), true
		case token.LEQ:
			return b.FCmp(OFLe, p, q), true
		case token.GTR:
			return b.FCmp(OFLt, q, p), true
		case token.GEQ:
			return b.FCmp(OFLe, q, p), true
		}
		panic(unsup("float op %s", in.Op))
	}
	_, signed, _ := typeWidth(in.X.Type())
	switch in.Op {
	case token.ADD:
		return b.Add(p, q), true
	case token.SUB:
		return b.Sub(p, q), true
	case token.MUL:
		return b.Mul(p, q), true
	case token.QUO, token.REM:
		if !a.check(th, b.Not(b.Eq(q, b.Const(q.W, 0))), "integer divide by zero", in) {
			return nil, false
		}
		switch {
		case in.Op == token.QUO && signed:
			return b.SDiv(p, q), true
		case in.Op == token.QUO:
			return b.UDiv(p, q), true
		case signed:
			return b.SRem(p, q), true
		}
		return b.URem(p, q), true
	case token.AND:
		if p.W == 0 {
			return b.And(p, q), true
		}
		return b.BAnd(p, q), true
	case token.OR:
		if p.W == 0 {
			return b.Or(p, q), true
		}
		return b.BOr(p, q), true
	case token.XOR:
		if p.W == 0 {
			return b.XorB(p, q), true
		}
		return b.BXor(p, q), true
	case token.AND_NOT:
		return b.BAnd(p, b.BNot(q)), true
	case token.SHL, token.SHR:
		_, cs, _ := typeWidth(in.Y.Type())
		if cs {
			if !a.check(th, b.Sle(b.Const(q.W, 0), q), "negative shift amount", in) {
				return nil, false
			}
		}
		W := p.W
		var big *Term
		if q.W > 6 || uint64(1)<<uint(q.W) > uint64(W) {
			big = b.Not(b.Ult(q, b.Const(q.W, uint64(W))))
			if q.W < 8 {
				big = b.Not(b.Ult(b.ZExt(q, 16), b.Const(16, uint64(W))))
			}
		} else {
			big = b.False
		}
		var sh *Term
		if q.W > W {
			sh = b.Extract(q, W-1, 0)
		} else {
			sh = b.ZExt(q, W)
		}
		switch {
		case in.Op == token.SHL:
			return b.Ite(big, b.Const(W, 0), b.Shl(p, sh)), true
		case signed:
			// sign fill
			fill := b.AShr(p, b.Const(W, uint64(W-1)))
			return b.Ite(big, fill, b.AShr(p, sh)), true
		}
		return b.Ite(big, b.Const(W, 0), b.LShr(p, sh)), true
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		l, r := p, q
		neg := false
		switch in.Op {
		case token.GTR:
			l, r = q, p
		case token.LEQ:
			l, r = q, p
			neg = true
		case token.GEQ:
			neg = true
		}
		var c *Term
		if signed {
			c = b.Slt(l, r)
		} else {
			c = b.Ult(l, r)
		}
		if neg {
			c = b.Not(c)
		}
		return c, true
	}
	panic(unsup("binop %s", in.Op))
}

// valEqT compares operands whose static types may differ (interface versus
// concrete value).
func (e *Exec) valEqT(x, y Value, tx, ty types.Type) *Term {
	_, ix := x.(Iface)
	_, iy := y.(Iface)
	if ix && !iy {
		return e.valEq(x, Iface{T: e.can(ty), V: y})
	}
	if iy && !ix {
		return e.valEq(Iface{T: e.can(tx), V: x}, y)
	}
	return e.valEq(x, y)
}

func concatStr(x, y *Str) *Str {
	if x.Opaque || y.Opaque || x.Doc != nil || y.Doc != nil {
		if !x.Opaque && x.Doc == nil && len(x.B) == 0 {
			return y
		}
		if !y.Opaque && y.Doc == nil && len(y.B) == 0 {
			return x
		}
		return &Str{Opaque: true}
	}
	if len(x.B) == 0 {
		return y
	}
	if len(y.B) == 0 {
		return x
	}
	out := make([]*Term, 0, len(x.B)+len(y.B))
	return &Str{B: append(append(out, x.B...), y.B...)}
}

func (a *act) convert(th *thread, v Value, from, to types.Type) Value {
	e := a.e
	b := e.b
	fu, tu := from.Underlying(), to.Underlying()
	if isString(tu) {
		switch x := v.(type) {
		case *Str:
			return x
		case Slice:
			elem := fu.(*types.Slice).Elem()
			if w, _, _ := typeWidth(elem); w == 32 {
				n := e.concInt(th.st, x.Len, "rune slice length")
				s := &Str{}
				for _, r := range e.sliceVals(th.st, x, n) {
					t := r.(*Term)
					if !t.IsConst() {
						if c := e.simp(th.st, b.Ult(t, b.Const(32, 0x80))); c != b.True {
							panic(unsup("symbolic rune to string"))
						}
						s.B = append(s.B, b.Extract(t, 7, 0))
						continue
					}
					s.B = append(s.B, e.strConst(string(rune(t.Val))).B...)
				}
				return s
			}
			return e.bytesToStr(th.st, x)
		case *Term:
			if x.IsConst() {
				return e.strConst(string(rune(sext(x.Val, x.W))))
			}
			lt := b.Ult(x, b.Const(x.W, 0x80))
			if x.W == 8 || e.simp(th.st, lt) == b.True || e.feas(th.st, b.Not(lt)) == Unsat {
				if x.W == 8 && e.simp(th.st, lt) != b.True && e.feas(th.st, b.Not(lt)) != Unsat {
					panic(splitReq{conds: []*Term{lt, b.Not(lt)}})
				}
				return &Str{B: []*Term{b.Extract(x, 7, 0)}}
			}
			if x.W <= 16 {
				// two-byte UTF-8 forms
				hi := b.Not(lt)
				if e.simp(th.st, lt) == b.False || e.feas(th.st, lt) == Unsat {
					x16 := b.ZExt(x, 16)
					if x.W == 8 || e.feas(th.st, b.Not(b.Ult(x16, b.Const(16, 0x800)))) == Unsat {
						b0 := b.BOr(b.Const(16, 0xC0), b.LShr(x16, b.Const(16, 6)))
						b1 := b.BOr(b.Const(16, 0x80), b.BAnd(x16, b.Const(16, 0x3F)))
						return &Str{B: []*Term{b.Extract(b0, 7, 0), b.Extract(b1, 7, 0)}}
					}
				} else {
					panic(splitReq{conds: []*Term{lt, hi}})
				}
			}
			panic(unsup("symbolic integer to string"))
		}
		panic(unsup("conversion of %T to string", v))
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			if w, _, _ := typeWidth(ts.Elem()); w == 32 {
				var rs []Value
				if s.Opaque || s.Doc != nil {
					panic(unsup("opaque string to runes"))
				}
				for i := 0; i < len(s.B); {
					r, w := e.decodeRune(th.st, s.B[i:])
					rs = append(rs, r)
					i += w
				}
				return e.newSlice(th.st, ts.Elem(), rs)
			}
			return e.strToBytes(th.st, s, ts.Elem())
		}
		return v
	}
	if p, ok := v.(Ptr); ok {
		return p // unsafe.Pointer conversions
	}
	x, ok := v.(*Term)
	if !ok {
		return v
	}
	fw, fs, ok1 := typeWidth(from)
	tw, tsg, ok2 := typeWidth(to)
	if !ok1 || !ok2 {
		if ok1 && tu.String() == "unsafe.Pointer" {
			panic(unsup("uintptr to pointer"))
		}
		panic(unsup("conversion %s to %s", from, to))
	}
	switch {
	case fw == WFloat && tw == WFloat:
		if isFloat32(to) {
			return b.F32(x)
		}
		return x
	case fw == WFloat:
		return b.FToInt(x, tw, tsg, func(g *Term) bool {
			if g == b.True || g == b.False {
				return g == b.True
			}
			v, _ := e.S.OneShot(append(append([]*Term(nil), th.st.pc...), b.Not(g)), 10*time.Second, false)
			return v == Unsat
		})
	case tw == WFloat:
		f := b.FFrom(x, fs)
		if isFloat32(to) {
			if !f.fok || f.flo < -(1<<53) || f.fhi > 1<<53 {
				panic(unsup("large integer to float32"))
			}
			return b.F32(f)
		}
		return f
	case tw <= fw:
		return b.Extract(x, tw-1, 0)
	case fs:
		return b.SExt(x, tw)
	}
	return b.ZExt(x, tw)
}

func (e *Exec) bytesToStr(st *State, x Slice) *Str {
	if x.Arr.Nil() {
		return &Str{}
	}
	if d := e.docOf(st, x); d != nil {
		return &Str{Doc: d}
	}
	n := e.concInt(st, x.Len, "byte slice length")
	s := &Str{B: make([]*Term, n)}
	for i, v := range e.sliceVals(st, x, n) {
		t, ok := v.(*Term)
		if !ok {
			panic(unsup("opaque bytes"))
		}
		s.B[i] = t
	}
	return s
}

func (e *Exec) strToBytes(st *State, s *Str, elem types.Type) Slice {
	if s.Doc != nil {
		return e.docBytes(st, s.Doc)
	}
	if s.Opaque {
		panic(unsup("bytes of an opaque string"))
	}
	vs := make([]Value, len(s.B))
	for i, t := range s.B {
		vs[i] = t
	}
	c := roundUp(len(vs), true)
	return e.newSliceCap(st, elem, vs, c)
}

func (e *Exec) newSlice(st *State, elem types.Type, vs []Value) Slice {
	return e.newSliceCap(st, elem, vs, len(vs))
}

func (e *Exec) newSliceCap(st *State, elem types.Type, vs []Value, c int) Slice {
	a := &ArrV{E: vs, Def: e.zero(elem), N: e.b.Int(c)}
	p := e.allocArr(st, elem, a)
	return Slice{Arr: p, Len: e.b.Int(len(vs)), Cap: e.b.Int(c)}
}

func (e *Exec) curPos() string {
	if e.curIn == nil {
		return ""
	}
	return e.curIn.Parent().String() + " " + e.pos(e.curIn.Pos())
}
