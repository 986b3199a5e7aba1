// Package sym is a symbolic executor for Go SSA (golang.org/x/tools/go/ssa):
// terms and simplification (term.go), SMT back end (smt.go), the memory model
// and state merging (state.go), the interpreter (exec.go) and the models of
// functions whose bodies are not interpreted (intrinsics.go).
package sym

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // bool or BV constant (Val)
	OVar             // variable (bool/BV/float) Name
	ONot             // bool
	OAnd             // bool n-ary
	OOr              // bool n-ary
	OXor             // bool n-ary xor, args sorted, no Not/const inside
	OIte             // bool, BV or float
	OBit             // bool: bit Val of BV A[0]
	OEq              // BV equality
	OUlt             // BV
	OSlt             // BV
	OBits            // BV out of bool bits, A[0] least significant
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OShl
	OLShr
	OAShr
	// float64
	OFConst
	OFFromS // BV signed -> float
	OFFromU
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFToS // float -> BV W (truncation, as amd64 int64 then truncated)
	OFRnd // float -> integral float; Val is one of the rndX modes
	OF32  // float64 -> nearest float32, still held as a float64
)

// modes of OFRnd
const (
	rndFloor = iota
	rndCeil
	rndTrunc
	rndAway // math.Round
	rndEven // math.RoundToEven
)

func rndF(mode uint64, x float64) float64 {
	switch mode {
	case rndFloor:
		return math.Floor(x)
	case rndCeil:
		return math.Ceil(x)
	case rndTrunc:
		return math.Trunc(x)
	case rndAway:
		return math.Round(x)
	}
	return math.RoundToEven(x)
}

const (
	WBool  = 0
	WFloat = -1
)

// Term is a hash-consed expression. W is 0 for booleans, -1 for float64 and
// the bit width otherwise.
type Term struct {
	Op   Op
	W    int
	A    []*Term
	Val  uint64
	Name string
	F    float64
	ID   int

	umin, umax uint64
	smin, smax int64
	hasFloat   bool
	// floats: finite and never NaN, within flo..fhi
	fok      bool
	flo, fhi float64
}

func (t *Term) IsConst() bool { return t.Op == OConst || t.Op == OFConst }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// B builds terms; one per executor (not safe for concurrent use).
type B struct {
	varSets map[int]varSet
	varNum  map[int]int
	tab     map[string]*Term
	n       int
	True    *Term
	False   *Term
	vars    []*Term
	key     []byte
	bitsC   map[int][]*Term
}

func NewB() *B {
	b := &B{tab: map[string]*Term{}, bitsC: map[int][]*Term{}}
	b.False = b.mk(Term{Op: OConst, W: WBool, Val: 0})
	b.True = b.mk(Term{Op: OConst, W: WBool, Val: 1})
	return b
}

func (b *B) mk(t Term) *Term {
	k := b.key[:0]
	k = append(k, byte(t.Op), byte(t.W))
	k = binary.AppendUvarint(k, t.Val)
	if t.Op == OFConst {
		k = binary.AppendUvarint(k, math.Float64bits(t.F))
	}
	for _, a := range t.A {
		k = binary.AppendUvarint(k, uint64(a.ID))
	}
	k = append(k, t.Name...)
	b.key = k
	if r, ok := b.tab[string(k)]; ok {
		return r
	}
	r := new(Term)
	*r = t
	r.ID = b.n
	b.n++
	for _, a := range t.A {
		if a.hasFloat {
			r.hasFloat = true
		}
	}
	if r.W == WFloat {
		r.hasFloat = true
	}
	b.ranges(r)
	b.tab[string(k)] = r
	if t.Op == OVar {
		b.vars = append(b.vars, r)
	}
	return r
}

func (b *B) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

func (b *B) Const(w int, v uint64) *Term {
	return b.mk(Term{Op: OConst, W: w, Val: v & mask(w)})
}
func (b *B) Int(v int) *Term        { return b.Const(64, uint64(int64(v))) }
func (b *B) FConst(f float64) *Term { return b.mk(Term{Op: OFConst, W: WFloat, F: f}) }
func (b *B) Var(w int, n string) *Term {
	return b.mk(Term{Op: OVar, W: w, Name: n})
}

// VarRange is a variable whose unsigned range is known to the simplifier; the
// caller must also add the range to the path condition.
func (b *B) ranges(t *Term) {
	if t.W == WFloat {
		b.franges(t)
		return
	}
	if t.W <= 0 {
		return
	}
	m := mask(t.W)
	t.umin, t.umax = 0, m
	t.smin, t.smax = sext(uint64(1)<<uint(t.W-1), t.W), int64(m>>1)
	switch t.Op {
	case OConst:
		t.umin, t.umax = t.Val, t.Val
		t.smin = sext(t.Val, t.W)
		t.smax = t.smin
		return
	case OBits:
		var kz, ko uint64
		for i, x := range t.A {
			if x == b.True {
				ko |= 1 << uint(i)
			} else if x == b.False {
				kz |= 1 << uint(i)
			}
		}
		t.umin, t.umax = ko, m&^kz
	case OIte:
		t.umin, t.umax = min(t.A[1].umin, t.A[2].umin), max(t.A[1].umax, t.A[2].umax)
		t.smin, t.smax = min(t.A[1].smin, t.A[2].smin), max(t.A[1].smax, t.A[2].smax)
		return
	case OAdd:
		x, y := t.A[0], t.A[1]
		lo, c1 := bits.Add64(x.umin, y.umin, 0)
		hi, c2 := bits.Add64(x.umax, y.umax, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			t.umin, t.umax = lo, hi
		}
		sl, ok1 := addOv(x.smin, y.smin, t.W)
		sh, ok2 := addOv(x.smax, y.smax, t.W)
		if ok1 && ok2 {
			t.smin, t.smax = sl, sh
			if sl >= 0 {
				t.umin, t.umax = max(t.umin, uint64(sl)), min(t.umax, uint64(sh))
			}
			return
		}
	case OMul:
		x, y := t.A[0], t.A[1]
		h1, l1 := bits.Mul64(x.umax, y.umax)
		if h1 == 0 && l1 <= m {
			t.umin, t.umax = x.umin*y.umin, l1
		}
	case OFToS:
		if x := t.A[0]; x.fok && x.flo > -(1<<62) && x.fhi < 1<<62 && t.W == 64 {
			t.smin, t.smax = int64(x.flo), int64(x.fhi)
			if t.smin >= 0 {
				t.umin, t.umax = uint64(t.smin), uint64(t.smax)
			}
		}
	case OUDiv:
		x, y := t.A[0], t.A[1]
		if y.umin > 0 {
			t.umin, t.umax = x.umin/y.umax, x.umax/y.umin
		}
	case OURem:
		x, y := t.A[0], t.A[1]
		if y.umin > 0 {
			t.umax = min(y.umax-1, x.umax)
		}
	case OSDiv:
		x, y := t.A[0], t.A[1]
		if y.IsConst() && sext(y.Val, t.W) > 0 {
			c := sext(y.Val, t.W)
			t.smin, t.smax = x.smin/c, x.smax/c
			if t.smin >= 0 {
				t.umin, t.umax = uint64(t.smin), uint64(t.smax)
			}
			return
		}
	case OSRem:
		x, y := t.A[0], t.A[1]
		if y.IsConst() && sext(y.Val, t.W) > 0 {
			c := sext(y.Val, t.W)
			t.smin, t.smax = -(c - 1), c-1
			if x.smin >= 0 {
				t.smin = 0
				t.umin, t.umax = 0, uint64(c-1)
			}
			return
		}
	case OBAnd:
		t.umax = min(t.A[0].umax, t.A[1].umax)
	case OBOr:
		t.umin = max(t.A[0].umin, t.A[1].umin)
	case OLShr:
		t.umax = t.A[0].umax
	}
	// signed range from unsigned range
	if t.umax <= m>>1 {
		t.smin, t.smax = int64(t.umin), int64(t.umax)
	} else if t.umin > m>>1 {
		t.smin, t.smax = sext(t.umin, t.W), sext(t.umax, t.W)
	}
}

func addOv(a, b int64, w int) (int64, bool) {
	s := a + b
	if (b > 0 && s < a) || (b < 0 && s > a) {
		return 0, false
	}
	if w < 64 {
		lim := int64(1) << uint(w-1)
		if s >= lim || s < -lim {
			return 0, false
		}
	}
	return s, true
}

// ---- booleans ----

func (b *B) Not(x *Term) *Term {
	switch {
	case x == b.True:
		return b.False
	case x == b.False:
		return b.True
	case x.Op == ONot:
		return x.A[0]
	}
	return b.mk(Term{Op: ONot, A: []*Term{x}})
}

func (b *B) And(xs ...*Term) *Term { return b.nary(OAnd, xs) }
func (b *B) Or(xs ...*Term) *Term  { return b.nary(OOr, xs) }

func (b *B) nary(op Op, xs []*Term) *Term {
	unit, zero := b.True, b.False
	if op == OOr {
		unit, zero = b.False, b.True
	}
	if len(xs) == 2 { // fast paths
		x, y := xs[0], xs[1]
		if x == zero || y == zero {
			return zero
		}
		if x == unit {
			return y
		}
		if y == unit || x == y {
			return x
		}
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op && len(x.A) <= 48 {
			for _, a := range x.A {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x.ID] {
			return true
		}
		if x.Op == ONot && seen[x.A[0].ID] {
			return false
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	// complement check for non-Not elements added after their Not
	for _, x := range out {
		if x.Op == ONot && seen[x.A[0].ID] {
			return zero
		}
	}
	// absorption: in Or, (and x y) with x's negation present, etc.: drop complement literals
	dual := OAnd
	if op == OAnd {
		dual = OOr
	}
	for i, x := range out {
		if len(out) > 48 {
			break
		}
		if x.Op != dual {
			continue
		}
		var keep []*Term
		absorbed := false
		for _, a := range x.A {
			if seen[a.ID] {
				absorbed = true // x ∨ (x ∧ y) = x
				break
			}
			na := b.Not(a)
			if seen[na.ID] {
				continue // ¬a ∨ (a ∧ y) = ¬a ∨ y
			}
			keep = append(keep, a)
		}
		if absorbed {
			out2 := append(append([]*Term{}, out[:i]...), out[i+1:]...)
			return b.nary(op, out2)
		}
		if len(keep) < len(x.A) {
			out2 := append([]*Term{}, out...)
			out2[i] = b.nary(dual, keep)
			return b.nary(op, out2)
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return b.mk(Term{Op: op, A: out})
}

// Xor of booleans, kept as a canonical GF(2) sum.
func (b *B) XorB(x, y *Term) *Term {
	neg := false
	if x.Op == ONot {
		neg = !neg
		x = x.A[0]
	}
	if y.Op == ONot {
		neg = !neg
		y = y.A[0]
	}
	if x == b.True {
		neg = !neg
		x = b.False
	}
	if y == b.True {
		neg = !neg
		y = b.False
	}
	var r *Term
	switch {
	case x == b.False:
		r = y
	case y == b.False:
		r = x
	case x == y:
		r = b.False
	default:
		xa, ya := []*Term{x}, []*Term{y}
		if x.Op == OXor {
			xa = x.A
		}
		if y.Op == OXor {
			ya = y.A
		}
		out := make([]*Term, 0, len(xa)+len(ya))
		i, j := 0, 0
		for i < len(xa) && j < len(ya) {
			switch {
			case xa[i] == ya[j]:
				i++
				j++
			case xa[i].ID < ya[j].ID:
				out = append(out, xa[i])
				i++
			default:
				out = append(out, ya[j])
				j++
			}
		}
		out = append(out, xa[i:]...)
		out = append(out, ya[j:]...)
		switch len(out) {
		case 0:
			r = b.False
		case 1:
			r = out[0]
		default:
			r = b.mk(Term{Op: OXor, A: out})
		}
	}
	if neg {
		return b.Not(r)
	}
	return r
}

func (b *B) EqB(x, y *Term) *Term { return b.Not(b.XorB(x, y)) }

func (b *B) Ite(c, x, y *Term) *Term {
	if c == b.True || x == y {
		return x
	}
	if c == b.False {
		return y
	}
	if c.Op == ONot {
		return b.Ite(c.A[0], y, x)
	}
	if x.W == WBool {
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
		if x == b.Not(y) {
			return b.EqB(c, x)
		}
		return b.mk(Term{Op: OIte, W: WBool, A: []*Term{c, x, y}})
	}
	if x.Op == OIte && x.A[0] == c {
		x = x.A[1]
	}
	if y.Op == OIte && y.A[0] == c {
		y = y.A[2]
	}
	if x == y {
		return x
	}
	if x.W > 0 && (x.Op == OBits || x.Op == OConst) && (y.Op == OBits || y.Op == OConst) {
		// linear case: all bits equal or complementary
		xs, ys := b.bitsOf(x), b.bitsOf(y)
		out := make([]*Term, x.W)
		ok := true
		for i := range xs {
			d := b.XorB(xs[i], ys[i])
			if d == b.False {
				out[i] = xs[i]
			} else if d == b.True {
				out[i] = b.XorB(ys[i], c)
			} else {
				ok = false
				break
			}
		}
		if ok {
			return b.Bits(out)
		}
	}
	return b.mk(Term{Op: OIte, W: x.W, A: []*Term{c, x, y}})
}

// ---- bit vectors ----

func (b *B) getBit(t *Term, i int) *Term {
	switch t.Op {
	case OConst:
		return b.Bool(t.Val>>uint(i)&1 == 1)
	case OBits:
		return t.A[i]
	case OIte:
		x, y := t.A[1], t.A[2]
		if (x.Op == OConst || x.Op == OBits) && (y.Op == OConst || y.Op == OBits) {
			p, q := b.getBit(x, i), b.getBit(y, i)
			if p == q {
				return p
			}
			if p.IsConst() || q.IsConst() || b.XorB(p, q).IsConst() {
				return b.Ite(t.A[0], p, q)
			}
		}
	}
	if t.umax>>uint(i) == 0 {
		return b.False
	}
	return b.mk(Term{Op: OBit, W: WBool, Val: uint64(i), A: []*Term{t}})
}

func (b *B) bitsOf(t *Term) []*Term {
	if t.Op == OBits {
		return t.A
	}
	if r, ok := b.bitsC[t.ID]; ok {
		return r
	}
	out := make([]*Term, t.W)
	for i := range out {
		out[i] = b.getBit(t, i)
	}
	b.bitsC[t.ID] = out
	return out
}

// Bits builds a bit vector from its bits, least significant first.
func (b *B) Bits(bs []*Term) *Term {
	w := len(bs)
	allc := true
	var v uint64
	for i, x := range bs {
		if x == b.True {
			v |= 1 << uint(i)
		} else if x != b.False {
			allc = false
			break
		}
	}
	if allc {
		return b.Const(w, v)
	}
	if bs[0].Op == OBit && bs[0].Val == 0 && bs[0].A[0].W == w {
		t := bs[0].A[0]
		ok := true
		for i, x := range bs {
			if x.Op == OBit && x.A[0] == t && x.Val == uint64(i) {
				continue
			}
			if x == b.False && t.umax>>uint(i) == 0 {
				continue
			}
			ok = false
			break
		}
		if ok {
			return t
		}
	}
	return b.mk(Term{Op: OBits, W: w, A: bs})
}

func (b *B) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.W-1 {
		return t
	}
	if t.Op == OConst {
		return b.Const(hi-lo+1, t.Val>>uint(lo))
	}
	if t.Op == OIte && (t.A[1].Op == OConst || t.A[2].Op == OConst) {
		return b.Ite(t.A[0], b.Extract(t.A[1], hi, lo), b.Extract(t.A[2], hi, lo))
	}
	bs := b.bitsOf(t)
	return b.Bits(append([]*Term{}, bs[lo:hi+1]...))
}

func (b *B) ZExt(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return b.Extract(t, w-1, 0)
	}
	if t.Op == OConst {
		return b.Const(w, t.Val)
	}
	if t.Op == OIte {
		return b.Ite(t.A[0], b.ZExt(t.A[1], w), b.ZExt(t.A[2], w))
	}
	out := make([]*Term, w)
	copy(out, b.bitsOf(t))
	for i := t.W; i < w; i++ {
		out[i] = b.False
	}
	return b.Bits(out)
}

func (b *B) SExt(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return b.Extract(t, w-1, 0)
	}
	if t.Op == OConst {
		return b.Const(w, uint64(sext(t.Val, t.W)))
	}
	if t.Op == OIte {
		return b.Ite(t.A[0], b.SExt(t.A[1], w), b.SExt(t.A[2], w))
	}
	out := make([]*Term, w)
	bs := b.bitsOf(t)
	copy(out, bs)
	for i := t.W; i < w; i++ {
		out[i] = bs[t.W-1]
	}
	return b.Bits(out)
}

func known(b *B, t *Term) (kz, ko uint64) {
	switch t.Op {
	case OConst:
		return mask(t.W) &^ t.Val, t.Val
	case OBits:
		for i, x := range t.A {
			if x == b.True {
				ko |= 1 << uint(i)
			} else if x == b.False {
				kz |= 1 << uint(i)
			}
		}
		return
	}
	if t.umax != mask(t.W) {
		n := bits.Len64(t.umax)
		kz = mask(t.W) &^ mask(n)
		if n == 0 {
			kz = mask(t.W)
		}
	}
	return
}

func (b *B) Add(x, y *Term) *Term {
	w := x.W
	if x.Op == OConst {
		x, y = y, x
	}
	if y.Op == OConst {
		if y.Val == 0 {
			return x
		}
		if x.Op == OConst {
			return b.Const(w, x.Val+y.Val)
		}
		if x.Op == OAdd && x.A[1].Op == OConst {
			return b.Add(x.A[0], b.Const(w, x.A[1].Val+y.Val))
		}
		if x.Op == OIte && x.A[1].Op == OConst && x.A[2].Op == OConst {
			return b.Ite(x.A[0], b.Add(x.A[1], y), b.Add(x.A[2], y))
		}
		// subtraction of a constant whose bits are all known set
		neg := (-y.Val) & mask(w)
		_, ko := known(b, x)
		if x.Op == OBits && ko&neg == neg && neg != 0 {
			return b.BXor(x, b.Const(w, neg))
		}
	}
	kx, _ := known(b, x)
	ky, _ := known(b, y)
	if kx|ky == mask(w) {
		return b.BOr(x, y)
	}
	// x + (-1)*x
	if n, ok := b.negOf(y); ok && n == x {
		return b.Const(w, 0)
	}
	if n, ok := b.negOf(x); ok && n == y {
		return b.Const(w, 0)
	}
	// (p + c) + q -> (p+q) + c
	if x.Op == OAdd && x.A[1].Op == OConst {
		return b.Add(b.Add(x.A[0], y), x.A[1])
	}
	if y.Op == OAdd && y.A[1].Op == OConst {
		return b.Add(b.Add(x, y.A[0]), y.A[1])
	}
	// (p - q) + q -> p
	if x.Op == OAdd && y.Op != OConst {
		for i := 0; i < 2; i++ {
			if n, ok := b.negOf(x.A[i]); ok && n == y {
				return x.A[1-i]
			}
			if n, ok := b.negOf(y); ok && n == x.A[i] {
				return x.A[1-i]
			}
		}
	}
	if y.Op != OConst && x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(Term{Op: OAdd, W: w, A: []*Term{x, y}})
}

func (b *B) negOf(t *Term) (*Term, bool) {
	if t.Op == OMul && t.A[1].Op == OConst && t.A[1].Val == mask(t.W) {
		return t.A[0], true
	}
	return nil, false
}

func (b *B) Neg(x *Term) *Term { return b.Mul(x, b.Const(x.W, ^uint64(0))) }

func (b *B) Sub(x, y *Term) *Term {
	if x == y {
		return b.Const(x.W, 0)
	}
	if y.Op == OConst {
		return b.Add(x, b.Const(x.W, -y.Val))
	}
	return b.Add(x, b.Neg(y))
}

func (b *B) Mul(x, y *Term) *Term {
	w := x.W
	if x.Op == OConst {
		x, y = y, x
	}
	if y.Op == OConst {
		if x.Op == OConst {
			return b.Const(w, x.Val*y.Val)
		}
		switch {
		case y.Val == 0:
			return y
		case y.Val == 1:
			return x
		case bits.OnesCount64(y.Val) == 1:
			return b.Shl(x, b.Const(w, uint64(bits.TrailingZeros64(y.Val))))
		}
		if x.Op == OMul && x.A[1].Op == OConst {
			return b.Mul(x.A[0], b.Const(w, x.A[1].Val*y.Val))
		}
		if x.Op == OAdd && x.A[1].Op == OConst {
			return b.Add(b.Mul(x.A[0], y), b.Const(w, x.A[1].Val*y.Val))
		}
		if y.Val == mask(w) && x.Op == OAdd { // -(a+b)
			return b.Add(b.Neg(x.A[0]), b.Neg(x.A[1]))
		}
	} else if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(Term{Op: OMul, W: w, A: []*Term{x, y}})
}

// mulNoSOv: x*c does not overflow signed
func mulNoSOv(x *Term, c int64) bool {
	f := func(v int64) bool {
		h, l := bits.Mul64(absU(v), absU(c))
		return h == 0 && l <= uint64(math.MaxInt64) && (x.W == 64 || l < uint64(1)<<uint(x.W-1))
	}
	return f(x.smin) && f(x.smax)
}

func absU(v int64) uint64 {
	if v < 0 {
		return uint64(-v)
	}
	return uint64(v)
}

// splitMul: t = x*c + r for constant c>0 with no signed overflow and 0<=r<c
// (r constant); returns x.
func (b *B) splitMul(t *Term, c int64) (x *Term, r int64, ok bool) {
	if t.W != 64 {
		return nil, 0, false
	}
	if t.Op == OAdd && t.A[1].Op == OConst {
		k := sext(t.A[1].Val, t.W)
		if t.A[0].Op == OMul && t.A[0].A[1].Op == OConst && sext(t.A[0].A[1].Val, t.W) == c {
			x := t.A[0].A[0]
			q, rr := k/c, k%c
			if rr < 0 {
				rr += c
				q--
			}
			xq := b.Add(x, b.Const(t.W, uint64(q)))
			if mulNoSOv(x, c) && mulNoSOv(xq, c) && xq.smax < math.MaxInt64/c-1 {
				if lo, ok1 := addOv(x.smin, q, t.W); ok1 {
					if _, ok2 := addOv(x.smax, q, t.W); ok2 {
						_ = lo
						return xq, rr, true
					}
				}
			}
		}
		return nil, 0, false
	}
	if t.Op == OMul && t.A[1].Op == OConst && sext(t.A[1].Val, t.W) == c && mulNoSOv(t.A[0], c) {
		return t.A[0], 0, true
	}
	return nil, 0, false
}

func (b *B) UDiv(x, y *Term) *Term {
	w := x.W
	if y.Op == OConst && y.Val != 0 {
		if x.Op == OConst {
			return b.Const(w, x.Val/y.Val)
		}
		if bits.OnesCount64(y.Val) == 1 {
			return b.LShr(x, b.Const(w, uint64(bits.TrailingZeros64(y.Val))))
		}
		if x.umax < y.Val {
			return b.Const(w, 0)
		}
		if x.Op == OMul && x.A[1] == y {
			if h, l := bits.Mul64(x.A[0].umax, y.Val); h == 0 && l <= mask(w) {
				return x.A[0]
			}
		}
	}
	return b.mk(Term{Op: OUDiv, W: w, A: []*Term{x, y}})
}

func (b *B) URem(x, y *Term) *Term {
	w := x.W
	if y.Op == OConst && y.Val != 0 {
		if x.Op == OConst {
			return b.Const(w, x.Val%y.Val)
		}
		if bits.OnesCount64(y.Val) == 1 {
			return b.BAnd(x, b.Const(w, y.Val-1))
		}
		if x.umax < y.Val {
			return x
		}
		if x.Op == OMul && x.A[1] == y {
			if h, l := bits.Mul64(x.A[0].umax, y.Val); h == 0 && l <= mask(w) {
				return b.Const(w, 0)
			}
		}
	}
	return b.mk(Term{Op: OURem, W: w, A: []*Term{x, y}})
}

func (b *B) SDiv(x, y *Term) *Term {
	w := x.W
	if y.Op == OConst && y.Val != 0 {
		c := sext(y.Val, w)
		if x.Op == OConst {
			a := sext(x.Val, w)
			if c == -1 {
				return b.Const(w, uint64(-a))
			}
			return b.Const(w, uint64(a/c))
		}
		if c == 1 {
			return x
		}
		if c > 0 && x.smin >= 0 {
			if q, _, ok := b.splitMul(x, c); ok && q.smin >= 0 {
				return q
			}
			return b.UDiv(x, y)
		}
		if c > 0 {
			if q, r, ok := b.splitMul(x, c); ok && r == 0 {
				return q
			}
		}
	}
	return b.mk(Term{Op: OSDiv, W: w, A: []*Term{x, y}})
}

func (b *B) SRem(x, y *Term) *Term {
	w := x.W
	if y.Op == OConst && y.Val != 0 {
		c := sext(y.Val, w)
		if x.Op == OConst {
			if c == -1 {
				return b.Const(w, 0)
			}
			return b.Const(w, uint64(sext(x.Val, w)%c))
		}
		if c > 0 && x.smin >= 0 {
			if q, r, ok := b.splitMul(x, c); ok && q.smin >= 0 {
				return b.Const(w, uint64(r))
			}
			return b.URem(x, y)
		}
		if c > 0 {
			if _, r, ok := b.splitMul(x, c); ok && r == 0 {
				return b.Const(w, 0)
			}
		}
	}
	return b.mk(Term{Op: OSRem, W: w, A: []*Term{x, y}})
}

func (b *B) BAnd(x, y *Term) *Term {
	w := x.W
	if x.Op == OConst {
		x, y = y, x
	}
	if x == y {
		return x
	}
	if y.Op == OConst {
		if x.Op == OConst {
			return b.Const(w, x.Val&y.Val)
		}
		if y.Val == 0 {
			return y
		}
		if y.Val == mask(w) {
			return x
		}
	}
	kx, _ := known(b, x)
	ky, _ := known(b, y)
	if kx|ky == mask(w) {
		return b.Const(w, 0)
	}
	if y.Op == OConst || x.Op == OBits || y.Op == OBits {
		xs, ys := b.bitsOf(x), b.bitsOf(y)
		out := make([]*Term, w)
		for i := range out {
			out[i] = b.And(xs[i], ys[i])
		}
		return b.Bits(out)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(Term{Op: OBAnd, W: w, A: []*Term{x, y}})
}

func (b *B) BOr(x, y *Term) *Term {
	w := x.W
	if x.Op == OConst {
		x, y = y, x
	}
	if x == y {
		return x
	}
	if y.Op == OConst {
		if x.Op == OConst {
			return b.Const(w, x.Val|y.Val)
		}
		if y.Val == 0 {
			return x
		}
		if y.Val == mask(w) {
			return y
		}
	}
	kx, _ := known(b, x)
	ky, _ := known(b, y)
	if y.Op == OConst || kx|ky == mask(w) || x.Op == OBits || y.Op == OBits {
		xs, ys := b.bitsOf(x), b.bitsOf(y)
		out := make([]*Term, w)
		for i := range out {
			out[i] = b.Or(xs[i], ys[i])
		}
		return b.Bits(out)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(Term{Op: OBOr, W: w, A: []*Term{x, y}})
}

func (b *B) BXor(x, y *Term) *Term {
	w := x.W
	if x.Op == OConst && y.Op == OConst {
		return b.Const(w, x.Val^y.Val)
	}
	if y.Op == OConst && y.Val == 0 {
		return x
	}
	if x.Op == OConst && x.Val == 0 {
		return y
	}
	if x == y {
		return b.Const(w, 0)
	}
	xs, ys := b.bitsOf(x), b.bitsOf(y)
	out := make([]*Term, w)
	for i := range out {
		out[i] = b.XorB(xs[i], ys[i])
	}
	return b.Bits(out)
}

func (b *B) BNot(x *Term) *Term { return b.BXor(x, b.Const(x.W, ^uint64(0))) }

func (b *B) Shl(x, y *Term) *Term {
	w := x.W
	if y.Op == OConst {
		if y.Val == 0 {
			return x
		}
		if y.Val >= uint64(w) {
			return b.Const(w, 0)
		}
		n := int(y.Val)
		xs := b.bitsOf(x)
		out := make([]*Term, w)
		for i := range out {
			if i < n {
				out[i] = b.False
			} else {
				out[i] = xs[i-n]
			}
		}
		return b.Bits(out)
	}
	return b.mk(Term{Op: OShl, W: w, A: []*Term{x, y}})
}

func (b *B) LShr(x, y *Term) *Term {
	w := x.W
	if y.Op == OConst {
		if y.Val == 0 {
			return x
		}
		if y.Val >= uint64(w) {
			return b.Const(w, 0)
		}
		n := int(y.Val)
		xs := b.bitsOf(x)
		out := make([]*Term, w)
		for i := range out {
			if i+n < w {
				out[i] = xs[i+n]
			} else {
				out[i] = b.False
			}
		}
		return b.Bits(out)
	}
	return b.mk(Term{Op: OLShr, W: w, A: []*Term{x, y}})
}

func (b *B) AShr(x, y *Term) *Term {
	w := x.W
	if y.Op == OConst {
		if y.Val == 0 {
			return x
		}
		n := int(min(y.Val, uint64(w-1)))
		xs := b.bitsOf(x)
		out := make([]*Term, w)
		for i := range out {
			if i+n < w {
				out[i] = xs[i+n]
			} else {
				out[i] = xs[w-1]
			}
		}
		return b.Bits(out)
	}
	return b.mk(Term{Op: OAShr, W: w, A: []*Term{x, y}})
}

func (b *B) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.W == WBool {
		return b.EqB(x, y)
	}
	if x.W == WFloat {
		return b.FCmp(OFEq, x, y)
	}
	if x.Op == OConst {
		x, y = y, x
	}
	if x.umax < y.umin || y.umax < x.umin || x.smax < y.smin || y.smax < x.smin {
		return b.False
	}
	if x.Op == OConst && y.Op == OConst {
		return b.Bool(x.Val == y.Val)
	}
	if y.Op == OConst {
		switch x.Op {
		case OIte:
			if x.A[1].Op == OConst || x.A[2].Op == OConst {
				return b.Ite(x.A[0], b.Eq(x.A[1], y), b.Eq(x.A[2], y))
			}
			p, q := b.Eq(x.A[1], y), b.Eq(x.A[2], y)
			if p.IsConst() || q.IsConst() {
				return b.Ite(x.A[0], p, q)
			}
		case OAdd:
			if x.A[1].Op == OConst {
				return b.Eq(x.A[0], b.Const(x.W, y.Val-x.A[1].Val))
			}
			if n, ok := b.negOf(x.A[1]); ok && y.Val == 0 {
				return b.Eq(x.A[0], n)
			}
			if n, ok := b.negOf(x.A[0]); ok && y.Val == 0 {
				return b.Eq(x.A[1], n)
			}
		}
	}
	if (x.Op == OBits || x.Op == OConst) && (y.Op == OBits || y.Op == OConst) {
		cs := make([]*Term, 0, x.W)
		xs, ys := b.bitsOf(x), b.bitsOf(y)
		for i := range xs {
			e := b.EqB(xs[i], ys[i])
			if e == b.False {
				return b.False
			}
			if e != b.True {
				cs = append(cs, e)
			}
		}
		return b.And(cs...)
	}
	if x.Op == OAdd && y.Op == OAdd && x.A[1] == y.A[1] {
		return b.Eq(x.A[0], y.A[0])
	}
	if x.Op == OIte && y.Op == OIte && x.A[0] == y.A[0] {
		return b.Ite(x.A[0], b.Eq(x.A[1], y.A[1]), b.Eq(x.A[2], y.A[2]))
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(Term{Op: OEq, W: WBool, A: []*Term{x, y}})
}

func (b *B) Ult(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.umax < y.umin {
		return b.True
	}
	if x.umin >= y.umax {
		return b.False
	}
	if y.Op == OConst && y.Val == 1 {
		return b.Eq(x, b.Const(x.W, 0))
	}
	if x.Op == OConst && x.Val == 0 {
		return b.Not(b.Eq(y, x))
	}
	if y.Op == OConst && x.Op == OIte && (x.A[1].Op == OConst || x.A[2].Op == OConst) {
		return b.Ite(x.A[0], b.Ult(x.A[1], y), b.Ult(x.A[2], y))
	}
	if x.Op == OConst && y.Op == OIte && (y.A[1].Op == OConst || y.A[2].Op == OConst) {
		return b.Ite(y.A[0], b.Ult(x, y.A[1]), b.Ult(x, y.A[2]))
	}
	return b.mk(Term{Op: OUlt, W: WBool, A: []*Term{x, y}})
}
func (b *B) Ule(x, y *Term) *Term { return b.Not(b.Ult(y, x)) }

func (b *B) Slt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.smax < y.smin {
		return b.True
	}
	if x.smin >= y.smax {
		return b.False
	}
	if x.smin >= 0 && y.smin >= 0 {
		return b.Ult(x, y)
	}
	if y.Op == OConst && x.Op == OIte && (x.A[1].Op == OConst || x.A[2].Op == OConst) {
		return b.Ite(x.A[0], b.Slt(x.A[1], y), b.Slt(x.A[2], y))
	}
	if x.Op == OConst && y.Op == OIte && (y.A[1].Op == OConst || y.A[2].Op == OConst) {
		return b.Ite(y.A[0], b.Slt(x, y.A[1]), b.Slt(x, y.A[2]))
	}
	// c + x < c + y without overflow
	if x.Op == OAdd && x.A[1].Op == OConst && y.Op == OConst {
		c := sext(x.A[1].Val, x.W)
		if _, o1 := addOv(x.A[0].smin, c, x.W); o1 {
			if _, o2 := addOv(x.A[0].smax, c, x.W); o2 {
				if d, o3 := addOv(sext(y.Val, x.W), -c, x.W); o3 && c != math.MinInt64 {
					return b.Slt(x.A[0], b.Const(x.W, uint64(d)))
				}
			}
		}
	}
	if y.Op == OAdd && y.A[1].Op == OConst && x.Op == OConst {
		c := sext(y.A[1].Val, x.W)
		if _, o1 := addOv(y.A[0].smin, c, x.W); o1 {
			if _, o2 := addOv(y.A[0].smax, c, x.W); o2 {
				if d, o3 := addOv(sext(x.Val, x.W), -c, x.W); o3 && c != math.MinInt64 {
					return b.Slt(b.Const(x.W, uint64(d)), y.A[0])
				}
			}
		}
	}
	return b.mk(Term{Op: OSlt, W: WBool, A: []*Term{x, y}})
}
func (b *B) Sle(x, y *Term) *Term { return b.Not(b.Slt(y, x)) }

// ---- floats ----

func (b *B) FFrom(t *Term, signed bool) *Term {
	if t.Op == OConst {
		if signed {
			return b.FConst(float64(sext(t.Val, t.W)))
		}
		return b.FConst(float64(t.Val))
	}
	op := OFFromU
	if signed && t.smin < 0 {
		op = OFFromS
	}
	// canonical width: strip a zero extension
	if op == OFFromU {
		n := bits.Len64(t.umax)
		if n == 0 {
			return b.FConst(0)
		}
		if n < t.W && t.Op == OBits {
			t = b.Extract(t, n-1, 0)
		}
	}
	return b.mk(Term{Op: op, W: WFloat, A: []*Term{t}})
}

func (b *B) FBin(op Op, x, y *Term) *Term {
	if x.Op == OFConst && y.Op == OFConst {
		var r float64
		switch op {
		case OFAdd:
			r = x.F + y.F
		case OFSub:
			r = x.F - y.F
		case OFMul:
			r = x.F * y.F
		case OFDiv:
			r = x.F / y.F
		}
		return b.FConst(r)
	}
	if op == OFAdd && y.Op == OFConst && y.F == 0 && !math.Signbit(y.F) && b.nonNegZero(x) {
		return x
	}
	if op == OFAdd && x.Op == OFConst && x.F == 0 && !math.Signbit(x.F) && b.nonNegZero(y) {
		return y
	}
	if op == OFMul && y.Op == OFConst && y.F == 1 {
		return x
	}
	if op == OFDiv && y.Op == OFConst && y.F == 1 {
		return x
	}
	return b.mk(Term{Op: op, W: WFloat, A: []*Term{x, y}})
}

// franges bounds a float: rounding to nearest is monotone, so the operation on
// the ends of the operands' ranges bounds the result.
func (b *B) franges(t *Term) {
	set := func(xs ...float64) {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, x := range xs {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return
			}
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
		t.fok, t.flo, t.fhi = true, lo, hi
	}
	for _, a := range t.A {
		if a.W == WFloat && !a.fok {
			return
		}
	}
	switch t.Op {
	case OVar:
		set(-math.MaxFloat64, math.MaxFloat64) // float variables are finite
	case OFConst:
		set(t.F)
	case OFFromS:
		set(float64(t.A[0].smin), float64(t.A[0].smax))
	case OFFromU:
		set(float64(t.A[0].umin), float64(t.A[0].umax))
	case OFNeg:
		set(-t.A[0].flo, -t.A[0].fhi)
	case OFRnd:
		set(rndF(t.Val, t.A[0].flo), rndF(t.Val, t.A[0].fhi))
	case OF32:
		set(float64(float32(t.A[0].flo)), float64(float32(t.A[0].fhi)))
	case OFAdd:
		set(t.A[0].flo+t.A[1].flo, t.A[0].fhi+t.A[1].fhi)
	case OFSub:
		set(t.A[0].flo-t.A[1].fhi, t.A[0].fhi-t.A[1].flo)
	case OFMul, OFDiv:
		x, y := t.A[0], t.A[1]
		if t.Op == OFMul {
			set(x.flo*y.flo, x.flo*y.fhi, x.fhi*y.flo, x.fhi*y.fhi)
		} else if y.flo > 0 || y.fhi < 0 {
			set(x.flo/y.flo, x.flo/y.fhi, x.fhi/y.flo, x.fhi/y.fhi)
		}
	case OIte:
		set(t.A[1].flo, t.A[1].fhi, t.A[2].flo, t.A[2].fhi)
	}
}

// never -0 (so that adding +0 is the identity)
func (b *B) nonNegZero(x *Term) bool {
	return x.Op == OFFromS || x.Op == OFFromU
}

func (b *B) FNeg(x *Term) *Term {
	if x.Op == OFConst {
		return b.FConst(-x.F)
	}
	if x.Op == OFNeg {
		return x.A[0]
	}
	return b.mk(Term{Op: OFNeg, W: WFloat, A: []*Term{x}})
}

func (b *B) FCmp(op Op, x, y *Term) *Term {
	if x.Op == OFConst && y.Op == OFConst {
		switch op {
		case OFLt:
			return b.Bool(x.F < y.F)
		case OFLe:
			return b.Bool(x.F <= y.F)
		default:
			return b.Bool(x.F == y.F)
		}
	}
	if x.fok && y.fok {
		switch {
		case op == OFLt && x.fhi < y.flo, op == OFLe && x.fhi <= y.flo:
			return b.True
		case op == OFLt && x.flo >= y.fhi, op == OFLe && x.flo > y.fhi:
			return b.False
		case op == OFEq && (x.fhi < y.flo || x.flo > y.fhi):
			return b.False
		}
	}
	if op == OFEq && x == y && b.nonNaN(x) {
		return b.True
	}
	if op == OFEq && x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(Term{Op: op, W: WBool, A: []*Term{x, y}})
}

func (b *B) nonNaN(x *Term) bool { return x.fok }

// FRnd rounds to an integral value.
func (b *B) FRnd(mode uint64, x *Term) *Term {
	switch x.Op {
	case OFConst:
		return b.FConst(rndF(mode, x.F))
	case OFRnd:
		return x
	case OFFromS, OFFromU:
		return x
	case OIte:
		return b.Ite(x.A[0], b.FRnd(mode, x.A[1]), b.FRnd(mode, x.A[2]))
	}
	return b.mk(Term{Op: OFRnd, W: WFloat, Val: mode, A: []*Term{x}})
}

// F32 rounds to the nearest float32.
func (b *B) F32(x *Term) *Term {
	switch x.Op {
	case OFConst:
		return b.FConst(float64(float32(x.F)))
	case OF32:
		return x
	case OFNeg:
		return b.FNeg(b.F32(x.A[0]))
	case OFFromS, OFFromU:
		if y := x.A[0]; x.fok && x.flo >= -(1<<24) && x.fhi <= 1<<24 && y.W <= 64 {
			return x
		}
	case OIte:
		return b.Ite(x.A[0], b.F32(x.A[1]), b.F32(x.A[2]))
	}
	return b.mk(Term{Op: OF32, W: WFloat, A: []*Term{x}})
}

// FToInt is Go's conversion of a float to an integer type as compiled for
// amd64: through int64, through int32 for the narrower types, and with the
// smallest value of that type where the float is out of its range.
//
// within tells whether a guard is known to hold where the conversion happens.
func (b *B) FToInt(x *Term, w int, signed bool, within func(*Term) bool) *Term {
	if x.Op == OIte {
		return b.Ite(x.A[0], b.FToInt(x.A[1], w, signed, within), b.FToInt(x.A[2], w, signed, within))
	}
	if w == 64 && !signed {
		two63 := b.FConst(1 << 63)
		if x.fok && x.fhi < 1<<63 {
			return b.fToI64(x, within)
		}
		low := b.FCmp(OFLt, x, two63)
		if within(low) {
			return b.fToI64(x, within)
		}
		return b.Ite(low, b.fToI64(x, within), b.Add(b.fToI64(b.FBin(OFSub, x, two63), within), b.Const(64, 1<<63)))
	}
	r := b.fToI64(x, within)
	if w == 64 || w == 32 && !signed {
		return b.Extract(r, w-1, 0)
	}
	lo, hi := uint64(1)<<31, uint64(1)<<31-1
	fits := b.And(b.Not(b.Slt(r, b.Const(64, -lo))), b.Not(b.Slt(b.Const(64, hi), r)))
	if within(fits) {
		return b.Extract(r, w-1, 0)
	}
	return b.Ite(fits, b.Extract(r, w-1, 0), b.Const(w, lo))
}

func (b *B) fToI64(x *Term, within func(*Term) bool) *Term {
	switch x.Op {
	case OFConst:
		if !(x.F >= -(1<<63) && x.F < 1<<63) {
			return b.Const(64, 1<<63)
		}
		return b.Const(64, uint64(int64(x.F)))
	case OFRnd:
		if x.Val == rndTrunc {
			return b.fToI64(x.A[0], within)
		}
	case OFFromS:
		if x.A[0].W <= 53 || (x.A[0].smin >= -(1<<53) && x.A[0].smax <= 1<<53) {
			return b.SExt(x.A[0], 64)
		}
	case OFFromU:
		if x.A[0].umax <= 1<<53 {
			return b.ZExt(x.A[0], 64)
		}
	}
	t := b.mk(Term{Op: OFToS, W: 64, A: []*Term{x}})
	if x.fok && x.flo >= -(1<<63) && x.fhi < 1<<63 {
		return t
	}
	in := b.And(b.FCmp(OFLe, b.FConst(-(1<<63)), x), b.FCmp(OFLt, x, b.FConst(1<<63)))
	if within(in) {
		return t
	}
	return b.Ite(in, t, b.Const(64, 1<<63))
}

// ---- evaluation under a model ----

type Model map[string]uint64

type evalRes struct {
	v uint64
	f float64
}

type Evaluator struct {
	M    Model
	memo map[int]evalRes
}

func NewEvaluator(m Model) *Evaluator { return &Evaluator{M: m, memo: map[int]evalRes{}} }

func (e *Evaluator) Bool(t *Term) bool { return e.eval(t).v != 0 }
func (e *Evaluator) U(t *Term) uint64  { return e.eval(t).v }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaluator) eval(t *Term) evalRes {
	switch t.Op {
	case OConst:
		return evalRes{v: t.Val}
	case OFConst:
		return evalRes{f: t.F}
	}
	if r, ok := e.memo[t.ID]; ok {
		return r
	}
	var r evalRes
	w := t.W
	switch t.Op {
	case OVar:
		v := e.M[t.Name]
		if w == WFloat {
			r.f = math.Float64frombits(v)
		} else if w == WBool {
			r.v = v & 1
		} else {
			r.v = v & mask(w)
		}
	case ONot:
		r.v = 1 - e.eval(t.A[0]).v
	case OAnd:
		r.v = 1
		for _, a := range t.A {
			if e.eval(a).v == 0 {
				r.v = 0
				break
			}
		}
	case OOr:
		for _, a := range t.A {
			if e.eval(a).v != 0 {
				r.v = 1
				break
			}
		}
	case OXor:
		for _, a := range t.A {
			r.v ^= e.eval(a).v
		}
	case OIte:
		if e.eval(t.A[0]).v != 0 {
			r = e.eval(t.A[1])
		} else {
			r = e.eval(t.A[2])
		}
	case OBit:
		r.v = e.eval(t.A[0]).v >> t.Val & 1
	case OEq:
		r.v = b2u(e.eval(t.A[0]).v == e.eval(t.A[1]).v)
	case OUlt:
		r.v = b2u(e.eval(t.A[0]).v < e.eval(t.A[1]).v)
	case OSlt:
		ww := t.A[0].W
		r.v = b2u(sext(e.eval(t.A[0]).v, ww) < sext(e.eval(t.A[1]).v, ww))
	case OBits:
		for i, a := range t.A {
			r.v |= e.eval(a).v << uint(i)
		}
	case OAdd:
		r.v = (e.eval(t.A[0]).v + e.eval(t.A[1]).v) & mask(w)
	case OMul:
		r.v = (e.eval(t.A[0]).v * e.eval(t.A[1]).v) & mask(w)
	case OUDiv, OURem, OSDiv, OSRem:
		x, y := e.eval(t.A[0]).v, e.eval(t.A[1]).v
		if y == 0 {
			switch t.Op {
			case OUDiv:
				r.v = mask(w)
			case OSDiv:
				if sext(x, w) >= 0 {
					r.v = mask(w)
				} else {
					r.v = 1
				}
			default:
				r.v = x
			}
			break
		}
		switch t.Op {
		case OUDiv:
			r.v = x / y
		case OURem:
			r.v = x % y
		case OSDiv:
			a, c := sext(x, w), sext(y, w)
			if c == -1 {
				r.v = uint64(-a) & mask(w)
			} else {
				r.v = uint64(a/c) & mask(w)
			}
		case OSRem:
			a, c := sext(x, w), sext(y, w)
			if c == -1 {
				r.v = 0
			} else {
				r.v = uint64(a%c) & mask(w)
			}
		}
	case OBAnd:
		r.v = e.eval(t.A[0]).v & e.eval(t.A[1]).v
	case OBOr:
		r.v = e.eval(t.A[0]).v | e.eval(t.A[1]).v
	case OShl, OLShr, OAShr:
		x, y := e.eval(t.A[0]).v, e.eval(t.A[1]).v
		switch {
		case t.Op == OShl && y < uint64(w):
			r.v = x << y & mask(w)
		case t.Op == OLShr && y < uint64(w):
			r.v = x >> y
		case t.Op == OAShr:
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			r.v = uint64(sext(x, w)>>y) & mask(w)
		}
	case OFFromS:
		r.f = float64(sext(e.eval(t.A[0]).v, t.A[0].W))
	case OFFromU:
		r.f = float64(e.eval(t.A[0]).v)
	case OFAdd:
		r.f = e.eval(t.A[0]).f + e.eval(t.A[1]).f
	case OFSub:
		r.f = e.eval(t.A[0]).f - e.eval(t.A[1]).f
	case OFMul:
		r.f = e.eval(t.A[0]).f * e.eval(t.A[1]).f
	case OFDiv:
		r.f = e.eval(t.A[0]).f / e.eval(t.A[1]).f
	case OFNeg:
		r.f = -e.eval(t.A[0]).f
	case OFRnd:
		r.f = rndF(t.Val, e.eval(t.A[0]).f)
	case OF32:
		r.f = float64(float32(e.eval(t.A[0]).f))
	case OFLt:
		r.v = b2u(e.eval(t.A[0]).f < e.eval(t.A[1]).f)
	case OFLe:
		r.v = b2u(e.eval(t.A[0]).f <= e.eval(t.A[1]).f)
	case OFEq:
		r.v = b2u(e.eval(t.A[0]).f == e.eval(t.A[1]).f)
	case OFToS:
		r.v = uint64(int64(e.eval(t.A[0]).f))
	default:
		panic(fmt.Sprintf("eval: op %d", t.Op))
	}
	e.memo[t.ID] = r
	return r
}

// String prints a term (debugging, samples in the evidence).
func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return fmt.Sprint(t.Val == 1)
		}
		return fmt.Sprintf("%d", t.Val)
	case OFConst:
		return fmt.Sprintf("%g", t.F)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	names := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OXor: "xor", OIte: "ite", OBit: "bit", OEq: "=", OUlt: "u<", OSlt: "s<", OBits: "bits", OAdd: "+", OMul: "*", OUDiv: "u/", OURem: "u%", OSDiv: "s/", OSRem: "s%", OBAnd: "&", OBOr: "|", OShl: "<<", OLShr: ">>", OAShr: ">>a", OFFromS: "fs", OFFromU: "fu", OFAdd: "f+", OFSub: "f-", OFMul: "f*", OFDiv: "f/", OFNeg: "f-", OFLt: "f<", OFLe: "f<=", OFEq: "f=", OFToS: "toint"}
	var sb strings.Builder
	sb.WriteString("(" + names[t.Op])
	if t.Op == OBit {
		fmt.Fprintf(&sb, "%d", t.Val)
	}
	for i, a := range t.A {
		if i > 40 {
			sb.WriteString(" …")
			break
		}
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}
