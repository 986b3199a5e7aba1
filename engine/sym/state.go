package sym

import (
	"fmt"
	"go/types"
)

type Obj struct {
	V Value // includes *MapV, *ChanV, *IterV
}

// State is the mutable world of one path: heap, allocation counters, path
// condition and nondeterminism counters.
type State struct {
	heap map[ObjID]*Obj
	cnt  []int32
	pc   []*Term
	occ  map[string]int
	// last clock reading (seconds and nanoseconds since the epoch), nil before
	// the first one
	now      *Term
	curPanic *PanicVal
	known    map[*Term]uint64
	nest     int  // harness code standing for another goroutine is running
	deferGo  bool // goroutines wait for the harness to let them run
	pend     []pendGo
	par      *parState
	choice   uint64 // history of Choose: paths that chose differently never merge
}

// pendGo is a goroutine that has not run yet.
type pendGo struct {
	fn   Value
	args []Value
}

func (s *State) setKnown(t *Term, v uint64) {
	n := make(map[*Term]uint64, len(s.known)+1)
	for k, x := range s.known {
		n[k] = x
	}
	n[t] = v
	s.known = n
}

func newState() *State {
	return &State{heap: map[ObjID]*Obj{}, occ: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{par: s.par, pc: s.pc[:len(s.pc):len(s.pc)], now: s.now, curPanic: s.curPanic, known: s.known, choice: s.choice, nest: s.nest, deferGo: s.deferGo, pend: s.pend[:len(s.pend):len(s.pend)]}
	n.heap = make(map[ObjID]*Obj, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cnt = append([]int32(nil), s.cnt...)
	n.occ = make(map[string]int, len(s.occ)+2)
	for k, v := range s.occ {
		n.occ[k] = v
	}
	return n
}

// assume adds a condition to the path condition, flattening conjunctions.
func (e *Exec) assume(s *State, c *Term) {
	if c == e.b.True {
		return
	}
	if c.Op == OAnd {
		for _, a := range c.A {
			e.assume(s, a)
		}
		return
	}
	for _, x := range s.pc {
		if x == c {
			return
		}
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], c)
}

// simp evaluates a condition against the literals of the path condition.
func (e *Exec) simp(s *State, c *Term) *Term {
	if c.IsConst() {
		return c
	}
	if c.Op == OAnd {
		out := make([]*Term, 0, len(c.A))
		for _, a := range c.A {
			r := e.simp(s, a)
			if r == e.b.False {
				return r
			}
			out = append(out, r)
		}
		return e.b.And(out...)
	}
	if c.Op == OOr {
		out := make([]*Term, 0, len(c.A))
		for _, a := range c.A {
			r := e.simp(s, a)
			if r == e.b.True {
				return r
			}
			out = append(out, r)
		}
		return e.b.Or(out...)
	}
	n := e.b.Not(c)
	for i := len(s.pc) - 1; i >= 0; i-- {
		if s.pc[i] == c {
			return e.b.True
		}
		if s.pc[i] == n {
			return e.b.False
		}
	}
	return c
}

// ---- objects ----

func (e *Exec) typeKey(t types.Type, kind int, n int) int32 {
	k := fmt.Sprintf("%d/%d/%d", e.typeID(t), kind, n)
	if id, ok := e.keys[k]; ok {
		return id
	}
	id := int32(len(e.keys) + 1)
	e.keys[k] = id
	return id
}

func (e *Exec) alloc(s *State, key int32, v Value) Ptr {
	for len(s.cnt) <= int(key) {
		s.cnt = append(s.cnt, 0)
	}
	s.cnt[key]++
	id := ObjID{key, s.cnt[key]}
	if e.inInit > 0 {
		id.K = -key - 1000
		e.base[id] = &Obj{V: v}
		return Ptr{Obj: id}
	}
	s.heap[id] = &Obj{V: v}
	return Ptr{Obj: id}
}

// allocT allocates a variable of type t with the given content.
func (e *Exec) allocT(s *State, t types.Type, v Value) Ptr {
	return e.alloc(s, e.typeKey(t, 0, 0), v)
}

func (e *Exec) allocArr(s *State, elem types.Type, a *ArrV) Ptr {
	n := -1
	if a.N.IsConst() {
		n = int(a.N.Val)
	}
	return e.alloc(s, e.typeKey(elem, 1, n), a)
}

func (e *Exec) obj(s *State, id ObjID) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := e.base[id]; ok {
		return o
	}
	panic(unsup("dangling object %v", id))
}

func (e *Exec) setObj(s *State, id ObjID, v Value) {
	if e.inInit > 0 {
		e.base[id] = &Obj{V: v}
		return
	}
	s.heap[id] = &Obj{V: v}
}

// load reads through a non-nil pointer.
func (e *Exec) load(s *State, p Ptr) Value {
	v := e.obj(s, p.Obj).V
	if s.par != nil {
		e.access(s, p.Obj, p.Path, false)
	}
	return e.loadPath(v, p.Path)
}

func (e *Exec) loadPath(v Value, path []PE) Value {
	for i, pe := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[pe.I]
		case *ArrV:
			if pe.S != nil {
				return e.loadSym(x, pe, path[i+1:])
			}
			v = x.get(pe.I)
		case Poison:
			panic(unsup("load of poison: %s", x.Why))
		default:
			panic(unsup("load through %T", v))
		}
	}
	return v
}

const maxSymArr = 4096

// loadSym reads element pe.I+pe.S; bounds were checked when the pointer was
// made, so indexes outside the array need not be considered.
func (e *Exec) loadSym(a *ArrV, pe PE, rest []PE) Value {
	n := len(a.E)
	if a.N.IsConst() && int(a.N.Val) > n && a.N.Val <= maxSymArr {
		n = int(a.N.Val)
	}
	if n > maxSymArr {
		panic(unsup("symbolic index into a large array"))
	}
	lo, hi := 0, n-1
	if m := int64(pe.I) + pe.S.smin; m > int64(lo) {
		lo = int(m)
	}
	if m := int64(pe.I) + pe.S.smax; pe.S.smax < 1<<40 && m < int64(hi) {
		hi = int(m)
	}
	if lo > hi {
		return e.loadPath(a.Def, rest)
	}
	// constant table: try the GF(2)-linear form (CRC tables)
	if pe.I == 0 && lo == 0 && len(rest) == 0 {
		if r := e.linearTable(a, pe.S, hi+1); r != nil {
			return r
		}
	}
	v := e.loadPath(a.get(hi), rest)
	for i := hi - 1; i >= lo; i-- {
		c := e.b.Eq(pe.S, e.b.Const(pe.S.W, uint64(int64(i-pe.I))))
		m, ok := e.mergeVal(c, e.loadPath(a.get(i), rest), v, true)
		if !ok {
			panic(symIndexSplit{pe, lo, hi, a, rest})
		}
		v = m
	}
	return v
}

// symIndexSplit asks the runner to fork on the value of a symbolic index.
type symIndexSplit struct {
	pe     PE
	lo, hi int
	arr    *ArrV // set for a load
	rest   []PE
}

// idxGroup is a set of indexes whose elements can be merged into one value.
type idxGroup struct {
	c     *Term
	v     Value
	n     int
	first int
}

// groups partitions the elements a load may yield by whether they merge.
func (e *Exec) groups(x symIndexSplit) []idxGroup {
	var gs []idxGroup
	for i := x.lo; i <= x.hi; i++ {
		c := e.b.Eq(x.pe.S, e.b.Const(x.pe.S.W, uint64(int64(i-x.pe.I))))
		if c == e.b.False {
			continue
		}
		v := e.loadPath(x.arr.get(i), x.rest)
		done := false
		for k := range gs {
			if m, ok := e.mergeVal(c, v, gs[k].v, true); ok {
				gs[k] = idxGroup{e.b.Or(gs[k].c, c), m, gs[k].n + 1, gs[k].first}
				done = true
				break
			}
		}
		if !done {
			gs = append(gs, idxGroup{c, v, 1, i})
		}
	}
	return gs
}

// linearTable recognises a constant table of 2^k entries, indexed by a value
// of k significant bits, whose entries are an affine function over GF(2) of
// the index (as CRC tables are).
func (e *Exec) linearTable(a *ArrV, idx *Term, n int) *Term {
	if n < 16 || n&(n-1) != 0 || len(a.E) < n {
		return nil
	}
	k := 0
	for 1<<k < n {
		k++
	}
	vals := make([]uint64, n)
	w := 0
	for i := 0; i < n; i++ {
		t, ok := a.E[i].(*Term)
		if !ok || t.Op != OConst || t.W <= 0 {
			return nil
		}
		vals[i] = t.Val
		w = t.W
	}
	for i := 0; i < n; i++ {
		x := vals[0]
		for j := 0; j < k; j++ {
			if i>>uint(j)&1 == 1 {
				x ^= vals[1<<uint(j)] ^ vals[0]
			}
		}
		if x != vals[i] {
			return nil
		}
	}
	out := make([]*Term, w)
	for bit := 0; bit < w; bit++ {
		r := e.b.Bool(vals[0]>>uint(bit)&1 == 1)
		for j := 0; j < k; j++ {
			if (vals[1<<uint(j)]^vals[0])>>uint(bit)&1 == 1 {
				r = e.b.XorB(r, e.b.getBit(idx, j))
			}
		}
		out[bit] = r
	}
	return e.b.Bits(out)
}

// store writes through a non-nil pointer.
func (e *Exec) store(s *State, p Ptr, v Value) {
	if s.par != nil {
		e.access(s, p.Obj, p.Path, true)
	}
	if len(p.Path) == 0 {
		e.setObj(s, p.Obj, v)
		return
	}
	o := e.obj(s, p.Obj)
	e.setObj(s, p.Obj, e.storePath(o.V, p.Path, v))
}

func (e *Exec) storePath(cur Value, path []PE, v Value) Value {
	if len(path) == 0 {
		return v
	}
	pe := path[0]
	switch x := cur.(type) {
	case *StructV:
		n := &StructV{F: append([]Value(nil), x.F...)}
		n.F[pe.I] = e.storePath(x.F[pe.I], path[1:], v)
		return n
	case *ArrV:
		if pe.S != nil {
			n := len(x.E)
			if x.N.IsConst() && int(x.N.Val) > n {
				n = int(x.N.Val)
			}
			if n > maxSymArr {
				panic(unsup("symbolic store into a large array"))
			}
			ne := make([]Value, n)
			for i := 0; i < n; i++ {
				c := e.b.Eq(pe.S, e.b.Const(pe.S.W, uint64(int64(i-pe.I))))
				old := x.get(i)
				if c == e.b.False {
					ne[i] = old
					continue
				}
				m, ok := e.mergeVal(c, e.storePath(old, path[1:], v), old, true)
				if !ok {
					panic(symIndexSplit{pe: pe, lo: 0, hi: n - 1})
				}
				ne[i] = m
			}
			return &ArrV{E: ne, Def: x.Def, N: x.N}
		}
		return x.set(pe.I, e.storePath(x.get(pe.I), path[1:], v))
	}
	panic(unsup("store through %T", cur))
}

// sliceVals reads the elements [0,n) of a slice.
func (e *Exec) sliceVals(s *State, sl Slice, n int) []Value {
	if n == 0 {
		return nil
	}
	a, ok := e.load(s, sl.Arr).(*ArrV)
	if !ok {
		panic(unsup("slice of non-array"))
	}
	out := make([]Value, n)
	for i := range out {
		out[i] = a.get(sl.Off + i)
	}
	return out
}

func (e *Exec) sliceStore(s *State, sl Slice, vs []Value) {
	if len(vs) == 0 {
		return
	}
	a := e.load(s, sl.Arr).(*ArrV)
	e.store(s, sl.Arr, a.setRange(sl.Off, vs))
}

// ---- merging ----

// mergeVal builds "if g then a else b" where the representation allows it.
// With force set, differing 64-bit constants are merged too.
func (e *Exec) mergeVal(g *Term, a, b Value, force bool) (Value, bool) {
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil, true
		}
		return nil, false
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.W != y.W {
			return nil, false
		}
		if !force && x.W == 64 && x.IsConst() && y.IsConst() {
			return nil, false
		}
		return e.b.Ite(g, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.Opaque && y.Opaque {
			return x, true
		}
		if x.Opaque || y.Opaque || x.Doc != nil || y.Doc != nil || len(x.B) != len(y.B) {
			return nil, false
		}
		out := make([]*Term, len(x.B))
		for i := range out {
			out[i] = e.b.Ite(g, x.B[i], y.B[i])
		}
		return &Str{B: out}, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || !ptrEq(x, y) {
			return nil, false
		}
		return x, true
	case Slice:
		y, ok := b.(Slice)
		if !ok || !ptrEq(x.Arr, y.Arr) || x.Off != y.Off || x.Len != y.Len || x.Cap != y.Cap {
			return nil, false
		}
		return x, true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		n := &StructV{F: make([]Value, len(x.F))}
		for i := range x.F {
			m, ok := e.mergeVal(g, x.F[i], y.F[i], force)
			if !ok {
				return nil, false
			}
			n.F[i] = m
		}
		return n, true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || x.N != y.N {
			return nil, false
		}
		if x == y {
			return x, true
		}
		k := len(x.E)
		if len(y.E) > k {
			k = len(y.E)
		}
		n := &ArrV{E: make([]Value, k), Def: x.Def, N: x.N}
		for i := range n.E {
			m, ok := e.mergeVal(g, x.get(i), y.get(i), force)
			if !ok {
				return nil, false
			}
			n.E[i] = m
		}
		return n, true
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.T != y.T {
			return nil, false
		}
		if x.T == nil {
			return x, true
		}
		m, ok := e.mergeVal(g, x.V, y.V, force)
		if !ok {
			return nil, false
		}
		return Iface{x.T, m}, true
	case *FnV:
		y, ok := b.(*FnV)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || x.F != y.F || x.B != y.B || x.Name != y.Name || len(x.Free) != len(y.Free) {
			return nil, false
		}
		n := &FnV{F: x.F, B: x.B, Name: x.Name, Free: make([]Value, len(x.Free))}
		for i := range n.Free {
			m, ok := e.mergeVal(g, x.Free[i], y.Free[i], force)
			if !ok {
				return nil, false
			}
			n.Free[i] = m
		}
		return n, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			m, ok := e.mergeVal(g, x[i], y[i], force)
			if !ok {
				return nil, false
			}
			n[i] = m
		}
		return n, true
	case Poison:
		if _, ok := b.(Poison); ok {
			return x, true
		}
		return nil, false
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || len(x.Keys) != len(y.Keys) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		n := &MapV{Keys: x.Keys, Vals: make([]Value, len(x.Vals))}
		for i := range x.Keys {
			if e.valEq(x.Keys[i], y.Keys[i]) != e.b.True {
				return nil, false
			}
			m, ok := e.mergeVal(g, x.Vals[i], y.Vals[i], force)
			if !ok {
				return nil, false
			}
			n.Vals[i] = m
		}
		return n, true
	case *ChanV:
		y, ok := b.(*ChanV)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.Cap != y.Cap || x.Closed != y.Closed || x.Timer != y.Timer || len(x.Buf) != len(y.Buf) {
			return nil, false
		}
		n := &ChanV{Cap: x.Cap, Closed: x.Closed, Timer: x.Timer, Buf: make([]Value, len(x.Buf))}
		for i := range n.Buf {
			m, ok := e.mergeVal(g, x.Buf[i], y.Buf[i], force)
			if !ok {
				return nil, false
			}
			n.Buf[i] = m
		}
		return n, true
	case *IterV:
		y, ok := b.(*IterV)
		if ok && x == y {
			return x, true
		}
		return nil, false
	case *JNode:
		y, ok := b.(*JNode)
		if ok && x == y {
			return x, true
		}
		return nil, false
	}
	return nil, false
}

// mergeStates tries to merge b into a; aExtra/bExtra are value vectors (live
// registers, results) merged alongside. It returns the merged state or nil.
func (e *Exec) mergeStates(a, b *State, ax, bx []Value) (*State, []Value) {
	if len(ax) != len(bx) || a.choice != b.choice || a.nest != b.nest || a.deferGo != b.deferGo || len(a.pend)+len(b.pend) > 0 {
		return nil, nil
	}
	par, ok := mergePar(a.par, b.par)
	if !ok {
		return nil, nil
	}
	if len(a.occ) != len(b.occ) || a.curPanic != b.curPanic {
		return nil, nil
	}
	for k, v := range a.occ {
		if b.occ[k] != v {
			return nil, nil
		}
	}
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	ra, rb := a.pc[n:], b.pc[n:]
	var g *Term
	if len(ra) == 0 || len(rb) == 0 {
		return nil, nil
	}
	if ra[0] == e.b.Not(rb[0]) {
		g = ra[0]
	} else {
		g = e.b.And(ra...)
	}
	outx := make([]Value, len(ax))
	for i := range ax {
		m, ok := e.mergeVal(g, ax[i], bx[i], false)
		if !ok {
			return nil, nil
		}
		outx[i] = m
	}
	type upd struct {
		id ObjID
		o  *Obj
	}
	var upds []upd
	for id, oa := range a.heap {
		ob, ok := b.heap[id]
		if !ok {
			if bo, inBase := e.base[id]; inBase {
				ob = bo
			} else {
				continue // only a has it
			}
		}
		if oa == ob {
			continue
		}
		m, ok := e.mergeVal(g, oa.V, ob.V, false)
		if !ok {
			return nil, nil
		}
		upds = append(upds, upd{id, &Obj{V: m}})
	}
	for id, ob := range b.heap {
		if _, ok := a.heap[id]; ok {
			continue
		}
		if oa, inBase := e.base[id]; inBase {
			m, ok := e.mergeVal(g, oa.V, ob.V, false)
			if !ok {
				return nil, nil
			}
			upds = append(upds, upd{id, &Obj{V: m}})
		} else {
			upds = append(upds, upd{id, ob})
		}
	}
	if a.now != b.now {
		if a.now == nil || b.now == nil {
			return nil, nil
		}
	}
	r := a.clone()
	r.par = par
	for _, u := range upds {
		r.heap[u.id] = u.o
	}
	for k, v := range b.cnt {
		if k >= len(r.cnt) {
			r.cnt = append(r.cnt, v)
		} else if v > r.cnt[k] {
			r.cnt[k] = v
		}
	}
	if len(a.known) > 0 {
		r.known = map[*Term]uint64{}
		for k, v := range a.known {
			if w, ok := b.known[k]; ok && w == v {
				r.known[k] = v
			}
		}
	}
	r.pc = a.pc[:n:n]
	d := e.b.Or(e.b.And(ra...), e.b.And(rb...))
	e.assume(r, d)
	if a.now != b.now {
		r.now = e.b.Ite(g, a.now, b.now)
	}
	e.Stats.Merges++
	return r, outx
}

// ---- reachability ----

func (e *Exec) markVal(v Value, seen map[ObjID]bool, work *[]ObjID) {
	switch x := v.(type) {
	case Ptr:
		if !x.Nil() && !seen[x.Obj] {
			seen[x.Obj] = true
			*work = append(*work, x.Obj)
		}
	case Slice:
		e.markVal(x.Arr, seen, work)
	case *StructV:
		for _, f := range x.F {
			e.markVal(f, seen, work)
		}
	case *ArrV:
		if _, ok := x.Def.(*Term); ok {
			return
		}
		for _, f := range x.E {
			e.markVal(f, seen, work)
		}
	case Iface:
		if x.T != nil {
			e.markVal(x.V, seen, work)
		}
	case *FnV:
		if x != nil {
			for _, f := range x.Free {
				e.markVal(f, seen, work)
			}
		}
	case Tuple:
		for _, f := range x {
			e.markVal(f, seen, work)
		}
	case *MapV:
		for _, f := range x.Vals {
			e.markVal(f, seen, work)
		}
		for _, f := range x.Keys {
			e.markVal(f, seen, work)
		}
	case *ChanV:
		for _, f := range x.Buf {
			e.markVal(f, seen, work)
		}
	case *IterV:
		e.markVal(x.Map, seen, work)
		for _, f := range x.Vals {
			e.markVal(f, seen, work)
		}
	}
}

// gc drops objects allocated since entry (the allocation counters at entry)
// that are not reachable from older objects or from the roots.
func (e *Exec) gc(s *State, entry []int32, roots []Value) {
	seen := map[ObjID]bool{}
	var work []ObjID
	for _, r := range roots {
		e.markVal(r, seen, &work)
	}
	isNew := func(id ObjID) bool {
		return id.K >= 0 && (int(id.K) >= len(entry) || id.N > entry[id.K])
	}
	any := false
	for id := range s.heap {
		if isNew(id) {
			any = true
		} else if !seen[id] {
			seen[id] = true
			work = append(work, id)
		}
	}
	if !any {
		return
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		if o, ok := s.heap[id]; ok {
			e.markVal(o.V, seen, &work)
		}
	}
	for id := range s.heap {
		if !seen[id] {
			delete(s.heap, id)
		}
	}
}
