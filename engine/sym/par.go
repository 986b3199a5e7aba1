package sym

import (
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Accesses to memory that two goroutines share. Inside sv.Parallel the two
// functions run one after the other; every access to an object that both can
// reach (the package-level variables of the repository and what hangs off them
// or off the roots the harness names) is recorded. Two accesses of which one is
// a write and which no lock orders are a candidate data race; the replay with
// the race detector decides.

type parAcc struct {
	obj  ObjID
	path string
}

type parState struct {
	frozen map[ObjID]bool // what both can reach now
	ever   map[ObjID]bool // and what they could reach at some time
	second bool
	locks  int               // held for writing
	rlocks int               // held for reading
	w, a   map[parAcc]string // accesses of the first function without a lock: writes, all
	lw, la map[parAcc]string // the same with a lock
}

func (p *parState) clone() *parState {
	n := *p
	return &n
}

func addAcc(m map[parAcc]string, k parAcc, pos string) map[parAcc]string {
	if _, ok := m[k]; ok {
		return m
	}
	n := make(map[parAcc]string, len(m)+1)
	for x, y := range m {
		n[x] = y
	}
	n[k] = pos
	return n
}

func pathKey(p []PE) string {
	var sb strings.Builder
	for _, x := range p {
		if x.S != nil {
			break
		}
		sb.WriteString(itoa(x.I))
		sb.WriteByte('.')
	}
	return sb.String()
}

func hitAcc(m map[parAcc]string, k parAcc) (string, bool) {
	for x, pos := range m {
		if x.obj == k.obj && (strings.HasPrefix(x.path, k.path) || strings.HasPrefix(k.path, x.path)) {
			return pos, true
		}
	}
	return "", false
}

// access records one access to a shared object.
func (e *Exec) access(st *State, id ObjID, path []PE, write bool) {
	p := st.par
	if !p.frozen[id] && !(p.second && p.ever[id]) || e.inInit > 0 || e.inSync > 0 {
		return
	}
	if e.curIn != nil {
		if e.harnessFn(e.curIn.Parent()) {
			return // the harness' own, or a stand-in's
		}
		switch pkgOf(e.curIn.Parent()) {
		case "sync", "internal/sync", "sync/atomic", "internal/race":
			return
		}
	}
	k := parAcc{id, pathKey(path)}
	locked := p.locks > 0 || (!write && p.rlocks > 0)
	if p.second {
		// against what the first one did
		for i, m := range []map[parAcc]string{p.w, p.lw, p.a, p.la} {
			if (i%2 == 1 && locked) || (i >= 2 && !write) {
				continue
			}
			if pos, ok := hitAcc(m, k); ok {
				e.Stats.Shared++
				e.finding(st, "race", "data race between two goroutines", pos+" / "+e.curPos())
				return
			}
		}
		return
	}
	n := p.clone()
	pos := e.curPos()
	if locked {
		n.la = addAcc(n.la, k, pos)
		if write {
			n.lw = addAcc(n.lw, k, pos)
		}
	} else {
		n.a = addAcc(n.a, k, pos)
		if write {
			n.w = addAcc(n.w, k, pos)
		}
	}
	st.par = n
}

func (e *Exec) harnessFn(fn *ssa.Function) bool {
	h, ok := e.harnFn[fn]
	if !ok {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		h = isHarnessFile(e.Prog.Fset.Position(f.Pos()).Filename)
		if e.harnFn == nil {
			e.harnFn = map[*ssa.Function]bool{}
		}
		e.harnFn[fn] = h
	}
	return h
}

func isHarnessFile(f string) bool {
	return strings.HasPrefix(filepath.Base(f), "zz_verif_") || strings.Contains(f, "/verifsv/") || strings.Contains(f, "/verifswap/") || strings.Contains(f, "/stubs/")
}

// sharedObjs are the objects reachable from the repository's package-level
// variables and from the roots.
func (e *Exec) sharedObjs(st *State, roots []Value) map[ObjID]bool {
	seen := map[ObjID]bool{}
	var work []ObjID
	mod := strings.TrimSuffix(e.SVPath, "/verifsv")
	for _, p := range e.Prog.AllPackages() {
		pp := p.Pkg.Path()
		if pp != mod && !strings.HasPrefix(pp, mod+"/") || pp == e.SVPath || strings.HasPrefix(pp, mod+"/verifswap") {
			continue
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(g.Name(), "init$") || isHarnessFile(e.Prog.Fset.Position(g.Pos()).Filename) {
				continue
			}
			id := e.global(g)
			if !seen[id] {
				seen[id] = true
				work = append(work, id)
			}
		}
	}
	for _, r := range roots {
		e.markShared(r, seen, &work)
	}
	e.reachShared(st, seen, work)
	return seen
}

func (e *Exec) reachShared(st *State, seen map[ObjID]bool, work []ObjID) {
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o, ok := st.heap[id]
		if !ok {
			o, ok = e.base[id]
		}
		if ok {
			e.markShared(o.V, seen, &work)
		}
	}
}

// parPool follows a value through a pool: once it is in there the other
// goroutine can get it, and what this one still does with it is not ordered
// with that; once it is out again it belongs to the goroutine that got it.
func (e *Exec) parPool(st *State, v Value, put bool) {
	if st.par == nil {
		return
	}
	seen := map[ObjID]bool{}
	var work []ObjID
	e.markShared(v, seen, &work)
	e.reachShared(st, seen, work)
	n := st.par.clone()
	fr := map[ObjID]bool{}
	for id := range n.frozen {
		if put || !seen[id] {
			fr[id] = true
		}
	}
	n.ever = unionObj(n.ever, seen)
	if put {
		fr = unionObj(fr, seen)
	}
	n.frozen = fr
	st.par = n
}

func sameObj(a, b map[ObjID]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for id := range a {
		if !b[id] {
			return false
		}
	}
	return true
}

func unionObj(a, b map[ObjID]bool) map[ObjID]bool {
	n := make(map[ObjID]bool, len(a)+len(b))
	for id := range a {
		n[id] = true
	}
	for id := range b {
		n[id] = true
	}
	return n
}

// markShared is markVal without what the harness put there.
func (e *Exec) markShared(v Value, seen map[ObjID]bool, work *[]ObjID) {
	switch x := v.(type) {
	case Iface:
		if x.T != nil && isHarnessFile(e.Prog.Fset.Position(typePos(x.T)).Filename) {
			return
		}
		if x.T != nil {
			e.markShared(x.V, seen, work)
		}
	case *FnV:
		if x == nil || x.F != nil && isHarnessFile(e.Prog.Fset.Position(x.F.Pos()).Filename) {
			return
		}
		for _, f := range x.Free {
			e.markShared(f, seen, work)
		}
	case Slice:
		e.markShared(x.Arr, seen, work)
	case *StructV:
		for _, f := range x.F {
			e.markShared(f, seen, work)
		}
	case *ArrV:
		for _, f := range x.E {
			e.markShared(f, seen, work)
		}
	case Tuple:
		for _, f := range x {
			e.markShared(f, seen, work)
		}
	case *MapV:
		for i := range x.Vals {
			e.markShared(x.Keys[i], seen, work)
			e.markShared(x.Vals[i], seen, work)
		}
	case *ChanV:
		// what goes through a channel is handed over
	default:
		e.markVal(v, seen, work)
	}
}

// svParallel(f, g, roots...) stands for two goroutines.
func svParallel(c *ictx) []Outcome {
	e := c.e
	roots := c.variadic(2)
	var rv []Value
	for _, r := range roots {
		rv = append(rv, r)
	}
	p := &parState{frozen: e.sharedObjs(c.st, rv)}
	p.ever = p.frozen
	e.Stats.SharedObjs = len(p.frozen)
	c.st.par = p
	var outs []Outcome
	for _, o := range e.invoke(c.args[0], nil, c.st, c.depth+1) {
		if o.kind != oRet {
			outs = append(outs, o)
			continue
		}
		n := o.st.par.clone()
		n.second = true
		o.st.par = n
		for _, r := range e.invoke(c.args[1], nil, o.st, c.depth+1) {
			r.st.par = nil
			e.Stats.Asserts++
			e.Stats.AssertTriv++
			outs = append(outs, Outcome{st: r.st, kind: r.kind, pv: r.pv})
		}
	}
	return outs
}

// accessMap records an access to a map; channels order what they carry.
func (e *Exec) accessMap(st *State, p Ptr, write bool) {
	if st.par == nil || p.Nil() {
		return
	}
	if o, ok := st.heap[p.Obj]; ok {
		if _, ch := o.V.(*ChanV); ch {
			return
		}
	}
	e.access(st, p.Obj, nil, write)
}

// lockCount follows the locks the running function holds.
func (e *Exec) lockCount(st *State, fn *ssa.Function) {
	var dl, dr int
	switch fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		dl = 1
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		dl = -1
	case "(*sync.RWMutex).RLock":
		dr = 1
	case "(*sync.RWMutex).RUnlock":
		dr = -1
	default:
		return
	}
	n := st.par.clone()
	if n.locks += dl; n.locks < 0 {
		n.locks = 0
	}
	if n.rlocks += dr; n.rlocks < 0 {
		n.rlocks = 0
	}
	st.par = n
}

func unionAcc(x, y map[parAcc]string) map[parAcc]string {
	n := x
	for k, p := range y {
		n = addAcc(n, k, p)
	}
	return n
}

func mergePar(a, b *parState) (*parState, bool) {
	if a == b {
		return a, true
	}
	if a == nil || b == nil || a.second != b.second || a.locks != b.locks || a.rlocks != b.rlocks {
		return nil, false
	}
	n := a.clone()
	if !sameObj(a.frozen, b.frozen) || !sameObj(a.ever, b.ever) {
		n.frozen, n.ever = unionObj(a.frozen, b.frozen), unionObj(a.ever, b.ever)
	}
	n.w, n.a, n.lw, n.la = unionAcc(a.w, b.w), unionAcc(a.a, b.a), unionAcc(a.lw, b.lw), unionAcc(a.la, b.la)
	return n, true
}

func typePos(t types.Type) token.Pos {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pos()
	}
	return token.NoPos
}
