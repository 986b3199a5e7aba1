package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type unsupErr struct{ msg string }

func (u unsupErr) Error() string { return u.msg }

func unsup(f string, a ...interface{}) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }

// splitReq asks the runner to fork the current path: one copy per condition.
// If T is set, copy i knows T to have the value Vals[i].
type splitReq struct {
	conds  []*Term
	T      *Term
	Vals   []uint64
	Choice bool
}

type notPure struct{}
type deadPath struct{}
type stopAll struct{ why string }

type PanicVal struct {
	V    Value // Iface
	Msg  string
	Pos  string
	Exit bool // os.Exit / log.Fatal
}

type outKind int

const (
	oRet outKind = iota
	oPanic
	oExit
)

type Outcome struct {
	st   *State
	kind outKind
	vals []Value
	pv   *PanicVal
}

type ExecStats struct {
	Steps      int
	Forks      int
	Merges     int
	Paths      int
	Splits     int
	IfConv     int
	Asserts    int // assertion instances
	AssertUn   int // discharged by the solver (unsat)
	AssertTriv int // discharged by simplification
	Shared     int // conflicting accesses to shared memory
	SharedObjs int // objects two goroutines can both reach
	Unsup      int
}

// Finding is a candidate violation or an incompleteness of the exploration.
type Finding struct {
	Kind  string // assert, panic, exit, unwind, unsupported, unknown, bound
	Msg   string
	Pos   string
	Model Model
}

type Limits struct {
	Deadline time.Time
	Grace    time.Duration // time left after the first candidate, 0: no limit
	Visits   int           // block executions per activation and path
	Depth    int
	Conc     int // number of values a term may be concretised to
}

type Exec struct {
	harnFn   map[*ssa.Function]bool
	ForkStat map[string]int  // forks by place
	curIn    ssa.Instruction // instruction being executed
	Prog     *ssa.Program
	b        *B
	S        *Solver
	base     map[ObjID]*Obj
	keys     map[string]int32
	tmap     typeutil.Map
	tn       int
	canon    typeutil.Map

	globals map[*ssa.Global]ObjID
	pkgDone map[*ssa.Package]bool
	inGo    int
	inSync  int // inside the model of a synchronisation operation
	inInit  int
	initSt  *State
	initTop []*ssa.Function

	infos map[*ssa.Function]*fnInfo
	impl  map[string]bool

	Stats     ExecStats
	Lim       Limits
	Probes    []Finding
	goCur     int // the running goroutine, 0 for the first
	goSeq     int
	goBlocked map[int]int
	probed    map[string]int
	Findings  []Finding
	Reached   map[string]bool
	Encoded   map[string]int
	Stubbed   map[string]int
	Notes     map[string]int
	msgCount  map[string]int
	Sizes     types.Sizes
	Trace     bool
	SVPath    string
	lastChk   int
	clockVar  map[string]bool
	RepoPref  string
	// AllPaths: stop after the first N findings per message
	MaxPerMsg int
	Thorough  bool
	Finals    []Model
	FinalMax  int
}

func NewExec(prog *ssa.Program, svPath string) *Exec {
	b := NewB()
	e := &Exec{Prog: prog, b: b, S: NewSolver(b), base: map[ObjID]*Obj{}, keys: map[string]int32{},
		globals: map[*ssa.Global]ObjID{}, pkgDone: map[*ssa.Package]bool{}, infos: map[*ssa.Function]*fnInfo{},
		impl: map[string]bool{}, Reached: map[string]bool{}, Encoded: map[string]int{}, Stubbed: map[string]int{},
		Notes: map[string]int{}, msgCount: map[string]int{}, SVPath: svPath, MaxPerMsg: 2}
	e.initSt = newState()
	e.Sizes = types.SizesFor("gc", "amd64")
	e.goBlocked = map[int]int{}
	e.Lim = Limits{Visits: 6000, Depth: 120, Conc: 80}
	e.Trace = os.Getenv("SYM_TRACE") != ""
	return e
}

func (e *Exec) typeID(t types.Type) int {
	if v := e.tmap.At(t); v != nil {
		return v.(int)
	}
	e.tn++
	e.tmap.Set(t, e.tn)
	return e.tn
}

func (e *Exec) can(t types.Type) types.Type {
	t = types.Unalias(t)
	if v := e.canon.At(t); v != nil {
		return v.(types.Type)
	}
	e.canon.Set(t, t)
	return t
}

// ---- per-function information ----

type fnInfo struct {
	reg    map[ssa.Value]int
	n      int
	rpo    []int
	liveIn [][]int
}

func (e *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	inf := &fnInfo{reg: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		inf.reg[v] = inf.n
		inf.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	nb := len(fn.Blocks)
	// loop depth from natural loops
	depth := make([]int, nb)
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) { // back edge b->h
				in := map[*ssa.BasicBlock]bool{h: true}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if in[x] {
						continue
					}
					in[x] = true
					st = append(st, x.Preds...)
				}
				for x := range in {
					depth[x.Index]++
				}
			}
		}
	}
	inf.rpo = make([]int, nb)
	seen := make([]bool, nb)
	cnt := nb
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth[ss[i].Index] < depth[ss[j].Index] })
		for _, s := range ss {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		cnt--
		inf.rpo[b.Index] = cnt
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
		for _, b := range fn.Blocks {
			if !seen[b.Index] {
				dfs(b)
			}
		}
	}
	// liveness
	use := make([]map[int]bool, nb)
	def := make([]map[int]bool, nb)
	phiUse := make([]map[int]bool, nb) // uses on outgoing edges
	for i := range use {
		use[i], def[i], phiUse[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for k, ed := range phi.Edges {
					if r, ok := inf.reg[ed]; ok {
						phiUse[b.Preds[k].Index][r] = true
					}
				}
				// phi registers are assigned on the edge: live-in of b
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if r, ok := inf.reg[*op]; ok && !def[b.Index][r] {
					use[b.Index][r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[b.Index][inf.reg[v]] = true
			}
		}
	}
	live := make([]map[int]bool, nb)
	for i := range live {
		live[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := nb - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			l := live[k]
			out := map[int]bool{}
			for r := range phiUse[k] {
				out[r] = true
			}
			for _, s := range b.Succs {
				phis := map[int]bool{}
				for _, in := range s.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						phis[inf.reg[p]] = true
					} else {
						break
					}
				}
				for r := range live[s.Index] {
					if !phis[r] {
						out[r] = true
					}
				}
			}
			for r := range out {
				if !def[k][r] && !l[r] {
					l[r] = true
					ch = true
				}
			}
			for r := range use[k] {
				if !l[r] {
					l[r] = true
					ch = true
				}
			}
		}
	}
	// phi registers used in their own block or later are in use/live already;
	// a phi that is live anywhere must be kept when merging at its block
	inf.liveIn = make([][]int, nb)
	for k, b := range fn.Blocks {
		m := map[int]bool{}
		for r := range live[k] {
			m[r] = true
		}
		// phi defined in b may be used only via live-out
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			r := inf.reg[p]
			if use[k][r] || phiUse[k][r] {
				m[r] = true
			}
			for _, s := range b.Succs {
				if live[s.Index][r] {
					m[r] = true
				}
			}
		}
		for r := range m {
			inf.liveIn[k] = append(inf.liveIn[k], r)
		}
		sort.Ints(inf.liveIn[k])
	}
	e.infos[fn] = inf
	return inf
}

// ---- activations and threads ----

type deferRec struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

type thread struct {
	st     *State
	regs   []Value
	blk    *ssa.BasicBlock
	idx    int
	defers []deferRec
	visits int
}

func (t *thread) clone() *thread {
	return &thread{st: t.st.clone(), regs: append([]Value(nil), t.regs...), blk: t.blk, idx: t.idx,
		defers: t.defers[:len(t.defers):len(t.defers)], visits: t.visits}
}

type act struct {
	e      *Exec
	fn     *ssa.Function
	inf    *fnInfo
	depth  int
	work   []*thread
	outs   []Outcome
	pure   bool
	entry  []int32
	init   bool
	forks0 int // forks at entry
}

func (e *Exec) forkAt(kind string, in ssa.Instruction) {
	if e.ForkStat == nil {
		e.ForkStat = map[string]int{}
	}
	e.ForkStat[kind+" "+in.Parent().String()+" "+e.pos(in.Pos())]++
}

func (e *Exec) tick() {
	e.Stats.Steps++
	if e.Stats.Steps-e.lastChk > 2000 {
		e.lastChk = e.Stats.Steps
		e.checkTime()
	}
}

func (e *Exec) checkTime() {
	if !e.Lim.Deadline.IsZero() && e.inInit == 0 && time.Now().After(e.Lim.Deadline) {
		panic(stopAll{"time budget exhausted"})
	}
}

// callFn executes fn and returns its outcomes.
func (e *Exec) callFn(fn *ssa.Function, args []Value, free []Value, st *State, depth int) []Outcome {
	if in := e.intrinsic(fn); in != nil {
		// an intrinsic that returns nothing leaves the call to the body
		if st.par != nil {
			switch pkgOf(fn) {
			case "sync", "sync/atomic", "internal/sync", "internal/runtime/atomic":
				e.inSync++
				defer func() { e.inSync-- }()
			}
		}
		if o := in(&ictx{e: e, st: st, fn: fn, args: args, depth: depth}); o != nil {
			e.Stubbed[fn.String()]++
			return o
		}
	}
	if fn.Blocks == nil {
		panic(unsup("no body: %s", fn.String()))
	}
	if st.par != nil {
		e.lockCount(st, fn)
		if fn.String() == "(*sync.Once).doSlow" {
			// everyone else waits for it
			e.inSync++
			defer func() { e.inSync-- }()
		}
	}
	if depth > e.Lim.Depth {
		e.finding(st, "unwind", "unbounded recursion in "+fn.String(), "")
		panic(unsup("call depth limit in %s", fn.String()))
	}
	if e.inInit == 0 {
		e.Encoded[fn.String()]++
	}
	a := &act{e: e, fn: fn, inf: e.info(fn), depth: depth, entry: append([]int32(nil), st.cnt...), forks0: e.Stats.Forks + e.Stats.Splits}
	if e.inInit > 0 && len(e.initTop) > 0 && e.initTop[len(e.initTop)-1] == fn {
		a.init = true
	}
	th := &thread{st: st, regs: make([]Value, a.inf.n), blk: fn.Blocks[0]}
	if len(args) != len(fn.Params) {
		panic(unsup("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, v := range args {
		th.regs[i] = v
	}
	for i, v := range free {
		th.regs[len(fn.Params)+i] = v
	}
	a.work = append(a.work, th)
	for len(a.work) > 0 {
		// pick the thread with the smallest block order; continuations first
		best := 0
		for i := 1; i < len(a.work); i++ {
			x, y := a.work[i], a.work[best]
			rx, ry := a.inf.rpo[x.blk.Index], a.inf.rpo[y.blk.Index]
			if rx < ry || (rx == ry && x.idx > y.idx) {
				best = i
			}
		}
		th := a.work[best]
		copy(a.work[best:], a.work[best+1:]) // oldest first among equals
		a.work[len(a.work)-1] = nil
		a.work = a.work[:len(a.work)-1]
		a.run(th)
	}
	return a.finish()
}

func (a *act) finish() []Outcome {
	e := a.e
	outs := a.outs
	if len(outs) == 1 {
		o := outs[0]
		if len(o.st.heap) > 400 {
			e.gcOut(o, a.entry)
		}
		return outs
	}
	for _, o := range outs {
		e.gcOut(o, a.entry)
	}
	var res []Outcome
	for _, o := range outs {
		merged := false
		if o.kind == oRet {
			for i := len(res) - 1; i >= 0 && i >= len(res)-40; i-- {
				r := res[i]
				if r.kind != oRet {
					continue
				}
				if st, vals := e.mergeStates(r.st, o.st, r.vals, o.vals); st != nil {
					res[i] = Outcome{st: st, kind: oRet, vals: vals}
					merged = true
					break
				}
			}
		}
		if !merged {
			res = append(res, o)
		}
	}
	return res
}

func (e *Exec) gcOut(o Outcome, entry []int32) {
	roots := append([]Value(nil), o.vals...)
	if o.pv != nil {
		roots = append(roots, o.pv.V)
	}
	if o.st.curPanic != nil {
		roots = append(roots, o.st.curPanic.V)
	}
	e.gc(o.st, entry, roots)
	// counters of types whose new objects are all gone go back
	mx := make([]int32, len(o.st.cnt))
	copy(mx, entry)
	for id := range o.st.heap {
		if id.K >= 0 && int(id.K) < len(mx) && id.N > mx[id.K] {
			mx[id.K] = id.N
		}
	}
	o.st.cnt = mx
}

// push queues a thread at a block entry, merging it with a waiting one.
func (a *act) push(th *thread) {
	e := a.e
	if th.idx == 0 {
		live := a.inf.liveIn[th.blk.Index]
		// clear dead registers
		nr := make([]Value, len(th.regs))
		for _, r := range live {
			nr[r] = th.regs[r]
		}
		th.regs = nr
		th.visits++
		if th.visits == 150 || th.visits == 5000 {
			e.probe(th.st, a.fn, e.pos(th.blk.Instrs[0].Pos()))
		}
		// loops that hardly fork get a much larger bound
		lim := e.Lim.Visits
		if e.Stats.Forks+e.Stats.Splits-a.forks0 < 300 {
			lim = 4000000
		}
		if th.visits > lim {
			e.finding(th.st, "unwind", "loop bound exceeded in "+a.fn.String(), e.pos(th.blk.Instrs[0].Pos()))
			return
		}
		for i, w := range a.work {
			if w.blk != th.blk || w.idx != 0 || !sameDefers(w.defers, th.defers) {
				continue
			}
			if st, regs := e.mergeStates(w.st, th.st, w.regs, th.regs); st != nil {
				v := w.visits
				if th.visits > v {
					v = th.visits
				}
				a.work[i] = &thread{st: st, regs: regs, blk: w.blk, defers: w.defers, visits: v}
				return
			}
		}
	}
	a.work = append(a.work, th)
}

func sameDefers(a, b []deferRec) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) == 0 || &a[0] == &b[0] {
		return true
	}
	return false
}

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// finding records a candidate with a model of the path condition.
func (e *Exec) finding(st *State, kind, msg, pos string, extra ...*Term) {
	if e.inInit > 0 {
		return
	}
	key := kind + "|" + msg + "|" + pos
	e.msgCount[key]++
	if e.msgCount[key] > e.MaxPerMsg {
		return
	}
	conj := append(append([]*Term(nil), st.pc...), extra...)
	v, ev := e.decide(conj)
	if v == Unsat {
		e.msgCount[key]--
		return
	}
	f := Finding{Kind: kind, Msg: msg, Pos: pos}
	if v == Sat && ev != nil {
		f.Model = e.userModel(ev)
	}
	if v == Unknown {
		f.Kind = "unknown:" + kind
	}
	e.Findings = append(e.Findings, f)
	// once there is a candidate the rest of the exploration is a bonus
	if t := time.Now().Add(e.Lim.Grace); e.Lim.Grace > 0 && (kind == "assert" || kind == "panic" || kind == "exit" || kind == "race") && t.Before(e.Lim.Deadline) {
		e.Lim.Deadline = t
	}
}

// probe records a model of a path that is deep in a loop. It is no finding by
// itself: the replay tells whether the real code ever leaves the loop.
func (e *Exec) probe(st *State, fn *ssa.Function, pos string) {
	if e.inInit > 0 || len(e.Probes) > 40 {
		return
	}
	if e.probed == nil {
		e.probed = map[string]int{}
	}
	k := fn.String() + pos
	if e.probed[k]++; e.probed[k] > 3 {
		return
	}
	if v, ev := e.decide(st.pc); v == Sat && ev != nil {
		e.Probes = append(e.Probes, Finding{Kind: "loop", Msg: "never leaves a loop in " + fn.String(), Pos: pos, Model: e.userModel(ev)})
	}
}

func (e *Exec) userModel(ev *Evaluator) Model {
	m := Model{}
	for _, t := range e.b.vars {
		if strings.HasPrefix(t.Name, "$") {
			continue
		}
		if x, ok := ev.M[t.Name]; ok {
			m[t.Name] = x
		}
	}
	return m
}

// decide settles a conjunction, floats included.
func (e *Exec) decide(conj []*Term) (Verdict, *Evaluator) {
	fl := false
	for _, c := range conj {
		if c.hasFloat {
			fl = true
		}
	}
	if !fl {
		v, ev := e.S.Check(conj)
		if v == Unknown {
			v, ev = e.S.OneShot(conj, 60*time.Second, false)
		}
		return v, ev
	}
	v, ev := e.S.OneShot(conj, 60*time.Second, false)
	if v == Sat && ev != nil {
		// the relaxation may be too weak: check the model exactly
		ok := true
		for _, c := range conj {
			if !ev.Bool(c) {
				ok = false
			}
		}
		if ok {
			return v, ev
		}
		if ev := e.nudge(conj, ev); ev != nil {
			return v, ev
		}
		v2, ev2 := e.S.OneShot(conj, 60*time.Second, true)
		return v2, ev2
	}
	return v, ev
}

// nudge looks for an exact model of a conjunction near the one the relaxation
// gave; a model it returns satisfies every conjunct under exact evaluation.
func (e *Exec) nudge(conj []*Term, ev *Evaluator) *Evaluator {
	var vs []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == OVar && t.hasFloat == (t.W == WFloat) {
			vs = append(vs, t)
		}
		for _, a := range t.A {
			walk(a)
		}
	}
	for _, c := range conj {
		if c.hasFloat {
			walk(c)
		}
	}
	if len(vs) == 0 {
		return nil
	}
	x := uint64(0x9e3779b97f4a7c15)
	rnd := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	end := time.Now().Add(2 * time.Second)
	for k := 0; k < 20000 && (k&63 != 0 || time.Now().Before(end)); k++ {
		m := Model{}
		for n, v := range ev.M {
			m[n] = v
		}
		for n := 1 + rnd()%2; n > 0; n-- {
			t := vs[rnd()%uint64(len(vs))]
			v := m[t.Name]
			switch rnd() % 4 {
			case 0:
				v += rnd()%33 - 16
			case 1:
				if t.W == WFloat {
					v ^= rnd() >> 20
				} else {
					v = rnd()
				}
			case 2:
				v ^= 1 << (rnd() % 64)
			default:
				if t.W == WFloat {
					v = math.Float64bits(math.Float64frombits(v) * (1 + float64(rnd()%2000)/1000 - 1))
				} else {
					v = rnd() >> (rnd() % 64)
				}
			}
			if t.W > 0 {
				v &= mask(t.W)
			} else if t.W == 0 {
				v &= 1
			}
			m[t.Name] = v
		}
		ne := NewEvaluator(m)
		ok := true
		for _, c := range conj {
			if !ne.Bool(c) {
				ok = false
				break
			}
		}
		if ok {
			return ne
		}
	}
	return nil
}

// feas decides whether the path condition and extra are satisfiable together.
// The path condition itself is satisfiable, so only its conjuncts that share
// variables (transitively) with extra matter.
func (e *Exec) feas(st *State, extra ...*Term) Verdict {
	var ex []*Term
	for _, c := range extra {
		if c == e.b.False {
			return Unsat
		}
		if !c.hasFloat {
			ex = append(ex, c)
		}
	}
	e.checkTime()
	v, _ := e.S.Check(append(e.relevant(st, ex), ex...))
	return v
}

// relevant returns the float-free conjuncts of the path condition connected to
// the given terms through shared variables, in path order.
func (e *Exec) relevant(st *State, ts []*Term) []*Term {
	pc := make([]*Term, 0, len(st.pc)+len(ts))
	for _, c := range st.pc {
		if !c.hasFloat {
			pc = append(pc, c)
		}
	}
	if len(ts) == 0 {
		return pc
	}
	var seen varSet
	for _, t := range ts {
		seen = seen.union(e.b.varsOf(t))
	}
	in := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if in[i] {
				continue
			}
			vs := e.b.varsOf(c)
			if seen.meets(vs) {
				in[i] = true
				changed = true
				seen = seen.union(vs)
			}
		}
	}
	out := pc[:0]
	for i, c := range pc {
		if in[i] {
			out = append(out, c)
		}
	}
	return out
}

func (a *act) get(th *thread, v ssa.Value) Value {
	if r, ok := a.inf.reg[v]; ok {
		x := th.regs[r]
		if p, bad := x.(Poison); bad && !a.init {
			panic(unsup("use of poison: %s", p.Why))
		}
		if x == nil {
			panic(unsup("unset register %s in %s", v.Name(), a.fn))
		}
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		return a.e.constVal(x)
	case *ssa.Global:
		return Ptr{Obj: a.e.global(x)}
	case *ssa.Function:
		return &FnV{F: x}
	case *ssa.Builtin:
		return &FnV{B: x}
	}
	panic(unsup("operand %T", v))
}

func (e *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	t := c.Type().Underlying()
	if isString(t) {
		if c.Value.Kind() == constant.Int {
			r, _ := constant.Int64Val(c.Value)
			return e.strConst(string(rune(r)))
		}
		return e.strConst(constant.StringVal(c.Value))
	}
	if isFloat32(t) {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return e.b.FConst(float64(float32(f)))
	}
	w, _, ok := typeWidth(t)
	if !ok {
		return Poison{"constant of " + c.Type().String()}
	}
	switch {
	case w == 0:
		return e.b.Bool(constant.BoolVal(c.Value))
	case w == WFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return e.b.FConst(f)
	}
	iv := constant.ToInt(c.Value)
	if u, ok := constant.Uint64Val(iv); ok {
		return e.b.Const(w, u)
	}
	i, _ := constant.Int64Val(iv)
	return e.b.Const(w, uint64(i))
}

func (e *Exec) global(g *ssa.Global) ObjID {
	if g.Pkg != nil {
		e.initPkg(g.Pkg)
	}
	return e.globalID(g)
}

func (e *Exec) globalID(g *ssa.Global) ObjID {
	if id, ok := e.globals[g]; ok {
		return id
	}
	id := ObjID{-1, int32(len(e.globals) + 1)}
	e.globals[g] = id
	if _, ok := e.base[id]; !ok {
		e.base[id] = &Obj{V: e.zero(g.Type().(*types.Pointer).Elem())}
	}
	return id
}

func (e *Exec) initPkg(p *ssa.Package) {
	if e.pkgDone[p] {
		return
	}
	e.pkgDone[p] = true
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	e.inInit++
	e.initTop = append(e.initTop, f)
	saveV := e.Lim.Visits
	e.Lim.Visits = 100000
	defer func() {
		e.Lim.Visits = saveV
		e.inInit--
		e.initTop = e.initTop[:len(e.initTop)-1]
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				e.Notes["init of "+p.Pkg.Path()+": "+u.msg]++
				return
			}
			panic(r)
		}
	}()
	e.callFn(f, nil, nil, e.initSt, 0)
}

// run executes a thread until its block ends.
func (a *act) run(th *thread) {
	for {
		if th == nil {
			return
		}
		th = a.runSome(th)
	}
}

// runSome executes instructions; it returns a thread to continue with, or nil.
func (a *act) runSome(th *thread) (cont *thread) {
	e := a.e
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		cont = nil
		switch x := r.(type) {
		case splitReq:
			e.Stats.Splits++
			e.forkAt("split", th.blk.Instrs[th.idx])
			n := 0
			for i, c := range x.conds {
				c = e.simp(th.st, c)
				if c == e.b.False {
					continue
				}
				if c != e.b.True && e.feas(th.st, c) == Unsat {
					continue
				}
				t := th.clone()
				e.assume(t.st, c)
				if x.T != nil && x.Vals != nil {
					t.st.setKnown(x.T, x.Vals[i])
				}
				if x.Choice {
					t.st.choice = (t.st.choice*1000003 + uint64(x.T.ID) + 1) * 1000003
					t.st.choice += x.Vals[i] + 1
				}
				n++
				a.work = append(a.work, t)
			}
			if n == 0 {
				return
			}
		case symIndexSplit:
			e.Stats.Splits++
			e.forkAt("symindex", th.blk.Instrs[th.idx])
			if ld, ok := th.blk.Instrs[th.idx].(*ssa.UnOp); ok && x.arr != nil && ld.Op == token.MUL {
				for _, g := range e.groups(x) {
					if e.feas(th.st, g.c) == Unsat {
						continue
					}
					t := th.clone()
					e.assume(t.st, g.c)
					if g.n == 1 {
						t.st.setKnown(x.pe.S, uint64(int64(g.first-x.pe.I)))
					}
					t.regs[a.inf.reg[ssa.Value(ld)]] = g.v
					t.idx++
					a.work = append(a.work, t)
				}
				return
			}
			for i := x.lo; i <= x.hi; i++ {
				c := e.b.Eq(x.pe.S, e.b.Const(x.pe.S.W, uint64(int64(i-x.pe.I))))
				if c == e.b.False || e.feas(th.st, c) == Unsat {
					continue
				}
				t := th.clone()
				e.assume(t.st, c)
				t.st.setKnown(x.pe.S, uint64(int64(i-x.pe.I)))
				a.work = append(a.work, t)
			}
		case deadPath:
			return
		case unsupErr:
			if a.init && th.idx < len(th.blk.Instrs) {
				in := th.blk.Instrs[th.idx]
				if v, ok := in.(ssa.Value); ok {
					th.regs[a.inf.reg[v]] = Poison{x.msg}
				}
				e.Notes["init "+a.fn.Pkg.Pkg.Path()+": "+x.msg]++
				switch in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
					return
				}
				th.idx++
				cont = th
				return
			}
			if e.inInit > 0 {
				panic(r)
			}
			e.Stats.Unsup++
			pos := ""
			if th.idx < len(th.blk.Instrs) {
				pos = e.pos(th.blk.Instrs[th.idx].Pos())
			}
			e.finding(th.st, "unsupported", x.msg+" in "+a.fn.String(), pos)
		default:
			panic(r)
		}
	}()
	for th.idx < len(th.blk.Instrs) {
		e.tick()
		in := th.blk.Instrs[th.idx]
		switch x := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
			th.idx++
			continue
		case *ssa.Jump:
			a.jump(th, th.blk.Succs[0])
			return nil
		case *ssa.If:
			a.branch(th, x)
			return nil
		case *ssa.Return:
			vals := make([]Value, len(x.Results))
			for i, r := range x.Results {
				vals[i] = a.get(th, r)
			}
			a.outs = append(a.outs, Outcome{st: th.st, kind: oRet, vals: vals})
			return nil
		case *ssa.Panic:
			v := a.get(th, x.X)
			a.panicNow(th, &PanicVal{V: v, Msg: e.panicMsg(th.st, v), Pos: e.pos(x.Pos())})
			return nil
		case *ssa.Call:
			outs := a.call(th, &x.Call, x)
			if th = a.resume(th, outs, x); th == nil {
				return nil
			}
			continue
		case *ssa.UnOp, *ssa.Send, *ssa.Select:
			// what would wait lets the waiting goroutines run first
			if th.st.deferGo && len(th.st.pend) > 0 && a.wouldBlock(th, in) {
				outs := e.runBlocked(th.st, a.depth+1)
				if th = a.resumeAt(th, outs, nil, th.idx); th == nil {
					return nil
				}
				continue
			}
		case *ssa.Go:
			fnv, args := a.callee(th, &x.Call)
			if th.st.deferGo {
				th.st.pend = append(th.st.pend, pendGo{fnv, args})
				th.idx++
				continue
			}
			outs := e.invokeGo(fnv, args, th.st, a.depth+1)
			e.Notes["goroutine run to completion at its go statement in "+a.fn.String()]++
			if th = a.resume(th, outs, nil); th == nil {
				return nil
			}
			continue
		case *ssa.Defer:
			fnv, args := a.callee(th, &x.Call)
			th.defers = append(th.defers[:len(th.defers):len(th.defers)], deferRec{fn: fnv, args: args})
			th.idx++
			continue
		case *ssa.RunDefers:
			if len(th.defers) == 0 {
				th.idx++
				continue
			}
			d := th.defers[len(th.defers)-1]
			th.defers = th.defers[:len(th.defers)-1]
			saved := th.st.curPanic
			th.st.curPanic = nil
			outs := e.invoke(d.fn, d.args, th.st, a.depth+1)
			for _, o := range outs {
				if o.kind == oRet {
					o.st.curPanic = saved
				}
			}
			th2 := a.resumeAt(th, outs, nil, th.idx) // re-run RunDefers
			if th2 == nil {
				return nil
			}
			th = th2
			continue
		}
		e.curIn = in
		if !a.step(th, in) {
			return nil
		}
		th.idx++
	}
	panic(unsup("fell off block"))
}

// resume continues after a call with its outcomes.
func (a *act) resume(th *thread, outs []Outcome, res ssa.Value) *thread {
	return a.resumeAt(th, outs, res, th.idx+1)
}

func (a *act) resumeAt(th *thread, outs []Outcome, res ssa.Value, idx int) *thread {
	var first *thread
	for i, o := range outs {
		t := th
		if i < len(outs)-1 {
			t = &thread{regs: append([]Value(nil), th.regs...), blk: th.blk, idx: th.idx,
				defers: th.defers[:len(th.defers):len(th.defers)], visits: th.visits}
		}
		t.st = o.st
		switch o.kind {
		case oRet:
			if res != nil {
				switch len(o.vals) {
				case 0:
					t.regs[a.inf.reg[res]] = Tuple{}
				case 1:
					t.regs[a.inf.reg[res]] = o.vals[0]
				default:
					t.regs[a.inf.reg[res]] = Tuple(o.vals)
				}
			}
			t.idx = idx
			if first == nil && i == len(outs)-1 {
				first = t
			} else {
				a.work = append(a.work, t)
			}
		case oPanic:
			t.idx = idx
			a.panicNow(t, o.pv)
		case oExit:
			a.outs = append(a.outs, o)
		}
	}
	return first
}

// panicNow unwinds: runs deferred calls and leaves the function.
func (a *act) panicNow(th *thread, pv *PanicVal) {
	e := a.e
	if a.pure {
		panic(notPure{})
	}
	if len(th.defers) == 0 {
		a.outs = append(a.outs, Outcome{st: th.st, kind: oPanic, pv: pv})
		return
	}
	d := th.defers[len(th.defers)-1]
	th.defers = th.defers[:len(th.defers)-1]
	saved := th.st.curPanic
	th.st.curPanic = pv
	outs := e.invoke(d.fn, d.args, th.st, a.depth+1)
	for i, o := range outs {
		t := &thread{st: o.st, regs: append([]Value(nil), th.regs...), blk: th.blk, idx: th.idx,
			defers: th.defers[:len(th.defers):len(th.defers)], visits: th.visits}
		_ = i
		switch o.kind {
		case oRet:
			if o.st.curPanic == pv {
				o.st.curPanic = saved
				a.panicNow(t, pv)
				continue
			}
			// recovered
			o.st.curPanic = saved
			if a.fn.Recover != nil {
				t.blk = a.fn.Recover
				t.idx = 0
				a.work = append(a.work, t)
				continue
			}
			var vals []Value
			rs := a.fn.Signature.Results()
			// run the remaining deferred calls, then return zero values
			t.idx = -1
			a.recoverReturn(t, rs, vals)
		case oPanic:
			a.panicNow(t, o.pv)
		case oExit:
			a.outs = append(a.outs, o)
		}
	}
}

func (a *act) recoverReturn(th *thread, rs *types.Tuple, _ []Value) {
	e := a.e
	if len(th.defers) > 0 {
		d := th.defers[len(th.defers)-1]
		th.defers = th.defers[:len(th.defers)-1]
		for _, o := range e.invoke(d.fn, d.args, th.st, a.depth+1) {
			t := &thread{st: o.st, regs: th.regs, blk: th.blk, defers: th.defers[:len(th.defers):len(th.defers)]}
			switch o.kind {
			case oRet:
				a.recoverReturn(t, rs, nil)
			case oPanic:
				a.panicNow(t, o.pv)
			default:
				a.outs = append(a.outs, o)
			}
		}
		return
	}
	var vals []Value
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, e.zero(rs.At(i).Type()))
	}
	a.outs = append(a.outs, Outcome{st: th.st, kind: oRet, vals: vals})
}

func (e *Exec) panicMsg(st *State, v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.V.(*Str); ok {
			if c, ok := concStr(s); ok {
				return "panic: " + c
			}
		}
		if i.T != nil {
			return "panic: value of type " + i.T.String()
		}
	}
	return "panic"
}

// jump moves a thread to a successor, evaluating phis.
func (a *act) jump(th *thread, to *ssa.BasicBlock) {
	a.enter(th, th.blk, to)
	a.push(th)
}

func (a *act) enter(th *thread, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	var upd []struct {
		r int
		v Value
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		upd = append(upd, struct {
			r int
			v Value
		}{a.inf.reg[p], a.getPhi(th, p.Edges[k])})
	}
	for _, u := range upd {
		th.regs[u.r] = u.v
	}
	th.blk = to
	th.idx = 0
}

// getPhi tolerates unset registers (dead values on some edges).
func (a *act) getPhi(th *thread, v ssa.Value) Value {
	if r, ok := a.inf.reg[v]; ok {
		return th.regs[r]
	}
	return a.get(th, v)
}

func (a *act) branch(th *thread, in *ssa.If) {
	e := a.e
	c := e.simp(th.st, a.get(th, in.Cond).(*Term))
	t, f := th.blk.Succs[0], th.blk.Succs[1]
	if c == e.b.True {
		a.jump(th, t)
		return
	}
	if c == e.b.False {
		a.jump(th, f)
		return
	}
	if a.ifConvert(th, c, t, f) {
		return
	}
	var vt, vf Verdict
	if c.hasFloat {
		vt, vf = Unknown, Unknown
	} else {
		vt = e.feas(th.st, c)
		if vt == Unsat {
			vf = Sat
		} else {
			vf = e.feas(th.st, e.b.Not(c))
		}
	}
	if vt == Unsat {
		a.jump(th, f)
		return
	}
	if vf == Unsat {
		a.jump(th, t)
		return
	}
	e.Stats.Forks++
	e.forkAt("branch", in)
	th2 := th.clone()
	e.assume(th.st, c)
	e.assume(th2.st, e.b.Not(c))
	a.jump(th, t)
	a.jump(th2, f)
}

// ifConvert evaluates both sides of a small side-effect-free branch and joins
// the results with if-then-else terms, without asking the solver.
func (a *act) ifConvert(th *thread, c *Term, t, f *ssa.BasicBlock) bool {
	var join *ssa.BasicBlock
	var tb, fb *ssa.BasicBlock // side blocks, nil if the edge goes to join
	simple := func(b *ssa.BasicBlock) bool {
		if len(b.Preds) != 1 || len(b.Succs) != 1 || len(b.Instrs) > 12 {
			return false
		}
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Jump)
		return ok
	}
	switch {
	case simple(t) && simple(f) && t.Succs[0] == f.Succs[0]:
		join, tb, fb = t.Succs[0], t, f
	case simple(t) && t.Succs[0] == f:
		join, tb = f, t
	case simple(f) && f.Succs[0] == t:
		join, fb = t, f
	default:
		return false
	}
	if join == th.blk {
		return false
	}
	side := func(b *ssa.BasicBlock) ([]Value, bool) {
		s := &thread{st: th.st, regs: append([]Value(nil), th.regs...), blk: th.blk}
		from := th.blk
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case notPure, splitReq, symIndexSplit, unsupErr:
						ok = false
					default:
						panic(r)
					}
				}
			}()
			if b != nil {
				a.enter(s, th.blk, b)
				from = b
				a.pure = true
				defer func() { a.pure = false }()
				for _, in := range b.Instrs {
					switch in.(type) {
					case *ssa.DebugRef, *ssa.Jump, *ssa.Phi:
						continue
					case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr,
						*ssa.IndexAddr, *ssa.Index, *ssa.MakeInterface, *ssa.ChangeInterface:
					case *ssa.UnOp:
						if in.(*ssa.UnOp).Op == token.ARROW {
							return false
						}
					default:
						return false
					}
					if cv, isC := in.(*ssa.Convert); isC && !numericConv(cv) {
						return false
					}
					a.e.tick()
					if !a.step(s, in) {
						return false
					}
				}
			}
			a.enter(s, from, join)
			return true
		}()
		return s.regs, ok
	}
	rt, ok := side(tb)
	if !ok {
		return false
	}
	rf, ok := side(fb)
	if !ok {
		return false
	}
	out := make([]Value, len(th.regs))
	for _, r := range a.inf.liveIn[join.Index] {
		m, ok := a.e.mergeVal(c, rt[r], rf[r], false)
		if !ok {
			return false
		}
		out[r] = m
	}
	a.e.Stats.IfConv++
	th.regs = out
	th.blk = join
	th.idx = 0
	a.push(th)
	return true
}

func numericConv(c *ssa.Convert) bool {
	_, _, ok1 := typeWidth(c.X.Type())
	_, _, ok2 := typeWidth(c.Type())
	return ok1 && ok2
}

// check forks on a runtime check; it reports whether the thread goes on.
func (a *act) check(th *thread, ok *Term, msg string, in ssa.Instruction) bool {
	e := a.e
	ok = e.simp(th.st, ok)
	if ok == e.b.True {
		return true
	}
	if a.pure {
		panic(notPure{})
	}
	mk := func() *PanicVal {
		return &PanicVal{V: e.runtimeErr(msg), Msg: "runtime error: " + msg, Pos: e.pos(in.Pos())}
	}
	if ok == e.b.False {
		a.panicNow(th, mk())
		return false
	}
	no := e.b.Not(ok)
	vno := e.feas(th.st, no)
	if vno == Unsat {
		return true
	}
	vok := e.feas(th.st, ok)
	if vok == Unsat {
		a.panicNow(th, mk())
		return false
	}
	e.Stats.Forks++
	e.forkAt("check", in)
	t2 := th.clone()
	e.assume(t2.st, no)
	a.panicNow(t2, mk())
	e.assume(th.st, ok)
	return true
}

func (e *Exec) runtimeErr(msg string) Value {
	return Iface{T: e.can(types.Typ[types.String]), V: e.strConst("runtime error: " + msg)}
}

// call evaluates a call instruction.
func (a *act) call(th *thread, c *ssa.CallCommon, in *ssa.Call) []Outcome {
	e := a.e
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i, x := range c.Args {
			args[i] = a.get(th, x)
		}
		return a.builtin(th, b.Name(), args, c, in)
	}
	if a.init {
		// package initialisers of imports are run on demand
		if f := c.StaticCallee(); f != nil && f.Name() == "init" && f.Synthetic != "" && len(f.Params) == 0 && f.Pkg != a.fn.Pkg {
			return []Outcome{{st: th.st, kind: oRet}}
		}
	}
	fnv, args := a.callee(th, c)
	if fnv == nil {
		return nil
	}
	return e.invoke(fnv, args, th.st, a.depth+1)
}

// callee resolves the function value and arguments of a call.
func (a *act) callee(th *thread, c *ssa.CallCommon) (Value, []Value) {
	e := a.e
	var args []Value
	if c.IsInvoke() {
		iv, ok := a.get(th, c.Value).(Iface)
		if !ok {
			panic(unsup("invoke on %T", a.get(th, c.Value)))
		}
		if iv.T == nil {
			return &FnV{Name: "nil-deref"}, []Value{}
		}
		f := e.Prog.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			panic(unsup("method %s of %s", c.Method.Name(), iv.T))
		}
		args = append(args, iv.V)
		for _, x := range c.Args {
			args = append(args, a.get(th, x))
		}
		return &FnV{F: f}, args
	}
	fv := a.get(th, c.Value)
	for _, x := range c.Args {
		args = append(args, a.get(th, x))
	}
	return fv, args
}

func (e *Exec) invoke(fv Value, args []Value, st *State, depth int) []Outcome {
	f, ok := fv.(*FnV)
	if !ok {
		panic(unsup("call of %T", fv))
	}
	if f == nil || f.Name == "nil-deref" {
		return []Outcome{{st: st, kind: oPanic, pv: &PanicVal{V: e.runtimeErr("invalid memory address or nil pointer dereference"), Msg: "runtime error: nil pointer dereference (call)"}}}
	}
	if f.B != nil {
		a := &act{e: e, fn: nil}
		th := &thread{st: st}
		return a.builtin(th, f.B.Name(), args, nil, nil)
	}
	if f.F == nil {
		panic(unsup("call of intrinsic closure %s", f.Name))
	}
	return e.callFn(f.F, args, f.Free, st, depth)
}

func (e *Exec) invokeGo(fnv Value, args []Value, st *State, depth int) []Outcome {
	e.inGo++
	e.goSeq++
	cur := e.goCur
	e.goCur = e.goSeq
	defer func() { e.inGo--; e.goCur = cur }()
	var outs []Outcome
	for _, o := range e.invoke(fnv, args, st, depth) {
		if o.kind == oPanic {
			// nobody recovers a panic of another goroutine
			e.finding(o.st, "panic", o.pv.Msg, o.pv.Pos)
			continue
		}
		outs = append(outs, o)
	}
	return outs
}

// runBlocked lets the oldest waiting goroutine run while the current one waits.
func (e *Exec) runBlocked(st *State, depth int) []Outcome {
	g := st.pend[0]
	st.pend = st.pend[1:]
	id := e.goCur
	e.goBlocked[id]++
	defer func() { e.goBlocked[id]-- }()
	var outs []Outcome
	for _, r := range e.invokeGo(g.fn, g.args, st, depth+1) {
		outs = append(outs, Outcome{st: r.st, kind: r.kind, pv: r.pv})
	}
	return outs
}

// wouldBlock tells whether a channel operation cannot go ahead.
func (a *act) wouldBlock(th *thread, in ssa.Instruction) bool {
	ch := func(v ssa.Value) *ChanV {
		p, ok := a.get(th, v).(Ptr)
		if !ok || p.Nil() {
			return nil
		}
		c, _ := a.e.obj(th.st, p.Obj).V.(*ChanV)
		return c
	}
	ready := func(v ssa.Value, send bool) bool {
		c := ch(v)
		if c == nil {
			return false
		}
		if send {
			return c.Closed || len(c.Buf) < c.Cap
		}
		return len(c.Buf) > 0 || c.Timer || c.Closed
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW && !ready(x.X, false)
	case *ssa.Send:
		return !ready(x.Chan, true)
	case *ssa.Select:
		if !x.Blocking {
			return false
		}
		for _, s := range x.States {
			if ready(s.Chan, s.Dir == types.SendOnly) {
				return false
			}
		}
		return true
	}
	return false
}

// runPending lets the waiting goroutines run to completion, in order.
func (e *Exec) runPending(st *State, depth int) []Outcome {
	live := []Outcome{{st: st, kind: oRet}}
	var done []Outcome
	for {
		var next []Outcome
		more := false
		for _, o := range live {
			if o.kind != oRet {
				done = append(done, o)
				continue
			}
			if len(o.st.pend) == 0 {
				next = append(next, o)
				continue
			}
			more = true
			g := o.st.pend[0]
			o.st.pend = o.st.pend[1:]
			for _, r := range e.invokeGo(g.fn, g.args, o.st, depth+1) {
				next = append(next, Outcome{st: r.st, kind: r.kind, pv: r.pv})
			}
		}
		live = next
		if !more {
			return append(done, live...)
		}
	}
}

// Run executes a harness entry point and collects findings.
func (e *Exec) Run(fn *ssa.Function) (incomplete string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopAll); ok {
				incomplete = s.why
				return
			}
			panic(r)
		}
	}()
	st := newState()
	outs := e.callFn(fn, nil, nil, st, 0)
	e.Stats.Paths = len(outs)
	for i, o := range outs {
		// models of some finished paths, for replay against the real build
		if o.kind != oRet || len(e.Finals) >= e.FinalMax {
			continue
		}
		if len(outs) > e.FinalMax && i%(len(outs)/e.FinalMax) != 0 {
			continue
		}
		if v, ev := e.decide(o.st.pc); v == Sat && ev != nil {
			e.Finals = append(e.Finals, e.userModel(ev))
		}
	}
	for _, o := range outs {
		switch o.kind {
		case oPanic:
			e.finding(o.st, "panic", o.pv.Msg, o.pv.Pos)
		case oExit:
			e.finding(o.st, "exit", o.pv.Msg, o.pv.Pos)
		}
	}
	return ""
}
