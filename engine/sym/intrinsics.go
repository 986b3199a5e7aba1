package sym

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ictx struct {
	e     *Exec
	st    *State
	fn    *ssa.Function
	args  []Value
	depth int
}

type intrinsicFn func(c *ictx) []Outcome

func (c *ictx) ret(vs ...Value) []Outcome {
	return []Outcome{{st: c.st, kind: oRet, vals: vs}}
}

func (c *ictx) zeros() []Outcome {
	r := c.fn.Signature.Results()
	var vs []Value
	for i := 0; i < r.Len(); i++ {
		vs = append(vs, c.e.zero(r.At(i).Type()))
	}
	return c.ret(vs...)
}

// dummy returns non-nil pointers for pointer results.
func (c *ictx) dummy() []Outcome {
	r := c.fn.Signature.Results()
	var vs []Value
	for i := 0; i < r.Len(); i++ {
		t := r.At(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			vs = append(vs, c.e.allocT(c.st, p.Elem(), Poison{"dummy " + t.String()}))
			continue
		}
		vs = append(vs, c.e.zero(t))
	}
	return c.ret(vs...)
}

func (c *ictx) exit(msg string) []Outcome {
	return []Outcome{{st: c.st, kind: oExit, pv: &PanicVal{Msg: msg, Exit: true}}}
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	return ""
}

var intrinsics map[string]intrinsicFn

func (e *Exec) intrinsic(fn *ssa.Function) intrinsicFn {
	if fn.Parent() != nil {
		return nil
	}
	name := fn.String()
	p := pkgOf(fn)
	if p == e.SVPath && fn.Synthetic == "" {
		if f, ok := svFns[fn.Name()]; ok {
			return f
		}
		return nil
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	switch p {
	case "github.com/sirupsen/logrus", "log":
		if fn.Name() == "init" {
			return nil
		}
		if strings.HasPrefix(fn.Name(), "Fatal") {
			return func(c *ictx) []Outcome { return c.exit(fn.Name()) }
		}
		if strings.HasPrefix(fn.Name(), "Panic") {
			return func(c *ictx) []Outcome {
				return []Outcome{{st: c.st, kind: oPanic, pv: &PanicVal{V: c.e.runtimeErr("log panic"), Msg: "log.Panic"}}}
			}
		}
		return func(c *ictx) []Outcome { return c.dummy() }
	case "sync/atomic", "internal/runtime/atomic":
		if fn.Blocks == nil {
			return atomicFn(fn.Name())
		}
		if strings.Contains(name, "atomic.Pointer[") {
			switch fn.Name() {
			case "Load", "Store", "Swap", "CompareAndSwap":
				return atomicPtr(fn.Name())
			}
		}
	case "reflect", "internal/reflectlite":
		return func(c *ictx) []Outcome { panic(unsup("reflection: %s", name)) }
	}
	if o := fn.Origin(); o != nil && o != fn {
		if f, ok := intrinsics[o.String()]; ok {
			return f
		}
	}
	return nil
}

func atomicPtr(name string) intrinsicFn {
	return func(c *ictx) []Outcome {
		p := c.args[0].(Ptr)
		st := c.e.load(c.st, p).(*StructV)
		k := len(st.F) - 1
		p = p.add(PE{I: k})
		switch name {
		case "Load":
			return c.ret(c.e.load(c.st, p))
		case "Store":
			c.e.store(c.st, p, c.args[1])
			return c.ret()
		case "Swap":
			old := c.e.load(c.st, p)
			c.e.store(c.st, p, c.args[1])
			return c.ret(old)
		default:
			old := c.e.load(c.st, p)
			if c.e.valEq(old, c.args[1]) == c.e.b.True {
				c.e.store(c.st, p, c.args[2])
				return c.ret(c.e.b.True)
			}
			return c.ret(c.e.b.False)
		}
	}
}

func atomicFn(name string) intrinsicFn {
	return func(c *ictx) []Outcome {
		e := c.e
		p, ok := c.args[0].(Ptr)
		if !ok || p.Nil() {
			panic(unsup("atomic %s", name))
		}
		cur := e.load(c.st, p)
		switch {
		case strings.HasPrefix(name, "Load"):
			return c.ret(cur)
		case strings.HasPrefix(name, "Store"):
			e.store(c.st, p, c.args[1])
			return c.ret()
		case strings.HasPrefix(name, "Swap"):
			e.store(c.st, p, c.args[1])
			return c.ret(cur)
		case strings.HasPrefix(name, "Add"):
			n := e.b.Add(cur.(*Term), c.args[1].(*Term))
			e.store(c.st, p, n)
			return c.ret(n)
		case strings.HasPrefix(name, "CompareAndSwap"):
			eq := e.simp(c.st, e.valEq(cur, c.args[1]))
			if eq == e.b.True {
				e.store(c.st, p, c.args[2])
				return c.ret(e.b.True)
			}
			if eq == e.b.False {
				return c.ret(e.b.False)
			}
			panic(splitReq{conds: []*Term{eq, e.b.Not(eq)}})
		}
		panic(unsup("atomic %s", name))
	}
}

// blocked: the calling goroutine waits for a lock that is held. Inside a part
// of the harness that stands for another goroutine the schedule is impossible
// and the path ends; otherwise nothing will ever release the lock.
func blocked(c *ictx) []Outcome {
	if c.st.nest > 0 {
		return nil
	}
	if c.e.inGo > 0 {
		panic(unsup("goroutine waits for a lock"))
	}
	c.e.finding(c.st, "hang", "waits forever for a lock", "")
	return nil
}

func noop(c *ictx) []Outcome { return c.zeros() }

func init() {
	intrinsics = map[string]intrinsicFn{
		"encoding/binary.Write":  binWrite,
		"encoding/binary.Read":   binRead,
		"encoding/binary.Size":   binSizeOf,
		"encoding/binary.Append": binAppend,
		"os.Exit": func(c *ictx) []Outcome {
			m := "os.Exit"
			if t, ok := c.args[0].(*Term); ok && t.IsConst() {
				m = fmt.Sprintf("os.Exit(%d)", sext(t.Val, t.W))
			}
			return c.exit(m)
		},
		// locks run as they are written; what would wait is where a schedule ends
		"(*internal/sync.Mutex).lockSlow": blocked,
		"(*internal/sync.Mutex).unlockSlow": func(c *ictx) []Outcome {
			return []Outcome{{st: c.st, kind: oPanic, pv: &PanicVal{V: c.e.runtimeErr("unlock of unlocked mutex"), Msg: "unlock of unlocked mutex"}}}
		},
		"sync.runtime_SemacquireRWMutexR": blocked, "sync.runtime_SemacquireRWMutex": blocked, "sync.runtime_Semrelease": noop,
		"sync.fatal": func(c *ictx) []Outcome {
			return []Outcome{{st: c.st, kind: oPanic, pv: &PanicVal{V: c.e.runtimeErr("lock misuse"), Msg: "lock misuse"}}}
		},
		"(*sync.WaitGroup).Add": noop, "(*sync.WaitGroup).Done": noop, "(*sync.WaitGroup).Wait": func(c *ictx) []Outcome {
			if c.st.deferGo && len(c.st.pend) > 0 {
				id := c.e.goCur
				c.e.goBlocked[id]++
				defer func() { c.e.goBlocked[id]-- }()
				return c.e.runPending(c.st, c.depth)
			}
			return c.zeros()
		},
		"(*sync.Pool).Get":             poolGet,
		"(*sync.Pool).Put":             poolPut,
		"(*sync.Map).Load":             syncMap,
		"(*sync.Map).Store":            syncMap,
		"(*sync.Map).LoadOrStore":      syncMap,
		"(*sync.Map).LoadAndDelete":    syncMap,
		"(*sync.Map).Delete":           syncMap,
		"(*sync.Map).Swap":             syncMap,
		"(*sync.Map).Clear":            syncMap,
		"(*sync.Map).Range":            syncMapRange,
		"(*sync/atomic.Value).Load":    func(c *ictx) []Outcome { return c.ret(c.e.load(c.st, c.args[0].(Ptr).add(PE{I: 0}))) },
		"(*sync/atomic.Value).Store":   func(c *ictx) []Outcome { c.e.store(c.st, c.args[0].(Ptr).add(PE{I: 0}), c.args[1]); return c.ret() },
		"(*strings.Builder).copyCheck": noop,
		"internal/abi.NoEscape":        func(c *ictx) []Outcome { return c.ret(c.args[0]) },
		"internal/abi.Escape":          func(c *ictx) []Outcome { return c.ret(c.args[0]) },
		"internal/bytealg.MakeNoZero": func(c *ictx) []Outcome {
			n := c.e.concInt(c.st, c.args[0].(*Term), "MakeNoZero")
			t := types.Typ[types.Uint8]
			return c.ret(c.e.newSliceCap(c.st, t, nil2(n, c.e.b.Const(8, 0)), roundUp(n, true)))
		},
		"internal/bytealg.IndexByte":       idxByte,
		"internal/bytealg.IndexByteString": idxByte,
		"internal/bytealg.LastIndexByte":   nil,
		"internal/bytealg.Count":           countByte,
		"internal/bytealg.CountString":     countByte,
		"internal/bytealg.Equal": func(c *ictx) []Outcome {
			return c.ret(c.e.valEq(c.asStr(0), c.asStr(1)))
		},
		"internal/bytealg.Compare": cmpBytes, "internal/bytealg.CompareString": cmpBytes,
		"internal/bytealg.Index": idxSub, "internal/bytealg.IndexString": idxSub,
		"runtime.cmpstring": cmpBytes,
		"errors.Is":         errorsIs,
		"fmt.Sprintf":       sprintf,
		"fmt.Sprint":        func(c *ictx) []Outcome { return c.sprintPlain(c.variadic(0), false) },
		"fmt.Sprintln":      func(c *ictx) []Outcome { return c.sprintPlain(c.variadic(0), true) },
		"fmt.Errorf":        errorf,
		"fmt.Println":       noop, "fmt.Printf": noop, "fmt.Print": noop,
		"fmt.Fprintf": func(c *ictx) []Outcome {
			d := *c
			d.args = c.args[1:]
			return c.fprint(func() []Outcome { return sprintf(&d) })
		},
		"fmt.Fprint": func(c *ictx) []Outcome {
			return c.fprint(func() []Outcome { return c.sprintPlain(c.variadic(1), false) })
		},
		"fmt.Fprintln": func(c *ictx) []Outcome {
			return c.fprint(func() []Outcome { return c.sprintPlain(c.variadic(1), true) })
		},
		// deadlines of contexts never pass
		"context.WithTimeout":  withCancel,
		"context.WithDeadline": withCancel,
		"time.Now":             timeNow,
		"time.Sleep":           noop,
		"time.NewTimer":        newTimer,
		"time.NewTicker":       newTimer,
		"time.After":           func(c *ictx) []Outcome { return c.ret(c.timerChan()) },
		"time.Tick":            func(c *ictx) []Outcome { return c.ret(c.timerChan()) },
		"time.AfterFunc":       newTimer,
		"(*time.Timer).Reset":  func(c *ictx) []Outcome { return c.ret(c.e.b.True) },
		"(*time.Timer).Stop":   func(c *ictx) []Outcome { return c.ret(c.e.b.True) },
		"(*time.Ticker).Stop":  noop,
		"(*time.Ticker).Reset": noop,
		"time.initLocal":       noop, // the local zone is UTC
		"time.runtimeNano":     func(c *ictx) []Outcome { return c.ret(c.e.b.Int(1)) },
		"math.Floor":           func(c *ictx) []Outcome { return c.ret(c.e.b.FRnd(rndFloor, c.args[0].(*Term))) },
		"math.Ceil":            func(c *ictx) []Outcome { return c.ret(c.e.b.FRnd(rndCeil, c.args[0].(*Term))) },
		"math.Trunc":           func(c *ictx) []Outcome { return c.ret(c.e.b.FRnd(rndTrunc, c.args[0].(*Term))) },
		"math.Round":           func(c *ictx) []Outcome { return c.ret(c.e.b.FRnd(rndAway, c.args[0].(*Term))) },
		"math.RoundToEven":     func(c *ictx) []Outcome { return c.ret(c.e.b.FRnd(rndEven, c.args[0].(*Term))) },
		"math.Abs": func(c *ictx) []Outcome {
			x := c.args[0].(*Term)
			b := c.e.b
			return c.ret(b.Ite(b.FCmp(OFLt, x, b.FConst(0)), b.FNeg(x), x))
		},
		"math.Float64bits": func(c *ictx) []Outcome {
			x := c.args[0].(*Term)
			if x.Op == OFConst {
				return c.ret(c.e.b.Const(64, f64bits(x.F)))
			}
			panic(unsup("Float64bits of a symbolic float"))
		},
		"math.Float64frombits": func(c *ictx) []Outcome {
			x := c.args[0].(*Term)
			if x.IsConst() {
				return c.ret(c.e.b.FConst(f64from(x.Val)))
			}
			panic(unsup("Float64frombits of a symbolic value"))
		},
		"encoding/json.Marshal":       jsonMarshal,
		"encoding/json.MarshalIndent": jsonMarshal,
		"runtime.GC":                  noop, "runtime.Gosched": noop,
		"runtime.SetFinalizer": noop, "runtime.KeepAlive": noop,
		"internal/race.Enable": noop, "internal/race.Disable": noop,
		"github.com/golang/protobuf/proto.RegisterType": noop,
		"github.com/golang/protobuf/proto.RegisterEnum": noop,
		"github.com/golang/protobuf/proto.RegisterFile": noop,
		"github.com/golang/protobuf/proto.Unmarshal":    protoUnmarshal,
		"github.com/golang/protobuf/proto.Marshal":      protoMarshal,
	}
	delete(intrinsics, "internal/bytealg.LastIndexByte")
}

func nil2(n int, v Value) []Value {
	vs := make([]Value, n)
	for i := range vs {
		vs[i] = v
	}
	return vs
}

// asStr views a []byte or string argument as a Str.
func (c *ictx) asStr(i int) *Str {
	switch x := c.args[i].(type) {
	case *Str:
		return x
	case Slice:
		return c.e.bytesToStr(c.st, x)
	}
	panic(unsup("string argument %T", c.args[i]))
}

// known3 resolves a condition: 1 true, 0 false; forks the path otherwise.
func (c *ictx) known(t *Term) bool {
	e := c.e
	t = e.simp(c.st, t)
	if t == e.b.True {
		return true
	}
	if t == e.b.False {
		return false
	}
	if e.feas(c.st, t) == Unsat {
		return false
	}
	if e.feas(c.st, e.b.Not(t)) == Unsat {
		return true
	}
	panic(splitReq{conds: []*Term{t, e.b.Not(t)}})
}

func idxByte(c *ictx) []Outcome {
	s := c.asStr(0)
	if s.Opaque || s.Doc != nil {
		panic(unsup("search in opaque string"))
	}
	ch := c.args[1].(*Term)
	for i, t := range s.B {
		if c.known(c.e.b.Eq(t, ch)) {
			return c.ret(c.e.b.Int(i))
		}
	}
	return c.ret(c.e.b.Int(-1))
}

func idxSub(c *ictx) []Outcome {
	s, sub := c.asStr(0), c.asStr(1)
	for i := 0; i+len(sub.B) <= len(s.B); i++ {
		if c.known(c.e.valEq(&Str{B: s.B[i : i+len(sub.B)]}, sub)) {
			return c.ret(c.e.b.Int(i))
		}
	}
	return c.ret(c.e.b.Int(-1))
}

func countByte(c *ictx) []Outcome {
	s := c.asStr(0)
	ch := c.args[1].(*Term)
	n := 0
	for _, t := range s.B {
		if c.known(c.e.b.Eq(t, ch)) {
			n++
		}
	}
	return c.ret(c.e.b.Int(n))
}

func cmpBytes(c *ictx) []Outcome {
	x, y := c.asStr(0), c.asStr(1)
	if c.known(c.e.valEq(x, y)) {
		return c.ret(c.e.b.Int(0))
	}
	if c.known(c.e.strLess(x, y)) {
		return c.ret(c.e.b.Int(-1))
	}
	return c.ret(c.e.b.Int(1))
}

func poolField(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// syncMapPtr is the ordinary map that stands for a sync.Map.
func syncMapPtr(c *ictx) Ptr {
	e := c.e
	p := c.args[0].(Ptr)
	pt := c.fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	i := poolField(pt, "m")
	if i < 0 {
		panic(unsup("sync.Map"))
	}
	if m, ok := e.load(c.st, p).(*StructV).F[i].(Ptr); ok {
		return m
	}
	m := e.alloc(c.st, e.typeKey(types.Typ[types.Int], 8, 0), &MapV{})
	e.store(c.st, p.add(PE{I: i}), m)
	return m
}

func syncMap(c *ictx) []Outcome {
	e := c.e
	m := syncMapPtr(c)
	any := types.NewInterfaceType(nil, nil)
	get := func() (Value, Value) {
		v, ok := e.mapGet(c.st, m, c.args[1], any)
		if !ok {
			return Iface{}, e.b.False
		}
		return v, e.b.True
	}
	switch c.fn.Name() {
	case "Load":
		v, ok := get()
		return c.ret(v, ok)
	case "Store":
		e.mapSet(c.st, m, c.args[1], c.args[2])
	case "LoadOrStore":
		v, ok := get()
		if ok == e.b.False {
			e.mapSet(c.st, m, c.args[1], c.args[2])
			v = c.args[2]
		}
		return c.ret(v, ok)
	case "LoadAndDelete":
		v, ok := get()
		e.mapDel(c.st, m, c.args[1])
		return c.ret(v, ok)
	case "Swap":
		v, ok := get()
		e.mapSet(c.st, m, c.args[1], c.args[2])
		return c.ret(v, ok)
	case "Delete":
		e.mapDel(c.st, m, c.args[1])
	case "Clear":
		e.setObj(c.st, m.Obj, &MapV{})
	}
	return c.ret()
}

func syncMapRange(c *ictx) []Outcome {
	e := c.e
	m := e.obj(c.st, syncMapPtr(c).Obj).V.(*MapV)
	live := []*State{c.st}
	var done []Outcome
	for i := range m.Keys {
		var next []*State
		for _, st := range live {
			for _, o := range e.invoke(c.args[1], []Value{m.Keys[i], m.Vals[i]}, st, c.depth+1) {
				if o.kind != oRet {
					done = append(done, o)
					continue
				}
				g, ok := o.vals[0].(*Term)
				switch {
				case ok && g == e.b.True:
					next = append(next, o.st)
				case ok && g == e.b.False:
					done = append(done, Outcome{st: o.st, kind: oRet})
				default:
					panic(unsup("undecided end of sync.Map.Range"))
				}
			}
		}
		live = next
	}
	for _, st := range live {
		done = append(done, Outcome{st: st, kind: oRet})
	}
	return done
}

func poolGet(c *ictx) []Outcome {
	e := c.e
	p := c.args[0].(Ptr)
	pt := c.fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	li, ni := poolField(pt, "local"), poolField(pt, "New")
	sv := e.load(c.st, p).(*StructV)
	if l, ok := sv.F[li].(Ptr); ok && !l.Nil() {
		arr := e.load(c.st, l).(*ArrV)
		if n := len(arr.E); n > 0 {
			v := arr.E[n-1]
			e.store(c.st, l, &ArrV{E: arr.E[:n-1], Def: arr.Def, N: arr.N})
			e.parPool(c.st, v, false)
			return c.ret(v)
		}
	}
	f, _ := sv.F[ni].(*FnV)
	if f == nil {
		return c.ret(Iface{})
	}
	return e.invoke(f, nil, c.st, c.depth+1)
}

func poolPut(c *ictx) []Outcome {
	e := c.e
	p := c.args[0].(Ptr)
	pt := c.fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	li := poolField(pt, "local")
	sv := e.load(c.st, p).(*StructV)
	l, ok := sv.F[li].(Ptr)
	if !ok || l.Nil() {
		l = e.alloc(c.st, e.typeKey(types.Typ[types.Int], 7, 0), &ArrV{Def: Iface{}, N: e.b.Int(1 << 20)})
		e.store(c.st, p.add(PE{I: li}), l)
	}
	arr := e.load(c.st, l).(*ArrV)
	e.store(c.st, l, &ArrV{E: append(append([]Value(nil), arr.E...), c.args[1]), Def: arr.Def, N: arr.N})
	e.parPool(c.st, c.args[1], true)
	return c.ret()
}

func errorsIs(c *ictx) []Outcome {
	e := c.e
	err, target := c.args[0].(Iface), c.args[1].(Iface)
	for depth := 0; depth < 20; depth++ {
		if err.T == nil || target.T == nil {
			return c.ret(e.b.Bool(err.T == nil && target.T == nil))
		}
		if err.T == target.T && types.Comparable(err.T) {
			if c.known(e.valEq(err, target)) {
				return c.ret(e.b.True)
			}
		}
		m := e.lookupMethod(err.T, "Unwrap")
		if m == nil {
			return c.ret(e.b.False)
		}
		if m.Signature.Results().Len() != 1 {
			panic(unsup("errors.Is: Unwrap shape"))
		}
		outs := e.callFn(m, []Value{err.V}, nil, c.st, c.depth+1)
		if len(outs) != 1 || outs[0].kind != oRet {
			panic(unsup("errors.Is: Unwrap outcomes"))
		}
		c.st = outs[0].st
		n, ok := outs[0].vals[0].(Iface)
		if !ok {
			panic(unsup("errors.Is: multi Unwrap"))
		}
		err = n
		if err.T == nil {
			return c.ret(e.b.False)
		}
	}
	return c.ret(e.b.False)
}

func opaqueStr(c *ictx) []Outcome { return c.ret(&Str{Opaque: true}) }

// variadic returns the elements of the trailing ...interface{} argument.
func (c *ictx) variadic(i int) []Iface {
	s := c.args[i].(Slice)
	n := c.e.concInt(c.st, s.Len, "variadic")
	var out []Iface
	if n == 0 {
		return nil
	}
	for _, v := range c.e.sliceVals(c.st, s, n) {
		out = append(out, v.(Iface))
	}
	return out
}

func (e *Exec) namedType(pkg, name string) types.Type {
	p := e.Prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (e *Exec) newError(st *State, s *Str) Value {
	t := e.namedType("errors", "errorString")
	p := e.allocT(st, t, &StructV{F: []Value{s}})
	return Iface{T: e.can(types.NewPointer(t)), V: p}
}

func errorf(c *ictx) []Outcome {
	e := c.e
	f, ok := concStr(c.args[0].(*Str))
	if ok && strings.Contains(f, "%w") {
		// operand of the first %w
		args := c.variadic(1)
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && k < len(args) {
				t := e.namedType("fmt", "wrapError")
				if t != nil && args[k].T != nil {
					p := e.allocT(c.st, t, &StructV{F: []Value{&Str{Opaque: true}, args[k]}})
					return c.ret(Iface{T: e.can(types.NewPointer(t)), V: p})
				}
			}
			k++
		}
	}
	return c.ret(e.newError(c.st, &Str{Opaque: true}))
}

func sprintf(c *ictx) []Outcome {
	fs, ok := c.args[0].(*Str)
	if !ok {
		return opaqueStr(c)
	}
	f, ok := concStr(fs)
	if !ok {
		return opaqueStr(c)
	}
	return c.sprintArgs(f, c.variadic(1), 0)
}

// sprintPlain is Sprint, or Sprintln with ln.
func (c *ictx) sprintPlain(args []Iface, ln bool) []Outcome {
	f := ""
	str := func(a Iface) bool {
		if a.T == nil {
			return false
		}
		b, ok := a.T.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	for i, a := range args {
		if i > 0 && (ln || !str(a) && !str(args[i-1])) {
			f += " "
		}
		f += "%v"
	}
	if ln {
		f += "\n"
	}
	return c.sprintArgs(f, args, 0)
}

// fprint writes the text the writer of the first argument is asked to take.
// What goes to a stand-in's or the real standard streams matters to nobody.
func (c *ictx) fprint(text func() []Outcome) []Outcome {
	w, ok := c.args[0].(Iface)
	if !ok || w.T == nil {
		return noop(c)
	}
	p, isPtr := w.T.(*types.Pointer)
	if isPtr {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "File" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "os" || strings.HasSuffix(n.Obj().Pkg().Path(), "/verifswap/os")) {
			return noop(c)
		}
	}
	m := c.e.lookupMethod(w.T, "Write")
	if m == nil {
		panic(unsup("formatted output to " + w.T.String()))
	}
	var res []Outcome
	for _, o := range text() {
		if o.kind != oRet {
			res = append(res, o)
			continue
		}
		s := o.vals[0].(*Str)
		if s.Opaque || s.Doc != nil {
			panic(unsup("formatted output of unknown text to " + w.T.String()))
		}
		vs := make([]Value, len(s.B))
		for i, t := range s.B {
			vs[i] = t
		}
		b := c.e.newSlice(o.st, types.Typ[types.Uint8], vs)
		res = append(res, c.e.callFn(m, []Value{w.V, b}, nil, o.st, c.depth+1)...)
	}
	return res
}

func withCancel(c *ictx) []Outcome {
	f := c.e.Prog.ImportedPackage("context").Func("WithCancel")
	return c.e.callFn(f, c.args[:1], nil, c.st, c.depth+1)
}

// stringer is the String method fmt would use for a, nil if there is none or
// it is not worth running.
func (e *Exec) stringer(a Iface) *ssa.Function {
	if a.T == nil || types.NewMethodSet(a.T).Lookup(nil, "Error") != nil || types.NewMethodSet(a.T).Lookup(nil, "String") == nil {
		return nil
	}
	if p, ok := a.V.(Ptr); ok && p.Nil() {
		return nil
	}
	m := e.lookupMethod(a.T, "String")
	if m == nil || len(m.Blocks) == 0 || m.Pkg == nil && m.Signature.Recv() == nil {
		return nil
	}
	if o := m.Object(); o != nil && o.Pkg() != nil {
		switch o.Pkg().Path() {
		case "time", "reflect", "math/big":
			return nil
		}
	}
	return m
}

// sprintArgs replaces the operands from k on that have a String method by its
// result and renders the text.
func (c *ictx) sprintArgs(f string, args []Iface, k int) []Outcome {
	e := c.e
	for ; k < len(args); k++ {
		m := e.stringer(args[k])
		if m == nil {
			continue
		}
		var out []Outcome
		for _, o := range e.callFn(m, []Value{args[k].V}, nil, c.st, c.depth+1) {
			if o.kind != oRet {
				out = append(out, o)
				continue
			}
			n := append([]Iface(nil), args...)
			n[k] = Iface{T: types.Typ[types.String], V: o.vals[0]}
			d := *c
			d.st = o.st
			out = append(out, d.sprintArgs(f, n, k+1)...)
		}
		return out
	}
	out := &Str{}
	k = 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = concatStr(out, e.strConst(f[i:i+1]))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0", f[j]) >= 0 {
			j++
		}
		flags := f[i+1 : j]
		w0 := j
		for j < len(f) && f[j] >= '0' && f[j] <= '9' {
			j++
		}
		width := 0
		if j > w0 {
			width, _ = strconv.Atoi(f[w0:j])
		}
		if j >= len(f) {
			return opaqueStr(c)
		}
		v := f[j]
		i = j
		if v == '%' {
			out = concatStr(out, e.strConst("%"))
			continue
		}
		if k >= len(args) {
			return opaqueStr(c)
		}
		s := c.format1(args[k], v, flags, width)
		k++
		if s == nil {
			return opaqueStr(c)
		}
		out = concatStr(out, s)
	}
	if k != len(args) {
		return opaqueStr(c)
	}
	return c.ret(out)
}

// format1 renders one operand, nil if the rendering is not modelled.
func (c *ictx) format1(a Iface, verb byte, flags string, width int) *Str {
	e := c.e
	b := e.b
	if a.T == nil {
		return nil
	}
	if verb == 'v' || verb == 's' {
		if types.NewMethodSet(a.T).Lookup(nil, "Error") != nil || types.NewMethodSet(a.T).Lookup(nil, "String") != nil {
			return nil
		}
	}
	pad := func(s *Str, n int) *Str {
		if len(s.B) >= n {
			return s
		}
		ch := " "
		if strings.Contains(flags, "0") && !strings.Contains(flags, "-") {
			ch = "0"
		}
		p := e.strConst(strings.Repeat(ch, n-len(s.B)))
		if strings.Contains(flags, "-") {
			return concatStr(s, p)
		}
		return concatStr(p, s)
	}
	switch x := a.V.(type) {
	case *Str:
		if verb == 's' || verb == 'v' {
			if x.Opaque || x.Doc != nil {
				return &Str{Opaque: true}
			}
			if strings.Contains(flags, "0") {
				return nil
			}
			return pad(x, width)
		}
	case *Term:
		if x.W <= 0 {
			if x.W == 0 && x.IsConst() && (verb == 't' || verb == 'v') {
				return pad(e.strConst(fmt.Sprint(x.Val == 1)), width)
			}
			return nil
		}
		if strings.ContainsAny(flags, "+# ") {
			return nil
		}
		_, signed, _ := typeWidth(a.T)
		if x.IsConst() {
			var s string
			switch verb {
			case 'd', 'v':
				if signed {
					s = strconv.FormatInt(sext(x.Val, x.W), 10)
				} else {
					s = strconv.FormatUint(x.Val, 10)
				}
			case 'b', 'x', 'X', 'o':
				base := map[byte]int{'b': 2, 'x': 16, 'X': 16, 'o': 8}[verb]
				if signed && sext(x.Val, x.W) < 0 {
					return nil
				}
				s = strconv.FormatUint(x.Val, base)
				if verb == 'X' {
					s = strings.ToUpper(s)
				}
			case 'c':
				s = string(rune(x.Val))
			default:
				return nil
			}
			return pad(e.strConst(s), width)
		}
		if signed && x.smin < 0 {
			return nil
		}
		per := 0
		switch verb {
		case 'b':
			per = 1
		case 'x', 'X':
			per = 4
		case 'o':
			return nil
		case 'd', 'v':
			return c.decimal(x, flags, width)
		default:
			return nil
		}
		// digits, most significant first
		nd := (x.W + per - 1) / per
		zx := b.ZExt(x, nd*per)
		if nd*per == x.W {
			zx = x
		}
		var ds []*Term
		for d := nd - 1; d >= 0; d-- {
			v := b.ZExt(b.Extract(zx, d*per+per-1, d*per), 8)
			if per == 1 {
				ds = append(ds, b.BOr(b.Const(8, '0'), v))
				continue
			}
			off := byte('a' - 10)
			if verb == 'X' {
				off = 'A' - 10
			}
			ds = append(ds, b.Ite(b.Ult(v, b.Const(8, 10)), b.BOr(b.Const(8, '0'), v), b.Add(v, b.Const(8, uint64(off)))))
		}
		// number of significant digits
		sig := nd
		for sig > 1 {
			if sig <= width && strings.Contains(flags, "0") {
				break // zero padding hides the exact count
			}
			top := b.Eq(b.Extract(zx, (sig-1)*per+per-1, (sig-1)*per), b.Const(per, 0))
			if !c.known(top) {
				break
			}
			sig--
		}
		return pad(&Str{B: ds[nd-sig:]}, width)
	case Slice:
		if verb == 'x' || verb == 'X' || verb == 's' {
			if st, ok := a.T.Underlying().(*types.Slice); ok {
				if w, _, _ := typeWidth(st.Elem()); w == 8 && verb == 's' {
					s := e.bytesToStr(c.st, x)
					if s.Doc == nil {
						return pad(s, width)
					}
				}
			}
		}
	}
	return nil
}

// decimal renders a symbolic unsigned value in decimal, forking on its number
// of digits.
func (c *ictx) decimal(x *Term, flags string, width int) *Str {
	e := c.e
	b := e.b
	if x.W < 64 {
		x = b.ZExt(x, 64)
	}
	n := 1
	lim := uint64(10)
	for n < 20 {
		if c.known(b.Ult(x, b.Const(64, lim))) {
			break
		}
		n++
		if lim > (1<<64-1)/10 {
			break
		}
		lim *= 10
	}
	ds := make([]*Term, n)
	v := x
	for i := n - 1; i >= 0; i-- {
		d := b.URem(v, b.Const(64, 10))
		ds[i] = b.Add(b.Const(8, '0'), b.Extract(d, 7, 0))
		v = b.UDiv(v, b.Const(64, 10))
	}
	s := &Str{B: ds}
	if len(s.B) < width {
		ch := " "
		if strings.Contains(flags, "0") && !strings.Contains(flags, "-") {
			ch = "0"
		}
		p := e.strConst(strings.Repeat(ch, width-len(s.B)))
		if strings.Contains(flags, "-") {
			return concatStr(s, p)
		}
		return concatStr(p, s)
	}
	return s
}

// ---- time ----

// timeNow is a clock: whole seconds between 1970 and 2106, non-decreasing
// along a path.
func timeNow(c *ictx) []Outcome {
	e := c.e
	b := e.b
	name := e.fresh(c.st, "$now")
	e.commitFresh(c.st, "$now")
	v := b.Var(32, name)
	u := b.ZExt(v, 64)
	if c.st.now != nil {
		e.assume(c.st, b.Ule(c.st.now, v))
	}
	c.st.now = v
	t := e.namedType("time", "Time")
	tv := e.zero(t).(*StructV)
	const unixToInternal = 62135596800
	n := &StructV{F: append([]Value(nil), tv.F...)}
	n.F[1] = b.Add(u, b.Const(64, unixToInternal))
	if g, ok := e.Prog.ImportedPackage("time").Members["localLoc"].(*ssa.Global); ok {
		n.F[2] = Ptr{Obj: e.global(g)}
	}
	return c.ret(n)
}

func (c *ictx) timerChan() Value {
	return c.e.alloc(c.st, c.e.typeKey(types.Typ[types.Int], 3, 1), &ChanV{Timer: true})
}

func newTimer(c *ictx) []Outcome {
	e := c.e
	pt := c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	sv := e.zero(pt).(*StructV)
	sv.F[0] = c.timerChan()
	return c.ret(e.allocT(c.st, pt, sv))
}

// ---- protobuf: contents are not modelled ----

func protoUnmarshal(c *ictx) []Outcome {
	e := c.e
	name := e.fresh(c.st, "$protoerr")
	e.commitFresh(c.st, "$protoerr")
	v := e.b.Var(0, name)
	s2 := c.st.clone()
	e.assume(c.st, v)
	e.assume(s2, e.b.Not(v))
	return []Outcome{{st: c.st, kind: oRet, vals: []Value{e.newError(c.st, &Str{Opaque: true})}},
		{st: s2, kind: oRet, vals: []Value{Iface{}}}}
}

func protoMarshal(c *ictx) []Outcome {
	panic(unsup("proto.Marshal"))
}
