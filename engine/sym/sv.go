package sym

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// svFns are the engine's versions of the harness API (package verifsv).
var svFns map[string]intrinsicFn

func init() {
	scalar := func(w int) intrinsicFn {
		return func(c *ictx) []Outcome {
			return c.ret(c.freshVar(w))
		}
	}
	svFns = map[string]intrinsicFn{
		"Byte": scalar(8), "U16": scalar(16), "U32": scalar(32), "U64": scalar(64), "I64": scalar(64),
		"Bool": scalar(0), "Int": scalar(64), "F64": scalar(WFloat), "I16": scalar(16), "I8": scalar(8),
		"Bytes": func(c *ictx) []Outcome {
			s := c.freshStr()
			vs := make([]Value, len(s.B))
			for i, t := range s.B {
				vs[i] = t
			}
			return c.ret(c.e.newSliceCap(c.st, types.Typ[types.Uint8], vs, len(vs)))
		},
		"Str":     func(c *ictx) []Outcome { return c.ret(c.freshStr()) },
		"Choose":  svChoose,
		"Assume":  svAssume,
		"Assert":  svAssert,
		"Reach":   svReach,
		"JSONHas": svJSON, "JSONU64": svJSON, "JSONI64": svJSON, "JSONF64": svJSON, "JSONStr": svJSON, "JSONLen": svJSON,
		"JSONTime": svJSON, "JSONBytes": svJSON,
		"Enter":    func(c *ictx) []Outcome { c.st.nest++; return c.ret() },
		"Leave":    func(c *ictx) []Outcome { c.st.nest--; return c.ret() },
		"Deferred": func(c *ictx) []Outcome { c.st.deferGo = true; return c.ret() },
		"Yield":    func(c *ictx) []Outcome { return c.e.runPending(c.st, c.depth) },
		"GoID":     func(c *ictx) []Outcome { return c.ret(c.e.b.Int(c.e.goCur)) },
		"GoBusy": func(c *ictx) []Outcome {
			id := int(c.args[0].(*Term).Val)
			return c.ret(c.e.b.Bool(id == c.e.goCur || c.e.goBlocked[id] > 0))
		},
		"Parallel": svParallel,
		"Thorough": func(c *ictx) []Outcome { return c.ret(c.e.b.Bool(c.e.Thorough)) },
		"Concrete": func(c *ictx) []Outcome { return c.ret(c.e.b.False) },
		"Unwind": func(c *ictx) []Outcome {
			c.e.finding(c.st, "unwind", "harness step bound exceeded: "+c.cname(0), "")
			panic(deadPath{})
		},
	}
}

func (c *ictx) cname(i int) string {
	s, ok := concStr(c.args[i].(*Str))
	if !ok {
		panic(unsup("harness variable name must be constant"))
	}
	return s
}

func (c *ictx) freshVar(w int) *Term {
	n := c.cname(0)
	v := c.e.b.Var(w, c.e.fresh(c.st, n))
	c.e.commitFresh(c.st, n)
	return v
}

func (c *ictx) freshStr() *Str {
	n := c.cname(0)
	k := c.e.concInt(c.st, c.args[1].(*Term), "harness buffer size")
	base := c.e.fresh(c.st, n)
	c.e.commitFresh(c.st, n)
	s := &Str{B: make([]*Term, k)}
	for i := range s.B {
		s.B[i] = c.e.b.Var(8, base+"."+itoa(i))
	}
	return s
}

// Choose(name, lo, hi) forks the path on every value of lo..hi.
func svChoose(c *ictx) []Outcome {
	e := c.e
	n := c.cname(0)
	lo := e.concInt(c.st, c.args[1].(*Term), "Choose bound")
	hi := e.concInt(c.st, c.args[2].(*Term), "Choose bound")
	v := e.b.Var(64, e.fresh(c.st, n))
	if x, ok := c.st.known[v]; ok {
		e.commitFresh(c.st, n)
		return c.ret(e.b.Const(64, x))
	}
	var conds []*Term
	var vals []uint64
	for i := lo; i <= hi; i++ {
		vals = append(vals, uint64(int64(i)))
		conds = append(conds, e.b.Eq(v, e.b.Int(i)))
	}
	panic(splitReq{conds: conds, T: v, Vals: vals, Choice: true})
}

func svAssume(c *ictx) []Outcome {
	e := c.e
	t := e.simp(c.st, c.args[0].(*Term))
	if t == e.b.True {
		return c.ret()
	}
	if t == e.b.False || (!t.hasFloat && e.feas(c.st, t) == Unsat) {
		return nil
	}
	e.assume(c.st, t)
	return c.ret()
}

func svAssert(c *ictx) []Outcome {
	e := c.e
	msg, ok := concStr(c.args[1].(*Str))
	if !ok {
		msg = "assertion"
	}
	e.Stats.Asserts++
	t := e.simp(c.st, c.args[0].(*Term))
	if t == e.b.True {
		e.Stats.AssertTriv++
		return c.ret()
	}
	no := e.b.Not(t)
	conj := append(append([]*Term(nil), c.st.pc...), no)
	v, _ := e.decide(conj)
	switch v {
	case Unsat:
		e.Stats.AssertUn++
		return c.ret()
	case Unknown:
		e.finding(c.st, "assert", msg, "", no)
		e.assume(c.st, t)
		return c.ret()
	}
	e.finding(c.st, "assert", msg, "", no)
	if t == e.b.False || (!t.hasFloat && e.feas(c.st, t) == Unsat) {
		return nil
	}
	e.assume(c.st, t)
	return c.ret()
}

func svReach(c *ictx) []Outcome {
	e := c.e
	l := c.cname(0)
	if !e.Reached[l] {
		if v, _ := e.decide(c.st.pc); v == Sat {
			e.Reached[l] = true
		}
	}
	return c.ret()
}

func (e *Exec) lookupMethod(t types.Type, name string) *ssa.Function {
	ms := e.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---- JSON documents ----

type JNode struct {
	Kind string // obj arr num str bool null opaque
	Keys []string
	Kids []*JNode
	V    Value
	T    types.Type
}

func jsonMarshal(c *ictx) []Outcome {
	v := c.args[0].(Iface)
	n := c.jbuild(v.T, v.V, 0)
	return c.ret(c.e.docBytes(c.st, n), Iface{})
}

func (e *Exec) docBytes(st *State, n *JNode) Slice {
	name := e.fresh(st, "$jsonlen")
	e.commitFresh(st, "$jsonlen")
	l := e.b.ZExt(e.b.Var(16, name), 64)
	l = e.b.Add(l, e.b.Int(2))
	a := &ArrV{E: []Value{n}, Def: Poison{"json text"}, N: l}
	p := e.alloc(st, e.typeKey(types.Typ[types.Uint8], 5, 0), a)
	return Slice{Arr: p, Len: l, Cap: l}
}

func (e *Exec) docOf(st *State, s Slice) *JNode {
	if s.Arr.Nil() {
		return nil
	}
	a, ok := e.load(st, s.Arr).(*ArrV)
	if !ok || len(a.E) == 0 {
		return nil
	}
	n, ok := a.E[0].(*JNode)
	if !ok {
		return nil
	}
	if s.Off != 0 || s.Len != a.N {
		panic(unsup("part of a JSON document"))
	}
	return n
}

func (e *Exec) jEq(x, y *JNode) *Term {
	if x == y {
		return e.b.True
	}
	if x.Kind != y.Kind || len(x.Kids) != len(y.Kids) {
		return e.b.False
	}
	r := e.b.True
	for i := range x.Kids {
		if len(x.Keys) > 0 && x.Keys[i] != y.Keys[i] {
			return e.b.False
		}
		r = e.b.And(r, e.jEq(x.Kids[i], y.Kids[i]))
	}
	if x.V != nil {
		xt, ok1 := x.V.(*Term)
		yt, ok2 := y.V.(*Term)
		if ok1 && ok2 && xt.W != yt.W {
			panic(unsup("comparison of JSON numbers of different types"))
		}
		r = e.b.And(r, e.valEq(x.V, y.V))
	}
	return r
}

func (c *ictx) jbuild(t types.Type, v Value, depth int) *JNode {
	e := c.e
	if depth > 30 {
		panic(unsup("json depth"))
	}
	if t == nil {
		return &JNode{Kind: "null"}
	}
	if p, ok := v.(Poison); ok {
		panic(unsup("json of poison %s", p.Why))
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		iv := v.(Iface)
		return c.jbuild(iv.T, iv.V, depth+1)
	}
	if m := e.lookupMethod(t, "MarshalJSON"); m != nil {
		return c.jcustom(m, t, v)
	}
	if m := e.lookupMethod(t, "MarshalText"); m != nil {
		return &JNode{Kind: "opaque", V: v, T: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(Ptr)
		if p.Nil() {
			return &JNode{Kind: "null"}
		}
		return c.jbuild(u.Elem(), e.load(c.st, p), depth+1)
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.W == 0 {
				return &JNode{Kind: "bool", V: x, T: t}
			}
			return &JNode{Kind: "num", V: x, T: t}
		case *Str:
			return &JNode{Kind: "str", V: x, T: t}
		}
	case *types.Struct:
		n := &JNode{Kind: "obj"}
		sv := v.(*StructV)
		outer := jnames(u)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			if f.Embedded() && name == "" {
				ft, fv := f.Type(), sv.F[i]
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					if fv.(Ptr).Nil() {
						continue
					}
					ft, fv = p.Elem(), e.load(c.st, fv.(Ptr))
				}
				if _, ok := ft.Underlying().(*types.Struct); ok {
					if e.lookupMethod(ft, "MarshalJSON") != nil || e.lookupMethod(ft, "MarshalText") != nil {
						panic(unsup("json: embedded field %s", f.Name()))
					}
					// promoted fields, unless hidden
					in := c.jbuild(ft, fv, depth+1)
					for k, key := range in.Keys {
						if outer[key] > 0 {
							continue
						}
						for _, o := range n.Keys {
							if o == key {
								panic(unsup("json: ambiguous promoted field %s", key))
							}
						}
						n.Keys = append(n.Keys, key)
						n.Kids = append(n.Kids, in.Kids[k])
					}
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			if outer[name] > 1 {
				continue // ambiguous names are left out
			}
			skip := false
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					if c.jempty(f.Type(), sv.F[i]) {
						skip = true
					}
				case "string":
					panic(unsup("json ,string"))
				}
			}
			if skip {
				continue
			}
			n.Keys = append(n.Keys, name)
			n.Kids = append(n.Kids, c.jbuild(f.Type(), sv.F[i], depth+1))
		}
		return n
	case *types.Slice:
		s := v.(Slice)
		if s.Arr.Nil() {
			return &JNode{Kind: "null"}
		}
		if w, sg, _ := typeWidth(u.Elem()); w == 8 && !sg {
			return &JNode{Kind: "opaque", V: v, T: t}
		}
		k := e.concInt(c.st, s.Len, "json slice")
		n := &JNode{Kind: "arr"}
		for _, x := range e.sliceVals(c.st, s, k) {
			n.Kids = append(n.Kids, c.jbuild(u.Elem(), x, depth+1))
		}
		return n
	case *types.Array:
		n := &JNode{Kind: "arr"}
		a := v.(*ArrV)
		for i := 0; i < int(u.Len()); i++ {
			n.Kids = append(n.Kids, c.jbuild(u.Elem(), a.get(i), depth+1))
		}
		return n
	case *types.Map:
		p := v.(Ptr)
		if p.Nil() {
			return &JNode{Kind: "null"}
		}
		m := e.obj(c.st, p.Obj).V.(*MapV)
		n := &JNode{Kind: "obj"}
		for i, k := range m.Keys {
			ks, ok := k.(*Str)
			if !ok {
				panic(unsup("json map key"))
			}
			s, ok := concStr(ks)
			if !ok {
				panic(unsup("json map key"))
			}
			n.Keys = append(n.Keys, s)
			n.Kids = append(n.Kids, c.jbuild(u.Elem(), m.Vals[i], depth+1))
		}
		return n
	}
	panic(unsup("json of %s", t))
}

// jnames counts the names a structure's own fields claim: tagged ones count
// before untagged ones.
func jnames(u *types.Struct) map[string]int {
	tagged, plain := map[string]int{}, map[string]int{}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		if !f.Exported() || tag == "-" {
			continue
		}
		switch name := strings.Split(tag, ",")[0]; {
		case name != "":
			tagged[name]++
		case !f.Embedded():
			plain[f.Name()]++
		}
	}
	for k, n := range plain {
		if tagged[k] == 0 {
			tagged[k] = n
		} else {
			panic(unsup("json: field %s named twice", k))
		}
	}
	return tagged
}

// jcustom runs a MarshalJSON of the code under test.
func (c *ictx) jcustom(m *ssa.Function, t types.Type, v Value) *JNode {
	opaque := &JNode{Kind: "opaque", V: v, T: t}
	if len(m.Blocks) == 0 {
		return opaque
	}
	n, ok := t.(*types.Named)
	if p, isP := t.(*types.Pointer); isP {
		if v.(Ptr).Nil() {
			return &JNode{Kind: "null"}
		}
		n, ok = p.Elem().(*types.Named)
	}
	if !ok || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "egts-protocol") {
		return opaque
	}
	out := c.e.callFn(m, []Value{v}, nil, c.st, c.depth+1)
	if len(out) != 1 || out[0].kind != oRet {
		panic(unsup("json: %s has several outcomes", m.String()))
	}
	*c.st = *out[0].st
	if err, ok := out[0].vals[1].(Iface); !ok || err.T != nil {
		panic(unsup("json: %s fails", m.String()))
	}
	if d := c.e.docOf(c.st, out[0].vals[0].(Slice)); d != nil {
		return d
	}
	panic(unsup("json: %s renders its own text", m.String()))
}

func (c *ictx) jempty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case *Term:
		return c.known(c.e.valEq(x, c.e.zero(t)))
	case *Str:
		return !x.Opaque && len(x.B) == 0
	case Slice:
		return c.e.concInt(c.st, x.Len, "omitempty") == 0
	case Ptr:
		return x.Nil()
	case Iface:
		return x.T == nil
	}
	return false
}

func svJSON(c *ictx) []Outcome {
	e := c.e
	b := e.b
	kind := strings.TrimPrefix(c.fn.Name(), "JSON")
	d := e.docOf(c.st, c.args[0].(Slice))
	path := c.cname(1)
	fail := func() []Outcome {
		switch kind {
		case "Has":
			return c.ret(b.False)
		case "Len":
			return c.ret(b.Int(-1))
		}
		return c.zeros()
	}
	if d == nil {
		return fail()
	}
	n := d
	if path != "" {
		for _, p := range strings.Split(path, ".") {
			var next *JNode
			if n.Kind == "arr" {
				i, err := strconv.Atoi(p)
				if err == nil && i < len(n.Kids) {
					next = n.Kids[i]
				}
			} else if n.Kind == "obj" {
				for i, k := range n.Keys {
					if k == p {
						next = n.Kids[i]
					}
				}
			}
			if next == nil {
				return fail()
			}
			n = next
		}
	}
	switch kind {
	case "Has":
		return c.ret(b.True)
	case "Len":
		switch n.Kind {
		case "arr", "obj":
			return c.ret(b.Int(len(n.Kids)))
		case "null":
			return c.ret(b.Int(0))
		}
		return c.ret(b.Int(-1))
	case "Time":
		if _, ok := n.V.(*StructV); ok && n.Kind == "opaque" && n.T.String() == "time.Time" {
			return c.ret(n.V)
		}
		return fail()
	case "Bytes":
		if s, ok := n.V.(Slice); ok && n.Kind == "opaque" {
			k := e.concInt(c.st, s.Len, "JSONBytes")
			return c.ret(e.newSlice(c.st, types.Typ[types.Uint8], e.sliceVals(c.st, s, k)))
		}
		return fail()
	case "Str":
		if s, ok := n.V.(*Str); ok && n.Kind == "str" {
			return c.ret(s)
		}
		return fail()
	}
	t, ok := n.V.(*Term)
	if n.Kind != "num" || !ok {
		return fail()
	}
	if kind == "F64" {
		if t.W == WFloat {
			return c.ret(t)
		}
		_, sg, _ := typeWidth(n.T)
		return c.ret(b.FFrom(t, sg))
	}
	if t.W == WFloat {
		return fail()
	}
	return c.ret(e.to64(t, n.T))
}
