package sym

// varSet is a bit set of variable numbers.
type varSet []uint64

func (a varSet) meets(b varSet) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

// union returns a new set.
func (a varSet) union(b varSet) varSet {
	if len(a) < len(b) {
		a, b = b, a
	}
	r := append(varSet(nil), a...)
	for i := range b {
		r[i] |= b[i]
	}
	return r
}

// varsOf returns the variables of a term (cached).
func (b *B) varsOf(t *Term) varSet {
	if b.varSets == nil {
		b.varSets = map[int]varSet{}
		b.varNum = map[int]int{}
	}
	if s, ok := b.varSets[t.ID]; ok {
		return s
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.A) {
			c := f.t.A[f.i]
			f.i++
			if _, ok := b.varSets[c.ID]; !ok {
				st = append(st, fr{c, 0})
			}
			continue
		}
		var s varSet
		if f.t.Op == OVar {
			n, ok := b.varNum[f.t.ID]
			if !ok {
				n = len(b.varNum)
				b.varNum[f.t.ID] = n
			}
			s = make(varSet, n/64+1)
			s[n/64] |= 1 << uint(n%64)
		} else {
			for _, c := range f.t.A {
				s = s.unionShare(b.varSets[c.ID])
			}
		}
		b.varSets[f.t.ID] = s
		st = st[:len(st)-1]
	}
	return b.varSets[t.ID]
}

// unionShare is union that returns an operand unchanged where it can.
func (a varSet) unionShare(b varSet) varSet {
	sub := func(x, y varSet) bool { // x within y
		if len(x) > len(y) {
			return false
		}
		for i := range x {
			if x[i]&^y[i] != 0 {
				return false
			}
		}
		return true
	}
	if sub(b, a) {
		return a
	}
	if sub(a, b) {
		return b
	}
	return a.union(b)
}
