package sym

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// SMT-LIB printing. Every non-leaf term becomes one define-fun so that sharing
// is kept; floats are printed as reals with a bounded relative rounding error
// per operation (a sound relaxation of IEEE-754 round-to-nearest for results
// in the normal range) or, in precise mode, in the FloatingPoint theory.

type printer struct {
	out     *bytes.Buffer
	done    map[int]bool
	vars    map[string]*Term
	precise bool
}

func sortName(w int, precise bool) string {
	switch {
	case w == WBool:
		return "Bool"
	case w == WFloat:
		if precise {
			return "(_ FloatingPoint 11 53)"
		}
		return "Real"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func bvc(v uint64, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func ratStr(f float64) string {
	r := new(big.Rat).SetFloat64(f)
	neg := r.Sign() < 0
	r.Abs(r)
	s := fmt.Sprintf("(/ %s.0 %s.0)", r.Num(), r.Denom())
	if r.IsInt() {
		s = r.Num().String() + ".0"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func (p *printer) ref(t *Term) string {
	switch t.Op {
	case OConst:
		if t.W == WBool {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		return bvc(t.Val, t.W)
	case OFConst:
		if p.precise {
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", math.Float64bits(t.F))
		}
		return ratStr(t.F)
	case OVar:
		return varName(t)
	case ONot:
		return "(not " + p.ref(t.A[0]) + ")"
	case OBit:
		return fmt.Sprintf("(= ((_ extract %d %d) %s) #b1)", t.Val, t.Val, p.ref(t.A[0]))
	}
	return "t" + strconv.Itoa(t.ID)
}

func varName(t *Term) string { return "|" + t.Name + "|" }

// emit prints the definitions t depends on (iteratively, children first).
func (p *printer) emit(root *Term) {
	if p.done[root.ID] {
		return
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if p.done[f.t.ID] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			c := f.t.A[f.i]
			f.i++
			if !p.done[c.ID] && c.Op != OConst && c.Op != OFConst {
				st = append(st, fr{c, 0})
			}
			continue
		}
		p.def(f.t)
		p.done[f.t.ID] = true
		st = st[:len(st)-1]
	}
}

func (p *printer) def(t *Term) {
	switch t.Op {
	case OConst, OFConst, ONot, OBit:
		return
	case OVar:
		fmt.Fprintf(p.out, "(declare-const %s %s)\n", varName(t), sortName(t.W, p.precise))
		p.vars[t.Name] = t
		return
	}
	a := func(i int) string { return p.ref(t.A[i]) }
	if t.W == WFloat && !p.precise && t.Op != OIte {
		p.defReal(t)
		return
	}
	var body string
	bin := func(op string) { body = "(" + op + " " + a(0) + " " + a(1) + ")" }
	switch t.Op {
	case OAnd, OOr, OXor:
		var sb strings.Builder
		sb.WriteString(map[Op]string{OAnd: "(and", OOr: "(or", OXor: "(xor"}[t.Op])
		for _, x := range t.A {
			sb.WriteString(" " + p.ref(x))
		}
		sb.WriteString(")")
		body = sb.String()
	case OIte:
		body = "(ite " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OEq:
		bin("=")
	case OUlt:
		bin("bvult")
	case OSlt:
		bin("bvslt")
	case OAdd:
		bin("bvadd")
	case OMul:
		bin("bvmul")
	case OUDiv:
		bin("bvudiv")
	case OURem:
		bin("bvurem")
	case OSDiv:
		bin("bvsdiv")
	case OSRem:
		bin("bvsrem")
	case OBAnd:
		bin("bvand")
	case OBOr:
		bin("bvor")
	case OShl:
		bin("bvshl")
	case OLShr:
		bin("bvlshr")
	case OAShr:
		bin("bvashr")
	case OBits:
		body = p.bits(t)
	case OFLt:
		if p.precise {
			bin("fp.lt")
		} else {
			bin("<")
		}
	case OFLe:
		if p.precise {
			bin("fp.leq")
		} else {
			bin("<=")
		}
	case OFEq:
		if p.precise {
			bin("fp.eq")
		} else {
			bin("=")
		}
	case OFToS:
		if p.precise {
			body = "((_ fp.to_sbv 64) RTZ " + a(0) + ")"
		} else {
			// truncation toward zero of a real
			x := a(0)
			body = fmt.Sprintf("((_ int2bv 64) (ite (>= %s 0.0) (to_int %s) (- (to_int (- %s)))))", x, x, x)
		}
	case OFFromS:
		body = "((_ to_fp 11 53) RNE " + a(0) + ")"
	case OFFromU:
		body = "((_ to_fp_unsigned 11 53) RNE " + a(0) + ")"
	case OFAdd:
		body = "(fp.add RNE " + a(0) + " " + a(1) + ")"
	case OFSub:
		body = "(fp.sub RNE " + a(0) + " " + a(1) + ")"
	case OFMul:
		body = "(fp.mul RNE " + a(0) + " " + a(1) + ")"
	case OFDiv:
		body = "(fp.div RNE " + a(0) + " " + a(1) + ")"
	case OFNeg:
		body = "(fp.neg " + a(0) + ")"
	case OFRnd:
		body = "(fp.roundToIntegral " + [...]string{"RTN", "RTP", "RTZ", "RNA", "RNE"}[t.Val] + " " + a(0) + ")"
	case OF32:
		body = "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE " + a(0) + "))"
	default:
		panic(fmt.Sprintf("smt: op %d", t.Op))
	}
	fmt.Fprintf(p.out, "(define-fun t%d () %s %s)\n", t.ID, sortName(t.W, p.precise), body)
}

func (p *printer) defReal(t *Term) {
	a := func(i int) string { return p.ref(t.A[i]) }
	exact := ""
	rounded := true
	u := "(/ 1.0 9007199254740992.0)"
	abs := "(/ 1.0 1000000000000000000000000000000.0)"
	switch t.Op {
	case OFFromU, OFFromS:
		x := t.A[0]
		if t.Op == OFFromU {
			exact = "(to_real (bv2int " + p.ref(x) + "))"
		} else {
			exact = fmt.Sprintf("(to_real (- (bv2int (bvxor %s %s)) %s))", p.ref(x), bvc(1<<uint(x.W-1), x.W), new(big.Int).Lsh(big.NewInt(1), uint(x.W-1)))
		}
		if x.W <= 53 || x.umax <= 1<<53 {
			rounded = false
		}
	case OFAdd:
		exact = "(+ " + a(0) + " " + a(1) + ")"
	case OFSub:
		exact = "(- " + a(0) + " " + a(1) + ")"
	case OFMul:
		exact = "(* " + a(0) + " " + a(1) + ")"
	case OFDiv:
		exact = "(/ " + a(0) + " " + a(1) + ")"
	case OFNeg:
		exact = "(- " + a(0) + ")"
		rounded = false
	case OFRnd:
		x := a(0)
		rounded = false
		switch t.Val {
		case rndFloor:
			exact = "(to_real (to_int " + x + "))"
		case rndCeil:
			exact = "(- (to_real (to_int (- " + x + "))))"
		case rndTrunc:
			exact = fmt.Sprintf("(to_real (ite (>= %s 0.0) (to_int %s) (- (to_int (- %s)))))", x, x, x)
		default:
			// round half away from zero; half to even is within it or one off at
			// a tie, which the relaxation leaves open
			if t.Val == rndAway {
				exact = fmt.Sprintf("(to_real (ite (>= %s 0.0) (to_int (+ %s 0.5)) (- (to_int (- 0.5 %s)))))", x, x, x)
			} else {
				fmt.Fprintf(p.out, "(declare-const i%d Int)\n(assert (and (<= (- %s (to_real i%d)) 0.5) (<= (- (to_real i%d) %s) 0.5)))\n", t.ID, x, t.ID, t.ID, x)
				exact = fmt.Sprintf("(to_real i%d)", t.ID)
			}
		}
	case OF32:
		exact = a(0)
		u = "(/ 1.0 16777216.0)"
		abs = "(/ 1.0 100000000000000000000000000000000000000000000.0)"
	}
	if !rounded {
		fmt.Fprintf(p.out, "(define-fun t%d () Real %s)\n", t.ID, exact)
		return
	}
	// |r - x| <= 2^-53 |x| + 2^-1074
	fmt.Fprintf(p.out, "(define-fun x%d () Real %s)\n(declare-const t%d Real)\n", t.ID, exact, t.ID)
	fmt.Fprintf(p.out, "(define-fun e%d () Real (+ (* %s (ite (>= x%d 0.0) x%d (- x%d))) %s))\n", t.ID, u, t.ID, t.ID, t.ID, abs)
	fmt.Fprintf(p.out, "(assert (and (<= (- t%d x%d) e%d) (<= (- x%d t%d) e%d)))\n", t.ID, t.ID, t.ID, t.ID, t.ID, t.ID)
}

func (p *printer) bits(t *Term) string {
	var parts []string // most significant first
	i := len(t.A) - 1
	for i >= 0 {
		x := t.A[i]
		switch {
		case x.IsConst():
			j := i
			s := ""
			for j >= 0 && t.A[j].IsConst() {
				if t.A[j].Val == 1 {
					s += "1"
				} else {
					s += "0"
				}
				j--
			}
			parts = append(parts, "#b"+s)
			i = j
		case x.Op == OBit:
			j := i
			for j-1 >= 0 && t.A[j-1].Op == OBit && t.A[j-1].A[0] == x.A[0] && t.A[j-1].Val+uint64(i-j+1) == x.Val {
				j--
			}
			w := x.A[0]
			lo := t.A[j].Val
			if lo == 0 && int(x.Val) == w.W-1 {
				parts = append(parts, p.ref(w))
			} else {
				parts = append(parts, fmt.Sprintf("((_ extract %d %d) %s)", x.Val, lo, p.ref(w)))
			}
			i = j - 1
		default:
			parts = append(parts, "(ite "+p.ref(x)+" #b1 #b0)")
			i--
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(concat " + strings.Join(parts, " ") + ")"
}

// ---- incremental solver process ----

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

func (v Verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

type SolverStats struct {
	Queries    int // queries answered by a solver process
	QUnsat     int
	QSat       int
	QUnknown   int
	CacheHits  int // answered by evaluating an earlier model
	SolverTime time.Duration
	MaxQuery   time.Duration
	OneShot    int
}

type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	rd     *bufio.Reader
	p      *printer
	stack  []*Term
	Stats  SolverStats
	b      *B
	models []*Evaluator
	dead   bool
	bin    []string
	nDefs  int
}

var SolverBin = []string{"z3-new", "-in"}

func NewSolver(b *B) *Solver {
	s := &Solver{b: b, bin: SolverBin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.rd = bufio.NewReaderSize(out, 1<<16)
	s.p = &printer{out: &bytes.Buffer{}, done: map[int]bool{}, vars: map[string]*Term{}}
	s.stack = nil
	s.dead = false
	s.p.out.WriteString("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout 20000)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Interrupt ends the solver process from another goroutine; the query that
// waits for it is then undecided.
func (s *Solver) Interrupt() {
	if c := s.cmd; c != nil && c.Process != nil {
		c.Process.Kill()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.rd.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

// tryModels looks for a cached model of the conjunction.
func (s *Solver) tryModels(conj []*Term) *Evaluator {
	for k := len(s.models) - 1; k >= 0; k-- {
		ev := s.models[k]
		ok := true
		for i := len(conj) - 1; i >= 0; i-- {
			if !ev.Bool(conj[i]) {
				ok = false
				break
			}
		}
		if ok {
			if k != len(s.models)-1 { // move to the most recent position
				copy(s.models[k:], s.models[k+1:])
				s.models[len(s.models)-1] = ev
			}
			return ev
		}
	}
	return nil
}

func (s *Solver) addModel(m Model) *Evaluator {
	ev := NewEvaluator(m)
	s.models = append(s.models, ev)
	if len(s.models) > 24 {
		s.models = s.models[1:]
	}
	return ev
}

// Check decides the satisfiability of a conjunction of float-free terms.
func (s *Solver) Check(conj []*Term) (Verdict, *Evaluator) {
	for _, c := range conj {
		if c == s.b.False {
			return Unsat, nil
		}
	}
	if ev := s.tryModels(conj); ev != nil {
		s.Stats.CacheHits++
		return Sat, ev
	}
	t0 := time.Now()
	v, ev := s.check(conj)
	d := time.Since(t0)
	s.Stats.SolverTime += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	s.Stats.Queries++
	switch v {
	case Unsat:
		s.Stats.QUnsat++
	case Sat:
		s.Stats.QSat++
	default:
		s.Stats.QUnknown++
	}
	return v, ev
}

func (s *Solver) check(conj []*Term) (Verdict, *Evaluator) {
	// align the assertion stack
	n := 0
	for n < len(s.stack) && n < len(conj) && s.stack[n] == conj[n] {
		n++
	}
	o := s.p.out
	if len(s.stack) > n {
		fmt.Fprintf(o, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, c := range conj[n:] {
		s.p.emit(c)
		fmt.Fprintf(o, "(push 1)\n(assert %s)\n", s.p.ref(c))
		s.stack = append(s.stack, c)
	}
	o.WriteString("(check-sat)\n")
	if _, err := s.in.Write(o.Bytes()); err != nil {
		s.restart()
		return Unknown, nil
	}
	o.Reset()
	l, err := s.readLine()
	if err != nil {
		s.restart()
		return Unknown, nil
	}
	switch l {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		if l != "unknown" && l != "timeout" {
			panic("solver error: " + l)
		}
		return Unknown, nil
	}
	m, err := s.getModel()
	if err != nil {
		s.restart()
		return Sat, nil
	}
	return Sat, s.addModel(m)
}

func (s *Solver) getModel() (Model, error) {
	m := Model{}
	if len(s.p.vars) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.p.vars {
		sb.WriteString(varName(v) + " ")
	}
	sb.WriteString("))\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return nil, err
	}
	txt, err := readSexp(s.rd)
	if err != nil {
		return nil, err
	}
	parseValues(txt, m)
	return m, nil
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	quoted := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(c)
		if quoted {
			if c == '|' {
				quoted = false
			}
			continue
		}
		switch c {
		case '|':
			quoted = true
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseValues reads ((|x| #x01) (|y| true) ...) into m.
func parseValues(txt string, m Model) {
	i := 0
	for {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			return
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		name := txt[i : i+k]
		i += k + 1
		for i < len(txt) && txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		rest := txt[i:]
		switch {
		case strings.HasPrefix(rest, "#x"):
			e := strings.IndexAny(rest, ") \n")
			v, _ := strconv.ParseUint(rest[2:e], 16, 64)
			m[name] = v
		case strings.HasPrefix(rest, "#b"):
			e := strings.IndexAny(rest, ") \n")
			v, _ := strconv.ParseUint(rest[2:e], 2, 64)
			m[name] = v
		case strings.HasPrefix(rest, "true"):
			m[name] = 1
		case strings.HasPrefix(rest, "false"):
			m[name] = 0
		case strings.HasPrefix(rest, "(fp "):
			f := strings.Fields(strings.TrimRight(rest[4:strings.IndexByte(rest, ')')], ")"))
			var sgn, ex, mant uint64
			p := func(s string) uint64 {
				if strings.HasPrefix(s, "#b") {
					v, _ := strconv.ParseUint(s[2:], 2, 64)
					return v
				}
				v, _ := strconv.ParseUint(strings.TrimPrefix(s, "#x"), 16, 64)
				return v
			}
			sgn, ex, mant = p(f[0]), p(f[1]), p(f[2])
			m[name] = sgn<<63 | ex<<52 | mant
		default:
			// real value: (/ a b), a.0, (- x)
			end, r := parseReal(rest)
			if r != nil {
				f, _ := r.Float64()
				m[name] = math.Float64bits(f)
			}
			i += end
		}
	}
}

func parseReal(s string) (int, *big.Rat) {
	// minimal s-expression reader
	pos := 0
	var rd func() *big.Rat
	skip := func() {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
			pos++
		}
	}
	rd = func() *big.Rat {
		skip()
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			skip()
			op := s[pos]
			pos++
			x := rd()
			if x == nil {
				return nil
			}
			r := x
			if op == '-' {
				r = new(big.Rat).Neg(x)
			} else if op == '/' {
				y := rd()
				if y == nil || y.Sign() == 0 {
					return nil
				}
				r = new(big.Rat).Quo(x, y)
			}
			skip()
			if pos < len(s) && s[pos] == ')' {
				pos++
			}
			return r
		}
		e := pos
		for e < len(s) && (s[e] >= '0' && s[e] <= '9' || s[e] == '.' || s[e] == '?') {
			e++
		}
		r, ok := new(big.Rat).SetString(strings.TrimRight(s[pos:e], "?"))
		pos = e
		if !ok {
			return nil
		}
		return r
	}
	r := rd()
	return pos, r
}

// Script renders a one-shot query.
func Script(conj []*Term, precise bool, logic string) (string, map[string]*Term) {
	p := &printer{out: &bytes.Buffer{}, done: map[int]bool{}, vars: map[string]*Term{}, precise: precise}
	p.out.WriteString("(set-option :produce-models true)\n")
	if logic != "" {
		fmt.Fprintf(p.out, "(set-logic %s)\n", logic)
	}
	for _, c := range conj {
		p.emit(c)
	}
	for _, c := range conj {
		fmt.Fprintf(p.out, "(assert %s)\n", p.ref(c))
	}
	p.out.WriteString("(check-sat)\n")
	if len(p.vars) > 0 {
		p.out.WriteString("(get-value (")
		for _, v := range p.vars {
			p.out.WriteString(varName(v) + " ")
		}
		p.out.WriteString("))\n")
	}
	return p.out.String(), p.vars
}

// OneShot races several fresh solvers on a conjunction (used when the
// incremental solver gives up, and for queries with floats).
func (s *Solver) OneShot(conj []*Term, timeout time.Duration, precise bool) (Verdict, *Evaluator) {
	hasF := false
	for _, c := range conj {
		if c == s.b.False {
			return Unsat, nil
		}
		if c.hasFloat {
			hasF = true
		}
	}
	t0 := time.Now()
	type res struct {
		v Verdict
		m Model
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	var cmds [][]string
	script, _ := Script(conj, precise, "")
	cvcScript := script
	if hasF && !precise {
		cvcScript, _ = Script(conj, precise, "ALL")
		cmds = [][]string{{"z3-new", "-in"}, {"z3", "-in"}, {"cvc5", "--produce-models", "-"}}
	} else if hasF {
		cvcScript, _ = Script(conj, precise, "QF_BVFP")
		cmds = [][]string{{"z3-new", "-in"}, {"cvc5", "--produce-models", "-"}}
	} else {
		cvcScript, _ = Script(conj, precise, "QF_BV")
		cmds = [][]string{{"z3-new", "-in"}, {"cvc5", "--produce-models", "-"}, {"z3", "-in"}}
	}
	ch := make(chan res, len(cmds))
	for _, c := range cmds {
		c := c
		sc := script
		if c[0] == "cvc5" {
			sc = cvcScript
		}
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(sc)
			out, _ := cmd.Output()
			txt := string(out)
			r := res{v: Unknown}
			first := strings.TrimSpace(strings.SplitN(txt, "\n", 2)[0])
			switch first {
			case "unsat":
				r.v = Unsat
			case "sat":
				r.v = Sat
				r.m = Model{}
				if k := strings.IndexByte(txt, '('); k >= 0 && !strings.Contains(txt, "(error") {
					parseValues(txt[k:], r.m)
				}
			}
			ch <- r
		}()
	}
	v := Unknown
	var ev *Evaluator
	for range cmds {
		r := <-ch
		if r.v != Unknown {
			v = r.v
			if r.v == Sat {
				ev = NewEvaluator(r.m)
			}
			break
		}
	}
	d := time.Since(t0)
	s.Stats.SolverTime += d
	s.Stats.Queries++
	s.Stats.OneShot++
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	switch v {
	case Unsat:
		s.Stats.QUnsat++
	case Sat:
		s.Stats.QSat++
	default:
		s.Stats.QUnknown++
	}
	return v, ev
}
