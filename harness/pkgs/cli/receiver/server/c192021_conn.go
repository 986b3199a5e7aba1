package server

import (
	"errors"
	"io"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// vhShared is one store behind several connections; owner says on whose behalf
// the handler that is running was started.
type vhShared struct {
	owner int
	docs  [3][][]byte
	hook  func()
}

func (s *vhShared) Save(m interface{ ToBytes() ([]byte, error) }) error {
	o := s.owner
	if s.hook != nil {
		s.hook()
	}
	b, err := m.ToBytes()
	if err != nil {
		return err
	}
	s.docs[o] = append(s.docs[o], b)
	return nil
}

// vhLife is everything one terminal sends and should see.
type vhLife struct {
	in   []byte
	rs   [][]*vhSent
	pids []uint16
	want []*vhNav
	c    *vhConn
	srv  *Server
	st   *vhShared
}

// vhTalk is a terminal that first identifies itself (0: by a terminal
// identity, 1: by the object identifier of its first record, 2: not at all
// because each of its records does) and then sends a position, in packets of
// their own or (together) in one packet.
func vhTalk(style int, together bool) *vhLife {
	l := &vhLife{}
	var rs []*vhSent
	switch style {
	case 0:
		rs = []*vhSent{vhMkRec(vhKIdentity), vhMkRec(vhKPos)}
	case 1:
		rs = []*vhSent{vhMkRec(vhKTwo), vhMkRec(vhKPos)}
	default:
		rs = []*vhSent{vhMkRec(vhKPosOID)}
	}
	var client uint32
	var cur []*vhSent
	var pid uint16
	flush := func() {
		l.rs, l.pids = append(l.rs, cur), append(l.pids, pid)
		l.in = append(l.in, vhFrame(pid, 1, vhBody(cur))...)
		cur = nil
	}
	for i, r := range rs {
		if !together || i == 0 {
			pid = sv.U16("pid")
		}
		if r.hasID {
			client = r.id
		}
		if r.nav != nil {
			r.nav.client, r.nav.pid = client, uint32(pid)
			l.want = append(l.want, r.nav)
		}
		cur = append(cur, r)
		if !together {
			flush()
		}
	}
	if together {
		flush()
	}
	return l
}

func (l *vhLife) run(owner int) {
	o := l.st.owner
	l.st.owner = owner
	verifHandle(l.srv, l.c)
	l.st.owner = o
}

func (l *vhLife) check(docs [][]byte, t0, t1 time.Time) {
	sv.Assert(l.c.closed > 0, "the connection is not closed when its handler returns")
	out := l.c.bytes()
	for i, rs := range l.rs {
		out = vhAcked(out, l.pids[i], rs)
	}
	sv.Assert(len(out) == 0, "a terminal is sent more than the replies to its packets")
	sv.Assert(len(docs) == len(l.want), "not exactly the records of a terminal are stored")
	if len(docs) != len(l.want) {
		return
	}
	for i, n := range l.want {
		vhSaved(docs[i], n, t0, t1)
	}
}

// VH_C19_nested runs a whole connection at any point where another one waits
// for its peer or its store.
// Bounds: 2 terminals of 3 styles, packets of one or two records, every value, the second connection starting and ending at any read, write or save of the first; packets arrive whole or (thorough) in two pieces
// Reach: isolated
// Budget: 600
func VH_C19_nested() {
	sh := &vhShared{}
	repo := storage.NewRepository()
	repo.AddStore(sh)
	srv := New("127.0.0.1:0", vhTTL, repo)
	tog := sv.Choose("together", 0, 1) == 1
	a, b := vhTalk(sv.Choose("a", 0, 2), tog), vhTalk(sv.Choose("b", 0, 2), !tog)
	every := 0
	if sv.Thorough() {
		every = []int{0, 25}[sv.Choose("every", 0, 1)]
	}
	a.c, b.c = &vhConn{in: a.in, end: io.EOF, every: every}, &vhConn{in: b.in, end: io.EOF, every: every}
	a.srv, b.srv, a.st, b.st = &srv, &srv, sh, sh
	at := sv.Choose("at", 0, 24)
	n := 0
	ran := false
	t0 := time.Now()
	hook := func() {
		if n == at && !ran {
			ran = true
			sh.hook, a.c.hook = nil, nil
			sv.Enter()
			b.run(2)
			sv.Leave()
		}
		n++
	}
	sh.hook, a.c.hook = hook, hook
	a.run(1)
	if !ran {
		return // the first connection has fewer such points
	}
	t1 := time.Now()
	a.check(sh.docs[1], t0, t1)
	b.check(sh.docs[2], t0, t1)
	sv.Reach("isolated")
}

// VH_C19_sequence runs connections one after the other.
// Bounds: 2 terminals of 3 styles, packets of one or two records, every value
// Reach: isolated
func VH_C19_sequence() {
	sh := &vhShared{}
	repo := storage.NewRepository()
	repo.AddStore(sh)
	srv := New("127.0.0.1:0", vhTTL, repo)
	tog := sv.Choose("together", 0, 1) == 1
	a, b := vhTalk(sv.Choose("a", 0, 2), tog), vhTalk(sv.Choose("b", 0, 2), !tog)
	a.c, b.c = &vhConn{in: a.in, end: io.EOF}, &vhConn{in: b.in, end: io.EOF}
	a.srv, b.srv, a.st, b.st = &srv, &srv, sh, sh
	t0 := time.Now()
	a.run(1)
	b.run(2)
	t1 := time.Now()
	a.check(sh.docs[1], t0, t1)
	b.check(sh.docs[2], t0, t1)
	sv.Reach("isolated")
}

// VH_C19_anonymous sends the position of a terminal that gives no identity,
// on its own, after another terminal's connection and in the middle of it.
// Bounds: a terminal of 3 styles, packets of one or two records, every value, and one that sends a position without any identifier; its connection comes first and again after or at any read, write or save of the other
// Reach: isolated
func VH_C19_anonymous() {
	sh := &vhShared{}
	repo := storage.NewRepository()
	repo.AddStore(sh)
	srv := New("127.0.0.1:0", vhTTL, repo)
	a := vhTalk(sv.Choose("a", 0, 2), sv.Choose("together", 0, 1) == 1)
	q := vhMkRec(vhKPos)
	pid := sv.U16("pid")
	in := vhFrame(pid, 1, q.bytes)
	a.c = &vhConn{in: a.in, end: io.EOF}
	a.srv, a.st = &srv, sh
	alone := &vhConn{in: in, end: io.EOF}
	sh.owner = 2
	verifHandle(&srv, alone)
	before := sh.docs[2]
	sh.docs[2] = nil
	sh.owner = 0
	b := &vhConn{in: in, end: io.EOF}
	at, n, ran := sv.Choose("at", 0, 13), 0, false
	run := func() {
		ran = true
		o := sh.owner
		sh.hook, a.c.hook = nil, nil
		sh.owner = 2
		verifHandle(&srv, b)
		sh.owner = o
	}
	if at < 13 {
		hook := func() {
			if n == at && !ran {
				run()
			}
			n++
		}
		sh.hook, a.c.hook = hook, hook
	}
	a.run(1)
	if !ran {
		if at < 13 {
			return // the first connection has fewer such points
		}
		run()
	}
	sv.Assert(len(sh.docs[2]) == len(before), "what is stored for a terminal depends on another terminal")
	sv.Assert(len(vhAcked(b.bytes(), pid, []*vhSent{q})) == 0, "a terminal is sent more than the replies to its packets")
	if len(sh.docs[2]) != len(before) {
		return
	}
	for i := range before {
		x, y := before[i], sh.docs[2][i]
		sv.Assert(sv.JSONU64(x, "client") == sv.JSONU64(y, "client"), "a record is stored with the identity of another terminal")
		sv.Assert(sv.JSONU64(x, "packet_id") == sv.JSONU64(y, "packet_id"), "a record is stored with the values of another terminal")
	}
	sv.Reach("isolated")
}

// VH_C20_bytes feeds arbitrary bytes to a connection handler.
// Bounds: every byte string of 0..16 bytes (thorough: 0..20); the connection then ends, fails or times out
// Reach: done
// Budget: 600
func VH_C20_bytes() {
	m := 16
	if sv.Thorough() {
		m = 20
	}
	b := sv.Bytes("d", sv.Choose("n", 0, m))
	c := &vhConn{in: b, end: vhEnd()}
	verifHandle(vhServer(&vhStore{}), c)
	sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
	sv.Reach("done")
}

func vhEnd() error {
	return []error{io.EOF, errors.New("connection reset by peer"), vhTimeout{}}[sv.Choose("end", 0, 2)]
}

// vhSurvives sends a frame with correct checksums and an arbitrary content,
// and then (tail) a good packet, which must be stored whatever came before.
func vhSurvives(pt byte, body []byte, tail bool) {
	f := vhFrame(sv.U16("pid"), pt, body)
	if !tail {
		c := &vhConn{in: f, end: io.EOF}
		verifHandle(vhServer(&vhStore{}), c)
		sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
		sv.Reach("done")
		return
	}
	r := vhMkRec(vhKPosOID)
	sh := &vhStore{}
	c := &vhConn{in: append(f, vhFrame(sv.U16("pid"), 1, r.bytes)...), end: io.EOF, st: sh}
	verifHandle(vhServer(sh), c)
	sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
	sv.Assert(len(sh.docs) >= 1, "a good packet after an odd one is not stored")
	sv.Reach("done")
}

// VH_C20_body feeds frames with correct checksums and arbitrary data.
// Bounds: data of 0..14 arbitrary bytes (thorough: 0..18), application data and responses; a good packet follows
// Reach: done
// Budget: 600
func VH_C20_body() {
	m := 14
	if sv.Thorough() {
		m = 18
	}
	vhSurvives(byte(sv.Choose("pt", 0, 1)), sv.Bytes("d", sv.Choose("n", 0, m)), true)
}

// VH_C20_subrecord feeds one record with one subrecord of arbitrary content.
// Bounds: every subrecord type, 0..12 arbitrary bytes (thorough: 0..30)
// Reach: done
// Budget: 600
func VH_C20_subrecord() {
	m := 12
	if sv.Thorough() {
		m = 30
	}
	t := sv.Byte("type")
	vhSurvives(1, vhRecOID(sv.U16("rn"), sv.U32("oid"), sv.Byte("svc"), vhSub(t, sv.Bytes("d", sv.Choose("n", 0, m)))), false)
}

// vhArbSub is a subrecord of a known type with the length its type has and
// arbitrary contents.
func vhArbSub(kind int) []byte {
	switch kind {
	case 0:
		return vhSub(16, append(sv.Bytes("d", 12), append([]byte{sv.Byte("flg") & 0x7F}, sv.Bytes("d", 8)...)...))
	case 1:
		return vhSub(17, append([]byte{0x1F}, sv.Bytes("d", 9)...))
	case 2:
		return vhSub(18, append([]byte{0, sv.Byte("dout"), 0x81}, sv.Bytes("d", 6)...))
	case 3:
		return vhSub(24, sv.Bytes("d", 4))
	case 4:
		return vhSub(25, sv.Bytes("d", 4))
	case 5:
		return vhSub(27, append([]byte{sv.Byte("flg") & 0x77}, sv.Bytes("d", 6)...))
	case 6:
		return vhSub(1, append(sv.Bytes("d", 4), 0))
	case 7:
		return vhSub(7, []byte{0, 0})
	case 8:
		return vhSub(0, sv.Bytes("d", 3))
	case 9:
		return vhSub(9, sv.Bytes("d", 1))
	case 10:
		return vhSub(21, sv.Bytes("d", 5))
	case 11:
		return vhSub(19, append([]byte{1}, sv.Bytes("d", 3)...))
	default:
		return vhSub(200, sv.Bytes("d", 2))
	}
}

// VH_C20_pair feeds subrecords of arbitrary contents together.
// Bounds: 2 subrecords (thorough: 3) of 13 kinds in one record, then a position; every value; a good packet follows
// Reach: done
// Budget: 300
func VH_C20_pair() {
	m := 2
	if sv.Thorough() {
		m = 3
	}
	var rd []byte
	for i := 0; i < m; i++ {
		rd = append(rd, vhArbSub(sv.Choose("kind", 0, 12))...)
	}
	rd = append(rd, vhPosSub(&vhNav{fix: true}, false)...)
	vhSurvives(1, vhRecOID(sv.U16("rn"), sv.U32("oid"), sv.Byte("svc"), rd), true)
}

// VH_C20_records feeds subrecords of arbitrary contents in records of their own.
// Bounds: 2 records with one subrecord of 13 kinds each in one packet or in two; every value; a good packet follows
// Reach: done
// Budget: 300
func VH_C20_records() {
	a := vhRecOID(sv.U16("rn"), sv.U32("oid"), sv.Byte("svc"), vhArbSub(sv.Choose("kind", 0, 12)))
	b := vhRecNo(sv.U16("rn"), sv.Byte("svc"), vhArbSub(sv.Choose("kind", 0, 12)))
	var in []byte
	if sv.Choose("same", 0, 1) == 1 {
		in = vhFrame(sv.U16("pid"), 1, append(a, b...))
	} else {
		in = append(vhFrame(sv.U16("pid"), 1, a), vhFrame(sv.U16("pid"), 1, b)...)
	}
	r := vhMkRec(vhKPosOID)
	st := &vhStore{}
	c := vhRun(st, append(in, vhFrame(sv.U16("pid"), 1, r.bytes)...))
	sv.Assert(len(st.docs) >= 1, "a good packet after an odd one is not stored")
	sv.Assert(len(c.out) >= 1, "a good packet after an odd one is not answered")
	sv.Reach("done")
}

// VH_C20_header feeds headers with arbitrary fields.
// Bounds: header of 11 bytes starting with 1, header length 0..20, announced data length 0, 1, 11..13, 300 or 65535, the other bytes arbitrary, with a correct header checksum; 14 further bytes; the connection then ends, fails or times out
// Reach: done
// Budget: 600
func VH_C20_header() {
	h := sv.Bytes("h", 10)
	h[0] = 1
	h[3] = byte(sv.Choose("hl", 0, 20))
	n := []int{0, 1, 11, 12, 13, 300, 65535}[sv.Choose("fdl", 0, 6)]
	h[5], h[6] = byte(n), byte(n>>8)
	h = append(h, vhCRC8(h))
	body := vhRecOID(1, 2, 2, []byte{200, 0, 0})[:12]
	c := &vhConn{in: vh16(append(h, body...), vhCRC16(body)), end: vhEnd()}
	verifHandle(vhServer(&vhStore{}), c)
	sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
	sv.Reach("done")
}

// VH_C20_faults runs a good conversation whose replies or saves fail.
// Bounds: 2 packets of 10 kinds of records; every reply fails to be written; every save fails or not
// Reach: done
func VH_C20_faults() {
	st := &vhStore{fail: []bool{sv.Choose("f", 0, 1) == 1, sv.Choose("f", 0, 1) == 1}}
	var in []byte
	for i := 0; i < 2; i++ {
		in = append(in, vhFrame(sv.U16("pid"), 1, vhMkRec(sv.Choose("kind", 0, vhKinds-1)).bytes)...)
	}
	c := &vhConn{in: in, end: vhEnd(), st: st, werr: errors.New("broken pipe")}
	verifHandle(vhServer(st), c)
	sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
	sv.Reach("done")
}

// VH_C20_nostore: a server without a store refuses connections.
// Bounds: one good packet
// Reach: done
func VH_C20_nostore() {
	s := New("127.0.0.1:0", vhTTL, nil)
	c := &vhConn{in: vhFrame(sv.U16("pid"), 1, vhMkRec(vhKPosOID).bytes), end: io.EOF}
	verifHandle(&s, c)
	sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
	sv.Assert(len(c.out) == 0, "a packet that cannot be stored is confirmed")
	sv.Reach("done")
}

// VH_C21_deadline: while the handler waits for a packet the read deadline is
// set to the configured time to live from then.
// Bounds: 0..2 packets (thorough: 0..3) of 3 kinds (good, malformed, response) arriving whole or in pieces of 7 bytes, time to live of 1 ms, 5 s or 1 h
// Reach: deadline
func VH_C21_deadline() {
	ttl := []time.Duration{time.Millisecond, 5 * time.Second, time.Hour}[sv.Choose("ttl", 0, 2)]
	var in []byte
	var starts []int
	m := 2
	if sv.Thorough() {
		m = 3
	}
	for k := sv.Choose("n", 0, m); k > 0; k-- {
		starts = append(starts, len(in))
		switch sv.Choose("kind", 0, 2) {
		case 0:
			in = append(in, vhFrame(sv.U16("pid"), 1, vhMkRec(vhKPosOID).bytes)...)
		case 1:
			f := vhFrame(sv.U16("pid"), 1, nil)
			f[10] ^= 1
			in = append(in, f...)
		default:
			in = append(in, vhFrame(sv.U16("pid"), 0, append(vh16(nil, sv.U16("rpid")), 0))...)
		}
	}
	starts = append(starts, len(in))
	st := &vhStore{}
	repo := storage.NewRepository()
	repo.AddStore(st)
	s := New("127.0.0.1:0", ttl, repo)
	c := &vhConn{in: in, end: vhTimeout{}, st: st, every: []int{0, 7}[sv.Choose("every", 0, 1)]}
	last := time.Now()
	seen := 0
	c.rhook = func() {
		now := time.Now()
		sv.Assert(c.dlSet > 0, "waiting for the peer without a read deadline")
		sv.Assert(!c.rdl.IsZero(), "waiting for the peer without a read deadline")
		sv.Assert(!c.rdl.After(now.Add(ttl)), "the read deadline is too late")
		// packets that were read together with others need no deadline of their own
		exact := false
		for len(starts) > 0 && starts[0] <= c.pos {
			exact = starts[0] == c.pos
			starts = starts[1:]
		}
		if exact {
			sv.Assert(c.dlSet > seen, "no new read deadline while waiting for a packet")
			sv.Assert(!c.rdl.Before(last.Add(ttl)), "the read deadline is too early")
			seen = c.dlSet
			if c.pos == len(in) {
				sv.Reach("deadline")
			}
		}
		last = now
	}
	verifHandle(&s, c)
	sv.Assert(len(starts) == 0, "the handler stops before the peer is silent for too long")
	sv.Assert(c.closed > 0, "the connection is not closed after the time to live")
}
