package server

import (
	"io"
	"time"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// Kinds of records the receiver is sent.
const (
	vhKPosOID   = iota // a position, with an object identifier
	vhKPos             // a position, without one
	vhKState           // no position, with an object identifier
	vhKNone            // no position and no object identifier
	vhKIdentity        // a terminal identity, without an object identifier
	vhKAuth            // authentication data
	vhKUnknown         // a subrecord of unknown type, with an object identifier
	vhKTwo             // a position between two other subrecords
	vhKResponse        // a record confirmation, without an object identifier
	vhKEmpty           // no subrecords, with an object identifier
	vhKinds
)

// vhSent is a record as sent.
type vhSent struct {
	kind   int
	rn     uint16
	bytes  []byte
	nav    *vhNav // set if it has a position
	id     uint32
	hasID  bool
	auth   bool
	failed bool
}

// vhIMEI: whether terminal identities carry an IMEI, -1 to choose anew each time.
var vhIMEI = -1

func vhTermID(tid uint32) []byte {
	f := byte(0x00)
	b := vh32(nil, tid)
	imei := vhIMEI
	if imei < 0 {
		imei = sv.Choose("imei", 0, 1)
	}
	if imei == 1 {
		f = 0x02
		b = append(append(b, f), []byte("012345678901234")...)
		return vhSub(1, b)
	}
	return vhSub(1, append(b, f))
}

func vhMkRec(kind int) *vhSent {
	r := &vhSent{kind: kind, rn: sv.U16("rn")}
	svc := sv.Byte("svc")
	var rd []byte
	switch kind {
	case vhKPosOID, vhKPos, vhKTwo:
		r.nav = &vhNav{fix: true}
		if kind == vhKTwo {
			rd = vhCtrSub(r.nav, 0)
		}
		rd = append(rd, vhPosSub(r.nav, false)...)
		if kind == vhKTwo {
			rd = append(rd, vhAbsAnSub(r.nav)...)
		}
	case vhKState, vhKNone:
		rd = vhSub(21, sv.Bytes("state", 5))
	case vhKIdentity:
		r.auth, r.hasID, r.id = true, true, sv.U32("tid")
		rd = vhTermID(r.id)
	case vhKAuth:
		r.auth = true
		rd = vhSub(7, []byte{'u', 0, 'p', 0})
	case vhKResponse:
		rd = vhSub(0, sv.Bytes("resp", 3))
	case vhKUnknown:
		rd = vhSub(200, sv.Bytes("unk", 3))
	}
	if kind == vhKPosOID || kind == vhKState || kind == vhKUnknown || kind == vhKTwo || kind == vhKEmpty {
		r.hasID, r.id = true, sv.U32("oid")
		r.bytes = vhRecOID(r.rn, r.id, svc, rd)
	} else {
		r.bytes = vhRecNo(r.rn, svc, rd)
	}
	return r
}

func vhBody(rs []*vhSent) []byte {
	var b []byte
	for _, r := range rs {
		b = append(b, r.bytes...)
	}
	return b
}

// vhAcked takes the replies to one packet off the front of out: exactly one
// response that confirms every record in order, and one result code when the
// packet carried authentication data.
func vhAcked(out []byte, pid uint16, rs []*vhSent) []byte {
	want := 1
	for _, r := range rs {
		if r.auth {
			want = 2
		}
	}
	nresp, nres := 0, 0
	for i := 0; i < want; i++ {
		if len(out) == 0 {
			sv.Assert(nresp == 1, "no response to a packet with application data")
			sv.Assert(false, "no result code after authentication")
			return nil
		}
		pt, body, rest := vhReply(out)
		out = rest
		if pt != 0 {
			sv.Assert(pt == 1, "a reply is neither a response nor application data")
			sv.Assert(want == 2, "application data sent without authentication")
			nres++
			vhIsResult(body)
			continue
		}
		nresp++
		rn, st := vhConfirms(body, pid, 0)
		sv.Assert(len(rn) == len(rs), "the response does not confirm each record once")
		if len(rn) != len(rs) {
			return out
		}
		for k, r := range rs {
			sv.Assert(rn[k] == r.rn, "the response confirms another record number")
			sv.Assert((st[k] == 0) == !r.failed, "the response has the wrong record status")
		}
	}
	sv.Assert(nresp == 1, "not exactly one response to a packet")
	sv.Assert(nres == want-1, "not exactly one result code after authentication")
	return out
}

// vhIsResult: the application data is a successful result code.
func vhIsResult(b []byte) {
	sv.Assert(len(b) >= 7, "a result record is too short")
	if len(b) < 7 {
		return
	}
	k := 7
	for i := uint(0); i < 3; i++ {
		if b[4]>>i&1 != 0 {
			k += 4
		}
	}
	sv.Assert(int(vhU16(b))+k == len(b), "a result packet has the wrong lengths")
	if len(b) < k+4 {
		sv.Assert(false, "a result record is too short")
		return
	}
	sv.Assert(vhEq(b[k:], []byte{9, 1, 0, 0}), "the result packet is not a successful result code")
}

// VH_C16_acks answers one packet with application data.
// Bounds: 0..2 records (thorough: 0..3) of 10 kinds, every record number and value, every combination of failing saves, every packet identifier, with and without routing fields
// Reach: answered failed auth
// Budget: 300
func VH_C16_acks() {
	max := 2
	if sv.Thorough() {
		max = 3
	}
	st := &vhStore{}
	var rs []*vhSent
	for i := sv.Choose("n", 0, max); i > 0; i-- {
		r := vhMkRec(sv.Choose("kind", 0, vhKinds-1))
		if r.nav != nil {
			r.failed = sv.Choose("fail", 0, 1) == 1
			st.fail = append(st.fail, r.failed)
			if r.failed {
				sv.Reach("failed")
			}
		}
		if r.auth {
			sv.Reach("auth")
		}
		rs = append(rs, r)
	}
	pid := sv.U16("pid")
	var in []byte
	if sv.Choose("route", 0, 1) == 1 {
		in = vhFrameRoute(pid, 1, vhBody(rs))
	} else {
		in = vhFrame(pid, 1, vhBody(rs))
	}
	c := vhRun(st, in)
	out := vhAcked(c.bytes(), pid, rs)
	sv.Assert(len(out) == 0, "more is sent than the replies to the packet")
	sv.Reach("answered")
	for _, n := range c.stored {
		sv.Assert(n == len(st.docs), "the response is sent before the records are saved")
	}
	sv.Assert(st.n == len(st.fail), "a position is not saved exactly once")
}

// VH_C16_many answers a packet with many records.
// Bounds: 4..40 records without position, every record number and packet identifier
// Reach: answered
func VH_C16_many() {
	n := []int{4, 8, 15, 16, 17, 31, 32, 33, 40}[sv.Choose("n", 0, 8)]
	var rs []*vhSent
	for i := 0; i < n; i++ {
		rs = append(rs, vhMkRec(vhKNone))
	}
	pid := sv.U16("pid")
	c := vhRun(&vhStore{}, vhFrame(pid, 1, vhBody(rs)))
	sv.Assert(len(vhAcked(c.bytes(), pid, rs)) == 0, "more is sent than the replies to the packet")
	sv.Reach("answered")
}

// VH_C16_crowd answers a packet with very many records.
// Bounds: 70 and 260 (thorough: also 600) records without position, every packet identifier, the numbers of the first two, the last and every 50th record of every value
// Reach: answered
// Budget: 300
func VH_C16_crowd() {
	ns := []int{70, 260}
	if sv.Thorough() {
		ns = append(ns, 600)
	}
	n := ns[sv.Choose("n", 0, len(ns)-1)]
	var rs []*vhSent
	for i := 0; i < n; i++ {
		rn := uint16(i * 7)
		if i < 2 || i == n-1 || i%50 == 49 {
			rn = sv.U16("rn")
		}
		rs = append(rs, &vhSent{rn: rn, bytes: vhRecNo(rn, 2, nil)})
	}
	pid := sv.U16("pid")
	c := vhRun(&vhStore{}, vhFrame(pid, 1, vhBody(rs)))
	sv.Assert(len(vhAcked(c.bytes(), pid, rs)) == 0, "more is sent than the replies to the packet")
	sv.Reach("answered")
}

// VH_C16_marathon answers every packet of a very long conversation.
// Bounds: 110 (thorough: 270) packets of one record, without position or all with one and an object identifier; the packet identifiers, record numbers, objects and times of the first two, the last and every 50th of every value
// Reach: answered
// Budget: 300
func VH_C16_marathon() {
	k := 110
	if sv.Thorough() {
		k = 270
	}
	pos := sv.Choose("pos", 0, 1) == 1
	var in []byte
	var pids []uint16
	var rs []*vhSent
	saves := 0
	for i := 0; i < k; i++ {
		pid, rn, oid, ntm := uint16(3*i), uint16(7*i), uint32(9), uint32(1000)
		if i < 2 || i == k-1 || i%50 == 49 {
			pid, rn, oid, ntm = sv.U16("pid"), sv.U16("rn"), sv.U32("oid"), sv.U32("ntm")
		}
		r := &vhSent{rn: rn}
		if pos {
			saves++
			b := vh32(vh32(vh32(nil, ntm), 0x9E000000), 0x35000001)
			b = append(vh16(append(b, 0x41), 0), 0, 0, 0, 0, 0, 0)
			r.bytes = vhRecOID(rn, oid, 2, vhSub(16, b))
		} else {
			r.bytes = vhRecNo(rn, 2, nil)
		}
		in = append(in, vhFrame(pid, 1, r.bytes)...)
		pids, rs = append(pids, pid), append(rs, r)
	}
	st := &vhStore{}
	out := vhRun(st, in).bytes()
	for i, r := range rs {
		out = vhAcked(out, pids[i], []*vhSent{r})
	}
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Assert(len(st.docs) == saves, "a position is not saved exactly once")
	sv.Reach("answered")
}

// VH_C16_stream answers several packets of one connection in turn.
// Bounds: 2 packets (thorough: 3), each with application data of 0..1 records of 10 kinds (saves may fail) or a response, every value
// Reach: answered
// Budget: 300
func VH_C16_stream() {
	k := 2
	if sv.Thorough() {
		k = 3
	}
	st := &vhStore{}
	var in []byte
	var pids []uint16
	var packets [][]*vhSent
	for i := 0; i < k; i++ {
		pid := sv.U16("pid")
		kind := sv.Choose("packet", -2, vhKinds-1)
		if kind == -2 {
			body := append(vh16(nil, sv.U16("rpid")), sv.Byte("pr"))
			if sv.Choose("sdr", 0, 1) == 1 {
				d := vhSub(0, append(vh16(nil, sv.U16("crn")), sv.Byte("rst")))
				body = append(body, vhRecNo(sv.U16("rn"), 2, d)...)
			}
			in = append(in, vhFrame(pid, 0, body)...)
			continue
		}
		var rs []*vhSent
		if kind >= 0 {
			r := vhMkRec(kind)
			if r.nav != nil {
				r.failed = sv.Choose("fail", 0, 1) == 1
				st.fail = append(st.fail, r.failed)
			}
			rs = append(rs, r)
		}
		in = append(in, vhFrame(pid, 1, vhBody(rs))...)
		pids = append(pids, pid)
		packets = append(packets, rs)
	}
	c := vhRun(st, in)
	out := c.bytes()
	for i, rs := range packets {
		out = vhAcked(out, pids[i], rs)
	}
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Reach("answered")
}

// VH_C16_long answers every packet of a long conversation.
// Bounds: 20 packets (thorough: 70) of one record, all of one of 10 kinds or of all kinds in turn; every save fails, none does or every second does; every value
// Reach: answered
// Budget: 300
func VH_C16_long() {
	k := 20
	if sv.Thorough() {
		k = 70
	}
	st := &vhStore{}
	vhIMEI = 1
	kind := sv.Choose("kind", 0, vhKinds)
	mode := sv.Choose("fail", 0, 2)
	var in []byte
	var pids []uint16
	var rs []*vhSent
	for i := 0; i < k; i++ {
		m := kind
		if m == vhKinds {
			m = i % vhKinds
		}
		r := vhMkRec(m)
		if r.nav != nil {
			r.failed = mode == 1 || mode == 2 && len(st.fail)%2 == 1
			st.fail = append(st.fail, r.failed)
		}
		pid := sv.U16("pid")
		in = append(in, vhFrame(pid, 1, r.bytes)...)
		pids, rs = append(pids, pid), append(rs, r)
	}
	c := vhRun(st, in)
	out := c.bytes()
	for i, r := range rs {
		out = vhAcked(out, pids[i], []*vhSent{r})
	}
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Assert(st.n == len(st.fail), "a position is not saved exactly once")
	sv.Reach("answered")
}

// vhIdentify runs k packets with up to two records each and checks what is
// stored under which identity.
func vhIdentify(k int) {
	st := &vhStore{}
	var want []*vhNav
	var in []byte
	var client uint32
	known := false
	for i := 0; i < k; i++ {
		pid := sv.U16("pid")
		var rs []*vhSent
		for j := sv.Choose("n", 1, 2); j > 0; j-- {
			r := vhMkRec([]int{vhKPosOID, vhKPos, vhKState, vhKIdentity, vhKNone}[sv.Choose("kind", 0, 4)])
			if r.hasID {
				client, known = r.id, true
			}
			if r.nav != nil {
				// nothing is said about a position of an unidentified terminal
				if !known {
					return
				}
				r.nav.client, r.nav.pid = client, uint32(pid)
				want = append(want, r.nav)
			}
			rs = append(rs, r)
		}
		in = append(in, vhFrame(pid, 1, vhBody(rs))...)
	}
	c := &vhConn{in: in, end: io.EOF, st: st}
	t0 := time.Now()
	verifHandle(vhServer(st), c)
	t1 := time.Now()
	sv.Assert(len(st.docs) == len(want), "not exactly the records with a position are stored")
	if len(st.docs) != len(want) {
		return
	}
	for i, n := range want {
		vhSaved(st.docs[i], n, t0, t1)
	}
	sv.Reach("stored")
}

// VH_C27_packet attributes the records of one packet.
// Bounds: 1 packet of 1..2 records (thorough: 2 packets of 1..2) with position or not, with object identifier, terminal identity or neither; every value
// Reach: stored
// Budget: 300
func VH_C27_packet() {
	if sv.Thorough() {
		vhIdentify(2)
	} else {
		vhIdentify(1)
	}
}

// VH_C27_stream attributes the records of packets that follow each other.
// Bounds: 2 packets (thorough: 4) of one record with position or not, with object identifier, terminal identity or neither; every value
// Reach: stored
// Budget: 300
func VH_C27_stream() {
	k := 2
	if sv.Thorough() {
		k = 4
	}
	st := &vhStore{}
	var want []*vhNav
	var in []byte
	var client uint32
	known := false
	for i := 0; i < k; i++ {
		pid := sv.U16("pid")
		r := vhMkRec([]int{vhKPosOID, vhKPos, vhKState, vhKIdentity, vhKNone}[sv.Choose("kind", 0, 4)])
		if r.hasID {
			client, known = r.id, true
		}
		if r.nav != nil {
			if !known {
				return
			}
			r.nav.client, r.nav.pid = client, uint32(pid)
			want = append(want, r.nav)
		}
		in = append(in, vhFrame(pid, 1, r.bytes)...)
	}
	t0 := time.Now()
	vhRun(st, in)
	t1 := time.Now()
	sv.Assert(len(st.docs) == len(want), "not exactly the records with a position are stored")
	if len(st.docs) != len(want) {
		return
	}
	for i, n := range want {
		vhSaved(st.docs[i], n, t0, t1)
	}
	sv.Reach("stored")
}

// VH_C27_long attributes the positions of a long conversation.
// Bounds: 12 packets (thorough: 40) of one position, without object identifier after a terminal identity or one with, with or without an identity given again in the middle
// Reach: stored
func VH_C27_long() {
	k := 12
	if sv.Thorough() {
		k = 40
	}
	st := &vhStore{}
	var want []*vhNav
	var in []byte
	var client uint32
	first, again := sv.Choose("first", 0, 2), sv.Choose("again", -1, 2)
	kinds := []int{vhKIdentity, vhKPosOID, vhKState}
	for i := 0; i < k; i++ {
		pid := sv.U16("pid")
		m := vhKPos
		if i == 0 {
			m = kinds[first]
		} else if i == k/2 && again >= 0 {
			m = kinds[again]
		}
		r := vhMkRec(m)
		if r.hasID {
			client = r.id
		}
		if r.nav != nil {
			r.nav.client, r.nav.pid = client, uint32(pid)
			want = append(want, r.nav)
		}
		in = append(in, vhFrame(pid, 1, r.bytes)...)
	}
	t0 := time.Now()
	vhRun(st, in)
	t1 := time.Now()
	sv.Assert(len(st.docs) == len(want), "not exactly the records with a position are stored")
	if len(st.docs) != len(want) {
		return
	}
	for i, n := range want {
		vhSaved(st.docs[i], n, t0, t1)
	}
	sv.Reach("stored")
}

// VH_C27_within: a record that carries a terminal identity and may name an
// object, or that is a position besides.
// Bounds: one packet of such a record, with a position before or after the identity or without, then one of a position without object identifier, in the same packet or another; every value
// Reach: stored
func VH_C27_within() {
	st := &vhStore{}
	oid, tid := sv.U32("oid"), sv.U32("tid")
	rd := vhTermID(tid)
	r := &vhSent{rn: sv.U16("rn"), auth: true}
	switch sv.Choose("pos", 0, 2) {
	case 1:
		r.nav = &vhNav{fix: true}
		rd = append(rd, vhPosSub(r.nav, false)...)
	case 2:
		r.nav = &vhNav{fix: true}
		rd = append(vhPosSub(r.nav, false), rd...)
	}
	own := tid
	if sv.Choose("has", 0, 1) == 1 {
		own = oid
		r.bytes = vhRecOID(r.rn, oid, 1, rd)
	} else {
		r.bytes = vhRecNo(r.rn, 1, rd)
	}
	q := vhMkRec(vhKPos)
	p1, p2 := sv.U16("pid"), sv.U16("pid")
	var in []byte
	if sv.Choose("same", 0, 1) == 1 {
		p2 = p1
		in = vhFrame(p1, 1, vhBody([]*vhSent{r, q}))
	} else {
		in = append(vhFrame(p1, 1, r.bytes), vhFrame(p2, 1, q.bytes)...)
	}
	want := []*vhNav{q.nav}
	q.nav.client, q.nav.pid = tid, uint32(p2)
	if r.nav != nil {
		r.nav.client, r.nav.pid = own, uint32(p1)
		want = []*vhNav{r.nav, q.nav}
	}
	t0 := time.Now()
	vhRun(st, in)
	t1 := time.Now()
	sv.Assert(len(st.docs) == len(want), "not exactly the records with a position are stored")
	if len(st.docs) == len(want) {
		for i, n := range want {
			vhSaved(st.docs[i], n, t0, t1)
		}
		sv.Reach("stored")
	}
}
