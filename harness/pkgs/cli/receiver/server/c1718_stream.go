package server

import (
	"errors"
	"io"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// vhBad is a packet that must be rejected, with the result code it must get
// (0: any but success).
func vhBad(kind int, pid uint16) ([]byte, byte) {
	n := &vhNav{fix: true}
	rec := vhRecOID(sv.U16("rn"), sv.U32("oid"), 2, vhPosSub(n, false))
	f := vhFrame(pid, 1, rec)
	switch kind {
	case 0: // header checksum
		v := sv.Byte("hcs")
		sv.Assume(v != f[10])
		f[10] = v
		return f, 137
	case 1: // data checksum
		v := sv.U16("sfrcs")
		sv.Assume(v != vhU16(f[len(f)-2:]))
		f[len(f)-2], f[len(f)-1] = byte(v), byte(v>>8)
		return f, 138
	case 2: // packet type
		pt := sv.Byte("pt")
		sv.Assume(pt > 1)
		return vhFrame(pid, pt, rec), 133
	case 3: // record length overruns the data
		l := sv.U16("rl")
		sv.Assume(int(l) > len(rec)-11)
		rec[0], rec[1] = byte(l), byte(l>>8)
		return vhFrame(pid, 1, rec), 129
	case 4: // subrecord length overruns the record
		l := sv.U16("srl")
		sv.Assume(l > 21)
		rec[12], rec[13] = byte(l), byte(l>>8)
		return vhFrame(pid, 1, rec), 129
	case 5: // header length of a packet with routing fields, without them
		f[3] = 16
		f[10] = vhCRC8(f[:10])
		return append(f, sv.Bytes("pad", 5)...), 131
	case 6: // encrypted, and the receiver has no key
		e := sv.Byte("ena")
		sv.Assume(e&0x18 != 0)
		f[2] = e & 0x18
		f[10] = vhCRC8(f[:10])
		return f, 0
	default: // a correct first record, then a truncated one
		at := sv.Choose("cut", 1, len(rec)-2)
		if at >= 11 {
			at++ // a header with nothing after it is a record without data
		}
		g := append(append([]byte{}, rec...), rec[:at]...)
		return vhFrame(pid, 1, g), 129
	}
}

const vhBads = 8

// VH_C17_bad rejects a packet between two good ones.
// Bounds: 8 kinds of malformed packets (any wrong header or data checksum, any unknown type, any overrun, wrong header length, encryption, cut record), every value; preceded and followed by nothing or a packet of any of 5 kinds of records
// Reach: rejected
// Budget: 300
func VH_C17_bad() {
	st := &vhStore{}
	kinds := []int{vhKPosOID, vhKPos, vhKIdentity, vhKAuth, vhKNone}
	var in []byte
	var good [][]*vhSent
	var pids []uint16
	saves := 0
	add := func(k int) {
		r := vhMkRec(kinds[k])
		pid := sv.U16("pid")
		if r.nav != nil {
			saves++
		}
		good, pids = append(good, []*vhSent{r}), append(pids, pid)
		in = append(in, vhFrame(pid, 1, r.bytes)...)
	}
	before := sv.Choose("before", -1, 4)
	if before >= 0 {
		add(before)
	}
	bpid := sv.U16("badpid")
	bad, code := vhBad(sv.Choose("bad", 0, vhBads-1), bpid)
	in = append(in, bad...)
	after := sv.Choose("after", -1, 4)
	if !sv.Thorough() && before >= 0 && after >= 0 && before != after {
		return
	}
	if after >= 0 {
		add(after)
	}
	c := vhRun(st, in)
	out := c.bytes()
	i := 0
	if before >= 0 {
		out = vhAcked(out, pids[0], good[0])
		i = 1
	}
	sv.Assert(len(out) > 0, "no answer to a malformed packet")
	if len(out) == 0 {
		return
	}
	pt, body, rest := vhReply(out)
	out = rest
	sv.Assert(pt == 0, "the answer to a malformed packet is not a response")
	sv.Assert(len(body) >= 3, "a response is too short")
	if pt != 0 || len(body) < 3 {
		return
	}
	sv.Assert(vhU16(body) == bpid, "the response to a malformed packet names another packet")
	if code == 0 {
		sv.Assert(body[2] != 0, "a malformed packet is answered with success")
	} else {
		sv.Assert(body[2] == code, "a malformed packet gets the wrong result code")
	}
	sv.Assert(len(body) == 3, "the response to a malformed packet confirms records")
	if after >= 0 {
		out = vhAcked(out, pids[i], good[i])
	}
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Assert(len(st.docs) == saves, "a record of a malformed packet is stored or one of a good packet is lost")
	sv.Reach("rejected")
}

// VH_C17_long rejects many packets of one connection.
// Bounds: 8 malformed packets (thorough: 24) of one of 8 kinds or of all in turn, alone or each followed by a good packet of one position, then a good packet; every value
// Reach: rejected
// Budget: 300
func VH_C17_long() {
	k := 8
	if sv.Thorough() {
		k = 24
	}
	st := &vhStore{}
	kind := sv.Choose("bad", 0, vhBads)
	mixed := sv.Choose("mixed", 0, 1) == 1
	var in []byte
	type exp struct {
		pid  uint16
		r    *vhSent
		code byte
	}
	var want []exp
	good := func() {
		r := vhMkRec(vhKPosOID)
		pid := sv.U16("pid")
		in = append(in, vhFrame(pid, 1, r.bytes)...)
		want = append(want, exp{pid: pid, r: r})
	}
	cut := 0
	for i := 0; i < k; i++ {
		b := kind
		if b == vhBads {
			b = i % vhBads
		}
		pid := sv.U16("badpid")
		var f []byte
		var code byte
		if b == vhBads-1 {
			cut += 3
			rec := vhRecOID(1, 2, 2, vhPosSub(&vhNav{fix: true}, false))
			f, code = vhFrame(pid, 1, append(append([]byte{}, rec...), rec[:cut%11]...)), 129
			if cut%11 == 0 {
				f = vhFrame(pid, 1, rec[:20])
			}
		} else {
			f, code = vhBad(b, pid)
		}
		in = append(in, f...)
		want = append(want, exp{pid: pid, code: code})
		if mixed {
			good()
		}
	}
	good()
	out := vhRun(st, in).bytes()
	saves := 0
	for _, w := range want {
		if w.r != nil {
			saves++
			out = vhAcked(out, w.pid, []*vhSent{w.r})
			continue
		}
		sv.Assert(len(out) > 0, "no answer to a malformed packet")
		if len(out) == 0 {
			return
		}
		pt, body, rest := vhReply(out)
		out = rest
		sv.Assert(pt == 0, "the answer to a malformed packet is not a response")
		sv.Assert(len(body) == 3, "the response to a malformed packet confirms records")
		if pt != 0 || len(body) != 3 {
			return
		}
		sv.Assert(vhU16(body) == w.pid, "the response to a malformed packet names another packet")
		if w.code == 0 {
			sv.Assert(body[2] != 0, "a malformed packet is answered with success")
		} else {
			sv.Assert(body[2] == w.code, "a malformed packet gets the wrong result code")
		}
	}
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Assert(len(st.docs) == saves, "a record of a malformed packet is stored or one of a good packet is lost")
	sv.Reach("rejected")
}

// VH_C17_crowd rejects very many packets of one connection.
// Bounds: 40 (thorough: also 140 and 270) malformed packets of one of 4 kinds, then a good packet of one position with every value; the packet identifiers of the last and of every 50th malformed packet of every value
// Reach: rejected
// Budget: 300
func VH_C17_crowd() {
	ns := []int{40}
	if sv.Thorough() {
		ns = append(ns, 140, 270)
	}
	k := ns[sv.Choose("n", 0, len(ns)-1)]
	kind := sv.Choose("bad", 0, 3)
	var in []byte
	var pids []uint16
	var code byte
	for i := 0; i < k; i++ {
		pid := uint16(i * 5)
		if i == k-1 || i%50 == 49 {
			pid = sv.U16("badpid")
		}
		rec := vhRecNo(uint16(i), 2, []byte{9, 1, 0, 0})
		var f []byte
		switch kind {
		case 0: // header checksum
			f, code = vhFrame(pid, 1, rec), 137
			f[10]++
		case 1: // data checksum
			f, code = vhFrame(pid, 1, rec), 138
			f[len(f)-1]++
		case 2: // packet type
			f, code = vhFrame(pid, 9, rec), 133
		default: // record length
			rec[0] = 5
			f, code = vhFrame(pid, 1, rec), 129
		}
		in, pids = append(in, f...), append(pids, pid)
	}
	r := vhMkRec(vhKPosOID)
	pid := sv.U16("pid")
	in = append(in, vhFrame(pid, 1, r.bytes)...)
	st := &vhStore{}
	out := vhRun(st, in).bytes()
	for i := range pids {
		sv.Assert(len(out) > 0, "no answer to a malformed packet")
		if len(out) == 0 {
			return
		}
		pt, body, rest := vhReply(out)
		out = rest
		sv.Assert(pt == 0, "the answer to a malformed packet is not a response")
		sv.Assert(len(body) == 3, "the response to a malformed packet confirms records")
		if pt != 0 || len(body) != 3 {
			return
		}
		sv.Assert(vhU16(body) == pids[i], "the response to a malformed packet names another packet")
		sv.Assert(body[2] == code, "a malformed packet gets the wrong result code")
	}
	out = vhAcked(out, pid, []*vhSent{r})
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Assert(len(st.docs) == 1, "not exactly the good packet is stored")
	sv.Reach("rejected")
}

// vhPair2 is a stream of two packets with one record each.
func vhPair2(a, b int) (in []byte, rs []*vhSent, pids []uint16, saves int) {
	for _, k := range []int{a, b} {
		r := vhMkRec(k)
		if r.nav != nil {
			saves++
		}
		pid := sv.U16("pid")
		rs, pids = append(rs, r), append(pids, pid)
		in = append(in, vhFrame(pid, 1, r.bytes)...)
	}
	return
}

// vhStream checks that both packets are handled, however they arrive.
func vhStream(c *vhConn, rs []*vhSent, pids []uint16, saves int) {
	st := &vhStore{}
	c.st = st
	verifHandle(vhServer(st), c)
	sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
	out := c.bytes()
	for i, r := range rs {
		out = vhAcked(out, pids[i], []*vhSent{r})
	}
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Assert(len(st.docs) == saves, "not every position is stored exactly once")
	sv.Reach("handled")
}

// VH_C18_cut delivers two packets in two pieces.
// Bounds: every place of the cut, every value, packets with a position and without
// Reach: handled
func VH_C18_cut() {
	in, rs, pids, saves := vhPair2(vhKPosOID, vhKNone)
	k := sv.Choose("cut", 1, len(in)-1)
	vhStream(&vhConn{in: in, end: io.EOF, cuts: []int{k}}, rs, pids, saves)
}

// VH_C18_cuts delivers two packets in three pieces.
// Bounds: every pair of places of the cuts, every value
// Reach: handled
// Budget: 300
func VH_C18_cuts() {
	in, rs, pids, saves := vhPair2(vhKAuth, vhKNone)
	i := sv.Choose("i", 1, len(in)-2)
	j := sv.Choose("j", 2, len(in)-1)
	if i >= j {
		return
	}
	vhStream(&vhConn{in: in, end: io.EOF, cuts: []int{i, j}}, rs, pids, saves)
}

// VH_C18_pieces delivers two packets in pieces of equal size.
// Bounds: every size from one byte to everything, every value
// Reach: handled
func VH_C18_pieces() {
	in, rs, pids, saves := vhPair2(vhKNone, vhKPosOID)
	vhStream(&vhConn{in: in, end: io.EOF, every: sv.Choose("size", 1, len(in))}, rs, pids, saves)
}

// VH_C18_empty handles packets without data between others.
// Bounds: 1..3 packets without data, application data or of unknown type, before and after a packet with a position; pieces of any size
// Reach: handled
func VH_C18_empty() {
	n := sv.Choose("n", 1, 3)
	r := vhMkRec(vhKPosOID)
	pid := sv.U16("pid")
	at := sv.Choose("at", 0, n)
	var in []byte
	var pids []uint16
	for i := 0; i <= n; i++ {
		if i == at {
			in = append(in, vhFrame(pid, 1, r.bytes)...)
			continue
		}
		p := sv.U16("epid")
		pids = append(pids, p)
		in = append(in, vhFrame(p, 1, nil)...)
	}
	st := &vhStore{}
	c := &vhConn{in: in, end: io.EOF, st: st, every: []int{1, 9, 10, 11, 12, 1000}[sv.Choose("size", 0, 5)]}
	verifHandle(vhServer(st), c)
	out := c.bytes()
	k := 0
	for i := 0; i <= n; i++ {
		if i == at {
			out = vhAcked(out, pid, []*vhSent{r})
			continue
		}
		out = vhAcked(out, pids[k], nil)
		k++
	}
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Assert(len(st.docs) == 1, "not every position is stored exactly once")
	sv.Reach("handled")
}

// VH_C18_big handles a large packet followed by a small one.
// Bounds: data lengths 255, 256, 300, 1000, 5000 with every record number; 16384, 32767, 32768, 65524, 65525, 65533 and 65535 (thorough: with every record number, quick: with one); every other identifier
// Reach: handled
// Budget: 600
func VH_C18_big() {
	sizes := []int{255, 256, 300, 1000, 5000, 16384, 32767, 32768, 65524, 65525, 65533, 65535}
	n := sizes[sv.Choose("size", 0, len(sizes)-1)]
	rd := make([]byte, n-11)
	rd[0], rd[1], rd[2] = 200, byte(n-14), byte((n-14)>>8)
	a := &vhSent{rn: 0xA55A}
	if n <= 5000 || sv.Thorough() {
		a.rn = sv.U16("rn")
	}
	a.bytes = vhRecOID(a.rn, 1, 2, rd)
	b := vhMkRec(vhKPosOID)
	p, q := uint16(0x1234), sv.U16("pid")
	in := append(vhFrame(p, 1, a.bytes), vhFrame(q, 1, b.bytes)...)
	vhStream(&vhConn{in: in, end: io.EOF}, []*vhSent{a, b}, []uint16{p, q}, 1)
}

// VH_C18_alien closes a connection that stops speaking the protocol.
// Bounds: a good packet or nothing, any first byte but 1, 9..30 further arbitrary bytes, then a good packet
// Reach: closed
func VH_C18_alien() {
	var in []byte
	var rs []*vhSent
	pid := sv.U16("pid")
	if sv.Choose("before", 0, 1) == 1 {
		rs = append(rs, vhMkRec(vhKPosOID))
		in = vhFrame(pid, 1, rs[0].bytes)
	}
	x := sv.Byte("first")
	sv.Assume(x != 1)
	in = append(append(in, x), sv.Bytes("rest", []int{9, 10, 20, 30}[sv.Choose("n", 0, 3)])...)
	in = append(in, vhFrame(sv.U16("pid"), 1, vhMkRec(vhKPosOID).bytes)...)
	st := &vhStore{}
	c := vhRun(st, in)
	out := c.bytes()
	if rs != nil {
		out = vhAcked(out, pid, rs)
	}
	sv.Assert(len(out) == 0, "something other than the protocol is answered")
	sv.Assert(len(st.docs) == len(rs), "something other than the protocol is stored")
	sv.Reach("closed")
}

// VH_C18_partial: a connection that ends inside a packet.
// Bounds: a good packet or nothing, then a packet with a position cut anywhere; the connection ends or fails
// Reach: closed
func VH_C18_partial() {
	var in []byte
	var rs []*vhSent
	pid := sv.U16("pid")
	if sv.Choose("before", 0, 1) == 1 {
		rs = append(rs, vhMkRec(vhKPosOID))
		in = vhFrame(pid, 1, rs[0].bytes)
	}
	f := vhFrame(sv.U16("pid"), 1, vhMkRec(vhKPosOID).bytes)
	in = append(in, f[:sv.Choose("cut", 0, len(f)-1)]...)
	st := &vhStore{}
	c := &vhConn{in: in, end: io.EOF, st: st}
	switch sv.Choose("end", 0, 2) {
	case 1:
		c.end = errors.New("connection reset by peer")
	case 2:
		c.end = vhTimeout{}
	}
	verifHandle(vhServer(st), c)
	sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
	out := c.bytes()
	if rs != nil {
		out = vhAcked(out, pid, rs)
	}
	sv.Assert(len(out) == 0, "a packet that was not received is answered")
	sv.Assert(len(st.docs) == len(rs), "a packet that was not received is stored")
	sv.Reach("closed")
}
