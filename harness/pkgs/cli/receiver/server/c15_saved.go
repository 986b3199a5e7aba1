package server

import (
	"strconv"
	"time"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

type vhPair struct {
	n byte
	v uint32
}

type vhLiq struct {
	n     byte
	err   string
	mm, l uint32
}

// vhNav is a record as it should reach the stores.
type vhNav struct {
	client, pid            uint32
	ntm                    uint32
	lat, long              uint32
	south, west            bool
	spd                    uint16
	course                 uint16
	ns, pdop, hdop, vdop   uint16
	sat                    byte
	an                     []vhPair
	liq                    []vhLiq
	low, high              uint32
	hasLow, hasHigh, isPos bool
	fix                    bool
}

const vhEpoch = 1262304000

// vhPosSub is an arbitrary valid position (n.fix: whose coordinates and
// flags are fixed); n receives what it means.
func vhPosSub(n *vhNav, alt bool) []byte {
	n.isPos = true
	n.ntm, n.lat, n.long = sv.U32("ntm"), 0x9E000000, 0x35000001
	if !n.fix {
		n.lat, n.long = sv.U32("lat"), sv.U32("long")
	}
	b := vh32(vh32(vh32(nil, n.ntm), n.lat), n.long)
	f := byte(0x41)
	if !n.fix {
		f = sv.Byte("posflags") & 0x7F
	}
	n.west, n.south = f&0x40 != 0, f&0x20 != 0
	if alt {
		f |= 0x80
	}
	spd := sv.U16("spd") & 0x3FFF
	n.spd = spd / 10
	n.course = sv.U16("course")
	sv.Assume(n.course < 360)
	w := spd | n.course>>8<<15 | uint16(sv.Byte("alts")&1)<<14
	b = append(vh16(append(b, f), w), byte(n.course))
	b = append(vh24(b, sv.U32("odm")), sv.Byte("din"), sv.Byte("src"))
	if alt {
		b = vh24(b, sv.U32("alt"))
	}
	return vhSub(16, b)
}

func vhExtSub(n *vhNav, f byte) []byte {
	b := []byte{f}
	n.vdop, n.hdop, n.pdop, n.sat, n.ns = 0, 0, 0, 0, 0
	if f&1 != 0 {
		n.vdop = sv.U16("vdop")
		b = vh16(b, n.vdop)
	}
	if f&2 != 0 {
		n.hdop = sv.U16("hdop")
		b = vh16(b, n.hdop)
	}
	if f&4 != 0 {
		n.pdop = sv.U16("pdop")
		b = vh16(b, n.pdop)
	}
	if f&8 != 0 {
		n.sat = sv.Byte("sat")
		b = append(b, n.sat)
	}
	if f&16 != 0 {
		n.ns = sv.U16("ns")
		b = vh16(b, n.ns)
	}
	return vhSub(17, b)
}

func vhAdSub(n *vhNav, d, a byte) []byte {
	b := []byte{d, sv.Byte("dout"), a}
	for i := uint(0); i < 8; i++ {
		if d>>i&1 != 0 {
			b = append(b, sv.Byte("adio"))
		}
	}
	for i := uint(0); i < 8; i++ {
		if a>>i&1 != 0 {
			v := sv.U32("ans") & 0xFFFFFF
			b = vh24(b, v)
			n.an = append(n.an, vhPair{byte(i + 1), v})
		}
	}
	return vhSub(18, b)
}

func vhAbsAnSub(n *vhNav) []byte {
	k, v := sv.Byte("asn"), sv.U32("asv")&0xFFFFFF
	n.an = append(n.an, vhPair{k, v})
	return vhSub(24, vh24([]byte{k}, v))
}

// vhCtrSub: kind 0 the low bytes of the record number, 1 its high byte, 2 any other counter.
func vhCtrSub(n *vhNav, kind int) []byte {
	v := sv.U32("cv") & 0xFFFFFF
	k := byte(110)
	switch kind {
	case 0:
		n.low, n.hasLow = v, true
	case 1:
		k = 111
		v &= 0xFF
		n.high, n.hasHigh = v, true
	default:
		k = sv.Byte("cn")
		sv.Assume(k != 110)
		sv.Assume(k != 111)
	}
	return vhSub(25, vh24([]byte{k}, v))
}

// vhLiqSub is a liquid level in unit 0..2.
func vhLiqSub(n *vhNav, unit byte) []byte {
	f := sv.Byte("liqflags") & 0x4F
	v := sv.U32("llsd")
	e := "0"
	if f&0x40 != 0 {
		e = "1"
	}
	q := vhLiq{n: f & 7, err: e}
	if unit == 2 {
		q.l = v * 10
	} else {
		q.mm = v
	}
	n.liq = append(n.liq, q)
	return vhSub(27, vh32(vh16([]byte{f | unit<<4}, sv.U16("maddr")), v))
}

const vhOthers = 16

// vhOther is one of the subrecords that accompany a position.
func vhOther(n *vhNav, kind int) []byte {
	switch kind {
	case 0:
		return vhExtSub(n, 0x1F)
	case 1:
		return vhAdSub(n, 0, 0x81)
	case 2:
		return vhAbsAnSub(n)
	case 3:
		return vhCtrSub(n, 0)
	case 4:
		return vhCtrSub(n, 1)
	case 5:
		return vhCtrSub(n, 2)
	case 6:
		return vhLiqSub(n, 0)
	case 7:
		return vhLiqSub(n, 2)
	case 8:
		return vhSub(21, sv.Bytes("state", 5))
	case 9:
		return vhSub(19, []byte{0})
	case 10:
		return vhSub(0, sv.Bytes("resp", 3))
	case 11:
		return vhTermID(sv.U32("tid"))
	case 12:
		return vhSub(2, append(sv.Bytes("mod", 12), 0, 0))
	case 13:
		return vhSub(5, sv.Bytes("disp", 5))
	case 14:
		return vhSub(7, []byte{'u', 0, 'p', 0})
	case 15:
		return vhSub(9, sv.Bytes("res", 1))
	default:
		return vhSub(200, sv.Bytes("unk", 2))
	}
}

// vhSaved: the stored document is the record.
func vhSaved(doc []byte, n *vhNav, t0, t1 time.Time) {
	pid := n.pid
	if n.hasLow || n.hasHigh {
		pid = n.low | n.high<<24
	}
	sv.Assert(sv.JSONU64(doc, "client") == uint64(n.client), "stored client differs")
	sv.Assert(sv.JSONU64(doc, "packet_id") == uint64(pid), "stored packet identifier differs")
	sv.Assert(sv.JSONI64(doc, "navigation_unix_time") == vhEpoch+int64(n.ntm), "stored navigation time differs")
	r := sv.JSONI64(doc, "received_unix_time")
	sv.Assert(vhAnd(r >= t0.Unix(), r <= t1.Unix()), "stored time of receipt is wrong")
	la, lo := float64(n.lat), float64(n.long)
	if n.south {
		la = -la
	}
	if n.west {
		lo = -lo
	}
	g := sv.JSONF64(doc, "latitude") * 0xFFFFFFFF / 90
	sv.Assert(vhAnd(g-la < 1, la-g < 1), "stored latitude differs")
	g = sv.JSONF64(doc, "longitude") * 0xFFFFFFFF / 180
	sv.Assert(vhAnd(g-lo < 1, lo-g < 1), "stored longitude differs")
	sv.Assert(sv.JSONU64(doc, "speed") == uint64(n.spd), "stored speed differs")
	sv.Assert(sv.JSONU64(doc, "course") == uint64(n.course), "stored course differs")
	sv.Assert(vhAll(sv.JSONU64(doc, "pdop") == uint64(n.pdop), sv.JSONU64(doc, "hdop") == uint64(n.hdop), sv.JSONU64(doc, "vdop") == uint64(n.vdop)), "stored precision differs")
	sv.Assert(sv.JSONU64(doc, "nsat") == uint64(n.sat), "stored number of satellites differs")
	sv.Assert(sv.JSONU64(doc, "ns") == uint64(n.ns), "stored navigation system differs")
	k := sv.JSONLen(doc, "an_sensors")
	sv.Assert(k == len(n.an), "wrong number of stored analog sensors")
	if k == len(n.an) {
		for i, s := range n.an {
			p := "an_sensors." + strconv.Itoa(i)
			sv.Assert(sv.JSONU64(doc, p+".sensor_number") == uint64(s.n), "stored analog sensor has the wrong number")
			sv.Assert(sv.JSONU64(doc, p+".value") == uint64(s.v), "stored analog sensor has the wrong value")
		}
	}
	k = sv.JSONLen(doc, "liquid_sensors")
	sv.Assert(k == len(n.liq), "wrong number of stored liquid sensors")
	if k == len(n.liq) {
		for i, s := range n.liq {
			p := "liquid_sensors." + strconv.Itoa(i)
			sv.Assert(sv.JSONU64(doc, p+".sensor_number") == uint64(s.n), "stored liquid sensor has the wrong number")
			sv.Assert(sv.JSONStr(doc, p+".error_flag") == s.err, "stored liquid sensor has the wrong error flag")
			sv.Assert(sv.JSONU64(doc, p+".value_mm") == uint64(s.mm), "stored liquid level in mm differs")
			sv.Assert(sv.JSONU64(doc, p+".value_l") == uint64(s.l), "stored liquid level in litres differs")
		}
	}
}

// vhOne sends one packet with one record and checks what is stored.
func vhOne(n *vhNav, rd []byte) {
	n.client = sv.U32("oid")
	pid := sv.U16("pid")
	n.pid = uint32(pid)
	st := &vhStore{}
	t0 := time.Now()
	vhRun(st, vhFrame(pid, 1, vhRecOID(sv.U16("rn"), n.client, sv.Byte("svc"), rd)))
	t1 := time.Now()
	sv.Assert(len(st.docs) == 1, "a record with a position is not stored exactly once")
	if len(st.docs) != 1 {
		return
	}
	sv.Reach("saved")
	vhSaved(st.docs[0], n, t0, t1)
}

// VH_C15_position stores a record that consists of a position.
// Bounds: every packet and record number, object, service, position with and without altitude
// Reach: saved
func VH_C15_position() {
	n := &vhNav{}
	vhOne(n, vhPosSub(n, sv.Choose("alt", 0, 1) == 1))
}

// VH_C15_ext stores a position with an extended position.
// Bounds: every presence combination and field value, before or after the position
// Reach: saved
func VH_C15_ext() {
	n := &vhNav{fix: true}
	f := byte(sv.Choose("f", 0, 31))
	if sv.Choose("first", 0, 1) == 1 {
		rd := vhExtSub(n, f)
		vhOne(n, append(rd, vhPosSub(n, false)...))
		return
	}
	rd := vhPosSub(n, false)
	vhOne(n, append(rd, vhExtSub(n, f)...))
}

// VH_C15_sensors stores a position with analog sensors.
// Bounds: every combination of the eight analog sensors with no or all digital inputs, every value
// Reach: saved
func VH_C15_sensors() {
	n := &vhNav{fix: true}
	d := []byte{0, 0xFF}[sv.Choose("d", 0, 1)]
	rd := vhPosSub(n, false)
	vhOne(n, append(rd, vhAdSub(n, d, byte(sv.Choose("a", 0, 255)))...))
}

// VH_C15_liquid stores a position with liquid levels.
// Bounds: one to three liquid sensors in units 0, 1 and 2, every value
// Reach: saved
func VH_C15_liquid() {
	n := &vhNav{fix: true}
	rd := vhPosSub(n, false)
	k := sv.Choose("k", 1, 3)
	for i := 0; i < k; i++ {
		rd = append(rd, vhLiqSub(n, byte(sv.Choose("unit", 0, 2)))...)
	}
	vhOne(n, rd)
}

// VH_C15_mixed stores a position between any two (thorough: three) other subrecords.
// Bounds: 17 kinds of accompanying subrecords, the position in any place, every value
// Reach: saved
func VH_C15_mixed() {
	n := &vhNav{fix: true}
	m := 2
	if sv.Thorough() {
		m = 3
	}
	at := sv.Choose("at", 0, m)
	var rd []byte
	for i := 0; i <= m; i++ {
		if i == at {
			rd = append(rd, vhPosSub(n, false)...)
			continue
		}
		rd = append(rd, vhOther(n, sv.Choose("kind", 0, vhOthers))...)
	}
	vhOne(n, rd)
}

// VH_C15_manysensors stores a position with many analog sensors or liquid levels.
// Bounds: 9, 12, 17, 40 and 130 (thorough: also 260) absolute analog sensors or liquid levels (litres and mm in turn) of every number and value
// Reach: saved
func VH_C15_manysensors() {
	ns := []int{9, 12, 17, 40, 130}
	if sv.Thorough() {
		ns = append(ns, 260)
	}
	k := ns[sv.Choose("k", 0, len(ns)-1)]
	an := sv.Choose("an", 0, 1) == 1
	n := &vhNav{fix: true}
	rd := vhPosSub(n, false)
	for i := 0; i < k; i++ {
		if an {
			rd = append(rd, vhAbsAnSub(n)...)
		} else {
			rd = append(rd, vhLiqSub(n, byte(i%2*2))...)
		}
	}
	vhOne(n, rd)
}

// VH_C15_crowd stores the positions of very many records of one packet.
// Bounds: 20, 70 and 260 (thorough: also 600) records with an object identifier and a position, every packet identifier; every value in the first two, the last and every 50th record
// Reach: saved
// Budget: 300
func VH_C15_crowd() {
	ns := []int{20, 70, 260}
	if sv.Thorough() {
		ns = append(ns, 600)
	}
	k := ns[sv.Choose("n", 0, len(ns)-1)]
	pid := sv.U16("pid")
	var navs []*vhNav
	var body []byte
	for i := 0; i < k; i++ {
		n := &vhNav{fix: true}
		var sub []byte
		if i < 2 || i == k-1 || i%50 == 49 {
			sub = vhPosSub(n, false)
			n.client = sv.U32("oid")
		} else {
			n.isPos, n.ntm, n.lat, n.long, n.west, n.client = true, uint32(1000+i), 0x9E000000, 0x35000001, true, uint32(70000+i)
			b := vh32(vh32(vh32(nil, n.ntm), n.lat), n.long)
			b = append(vh16(append(b, 0x41), 0), 0, 0, 0, 0, 0, 0)
			sub = vhSub(16, b)
		}
		n.pid = uint32(pid)
		navs = append(navs, n)
		body = append(body, vhRecOID(uint16(i), n.client, 2, sub)...)
	}
	st := &vhStore{}
	t0 := time.Now()
	vhRun(st, vhFrame(pid, 1, body))
	t1 := time.Now()
	sv.Assert(len(st.docs) == k, "a record with a position is not stored exactly once")
	if len(st.docs) != k {
		return
	}
	for i, n := range navs {
		vhSaved(st.docs[i], n, t0, t1)
	}
	sv.Reach("saved")
}
