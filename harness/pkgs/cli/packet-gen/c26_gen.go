package main

import (
	"errors"
	"io"
	"math"
	"time"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
	"github.com/kuznetsovin/egts-protocol/verifswap/flag"
	"github.com/kuznetsovin/egts-protocol/verifswap/net"
	"github.com/kuznetsovin/egts-protocol/verifswap/os"
)

const vhEpoch = 1262304000

// vhMain runs the tool and returns its exit status; a tool that returns from
// main exits with 0.
func vhMain() (code int) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(os.VerifExit); ok {
				code = x.Code
				return
			}
			panic(r)
		}
	}()
	main()
	return 0
}

func vhWritten() (b []byte) {
	for _, o := range net.VerifOps {
		if o.What == "write" {
			b = append(b, o.Data...)
		}
	}
	return b
}

func vh16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func vhU16(b []byte) uint16          { return uint16(b[0]) | uint16(b[1])<<8 }
func vhU32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func vhCRC8(d []byte) byte {
	c := byte(0xFF)
	for i := 0; i < len(d); i++ {
		x := c ^ d[i]
		for k := 0; k < 8; k++ {
			top := x >> 7
			x <<= 1
			x ^= top | top<<4 | top<<5
		}
		c = x
	}
	return c
}

func vhCRC16(d []byte) uint16 {
	c := uint16(0xFFFF)
	for i := 0; i < len(d); i++ {
		c ^= uint16(d[i]) << 8
		for k := 0; k < 8; k++ {
			top := c >> 15
			c <<= 1
			c ^= top | top<<5 | top<<12
		}
	}
	return c
}

func vhFrame(pid uint16, pt byte, body []byte) []byte {
	h := []byte{1, 0, 0, 11, 0}
	h = vh16(vh16(h, uint16(len(body))), pid)
	h = append(h, pt)
	h = append(h, vhCRC8(h))
	if len(body) == 0 {
		return h
	}
	h = append(h, body...)
	return vh16(h, vhCRC16(body))
}

// vhAck is a response to packet pid with a result and n confirmations.
func vhAck(rpid uint16, pr byte, status []byte) []byte {
	body := append(vh16(nil, rpid), pr)
	if len(status) > 0 {
		var rd []byte
		for _, s := range status {
			rd = append(rd, 0, 3, 0)
			rd = append(vh16(rd, sv.U16("crn")), s)
		}
		body = vh16(vh16(body, uint16(len(rd))), sv.U16("rn"))
		body = append(append(body, 0x20, 2, 2), rd...)
	}
	return vhFrame(sv.U16("apid"), 0, body)
}

type vhArgs struct {
	pid, oid, liq int
	hasLiq        bool
	lat, lon      float64
	at            uint32
	server        string
}

func vhFix(a *vhArgs) {
	flag.VerifInts["pid"] = a.pid
	flag.VerifInts["oid"] = a.oid
	flag.VerifStrs["time"] = "2021-12-16T09:12:00Z"
	a.at = 1639645920 - vhEpoch
}

func vhArb() *vhArgs {
	a := &vhArgs{pid: int(sv.U16("pid")), oid: int(sv.U32("oid"))}
	sv.Assume(a.pid != 0)
	sv.Assume(a.oid != 0)
	vhFix(a)
	return a
}

// vhSentIs: exactly one packet was sent, and it is what the options ask for.
func vhSentIs(a *vhArgs) {
	b := vhWritten()
	sv.Assert(len(b) >= 13, "no packet is sent")
	if len(b) < 13 {
		return
	}
	sv.Assert(b[0] == 1, "wrong protocol version")
	sv.Assert(b[2]&0x3C == 0, "the packet is marked routed, encrypted or compressed")
	sv.Assert(b[3] == 11, "wrong header length")
	n := int(vhU16(b[5:]))
	sv.Assert(len(b) == 13+n, "not exactly one packet is sent")
	if len(b) != 13+n {
		return
	}
	sv.Assert(int(vhU16(b[7:])) == a.pid, "wrong packet identifier")
	sv.Assert(b[9] == 1, "wrong packet type")
	sv.Assert(b[10] == vhCRC8(b[:10]), "wrong header checksum")
	d := b[11 : 11+n]
	sv.Assert(vhU16(b[11+n:]) == vhCRC16(d), "wrong data checksum")
	sv.Assert(len(d) >= 11, "no record is sent")
	if len(d) < 11 {
		return
	}
	f := d[4]
	sv.Assert(f&1 == 1, "the record has no object identifier")
	if f&1 == 0 {
		return
	}
	sv.Assert(int(vhU32(d[5:])) == a.oid, "wrong object identifier")
	k := 11
	if f&2 != 0 {
		k += 4
	}
	if f&4 != 0 {
		k += 4
	}
	sv.Assert(int(vhU16(d))+k == len(d), "wrong record length")
	pos, liq := 0, 0
	for s := d[k:]; len(s) >= 3; {
		l := int(vhU16(s[1:]))
		if len(s) < 3+l {
			sv.Assert(false, "a subrecord overruns the record")
			return
		}
		x := s[3 : 3+l]
		switch s[0] {
		case 16:
			pos++
			vhPosIs(a, x)
		case 27:
			liq++
			sv.Assert(l == 7, "wrong length of the liquid level")
			if l != 7 {
				return
			}
			sv.Assert(vhU32(x[3:]) == uint32(a.liq), "wrong liquid level")
			sv.Assert(x[0]&7 == 1, "wrong liquid sensor")
		}
		s = s[3+l:]
	}
	sv.Assert(pos == 1, "not exactly one position is sent")
	sv.Assert(!a.hasLiq || liq == 1, "not exactly one liquid level is sent")
}

func vhPosIs(a *vhArgs, x []byte) {
	sv.Assert(len(x) >= 21, "a position is too short")
	if len(x) < 21 {
		return
	}
	sv.Assert(vhU32(x) == a.at, "wrong time")
	lat, lon := math.Abs(a.lat), math.Abs(a.lon)
	south, west := a.lat < 0, a.lon < 0
	w := lat / 90 * 0xFFFFFFFF
	g := float64(vhU32(x[4:]))
	sv.Assert(g-w < 1, "latitude too large")
	sv.Assert(w-g < 2, "latitude too small")
	w = lon / 180 * 0xFFFFFFFF
	g = float64(vhU32(x[8:]))
	sv.Assert(g-w < 1, "longitude too large")
	sv.Assert(w-g < 2, "longitude too small")
	sv.Assert((x[12]&0x20 != 0) == south, "wrong hemisphere of the latitude")
	sv.Assert((x[12]&0x40 != 0) == west, "wrong hemisphere of the longitude")
	sv.Assert(x[12]&1 == 1, "the position is not marked valid")
}

// VH_C26_send: the packet sent is the one asked for, and a positive answer
// gives success.
// Bounds: every packet and object identifier, liquid level given (any) or not, server given or not, one confirmation
// Reach: sent
func VH_C26_send() {
	a := vhArb()
	a.server = "localhost:5555"
	if sv.Choose("liq", 0, 1) == 1 {
		a.hasLiq, a.liq = true, int(sv.U32("liquid"))
		flag.VerifInts["liquid"] = a.liq
	}
	if sv.Choose("server", 0, 1) == 1 {
		a.server = "192.0.2.7:6000"
		flag.VerifStrs["server"] = a.server
	}
	net.VerifIn = vhAck(uint16(a.pid), 0, []byte{0})
	net.VerifEnd = io.EOF
	code := vhMain()
	vhSentIs(a)
	sv.Assert(code == 0, "a positive answer is reported as failure")
	ok := false
	for _, o := range net.VerifOps {
		if o.What == "dial" {
			ok = o.Addr == a.server
		}
	}
	sv.Assert(ok, "the packet is sent to another server")
	sv.Reach("sent")
}

// VH_C26_place: the position sent is the one asked for.
// Bounds: every latitude and longitude that is a multiple of 2^-22 degrees, on both hemispheres
// Reach: sent
func VH_C26_place() {
	a := vhArb()
	// The sign and the magnitude are chosen apart: every magnitude on every
	// side of the equator and of the meridian.
	la, lo := uint64(sv.U32("lat")), uint64(sv.U32("lon"))
	side := sv.Choose("side", 0, 3)
	if side&1 != 0 {
		la++
	}
	if side&2 != 0 {
		lo++
	}
	sv.Assume(la <= 90<<22)
	sv.Assume(lo <= 180<<22)
	a.lat, a.lon = float64(la)/(1<<22), float64(lo)/(1<<22)
	if side&1 != 0 {
		a.lat = -a.lat
	}
	if side&2 != 0 {
		a.lon = -a.lon
	}
	flag.VerifFloats["lat"], flag.VerifFloats["lon"] = a.lat, a.lon
	net.VerifIn = vhAck(uint16(a.pid), 0, []byte{0})
	net.VerifEnd = io.EOF
	vhMain()
	vhSentIs(a)
	sv.Reach("sent")
}

// VH_C26_time: the time sent is the one asked for.
// Bounds: 6 times of different years and zones, and every second of a minute
// Reach: sent
func VH_C26_time() {
	a := vhArb()
	t := []string{"2010-01-01T00:00:00Z", "2021-12-16T12:12:00+03:00", "2024-02-29T23:59:59-11:30", "2021-12-16T09:12:00.750Z", "2100-03-01T00:00:00Z", "2038-01-19T03:14:08Z"}
	u := []int64{1262304000, 1639645920, 1709292599, 1639645920, 4107542400, 2147483648}
	k := sv.Choose("time", 0, len(t))
	if k < len(t) {
		flag.VerifStrs["time"] = t[k]
		a.at = uint32(u[k] - vhEpoch)
	} else {
		d := sv.Bytes("digit", 2)
		for i, m := range []byte{'5', '9'} {
			sv.Assume(d[i] >= '0')
			sv.Assume(d[i] <= m)
		}
		flag.VerifStrs["time"] = "2021-12-16T09:12:" + string(d) + "Z"
		a.at = uint32(1639645920-vhEpoch) + uint32(d[0]-'0')*10 + uint32(d[1]-'0')
	}
	net.VerifIn = vhAck(uint16(a.pid), 0, []byte{0})
	net.VerifEnd = io.EOF
	vhMain()
	vhSentIs(a)
	sv.Reach("sent")
}

// VH_C26_answer: success is reported exactly for a positive answer.
// Bounds: answers to any packet with any result and 0..3 confirmations of any status, arriving whole or in two pieces
// Reach: success failure
func VH_C26_answer() {
	a := vhArb()
	rpid, pr := sv.U16("rpid"), sv.Byte("pr")
	st := sv.Bytes("status", sv.Choose("n", 0, 3))
	net.VerifIn = vhAck(rpid, pr, st)
	net.VerifEnd = io.EOF
	if k := sv.Choose("piece", 0, 12); k > 0 {
		net.VerifPieces = []int{k * 2}
	}
	code := vhMain()
	good := pr == 0
	if int(rpid) != a.pid {
		good = false
	}
	for _, s := range st {
		if s != 0 {
			good = false
		}
	}
	if good {
		sv.Assert(code == 0, "a positive answer is reported as failure")
		sv.Reach("success")
	} else {
		sv.Assert(code != 0, "a negative answer is reported as success")
		sv.Reach("failure")
	}
}

// vhSDR is a record with any flags and services; form picks which optional
// fields it has.
func vhSDR(form byte, rd []byte) []byte {
	b := append(vh16(vh16(nil, uint16(len(rd))), sv.U16("rn")), sv.Byte("rflags")&0xF8|form)
	for i := uint(0); i < 3; i++ {
		if form>>i&1 != 0 {
			b = append(b, sv.Bytes("opt", 4)...)
		}
	}
	return append(append(b, sv.Byte("sst"), sv.Byte("rst")), rd...)
}

// VH_C26_records: the confirmations of an answer may be spread over records.
// Bounds: answers of 1..2 records (thorough: 1..3) with any optional fields, flags and services and 0..2 confirmations or other subrecords each, of any status; with and without routing fields
// Reach: success failure
func VH_C26_records() {
	a := vhArb()
	pr := sv.Byte("pr")
	m := 2
	if sv.Thorough() {
		m = 3
	}
	body := append(vh16(nil, uint16(a.pid)), pr)
	good := pr == 0
	for i := sv.Choose("records", 1, m); i > 0; i-- {
		var rd []byte
		for j := sv.Choose("subs", 0, 2); j > 0; j-- {
			if sv.Choose("kind", 0, 1) == 1 {
				rd = append(append(rd, 200, 2, 0), sv.Bytes("unk", 2)...)
				continue
			}
			st := sv.Byte("status")
			if st != 0 {
				good = false
			}
			rd = append(vh16(append(rd, 0, 3, 0), sv.U16("crn")), st)
		}
		form := byte([]int{0, 1, 7}[sv.Choose("form", 0, 2)])
		body = append(body, vhSDR(form, rd)...)
	}
	net.VerifIn = vhFrame(sv.U16("apid"), 0, body)
	if sv.Choose("route", 0, 1) == 1 {
		h := append(append([]byte{1, 0, 0x20, 16, 0}, byte(len(body)), byte(len(body)>>8)), sv.Bytes("apid2", 2)...)
		h = append(append(h, 0), sv.Bytes("routing", 5)...)
		net.VerifIn = vh16(append(append(h, vhCRC8(h)), body...), vhCRC16(body))
	}
	net.VerifEnd = io.EOF
	code := vhMain()
	if good {
		sv.Assert(code == 0, "a positive answer is reported as failure")
		sv.Reach("success")
	} else {
		sv.Assert(code != 0, "a negative answer is reported as success")
		sv.Reach("failure")
	}
}

// VH_C26_junk: anything but an answer is reported as failure.
// Bounds: 0..15 arbitrary bytes; a correct answer with any wrong checksum or cut short anywhere; application data; the connection then ends, fails or times out
// Reach: failure
func VH_C26_junk() {
	a := vhArb()
	good := vhAck(uint16(a.pid), 0, []byte{0})
	switch sv.Choose("what", 0, 4) {
	case 0:
		net.VerifIn = sv.Bytes("junk", sv.Choose("n", 0, 15))
	case 1:
		x := sv.Byte("hcs")
		sv.Assume(x != good[10])
		good[10] = x
		net.VerifIn = good
	case 2:
		x := sv.U16("dcs")
		sv.Assume(x != vhU16(good[len(good)-2:]))
		good[len(good)-2], good[len(good)-1] = byte(x), byte(x>>8)
		net.VerifIn = good
	case 3:
		net.VerifIn = good[:sv.Choose("cut", 0, len(good)-1)]
	default:
		net.VerifIn = vhFrame(sv.U16("apid"), 1, []byte{4, 0, 1, 0, 0, 2, 2, 9, 1, 0, 0})
	}
	net.VerifEnd = []error{io.EOF, net.VerifTimeout, errors.New("connection reset by peer")}[sv.Choose("end", 0, 2)]
	sv.Assert(vhMain() != 0, "success is reported without a positive answer")
	sv.Reach("failure")
}

// VH_C26_refuse: without the required options, or without a connection,
// nothing counts as sent.
// Bounds: each required option missing, 4 malformed times, failures to resolve, connect and write
// Reach: failure
func VH_C26_refuse() {
	a := vhArb()
	net.VerifIn = vhAck(uint16(a.pid), 0, []byte{0})
	net.VerifEnd = io.EOF
	k := sv.Choose("what", 0, 6)
	switch k {
	case 0:
		delete(flag.VerifInts, "pid")
	case 1:
		delete(flag.VerifInts, "oid")
	case 2:
		delete(flag.VerifStrs, "time")
	case 3:
		flag.VerifStrs["time"] = []string{"yesterday", "2021-12-16", "2021-13-16T09:12:00Z", "2021-12-16T09:12:00"}[sv.Choose("t", 0, 3)]
	case 4:
		net.VerifResolveErr = errors.New("no such host")
	case 5:
		net.VerifDialErr = errors.New("connection refused")
	default:
		net.VerifWriteErr = errors.New("broken pipe")
	}
	sv.Assert(vhMain() != 0, "success is reported though nothing was sent")
	sv.Assert(len(vhWritten()) == 0, "a packet is sent without its required options")
	sv.Reach("failure")
}

// VH_C26_wait: the answer is waited for as long as asked, by default five
// seconds.
// Bounds: every timeout of 1..100000 s, or none given
// Reach: waited
func VH_C26_wait() {
	vhArb()
	want := 5
	if sv.Choose("given", 0, 1) == 1 {
		want = int(sv.U32("timeout"))
		sv.Assume(want >= 1)
		sv.Assume(want <= 100000)
		flag.VerifInts["timeout"] = want
	}
	net.VerifEnd = net.VerifTimeout
	var last time.Time
	net.VerifHook = func(c *net.TCPConn, op string) {
		now := time.Now()
		if op == "read" {
			d := time.Duration(want) * time.Second
			sv.Assert(!net.VerifDeadline.Before(last.Add(d)), "the answer is waited for too short")
			sv.Assert(!net.VerifDeadline.After(now.Add(d)), "the answer is waited for too long")
			sv.Reach("waited")
		}
		last = now
	}
	sv.Assert(vhMain() != 0, "success is reported without an answer")
}
