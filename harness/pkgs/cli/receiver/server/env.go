package server

// The environment the harnesses run a connection handler in: a connection
// whose input, segmentation and failures the harness decides, a store that
// keeps what it is given, and builders of standard frames written from the
// standard.

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

var errVh = errors.New("harness error")

// vhTimeout is the error of a read whose deadline has passed.
type vhTimeout struct{}

func (vhTimeout) Error() string   { return "i/o timeout" }
func (vhTimeout) Timeout() bool   { return true }
func (vhTimeout) Temporary() bool { return true }

type vhAddr struct{}

func (vhAddr) Network() string { return "tcp" }
func (vhAddr) String() string  { return "192.0.2.1:1234" }

type vhConn struct {
	in     []byte
	pos    int
	cuts   []int // offsets no single read crosses
	every  int   // greatest number of bytes one read returns, 0: no limit
	end    error // what reads report once the input is used up
	out    [][]byte
	stored []int // number of records saved when each reply was written
	closed int
	reads  int
	limit  int
	st     *vhStore
	werr   error
	hook   func() // called at every operation
	rhook  func() // called at every read
	rdl    time.Time
	dlSet  int
}

func (c *vhConn) Read(p []byte) (int, error) {
	c.reads++
	if c.limit == 0 {
		c.limit = 4*len(c.in) + 20
	}
	if c.reads > c.limit {
		sv.Unwind("the handler keeps reading a connection that has nothing left")
	}
	if c.hook != nil {
		c.hook()
	}
	if c.rhook != nil {
		c.rhook()
	}
	if c.closed > 0 {
		return 0, errors.New("use of closed network connection")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.pos >= len(c.in) {
		return 0, c.end
	}
	n := len(c.in) - c.pos
	if n > len(p) {
		n = len(p)
	}
	if c.every > 0 && n > c.every {
		n = c.every
	}
	for _, k := range c.cuts {
		if k > c.pos && k < c.pos+n {
			n = k - c.pos
		}
	}
	copy(p, c.in[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}

func (c *vhConn) Write(p []byte) (int, error) {
	if c.hook != nil {
		c.hook()
	}
	if c.closed > 0 {
		return 0, errors.New("use of closed network connection")
	}
	if c.werr != nil {
		return 0, c.werr
	}
	c.out = append(c.out, append([]byte{}, p...))
	n := 0
	if c.st != nil {
		n = len(c.st.docs)
	}
	c.stored = append(c.stored, n)
	return len(p), nil
}

func (c *vhConn) Close() error {
	c.closed++
	return nil
}

func (c *vhConn) LocalAddr() net.Addr  { return vhAddr{} }
func (c *vhConn) RemoteAddr() net.Addr { return vhAddr{} }
func (c *vhConn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *vhConn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	c.dlSet++
	return nil
}
func (c *vhConn) SetWriteDeadline(t time.Time) error { return nil }

// vhBytes is everything written to the connection, in order.
func (c *vhConn) bytes() []byte {
	var b []byte
	for _, x := range c.out {
		b = append(b, x...)
	}
	return b
}

// vhStore keeps the serialised form of what it is asked to save.
type vhStore struct {
	docs [][]byte
	fail []bool // which saves fail
	n    int
	hook func()
}

func (s *vhStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	if s.hook != nil {
		s.hook()
	}
	k := s.n
	s.n++
	if k < len(s.fail) && s.fail[k] {
		return errVh
	}
	b, err := m.ToBytes()
	sv.Assert(err == nil, "a record cannot be serialised")
	if err != nil {
		return err
	}
	s.docs = append(s.docs, b)
	return nil
}

const vhTTL = 2 * time.Millisecond

func vhServer(stores ...storage.Saver) *Server {
	r := storage.NewRepository()
	for _, s := range stores {
		r.AddStore(s)
	}
	s := New("127.0.0.1:0", vhTTL, r)
	return &s
}

// vhRun feeds the bytes to a fresh handler and returns when it is done.
func vhRun(st *vhStore, in []byte) *vhConn {
	c := &vhConn{in: in, end: io.EOF, st: st}
	verifHandle(vhServer(st), c)
	sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
	return c
}

// ---- frames, written from the standard ----

func vhCRC8(d []byte) byte {
	c := byte(0xFF)
	for i := 0; i < len(d); i++ {
		x := c ^ d[i]
		for k := 0; k < 8; k++ {
			top := x >> 7
			x <<= 1
			x ^= top | top<<4 | top<<5
		}
		c = x
	}
	return c
}

func vhCRC16(d []byte) uint16 {
	c := uint16(0xFFFF)
	for i := 0; i < len(d); i++ {
		c ^= uint16(d[i]) << 8
		for k := 0; k < 8; k++ {
			top := c >> 15
			c <<= 1
			c ^= top | top<<5 | top<<12
		}
	}
	return c
}

func vh16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func vh24(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func vh32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func vhU16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }

func vhAnd(a, b bool) bool {
	if a {
		return b
	}
	return false
}

func vhAll(c ...bool) bool {
	r := true
	for _, x := range c {
		r = vhAnd(r, x)
	}
	return r
}

func vhEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = vhAnd(eq, a[i] == b[i])
	}
	return eq
}

// vhFrame is a correct frame without routing fields.
func vhFrame(pid uint16, pt byte, body []byte) []byte {
	h := []byte{1, 0, 0, 11, 0}
	h = vh16(vh16(h, uint16(len(body))), pid)
	h = append(h, pt)
	h = append(h, vhCRC8(h))
	if len(body) == 0 {
		return h
	}
	h = append(h, body...)
	return vh16(h, vhCRC16(body))
}

// vhFrameRoute is a correct frame with routing fields.
func vhFrameRoute(pid uint16, pt byte, body []byte) []byte {
	h := []byte{1, 0, 0x20, 16, 0}
	h = vh16(vh16(h, uint16(len(body))), pid)
	h = append(h, pt)
	h = append(vh16(vh16(h, sv.U16("pra")), sv.U16("rca")), sv.Byte("ttl"))
	h = append(h, vhCRC8(h))
	if len(body) == 0 {
		return h
	}
	h = append(h, body...)
	return vh16(h, vhCRC16(body))
}

func vhSub(t byte, d []byte) []byte {
	b := append([]byte{t}, byte(len(d)), byte(len(d)>>8))
	return append(b, d...)
}

// vhRecOID is a record with an object identifier, vhRecNo one without.
func vhRecOID(rn uint16, oid uint32, svc byte, rd []byte) []byte {
	b := append(vh16(vh16(nil, uint16(len(rd))), rn), 0x01)
	b = append(vh32(b, oid), svc, svc)
	return append(b, rd...)
}

func vhRecNo(rn uint16, svc byte, rd []byte) []byte {
	b := append(vh16(vh16(nil, uint16(len(rd))), rn), 0x00)
	b = append(b, svc, svc)
	return append(b, rd...)
}

// vhReply takes one packet off the front of what was written; the packet must
// be well formed. It returns the type, the identifier and the data.
func vhReply(b []byte) (pt byte, body, rest []byte) {
	sv.Assert(len(b) >= 11, "a reply is shorter than a header")
	if len(b) < 11 {
		return 255, nil, nil
	}
	hl := int(b[3])
	n := int(vhU16(b[5:7]))
	sv.Assert(hl == 11, "a reply has the wrong header length")
	sv.Assert(b[0] == 1, "a reply has the wrong protocol version")
	sv.Assert(b[2]&0x3C == 0, "a reply is marked routed, encrypted or compressed")
	sv.Assert(b[10] == vhCRC8(b[:10]), "a reply has a wrong header checksum")
	if n == 0 {
		return b[9], nil, b[11:]
	}
	sv.Assert(len(b) >= 13+n, "a reply is shorter than its lengths say")
	if len(b) < 13+n {
		return 255, nil, nil
	}
	body = b[11 : 11+n]
	sv.Assert(vhU16(b[11+n:]) == vhCRC16(body), "a reply has a wrong data checksum")
	return b[9], body, b[13+n:]
}

// vhConfirms: the response body names the packet and result; it returns the
// confirmed record numbers and statuses.
func vhConfirms(body []byte, pid uint16, result byte) (rn []uint16, status []byte) {
	sv.Assert(len(body) >= 3, "a response is too short")
	if len(body) < 3 {
		return nil, nil
	}
	sv.Assert(vhU16(body) == pid, "the response names another packet")
	sv.Assert(body[2] == result, "the response has the wrong processing result")
	r := body[3:]
	for len(r) > 0 {
		sv.Assert(len(r) >= 7, "a response record is too short")
		if len(r) < 7 {
			return rn, status
		}
		rl := int(vhU16(r))
		f := r[4]
		k := 7
		if f&1 != 0 {
			k += 4
		}
		if f&2 != 0 {
			k += 4
		}
		if f&4 != 0 {
			k += 4
		}
		sv.Assert(len(r) >= k+rl, "a response record is shorter than its length says")
		if len(r) < k+rl {
			return rn, status
		}
		d := r[k : k+rl]
		r = r[k+rl:]
		for len(d) > 0 {
			sv.Assert(len(d) >= 6, "a confirmation is too short")
			if len(d) < 6 {
				return rn, status
			}
			sv.Assert(vhAll(d[0] == 0, d[1] == 3, d[2] == 0), "the response carries something other than confirmations")
			rn = append(rn, vhU16(d[3:]))
			status = append(status, d[5])
			d = d[6:]
		}
	}
	return rn, status
}
