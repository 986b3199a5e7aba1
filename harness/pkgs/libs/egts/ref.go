package egts

// Reference material the harnesses compare the library with: little-endian
// byte layout, the two checksums of the standard, flag strings, and a body
// type that is just bytes.

import (
	"errors"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// vhCRC8 is CRC-8 with polynomial x^8+x^5+x^4+1 and initial value 0xFF.
func vhCRC8(d []byte) byte {
	c := byte(0xFF)
	for i := 0; i < len(d); i++ {
		x := c ^ d[i]
		for k := 0; k < 8; k++ {
			top := x >> 7
			x <<= 1
			x ^= top | top<<4 | top<<5
		}
		c = x
	}
	return c
}

// vhCRC16 is CRC-16/CCITT: polynomial x^16+x^12+x^5+1, initial value 0xFFFF.
func vhCRC16(d []byte) uint16 {
	c := uint16(0xFFFF)
	for i := 0; i < len(d); i++ {
		c ^= uint16(d[i]) << 8
		for k := 0; k < 8; k++ {
			top := c >> 15
			c <<= 1
			c ^= top | top<<5 | top<<12
		}
	}
	return c
}

func vh16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func vh24(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func vh32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

// vhF returns bits hi..lo of b as a string of '0' and '1'.
func vhF(b byte, hi, lo uint) string {
	var s []byte
	for k := int(hi); k >= int(lo); k-- {
		s = append(s, '0'+(b>>uint(k))&1)
	}
	return string(s)
}

func vhBytesEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = vhAnd(eq, a[i] == b[i])
	}
	return eq
}

func vhAnd(a, b bool) bool {
	if a {
		return b
	}
	return false
}

// vhAll is the conjunction of its arguments.
func vhAll(c ...bool) bool {
	r := true
	for _, x := range c {
		r = vhAnd(r, x)
	}
	return r
}

// vhRaw is a package body given as bytes.
type vhRaw []byte

func (r vhRaw) Decode([]byte) error     { return nil }
func (r vhRaw) Encode() ([]byte, error) { return []byte(r), nil }
func (r vhRaw) Length() uint16          { return uint16(len(r)) }

var errVh = errors.New("harness error")

// vhFrame builds a correct frame around a body: no routing fields.
func vhFrame(pid uint16, pt byte, body []byte) []byte {
	h := []byte{1, 0, 0, 11, 0}
	h = vh16(h, uint16(len(body)))
	h = vh16(h, pid)
	h = append(h, pt)
	h = append(h, vhCRC8(h))
	h = append(h, body...)
	return vh16(h, vhCRC16(body))
}

// vhRec builds a service data record with an object identifier around
// subrecord bytes.
func vhRec(rn uint16, oid uint32, sst, rst byte, rd []byte) []byte {
	b := vh16(nil, uint16(len(rd)))
	b = vh16(b, rn)
	b = append(b, 0x01)
	b = vh32(b, oid)
	b = append(b, sst, rst)
	return append(b, rd...)
}

// vhSub builds a subrecord.
func vhSub(t byte, d []byte) []byte {
	b := append([]byte{t}, byte(len(d)), byte(len(d)>>8))
	return append(b, d...)
}

// vhLen picks a text length: every small one, then sizes around powers of two.
func vhLen(name string, small int) int {
	big := []int{31, 32, 33, 64, 127, 128, 129, 255, 256, 257}
	if !sv.Thorough() {
		big = []int{32, 128, 255, 256}
	}
	k := sv.Choose(name, 0, small+len(big))
	if k <= small {
		return k
	}
	return big[k-small-1]
}
