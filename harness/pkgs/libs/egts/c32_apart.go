package egts

import (
	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// vhMsg is an arbitrary correct packet: kind 0..13 a record with one subrecord
// of that kind, 14 a response, 15 a response with a record, 16 a packet without
// data, 17 two records.
func vhMsg(kind int) []byte {
	switch kind {
	case 14:
		return vhFrame(sv.U16("pid"), 0, append(vh16(nil, sv.U16("rpid")), sv.Byte("pr")))
	case 15:
		c := vhGenResponse()
		b := append(vh16(nil, sv.U16("rpid")), sv.Byte("pr"))
		return vhFrame(sv.U16("pid"), 0, append(b, vhRec(sv.U16("rn"), sv.U32("oid"), 1, 2, vhSub(c.typ, c.ref))...))
	case 16:
		return vhFrame(sv.U16("pid"), 1, nil)[:11]
	case 17:
		a := vhArbRecord(7, []vhCase{vhGenState(), vhGenLiquid()})
		return vhFrame(sv.U16("pid"), 1, append(append([]byte{}, a.ref...), vhRec(sv.U16("rn"), sv.U32("oid"), 1, 2, nil)...))
	}
	c := vhSubGen(kind)
	return vhFrame(sv.U16("pid"), 1, vhRec(sv.U16("rn"), sv.U32("oid"), sv.Byte("sst"), sv.Byte("rst"), vhSub(c.typ, c.ref)))
}

const vhMsgs = 17

func vhCopy(b []byte) []byte { return append([]byte{}, b...) }

func vhDec(b []byte) *Package {
	p := &Package{}
	code, err := p.Decode(b)
	sv.Assert(vhAnd(err == nil, code == 0), "a good packet is refused")
	return p
}

func vhEnc(p *Package) []byte {
	b, err := p.Encode()
	sv.Assert(err == nil, "a decoded packet cannot be encoded")
	return b
}

// VH_C32_input decodes a packet and then reuses its bytes for something else.
// Bounds: 18 kinds of packets, every value; every byte overwritten by an arbitrary one after decoding
// Reach: done
func VH_C32_input() {
	b := vhMsg(sv.Choose("k", 0, vhMsgs))
	keep := vhCopy(b)
	p := vhDec(b)
	sv.Assert(vhBytesEq(b, keep), "decoding changes the bytes it is given")
	e := vhEnc(p)
	copy(b, sv.Bytes("over", len(b)))
	f := vhEnc(p)
	sv.Assert(vhBytesEq(e, f), "a decoded packet changes with the bytes it was decoded from")
	sv.Assert(vhBytesEq(f, keep), "a decoded packet is not what it was decoded from")
	sv.Reach("done")
}

// VH_C32_output encodes packets and then reuses the bytes for something else.
// Bounds: 18 kinds of packets, every value, encoded three times; every byte of an encoding overwritten by an arbitrary one
// Reach: done
func VH_C32_output() {
	p := vhDec(vhMsg(sv.Choose("k", 0, vhMsgs)))
	e := vhEnc(p)
	keep := vhCopy(e)
	f := vhEnc(p)
	sv.Assert(vhBytesEq(f, keep), "encoding a packet again gives other bytes")
	sv.Assert(vhBytesEq(e, keep), "encoding a packet again changes the bytes returned before")
	copy(e, sv.Bytes("over", len(e)))
	sv.Assert(vhBytesEq(f, keep), "two encodings share their bytes")
	sv.Assert(vhBytesEq(vhEnc(p), keep), "a packet changes with the bytes it was encoded to")
	sv.Reach("done")
}

// vhParts are the parts of a packet that are encoded by themselves.
func vhParts(p *Package) []BinaryData {
	var out []BinaryData
	var set *ServiceDataSet
	switch d := p.ServicesFrameData.(type) {
	case *ServiceDataSet:
		out, set = append(out, d), d
	case *PtResponse:
		out = append(out, d)
		if s, ok := d.SDR.(*ServiceDataSet); ok {
			out, set = append(out, s), s
		}
	}
	if set != nil {
		for i := range *set {
			rds := &(*set)[i].RecordDataSet
			out = append(out, rds)
			for j := range *rds {
				out = append(out, (*rds)[j].SubrecordData)
			}
		}
	}
	return out
}

// VH_C32_parts encodes the data, the records and the subrecords of a packet by
// themselves, around those of another one.
// Bounds: every pair of 18 kinds of packets, every value; every byte of an encoding overwritten by an arbitrary one
// Reach: done
func VH_C32_parts() {
	ps := vhParts(vhDec(vhMsg(sv.Choose("a", 0, vhMsgs))))
	qs := vhParts(vhDec(vhMsg(sv.Choose("b", 0, vhMsgs))))
	var got, keep [][]byte
	for _, x := range append(append(append([]BinaryData{}, ps...), qs...), ps...) {
		b, err := x.Encode()
		sv.Assert(err == nil, "a decoded part cannot be encoded")
		got, keep = append(got, b), append(keep, vhCopy(b))
	}
	for i := range got {
		sv.Assert(vhBytesEq(got[i], keep[i]), "an encoded part is changed by encoding another one")
	}
	n := len(ps) + len(qs)
	for i := range ps {
		sv.Assert(vhBytesEq(got[i], got[n+i]), "encoding a part again gives other bytes")
		copy(got[i], sv.Bytes("over", len(got[i])))
		sv.Assert(vhBytesEq(got[n+i], keep[i]), "two encodings of a part share their bytes")
	}
	for i, x := range ps {
		b, _ := x.Encode()
		sv.Assert(vhBytesEq(b, keep[i]), "a part changes with the bytes it was encoded to")
	}
	sv.Reach("done")
}

// VH_C32_history decodes and encodes one packet around another.
// Bounds: every pair of 18 kinds of packets (thorough: every three of them), every value
// Reach: done
func VH_C32_history() {
	x, y := vhMsg(sv.Choose("a", 0, vhMsgs)), vhMsg(sv.Choose("b", 0, vhMsgs))
	p := vhDec(vhCopy(x))
	if sv.Thorough() {
		vhEnc(vhDec(vhMsg(sv.Choose("c", 0, vhMsgs))))
	}
	q := vhDec(vhCopy(y))
	e := vhEnc(p)
	sv.Assert(vhBytesEq(e, x), "a decoded packet is changed by decoding another one")
	f := vhEnc(q)
	sv.Assert(vhBytesEq(f, y), "a packet is decoded or encoded differently after another one")
	sv.Assert(vhBytesEq(e, x), "an encoded packet is changed by encoding another one")
	sv.Reach("done")
}

// VH_C32_malformed decodes a good packet after arbitrary ones.
// Bounds: data of 0..10 arbitrary bytes (thorough: 0..13) in a packet of either type with correct checksums or 0..14 bytes that are not a packet; then each of 18 kinds of packets
// Reach: done
func VH_C32_malformed() {
	m := 10
	if sv.Thorough() {
		m = 13
	}
	bad := &Package{}
	pt := sv.Choose("pt", 0, 2)
	if pt == 2 {
		bad.Decode(sv.Bytes("d", sv.Choose("n", 0, 14)))
	} else {
		bad.Decode(vhFrame(sv.U16("pid"), byte(pt), sv.Bytes("d", sv.Choose("n", 0, m))))
	}
	y := vhMsg(sv.Choose("b", 0, vhMsgs))
	sv.Assert(vhBytesEq(vhEnc(vhDec(vhCopy(y))), y), "a good packet is decoded or encoded differently after an odd one")
	sv.Reach("done")
}

// VH_C32_parallel decodes, encodes and serialises packets in two goroutines.
// Bounds: every pair of 18 kinds of packets, every value; no access of one goroutine to a package-level variable, or to what hangs off one, may conflict with one of the other
// Reach: done
func VH_C32_parallel() {
	work := func(b []byte) func() {
		return func() {
			p := &Package{}
			if _, err := p.Decode(b); err != nil {
				return
			}
			p.ToBytes()
			for _, x := range vhParts(p) {
				x.Encode()
				x.Length()
			}
			p.Encode()
		}
	}
	x, y := vhMsg(sv.Choose("a", 0, vhMsgs)), vhMsg(sv.Choose("b", 0, vhMsgs))
	sv.Parallel(work(x), work(y))
	sv.Reach("done")
}

// VH_C32_paralleldata decodes arbitrary data in two goroutines.
// Bounds: data of 0..9 arbitrary bytes (thorough: 0..12) in packets of both types, beside the same data or any of 18 kinds of packets
// Reach: done
func VH_C32_paralleldata() {
	m := 9
	if sv.Thorough() {
		m = 12
	}
	work := func(b []byte) func() {
		return func() {
			p := &Package{}
			p.Decode(b)
		}
	}
	x := vhFrame(sv.U16("pid"), byte(sv.Choose("pt", 0, 1)), sv.Bytes("d", sv.Choose("n", 0, m)))
	k := sv.Choose("b", 0, vhMsgs+1)
	y := x
	if k > 0 {
		y = vhMsg(k - 1)
	}
	sv.Parallel(work(x), work(y))
	sv.Reach("done")
}
