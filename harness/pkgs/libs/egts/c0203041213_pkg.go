package egts

import (
	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

func vhU16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }

// vhIntact: the frame's checksums are right. Only called for accepted frames.
func vhIntact(b []byte) {
	sv.Assert(len(b) >= 11, "accepted packet is shorter than a header")
	if len(b) < 11 {
		return
	}
	hl, fdl := int(b[3]), int(vhU16(b[5:7]))
	sv.Assert(vhAnd(hl >= 11, hl <= len(b)), "accepted packet has an impossible header length")
	if hl < 11 || hl > len(b) {
		return
	}
	sv.Assert(vhCRC8(b[:hl-1]) == b[hl-1], "accepted packet has a wrong header checksum")
	if fdl > 0 {
		sv.Assert(hl+fdl+2 <= len(b), "accepted packet is shorter than its lengths say")
		if hl+fdl+2 > len(b) {
			return
		}
		sv.Assert(vhCRC16(b[hl:hl+fdl]) == vhU16(b[hl+fdl:]), "accepted packet has a wrong data checksum")
	}
}

func vhAccept(b []byte) {
	p := &Package{}
	code, err := p.Decode(b)
	if err != nil {
		return
	}
	sv.Assert(code == 0, "accepted packet with an error code")
	sv.Reach("ok")
	vhIntact(b)
}

// VH_C02_any decodes arbitrary bytes; whatever is accepted has both checksums right.
// Bounds: every byte string of 0..14 bytes (thorough: 0..17)
// Reach: ok
func VH_C02_any() {
	hi := 14
	if sv.Thorough() {
		hi = 17
	}
	vhAccept(sv.Bytes("d", sv.Choose("n", 0, hi)))
}

// VH_C02_framed decodes arbitrary bytes with a given header and data length; whatever is accepted has both checksums right.
// Bounds: header lengths 11 and 16, data lengths 0..10 (thorough: 0..14), every other byte
// Reach: ok
func VH_C02_framed() {
	hi := 10
	if sv.Thorough() {
		hi = 14
	}
	hl := []int{11, 16}[sv.Choose("hl", 0, 1)]
	n := sv.Choose("fdl", 0, hi)
	t := hl
	if n > 0 {
		t += n + 2
	}
	b := sv.Bytes("d", t)
	b[3], b[5], b[6] = byte(hl), byte(n), 0
	vhAccept(b)
}

// vhSample is a valid packet with arbitrary contents: kind 0 a response, 1 a
// record with an unknown subrecord of n bytes, 2 a record with a state
// subrecord, 3 a packet without data; route adds the routing fields.
func vhSample(kind, n int, route bool) []byte {
	var body []byte
	pt := byte(1)
	switch kind {
	case 0:
		pt = 0
		body = append(vh16(nil, sv.U16("rpid")), sv.Byte("pr"))
	case 1:
		body = vhRec(sv.U16("rn"), sv.U32("oid"), sv.Byte("sst"), sv.Byte("rst"), vhSub(200, sv.Bytes("unk", n)))
	case 2:
		body = vhRec(sv.U16("rn"), sv.U32("oid"), 2, 2, vhSub(21, sv.Bytes("state", 5)))
	}
	return vhFrameR(sv.Byte("prv"), sv.Byte("skid"), sv.Byte("fl")&0xC7, sv.Byte("he"), sv.U16("pid"), pt, route, body)
}

// vhFrameR builds a correct frame; flags without the route bit.
func vhFrameR(prv, skid, flags, he byte, pid uint16, pt byte, route bool, body []byte) []byte {
	h := []byte{prv, skid, flags &^ 0x20, 11, he}
	if route {
		h[2], h[3] = flags|0x20, 16
	}
	h = vh16(vh16(h, uint16(len(body))), pid)
	h = append(h, pt)
	if route {
		h = append(vh16(vh16(h, sv.U16("pra")), sv.U16("rca")), sv.Byte("ttl"))
	}
	h = append(h, vhCRC8(h))
	if len(body) == 0 {
		return h
	}
	h = append(h, body...)
	return vh16(h, vhCRC16(body))
}

// VH_C02_corrupt corrupts one byte of a valid packet in every way.
// Bounds: responses, unknown-subrecord records of 0..4 bytes, state records and empty packets, with and without routing fields, every content; every position and every wrong value
// Reach: valid
func VH_C02_corrupt() {
	kind := sv.Choose("kind", 0, 3)
	n := 0
	if kind == 1 {
		n = sv.Choose("n", 0, 4)
	}
	b := vhSample(kind, n, sv.Choose("route", 0, 1) == 1)
	at := sv.Choose("at", 0, len(b)-1)
	x := sv.Byte("xor")
	sv.Assume(x != 0)
	c := append([]byte{}, b...)
	c[at] ^= x
	sv.Reach("valid")
	p := &Package{}
	code, err := p.Decode(c)
	sv.Assert(err != nil, "a packet with one corrupted byte is accepted")
	if err != nil {
		sv.Assert(code != 0, "a rejected packet has the success code")
	}
}

// VH_C02_valid accepts every valid packet, so that the rejections above mean something.
// Bounds: as VH_C02_corrupt, unknown subrecords of 0..6 bytes
// Reach: ok
func VH_C02_valid() {
	b := vhSample(sv.Choose("kind", 0, 3), sv.Choose("n", 0, 6), sv.Choose("route", 0, 1) == 1)
	p := &Package{}
	code, err := p.Decode(b)
	sv.Assert(err == nil, "a valid packet is rejected")
	sv.Assert(code == 0, "a valid packet has an error code")
	sv.Reach("ok")
}

// VH_C02_big corrupts one byte of a longer valid packet.
// Bounds: one unknown subrecord making bodies of 256, 257, 300, 600 and 1100 bytes of fixed content; corrupted positions at the start, around byte 255, in the middle and at the end of the data and in both checksum bytes; every wrong value
// Reach: valid
func VH_C02_big() {
	n := []int{256, 257, 300, 600, 1100}[sv.Choose("size", 0, 4)]
	d := make([]byte, n-14)
	for i := range d {
		d[i] = byte(i*7 + 3)
	}
	b := vhFrame(77, 1, vhRec(5, 6, 2, 2, vhSub(200, d)))
	at := []int{25, 26, 11 + 254, 11 + 255, 11 + n/2, 11 + n - 2, 11 + n - 1, 11 + n, 11 + n + 1}[sv.Choose("at", 0, 8)]
	p := &Package{}
	_, err := p.Decode(b)
	sv.Assert(err == nil, "a valid packet is rejected")
	x := sv.Byte("xor")
	sv.Assume(x != 0)
	c := append([]byte{}, b...)
	c[at] ^= x
	sv.Reach("valid")
	p = &Package{}
	code, err := p.Decode(c)
	sv.Assert(err != nil, "a packet with one corrupted byte is accepted")
	if err != nil {
		sv.Assert(code != 0, "a rejected packet has the success code")
	}
}

// VH_C02_csum: a packet whose data checksum field holds any value other than the right one is rejected, and likewise for the header checksum.
// Bounds: every header field and content of a state record; every pair of wrong checksum values
// Reach: bad
func VH_C02_csum() {
	b := vhSample(sv.Choose("kind", 0, 2), 3, sv.Choose("route", 0, 1) == 1)
	if sv.Choose("which", 0, 1) == 0 {
		v := sv.Byte("hcs")
		hl := int(b[3])
		sv.Assume(v != b[hl-1])
		b[hl-1] = v
	} else {
		v := sv.U16("sfrcs")
		sv.Assume(v != vhU16(b[len(b)-2:]))
		b[len(b)-2], b[len(b)-1] = byte(v), byte(v>>8)
	}
	sv.Reach("bad")
	p := &Package{}
	_, err := p.Decode(b)
	sv.Assert(err != nil, "a packet with a wrong checksum is accepted")
}

// vhHdr is an arbitrary header without encryption.
func vhHdr(route bool) (*Package, []byte) {
	fl := sv.Byte("fl") & 0xC7
	p := &Package{ProtocolVersion: sv.Byte("prv"), SecurityKeyID: sv.Byte("skid"), Prefix: vhF(fl, 7, 6), Route: "0", EncryptionAlg: "00",
		Compression: vhF(fl, 2, 2), Priority: vhF(fl, 1, 0), HeaderEncoding: sv.Byte("he"), PacketIdentifier: sv.U16("pid"), PacketType: sv.Byte("pt")}
	h := []byte{p.ProtocolVersion, p.SecurityKeyID, fl, 11, p.HeaderEncoding, 0, 0}
	h = append(vh16(h, p.PacketIdentifier), p.PacketType)
	if route {
		p.Route = "1"
		h[2] |= 0x20
		h[3] = 16
		p.PeerAddress, p.RecipientAddress, p.TimeToLive = sv.U16("pra"), sv.U16("rca"), sv.Byte("ttl")
		h = append(vh16(vh16(h, p.PeerAddress), p.RecipientAddress), p.TimeToLive)
	}
	return p, h
}

// VH_C03_layout compares encoded packets with the standard's layout.
// Bounds: every header field, with and without routing fields, stale header length, data length and checksum fields of any value, arbitrary data of 0..6 bytes or no data
// Reach: encoded
func VH_C03_layout() {
	route := sv.Choose("route", 0, 1) == 1
	n := sv.Choose("n", -1, 6)
	p, h := vhHdr(route)
	p.HeaderLength = sv.Byte("hl")
	p.FrameDataLength, p.HeaderCheckSum, p.ServicesFrameDataCheckSum = sv.U16("fdl"), sv.Byte("hcs"), sv.U16("sfrcs")
	var body []byte
	if n >= 0 {
		body = sv.Bytes("body", n)
		p.ServicesFrameData = vhRaw(body)
	}
	h[5] = byte(len(body))
	b, err := p.Encode()
	sv.Assert(err == nil, "encoding a packet fails")
	if err != nil {
		return
	}
	ref := append(h, vhCRC8(h))
	if len(body) > 0 {
		ref = vh16(append(ref, body...), vhCRC16(body))
	}
	sv.Reach("encoded")
	sv.Assert(len(b) == len(ref), "encoded packet has the wrong length")
	if len(b) != len(ref) {
		return
	}
	hl := int(h[3])
	sv.Assert(vhBytesEq(b[:hl-1], ref[:hl-1]), "encoded header differs from the standard's layout")
	sv.Assert(b[hl-1] == ref[hl-1], "encoded header checksum is wrong")
	if len(body) > 0 {
		sv.Assert(vhBytesEq(b[hl:hl+len(body)], body), "encoded data differ")
		sv.Assert(vhU16(b[len(b)-2:]) == vhU16(ref[len(ref)-2:]), "encoded data checksum is wrong")
	}
}

// VH_C03_sizes encodes packets with long data.
// Bounds: data of 127, 128, 255, 256, 257, 1000 and 5000 bytes (thorough also 65535) of fixed content, every packet identifier
// Reach: encoded
func VH_C03_sizes() {
	sizes := []int{127, 128, 255, 256, 257, 1000, 5000, 65535}
	k := 6
	if sv.Thorough() {
		k = 7
	}
	n := sizes[sv.Choose("size", 0, k)]
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(i*5 + i>>8)
	}
	p := &Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "10", PacketIdentifier: sv.U16("pid"), PacketType: 1, ServicesFrameData: vhRaw(body)}
	b, err := p.Encode()
	sv.Assert(err == nil, "encoding a packet fails")
	if err != nil {
		return
	}
	sv.Reach("encoded")
	sv.Assert(len(b) == 11+n+2, "encoded packet has the wrong length")
	if len(b) != 11+n+2 {
		return
	}
	h := []byte{1, 0, 2, 11, 0, byte(n), byte(n >> 8)}
	h = append(vh16(h, p.PacketIdentifier), 1)
	sv.Assert(vhAnd(vhBytesEq(b[:10], h), b[10] == vhCRC8(h)), "encoded header differs from the standard's layout")
	sv.Assert(vhBytesEq(b[11:11+n], body), "encoded data differ")
	sv.Assert(vhU16(b[11+n:]) == vhCRC16(body), "encoded data checksum is wrong")
}

func vhStateRec() ServiceDataRecord {
	c := vhGenState()
	return ServiceDataRecord{RecordNumber: sv.U16("rn"), SourceServiceOnDevice: "1", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "10",
		TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "1", ObjectIdentifier: sv.U32("oid"), SourceServiceType: sv.Byte("sst"), RecipientServiceType: sv.Byte("rst"),
		RecordDataSet: RecordDataSet{{SubrecordData: c.x}}}
}

func vhSameState(a, b ServiceDataRecord) bool {
	return vhAll(a.RecordNumber == b.RecordNumber, a.SourceServiceOnDevice == b.SourceServiceOnDevice, a.RecipientServiceOnDevice == b.RecipientServiceOnDevice, a.Group == b.Group,
		a.RecordProcessingPriority == b.RecordProcessingPriority, a.TimeFieldExists == b.TimeFieldExists, a.EventIDFieldExists == b.EventIDFieldExists, a.ObjectIDFieldExists == b.ObjectIDFieldExists,
		a.ObjectIdentifier == b.ObjectIdentifier, a.EventIdentifier == b.EventIdentifier, a.SourceServiceType == b.SourceServiceType, a.RecipientServiceType == b.RecipientServiceType,
		len(a.RecordDataSet) == len(b.RecordDataSet))
}

// VH_C04_round encodes a packet and decodes it again.
// Bounds: every header field, with and without routing fields; data: nothing, one or two state records of every content, a response with or without a record
// Reach: decoded
func VH_C04_round() {
	p, _ := vhHdr(sv.Choose("route", 0, 1) == 1)
	kind := sv.Choose("kind", 0, 4)
	p.PacketType = 1
	var recs ServiceDataSet
	var resp *PtResponse
	switch kind {
	case 0:
		if sv.Choose("nil", 0, 1) == 0 {
			p.ServicesFrameData = &ServiceDataSet{}
		}
	case 1:
		recs = ServiceDataSet{vhStateRec()}
		p.ServicesFrameData = &recs
	case 2:
		recs = ServiceDataSet{vhStateRec(), vhStateRec()}
		p.ServicesFrameData = &recs
	default:
		p.PacketType = 0
		resp = &PtResponse{ResponsePacketID: sv.U16("rpid"), ProcessingResult: sv.Byte("pr")}
		if kind == 4 {
			recs = ServiceDataSet{vhStateRec()}
			resp.SDR = &recs
		}
		p.ServicesFrameData = resp
	}
	b, err := p.Encode()
	sv.Assert(err == nil, "encoding a packet fails")
	if err != nil {
		return
	}
	q := &Package{}
	code, err := q.Decode(b)
	sv.Assert(err == nil, "decoding an encoded packet fails")
	sv.Assert(code == 0, "decoding an encoded packet gives an error code")
	if err != nil {
		return
	}
	sv.Reach("decoded")
	sv.Assert(vhAll(p.ProtocolVersion == q.ProtocolVersion, p.SecurityKeyID == q.SecurityKeyID, p.Prefix == q.Prefix, p.Route == q.Route, p.EncryptionAlg == q.EncryptionAlg,
		p.Compression == q.Compression, p.Priority == q.Priority, p.HeaderEncoding == q.HeaderEncoding, p.PacketIdentifier == q.PacketIdentifier, p.PacketType == q.PacketType), "header fields change in the round trip")
	sv.Assert(vhAll(p.PeerAddress == q.PeerAddress, p.RecipientAddress == q.RecipientAddress, p.TimeToLive == q.TimeToLive), "routing fields change in the round trip")
	sv.Assert(vhAnd(int(q.HeaderLength) == 11 || int(q.HeaderLength) == 16, int(q.FrameDataLength) == len(b)-int(q.HeaderLength)-2 || q.FrameDataLength == 0), "length fields are wrong after the round trip")
	got := ServiceDataSet{}
	if p.PacketType == 1 {
		d, ok := q.ServicesFrameData.(*ServiceDataSet)
		sv.Assert(ok, "decoded data are not a record set")
		if !ok {
			return
		}
		got = *d
	} else {
		d, ok := q.ServicesFrameData.(*PtResponse)
		sv.Assert(ok, "decoded data are not a response")
		if !ok {
			return
		}
		sv.Assert(vhAnd(d.ResponsePacketID == resp.ResponsePacketID, d.ProcessingResult == resp.ProcessingResult), "response fields change in the round trip")
		if d.SDR != nil {
			s, ok := d.SDR.(*ServiceDataSet)
			sv.Assert(ok, "decoded response records are not a record set")
			if !ok {
				return
			}
			got = *s
		}
	}
	sv.Assert(len(got) == len(recs), "the number of records changes in the round trip")
	if len(got) != len(recs) {
		return
	}
	for i := range recs {
		sv.Assert(vhSameState(recs[i], got[i]), "record fields change in the round trip")
		if len(got[i].RecordDataSet) != 1 {
			return
		}
		x, ok := got[i].RecordDataSet[0].SubrecordData.(*SrStateData)
		sv.Assert(ok, "subrecord type changes in the round trip")
		if !ok {
			return
		}
		sv.Assert(*x == *recs[i].RecordDataSet[0].SubrecordData.(*SrStateData), "subrecord fields change in the round trip")
	}
}

// VH_C04_again decodes a valid packet and encodes the result: the same bytes.
// Bounds: responses, state records and empty packets of every content, with and without routing fields
// Reach: encoded
func VH_C04_again() {
	k := []int{0, 2, 3}[sv.Choose("kind", 0, 2)]
	b := vhSample(k, 0, sv.Choose("route", 0, 1) == 1)
	if k == 2 {
		sv.Assume(b[len(b)-3]&0xF8 == 0) // reserved bits of the state flags
	}
	p := &Package{}
	_, err := p.Decode(b)
	sv.Assert(err == nil, "a valid packet is rejected")
	if err != nil {
		return
	}
	c, err := p.Encode()
	sv.Assert(err == nil, "encoding a decoded packet fails")
	if err != nil {
		return
	}
	sv.Reach("encoded")
	sv.Assert(vhBytesEq(b, c), "re-encoding a decoded packet gives different bytes")
}

// vhKey is a key that records its input and returns a given text or error.
type vhKey struct {
	out []byte
	err error
	in  []byte
	dec int
	enc int
}

func (k *vhKey) Decode(b []byte) ([]byte, error) {
	k.dec++
	k.in = append([]byte{}, b...)
	return k.out, k.err
}

func (k *vhKey) Encode(b []byte) ([]byte, error) {
	k.enc++
	k.in = append([]byte{}, b...)
	return k.out, k.err
}

func vhOpt(k *vhKey) func(*Options) { return func(o *Options) { o.Secret = k } }

// VH_C12_encode encodes with every encryption flag combination, with and without a key.
// Bounds: all four algorithms; plain data of 0..6 bytes or none; cipher text of 0..7 bytes; failing keys
// Reach: cipher plain nokey keyerr
func VH_C12_encode() {
	alg := sv.Choose("ena", 0, 3)
	p, h := vhHdr(sv.Choose("route", 0, 1) == 1)
	p.EncryptionAlg = []string{"00", "01", "10", "11"}[alg]
	h[2] |= byte(alg) << 3
	plain := sv.Bytes("plain", sv.Choose("n", 1, 6))
	p.ServicesFrameData = vhRaw(plain)
	m := sv.Choose("key", 0, 2)
	k := &vhKey{}
	var b []byte
	var err error
	switch m {
	case 0:
		b, err = p.Encode()
	case 1:
		k.out = sv.Bytes("cipher", sv.Choose("m", 1, 7))
		b, err = p.Encode(vhOpt(k))
	default:
		k.err = errVh
		b, err = p.Encode(vhOpt(k))
	}
	body := plain
	if alg != 0 {
		if m == 0 {
			sv.Assert(err != nil, "an encrypted packet is encoded without a key")
			sv.Reach("nokey")
			return
		}
		sv.Assert(k.enc == 1, "the key is not used exactly once")
		if k.enc != 1 {
			return
		}
		sv.Assert(vhBytesEq(k.in, plain), "the key is given something other than the plain data")
		if m == 2 {
			sv.Assert(err != nil, "a failing key goes unnoticed")
			sv.Reach("keyerr")
			return
		}
		body = k.out
		sv.Reach("cipher")
	} else {
		sv.Assert(k.enc+k.dec == 0, "the key is used for a plain packet")
		sv.Reach("plain")
	}
	sv.Assert(err == nil, "encoding fails")
	if err != nil {
		return
	}
	h[5] = byte(len(body))
	ref := append(h, vhCRC8(h))
	ref = vh16(append(ref, body...), vhCRC16(body))
	sv.Assert(vhBytesEq(b, ref), "the encoded packet does not carry the right data, lengths or checksums")
}

// VH_C12_decode decodes with every encryption flag combination, with and without a key.
// Bounds: all four algorithms; cipher text of 1..6 arbitrary bytes, plain text a response or a state record; failing keys
// Reach: cipher nokey keyerr
func VH_C12_decode() {
	alg := byte(sv.Choose("ena", 1, 3))
	resp := sv.Choose("resp", 0, 1) == 1
	ci := sv.Bytes("cipher", sv.Choose("n", 1, 6))
	pt := byte(1)
	if resp {
		pt = 0
	}
	b := vhFrameR(1, sv.Byte("skid"), sv.Byte("fl")&0xC7|alg<<3, 0, sv.U16("pid"), pt, sv.Choose("route", 0, 1) == 1, ci)
	k := &vhKey{}
	p := &Package{}
	switch sv.Choose("key", 0, 2) {
	case 0:
		code, err := p.Decode(b)
		sv.Assert(err != nil, "an encrypted packet is decoded without a key")
		sv.Assert(code == 129, "a missing key is not reported as a decryption error")
		sv.Reach("nokey")
		return
	case 1:
		k.err = errVh
		code, err := p.Decode(b, vhOpt(k))
		sv.Assert(err != nil, "a failing key goes unnoticed")
		sv.Assert(code == 129, "a failing key is not reported as a decryption error")
		sv.Reach("keyerr")
		return
	}
	st := sv.Bytes("state", 5)
	rn, oid := sv.U16("rn"), sv.U32("oid")
	if resp {
		k.out = append(vh16(nil, rn), st[0])
	} else {
		k.out = vhRec(rn, oid, 2, 2, vhSub(21, st))
	}
	code, err := p.Decode(b, vhOpt(k))
	sv.Assert(vhAnd(err == nil, code == 0), "decoding an encrypted packet fails")
	if err != nil {
		return
	}
	sv.Assert(vhAnd(k.dec == 1, k.enc == 0), "the key is not used exactly once")
	sv.Assert(vhBytesEq(k.in, ci), "the key is given something other than the packet's data")
	if resp {
		d, ok := p.ServicesFrameData.(*PtResponse)
		sv.Assert(ok, "decoded data are not a response")
		if !ok {
			return
		}
		sv.Assert(vhAnd(d.ResponsePacketID == rn, d.ProcessingResult == st[0]), "decrypted response differs")
	} else {
		d, ok := p.ServicesFrameData.(*ServiceDataSet)
		sv.Assert(ok, "decoded data are not a record set")
		if !ok || len(*d) != 1 {
			sv.Assert(false, "decrypted records are lost")
			return
		}
		r := (*d)[0]
		sv.Assert(vhAnd(r.RecordNumber == rn, r.ObjectIdentifier == oid), "decrypted record differs")
		sv.Assert(len(r.RecordDataSet) == 1, "decrypted subrecords are lost")
		if len(r.RecordDataSet) == 1 {
			x, ok := r.RecordDataSet[0].SubrecordData.(*SrStateData)
			sv.Assert(ok, "decrypted subrecord has the wrong type")
			if ok {
				sv.Assert(vhAll(x.State == st[0], x.MainPowerSourceVoltage == st[1], x.BackUpBatteryVoltage == st[2], x.InternalBatteryVoltage == st[3]), "decrypted subrecord differs")
			}
		}
	}
	sv.Reach("cipher")
}

// VH_C12_plain does not involve the key for packets that are not encrypted.
// Bounds: responses and state records of every content
// Reach: ok
func VH_C12_plain() {
	b := vhSample([]int{0, 2}[sv.Choose("kind", 0, 1)], 0, sv.Choose("route", 0, 1) == 1)
	k := &vhKey{err: errVh}
	p := &Package{}
	_, err := p.Decode(b, vhOpt(k))
	sv.Assert(err == nil, "a plain packet is rejected when a key is given")
	sv.Assert(k.dec+k.enc == 0, "the key is used for a plain packet")
	sv.Reach("ok")
}

// VH_C12_round round-trips an encrypted packet with a key that inverts itself.
// Bounds: state records of every content, all three algorithms, a one-byte xor key of every value
// Reach: ok
func VH_C12_round() {
	p, _ := vhHdr(sv.Choose("route", 0, 1) == 1)
	p.PacketType = 1
	p.EncryptionAlg = []string{"01", "10", "11"}[sv.Choose("ena", 0, 2)]
	recs := ServiceDataSet{vhStateRec()}
	p.ServicesFrameData = &recs
	x := vhXor(sv.Byte("key"))
	opt := func(o *Options) { o.Secret = x }
	b, err := p.Encode(opt)
	sv.Assert(err == nil, "encoding an encrypted packet fails")
	if err != nil {
		return
	}
	q := &Package{}
	code, err := q.Decode(b, opt)
	sv.Assert(vhAnd(err == nil, code == 0), "decoding an encrypted packet fails")
	if err != nil {
		return
	}
	d, ok := q.ServicesFrameData.(*ServiceDataSet)
	if !ok || len(*d) != 1 {
		sv.Assert(false, "encrypted records are lost in the round trip")
		return
	}
	sv.Reach("ok")
	sv.Assert(vhSameState(recs[0], (*d)[0]), "encrypted record changes in the round trip")
}

type vhXor byte

func (k vhXor) Decode(b []byte) ([]byte, error) { return k.Encode(b) }
func (k vhXor) Encode(b []byte) ([]byte, error) {
	c := make([]byte, len(b))
	for i := range b {
		c[i] = b[i] ^ byte(k)
	}
	return c, nil
}

func vhCode(b []byte, want uint8, what string) {
	p := &Package{}
	code, err := p.Decode(b)
	sv.Assert(err != nil, what+": accepted")
	sv.Assert(code == want, what+": wrong result code")
	sv.Reach("rejected")
}

// VH_C13_agree: the result code is 0 exactly when there is no error.
// Bounds: every byte string of 0..19 bytes
// Reach: ok err
func VH_C13_agree() {
	b := sv.Bytes("d", sv.Choose("n", 0, 19))
	p := &Package{}
	code, err := p.Decode(b)
	if err != nil {
		sv.Assert(code != 0, "an error with the success code")
		sv.Reach("err")
	} else {
		sv.Assert(code == 0, "success with an error code")
		sv.Reach("ok")
	}
}

// VH_C13_header reports malformed headers as 131.
// Bounds: every packet cut short inside its header, and every header length other than the actual one, with and without routing fields
// Reach: rejected
func VH_C13_header() {
	b := vhSample([]int{0, 2}[sv.Choose("kind", 0, 1)], 0, sv.Choose("route", 0, 1) == 1)
	hl := int(b[3])
	if sv.Choose("which", 0, 1) == 0 {
		vhCode(b[:sv.Choose("cut", 0, hl-1)], 131, "truncated header")
		return
	}
	v := sv.Byte("hl")
	sv.Assume(v != b[3])
	b[3] = v
	b[hl-1] = vhCRC8(b[:hl-1])
	vhCode(b, 131, "wrong header length")
}

// VH_C13_hcs reports a wrong header checksum as 137.
// Bounds: every valid packet with any other header checksum
// Reach: rejected
func VH_C13_hcs() {
	b := vhSample(sv.Choose("kind", 0, 3), 2, sv.Choose("route", 0, 1) == 1)
	hl := int(b[3])
	v := sv.Byte("hcs")
	sv.Assume(v != b[hl-1])
	b[hl-1] = v
	vhCode(b, 137, "wrong header checksum")
}

// VH_C13_crc reports a wrong data checksum as 138.
// Bounds: every valid packet with data with any other data checksum
// Reach: rejected
func VH_C13_crc() {
	b := vhSample(sv.Choose("kind", 0, 2), 2, sv.Choose("route", 0, 1) == 1)
	v := sv.U16("sfrcs")
	sv.Assume(v != vhU16(b[len(b)-2:]))
	b[len(b)-2], b[len(b)-1] = byte(v), byte(v>>8)
	vhCode(b, 138, "wrong data checksum")
}

// VH_C13_type reports an unknown packet type as 133.
// Bounds: every packet type other than response and application data, with arbitrary data of 0..4 bytes
// Reach: rejected
func VH_C13_type() {
	pt := sv.Byte("pt")
	sv.Assume(pt > 1)
	b := vhFrameR(sv.Byte("prv"), sv.Byte("skid"), sv.Byte("fl")&0xC7, sv.Byte("he"), sv.U16("pid"), pt, sv.Choose("route", 0, 1) == 1, sv.Bytes("body", sv.Choose("n", 0, 4)))
	vhCode(b, 133, "unknown packet type")
}

// VH_C13_short reports a packet cut short inside its data as 132.
// Bounds: every valid packet cut anywhere inside its data
// Reach: rejected
func VH_C13_short() {
	b := vhSample(sv.Choose("kind", 0, 2), 3, sv.Choose("route", 0, 1) == 1)
	hl := int(b[3])
	vhCode(b[:sv.Choose("cut", hl, len(b)-3)], 132, "truncated data")
}

// VH_C13_body reports data that cannot be decoded as 129.
// Bounds: a record whose length overruns the data by any amount, a subrecord whose length overruns the record by any amount, a response shorter than three bytes
// Reach: rejected
func VH_C13_body() {
	var body []byte
	pt := byte(1)
	switch sv.Choose("kind", 0, 2) {
	case 0:
		body = vhRec(1, sv.U32("oid"), 2, 2, vhSub(21, sv.Bytes("state", 5)))
		l := sv.U16("rl")
		sv.Assume(l > 8)
		body[0], body[1] = byte(l), byte(l>>8)
	case 1:
		s := vhSub(21, sv.Bytes("state", 5))
		l := sv.U16("srl")
		sv.Assume(l > 5)
		s[1], s[2] = byte(l), byte(l>>8)
		body = vhRec(1, sv.U32("oid"), 2, 2, s)
	default:
		pt = 0
		body = sv.Bytes("resp", sv.Choose("n", 1, 2))
	}
	vhCode(vhFrame(sv.U16("pid"), pt, body), 129, "undecodable data")
}

// VH_C04_records round-trips packets and responses with every kind of record.
// Bounds: application data or a response with one or two records, the first with one of 14 subrecord types, a subrecord of one byte, two subrecords or none, the second with none or a result code; every presence combination, field value, with and without routing fields; encoding the decoded packet again gives the same bytes
// Budget: 300
// Reach: decoded
func VH_C04_records() {
	p, _ := vhHdr(sv.Choose("route", 0, 1) == 1)
	pt := byte(sv.Choose("type", 0, 1))
	p.PacketType = pt
	var sets [][]vhCase
	switch k := sv.Choose("first", 0, vhKinds+2); k {
	case vhKinds + 1:
		sets = [][]vhCase{nil}
	case vhKinds + 2:
		sets = [][]vhCase{{vhGenState(), vhGenResult()}}
	default:
		sets = [][]vhCase{{vhSubGen(k)}}
	}
	switch sv.Choose("second", 0, 2) {
	case 1:
		sets = append(sets, nil)
	case 2:
		sets = append(sets, []vhCase{vhGenResult()})
	}
	opt := byte(sv.Choose("opt", 0, 7))
	var recs []vhRecord
	s := ServiceDataSet{}
	for i, subs := range sets {
		r := vhArbRecord((opt+byte(i)*3)&7, subs)
		recs = append(recs, r)
		s = append(s, r.r)
	}
	resp := &PtResponse{ResponsePacketID: sv.U16("rpid"), ProcessingResult: sv.Byte("pr"), SDR: &s}
	p.ServicesFrameData = &s
	if pt == 0 {
		p.ServicesFrameData = resp
	}
	b, err := p.Encode()
	sv.Assert(err == nil, "encoding a packet fails")
	if err != nil {
		return
	}
	q := &Package{}
	code, err := q.Decode(b)
	sv.Assert(err == nil && code == 0, "decoding an encoded packet fails")
	if err != nil {
		return
	}
	sv.Reach("decoded")
	sv.Assert(vhAll(p.ProtocolVersion == q.ProtocolVersion, p.SecurityKeyID == q.SecurityKeyID, p.Prefix == q.Prefix, p.Route == q.Route, p.EncryptionAlg == q.EncryptionAlg,
		p.Compression == q.Compression, p.Priority == q.Priority, p.HeaderEncoding == q.HeaderEncoding, p.PacketIdentifier == q.PacketIdentifier, p.PacketType == q.PacketType,
		p.PeerAddress == q.PeerAddress, p.RecipientAddress == q.RecipientAddress, p.TimeToLive == q.TimeToLive), "header fields change in the round trip")
	x := q.ServicesFrameData
	if pt == 0 {
		d, ok := x.(*PtResponse)
		sv.Assert(ok, "decoded data are not a response")
		if !ok {
			return
		}
		sv.Assert(vhAnd(d.ResponsePacketID == resp.ResponsePacketID, d.ProcessingResult == resp.ProcessingResult), "response fields change in the round trip")
		x = d.SDR
	}
	got, ok := x.(*ServiceDataSet)
	sv.Assert(ok, "decoded data are not a record set")
	if !ok {
		return
	}
	sv.Assert(len(*got) == len(recs), "the number of records changes in the round trip")
	if len(*got) != len(recs) {
		return
	}
	for i := range recs {
		vhSameRec(recs[i], (*got)[i], sets[i])
	}
	c, err := q.Encode()
	sv.Assert(err == nil, "encoding a decoded packet fails")
	if err == nil {
		sv.Assert(vhBytesEq(b, c), "re-encoding a decoded packet gives different bytes")
	}
}
