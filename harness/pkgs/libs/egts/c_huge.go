package egts

import sv "github.com/kuznetsovin/egts-protocol/verifsv"

// Sizes near and beyond the signed 16-bit range, up to the largest that the
// length fields can hold.

func vhHugeText(n int) string {
	b := make([]byte, 101)
	for i := range b {
		b[i] = byte(i*11) | 1
	}
	for k := byte(1); len(b) < n; k++ {
		b = append(append(b, k), b...)
	}
	return string(b[:n-2]) + sv.Str("tail", 2)
}

// vhHugeDisp is a dispatcher identity whose encoding has n bytes.
func vhHugeDisp(n int) vhCase {
	x := &SrDispatcherIdentity{DispatcherType: sv.Byte("dt"), DispatcherID: sv.U32("did"), Description: vhHugeText(n - 5)}
	b := append(vh32([]byte{x.DispatcherType}, x.DispatcherID), x.Description...)
	return vhCase{x: x, ref: b, typ: 5, fresh: func() BinaryData { return &SrDispatcherIdentity{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrDispatcherIdentity) == *b.(*SrDispatcherIdentity) }}
}

func vhHugeSize() int {
	s := []int{4095, 32757, 32765, 32768, 40000, 65532}
	if sv.Thorough() {
		s = append(s, 8192, 16384, 32754, 32758, 32761, 32767, 32769, 49152, 65000, 65529, 65531)
	}
	return s[sv.Choose("size", 0, len(s)-1)]
}

// VH_C11_huge: announced lengths of big values, and lengths filled in for big subrecords.
// Bounds: a subrecord of 4095..65532 bytes (6 sizes around the powers of two, 17 in the thorough tier), alone, in a subrecord set, a record, a response
// Reach: ok
func VH_C11_huge() {
	n := vhHugeSize()
	c := vhHugeDisp(n)
	vhLengthIs(c)
	s := RecordDataSet{{SubrecordData: c.x}}
	b, err := s.Encode()
	sv.Assert(err == nil, "encoding a big subrecord set fails")
	sv.Assert(len(b) == n+3, "an encoded big subrecord has the wrong length")
	if err != nil || len(b) != n+3 {
		return
	}
	sv.Assert(vhAll(b[0] == 5, int(vhU16(b[1:])) == n), "type and length of a big subrecord are not filled in correctly")
	sv.Assert(int(s.Length()) == n+3, "the announced length is not the encoded length")
	if n > 65500 {
		return
	}
	r := ServiceDataSet{{RecordNumber: sv.U16("rn"), SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00", TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0",
		SourceServiceType: 1, RecipientServiceType: 1, RecordDataSet: RecordDataSet{{SubrecordData: c.x}}}}
	b, err = r.Encode()
	sv.Assert(err == nil, "encoding a big record fails")
	sv.Assert(len(b) == n+10, "an encoded big record has the wrong length")
	if err != nil || len(b) != n+10 {
		return
	}
	sv.Assert(int(vhU16(b)) == n+3, "the length of a big record is not filled in correctly")
	sv.Assert(int(r.Length()) == n+10, "the announced length is not the encoded length")
	p := &PtResponse{ResponsePacketID: sv.U16("rpid"), ProcessingResult: sv.Byte("pr"), SDR: &r}
	b, err = p.Encode()
	sv.Assert(err == nil, "encoding a big response fails")
	sv.Assert(len(b) == n+13, "an encoded big response has the wrong length")
	sv.Assert(int(p.Length()) == n+13, "the announced length is not the encoded length")
}

// VH_C09_huge decodes records with a big subrecord, followed by another record.
// Bounds: subrecords of 4095..65532 bytes (6 sizes around the powers of two, 17 in the thorough tier); every object identifier and content of the following record
// Reach: decoded
func VH_C09_huge() {
	n := vhHugeSize()
	sa, sb := []vhCase{vhHugeDisp(n)}, []vhCase{vhGenState()}
	a, b := vhArbRecord(1, sa), vhArbRecord(0, sb)
	d := append(append([]byte{}, a.ref...), b.ref...)
	var s ServiceDataSet
	err := s.Decode(d)
	sv.Assert(err == nil, "valid records are rejected")
	if err != nil {
		return
	}
	sv.Assert(len(s) == 2, "the number of records differs")
	if len(s) != 2 {
		return
	}
	vhSameRec(a, s[0], sa)
	vhSameRec(b, s[1], sb)
	sv.Reach("decoded")
	in := ServiceDataSet{a.r, b.r}
	out, err := in.Encode()
	sv.Assert(err == nil, "encoding records fails")
	sv.Assert(vhBytesEq(out, d), "encoded records differ from the standard's layout")
}

// VH_C10_huge cuts a big record and a big packet.
// Bounds: a record with a subrecord of 4095..65532 bytes cut at 6 places between 1 byte and all but one byte of the subrecord
// Reach: cut
func VH_C10_huge() {
	n := vhHugeSize()
	a := vhArbRecord(0, []vhCase{vhHugeDisp(n)})
	h := len(a.ref) - n
	at := []int{h + 5, h + 6, h + n/2, h + n - 2, h + n - 1, h}[sv.Choose("at", 0, 5)]
	vhRejects(&ServiceDataSet{}, a.ref[:at], "a truncated record is accepted")
	if at > 10 {
		vhRejects(&RecordDataSet{}, a.ref[h-3:at], "a truncated subrecord is accepted")
	}
}

// VH_C04_huge round-trips packets whose data are big.
// Bounds: application data of 65500 bytes and responses of 32757 bytes (each with 17 sizes from 4095 in the thorough tier), every record number and packet identifier
// Budget: 300
// Reach: decoded
func VH_C04_huge() {
	typ := sv.Choose("type", 0, 1)
	n := []int{65500, 32757}[typ]
	if sv.Thorough() {
		n = vhHugeSize()
	}
	if n > 65500 {
		n = 65500
	}
	c := vhHugeDisp(n)
	s := &ServiceDataSet{{RecordNumber: sv.U16("rn"), SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00", TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0",
		SourceServiceType: 1, RecipientServiceType: 1, RecordDataSet: RecordDataSet{{SubrecordData: &SrDispatcherIdentity{Description: c.x.(*SrDispatcherIdentity).Description}}}}}
	p, _ := vhHdr(false)
	p.PacketType = 1
	p.ServicesFrameData = s
	if typ == 1 {
		p.PacketType = 0
		p.ServicesFrameData = &PtResponse{SDR: s}
	}
	b, err := p.Encode()
	sv.Assert(err == nil, "encoding a big packet fails")
	if err != nil {
		return
	}
	q := &Package{}
	code, err := q.Decode(b)
	sv.Assert(err == nil && code == 0, "decoding an encoded packet fails")
	if err != nil {
		return
	}
	sv.Reach("decoded")
	var t *ServiceDataSet
	if p.PacketType == 1 {
		t = q.ServicesFrameData.(*ServiceDataSet)
	} else {
		t, _ = q.ServicesFrameData.(*PtResponse).SDR.(*ServiceDataSet)
	}
	sv.Assert(t != nil && len(*t) == 1 && len((*t)[0].RecordDataSet) == 1, "a big packet loses its record")
	if t == nil || len(*t) != 1 || len((*t)[0].RecordDataSet) != 1 {
		return
	}
	sv.Assert((*t)[0].RecordNumber == (*s)[0].RecordNumber, "record number differs")
	x, ok := (*t)[0].RecordDataSet[0].SubrecordData.(*SrDispatcherIdentity)
	sv.Assert(ok, "a big subrecord changes its type")
	if ok {
		sv.Assert(x.Description == (*s)[0].RecordDataSet[0].SubrecordData.(*SrDispatcherIdentity).Description, "a big text differs")
	}
}

// VH_C03_oversize encodes what just fits, and what does not fit, the 16 bits of its length.
// Bounds: a subrecord, a record of two subrecords, a packet of two records and a response with two records of 65534 and 65535 bytes and of 1, 2, 40, 5000, 65535, 65536 and 65541 bytes more, of fixed content
// Reach: fits refused
func VH_C03_oversize() {
	over := []int{-1, 0, 1, 2, 40, 5000, 65535, 65536, 65541}[sv.Choose("over", 0, 8)]
	level := sv.Choose("level", 0, 3)
	if level == 1 && over > 40 || level > 1 && over > 5000 {
		over = 5000 // the parts are to fit
	}
	n := 65535 + over
	data := func(n int) *SrDispatcherIdentity {
		return &SrDispatcherIdentity{Description: string(make([]byte, n-5))}
	}
	rec := func(rds RecordDataSet) ServiceDataRecord {
		return ServiceDataRecord{RecordNumber: 513, SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00", TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0",
			SourceServiceType: 1, RecipientServiceType: 1, RecordDataSet: rds}
	}
	half := 30000
	var b []byte
	var err error
	at := 0 // of the length
	switch level {
	case 0:
		s := RecordDataSet{{SubrecordData: data(n)}}
		b, err = s.Encode()
		at = 1
	case 1:
		s := ServiceDataSet{rec(RecordDataSet{{SubrecordData: data(half)}, {SubrecordData: data(n - half - 6)}})}
		b, err = s.Encode()
	default:
		p, _ := vhHdr(false)
		p.PacketType = 1
		if level == 3 {
			n -= 3
		}
		s := &ServiceDataSet{rec(RecordDataSet{{SubrecordData: data(half)}}), rec(RecordDataSet{{SubrecordData: data(n - half - 20)}})}
		p.ServicesFrameData = s
		if level == 3 {
			n += 3
			p.PacketType = 0
			p.ServicesFrameData = &PtResponse{SDR: s}
		}
		b, err = p.Encode()
		at = 5
	}
	if n > 65535 {
		sv.Reach("refused")
		sv.Assert(err != nil, "what does not fit its length field is encoded without an error")
		return
	}
	sv.Reach("fits")
	sv.Assert(err == nil, "what fits its length field is refused")
	if err == nil {
		sv.Assert(int(vhU16(b[at:])) == n, "wrong length")
	}
}
