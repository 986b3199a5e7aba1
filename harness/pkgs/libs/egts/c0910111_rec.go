package egts

import (
	"time"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// vhSubGen is an arbitrary subrecord of kind k: every telemetry and identity
// type whose size does not depend on flags, then some of those whose size does.
func vhSubGen(k int) vhCase {
	switch k {
	case 0:
		return vhGenState()
	case 1:
		return vhGenLiquid()
	case 2:
		return vhGenAbsCntr()
	case 3:
		return vhGenAbsAn()
	case 4:
		return vhGenResult()
	case 5:
		return vhGenResponse()
	case 6:
		return vhGenExt(0x1F)
	case 7:
		return vhGenCounters(0x81)
	case 8:
		return vhGenAd(0x01, 0x80)
	case 9:
		return vhGenTerm(0x41)
	case 10:
		return vhGenAuth(2, 1, 0)
	case 11:
		return vhGenModule(1, 2)
	case 12:
		return vhGenDisp(2)
	default:
		return vhGenPos()
	}
}

const vhKinds = 13

// vhGenPos is a position with coordinate zero, so that no floats are involved.
func vhGenPos() vhCase {
	p := vhArbPos()
	p.lat, p.long = 0, 0
	p.spd = p.spd / 10 * 10
	p.flags &= 0x7F
	return vhCase{x: vhPosStruct(p), ref: p.bytes(), typ: 16, fresh: func() BinaryData { return &SrPosData{} },
		eq: func(a, b BinaryData) bool {
			x, y := a.(*SrPosData), b.(*SrPosData)
			return vhAll(x.NavigationTime.Unix() == y.NavigationTime.Unix(), x.ALTE == y.ALTE, x.LOHS == y.LOHS, x.LAHS == y.LAHS, x.MV == y.MV, x.BB == y.BB, x.CS == y.CS,
				x.FIX == y.FIX, x.VLD == y.VLD, x.DirectionHighestBit == y.DirectionHighestBit, x.AltitudeSign == y.AltitudeSign, x.Speed == y.Speed, x.Direction == y.Direction,
				x.Odometer == y.Odometer, x.DigitalInputs == y.DigitalInputs, x.Source == y.Source, x.Altitude == y.Altitude)
		}}
}

// vhSame: the decoded subrecord is the given one.
func vhSame(c vhCase, r RecordData) {
	sv.Assert(r.SubrecordType == c.typ, "subrecord type differs")
	sv.Assert(int(r.SubrecordLength) == len(c.ref), "subrecord length differs")
	ok := false
	switch r.SubrecordData.(type) {
	case *SrStateData:
		_, ok = c.x.(*SrStateData)
	case *SrLiquidLevelSensor:
		_, ok = c.x.(*SrLiquidLevelSensor)
	case *SrAbsCntrData:
		_, ok = c.x.(*SrAbsCntrData)
	case *SrAbsAnSensData:
		_, ok = c.x.(*SrAbsAnSensData)
	case *SrResultCode:
		_, ok = c.x.(*SrResultCode)
	case *SrResponse:
		_, ok = c.x.(*SrResponse)
	case *SrExtPosData:
		_, ok = c.x.(*SrExtPosData)
	case *SrCountersData:
		_, ok = c.x.(*SrCountersData)
	case *SrAdSensorsData:
		_, ok = c.x.(*SrAdSensorsData)
	case *SrTermIdentity:
		_, ok = c.x.(*SrTermIdentity)
	case *SrAuthInfo:
		_, ok = c.x.(*SrAuthInfo)
	case *SrModuleData:
		_, ok = c.x.(*SrModuleData)
	case *SrDispatcherIdentity:
		_, ok = c.x.(*SrDispatcherIdentity)
	case *SrPosData:
		_, ok = c.x.(*SrPosData)
	}
	sv.Assert(ok, "subrecord is decoded as another type")
	if ok {
		sv.Assert(c.eq(c.x, r.SubrecordData), "subrecord fields differ")
	}
}

// vhKnown: subrecord types the library decodes.
func vhKnown(t byte) bool {
	k := []byte{0, 1, 2, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27}
	r := false
	for _, x := range k {
		r = vhOr(r, x == t)
	}
	return r
}

func vhOr(a, b bool) bool {
	if a {
		return true
	}
	return b
}

// VH_C09_two decodes sets of two subrecords of every pair of types: nothing lost, nothing reordered.
// Bounds: all pairs of 14 subrecord types, every field value (one size per type)
// Reach: decoded
func VH_C09_two() {
	k := sv.Choose("pair", 0, (vhKinds+1)*(vhKinds+1)-1)
	a, b := vhSubGen(k/(vhKinds+1)), vhSubGen(k%(vhKinds+1))
	d := append(vhSub(a.typ, a.ref), vhSub(b.typ, b.ref)...)
	var s RecordDataSet
	err := s.Decode(d)
	sv.Assert(err == nil, "a valid subrecord set is rejected")
	if err != nil {
		return
	}
	sv.Assert(len(s) == 2, "the number of subrecords differs")
	if len(s) != 2 {
		return
	}
	vhSame(a, s[0])
	vhSame(b, s[1])
	sv.Reach("decoded")
}

// VH_C09_encodeset encodes sets of two subrecords of every pair of types: type, length and data of each, in order.
// Bounds: all pairs of 14 subrecord types, every field value (one size per type), types given, lengths given or left to the encoder
// Reach: encoded
func VH_C09_encodeset() {
	k := sv.Choose("pair", 0, (vhKinds+1)*(vhKinds+1)-1)
	l := sv.Choose("len", 0, 1)
	a, b := vhSubGen(k/(vhKinds+1)), vhSubGen(k%(vhKinds+1))
	s := RecordDataSet{{SubrecordType: a.typ, SubrecordData: a.x}, {SubrecordType: b.typ, SubrecordData: b.x}}
	if l == 1 {
		s[0].SubrecordLength, s[1].SubrecordLength = uint16(len(a.ref)), uint16(len(b.ref))
	}
	out, err := s.Encode()
	sv.Assert(err == nil, "encoding a subrecord set fails")
	if err != nil {
		return
	}
	sv.Reach("encoded")
	sv.Assert(vhBytesEq(out, append(vhSub(a.typ, a.ref), vhSub(b.typ, b.ref)...)), "encoded subrecord set differs from the standard's layout")
	sv.Assert(int(s.Length()) == len(out), "the announced length of a subrecord set is not its encoded length")
}

// VH_C09_unknown skips unknown subrecords and keeps their neighbours.
// Bounds: every unknown type, unknown data of 0..6, 255, 256 or 300 bytes; state and counter neighbours of every content
// Reach: decoded
func VH_C09_unknown() {
	n := []int{0, 1, 2, 3, 4, 5, 6, 255, 256, 300}[sv.Choose("n", 0, 9)]
	t := sv.Byte("type")
	sv.Assume(!vhKnown(t))
	a, b := vhGenState(), vhGenAbsCntr()
	u := vhSub(t, sv.Bytes("unk", n))
	var d []byte
	switch sv.Choose("where", 0, 2) {
	case 0:
		d = append(u, append(vhSub(a.typ, a.ref), vhSub(b.typ, b.ref)...)...)
	case 1:
		d = append(vhSub(a.typ, a.ref), append(u, vhSub(b.typ, b.ref)...)...)
	default:
		d = append(vhSub(a.typ, a.ref), append(vhSub(b.typ, b.ref), u...)...)
	}
	var s RecordDataSet
	err := s.Decode(d)
	sv.Assert(err == nil, "a set with an unknown subrecord is rejected")
	if err != nil {
		return
	}
	sv.Assert(len(s) == 2, "the number of known subrecords differs")
	if len(s) != 2 {
		return
	}
	sv.Reach("decoded")
	vhSame(a, s[0])
	vhSame(b, s[1])
}

// VH_C09_type20 decodes five-byte subrecords of type 20 as state data.
// Bounds: every content
// Reach: decoded
func VH_C09_type20() {
	a := vhGenState()
	a.typ = 20
	var s RecordDataSet
	err := s.Decode(vhSub(20, a.ref))
	sv.Assert(err == nil, "state data of type 20 are rejected")
	if err != nil || len(s) != 1 {
		sv.Assert(err != nil, "state data of type 20 are lost")
		return
	}
	sv.Reach("decoded")
	vhSame(a, s[0])
}

// VH_C09_many decodes and encodes long sets.
// Bounds: 3..12, 40 and 100 result codes and absolute counters of every value
// Reach: decoded
func VH_C09_many() {
	n := []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 40, 100}[sv.Choose("n", 0, 11)]
	var cs []vhCase
	var d []byte
	var in RecordDataSet
	for i := 0; i < n; i++ {
		c := vhGenAbsCntr()
		if i%3 == 1 {
			c = vhGenResult()
		}
		cs = append(cs, c)
		d = append(d, vhSub(c.typ, c.ref)...)
		in = append(in, RecordData{SubrecordData: c.x})
	}
	var s RecordDataSet
	err := s.Decode(d)
	sv.Assert(err == nil, "a valid subrecord set is rejected")
	if err != nil {
		return
	}
	sv.Assert(len(s) == n, "the number of subrecords differs")
	if len(s) != n {
		return
	}
	for i := range cs {
		vhSame(cs[i], s[i])
	}
	sv.Reach("decoded")
	out, err := in.Encode()
	sv.Assert(err == nil, "encoding a subrecord set fails")
	sv.Assert(vhBytesEq(out, d), "encoded subrecord set differs from the standard's layout")
}

// VH_C09_crowd decodes and encodes subrecord sets and record sets with very many entries.
// Bounds: 70, 130 and 260 (thorough: also 600) result codes of every value in one set; 70, 130 and 260 (thorough: also 600) records of every number and services in one set
// Reach: subs records
// Budget: 300
func VH_C09_crowd() {
	ns := []int{70, 130, 260}
	if sv.Thorough() {
		ns = append(ns, 600)
	}
	n := ns[sv.Choose("n", 0, len(ns)-1)]
	var d []byte
	if sv.Choose("what", 0, 1) == 0 {
		var in RecordDataSet
		var cs []vhCase
		for i := 0; i < n; i++ {
			c := vhGenResult()
			cs = append(cs, c)
			d = append(d, vhSub(c.typ, c.ref)...)
			in = append(in, RecordData{SubrecordData: c.x})
		}
		var s RecordDataSet
		err := s.Decode(d)
		sv.Assert(err == nil, "a valid subrecord set is rejected")
		if err != nil {
			return
		}
		sv.Assert(len(s) == n, "the number of subrecords differs")
		if len(s) != n {
			return
		}
		for i := range cs {
			vhSame(cs[i], s[i])
		}
		sv.Reach("subs")
		out, err := in.Encode()
		sv.Assert(err == nil, "encoding a subrecord set fails")
		sv.Assert(vhBytesEq(out, d), "encoded subrecord set differs from the standard's layout")
		return
	}
	var in ServiceDataSet
	var nums []uint16
	var sst, rst []byte
	for i := 0; i < n; i++ {
		rn, a, b := sv.U16("rn"), sv.Byte("sst"), sv.Byte("rst")
		nums, sst, rst = append(nums, rn), append(sst, a), append(rst, b)
		d = append(vh16(append(d, 0, 0), rn), 0x18, a, b)
		in = append(in, ServiceDataRecord{RecordNumber: rn, SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "11",
			TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0", SourceServiceType: a, RecipientServiceType: b})
	}
	var s ServiceDataSet
	err := s.Decode(d)
	sv.Assert(err == nil, "valid records are rejected")
	if err != nil {
		return
	}
	sv.Assert(len(s) == n, "the number of records differs")
	if len(s) != n {
		return
	}
	for i := range s {
		sv.Assert(vhAll(s[i].RecordNumber == nums[i], s[i].SourceServiceType == sst[i], s[i].RecipientServiceType == rst[i], s[i].RecordProcessingPriority == "11"), "record fields differ")
		sv.Assert(len(s[i].RecordDataSet) == 0, "an empty record has subrecords")
	}
	sv.Reach("records")
	out, err := in.Encode()
	sv.Assert(err == nil, "encoding records fails")
	sv.Assert(vhBytesEq(out, d), "encoded records differ from the standard's layout")
	sv.Assert(int(in.Length()) == len(d), "the announced length of a record set is not its encoded length")
}

type vhRecord struct {
	r   ServiceDataRecord
	ref []byte
}

// vhArbRecord is an arbitrary record: opt holds the presence bits of the time,
// event and object fields.
func vhArbRecord(opt byte, subs []vhCase) vhRecord {
	f := sv.Byte("rflags")&0xF8 | opt
	r := ServiceDataRecord{RecordNumber: sv.U16("rn"), SourceServiceOnDevice: vhF(f, 7, 7), RecipientServiceOnDevice: vhF(f, 6, 6), Group: vhF(f, 5, 5),
		RecordProcessingPriority: vhF(f, 4, 3), TimeFieldExists: vhF(f, 2, 2), EventIDFieldExists: vhF(f, 1, 1), ObjectIDFieldExists: vhF(f, 0, 0),
		SourceServiceType: sv.Byte("sst"), RecipientServiceType: sv.Byte("rst")}
	var rd []byte
	for _, c := range subs {
		rd = append(rd, vhSub(c.typ, c.ref)...)
		r.RecordDataSet = append(r.RecordDataSet, RecordData{SubrecordType: c.typ, SubrecordData: c.x})
	}
	b := vh16(nil, uint16(len(rd)))
	b = append(vh16(b, r.RecordNumber), f)
	if opt&1 != 0 {
		r.ObjectIdentifier = sv.U32("oid")
		b = vh32(b, r.ObjectIdentifier)
	}
	if opt&2 != 0 {
		r.EventIdentifier = sv.U32("evid")
		b = vh32(b, r.EventIdentifier)
	}
	if opt&4 != 0 {
		t := sv.U32("tm")
		r.Time = vhTime(t)
		b = vh32(b, t)
	}
	b = append(b, r.SourceServiceType, r.RecipientServiceType)
	return vhRecord{r, append(b, rd...)}
}

func vhSameRec(a vhRecord, b ServiceDataRecord, subs []vhCase) {
	r := a.r
	sv.Assert(vhAll(r.RecordNumber == b.RecordNumber, r.SourceServiceOnDevice == b.SourceServiceOnDevice, r.RecipientServiceOnDevice == b.RecipientServiceOnDevice, r.Group == b.Group,
		r.RecordProcessingPriority == b.RecordProcessingPriority, r.TimeFieldExists == b.TimeFieldExists, r.EventIDFieldExists == b.EventIDFieldExists,
		r.ObjectIDFieldExists == b.ObjectIDFieldExists, r.SourceServiceType == b.SourceServiceType, r.RecipientServiceType == b.RecipientServiceType), "record fields differ")
	sv.Assert(r.ObjectIdentifier == b.ObjectIdentifier, "record object identifier differs")
	sv.Assert(r.EventIdentifier == b.EventIdentifier, "record event identifier differs")
	if r.TimeFieldExists == "1" {
		sv.Assert(r.Time.Unix() == b.Time.Unix(), "record time differs")
	}
	sv.Assert(len(b.RecordDataSet) == len(subs), "the number of subrecords of a record differs")
	if len(b.RecordDataSet) == len(subs) {
		for i := range subs {
			vhSame(subs[i], b.RecordDataSet[i])
		}
	}
}

// VH_C09_record decodes and encodes single records.
// Bounds: all 8 presence combinations of the optional fields, every flag and field value, no subrecord, a state subrecord or a state and a counter subrecord of every content; record length given or left to the encoder
// Reach: decoded encoded
func VH_C09_record() {
	opt := byte(sv.Choose("opt", 0, 7))
	var subs []vhCase
	switch sv.Choose("subs", 0, 2) {
	case 1:
		subs = []vhCase{vhGenState()}
	case 2:
		subs = []vhCase{vhGenState(), vhGenAbsCntr()}
	}
	a := vhArbRecord(opt, subs)
	var s ServiceDataSet
	err := s.Decode(a.ref)
	sv.Assert(err == nil, "a valid record is rejected")
	if err != nil {
		return
	}
	sv.Assert(len(s) == 1, "the number of records differs")
	if len(s) != 1 {
		return
	}
	vhSameRec(a, s[0], subs)
	sv.Assert(int(s[0].RecordLength) == len(a.ref)-len(vhArbRecordHead(opt)), "record length differs")
	sv.Reach("decoded")
	if sv.Choose("rl", 0, 1) == 1 {
		a.r.RecordLength = s[0].RecordLength
	}
	in := ServiceDataSet{a.r}
	out, err := in.Encode()
	sv.Assert(err == nil, "encoding a record fails")
	if err != nil {
		return
	}
	sv.Assert(vhBytesEq(out, a.ref), "encoded record differs from the standard's layout")
	sv.Assert(int(in.Length()) == len(out), "the announced length of a record set is not its encoded length")
	sv.Reach("encoded")
}

func vhArbRecordHead(opt byte) []byte {
	n := 7
	for i := uint(0); i < 3; i++ {
		if opt>>i&1 != 0 {
			n += 4
		}
	}
	return make([]byte, n)
}

// VH_C09_records decodes and encodes several records.
// Bounds: two or three records, every presence combination for the first two, every field value; state subrecord in the first, none or a counter in the second
// Reach: decoded
func VH_C09_records() {
	o := sv.Choose("opt", 0, 63)
	n := sv.Choose("n", 2, 3)
	sa := []vhCase{vhGenState()}
	var sb []vhCase
	if sv.Choose("second", 0, 1) == 1 {
		sb = []vhCase{vhGenAbsCntr()}
	}
	sc := []vhCase{vhGenResult()}
	recs := []vhRecord{vhArbRecord(byte(o)&7, sa), vhArbRecord(byte(o>>3), sb)}
	subs := [][]vhCase{sa, sb, sc}
	if n == 3 {
		recs = append(recs, vhArbRecord(5, sc))
	}
	var d []byte
	in := ServiceDataSet{}
	for _, r := range recs {
		d = append(d, r.ref...)
		in = append(in, r.r)
	}
	var s ServiceDataSet
	err := s.Decode(d)
	sv.Assert(err == nil, "valid records are rejected")
	if err != nil {
		return
	}
	sv.Assert(len(s) == n, "the number of records differs")
	if len(s) != n {
		return
	}
	for i := range recs {
		vhSameRec(recs[i], s[i], subs[i])
	}
	sv.Reach("decoded")
	out, err := in.Encode()
	sv.Assert(err == nil, "encoding records fails")
	sv.Assert(vhBytesEq(out, d), "encoded records differ from the standard's layout")
}

// VH_C09_big decodes and encodes records longer than 255 bytes.
// Bounds: dispatcher identities with descriptions making records of 255..258, 300 and 520 bytes, followed by a second record
// Reach: decoded
func VH_C09_big() {
	n := []int{246, 247, 248, 249, 250, 251, 292, 512}[sv.Choose("n", 0, 7)]
	sa, sb := []vhCase{vhGenDisp(n)}, []vhCase{vhGenState()}
	a, b := vhArbRecord(1, sa), vhArbRecord(0, sb)
	d := append(append([]byte{}, a.ref...), b.ref...)
	var s ServiceDataSet
	err := s.Decode(d)
	sv.Assert(err == nil, "valid records are rejected")
	if err != nil {
		return
	}
	sv.Assert(len(s) == 2, "the number of records differs")
	if len(s) != 2 {
		return
	}
	vhSameRec(a, s[0], sa)
	vhSameRec(b, s[1], sb)
	sv.Reach("decoded")
	in := ServiceDataSet{a.r, b.r}
	out, err := in.Encode()
	sv.Assert(err == nil, "encoding records fails")
	sv.Assert(vhBytesEq(out, d), "encoded records differ from the standard's layout")
}

// ---- C10: truncation ----

func vhRejects(x BinaryData, b []byte, what string) {
	err := x.Decode(b)
	sv.Assert(err != nil, what)
	sv.Reach("cut")
}

// VH_C10_subrecord cuts every subrecord type anywhere.
// Bounds: 14 subrecord types (one size per type), every content, every proper prefix of the fixed part
// Reach: cut
func VH_C10_subrecord() {
	k := sv.Choose("k", 0, vhKinds)
	c := vhSubGen(k)
	n := len(c.ref)
	if k == 12 {
		n = 5 // a dispatcher description has no length of its own
	}
	vhRejects(c.fresh(), c.ref[:sv.Choose("cut", 0, n-1)], "a truncated subrecord is accepted")
}

// VH_C10_flags cuts the subrecords whose size depends on flags.
// Bounds: extended position and counters with every presence combination, sensors and terminal identity with single and full presence; every proper prefix
// Reach: cut
func VH_C10_flags() {
	var c vhCase
	switch sv.Choose("k", 0, 4) {
	case 0:
		c = vhGenExt(byte(sv.Choose("f", 0, 31)))
	case 1:
		c = vhGenCounters([]byte{0, 1, 2, 4, 8, 16, 32, 64, 128, 255}[sv.Choose("f", 0, 9)])
	case 2:
		f := []byte{0, 1, 2, 4, 8, 16, 32, 64, 128, 255}[sv.Choose("f", 0, 9)]
		if sv.Choose("w", 0, 1) == 0 {
			c = vhGenAd(f, 0)
		} else {
			c = vhGenAd(0, f)
		}
	case 3:
		c = vhGenTerm([]byte{0, 1, 2, 4, 8, 16, 32, 64, 128, 255}[sv.Choose("f", 0, 9)])
	default:
		p := vhArbPos()
		p.flags |= 0x80
		c = vhCase{ref: p.bytes(), fresh: func() BinaryData { return &SrPosData{} }}
	}
	vhRejects(c.fresh(), c.ref[:sv.Choose("cut", 0, len(c.ref)-1)], "a truncated subrecord is accepted")
}

// VH_C10_unterminated rejects texts without their delimiter.
// Bounds: authentication data and module data whose last text of 0..6 arbitrary non-zero bytes is not terminated
// Reach: cut
func VH_C10_unterminated() {
	n := sv.Choose("n", 0, 6)
	if sv.Choose("k", 0, 1) == 0 {
		c := vhGenAuth(n, sv.Choose("m", 0, 3), 0)
		vhRejects(&SrAuthInfo{}, c.ref[:len(c.ref)-1], "unterminated authentication data are accepted")
	} else {
		c := vhGenModule(sv.Choose("m", 0, 3), n)
		vhRejects(&SrModuleData{}, c.ref[:len(c.ref)-1], "unterminated module data are accepted")
	}
}

// VH_C10_set cuts a subrecord set anywhere inside a subrecord.
// Bounds: two subrecords of 14 types; every cut that is not between subrecords
// Reach: cut
func VH_C10_set() {
	a, b := vhSubGen(sv.Choose("k", 0, vhKinds)), vhGenState()
	d := append(vhSub(a.typ, a.ref), vhSub(b.typ, b.ref)...)
	at := sv.Choose("cut", 1, len(d)-1)
	if at == len(a.ref)+3 {
		return
	}
	vhRejects(&RecordDataSet{}, d[:at], "a truncated subrecord set is accepted")
}

// VH_C10_overrun gives a subrecord or record a length beyond its data.
// Bounds: every length beyond the data; unknown and state subrecords; records followed by nothing
// Reach: cut
func VH_C10_overrun() {
	n := sv.U16("len")
	switch sv.Choose("k", 0, 2) {
	case 0:
		t := sv.Byte("type")
		sv.Assume(!vhKnown(t))
		d := vhSub(t, sv.Bytes("unk", sv.Choose("n", 0, 4)))
		sv.Assume(int(n) > len(d)-3)
		d[1], d[2] = byte(n), byte(n>>8)
		vhRejects(&RecordDataSet{}, d, "a subrecord longer than its record is accepted")
	case 1:
		c := vhGenState()
		d := vhSub(c.typ, c.ref)
		sv.Assume(n > 5)
		d[1], d[2] = byte(n), byte(n>>8)
		vhRejects(&RecordDataSet{}, d, "a subrecord longer than its record is accepted")
	default:
		a := vhArbRecord(byte(sv.Choose("opt", 0, 7)), []vhCase{vhGenState()})
		sv.Assume(n > 8)
		a.ref[0], a.ref[1] = byte(n), byte(n>>8)
		vhRejects(&ServiceDataSet{}, a.ref, "a record longer than its packet is accepted")
	}
}

// VH_C10_record cuts records anywhere except right after a complete header or record.
// Bounds: a record of every presence combination with a state subrecord, followed by a second record; every cut
// Reach: cut
func VH_C10_record() {
	opt := byte(sv.Choose("opt", 0, 7))
	a, b := vhArbRecord(opt, []vhCase{vhGenState()}), vhArbRecord(1, []vhCase{vhGenAbsCntr()})
	d := append(append([]byte{}, a.ref...), b.ref...)
	at := sv.Choose("cut", 1, len(d)-1)
	h := len(vhArbRecordHead(opt))
	if at == h || at == len(a.ref) || at == len(a.ref)+11 {
		return
	}
	vhRejects(&ServiceDataSet{}, d[:at], "a truncated record is accepted")
}

// VH_C10_response cuts a response body.
// Bounds: 0..2 bytes of a response; a response followed by a record cut anywhere except right after its header
// Reach: cut
func VH_C10_response() {
	a := vhArbRecord(1, []vhCase{vhGenResponse()})
	d := append(vh16(nil, sv.U16("rpid")), sv.Byte("pr"))
	d = append(d, a.ref...)
	at := sv.Choose("cut", 0, len(d)-1)
	if at == 3 || at == 3+11 {
		return
	}
	vhRejects(&PtResponse{}, d[:at], "a truncated response is accepted")
}

// VH_C10_packet cuts a whole valid packet anywhere.
// Bounds: responses, unknown-subrecord and state records, empty packets, with and without routing fields, every content; every proper prefix
// Reach: cut
func VH_C10_packet() {
	b := vhSample(sv.Choose("kind", 0, 3), 3, sv.Choose("route", 0, 1) == 1)
	p := &Package{}
	code, err := p.Decode(b[:sv.Choose("cut", 0, len(b)-1)])
	sv.Assert(err != nil, "a truncated packet is accepted")
	sv.Assert(code != 0, "a truncated packet has the success code")
	sv.Reach("cut")
}

// ---- C11: announced lengths and inferred types ----

// VH_C11_length: the announced length of a value is the length of its encoding.
// Bounds: 14 subrecord types, every content (one size per type)
// Reach: ok
func VH_C11_length() { vhLengthIs(vhSubGen(sv.Choose("k", 0, vhKinds))) }

func vhLengthIs(c vhCase) {
	b, err := c.x.Encode()
	sv.Assert(err == nil, "encoding a valid value fails")
	if err != nil {
		return
	}
	sv.Assert(int(c.x.Length()) == len(b), "the announced length is not the encoded length")
	sv.Reach("ok")
}

// VH_C11_flags: likewise for the types whose size depends on flags.
// Bounds: all presence combinations of extended position, counters and terminal identity; sensors with every digital or every analog combination
// Reach: ok
func VH_C11_flags() {
	k := sv.Choose("k", 0, 4)
	switch k {
	case 0:
		vhLengthIs(vhGenExt(byte(sv.Choose("f", 0, 31))))
	case 1:
		vhLengthIs(vhGenCounters(byte(sv.Choose("f", 0, 255))))
	case 2:
		vhLengthIs(vhGenTerm(byte(sv.Choose("f", 0, 255))))
	case 3:
		vhLengthIs(vhGenAd(vhAdFlags()))
	default:
		p := vhArbPos()
		p.lat, p.long = 0, 0
		vhLengthIs(vhCase{x: vhPosStruct(p)})
	}
}

// VH_C11_text: likewise for the types that carry text.
// Bounds: texts of 0..12, 32, 128, 255 and 256 bytes
// Reach: ok
func VH_C11_text() {
	n := vhLen("n", 12)
	switch sv.Choose("k", 0, 2) {
	case 0:
		vhLengthIs(vhGenAuth(n, 1, sv.Choose("s", 0, 2)))
	case 1:
		vhLengthIs(vhGenModule(n, 2))
	default:
		vhLengthIs(vhGenDisp(n))
	}
}

// VH_C11_infer fills in subrecord type and length and record length that the caller left out.
// Bounds: 14 subrecord types of every content (one size per type), in a record with every presence combination
// Reach: ok
func VH_C11_infer() {
	c := vhSubGen(sv.Choose("k", 0, vhKinds))
	a := vhArbRecord(byte(sv.Choose("opt", 0, 7)), []vhCase{c})
	a.r.RecordDataSet[0].SubrecordType = 0
	s := ServiceDataSet{a.r}
	b, err := s.Encode()
	sv.Assert(err == nil, "encoding a record without subrecord types fails")
	if err != nil {
		return
	}
	sv.Assert(vhBytesEq(b, a.ref), "types and lengths left out are not filled in correctly")
	sv.Assert(int(s.Length()) == len(b), "the announced length is not the encoded length")
	sv.Reach("ok")
}

// VH_C11_texts fills in lengths of subrecords with text.
// Bounds: authentication, module and dispatcher subrecords with texts of 0..6, 32, 128, 255 and 256 bytes
// Reach: ok
func VH_C11_texts() {
	n := vhLen("n", 6)
	var c vhCase
	switch sv.Choose("k", 0, 2) {
	case 0:
		c = vhGenAuth(1, n, 1)
	case 1:
		c = vhGenModule(1, n)
	default:
		c = vhGenDisp(n)
	}
	a := vhArbRecord(1, []vhCase{c})
	a.r.RecordDataSet[0].SubrecordType = 0
	s := ServiceDataSet{a.r}
	b, err := s.Encode()
	sv.Assert(err == nil, "encoding a record without subrecord types fails")
	if err != nil {
		return
	}
	sv.Assert(vhBytesEq(b, a.ref), "types and lengths left out are not filled in correctly")
	sv.Reach("ok")
}

// VH_C11_response: the announced length of a response is its encoded length.
// Bounds: responses with no record, one or three confirmations of every content
// Reach: ok
func VH_C11_response() {
	r := &PtResponse{ResponsePacketID: sv.U16("rpid"), ProcessingResult: sv.Byte("pr")}
	n := []int{0, 1, 3}[sv.Choose("n", 0, 2)]
	ref := append(vh16(nil, r.ResponsePacketID), r.ProcessingResult)
	if n > 0 {
		var subs []vhCase
		for i := 0; i < n; i++ {
			subs = append(subs, vhGenResponse())
		}
		a := vhArbRecord(0, subs)
		r.SDR = &ServiceDataSet{a.r}
		ref = append(ref, a.ref...)
	}
	b, err := r.Encode()
	sv.Assert(err == nil, "encoding a response fails")
	if err != nil {
		return
	}
	sv.Assert(vhBytesEq(b, ref), "encoded response differs from the standard's layout")
	sv.Assert(int(r.Length()) == len(b), "the announced length is not the encoded length")
	sv.Reach("ok")
}

// VH_C11_unknown refuses to encode a subrecord whose type it cannot infer.
// Bounds: a foreign subrecord type without type code
// Reach: ok
func VH_C11_unknown() {
	s := RecordDataSet{{SubrecordData: vhRaw(sv.Bytes("raw", 3))}}
	_, err := s.Encode()
	sv.Assert(err != nil, "a subrecord of unknown type is encoded")
	sv.Reach("ok")
}

// ---- C14: malformed flag strings ----

// vhBad is a string that is not a flag: an arbitrary byte other than 0 and 1,
// or more digits than the flag has bits.
func vhBad(w int) string {
	switch sv.Choose("bad", 0, 1) {
	case 0:
		b := sv.Byte("badbyte")
		sv.Assume(b != '0')
		sv.Assume(b != '1')
		sv.Assume(b != '_')
		r := []byte{'1', '0', '1'}[:w]
		r[w-1] = b
		return string(r)
	default:
		return "100000000"
	}
}

func vhMust(err error) {
	sv.Assert(err != nil, "a malformed flag string is encoded without an error")
	sv.Reach("refused")
}

// VH_C14_package refuses malformed header flags.
// Bounds: each of the five flag fields with any non-binary character or too many digits
// Reach: refused
func VH_C14_package() {
	p, _ := vhHdr(false)
	switch sv.Choose("field", 0, 4) {
	case 0:
		p.Prefix = vhBad(2)
	case 1:
		p.Route = vhBad(1)
	case 2:
		p.EncryptionAlg = vhBad(2)
	case 3:
		p.Compression = vhBad(1)
	default:
		p.Priority = vhBad(2)
	}
	_, err := p.Encode(vhOpt(&vhKey{}))
	vhMust(err)
}

// VH_C14_record refuses malformed record flags.
// Bounds: each of the seven flag fields with any non-binary character or too many digits
// Reach: refused
func VH_C14_record() {
	r := vhArbRecord(0, nil).r
	f := []*string{&r.SourceServiceOnDevice, &r.RecipientServiceOnDevice, &r.Group, &r.TimeFieldExists, &r.EventIDFieldExists, &r.ObjectIDFieldExists, &r.RecordProcessingPriority}
	k := sv.Choose("field", 0, 6)
	w := 1
	if k == 6 {
		w = 2
	}
	*f[k] = vhBad(w)
	s := ServiceDataSet{r}
	_, err := s.Encode()
	vhMust(err)
	sv.Assert(s.Length() == 0, "a record set that cannot be encoded has a length")
}

// VH_C14_sub refuses malformed subrecord flags.
// Bounds: each flag field of position, extended position, sensors, counters, state, liquid level and terminal identity with any non-binary character or too many digits
// Reach: refused
func VH_C14_sub() {
	var f []*string
	var x BinaryData
	w := 1
	switch sv.Choose("k", 0, 6) {
	case 0:
		c := vhGenPos()
		y := c.x.(*SrPosData)
		f = []*string{&y.ALTE, &y.LOHS, &y.LAHS, &y.MV, &y.BB, &y.CS, &y.FIX, &y.VLD}
		x = y
	case 1:
		y := vhGenExt(0).x.(*SrExtPosData)
		f = []*string{&y.NavigationSystemFieldExists, &y.SatellitesFieldExists, &y.PdopFieldExists, &y.HdopFieldExists, &y.VdopFieldExists}
		x = y
	case 2:
		y := vhGenAd(0, 0).x.(*SrAdSensorsData)
		f = []*string{&y.DigitalInputsOctetExists1, &y.DigitalInputsOctetExists2, &y.DigitalInputsOctetExists3, &y.DigitalInputsOctetExists4,
			&y.DigitalInputsOctetExists5, &y.DigitalInputsOctetExists6, &y.DigitalInputsOctetExists7, &y.DigitalInputsOctetExists8,
			&y.AnalogSensorFieldExists1, &y.AnalogSensorFieldExists2, &y.AnalogSensorFieldExists3, &y.AnalogSensorFieldExists4,
			&y.AnalogSensorFieldExists5, &y.AnalogSensorFieldExists6, &y.AnalogSensorFieldExists7, &y.AnalogSensorFieldExists8}
		x = y
	case 3:
		y := vhGenCounters(0).x.(*SrCountersData)
		f = []*string{&y.CounterFieldExists1, &y.CounterFieldExists2, &y.CounterFieldExists3, &y.CounterFieldExists4,
			&y.CounterFieldExists5, &y.CounterFieldExists6, &y.CounterFieldExists7, &y.CounterFieldExists8}
		x = y
	case 4:
		y := vhGenState().x.(*SrStateData)
		f = []*string{&y.NMS, &y.IBU, &y.BBU}
		x = y
	case 5:
		y := vhGenLiquid().x.(*SrLiquidLevelSensor)
		f = []*string{&y.LiquidLevelSensorErrorFlag, &y.RawDataFlag, &y.LiquidLevelSensorValueUnit}
		x = y
	default:
		y := vhGenTerm(0).x.(*SrTermIdentity)
		f = []*string{&y.MNE, &y.BSE, &y.NIDE, &y.SSRA, &y.LNGCE, &y.IMSIE, &y.IMEIE, &y.HDIDE}
		x = y
	}
	k := sv.Choose("field", 0, len(f)-1)
	if *f[k] != "" && len(*f[k]) == 2 {
		w = 2
	}
	*f[k] = vhBad(w)
	_, err := x.Encode()
	vhMust(err)
	sv.Assert(x.Length() == 0, "a subrecord that cannot be encoded has a length")
	s := RecordDataSet{{SubrecordData: x}}
	_, err = s.Encode()
	vhMust(err)
	r := vhArbRecord(0, nil).r
	r.RecordDataSet = s
	p := &Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", PacketType: 1, ServicesFrameData: &ServiceDataSet{r}}
	_, err = p.Encode()
	vhMust(err)
}

// VH_C14_empty refuses values whose flags were never set.
// Bounds: zero values of every type with flags
// Reach: refused
func VH_C14_empty() {
	xs := []BinaryData{&SrPosData{NavigationTime: time.Unix(vhEpoch, 0)}, &SrAdSensorsData{}, &SrCountersData{}, &SrTermIdentity{}, &ServiceDataSet{ServiceDataRecord{}}}
	_, err := xs[sv.Choose("k", 0, 4)].Encode()
	vhMust(err)
}
