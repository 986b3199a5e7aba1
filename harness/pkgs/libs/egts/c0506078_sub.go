package egts

import sv "github.com/kuznetsovin/egts-protocol/verifsv"

// vhRound: decoding the encoding gives the value back.
func vhRound(c vhCase) {
	b, err := c.x.Encode()
	sv.Assert(err == nil, "encoding a valid value fails")
	if err != nil {
		return
	}
	y := c.fresh()
	err = y.Decode(b)
	sv.Assert(err == nil, "decoding an encoded value fails")
	if err != nil {
		return
	}
	sv.Reach("decoded")
	sv.Assert(c.eq(c.x, y), "decoding the encoding gives a different value")
}

// vhWire: the encoding is the standard's, and the standard's bytes decode to
// the value.
func vhWire(c vhCase) {
	b, err := c.x.Encode()
	sv.Assert(err == nil, "encoding a valid value fails")
	if err != nil {
		return
	}
	sv.Assert(vhBytesEq(b, c.ref), "encoding differs from the standard's layout")
	y := c.fresh()
	err = y.Decode(c.ref)
	sv.Assert(err == nil, "decoding the standard's bytes fails")
	if err != nil {
		return
	}
	sv.Reach("decoded")
	sv.Assert(c.eq(c.x, y), "the standard's bytes decode to a different value")
}

// vhAdFlags is the presence of digital inputs and analog sensors: every
// combination of either with none or all of the other, and rows in which every
// five of the sixteen flags take all their values (the dual of an extended BCH
// code); thorough: every combination.
func vhAdFlags() (byte, byte) {
	if sv.Thorough() {
		return byte(sv.Choose("digital", 0, 255)), byte(sv.Choose("analog", 0, 255))
	}
	var d, a []byte
	for i := 0; i < 256; i++ {
		for _, k := range []byte{0x00, 0xFF} {
			d, a = append(d, byte(i), k), append(a, k, byte(i))
		}
	}
	mul := func(x, y byte) byte { // in GF(16)
		r := byte(0)
		for i := uint(0); i < 4; i++ {
			if y>>i&1 != 0 {
				r ^= x << i
			}
		}
		for i := uint(7); i > 3; i-- {
			if r>>i&1 != 0 {
				r ^= 0x13 << (i - 4)
			}
		}
		return r
	}
	tr := func(x byte) byte {
		t := x
		for i := 0; i < 3; i++ {
			x = mul(x, x)
			t ^= x
		}
		return t & 1
	}
	for r := 0; r < 512; r++ {
		w := uint16(0)
		for x := byte(0); x < 16; x++ {
			v := byte(r>>8) ^ tr(mul(byte(r)&15, x)^mul(byte(r)>>4, mul(x, mul(x, x))))
			w |= uint16(v) << x
		}
		d, a = append(d, byte(w)), append(a, byte(w>>8))
	}
	k := sv.Choose("presence", 0, len(d)-1)
	return d[k], a[k]
}

// VH_C06_ext round-trips extended position data.
// Bounds: all 32 presence combinations, every field value
// Reach: decoded
func VH_C06_ext() { vhRound(vhGenExt(byte(sv.Choose("f", 0, 31)))) }

// VH_C06_ad round-trips sensor data.
// Bounds: all 256 digital presence bytes with none or all analog sensors and vice versa, and 512 combinations in which any five of the sixteen flags take all values (thorough: all 65536), every field value below 2^24
// Budget: 300
// Reach: decoded
func VH_C06_ad() { vhRound(vhGenAd(vhAdFlags())) }

// VH_C06_counters round-trips counters.
// Bounds: all 256 presence combinations, every counter below 2^24
// Reach: decoded
func VH_C06_counters() { vhRound(vhGenCounters(byte(sv.Choose("f", 0, 255)))) }

// VH_C06_state round-trips terminal state.
// Bounds: every value
// Reach: decoded
func VH_C06_state() { vhRound(vhGenState()) }

// VH_C06_liquid round-trips liquid level data.
// Bounds: every value, sensor numbers 0..7
// Reach: decoded
func VH_C06_liquid() { vhRound(vhGenLiquid()) }

// VH_C06_abs round-trips absolute counter and analog sensor data.
// Bounds: every value below 2^24
// Reach: decoded
func VH_C06_abs() {
	if sv.Choose("k", 0, 1) == 0 {
		vhRound(vhGenAbsCntr())
	} else {
		vhRound(vhGenAbsAn())
	}
}

// VH_C07_term round-trips terminal identities.
// Bounds: all 256 presence combinations, every content
// Reach: decoded
func VH_C07_term() { vhRound(vhGenTerm(byte(sv.Choose("f", 0, 255)))) }

// VH_C07_auth round-trips authentication data.
// Bounds: every text without zero bytes: user, password and sequence of 0..5 bytes each (thorough 0..9)
// Reach: decoded
func VH_C07_auth() {
	h := 5
	if sv.Thorough() {
		h = 9
	}
	vhRound(vhGenAuth(sv.Choose("nu", 0, h), sv.Choose("np", 0, h), sv.Choose("ns", 0, h)))
}

// VH_C07_authlong round-trips long authentication texts.
// Bounds: one text of 32, 64, 128, 254..257 or 512 bytes, the other two of 0..2 bytes
// Reach: decoded
func VH_C07_authlong() {
	l := []int{32, 64, 128, 254, 255, 256, 257, 512}[sv.Choose("long", 0, 7)]
	o := sv.Choose("short", 0, 2)
	switch sv.Choose("which", 0, 2) {
	case 0:
		vhRound(vhGenAuth(l, o, o))
	case 1:
		vhRound(vhGenAuth(o, l, o))
	default:
		vhRound(vhGenAuth(o, o, l))
	}
}

// VH_C07_module round-trips module data.
// Bounds: every value; serial number and description of 0..12 bytes without zero bytes
// Reach: decoded
func VH_C07_module() { vhRound(vhGenModule(sv.Choose("n", 0, 12), sv.Choose("m", 0, 12))) }

// VH_C07_modulelong round-trips module data with long texts.
// Bounds: serial number or description of 32, 33, 127, 128 or 255 bytes
// Reach: decoded
func VH_C07_modulelong() {
	l := []int{32, 33, 127, 128, 255}[sv.Choose("long", 0, 4)]
	if sv.Choose("which", 0, 1) == 0 {
		vhRound(vhGenModule(l, 1))
	} else {
		vhRound(vhGenModule(1, l))
	}
}

// VH_C07_disp round-trips dispatcher identities.
// Bounds: every value; description of 0..20, 32, 128, 255 or 256 bytes
// Reach: decoded
func VH_C07_disp() { vhRound(vhGenDisp(vhLen("n", 20))) }

// VH_C07_result round-trips record responses and result codes.
// Bounds: every value
// Reach: decoded
func VH_C07_result() {
	if sv.Choose("k", 0, 1) == 0 {
		vhRound(vhGenResponse())
	} else {
		vhRound(vhGenResult())
	}
}

// VH_C08_ext compares extended position data with the standard's layout.
// Bounds: all 32 presence combinations, every field value
// Reach: decoded
func VH_C08_ext() { vhWire(vhGenExt(byte(sv.Choose("f", 0, 31)))) }

// VH_C08_ad compares sensor data with the standard's layout.
// Bounds: all 256 digital presence bytes with none or all analog sensors and vice versa, and 512 combinations in which any five of the sixteen flags take all values (thorough: all 65536), every field value below 2^24
// Budget: 300
// Reach: decoded
func VH_C08_ad() { vhWire(vhGenAd(vhAdFlags())) }

// VH_C08_counters compares counters with the standard's layout.
// Bounds: all 256 presence combinations, every counter below 2^24
// Reach: decoded
func VH_C08_counters() { vhWire(vhGenCounters(byte(sv.Choose("f", 0, 255)))) }

// VH_C08_small compares the fixed-size subrecords with the standard's layout.
// Bounds: every value of state data, liquid level, absolute counter, absolute analog sensor, record response and result code
// Reach: decoded
func VH_C08_small() {
	switch sv.Choose("k", 0, 5) {
	case 0:
		vhWire(vhGenState())
	case 1:
		vhWire(vhGenLiquid())
	case 2:
		vhWire(vhGenAbsCntr())
	case 3:
		vhWire(vhGenAbsAn())
	case 4:
		vhWire(vhGenResponse())
	default:
		vhWire(vhGenResult())
	}
}

// VH_C08_term compares terminal identities with the standard's layout.
// Bounds: all 256 presence combinations, every content
// Reach: decoded
func VH_C08_term() { vhWire(vhGenTerm(byte(sv.Choose("f", 0, 255)))) }

// VH_C08_auth compares authentication data with the standard's layout.
// Bounds: every text without zero bytes of 0..4 bytes each, and texts of 32, 128, 255, 256 bytes
// Reach: decoded
func VH_C08_auth() {
	vhWire(vhGenAuth(vhLen("nu", 4), sv.Choose("np", 0, 4), sv.Choose("ns", 0, 4)))
}

// VH_C08_module compares module data with the standard's layout.
// Bounds: every value; serial number of 0..6, 32, 128, 255, 256 bytes and description of 0..6 bytes without zero bytes
// Reach: decoded
func VH_C08_module() { vhWire(vhGenModule(vhLen("n", 6), sv.Choose("m", 0, 6))) }

// VH_C08_disp compares dispatcher identities with the standard's layout.
// Bounds: every value; description of 0..20, 32, 128, 255 or 256 bytes
// Reach: decoded
func VH_C08_disp() { vhWire(vhGenDisp(vhLen("n", 20))) }

// vhPosIs: every field of the position matches the wire form. Coordinates are
// compared with the real value within two wire units.
func vhPosIs(e *SrPosData, p vhPos) {
	sv.Assert(e.NavigationTime.Unix() == vhEpoch+int64(p.ntm), "navigation time differs")
	la := e.Latitude * 0xFFFFFFFF / 90
	sv.Assert(la-float64(p.lat) < 1, "latitude too large")
	sv.Assert(float64(p.lat)-la < 1, "latitude too small")
	lo := e.Longitude * 0xFFFFFFFF / 180
	sv.Assert(lo-float64(p.long) < 1, "longitude too large")
	sv.Assert(float64(p.long)-lo < 1, "longitude too small")
	sv.Assert(vhAll(e.ALTE == vhF(p.flags, 7, 7), e.LOHS == vhF(p.flags, 6, 6), e.LAHS == vhF(p.flags, 5, 5), e.MV == vhF(p.flags, 4, 4),
		e.BB == vhF(p.flags, 3, 3), e.CS == vhF(p.flags, 2, 2), e.FIX == vhF(p.flags, 1, 1), e.VLD == vhF(p.flags, 0, 0)), "position flags differ")
	sv.Assert(e.Speed == p.spd/10, "speed differs")
	sv.Assert(vhAnd(e.DirectionHighestBit == p.dirh, e.AltitudeSign == p.alts), "direction or altitude sign bit differs")
	sv.Assert(e.Direction == p.dir|p.dirh<<7, "direction differs")
	sv.Assert(e.Odometer == p.odm, "odometer differs")
	sv.Assert(vhAnd(e.DigitalInputs == p.din, e.Source == p.src), "digital inputs or source differ")
	if p.flags&0x80 != 0 {
		sv.Assert(e.Altitude == p.alt, "altitude differs")
	}
}

// VH_C08_posdec decodes every valid position of the standard's layout.
// Bounds: every field value, with and without altitude; headings up to 359 degrees
// Reach: decoded
func VH_C08_posdec() {
	p := vhArbPos()
	e := &SrPosData{}
	err := e.Decode(p.bytes())
	sv.Assert(err == nil, "decoding a valid position fails")
	if err != nil {
		return
	}
	sv.Reach("decoded")
	vhPosIs(e, p)
}

func vhPosStruct(p vhPos) *SrPosData {
	e := &SrPosData{NavigationTime: vhTime(p.ntm), ALTE: vhF(p.flags, 7, 7), LOHS: vhF(p.flags, 6, 6), LAHS: vhF(p.flags, 5, 5), MV: vhF(p.flags, 4, 4),
		BB: vhF(p.flags, 3, 3), CS: vhF(p.flags, 2, 2), FIX: vhF(p.flags, 1, 1), VLD: vhF(p.flags, 0, 0),
		DirectionHighestBit: p.dirh, AltitudeSign: p.alts, Speed: p.spd / 10, Direction: p.dir | p.dirh<<7, Odometer: p.odm, DigitalInputs: p.din, Source: p.src}
	if p.flags&0x80 != 0 {
		e.Altitude = p.alt
	}
	return e
}

// vhMask hides the parts of an encoded position that come from floats.
func vhNoCoord(b []byte) []byte {
	c := append([]byte{}, b[:4]...)
	return append(c, b[12:]...)
}

// VH_C08_posenc encodes every position and compares the bytes other than the coordinates with the standard's layout.
// Bounds: every field value, with and without altitude, speeds 0..1638
// Reach: encoded
func VH_C08_posenc() {
	p := vhArbPos()
	p.spd = p.spd / 10 * 10
	e := vhPosStruct(p)
	b, err := e.Encode()
	sv.Assert(err == nil, "encoding a valid position fails")
	if err != nil {
		return
	}
	sv.Reach("encoded")
	ref := p.bytes()
	sv.Assert(len(b) == len(ref), "encoded position has the wrong length")
	if len(b) != len(ref) {
		return
	}
	sv.Assert(vhBytesEq(vhNoCoord(b), vhNoCoord(ref)), "encoded position differs from the standard's layout")
}

// VH_C08_poscoord encodes every latitude and longitude as the integer part of the angle's share of 90 or 180 degrees.
// Bounds: every finite latitude in 0..90 and longitude in 0..180
// Reach: encoded
func VH_C08_poscoord() {
	la, lo := sv.F64("lat"), sv.F64("long")
	sv.Assume(la >= 0)
	sv.Assume(la <= 90)
	sv.Assume(lo >= 0)
	sv.Assume(lo <= 180)
	e := vhPosStruct(vhPos{})
	e.Latitude, e.Longitude = la, lo
	b, err := e.Encode()
	sv.Assert(err == nil, "encoding a valid position fails")
	if err != nil {
		return
	}
	sv.Reach("encoded")
	w := float64(uint32(b[4]) | uint32(b[5])<<8 | uint32(b[6])<<16 | uint32(b[7])<<24)
	r := la * 0xFFFFFFFF / 90
	sv.Assert(w-r < 0.01, "encoded latitude too large")
	sv.Assert(r-w < 1.01, "encoded latitude too small")
	w = float64(uint32(b[8]) | uint32(b[9])<<8 | uint32(b[10])<<16 | uint32(b[11])<<24)
	r = lo * 0xFFFFFFFF / 180
	sv.Assert(w-r < 0.01, "encoded longitude too large")
	sv.Assert(r-w < 1.01, "encoded longitude too small")
}

// VH_C05_fields round-trips every position field other than the coordinates.
// Bounds: every time from 2010 to 2146, flag combination, speed 0..1638, heading 0..359, odometer and altitude below 2^24
// Reach: decoded
func VH_C05_fields() {
	p := vhArbPos()
	p.spd = p.spd / 10 * 10
	p.lat, p.long = 0, 0
	e := vhPosStruct(p)
	b, err := e.Encode()
	sv.Assert(err == nil, "encoding a valid position fails")
	if err != nil {
		return
	}
	d := &SrPosData{}
	err = d.Decode(b)
	sv.Assert(err == nil, "decoding an encoded position fails")
	if err != nil {
		return
	}
	sv.Reach("decoded")
	vhPosIs(d, p)
}

// VH_C05_coords round-trips every latitude and longitude to within two wire units.
// Bounds: every finite latitude in 0..90 and longitude in 0..180
// Reach: decoded
func VH_C05_coords() {
	la, lo := sv.F64("lat"), sv.F64("long")
	sv.Assume(la >= 0)
	sv.Assume(la <= 90)
	sv.Assume(lo >= 0)
	sv.Assume(lo <= 180)
	e := vhPosStruct(vhPos{})
	e.Latitude, e.Longitude = la, lo
	b, err := e.Encode()
	sv.Assert(err == nil, "encoding a valid position fails")
	if err != nil {
		return
	}
	d := &SrPosData{}
	err = d.Decode(b)
	sv.Assert(err == nil, "decoding an encoded position fails")
	if err != nil {
		return
	}
	sv.Reach("decoded")
	u := 1.1 * 90 / 0xFFFFFFFF
	sv.Assert(d.Latitude-la < u, "latitude grows in the round trip")
	sv.Assert(la-d.Latitude < u, "latitude shrinks in the round trip")
	u = 1.1 * 180 / 0xFFFFFFFF
	sv.Assert(d.Longitude-lo < u, "longitude grows in the round trip")
	sv.Assert(lo-d.Longitude < u, "longitude shrinks in the round trip")
}

// VH_C05_stable re-encodes every decoded coordinate to within one wire unit.
// Bounds: every pair of 32-bit wire coordinates
// Reach: encoded
func VH_C05_stable() {
	p := vhPos{lat: sv.U32("lat"), long: sv.U32("long")}
	d := &SrPosData{}
	err := d.Decode(p.bytes())
	sv.Assert(err == nil, "decoding a valid position fails")
	if err != nil {
		return
	}
	b, err := d.Encode()
	sv.Assert(err == nil, "encoding a decoded position fails")
	if err != nil {
		return
	}
	sv.Reach("encoded")
	la := float64(uint32(b[4]) | uint32(b[5])<<8 | uint32(b[6])<<16 | uint32(b[7])<<24)
	lo := float64(uint32(b[8]) | uint32(b[9])<<8 | uint32(b[10])<<16 | uint32(b[11])<<24)
	sv.Assert(la-float64(p.lat) < 0.5, "latitude grows when re-encoded")
	sv.Assert(float64(p.lat)-la < 1.5, "latitude shrinks when re-encoded")
	sv.Assert(lo-float64(p.long) < 0.5, "longitude grows when re-encoded")
	sv.Assert(float64(p.long)-lo < 1.5, "longitude shrinks when re-encoded")
}
