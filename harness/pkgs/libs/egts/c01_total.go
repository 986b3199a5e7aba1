package egts

import sv "github.com/kuznetsovin/egts-protocol/verifsv"

// VH_C01_package decodes arbitrary bytes as a package; any panic is a violation.
// Bounds: every byte string of 0..20 bytes (thorough: 0..24)
// Reach: ok err
func VH_C01_package() {
	hi := 20
	if sv.Thorough() {
		hi = 24
	}
	b := sv.Bytes("d", sv.Choose("n", 0, hi))
	p := &Package{}
	if _, err := p.Decode(b); err != nil {
		sv.Reach("err")
		return
	}
	sv.Reach("ok")
}

// VH_C01_long decodes a maximal frame with arbitrary header flags and checksums.
// Bounds: frame data lengths 65515, 65524, 65525, 65530 and 65535, every flag byte, header checksum and data checksum; body one unknown subrecord of zeros
// Reach: err
func VH_C01_long() {
	sizes := []int{65515, 65524, 65525, 65530, 65535}
	n := sizes[sv.Choose("n", 0, 4)]
	body := make([]byte, n)
	body[0], body[1] = byte(n-7), byte((n-7)>>8)
	body[7], body[8], body[9] = 200, byte(n-10), byte((n-10)>>8)
	h := []byte{1, 0, sv.Byte("flags"), 11, 0, byte(n), byte(n >> 8), 1, 0, 1, sv.Byte("hcs")}
	b := append(h, body...)
	b = append(b, sv.Byte("c0"), sv.Byte("c1"))
	p := &Package{}
	_, err := p.Decode(b)
	if err != nil {
		sv.Reach("err")
	}
}

// VH_C01_records decodes arbitrary bytes as a record set.
// Bounds: every byte string of 0..14 bytes (thorough: 0..20)
// Reach: ok err
func VH_C01_records() {
	hi := 14
	if sv.Thorough() {
		hi = 20
	}
	b := sv.Bytes("d", sv.Choose("n", 0, hi))
	s := &ServiceDataSet{}
	if err := s.Decode(b); err != nil {
		sv.Reach("err")
		return
	}
	sv.Reach("ok")
}

// VH_C01_subrecords decodes arbitrary bytes as a subrecord set.
// Bounds: every byte string of 0..9 bytes (thorough: 0..14)
// Reach: ok err
func VH_C01_subrecords() {
	hi := 9
	if sv.Thorough() {
		hi = 14
	}
	b := sv.Bytes("d", sv.Choose("n", 0, hi))
	s := &RecordDataSet{}
	if err := s.Decode(b); err != nil {
		sv.Reach("err")
		return
	}
	sv.Reach("ok")
}

// VH_C01_response decodes arbitrary bytes as a response body.
// Bounds: every byte string of 0..14 bytes (thorough: 0..20)
// Reach: ok err
func VH_C01_response() {
	hi := 14
	if sv.Thorough() {
		hi = 20
	}
	b := sv.Bytes("d", sv.Choose("n", 0, hi))
	s := &PtResponse{}
	if err := s.Decode(b); err != nil {
		sv.Reach("err")
		return
	}
	sv.Reach("ok")
}

func vhTotal(x BinaryData, hi int) {
	b := sv.Bytes("d", sv.Choose("n", 0, hi))
	if err := x.Decode(b); err != nil {
		sv.Reach("err")
		return
	}
	sv.Reach("ok")
}

// VH_C01_pos decodes arbitrary bytes as a position subrecord.
// Bounds: every byte string of 0..28 bytes
// Reach: ok err
func VH_C01_pos() { vhTotal(&SrPosData{}, 28) }

// VH_C01_ext decodes arbitrary bytes as an extended position subrecord.
// Bounds: every byte string of 0..12 bytes
// Reach: ok err
func VH_C01_ext() { vhTotal(&SrExtPosData{}, 12) }

// VH_C01_ad decodes arbitrary bytes as a sensor subrecord.
// Bounds: every byte string of 0..37 bytes
// Reach: ok err
func VH_C01_ad() { vhTotal(&SrAdSensorsData{}, 37) }

// VH_C01_counters decodes arbitrary bytes as a counters subrecord.
// Bounds: every byte string of 0..27 bytes
// Reach: ok err
func VH_C01_counters() { vhTotal(&SrCountersData{}, 27) }

// VH_C01_term decodes arbitrary bytes as a terminal identity subrecord.
// Bounds: every byte string of 0..63 bytes
// Reach: ok err
func VH_C01_term() { vhTotal(&SrTermIdentity{}, 63) }

// VH_C01_auth decodes arbitrary bytes as an authentication subrecord.
// Bounds: every byte string of 0..16 bytes
// Reach: ok err
func VH_C01_auth() { vhTotal(&SrAuthInfo{}, 16) }

// VH_C01_module decodes arbitrary bytes as a module data subrecord.
// Bounds: every byte string of 0..22 bytes
// Reach: ok err
func VH_C01_module() { vhTotal(&SrModuleData{}, 22) }

// VH_C01_small decodes arbitrary bytes as each of the fixed-size subrecords.
// Bounds: every byte string of 0..12 bytes, types state data, liquid level, absolute counter, absolute analog sensor, dispatcher identity, record response, result code
// Reach: ok err
func VH_C01_small() {
	var x BinaryData
	switch sv.Choose("type", 0, 6) {
	case 0:
		x = &SrStateData{}
	case 1:
		x = &SrLiquidLevelSensor{}
	case 2:
		x = &SrAbsCntrData{}
	case 3:
		x = &SrAbsAnSensData{}
	case 4:
		x = &SrDispatcherIdentity{}
	case 5:
		x = &SrResponse{}
	default:
		x = &SrResultCode{}
	}
	vhTotal(x, 12)
}
