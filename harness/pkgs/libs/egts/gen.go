package egts

// Generators: arbitrary subrecord values together with the bytes the standard
// prescribes for them.

import (
	"time"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// vhEpoch is 2010-01-01 00:00:00 UTC, the origin of EGTS times.
const vhEpoch = 1262304000

func vhTime(sec uint32) time.Time { return time.Unix(vhEpoch+int64(sec), 0).UTC() }

type vhCase struct {
	x     BinaryData                 // the value
	ref   []byte                     // its encoding
	fresh func() BinaryData          // an empty value of the type
	eq    func(a, b BinaryData) bool // field equality
	typ   byte                       // subrecord type
	min   func(n int) bool           // is a prefix of n bytes a complete encoding?
}

func vhGenExt(f byte) vhCase {
	f &= 0x1F
	x := &SrExtPosData{
		NavigationSystemFieldExists: vhF(f, 4, 4), SatellitesFieldExists: vhF(f, 3, 3), PdopFieldExists: vhF(f, 2, 2),
		HdopFieldExists: vhF(f, 1, 1), VdopFieldExists: vhF(f, 0, 0),
	}
	b := []byte{f}
	if f&1 != 0 {
		x.VerticalDilutionOfPrecision = sv.U16("vdop")
		b = vh16(b, x.VerticalDilutionOfPrecision)
	}
	if f&2 != 0 {
		x.HorizontalDilutionOfPrecision = sv.U16("hdop")
		b = vh16(b, x.HorizontalDilutionOfPrecision)
	}
	if f&4 != 0 {
		x.PositionDilutionOfPrecision = sv.U16("pdop")
		b = vh16(b, x.PositionDilutionOfPrecision)
	}
	if f&8 != 0 {
		x.Satellites = sv.Byte("sat")
		b = append(b, x.Satellites)
	}
	if f&16 != 0 {
		x.NavigationSystem = sv.U16("ns")
		b = vh16(b, x.NavigationSystem)
	}
	return vhCase{x: x, ref: b, typ: 17, fresh: func() BinaryData { return &SrExtPosData{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrExtPosData) == *b.(*SrExtPosData) }}
}

// vhGenAd: d selects the digital octets, a the analog sensors.
func vhGenAd(d, a byte) vhCase {
	x := &SrAdSensorsData{
		DigitalInputsOctetExists1: vhF(d, 0, 0), DigitalInputsOctetExists2: vhF(d, 1, 1), DigitalInputsOctetExists3: vhF(d, 2, 2), DigitalInputsOctetExists4: vhF(d, 3, 3),
		DigitalInputsOctetExists5: vhF(d, 4, 4), DigitalInputsOctetExists6: vhF(d, 5, 5), DigitalInputsOctetExists7: vhF(d, 6, 6), DigitalInputsOctetExists8: vhF(d, 7, 7),
		AnalogSensorFieldExists1: vhF(a, 0, 0), AnalogSensorFieldExists2: vhF(a, 1, 1), AnalogSensorFieldExists3: vhF(a, 2, 2), AnalogSensorFieldExists4: vhF(a, 3, 3),
		AnalogSensorFieldExists5: vhF(a, 4, 4), AnalogSensorFieldExists6: vhF(a, 5, 5), AnalogSensorFieldExists7: vhF(a, 6, 6), AnalogSensorFieldExists8: vhF(a, 7, 7),
		DigitalOutputs: sv.Byte("dout"),
	}
	b := []byte{d, x.DigitalOutputs, a}
	dp := []*byte{&x.AdditionalDigitalInputsOctet1, &x.AdditionalDigitalInputsOctet2, &x.AdditionalDigitalInputsOctet3, &x.AdditionalDigitalInputsOctet4,
		&x.AdditionalDigitalInputsOctet5, &x.AdditionalDigitalInputsOctet6, &x.AdditionalDigitalInputsOctet7, &x.AdditionalDigitalInputsOctet8}
	for i := uint(0); i < 8; i++ {
		if d>>i&1 != 0 {
			v := sv.Byte("adio")
			*dp[i] = v
			b = append(b, v)
		}
	}
	ap := []*uint32{&x.AnalogSensor1, &x.AnalogSensor2, &x.AnalogSensor3, &x.AnalogSensor4, &x.AnalogSensor5, &x.AnalogSensor6, &x.AnalogSensor7, &x.AnalogSensor8}
	for i := uint(0); i < 8; i++ {
		if a>>i&1 != 0 {
			v := sv.U32("ans") & 0xFFFFFF
			*ap[i] = v
			b = vh24(b, v)
		}
	}
	return vhCase{x: x, ref: b, typ: 18, fresh: func() BinaryData { return &SrAdSensorsData{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrAdSensorsData) == *b.(*SrAdSensorsData) }}
}

func vhGenCounters(f byte) vhCase {
	x := &SrCountersData{
		CounterFieldExists1: vhF(f, 0, 0), CounterFieldExists2: vhF(f, 1, 1), CounterFieldExists3: vhF(f, 2, 2), CounterFieldExists4: vhF(f, 3, 3),
		CounterFieldExists5: vhF(f, 4, 4), CounterFieldExists6: vhF(f, 5, 5), CounterFieldExists7: vhF(f, 6, 6), CounterFieldExists8: vhF(f, 7, 7),
	}
	b := []byte{f}
	cp := []*uint32{&x.Counter1, &x.Counter2, &x.Counter3, &x.Counter4, &x.Counter5, &x.Counter6, &x.Counter7, &x.Counter8}
	for i := uint(0); i < 8; i++ {
		if f>>i&1 != 0 {
			v := sv.U32("cn") & 0xFFFFFF
			*cp[i] = v
			b = vh24(b, v)
		}
	}
	return vhCase{x: x, ref: b, typ: 19, fresh: func() BinaryData { return &SrCountersData{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrCountersData) == *b.(*SrCountersData) }}
}

func vhGenState() vhCase {
	f := sv.Byte("flags") & 7
	x := &SrStateData{State: sv.Byte("st"), MainPowerSourceVoltage: sv.Byte("mpsv"), BackUpBatteryVoltage: sv.Byte("bbv"), InternalBatteryVoltage: sv.Byte("ibv"),
		NMS: vhF(f, 2, 2), IBU: vhF(f, 1, 1), BBU: vhF(f, 0, 0)}
	b := []byte{x.State, x.MainPowerSourceVoltage, x.BackUpBatteryVoltage, x.InternalBatteryVoltage, f}
	return vhCase{x: x, ref: b, typ: 21, fresh: func() BinaryData { return &SrStateData{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrStateData) == *b.(*SrStateData) }}
}

func vhGenLiquid() vhCase {
	f := sv.Byte("flags") & 0x7F
	x := &SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: vhF(f, 6, 6), LiquidLevelSensorValueUnit: vhF(f, 5, 4), RawDataFlag: vhF(f, 3, 3),
		LiquidLevelSensorNumber: f & 7, ModuleAddress: sv.U16("maddr"), LiquidLevelSensorData: sv.U32("llsd")}
	b := vh32(vh16([]byte{f}, x.ModuleAddress), x.LiquidLevelSensorData)
	return vhCase{x: x, ref: b, typ: 27, fresh: func() BinaryData { return &SrLiquidLevelSensor{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrLiquidLevelSensor) == *b.(*SrLiquidLevelSensor) }}
}

func vhGenAbsCntr() vhCase {
	x := &SrAbsCntrData{CounterNumber: sv.Byte("acn"), CounterValue: sv.U32("cnv") & 0xFFFFFF}
	return vhCase{x: x, ref: vh24([]byte{x.CounterNumber}, x.CounterValue), typ: 25, fresh: func() BinaryData { return &SrAbsCntrData{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrAbsCntrData) == *b.(*SrAbsCntrData) }}
}

func vhGenAbsAn() vhCase {
	x := &SrAbsAnSensData{SensorNumber: sv.Byte("asn"), Value: sv.U32("asv") & 0xFFFFFF}
	return vhCase{x: x, ref: vh24([]byte{x.SensorNumber}, x.Value), typ: 24, fresh: func() BinaryData { return &SrAbsAnSensData{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrAbsAnSensData) == *b.(*SrAbsAnSensData) }}
}

func vhGenResponse() vhCase {
	x := &SrResponse{ConfirmedRecordNumber: sv.U16("crn"), RecordStatus: sv.Byte("rst")}
	return vhCase{x: x, ref: append(vh16(nil, x.ConfirmedRecordNumber), x.RecordStatus), typ: 0, fresh: func() BinaryData { return &SrResponse{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrResponse) == *b.(*SrResponse) }}
}

func vhGenResult() vhCase {
	x := &SrResultCode{ResultCode: sv.Byte("rcd")}
	return vhCase{x: x, ref: []byte{x.ResultCode}, typ: 9, fresh: func() BinaryData { return &SrResultCode{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrResultCode) == *b.(*SrResultCode) }}
}

func vhGenTerm(f byte) vhCase {
	x := &SrTermIdentity{TerminalIdentifier: sv.U32("tid"),
		MNE: vhF(f, 7, 7), BSE: vhF(f, 6, 6), NIDE: vhF(f, 5, 5), SSRA: vhF(f, 4, 4), LNGCE: vhF(f, 3, 3), IMSIE: vhF(f, 2, 2), IMEIE: vhF(f, 1, 1), HDIDE: vhF(f, 0, 0)}
	b := append(vh32(nil, x.TerminalIdentifier), f)
	if f&1 != 0 {
		x.HomeDispatcherIdentifier = sv.U16("hdid")
		b = vh16(b, x.HomeDispatcherIdentifier)
	}
	if f&2 != 0 {
		x.IMEI = sv.Str("imei", 15)
		b = append(b, x.IMEI...)
	}
	if f&4 != 0 {
		x.IMSI = sv.Str("imsi", 16)
		b = append(b, x.IMSI...)
	}
	if f&8 != 0 {
		x.LanguageCode = sv.Str("lngc", 3)
		b = append(b, x.LanguageCode...)
	}
	if f&32 != 0 {
		x.NetworkIdentifier = sv.Bytes("nid", 3)
		b = append(b, x.NetworkIdentifier...)
	}
	if f&64 != 0 {
		x.BufferSize = sv.U16("bs")
		b = vh16(b, x.BufferSize)
	}
	if f&128 != 0 {
		x.MobileNumber = sv.Str("msisdn", 15)
		b = append(b, x.MobileNumber...)
	}
	return vhCase{x: x, ref: b, typ: 1, fresh: func() BinaryData { return &SrTermIdentity{} },
		eq: func(a, b BinaryData) bool {
			p, q := a.(*SrTermIdentity), b.(*SrTermIdentity)
			return vhAll(p.TerminalIdentifier == q.TerminalIdentifier, p.MNE == q.MNE, p.BSE == q.BSE, p.NIDE == q.NIDE, p.SSRA == q.SSRA,
				p.LNGCE == q.LNGCE, p.IMSIE == q.IMSIE, p.IMEIE == q.IMEIE, p.HDIDE == q.HDIDE, p.HomeDispatcherIdentifier == q.HomeDispatcherIdentifier,
				p.IMEI == q.IMEI, p.IMSI == q.IMSI, p.LanguageCode == q.LanguageCode, vhBytesEq(p.NetworkIdentifier, q.NetworkIdentifier),
				p.BufferSize == q.BufferSize, p.MobileNumber == q.MobileNumber)
		}}
}

// vhText is a text of n arbitrary bytes without the zero delimiter.
func vhText(name string, n int) string {
	b := sv.Bytes(name, n)
	ok := true
	for i := range b {
		ok = vhAnd(ok, b[i] != 0)
	}
	sv.Assume(ok)
	return string(b)
}

// vhGenAuth: lengths of the three texts; s == 0 leaves the sequence out.
func vhGenAuth(u, p, s int) vhCase {
	x := &SrAuthInfo{UserName: vhText("unm", u), UserPassword: vhText("upsw", p), ServerSequence: vhText("ss", s)}
	b := append([]byte(x.UserName), 0)
	b = append(append(b, x.UserPassword...), 0)
	if s > 0 {
		b = append(append(b, x.ServerSequence...), 0)
	}
	return vhCase{x: x, ref: b, typ: 7, fresh: func() BinaryData { return &SrAuthInfo{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrAuthInfo) == *b.(*SrAuthInfo) }}
}

func vhGenModule(n, m int) vhCase {
	x := &SrModuleData{ModuleType: sv.I8("mt"), VendorID: sv.U32("vid"), FirmwareVersion: sv.U16("fwv"), SoftwareVersion: sv.U16("swv"),
		Modification: sv.Byte("md"), State: sv.Byte("st"), SerialNumber: vhText("srn", n), Description: vhText("dscr", m)}
	b := vh32([]byte{byte(x.ModuleType)}, x.VendorID)
	b = vh16(vh16(b, x.FirmwareVersion), x.SoftwareVersion)
	b = append(b, x.Modification, x.State)
	b = append(append(b, x.SerialNumber...), 0)
	b = append(append(b, x.Description...), 0)
	return vhCase{x: x, ref: b, typ: 2, fresh: func() BinaryData { return &SrModuleData{} },
		eq: func(a, b BinaryData) bool {
			p, q := a.(*SrModuleData), b.(*SrModuleData)
			return vhAll(p.ModuleType == q.ModuleType, p.VendorID == q.VendorID, p.FirmwareVersion == q.FirmwareVersion, p.SoftwareVersion == q.SoftwareVersion,
				p.Modification == q.Modification, p.State == q.State, p.SerialNumber == q.SerialNumber, p.Description == q.Description)
		}}
}

func vhGenDisp(n int) vhCase {
	x := &SrDispatcherIdentity{DispatcherType: sv.Byte("dt"), DispatcherID: sv.U32("did"), Description: sv.Str("dscr", n)}
	b := append(vh32([]byte{x.DispatcherType}, x.DispatcherID), x.Description...)
	return vhCase{x: x, ref: b, typ: 5, fresh: func() BinaryData { return &SrDispatcherIdentity{} },
		eq: func(a, b BinaryData) bool { return *a.(*SrDispatcherIdentity) == *b.(*SrDispatcherIdentity) }}
}

// vhPos is the wire form of a position.
type vhPos struct {
	ntm, lat, long uint32
	flags          byte
	spd            uint16 // bits 0..13
	dirh, alts     byte
	dir            byte
	odm            uint32
	din, src       byte
	alt            uint32
}

// vhArbPos is an arbitrary valid position: with the high direction bit set the
// direction is at most 359 degrees.
func vhArbPos() vhPos {
	p := vhPos{ntm: sv.U32("ntm"), lat: sv.U32("lat"), long: sv.U32("long"), flags: sv.Byte("flags"), spd: sv.U16("spd") & 0x3FFF,
		dirh: sv.Byte("dirh") & 1, alts: sv.Byte("alts") & 1, dir: sv.Byte("dir"), odm: sv.U32("odm") & 0xFFFFFF, din: sv.Byte("din"), src: sv.Byte("src"), alt: sv.U32("alt") & 0xFFFFFF}
	sv.Assume(!vhAnd(p.dirh == 1, p.dir > 103))
	return p
}

func (p vhPos) bytes() []byte {
	b := vh32(vh32(vh32(nil, p.ntm), p.lat), p.long)
	b = append(b, p.flags)
	b = vh16(b, p.spd|uint16(p.alts)<<14|uint16(p.dirh)<<15)
	b = append(b, p.dir)
	b = vh24(b, p.odm)
	b = append(b, p.din, p.src)
	if p.flags&0x80 != 0 {
		b = vh24(b, p.alt)
	}
	return b
}
