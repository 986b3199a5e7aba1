package egts

import (
	"time"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// vhJU: the number at p is v.
func vhJU(d []byte, p string, v uint64) {
	sv.Assert(sv.JSONHas(d, p), "a field is missing: "+p)
	sv.Assert(sv.JSONU64(d, p) == v, "a number differs: "+p)
}

// vhJS: the text at p is v.
func vhJS(d []byte, p string, v string) {
	sv.Assert(sv.JSONHas(d, p), "a field is missing: "+p)
	sv.Assert(sv.JSONStr(d, p) == v, "a text differs: "+p)
}

// vhJT: the time at p is v.
func vhJT(d []byte, p string, v time.Time) {
	sv.Assert(sv.JSONHas(d, p), "a field is missing: "+p)
	sv.Assert(sv.JSONTime(d, p).Equal(v), "a time differs: "+p)
}

// vhJF: the number at p is v.
func vhJF(d []byte, p string, v float64) {
	sv.Assert(sv.JSONHas(d, p), "a field is missing: "+p)
	sv.Assert(sv.JSONF64(d, p) == v, "a number differs: "+p)
}

// vhJText is a text of n ASCII characters.
func vhJText(name string, n int) string {
	b := sv.Bytes(name, n)
	for _, c := range b {
		sv.Assume(c < 0x80)
	}
	return string(b)
}

func vhJBytes(d []byte, p string, v []byte) {
	g := sv.JSONBytes(d, p)
	sv.Assert(len(g) == len(v), "bytes differ: "+p)
	if len(g) != len(v) {
		return
	}
	for i := range g {
		sv.Assert(g[i] == v[i], "bytes differ: "+p)
	}
}

// vhJSub is an arbitrary subrecord of the kth kind and the check of its fields.
func vhJSub(k int) (BinaryData, func(d []byte, p string)) {
	switch k {
	case 0:
		x := &SrPosData{
			NavigationTime:      timeOffset.Add(time.Duration(sv.U32("NTM")) * time.Second),
			Latitude:            float64(sv.U32("LAT")) / 65536,
			Longitude:           float64(sv.U32("LONG")) / 65536,
			ALTE:                vhJText("ALTE", 1),
			LOHS:                vhJText("LOHS", 1),
			LAHS:                vhJText("LAHS", 1),
			MV:                  vhJText("MV", 1),
			BB:                  vhJText("BB", 1),
			CS:                  vhJText("CS", 1),
			FIX:                 vhJText("FIX", 1),
			VLD:                 vhJText("VLD", 1),
			DirectionHighestBit: sv.Byte("DIRH"),
			AltitudeSign:        sv.Byte("ALTS"),
			Speed:               sv.U16("SPD"),
			Direction:           sv.Byte("DIR"),
			Odometer:            sv.U32("ODM"),
			DigitalInputs:       sv.Byte("DIN"),
			Source:              sv.Byte("SRC"),
			Altitude:            sv.U32("ALT"),
			SourceData:          int16(sv.U16("SRCD")),
		}
		return x, func(d []byte, p string) {
			vhJT(d, p+"NTM", x.NavigationTime)
			vhJF(d, p+"LAT", x.Latitude)
			vhJF(d, p+"LONG", x.Longitude)
			vhJS(d, p+"ALTE", x.ALTE)
			vhJS(d, p+"LOHS", x.LOHS)
			vhJS(d, p+"LAHS", x.LAHS)
			vhJS(d, p+"MV", x.MV)
			vhJS(d, p+"BB", x.BB)
			vhJS(d, p+"CS", x.CS)
			vhJS(d, p+"FIX", x.FIX)
			vhJS(d, p+"VLD", x.VLD)
			vhJU(d, p+"DIRH", uint64(x.DirectionHighestBit))
			vhJU(d, p+"ALTS", uint64(x.AltitudeSign))
			vhJU(d, p+"SPD", uint64(x.Speed))
			vhJU(d, p+"DIR", uint64(x.Direction))
			vhJU(d, p+"ODM", uint64(x.Odometer))
			vhJU(d, p+"DIN", uint64(x.DigitalInputs))
			vhJU(d, p+"SRC", uint64(x.Source))
			vhJU(d, p+"ALT", uint64(x.Altitude))
			vhJU(d, p+"SRCD", uint64(int64(x.SourceData)))
		}
	case 1:
		x := &SrExtPosData{
			NavigationSystemFieldExists:   vhJText("NSFE", 1),
			SatellitesFieldExists:         vhJText("SFE", 1),
			PdopFieldExists:               vhJText("PFE", 1),
			HdopFieldExists:               vhJText("HFE", 1),
			VdopFieldExists:               vhJText("VFE", 1),
			VerticalDilutionOfPrecision:   sv.U16("VDOP"),
			HorizontalDilutionOfPrecision: sv.U16("HDOP"),
			PositionDilutionOfPrecision:   sv.U16("PDOP"),
			Satellites:                    sv.Byte("SAT"),
			NavigationSystem:              sv.U16("NS"),
		}
		return x, func(d []byte, p string) {
			vhJS(d, p+"NSFE", x.NavigationSystemFieldExists)
			vhJS(d, p+"SFE", x.SatellitesFieldExists)
			vhJS(d, p+"PFE", x.PdopFieldExists)
			vhJS(d, p+"HFE", x.HdopFieldExists)
			vhJS(d, p+"VFE", x.VdopFieldExists)
			vhJU(d, p+"VDOP", uint64(x.VerticalDilutionOfPrecision))
			vhJU(d, p+"HDOP", uint64(x.HorizontalDilutionOfPrecision))
			vhJU(d, p+"PDOP", uint64(x.PositionDilutionOfPrecision))
			vhJU(d, p+"SAT", uint64(x.Satellites))
			vhJU(d, p+"NS", uint64(x.NavigationSystem))
		}
	case 2:
		x := &SrAdSensorsData{
			DigitalInputsOctetExists1:     vhJText("DIOE1", 1),
			DigitalInputsOctetExists2:     vhJText("DIOE2", 1),
			DigitalInputsOctetExists3:     vhJText("DIOE3", 1),
			DigitalInputsOctetExists4:     vhJText("DIOE4", 1),
			DigitalInputsOctetExists5:     vhJText("DIOE5", 1),
			DigitalInputsOctetExists6:     vhJText("DIOE6", 1),
			DigitalInputsOctetExists7:     vhJText("DIOE7", 1),
			DigitalInputsOctetExists8:     vhJText("DIOE8", 1),
			DigitalOutputs:                sv.Byte("DOUT"),
			AnalogSensorFieldExists1:      vhJText("ASFE1", 1),
			AnalogSensorFieldExists2:      vhJText("ASFE2", 1),
			AnalogSensorFieldExists3:      vhJText("ASFE3", 1),
			AnalogSensorFieldExists4:      vhJText("ASFE4", 1),
			AnalogSensorFieldExists5:      vhJText("ASFE5", 1),
			AnalogSensorFieldExists6:      vhJText("ASFE6", 1),
			AnalogSensorFieldExists7:      vhJText("ASFE7", 1),
			AnalogSensorFieldExists8:      vhJText("ASFE8", 1),
			AdditionalDigitalInputsOctet1: sv.Byte("ADIO1"),
			AdditionalDigitalInputsOctet2: sv.Byte("ADIO2"),
			AdditionalDigitalInputsOctet3: sv.Byte("ADIO3"),
			AdditionalDigitalInputsOctet4: sv.Byte("ADIO4"),
			AdditionalDigitalInputsOctet5: sv.Byte("ADIO5"),
			AdditionalDigitalInputsOctet6: sv.Byte("ADIO6"),
			AdditionalDigitalInputsOctet7: sv.Byte("ADIO7"),
			AdditionalDigitalInputsOctet8: sv.Byte("ADIO8"),
			AnalogSensor1:                 sv.U32("ANS1"),
			AnalogSensor2:                 sv.U32("ANS2"),
			AnalogSensor3:                 sv.U32("ANS3"),
			AnalogSensor4:                 sv.U32("ANS4"),
			AnalogSensor5:                 sv.U32("ANS5"),
			AnalogSensor6:                 sv.U32("ANS6"),
			AnalogSensor7:                 sv.U32("ANS7"),
			AnalogSensor8:                 sv.U32("ANS8"),
		}
		return x, func(d []byte, p string) {
			vhJS(d, p+"DIOE1", x.DigitalInputsOctetExists1)
			vhJS(d, p+"DIOE2", x.DigitalInputsOctetExists2)
			vhJS(d, p+"DIOE3", x.DigitalInputsOctetExists3)
			vhJS(d, p+"DIOE4", x.DigitalInputsOctetExists4)
			vhJS(d, p+"DIOE5", x.DigitalInputsOctetExists5)
			vhJS(d, p+"DIOE6", x.DigitalInputsOctetExists6)
			vhJS(d, p+"DIOE7", x.DigitalInputsOctetExists7)
			vhJS(d, p+"DIOE8", x.DigitalInputsOctetExists8)
			vhJU(d, p+"DOUT", uint64(x.DigitalOutputs))
			vhJS(d, p+"ASFE1", x.AnalogSensorFieldExists1)
			vhJS(d, p+"ASFE2", x.AnalogSensorFieldExists2)
			vhJS(d, p+"ASFE3", x.AnalogSensorFieldExists3)
			vhJS(d, p+"ASFE4", x.AnalogSensorFieldExists4)
			vhJS(d, p+"ASFE5", x.AnalogSensorFieldExists5)
			vhJS(d, p+"ASFE6", x.AnalogSensorFieldExists6)
			vhJS(d, p+"ASFE7", x.AnalogSensorFieldExists7)
			vhJS(d, p+"ASFE8", x.AnalogSensorFieldExists8)
			vhJU(d, p+"ADIO1", uint64(x.AdditionalDigitalInputsOctet1))
			vhJU(d, p+"ADIO2", uint64(x.AdditionalDigitalInputsOctet2))
			vhJU(d, p+"ADIO3", uint64(x.AdditionalDigitalInputsOctet3))
			vhJU(d, p+"ADIO4", uint64(x.AdditionalDigitalInputsOctet4))
			vhJU(d, p+"ADIO5", uint64(x.AdditionalDigitalInputsOctet5))
			vhJU(d, p+"ADIO6", uint64(x.AdditionalDigitalInputsOctet6))
			vhJU(d, p+"ADIO7", uint64(x.AdditionalDigitalInputsOctet7))
			vhJU(d, p+"ADIO8", uint64(x.AdditionalDigitalInputsOctet8))
			vhJU(d, p+"ANS1", uint64(x.AnalogSensor1))
			vhJU(d, p+"ANS2", uint64(x.AnalogSensor2))
			vhJU(d, p+"ANS3", uint64(x.AnalogSensor3))
			vhJU(d, p+"ANS4", uint64(x.AnalogSensor4))
			vhJU(d, p+"ANS5", uint64(x.AnalogSensor5))
			vhJU(d, p+"ANS6", uint64(x.AnalogSensor6))
			vhJU(d, p+"ANS7", uint64(x.AnalogSensor7))
			vhJU(d, p+"ANS8", uint64(x.AnalogSensor8))
		}
	case 3:
		x := &SrCountersData{
			CounterFieldExists1: vhJText("CFE1", 1),
			CounterFieldExists2: vhJText("CFE2", 1),
			CounterFieldExists3: vhJText("CFE3", 1),
			CounterFieldExists4: vhJText("CFE4", 1),
			CounterFieldExists5: vhJText("CFE5", 1),
			CounterFieldExists6: vhJText("CFE6", 1),
			CounterFieldExists7: vhJText("CFE7", 1),
			CounterFieldExists8: vhJText("CFE8", 1),
			Counter1:            sv.U32("CN1"),
			Counter2:            sv.U32("CN2"),
			Counter3:            sv.U32("CN3"),
			Counter4:            sv.U32("CN4"),
			Counter5:            sv.U32("CN5"),
			Counter6:            sv.U32("CN6"),
			Counter7:            sv.U32("CN7"),
			Counter8:            sv.U32("CN8"),
		}
		return x, func(d []byte, p string) {
			vhJS(d, p+"CFE1", x.CounterFieldExists1)
			vhJS(d, p+"CFE2", x.CounterFieldExists2)
			vhJS(d, p+"CFE3", x.CounterFieldExists3)
			vhJS(d, p+"CFE4", x.CounterFieldExists4)
			vhJS(d, p+"CFE5", x.CounterFieldExists5)
			vhJS(d, p+"CFE6", x.CounterFieldExists6)
			vhJS(d, p+"CFE7", x.CounterFieldExists7)
			vhJS(d, p+"CFE8", x.CounterFieldExists8)
			vhJU(d, p+"CN1", uint64(x.Counter1))
			vhJU(d, p+"CN2", uint64(x.Counter2))
			vhJU(d, p+"CN3", uint64(x.Counter3))
			vhJU(d, p+"CN4", uint64(x.Counter4))
			vhJU(d, p+"CN5", uint64(x.Counter5))
			vhJU(d, p+"CN6", uint64(x.Counter6))
			vhJU(d, p+"CN7", uint64(x.Counter7))
			vhJU(d, p+"CN8", uint64(x.Counter8))
		}
	case 4:
		x := &SrStateData{
			State:                  sv.Byte("ST"),
			MainPowerSourceVoltage: sv.Byte("MPSV"),
			BackUpBatteryVoltage:   sv.Byte("BBV"),
			InternalBatteryVoltage: sv.Byte("IBV"),
			NMS:                    vhJText("NMS", 1),
			IBU:                    vhJText("IBU", 1),
			BBU:                    vhJText("BBU", 1),
		}
		return x, func(d []byte, p string) {
			vhJU(d, p+"ST", uint64(x.State))
			vhJU(d, p+"MPSV", uint64(x.MainPowerSourceVoltage))
			vhJU(d, p+"BBV", uint64(x.BackUpBatteryVoltage))
			vhJU(d, p+"IBV", uint64(x.InternalBatteryVoltage))
			vhJS(d, p+"NMS", x.NMS)
			vhJS(d, p+"IBU", x.IBU)
			vhJS(d, p+"BBU", x.BBU)
		}
	case 5:
		x := &SrLiquidLevelSensor{
			LiquidLevelSensorErrorFlag: vhJText("LLSEF", 1),
			LiquidLevelSensorValueUnit: vhJText("LLSVU", 1),
			RawDataFlag:                vhJText("RDF", 1),
			LiquidLevelSensorNumber:    sv.Byte("LLSN"),
			ModuleAddress:              sv.U16("MADDR"),
			LiquidLevelSensorData:      sv.U32("LLSD"),
		}
		return x, func(d []byte, p string) {
			vhJS(d, p+"LLSEF", x.LiquidLevelSensorErrorFlag)
			vhJS(d, p+"LLSVU", x.LiquidLevelSensorValueUnit)
			vhJS(d, p+"RDF", x.RawDataFlag)
			vhJU(d, p+"LLSN", uint64(x.LiquidLevelSensorNumber))
			vhJU(d, p+"MADDR", uint64(x.ModuleAddress))
			vhJU(d, p+"LLSD", uint64(x.LiquidLevelSensorData))
		}
	case 6:
		x := &SrAbsCntrData{
			CounterNumber: sv.Byte("CN"),
			CounterValue:  sv.U32("CNV"),
		}
		return x, func(d []byte, p string) {
			vhJU(d, p+"CN", uint64(x.CounterNumber))
			vhJU(d, p+"CNV", uint64(x.CounterValue))
		}
	case 7:
		x := &SrAbsAnSensData{
			SensorNumber: sv.Byte("SensorNumber"),
			Value:        sv.U32("Value"),
		}
		return x, func(d []byte, p string) {
			vhJU(d, p+"SensorNumber", uint64(x.SensorNumber))
			vhJU(d, p+"Value", uint64(x.Value))
		}
	case 8:
		x := &SrTermIdentity{
			TerminalIdentifier:       sv.U32("TID"),
			MNE:                      vhJText("MNE", 1),
			BSE:                      vhJText("BSE", 1),
			NIDE:                     vhJText("NIDE", 1),
			SSRA:                     vhJText("SSRA", 1),
			LNGCE:                    vhJText("LNGCE", 1),
			IMSIE:                    vhJText("IMSIE", 1),
			IMEIE:                    vhJText("IMEIE", 1),
			HDIDE:                    vhJText("HDIDE", 1),
			HomeDispatcherIdentifier: sv.U16("HDID"),
			IMEI:                     vhJText("IMEI", 3),
			IMSI:                     vhJText("IMSI", 3),
			LanguageCode:             vhJText("LNGC", 3),
			NetworkIdentifier:        sv.Bytes("NID", 3),
			BufferSize:               sv.U16("BS"),
			MobileNumber:             vhJText("MSISDN", 3),
		}
		return x, func(d []byte, p string) {
			vhJU(d, p+"TID", uint64(x.TerminalIdentifier))
			vhJS(d, p+"MNE", x.MNE)
			vhJS(d, p+"BSE", x.BSE)
			vhJS(d, p+"NIDE", x.NIDE)
			vhJS(d, p+"SSRA", x.SSRA)
			vhJS(d, p+"LNGCE", x.LNGCE)
			vhJS(d, p+"IMSIE", x.IMSIE)
			vhJS(d, p+"IMEIE", x.IMEIE)
			vhJS(d, p+"HDIDE", x.HDIDE)
			vhJU(d, p+"HDID", uint64(x.HomeDispatcherIdentifier))
			vhJS(d, p+"IMEI", x.IMEI)
			vhJS(d, p+"IMSI", x.IMSI)
			vhJS(d, p+"LNGC", x.LanguageCode)
			vhJBytes(d, p+"NID", x.NetworkIdentifier)
			vhJU(d, p+"BS", uint64(x.BufferSize))
			vhJS(d, p+"MSISDN", x.MobileNumber)
		}
	case 9:
		x := &SrAuthInfo{
			UserName:       vhJText("UNM", 3),
			UserPassword:   vhJText("UPSW", 3),
			ServerSequence: vhJText("SS", 3),
		}
		return x, func(d []byte, p string) {
			vhJS(d, p+"UNM", x.UserName)
			vhJS(d, p+"UPSW", x.UserPassword)
			vhJS(d, p+"SS", x.ServerSequence)
		}
	case 10:
		x := &SrModuleData{
			ModuleType:      int8(sv.Byte("MT")),
			VendorID:        sv.U32("VID"),
			FirmwareVersion: sv.U16("FWV"),
			SoftwareVersion: sv.U16("SWV"),
			Modification:    sv.Byte("MD"),
			State:           sv.Byte("ST"),
			SerialNumber:    vhJText("SRN", 3),
			Description:     vhJText("DSCR", 3),
		}
		return x, func(d []byte, p string) {
			vhJU(d, p+"MT", uint64(int64(x.ModuleType)))
			vhJU(d, p+"VID", uint64(x.VendorID))
			vhJU(d, p+"FWV", uint64(x.FirmwareVersion))
			vhJU(d, p+"SWV", uint64(x.SoftwareVersion))
			vhJU(d, p+"MD", uint64(x.Modification))
			vhJU(d, p+"ST", uint64(x.State))
			vhJS(d, p+"SRN", x.SerialNumber)
			vhJS(d, p+"DSCR", x.Description)
		}
	case 11:
		x := &SrDispatcherIdentity{
			DispatcherType: sv.Byte("DT"),
			DispatcherID:   sv.U32("DID"),
			Description:    vhJText("DSCR", 3),
		}
		return x, func(d []byte, p string) {
			vhJU(d, p+"DT", uint64(x.DispatcherType))
			vhJU(d, p+"DID", uint64(x.DispatcherID))
			vhJS(d, p+"DSCR", x.Description)
		}
	case 12:
		x := &SrResponse{
			ConfirmedRecordNumber: sv.U16("CRN"),
			RecordStatus:          sv.Byte("RST"),
		}
		return x, func(d []byte, p string) {
			vhJU(d, p+"CRN", uint64(x.ConfirmedRecordNumber))
			vhJU(d, p+"RST", uint64(x.RecordStatus))
		}
	case 13:
		x := &SrResultCode{
			ResultCode: sv.Byte("RCD"),
		}
		return x, func(d []byte, p string) {
			vhJU(d, p+"RCD", uint64(x.ResultCode))
		}
	}
	return nil, nil
}

func vhJRecord(rds RecordDataSet) ServiceDataRecord {
	r := ServiceDataRecord{
		RecordLength:             sv.U16("RL"),
		RecordNumber:             sv.U16("RN"),
		SourceServiceOnDevice:    vhJText("SSOD", 1),
		RecipientServiceOnDevice: vhJText("RSOD", 1),
		Group:                    vhJText("GRP", 1),
		RecordProcessingPriority: vhJText("RPP", 1),
		TimeFieldExists:          vhJText("TMFE", 1),
		EventIDFieldExists:       vhJText("EVFE", 1),
		ObjectIDFieldExists:      vhJText("OBFE", 1),
		ObjectIdentifier:         sv.U32("OID"),
		EventIdentifier:          sv.U32("EVID"),
		Time:                     timeOffset.Add(time.Duration(sv.U32("TM")) * time.Second),
		SourceServiceType:        sv.Byte("SST"),
		RecipientServiceType:     sv.Byte("RST"),
	}
	r.RecordDataSet = rds
	return r
}

func vhJRecordCheck(d []byte, p string, r ServiceDataRecord) {
	vhJU(d, p+"RL", uint64(r.RecordLength))
	vhJU(d, p+"RN", uint64(r.RecordNumber))
	vhJS(d, p+"SSOD", r.SourceServiceOnDevice)
	vhJS(d, p+"RSOD", r.RecipientServiceOnDevice)
	vhJS(d, p+"GRP", r.Group)
	vhJS(d, p+"RPP", r.RecordProcessingPriority)
	vhJS(d, p+"TMFE", r.TimeFieldExists)
	vhJS(d, p+"EVFE", r.EventIDFieldExists)
	vhJS(d, p+"OBFE", r.ObjectIDFieldExists)
	vhJU(d, p+"OID", uint64(r.ObjectIdentifier))
	vhJU(d, p+"EVID", uint64(r.EventIdentifier))
	vhJT(d, p+"TM", r.Time)
	vhJU(d, p+"SST", uint64(r.SourceServiceType))
	vhJU(d, p+"RST", uint64(r.RecipientServiceType))
	sv.Assert(sv.JSONHas(d, p+"RD"), "a field is missing: "+p+"RD")
	sv.Assert(sv.JSONLen(d, p+"RD") == len(r.RecordDataSet), "the number of subrecords differs")
}

func vhJPackage(body BinaryData) *Package {
	k := &Package{
		ProtocolVersion:           sv.Byte("PRV"),
		SecurityKeyID:             sv.Byte("SKID"),
		Prefix:                    vhJText("PRF", 1),
		Route:                     vhJText("RTE", 1),
		EncryptionAlg:             vhJText("ENA", 1),
		Compression:               vhJText("CMP", 1),
		Priority:                  vhJText("PR", 1),
		HeaderLength:              sv.Byte("HL"),
		HeaderEncoding:            sv.Byte("HE"),
		FrameDataLength:           sv.U16("FDL"),
		PacketIdentifier:          sv.U16("PID"),
		PacketType:                sv.Byte("PT"),
		PeerAddress:               sv.U16("PRA"),
		RecipientAddress:          sv.U16("RCA"),
		TimeToLive:                sv.Byte("TTL"),
		HeaderCheckSum:            sv.Byte("HCS"),
		ServicesFrameDataCheckSum: sv.U16("SFRCS"),
	}
	k.ServicesFrameData = body
	return k
}

func vhJPackageCheck(d []byte, k *Package) {
	p := ""
	vhJU(d, p+"PRV", uint64(k.ProtocolVersion))
	vhJU(d, p+"SKID", uint64(k.SecurityKeyID))
	vhJS(d, p+"PRF", k.Prefix)
	vhJS(d, p+"RTE", k.Route)
	vhJS(d, p+"ENA", k.EncryptionAlg)
	vhJS(d, p+"CMP", k.Compression)
	vhJS(d, p+"PR", k.Priority)
	vhJU(d, p+"HL", uint64(k.HeaderLength))
	vhJU(d, p+"HE", uint64(k.HeaderEncoding))
	vhJU(d, p+"FDL", uint64(k.FrameDataLength))
	vhJU(d, p+"PID", uint64(k.PacketIdentifier))
	vhJU(d, p+"PT", uint64(k.PacketType))
	vhJU(d, p+"PRA", uint64(k.PeerAddress))
	vhJU(d, p+"RCA", uint64(k.RecipientAddress))
	vhJU(d, p+"TTL", uint64(k.TimeToLive))
	vhJU(d, p+"HCS", uint64(k.HeaderCheckSum))
	vhJU(d, p+"SFRCS", uint64(k.ServicesFrameDataCheckSum))
	sv.Assert(sv.JSONHas(d, "SFRD"), "a field is missing: SFRD")
}

const vhDigits = "0123456789"

// VH_C31_records serialises packets with application data.
// Bounds: every value of the header and record fields (flag fields: any character below 128), 0..2 records of 0..2 result code subrecords
// Reach: done records
func VH_C31_records() {
	n := sv.Choose("records", 0, 2)
	set := ServiceDataSet{}
	for i := 0; i < n; i++ {
		var rds RecordDataSet
		for j := sv.Choose("subs", 0, 2); j > 0; j-- {
			rds = append(rds, RecordData{SubrecordType: sv.Byte("srt"), SubrecordLength: sv.U16("srl"), SubrecordData: &SrResultCode{ResultCode: sv.Byte("code")}})
		}
		set = append(set, vhJRecord(rds))
	}
	k := vhJPackage(&set)
	d, err := k.ToBytes()
	sv.Assert(err == nil, "a packet cannot be serialised")
	if err != nil {
		return
	}
	vhJPackageCheck(d, k)
	sv.Assert(sv.JSONLen(d, "SFRD") == n, "the number of records differs")
	for i, r := range set {
		p := "SFRD." + vhDigits[i:i+1] + "."
		vhJRecordCheck(d, p, r)
		for j, s := range r.RecordDataSet {
			q := p + "RD." + vhDigits[j:j+1] + "."
			vhJU(d, q+"SRT", uint64(s.SubrecordType))
			vhJU(d, q+"SRL", uint64(s.SubrecordLength))
			vhJU(d, q+"SRD.RCD", uint64(s.SubrecordData.(*SrResultCode).ResultCode))
		}
		sv.Reach("records")
	}
	sv.Reach("done")
}

// VH_C31_subrecords serialises packets with one subrecord of each kind.
// Bounds: every value of the fields, flag fields of one and texts of three characters below 128, coordinates that are multiples of 1/65536; EGTS+ data excepted
// Reach: done
func VH_C31_subrecords() {
	x, check := vhJSub(sv.Choose("kind", 0, 13))
	k := vhJPackage(&ServiceDataSet{vhJRecord(RecordDataSet{RecordData{SubrecordType: sv.Byte("srt"), SubrecordLength: sv.U16("srl"), SubrecordData: x}})})
	d, err := k.ToBytes()
	sv.Assert(err == nil, "a packet cannot be serialised")
	if err != nil {
		return
	}
	check(d, "SFRD.0.RD.0.SRD.")
	sv.Reach("done")
}

// VH_C31_response serialises responses.
// Bounds: every value of the fields, with and without one record confirmation
// Reach: done
func VH_C31_response() {
	r := &PtResponse{ResponsePacketID: sv.U16("rpid"), ProcessingResult: sv.Byte("pr")}
	var rec ServiceDataRecord
	c := &SrResponse{ConfirmedRecordNumber: sv.U16("crn"), RecordStatus: sv.Byte("rst")}
	with := sv.Choose("sdr", 0, 1) == 1
	if with {
		rec = vhJRecord(RecordDataSet{RecordData{SubrecordType: SrRecordResponseType, SubrecordLength: 3, SubrecordData: c}})
		r.SDR = &ServiceDataSet{rec}
	}
	k := vhJPackage(r)
	d, err := k.ToBytes()
	sv.Assert(err == nil, "a packet cannot be serialised")
	if err != nil {
		return
	}
	vhJPackageCheck(d, k)
	vhJU(d, "SFRD.RPID", uint64(r.ResponsePacketID))
	vhJU(d, "SFRD.PR", uint64(r.ProcessingResult))
	if with {
		sv.Assert(sv.JSONLen(d, "SFRD.SDR") == 1, "the number of records differs")
		vhJRecordCheck(d, "SFRD.SDR.0.", rec)
		vhJU(d, "SFRD.SDR.0.RD.0.SRD.CRN", uint64(c.ConfirmedRecordNumber))
		vhJU(d, "SFRD.SDR.0.RD.0.SRD.RST", uint64(c.RecordStatus))
	} else {
		sv.Assert(sv.JSONLen(d, "SFRD.SDR") == 0, "confirmations appear from nowhere")
	}
	sv.Reach("done")
}
