From 87a9b46d9639d1968c8f4e046c66c82ba72b1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:59 +0000
Subject: [PATCH 01/35] fix: Package.Decode panics on a header length that does
 not match the header

---
 libs/egts/egts_pkg.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d7c0600..9dde978 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -121,6 +121,11 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	// длина заголовка должна соответствовать фактически разобранному заголовку
+	if int(p.HeaderLength) != len(content)-buf.Len() {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
@@ -160,7 +165,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 9ffa3036387c8e52b8571f7878eda03be691f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:00 +0000
Subject: [PATCH 02/35] fix: report a body checksum mismatch with the data
 checksum error code

---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 9dde978..a8ceb58 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -166,7 +166,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
 	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
-- 
2.43.0


From 5bf266ab71a7e9671121b2f39fcb0ebf016408e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:00 +0000
Subject: [PATCH 03/35] fix: SrCountersData.Decode stores CN2 in Counter2

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..454cdc0 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -65,7 +65,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From 05f65af543c1b980155f8473703ee6c07ac29db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:00 +0000
Subject: [PATCH 04/35] fix: SrAdSensorsData.Encode writes the analog sensor
 flags in wire order

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..85fa38c 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -234,14 +234,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 6f52b27745c86b16dde200991041c97b9ed7b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:00 +0000
Subject: [PATCH 05/35] fix: SrPosData.Decode reads exactly the three altitude
 bytes

---
 libs/egts/egts_sr_pos_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..d3b8349 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From 43cbaf53e28f72c2faf3b2f167afafb4e14060b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:00 +0000
Subject: [PATCH 06/35] fix: RecordDataSet.Encode infers the type of module
 data and dispatcher identity subrecords

---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 51ecd9e..2beeeac 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -129,6 +129,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrModuleData:
+				rd.SubrecordType = SrModuleDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From 5fbd1312a0c8b43e91274346b447eb4efb383145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:00 +0000
Subject: [PATCH 07/35] fix: SrTermIdentity.Encode reports malformed flag
 strings

---
 libs/egts/egts_sr_term_identity.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index ad9b33f..a481c7c 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -128,6 +128,10 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
+
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From 3a182062a225e19f14f0a832e873b87347b05dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:23 +0000
Subject: [PATCH 08/35] fix: reject record and subrecord lengths that overrun
 the data

---
 libs/egts/record_data.go          | 3 +++
 libs/egts/service_data_records.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 2beeeac..2a38117 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -36,6 +36,9 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if int(rd.SubrecordLength) > buf.Len() {
+			return fmt.Errorf("Длина subrecord data больше размера данных: %d > %d", rd.SubrecordLength, buf.Len())
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 60ed468..9c4079a 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -102,6 +102,10 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		}
 
 		if buf.Len() != 0 {
+			if int(sdr.RecordLength) > buf.Len() {
+				return fmt.Errorf("длина записи SDR больше размера данных: %d > %d", sdr.RecordLength, buf.Len())
+			}
+
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
 			if _, err = buf.Read(rdsBytes); err != nil {
-- 
2.43.0


From ff0776d5a9b855be392d6533f081b58d6056723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:23 +0000
Subject: [PATCH 09/35] fix: reject truncated multi-byte fields instead of
 decoding them partially

---
 libs/egts/egts_pkg.go                    |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  3 ++-
 9 files changed, 43 insertions(+), 34 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index a8ceb58..24ce869 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -160,7 +161,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 85fa38c..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 454cdc0..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index a481c7c..2af38ec 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 2a38117..f346772 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -31,7 +32,7 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
-- 
2.43.0


From 99528d4625de5f658b26794f3ce2b66ff5bb0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 10/35] fix: compute the frame length without wraparound and
 refuse impossible header lengths

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 49f30c7..0b70119 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -93,9 +93,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Не верная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From 1d07fc1919b9fce79b587ae1f9056a097f1a560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 11/35] fix: send EGTS_SR_RESULT_CODE in an EGTS_PT_APPDATA
 packet

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 0b70119..818eef9 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -392,7 +392,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 09a20df6cfc3fb194d78f98242739a4bdb965835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 12/35] fix: export southern latitudes and western longitudes
 with their sign

---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 818eef9..e06ce0a 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -191,6 +191,13 @@ func (s *Server) handleConn(conn net.Conn) {
 						exportPacket.ReceivedTimestamp = receivedTimestamp
 						exportPacket.Latitude = subRecData.Latitude
 						exportPacket.Longitude = subRecData.Longitude
+						// координаты передаются по модулю, полушарие определяют флаги
+						if subRecData.LAHS == "1" {
+							exportPacket.Latitude = -exportPacket.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							exportPacket.Longitude = -exportPacket.Longitude
+						}
 						exportPacket.Speed = subRecData.Speed
 						exportPacket.Course = subRecData.Direction
 					case *egts.SrExtPosData:
-- 
2.43.0


From 39b45e8e4e629a15f6a7d8e2f2e77834be47fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 13/35] fix: close connections that stay silent longer than
 conn_ttl

---
 cli/receiver/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e06ce0a..462ca8b 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -76,6 +76,9 @@ func (s *Server) handleConn(conn net.Conn) {
 		recvPacket = nil
 
 		connTimer := time.NewTimer(s.ttl)
+		if s.ttl > 0 {
+			_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
+		}
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-- 
2.43.0


From 8176b74df1da415396f5608b083cfc93ccb978c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 14/35] fix: keep the low bytes of the record number when its
 high byte arrives

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 462ca8b..2c54413 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -249,7 +249,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
+							binary.LittleEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
 							exportPacket.PacketID = subRecData.CounterValue
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
-- 
2.43.0


From 0fcb59a8169de9caeca73b5f68fc50373b00828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 15/35] fix: do not confirm records that could not be stored

---
 cli/receiver/server/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 2c54413..92cc6ab 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -11,8 +11,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -286,6 +287,11 @@ func (s *Server) handleConn(conn net.Conn) {
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
 						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+						// не подтверждаем запись, которую не удалось сохранить
+						srResponsesRecord[len(srResponsesRecord)-1].SubrecordData = &egts.SrResponse{
+							ConfirmedRecordNumber: rec.RecordNumber,
+							RecordStatus:          egtsPcIoError,
+						}
 					}
 				}
 			}
-- 
2.43.0


From 162bf53a5881ef995479a4dd4b3d4486d1f5a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 16/35] fix: a failing store does not keep the packet from the
 other stores

---
 cli/receiver/storage/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index aac933e..342942a 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,13 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var firstErr error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From ea1aaaf943afb80a369b5967b89003ff5b45ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 17/35] fix: use redis database 0 when none is configured

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 70c75b1..b050cf4 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 2882640f7e0cb995f867a4c5a287d79f9a16004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 18/35] fix: packet-gen sends the requested timestamp

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 75f10ca..9bae84e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From adf21f185383f611d2308f86b468b9d5a6ae494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 19/35] fix: packet-gen exits with status 0 when the packet was
 acknowledged

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 9bae84e..86b8571 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From 275e14325fbad4debb2a896ae1c2506a862342df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 20/35] fix: packet-gen waits five seconds for the ack by
 default, as documented

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 86b8571..7b243cf 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 2d0ecf2135573511473ce85defcee176c7453de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:14 +0000
Subject: [PATCH 21/35] fix: decode application packets that carry no data

---
 libs/egts/egts_pkg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 24ce869..c01277c 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -131,6 +131,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
+	// при нулевой длине данных поля SFRD и SFRCS в пакете отсутствуют
+	if p.FrameDataLength == 0 && p.PacketType == PtAppdataPacket {
+		p.ServicesFrameData = &ServiceDataSet{}
+		return egtsPcOk, nil
+	}
+
 	dataFrameBytes := make([]byte, p.FrameDataLength)
 	if _, err = buf.Read(dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
-- 
2.43.0


From 31a2dea20ff8b29c5a0e9baca0007c2dfb326ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 22/35] fix: reject a truncated frame body before decoding it

---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c01277c..b25241a 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -138,7 +138,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	switch p.PacketType {
-- 
2.43.0


From 53ee59bfbad31c31f7767b48df9ac399095edf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:38 +0000
Subject: [PATCH 23/35] fix: store courses of 256 degrees and above

---
 cli/receiver/server/server.go  | 6 +++++-
 cli/receiver/storage/packet.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 92cc6ab..24c192d 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -203,7 +203,11 @@ func (s *Server) handleConn(conn net.Conn) {
 							exportPacket.Longitude = -exportPacket.Longitude
 						}
 						exportPacket.Speed = subRecData.Speed
-						exportPacket.Course = subRecData.Direction
+						exportPacket.Course = uint16(subRecData.Direction)
+						// DIRH старший (восьмой) бит курса, в Direction он занимает место седьмого
+						if subRecData.DirectionHighestBit == 1 {
+							exportPacket.Course = 1<<8 | exportPacket.Course&^(1<<7)
+						}
 					case *egts.SrExtPosData:
 						log.Debug("Разбор подзаписи EGTS_SR_EXT_POS_DATA")
 						exportPacket.Nsat = subRecData.Satellites
diff --git a/cli/receiver/storage/packet.go b/cli/receiver/storage/packet.go
index 48ea5c6..4ef32ed 100644
--- a/cli/receiver/storage/packet.go
+++ b/cli/receiver/storage/packet.go
@@ -17,7 +17,7 @@ type NavRecord struct {
 	Vdop                uint16         `json:"vdop"`
 	Nsat                uint8          `json:"nsat"`
 	Ns                  uint16         `json:"ns"`
-	Course              uint8          `json:"course"`
+	Course              uint16         `json:"course"`
 	AnSensors           []AnSensor     `json:"an_sensors"`
 	LiquidSensors       []LiquidSensor `json:"liquid_sensors"`
 }
-- 
2.43.0


From 71fb88eb9239cbfacdca99d3a1e4ce60d185cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:38 +0000
Subject: [PATCH 24/35] fix: keep the high byte of the record number when it
 comes first

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 24c192d..cc207dd 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -254,8 +254,12 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.LittleEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							// Старший байт мог прийти раньше, его не затираем.
+							tmpBuf := make([]byte, 4)
+							binary.LittleEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							copy(packetIDBytes[:3], tmpBuf)
+
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
 							tmpBuf := make([]byte, 4)
-- 
2.43.0


From e2ad455b48eac4b3e5ad035049fadb2600f0aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 25/35] fix: packet-gen accepts an ack that carries no records

---
 cli/packet-gen/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 7b243cf..e3feaed 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -207,7 +207,12 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	sdr, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		sdr = &egts.ServiceDataSet{}
+	}
+
+	for _, rec := range *sdr {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From 1ef6fd4c7cd9fc52e224fb5dd4f400ba941d5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:50 +0000
Subject: [PATCH 26/35] fix: packet-gen sends southern and western positions

---
 cli/packet-gen/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index e3feaed..0f817f6 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -83,6 +84,14 @@ func main() {
 		os.Exit(1)
 	}
 
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lahs = "1"
+	}
+	if lon < 0 {
+		lohs = "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -114,11 +123,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From 731f49af857fed21ec8709e5f1d5bae91da869bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:50 +0000
Subject: [PATCH 27/35] fix: packet-gen reads the whole ack when it arrives in
 pieces

---
 cli/packet-gen/main.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 0f817f6..b9e4850 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"io"
 	"math"
 	"net"
 	"os"
@@ -183,10 +185,10 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
+	ackBuf := make([]byte, math.MaxUint16)
 
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackLen, err := readPacket(conn, ackBuf)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
@@ -236,3 +238,23 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// readPacket reads one whole egts packet, however the network splits it.
+func readPacket(r io.Reader, buf []byte) (int, error) {
+	const headerLen = 10
+
+	if _, err := io.ReadFull(r, buf[:headerLen]); err != nil {
+		return 0, err
+	}
+
+	size := int(buf[3])
+	if bodyLen := int(binary.LittleEndian.Uint16(buf[5:7])); bodyLen > 0 {
+		size += bodyLen + 2
+	}
+	if size < headerLen || size > len(buf) {
+		return 0, fmt.Errorf("incorrect packet size %d", size)
+	}
+
+	_, err := io.ReadFull(r, buf[headerLen:size])
+	return size, err
+}
-- 
2.43.0


From 35fb7f5c73ef097a5ac7a8fbf7d1772ad63fa3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 28/35] fix: set the connection time to live under its real
 name in the sample config

---
 README.md             | 2 +-
 configs/receiver.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 3fff48c..bb70f73 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From 47948e1909fa699beba79068cf978ecb180b56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 29/35] fix: leave the accept loop when the receiver is stopped

---
 cli/receiver/server/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index cc207dd..5e4d1c3 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
 	log "github.com/sirupsen/logrus"
@@ -35,7 +36,10 @@ func (s *Server) Run() {
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := s.l.Accept()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
+			log.Info("Сервер остановлен")
+			return
+		} else if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
 			go s.handleConn(conn)
-- 
2.43.0


From 5839cbcd141481e1503e427cb15a92f1e64d0900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 30/35] fix: quote the postgresql connection parameters

---
 cli/receiver/storage/store/postgresql/connector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..057e6bb 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -35,7 +36,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quote(c.config["database"]), quote(c.config["host"]), quote(c.config["port"]), quote(c.config["user"]), quote(c.config["password"]), quote(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
@@ -46,6 +47,11 @@ func (c *Connector) Init(cfg map[string]string) error {
 	return err
 }
 
+// quote экранирует значение параметра строки подключения
+func quote(v string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(v) + "'"
+}
+
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
-- 
2.43.0


From ae586693dda52df3538868aed8a66cec36bbc62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:16 +0000
Subject: [PATCH 31/35] fix: escape the rabbitmq user and password in the
 connection address

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..eb663f7 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,7 +34,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From da4b5a8e3eafe466b7414251c160a71d3bf1897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:15 +0000
Subject: [PATCH 32/35] fix: compute the header length of every encoded packet

---
 libs/egts/egts_pkg.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index b25241a..4d970b3 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -212,11 +212,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать флаги: %v", err)
 	}
 
-	if p.HeaderLength == 0 {
-		p.HeaderLength = DEFAULT_HEADER_LEN
-		if p.Route == "1" {
-			p.HeaderLength += 5
-		}
+	p.HeaderLength = DEFAULT_HEADER_LEN
+	if p.Route == "1" {
+		p.HeaderLength += 5
 	}
 
 	if err = buf.WriteByte(p.HeaderLength); err != nil {
-- 
2.43.0


From 7c67d9e08301a9d259403c95d63ced31abd85c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 33/35] fix: answer data packets that carry record
 confirmations

---
 cli/receiver/server/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 5e4d1c3..6b86836 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -190,7 +190,6 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
 					case *egts.SrPosData:
 						log.Debugf("Разбор подзаписи EGTS_SR_POS_DATA")
 						isPkgSave = true
-- 
2.43.0


From 57840d4b7065170463936aeb0046655e8d22803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 34/35] fix: attribute positions to the object identifier of
 their own record

---
 cli/receiver/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 6b86836..387858f 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -295,6 +295,10 @@ func (s *Server) handleConn(conn net.Conn) {
 				}
 
 				exportPacket.Client = client
+				// собственный oid записи важнее идентификатора терминала
+				if rec.ObjectIDFieldExists == "1" {
+					exportPacket.Client = rec.ObjectIdentifier
+				}
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
 						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
-- 
2.43.0


From 6b86630f2537dd62b08faa6b862a8d9810bc055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 35/35] fix: refuse to encode data, records and subrecords
 longer than their length fields

---
 libs/egts/egts_pkg.go             | 4 ++++
 libs/egts/record_data.go          | 4 ++++
 libs/egts/service_data_records.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 4d970b3..4038210 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -242,6 +243,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 			}
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Размер секции данных больше допустимого: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index f346772..6cf605f 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -157,6 +158,9 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 		if err != nil {
 			return result, err
 		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("размер подзаписи больше допустимого: %d", len(srd))
+		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 9c4079a..6877926 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 )
@@ -137,6 +138,9 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 		if err != nil {
 			return result, err
 		}
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("размер записи SDR больше допустимого: %d", len(rd))
+		}
 
 		if sdr.RecordLength == 0 {
 			sdr.RecordLength = uint16(len(rd))
-- 
2.43.0

