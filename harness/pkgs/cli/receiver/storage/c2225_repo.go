package storage

import (
	"errors"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

var (
	errVhA = errors.New("first")
	errVhB = errors.New("second")
)

// vhMem keeps what it is asked to save.
type vhMem struct {
	n    int
	fail []bool
	err  error
	got  [][]byte
	msgs []interface{ ToBytes() ([]byte, error) }
}

func (s *vhMem) Save(m interface{ ToBytes() ([]byte, error) }) error {
	k := s.n
	s.n++
	s.msgs = append(s.msgs, m)
	b, err := m.ToBytes()
	if err != nil {
		return err
	}
	s.got = append(s.got, b)
	if k < len(s.fail) && s.fail[k] {
		return s.err
	}
	return nil
}

// vhRaw is a message with given bytes.
type vhRaw struct {
	b   []byte
	err error
}

func (m *vhRaw) ToBytes() ([]byte, error) { return m.b, m.err }

func vhSame(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		if a[i] != b[i] {
			eq = false
		}
	}
	return eq
}

// VH_C22_fanout saves messages to several stores.
// Bounds: 0..3 stores (thorough: 0..4), 1..2 messages, every combination of failing saves, every message of 0..3 bytes
// Reach: saved failed
func VH_C22_fanout() {
	max := 3
	if sv.Thorough() {
		max = 4
	}
	r := NewRepository()
	n := sv.Choose("stores", 0, max)
	k := sv.Choose("msgs", 1, 2)
	var st []*vhMem
	for i := 0; i < n; i++ {
		s := &vhMem{err: errVhA}
		for j := 0; j < k; j++ {
			s.fail = append(s.fail, sv.Choose("fail", 0, 1) == 1)
		}
		st = append(st, s)
		r.AddStore(s)
	}
	var ms []*vhRaw
	for j := 0; j < k; j++ {
		m := &vhRaw{b: sv.Bytes("m", sv.Choose("len", 0, 3))}
		ms = append(ms, m)
		err := r.Save(m)
		bad := false
		for _, s := range st {
			if s.fail[j] {
				bad = true
			}
		}
		sv.Assert(!bad || err != nil, "a failing store goes unreported")
		sv.Assert(bad || err == nil, "an error without a failing store")
		if bad {
			sv.Reach("failed")
		}
		for _, s := range st {
			sv.Assert(len(s.got) == j+1, "a message does not reach every store exactly once")
			if len(s.got) != j+1 {
				return
			}
			sv.Assert(vhSame(s.got[j], m.b), "a store receives a different message")
		}
	}
	sv.Reach("saved")
}

// VH_C22_long saves many messages while stores keep failing.
// Bounds: 3 stores, 40 messages (thorough: 300) of 2 arbitrary bytes, each store failing always, never or every second or third time
// Reach: saved failed
func VH_C22_long() {
	k := 40
	if sv.Thorough() {
		k = 300
	}
	r := NewRepository()
	var st []*vhMem
	for i := 0; i < 3; i++ {
		s := &vhMem{err: errVhA}
		m := sv.Choose("fail", 0, 3)
		for j := 0; j < k; j++ {
			s.fail = append(s.fail, m > 0 && j%m == 0)
		}
		st = append(st, s)
		r.AddStore(s)
	}
	for j := 0; j < k; j++ {
		m := &vhRaw{b: sv.Bytes("m", 2)}
		err := r.Save(m)
		bad := false
		for _, s := range st {
			if s.fail[j] {
				bad = true
			}
			sv.Assert(len(s.got) == j+1, "a message does not reach every store exactly once")
			if len(s.got) != j+1 {
				return
			}
			sv.Assert(vhSame(s.got[j], m.b), "a store receives a different message")
		}
		sv.Assert((err != nil) == bad, "the outcome of a save does not match the stores'")
		if bad {
			sv.Reach("failed")
		}
	}
	sv.Reach("saved")
}

// VH_C25_record serialises a record.
// Bounds: every value of the fixed fields, 0..3 or 40 analog and 0..2 or 20 liquid sensors of every value
// Reach: done
func VH_C25_record() {
	r := &NavRecord{Client: sv.U32("client"), PacketID: sv.U32("pid"), NavigationTimestamp: sv.I64("nt"), ReceivedTimestamp: sv.I64("rt"),
		Latitude: float64(sv.U32("lat")) / 1024, Longitude: -float64(sv.U32("lon")) / 1024, Speed: sv.U16("speed"), Pdop: sv.U16("pdop"),
		Hdop: sv.U16("hdop"), Vdop: sv.U16("vdop"), Nsat: sv.Byte("nsat"), Ns: sv.U16("ns")}
	course := sv.U16("course")
	sv.Assume(course < 360)
	r.Course = vhCourse(course)
	na, nl := sv.Choose("na", 0, 4), sv.Choose("nl", 0, 3)
	if na == 4 {
		na = 40
	}
	if nl == 3 {
		nl = 20
	}
	for i := 0; i < na; i++ {
		r.AnSensors = append(r.AnSensors, AnSensor{SensorNumber: sv.Byte("an"), Value: sv.U32("av")})
	}
	for i := 0; i < nl; i++ {
		e := "0"
		if i > 1 {
			e = string(rune('0' + i%2))
		} else if sv.Choose("e", 0, 1) == 1 {
			e = "1"
		}
		r.LiquidSensors = append(r.LiquidSensors, LiquidSensor{SensorNumber: sv.Byte("ln"), ErrorFlag: e, ValueMm: sv.U32("mm"), ValueL: sv.U32("l")})
	}
	d, err := r.ToBytes()
	sv.Assert(err == nil, "a record cannot be serialised")
	if err != nil {
		return
	}
	sv.Reach("done")
	for _, p := range []string{"client", "packet_id", "navigation_unix_time", "received_unix_time", "latitude", "longitude", "speed", "pdop", "hdop", "vdop", "nsat", "ns", "course", "an_sensors", "liquid_sensors"} {
		sv.Assert(sv.JSONHas(d, p), "a field is missing: "+p)
	}
	sv.Assert(sv.JSONU64(d, "client") == uint64(r.Client), "client differs")
	sv.Assert(sv.JSONU64(d, "packet_id") == uint64(r.PacketID), "packet identifier differs")
	sv.Assert(sv.JSONI64(d, "navigation_unix_time") == r.NavigationTimestamp, "navigation time differs")
	sv.Assert(sv.JSONI64(d, "received_unix_time") == r.ReceivedTimestamp, "time of receipt differs")
	sv.Assert(sv.JSONF64(d, "latitude") == r.Latitude, "latitude differs")
	sv.Assert(sv.JSONF64(d, "longitude") == r.Longitude, "longitude differs")
	sv.Assert(sv.JSONU64(d, "speed") == uint64(r.Speed), "speed differs")
	sv.Assert(sv.JSONU64(d, "pdop") == uint64(r.Pdop), "pdop differs")
	sv.Assert(sv.JSONU64(d, "hdop") == uint64(r.Hdop), "hdop differs")
	sv.Assert(sv.JSONU64(d, "vdop") == uint64(r.Vdop), "vdop differs")
	sv.Assert(sv.JSONU64(d, "nsat") == uint64(r.Nsat), "number of satellites differs")
	sv.Assert(sv.JSONU64(d, "ns") == uint64(r.Ns), "navigation system differs")
	sv.Assert(sv.JSONU64(d, "course") == uint64(course), "course differs")
	sv.Assert(sv.JSONLen(d, "an_sensors") == na, "number of analog sensors differs")
	sv.Assert(sv.JSONLen(d, "liquid_sensors") == nl, "number of liquid sensors differs")
	for i, s := range r.AnSensors {
		p := "an_sensors." + vhIndex(i)
		sv.Assert(sv.JSONU64(d, p+".sensor_number") == uint64(s.SensorNumber), "analog sensor number differs")
		for _, q := range []string{".sensor_number", ".value"} {
			sv.Assert(sv.JSONHas(d, p+q), "a field is missing: "+p+q)
		}
		sv.Assert(sv.JSONU64(d, p+".value") == uint64(s.Value), "analog sensor value differs")
	}
	for i, s := range r.LiquidSensors {
		p := "liquid_sensors." + vhIndex(i)
		sv.Assert(sv.JSONU64(d, p+".sensor_number") == uint64(s.SensorNumber), "liquid sensor number differs")
		sv.Assert(sv.JSONStr(d, p+".error_flag") == s.ErrorFlag, "liquid sensor error flag differs")
		for _, q := range []string{".sensor_number", ".error_flag", ".value_mm", ".value_l"} {
			sv.Assert(sv.JSONHas(d, p+q), "a field is missing: "+p+q)
		}
		sv.Assert(sv.JSONU64(d, p+".value_mm") == uint64(s.ValueMm), "liquid level in mm differs")
		sv.Assert(sv.JSONU64(d, p+".value_l") == uint64(s.ValueL), "liquid level in litres differs")
	}
}

func vhIndex(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return string([]rune{rune('0' + i/10), rune('0' + i%10)})
}

func vhCourse(v uint16) uint16 { return v }

// vhSink keeps nothing, so that it orders nothing either.
type vhSink struct{ err error }

func (s *vhSink) Save(m interface{ ToBytes() ([]byte, error) }) error {
	if _, err := m.ToBytes(); err != nil {
		return err
	}
	return s.err
}

// VH_C22_parallel saves two messages in two goroutines.
// Bounds: 0..2 stores (thorough: 0..4), each failing or not; no access of one save to the repository or to a package-level variable may conflict with one of the other
// Reach: done
func VH_C22_parallel() {
	max := 2
	if sv.Thorough() {
		max = 4
	}
	r := NewRepository()
	for n := sv.Choose("stores", 0, max); n > 0; n-- {
		s := &vhSink{}
		if sv.Choose("fail", 0, 1) == 1 {
			s.err = errVhA
		}
		r.AddStore(s)
	}
	a, b := &vhRaw{b: sv.Bytes("a", 2)}, &vhRaw{b: sv.Bytes("b", 3)}
	if sv.Choose("bad", 0, 1) == 1 {
		b.err = errVhB
	}
	sv.Parallel(func() { r.Save(a) }, func() { r.Save(b) }, r)
	sv.Reach("done")
}
