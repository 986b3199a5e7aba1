package main

import (
	"errors"
	"io"
	"time"

	redislib "github.com/go-redis/redis/v8"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/config"
	natslib "github.com/nats-io/nats.go"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
	"github.com/kuznetsovin/egts-protocol/verifswap/flag"
	"github.com/kuznetsovin/egts-protocol/verifswap/github.com/sirupsen/logrus"
	"github.com/kuznetsovin/egts-protocol/verifswap/gopkg.in/yaml.v2"
	"github.com/kuznetsovin/egts-protocol/verifswap/net"
	"github.com/kuznetsovin/egts-protocol/verifswap/os"
)

// vhMain runs the receiver until it leaves main (0) or exits.
func vhMain() (code int) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(os.VerifExit); ok {
				code = x.Code
				return
			}
			panic(r)
		}
	}()
	main()
	return 0
}

type vhAddr struct{}

func (vhAddr) Network() string { return "tcp" }
func (vhAddr) String() string  { return "192.0.2.1:1234" }

type vhConn struct {
	in       []byte
	pos, dls int
	out      []byte
	closed   bool
	reads    int
	rdl      time.Time
	ttl      time.Duration
	last     time.Time
}

func (c *vhConn) Read(p []byte) (int, error) {
	c.reads++
	if c.reads > 100 {
		sv.Unwind("the receiver keeps reading a connection that has nothing left")
	}
	if c.ttl > 0 {
		sv.Assert(c.dls > 0, "waiting for the peer without a read deadline")
		sv.Assert(!c.rdl.After(time.Now().Add(c.ttl)), "the read deadline is later than configured")
		if c.reads == 1 {
			sv.Assert(!c.rdl.Before(c.last.Add(c.ttl)), "the read deadline is earlier than configured")
		}
	}
	if c.pos >= len(c.in) {
		return 0, errors.New("connection reset by peer")
	}
	n := copy(p, c.in[c.pos:])
	c.pos += n
	return n, nil
}

func (c *vhConn) Write(p []byte) (int, error) {
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *vhConn) Close() error                       { c.closed = true; return nil }
func (c *vhConn) LocalAddr() net.Addr                { return vhAddr{} }
func (c *vhConn) RemoteAddr() net.Addr               { return vhAddr{} }
func (c *vhConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *vhConn) SetReadDeadline(t time.Time) error  { c.rdl = t; c.dls++; return nil }
func (c *vhConn) SetWriteDeadline(t time.Time) error { return nil }

func vhU16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }

func vh16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }

func vhCRC8(d []byte) byte {
	c := byte(0xFF)
	for i := 0; i < len(d); i++ {
		x := c ^ d[i]
		for k := 0; k < 8; k++ {
			top := x >> 7
			x <<= 1
			x ^= top | top<<4 | top<<5
		}
		c = x
	}
	return c
}

func vhCRC16(d []byte) uint16 {
	c := uint16(0xFFFF)
	for i := 0; i < len(d); i++ {
		c ^= uint16(d[i]) << 8
		for k := 0; k < 8; k++ {
			top := c >> 15
			c <<= 1
			c ^= top | top<<5 | top<<12
		}
	}
	return c
}

func vhFrame(pid uint16, pt byte, body []byte) []byte {
	h := []byte{1, 0, 0, 11, 0}
	h = vh16(vh16(h, uint16(len(body))), pid)
	h = append(h, pt)
	h = append(h, vhCRC8(h))
	h = append(h, body...)
	return vh16(h, vhCRC16(body))
}

// vhPacket is a packet with one position.
func vhPacket(pid, rn uint16, oid uint32) []byte {
	rd := append([]byte{16, 21, 0}, sv.Bytes("ntm", 4)...)
	rd = append(rd, 1, 2, 3, 0x50, 5, 6, 7, 0x40, 0x01, 100, 0, 50, 0, 0, 0, 0, 0)
	b := append(vh16(vh16(nil, uint16(len(rd))), rn), 0x01, byte(oid), byte(oid>>8), byte(oid>>16), byte(oid>>24), 2, 2)
	return vhFrame(pid, 1, append(b, rd...))
}

const (
	vhNone    = iota // no storage section
	vhBadName        // an unknown storage
	vhDown           // a storage that cannot be reached
	vhNats           // one
	vhRedis          // another one
	vhBoth           // both
	vhHalf           // one that works and one that cannot be reached
	vhStores
)

func vhStorage(k int) map[string]map[string]string {
	n := map[string]string{"servers": "nats://192.0.2.3", "topic": "points"}
	r := map[string]string{"server": "192.0.2.4:6379", "queue": "egts"}
	switch k {
	case vhBadName:
		return map[string]map[string]string{"oracle": r}
	case vhDown:
		natslib.VerifConnectErr = errors.New("refused")
		return map[string]map[string]string{"nats": n}
	case vhNats:
		return map[string]map[string]string{"nats": n}
	case vhRedis:
		return map[string]map[string]string{"redis": r}
	case vhBoth:
		return map[string]map[string]string{"redis": r, "nats": n}
	case vhHalf:
		natslib.VerifConnectErr = errors.New("refused")
		return map[string]map[string]string{"redis": r, "nats": n}
	}
	return nil
}

func vhDocs(x interface{}) [][]byte {
	var d []byte
	switch v := x.(type) {
	case []byte:
		d = v
	case string:
		d = []byte(v)
	}
	if len(d) > 0 && sv.JSONHas(d, "client") {
		return [][]byte{d}
	}
	return nil
}

// vhPrinted is every record that shows in the log.
func vhPrinted() (docs [][]byte) {
	for _, l := range logrus.VerifLines {
		if l.Level > logrus.VerifLevel {
			continue
		}
		for _, v := range l.Data {
			docs = append(docs, vhDocs(v)...)
		}
		for _, v := range l.Args {
			docs = append(docs, vhDocs(v)...)
		}
	}
	return docs
}

// VH_C30_start runs the receiver with a configuration and one terminal.
// Swap: cli/receiver/config cli/receiver/server cli/receiver/storage
// Bounds: every port of 1..3 characters, 4 log levels, times to live of 0..100000 s, 7 storage sections, one terminal with one packet with a position, every identifier and time
// Reach: served printed
// Budget: 300
func VH_C30_start() {
	flag.VerifStrs["c"] = "/etc/egts/receiver.yaml"
	os.VerifFiles["/etc/egts/receiver.yaml"] = []byte("the configuration")
	port := sv.Str("port", sv.Choose("port", 1, 3))
	lv := sv.Choose("level", 0, 3)
	ttl := int(sv.U32("ttl"))
	sv.Assume(ttl <= 100000)
	k := sv.Choose("stores", 0, vhStores-1)
	stores := vhStorage(k)
	yaml.VerifUnmarshal = func(in []byte, out interface{}) error {
		sv.Assert(string(in) == "the configuration", "another file is read")
		c, ok := out.(*config.Settings)
		sv.Assert(ok, "the configuration is not read into the settings")
		if ok {
			c.Host, c.Port, c.ConnTTl, c.Store = "192.0.2.9", port, ttl, stores
			c.LogLevel = []string{"ERROR", "WARN", "INFO", "DEBUG"}[lv]
		}
		return nil
	}
	pid, rn, oid := sv.U16("pid"), sv.U16("rn"), sv.U32("oid")
	c := &vhConn{in: vhPacket(pid, rn, oid), ttl: time.Duration(ttl) * time.Second}
	n := 0
	net.VerifAccept = func() (net.Conn, error) {
		n++
		if n == 1 {
			c.last = time.Now()
			return c, nil
		}
		if n > 4 {
			sv.Unwind("the receiver keeps accepting")
		}
		sv.Yield()
		net.VerifLClosed++
		return nil, net.VerifAcceptErr(net.ErrClosed)
	}
	sv.Deferred()
	vhMain()
	sv.Yield()
	ok := len(net.VerifListens) == 1
	sv.Assert(ok, "the receiver does not listen exactly once")
	if ok {
		sv.Assert(net.VerifListens[0] == "tcp 192.0.2.9:"+port, "the receiver listens elsewhere")
	}
	sv.Assert(logrus.VerifLevels > 0 && logrus.VerifLevel == []logrus.Level{logrus.ErrorLevel, logrus.WarnLevel, logrus.InfoLevel, logrus.DebugLevel}[lv], "the receiver logs at another level")
	sv.Assert(c.closed, "the connection is not closed")
	out := c.out
	sv.Assert(len(out) == 29, "the packet is not answered")
	if len(out) != 29 {
		return
	}
	sv.Assert(vhU16(out[11:]) == pid, "the response names another packet")
	sv.Assert(out[13] == 0, "the response has the wrong processing result")
	sv.Assert(vhU16(out[24:]) == rn, "the response confirms another record number")
	sv.Assert(out[26] == 0, "the record is not confirmed as stored")
	var docs [][]byte
	switch k {
	case vhNats:
		for _, m := range natslib.VerifMsgs {
			docs = append(docs, m.Data)
		}
	case vhRedis, vhBoth:
		for _, m := range redislib.VerifPubs {
			docs = append(docs, vhDocs(m.Message)...)
		}
		if k == vhBoth {
			sv.Assert(len(natslib.VerifMsgs) == 1, "the position does not reach every store")
		}
	default:
		docs = vhPrinted()
		if lv < 2 && len(docs) == 0 { // the log is not to show it
			return
		}
		sv.Reach("printed")
	}
	sv.Assert(len(docs) == 1, "the position is not delivered exactly once")
	for _, d := range docs {
		sv.Assert(sv.JSONU64(d, "client") == uint64(oid), "the position delivered has another terminal")
		sv.Assert(sv.JSONU64(d, "packet_id") == uint64(pid), "the position delivered has another packet identifier")
	}
	sv.Reach("served")
}

// VH_C30_refuse: without a readable configuration the receiver does not start.
// Swap: cli/receiver/config cli/receiver/server cli/receiver/storage
// Bounds: no -c option, a file that does not exist, a malformed file, an address that cannot be listened on
// Reach: refused
func VH_C30_refuse() {
	net.VerifAccept = func() (net.Conn, error) {
		sv.Assert(false, "the receiver starts without a configuration or address")
		return nil, io.EOF
	}
	os.VerifFiles["/etc/egts/receiver.yaml"] = []byte("the configuration")
	flag.VerifStrs["c"] = "/etc/egts/receiver.yaml"
	yaml.VerifUnmarshal = func(in []byte, out interface{}) error { return nil }
	k := sv.Choose("what", 0, 3)
	switch k {
	case 0:
		delete(flag.VerifStrs, "c")
	case 1:
		flag.VerifStrs["c"] = "/etc/egts/missing.yaml"
	case 2:
		yaml.VerifUnmarshal = func(in []byte, out interface{}) error {
			return errors.New("yaml: line 3: mapping values are not allowed")
		}
	default:
		net.VerifListenErr = errors.New("address already in use")
	}
	sv.Assert(vhMain() != 0, "a receiver that cannot start reports success")
	sv.Assert(k == 3 || len(net.VerifListens) == 0, "the receiver listens without a configuration")
	sv.Reach("refused")
}
