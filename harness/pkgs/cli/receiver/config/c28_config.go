package config

import (
	"time"

	log "github.com/sirupsen/logrus"

	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// VH_C28_ttl: the time to live is given in seconds.
// Bounds: every value of 0..1e9 seconds
// Reach: done
func VH_C28_ttl() {
	n := int(sv.U32("ttl"))
	sv.Assume(n <= 1000000000)
	s := &Settings{ConnTTl: n}
	sv.Assert(s.GetEmptyConnTTL() == time.Duration(n)*time.Second, "the time to live is not the configured number of seconds")
	sv.Reach("done")
}

// VH_C28_address: the listening address is made of host and port.
// Bounds: every host of 0..6 bytes and port of 0..5 bytes
// Reach: done
func VH_C28_address() {
	h, p := sv.Str("host", sv.Choose("h", 0, 6)), sv.Str("port", sv.Choose("p", 0, 5))
	s := &Settings{Host: h, Port: p}
	sv.Assert(s.GetListenAddress() == h+":"+p, "the listening address is not host and port")
	sv.Reach("done")
}

// VH_C28_level: the documented names of log levels mean these levels and any
// other text the default one.
// Bounds: every text of 0..6 bytes
// Reach: done
func VH_C28_level() {
	x := sv.Str("level", sv.Choose("n", 0, 6))
	want := log.InfoLevel
	switch x {
	case "DEBUG":
		want = log.DebugLevel
	case "WARN":
		want = log.WarnLevel
	case "ERROR":
		want = log.ErrorLevel
	}
	s := &Settings{LogLevel: x}
	sv.Assert(s.GetLogLevel() == want, "wrong log level")
	sv.Reach("done")
}
