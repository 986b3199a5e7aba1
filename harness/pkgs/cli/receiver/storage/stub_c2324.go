package storage

import (
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/mysql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/nats"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/postgresql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/rabbitmq"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/redis"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/tarantool_queue"
	sv "github.com/kuznetsovin/egts-protocol/verifsv"

	"database/sql"

	redislib "github.com/go-redis/redis/v8"
	natslib "github.com/nats-io/nats.go"
	"github.com/streadway/amqp"
	"github.com/tarantool/go-tarantool"
	"github.com/tarantool/go-tarantool/queue"
)

const (
	vhRabbit = iota
	vhPG
	vhNats
	vhTnt
	vhRedis
	vhMySQL
	vhBackends
)

var vhNames = []string{"rabbitmq", "postgresql", "nats", "tarantool_queue", "redis", "mysql"}

func vhConnector(k int) Store {
	switch k {
	case vhRabbit:
		return &rabbitmq.Connector{}
	case vhPG:
		return &postgresql.Connector{}
	case vhNats:
		return &nats.Connector{}
	case vhTnt:
		return &tarantool_queue.Connector{}
	case vhRedis:
		return &redis.Connector{}
	}
	return &mysql.Connector{}
}

// vhOdd is the number of the configured name that is empty, vhField the number
// of the next name.
var vhOdd, vhField = -1, 0

// vhName is an arbitrary text of n lower-case letters.
func vhName(tag string, n int) string {
	if vhField == vhOdd {
		n = 0
	}
	vhField++
	s := sv.Str(tag, n)
	for i := 0; i < n; i++ {
		sv.Assume(s[i] >= 'a')
		sv.Assume(s[i] <= 'z')
	}
	return s
}

func vhConfig(k, n int) map[string]string {
	switch k {
	case vhRabbit:
		return map[string]string{"host": vhName("host", n), "port": "5672", "user": vhName("user", n), "password": vhName("password", n), "exchange": vhName("exchange", n), "key": vhName("key", n), "exchange_type": "topic"}
	case vhPG:
		return map[string]string{"host": vhName("host", n), "port": "5432", "user": vhName("user", n), "password": vhName("password", n), "database": vhName("database", n), "table": []string{"points", "t", "a.b_2"}[sv.Choose("table", 0, 2)], "sslmode": "disable"}
	case vhNats:
		m := map[string]string{"servers": vhName("servers", n), "topic": vhName("topic", n)}
		if sv.Choose("auth", 0, 1) == 1 {
			m["user"], m["password"] = vhName("user", n), vhName("password", n)
		}
		return m
	case vhTnt:
		return map[string]string{"host": vhName("host", n), "port": "3301", "user": vhName("user", n), "password": vhName("password", n), "queue": vhName("queue", n), "max_recons": []string{"0", "5"}[sv.Choose("mr", 0, 1)], "timeout": []string{"1", "30"}[sv.Choose("to", 0, 1)], "reconnect": []string{"1", "7"}[sv.Choose("rc", 0, 1)]}
	case vhRedis:
		m := map[string]string{"server": vhName("server", n), "queue": vhName("queue", n)}
		switch sv.Choose("db", 0, 2) {
		case 1:
			m["db"] = "0"
		case 2:
			m["db"] = "11"
		}
		if sv.Choose("auth", 0, 1) == 1 {
			m["password"] = vhName("password", n)
		}
		return m
	}
	return map[string]string{"uri": vhName("uri", n), "database": "receiver", "table": []string{"points", "t", "a.b_2"}[sv.Choose("table", 0, 2)]}
}

// vhAMQP reads an address of a broker as net/url does.
func vhAMQP(s string) (user, pw, host, vhost string) {
	if !strings.HasPrefix(s, "amqp://") {
		return "?", "?", "?", "?"
	}
	s = s[7:]
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			s, vhost = s[:i], s[i+1:]
			break
		}
	}
	at := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '@' {
			at = i
		}
	}
	if at < 0 {
		return "", "", s, vhost
	}
	user, host = s[:at], s[at+1:]
	for i := 0; i < len(user); i++ {
		if user[i] == ':' {
			user, pw = user[:i], user[i+1:]
			break
		}
	}
	return vhUnescape(user), vhUnescape(pw), host, vhost
}

func vhHex(c byte) byte {
	switch {
	case c >= '0' && c <= '9':
		return c - '0'
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10
	}
	return 0xFF
}

func vhUnescape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+2 >= len(s) || vhHex(s[i+1]) > 15 || vhHex(s[i+2]) > 15 {
				return "? malformed"
			}
			b = append(b, vhHex(s[i+1])<<4|vhHex(s[i+2]))
			i += 2
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}

func vhSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' }

// vhDSN reads a connection string as libpq and lib/pq do.
func vhDSN(s string) (map[string]string, bool) {
	m := map[string]string{}
	i := 0
	skip := func() bool {
		for i < len(s) && vhSpace(s[i]) {
			i++
		}
		return i < len(s)
	}
	for skip() {
		k := i
		for i < len(s) && !vhSpace(s[i]) && s[i] != '=' {
			i++
		}
		key := s[k:i]
		if !skip() || s[i] != '=' {
			return m, false
		}
		i++
		if !skip() {
			m[key] = ""
			break
		}
		var v []byte
		if s[i] != '\'' {
			for ; i < len(s) && !vhSpace(s[i]); i++ {
				if s[i] == '\\' {
					if i++; i >= len(s) {
						return m, false
					}
				}
				v = append(v, s[i])
			}
		} else {
			for i++; ; i++ {
				if i >= len(s) {
					return m, false
				}
				if s[i] == '\'' {
					i++
					break
				}
				if s[i] == '\\' {
					if i++; i >= len(s) {
						return m, false
					}
				}
				v = append(v, s[i])
			}
		}
		m[key] = string(v)
	}
	return m, true
}

// vhConnects: the connection was asked for with the configured parameters.
func vhConnects(k int, c map[string]string) {
	switch k {
	case vhRabbit:
		ok := len(amqp.VerifDials) == 1
		sv.Assert(ok, "not exactly one connection to the broker")
		if ok {
			user, pw, host, vhost := vhAMQP(amqp.VerifDials[0])
			sv.Assert(user == c["user"], "wrong user")
			sv.Assert(pw == c["password"], "wrong password")
			sv.Assert(host == c["host"]+":"+c["port"], "connection to another broker")
			sv.Assert(vhost == "", "connection to another virtual host")
		}
	case vhPG:
		ok := len(sql.VerifDBs) == 1
		sv.Assert(ok, "not exactly one database")
		if ok {
			d := sql.VerifDBs[0]
			sv.Assert(d.Driver == "postgres", "wrong database driver")
			f, ok := vhDSN(d.DSN)
			sv.Assert(ok, "malformed connection string")
			for _, p := range [][2]string{{"dbname", "database"}, {"host", "host"}, {"port", "port"}, {"user", "user"}, {"password", "password"}, {"sslmode", "sslmode"}} {
				sv.Assert(f[p[0]] == c[p[1]], "wrong connection parameter: "+p[0])
			}
		}
		sv.Assert(sql.VerifPings >= 1, "the database is not tried")
	case vhNats:
		ok := len(natslib.VerifConns) == 1
		sv.Assert(ok, "not exactly one connection to the bus")
		if ok {
			d := natslib.VerifConns[0]
			sv.Assert(d.URL == c["servers"], "connection to other servers")
			if _, has := c["user"]; has {
				sv.Assert(d.Opts.User == c["user"], "wrong user")
				sv.Assert(d.Opts.Password == c["password"], "wrong password")
			} else {
				sv.Assert(d.Opts.User == "" && d.Opts.Password == "", "credentials that are not configured")
			}
		}
	case vhTnt:
		ok := len(tarantool.VerifConns) == 1
		sv.Assert(ok, "not exactly one connection to the queue server")
		if ok {
			d := tarantool.VerifConns[0]
			sv.Assert(d.Addr == c["host"]+":"+c["port"], "connection to another server")
			sv.Assert(d.Opts.User == c["user"], "wrong user")
			sv.Assert(d.Opts.Pass == c["password"], "wrong password")
			sv.Assert(d.Opts.MaxReconnects == uint(vhNum(c["max_recons"])), "wrong number of reconnects")
			sv.Assert(d.Opts.Timeout == time.Duration(vhNum(c["timeout"]))*time.Second, "wrong timeout")
			sv.Assert(d.Opts.Reconnect == time.Duration(vhNum(c["reconnect"]))*time.Second, "wrong reconnect interval")
		}
	case vhRedis:
		ok := len(redislib.VerifOpts) == 1
		sv.Assert(ok, "not exactly one redis client")
		if ok {
			d := redislib.VerifOpts[0]
			sv.Assert(d.Addr == c["server"], "connection to another server")
			sv.Assert(d.Password == c["password"], "wrong password")
			sv.Assert(d.DB == vhNum(c["db"]), "wrong database")
		}
	default:
		ok := len(sql.VerifDBs) == 1
		sv.Assert(ok, "not exactly one database")
		if ok {
			d := sql.VerifDBs[0]
			sv.Assert(d.Driver == "mysql", "wrong database driver")
			sv.Assert(d.DSN == c["uri"], "connection to another database")
		}
		sv.Assert(sql.VerifPings >= 1, "the database is not tried")
	}
}

func vhNum(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// vhCount is the number of messages the backend was given.
func vhCount(k int) int {
	switch k {
	case vhRabbit:
		return len(amqp.VerifPubs)
	case vhNats:
		return len(natslib.VerifMsgs)
	case vhTnt:
		return len(queue.VerifPuts)
	case vhRedis:
		return len(redislib.VerifPubs)
	}
	n := 0
	d := "postgres"
	if k == vhMySQL {
		d = "mysql"
	}
	for _, e := range sql.VerifExecs {
		if e.On.Driver == d {
			n++
		}
	}
	return n
}

func vhPayload(x interface{}) []byte {
	switch v := x.(type) {
	case []byte:
		return v
	case string:
		return []byte(v)
	}
	sv.Assert(false, "the backend is given something other than the serialised record")
	return nil
}

// vhDelivered is message i as the backend was given it; where it went must be
// what is configured.
func vhDelivered(k, i int, c map[string]string) []byte {
	switch k {
	case vhRabbit:
		p := amqp.VerifPubs[i]
		sv.Assert(p.Exchange == c["exchange"], "published to another exchange")
		sv.Assert(p.Key == c["key"], "published with another key")
		return p.Msg.Body
	case vhNats:
		p := natslib.VerifMsgs[i]
		sv.Assert(p.Subject == c["topic"], "published to another topic")
		return p.Data
	case vhTnt:
		p := queue.VerifPuts[i]
		sv.Assert(p.Queue == c["queue"], "put into another queue")
		return vhPayload(p.Data)
	case vhRedis:
		p := redislib.VerifPubs[i]
		sv.Assert(p.Channel == c["queue"], "published to another queue")
		return vhPayload(p.Message)
	}
	d, ph := "postgres", "$1"
	if k == vhMySQL {
		d, ph = "mysql", "?"
	}
	for _, e := range sql.VerifExecs {
		if e.On.Driver != d {
			continue
		}
		if i > 0 {
			i--
			continue
		}
		q := strings.NewReplacer("(", " ( ", ")", " ) ", ";", " ").Replace(e.Query)
		w := strings.Fields(q)
		want := []string{"insert", "into", c["table"], "(", "point", ")", "values", "(", ph, ")"}
		ok := len(w) == len(want)
		if ok {
			for j := range w {
				if strings.ToLower(w[j]) != want[j] {
					ok = false
				}
			}
		}
		sv.Assert(ok, "the statement does not insert one point into the configured table")
		sv.Assert(len(e.Args) == 1, "the statement has the wrong number of values")
		if len(e.Args) != 1 {
			return nil
		}
		return vhPayload(e.Args[0])
	}
	return nil
}

func vhFailSave(k int, err error) {
	switch k {
	case vhRabbit:
		amqp.VerifPublishErr = err
	case vhNats:
		natslib.VerifPublishErr = err
	case vhTnt:
		queue.VerifPutErr = err
	case vhRedis:
		redislib.VerifPublishErr = err
	default:
		sql.VerifExecErr = err
	}
}

// VH_C23_save delivers messages to each backend.
// Bounds: 6 backends, configured names of 1..3 arbitrary letters of which one or none is empty, 1..2 messages of 0..3 arbitrary bytes, each save failing or not in the backend
// Reach: delivered failed
func VH_C23_save() {
	k := sv.Choose("k", 0, vhBackends-1)
	n := sv.Choose("n", 1, 3)
	vhOdd = -1
	if n == 2 || sv.Thorough() {
		vhOdd = sv.Choose("empty", -1, 6)
	}
	c := vhConfig(k, n)
	if vhOdd >= vhField {
		return
	}
	s := vhConnector(k)
	err := s.Init(c)
	sv.Assert(err == nil, "a complete configuration is refused")
	if err != nil {
		return
	}
	vhConnects(k, c)
	for i := sv.Choose("msgs", 1, 2); i > 0; i-- {
		m := &vhRaw{b: sv.Bytes("m", sv.Choose("len", 0, 3))}
		want := append([]byte{}, m.b...)
		bad := sv.Choose("fail", 0, 1) == 1
		vhFailSave(k, nil)
		if bad {
			vhFailSave(k, errVhB)
		}
		before := vhCount(k)
		err := s.Save(m)
		sv.Assert((err != nil) == bad, "the outcome of a save does not match the backend's")
		n := vhCount(k)
		if bad {
			sv.Reach("failed")
			continue
		}
		sv.Assert(n == before+1, "a message is not delivered exactly once")
		if n == before+1 {
			sv.Assert(vhSame(vhDelivered(k, before, c), want), "the backend is given other bytes")
			sv.Reach("delivered")
		}
	}
}

// VH_C23_secret: users and passwords may contain any printable character.
// Bounds: 6 backends, user and password (mysql: the uri) of 1..2 (thorough: 1..3) arbitrary printable characters, one message of 2 arbitrary bytes
// Reach: delivered
// Budget: 300
func VH_C23_secret() {
	k := sv.Choose("k", 0, vhBackends-1)
	m := 2
	if sv.Thorough() {
		m = 3
	}
	c := vhPlain(k)
	text := func(tag string, n int) string {
		s := sv.Str(tag, n)
		for i := 0; i < n; i++ {
			sv.Assume(s[i] >= 0x20)
			sv.Assume(s[i] <= 0x7E)
		}
		return s
	}
	n := sv.Choose("n", 1, m)
	switch k {
	case vhMySQL:
		c["uri"] = text("uri", n)
	case vhRedis:
		c["password"] = text("password", n)
	default:
		if sv.Choose("which", 0, 1) == 1 {
			c["user"], c["password"] = text("user", n), "p"
		} else {
			c["user"], c["password"] = "u", text("password", n)
		}
	}
	s := vhConnector(k)
	err := s.Init(c)
	sv.Assert(err == nil, "a complete configuration is refused")
	if err != nil {
		return
	}
	vhConnects(k, c)
	msg := &vhRaw{b: sv.Bytes("m", 2)}
	sv.Assert(s.Save(msg) == nil, "the outcome of a save does not match the backend's")
	ok := vhCount(k) == 1
	sv.Assert(ok, "a message is not delivered exactly once")
	if ok {
		sv.Assert(vhSame(vhDelivered(k, 0, c), msg.b), "the backend is given other bytes")
		sv.Reach("delivered")
	}
}

// VH_C23_parallel delivers two messages to each backend in two goroutines.
// Bounds: 6 backends, after 0..1 messages delivered before, messages of 1..2 and 3 arbitrary bytes, the backend failing or not; no access of one save to the connector or to a package-level variable may conflict with one of the other
// Reach: done
func VH_C23_parallel() {
	k := sv.Choose("k", 0, vhBackends-1)
	s := vhConnector(k)
	if s.Init(vhPlain(k)) != nil {
		return
	}
	amqp.VerifQuiet, sql.VerifQuiet, natslib.VerifQuiet, queue.VerifQuiet, redislib.VerifQuiet = true, true, true, true, true
	if sv.Choose("before", 0, 1) == 1 {
		s.Save(&vhRaw{b: sv.Bytes("c", 2)})
	}
	if sv.Choose("fail", 0, 1) == 1 {
		vhFailSave(k, errVhB)
	}
	a, b := &vhRaw{b: sv.Bytes("a", sv.Choose("len", 1, 2))}, &vhRaw{b: sv.Bytes("b", 3)}
	sv.Parallel(func() { s.Save(a) }, func() { s.Save(b) }, s)
	sv.Reach("done")
}

// VH_C23_long delivers many messages while the backend keeps failing.
// Bounds: 6 backends, 30 messages (thorough: 200) of 2 arbitrary bytes, the backend failing for the first 10 of every 12 or for none
// Reach: delivered failed
func VH_C23_long() {
	k := sv.Choose("k", 0, vhBackends-1)
	c := vhPlain(k)
	s := vhConnector(k)
	if s.Init(c) != nil {
		return
	}
	m := 30
	if sv.Thorough() {
		m = 200
	}
	mode := sv.Choose("fail", 0, 1)
	for i := 0; i < m; i++ {
		msg := &vhRaw{b: sv.Bytes("m", 2)}
		bad := mode == 1 && i%12 < 10
		vhFailSave(k, nil)
		if bad {
			vhFailSave(k, errVhB)
		}
		before := vhCount(k)
		err := s.Save(msg)
		sv.Assert((err != nil) == bad, "the outcome of a save does not match the backend's")
		if bad {
			sv.Reach("failed")
			continue
		}
		ok := vhCount(k) == before+1
		sv.Assert(ok, "a message is not delivered exactly once")
		if !ok {
			return
		}
		sv.Assert(vhSame(vhDelivered(k, before, c), msg.b), "the backend is given other bytes")
		sv.Reach("delivered")
	}
}

// VH_C23_refuse: what cannot be serialised is reported and not sent.
// Bounds: 6 backends; no message, or a message whose serialisation fails
// Reach: refused
func VH_C23_refuse() {
	k := sv.Choose("k", 0, vhBackends-1)
	s := vhConnector(k)
	if s.Init(vhConfig(k, 1)) != nil {
		return
	}
	var err error
	if sv.Choose("nil", 0, 1) == 1 {
		err = s.Save(nil)
	} else {
		err = s.Save(&vhRaw{b: sv.Bytes("m", 2), err: errVhA})
	}
	sv.Assert(err != nil, "a message that cannot be serialised is not reported")
	sv.Assert(vhCount(k) == 0, "something is sent for a message that cannot be serialised")
	sv.Reach("refused")
}

// vhBreak makes the connection fail at one of its stages; it reports whether
// there is such a stage.
func vhBreak(k, stage int) bool {
	switch k {
	case vhRabbit:
		if stage == 0 {
			amqp.VerifDialErr = errVhA
		} else {
			amqp.VerifChannelErr = errVhA
		}
		return stage < 2
	case vhPG, vhMySQL:
		if stage == 0 {
			sql.VerifOpenErr = errVhA
		} else {
			sql.VerifPingErr = errVhA
		}
		return stage < 2
	case vhNats:
		natslib.VerifConnectErr = errVhA
		return stage < 1
	case vhTnt:
		tarantool.VerifConnectErr = errVhA
		return stage < 1
	}
	return false
}

// VH_C23_init: a connection that cannot be set up is reported.
// Bounds: 6 backends; no configuration, every failing stage of the connection, missing or malformed numbers and names
// Reach: reported
func VH_C23_init() {
	k := sv.Choose("k", 0, vhBackends-1)
	s := vhConnector(k)
	c := vhConfig(k, 1)
	switch sv.Choose("what", 0, 3) {
	case 0:
		c = nil
	case 1:
		if !vhBreak(k, sv.Choose("stage", 0, 1)) {
			return
		}
	case 2:
		switch k {
		case vhTnt:
			delete(c, []string{"max_recons", "timeout", "reconnect"}[sv.Choose("key", 0, 2)])
		case vhRedis:
			delete(c, []string{"server", "queue"}[sv.Choose("key", 0, 1)])
		default:
			return
		}
	default:
		x := sv.Str("junk", sv.Choose("n", 1, 2))
		sv.Assume(x[0] != '+')
		sv.Assume(x[0] != '-')
		sv.Assume(x[0] < '0' || x[0] > '9')
		switch k {
		case vhTnt:
			c[[]string{"max_recons", "timeout", "reconnect"}[sv.Choose("key", 0, 2)]] = x
		case vhRedis:
			c["db"] = x
		default:
			return
		}
	}
	sv.Assert(s.Init(c) != nil, "a connection that cannot be set up is not reported")
	sv.Reach("reported")
}

// VH_C24_load loads configured stores and saves a message through them.
// Bounds: every set of the 6 backends, all configured or one of two without parameters, every message of 2 bytes
// Reach: loaded
func VH_C24_load() {
	set := sv.Choose("set", 1, 63)
	bare := []int{-1, vhRabbit, vhNats}[sv.Choose("bare", 0, 2)]
	all := map[string]map[string]string{}
	cfg := map[int]map[string]string{}
	for k := 0; k < vhBackends; k++ {
		if set>>uint(k)&1 != 0 {
			cfg[k] = vhPlain(k)
			if k == bare {
				cfg[k] = map[string]string{}
			}
			all[vhNames[k]] = cfg[k]
		}
	}
	r := NewRepository()
	err := r.LoadStorages(all)
	sv.Assert(err == nil, "a correct set of stores is refused")
	if err != nil {
		return
	}
	m := &vhRaw{b: sv.Bytes("m", 2)}
	want := append([]byte{}, m.b...)
	sv.Assert(r.Save(m) == nil, "a save fails though every store accepts it")
	for k := 0; k < vhBackends; k++ {
		n := vhCount(k)
		if set>>uint(k)&1 == 0 {
			sv.Assert(n == 0, "a message goes to a store that is not configured")
			continue
		}
		if k != vhPG && k != vhMySQL || set>>vhPG&1 == 0 || set>>vhMySQL&1 == 0 {
			vhConnects(k, cfg[k])
		}
		sv.Assert(n == 1, "a message does not reach a configured store exactly once")
		if n == 1 {
			sv.Assert(vhSame(vhDelivered(k, 0, cfg[k]), want), "a store is given other bytes")
		}
	}
	sv.Reach("loaded")
}

// vhPlain is a fixed configuration.
func vhPlain(k int) map[string]string {
	switch k {
	case vhRabbit:
		return map[string]string{"host": "rh", "port": "5672", "user": "ru", "password": "rp", "exchange": "e", "key": "k"}
	case vhPG:
		return map[string]string{"host": "ph", "port": "5432", "user": "pu", "password": "pp", "database": "d", "table": "points", "sslmode": "disable"}
	case vhNats:
		return map[string]string{"servers": "s", "topic": "t"}
	case vhTnt:
		return map[string]string{"host": "th", "port": "3301", "user": "tu", "password": "tp", "queue": "q", "max_recons": "5", "timeout": "1", "reconnect": "1"}
	case vhRedis:
		return map[string]string{"server": "s", "queue": "rq"}
	}
	return map[string]string{"uri": "x", "table": "mypoints"}
}

// VH_C24_refuse: an empty set, an unknown name or a store that cannot be set
// up is reported.
// Bounds: no stores; an arbitrary unknown name of 1..5 letters alone or beside any one backend; any one backend failing alone or beside another
// Reach: reported
func VH_C24_refuse() {
	all := map[string]map[string]string{}
	failing := -1
	switch sv.Choose("what", 0, 3) {
	case 0:
		all = nil
	case 1:
	case 2:
		x := vhName("name", sv.Choose("n", 1, 5))
		for _, k := range vhNames {
			sv.Assume(x != k)
		}
		all[x] = map[string]string{"host": "h"}
		if k := sv.Choose("beside", 0, vhBackends); k < vhBackends {
			all[vhNames[k]] = vhPlain(k)
		}
	default:
		k := sv.Choose("k", 0, vhBackends-1)
		failing = k
		all[vhNames[k]] = vhPlain(k)
		if k == vhRedis {
			delete(all[vhNames[k]], "queue")
		} else {
			vhBreak(k, sv.Choose("stage", 0, 1))
		}
		o := sv.Choose("beside", 0, vhBackends)
		if o < vhBackends && o != k {
			all[vhNames[o]] = vhPlain(o)
		}
	}
	r := NewRepository()
	sv.Assert(r.LoadStorages(all) != nil, "a set of stores that cannot be used is not reported")
	_ = r.Save(&vhRaw{b: sv.Bytes("m", 2)})
	if failing >= 0 {
		sv.Assert(vhCount(failing) == 0, "a store that could not be set up is given a message")
	}
	sv.Reach("reported")
}
