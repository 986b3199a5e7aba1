// Package tarantool stands in for github.com/tarantool/go-tarantool: it
// records what the store asks of the server and answers as the harness decides.
package tarantool

import "time"

// The server's side, set and read by the harness.
var (
	VerifConnectErr error
	VerifConns      []*Connection
	VerifClosed     int
)

type Opts struct {
	Timeout       time.Duration
	Reconnect     time.Duration
	MaxReconnects uint
	User          string
	Pass          string
	RateLimit     uint
	Concurrency   uint32
	SkipSchema    bool
}

type Connection struct {
	Addr string
	Opts Opts
}

func Connect(addr string, opts Opts) (*Connection, error) {
	c := &Connection{addr, opts}
	VerifConns = append(VerifConns, c)
	if VerifConnectErr != nil {
		return nil, VerifConnectErr
	}
	return c, nil
}

func (c *Connection) Close() error {
	VerifClosed++
	return nil
}

func (c *Connection) ClosedNow() bool    { return false }
func (c *Connection) ConnectedNow() bool { return true }
