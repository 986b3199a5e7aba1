// Package nats stands in for github.com/nats-io/nats.go: it records what the
// store asks of the server and answers as the harness decides.
package nats

import (
	"errors"
	"time"
)

type VerifMsg struct {
	Subject string
	Data    []byte
	On      *Conn
}

// The server's side, set and read by the harness.
var (
	VerifConnectErr, VerifPublishErr error
	VerifConns                       []*Conn
	VerifMsgs                        []VerifMsg
	VerifClosed                      int
)

const DefaultURL = "nats://127.0.0.1:4222"

var ErrConnectionClosed = errors.New("nats: connection closed")

type Header map[string][]string

type Msg struct {
	Subject string
	Reply   string
	Header  Header
	Data    []byte
}

type Options struct {
	Url           string
	Name          string
	User          string
	Password      string
	Token         string
	MaxReconnect  int
	ReconnectWait time.Duration
	Timeout       time.Duration
}

type Option func(*Options) error

type Conn struct {
	Opts   Options
	URL    string
	closed bool
}

// VerifQuiet: messages are taken without a note of them.
var VerifQuiet bool

func GetDefaultOptions() Options { return Options{MaxReconnect: 60, Timeout: 2 * time.Second} }

func Name(name string) Option { return func(o *Options) error { o.Name = name; return nil } }
func UserInfo(user, password string) Option {
	return func(o *Options) error { o.User, o.Password = user, password; return nil }
}
func Token(t string) Option { return func(o *Options) error { o.Token = t; return nil } }
func MaxReconnects(max int) Option {
	return func(o *Options) error { o.MaxReconnect = max; return nil }
}
func Timeout(t time.Duration) Option { return func(o *Options) error { o.Timeout = t; return nil } }
func ReconnectWait(t time.Duration) Option {
	return func(o *Options) error { o.ReconnectWait = t; return nil }
}

func Connect(url string, options ...Option) (*Conn, error) {
	c := &Conn{Opts: GetDefaultOptions(), URL: url}
	for _, o := range options {
		if o != nil {
			if err := o(&c.Opts); err != nil {
				return nil, err
			}
		}
	}
	if !VerifQuiet {
		VerifConns = append(VerifConns, c)
	}
	if VerifConnectErr != nil {
		return nil, VerifConnectErr
	}
	return c, nil
}

func (c *Conn) Publish(subj string, data []byte) error {
	if VerifQuiet {
		return VerifPublishErr
	}
	VerifMsgs = append(VerifMsgs, VerifMsg{subj, data, c})
	return VerifPublishErr
}

func RetryOnFailedConnect(retry bool) Option { return func(o *Options) error { return nil } }
func PingInterval(t time.Duration) Option    { return func(o *Options) error { return nil } }
func NoEcho() Option                         { return func(o *Options) error { return nil } }

type (
	ConnHandler    func(*Conn)
	ConnErrHandler func(*Conn, error)
)

func DisconnectErrHandler(cb ConnErrHandler) Option { return func(o *Options) error { return nil } }
func ReconnectHandler(cb ConnHandler) Option        { return func(o *Options) error { return nil } }
func ClosedHandler(cb ConnHandler) Option           { return func(o *Options) error { return nil } }

func NewMsg(subject string) *Msg { return &Msg{Subject: subject, Header: Header{}} }

func (o Options) Connect() (*Conn, error) {
	u := o.Url
	return Connect(u, func(p *Options) error { *p = o; return nil })
}

func (c *Conn) PublishMsg(m *Msg) error                    { return c.Publish(m.Subject, m.Data) }
func (c *Conn) PublishRequest(s, r string, d []byte) error { return c.Publish(s, d) }
func (c *Conn) Flush() error                               { return nil }
func (c *Conn) FlushTimeout(time.Duration) error           { return nil }
func (c *Conn) Drain() error                               { c.Close(); return nil }
func (c *Conn) LastError() error                           { return nil }
func (c *Conn) IsClosed() bool                             { return c.closed }
func (c *Conn) IsConnected() bool                          { return !c.closed }

func (c *Conn) Close() {
	c.closed = true
	VerifClosed++
}
