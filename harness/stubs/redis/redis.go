// Package redis stands in for github.com/go-redis/redis/v8: it records what
// the store asks of the server and answers as the harness decides.
package redis

import (
	"context"
	"errors"
	"time"
)

type VerifPub struct {
	Channel string
	Message interface{}
	On      *Options
}

// The server's side, set and read by the harness.
var (
	VerifPublishErr error
	VerifOpts       []*Options
	VerifPubs       []VerifPub
	VerifClosed     int
)

const Nil = RedisError("redis: nil")

type RedisError string

// VerifQuiet: messages are taken without a note of them.
var VerifQuiet bool

func (e RedisError) Error() string { return string(e) }

var ErrClosed = errors.New("redis: client is closed")

type Options struct {
	Network      string
	Addr         string
	Username     string
	Password     string
	DB           int
	MaxRetries   int
	DialTimeout  time.Duration
	ReadTimeout  time.Duration
	WriteTimeout time.Duration
	PoolTimeout  time.Duration
	IdleTimeout  time.Duration
	MaxConnAge   time.Duration
	PoolSize     int
	MinIdleConns int
}

type Client struct{ opt *Options }

type IntCmd struct {
	err error
	val int64
}

func (c *IntCmd) Err() error             { return c.err }
func (c *IntCmd) Val() int64             { return c.val }
func (c *IntCmd) Result() (int64, error) { return c.val, c.err }

type StatusCmd struct{ err error }

func (c *StatusCmd) Err() error              { return c.err }
func (c *StatusCmd) Val() string             { return "" }
func (c *StatusCmd) Result() (string, error) { return "", c.err }

func NewClient(o *Options) *Client {
	if !VerifQuiet {
		VerifOpts = append(VerifOpts, o)
	}
	return &Client{opt: o}
}

// Cmdable and UniversalClient are what clients provide.
type (
	Cmdable interface {
		Publish(ctx context.Context, channel string, message interface{}) *IntCmd
		Ping(ctx context.Context) *StatusCmd
	}
	UniversalClient interface {
		Cmdable
		Close() error
	}
)

func (c *IntCmd) String() string    { return "" }
func (c *StatusCmd) String() string { return "" }

func (c *Client) WithContext(ctx context.Context) *Client   { return c }
func (c *Client) WithTimeout(timeout time.Duration) *Client { return c }

func (c *Client) Options() *Options { return c.opt }

func (c *Client) Publish(ctx context.Context, channel string, message interface{}) *IntCmd {
	if VerifQuiet {
		return &IntCmd{err: VerifPublishErr}
	}
	VerifPubs = append(VerifPubs, VerifPub{channel, message, c.opt})
	return &IntCmd{err: VerifPublishErr}
}

func (c *Client) Ping(ctx context.Context) *StatusCmd { return &StatusCmd{} }

func (c *Client) Close() error {
	VerifClosed++
	return nil
}
