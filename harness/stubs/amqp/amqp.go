// Package amqp stands in for github.com/streadway/amqp: it records what the
// store asks of the broker and answers as the harness decides.
package amqp

import "time"

type VerifPub struct {
	Exchange, Key        string
	Mandatory, Immediate bool
	Msg                  Publishing
	OnURL                string
}

// The broker's side, set and read by the harness.
var (
	VerifDialErr, VerifChannelErr, VerifPublishErr error
	VerifDials                                     []string
	VerifPubs                                      []VerifPub
	VerifChannels, VerifClosed                     int
)

type Table map[string]interface{}

type Publishing struct {
	Headers         Table
	ContentType     string
	ContentEncoding string
	DeliveryMode    uint8
	Priority        uint8
	CorrelationId   string
	ReplyTo         string
	Expiration      string
	MessageId       string
	Timestamp       time.Time
	Type            string
	UserId          string
	AppId           string
	Body            []byte
}

const (
	Transient  uint8 = 1
	Persistent uint8 = 2
)

const (
	ExchangeDirect  = "direct"
	ExchangeFanout  = "fanout"
	ExchangeTopic   = "topic"
	ExchangeHeaders = "headers"
)

type Config struct {
	Vhost      string
	ChannelMax int
	FrameSize  int
	Heartbeat  time.Duration
	Properties Table
	Locale     string
}

type Error struct {
	Code    int
	Reason  string
	Server  bool
	Recover bool
}

func (e Error) Error() string { return e.Reason }

type Queue struct {
	Name                string
	Messages, Consumers int
}

type Connection struct {
	url    string
	closed bool
}

type Channel struct {
	c      *Connection
	closed bool
}

// VerifQuiet: messages are taken without a note of them.
var VerifQuiet bool

func Dial(url string) (*Connection, error) {
	if !VerifQuiet {
		VerifDials = append(VerifDials, url)
	}
	if VerifDialErr != nil {
		return nil, VerifDialErr
	}
	return &Connection{url: url}, nil
}

func DialConfig(url string, config Config) (*Connection, error) { return Dial(url) }

func (c *Connection) Channel() (*Channel, error) {
	if VerifChannelErr != nil {
		return nil, VerifChannelErr
	}
	if !VerifQuiet {
		VerifChannels++
	}
	return &Channel{c: c}, nil
}

func (c *Connection) IsClosed() bool { return c.closed }

func (c *Connection) NotifyClose(r chan *Error) chan *Error { return r }

func (c *Connection) Close() error {
	c.closed = true
	VerifClosed++
	return nil
}

func (ch *Channel) Publish(exchange, key string, mandatory, immediate bool, msg Publishing) error {
	if VerifQuiet {
		return VerifPublishErr
	}
	VerifPubs = append(VerifPubs, VerifPub{exchange, key, mandatory, immediate, msg, ch.c.url})
	return VerifPublishErr
}

func (ch *Channel) ExchangeDeclare(name, kind string, durable, autoDelete, internal, noWait bool, args Table) error {
	return nil
}

func (ch *Channel) QueueDeclare(name string, durable, autoDelete, exclusive, noWait bool, args Table) (Queue, error) {
	return Queue{Name: name}, nil
}

func (ch *Channel) QueueBind(name, key, exchange string, noWait bool, args Table) error { return nil }

// Return is a message sent back, Confirmation the broker's word on one.
type (
	Return struct {
		ReplyCode  uint16
		ReplyText  string
		Exchange   string
		RoutingKey string
		Body       []byte
	}
	Confirmation struct {
		DeliveryTag uint64
		Ack         bool
	}
)

var ErrClosed = &Error{Code: 504, Reason: "channel/connection is not open"}

func (ch *Channel) NotifyClose(r chan *Error) chan *Error                  { return r }
func (ch *Channel) NotifyReturn(r chan Return) chan Return                 { return r }
func (ch *Channel) NotifyPublish(r chan Confirmation) chan Confirmation    { return r }
func (ch *Channel) Qos(prefetchCount, prefetchSize int, global bool) error { return nil }
func (ch *Channel) ExchangeDeclarePassive(name, kind string, durable, autoDelete, internal, noWait bool, args Table) error {
	return nil
}

func (ch *Channel) Confirm(noWait bool) error { return nil }

func (ch *Channel) Close() error {
	ch.closed = true
	VerifClosed++
	return nil
}
