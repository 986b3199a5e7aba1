// Package net stands in for the standard library's in command-line tools run
// by a harness: the harness plays the peer.
package net

import (
	"context"
	real "net"
	"time"
)

type (
	Addr    = real.Addr
	Conn    = real.Conn
	Error   = real.Error
	TCPAddr = real.TCPAddr
	IP      = real.IP
	OpError = real.OpError

	Listener = real.Listener
	IPMask   = real.IPMask
	IPAddr   = real.IPAddr
	UDPAddr  = real.UDPAddr

	AddrError = real.AddrError
	DNSError  = real.DNSError
)

var (
	ErrClosed = real.ErrClosed
	IPv4zero  = real.IPv4zero
)

func ParseIP(s string) IP                             { return real.ParseIP(s) }
func IPv4(a, b, c, d byte) IP                         { return real.IPv4(a, b, c, d) }
func LookupHost(host string) ([]string, error)        { return []string{"192.0.2.1"}, nil }
func LookupPort(network, service string) (int, error) { return real.LookupPort(network, service) }
func Pipe() (Conn, Conn)                              { return real.Pipe() }

// VerifOp is one operation on the connection.
type VerifOp struct {
	What string // dial, write, read, close
	Addr string
	Data []byte
}

// The peer's side, set and read by the harness.
var (
	VerifResolveErr, VerifDialErr, VerifWriteErr error
	VerifIn                                      []byte // what the peer answers
	VerifPieces                                  []int  // greatest sizes of successive reads
	VerifEnd                                     error  // what reads report afterwards
	VerifOps                                     []VerifOp
	VerifDeadline                                time.Time
	VerifHook                                    func(c *TCPConn, op string)
)

// TCPConn is a connection to the peer.
type TCPConn struct {
	pos, reads int
	Closed     bool
}

type verifAddr struct{}

func (verifAddr) Network() string { return "tcp" }
func (verifAddr) String() string  { return "192.0.2.1:5555" }

type verifTimeout struct{}

func (verifTimeout) Error() string   { return "i/o timeout" }
func (verifTimeout) Timeout() bool   { return true }
func (verifTimeout) Temporary() bool { return true }

// VerifTimeout is the error of a read after its deadline.
var VerifTimeout error = verifTimeout{}

var verifLast string

func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	if VerifResolveErr != nil {
		return nil, VerifResolveErr
	}
	verifLast = address
	return &TCPAddr{Port: 5555}, nil
}

func dial(address string) (*TCPConn, error) {
	VerifOps = append(VerifOps, VerifOp{What: "dial", Addr: address})
	if VerifResolveErr != nil {
		return nil, VerifResolveErr
	}
	if VerifDialErr != nil {
		return nil, VerifDialErr
	}
	return &TCPConn{}, nil
}

func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) { return dial(verifLast) }

func Dial(network, address string) (Conn, error) {
	c, err := dial(address)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, timeout time.Duration) (Conn, error) {
	return Dial(network, address)
}

// Dialer dials.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return Dial(network, address) }
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	return Dial(network, address)
}

func JoinHostPort(host, port string) string { return real.JoinHostPort(host, port) }
func SplitHostPort(hp string) (host, port string, err error) {
	return real.SplitHostPort(hp)
}

func (c *TCPConn) Read(p []byte) (int, error) {
	if VerifHook != nil {
		VerifHook(c, "read")
	}
	if c.Closed {
		return 0, ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(VerifIn) - c.pos
	if n == 0 {
		return 0, VerifEnd
	}
	if n > len(p) {
		n = len(p)
	}
	if c.reads < len(VerifPieces) && n > VerifPieces[c.reads] {
		n = VerifPieces[c.reads]
	}
	c.reads++
	copy(p, VerifIn[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}

func (c *TCPConn) Write(p []byte) (int, error) {
	if VerifHook != nil {
		VerifHook(c, "write")
	}
	if c.Closed {
		return 0, ErrClosed
	}
	if VerifWriteErr != nil {
		return 0, VerifWriteErr
	}
	VerifOps = append(VerifOps, VerifOp{What: "write", Data: append([]byte{}, p...)})
	return len(p), nil
}

func (c *TCPConn) Close() error {
	c.Closed = true
	return nil
}

func (c *TCPConn) SetReadBuffer(n int) error              { return nil }
func (c *TCPConn) SetWriteBuffer(n int) error             { return nil }
func (c *TCPConn) CloseWrite() error                      { return nil }
func (c *TCPConn) CloseRead() error                       { return nil }
func (c *TCPConn) LocalAddr() Addr                        { return verifAddr{} }
func (c *TCPConn) RemoteAddr() Addr                       { return verifAddr{} }
func (c *TCPConn) SetDeadline(t time.Time) error          { return c.SetReadDeadline(t) }
func (c *TCPConn) SetReadDeadline(t time.Time) error      { VerifDeadline = t; return nil }
func (c *TCPConn) SetWriteDeadline(t time.Time) error     { return nil }
func (c *TCPConn) SetNoDelay(b bool) error                { return nil }
func (c *TCPConn) SetKeepAlive(b bool) error              { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetLinger(sec int) error                { return nil }

// The listening side, set and read by the harness.
var (
	VerifListens   []string // networks and addresses listened on
	VerifListenErr error
	VerifAccept    func() (Conn, error) // what the next Accept gives
	VerifLClosed   int
)

type verifListener struct{}

func (verifListener) Accept() (Conn, error) {
	if VerifLClosed > 0 {
		VerifAccept()
		return nil, VerifAcceptErr(ErrClosed)
	}
	return VerifAccept()
}

// VerifAcceptErr is the form accept reports errors in.
func VerifAcceptErr(err error) error {
	return &OpError{Op: "accept", Net: "tcp", Err: err}
}

func (verifListener) Close() error {
	VerifLClosed++
	if VerifLClosed > 1 {
		return ErrClosed
	}
	return nil
}

func (verifListener) Addr() Addr { return verifAddr{} }

// TCPListener listens.
type TCPListener struct{ verifListener }

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	if t, ok := c.(*TCPConn); ok {
		return t, nil
	}
	panic("verif: the harness's connection is not a TCPConn")
}
func (l *TCPListener) SetDeadline(t time.Time) error { return nil }

func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	VerifListens = append(VerifListens, network+" "+verifLast)
	if VerifListenErr != nil {
		return nil, VerifListenErr
	}
	return &TCPListener{}, nil
}

func Listen(network, address string) (Listener, error) {
	VerifListens = append(VerifListens, network+" "+address)
	if VerifListenErr != nil {
		return nil, VerifListenErr
	}
	return verifListener{}, nil
}

// ListenConfig listens.
type ListenConfig struct {
	KeepAlive time.Duration
}

func (*ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}
