package server

import (
	"errors"
	"io"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	sv "github.com/kuznetsovin/egts-protocol/verifsv"
	"github.com/kuznetsovin/egts-protocol/verifswap/net"
)

// VH_C29_accept runs the accept loop.
// Swap: cli/receiver/server
// Bounds: 0..4 accepts (thorough: 0..6), each giving a connection or failing, connections served at once or only when the next accept waits, then a stop; every value of the packets
// Reach: served stopped
// Budget: 300
func VH_C29_accept() {
	sv.Deferred()
	m := 4
	if sv.Thorough() {
		m = 6
	}
	st := &vhStore{}
	repo := storage.NewRepository()
	repo.AddStore(st)
	s := New("192.0.2.9:7001", vhTTL, repo)
	n := sv.Choose("n", 0, m)
	late := sv.Choose("late", 0, 1) == 1
	var conns []*vhConn
	var pids []uint16
	var rs []*vhSent
	k, after, acc := 0, 0, 0
	net.VerifAccept = func() (net.Conn, error) {
		acc = sv.GoID()
		if !late || k >= n {
			sv.Yield()
		}
		if net.VerifLClosed > 0 {
			after++
			if after > 3 {
				sv.Assert(false, "the receiver keeps running after it was stopped")
			}
			return nil, net.VerifAcceptErr(net.ErrClosed)
		}
		if k >= n {
			err := s.Stop()
			sv.Assert(err == nil, "stopping the receiver fails")
			sv.Assert(net.VerifLClosed > 0, "stopping the receiver does not stop it listening")
			if net.VerifLClosed == 0 {
				panic("not stopped")
			}
			sv.Reach("stopped")
			return nil, net.VerifAcceptErr(net.ErrClosed)
		}
		k++
		if sv.Choose("fails", 0, 1) == 1 {
			return nil, net.VerifAcceptErr(errors.New("too many open files"))
		}
		r := vhMkRec(vhKPosOID)
		pid := sv.U16("pid")
		c := &vhConn{end: io.EOF, in: vhFrame(pid, 1, r.bytes)}
		c.rhook = func() {
			sv.Assert(net.VerifLClosed > 0 || !sv.GoBusy(acc), "no other connection can be accepted while one is served")
		}
		conns, pids, rs = append(conns, c), append(pids, pid), append(rs, r)
		return c, nil
	}
	s.Run()
	sv.Yield()
	sv.Assert(k == n, "the receiver stops by itself")
	ok := len(net.VerifListens) == 1
	sv.Assert(ok, "the receiver does not listen exactly once")
	if ok {
		sv.Assert(net.VerifListens[0] == "tcp 192.0.2.9:7001", "the receiver listens elsewhere")
	}
	for i, c := range conns {
		out := vhAcked(c.bytes(), pids[i], []*vhSent{rs[i]})
		sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
		sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
		sv.Reach("served")
	}
	sv.Assert(len(st.docs) == len(conns), "not exactly the positions of the accepted connections are stored")
}

// VH_C29_failures serves connections between long runs of failing accepts.
// Bounds: 1..40 failing accepts (thorough: 1..300), a connection, as many failures again and a connection; every value of the packets
// Swap: cli/receiver/server
// Reach: served
// Budget: 300
func VH_C29_failures() {
	sv.Deferred()
	f := []int{1, 2, 3, 5, 8, 10, 16, 20, 32, 40, 64, 100, 128, 300}
	m := 9
	if sv.Thorough() {
		m = len(f) - 1
	}
	n := f[sv.Choose("n", 0, m)]
	st := &vhStore{}
	repo := storage.NewRepository()
	repo.AddStore(st)
	s := New("192.0.2.9:7001", vhTTL, repo)
	var conns []*vhConn
	var pids []uint16
	var rs []*vhSent
	k := 0
	errs := []error{errors.New("too many open files"), vhTimeout{}}
	e := errs[sv.Choose("err", 0, 1)]
	net.VerifAccept = func() (net.Conn, error) {
		sv.Yield()
		k++
		if k == n+1 || k == 2*n+2 {
			r := vhMkRec(vhKPosOID)
			pid := sv.U16("pid")
			c := &vhConn{end: io.EOF, in: vhFrame(pid, 1, r.bytes)}
			conns, pids, rs = append(conns, c), append(pids, pid), append(rs, r)
			return c, nil
		}
		if k <= 2*n+2 {
			return nil, net.VerifAcceptErr(e)
		}
		if k > 2*n+6 {
			sv.Assert(false, "the receiver keeps running after it was stopped")
		}
		_ = s.Stop()
		return nil, net.VerifAcceptErr(net.ErrClosed)
	}
	s.Run()
	sv.Yield()
	sv.Assert(len(conns) == 2, "the receiver stops by itself")
	for i, c := range conns {
		out := vhAcked(c.bytes(), pids[i], []*vhSent{rs[i]})
		sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
		sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
		sv.Reach("served")
	}
}

// VH_C29_idle: stopping a receiver that never ran does no harm.
// Bounds: one server
// Reach: stopped
func VH_C29_idle() {
	s := New("192.0.2.9:7001", vhTTL, storage.NewRepository())
	sv.Assert(s.Stop() == nil, "stopping the receiver fails")
	sv.Reach("stopped")
}

// VH_C29_many: many connections are open at once.
// Bounds: 1..150 connections (11 counts; thorough: up to 1100) accepted before any of them ends, all but the last sending nothing, the last a packet with every value
// Swap: cli/receiver/server
// Reach: served
// Budget: 300
func VH_C29_many() {
	sv.Deferred()
	f := []int{1, 2, 3, 5, 9, 11, 17, 33, 65, 101, 150, 257, 513, 1025, 1100}
	m := 10
	if sv.Thorough() {
		m = len(f) - 1
	}
	n := f[sv.Choose("n", 0, m)]
	st := &vhStore{}
	repo := storage.NewRepository()
	repo.AddStore(st)
	s := New("192.0.2.9:7001", vhTTL, repo)
	r := vhMkRec(vhKPosOID)
	pid := sv.U16("pid")
	last := &vhConn{end: io.EOF, in: vhFrame(pid, 1, r.bytes)}
	var conns []*vhConn
	k, acc := 0, 0
	net.VerifAccept = func() (net.Conn, error) {
		acc = sv.GoID()
		if k < n {
			k++
			c := last
			if k < n {
				c = &vhConn{end: io.EOF}
			}
			c.rhook = func() {
				sv.Assert(net.VerifLClosed > 0 || !sv.GoBusy(acc), "no other connection can be accepted while others are open")
			}
			conns = append(conns, c)
			return c, nil
		}
		sv.Yield()
		_ = s.Stop()
		if net.VerifLClosed == 0 {
			panic("not stopped")
		}
		return nil, net.VerifAcceptErr(net.ErrClosed)
	}
	s.Run()
	sv.Yield()
	sv.Assert(len(conns) == n, "the receiver stops by itself")
	for _, c := range conns {
		sv.Assert(c.closed > 0, "the connection is not closed when its handler returns")
		if c != last {
			sv.Assert(len(c.bytes()) == 0, "a connection without a packet is answered")
		}
	}
	out := vhAcked(last.bytes(), pid, []*vhSent{r})
	sv.Assert(len(out) == 0, "more is sent than the replies to the packets")
	sv.Assert(len(st.docs) == 1, "not exactly the position of the last connection is stored")
	sv.Reach("served")
}
