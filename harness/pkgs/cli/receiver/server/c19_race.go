package server

import (
	"io"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	sv "github.com/kuznetsovin/egts-protocol/verifsv"
)

// vhSink keeps nothing, so that it orders nothing either.
type vhSink struct{}

func (vhSink) Save(m interface{ ToBytes() ([]byte, error) }) error {
	_, err := m.ToBytes()
	return err
}

// VH_C19_parallel serves two connections in two goroutines.
// Bounds: 2 connections with one packet of 2 records of 10 kinds each, every value; no access of one handler to a package-level variable or to what hangs off the server or its repository may conflict with one of the other
// Reach: done
// Budget: 300
func VH_C19_parallel() {
	repo := storage.NewRepository()
	repo.AddStore(vhSink{})
	srv := New("127.0.0.1:0", vhTTL, repo)
	mk := func(name string) func() {
		var body []byte
		body = append(body, vhMkRec(sv.Choose(name, 0, vhKinds-1)).bytes...)
		if sv.Thorough() {
			body = append(body, vhMkRec(sv.Choose(name, 0, vhKinds-1)).bytes...)
		} else {
			body = append(body, vhMkRec(vhKPos).bytes...)
		}
		c := &vhConn{in: vhFrame(sv.U16("pid"), 1, body), end: io.EOF}
		return func() { verifHandle(&srv, c) }
	}
	sv.Parallel(mk("a"), mk("b"), &srv, repo)
	sv.Reach("done")
}
