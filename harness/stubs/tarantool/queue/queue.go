// Package queue stands in for github.com/tarantool/go-tarantool/queue.
package queue

import (
	"time"

	"github.com/tarantool/go-tarantool"
)

type VerifPut struct {
	Queue string
	Data  interface{}
	On    *tarantool.Connection
}

// The server's side, set and read by the harness.
var (
	VerifPutErr error
	VerifPuts   []VerifPut
)

type Task struct{ data interface{} }

// VerifQuiet: messages are taken without a note of them.
var VerifQuiet bool

func (t *Task) Data() interface{} { return t.data }
func (t *Task) Id() uint64        { return 0 }

type Opts struct {
	Pri   int
	Ttl   time.Duration
	Ttr   time.Duration
	Delay time.Duration
	Utube string
}

type Queue interface {
	Exists() (bool, error)
	Put(data interface{}) (*Task, error)
	PutWithOpts(data interface{}, cfg Opts) (*Task, error)
}

type q struct {
	c    *tarantool.Connection
	name string
}

func New(conn *tarantool.Connection, name string) Queue { return q{conn, name} }

func (x q) Exists() (bool, error) { return true, nil }

func (x q) Put(data interface{}) (*Task, error) {
	if !VerifQuiet {
		VerifPuts = append(VerifPuts, VerifPut{x.name, data, x.c})
	}
	if VerifPutErr != nil {
		return nil, VerifPutErr
	}
	return &Task{data}, nil
}

func (x q) PutWithOpts(data interface{}, cfg Opts) (*Task, error) { return x.Put(data) }
