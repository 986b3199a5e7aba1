// Package sql stands in for database/sql: it records what the stores ask of
// the database and answers as the harness decides.
package sql

import (
	"context"
	"errors"
	"time"
)

type VerifExec struct {
	Query string
	Args  []interface{}
	On    *DB
}

// The database's side, set and read by the harness.
var (
	VerifOpenErr, VerifPingErr, VerifExecErr error
	VerifDBs                                 []*DB
	VerifPings                               int
	VerifExecs                               []VerifExec
	VerifClosed                              int
)

var (
	ErrNoRows   = errors.New("sql: no rows in result set")
	ErrConnDone = errors.New("sql: connection is already closed")
	ErrTxDone   = errors.New("sql: transaction has already been committed or rolled back")
)

type Result interface {
	LastInsertId() (int64, error)
	RowsAffected() (int64, error)
}

type result struct{}

// VerifQuiet: messages are taken without a note of them.
var VerifQuiet bool

func (result) LastInsertId() (int64, error) { return 1, nil }
func (result) RowsAffected() (int64, error) { return 1, nil }

type DB struct{ Driver, DSN string }

func Open(driver, dsn string) (*DB, error) {
	db := &DB{driver, dsn}
	if !VerifQuiet {
		VerifDBs = append(VerifDBs, db)
	}
	if VerifOpenErr != nil {
		return nil, VerifOpenErr
	}
	return db, nil
}

func (db *DB) Ping() error {
	if !VerifQuiet {
		VerifPings++
	}
	return VerifPingErr
}

func (db *DB) PingContext(ctx context.Context) error { return db.Ping() }

func (db *DB) Exec(query string, args ...interface{}) (Result, error) {
	if VerifQuiet {
		if VerifExecErr != nil {
			return nil, VerifExecErr
		}
		return result{}, nil
	}
	VerifExecs = append(VerifExecs, VerifExec{query, args, db})
	if VerifExecErr != nil {
		return nil, VerifExecErr
	}
	return result{}, nil
}

func (db *DB) ExecContext(ctx context.Context, query string, args ...interface{}) (Result, error) {
	return db.Exec(query, args...)
}

// TxOptions are what a transaction is begun with.
type TxOptions struct {
	Isolation int
	ReadOnly  bool
}

// Stmt is a prepared statement.
type Stmt struct {
	db *DB
	q  string
}

func (db *DB) Prepare(query string) (*Stmt, error) { return &Stmt{db, query}, nil }
func (db *DB) PrepareContext(ctx context.Context, query string) (*Stmt, error) {
	return &Stmt{db, query}, nil
}
func (s *Stmt) Exec(args ...interface{}) (Result, error) { return s.db.Exec(s.q, args...) }
func (s *Stmt) ExecContext(ctx context.Context, args ...interface{}) (Result, error) {
	return s.db.Exec(s.q, args...)
}
func (s *Stmt) Close() error { return nil }

// Tx is a transaction.
type Tx struct{ db *DB }

func (db *DB) Begin() (*Tx, error) { return &Tx{db}, nil }
func (db *DB) BeginTx(ctx context.Context, opts *TxOptions) (*Tx, error) {
	return &Tx{db}, nil
}
func (t *Tx) Exec(query string, args ...interface{}) (Result, error) {
	return t.db.Exec(query, args...)
}
func (t *Tx) ExecContext(ctx context.Context, query string, args ...interface{}) (Result, error) {
	return t.db.Exec(query, args...)
}
func (t *Tx) Prepare(query string) (*Stmt, error) { return &Stmt{t.db, query}, nil }
func (t *Tx) Commit() error                       { return nil }
func (t *Tx) Rollback() error                     { return nil }

// Conn is one connection of the pool.
type Conn struct{ db *DB }

func (db *DB) Conn(ctx context.Context) (*Conn, error) { return &Conn{db}, nil }
func (c *Conn) ExecContext(ctx context.Context, query string, args ...interface{}) (Result, error) {
	return c.db.Exec(query, args...)
}
func (c *Conn) PingContext(ctx context.Context) error { return c.db.Ping() }
func (c *Conn) Close() error                          { return nil }

func (db *DB) SetConnMaxIdleTime(d time.Duration) {}
func (db *DB) SetMaxOpenConns(n int)              {}
func (db *DB) SetMaxIdleConns(n int)              {}
func (db *DB) SetConnMaxLifetime(d time.Duration) {}

func (db *DB) Close() error {
	VerifClosed++
	return nil
}
