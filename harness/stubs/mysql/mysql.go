// Package mysql stands in for the driver: database/sql itself is replaced.
package mysql

type MySQLError struct {
	Number  uint16
	Message string
}

func (e *MySQLError) Error() string { return e.Message }
