// Package pq stands in for the driver: database/sql itself is replaced.
package pq

type Error struct {
	Code    string
	Message string
}

func (e *Error) Error() string { return e.Message }

// QuoteIdentifier quotes a name for use in a query.
func QuoteIdentifier(name string) string { return `"` + name + `"` }
