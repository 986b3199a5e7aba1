// Package yaml stands in for the YAML library: the harness says what the
// document means.
package yaml

import (
	"io"
	"io/ioutil"
)

// VerifUnmarshal decides what a document means.
var VerifUnmarshal func(in []byte, out interface{}) error

type (
	// MapSlice keeps the order of a map.
	MapSlice []MapItem
	// MapItem is one of its entries.
	MapItem struct{ Key, Value interface{} }
	// TypeError is what does not fit the target.
	TypeError struct{ Errors []string }
)

func (e *TypeError) Error() string { return "yaml: unmarshal errors" }

func Unmarshal(in []byte, out interface{}) error       { return VerifUnmarshal(in, out) }
func UnmarshalStrict(in []byte, out interface{}) error { return VerifUnmarshal(in, out) }

// Decoder reads documents.
type Decoder struct {
	r    io.Reader
	done bool
}

func NewDecoder(r io.Reader) *Decoder    { return &Decoder{r: r} }
func (d *Decoder) SetStrict(strict bool) {}

func (d *Decoder) Decode(out interface{}) error {
	if d.done {
		return io.EOF
	}
	d.done = true
	b, err := ioutil.ReadAll(d.r)
	if err != nil {
		return err
	}
	return VerifUnmarshal(b, out)
}
