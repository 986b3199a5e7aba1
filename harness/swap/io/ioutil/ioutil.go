// Package ioutil stands in for the standard library's.
package ioutil

import (
	"io"
	real "io/ioutil"

	"github.com/kuznetsovin/egts-protocol/verifswap/os"
)

var Discard = real.Discard

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func ReadAll(r io.Reader) ([]byte, error)  { return real.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return real.NopCloser(r) }
