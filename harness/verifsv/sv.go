// Package verifsv is the harness API. The symbolic engine replaces these
// functions by symbolic variables, assumptions and assertions; compiled
// natively they read the solver's assignment and replay it.
package verifsv

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
)

var (
	vals  map[string]uint64
	deep  bool
	occ   = map[string]int{}
	ready bool
)

func load() {
	if ready {
		return
	}
	ready = true
	vals = map[string]uint64{}
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	raw, err := ioutil.ReadFile(f)
	if err != nil {
		fmt.Println("VERIF-ERROR", err)
		os.Exit(9)
	}
	var doc struct {
		Values   map[string]string `json:"values"`
		Thorough bool              `json:"thorough"`
	}
	if err := json.Unmarshal(raw, &doc); err != nil {
		fmt.Println("VERIF-ERROR", err)
		os.Exit(9)
	}
	deep = doc.Thorough
	for k, v := range doc.Values {
		n, err := strconv.ParseUint(v, 0, 64)
		if err != nil {
			fmt.Println("VERIF-ERROR", err)
			os.Exit(9)
		}
		vals[k] = n
	}
}

func next(name string) string {
	load()
	k := name + "#" + strconv.Itoa(occ[name])
	occ[name]++
	return k
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(vals[next(name)]) }

// U16 is an arbitrary uint16.
func U16(name string) uint16 { return uint16(vals[next(name)]) }

// I16 is an arbitrary int16.
func I16(name string) int16 { return int16(vals[next(name)]) }

// I8 is an arbitrary int8.
func I8(name string) int8 { return int8(vals[next(name)]) }

// U32 is an arbitrary uint32.
func U32(name string) uint32 { return uint32(vals[next(name)]) }

// U64 is an arbitrary uint64.
func U64(name string) uint64 { return vals[next(name)] }

// I64 is an arbitrary int64.
func I64(name string) int64 { return int64(vals[next(name)]) }

// Int is an arbitrary int.
func Int(name string) int { return int(vals[next(name)]) }

// F64 is an arbitrary finite float64.
func F64(name string) float64 { return math.Float64frombits(vals[next(name)]) }

// Bool is an arbitrary bool.
func Bool(name string) bool { return vals[next(name)] != 0 }

// Bytes is a buffer of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	k := next(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vals[k+"."+strconv.Itoa(i)])
	}
	return b
}

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose is an arbitrary integer in lo..hi; the engine forks on it.
func Choose(name string, lo, hi int) int {
	k := next(name)
	v, ok := vals[k]
	if !ok || int(v) < lo || int(v) > hi {
		return lo
	}
	return int(v)
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME assumption not met by this assignment")
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VERIF-ASSERT " + msg)
		os.Exit(3)
	}
}

// Reach marks a point that must be reachable for the check to mean anything.
func Reach(label string) { fmt.Println("VERIF-REACH " + label) }

// Unwind marks a step bound of the harness environment being exceeded.
func Unwind(what string) {
	fmt.Println("VERIF-UNWIND " + what)
	os.Exit(5)
}

// Enter and Leave bracket harness code that stands for another goroutine: a
// schedule in which it would have to wait for a lock does not exist.
func Enter() {}

// Leave ends what Enter began.
func Leave() {}

func goid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	return strings.Fields(string(b))[1]
}

// Deferred makes goroutines wait for Yield.
func Deferred() {
	runtime.GOMAXPROCS(1)
}

// Yield lets the waiting goroutines run to completion.
func Yield() { time.Sleep(50 * time.Millisecond) }

// Parallel runs two functions as goroutines of their own would be run: no
// access of one to what both can reach (package-level variables, and what hangs
// off the roots) may conflict with one of the other.
func Parallel(f, g func(), roots ...interface{}) {
	if os.Getenv("VERIF_RACE") == "" {
		f()
		g()
		return
	}
	seq := os.Getenv("VERIF_RACE") == "seq"
	if seq {
		runtime.GOMAXPROCS(1)
	}
	start, done := make(chan struct{}), make(chan struct{})
	for i, h := range []func(){f, g} {
		i, h := i, h
		go func() {
			<-start
			if seq && i == 1 {
				time.Sleep(200 * time.Millisecond)
			}
			h()
			done <- struct{}{}
		}()
	}
	close(start)
	<-done
	<-done
}

// GoID names the calling goroutine.
func GoID() int {
	n, _ := strconv.Atoi(goid())
	return n
}

// GoBusy reports whether a goroutine is the calling one or waits for another
// on a channel or a lock.
func GoBusy(id int) bool {
	if id == GoID() {
		return true
	}
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "goroutine "+strconv.Itoa(id)+" [") {
			continue
		}
		for _, w := range []string{"chan ", "select", "semacquire", "sync."} {
			if strings.Contains(l, "["+w) {
				return true
			}
		}
	}
	return false
}

// Thorough tells the deeper tier from the quick one.
func Thorough() bool {
	load()
	return deep
}

// Concrete tells a native replay from the symbolic run.
func Concrete() bool { return true }

func jsonAt(doc []byte, path string) (interface{}, bool) {
	var v interface{}
	d := json.NewDecoder(strings.NewReader(string(doc)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, false
	}
	if path == "" {
		return v, true
	}
	for _, p := range strings.Split(path, ".") {
		switch x := v.(type) {
		case map[string]interface{}:
			n, ok := x[p]
			if !ok {
				return nil, false
			}
			v = n
		case []interface{}:
			i, err := strconv.Atoi(p)
			if err != nil || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

// JSONHas tells whether the document has a value at the path.
func JSONHas(doc []byte, path string) bool {
	_, ok := jsonAt(doc, path)
	return ok
}

// JSONU64 is the non-negative integer at the path.
func JSONU64(doc []byte, path string) uint64 {
	v, _ := jsonAt(doc, path)
	if n, ok := v.(json.Number); ok {
		u, err := strconv.ParseUint(n.String(), 10, 64)
		if err != nil {
			i, _ := strconv.ParseInt(n.String(), 10, 64)
			return uint64(i)
		}
		return u
	}
	return 0
}

// JSONI64 is the integer at the path.
func JSONI64(doc []byte, path string) int64 { return int64(JSONU64(doc, path)) }

// JSONF64 is the number at the path.
func JSONF64(doc []byte, path string) float64 {
	v, _ := jsonAt(doc, path)
	if n, ok := v.(json.Number); ok {
		f, _ := n.Float64()
		return f
	}
	return 0
}

// JSONStr is the string at the path.
func JSONStr(doc []byte, path string) string {
	v, _ := jsonAt(doc, path)
	s, _ := v.(string)
	return s
}

// JSONTime is the time at the path.
func JSONTime(doc []byte, path string) time.Time {
	t, err := time.Parse(time.RFC3339Nano, JSONStr(doc, path))
	if err != nil {
		return time.Time{}
	}
	return t
}

// JSONBytes are the bytes at the path.
func JSONBytes(doc []byte, path string) []byte {
	b, err := base64.StdEncoding.DecodeString(JSONStr(doc, path))
	if err != nil {
		return nil
	}
	return b
}

// JSONLen is the number of elements at the path, -1 if there is no list.
func JSONLen(doc []byte, path string) int {
	v, ok := jsonAt(doc, path)
	if !ok {
		return -1
	}
	switch x := v.(type) {
	case nil:
		return 0
	case []interface{}:
		return len(x)
	case map[string]interface{}:
		return len(x)
	}
	return -1
}
