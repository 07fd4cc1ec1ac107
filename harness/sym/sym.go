// Package sym is the nondeterminism API of the harnesses. Under the symbolic engine every function here is
// replaced by an intrinsic; compiled natively it replays one solver-chosen input vector.
package sym

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// In is one recorded input.
type In struct {
	K string `json:"k"`
	V string `json:"v"`
}

// Failure is panicked by a failing assertion.
type Failure struct{ Msg string }

// Stop is panicked when an assumption fails.
type Stop struct{}

var (
	inputs []In
	pos    int
	Desync bool
	Failed string
	Obs    []string
	tier   int
	mu     sync.Mutex

	registry = map[string]func(){}
)

// Register names a harness.
func Register(name string, f func()) { registry[name] = f }

// Names lists the registered harnesses.
func Names() []string {
	var r []string
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Lookup finds a harness.
func Lookup(name string) func() { return registry[name] }

// Load sets the input vector to replay.
func Load(in []In, t int) { inputs, pos, Desync, Failed, Obs, tier = in, 0, false, "", nil, t }

// next takes the next input; past the end (a run the encoding could not follow to its end) the defaults apply.
func next(kind, def string) string {
	if pos >= len(inputs) {
		return def
	}
	if inputs[pos].K != kind {
		Desync = true
		return def
	}
	pos++
	return inputs[pos-1].V
}

func u(kind string) uint64 {
	v := next(kind, "0")
	if kind == "int" {
		i, _ := strconv.ParseInt(v, 10, 64)
		return uint64(i)
	}
	x, _ := strconv.ParseUint(v, 10, 64)
	return x
}

func Bool() bool       { return u("bool") == 1 }
func Byte() byte       { return byte(u("uint")) }
func Int8() int8       { return int8(u("int")) }
func Int16() int16     { return int16(u("int")) }
func Int32() int32     { return int32(u("int")) }
func Int64() int64     { return int64(u("int")) }
func Uint16() uint16   { return uint16(u("uint")) }
func Uint32() uint32   { return uint32(u("uint")) }
func Uint64() uint64   { return u("uint") }
func Float32() float32 { return math.Float32frombits(uint32(u("uint"))) }
func Float64() float64 { return math.Float64frombits(u("uint")) }

// Int is an integer in [lo,hi].
func Int(lo, hi int) int {
	i, _ := strconv.Atoi(next("int", strconv.Itoa(lo)))
	return i
}

func str(min int, c byte) string {
	b, _ := hex.DecodeString(next("string", strings.Repeat(hex.EncodeToString([]byte{c}), min)))
	return string(b)
}

// String is any byte string whose length is in [min,max].
func String(min, max int) string { return str(min, 'a') }

// Bytes is String as bytes.
func Bytes(min, max int) []byte { return []byte(str(min, 'a')) }

// StringOf is a string over an alphabet.
func StringOf(min, max int, alphabet string) string { return str(min, alphabet[0]) }

// Choice is 0..n-1, explored one by one.
func Choice(n int) int {
	if n <= 1 {
		return func() int {
			next("choice", "0")
			return 0
		}()
	}
	return int(u("choice"))
}

// Word is a string that the code under test itself mentions (in a comparison, a table of cases, a search), exactly or with an
// arbitrary byte before or after, or after one it looks for.
func Word() string { return str(0, 'a') }

// Near is Word without the combinations.
func Near() string { return str(0, 'a') }

// Size is one of the sizes given, or one at which the code under test itself makes a difference, up to max.
func Size(max int, of ...int) int {
	i, _ := strconv.Atoi(next("int", strconv.Itoa(append(of, 1)[0])))
	return i
}

// Tier is 0 in quick runs and 1 in thorough ones.
func Tier() int { return tier }

// Symbolic tells whether the engine is running.
func Symbolic() bool { return false }

func Assume(c bool) {
	if !c {
		panic(Stop{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		if Failed == "" {
			Failed = msg
		}
		mu.Unlock()
		panic(Failure{msg})
	}
}

func Fail(msg string)    { Assert(false, msg) }
func Reach(label string) {}

func Observe(tag string, b []byte) {
	mu.Lock()
	Obs = append(Obs, tag+"="+hex.EncodeToString(b))
	mu.Unlock()
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func SameBytes(a, b []byte) bool { return string(a) == string(b) }

func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// MapOrder switches the exploration of map iteration orders.
func MapOrder(on bool) {}

// Concurrent runs f as several concurrent renders; f must touch only what it creates, besides what it shares for reading.
func Concurrent(f func(id int)) {
	n := 2
	if os.Getenv("SYM_RACE") != "" {
		n = 4
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	pan := make(chan any, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pan <- r
				}
			}()
			<-start
			runtime.Gosched()
			f(i % 2)
		}(i)
	}
	close(start)
	wg.Wait()
	select {
	case r := <-pan:
		panic(r)
	default:
	}
}

// Describe prints the inputs for a report.
func Describe() string { return fmt.Sprint(inputs) }
