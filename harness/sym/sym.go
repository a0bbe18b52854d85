// Package sym is the harness side of the symbolic executor. When the harness is
// executed by /verif/engine every function here is intercepted; compiled natively it
// replays the values the solver chose.
package sym

import (
	"strconv"
	"strings"
	"sync"
)

// replay state (native only)
var (
	Values  []uint64
	pos     int
	Obs     []Observation
	Failed  []string
	Reached = map[string]bool{}
	TierVal int
)

type Observation struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type AssumeFailed struct{}
type AssertFailed struct{ Label string }

func Reset(values []uint64, tier int) {
	Values, pos, Obs, Failed, TierVal = values, 0, nil, nil, tier
	Reached = map[string]bool{}
}

func next(def uint64) uint64 {
	if pos >= len(Values) {
		pos++
		return def
	}
	v := Values[pos]
	pos++
	return v
}

// Byte is any byte.
func Byte(name string) byte { return byte(next(0)) }

// ByteIn is any byte occurring in set.
func ByteIn(name, set string) byte {
	b := byte(next(uint64(set[0])))
	if strings.IndexByte(set, b) < 0 {
		panic(AssumeFailed{})
	}
	return b
}

func ByteRange(name string, lo, hi byte) byte {
	b := byte(next(uint64(lo)))
	if b < lo || b > hi {
		panic(AssumeFailed{})
	}
	return b
}

// Bool is any truth value, kept symbolic.
func Bool(name string) bool { return next(0)&255 == 1 }

// Choice forks over 0..n-1.
func Choice(name string, n int) int { return int(next(0)) }

// Int is a symbolic 0..n-1 (n <= 256), kept symbolic.
func Int(name string, n int) int { return int(next(0)) }

// Int64 is any int64.
func Int64(name string) int64 { return int64(next(0)) }

// Str is a string of n bytes, each any byte of set ("" = any byte).
func Str(name string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		if set == "" {
			b[i] = byte(next(0))
		} else {
			b[i] = byte(next(uint64(set[0])))
		}
	}
	return string(b)
}

// Case is s with every letter in either case.
func Case(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			b[i] = byte(next(uint64(c)))
		}
	}
	return string(b)
}

// Pick forks over the options.
func Pick(name string, opts ...string) string { return opts[Choice(name, len(opts))] }

func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

func Assert(b bool, label string) {
	if !b {
		Failed = append(Failed, label)
		panic(AssertFailed{label})
	}
}

// Reach marks a point that must be reached on some path (vacuity guard).
func Reach(label string) { Reached[label] = true }

func ObserveStr(label, v string)       { Obs = append(Obs, Observation{label, strconv.QuoteToASCII(v)}) }
func ObserveInt(label string, v int)   { Obs = append(Obs, Observation{label, strconv.Itoa(v)}) }
func ObserveBool(label string, v bool) { Obs = append(Obs, Observation{label, strconv.FormatBool(v)}) }

// Input records the text given to the code under test.
func Input(s string) { ObserveStr("input", s) }

// Connectives that do not fork.
func And(a, b bool) bool      { return a && b }
func Or(a, b bool) bool       { return a || b }
func Not(a bool) bool         { return !a }
func Implies(a, b bool) bool  { return !a || b }
func Iff(a, b bool) bool      { return a == b }
func EqStr(a, b string) bool  { return a == b }
func EqFold(a, b string) bool { return strings.EqualFold(a, b) }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// MapOrder selects the iteration order of maps: 0 insertion, 1 reverse, 2 by key, 3 any.
func MapOrder(mode int) {}

func Tier() int    { return TierVal }
func Engine() bool { return false }

func Concrete(s string) string { return s }
func ConcreteInt(i int) int    { return i }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (r bool) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case AssumeFailed, AssertFailed:
				panic(x)
			}
			r = true
		}
	}()
	f()
	return false
}

// Concurrently runs f(0) … f(n-1), each on a thread of its own, and returns a description
// of the data races some schedule has. Natively the race detector ends the process.
func Concurrently(n int, f func(i int)) string {
	var start, done sync.WaitGroup
	start.Add(1)
	for i := 0; i < n; i++ {
		i := i
		done.Add(1)
		go func() {
			defer done.Done()
			start.Wait()
			f(i)
		}()
	}
	start.Done()
	done.Wait()
	return ""
}

func Unsupported(s string) {}
