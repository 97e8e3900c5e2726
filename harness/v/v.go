// Package v is the harness interface of the checks. The symbolic engine
// replaces these functions; the bodies here replay one recorded vector of
// inputs against the compiled code.
package v

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

type Violation struct{ Label, Kind string }
type SkipT struct{}

var (
	inputs   []uint64
	pos      int
	params   map[string]int
	Observed []string
	allocLim int64
	allocOn  bool
	start    uint64
)

// Reset prepares the native run of one vector.
func Reset(in []uint64, p map[string]int) {
	inputs, pos, params, Observed = in, 0, p, nil
	allocOn = false
}

func next() uint64 {
	if pos >= len(inputs) {
		pos++
		return 0
	}
	x := inputs[pos]
	pos++
	return x
}

func U8() uint8    { return uint8(next()) }
func U16() uint16  { return uint16(next()) }
func U32() uint32  { return uint32(next()) }
func U64() uint64  { return next() }
func I64() int64   { return int64(next()) }
func I32() int32   { return int32(next()) }
func F64() float64 { return f64(next()) }
func Bool() bool   { return next()&1 == 1 }

// Int is an arbitrary integer in lo..hi.
func Int(lo, hi int) int { return lo + int(next()) }

// Bytes are n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

func Str(n int) string { return string(Bytes(n)) }

// Choose forks the exploration n ways.
func Choose(n int) int {
	if n == 0 {
		return 0
	}
	return int(next())
}

// Conc makes x concrete on each path.
func Conc(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(SkipT{})
	}
}
func Skip() { panic(SkipT{}) }

func Assert(c bool, label string) {
	if !c {
		panic(Violation{label, "assert"})
	}
}

// AssertKnown asserts cond; a failure for which alt holds is the listed finding id.
func AssertKnown(id string, cond, alt bool, label string) {
	if cond || alt && strings.Contains(os.Getenv("VERIF_KNOWN"), ","+id+",") {
		return
	}
	panic(Violation{label, "assert"})
}

func Cover(label string) {}

func Param(name string, def int) int {
	if x, ok := params[name]; ok {
		return x
	}
	return def
}

// Catch reports whether f panics.
func Catch(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Violation, SkipT:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }

func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func EqB(a, b []byte) bool { return string(a) == string(b) }
func EqS(a, b string) bool { return a == b }

func ObsB(label string, b []byte) {
	s := label + ":"
	for _, x := range b {
		s += fmt.Sprintf("%x,", x)
	}
	Observed = append(Observed, s)
}
func ObsI(label string, x int64) {
	Observed = append(Observed, fmt.Sprintf("%s:%x,", label, uint64(x)))
}

// AllocLimit bounds the bytes allocated from here to AllocOff.
func AllocLimit(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	start, allocLim, allocOn = m.TotalAlloc, int64(n), true
}
func AllocOff() { CheckAlloc() }

func CheckAlloc() {
	if !allocOn {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	allocOn = false
	if int64(m.TotalAlloc-start) > allocLim {
		panic(Violation{"bounded-memory", "alloc"})
	}
}
