// Package u holds the readers and writers the harnesses use.
package u

import (
	"errors"
	"io"

	"verif/harness/v"
)

var ErrWrite = errors.New("write refused")
var ErrRead = errors.New("read failed")

// Delivery modes of Reader.
const (
	Whole    = iota // everything asked for at once
	Bytewise        // one byte per read
	Halves          // at most two bytes per read
	WithEOF         // whole, the last bytes together with io.EOF
	Zeroes          // one byte per read, an empty read before each
	ByteEOF         // one byte per read, the last one with io.EOF
	Modes
	Kilo // at most 1000 bytes per read
)

// Reader delivers B in the way Mode says.
type Reader struct {
	B    []byte
	Pos  int
	Mode int
	z    bool
}

func (r *Reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.Pos >= len(r.B) {
		return 0, io.EOF
	}
	if r.Mode == Zeroes && !r.z {
		r.z = true
		return 0, nil
	}
	r.z = false
	src := r.B[r.Pos:]
	n := len(src)
	switch r.Mode {
	case Bytewise, Zeroes, ByteEOF:
		n = 1
	case Kilo:
		n = 1000
	case Halves:
		n = 2
	}
	if n < len(src) {
		src = src[:n]
	}
	k := copy(p, src)
	r.Pos += k
	if (r.Mode == WithEOF || r.Mode == ByteEOF) && r.Pos == len(r.B) {
		return k, io.EOF
	}
	return k, nil
}

// Writer records what it receives and fails at call number FailAt (from 0),
// having taken Short bytes of that write.
type Writer struct {
	B      []byte
	Calls  int
	FailAt int
	Short  int
	Failed bool
	After  int // bytes offered after the failure
}

func NewWriter() *Writer { return &Writer{FailAt: -1} }

func (w *Writer) Write(p []byte) (int, error) {
	if w.Failed {
		w.After += len(p)
	}
	i := w.Calls
	w.Calls++
	if i == w.FailAt {
		w.Failed = true
		n := w.Short
		if n > len(p) {
			n = len(p)
		}
		w.B = append(w.B, p[:n]...)
		return n, ErrWrite
	}
	w.B = append(w.B, p...)
	return len(p), nil
}

// Eq compares byte slices of possibly different length.
func Eq(a, b []byte) bool { return len(a) == len(b) && v.EqB(a, b) }

// Cat concatenates.
func Cat(p ...[]byte) []byte {
	var r []byte
	for _, x := range p {
		r = append(r, x...)
	}
	return r
}

// BE is the n-byte big-endian form of x.
func BE(x uint64, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(x >> (8 * uint(n-1-i)))
	}
	return r
}
