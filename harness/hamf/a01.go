package hamf

import (
	"bytes"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// memLimit is the memory a decoder may use for n bytes of input.
func memLimit(n int) int { return 1<<20 + 4096*n }

// A01_bytes: every byte sequence up to the bound, one value and then a batch.
func A01_bytes() {
	n := v.Choose(v.Param("n", 6) + 1)
	b := v.Bytes(n)
	v.AllocLimit(memLimit(n))
	d := amf.NewEnDecAMF0()
	if v.Bool() {
		_, err := d.Decode(bytes.NewReader(b))
		if err == nil {
			v.Cover("A01 value decoded")
		} else {
			v.Cover("A01 value refused")
		}
	} else {
		_, err := d.DecodeBatch(bytes.NewReader(b))
		if err == nil {
			v.Cover("A01 batch decoded")
		} else {
			v.Cover("A01 batch refused")
		}
	}
	v.AllocOff()
}

// near says that x is small, close to m or to the size up to which memory is taken in advance, or beyond both.
func near(x uint64, m int) bool {
	c := func(y int) bool { return v.And(x+3 > uint64(y), x < uint64(y)+3) }
	return v.Or(x < 4, c(m), c(4096), x > 5100)
}

// A01_lengths: every value of every length and count field (for strings of 4..5100 bytes those next to
// the size of what follows and to the preallocation limit), with bodies of several sizes behind it.
func A01_lengths() {
	m := v.Pick(0, 1, 3, 300, 4095, 4096, 4097, 5000)
	body := make([]byte, m)
	for i := range body {
		body[i] = 5
	}
	var h []byte
	x := v.U32()
	switch v.Choose(7) {
	case 0:
		v.Assume(v.And(x < 65536, near(uint64(x), m)))
		h = u.Cat([]byte{0x02}, u.BE(uint64(x), 2))
	case 1:
		v.Assume(near(uint64(x), m))
		h = u.Cat([]byte{byte(v.Pick(0x0c, 0x0f))}, u.BE(uint64(x), 4))
	case 2:
		m = v.Pick(0, 1, 3, 20)
		body = body[:min(m, len(body))]
		h = u.Cat([]byte{0x0a}, u.BE(uint64(x), 4))
	case 3:
		y := v.U16()
		v.Assume(near(uint64(y), m))
		h = u.Cat([]byte{0x08}, u.BE(uint64(x), 4), u.BE(uint64(y), 2))
	case 4:
		v.Assume(v.And(x < 65536, near(uint64(x), m)))
		h = u.Cat([]byte{byte(v.Pick(0x03, 0x10))}, u.BE(uint64(x), 2))
	case 5:
		m = v.Pick(100, 300)
		body = body[:min(m, len(body))]
		v.Assume(x > uint32(m))
		h = u.Cat([]byte{0x0a}, u.BE(uint64(x), 4))
	case 6:
		// nested arrays, each claiming any number of members
		y := v.U32()
		h = u.Cat([]byte{0x0a}, u.BE(uint64(x), 4), []byte{0x0a}, u.BE(uint64(y), 4))
		body = body[:min(6, len(body))]
	}
	b := u.Cat(h, body)
	v.AllocLimit(memLimit(len(b)))
	_, err := amf.NewEnDecAMF0().Decode(bytes.NewReader(b))
	v.AllocOff()
	if err == nil {
		v.Cover("A01 announced length present")
	} else {
		v.Cover("A01 announced length missing")
	}
}
