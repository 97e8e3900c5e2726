package hamf

import (
	"bytes"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// A06_encode: every integer below 2^29 takes the shortest form.
func A06_encode() {
	x := v.U32()
	v.Assume(x < 1<<29)
	var val any = x
	if v.Bool() {
		val = int32(x)
	}
	w := u.NewWriter()
	n, err := amf.NewEnDecAMF3().Encode(w, val)
	v.Assert(err == nil && n == len(w.B), "an integer below 2^29 is encoded")
	v.ObsB("enc", w.B)
	v.Assert(u.Eq(w.B, u.Cat([]byte{4}, u29(x))), "the shortest form of the integer")
	r := bytes.NewReader(w.B)
	got, err := amf.NewEnDecAMF3().Decode(r)
	q, ok := got.(uint32)
	v.Assert(err == nil && ok && q == x && r.Len() == 0, "the integer decodes to itself")
	v.Cover("A06 encode")
}

// A06_decode: every byte sequence read as an integer.
func A06_decode() {
	n := v.Choose(7)
	b := v.Bytes(n)
	r := bytes.NewReader(u.Cat([]byte{4}, b))
	got, err := amf.NewEnDecAMF3().Decode(r)
	// the rules: seven bits per byte while the high bit is set, all eight of the fourth
	x, used, done := uint32(0), 0, false
	for i := 0; i < n && i < 4 && !done; i++ {
		used++
		if i == 3 {
			x, done = x<<8|uint32(b[i]), true
		} else {
			x, done = x<<7|uint32(b[i]&0x7f), b[i] < 0x80
		}
	}
	if !done {
		v.Assert(err != nil, "an unfinished integer is an error")
		v.Cover("A06 unfinished")
		return
	}
	q, ok := got.(uint32)
	v.Assert(err == nil && ok, "a complete integer decodes")
	v.ObsI("x", int64(q))
	v.Assert(q == x, "the value the rules define")
	v.Assert(r.Len() == n-used, "exactly the integer's bytes are consumed")
	v.Cover("A06 decode")
}

// A06_header: every form of a byte-array header.
func A06_header() {
	h := v.Bytes(1 + v.Choose(4))
	for i := range h {
		if i < len(h)-1 {
			v.Assume(h[i] >= 0x80)
		} else if i < 3 {
			v.Assume(h[i] < 0x80)
		}
	}
	x := uint32(0)
	for i := range h {
		if i == 3 {
			x = x<<8 | uint32(h[i])
		} else {
			x = x<<7 | uint32(h[i]&0x7f)
		}
	}
	v.Assume(x&1 == 1)
	body := v.Bytes(8)
	r := bytes.NewReader(u.Cat([]byte{0x0c}, h, body))
	got, err := amf.NewEnDecAMF3().Decode(r)
	if x>>1 > 8 {
		v.Assert(err != nil, "a length beyond the data is an error")
		v.Cover("A06 header beyond")
		return
	}
	n := v.Conc(int(x >> 1))
	q, ok := got.([]byte)
	v.Assert(err == nil && ok, "a complete byte array decodes")
	v.Assert(u.Eq(q, body[:n]), "the bytes the header announces")
	v.Assert(r.Len() == 8-n, "exactly the announced bytes are consumed")
	v.Cover("A06 header")
}

// A06_encheader: the header of a byte array or string of any length of interest is in its shortest form.
func A06_encheader() {
	n := v.Pick(0, 1, 63, 64, 65, 8191, 8192, 8193, 16384, 1<<20-1, 1<<20, 1<<21, 1<<27, 1<<28-1)
	c := &counter{}
	var err error
	if n < 20000 && v.Bool() {
		_, err = amf.NewEnDecAMF3().Encode(c, string(make([]byte, n)))
	} else {
		_, err = amf.NewEnDecAMF3().Encode(c, make([]byte, n))
	}
	h := u29(uint32(n)<<1 | 1)
	v.Assert(err == nil && c.n == 1+len(h)+n, "the value is encoded with the shortest header")
	v.Assert(len(c.head) > len(h) && u.Eq(c.head[1:1+len(h)], h), "the header holds the length in the shortest form")
	v.Cover("A06 encoded header")
}
