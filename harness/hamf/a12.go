package hamf

import (
	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

var header0 = u.Cat([]byte{2, 0, 13}, []byte("@setDataFrame"))

// first is the encoding of the string s in one of the forms.
func first(s string) (b []byte, three bool) {
	p := []byte(s)
	switch v.Choose(6) {
	case 1:
		return u.Cat([]byte{12}, u.BE(uint64(len(p)), 4), p), false
	case 2:
		return u.Cat([]byte{17, 6}, u29(uint32(len(p))<<1|1), p), false
	case 3:
		return u.Cat([]byte{15}, u.BE(uint64(len(p)), 4), p), false
	case 4:
		return u.Cat([]byte{6}, u29(uint32(len(p))<<1|1), p), true
	case 5:
		// a length with more bytes than it needs
		return u.Cat([]byte{6, 0x80, byte(len(p))<<1 | 1}, p), true
	}
	return u.Cat([]byte{2}, u.BE(uint64(len(p)), 2), p), false
}

// A12_names: payloads that begin with any string, in any encoding.
func A12_names() {
	n := v.Pick(13, 0, 1, 12, 14)
	s := v.Str(n)
	f, three := first(s)
	rest := v.Bytes(v.Choose(v.Param("rest", 3) + 1))
	p := u.Cat(f, rest)
	keep := append([]byte(nil), p...)
	is := n == 13 && v.EqS(s, amf.SetDataFrame)

	got, err := amf.AddMetaHeader(p, decoder(three))
	v.Assert(err == nil, "a payload that begins with a string is accepted")
	if is {
		v.Assert(u.Eq(got, keep), "a payload that has the header is unchanged")
		v.Cover("A12 has it")
	} else {
		v.Assert(u.Eq(got, u.Cat(header0, keep)), "the header comes before the unchanged payload")
		v.Cover("A12 added")
	}
	v.Assert(u.Eq(p, keep), "the caller's bytes are left alone")

	got, err = amf.DelMetaHeader(p, decoder(three))
	v.Assert(err == nil, "a payload that begins with a string is accepted")
	if is {
		v.Assert(u.Eq(got, rest), "exactly the header is removed")
		v.Cover("A12 removed")
	} else {
		v.Assert(u.Eq(got, keep), "a payload without the header is unchanged")
		v.Cover("A12 has none")
	}
	v.Assert(u.Eq(p, keep), "the caller's bytes are left alone")
}

// A12_inverse: what has been added can be removed and is not added twice.
func A12_inverse() {
	p := u.Cat([]byte{2}, str0(v.Str(v.Pick(10, 13, 2))), v.Bytes(v.Choose(3)))
	a, err := amf.AddMetaHeader(p, amf.NewEnDecAMF0())
	v.Assert(err == nil, "a payload that begins with a string is accepted")
	b, err := amf.AddMetaHeader(a, amf.NewEnDecAMF0())
	v.Assert(err == nil && u.Eq(a, b), "the header is added once")
	c, err := amf.DelMetaHeader(a, amf.NewEnDecAMF0())
	v.Assert(err == nil, "what has been added can be removed")
	if len(a) != len(p) {
		v.Assert(u.Eq(c, p), "removing gives back the payload")
		v.Cover("A12 inverse")
	}
	// a second payload is not affected by the first
	copyOf := append([]byte(nil), a...)
	a2, err := amf.AddMetaHeader(p, amf.NewEnDecAMF0())
	v.Assert(err == nil && u.Eq(a2, copyOf), "adding again gives the same")
	if len(a) > 0 {
		a[0] ^= 0xff
		if len(a) > 5 {
			a[5] ^= 0xff
		}
	}
	if len(a) != len(p) {
		v.Assert(u.Eq(a2, copyOf), "results do not share memory")
	}
}

// A12_any: any bytes whatever.
func A12_any() {
	p := v.Bytes(v.Choose(v.Param("n", 6) + 1))
	keep := append([]byte(nil), p...)
	three := v.Bool()
	x, derr := decoder(three).Decode(&u.Reader{B: p})
	_, str := x.(string)
	good := derr == nil && str
	got, err := amf.AddMetaHeader(p, decoder(three))
	v.Assert((err == nil) == good, "exactly payloads that begin with a string are accepted")
	if good {
		v.Assert(u.Eq(got, u.Cat(header0, keep)), "the header comes before the unchanged payload")
		v.Cover("A12 any string")
	} else {
		v.Cover("A12 any other")
	}
	got, err = amf.DelMetaHeader(p, decoder(three))
	v.Assert((err == nil) == good, "exactly payloads that begin with a string are accepted")
	if good {
		v.Assert(u.Eq(got, keep), "a payload without the header is unchanged")
	}
	v.Assert(u.Eq(p, keep), "the caller's bytes are left alone")
}
