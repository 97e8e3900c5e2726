package hamf

import (
	"bytes"
	"io"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// A02_bytes: every byte sequence up to the bound, one value and then a batch.
func A02_bytes() {
	n := v.Choose(v.Param("n", 6) + 1)
	b := v.Bytes(n)
	v.AllocLimit(memLimit(n))
	d := amf.NewEnDecAMF3()
	if v.Bool() {
		_, err := d.Decode(bytes.NewReader(b))
		if err == nil {
			v.Cover("A02 value decoded")
		} else {
			v.Cover("A02 value refused")
		}
	} else {
		_, err := d.DecodeBatch(bytes.NewReader(b))
		if err == nil {
			v.Cover("A02 batch decoded")
		} else {
			v.Cover("A02 batch refused")
		}
	}
	v.AllocOff()
}

// u29 is the shortest form of x, or with long set the 4-byte form (the reader takes both).
func u29(x uint32) []byte {
	switch {
	case x < 1<<7:
		return []byte{byte(x)}
	case x < 1<<14:
		return []byte{byte(x>>7) | 0x80, byte(x) & 0x7f}
	case x < 1<<21:
		return []byte{byte(x>>14) | 0x80, byte(x>>7) | 0x80, byte(x) & 0x7f}
	}
	return []byte{byte(x>>22) | 0x80, byte(x>>15) | 0x80, byte(x>>8) | 0x80, byte(x)}
}

// A02_lengths: every value of every length and count field (for byte strings of 4..5100 bytes those next
// to the size of what follows and to the preallocation limit), with bodies of several sizes behind it.
func A02_lengths() {
	m := v.Pick(0, 1, 3, 300, 4095, 4096, 4097, 5000)
	k := v.Choose(4)
	if k >= 2 {
		m = v.Pick(0, 1, 3, 20, 100)
	}
	body := make([]byte, m)
	for i := range body {
		body[i] = 1
	}
	x := v.U32()
	v.Assume(x < 1<<28)
	var h []byte
	switch k {
	case 0:
		v.Assume(near(uint64(x), m))
		h = u.Cat([]byte{byte(v.Pick(0x06, 0x07, 0x0b, 0x0c))}, u29(x<<1|1))
	case 1:
		// array with a long first key, object with a long type name
		v.Assume(near(uint64(x), m))
		h = u.Cat(v.PickB([]byte{0x09, 0x03}, []byte{0x0a, 0x13}), u29(x<<1|1))
	case 2:
		h = u.Cat([]byte{0x09}, u29(x<<1|1), []byte{0x01})
	case 3:
		// trait with any number of members and flags, anonymous type
		h = u.Cat([]byte{0x0a}, u29(x<<1|1), []byte{0x01})
	}
	b := u.Cat(h, body)
	v.AllocLimit(memLimit(len(b)))
	_, err := amf.NewEnDecAMF3().Decode(bytes.NewReader(b))
	v.AllocOff()
	if err == nil {
		v.Cover("A02 announced length present")
	} else {
		v.Cover("A02 announced length missing")
	}
}

// A02_external: every byte sequence inside an externalizable object of each class that has a decoder.
func A02_external() {
	d := amf.NewEnDecAMF3()
	d.RegisterExternalHandler("x", func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return ed.Decode(r) })
	name := []string{"DSA", "DSK", "flex.messaging.io.ArrayCollection", "x", "y", ""}[v.Choose(6)]
	n := v.Choose(v.Param("external", 5) + 1)
	b := u.Cat([]byte{10, 7}, u29(uint32(len(name))<<1|1), []byte(name), v.Bytes(n))
	v.AllocLimit(memLimit(len(b)))
	_, err := d.DecodeBatch(bytes.NewReader(b))
	v.AllocOff()
	if err == nil {
		v.Cover("A02 external object decoded")
	} else {
		v.Cover("A02 external object refused")
	}
}
