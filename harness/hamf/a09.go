package hamf

import (
	"bytes"
	"fmt"
	"io"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

func lit3(s string) []byte { return u.Cat(u29(uint32(len(s))<<1|1), []byte(s)) }

func int3() ([]byte, uint32) {
	x := v.U8() & 0x7f
	return []byte{4, x}, uint32(x)
}

// A09_members: sealed members in the trait's order, then dynamic ones up to the empty key.
func A09_members() {
	n := v.Choose(v.Param("sealed", 3) + 1)
	dyn := v.Bool()
	h := uint32(n)<<4 | 3
	if dyn {
		h |= 8
	}
	b := u.Cat([]byte{10}, u29(h), lit3(v.Str(v.Choose(2))))
	var ks []string
	for i := 0; i < n; i++ {
		k := v.Str(1 + i%2)
		if i >= 2 {
			v.Assume(k != ks[i-2])
		}
		ks = append(ks, k)
		b = append(b, lit3(k)...)
	}
	var xs []uint32
	for i := 0; i < n; i++ {
		e, x := int3()
		b = append(b, e...)
		xs = append(xs, x)
	}
	m := 0
	if dyn {
		m = v.Choose(3)
		for i := 0; i < m; i++ {
			k := v.Str(3 + i)
			ks = append(ks, k)
			e, x := int3()
			b = append(b, lit3(k)...)
			b = append(b, e...)
			xs = append(xs, x)
		}
		b = append(b, 1)
	}
	b = append(b, v.Bytes(2)...)
	r := bytes.NewReader(b)
	got, err := amf.NewEnDecAMF3().Decode(r)
	v.Assert(err == nil, "an object with its members decodes")
	o, ok := got.(amf.Object)
	v.Assert(ok && len(o) == n+m, "every member is read, and nothing else")
	for i, k := range ks {
		x, ok := o[k]
		v.Assert(ok && isNum(x, int64(xs[i]), float64(xs[i])), "each member has its value")
	}
	v.Assert(r.Len() == 2, "exactly the object's bytes are consumed")
	v.Cover("A09 members")
}

// A09_handler: externalizable objects go to the handler of their class, whatever the other flags.
func A09_handler() {
	name := v.Str(2)
	other := v.Str(2)
	h := uint32(7)
	if v.Bool() {
		h |= 8 // also flagged dynamic
	}
	body := v.Bytes(2)
	b := u.Cat([]byte{10}, u29(h), lit3(name), body, []byte{4, 9})
	var d interface {
		amf.Decoder
		RegisterExternalHandler(string, amf.ExternalHandler)
	}
	if v.Bool() {
		d = amf.NewEnDecAMF3()
	} else {
		d = amf.NewEnDecAMF0()
		b = u.Cat([]byte{17}, b)
	}
	calls := 0
	fail := v.Bool()
	d.RegisterExternalHandler(other, func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
		calls++
		var p [2]byte
		if _, err := io.ReadFull(r, p[:]); err != nil {
			return nil, err
		}
		if fail {
			return nil, u.ErrRead
		}
		return string(p[:]), nil
	})
	r := bytes.NewReader(b)
	got, err := d.Decode(r)
	if name != other {
		v.Assert(err != nil && calls == 0, "an externalizable class nobody handles is an error")
		v.Cover("A09 no handler")
		return
	}
	v.Assert(calls == 1, "the handler of the class is called once")
	if fail {
		v.Assert(err != nil, "a handler's error is reported")
		return
	}
	v.Assert(err == nil && isS(got, string(body)), "the handler's value is the object's")
	v.Assert(r.Len() == 2, "decoding goes on where the handler stopped")
	v.Cover("A09 handler")
}

// A09_collection: an array collection is the value inside it.
func A09_collection() {
	e, x := int3()
	b := u.Cat([]byte{10, 7}, lit3("flex.messaging.io.ArrayCollection"), []byte{9, 3, 1}, e)
	r := bytes.NewReader(b)
	got, err := amf.NewEnDecAMF3().Decode(r)
	v.Assert(err == nil && r.Len() == 0, "an array collection decodes")
	a, ok := dense(got)
	v.Assert(ok && len(a) == 1 && isNum(a[0], int64(x), float64(x)), "the collection is the array inside it")
	v.Cover("A09 collection")
}

type flagged struct {
	b    []byte
	keys []string
	vals []uint32
}

// flags writes the flag bytes of one level and a value for each bit set; base is the number of flag bytes of the level
// already written.
func (f *flagged) flags(sets [][]string, base, nb int, mask byte) {
	fs := make([]byte, nb)
	for i := range fs {
		fs[i] = v.U8() & mask
		h := fs[i]
		if i < nb-1 {
			h |= 0x80
		}
		f.b = append(f.b, h)
	}
	for i, x := range fs {
		var names []string
		if base+i < len(sets) {
			names = sets[base+i]
		}
		for j := 0; j < 7; j++ {
			if x>>uint(j)&1 == 0 {
				continue
			}
			k := fmt.Sprintf("extra_%d_%d", base+i, j)
			if j < len(names) {
				k = names[j]
			}
			for _, q := range f.keys {
				if q == k {
					v.Skip() // an unknown flag of the same place in two levels
				}
			}
			e, y := int3()
			f.b = append(f.b, e...)
			f.keys = append(f.keys, k)
			f.vals = append(f.vals, y)
		}
	}
}

func (f *flagged) check() {
	r := bytes.NewReader(u.Cat(f.b, []byte{4, 5}))
	got, err := amf.NewEnDecAMF3().Decode(r)
	v.Assert(err == nil, "a message decodes")
	o, ok := got.(amf.Object)
	v.Assert(ok && len(o) == len(f.keys), "exactly the flagged members are read")
	for i, k := range f.keys {
		y, ok := o[k]
		v.Assert(ok && isNum(y, int64(f.vals[i]), float64(f.vals[i])), "each flagged member has its value")
	}
	v.Assert(r.Len() == 2, "exactly the message's bytes are consumed")
}

var (
	abstract = [][]string{
		{"body", "clientId", "destination", "headers", "messageId", "timeStamp", "timeToLive"},
		{"clientIdBytes", "messageIdBytes"},
	}
	async = [][]string{{"correlationId", "correlationIdBytes"}}
)

func message(class string) *flagged {
	return &flagged{b: u.Cat([]byte{10, 7}, lit3(class))}
}

// A09_abstract: every combination of the first flag byte of the built-in messages.
func A09_abstract() {
	f := message("DSA")
	f.flags(abstract, 0, 1, 0x7f)
	f.b = append(f.b, 0)
	f.check()
	v.Cover("A09 abstract message")
}

// A09_second: the second and third flag bytes.
func A09_second() {
	f := message("DSA")
	mask := byte(v.Param("mask", 0x47))
	if v.Bool() {
		f.flags(abstract, 0, 2, mask)
	} else {
		f.b = append(f.b, 0x80)
		f.flags(abstract, 1, 1+v.Choose(2), mask)
	}
	f.b = append(f.b, 0)
	f.check()
	v.Cover("A09 more flag bytes")
}

// A09_last: many flag bytes, of which some say nothing.
func A09_last() {
	class, k := "DSA", v.Pick(2, 3, 6, 7, 8, 15, 16, 40)
	if v.Bool() {
		class = "DSK"
	}
	f := message(class)
	skip := func(sets [][]string, k int) {
		for i := 0; i < k; i++ {
			f.b = append(f.b, 0x80)
		}
		f.flags(sets, k, 1, byte(v.Param("mask", 0x47)))
	}
	levels := [][][]string{abstract, async, nil}[:2]
	if class == "DSK" {
		levels = levels[:3]
	}
	at := v.Choose(len(levels))
	for i, sets := range levels {
		if i == at {
			skip(sets, k)
		} else {
			f.b = append(f.b, 0)
		}
	}
	f.check()
	v.Cover("A09 many flag bytes")
}

// A09_async: the flag bytes of asynchronous messages.
func A09_async() {
	f := message("DSA")
	mask := byte(v.Param("mask", 0x47))
	f.flags(abstract, 0, 1, 0x41)
	f.flags(async, 0, 1+v.Choose(2), mask)
	f.check()
	v.Cover("A09 async message")
}

// A09_acknowledge: the flag bytes of acknowledge messages, which have one more level without known members.
func A09_acknowledge() {
	f := message("DSK")
	mask := byte(v.Param("mask", 0x47))
	f.flags(abstract, 0, 1, 0x41)
	f.flags(async, 0, 1, mask)
	f.flags(nil, 0, 1+v.Choose(2), mask)
	f.check()
	v.Cover("A09 acknowledge message")
}

// A09_many: objects of many sealed members, more than one byte of the header counts; a second object
// refers to the traits of the first.
func A09_many() {
	n := []int{14, 16, 31, 64, 255, 256, 300, 1030}[v.Choose(8)]
	dyn := v.Bool()
	h := uint32(n)<<4 | 3
	if dyn {
		h |= 8
	}
	b := u.Cat([]byte{10}, u29(h), lit3("c"))
	var ks []string
	for i := 0; i < n; i++ {
		ks = append(ks, string([]byte{byte('a' + i&7), byte('a' + i>>3&7), byte('a' + i>>6)}))
		b = append(b, lit3(ks[i])...)
	}
	body := func() (xs []uint32) {
		for i := 0; i < n; i++ {
			if i == 0 || i == n/2 || i == n-1 {
				e, x := int3()
				b, xs = append(b, e...), append(xs, x)
			} else {
				b, xs = append(b, 4, byte(i&0x7f)), append(xs, uint32(i&0x7f))
			}
		}
		if dyn {
			e, x := int3()
			b = append(b, lit3("dynamic")...)
			b, xs = append(append(b, e...), 1), append(xs, x)
		}
		return xs
	}
	first := body()
	b = append(b, 10, 1) // the first traits again
	second := body()
	if dyn {
		ks = append(ks, "dynamic")
	}
	r := bytes.NewReader(b)
	ed := amf.NewEnDecAMF3()
	for _, xs := range [][]uint32{first, second} {
		got, err := ed.Decode(r)
		v.Assert(err == nil, "an object with many members decodes")
		o, ok := got.(amf.Object)
		v.Assert(ok && len(o) == len(ks), "every member is read, and nothing else")
		for i, k := range ks {
			x, ok := o[k]
			v.Assert(ok && isNum(x, int64(xs[i]), float64(xs[i])), "each member has its value")
		}
	}
	v.Assert(r.Len() == 0, "exactly the objects' bytes are consumed")
	v.Cover("A09 many")
}
