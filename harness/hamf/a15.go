package hamf

import (
	"io"
	"time"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// text is a stream with values of many kinds and references between them, and the test of what it decodes to.
type text struct {
	three bool
	b     []byte
	check func(got any) bool
}

func someText() *text {
	t := &text{three: v.Bool()}
	k := v.Pick(2, 8, 33)
	x, y, z := v.Str(k), v.Str(1), v.Bytes(k)
	n := v.U8()
	v.Assume(n < 0x80)
	// an array of a string, the same by reference, bytes, the same by reference, two objects of one class, the first of them, and a document
	b := u.Cat([]byte{9, 8<<1 | 1, 1},
		[]byte{6}, lit3(x), []byte{6, 0},
		[]byte{12}, lit3(string(z)), []byte{12, 1 << 1},
		[]byte{10, 0x13, 3, 'C'}, lit3("m"), []byte{4, n},
		[]byte{10, 1, 6}, lit3("q"),
		[]byte{10, 2 << 1},
		[]byte{11}, lit3("d"))
	is3 := func(got any) bool {
		e, ok := got.(amf.EcmaArrayAMF3)
		if !ok {
			return false
		}
		a, ok := v.FieldOf(e, amf.Array{}).(amf.Array)
		if !ok || len(a) != 8 || !isS(a[0], x) || !isS(a[1], x) || !isS(a[7], "d") {
			return false
		}
		for _, i := range []int{2, 3} {
			q, ok := a[i].([]byte)
			if !ok || !u.Eq(q, z) {
				return false
			}
		}
		for _, i := range []int{4, 5, 6} {
			o, ok := a[i].(amf.Object)
			if !ok {
				return false
			}
			m, has := o["m"]
			if !has || len(o) != 1 {
				return false
			}
			if i == 5 && !isS(m, "q") || i != 5 && !isNum(m, int64(n), float64(n)) {
				return false
			}
		}
		return true
	}
	if t.three {
		t.b, t.check = b, is3
		return t
	}
	f := float64(n)
	// an object with a string, an array with a number and a reference to an object of a class, and a value of AMF3
	t.b = u.Cat([]byte{3}, str0("s"), []byte{2}, str0(x),
		str0("t"), []byte{16}, str0("T"), str0("y"), []byte{2}, str0(y), []byte{0, 0, 9},
		str0("a"), []byte{10, 0, 0, 0, 2}, num0(f), []byte{7, 0, 1},
		str0("l"), []byte{12, 0, 0, 0, 1}, []byte(y),
		str0("v"), []byte{17}, b,
		[]byte{0, 0, 9})
	t.check = func(got any) bool {
		o, ok := got.(amf.Object)
		if !ok || len(o) != 5 || !isS(o["s"], x) || !isS(o["l"], y) || !is3(o["v"]) {
			return false
		}
		a, ok := o["a"].(amf.Array)
		if !ok || len(a) != 2 || !isF(a[0], f) {
			return false
		}
		for _, q := range []any{o["t"], a[1]} {
			c, ok := q.(amf.TypedObject)
			if !ok || c.Type != "T" || len(c.Object) != 1 || !isS(c.Object["y"], y) {
				return false
			}
		}
		return true
	}
	return t
}

func (t *text) decode(r io.Reader) {
	got, err := decoder(t.three).Decode(r)
	v.Assert(err == nil && t.check(got), "a decoder gives what it would have given alone")
}

// A15_decode: a decoder is used while another one waits for its input.
func A15_decode() {
	a, b := someText(), someText()
	h := &u.Hook{At: v.Choose(v.Param("places", 90))}
	h.F = func() { b.decode(&u.Reader{B: b.b}) }
	a.decode(u.HookReader{Reader: &u.Reader{B: a.b, Mode: v.Pick(u.Whole, u.Halves)}, Hook: h})
	h.Done()
	v.Cover("A15 decode")
}

// A15_handlers: a handler belongs to the decoder it was registered with.
func A15_handlers() {
	name := v.Str(1)
	read := func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return ed.Decode(r) }
	a, b := amf.NewEnDecAMF3(), amf.NewEnDecAMF3()
	a.RegisterExternalHandler(name, read)
	body := u.Cat([]byte{10, 7}, lit3(name), []byte{4, 9})
	_, err := b.Decode(&u.Reader{B: body})
	v.Assert(err != nil, "an externalizable class nobody handles is an error")
	_, err = amf.NewEnDecAMF0().Decode(&u.Reader{B: u.Cat([]byte{17}, body)})
	v.Assert(err != nil, "an externalizable class nobody handles is an error")
	got, err := a.Decode(&u.Reader{B: body})
	v.Assert(err == nil && isNum(got, 9, 9), "the handler's value is the object's")
	v.Cover("A15 handlers")
}

// thing is a value to encode whose encoding has one form only.
func thing() func() any {
	s, z, f, n := v.Str(2), v.Bytes(2), v.F64(), v.U16()
	at := time.UnixMilli(int64(v.U16()))
	switch v.Choose(4) {
	case 0:
		return func() any { return amf.Array{s, f, amf.Array{at, n}} }
	case 1:
		return func() any {
			return amf.TypedObject{Type: "T", Object: amf.Object{"k": amf.Array{s, true, f}}}
		}
	case 2:
		return func() any { return append([]byte(nil), z...) }
	}
	return func() any { return amf.Array{amf.TypedObject{Object: amf.Object{"k": s}}, nil, n} }
}

type encoder interface {
	Encode(w io.Writer, val interface{}) (int, error)
}

func coder(three bool) encoder {
	if three {
		return amf.NewEnDecAMF3()
	}
	return amf.NewEnDecAMF0()
}

// A15_encode: an encoder is used while another one writes.
func A15_encode() {
	x, y := thing(), thing()
	p, q := v.Bool(), v.Bool()
	alone := func(three bool, val any) []byte {
		w := u.NewWriter()
		n, err := coder(three).Encode(w, val)
		if err != nil {
			v.Skip() // AMF0 has no bytes
		}
		v.Assert(n == len(w.B), "the returned count is the number of bytes written")
		return w.B
	}
	wx, wy := alone(p, x()), alone(q, y())
	w1, w2 := u.NewWriter(), u.NewWriter()
	h := &u.Hook{At: v.Choose(v.Param("writes", 50))}
	h.F = func() {
		_, err := coder(q).Encode(w2, y())
		v.Assert(err == nil && u.Eq(w2.B, wy), "an encoder writes what it would have written alone")
	}
	val, keep := x(), x()
	_, err := coder(p).Encode(u.HookWriter{Writer: w1, Hook: h}, val)
	h.Done()
	v.Assert(err == nil && u.Eq(w1.B, wx), "an encoder writes what it would have written alone")
	v.Assert(equal(val, keep), "a value is left unchanged by its encoding")
	v.Cover("A15 encode")
}

func equal(a, b any) bool {
	switch x := a.(type) {
	case amf.Array:
		y, ok := b.(amf.Array)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case amf.TypedObject:
		y, ok := b.(amf.TypedObject)
		return ok && x.Type == y.Type && len(x.Object) == len(y.Object) && equal(x.Object["k"], y.Object["k"])
	case []byte:
		y, ok := b.([]byte)
		return ok && u.Eq(x, y)
	case float64:
		return isF(b, x)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case string:
		return isS(b, x)
	}
	return a == b
}

// A15_kept: a decoded value stays as it is whatever happens to the input and whatever else is decoded.
func A15_kept() {
	a, b := someText(), someText()
	b.three = a.three
	d := decoder(a.three)
	if a.three != (b.b[0] == 9) {
		v.Skip()
	}
	r := &u.Reader{B: append([]byte(nil), a.b...)}
	got, err := d.Decode(r)
	v.Assert(err == nil && a.check(got), "a stream with valid references decodes")
	for i := range r.B {
		r.B[i] = 0xee
	}
	if v.Bool() {
		d = decoder(a.three)
	}
	more, err := d.Decode(&u.Reader{B: b.b})
	_ = more
	if err != nil {
		v.Assert(false, "a decoder goes on with the next stream")
	}
	v.Assert(a.check(got), "a decoded value stays as it is")
	v.Cover("A15 kept")
}

// A15_metadata: data with and without the command before it, in buffers that are used for other things afterwards.
func A15_metadata() {
	x, y := v.Bytes(2), v.Bytes(2)
	body := u.Cat([]byte{2}, str0("onMetaData"), x)
	other := u.Cat([]byte{2}, str0("onMetaData"), y)
	in := append([]byte(nil), body...)
	in = in[:len(in):len(in)]
	ad, err := amf.AddMetaHeader(in, amf.NewEnDecAMF0())
	v.Assert(err == nil && u.Eq(in, body), "the data is left unchanged")
	ad2, err := amf.AddMetaHeader(append([]byte(nil), other...), amf.NewEnDecAMF0())
	v.Assert(err == nil, "the command is put before the data")
	want, want2 := u.Cat([]byte{2}, str0("@setDataFrame"), body), u.Cat([]byte{2}, str0("@setDataFrame"), other)
	v.Assert(u.Eq(ad, want) && u.Eq(ad2, want2), "data with the command is that of its stream")
	d1, err1 := amf.DelMetaHeader(ad, amf.NewEnDecAMF0())
	d2, err2 := amf.DelMetaHeader(ad2, amf.NewEnDecAMF0())
	v.Assert(err1 == nil && err2 == nil && u.Eq(d1, body) && u.Eq(d2, other), "data without the command is that of its stream")
	v.Assert(u.Eq(ad, want) && u.Eq(ad2, want2), "the data is left unchanged")
	v.Cover("A15 metadata")
}
