package hamf

import (
	"time"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// same says that two decoded values are equal, NaNs and all.
func same(a, b any, depth int) bool {
	if depth == 0 {
		return true
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case uint32:
		y, ok := b.(uint32)
		return ok && x == y
	case float64:
		return isF(b, x)
	case string:
		return isS(b, x)
	case []byte:
		y, ok := b.([]byte)
		return ok && u.Eq(x, y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case amf.Object:
		y, ok := b.(amf.Object)
		return ok && sameObj(x, y, depth)
	case amf.TypedObject:
		y, ok := b.(amf.TypedObject)
		return ok && len(x.Type) == len(y.Type) && v.EqS(x.Type, y.Type) && sameObj(x.Object, y.Object, depth)
	case amf.Array:
		y, ok := b.(amf.Array)
		return ok && sameArr(x, y, depth)
	case amf.EcmaArrayAMF3:
		y, ok := b.(amf.EcmaArrayAMF3)
		if !ok {
			return false
		}
		ax, _ := v.FieldOf(x, amf.Array{}).(amf.Array)
		ay, _ := v.FieldOf(y, amf.Array{}).(amf.Array)
		ox, _ := v.FieldOf(x, amf.Object{}).(amf.Object)
		oy, _ := v.FieldOf(y, amf.Object{}).(amf.Object)
		return sameArr(ax, ay, depth) && sameObj(ox, oy, depth)
	}
	return false
}

func sameObj(x, y amf.Object, depth int) bool {
	if len(x) != len(y) {
		return false
	}
	ok := true
	for k, e := range x {
		f, in := y[k]
		ok = ok && in && same(e, f, depth-1)
	}
	return ok
}

func sameArr(x, y amf.Array, depth int) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !same(x[i], y[i], depth-1) {
			return false
		}
	}
	return true
}

func decoder(three bool) amf.Decoder {
	if three {
		return amf.NewEnDecAMF3()
	}
	return amf.NewEnDecAMF0()
}

// A10_bytes: any bytes, delivered in any of the ways, give what they give delivered whole.
func A10_bytes() {
	three := v.Bool()
	b := v.Bytes(v.Choose(v.Param("n", 5) + 1))
	mode := 1 + v.Choose(u.Modes-1)
	p, q := &u.Reader{B: b}, &u.Reader{B: b, Mode: mode}
	v.AllocLimit(1 << 30)
	x, errx := decoder(three).Decode(p)
	y, erry := decoder(three).Decode(q)
	v.Assert((errx == nil) == (erry == nil), "whether a value decodes does not depend on the delivery")
	if errx != nil {
		v.Cover("A10 bytes rejected")
		return
	}
	v.Assert(p.Pos == q.Pos, "the bytes consumed do not depend on the delivery")
	v.Assert(same(x, y, 4), "the value does not depend on the delivery")
	v.Cover("A10 bytes")
}

// A10_batch: the same for all the values of the bytes.
func A10_batch() {
	three := v.Bool()
	b := v.Bytes(v.Choose(v.Param("nb", 4) + 1))
	mode := 1 + v.Choose(u.Modes-1)
	x, errx := decoder(three).DecodeBatch(&u.Reader{B: b})
	y, erry := decoder(three).DecodeBatch(&u.Reader{B: b, Mode: mode})
	v.Assert((errx == nil) == (erry == nil), "whether the values decode does not depend on the delivery")
	if errx == nil {
		v.Assert(sameArr(x, y, 4), "the values do not depend on the delivery")
		v.Cover("A10 batch")
	}
}

// encoded is some encoded value of either format and the test of the decoded one.
func encoded(three bool) ([]byte, func(any) bool) {
	if three {
		var x node3
		if v.Bool() {
			x = leaf3()
		} else {
			x = val3(v.Param("depth", 1), v.Param("width", 2))
		}
		w := u.NewWriter()
		_, err := amf.NewEnDecAMF3().Encode(w, x.val)
		v.Assert(err == nil, "a representable value is encoded")
		return w.B, x.check
	}
	var x node
	switch v.Choose(3) {
	case 0:
		x = leaf0(true)
	case 1:
		x = val0(v.Param("depth", 1), v.Param("width", 2))
	case 2:
		x = special0(1)
	}
	return x.alts[v.Choose(len(x.alts))], x.check
}

// A10_values: values of every kind decode the same however they are delivered.
func A10_values() {
	three := v.Bool()
	b, check := encoded(three)
	r := &u.Reader{B: u.Cat(b, v.Bytes(2)), Mode: v.Choose(u.Modes)}
	got, err := decoder(three).Decode(r)
	v.Assert(err == nil, "a value decodes however it is delivered")
	v.Assert(check(got), "the value does not depend on the delivery")
	v.Assert(r.Pos == len(b), "the bytes consumed do not depend on the delivery")
	v.Cover("A10 values")
}

// A10_cut: a value cut short anywhere is an error.
func A10_cut() {
	three := v.Bool()
	b, _ := encoded(three)
	cut := v.Choose(len(b))
	mode := v.Pick(u.Whole, u.Bytewise, u.WithEOF)
	_, err := decoder(three).Decode(&u.Reader{B: b[:cut], Mode: mode})
	v.Assert(err != nil, "a stream that ends inside a value is an error")
	if cut > 0 {
		_, err = decoder(three).DecodeBatch(&u.Reader{B: b[:cut], Mode: mode})
		v.Assert(err != nil, "a batch that ends inside a value is an error")
		_, err = decoder(three).DecodeBatch(&u.Reader{B: u.Cat(b, b[:cut]), Mode: mode})
		v.Assert(err != nil, "a batch that ends inside its second value is an error")
	}
	v.Cover("A10 cut")
}

// A10_long: strings and byte arrays longer than the decoders allocate for in advance, whole and cut.
func A10_long() {
	n := v.Pick(4095, 4096, 4097, 5000, 65535, 70000)
	b := make([]byte, n)
	for _, i := range []int{0, 4095, n / 2, n - 1} {
		if i < n {
			b[i] = v.U8()
		}
	}
	var e []byte
	three := v.Bool()
	check := func(g any) bool { return isS(g, string(b)) }
	if three {
		switch v.Choose(3) {
		case 0:
			e = u.Cat([]byte{6}, u29(uint32(n)<<1|1), b)
		case 1:
			e = u.Cat([]byte{0xc}, u29(uint32(n)<<1|1), b)
			check = func(g any) bool { q, ok := g.([]byte); return ok && u.Eq(q, b) }
		case 2:
			e = u.Cat([]byte{0xb}, u29(uint32(n)<<1|1), b)
		}
	} else if n <= 65535 && v.Bool() {
		e = u.Cat([]byte{2}, u.BE(uint64(n), 2), b)
	} else {
		e = u.Cat([]byte{byte(v.Pick(12, 15))}, u.BE(uint64(n), 4), b)
	}
	mode := v.Pick(u.Whole, u.Kilo, u.WithEOF)
	cut := v.Pick(0, 1, 2, n-4096, n-1, n)
	if cut > 0 {
		if cut < 0 || cut > n {
			v.Skip()
		}
		r := &u.Reader{B: e[:len(e)-cut], Mode: mode}
		_, err := decoder(three).Decode(r)
		v.Assert(err != nil, "a stream that ends inside a value is an error")
		_, err = decoder(three).DecodeBatch(&u.Reader{B: e[:len(e)-cut], Mode: mode})
		v.Assert(err != nil, "a batch that ends inside a value is an error")
		v.Cover("A10 long cut")
		return
	}
	tail := v.Choose(2)
	r := &u.Reader{B: append(append([]byte(nil), e...), make([]byte, tail)...), Mode: mode}
	got, err := decoder(three).Decode(r)
	v.Assert(err == nil && check(got), "a long value decodes however it is delivered")
	v.Assert(r.Pos == len(e), "exactly its bytes are consumed")
	v.Cover("A10 long")
}

// fails is a reader that breaks with an error of its own.
type fails struct {
	b   []byte
	pos int
}

func (f *fails) Read(p []byte) (int, error) {
	if f.pos == len(f.b) {
		return 0, u.ErrRead
	}
	n := copy(p, f.b[f.pos:])
	f.pos += n
	return n, nil
}

// A10_broken: a reader that fails is an error wherever it does, also between the values of a batch.
func A10_broken() {
	three := v.Bool()
	b, _ := encoded(three)
	cut := v.Choose(len(b))
	_, err := decoder(three).Decode(&fails{b: b[:cut]})
	v.Assert(err != nil, "a reader that fails inside a value is an error")
	_, err = decoder(three).DecodeBatch(&fails{b: b[:cut]})
	v.Assert(err != nil, "a reader that fails inside a value is an error")
	_, err = decoder(three).DecodeBatch(&fails{b: b})
	v.Assert(err != nil, "a reader that fails between values is an error")
	v.Cover("A10 broken reader")
}
