package hamf

import (
	"bytes"
	"io"
	"math"
	"time"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// node3 is a value to encode as AMF3 and the test of its decoded form.
type node3 struct {
	val   any
	check func(got any) bool
}

// isNum says that got, an AMF3 integer or double, is the number x (f as a float).
func isNum(got any, x int64, f float64) bool {
	switch g := got.(type) {
	case uint32:
		return int64(g) == x
	case float64:
		return v.EqF(g, f)
	}
	return false
}

func small3() node3 {
	switch v.Choose(10) {
	case 0:
		x := int8(v.U8())
		return node3{x, func(g any) bool { return isNum(g, int64(x), float64(x)) }}
	case 1:
		x := int16(v.U16())
		return node3{x, func(g any) bool { return isNum(g, int64(x), float64(x)) }}
	case 2:
		x := v.I32()
		return node3{x, func(g any) bool { return isNum(g, int64(x), float64(x)) }}
	case 3:
		x := int(v.I64())
		return node3{x, func(g any) bool { return isNum(g, int64(x), float64(x)) }}
	case 4:
		x := v.U8()
		return node3{x, func(g any) bool { return isNum(g, int64(x), float64(x)) }}
	case 5:
		x := v.U16()
		return node3{x, func(g any) bool { return isNum(g, int64(x), float64(x)) }}
	case 6:
		x := v.U32()
		return node3{x, func(g any) bool { return isNum(g, int64(x), float64(x)) }}
	case 7:
		x := uint(v.U64())
		return node3{x, func(g any) bool {
			if q, ok := g.(uint32); ok {
				return uint64(q) == uint64(x)
			}
			return isF(g, float64(x))
		}}
	case 8:
		x := v.I64()
		return node3{x, func(g any) bool { return isNum(g, x, float64(x)) }}
	}
	x := v.U64()
	return node3{x, func(g any) bool {
		if q, ok := g.(uint32); ok {
			return uint64(q) == x
		}
		return isF(g, float64(x))
	}}
}

func leaf3() node3 {
	switch v.Choose(7) {
	case 0:
		return node3{nil, func(g any) bool { return g == nil }}
	case 1:
		b := v.Bool()
		return node3{b, func(g any) bool { q, ok := g.(bool); return ok && q == b }}
	case 2:
		f := v.F64()
		return node3{f, func(g any) bool { return isF(g, f) }}
	case 3:
		return small3()
	case 4:
		b := v.Bytes(v.Choose(4))
		return node3{b, func(g any) bool { q, ok := g.([]byte); return ok && u.Eq(q, b) }}
	case 5:
		t, ms := moment()
		return node3{t, func(g any) bool { q, ok := g.(time.Time); return ok && q.Equal(time.UnixMilli(ms)) }}
	}
	s := v.Str(v.Choose(4))
	return node3{s, func(g any) bool { return isS(g, s) }}
}

func tiny3() node3 {
	switch v.Choose(3) {
	case 0:
		x := v.U32()
		v.Assume(x < 1<<29)
		return node3{x, func(g any) bool { return isNum(g, int64(x), 0) }}
	case 1:
		s := v.Str(1)
		return node3{s, func(g any) bool { return isS(g, s) }}
	}
	b := v.Bytes(1)
	return node3{b, func(g any) bool { q, ok := g.([]byte); return ok && u.Eq(q, b) }}
}

func dense(g any) (amf.Array, bool) {
	q, ok := g.(amf.EcmaArrayAMF3)
	if !ok {
		return nil, false
	}
	a, ok := v.FieldOf(q, amf.Array{}).(amf.Array)
	o, ok2 := v.FieldOf(q, amf.Object{}).(amf.Object)
	return a, ok && ok2 && len(o) == 0
}

func val3(depth, width int) node3 {
	if depth == 0 {
		return tiny3()
	}
	switch v.Choose(4) {
	case 0:
		return tiny3()
	case 1, 2:
		n := v.Choose(width + 1)
		o := amf.Object{}
		var ks []string
		var ns []node3
		for i := 0; i < n; i++ {
			k := key(1 + i%2)
			if i == 1 && v.Bool() {
				k = ""
			}
			if i == 2 {
				v.Assume(k != ks[0])
			}
			x := val3(depth-1, width)
			ks, ns = append(ks, k), append(ns, x)
			o[k] = x.val
		}
		chk := func(g any) bool {
			q, ok := g.(amf.Object)
			if !ok || len(q) != n {
				return false
			}
			for i, k := range ks {
				x, ok := q[k]
				if !ok || !ns[i].check(x) {
					return false
				}
			}
			return true
		}
		if v.Bool() {
			return node3{amf.TypedObject{Type: v.Str(2), Object: o}, chk}
		}
		return node3{o, chk}
	}
	n := v.Choose(width + 1)
	arr := amf.Array{}
	var ns []node3
	for i := 0; i < n; i++ {
		x := val3(depth-1, width)
		arr = append(arr, x.val)
		ns = append(ns, x)
	}
	return node3{arr, func(g any) bool {
		a, ok := dense(g)
		if !ok || len(a) != n {
			return false
		}
		for i := range ns {
			if !ns[i].check(a[i]) {
				return false
			}
		}
		return true
	}}
}

func roundTrip3(x node3) {
	w := u.NewWriter()
	n, err := amf.NewEnDecAMF3().Encode(w, x.val)
	v.Assert(err == nil, "a representable value is encoded")
	v.Assert(n == len(w.B), "the returned count is the number of bytes written")
	v.ObsI("len", int64(n))
	r := bytes.NewReader(append(append([]byte(nil), w.B...), v.U8()))
	got, err := amf.NewEnDecAMF3().Decode(r)
	v.Assert(err == nil, "an encoded value decodes")
	v.Assert(r.Len() == 1, "decoding consumes exactly the bytes written")
	v.Assert(x.check(got), "the decoded value equals the encoded one")
	v.Cover("A05 round trip")
}

// A05_leaf: every value without members.
func A05_leaf() { roundTrip3(leaf3()) }

// A05_typed: Go slices and arrays of other element types, named types and float32.
func A05_typed() {
	switch v.Choose(5) {
	case 0:
		x, y := v.Str(1), v.Str(2)
		roundTrip3(node3{[]string{x, y}, func(g any) bool {
			a, ok := dense(g)
			return ok && len(a) == 2 && isS(a[0], x) && isS(a[1], y)
		}})
	case 1:
		x, y := v.U8(), v.U8()
		roundTrip3(node3{[2]uint8{x, y}, func(g any) bool {
			a, ok := dense(g)
			return ok && len(a) == 2 && isNum(a[0], int64(x), float64(x)) && isNum(a[1], int64(y), float64(y))
		}})
	case 2:
		x := myInt(v.U16())
		roundTrip3(node3{[]myInt{x}, func(g any) bool {
			a, ok := dense(g)
			return ok && len(a) == 1 && isNum(a[0], int64(x), float64(x))
		}})
	case 3:
		s := v.Str(2)
		roundTrip3(node3{myStr(s), func(g any) bool { return isS(g, s) }})
	case 4:
		x := math.Float32frombits(v.U32())
		v.Assume(x == x)
		roundTrip3(node3{x, func(g any) bool { return isF(g, float64(x)) }})
	}
}

// A05_nested: objects, typed objects and arrays of values.
func A05_nested() { roundTrip3(val3(v.Param("depth", 2), v.Param("width", 2))) }

// A05_long: strings, byte arrays and arrays around the limits of their header's forms.
func A05_long() {
	n := v.Pick(62, 63, 64, 65, 127, 128, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 70000)
	if v.Param("thorough", 0) == 1 && v.Bool() {
		n = v.Pick(1048575, 1048576)
	}
	b := make([]byte, n)
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		b[i] = v.U8()
	}
	switch v.Choose(4) {
	case 0:
		s := string(b)
		roundTrip3(node3{s, func(g any) bool { return isS(g, s) }})
	case 1:
		roundTrip3(node3{b, func(g any) bool { q, ok := g.([]byte); return ok && u.Eq(q, b) }})
	case 2:
		// a long key
		s := string(b)
		roundTrip3(node3{amf.Object{s: true}, func(g any) bool { o, ok := g.(amf.Object); return ok && len(o) == 1 && o[s] == true }})
	case 3:
		m := v.Pick(63, 64, 65, 300)
		arr := make(amf.Array, m)
		x := v.U8()
		arr[m-1] = x
		roundTrip3(node3{arr, func(g any) bool {
			a, ok := dense(g)
			if !ok || len(a) != m {
				return false
			}
			for i := 0; i < m-1; i++ {
				if a[i] != nil {
					return false
				}
			}
			return isNum(a[m-1], int64(x), 0)
		}})
	}
}

// counter counts what it is given and keeps the first bytes.
type counter struct {
	n    int
	head []byte
}

func (c *counter) Write(p []byte) (int, error) {
	c.n += len(p)
	for i := 0; i < len(p) && len(c.head) < 6; i++ {
		c.head = append(c.head, p[i])
	}
	return len(p), nil
}

// A05_toolong: byte arrays whose length does not fit the header are refused.
func A05_toolong() {
	n := v.Pick(1<<28-1, 1<<28, 1<<28+1, 1<<29)
	c := &counter{}
	var w io.Writer = c
	k, err := amf.NewEnDecAMF3().Encode(w, make([]byte, n))
	if n < 1<<28 {
		v.Assert(err == nil, "a byte array that fits is encoded")
		v.Assert(k == c.n && c.n == n+5, "the returned count is the number of bytes written")
		v.Assert(u.Eq(c.head[:5], []byte{0x0c, 0xff, 0xff, 0xff, 0xff}), "the header holds the length")
		v.Cover("A05 longest")
	} else {
		v.Assert(err != nil, "whenever encoding succeeds its output is decodable")
		v.Cover("A05 too long")
	}
}

// A05_batch: a batch of values decodes to the same values.
func A05_batch() {
	n := v.Choose(v.Param("batch", 2) + 1)
	var xs []node3
	var args []interface{}
	for i := 0; i < n; i++ {
		x := leaf3()
		xs, args = append(xs, x), append(args, x.val)
	}
	w := u.NewWriter()
	err := amf.NewEnDecAMF3().EncodeBatch(w, args...)
	v.Assert(err == nil, "a batch of representable values is encoded")
	got, err := amf.NewEnDecAMF3().DecodeBatch(bytes.NewReader(w.B))
	v.Assert(err == nil, "an encoded batch decodes")
	v.Assert(len(got) == n, "a batch keeps its values")
	for i := range xs {
		v.Assert(xs[i].check(got[i]), "each value of the batch equals the encoded one")
	}
	v.Cover("A05 batch")
}

// A05_wide: objects and arrays of more members.
func A05_wide() { roundTrip3(val3(1, v.Param("wide", 3))) }

// A05_spine: chains of containers.
func A05_spine() {
	x := tiny3()
	for i := 0; i < v.Param("spine", 6); i++ {
		in := x
		switch v.Choose(3) {
		case 0:
			x = node3{amf.Array{in.val}, func(g any) bool { a, ok := dense(g); return ok && len(a) == 1 && in.check(a[0]) }}
		case 1:
			x = node3{amf.Object{"k": in.val}, func(g any) bool {
				o, ok := g.(amf.Object)
				return ok && len(o) == 1 && in.check(o["k"])
			}}
		case 2:
			x = node3{amf.TypedObject{Type: "T", Object: amf.Object{"k": in.val}}, func(g any) bool {
				o, ok := g.(amf.Object)
				return ok && len(o) == 1 && in.check(o["k"])
			}}
		}
	}
	roundTrip3(x)
}

// A05_members: objects of many members.
func A05_members() {
	o, chk := wideObject()
	obj := func(g any) bool { q, ok := g.(amf.Object); return ok && chk(q) }
	switch v.Choose(3) {
	case 0:
		roundTrip3(node3{o, obj})
	case 1:
		roundTrip3(node3{amf.TypedObject{Type: "T", Object: o}, obj})
	case 2:
		roundTrip3(node3{amf.Array{o, o}, func(g any) bool {
			a, ok := dense(g)
			return ok && len(a) == 2 && obj(a[0]) && obj(a[1])
		}})
	}
}
