package hamf

import (
	"bytes"
	"math"
	"time"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// rv is a value read by the reference decoders.
type rv struct {
	kind  byte // n null, b boolean, f number, i integer, s string, o object, t typed object, a array, e array of AMF3, y bytes, d date
	b     bool
	f     float64
	i     uint32
	s     []byte // string, bytes or class name
	keys  [][]byte
	kids  []*rv
	dense []*rv
	done  bool
}

// src are the bytes a reference decoder reads; short is set when they end early or say what the
// specification does not allow.
type src struct {
	b   []byte
	pos int
	bad bool
}

func (r *src) left() int { return len(r.b) - r.pos }

// take are the next n bytes; n may be symbolic.
func (r *src) take(n uint64) []byte {
	if r.bad || n > uint64(r.left()) {
		r.bad = true
		return nil
	}
	k := v.Conc(int(n))
	p := r.b[r.pos : r.pos+k]
	r.pos += k
	return p
}

func (r *src) num(n int) uint64 {
	x := uint64(0)
	for _, c := range r.take(uint64(n)) {
		x = x<<8 | uint64(c)
	}
	return x
}

// add puts a member into x; of two members of one name the later one counts.
func (x *rv) add(k []byte, m *rv) {
	for i, q := range x.keys {
		if u.Eq(q, k) {
			x.kids[i] = m
			return
		}
	}
	x.keys, x.kids = append(x.keys, k), append(x.kids, m)
}

// spec0 reads AMF0 as the specification has it.
type spec0 struct {
	src
	refs []*rv
	plus int // values in AMF3 so far
}

func (r *spec0) members(x *rv) {
	for !r.bad {
		k := r.take(r.num(2))
		if r.bad {
			return
		}
		if len(k) == 0 {
			if r.num(1) != 9 {
				r.bad = true
			}
			return
		}
		m := r.value()
		if !r.bad {
			x.add(k, m)
		}
	}
}

func (r *spec0) value() *rv {
	m := r.num(1)
	if r.bad {
		return nil
	}
	x := &rv{}
	switch v.Conc(int(m)) {
	case 0, 11: // number, date
		x.kind, x.f = 'f', math.Float64frombits(r.num(8))
		if m == 11 {
			r.take(2)
		}
	case 1:
		x.kind, x.b = 'b', r.num(1) != 0
	case 2:
		x.kind, x.s = 's', r.take(r.num(2))
	case 12, 15: // long string, XML document
		x.kind, x.s = 's', r.take(r.num(4))
	case 3, 8, 16: // object, associative array, typed object
		x.kind = 'o'
		switch m {
		case 8:
			r.take(4) // a hint
		case 16:
			x.kind, x.s = 't', r.take(r.num(2))
		}
		r.refs = append(r.refs, x)
		r.members(x)
	case 5, 6, 13: // null, undefined, unsupported
		x.kind = 'n'
	case 7:
		i := r.num(2)
		if r.bad || i >= uint64(len(r.refs)) {
			r.bad = true
			return nil
		}
		x = r.refs[v.Conc(int(i))]
		if x.kind == 'a' && !x.done {
			v.Skip() // an array inside itself
		}
		return x
	case 10:
		x.kind = 'a'
		r.refs = append(r.refs, x)
		n := r.num(4)
		if n > uint64(r.left()) { // a value has at least a byte
			r.bad = true
		}
		for i := uint64(0); i < n && !r.bad; i++ {
			x.dense = append(x.dense, r.value())
		}
	case 17:
		if r.plus++; r.plus > 1 {
			v.Skip() // whether tables outlive a value is left open
		}
		t := &spec3{src: r.src}
		x = t.value()
		r.src = t.src
		return x
	default:
		r.bad = true
		return nil
	}
	x.done = true
	return x
}

// is tells whether got is the value x, to a depth.
func (x *rv) is(got any, depth int) bool {
	if depth == 0 {
		return true
	}
	switch x.kind {
	case 'n':
		return got == nil
	case 'b':
		q, ok := got.(bool)
		return ok && q == x.b
	case 'f':
		return isF(got, x.f)
	case 'i':
		return isNum(got, int64(x.i), float64(x.i))
	case 's':
		q, ok := got.(string)
		return ok && len(q) == len(x.s) && v.EqS(q, string(x.s))
	case 'y':
		q, ok := got.([]byte)
		return ok && u.Eq(q, x.s)
	case 'd':
		q, ok := got.(time.Time)
		return ok && q.Equal(time.UnixMilli(int64(x.f)))
	case 'o':
		q, ok := got.(amf.Object)
		return ok && x.has(q, depth)
	case 't':
		q, ok := got.(amf.TypedObject)
		return ok && len(q.Type) == len(x.s) && v.EqS(q.Type, string(x.s)) && x.has(q.Object, depth)
	case 'a':
		q, ok := got.(amf.Array)
		return ok && x.holds(q, depth)
	case 'e':
		q, ok := got.(amf.EcmaArrayAMF3)
		if !ok {
			return false
		}
		a, ok := v.FieldOf(q, amf.Array{}).(amf.Array)
		o, ok2 := v.FieldOf(q, amf.Object{}).(amf.Object)
		return ok && ok2 && x.holds(a, depth) && x.has(o, depth)
	}
	return false
}

func (x *rv) has(o amf.Object, depth int) bool {
	if o == nil || len(o) != len(x.keys) {
		return false
	}
	for i, k := range x.keys {
		q, ok := o[string(k)]
		if !ok || !x.kids[i].is(q, depth-1) {
			return false
		}
	}
	return true
}

func (x *rv) holds(a amf.Array, depth int) bool {
	if len(a) != len(x.dense) {
		return false
	}
	for i, k := range x.dense {
		if !k.is(a[i], depth-1) {
			return false
		}
	}
	return true
}

// decoded compares what d makes of the bytes with what the reference reads, as one value or a batch.
func decoded(d amf.Decoder, s *src, value func() *rv) {
	r := bytes.NewReader(s.b)
	if v.Bool() {
		x := value()
		got, err := d.Decode(r)
		if s.bad {
			v.Assert(err != nil, "bytes that are no value are an error")
			v.Cover("no value")
			return
		}
		v.Assert(err == nil, "a value of the specification decodes")
		v.Assert(x.is(got, 5), "the value is the one the specification says")
		v.Assert(r.Len() == s.left(), "exactly the bytes of the value are consumed")
		v.Cover("value")
		return
	}
	var l []*rv
	for s.left() > 0 && !s.bad {
		l = append(l, value())
	}
	got, err := d.DecodeBatch(r)
	if s.bad {
		v.Assert(err != nil, "bytes that are no value are an error")
		v.Cover("no batch")
		return
	}
	v.Assert(err == nil && len(got) == len(l), "every value of a batch is delivered")
	for i, x := range l {
		v.Assert(x.is(got[i], 5), "the value is the one the specification says")
	}
	v.Cover("batch")
}

// A13_bytes: every byte string up to the bound.
func A13_bytes() {
	s := &spec0{src: src{b: v.Bytes(v.Choose(v.Param("n", 6) + 1))}}
	decoded(amf.NewEnDecAMF0(), &s.src, s.value)
}

// A13_inside: every byte string after the beginning of a value.
func A13_inside() {
	p := [][]byte{
		{0},
		{11},
		{1},
		{3, 0, 1, 'k'},
		{8, 0, 0, 0, 1, 0, 1, 'k'},
		{16, 0, 1, 'T', 0, 1, 'k'},
		{10, 0, 0, 0, 1},
		{10, 0, 0, 0, 2},
		{12, 0, 0, 0},
		{15, 0, 0, 0},
		{3, 0, 0, 9},
		{10, 0, 0, 0, 1, 5},
		{3, 0, 1, 'k', 3, 0, 0, 9},
		{3, 0, 1, 'k', 5, 0, 0, 9, 10, 0, 0, 0, 0},
		{16, 0, 0, 0, 0, 9, 7},
		{17},
		{17, 10, 11, 1, 3, 'k'},
	}
	b := p[v.Choose(len(p))]
	b = u.Cat(b, v.Bytes(v.Choose(v.Param("in", 5)+1)))
	if b[0] == 0 || b[0] == 11 {
		b = u.Cat(b[:1], v.Bytes(v.Pick(7, 8, 9, 10)))
	}
	s := &spec0{src: src{b: b}}
	decoded(amf.NewEnDecAMF0(), &s.src, s.value)
}
