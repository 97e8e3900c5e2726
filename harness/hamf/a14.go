package hamf

import (
	"math"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// spec3 reads AMF3 as the specification has it.
type spec3 struct {
	src
	strs   [][]byte
	objs   []*rv
	traits []spec3trait
}

type spec3trait struct {
	names    [][]byte
	dynamic  bool
	external bool
	class    []byte
}

func (r *spec3) u29() uint32 {
	x := uint32(0)
	for i := 0; i < 3; i++ {
		c := r.num(1)
		if r.bad {
			return 0
		}
		x = x<<7 | uint32(c&0x7f)
		if c < 0x80 {
			return x
		}
	}
	return x<<8 | uint32(r.num(1))
}

func (r *spec3) str() []byte {
	h := r.u29()
	if r.bad {
		return nil
	}
	if h&1 == 0 {
		if h>>1 >= uint32(len(r.strs)) {
			r.bad = true
			return nil
		}
		return r.strs[v.Conc(int(h>>1))]
	}
	s := r.take(uint64(h >> 1))
	if len(s) > 0 {
		r.strs = append(r.strs, s)
	}
	return s
}

// head reads the header of a value of object type: a reference to an earlier value, or the rest of the header.
func (r *spec3) head(marker int) (*rv, uint32) {
	h := r.u29()
	if r.bad {
		return nil, 0
	}
	if h&1 == 1 {
		return nil, h >> 1
	}
	if h>>1 >= uint32(len(r.objs)) {
		r.bad = true
		return nil, 0
	}
	x := r.objs[v.Conc(int(h>>1))]
	if !x.done && x.kind != 'o' {
		v.Skip() // inside itself
	}
	kind := map[int]byte{7: 's', 8: 'd', 9: 'e', 10: 'o', 11: 's', 12: 'y'}[marker]
	if x.kind != kind {
		if marker == 10 {
			v.Skip() // left open
		}
		r.bad = true
	}
	return x, 0
}

func (r *spec3) value() *rv {
	m := v.Conc(int(r.num(1)))
	if r.bad {
		return nil
	}
	x := &rv{done: true}
	switch m {
	case 0, 1:
		x.kind = 'n'
	case 2, 3:
		x.kind, x.b = 'b', m == 3
	case 4:
		x.kind, x.i = 'i', r.u29()
	case 5:
		x.kind, x.f = 'f', math.Float64frombits(r.num(8))
	case 6:
		x.kind, x.s = 's', r.str()
	case 7, 8, 9, 10, 11, 12:
		to, n := r.head(m)
		if to != nil || r.bad {
			return to
		}
		switch m {
		case 7, 11:
			x.kind, x.s = 's', r.take(uint64(n))
			r.objs = append(r.objs, x)
		case 12:
			x.kind, x.s = 'y', r.take(uint64(n))
			r.objs = append(r.objs, x)
		case 8:
			x.kind, x.f = 'd', math.Float64frombits(r.num(8))
			r.objs = append(r.objs, x)
		case 9:
			x.kind, x.done = 'e', false
			k := r.str()
			r.objs = append(r.objs, x)
			for !r.bad && len(k) > 0 {
				if y := r.value(); !r.bad {
					x.add(k, y)
				}
				k = r.str()
			}
			if n > uint32(r.left()) { // a value has at least a byte
				r.bad = true
			}
			for i := uint32(0); i < n && !r.bad; i++ {
				x.dense = append(x.dense, r.value())
			}
			x.done = true
		case 10:
			x.kind, x.done = 'o', false
			r.object(x, n)
			x.done = true
		}
	default:
		r.bad = true // vectors and dictionaries are not supported
	}
	return x
}

func (r *spec3) object(x *rv, h uint32) {
	var t spec3trait
	if h&1 == 0 {
		if h>>1 >= uint32(len(r.traits)) {
			r.bad = true
			return
		}
		t = r.traits[v.Conc(int(h>>1))]
	} else {
		t.external, t.dynamic = h&2 != 0, h&4 != 0
		t.class = r.str()
		if h>>3 > uint32(r.left()) { // a name has at least a byte
			r.bad = true
		}
		for i := uint32(0); i < h>>3 && !r.bad; i++ {
			t.names = append(t.names, r.str())
		}
		r.traits = append(r.traits, t)
	}
	r.objs = append(r.objs, x)
	if r.bad {
		return
	}
	if t.external {
		for _, known := range []string{"DSA", "DSK"} {
			if u.Eq(t.class, []byte(known)) {
				v.Skip() // another property
			}
		}
		r.bad = true // no such class
		return
	}
	for _, k := range t.names {
		if y := r.value(); !r.bad {
			x.add(k, y)
		}
	}
	for t.dynamic && !r.bad {
		k := r.str()
		if r.bad || len(k) == 0 {
			return
		}
		if y := r.value(); !r.bad {
			x.add(k, y)
		}
	}
}

// A14_bytes: every byte string up to the bound.
func A14_bytes() {
	s := &spec3{src: src{b: v.Bytes(v.Choose(v.Param("n", 6) + 1))}}
	decoded(amf.NewEnDecAMF3(), &s.src, s.value)
}

// A14_inside: every byte string after the beginning of a stream.
func A14_inside() {
	p := [][]byte{
		{5},
		{8, 1},
		{6, 3, 'a'},
		{6, 3, 'a', 6, 3, 'a', 6},
		{9, 3, 1},
		{9, 5, 3, 'k', 4, 1},
		{10, 0x0b, 1},
		{10, 0x13, 3, 'T', 3, 'k'},
		{10, 0x1b, 1, 3, 'k', 4, 1},
		{10, 0x23, 1, 3, 'k', 3, 'l'},
		{10, 0x13, 1, 3, 'k', 4, 1, 10},
		{12, 3, 'y'},
		{7, 3, 'x', 11},
		{8, 1, 0, 0, 0, 0, 0, 0, 0, 0},
		{8, 1, 0x42, 0x76, 0, 0, 0, 0, 0, 0, 9, 3, 1, 10, 11, 1},
	}
	b := p[v.Choose(len(p))]
	b = u.Cat(b, v.Bytes(v.Choose(v.Param("in", 5)+1)))
	switch {
	case b[0] == 5:
		b = u.Cat(b[:1], v.Bytes(v.Pick(7, 8, 9)))
	case b[0] == 8 && len(b) < 10:
		ms := math.Float64bits([]float64{0, 1, -1, 1500, -1500, 1 << 40, 253402300799999}[v.Choose(7)])
		b = u.Cat(b[:2], u.BE(ms, 8)[:v.Pick(7, 8)], v.Bytes(v.Choose(2)))
	}
	s := &spec3{src: src{b: b}}
	decoded(amf.NewEnDecAMF3(), &s.src, s.value)
}
