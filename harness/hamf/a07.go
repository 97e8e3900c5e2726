package hamf

import (
	"bytes"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// ref0 builds AMF0 streams with references and remembers what each stands for.
type m0 struct {
	kind byte // 0 number, 'o' object, 'e' associative array, 'a' strict array, 't' typed object, 'r' reference
	num  float64
	keys []string
	kids []*m0
	to   *m0
	done bool
}

type gen0 struct {
	b      []byte
	table  []*m0
	budget int
	bad    bool
	few    bool // only anonymous objects and strict arrays
	mixed  bool // AMF3 values in between
}

func (g *gen0) put(p ...[]byte) { g.b = append(g.b, u.Cat(p...)...) }

var keyNames = []string{"a", "b", "c", "d", "e", "f"}

func (g *gen0) value() *m0 {
	g.budget--
	if g.budget < 0 {
		return g.leaf()
	}
	k := v.Choose(6)
	if g.few && (k == 2 || k == 3) {
		v.Skip()
	}
	switch k {
	case 1:
		m := &m0{kind: 'o'}
		g.table = append(g.table, m)
		g.put([]byte{3})
		g.members(m)
		return m
	case 2:
		m := &m0{kind: 'e'}
		g.table = append(g.table, m)
		g.put([]byte{8}, v.Bytes(4))
		g.members(m)
		return m
	case 3:
		m := &m0{kind: 't'}
		g.table = append(g.table, m)
		g.put([]byte{16, 0, 1, 'T'})
		g.members(m)
		return m
	case 4:
		m := &m0{kind: 'a'}
		g.table = append(g.table, m)
		n := v.Choose(3)
		g.put([]byte{10}, u.BE(uint64(n), 4))
		for i := 0; i < n && !g.bad; i++ {
			m.kids = append(m.kids, g.value())
		}
		m.done = true
		return m
	case 5:
		return g.ref()
	}
	return g.leaf()
}

func (g *gen0) leaf() *m0 {
	if g.budget < 0 && len(g.table) > 0 {
		return g.ref()
	}
	if g.mixed && v.Bool() {
		// an AMF3 object takes no index
		g.put([]byte{17, 10, 0x0b, 1, 1})
		return &m0{kind: '3'}
	}
	f := v.F64()
	g.put(num0(f))
	return &m0{num: f}
}

func (g *gen0) ref() *m0 {
	i := v.Choose(len(g.table) + 1)
	if i == len(g.table) {
		x := v.U16()
		v.Assume(int(x) >= len(g.table))
		g.put([]byte{7}, u.BE(uint64(x), 2))
		g.bad = true
		return &m0{kind: 'r'}
	}
	g.put([]byte{7}, u.BE(uint64(i), 2))
	to := g.table[i]
	if to.kind == 'a' && !to.done {
		v.Skip() // a strict array inside itself has no complete value yet
	}
	return &m0{kind: 'r', to: to}
}

func (g *gen0) members(m *m0) {
	n := v.Choose(3)
	for i := 0; i < n && !g.bad; i++ {
		k := keyNames[i]
		g.put(str0(k))
		m.keys = append(m.keys, k)
		m.kids = append(m.kids, g.value())
	}
	g.put([]byte{0, 0, 9})
	m.done = true
}

func same0(m *m0, got any, depth int) bool {
	if depth == 0 {
		return true
	}
	switch m.kind {
	case 0:
		return isF(got, m.num)
	case 'r':
		return same0(m.to, got, depth)
	case '3':
		o, ok := got.(amf.Object)
		return ok && len(o) == 0
	case 'a':
		a, ok := got.(amf.Array)
		if !ok || len(a) != len(m.kids) {
			return false
		}
		for i := range a {
			if !same0(m.kids[i], a[i], depth-1) {
				return false
			}
		}
		return true
	}
	var o amf.Object
	var ok bool
	if m.kind == 't' {
		var t amf.TypedObject
		t, ok = got.(amf.TypedObject)
		ok = ok && t.Type == "T"
		o = t.Object
	} else {
		o, ok = got.(amf.Object)
	}
	if !ok || len(o) != len(m.kids) {
		return false
	}
	for i, k := range m.keys {
		x, ok := o[k]
		if !ok || !same0(m.kids[i], x, depth-1) {
			return false
		}
	}
	return true
}

// A07_refs: streams of up to a number of values with references at any place and of any index.
func A07_refs() {
	g := &gen0{budget: v.Param("values", 2)}
	g.run()
}

// A07_deep: more values, of two kinds.
func A07_deep() {
	g := &gen0{budget: v.Param("deep", 3), few: true}
	g.run()
}

// A07_mixed: the same with AMF3 values in between, which take no index.
func A07_mixed() {
	g := &gen0{budget: v.Param("mixed", 1), mixed: true}
	g.run()
}

func (g *gen0) run() {
	n := 1 + v.Choose(2)
	var tops []*m0
	for i := 0; i < n && !g.bad; i++ {
		tops = append(tops, g.value())
	}
	got, err := amf.NewEnDecAMF0().DecodeBatch(bytes.NewReader(g.b))
	if g.bad {
		v.Assert(err != nil, "a reference to an index that has not occurred is an error")
		v.Cover("A07 bad index")
		return
	}
	v.Assert(err == nil, "a stream with valid references decodes")
	v.Assert(len(got) == len(tops), "every value of the stream is delivered")
	for i, t := range tops {
		v.Assert(same0(t, got[i], 6), "a reference is the value it denotes, complete")
	}
	v.Cover("A07 references")
}

// A07_many: many complex values, and any index over them.
func A07_many() { many0(v.Pick(1, 2, v.Param("many", 260)), v.U16()) }

// A07_huge: thousands of complex values, and indices over them.
func A07_huge() {
	n := v.Param("huge", 5000)
	many0(n, uint16(v.Pick(0, 1, 127, 128, 255, 256, 257, 1023, 4095, 4096, n-1, n, n+1, 65535)))
}

func many0(n int, i uint16) {
	kind := v.Choose(4)
	var b []byte
	for i := 0; i < n; i++ {
		member := append([]byte{0, 1, 'm'}, num0(float64(i))...)
		member = append(member, 0, 0, 9)
		switch kind {
		case 0: // an array
			b = append(b, 10, 0, 0, 0, 1)
			b = append(b, num0(float64(i))...)
		case 1: // an object
			b = append(append(b, 3), member...)
		case 2: // an object of a class
			b = append(append(b, 0x10, 0, 1, 'T'), member...)
		case 3: // an associative array
			b = append(append(b, 8, 0, 0, 0, 1), member...)
		}
	}
	b = append(b, 7)
	b = append(b, u.BE(uint64(i), 2)...)
	got, err := amf.NewEnDecAMF0().DecodeBatch(bytes.NewReader(b))
	if int(i) >= n {
		v.Assert(err != nil, "a reference to an index that has not occurred is an error")
		v.Cover("A07 many bad")
		return
	}
	v.Assert(err == nil && len(got) == n+1, "a stream with valid references decodes")
	switch kind {
	case 0:
		a, ok := got[n].(amf.Array)
		v.Assert(ok && len(a) == 1 && isF(a[0], float64(i)), "the reference denotes the value of its index")
	case 2:
		o, ok := got[n].(amf.TypedObject)
		v.Assert(ok && o.Type == "T" && len(o.Object) == 1 && isF(o.Object["m"], float64(i)), "the reference denotes the value of its index")
	default:
		o, ok := got[n].(amf.Object)
		v.Assert(ok && len(o) == 1 && isF(o["m"], float64(i)), "the reference denotes the value of its index")
	}
	v.Cover("A07 many")
}
