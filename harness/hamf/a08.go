package hamf

import (
	"bytes"
	"io"
	"math"
	"time"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

type trait3 struct {
	names   []string
	dynamic bool
}

type m3 struct {
	kind  byte // i integer, s string, d date, a array, o object, x xml, b byte array, n nothing
	num   uint32
	s     string
	b     []byte
	ms    int64
	keys  []string // of members or associative part
	kids  []*m3
	dense []*m3
	to    *m3
	done  bool
	outer bool // an object with a decoder
}

type gen3 struct {
	b      []byte
	strs   []string
	objs   []*m3
	traits []trait3
	budget int
	dates  int64
	bad    bool
	lits   bool  // strings are literals only
	kinds  []int // what values may be while the budget lasts; the rest are integers or references
}

func (g *gen3) put(p ...byte)  { g.b = append(g.b, p...) }
func (g *gen3) head(n int)     { g.b = append(g.b, u29(uint32(n)<<1|1)...) }
func (g *gen3) refTo(n uint32) { g.b = append(g.b, u29(n<<1)...) }
func (g *gen3) strLit(s string) {
	g.head(len(s))
	g.b = append(g.b, s...)
	if s != "" {
		g.strs = append(g.strs, s)
	}
}

// strAny writes a string: empty, a literal or a reference; new says it must differ from these.
func (g *gen3) strAny(empty bool) string {
	k := 0
	if !g.lits {
		k = v.Choose(2)
	}
	if k == 0 && empty && (g.lits || v.Bool()) {
		g.strLit("")
		return ""
	}
	if k == 1 {
		i := v.Choose(len(g.strs) + 1)
		if i == len(g.strs) {
			x := v.U32()
			v.Assume(v.And(x >= uint32(i), x < 1<<28))
			g.refTo(x)
			g.bad = true
			return "?"
		}
		g.refTo(uint32(i))
		return g.strs[i]
	}
	s := keyNames[len(g.strs)%6] + "k"
	if !g.lits && len(g.strs) > 0 && v.Bool() {
		s = g.strs[len(g.strs)-1] // written out again: another entry
	}
	g.strLit(s)
	return s
}

func (g *gen3) value() *m3 {
	g.budget--
	kind := 0
	if g.budget >= 0 {
		kind = g.kinds[v.Choose(len(g.kinds))]
	} else if g.lits && len(g.objs) > 0 {
		kind = 2
	} else if !g.lits {
		kind = 1
	}
	switch kind {
	case 1:
		g.put(6)
		return &m3{kind: 's', s: g.strAny(true)}
	case 2:
		// a reference to an earlier value of object type
		i := v.Choose(len(g.objs) + 1)
		if i == len(g.objs) {
			g.put(byte(v.Pick(7, 8, 9, 10, 11, 12)))
			x := v.U32()
			v.Assume(v.And(x >= uint32(i), x < 1<<28))
			g.refTo(x)
			g.bad = true
			return &m3{kind: 'n'}
		}
		to := g.objs[i]
		if (to.kind == 'a' || to.outer) && !to.done {
			v.Skip() // an array inside itself has no complete value yet
		}
		switch to.kind {
		case 'r':
			g.put(10)
		case 'd':
			g.put(8)
		case 'a':
			g.put(9)
		case 'o':
			g.put(10)
		case 'x':
			g.put(byte(v.Pick(7, 11)))
		case 'b':
			g.put(12)
		}
		g.refTo(uint32(i))
		return &m3{kind: 'r', to: to}
	case 3:
		// 0, then every other one twice
		m := &m3{kind: 'd', ms: (g.dates + 1) / 2 * 1001}
		g.dates++
		g.objs = append(g.objs, m)
		g.put(8, 1)
		g.b = append(g.b, u.BE(math.Float64bits(float64(m.ms)), 8)...)
		return m
	case 4:
		m := &m3{kind: 'x', s: v.Str(v.Choose(2))}
		g.objs = append(g.objs, m)
		g.put(byte(v.Pick(7, 11)))
		g.head(len(m.s))
		g.b = append(g.b, m.s...)
		return m
	case 5:
		m := &m3{kind: 'b', b: v.Bytes(v.Choose(2))}
		g.objs = append(g.objs, m)
		g.put(12)
		g.head(len(m.b))
		g.b = append(g.b, m.b...)
		return m
	case 6:
		m := &m3{kind: 'a'}
		n := v.Choose(2)
		g.put(9)
		g.head(n)
		// the array takes its index before its contents, the first key comes before that
		k := g.strAny(true)
		g.objs = append(g.objs, m)
		for k != "" && !g.bad {
			if len(m.keys) > 0 {
				v.Skip()
			}
			m.keys = append(m.keys, k)
			m.kids = append(m.kids, g.value())
			if !g.bad {
				k = ""
				g.strLit("")
			}
		}
		for i := 0; i < n && !g.bad; i++ {
			m.dense = append(m.dense, g.value())
		}
		m.done = true
		return m
	case 7, 8:
		g.put(10)
		m := &m3{kind: 'o'}
		// a new trait: name, sealed names
		n := v.Choose(2)
		t := trait3{dynamic: v.Bool()}
		h := uint32(n)<<4 | 3
		if t.dynamic {
			h |= 8
		}
		g.b = append(g.b, u29(h)...)
		g.strAny(true)
		for i := 0; i < n && !g.bad; i++ {
			t.names = append(t.names, g.strAny(false))
		}
		g.traits = append(g.traits, t)
		g.objs = append(g.objs, m)
		g.fill(m, t)
		return m
	case 9:
		g.put(10)
		i := v.Choose(len(g.traits) + 1)
		if i == len(g.traits) {
			x := v.U32()
			v.Assume(v.And(x >= uint32(i), x < 1<<27))
			g.b = append(g.b, u29(x<<2|1)...)
			g.bad = true
			return &m3{kind: 'n'}
		}
		g.b = append(g.b, u29(uint32(i)<<2|1)...)
		m := &m3{kind: 'o'}
		g.objs = append(g.objs, m)
		g.fill(m, g.traits[i])
		return m
	case 10:
		// an object of a class with a decoder is the value inside it, under an index of its own
		m := &m3{kind: 'n', outer: true}
		class := []string{"x", "flex.messaging.io.ArrayCollection"}[v.Choose(2)]
		g.put(10, 7)
		g.strLit(class)
		g.traits = append(g.traits, trait3{})
		g.objs = append(g.objs, m)
		to := g.value()
		*m = m3{kind: 'r', to: to, done: true, outer: true}
		return m
	}
	x := v.U8() & 0x7f
	g.put(4, x)
	return &m3{kind: 'i', num: uint32(x)}
}

func (g *gen3) fill(m *m3, t trait3) {
	for i := 0; i < len(t.names) && !g.bad; i++ {
		m.keys = append(m.keys, t.names[i])
		m.kids = append(m.kids, g.value())
	}
	if t.dynamic && !g.bad {
		if v.Bool() {
			k := g.strAny(false)
			for _, q := range t.names {
				if q == k {
					v.Skip()
				}
			}
			m.keys = append(m.keys, k)
			if !g.bad {
				m.kids = append(m.kids, g.value())
			}
		}
		if !g.bad {
			g.strLit("")
		}
	}
	m.done = true
}

func same3(m *m3, got any, depth int) bool {
	if depth == 0 {
		return true
	}
	switch m.kind {
	case 'r':
		return same3(m.to, got, depth)
	case 'i':
		return isNum(got, int64(m.num), float64(m.num))
	case 's', 'x':
		return isS(got, m.s)
	case 'b':
		q, ok := got.([]byte)
		return ok && u.Eq(q, m.b)
	case 'd':
		q, ok := got.(time.Time)
		return ok && q.Equal(time.UnixMilli(m.ms))
	case 'o':
		o, ok := got.(amf.Object)
		return ok && sameMembers(m, o, depth)
	case 'a':
		q, ok := got.(amf.EcmaArrayAMF3)
		if !ok {
			return false
		}
		a, ok := v.FieldOf(q, amf.Array{}).(amf.Array)
		o, ok2 := v.FieldOf(q, amf.Object{}).(amf.Object)
		if !ok || !ok2 || len(a) != len(m.dense) || !sameMembers(m, o, depth) {
			return false
		}
		for i := range a {
			if !same3(m.dense[i], a[i], depth-1) {
				return false
			}
		}
		return true
	}
	return false
}

func sameMembers(m *m3, o amf.Object, depth int) bool {
	if len(o) != len(m.kids) {
		return false
	}
	for i, k := range m.keys {
		x, ok := o[k]
		if !ok || !same3(m.kids[i], x, depth-1) {
			return false
		}
	}
	return true
}

func (g *gen3) run() {
	n := 1 + v.Choose(2)
	var tops []*m3
	for i := 0; i < n && !g.bad; i++ {
		tops = append(tops, g.value())
	}
	d := amf.NewEnDecAMF3()
	d.RegisterExternalHandler("x", func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return ed.Decode(r) })
	got, err := d.DecodeBatch(bytes.NewReader(g.b))
	if g.bad {
		v.Assert(err != nil, "an index beyond what the stream has defined is an error")
		v.Cover("A08 bad index")
		return
	}
	v.Assert(err == nil, "a stream with valid references decodes")
	v.Assert(len(got) == len(tops), "every value of the stream is delivered")
	for i, t := range tops {
		v.Assert(same3(t, got[i], 6), "a reference is the string, value or trait it denotes, complete")
	}
	v.Cover("A08 references")
}

// A08_strings: streams whose strings, keys, class and member names are literals or references.
func A08_strings() {
	g := &gen3{budget: v.Param("strings", 2), kinds: []int{0, 1, 6, 7}}
	g.run()
}

// A08_values: streams with references to values of every object type.
func A08_values() {
	g := &gen3{budget: v.Param("values", 3), lits: true, kinds: []int{0, 2, 3, 4, 5, 6, 7, 10}}
	g.run()
}

// A08_traits: streams whose objects use new traits and earlier ones.
func A08_traits() {
	g := &gen3{budget: v.Param("traits", 4), lits: true, kinds: []int{0, 2, 7, 9}}
	g.run()
}

// A08_many: many strings, values or traits, and any index over them.
func A08_many() {
	x := v.U32()
	v.Assume(x < 1<<27)
	many3(v.Pick(1, 2, 63, 64, 65, v.Param("many", 200)), x)
}

// A08_huge: thousands of strings, values or traits, and indices over them.
func A08_huge() {
	n := v.Param("huge", 4200)
	many3(n, uint32(v.Pick(0, 1, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, n-1, n, n+1, 8191, 8192, 1<<20, 1<<27-1)))
}

func many3(n int, x uint32) {
	kind := v.Choose(6)
	var b []byte
	for i := 0; i < n; i++ {
		text := []byte{2<<1 | 1, byte(i), byte(i >> 8)}
		switch kind {
		case 0: // a string
			b = append(append(b, 0x06), text...)
		case 1: // a byte array
			b = append(append(b, 0x0c), text...)
		case 2: // an XML document
			b = append(append(b, 0x0b), text...)
		case 3: // an array of one integer
			b = append(append(b, 0x09, 1<<1|1, 1, 0x04), u29(uint32(i))...)
		case 4: // an object with a dynamic member, of one class
			if i == 0 {
				b = append(b, 0x0a, 0x0b, 1, 3, 'm', 0x04, 0, 1)
			} else {
				b = append(append(b, 0x0a, 0x01, 0, 0x04), u29(uint32(i))...)
				b = append(b, 1)
			}
		case 5: // an object with a sealed member, each with traits of its own
			b = append(append(b, 0x0a, 0x13, 1), text...)
			b = append(b, 0x04, 9)
		}
	}
	b = append(b, []byte{0x06, 0x0c, 0x0b, 0x09, 0x0a, 0x0a}[kind])
	if kind == 5 {
		b = append(append(b, u29(x<<2|1)...), 0x04, 7)
	} else {
		b = append(b, u29(x<<1)...)
	}
	got, err := amf.NewEnDecAMF3().DecodeBatch(bytes.NewReader(b))
	if x >= uint32(n) {
		v.Assert(err != nil, "an index beyond what the stream has defined is an error")
		v.Cover("A08 many bad")
		return
	}
	v.Assert(err == nil && len(got) == n+1, "a stream with valid references decodes")
	want := []byte{byte(x), byte(x >> 8)}
	label := "the reference denotes the value of its index"
	switch kind {
	case 1:
		q, ok := got[n].([]byte)
		v.Assert(ok && u.Eq(q, want), label)
	case 3:
		a, ok := dense(got[n])
		v.Assert(ok && len(a) == 1 && a[0] == x, label)
	case 4:
		o, ok := got[n].(amf.Object)
		v.Assert(ok && len(o) == 1 && o["m"] == x, label)
	case 5:
		o, ok := got[n].(amf.Object)
		v.Assert(ok && len(o) == 1 && o[string(want)] == uint32(7), label)
	default:
		v.Assert(isS(got[n], string(want)), label)
	}
	v.Cover("A08 many")
}
