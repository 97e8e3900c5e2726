package hamf

import (
	"io"
	"math"
	"time"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// node is a value to encode, the byte sequences the specification allows for
// it (one per order of an object's members) and the test of its decoded form.
type node struct {
	val   any
	alts  [][]byte
	check func(got any) bool
	enc   func(ed *amf.EnDecAMF0, w io.Writer) (int, error) // nil: Encode
}

type (
	myStr   string
	myInt   int16
	myFloat float32
)

func isF(got any, f float64) bool {
	g, ok := got.(float64)
	return ok && v.EqF(g, f)
}

func isS(got any, s string) bool {
	g, ok := got.(string)
	return ok && len(g) == len(s) && v.EqS(g, s)
}

// intVal is an integer of any Go integer type, as it is and as a float.
func intVal() (any, float64) {
	switch v.Choose(11) {
	case 0:
		x := int8(v.U8())
		return x, float64(x)
	case 1:
		x := int16(v.U16())
		return x, float64(x)
	case 2:
		x := v.I32()
		return x, float64(x)
	case 3:
		x := v.I64()
		return x, float64(x)
	case 4:
		x := int(v.I64())
		return x, float64(x)
	case 5:
		x := v.U8()
		return x, float64(x)
	case 6:
		x := v.U16()
		return x, float64(x)
	case 7:
		x := v.U32()
		return x, float64(x)
	case 8:
		x := v.U64()
		return x, float64(x)
	case 9:
		x := uint(v.U64())
		return x, float64(x)
	}
	x := myInt(v.U16())
	return x, float64(x)
}

// moment is any time to the nanosecond from 1970 to 34000 years later, or one of some instants before 1970; and its milliseconds.
func moment() (time.Time, int64) {
	if v.Choose(2) == 1 {
		sec := int64(v.Pick(-1, -2, -86400, -1<<31, -11644473600, -62135596800))
		m := int64(v.Pick(0, 1, 500, 999))
		return time.Unix(sec, m*1000000).UTC(), sec*1000 + m
	}
	m := int64(v.U16() % 1000)
	ns := m*1000000 + int64(v.U32()%1000000)
	sec := int64(v.U64() >> 24)
	return time.Unix(sec, ns).UTC(), sec*1000 + m
}

func str0(s string) []byte { return u.Cat(u.BE(uint64(len(s)), 2), []byte(s)) }

func num0(f float64) []byte { return u.Cat([]byte{0}, u.BE(math.Float64bits(f), 8)) }

func one(b ...[]byte) [][]byte { return [][]byte{u.Cat(b...)} }

// leaf0 is any value without members.
func leaf0(full bool) node {
	k := 8
	if !full {
		k = 4
	}
	switch v.Choose(k) {
	case 0:
		return node{nil, one([]byte{5}), func(g any) bool { return g == nil }, nil}
	case 1:
		b := v.Bool()
		x := byte(0)
		if b {
			x = 1
		}
		return node{b, one([]byte{1, x}), func(g any) bool { q, ok := g.(bool); return ok && q == b }, nil}
	case 2:
		f := v.F64()
		return node{f, one(num0(f)), func(g any) bool { return isF(g, f) }, nil}
	case 3:
		s := v.Str(v.Choose(3))
		return node{s, one([]byte{2}, str0(s)), func(g any) bool { return isS(g, s) }, nil}
	case 4:
		x, f := intVal()
		return node{x, one(num0(f)), func(g any) bool { return isF(g, f) }, nil}
	case 5:
		t, ms := moment()
		f := float64(ms)
		return node{t, one([]byte{11}, u.BE(math.Float64bits(f), 8), []byte{0, 0}), func(g any) bool { return isF(g, f) }, nil}
	case 6:
		s := v.Str(2)
		return node{myStr(s), one([]byte{2}, str0(s)), func(g any) bool { return isS(g, s) }, nil}
	}
	x := math.Float32frombits(v.U32())
	v.Assume(x == x)
	f := float64(x)
	if v.Bool() {
		return node{x, one(num0(f)), func(g any) bool { return isF(g, f) }, nil}
	}
	return node{myFloat(x), one(num0(f)), func(g any) bool { return isF(g, f) }, nil}
}

func key(n int) string { return v.Str(n) }

// members is an object body of up to max members.
func members(depth, width int) (amf.Object, [][]byte, func(o amf.Object) bool) {
	n := v.Choose(width + 1)
	o := amf.Object{}
	var ks []string
	var ns []node
	for i := 0; i < n; i++ {
		k := key(1 + i%2)
		if i == 2 {
			k = key(1)
			v.Assume(k != ks[0])
		}
		x := val0(depth-1, width)
		ks, ns = append(ks, k), append(ns, x)
		o[k] = x.val
	}
	var alts [][]byte
	for _, p := range perms(n) {
		parts := [][]byte{nil}
		for _, i := range p {
			var next [][]byte
			for _, pre := range parts {
				for _, a := range ns[i].alts {
					next = append(next, u.Cat(pre, str0(ks[i]), a))
				}
			}
			parts = next
		}
		for _, q := range parts {
			alts = append(alts, u.Cat(q, []byte{0, 0, 9}))
		}
	}
	return o, alts, func(g amf.Object) bool {
		if len(g) != n {
			return false
		}
		for i, k := range ks {
			x, ok := g[k]
			if !ok || !ns[i].check(x) {
				return false
			}
		}
		return true
	}
}

func perms(n int) [][]int {
	switch n {
	case 0:
		return [][]int{{}}
	case 1:
		return [][]int{{0}}
	case 2:
		return [][]int{{0, 1}, {1, 0}}
	}
	return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
}

func pre(p []byte, alts [][]byte) [][]byte {
	var r [][]byte
	for _, a := range alts {
		r = append(r, u.Cat(p, a))
	}
	return r
}

// val0 is any value, nested up to depth levels of containers.
func val0(depth, width int) node {
	if depth == 0 {
		if v.Bool() {
			f := v.F64()
			return node{f, one(num0(f)), func(g any) bool { return isF(g, f) }, nil}
		}
		s := v.Str(1)
		return node{s, one([]byte{2}, str0(s)), func(g any) bool { return isS(g, s) }, nil}
	}
	switch v.Choose(5) {
	case 0:
		return leaf0(false)
	case 1:
		o, alts, chk := members(depth, width)
		return node{o, pre([]byte{3}, alts), func(g any) bool { q, ok := g.(amf.Object); return ok && chk(q) }, nil}
	case 2:
		t := v.Str(2 * v.Choose(2))
		o, alts, chk := members(depth, width)
		return node{amf.TypedObject{Type: t, Object: o}, pre(u.Cat([]byte{16}, str0(t)), alts), func(g any) bool {
			q, ok := g.(amf.TypedObject)
			return ok && len(q.Type) == len(t) && v.EqS(q.Type, t) && chk(q.Object)
		}, nil}
	case 3:
		n := v.Choose(width + 1)
		arr := amf.Array{}
		alts := one([]byte{10}, u.BE(uint64(n), 4))
		var ns []node
		for i := 0; i < n; i++ {
			x := val0(depth-1, width)
			arr = append(arr, x.val)
			ns = append(ns, x)
			var next [][]byte
			for _, p := range alts {
				next = append(next, pre(p, x.alts)...)
			}
			alts = next
		}
		return node{arr, alts, func(g any) bool { return isArr(g, ns) }, nil}
	}
	// typed Go slices and arrays
	switch v.Choose(3) {
	case 0:
		x, y := v.Str(1), v.Str(2)
		return node{[]string{x, y}, one([]byte{10, 0, 0, 0, 2, 2}, str0(x), []byte{2}, str0(y)), func(g any) bool {
			a, ok := g.(amf.Array)
			return ok && len(a) == 2 && isS(a[0], x) && isS(a[1], y)
		}, nil}
	case 1:
		b := v.Bytes(2)
		return node{[2]byte{b[0], b[1]}, one([]byte{10, 0, 0, 0, 2}, num0(float64(b[0])), num0(float64(b[1]))), func(g any) bool {
			a, ok := g.(amf.Array)
			return ok && len(a) == 2 && isF(a[0], float64(b[0])) && isF(a[1], float64(b[1]))
		}, nil}
	}
	x := v.I32()
	return node{[]int32{x}, one([]byte{10, 0, 0, 0, 1}, num0(float64(x))), func(g any) bool {
		a, ok := g.(amf.Array)
		return ok && len(a) == 1 && isF(a[0], float64(x))
	}, nil}
}

func isArr(g any, ns []node) bool {
	a, ok := g.(amf.Array)
	if !ok || len(a) != len(ns) {
		return false
	}
	for i := range ns {
		if !ns[i].check(a[i]) {
			return false
		}
	}
	return true
}

// special0 is a value with an encoder of its own.
func special0(depth int) node {
	switch v.Choose(4) {
	case 0:
		return node{nil, one([]byte{6}), func(g any) bool { return g == nil }, func(ed *amf.EnDecAMF0, w io.Writer) (int, error) { return ed.EncodeUndefined(w) }}
	case 1:
		return node{nil, one([]byte{13}), func(g any) bool { return g == nil }, func(ed *amf.EnDecAMF0, w io.Writer) (int, error) { return ed.EncodeUnsupported(w) }}
	case 2:
		s := v.Str(v.Choose(4))
		return node{nil, one([]byte{15}, u.BE(uint64(len(s)), 4), []byte(s)), func(g any) bool { return isS(g, s) }, func(ed *amf.EnDecAMF0, w io.Writer) (int, error) { return ed.EncodeXmlDocument(w, s) }}
	}
	o, alts, chk := members(depth, v.Param("width", 2))
	return node{nil, pre(u.Cat([]byte{8}, u.BE(uint64(len(o)), 4)), alts), func(g any) bool { q, ok := g.(amf.Object); return ok && chk(q) }, func(ed *amf.EnDecAMF0, w io.Writer) (int, error) { return ed.EncodeEcmaArray(w, o) }}
}

// long0 is a string or XML document around the lengths at which the form changes.
func long0() node {
	n := v.Pick(255, 256, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000)
	b := make([]byte, n)
	for _, i := range []int{0, 1, 254, n / 2, n - 2, n - 1} {
		b[i] = v.U8()
	}
	s := string(b)
	chk := func(g any) bool { return isS(g, s) }
	if v.Bool() {
		return node{nil, one([]byte{15}, u.BE(uint64(n), 4), b), chk, func(ed *amf.EnDecAMF0, w io.Writer) (int, error) { return ed.EncodeXmlDocument(w, s) }}
	}
	if n <= 65535 {
		return node{s, one([]byte{2}, u.BE(uint64(n), 2), b), chk, nil}
	}
	return node{s, one([]byte{12}, u.BE(uint64(n), 4), b), chk, nil}
}

func (x node) encode(ed *amf.EnDecAMF0, w io.Writer) (int, error) {
	if x.enc != nil {
		return x.enc(ed, w)
	}
	return ed.Encode(w, x.val)
}

// wide0 is an array of many elements, one of them symbolic.
func wide0() node {
	n := v.Pick(0, 1, 255, 256, 257, v.Param("many", 1000))
	arr := make(amf.Array, n)
	b := u.Cat([]byte{10}, u.BE(uint64(n), 4))
	at := v.Pick(0, n-1)
	f := v.F64()
	for i := range arr {
		if i == at {
			arr[i] = f
			b = append(b, num0(f)...)
		} else {
			b = append(b, 5)
		}
	}
	return node{arr, [][]byte{b}, func(g any) bool {
		a, ok := g.(amf.Array)
		if !ok || len(a) != n {
			return false
		}
		for i := range a {
			if i == at && !isF(a[i], f) || i != at && a[i] != nil {
				return false
			}
		}
		return true
	}, nil}
}

// spine0 is a chain of containers, one inside the other.
func spine0() node {
	n := v.Param("spine", 6)
	f := v.F64()
	x := node{f, one(num0(f)), func(g any) bool { return isF(g, f) }, nil}
	for i := 0; i < n; i++ {
		in := x
		switch v.Choose(3) {
		case 0:
			x = node{amf.Array{in.val}, pre([]byte{10, 0, 0, 0, 1}, in.alts), func(g any) bool {
				a, ok := g.(amf.Array)
				return ok && len(a) == 1 && in.check(a[0])
			}, nil}
		case 1:
			x = node{amf.Object{"k": in.val}, one([]byte{3, 0, 1, 'k'}, in.alts[0], []byte{0, 0, 9}), func(g any) bool {
				o, ok := g.(amf.Object)
				return ok && len(o) == 1 && in.check(o["k"])
			}, nil}
		case 2:
			x = node{amf.TypedObject{Type: "T", Object: amf.Object{"k": in.val}}, one([]byte{16, 0, 1, 'T', 0, 1, 'k'}, in.alts[0], []byte{0, 0, 9}), func(g any) bool {
				o, ok := g.(amf.TypedObject)
				return ok && o.Type == "T" && len(o.Object) == 1 && in.check(o.Object["k"])
			}, nil}
		}
	}
	return x
}

// wideObject is an object of many members, one of them symbolic, and a check of what it comes back as.
func wideObject() (amf.Object, func(o amf.Object) bool) {
	n := v.Pick(8, 33, v.Param("members", 300))
	o := amf.Object{}
	at := v.Pick(0, 7, n-1)
	f := v.F64()
	val := func(i int) any {
		if i == at {
			return f
		}
		switch i % 3 {
		case 0:
			return "s" + string(rune('a'+i%26))
		case 1:
			return i%2 == 0
		}
		return float64(i) + 0.5
	}
	name := func(i int) string {
		return "k" + string([]byte{'0' + byte(i/100), '0' + byte(i/10%10), '0' + byte(i%10)})
	}
	for i := 0; i < n; i++ {
		o[name(i)] = val(i)
	}
	return o, func(q amf.Object) bool {
		if len(q) != n {
			return false
		}
		for i := 0; i < n; i++ {
			x, ok := q[name(i)]
			if !ok {
				return false
			}
			if i == at {
				if !isF(x, f) {
					return false
				}
			} else if x != val(i) {
				return false
			}
		}
		return true
	}
}
