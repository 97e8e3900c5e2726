package hamf

import (
	"bytes"
	"io"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// forever delivers head and then body over and over.
type forever struct {
	head, body []byte
	i          int
}

func (f *forever) Read(p []byte) (int, error) {
	for k := range p {
		if f.i < len(f.head) {
			p[k] = f.head[f.i]
		} else {
			p[k] = f.body[(f.i-len(f.head))%len(f.body)]
		}
		f.i++
	}
	return len(p), nil
}

// open0 is the beginning of an AMF0 value up to the place where its first member starts.
func open0() []byte {
	k := v.U8()
	switch v.Choose(4) {
	case 0:
		n := v.U32()
		v.Assume(n > 0)
		return u.Cat([]byte{0x0a}, u.BE(uint64(n), 4))
	case 1:
		return []byte{0x03, 0, 1, k}
	case 2:
		return u.Cat([]byte{0x08}, u.BE(uint64(v.U32()), 4), []byte{0, 1, k})
	}
	return []byte{0x10, 0, 1, v.U8(), 0, 1, k}
}

// open3 is the beginning of an AMF3 value up to the place where its first member starts.
func open3() []byte {
	k := v.U8()
	switch v.Choose(8) {
	case 0:
		return []byte{0x09, byte(v.Pick(0x03, 0x7f)), 0x01}
	case 1:
		return []byte{0x09, 0x01, 0x03, k}
	case 2:
		return []byte{0x0a, 0x0b, 0x01, 0x03, k}
	case 3:
		return []byte{0x0a, 0x13, 0x01, 0x03, k}
	case 4:
		return u.Cat([]byte{0x0a, 0x07, 0x43}, []byte("flex.messaging.io.ArrayCollection"))
	case 5:
		return u.Cat([]byte{0x0a, 0x07, 0x07}, []byte("DSA"), []byte{0x01})
	case 6:
		return u.Cat([]byte{0x0a, 0x07, 0x07}, []byte("DSK"), []byte{0x40})
	}
	return []byte{0x0a, 0x07, 0x05, 'm', 'y'}
}

func again(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return ed.Decode(r) }

// A01_deep: a peer that opens one value inside the other without end is refused.
func A01_deep() {
	d := amf.NewEnDecAMF0()
	d.RegisterExternalHandler("my", again)
	f := &forever{}
	if v.Bool() {
		f.body = u.Cat(open0(), open0())
	} else {
		f.head = u.Cat(open0(), []byte{0x11})
		f.body = open3()
	}
	if v.Bool() {
		_, err := d.Decode(f)
		v.Assert(err != nil, "values nested without end are refused")
	} else {
		_, err := d.DecodeBatch(f)
		v.Assert(err != nil, "values nested without end are refused in a batch")
	}
	// and the decoder is as good as new
	got, err := d.Decode(bytes.NewReader([]byte{0x0a, 0, 0, 0, 1, 0x03, 0, 0, 9}))
	v.Assert(err == nil, "a decoder decodes after it refused a value")
	a, ok := got.(amf.Array)
	v.Assert(ok && len(a) == 1, "a decoder decodes correctly after it refused a value")
	v.Cover("A01 endless nesting refused")
}

// A02_deep: the same for AMF3.
func A02_deep() {
	d := amf.NewEnDecAMF3()
	d.RegisterExternalHandler("my", again)
	f := &forever{body: u.Cat(open3(), open3())}
	if v.Bool() {
		_, err := d.Decode(f)
		v.Assert(err != nil, "values nested without end are refused")
	} else {
		_, err := d.DecodeBatch(f)
		v.Assert(err != nil, "values nested without end are refused in a batch")
	}
	_, err := d.Decode(bytes.NewReader([]byte{0x09, 0x03, 0x01, 0x0a, 0x03, 0x01}))
	v.Assert(err == nil, "a decoder decodes after it refused a value")
	v.Cover("A02 endless nesting refused")
}

// chainVal is a value nested n levels deep, of containers of the kinds a and b in turn.
func chainVal(n, a, b int, k string, leaf any) any {
	for i := 0; i < n; i++ {
		kind := a
		if i%2 == 1 {
			kind = b
		}
		switch kind {
		case 0:
			leaf = amf.Object{k: leaf}
		case 1:
			leaf = amf.TypedObject{Type: "t", Object: amf.Object{k: leaf}}
		case 2:
			leaf = amf.Array{leaf}
		case 3:
			leaf = []interface{}{leaf}
		}
	}
	return leaf
}

// selfVal is a value that contains itself.
func selfVal() any {
	o := amf.Object{}
	a := amf.Array{nil}
	switch v.Choose(5) {
	case 0:
		o["a"] = o
	case 1:
		a[0] = a
		return a
	case 2:
		o["a"], a[0] = a, o
	case 3:
		o["a"] = amf.TypedObject{Type: "t", Object: o}
		return o["a"]
	case 4:
		// as a decoder delivers it
		x, err := amf.NewEnDecAMF0().Decode(bytes.NewReader([]byte{0x03, 0, 1, 'a', 0x07, 0, 0, 0, 0, 9}))
		v.Assert(err == nil, "an object with a reference to itself decodes")
		return x
	}
	return o
}

// A03_deep: values nested hundreds of levels deep.
func A03_deep() {
	n := v.Param("deep", 300)
	a, b := v.Choose(4), v.Choose(4)
	k := "k" + v.Str(1)
	x := v.U32()
	w := u.NewWriter()
	m, err := amf.NewEnDecAMF0().Encode(w, chainVal(n, a, b, k, x))
	v.Assert(err == nil && m == len(w.B), "a deep value is encoded")
	got, err := amf.NewEnDecAMF0().Decode(bytes.NewReader(w.B))
	v.Assert(err == nil, "a deep value decodes")
	for i := n - 1; i >= 0; i-- {
		kind := a
		if i%2 == 1 {
			kind = b
		}
		switch kind {
		case 0:
			o, ok := got.(amf.Object)
			v.Assert(ok && len(o) == 1, "a deep object keeps its member")
			got = o[k]
		case 1:
			o, ok := got.(amf.TypedObject)
			v.Assert(ok && len(o.Object) == 1 && o.Type == "t", "a deep typed object keeps its member")
			got = o.Object[k]
		default:
			o, ok := got.(amf.Array)
			v.Assert(ok && len(o) == 1, "a deep array keeps its element")
			got = o[0]
		}
	}
	v.Assert(isF(got, float64(x)), "a deep value keeps its leaf")
	v.Cover("A03 deep value")
}

// A03_self: a value that contains itself is refused.
func A03_self() {
	d := amf.NewEnDecAMF0()
	var err error
	switch v.Choose(3) {
	case 0:
		_, err = d.Encode(u.NewWriter(), selfVal())
	case 1:
		err = d.EncodeBatch(u.NewWriter(), 1, selfVal())
	case 2:
		o, ok := selfVal().(amf.Object)
		if !ok {
			return
		}
		_, err = d.EncodeEcmaArray(u.NewWriter(), o)
	}
	v.Assert(err != nil, "a value that contains itself is refused")
	w := u.NewWriter()
	n, err := d.Encode(w, amf.Array{amf.Object{}})
	v.Assert(err == nil && n == len(w.B), "an encoder encodes after it refused a value")
	v.Cover("A03 value containing itself refused")
}

// A05_deep: values nested hundreds of levels deep, in AMF3.
func A05_deep() {
	n := v.Param("deep", 300)
	a, b := v.Choose(4), v.Choose(4)
	k := "k" + v.Str(1)
	x := v.U32()
	v.Assume(x < 1<<29)
	w := u.NewWriter()
	val := chainVal(n, a, b, k, x)
	in0 := v.Bool()
	var m int
	var err error
	var got any
	if in0 {
		m, err = amf.NewEnDecAMF0().EncodeWithAMF3(w, val)
	} else {
		m, err = amf.NewEnDecAMF3().Encode(w, val)
	}
	v.Assert(err == nil && m == len(w.B), "a deep value is encoded")
	if in0 {
		got, err = amf.NewEnDecAMF0().Decode(bytes.NewReader(w.B))
	} else {
		got, err = amf.NewEnDecAMF3().Decode(bytes.NewReader(w.B))
	}
	v.Assert(err == nil, "a deep value decodes")
	for i := n - 1; i >= 0; i-- {
		kind := a
		if i%2 == 1 {
			kind = b
		}
		if kind < 2 {
			o, ok := got.(amf.Object)
			v.Assert(ok && len(o) == 1, "a deep object keeps its member")
			got = o[k]
		} else {
			d, ok := dense(got)
			v.Assert(ok && len(d) == 1, "a deep array keeps its element")
			got = d[0]
		}
	}
	y, ok := got.(uint32)
	v.Assert(ok && y == x, "a deep value keeps its leaf")
	v.Cover("A05 deep value")
}

// A05_self: a value that contains itself is refused, in AMF3.
func A05_self() {
	var err error
	switch v.Choose(3) {
	case 0:
		_, err = amf.NewEnDecAMF3().Encode(u.NewWriter(), selfVal())
	case 1:
		err = amf.NewEnDecAMF3().EncodeBatch(u.NewWriter(), true, selfVal())
	case 2:
		_, err = amf.NewEnDecAMF0().EncodeWithAMF3(u.NewWriter(), selfVal())
	}
	v.Assert(err != nil, "a value that contains itself is refused")
	v.Cover("A05 value containing itself refused")
}
