package hamf

import (
	"bytes"
	"io"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

func roundTrip0(x node) {
	w := u.NewWriter()
	n, err := x.encode(amf.NewEnDecAMF0(), w)
	v.Assert(err == nil, "a representable value is encoded")
	v.Assert(n == len(w.B), "the returned count is the number of bytes written")
	v.ObsI("len", int64(len(w.B)))
	tail := v.U8()
	r := bytes.NewReader(append(append([]byte(nil), w.B...), tail))
	got, err := amf.NewEnDecAMF0().Decode(r)
	v.Assert(err == nil, "an encoded value decodes")
	v.Assert(r.Len() == 1, "decoding consumes exactly the bytes written")
	v.Assert(x.check(got), "the decoded value equals the encoded one")
	v.Cover("A03 round trip")
}

// A03_leaf: every value without members.
func A03_leaf() { roundTrip0(leaf0(true)) }

// A03_special: undefined, unsupported, XML documents and associative arrays.
func A03_special() { roundTrip0(special0(1)) }

// A03_nested: objects, typed objects and arrays of values.
func A03_nested() { roundTrip0(val0(v.Param("depth", 2), v.Param("width", 2))) }

// A03_long: strings and XML documents around the limits of their length fields.
func A03_long() { roundTrip0(long0()) }

type odd struct{ X int }

// A03_refused: what AMF0 cannot hold is an error.
func A03_refused() {
	big := string(make([]byte, v.Pick(65536, 65537, 70000)))
	var val any
	switch v.Choose(13) {
	case 0:
		val = amf.Object{"": 1.0}
	case 1:
		val = amf.Object{big: nil}
	case 2:
		val = amf.TypedObject{Type: big}
	case 3:
		val = amf.TypedObject{Type: "t", Object: amf.Object{"": true}}
	case 4:
		val = odd{1}
	case 5:
		val = &odd{1}
	case 6:
		val = map[string]interface{}{"a": 1}
	case 7:
		val = [2]any{nil, odd{}}
	case 8:
		val = uintptr(3)
	case 9:
		val = func() {}
	case 10:
		val = amf.Array{1.0, odd{2}}
	case 11:
		val = amf.Object{"k": amf.Object{"": nil}}
	case 12:
		val = amf.Object{"k": &odd{}}
	}
	w := u.NewWriter()
	_, err := amf.NewEnDecAMF0().Encode(w, val)
	v.Assert(err != nil, "a value AMF0 cannot represent is refused")
	v.Cover("A03 refused")
}

// A03_batch: a batch of values decodes to the same values.
func A03_batch() {
	n := v.Choose(v.Param("batch", 3) + 1)
	var xs []node
	var args []interface{}
	for i := 0; i < n; i++ {
		x := leaf0(true)
		xs, args = append(xs, x), append(args, x.val)
	}
	w := u.NewWriter()
	err := amf.NewEnDecAMF0().EncodeBatch(w, args...)
	v.Assert(err == nil, "a batch of representable values is encoded")
	got, err := amf.NewEnDecAMF0().DecodeBatch(bytes.NewReader(w.B))
	v.Assert(err == nil, "an encoded batch decodes")
	v.Assert(len(got) == n, "a batch keeps its values")
	for i := range xs {
		v.Assert(xs[i].check(got[i]), "each value of the batch equals the encoded one")
	}
	v.Cover("A03 batch")
}

// A03_wide: arrays of many elements.
func A03_wide() { roundTrip0(wide0()) }

// A03_spine: chains of containers.
func A03_spine() { roundTrip0(spine0()) }

// A03_members: objects of many members.
func A03_members() {
	o, chk := wideObject()
	obj := func(g any) bool { q, ok := g.(amf.Object); return ok && chk(q) }
	switch v.Choose(4) {
	case 0:
		roundTrip0(node{o, nil, obj, nil})
	case 1:
		roundTrip0(node{nil, nil, obj, func(ed *amf.EnDecAMF0, w io.Writer) (int, error) { return ed.EncodeEcmaArray(w, o) }})
	case 2:
		roundTrip0(node{amf.TypedObject{Type: "T", Object: o}, nil, func(g any) bool {
			q, ok := g.(amf.TypedObject)
			return ok && q.Type == "T" && chk(q.Object)
		}, nil})
	case 3:
		roundTrip0(node{amf.Array{o, o}, nil, func(g any) bool {
			a, ok := g.(amf.Array)
			return ok && len(a) == 2 && obj(a[0]) && obj(a[1])
		}, nil})
	}
}
