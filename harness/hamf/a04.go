package hamf

import (
	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

func layout(x node) {
	w := u.NewWriter()
	_, err := x.encode(amf.NewEnDecAMF0(), w)
	v.Assert(err == nil, "a representable value is encoded")
	v.ObsI("len", int64(len(w.B)))
	ok := false
	for _, a := range x.alts {
		ok = v.Or(ok, len(a) == len(w.B) && v.EqB(a, w.B))
	}
	v.Assert(ok, "the encoding is the layout of the specification")
	v.Cover("A04 layout")
}

// A04_leaf: every value without members.
func A04_leaf() { layout(leaf0(true)) }

// A04_special: undefined, unsupported, XML documents and associative arrays.
func A04_special() { layout(special0(1)) }

// A04_nested: objects, typed objects and arrays of values.
func A04_nested() { layout(val0(v.Param("depth", 2), v.Param("width", 2))) }

// A04_long: strings and XML documents around the limits of their length fields.
func A04_long() { layout(long0()) }

// A04_reference: the reference marker and its index.
func A04_reference() {
	i := v.U16()
	w := u.NewWriter()
	n, err := amf.NewEnDecAMF0().EncodeReference(w, i)
	v.Assert(err == nil && n == 3, "a reference is encoded")
	v.Assert(u.Eq(w.B, u.Cat([]byte{7}, u.BE(uint64(i), 2))), "the encoding is the layout of the specification")
	v.Cover("A04 reference")
}

// A04_amf3: the switch to AMF3 is one marker before the AMF3 form.
func A04_amf3() {
	x := leaf0(true)
	w, w3 := u.NewWriter(), u.NewWriter()
	n, err := amf.NewEnDecAMF0().EncodeWithAMF3(w, x.val)
	n3, err3 := amf.NewEnDecAMF3().Encode(w3, x.val)
	v.Assert(err == nil && err3 == nil, "a representable value is encoded")
	v.Assert(n == n3+1 && n == len(w.B), "the returned count is the number of bytes written")
	v.Assert(u.Eq(w.B, u.Cat([]byte{17}, w3.B)), "the AMF3 form follows the switch marker")
	v.Cover("A04 switch")
}

// A04_wide: arrays of many elements.
func A04_wide() { layout(wide0()) }

// A04_spine: chains of containers.
func A04_spine() { layout(spine0()) }
