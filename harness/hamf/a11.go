package hamf

import (
	"io"

	"github.com/moggle-mog/goav/amf"

	"verif/harness/u"
	"verif/harness/v"
)

// failing encodes once without failures, then once for a failure of one of the writes.
func failing(enc func(w io.Writer) (int, error)) {
	w := u.NewWriter()
	n, err := enc(w)
	v.Assert(err == nil, "a representable value is encoded")
	v.Assert(n == len(w.B), "the returned count is the number of bytes the destination received")
	f := u.NewWriter()
	f.FailAt = v.Choose(w.Calls)
	f.Short = v.Choose(2)
	_, err = enc(f)
	v.Assert(err != nil, "a failed write is reported")
	v.Cover("A11 failure")
}

// A11_amf0: values of every kind.
func A11_amf0() {
	var x node
	if v.Bool() {
		x = leaf0(true)
	} else {
		x = val0(v.Param("depth", 2), v.Param("width", 2))
	}
	failing(func(w io.Writer) (int, error) { return amf.NewEnDecAMF0().Encode(w, x.val) })
}

// A11_special: the encoders with methods of their own.
func A11_special() {
	switch v.Choose(3) {
	case 0:
		x := special0(1)
		failing(func(w io.Writer) (int, error) { return x.encode(amf.NewEnDecAMF0(), w) })
	case 1:
		i := v.U16()
		failing(func(w io.Writer) (int, error) { return amf.NewEnDecAMF0().EncodeReference(w, i) })
	case 2:
		x := val3(1, v.Param("width", 2))
		failing(func(w io.Writer) (int, error) { return amf.NewEnDecAMF0().EncodeWithAMF3(w, x.val) })
	}
}

// A11_long: long strings and XML documents.
func A11_long() {
	x := long0()
	failing(func(w io.Writer) (int, error) { return x.encode(amf.NewEnDecAMF0(), w) })
}

// A11_amf3: values of every kind.
func A11_amf3() {
	var x node3
	if v.Bool() {
		x = leaf3()
	} else {
		x = val3(v.Param("depth", 2), v.Param("width", 2))
	}
	failing(func(w io.Writer) (int, error) { return amf.NewEnDecAMF3().Encode(w, x.val) })
}

// A11_batch: batches of either format.
func A11_batch() {
	n := v.Choose(3)
	three := v.Bool()
	var args []interface{}
	for i := 0; i < n; i++ {
		if three {
			args = append(args, leaf3().val)
		} else {
			args = append(args, leaf0(false).val)
		}
	}
	enc := func(w io.Writer) error {
		if three {
			return amf.NewEnDecAMF3().EncodeBatch(w, args...)
		}
		return amf.NewEnDecAMF0().EncodeBatch(w, args...)
	}
	w := u.NewWriter()
	v.Assert(enc(w) == nil, "a batch of representable values is encoded")
	if w.Calls == 0 {
		return
	}
	f := u.NewWriter()
	f.FailAt = v.Choose(w.Calls)
	v.Assert(enc(f) != nil, "a failed write is reported")
	v.Cover("A11 batch")
}
