// Package hparser holds the harnesses of the codec parsers.
package hparser

import (
	"github.com/moggle-mog/goav/parser/h264"

	"verif/harness/u"
	"verif/harness/v"
)

var (
	start = []byte{0, 0, 0, 1}
	aud   = []byte{0, 0, 0, 1, 9, 0xf0}
)

type unit []byte

func (x unit) avcc() []byte { return x.prefixed(4) }

// prefixed is x behind a length of n bytes.
func (x unit) prefixed(n int) []byte { return u.Cat(u.BE(uint64(len(x)), n), x) }

// nal is a unit of type t and length n with arbitrary contents.
func nal(t byte, n int) unit {
	b := v.Bytes(n)
	b[0] = b[0]&0xe0 | t
	return b
}

// state is what a converter remembers: the parameter sets of the last sequence header, with start codes,
// and how many bytes the length of a unit has (four before any header).
type state struct {
	sets []byte
	size int
}

func (s *state) prefix() int {
	if s.size == 0 {
		return 4
	}
	return s.size
}

// convert is the Annex-B form of the length-prefixed b; ok says whether b is well formed.
func (s *state) convert(b []byte) (out []byte, ok bool) {
	out = u.Cat(aud)
	var own []byte
	idr := false
	for len(b) > 0 {
		if len(b) < s.prefix() {
			return out, false
		}
		n := 0
		for _, x := range b[:s.prefix()] {
			n = n<<8 | int(x)
		}
		b = b[s.prefix():]
		if n == 0 || n > len(b) {
			return out, false
		}
		n = v.Conc(n)
		x := b[:n]
		b = b[n:]
		switch x[0] & 0x1f {
		case 1, 6:
			out = u.Cat(out, start, x)
		case 5:
			if !idr {
				idr = true
				if len(own) > 0 {
					out = u.Cat(out, own)
				} else {
					out = u.Cat(out, s.sets)
				}
			}
			out = u.Cat(out, start, x)
		case 7, 8:
			own = u.Cat(own, start, x)
		case 9:
		default:
			return out, false
		}
	}
	return out, true
}

// parse gives b to p and returns what it writes.
func parse(p *h264.Parser, b []byte, seq bool) ([]byte, error) {
	w := u.NewWriter()
	keep := append([]byte(nil), b...)
	err := p.Parse(b, seq, w)
	v.Assert(u.Eq(b, keep), "the input is left unchanged")
	return w.B, err
}

// config is a sequence header with the given parameter sets.
func config(sps, pps [][]byte) []byte {
	b := []byte{1, 0x64, 0, 0x1f, 0xff, 0xe0 | byte(len(sps))}
	for _, x := range sps {
		b = u.Cat(b, u.BE(uint64(len(x)), 2), x)
	}
	b = u.Cat(b, []byte{byte(len(pps))})
	for _, x := range pps {
		b = u.Cat(b, u.BE(uint64(len(x)), 2), x)
	}
	return b
}

// someConfig is a sequence header with arbitrary parameter sets, and those sets with start codes.
func someConfig(max int) (b, sets []byte) {
	var sps, pps [][]byte
	for i, n := 0, 1+v.Choose(max); i < n; i++ {
		x := nal(7, 1+v.Choose(2))
		sps = append(sps, x)
		sets = u.Cat(sets, start, x)
	}
	for i, n := 0, 1+v.Choose(max); i < n; i++ {
		x := nal(8, 1+v.Choose(2))
		pps = append(pps, x)
		sets = u.Cat(sets, start, x)
	}
	return config(sps, pps), sets
}

func annexb(b []byte) bool {
	return len(b) >= 4 && b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1
}

// P01_units: well-formed access units of slices, pictures, messages and delimiters.
func P01_units() {
	p := h264.NewParser()
	var in []byte
	out := u.Cat(aud)
	n := 1 + v.Choose(v.Param("units", 4))
	for i := 0; i < n; i++ {
		t := byte(v.Pick(1, 5, 6, 9))
		k := 1 + v.Choose(3)
		if i == 0 && k == 1 {
			v.Skip() // looks like Annex-B
		}
		x := nal(t, k)
		in = u.Cat(in, x.avcc())
		if t != 9 {
			out = u.Cat(out, start, x)
		}
	}
	got, err := parse(p, in, false)
	v.ObsB("annexb", got)
	v.Assert(err == nil, "a well-formed access unit is converted")
	v.Assert(u.Eq(got, out), "the units are complete, in order and each after a start code")
	v.Cover("P01 units")
}

// P01_long: long units, and one after the other on the same converter.
func P01_long() {
	p := h264.NewParser()
	for i := 0; i < 2; i++ {
		n := v.Pick(2, 255, 256, 257, 511, 512, 2048, 2049, 65535, 65536, 65541, 1<<17+3)
		k := v.Pick(1, 3, 256)
		x, y := nal(1, 2), nal(6, k)
		a := make([]byte, n)
		copy(a, x)
		a[n-1] = v.U8()
		a[0] = a[0]&0xe0 | 1
		in := u.Cat(unit(a).avcc(), y.avcc())
		got, err := parse(p, in, false)
		v.Assert(err == nil, "a well-formed access unit is converted")
		v.Assert(u.Eq(got, u.Cat(aud, start, a, start, y)), "the units are complete, in order and each after a start code")
	}
	v.Cover("P01 long")
}

// P01_bytes: any bytes whatever.
func P01_bytes() {
	p := h264.NewParser()
	b := v.Bytes(v.Choose(v.Param("n", 12) + 1))
	got, err := parse(p, b, false)
	if len(b) == 0 {
		v.Assert(err != nil, "no data is an error")
		return
	}
	if annexb(b) {
		v.Assert(err == nil && u.Eq(got, b), "Annex-B data is passed through")
		v.Cover("P01 passed through")
		return
	}
	s := &state{}
	want, ok := s.convert(b)
	v.Assert((err == nil) == ok, "exactly malformed input is reported")
	if ok {
		v.Assert(u.Eq(got, want), "the units are complete, in order and each after a start code")
		v.Cover("P01 converted")
	} else {
		v.Cover("P01 malformed")
	}
}

// P01_size: a unit length of any value.
func P01_size() {
	p := h264.NewParser()
	n := v.U32()
	k := v.Pick(2, 3, 260)
	x := nal(1, 2)
	a := make([]byte, k)
	copy(a, x)
	_, err := parse(p, u.Cat(u.BE(uint64(n), 4), a), false)
	if n == 0 || uint64(n) > uint64(k) {
		v.Assert(err != nil, "a zero or overlong unit length is reported")
		v.Cover("P01 bad length")
	} else if uint64(n) == uint64(k) {
		v.Assert(err == nil, "a well-formed access unit is converted")
	}
}

// P01_failing: a failed write is reported and nothing is written after it.
func P01_failing() {
	p := h264.NewParser()
	c, _ := someConfig(1)
	if v.Bool() {
		parse(p, c, true)
	}
	in := u.Cat(nal(6, 2).avcc(), nal(5, 2).avcc(), nal(1, 2).avcc())
	if v.Bool() {
		in = u.Cat(start, in)
	}
	w := u.NewWriter()
	w.FailAt = v.Choose(8)
	w.Short = v.Choose(2)
	err := p.Parse(in, false, w)
	if w.Failed {
		v.Assert(err != nil, "a failed write is reported")
		v.Assert(w.After == 0, "nothing is written after a failed write")
		v.Cover("P01 failing")
	} else {
		v.Assert(err == nil, "a well-formed access unit is converted")
	}
}

// P02_history: sequence headers and access units in any order.
func P02_history() {
	p := h264.NewParser()
	s := &state{}
	for i := 0; i < v.Param("steps", 3); i++ {
		if v.Bool() {
			c, sets := someConfig(v.Param("sets", 1))
			switch v.Choose(3) {
			case 1:
				// cut short
				c = c[:v.Pick(0, 5, 8, len(c)-1)]
				got, err := parse(p, c, true)
				v.Assert(err != nil && len(got) == 0, "an incomplete sequence header is refused")
				continue
			case 2:
				// extensions of high profiles after the sets
				c = u.Cat(c, []byte{0xfd, 0xf8, 0xf8, 0})
			}
			got, err := parse(p, c, true)
			v.Assert(err == nil && len(got) == 0, "a sequence header is accepted and writes nothing")
			s.sets = sets
			v.Cover("P02 header")
			continue
		}
		var in []byte
		for j, n := 0, 1+v.Choose(v.Param("units", 2)); j < n; j++ {
			in = u.Cat(in, nal(byte(v.Pick(1, 5, 7, 8)), 2).avcc())
		}
		got, err := parse(p, in, false)
		want, _ := s.convert(in)
		v.Assert(err == nil, "a well-formed access unit is converted")
		v.Assert(u.Eq(got, want), "the first picture is preceded once by the current parameter sets")
		v.Cover("P02 unit")
	}
}

// P02_units: access units of many units after a sequence header.
func P02_units() {
	p := h264.NewParser()
	s := &state{}
	c, sets := someConfig(2)
	_, err := parse(p, c, true)
	v.Assert(err == nil, "a sequence header is accepted")
	s.sets = sets
	var in []byte
	for j, n := 0, 1+v.Choose(v.Param("many", 4)); j < n; j++ {
		in = u.Cat(in, nal(byte(v.Pick(1, 5, 6, 7, 8, 9)), 2).avcc())
	}
	got, err := parse(p, in, false)
	want, _ := s.convert(in)
	v.Assert(err == nil, "a well-formed access unit is converted")
	v.Assert(u.Eq(got, want), "the first picture is preceded once by the current parameter sets")
	v.Cover("P02 units")
}

// P02_broken: what a broken access unit brought does not show up later.
func P02_broken() {
	p := h264.NewParser()
	s := &state{}
	c, sets := someConfig(1)
	if v.Bool() {
		parse(p, c, true)
		s.sets = sets
	}
	bad := u.Cat(nal(7, 2).avcc(), nal(8, 2).avcc())
	switch v.Choose(3) {
	case 0:
		bad = u.Cat(bad, nal(14, 2).avcc())
	case 1:
		bad = u.Cat(bad, []byte{0, 0, 0, 9, 1})
	case 2:
		bad = u.Cat(bad, nal(5, 3).avcc()[:3])
	}
	_, err := parse(p, bad, false)
	v.Assert(err != nil, "a broken access unit is refused")
	in := u.Cat(nal(6, 2).avcc(), nal(5, 2).avcc(), nal(5, 2).avcc())
	got, err := parse(p, in, false)
	want, _ := s.convert(in)
	v.Assert(err == nil && u.Eq(got, want), "the first picture is preceded once by the current parameter sets")
	v.Cover("P02 broken")
}

// P02_long: parameter sets of many bytes.
func P02_long() {
	p := h264.NewParser()
	s := &state{}
	n, k := v.Pick(1, 255, 256, 300, 1023, 2048, 2049, 65535), v.Pick(1, 256, 1025, 40000)
	x, y := make([]byte, n), make([]byte, k)
	x[n-1], y[k-1] = v.U8(), v.U8()
	x[0], y[0] = 0x67, 0x68
	if v.Bool() {
		_, err := parse(p, config([][]byte{x}, [][]byte{y}), true)
		v.Assert(err == nil, "a sequence header is accepted")
		s.sets = u.Cat(start, x, start, y)
	} else {
		in := u.Cat(nal(6, 2).avcc(), unit(x).avcc(), unit(y).avcc(), nal(5, 2).avcc())
		got, err := parse(p, in, false)
		want, _ := s.convert(in)
		v.Assert(err == nil && u.Eq(got, want), "the first picture is preceded once by the current parameter sets")
	}
	in := nal(5, 2).avcc()
	got, err := parse(p, in, false)
	want, _ := s.convert(in)
	v.Assert(err == nil && u.Eq(got, want), "the first picture is preceded once by the current parameter sets")
	v.Cover("P02 long")
}

// P02_header: any bytes as a sequence header give exactly its sets or an error.
func P02_header() {
	p := h264.NewParser()
	b := v.Bytes(v.Choose(v.Param("n", 14) + 1))
	got, err := parse(p, b, true)
	v.Assert(len(got) == 0, "a sequence header writes nothing")
	s := &state{}
	if err == nil {
		v.Assert(len(b) >= 7, "an incomplete sequence header is refused")
		at := 5
		for k := 0; k < 2; k++ {
			sets := int(b[at])
			if k == 0 {
				sets &= 0x1f
			}
			at++
			v.Assert(sets > 0, "an incomplete sequence header is refused")
			for sets = v.Conc(sets); sets > 0; sets-- {
				v.Assert(at+2 <= len(b), "an incomplete sequence header is refused")
				n := int(b[at])<<8 | int(b[at+1])
				v.Assert(n > 0 && at+2+n <= len(b), "an incomplete sequence header is refused")
				n = v.Conc(n)
				s.sets = u.Cat(s.sets, start, b[at+2:at+2+n])
				at += 2 + n
			}
			v.Assert(k == 1 || at < len(b), "an incomplete sequence header is refused")
		}
		s.size = v.Conc(int(b[4]&3)) + 1
		v.Cover("P02 any header")
	}
	in := nal(5, 2).prefixed(s.prefix())
	got, err = parse(p, in, false)
	want, _ := s.convert(in)
	v.Assert(err == nil && u.Eq(got, want), "the first picture is preceded once by the current parameter sets")
}

// P01_many: access units of many units, and many access units on one converter.
func P01_many() {
	p := h264.NewParser()
	s := &state{}
	for i, n := 0, v.Param("history", 40); i < n; i++ {
		var in []byte
		for j, k := 0, 1+i; j < k; j++ {
			t := []byte{1, 6, 9}[(i+j)%3]
			in = u.Cat(in, nal(t, 2+(i+j)%5).avcc())
		}
		got, err := parse(p, in, false)
		want, _ := s.convert(in)
		v.Assert(err == nil, "a well-formed access unit is converted")
		v.Assert(u.Eq(got, want), "the units are complete, in order and each after a start code")
	}
	v.Cover("P01 many")
}

// P02_many: a long history of sequence headers and pictures, with and without parameter sets of their own.
func P02_many() {
	p := h264.NewParser()
	s := &state{}
	for i, n := 0, v.Param("history", 60); i < n; i++ {
		if i%7 == 3 {
			c, sets := sized(1+i%3, 1+i%5, 2+i)
			got, err := parse(p, c, true)
			v.Assert(err == nil && len(got) == 0, "a sequence header is accepted and writes nothing")
			s.sets = sets
		}
		var in []byte
		if i%5 == 4 {
			in = u.Cat(nal(7, 2+i).avcc(), nal(8, 2).avcc())
		}
		in = u.Cat(in, nal([]byte{5, 1, 1}[i%3], 2).avcc(), nal([]byte{5, 1, 6}[i%3], 2).avcc())
		got, err := parse(p, in, false)
		want, _ := s.convert(in)
		v.Assert(err == nil, "a well-formed access unit is converted")
		v.Assert(u.Eq(got, want), "the first picture is preceded once by the current parameter sets")
	}
	v.Cover("P02 many")
}

// sized is a sequence header of n sequence and k picture parameter sets of up to size bytes.
func sized(n, k, size int) (b, sets []byte) {
	var sps, pps [][]byte
	for i := 0; i < n; i++ {
		x := nal(7, 1+(size+i)%size)
		sps = append(sps, x)
		sets = u.Cat(sets, start, x)
	}
	for i := 0; i < k; i++ {
		x := nal(8, 1+(size+i*3)%size)
		pps = append(pps, x)
		sets = u.Cat(sets, start, x)
	}
	return config(sps, pps), sets
}

// P02_sets: sequence headers with as many parameter sets as they can have.
func P02_sets() {
	p := h264.NewParser()
	s := &state{}
	n, k := v.Pick(1, 2, 15, 16, 31), v.Pick(1, 16, 31, 32, 64, 127, 128, 255)
	c, sets := sized(n, k, 3)
	got, err := parse(p, c, true)
	v.Assert(err == nil && len(got) == 0, "a sequence header is accepted and writes nothing")
	s.sets = sets
	in := u.Cat(nal(6, 2).avcc(), nal(5, 2).avcc())
	got, err = parse(p, in, false)
	want, _ := s.convert(in)
	v.Assert(err == nil && u.Eq(got, want), "the first picture is preceded once by the current parameter sets")
	v.Cover("P02 sets")
}

// P01_prefix: units behind lengths of as many bytes as the last sequence header says.
func P01_prefix() {
	p := h264.NewParser()
	s := &state{}
	for i, n := 0, v.Param("prefix", 2); i < n; i++ {
		if i > 0 || v.Bool() {
			x, y := nal(7, 2), nal(8, 2)
			c, sets := config([][]byte{x}, [][]byte{y}), u.Cat(start, x, start, y)
			c[4] = v.U8()
			if v.Bool() {
				// refused, so the previous one stays
				_, err := parse(p, c[:len(c)-1], true)
				v.Assert(err != nil, "an incomplete sequence header is refused")
			} else {
				_, err := parse(p, c, true)
				v.Assert(err == nil, "a sequence header is accepted")
				s.sets, s.size = sets, v.Conc(int(c[4]&3))+1
			}
		}
		k := s.prefix()
		in := nal(byte(v.Pick(1, 5)), 2).prefixed(k)
		long := 255
		if k > 1 {
			long = 256
		}
		if v.Bool() {
			x := make([]byte, long)
			copy(x, nal(6, 3))
			x[long-1] = v.U8()
			in = u.Cat(unit(x).prefixed(k), in)
		}
		if v.Bool() {
			// the next length is cut short, zero or too large
			in = u.Cat(in, [][]byte{make([]byte, k-1), make([]byte, k), u.BE(2, k)}[v.Choose(3)])
		}
		got, err := parse(p, in, false)
		want, ok := s.convert(in)
		v.Assert((err == nil) == ok, "exactly malformed input is reported")
		if ok {
			v.Assert(u.Eq(got, want), "the units are complete, in order and each after a start code")
			v.Cover("P01 prefix")
		}
	}
}
