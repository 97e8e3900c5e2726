// Package hflv holds the harnesses of the FLV muxer and demuxer.
package hflv

import (
	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

// tag is one whole FLV tag as the format prescribes it.
func tag(typ byte, data []byte, ts uint32) []byte {
	n := uint64(len(data))
	return u.Cat([]byte{typ}, u.BE(n, 3), u.BE(uint64(ts&0xffffff), 3), []byte{byte(ts >> 24), 0, 0, 0}, data, u.BE(n+11, 4))
}

func str0(s string) []byte { return u.Cat([]byte{2}, u.BE(uint64(len(s)), 2), []byte(s)) }

var command = str0("@setDataFrame")

// payload is the data of a packet of type t and what its tag carries; bad says that it must be refused.
func payload(t int) (data, body []byte, bad bool) {
	if t != packet.PktMetadata {
		b := v.Bytes(v.Choose(v.Param("len", 3) + 1))
		return b, b, false
	}
	switch v.Choose(5) {
	case 0:
		b := u.Cat(str0("onMetaData"), v.Bytes(v.Choose(3)))
		return b, b, false
	case 1:
		b := v.Bytes(v.Choose(3))
		return u.Cat(command, b), b, false
	case 2:
		b := v.Bytes(v.Choose(2))
		return u.Cat([]byte{12, 0, 0, 0, 13}, []byte("@setDataFrame"), b), b, false
	case 3:
		b := u.Cat(str0(v.Str(v.Choose(2))), v.Bytes(1))
		return b, b, false
	}
	return u.Cat([]byte{byte(v.Pick(0, 1, 5, 10))}, v.Bytes(v.Choose(3))), nil, true
}

func kind() int {
	return v.Pick(packet.PktVideo, packet.PktAudio, packet.PktMetadata, 3, -1, 8, 9, 18, 1<<31, 256, -1<<63)
}

func tagType(t int) (byte, bool) {
	switch t {
	case packet.PktVideo:
		return 9, true
	case packet.PktAudio:
		return 8, true
	case packet.PktMetadata:
		return 18, true
	}
	return 0, false
}

// F01_tags: sequences of packets of any types, timestamps and contents.
func F01_tags() {
	w := u.NewWriter()
	m := flv.NewMixer(w)
	n := 1 + v.Choose(v.Param("packets", 3))
	var want []byte
	for i := 0; i < n; i++ {
		t := v.Pick(packet.PktVideo, packet.PktAudio, packet.PktMetadata)
		if i == 0 || i == n-1 {
			t = kind()
		}
		typ, ok := tagType(t)
		data, body, bad := payload(t)
		ts := v.U32()
		p := &packet.Packet{Type: t, Data: data, TimeStamp: v.U32(), Baseline: v.U32(), StreamID: v.U32()}
		err := m.Mux(p, ts)
		if !ok || bad {
			v.Assert(err != nil, "a packet that cannot be a tag is an error")
			v.Cover("F01 refused")
		} else {
			v.Assert(err == nil, "a packet is written")
			want = append(want, tag(typ, body, ts)...)
			v.Cover("F01 tag")
		}
		v.Assert(u.Eq(w.B, want), "exactly the tags of the packets are written")
	}
}

// chunks keeps what it is given, long pieces by reference.
type chunks struct{ c [][]byte }

func (c *chunks) Write(p []byte) (int, error) {
	if len(p) > 64 {
		c.c = append(c.c, p)
	} else {
		c.c = append(c.c, append([]byte(nil), p...))
	}
	return len(p), nil
}

// F01_sizes: data around the limits of the size fields.
func F01_sizes() {
	n := v.Pick(0, 1, 127, 128, 255, 256, 65524, 65535, 65536, 70000)
	b := make([]byte, n)
	for _, i := range []int{0, n / 2, n - 1} {
		if i >= 0 && i < n {
			b[i] = v.U8()
		}
	}
	w := u.NewWriter()
	ts := v.U32()
	t := v.Pick(packet.PktVideo, packet.PktAudio)
	typ, _ := tagType(t)
	err := flv.NewMixer(w).Mux(&packet.Packet{Type: t, Data: b}, ts)
	v.Assert(err == nil, "a packet is written")
	v.Assert(u.Eq(w.B, tag(typ, b, ts)), "exactly the tag of the packet is written")
	v.Cover("F01 sizes")
}

// F01_limit: data around the 24-bit limit.
func F01_limit() {
	n := v.Pick(1<<24-1, 1<<24-2, 1<<24, 1<<24+1, 1<<25, 1<<24-12)
	b := make([]byte, n)
	b[0], b[n-1] = v.U8(), v.U8()
	c := &chunks{}
	ts := v.U32()
	t := v.Pick(packet.PktVideo, packet.PktAudio)
	typ, _ := tagType(t)
	m := flv.NewMixer(c)
	err := m.Mux(&packet.Packet{Type: t, Data: b}, ts)
	if n > 1<<24-1 {
		v.Assert(err != nil && len(c.c) == 0, "data that does not fit the size field is refused before anything is written")
		v.Cover("F01 too long")
	} else {
		v.Assert(err == nil, "a packet is written")
		total, at := 0, 0
		var head, last []byte
		seen := false
		for _, x := range c.c {
			if len(x) <= 64 && !seen {
				head = append(head, x...)
			} else if len(x) == n {
				seen, at = true, total
				v.Assert(x[0] == b[0] && x[n-1] == b[n-1], "the data is unchanged")
			} else {
				last = append(last, x...)
			}
			total += len(x)
		}
		if seen { // the data came as one piece
			v.Assert(total == n+15 && at == 11, "a tag is its header, the data and the tag's size")
			v.Assert(u.Eq(head, u.Cat([]byte{typ}, u.BE(uint64(n), 3), u.BE(uint64(ts&0xffffff), 3), []byte{byte(ts >> 24), 0, 0, 0})), "the header of the tag")
			v.Assert(u.Eq(last, u.BE(uint64(n)+11, 4)), "the size of the tag")
		} else {
			v.Assert(total == n+15, "a tag is its header, the data and the tag's size")
		}
		v.Cover("F01 longest")
	}
	// a refused packet leaves no trace
	c.c = nil
	d := v.Bytes(2)
	err = m.Mux(&packet.Packet{Type: packet.PktAudio, Data: d}, ts)
	var got []byte
	for _, x := range c.c {
		got = append(got, x...)
	}
	v.Assert(err == nil && u.Eq(got, tag(8, d, ts)), "the next packet does not depend on the one before")
}

// F02_history: any history of saves, then two files.
func F02_history() {
	w := u.NewWriter()
	cur := w
	m := flv.NewMixer(w)
	var md, avc, aac []byte
	n := v.Choose(v.Param("saves", 4) + 1)
	for i := 0; i < n; i++ {
		switch v.Choose(6) {
		case 0:
			var x any = v.F64()
			if k := v.Choose(3); k > 0 {
				x = v.Str(15 * k)
			}
			v.Assert(m.SaveMetadata(amf.Object{"x": x}) == nil, "metadata is saved")
			o := u.NewWriter()
			_, err := amf.NewEnDecAMF0().Encode(o, amf.Object{"x": x})
			v.Assert(err == nil, "metadata is encodable")
			md = tag(18, u.Cat(str0("onMetaData"), o.B), 0)
		case 1:
			d := v.Bytes(v.Choose(3))
			v.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Data: d, TimeStamp: v.U32()}) == nil, "a video header is saved")
			avc = tag(9, d, 0)
		case 2:
			d := v.Bytes(v.Choose(3))
			v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Data: d, TimeStamp: v.U32()}) == nil, "an audio header is saved")
			aac = tag(8, d, 0)
		case 3:
			d := v.Bytes(1)
			before := len(cur.B)
			ts := v.U32()
			v.Assert(m.Mux(&packet.Packet{Type: packet.PktVideo, Data: d}, ts) == nil, "a packet is written")
			v.Assert(u.Eq(cur.B[before:], tag(9, d, ts)), "exactly the tag of the packet is written")
		case 4:
			switch v.Choose(3) {
			case 0:
				v.Assert(m.SaveMetadata(amf.Object{"": 1.0}) != nil, "metadata that cannot be encoded is refused")
			case 1:
				v.Assert(m.SaveAVCHeader(&packet.Packet{Type: 7}) != nil, "a header of no media type is refused")
			case 2:
				v.Assert(m.SaveAACHeader(&packet.Packet{Type: -1}) != nil, "a header of no media type is refused")
			}
			v.Cover("F02 refused save")
		case 5:
			// a file started in between
			f := u.NewWriter()
			m.SetWriter(f)
			cur = f
			v.Assert(m.SetFlvHeader() == nil, "a file is started")
			v.Assert(u.Eq(f.B, start(md, avc, aac)), "the file header, then the saved headers")
		}
	}
	want := start(md, avc, aac)
	for i := 0; i < 2; i++ {
		f := u.NewWriter()
		if i == 0 && v.Bool() {
			f = w
			before := len(w.B)
			m.SetWriter(w)
			v.Assert(m.SetFlvHeader() == nil, "a file is started")
			v.Assert(u.Eq(w.B[before:], want), "the file header, then the saved headers")
			continue
		}
		m.SetWriter(f)
		v.Assert(m.SetFlvHeader() == nil, "a file is started")
		v.Assert(u.Eq(f.B, want), "the file header, then the saved headers")
	}
	v.Cover("F02 started")
}

func start(md, avc, aac []byte) []byte {
	flags := byte(0)
	if avc != nil {
		flags |= 1
	}
	if aac != nil {
		flags |= 4
	}
	return u.Cat([]byte{'F', 'L', 'V', 1, flags, 0, 0, 0, 9, 0, 0, 0, 0}, md, avc, aac)
}

// F02_long: saved headers longer than the buffers the mixer starts with.
func F02_long() {
	n := v.Pick(496, 497, 498, 511, 512, 513, 1100, 70000)
	b := make([]byte, n)
	b[0], b[n-1] = v.U8(), v.U8()
	m := flv.NewMixer(nil)
	v.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Data: b}) == nil, "a video header is saved")
	v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Data: b[:n-1]}) == nil, "an audio header is saved")
	want := start(nil, tag(9, b, 0), tag(8, b[:n-1], 0))
	// the saved header is a copy
	b[0] ^= 1
	w := u.NewWriter()
	m.SetWriter(w)
	v.Assert(m.SetFlvHeader() == nil, "a file is started")
	v.Assert(u.Eq(w.B, want), "the file header, then the saved headers")
	v.Cover("F02 long")
}

// F01_many: a long history of tags of growing sizes on one mixer.
func F01_many() {
	w := u.NewWriter()
	m := flv.NewMixer(w)
	kinds := []int{packet.PktVideo, packet.PktAudio, packet.PktMetadata}
	first := v.Choose(3)
	for i, n := 0, v.Param("history", 300); i < n; i++ {
		t := kinds[(first+i)%3]
		typ, _ := tagType(t)
		b := make([]byte, i)
		body := b
		if i > 0 {
			b[i-1] = v.U8()
		}
		if t == packet.PktMetadata {
			b = u.Cat(str0("onMetaData"), b)
			body = b
			if i%2 == 1 {
				b = u.Cat(command, b)
			}
		}
		ts := v.U32()
		before := len(w.B)
		v.Assert(m.Mux(&packet.Packet{Type: t, Data: b}, ts) == nil, "a packet is written")
		v.Assert(u.Eq(w.B[before:], tag(typ, body, ts)), "exactly the tags of the packets are written")
	}
	v.Cover("F01 many")
}

// F02_many: many files one after the other, with headers saved again in between.
func F02_many() {
	m := flv.NewMixer(nil)
	var md, avc, aac []byte
	for i, n := 0, v.Param("files", 40); i < n; i++ {
		d := v.Bytes(1 + i%5)
		switch i % 4 {
		case 0:
			v.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Data: d}) == nil, "a video header is saved")
			avc = tag(9, d, 0)
		case 1:
			v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Data: d}) == nil, "an audio header is saved")
			aac = tag(8, d, 0)
		case 2:
			s := string(d)
			v.Assert(m.SaveMetadata(amf.Object{"x": s}) == nil, "metadata is saved")
			md = tag(18, u.Cat(str0("onMetaData"), []byte{3, 0, 1, 'x'}, str0(s), []byte{0, 0, 9}), 0)
		}
		w := u.NewWriter()
		m.SetWriter(w)
		v.Assert(m.SetFlvHeader() == nil, "a file is started")
		v.Assert(u.Eq(w.B, start(md, avc, aac)), "the file header, then the saved headers")
		ts := v.U32()
		v.Assert(m.Mux(&packet.Packet{Type: packet.PktVideo, Data: d}, ts) == nil, "a packet is written")
		v.Assert(u.Eq(w.B, u.Cat(start(md, avc, aac), tag(9, d, ts))), "exactly the tag of the packet is written")
	}
	v.Cover("F02 many")
}
