package hflv

import (
	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

// saved is what has been given to a mixer for its headers.
type saved struct{ avc, aac []byte }

// op is something a mixer is used for, and what it writes.
func op(m *flv.Mixer, w *u.Writer, h *saved) func() {
	var want []byte
	var f func() error
	switch v.Choose(4) {
	case 0:
		d, ts := v.Bytes(2), v.U32()
		want = tag(9, d, ts)
		f = func() error { return m.Mux(&packet.Packet{Type: packet.PktVideo, Data: d}, ts) }
	case 1:
		d, ts := v.Bytes(1), v.U32()
		want = tag(8, d, ts)
		f = func() error { return m.Mux(&packet.Packet{Type: packet.PktAudio, Data: d}, ts) }
	case 2:
		d, ts := u.Cat(str0("onMetaData"), v.Bytes(1)), v.U32()
		want = tag(18, d, ts)
		f = func() error {
			return m.Mux(&packet.Packet{Type: packet.PktMetadata, Data: u.Cat(command, d)}, ts)
		}
	case 3:
		x, y, s := v.Bytes(2), v.Bytes(1), v.Str(2)
		k := 1 + v.Choose(3)
		md := tag(18, u.Cat(str0("onMetaData"), []byte{3, 0, 1, 'x'}, str0(s), []byte{0, 0, 9}), 0)
		if k&1 != 0 {
			h.avc = tag(9, x, 0)
		}
		if k&2 != 0 {
			h.aac = tag(8, y, 0)
		}
		want = start(md, h.avc, h.aac)
		f = func() error {
			if k&1 != 0 {
				v.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Data: x}) == nil, "a video header is saved")
			}
			if k&2 != 0 {
				v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Data: y}) == nil, "an audio header is saved")
			}
			v.Assert(m.SaveMetadata(amf.Object{"x": s}) == nil, "metadata is saved")
			return m.SetFlvHeader()
		}
	}
	return func() {
		before := len(w.B)
		v.Assert(f() == nil, "a mixer works while another one is used")
		v.Assert(u.Eq(w.B[before:], want), "a mixer writes what it would have written alone")
	}
}

func ops(m *flv.Mixer, w *u.Writer, n int) func() {
	var fs []func()
	h := &saved{}
	for i := 0; i < n; i++ {
		fs = append(fs, op(m, w, h))
	}
	return func() {
		for _, f := range fs {
			f()
		}
	}
}

// F06_mixers: two mixers, one of which is used while the other one writes.
func F06_mixers() {
	h := &u.Hook{At: v.Choose(v.Param("places", 20))}
	w1, w2 := u.NewWriter(), u.NewWriter()
	m1, m2 := flv.NewMixer(u.HookWriter{Writer: w1, Hook: h}), flv.NewMixer(w2)
	f1, f2 := ops(m1, w1, v.Param("first", 2)), ops(m2, w2, v.Param("second", 1))
	h.F = f2
	f1()
	h.Done()
	v.Cover("F06 mixers")
}

// F06_buffers: what is done with the buffers after they have been handed over does not matter, and packets are left unchanged.
func F06_buffers() {
	m := flv.NewMixer(nil)
	x, y, s, d := v.Bytes(2), v.Bytes(1), v.Str(2), v.Bytes(2)
	px := &packet.Packet{Type: packet.PktVideo, TimeStamp: v.U32(), Data: append([]byte(nil), x...), Media: v.Bytes(1)}
	py := &packet.Packet{Type: packet.PktAudio, TimeStamp: v.U32(), Data: append([]byte(nil), y...)}
	o := amf.Object{"x": s}
	kx, ky := *px, *py
	switch v.Choose(3) {
	case 0:
		v.Assert(m.SaveAVCHeader(px) == nil && m.SaveAACHeader(py) == nil && m.SaveMetadata(o) == nil, "the headers are saved")
	case 1:
		v.Assert(m.SaveMetadata(o) == nil && m.SaveAACHeader(py) == nil && m.SaveAVCHeader(px) == nil, "the headers are saved")
	case 2:
		v.Assert(m.SaveAACHeader(py) == nil && m.SaveMetadata(o) == nil && m.SaveAVCHeader(px) == nil, "the headers are saved")
	}
	v.Assert(unchanged(px, &kx) && unchanged(py, &ky), "a packet is left unchanged")
	for i := range px.Data {
		px.Data[i] = v.U8()
	}
	py.Data[0] = v.U8()
	o["x"], o["y"] = v.F64(), 1.0
	w := u.NewWriter()
	m.SetWriter(w)
	v.Assert(m.SetFlvHeader() == nil, "a file is started")
	want := start(tag(18, u.Cat(str0("onMetaData"), []byte{3, 0, 1, 'x'}, str0(s), []byte{0, 0, 9}), 0), tag(9, x, 0), tag(8, y, 0))
	v.Assert(u.Eq(w.B, want), "the saved headers are those of when they were saved")
	t := v.Pick(packet.PktVideo, packet.PktAudio, packet.PktMetadata)
	typ, _ := tagType(t)
	body := d
	if t == packet.PktMetadata {
		body = u.Cat(str0("onMetaData"), d)
		d = u.Cat(command, body)
	}
	p := &packet.Packet{Type: t, TimeStamp: v.U32(), Baseline: v.U32(), StreamID: v.U32(), Data: d, Media: v.Bytes(1)}
	k := *p
	ts := v.U32()
	// the same packet goes to several files
	for i := 0; i < 2; i++ {
		f := u.NewWriter()
		v.Assert(flv.NewMixer(f).Mux(p, ts) == nil, "a packet is written")
		v.Assert(u.Eq(f.B, tag(typ, body, ts)), "a packet can be written several times")
		v.Assert(unchanged(p, &k), "a packet is left unchanged")
	}
	v.Cover("F06 buffers")
}

func unchanged(p, k *packet.Packet) bool {
	return p.Type == k.Type && p.TimeStamp == k.TimeStamp && p.Baseline == k.Baseline && p.StreamID == k.StreamID &&
		u.Eq(p.Data, k.Data) && u.Eq(p.Media, k.Media)
}

// F06_demuxed: what has been demuxed stays as it is while other packets are demuxed.
func F06_demuxed() {
	d := []*flv.Demuxer{flv.NewDemuxer(), flv.NewDemuxer()}
	var ps []*packet.Packet
	var bs [][]byte
	var errs []error
	for i := 0; i < v.Param("packets", 3); i++ {
		t := v.Pick(packet.PktVideo, packet.PktAudio, packet.PktMetadata, 9)
		b := v.Bytes(v.Pick(1, 6))
		p := &packet.Packet{Type: t, Data: append([]byte(nil), b...)}
		bs = append(bs, b)
		errs = append(errs, d[i%2].Demux(p))
		ps = append(ps, p)
	}
	for i, p := range ps {
		demuxed(p.Type, bs[i], p, errs[i])
	}
	v.Cover("F06 demuxed")
}
