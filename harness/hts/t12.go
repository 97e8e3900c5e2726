package hts

import (
	"bytes"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

// job is a use of a mixer: the same each time it is called.
type job struct {
	aac  []byte
	sets [2]unit
	name string
	t    uint32
	p    []*packet.Packet
	kind int
}

func someJob(kind int) *job {
	j := &job{kind: kind, t: v.U32(), name: v.Str(1)}
	o := byte(1 + v.Choose(2))
	j.aac = []byte{o<<3 | 2, 0x10}
	j.sets = [2]unit{u.Cat([]byte{0x67}, v.Bytes(1)), u.Cat([]byte{0x68}, v.Bytes(1))}
	switch kind {
	case 0:
		j.p = append(j.p, &packet.Packet{Type: packet.PktVideo, Header: vh{key: true, ct: 3}, Media: nal(5, 200).avcc()})
	case 1:
		j.p = append(j.p, &packet.Packet{Type: packet.PktVideo, Header: vh{}, Media: u.Cat(nal(1, 2).avcc(), nal(1, 3).avcc())})
	case 2:
		j.p = append(j.p, &packet.Packet{Type: packet.PktAudio, Header: ah{1}, Media: v.Bytes(3)})
	}
	for _, p := range j.p {
		p.Data, p.TimeStamp, p.Baseline, p.StreamID = v.Bytes(1), v.U32(), v.U32(), v.U32()
	}
	return j
}

func (j *job) open(w *u.Writer, h *u.Hook) *ts.Mixer {
	m := ts.NewMixer(w)
	if h != nil {
		m = ts.NewMixer(u.HookWriter{Writer: w, Hook: h})
	}
	n := u.Cat([]byte{1, 0x64, 0, 0x1f, 0xff, 0xe1}, u.BE(uint64(len(j.sets[0])), 2), j.sets[0], []byte{1}, u.BE(uint64(len(j.sets[1])), 2), j.sets[1])
	v.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Header: vh{key: true, seq: true}, Media: n}) == nil, "a video header is saved")
	a := append([]byte(nil), j.aac...)
	v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: a}) == nil, "an audio header is saved")
	o := amf.Object{"Provider": j.name, "Service": "s"}
	v.Assert(m.SaveMetadata(o) == nil, "metadata is saved")
	// what was handed over is the caller's again
	for i := range n {
		n[i] = 0xee
	}
	a[0], a[1] = 0xee, 0xee
	o["Provider"] = "other"
	return m
}

func (j *job) run(m *ts.Mixer) {
	if j.kind == 3 {
		v.Assert(m.SetTsHeader() == nil, "a stream is started")
		return
	}
	for _, p := range j.p {
		k := *p
		k.Media = append([]byte(nil), p.Media...)
		v.Assert(m.Update(p, j.t, 3) == nil, "the time of a frame is accepted")
		v.Assert(m.Mux(p) == nil, "a frame is muxed")
		v.Assert(unchanged(p, &k), "a packet is left unchanged")
	}
}

func unchanged(p, k *packet.Packet) bool {
	return p.Type == k.Type && p.TimeStamp == k.TimeStamp && p.Baseline == k.Baseline && p.StreamID == k.StreamID &&
		p.Header == k.Header && u.Eq(p.Data, k.Data) && u.Eq(p.Media, k.Media)
}

// T12_mixers: two mixers, one of which is used while the other one writes.
func T12_mixers() {
	i, j := v.Choose(4), v.Choose(4)
	a, b := someJob(i), someJob(j)
	c := a
	if v.Param("first", 1) > 1 {
		c = someJob(v.Choose(4))
	}
	alone := u.NewWriter()
	m := a.open(alone, nil)
	a.run(m)
	c.run(m)
	x := alone.B
	alone = u.NewWriter()
	b.run(b.open(alone, nil))
	y := alone.B
	h := &u.Hook{At: v.Choose(v.Param("places", 12))}
	w1, w2 := u.NewWriter(), u.NewWriter()
	m1 := a.open(w1, h)
	var m2 *ts.Mixer
	early := v.Bool()
	if early {
		m2 = b.open(w2, nil)
	}
	h.F = func() {
		if !early {
			m2 = b.open(w2, nil)
		}
		b.run(m2)
	}
	a.run(m1)
	c.run(m1)
	h.Done()
	v.Assert(u.Eq(w1.B, x) && u.Eq(w2.B, y), "a mixer writes what it would have written alone")
	v.Cover("T12 mixers")
}

// T12_muxers: the same for the packetiser, and tables that are still in use.
func T12_muxers() {
	h := &u.Hook{At: v.Choose(v.Param("places", 12))}
	f, g := someFrame(v.Pick(2, 200, 400)), someFrame(v.Pick(3, 180))
	x, y := u.NewWriter(), u.NewWriter()
	v.Assert(ts.NewMuxer().Mux(f.packet(), f.dts, f.pts, x) == nil && ts.NewMuxer().Mux(g.packet(), g.dts, g.pts, y) == nil, "a frame is packetised")
	a, b := ts.NewMuxer(), ts.NewMuxer()
	d, e := []byte{0x48, 3, v.U8(), 0, 0}, []byte{0x40, 1, v.U8()}
	dd := bytes.NewBuffer(append([]byte(nil), d...))
	sdt, pat, pmt := a.SDT(dd), a.PAT(), a.PMT(packet.PktVideo)
	w1, w2 := u.NewWriter(), u.NewWriter()
	h.F = func() {
		checkSDT(b.SDT(bytes.NewBuffer(append([]byte(nil), e...))), 0, e, false)
		checkPAT(b.PAT(), 0)
		b.PAT()
		checkPMT(b.PMT(packet.PktAudio), 0, false, true)
		v.Assert(b.Mux(g.packet(), g.dts, g.pts, w2) == nil, "a frame is packetised")
	}
	v.Assert(a.Mux(f.packet(), f.dts, f.pts, u.HookWriter{Writer: w1, Hook: h}) == nil, "a frame is packetised")
	h.Done()
	v.Assert(u.Eq(w1.B, x.B) && u.Eq(w2.B, y.B), "a muxer writes what it would have written alone")
	v.Assert(u.Eq(dd.Bytes(), d), "the descriptors are left unchanged")
	checkPAT(pat, 0)
	checkPMT(pmt, 0, true, false)
	checkSDT(sdt, 0, d, false)
	v.Cover("T12 muxers")
}

// T12_shared: one packet for several mixers.
func T12_shared() {
	kind := v.Choose(3)
	j := someJob(kind)
	alone := u.NewWriter()
	m := j.open(alone, nil)
	j.run(m)
	for i := 0; i < 2; i++ {
		w := u.NewWriter()
		j.run(j.open(w, nil))
		v.Assert(u.Eq(w.B, alone.B), "a packet can be muxed several times")
	}
	v.Cover("T12 shared")
}

// T12_headers: one sequence header for several mixers.
func T12_headers() {
	n := u.Cat([]byte{1, 0x64, 0, 0x1f, 0xff, 0xe1, 0, 2, 0x67}, v.Bytes(1), []byte{1, 0, 2, 0x68}, v.Bytes(1))
	p := &packet.Packet{Type: packet.PktVideo, Header: vh{key: true, seq: true}, Media: n, TimeStamp: v.U32()}
	if v.Bool() {
		n = []byte{0x12, 0x10}
		p = &packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: n, TimeStamp: v.U32()}
	}
	k := *p
	k.Media = append([]byte(nil), n...)
	for i := 0; i < 2; i++ {
		m := ts.NewMixer(u.NewWriter())
		if i == 0 || v.Bool() {
			p.Media = append([]byte(nil), k.Media...)
		}
		var err error
		if p.Type == packet.PktVideo {
			err = m.SaveAVCHeader(p)
		} else {
			err = m.SaveAACHeader(p)
		}
		moved := !u.Eq(p.Media, k.Media) && p.Type == k.Type && p.TimeStamp == k.TimeStamp && p.Header == k.Header
		v.AssertKnown("header-media", err == nil && unchanged(p, &k), moved, "a packet is left unchanged")
		if err != nil || moved {
			break
		}
	}
	v.Cover("T12 headers")
}

// T12_descriptors: descriptors made at the same time.
func T12_descriptors() {
	a, b := table.NewDescriptor(), table.NewDescriptor()
	x, y := v.Str(2), v.Str(1)
	v.Assert(a.NetworkName(x) == nil && b.NetworkName(y) == nil && b.Service(1, y, "s") == nil && a.Service(2, "p", x) == nil, "a descriptor is accepted")
	v.Assert(u.Eq(a.GetBuffer().Bytes(), u.Cat([]byte{0x40, 2}, []byte(x), []byte{0x48, 6, 2, 1, 'p', 2}, []byte(x))), "descriptors are those of their table")
	v.Assert(u.Eq(b.GetBuffer().Bytes(), u.Cat([]byte{0x40, 1}, []byte(y), []byte{0x48, 5, 1, 1}, []byte(y), []byte{1, 's'})), "descriptors are those of their table")
	v.Cover("T12 descriptors")
}
