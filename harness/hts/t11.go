package hts

import (
	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

// T11_start: a failed write while a stream is started, then another start on a working writer.
func T11_start() {
	kind := v.Choose(3) // what is declared besides the metadata: nothing, video or audio
	video, audio := kind == 1, kind == 2
	desc := v.Bool()
	build := func(w *u.Writer) *ts.Mixer {
		m := ts.NewMixer(w)
		if video {
			p := &packet.Packet{Type: packet.PktVideo, Header: vh{key: true, seq: true}, Media: avcConfig()}
			v.Assert(m.SaveAVCHeader(p) == nil, "a video header is saved")
		}
		if audio {
			p := &packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: []byte{0x12, 0x10}}
			v.Assert(m.SaveAACHeader(p) == nil, "an audio header is saved")
		}
		if desc {
			v.Assert(m.SaveMetadata(amf.Object{"Provider": "p", "Service": "s"}) == nil, "metadata is saved")
		}
		return m
	}
	dry := u.NewWriter()
	v.Assert(build(dry).SetTsHeader() == nil, "a stream is started")
	w := u.NewWriter()
	m := build(w)
	w.FailAt = v.Choose(dry.Calls)
	w.Short = v.Pick(0, 1, 100)
	v.Assert(m.SetTsHeader() != nil, "a failed write is reported")
	v.Assert(w.After == 0, "nothing more is written after a failed write")
	good := u.NewWriter()
	m.SetWriter(good)
	v.Assert(m.SetTsHeader() == nil, "a stream is started")
	b := good.B
	v.Assert(len(b) == len(dry.B), "a stream starts with its three tables")
	want := []byte{}
	if desc {
		want = []byte{0x48, 5, 1, 1, 'p', 1, 's'}
	}
	for i := 0; i+188 <= len(b); i += 188 {
		t := b[i : i+188]
		switch int(t[1]&0x1f)<<8 | int(t[2]) {
		case 0:
			checkPAT(t, t[3]&15)
		case 0x1001:
			checkPMT(t, t[3]&15, video, audio)
		default:
			checkSDT(t, t[3]&15, want, true)
		}
	}
	v.Cover("T11 start")
}

// T11_frame: a failed write of one frame, then the next frame on a working writer.
func T11_frame() {
	frames := []*frame{{video: true, key: true, media: v.Bytes(v.Pick(180, 400))}, {video: true, media: v.Bytes(v.Pick(2, 200))}, {media: v.Bytes(v.Pick(2, 200))}}
	i, j := v.Choose(3), v.Choose(3)
	f, g := frames[i], frames[j]
	g.pts = 90 * int64(v.U32())
	if g.video {
		g.dts = 90 * int64(v.U32())
	} else {
		g.dts = g.pts
	}
	dry := u.NewWriter()
	v.Assert(ts.NewMuxer().Mux(f.packet(), f.dts, f.pts, dry) == nil, "a frame is packetised")
	w := u.NewWriter()
	m := ts.NewMuxer()
	w.FailAt = v.Choose(dry.Calls)
	w.Short = v.Pick(0, 1, 100)
	v.Assert(m.Mux(f.packet(), f.dts, f.pts, w) != nil, "a failed write is reported")
	v.Assert(w.After == 0, "nothing more is written after a failed write")
	v.Assert(u.Eq(w.B, dry.B[:len(w.B)]), "what was written before the failure is the frame's beginning")
	good := u.NewWriter()
	v.Assert(m.Mux(g.packet(), g.dts, g.pts, good) == nil, "a frame is packetised")
	ps := packets(good.B)
	checkFrame(ps, g, "")
	for k := 1; k < len(ps); k++ {
		v.Assert(ps[k].cc == (ps[k-1].cc+1)&15, "the counter of a PID advances by one from packet to packet")
	}
	v.Cover("T11 frame")
}

// T11_mixer: the same through the mixer, which converts the media first.
func T11_mixer() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	if v.Bool() {
		p := &packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: []byte{0x12, 0x10}}
		v.Assert(m.SaveAACHeader(p) == nil, "an audio header is saved")
	}
	x, y := nal(1, v.Pick(2, 200)), nal(1, v.Pick(3, 180))
	first := &packet.Packet{Type: packet.PktVideo, Header: vh{}, Media: x.avcc()}
	t := v.U32()
	v.Assert(m.Update(first, t, 0) == nil, "the time of a video frame is accepted")
	w.FailAt = v.Choose(2)
	w.Short = v.Pick(0, 1, 100)
	err := m.Mux(first)
	v.Assert((err != nil) == w.Failed, "exactly a failed write is reported")
	v.Assert(w.After == 0, "nothing more is written after a failed write")
	good := u.NewWriter()
	m.SetWriter(good)
	next := &packet.Packet{Type: packet.PktVideo, Header: vh{}, Media: y.avcc()}
	v.Assert(m.Update(next, t, 5) == nil, "the time of a video frame is accepted")
	v.Assert(m.Mux(next) == nil, "a frame is muxed")
	f := &frame{video: true, media: u.Cat(aud, start, y), dts: int64(t) * 90, pts: int64(t)*90 + 450}
	checkFrame(packets(good.B), f, "")
	if w.Failed {
		v.Cover("T11 mixer")
	}
}
