package hts

import (
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

const mask33 = 1<<33 - 1

// frame is a media frame to packetise.
type frame struct {
	video, key bool
	pts, dts   int64
	media      []byte
}

func (f *frame) packet() *packet.Packet {
	p := &packet.Packet{Type: packet.PktAudio, Header: ah{1}, Media: f.media}
	if f.video {
		p.Type, p.Header = packet.PktVideo, vh{key: f.key}
	}
	return p
}

func (f *frame) pid() int {
	if f.video {
		return 0x100
	}
	return 0x101
}

// hdrLen is the length of the frame's PES header.
func (f *frame) hdrLen() int {
	if f.video && f.pts != f.dts {
		return 19
	}
	return 14
}

// checkFrame checks the packets of one frame; known is the finding about short key frames.
func checkFrame(ps []pkt, f *frame, known string) {
	for i, p := range ps {
		v.Assert(p.pid == f.pid(), "a frame's packets have the PID of its stream")
		v.Assert(p.start == (i == 0), "exactly the first packet of a frame is marked as its start")
	}
	b := join(ps)
	n := f.hdrLen()
	total := n + len(f.media)
	if f.video && f.key && total < 176 {
		r := 176 - total
		pre := make([]byte, r)
		pre[0] = byte(r - 1)
		for i := 2; i < r; i++ {
			pre[i] = 0xff
		}
		ok := len(b) == total && u.Eq(b[n:], f.media)
		alt := len(b) == r+total && len(ps) == 1 && ps[0].afLen == 7 && u.Eq(b[:r], pre) && u.Eq(b[r+n:], f.media)
		v.AssertKnown(known, ok, alt, "the payloads are one PES header and the frame")
		if len(b) == r+total {
			b = b[r:]
		}
	} else {
		v.Assert(len(b) == total, "the payloads are one PES header and the frame")
		v.Assert(u.Eq(b[n:], f.media), "the payloads are one PES header and the frame")
	}
	sid := byte(0xc0)
	if f.video {
		sid = 0xe0
	}
	v.Assert(u.Eq(b[:4], []byte{0, 0, 1, sid}) && int(b[8]) == n-9, "the payloads are one PES header and the frame")
}

func someFrame(n int) *frame {
	f := &frame{media: v.Bytes(n)}
	k := v.Choose(3)
	f.video, f.key = k > 0, k == 2
	f.dts = v.I64()
	v.Assume(f.dts >= 0)
	f.pts = f.dts
	if v.Bool() {
		f.pts = v.I64()
		v.Assume(v.And(f.pts >= 0, f.pts != f.dts))
	}
	return f
}

func packetise(f *frame) []pkt {
	w := u.NewWriter()
	p := f.packet()
	keep := append([]byte(nil), f.media...)
	err := ts.NewMuxer().Mux(p, f.dts, f.pts, w)
	v.Assert(err == nil, "a frame is packetised")
	v.Assert(u.Eq(f.media, keep), "the frame is left unchanged")
	return packets(w.B)
}

// T03_frames: every frame length of up to several packets.
func T03_frames() {
	f := someFrame(v.Choose(v.Param("len", 400) + 1))
	checkFrame(packetise(f), f, "keyframe-stuffing")
	v.Cover("T03 frame")
}

// T03_long: frames of many packets.
func T03_long() {
	n := v.Pick(65507, 65517, 65521, 65522, 65523, 65526, 65527, 65528, 66000, 184*1000-14, 184*1000-13, 184*256-14)
	f := &frame{media: make([]byte, n), video: v.Bool()}
	f.key = f.video && v.Bool()
	for _, i := range []int{0, 169, 170, 171, n / 2, n - 2, n - 1} {
		f.media[i] = v.U8()
	}
	f.dts = v.I64()
	v.Assume(f.dts >= 0)
	f.pts = f.dts
	if v.Bool() {
		f.pts = v.I64()
		v.Assume(v.And(f.pts >= 0, f.pts != f.dts))
	}
	checkFrame(packetise(f), f, "keyframe-stuffing")
	v.Cover("T03 long frame")
}

// T03_sequence: a frame is packetised the same whatever came before it.
func T03_sequence() {
	m := ts.NewMuxer()
	for i := 0; i < v.Param("frames", 3); i++ {
		f := someFrame(v.Pick(0, 1, 169, 170, 171, 340))
		w := u.NewWriter()
		v.Assert(m.Mux(f.packet(), f.dts, f.pts, w) == nil, "a frame is packetised")
		checkFrame(packets(w.B), f, "keyframe-stuffing")
	}
	v.Cover("T03 sequence")
}

// T03_other: packets that are neither audio nor video are refused, and nothing is written.
func T03_other() {
	w := u.NewWriter()
	t := v.Pick(packet.PktMetadata, 3, -1, 1<<33)
	err := ts.NewMuxer().Mux(&packet.Packet{Type: t, Media: v.Bytes(3)}, 0, 0, w)
	v.Assert(err != nil && len(w.B) == 0, "a packet that is neither audio nor video is refused")
	p := &packet.Packet{Type: packet.PktVideo, Media: v.Bytes(v.Choose(3))}
	if v.Bool() {
		p.Header = ah{v.U8()}
	}
	v.Assert(ts.NewMuxer().Mux(p, v.I64(), v.I64(), w) != nil && len(w.B) == 0, "a video packet without a header of video is refused")
	v.Cover("T03 other")
}

// T03_failing: a failed write is reported and ends the frame.
func T03_failing() {
	f := someFrame(v.Pick(0, 170, 171, 500))
	dry := u.NewWriter()
	v.Assert(ts.NewMuxer().Mux(f.packet(), f.dts, f.pts, dry) == nil, "a frame is packetised")
	w := u.NewWriter()
	w.FailAt = v.Choose(dry.Calls)
	v.Assert(ts.NewMuxer().Mux(f.packet(), f.dts, f.pts, w) != nil, "a failed write is reported")
	v.Assert(w.After == 0, "nothing more is written after a failed write")
	v.Cover("T03 failing")
}

// T04_history: any frames of both streams, from any state of the counters.
func T04_history() {
	m := ts.NewMuxer()
	var last [2]int // the counter of the last packet of each stream
	last[0], last[1] = -1, -1
	run := func(f *frame) {
		w := u.NewWriter()
		v.Assert(m.Mux(f.packet(), f.dts, f.pts, w) == nil, "a frame is packetised")
		k := 0
		if !f.video {
			k = 1
		}
		for _, p := range packets(w.B) {
			v.Assert(p.pid == f.pid(), "a packet has the PID of its stream")
			if last[k] >= 0 {
				v.Assert(int(p.cc) == (last[k]+1)&15, "the counter of a PID advances by one from packet to packet")
			}
			last[k] = int(p.cc)
		}
	}
	// any state of the counters of either stream, and some of both
	a, b := v.Choose(17), 0
	switch v.Choose(3) {
	case 1:
		a, b = b, a
	case 2:
		b = 16 - a
	}
	for i := 0; i < a; i++ {
		run(&frame{video: true, media: []byte{1}})
	}
	for i := 0; i < b; i++ {
		run(&frame{media: []byte{1}})
	}
	for i := 0; i < v.Param("frames", 3); i++ {
		k := v.Choose(4)
		if k == 3 {
			err := m.Mux(&packet.Packet{Type: packet.PktMetadata, Media: []byte{1}}, 0, 0, u.NewWriter())
			v.Assert(err != nil, "a packet that is neither audio nor video is refused")
			continue
		}
		f := &frame{video: k > 0, key: k == 2, dts: v.I64(), pts: v.I64()}
		v.Assume(v.And(f.dts >= 0, f.pts >= 0))
		f.media = make([]byte, v.Pick(1, v.Param("size", 340), 184*17))
		f.media[0] = v.U8()
		run(f)
	}
	v.Cover("T04 history")
}

// T04_mixer: the same through a mixer, with tables and saved headers in between.
func T04_mixer() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	last := map[int]int{}
	v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: []byte{0x12, 0x10}}) == nil, "an audio header is saved")
	n := v.Param("ops", 4)
	for i := 0; i < n; i++ {
		before := len(w.B)
		switch v.Choose(5) {
		case 0:
			p := &packet.Packet{Type: packet.PktVideo, Header: vh{key: v.Bool()}, Media: u.Cat([]byte{0, 0, 0, 200, 0x65}, make([]byte, 199))}
			v.Assert(m.Mux(p) == nil, "a frame is packetised")
		case 1:
			p := &packet.Packet{Type: packet.PktAudio, Header: ah{1}, Media: v.Bytes(3)}
			v.Assert(m.Mux(p) == nil, "a frame is packetised")
		case 2:
			v.Assert(m.SetTsHeader() == nil, "a stream is started")
		case 3:
			if v.Bool() {
				v.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Header: vh{key: true, seq: true}, Media: avcConfig()}) == nil, "a video header is saved")
			} else {
				v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: []byte{0x12, 0x10}}) == nil, "an audio header is saved")
			}
			v.Assert(len(w.B) == before, "saving a header writes nothing")
		case 4:
			// packets that are refused
			if v.Bool() {
				v.Assert(m.Mux(&packet.Packet{Type: packet.PktVideo, Header: vh{}, Media: []byte{0, 0, 0, 9, 1}}) != nil, "a broken frame is refused")
			} else {
				v.Assert(m.Mux(&packet.Packet{Type: packet.PktAudio, Header: ah{9}, Media: []byte{1}}) != nil, "a broken frame is refused")
			}
			v.Assert(len(w.B) == before, "a refused packet writes nothing")
		}
		for _, p := range packets(w.B[before:]) {
			if c, ok := last[p.pid]; ok {
				v.Assert(int(p.cc) == (c+1)&15, "the counter of a PID advances by one from packet to packet")
			}
			last[p.pid] = int(p.cc)
		}
	}
	v.Cover("T04 mixer")
}
