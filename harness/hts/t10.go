package hts

import (
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

func demux(p *packet.Packet) packet.VideoPacketHeader {
	v.Assert(flv.NewDemuxer().Demux(p) == nil, "a packet is demuxed")
	h, ok := p.Header.(packet.VideoPacketHeader)
	v.Assert(ok || p.Type != packet.PktVideo, "the header describes video")
	return h
}

// T10_stream: packets of a stream, from FLV to TS.
func T10_stream() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	d := flv.NewDemuxer()
	var sps, pps []byte
	aac := false
	var rate, chan1, obj byte
	frames := 0
	for i := 0; i < v.Param("packets", 4); i++ {
		p := &packet.Packet{Type: packet.PktVideo}
		var want []byte // the elementary stream, nil when the packet is refused
		ct := int32(0)
		key := false
		bad := false
		switch v.Choose(8) {
		case 7: // MP3 audio
			f := u.Cat([]byte{0xff, 0xfb}, v.Bytes(v.Pick(1, 3, 400)))
			f[2] &= 0xf1 // 44100 Hz, however it is read
			p.Type, p.Data = packet.PktAudio, u.Cat([]byte{0x2f}, f)
			want = f
			v.Cover("T10 mp3")
		case 0: // video configuration
			sps, pps = u.Cat([]byte{0x67}, v.Bytes(v.Choose(2))), u.Cat([]byte{0x68}, v.Bytes(1))
			p.Data = u.Cat([]byte{0x17, 0, 0, 0, 0, 1, 0x64, 0, 0x1f, 0xff, 0xe1}, u.BE(uint64(len(sps)), 2), sps, []byte{1}, u.BE(uint64(len(pps)), 2), pps)
			key = true
			want = []byte{}
		case 1: // key frame
			x, y := nal(5, v.Pick(3, 200)), nal(6, 2)
			ct = int32(v.U16())
			p.Data = u.Cat([]byte{0x17, 1}, u.BE(uint64(ct), 3), y.avcc(), x.avcc())
			key = true
			want = u.Cat(aud, start, y, start, sps, start, pps, start, x)
			if sps == nil {
				want = u.Cat(aud, start, y, start, x)
			}
		case 2: // inter frame of two slices
			x, y := nal(1, v.Pick(2, 180)), nal(1, 3)
			ct = -int32(v.U8())
			p.Data = u.Cat([]byte{0x27, 1}, u.BE(uint64(uint32(ct)), 3), x.avcc(), y.avcc())
			want = u.Cat(aud, start, x, start, y)
		case 3: // audio configuration
			obj, rate, chan1 = byte(v.Pick(1, 2)), byte(v.Pick(3, 4, 8)), byte(v.Pick(1, 2))
			p.Type, p.Data = packet.PktAudio, []byte{0xaf, 0, obj<<3 | rate>>1, rate<<7 | chan1<<3}
			aac = true
			want = []byte{}
		case 4: // audio frame
			f := v.Bytes(v.Pick(2, 190))
			p.Type, p.Data = packet.PktAudio, u.Cat([]byte{0xaf, 1}, f)
			if !aac {
				bad = true
				break
			}
			n := uint64(len(f) + 7)
			want = u.Cat([]byte{0xff, 0xf1, (obj-1)<<6 | rate<<2 | chan1>>2, chan1<<6 | byte(n>>11), byte(n >> 3), byte(n<<5) | 0x1f, 0xfc}, f)
		case 5: // a broken frame: its unit is longer than the packet
			p.Data = u.Cat([]byte{0x27, 1, 0, 0, 0, 0, 0, 0, 9, 0x41}, v.Bytes(2))
			bad = true
		case 6: // a broken frame: a unit of an unsupported type after a good one
			p.Data = u.Cat([]byte{0x27, 1, 0, 0, 0}, nal(1, 2).avcc(), nal(13, 2).avcc())
			bad = true
		}
		v.Assert(d.Demux(p) == nil, "a packet is demuxed")
		t := someTime()
		off := uint32(0)
		if h, ok := p.Header.(packet.VideoPacketHeader); ok && p.Type == packet.PktVideo {
			off = uint32(h.CompositionTime())
		}
		before := len(w.B)
		uerr := m.Update(p, t, off)
		err := m.Mux(p)
		if bad {
			v.Assert(err != nil, "a broken packet is refused")
			v.Assert(len(w.B) == before, "a refused packet writes nothing")
			v.Cover("T10 refused")
			continue
		}
		v.Assert(err == nil, "a packet is muxed")
		ps := packets(w.B[before:])
		video := p.Type == packet.PktVideo
		f := &frame{video: video, key: key, media: want, dts: int64(t) * 90}
		f.pts = f.dts + int64(ct)*90
		checkFrame(ps, f, "keyframe-stuffing-stream")
		b := join(ps)
		if key && f.hdrLen()+len(want) < 176 {
			b = b[len(b)-f.hdrLen()-len(want):]
		}
		pts, dts, _ := readTS(b)
		if video {
			v.Assert(uerr == nil, "the time of a video frame is accepted")
			v.Assert(dts == uint64(f.dts)&mask33 && pts == uint64(f.pts)&mask33, "the timestamps of the packet")
			v.Cover("T10 video")
		} else if uerr == nil {
			v.Assert(withinClock(pts, t), "a timestamp is within 10 ms of the packet's time")
			v.Cover("T10 audio")
		}
		frames++
	}
	if frames > 1 {
		v.Cover("T10 several")
	}
}

// T10_large: access units and audio frames larger than any buffer the mixer starts with, one after the other.
func T10_large() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	d := flv.NewDemuxer()
	cfg := &packet.Packet{Type: packet.PktAudio, Data: []byte{0xaf, 0, 0x12, 0x10}}
	v.Assert(d.Demux(cfg) == nil && m.SaveAACHeader(cfg) == nil, "an audio header is saved")
	sizes := []int{3, 600, 8184, 65515, 65529, 65536, 140000}
	for i := 0; i < 2; i++ {
		n := sizes[v.Choose(len(sizes))]
		b := make([]byte, n)
		b[0], b[n/2], b[n-1] = v.U8(), v.U8(), v.U8()
		t := v.U32()
		p := &packet.Packet{Type: packet.PktVideo}
		var want []byte
		f := &frame{dts: int64(t) * 90}
		if n <= 8184 && v.Bool() {
			p.Type, p.Data = packet.PktAudio, u.Cat([]byte{0xaf, 1}, b)
			l := n + 7
			want = u.Cat([]byte{0xff, 0xf1, 0x50, 0x80 | byte(l>>11), byte(l >> 3), byte(l<<5) | 0x1f, 0xfc}, b)
		} else {
			b[0] = 0x41
			x := unit(b)
			p.Data = u.Cat([]byte{0x27, 1, 0, 0, 0}, x.avcc(), nal(1, 2).avcc())
			want = u.Cat(aud, start, x, start, p.Data[len(p.Data)-2:])
			f.video = true
		}
		f.media, f.pts = want, f.dts
		v.Assert(d.Demux(p) == nil, "a packet is demuxed")
		before := len(w.B)
		v.Assert(m.Update(p, t, 0) == nil, "the time of a frame is accepted")
		v.Assert(m.Mux(p) == nil, "a packet is muxed")
		checkFrame(packets(w.B[before:]), f, "")
	}
	v.Cover("T10 large")
}

var (
	start = []byte{0, 0, 0, 1}
	aud   = []byte{0, 0, 0, 1, 9, 0xf0}
)

type unit []byte

func (x unit) avcc() []byte { return u.Cat(u.BE(uint64(len(x)), 4), x) }

// nal is a unit of type t and length n with arbitrary contents.
func nal(t byte, n int) unit {
	b := v.Bytes(n)
	b[0] = b[0]&0x60 | t
	return b
}

// T10_many: a long stream of video and audio, with new configurations on the way.
func T10_many() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	d := flv.NewDemuxer()
	last := map[int]int{}
	var sets []byte
	base := v.U32() & (1<<24 - 1)
	for i, n := 0, v.Param("history", 60); i < n; i++ {
		if i%24 == 0 {
			sps, pps := u.Cat([]byte{0x67}, v.Bytes(2+i/24)), u.Cat([]byte{0x68}, v.Bytes(1))
			sets = u.Cat(start, sps, start, pps)
			c := &packet.Packet{Type: packet.PktVideo, Data: u.Cat([]byte{0x17, 0, 0, 0, 0, 1, 0x64, 0, 0x1f, 0xff, 0xe1}, u.BE(uint64(len(sps)), 2), sps, []byte{1}, u.BE(uint64(len(pps)), 2), pps)}
			v.Assert(d.Demux(c) == nil && m.SaveAVCHeader(c) == nil, "a video header is saved")
			a := &packet.Packet{Type: packet.PktAudio, Data: []byte{0xaf, 0, 0x12, 0x10}}
			v.Assert(d.Demux(a) == nil && m.SaveAACHeader(a) == nil, "an audio header is saved")
		}
		p := &packet.Packet{Type: packet.PktVideo}
		f := &frame{video: true}
		ct := uint32(0)
		switch {
		case i%3 == 2: // audio
			b := make([]byte, 1+i*7)
			b[i*7] = v.U8()
			l := len(b) + 7
			f.video = false
			f.media = u.Cat([]byte{0xff, 0xf1, 0x50, 0x80 | byte(l>>11), byte(l >> 3), byte(l<<5) | 0x1f, 0xfc}, b)
			p.Type, p.Data = packet.PktAudio, u.Cat([]byte{0xaf, 1}, b)
		case i%12 == 0: // a key frame
			x := nal(5, 200)
			f.key = true
			f.media = u.Cat(aud, sets, start, x)
			p.Data = u.Cat([]byte{0x17, 1, 0, 0, 0}, x.avcc())
		default:
			x := unit(u.Cat(nal(1, 2), make([]byte, i*13), v.Bytes(1)))
			y := nal(6, 3)
			f.media = u.Cat(aud, start, y, start, x)
			ct = uint32(40 * (i % 4))
			p.Data = u.Cat([]byte{0x27, 1}, u.BE(uint64(ct), 3), y.avcc(), x.avcc())
		}
		t := base + uint32(i)*20
		f.dts = int64(t) * 90
		f.pts = f.dts + int64(ct)*90
		v.Assert(d.Demux(p) == nil, "a packet is demuxed")
		before := len(w.B)
		v.Assert(m.Update(p, t, ct) == nil, "the time of a frame is accepted")
		v.Assert(m.Mux(p) == nil, "a packet is muxed")
		ps := packets(w.B[before:])
		checkFrame(ps, f, "")
		for _, q := range ps {
			if c, ok := last[q.pid]; ok {
				v.Assert(int(q.cc) == (c+1)&15, "the counter of a PID advances by one from packet to packet")
			}
			last[q.pid] = int(q.cc)
		}
		pts, dts, _ := readTS(join(ps))
		if f.video {
			v.Assert(dts == uint64(f.dts)&mask33 && pts == uint64(f.pts)&mask33, "the timestamps of the packet")
		} else {
			v.Assert(withinClock(pts, t), "a timestamp is within 10 ms of the packet's time")
		}
	}
	v.Cover("T10 many")
}
