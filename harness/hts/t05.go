package hts

import (
	"bytes"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

// T05_header: the header on its own, for any length and timestamps.
func T05_header() {
	n := v.Int(0, 1<<20)
	video := v.Bool()
	t := packet.PktAudio
	if video {
		t = packet.PktVideo
	}
	pts, dts := v.I64(), v.I64()
	v.Assume(v.And(pts >= 0, dts >= 0))
	same := pts == dts
	pes := table.NewPes()
	k := pes.GeneratePesHeader(t, n, pts, dts)
	hl := 14
	if video && !same {
		hl = 19
	}
	v.Assert(k == hl, "the length of the header")
	h := pes.PesHeader[:k]
	v.ObsB("pes", h)
	sid := byte(0xc0)
	if video {
		sid = 0xe0
	}
	v.Assert(u.Eq(h[:4], []byte{0, 0, 1, sid}), "the start code and the stream")
	rest := n + hl - 6
	field := int(h[4])<<8 | int(h[5])
	v.Assert(v.And(v.Implies(rest <= 0xffff, field == rest), v.Implies(rest > 0xffff, field == 0)), "the length is what follows, or zero when that does not fit")
	v.Assert(h[6]&0xc0 == 0x80 && h[6]&0x30 == 0, "the marker bits, and no scrambling")
	v.Assert(h[7]&0x3f == 0, "the header has no further parts")
	v.Assert(int(h[8]) == hl-9, "the header's own length")
	P, D := uint64(pts)&mask33, uint64(dts)&mask33
	if hl == 19 {
		v.Assert(h[7]>>6 == 3, "both timestamps are announced")
		v.Assert(u.Eq(h[9:], u.Cat(encTS(3, P), encTS(1, D))), "the two timestamps with their prefixes")
		v.Cover("T05 both")
	} else {
		v.Assert(h[7]>>6 == 2, "the presentation timestamp is announced")
		v.Assert(u.Eq(h[9:], encTS(2, P)), "the presentation timestamp with its prefix")
		v.Cover("T05 one")
	}
}

// T05_muxed: the header of a muxed frame.
func T05_muxed() {
	n := v.Pick(0, 1, 170, 500, 65507, 65512, 65513, 65516, 65517, 65518, 65527, 65528, 65536, 70000)
	f := &frame{media: make([]byte, n)}
	k := v.Choose(3)
	f.video, f.key = k > 0, k == 2
	f.dts, f.pts = v.I64(), v.I64()
	v.Assume(v.And(f.dts >= 0, f.pts >= 0))
	b := join(packetise(f))
	if f.video && f.key && f.hdrLen()+n < 176 {
		b = b[len(b)-f.hdrLen()-n:]
	}
	want := pesHeader(f.video, n, uint64(f.pts)&mask33, uint64(f.dts)&mask33)
	if f.video && f.pts != f.dts && uint64(f.pts)&mask33 == uint64(f.dts)&mask33 {
		v.Skip() // a whole turn of the clock apart
	}
	v.Assert(len(b) == len(want)+n, "the header's length")
	// four bits of the seventh byte are free
	b[6] &= 0xf0
	v.Assert(u.Eq(b[:len(want)], want), "the header of the frame")
	v.Cover("T05 muxed")
}

// T06_clock: the clock reference of key frames, and its absence elsewhere.
func T06_clock() {
	f := someFrame(v.Pick(0, 1, 100, 155, 156, 157, 158, 161, 162, 163, 164, 170, 184, 345, 346, 400, 1000))
	ps := packetise(f)
	for i, p := range ps {
		if i > 0 || !f.video || !f.key {
			v.Assert(p.pcr == nil, "only key frames carry a clock reference")
			v.Cover("T06 none")
			continue
		}
		v.Assert(p.af && p.afLen >= 7 && p.pcr != nil, "a key frame's first packet carries a clock reference")
		v.Assert(p.flags&0x40 != 0, "a key frame's first packet is marked for random access")
		base := uint64(p.pcr[0])<<25 | uint64(p.pcr[1])<<17 | uint64(p.pcr[2])<<9 | uint64(p.pcr[3])<<1 | uint64(p.pcr[4])>>7
		v.ObsI("pcr", int64(base))
		v.Assert(base == uint64(f.dts)&mask33, "the clock reference is the frame's decoding time")
		v.Assert(p.pcr[4]&1 == 0 && p.pcr[5] == 0, "the clock reference has no fraction")
		v.Cover("T06 clock")
	}
	checkFrame(ps, f, "keyframe-stuffing-clock")
}

// T06_write: the six bytes on their own.
func T06_write() {
	b := v.Bytes(8)
	keep := append([]byte(nil), b...)
	t := v.U64() & (1<<34 - 1)
	table.NewPes().WritePcr(b, int64(t))
	base := uint64(b[0])<<25 | uint64(b[1])<<17 | uint64(b[2])<<9 | uint64(b[3])<<1 | uint64(b[4])>>7
	v.Assert(base == t&mask33 && b[4]&1 == 0 && b[5] == 0, "the clock reference is the time, without fraction")
	v.Assert(u.Eq(b[6:], keep[6:]), "only six bytes are written")
	v.Cover("T06 write")
}

// readTS gives the timestamps of the last PES header in b.
func readTS(h []byte) (pts, dts uint64, both bool) {
	pts = decTS(h[9:14])
	if h[7]&0x40 != 0 {
		return pts, decTS(h[14:19]), true
	}
	return pts, pts, false
}

func decTS(b []byte) uint64 {
	return uint64(b[0]&0x0e)<<29 | uint64(b[1])<<22 | uint64(b[2]&0xfe)<<14 | uint64(b[3])<<7 | uint64(b[4])>>1
}

// pesOf muxes one packet and returns its PES.
func pesOf(m *ts.Mixer, w *u.Writer, p *packet.Packet) []byte {
	before := len(w.B)
	v.Assert(m.Mux(p) == nil, "a frame is packetised")
	return join(packets(w.B[before:]))
}

// T07_video: every time and offset of a video frame.
func T07_video() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	if v.Bool() {
		// an earlier frame at any time
		e := &packet.Packet{Type: packet.PktVideo, Header: vh{}, Media: []byte{0, 0, 0, 2, 0x41, 1}}
		v.Assert(m.Update(e, v.U32(), v.U32()) == nil, "the time of a video frame is accepted")
		pesOf(m, w, e)
	}
	t := v.U32()
	ct := v.I32()
	v.Assume(v.And(ct >= -1<<23, ct < 1<<23))
	p := &packet.Packet{Type: packet.PktVideo, Header: vh{}, Media: []byte{0, 0, 0, 3, 0x41, v.U8(), 1}}
	v.Assert(m.Update(p, t, uint32(ct)) == nil, "the time of a video frame is accepted")
	b := pesOf(m, w, p)
	pts, dts, both := readTS(b)
	v.ObsI("pts", int64(pts))
	v.ObsI("dts", int64(dts))
	v.Assert(dts == uint64(t)*90&mask33, "the decoding time is 90 ticks per millisecond")
	v.Assert(pts == uint64(int64(t)*90+int64(ct)*90)&mask33, "the presentation time exceeds it by 90 ticks per millisecond of the offset")
	v.Assert(both == (ct != 0), "there are two timestamps exactly when they differ")
	v.Cover("T07 video")
}

// T07_demuxed: the offset as the FLV packet carries it.
func T07_demuxed() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	p := &packet.Packet{Type: packet.PktVideo, Data: u.Cat([]byte{0x27, 1}, v.Bytes(3), []byte{0, 0, 0, 2, 0x41, 9})}
	h := demux(p)
	t := v.U32()
	v.Assert(m.Update(p, t, uint32(h.CompositionTime())) == nil, "the time of a video frame is accepted")
	ct := int64(p.Data[2])<<16 | int64(p.Data[3])<<8 | int64(p.Data[4])
	if ct >= 1<<23 {
		ct -= 1 << 24
	}
	pts, dts, _ := readTS(pesOf(m, w, p))
	v.Assert(dts == uint64(t)*90&mask33, "the decoding time is 90 ticks per millisecond")
	v.Assert(pts == uint64(int64(t)*90+ct*90)&mask33, "the presentation time exceeds it by 90 ticks per millisecond of the offset")
	v.Cover("T07 demuxed")
}

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// audio is a mixer configured for one of the sampling rates, and the length of 1024 samples.
func audio(w *u.Writer) (*ts.Mixer, int64) {
	m := ts.NewMixer(w)
	i := v.Choose(len(aacRates))
	cfg := []byte{2<<3 | byte(i>>1), byte(i&1)<<7 | 2<<3}
	v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: cfg}) == nil, "an audio header is saved")
	return m, 90000 * 1024 / int64(aacRates[i])
}

// step muxes an audio frame of time t and returns its header from the timestamp's prefix on.
func step(m *ts.Mixer, w *u.Writer, t uint32) []byte {
	p := &packet.Packet{Type: packet.PktAudio, Header: ah{1}, Media: []byte{0x21, 0x10}}
	v.Assert(m.Update(p, t, 0) == nil, "the time of an audio frame is accepted")
	h := pesOf(m, w, p)
	v.Assert(h[7] == 0x80 && h[8] == 5, "audio has one timestamp")
	return h[9:14]
}

// tick is a packet's own time.
func tick(t uint32) int64 { return int64(t) * 90 }

func someTime() uint32 { return v.U32() }

// within says whether two times are no more than 10 ms apart.
func within(a, b int64) bool { return v.And(a-b <= 900, b-a <= 900) }

// withinClock is within for a timestamp as it is written, in 33 bits.
func withinClock(pts uint64, t uint32) bool {
	d := (pts - uint64(tick(t))) & mask33
	return v.Or(d <= 900, d >= 1<<33-900)
}

// smooth checks one frame: h is its header, t its time, prev the timestamp before; it returns the timestamp.
func smooth(h []byte, t uint32, prev, inc int64) int64 {
	own, next := tick(t), prev+inc
	out := own
	if within(next, own) {
		out = next
		v.Assert(u.Eq(h, encTS(2, uint64(out))), "frames within the tolerance are spaced by 1024 samples")
	} else {
		v.Assert(u.Eq(h, encTS(2, uint64(out))), "a frame outside the tolerance restarts at its own time")
	}
	v.Assert(within(out, own), "a timestamp is within 10 ms of the packet's time")
	v.ObsI("pts", out)
	return out
}

// first checks the first frame and returns its timestamp.
func first(h []byte, t uint32) int64 {
	if own := tick(t); u.Eq(h, encTS(2, uint64(own))) {
		return own
	}
	pts := decTS(h)
	v.Assert(withinClock(pts, t), "a timestamp is within 10 ms of the packet's time")
	return tick(t) + int64((pts-uint64(tick(t)))<<31)>>31
}

// T08_steps: any times from the start.
func T08_steps() {
	w := u.NewWriter()
	m, inc := audio(w)
	var prev int64
	for i := 0; i < v.Param("steps", 3); i++ {
		t := someTime()
		h := step(m, w, t)
		if i > 0 {
			prev = smooth(h, t, prev, inc)
		} else {
			prev = first(h, t)
		}
	}
	v.Cover("T08 steps")
}

// T08_rate: the sampling rate changes between frames; a frame's 1024 samples have its own rate.
func T08_rate() {
	w := u.NewWriter()
	m, inc := audio(w)
	var prev int64
	n := 1 + v.Choose(v.Param("before", 2))
	for i := 0; i < n+v.Param("after", 1); i++ {
		t := someTime()
		next := inc
		if i == n {
			k := v.Pick(0, 4, 7, 12)
			cfg := []byte{2<<3 | byte(k>>1), byte(k&1)<<7 | 2<<3}
			v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: cfg}) == nil, "an audio header is saved")
			next = 90000 * 1024 / int64(aacRates[k])
		}
		h := step(m, w, t)
		if i > 0 {
			prev = smooth(h, t, prev, inc)
		} else {
			prev = first(h, t)
		}
		inc = next
	}
	v.Cover("T08 rate")
}

// T08_long: any times after a run of evenly spaced frames.
func T08_long() {
	w := u.NewWriter()
	m, inc := audio(w)
	n := v.Pick(1, 2, 50, v.Param("run", 200))
	start := int64(v.Pick(0, 1000, 3600000))
	var prev int64
	for i := 0; i < n; i++ {
		t := uint32(start + int64(i)*inc/90)
		h := step(m, w, t)
		if i > 0 {
			prev = smooth(h, t, prev, inc)
		} else {
			prev = first(h, t)
		}
	}
	for i := 0; i < 2; i++ {
		t := someTime()
		prev = smooth(step(m, w, t), t, prev, inc)
	}
	v.Cover("T08 long run")
}

// T08_endless: any time after a run of thousands of evenly spaced frames.
func T08_endless() {
	w := u.NewWriter()
	m, inc := audio(w)
	var prev int64
	for i, n := 0, v.Param("endless", 3000); i < n; i++ {
		t := uint32(int64(i) * inc / 90)
		h := step(m, w, t)
		if i > 0 {
			prev = smooth(h, t, prev, inc)
		} else {
			prev = first(h, t)
		}
	}
	t := someTime()
	smooth(step(m, w, t), t, prev, inc)
	v.Cover("T08 endless run")
}

// T08_eons: any time after hours of evenly spaced frames: timestamps beyond 2^31, 2^32 and 2^33 ticks.
func T08_eons() {
	w := u.NewWriter()
	m, inc := ts.NewMixer(w), 90000*1024/int64(7350)
	v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: []byte{2<<3 | 6, 2 << 3}}) == nil, "an audio header is saved")
	p := &packet.Packet{Type: packet.PktAudio, Header: ah{1}, Media: []byte{0x21, 0x10}}
	n := int64(v.Param("eons", 172000))
	for i := int64(0); i < n; i++ {
		v.Assert(m.Update(p, uint32(i*inc/90), 0) == nil, "the time of an audio frame is accepted")
	}
	t := uint32(n*inc/90) + v.U32()&31
	smooth(step(m, w, t), t, (n-1)*inc, inc)
	v.Cover("T08 eons")
}

// T08_video: video frames, configurations and refused packets in between do not disturb the audio.
func T08_video() {
	w := u.NewWriter()
	m, inc := audio(w)
	t := someTime()
	prev := first(step(m, w, t), t)
	switch v.Choose(3) {
	case 0:
		p := &packet.Packet{Type: packet.PktVideo, Header: vh{}, Media: []byte{0, 0, 0, 2, 0x41, 1}}
		v.Assert(m.Update(p, v.U32(), v.U32()) == nil, "the time of a video frame is accepted")
		pesOf(m, w, p)
	case 1:
		p := &packet.Packet{Type: packet.PktVideo, Header: vh{key: true, seq: true}, Media: avcConfig()}
		v.Assert(m.SaveAVCHeader(p) == nil, "a video header is saved")
	case 2:
		v.Assert(m.SetTsHeader() == nil, "a stream is started")
	}
	t = someTime()
	smooth(step(m, w, t), t, prev, inc)
	v.Cover("T08 video")
}

// T09_service: names of any length.
func T09_service() {
	n := v.Pick(0, 1, 2, 79, 80, 100, 157, 158, 159, 160, 250, 252, 253, 255, 256, 257, 300, 512, 70000)
	k := v.Pick(0, 1, 3, 78, 79, 100, 157, 158, 255, 256, 65536)
	a, b := name(n), name(k)
	t := v.U8()
	d := table.NewDescriptor()
	err := d.Service(t, a, b)
	want := u.Cat([]byte{0x48, byte(3 + n + k), t, byte(n)}, []byte(a), []byte{byte(k)}, []byte(b))
	fits := n+k+5 <= 163
	v.Assert((err == nil) == fits, "a descriptor that does not fit is refused, any other is not")
	if !fits {
		want = nil
		v.Cover("T09 refused")
	} else {
		v.Cover("T09 service")
	}
	v.Assert(u.Eq(d.GetBuffer().Bytes(), want), "the descriptor has its tag, the true length and the names")
	table1(d.GetBuffer().Bytes())
}

// name is a string of length n, its last byte arbitrary.
func name(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(7*i + 1)
	}
	if n > 0 {
		b[n-1] = v.U8()
	}
	return string(b)
}

// table1 makes the table of the descriptors.
func table1(desc []byte) {
	m := ts.NewMuxer()
	checkSDT(m.SDT(bytes.NewBuffer(append([]byte(nil), desc...))), 0, desc, false)
}

// T09_several: descriptors one after the other, as many as fit.
func T09_several() {
	d := table.NewDescriptor()
	var want []byte
	for i := 0; i < v.Param("descriptors", 3); i++ {
		var add []byte
		var err error
		known := false
		switch v.Choose(3) {
		case 0:
			n, k := v.Pick(0, 2, 70, 80), v.Pick(0, 1, 74)
			a, b := name(n), name(k)
			t := v.U8()
			err = d.Service(t, a, b)
			add = u.Cat([]byte{0x48, byte(3 + n + k), t, byte(n)}, []byte(a), []byte{byte(k)}, []byte(b))
		case 1:
			n := v.Pick(0, 1, 78, 79, 80, 161, 162, 255, 256, 300)
			a := name(n)
			err = d.NetworkName(a)
			add = u.Cat([]byte{0x40, byte(n)}, []byte(a))
		case 2:
			ok := v.Bool()
			code := v.U32()
			v.Assume(code < 1<<12)
			err = d.CountryAvailability(ok, code)
			flag := byte(0)
			if ok {
				flag = 0x80
			}
			add = u.Cat([]byte{0x49, 5, flag}, u.BE(uint64(code), 4))
			known = true
		}
		fits := len(want)+len(add) <= 163
		v.Assert((err == nil) == fits, "a descriptor that does not fit is refused, any other is not")
		got := d.GetBuffer().Bytes()
		if fits {
			n := len(want)
			want = u.Cat(want, add)
			if known && len(got) == len(want) {
				v.AssertKnown("country-length", got[n+1] == 5, got[n+1] == 4, "the length of the country descriptor is that of its contents")
				want[n+1] = got[n+1]
			}
			v.Cover("T09 several")
		}
		v.Assert(u.Eq(got, want), "the descriptors have their tags, the true lengths and the names")
	}
	table1(want)
}

// T09_metadata: metadata of a mixer with names of any length or no names.
func T09_metadata() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	o := amf.Object{}
	a, b := "undefined", "undefined"
	n, k := v.Pick(-1, -2, 0, 5, 100, 158, 159, 256, 300), v.Pick(-1, 0, 1, 58, 59, 256)
	if n >= 0 {
		a = name(n)
		o["Provider"] = a
	} else if n == -2 {
		o["Provider"] = 5.0
	}
	if k >= 0 {
		b = name(k)
		o["Service"] = b
	}
	err := m.SaveMetadata(o)
	fits := len(a)+len(b)+5 <= 163
	v.Assert((err == nil) == fits, "metadata that does not fit is refused, any other is not")
	v.Assert(m.SetTsHeader() == nil, "a stream is started")
	desc := []byte{}
	if fits {
		desc = u.Cat([]byte{0x48, byte(3 + len(a) + len(b)), 1, byte(len(a))}, []byte(a), []byte{byte(len(b))}, []byte(b))
		v.Cover("T09 metadata")
	} else {
		v.Cover("T09 metadata refused")
	}
	seen := false
	for i := 0; i+188 <= len(w.B); i += 188 {
		if w.B[i+1]&0x1f == 0 && w.B[i+2] == 0x11 {
			checkSDT(w.B[i:i+188], 0, desc, false)
			seen = true
		}
	}
	v.Assert(seen, "the table of the descriptors is written")
}

// T09_table: no buffer whatever makes table generation panic.
func T09_table() {
	n := v.Pick(0, 1, 163, 164, 165, 170, 188, 200, 255, 256, 4096, 70000)
	b := make([]byte, n)
	if n > 0 {
		b[0], b[n-1] = v.U8(), v.U8()
	}
	got := ts.NewMuxer().SDT(bytes.NewBuffer(b))
	v.Assert(len(got) == 0 || len(got) == 188, "a table is one packet or nothing")
	v.Cover("T09 table")
}
