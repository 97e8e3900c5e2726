package hparser

import (
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/mp3"

	"verif/harness/u"
	"verif/harness/v"
)

// vh is the header of a video packet.
type vh struct {
	key, seq, avc bool
	codec         uint8
}

func (h vh) IsKeyFrame() bool       { return h.key }
func (h vh) IsInterFrame() bool     { return !h.key }
func (h vh) IsSeqHdr() bool         { return h.seq }
func (h vh) IsEndOfSeq() bool       { return false }
func (h vh) IsCodecAvc() bool       { return h.avc }
func (h vh) CodecID() uint8         { return h.codec }
func (h vh) CompositionTime() int32 { return 0 }

// ah is the header of an audio packet.
type ah struct {
	aac, mp3 bool
	kind     uint8
}

func (h ah) SoundFormat() uint8 { return 10 }
func (h ah) AACType() uint8     { return h.kind }
func (h ah) IsSoundAAC() bool   { return h.aac }
func (h ah) IsSoundMP3() bool   { return h.mp3 }
func (h ah) IsAACSeqHdr() bool  { return h.kind == 0 }

// P03_any: any packets on one parser.
func P03_any() {
	c := parser.NewCodecParser()
	for i := 0; i < v.Param("packets", 2); i++ {
		p := &packet.Packet{}
		p.Type = v.Pick(packet.PktVideo, packet.PktAudio, packet.PktMetadata, 7, -1)
		unsupported, missing := false, false
		video := vh{avc: v.Bool(), seq: v.Bool(), codec: 7}
		audio := ah{kind: v.U8()}
		switch v.Choose(3) {
		case 0:
			audio.aac = true
		case 1:
			audio.mp3 = true
		}
		switch v.Choose(3) {
		case 0:
			p.Header = video
			unsupported = !video.avc
			missing = p.Type == packet.PktAudio
		case 1:
			p.Header = audio
			unsupported = !audio.aac && !audio.mp3
			missing = p.Type == packet.PktVideo
		case 2:
			missing = true
		}
		unsupported = unsupported || p.Type > packet.PktAudio || p.Type < 0
		n := v.Choose(v.Param("n", 7)+2) - 1
		if n >= 0 {
			p.Media = v.Bytes(n)
		}
		w := u.NewWriter()
		err := c.Parse(p, w)
		if missing {
			v.Assert(err != nil, "a missing header is an error")
			v.Cover("P03 missing")
		}
		if unsupported {
			v.Assert(err != nil, "an unsupported codec is an error")
			v.Cover("P03 unsupported")
		}
		if n <= 0 {
			v.Assert(err != nil, "an empty packet is an error")
		}
		c.SampleRate()
		v.Cover("P03 any")
	}
}

// P03_audio: audio frames without a destination are refused.
func P03_audio() {
	c := parser.NewCodecParser()
	v.Assert(c.Parse(&packet.Packet{Type: packet.PktAudio, Header: ah{aac: true}, Media: []byte{0x12, 0x10}}, u.NewWriter()) == nil, "a configuration is accepted")
	p := &packet.Packet{Type: packet.PktAudio, Header: ah{aac: true, kind: 1}, Media: v.Bytes(v.Choose(7))}
	if v.Bool() {
		p.Header = ah{mp3: true}
	}
	v.Assert(c.Parse(p, nil) != nil, "audio frames without a destination are refused")
	v.Cover("P03 audio")
}

// P03_nil: video without a destination is refused, whatever it holds.
func P03_nil() {
	p := &packet.Packet{Type: packet.PktVideo, Header: vh{avc: true, seq: v.Bool()}}
	if v.Bool() {
		p.Media, _ = someConfig(1)
	} else {
		p.Media = v.Bytes(v.Choose(7))
	}
	v.Assert(parser.NewCodecParser().Parse(p, nil) != nil, "video without a destination is refused")
	v.Cover("P03 nil")
}

// P03_demuxed: any FLV packet, demuxed and parsed.
func P03_demuxed() {
	c := parser.NewCodecParser()
	d := flv.NewDemuxer()
	for i := 0; i < v.Param("packets", 2); i++ {
		p := &packet.Packet{Type: v.Pick(packet.PktVideo, packet.PktAudio), Data: v.Bytes(v.Choose(v.Param("data", 12) + 1))}
		if i < v.Param("packets", 2)-1 {
			// something that leaves state behind
			switch v.Choose(3) {
			case 0:
				p.Type, p.Data = packet.PktAudio, u.Cat([]byte{0xaf, 0}, v.Bytes(2))
			case 1:
				b, _ := someConfig(1)
				p.Type, p.Data = packet.PktVideo, u.Cat([]byte{0x17, 0, 0, 0, 0}, b)
			case 2:
				p.Type, p.Data = packet.PktAudio, u.Cat([]byte{0x2f}, v.Bytes(4))
			}
		}
		if d.Demux(p) == nil {
			c.Parse(p, u.NewWriter())
		}
		v.Cover("P03 demuxed")
	}
}

// adts is the header of a frame of n bytes.
func adts(obj, rate, ch byte, n int) []byte {
	l := n + 7
	return []byte{0xff, 0xf1, (obj-1)<<6 | rate<<2 | ch>>2, ch<<6 | byte(l>>11), byte(l >> 3), byte(l<<5) | 0x1f, 0xfc}
}

// field is the n bits of b from bit i on.
func field(b []byte, i, n int) byte {
	r := byte(0)
	for ; n > 0; n-- {
		r = r<<1 | b[i/8]>>(7-i%8)&1
		i++
	}
	return r
}

// declared is what an AAC configuration says: the type of the core coding, the rate index and the channels;
// ok is false for one that is incomplete or that no ADTS header can express.
func declared(b []byte) (obj, rate, ch byte, ok bool) {
	if len(b) < 2 {
		return 0, 0, 0, false
	}
	obj, rate, ch = field(b, 0, 5), field(b, 5, 4), field(b, 9, 4)
	ok = v.And(rate != 15, ch <= 7)
	if v.Or(obj == 5, obj == 29) {
		// an extension (SBR, or SBR and PS) of a core: its rate and then the core's type
		at := 17
		if len(b) > 2 && field(b, 13, 4) == 15 {
			at += 24
		}
		if len(b)*8 < at+5 {
			return 0, 0, 0, false
		}
		obj = field(b, at, 5)
	}
	return obj, rate, ch, v.And(ok, obj >= 1, obj <= 4)
}

// P04_extended: configurations of any length, extensions included.
func P04_extended() {
	p := aac.NewParser()
	known := false
	var obj, rate, ch byte
	for i := 0; i < 2; i++ {
		b := v.Bytes(v.Choose(8))
		if v.Bool() && len(b) > 0 {
			b[0] = byte(v.Pick(5, 29))<<3 | b[0]&7
		}
		w := u.NewWriter()
		o, r, c, ok := declared(b)
		err := p.Parse(b, 0, w)
		v.Assert(len(w.B) == 0, "a configuration writes nothing")
		v.Assert((err == nil) == ok, "exactly configurations that no header can express are refused")
		if ok {
			known, obj, rate, ch = true, o, r, c
			v.Cover("P04 extended")
		}
		f := v.Bytes(1)
		w = u.NewWriter()
		err = p.Parse(f, 1, w)
		if !known {
			v.Assert(err != nil && len(w.B) == 0, "a frame before any configuration and an empty frame are refused")
			continue
		}
		v.Assert(err == nil && u.Eq(w.B, u.Cat(adts(obj, rate, ch, 1), f)), "a frame is its header and the frame")
	}
}

// P04_history: configurations and frames in any order.
func P04_history() {
	p := aac.NewParser()
	known := false
	var obj, rate, ch byte
	for i := 0; i < v.Param("steps", 4); i++ {
		w := u.NewWriter()
		switch v.Choose(5) {
		case 4: // a configuration with an explicit rate, which ADTS cannot express
			b := v.Bytes(2 + v.Choose(4))
			v.Assume(b[0]&7<<1|b[1]>>7 == 15)
			v.Assert(p.Parse(b, 0, w) != nil && len(w.B) == 0, "a configuration that no header can express is refused")
			v.Cover("P04 refused configuration")
		case 0: // a configuration, possibly with extensions after it
			b := v.Bytes(2 + v.Choose(3))
			v.Assume(v.And(b[0]>>3 != 5, b[0]>>3 != 29)) // as in P04_extended
			o, r, c, ok := declared(b)
			v.Assert((p.Parse(b, 0, w) == nil) == ok && len(w.B) == 0, "a configuration is accepted and writes nothing")
			if ok {
				known, obj, rate, ch = true, o, r, c
			}
		case 1: // an incomplete configuration
			err := p.Parse(v.Bytes(v.Choose(2)), 0, w)
			v.Assert(err != nil && len(w.B) == 0, "an incomplete configuration is refused")
		case 2: // a frame
			f := v.Bytes(v.Choose(3))
			keep := append([]byte(nil), f...)
			err := p.Parse(f, 1, w)
			if !known || len(f) == 0 {
				v.Assert(err != nil && len(w.B) == 0, "a frame before any configuration and an empty frame are refused")
				v.Cover("P04 refused")
				continue
			}
			v.Assert(err == nil, "a frame is written")
			v.ObsB("adts", w.B)
			v.Assert(u.Eq(w.B, u.Cat(adts(obj, rate, ch, len(f)), f)), "a frame is its header and the frame")
			v.Assert(u.Eq(f, keep), "the frame is left unchanged")
			v.Cover("P04 frame")
		case 3: // another type of packet
			t := v.U8()
			v.Assume(t > 1)
			v.Assert(p.Parse(v.Bytes(2), t, w) != nil && len(w.B) == 0, "another type of packet is refused")
		}
	}
}

// P04_length: frames of any length.
func P04_length() {
	p := aac.NewParser()
	b := v.Bytes(2)
	o, r, c := b[0]>>3, b[0]&7<<1|b[1]>>7, b[1]>>3&15
	v.Assume(v.And(o >= 1, o <= 4, r < 15, c < 8))
	v.Assert(p.Parse(b, 0, u.NewWriter()) == nil, "a configuration is accepted")
	n := v.Pick(1, 8, 24, 25, 248, 249, 255, 256, 504, 1017, 1024, 2040, 2041, 2048, 4089, 6144, 8183, 8184, 8185, 8191, 8192, 16384, 65529, 65530, 65535, 65536, 65537)
	f := make([]byte, n)
	f[0], f[n-1] = v.U8(), v.U8()
	w := u.NewWriter()
	err := p.Parse(f, 1, w)
	if n+7 > 0x1fff {
		v.Assert(err != nil && len(w.B) == 0, "a frame too long for its header is refused")
		v.Cover("P04 too long")
		return
	}
	v.Assert(err == nil, "a frame is written")
	v.Assert(u.Eq(w.B, u.Cat(adts(o, r, c, n), f)), "a frame is its header and the frame")
	v.Cover("P04 length")
}

// P04_failing: a failed write is reported, and the next frame is right again.
func P04_failing() {
	p := aac.NewParser()
	v.Assert(p.Parse([]byte{0x12, 0x10}, 0, u.NewWriter()) == nil, "a configuration is accepted")
	f := v.Bytes(2)
	w := u.NewWriter()
	w.FailAt = v.Choose(2)
	w.Short = v.Choose(8)
	err := p.Parse(f, 1, w)
	if w.Failed {
		v.Assert(err != nil, "a failed write is reported")
		v.Assert(w.After == 0, "nothing is written after a failed write")
		v.Cover("P04 failing")
	}
	w = u.NewWriter()
	v.Assert(p.Parse(f, 1, w) == nil && u.Eq(w.B, u.Cat(adts(2, 4, 2, 2), f)), "a frame is its header and the frame")
}

// P04_codec: the same through the parser of all codecs, with video in between.
func P04_codec() {
	c := parser.NewCodecParser()
	known := false
	var rate byte
	for i := 0; i < v.Param("codec", 3); i++ {
		w := u.NewWriter()
		switch v.Choose(3) {
		case 0:
			rate = byte(v.Choose(13))
			known = true
			v.Assert(c.Parse(&packet.Packet{Type: packet.PktAudio, Header: ah{aac: true}, Media: []byte{2<<3 | rate>>1, rate<<7 | 2<<3}}, w) == nil && len(w.B) == 0, "a configuration is accepted and writes nothing")
		case 1:
			c.Parse(&packet.Packet{Type: packet.PktVideo, Header: vh{avc: true}, Media: v.Bytes(5)}, w)
		case 2:
			f := v.Bytes(2)
			err := c.Parse(&packet.Packet{Type: packet.PktAudio, Header: ah{aac: true, kind: 1}, Media: f}, w)
			if !known {
				v.Assert(err != nil && len(w.B) == 0, "a frame before any configuration is refused")
				continue
			}
			v.Assert(err == nil && u.Eq(w.B, u.Cat(adts(2, rate, 2, 2), f)), "a frame is its header and the frame")
			v.Cover("P04 codec")
		}
	}
}

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 44100, 44100}
var mp3Rates = []int{44100, 48000, 32000}

// P05_aac: every configuration, the last one counts.
func P05_aac() {
	p := aac.NewParser()
	for i := 0; i < 2; i++ {
		b := v.Bytes(2 + v.Choose(2))
		_, r, _, ok := declared(b)
		before := p.SampleRate()
		v.Assert((p.Parse(b, 0, u.NewWriter()) == nil) == ok, "a configuration is accepted")
		if !ok {
			v.Assert(p.SampleRate() == before, "a refused configuration leaves the rate unchanged")
			continue
		}
		v.Assert(p.SampleRate() == aacRates[r], "the rate is that of the declared index")
		p.Parse(v.Bytes(2), 1, u.NewWriter())
		v.Assert(p.SampleRate() == aacRates[r], "the rate is that of the declared index")
		v.Cover("P05 aac")
	}
}

// mp3Rate checks what an MP3 frame does to the rate; f is an MPEG-1 layer III frame.
func mp3Rate(f []byte, err error, rate int) {
	right := f[2] >> 2 & 3
	wrong := f[2] >> 1 & 3
	ok, alt := err != nil, err != nil
	if right < 3 {
		ok = err == nil && rate == mp3Rates[right]
	}
	if wrong < 3 {
		alt = err == nil && rate == mp3Rates[wrong]
	}
	v.AssertKnown("mp3-rate-field", ok, alt, "the rate is that of the frame's sampling-frequency field")
}

func mp3Frame() []byte {
	f := v.Bytes(3 + v.Choose(2))
	f[0], f[1] = 0xff, 0xfa|f[1]&1
	return f
}

// P05_mp3: every frame header, the last frame counts.
func P05_mp3() {
	p := mp3.NewParser()
	for i := 0; i < 3; i++ {
		f := mp3Frame()
		before := p.SampleRate()
		err := p.Parse(f)
		if err != nil {
			v.Assert(p.SampleRate() == before, "a refused frame leaves the rate unchanged")
		}
		mp3Rate(f, err, p.SampleRate())
		v.Cover("P05 mp3")
	}
}

// P05_codec: configurations and frames of either codec on one parser.
func P05_codec() {
	c := parser.NewCodecParser()
	if v.Bool() {
		_, err := c.SampleRate()
		v.Assert(err != nil, "there is no rate before any audio")
	}
	declared := false
	for i := 0; i < v.Param("codec", 3); i++ {
		switch v.Choose(4) {
		case 3:
			before, e := c.SampleRate()
			p := &packet.Packet{Type: packet.PktAudio, Header: ah{aac: true, kind: byte(v.Pick(0, 2, 255))}, Media: []byte{0x17, 0x80 | v.U8()}}
			if declared && v.Bool() {
				p.Header, p.Media = ah{mp3: true}, v.Bytes(2)
			}
			v.Assert(c.Parse(p, u.NewWriter()) != nil, "a packet without a rate is refused")
			if declared {
				v.Assert(e == nil, "there is a rate")
				after, e2 := c.SampleRate()
				v.Assert(e2 == nil && before == after, "a refused packet leaves the rate unchanged")
				v.Cover("P05 codec refused")
			}
		case 0:
			r := byte(v.Choose(15))
			p := &packet.Packet{Type: packet.PktAudio, Header: ah{aac: true}, Media: []byte{2<<3 | r>>1, r<<7 | 2<<3}}
			v.Assert(c.Parse(p, u.NewWriter()) == nil, "a configuration is accepted")
			got, err := c.SampleRate()
			v.Assert(err == nil && got == aacRates[r], "the rate is that of the most recent configuration")
			declared = true
			v.Cover("P05 codec aac")
		case 1:
			f := mp3Frame()
			before, e0 := c.SampleRate()
			w := u.NewWriter()
			err := c.Parse(&packet.Packet{Type: packet.PktAudio, Header: ah{mp3: true}, Media: f}, w)
			v.Assert(err != nil && len(w.B) == 0 || err == nil && u.Eq(w.B, f), "an MP3 frame is written as it is")
			if err != nil {
				if after, e := c.SampleRate(); declared {
					v.Assert(e0 == nil && e == nil && before == after, "a refused packet leaves the rate unchanged")
				}
				mp3Rate(f, err, 0)
				continue
			}
			got, e := c.SampleRate()
			v.Assert(e == nil, "there is a rate after a frame")
			declared = true
			mp3Rate(f, err, got)
			v.Cover("P05 codec mp3")
		case 2:
			before, e := c.SampleRate()
			c.Parse(&packet.Packet{Type: packet.PktVideo, Header: vh{avc: true}, Media: v.Bytes(5)}, u.NewWriter())
			after, e2 := c.SampleRate()
			v.Assert(before == after && (e == nil) == (e2 == nil), "video does not change the audio's rate")
		}
	}
}

// P04_many: a long history of frames of growing length, with new configurations on the way.
func P04_many() {
	p := aac.NewParser()
	var o, r, c byte
	for i, n := 0, v.Param("history", 300); i < n; i++ {
		if i%50 == 0 {
			b := v.Bytes(2 + i/50%3)
			o, r, c = b[0]>>3, b[0]&7<<1|b[1]>>7, b[1]>>3&15
			v.Assume(v.And(o >= 1, o <= 4, r < 15, c < 8))
			v.Assert(p.Parse(b, 0, u.NewWriter()) == nil, "a configuration is accepted")
		}
		f := make([]byte, 1+i*27)
		f[i*27] = v.U8()
		w := u.NewWriter()
		v.Assert(p.Parse(f, 1, w) == nil, "a frame is written")
		v.Assert(u.Eq(w.B, u.Cat(adts(o, r, c, len(f)), f)), "a frame is its header and the frame")
	}
	v.Cover("P04 many")
}
