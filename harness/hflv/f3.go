package hflv

import (
	"bytes"
	"math"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

func isF(got any, f float64) bool {
	g, ok := got.(float64)
	return ok && v.EqF(g, f)
}

// value is a metadata member and the test of its decoded form.
func value(depth int) (any, func(any) bool) {
	k := 6
	if depth == 0 {
		k = 4
	}
	switch v.Choose(k) {
	case 1:
		s := v.Str(v.Choose(3))
		return s, func(g any) bool { q, ok := g.(string); return ok && len(q) == len(s) && v.EqS(q, s) }
	case 2:
		b := v.Bool()
		return b, func(g any) bool { q, ok := g.(bool); return ok && q == b }
	case 3:
		x := v.I32()
		return x, func(g any) bool { return isF(g, float64(x)) }
	case 4:
		x, chk := value(depth - 1)
		return amf.Array{x, x}, func(g any) bool {
			a, ok := g.(amf.Array)
			return ok && len(a) == 2 && chk(a[0]) && chk(a[1])
		}
	case 5:
		x, chk := value(depth - 1)
		return amf.Object{"in": x}, func(g any) bool {
			o, ok := g.(amf.Object)
			return ok && len(o) == 1 && chk(o["in"])
		}
	}
	f := v.F64()
	return f, func(g any) bool { return isF(g, f) }
}

// F03_object: the tag of any metadata object.
func F03_object() {
	n := v.Choose(v.Param("members", 2) + 1)
	o := amf.Object{}
	var ks []string
	var chks []func(any) bool
	for i := 0; i < n; i++ {
		k := v.Str(i + 1)
		x, chk := value(v.Param("depth", 1))
		o[k] = x
		ks, chks = append(ks, k), append(chks, chk)
	}
	check(o, func(g amf.Object) {
		v.Assert(len(g) == n, "the object has the saved members and no others")
		for i, k := range ks {
			x, ok := g[k]
			v.Assert(ok && chks[i](x), "each member is as saved")
		}
	})
	v.Cover("F03 object")
}

// check saves the object, starts a file and decodes the script tag.
func check(o amf.Object, test func(amf.Object)) {
	checkOn(flv.NewMixer(nil), o, test)
}

func checkOn(m *flv.Mixer, o amf.Object, test func(amf.Object)) {
	w := u.NewWriter()
	m.SetWriter(w)
	v.Assert(m.SaveMetadata(o) == nil, "metadata is saved")
	v.Assert(m.SetFlvHeader() == nil, "a file is started")
	v.Assert(len(w.B) >= 13+11+4, "the metadata is one tag")
	t := w.B[13:]
	size := len(t) - 15
	v.Assert(u.Eq(t[:11], u.Cat([]byte{18}, u.BE(uint64(size), 3), make([]byte, 7))), "the header of a script tag at time zero")
	v.Assert(u.Eq(t[11+size:], u.BE(uint64(size)+11, 4)), "the size of the tag")
	name := str0("onMetaData")
	body := t[11 : 11+size]
	v.Assert(len(body) >= len(name) && u.Eq(body[:len(name)], name), "the body starts with the event's name, without a command")
	r := bytes.NewReader(body[len(name):])
	got, err := amf.NewEnDecAMF0().Decode(r)
	v.Assert(err == nil && r.Len() == 0, "the rest of the body is one value")
	g, ok := got.(amf.Object)
	v.Assert(ok, "the value is an object")
	test(g)
}

// F03_large: metadata larger than the buffers it is built in.
func F03_large() {
	n := v.Pick(200, 240, 256, 500, 512, 1000, 65535, 66000)
	b := make([]byte, n)
	b[0], b[n-1] = v.U8(), v.U8()
	s := string(b)
	x := v.F64()
	check(amf.Object{"s": s, "x": x}, func(g amf.Object) {
		q, ok := g["s"].(string)
		v.Assert(ok && len(g) == 2 && len(q) == n && v.EqS(q, s) && isF(g["x"], x), "each member is as saved")
	})
	v.Cover("F03 large")
}

// F03_replace: metadata saved again replaces what was saved, shorter or longer.
func F03_replace() {
	lens := []int{0, 1, 40, 300, 600, 70000}
	i, j := v.Choose(len(lens)), v.Choose(len(lens))
	mk := func(n int) string {
		b := make([]byte, n)
		if n > 0 {
			b[0], b[n-1] = v.U8(), v.U8()
		}
		return string(b)
	}
	m := flv.NewMixer(u.NewWriter())
	v.Assert(m.SaveMetadata(amf.Object{"a": mk(lens[i])}) == nil, "metadata is saved")
	if v.Bool() {
		v.Assert(m.SetFlvHeader() == nil, "a file is started")
	}
	s := mk(lens[j])
	checkOn(m, amf.Object{"s": s}, func(g amf.Object) {
		q, ok := g["s"].(string)
		v.Assert(ok && len(g) == 1 && len(q) == len(s) && v.EqS(q, s), "the object has the saved members and no others")
	})
	v.Cover("F03 replace")
}

// want is what a packet demuxes to.
func demuxed(t int, b []byte, p *packet.Packet, err error) {
	switch t {
	case packet.PktVideo:
		if len(b) < 5 {
			v.Assert(err != nil, "a packet too short for its media header is an error")
			v.Cover("F04 short video")
			return
		}
		frame, codec, kind := b[0]>>4, b[0]&15, b[1]
		if codec != 7 || frame != 1 && frame != 2 {
			// other codecs and frames without an AVC packet header: no claim about the rest
			if h, ok := p.Header.(packet.VideoPacketHeader); err == nil {
				v.Assert(ok, "the header describes video")
				v.Assert(h.CodecID() == codec && h.IsCodecAvc() == (codec == 7), "the codec")
				v.Assert(h.IsKeyFrame() == (frame == 1) && h.IsInterFrame() == (frame == 2), "the frame type")
				v.Assert(v.Implies(frame != 1, !h.IsSeqHdr() && !h.IsEndOfSeq()), "a sequence header is a key frame")
				n := len(b) - len(p.Media)
				v.Assert(n >= 1 && n <= 5 && u.Eq(p.Media, b[n:]), "the media is what follows the header")
			}
			v.Cover("F04 other video")
			return
		}
		v.Assert(err == nil, "an AVC packet is demuxed")
		h, ok := p.Header.(packet.VideoPacketHeader)
		v.Assert(ok, "the header describes video")
		v.Assert(h.IsCodecAvc() && h.CodecID() == 7, "the codec")
		v.Assert(h.IsKeyFrame() == (frame == 1) && h.IsInterFrame() == (frame == 2), "the frame type")
		v.Assert(h.IsSeqHdr() == (frame == 1 && kind == 0), "a sequence header")
		v.Assert(h.IsEndOfSeq() == (frame == 1 && kind == 2), "an end of sequence")
		ct := int32(b[2])<<16 | int32(b[3])<<8 | int32(b[4])
		if ct >= 1<<23 {
			ct -= 1 << 24
		}
		if kind != 1 {
			ct = 0
		}
		v.ObsI("ct", int64(ct))
		v.Assert(h.CompositionTime() == ct, "the composition time is the signed 24-bit field")
		v.Assert(u.Eq(p.Media, b[5:]), "the media is what follows the header")
		v.Cover("F04 video")
	case packet.PktAudio:
		if len(b) < 2 {
			v.Assert(err != nil, "a packet too short for its media header is an error")
			v.Cover("F04 short audio")
			return
		}
		f := b[0] >> 4
		if f != 10 && f != 2 {
			v.Assert(err != nil, "an unsupported sound format is an error")
			v.Cover("F04 other audio")
			return
		}
		v.Assert(err == nil, "an AAC or MP3 packet is demuxed")
		h, ok := p.Header.(packet.AudioPacketHeader)
		v.Assert(ok, "the header describes audio")
		v.Assert(h.SoundFormat() == f && h.IsSoundAAC() == (f == 10) && h.IsSoundMP3() == (f == 2), "the sound format")
		if f == 10 {
			v.Assert(h.AACType() == b[1] && h.IsAACSeqHdr() == (b[1] == 0), "the AAC packet type")
			v.Assert(u.Eq(p.Media, b[2:]), "the media is what follows the header")
			v.Cover("F04 aac")
		} else {
			v.Assert(u.Eq(p.Media, b[1:]), "the media is what follows the header")
			v.Cover("F04 mp3")
		}
	case packet.PktMetadata:
		v.Cover("F04 metadata")
	default:
		v.Assert(err != nil, "a packet of unknown type is an error")
		v.Cover("F04 unknown type")
	}
}

// F04_packets: any packets one after the other, new ones or one that is reused.
func F04_packets() {
	d := flv.NewDemuxer()
	var p *packet.Packet
	for i := 0; i < v.Param("packets", 2); i++ {
		t := v.Pick(packet.PktVideo, packet.PktAudio, packet.PktMetadata, 3, -1, 9, 8, 1<<32)
		b := v.Bytes(v.Choose(v.Param("len", 7) + 1))
		keep := append([]byte(nil), b...)
		if p == nil || v.Bool() {
			p = &packet.Packet{}
		}
		p.Type, p.Data = t, b
		err := d.Demux(p)
		demuxed(t, keep, p, err)
		v.Assert(u.Eq(b, keep) && u.Eq(p.Data, keep), "the data is left unchanged")
	}
}

// F04_again: demuxing the same packet again gives the same.
func F04_again() {
	t := v.Pick(packet.PktVideo, packet.PktAudio)
	b := v.Bytes(v.Choose(8))
	p := &packet.Packet{Type: t, Data: b}
	err := flv.NewDemuxer().Demux(p)
	demuxed(t, b, p, err)
	err2 := flv.NewDemuxer().Demux(p)
	v.Assert((err == nil) == (err2 == nil), "demuxing again gives the same")
	demuxed(t, b, p, err2)
}

// F04_large: the media of a large packet.
func F04_large() {
	n := v.Pick(255, 256, 65535, 65536, 100000)
	b := make([]byte, n)
	h := v.Bytes(5)
	copy(b, h)
	b[5], b[n-1] = v.U8(), v.U8()
	t := v.Pick(packet.PktVideo, packet.PktAudio)
	p := &packet.Packet{Type: t, Data: b}
	err := flv.NewDemuxer().Demux(p)
	demuxed(t, b, p, err)
}

// F04_tag: the media header parser on its own, reused for several packets.
func F04_tag() {
	var tag flv.Tag
	for i := 0; i < 2; i++ {
		t := v.Pick(packet.PktVideo, packet.PktAudio)
		b := v.Bytes(v.Choose(7))
		n, err := tag.ParseMediaTagHeader(b, t)
		if err == nil {
			v.Assert(n >= 0 && n <= len(b), "the media starts inside the data")
			v.Cover("F04 tag parsed")
		}
		if err == nil && t == packet.PktVideo && b[0]&15 == 7 && (b[0]>>4 == 1 || b[0]>>4 == 2) {
			ct := int32(b[2])<<16 | int32(b[3])<<8 | int32(b[4])
			if ct >= 1<<23 {
				ct -= 1 << 24
			}
			if b[1] != 1 {
				ct = 0
			}
			v.Assert(tag.CompositionTime() == ct, "the composition time is the signed 24-bit field")
			v.Cover("F04 tag composition time")
		}
	}
}

// F05_mux: a failed write of one tag, then a tag on a working writer.
func F05_mux() {
	t := v.Pick(packet.PktVideo, packet.PktAudio, packet.PktMetadata)
	typ, _ := tagType(t)
	data, body, bad := payload(t)
	if bad {
		v.Skip()
	}
	ts := v.U32()
	mk := func() *packet.Packet { return &packet.Packet{Type: t, Data: append([]byte(nil), data...)} }
	dry := u.NewWriter()
	v.Assert(flv.NewMixer(dry).Mux(mk(), ts) == nil, "a packet is written")
	w := u.NewWriter()
	w.FailAt = v.Choose(dry.Calls)
	w.Short = v.Choose(3)
	m := flv.NewMixer(w)
	p := mk()
	v.Assert(m.Mux(p, ts) != nil, "a failed write is reported")
	v.Assert(w.After == 0, "nothing more is written after a failed write")
	g := u.NewWriter()
	m.SetWriter(g)
	if t == packet.PktMetadata || v.Bool() {
		p = mk()
	}
	ts2 := v.U32()
	v.Assert(m.Mux(p, ts2) == nil, "a packet is written")
	v.Assert(u.Eq(g.B, tag(typ, body, ts2)), "the next operation writes a complete tag")
	v.Cover("F05 tag")
}

// F05_start: a failed write while a file is started, then the start of another file.
func F05_start() {
	var md, avc, aac []byte
	w := u.NewWriter()
	m := flv.NewMixer(w)
	if v.Bool() {
		x := v.F64()
		v.Assert(m.SaveMetadata(amf.Object{"x": x}) == nil, "metadata is saved")
		o := u.NewWriter()
		_, _ = amf.NewEnDecAMF0().Encode(o, amf.Object{"x": x})
		md = tag(18, u.Cat(str0("onMetaData"), o.B), 0)
	}
	if v.Bool() {
		d := v.Bytes(2)
		v.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Data: d}) == nil, "a video header is saved")
		avc = tag(9, d, 0)
	}
	if v.Bool() {
		d := v.Bytes(1)
		v.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Data: d}) == nil, "an audio header is saved")
		aac = tag(8, d, 0)
	}
	dry := u.NewWriter()
	m.SetWriter(dry)
	v.Assert(m.SetFlvHeader() == nil, "a file is started")
	m.SetWriter(w)
	w.FailAt = v.Choose(dry.Calls)
	w.Short = v.Choose(2)
	v.Assert(m.SetFlvHeader() != nil, "a failed write is reported")
	v.Assert(w.After == 0, "nothing more is written after a failed write")
	g := u.NewWriter()
	m.SetWriter(g)
	v.Assert(m.SetFlvHeader() == nil, "a file is started")
	v.Assert(u.Eq(g.B, start(md, avc, aac)), "the next operation is complete")
	v.Cover("F05 start")
}

// F04_many: a long history of packets on one demuxer.
func F04_many() {
	d := flv.NewDemuxer()
	p := &packet.Packet{}
	for i, n := 0, v.Param("history", 40); i < n; i++ {
		b := make([]byte, 5+i)
		copy(b, v.Bytes(5))
		b[4+i] = v.U8()
		t := packet.PktVideo
		if i%3 == 0 {
			t = packet.PktAudio
			b[0] = b[0]&15 | 0xa0
		} else {
			b[0], b[1] = []byte{0x17, 0x27}[i%2], 1
		}
		if i%2 == 0 {
			p = &packet.Packet{}
		}
		p.Type, p.Data = t, b
		err := d.Demux(p)
		demuxed(t, b, p, err)
	}
	v.Cover("F04 many")
}

// F03_refused: metadata that cannot be written is refused and leaves what was saved before.
func F03_refused() {
	m := flv.NewMixer(u.NewWriter())
	x := v.F64()
	v.Assert(m.SaveMetadata(amf.Object{"x": x}) == nil, "metadata is saved")
	self := amf.Object{}
	o := amf.Object{"a": 1}
	switch v.Choose(5) {
	case 0:
		self["in"] = self
		o = self
	case 1:
		a := amf.Array{nil}
		a[0] = a
		o["in"] = a
	case 2:
		o["in"] = struct{}{}
	case 3:
		o[""] = 1
	case 4:
		o[string(make([]byte, 65536))] = 1
	}
	v.Assert(m.SaveMetadata(o) != nil, "metadata that cannot be written is refused")
	w := u.NewWriter()
	m.SetWriter(w)
	v.Assert(m.SetFlvHeader() == nil, "a file is started")
	body := u.Cat(str0("onMetaData"), []byte{3, 0, 1, 'x', 0}, u.BE(math.Float64bits(x), 8), []byte{0, 0, 9})
	v.Assert(len(w.B) == 13+11+len(body)+4 && u.Eq(w.B[24:24+len(body)], body), "the metadata is what was saved before")
	v.Cover("F03 refused")
}
