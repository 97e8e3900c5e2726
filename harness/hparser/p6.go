package hparser

import (
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"

	"verif/harness/u"
	"verif/harness/v"
)

// picture is an access unit, with or without parameter sets of its own.
func picture() []byte {
	var in []byte
	if v.Bool() {
		in = u.Cat(nal(7, 2).avcc(), nal(8, 1).avcc())
	}
	return u.Cat(in, nal(6, 2).avcc(), nal(5, 2).avcc(), nal(1, 2).avcc())
}

// P06_h264: two converters, one of which is used while the other one writes.
func P06_h264() {
	h := &u.Hook{At: v.Choose(v.Param("places", 40))}
	var ps [2]*h264.Parser
	var ss [2]*state
	for i := range ps {
		ps[i], ss[i] = h264.NewParser(), &state{}
		c, sets := someConfig(1)
		_, err := parse(ps[i], c, true)
		v.Assert(err == nil, "a sequence header is accepted")
		ss[i].sets = sets
	}
	a, b := picture(), picture()
	c, sets := someConfig(1)
	what := v.Choose(2)
	h.F = func() {
		if what == 0 {
			_, err := parse(ps[1], c, true)
			v.Assert(err == nil, "a sequence header is accepted")
			ss[1].sets = sets
		}
		got, err := parse(ps[1], b, false)
		want, _ := ss[1].convert(b)
		v.Assert(err == nil && u.Eq(got, want), "a converter writes what it would have written alone")
	}
	w := u.NewWriter()
	keep := append([]byte(nil), a...)
	err := ps[0].Parse(a, false, u.HookWriter{Writer: w, Hook: h})
	want, _ := ss[0].convert(a)
	v.Assert(err == nil && u.Eq(w.B, want), "a converter writes what it would have written alone")
	if v.Param("again", 1) > 0 {
		n := len(w.B)
		err = ps[0].Parse(b, false, u.HookWriter{Writer: w, Hook: h})
		want, _ = ss[0].convert(b)
		v.Assert(err == nil && u.Eq(w.B[n:], want), "a converter writes what it would have written alone")
	}
	h.Done()
	v.Assert(u.Eq(a, keep), "the input is left unchanged")
	v.Cover("P06 h264")
}

// P06_aac: the same for AAC.
func P06_aac() {
	h := &u.Hook{At: v.Choose(v.Param("places", 5))}
	var ps [2]*aac.Parser
	var cs [3][3]byte
	conf := func(p *aac.Parser) (r [3]byte) {
		b := v.Bytes(2)
		r = [3]byte{b[0] >> 3, b[0]&7<<1 | b[1]>>7, b[1] >> 3 & 15}
		v.Assume(v.And(r[0] >= 1, r[0] <= 4, r[1] < 15, r[2] < 8))
		v.Assert(p.Parse(b, 0, u.NewWriter()) == nil, "a configuration is accepted")
		return r
	}
	for i := range ps {
		ps[i] = aac.NewParser()
		cs[i] = conf(ps[i])
	}
	a, b := v.Bytes(1+v.Choose(2)), v.Bytes(1)
	h.F = func() {
		c := cs[1]
		if v.Bool() {
			c = conf(ps[1])
		}
		w := u.NewWriter()
		err := ps[1].Parse(b, 1, w)
		v.Assert(err == nil && u.Eq(w.B, u.Cat(adts(c[0], c[1], c[2], len(b)), b)), "a parser writes what it would have written alone")
		cs[1] = c
	}
	w := u.NewWriter()
	c := cs[0]
	err := ps[0].Parse(a, 1, u.HookWriter{Writer: w, Hook: h})
	h.Done()
	v.Assert(err == nil && u.Eq(w.B, u.Cat(adts(c[0], c[1], c[2], len(a)), a)), "a parser writes what it would have written alone")
	for i := range ps {
		v.Assert(ps[i].SampleRate() == aacRates[cs[i][1]], "a parser reports the rate of its own stream")
	}
	v.Cover("P06 aac")
}

// P06_buffers: what is done with the buffers after they have been handed over does not matter, and packets are left unchanged.
func P06_buffers() {
	c := parser.NewCodecParser()
	s := &state{}
	conf, sets := someConfig(2)
	s.sets = sets
	p := &packet.Packet{Type: packet.PktVideo, Header: vh{avc: true, seq: true, codec: 7}, Media: conf, Data: v.Bytes(1), TimeStamp: v.U32()}
	give := func(w *u.Writer) {
		keep := append([]byte(nil), p.Media...)
		k := *p
		v.Assert(c.Parse(p, w) == nil, "a packet is parsed")
		v.Assert(u.Eq(p.Media, keep) && u.Eq(p.Data, k.Data) && p.Type == k.Type && p.TimeStamp == k.TimeStamp && p.Header == k.Header, "a packet is left unchanged")
		for i := range p.Media {
			p.Media[i] = v.U8()
		}
	}
	give(u.NewWriter())
	b := v.Bytes(2)
	o, r, ch := b[0]>>3, b[0]&7<<1|b[1]>>7, b[1]>>3&15
	v.Assume(v.And(o >= 1, o <= 4, r < 15, ch < 8))
	p.Type, p.Header, p.Media = packet.PktAudio, ah{aac: true, kind: 0}, append([]byte(nil), b...)
	give(u.NewWriter())
	for i := 0; i < 2; i++ {
		in := picture()
		want, _ := s.convert(in)
		p.Type, p.Header, p.Media = packet.PktVideo, vh{avc: true, codec: 7}, in
		w := u.NewWriter()
		give(w)
		v.Assert(u.Eq(w.B, want), "the parameter sets are those of when they came")
		f := v.Bytes(2)
		p.Type, p.Header, p.Media = packet.PktAudio, ah{aac: true, kind: 1}, append([]byte(nil), f...)
		w = u.NewWriter()
		give(w)
		v.Assert(u.Eq(w.B, u.Cat(adts(o, r, ch, len(f)), f)), "the configuration is that of when it came")
	}
	v.Cover("P06 buffers")
}
