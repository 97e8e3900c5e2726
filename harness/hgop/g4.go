package hgop

import (
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

// hooked has a place before each packet is taken.
type hooked struct {
	*sink
	f func()
	n int
}

func (s *hooked) Write(p *packet.Packet) error {
	s.n--
	if s.n == 0 && s.f != nil {
		s.f()
		s.f = nil
	}
	return s.sink.Write(p)
}

// G04_caches: several caches, one of which is used while the other one is replayed.
func G04_caches() {
	var cs [2]*gop.Cache
	var ms [2]*model
	for i := range cs {
		n := 1 + v.Choose(2)
		cs[i], ms[i] = gop.NewCache(n), &model{n: n}
	}
	for i := 0; i < v.Param("steps", 3); i++ {
		k := i % 2
		p := somePacket(v.Pick(0, 1, 2, 3))
		if i < 2 {
			p = somePacket(0)
		}
		ok := ms[k].write(p)
		v.Assert((cs[k].Write(p) == nil) == ok, "a cache works while others are used")
		if v.Bool() {
			// one packet in both
			ok := ms[1-k].write(p)
			v.Assert((cs[1-k].Write(p) == nil) == ok, "a cache works while others are used")
		}
	}
	want := ms[0].replay()
	s := &hooked{sink: &sink{failAt: -1}, n: 1 + v.Choose(len(want))}
	what := v.Choose(2)
	s.f = func() {
		if what == 0 {
			check(cs[1], ms[1], "a cache is replayed while another one is")
			return
		}
		p := somePacket(v.Pick(0, 1, 2))
		ok := ms[1].write(p)
		v.Assert((cs[1].Write(p) == nil) == ok, "a cache works while others are used")
	}
	v.Assert(cs[0].SendTo(s) == nil && same(s.got, want), "a cache sends what it would have sent alone")
	check(cs[1], ms[1], "a cache sends what it would have sent alone")
	check(cs[0], ms[0], "a cache sends what it would have sent alone")
	v.Cover("G04 caches")
}

// G04_packets: the packets are sent on as they came, to any number of receivers.
func G04_packets() {
	c := gop.NewCache(1 + v.Choose(2))
	var ps []*packet.Packet
	var ks []packet.Packet
	n := 0
	for i := 0; i < v.Param("packets", 4); i++ {
		p := somePacket(v.Pick(0, 1, 2, 3, 4))
		if i == 0 {
			p = somePacket(0)
		}
		p.Media, p.Baseline, p.StreamID = v.Bytes(1), v.U32(), v.U32()
		k := *p
		k.Data, k.Media = append([]byte(nil), p.Data...), append([]byte(nil), p.Media...)
		ps, ks = append(ps, p), append(ks, k)
		v.Assert(c.Write(p) == nil, "a packet is accepted")
	}
	for j := 0; j < 2; j++ {
		s := &sink{failAt: -1}
		v.Assert(c.SendTo(s) == nil, "a replay to a working receiver succeeds")
		n = len(s.got)
	}
	for i, p := range ps {
		k := ks[i]
		v.Assert(p.Type == k.Type && p.TimeStamp == k.TimeStamp && p.Baseline == k.Baseline && p.StreamID == k.StreamID, "a packet is left unchanged")
		v.Assert(p.Header == k.Header && u.Eq(p.Data, k.Data) && u.Eq(p.Media, k.Media), "a packet is left unchanged")
	}
	v.ObsI("sent", int64(n))
	v.Cover("G04 packets")
}
