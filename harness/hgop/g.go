// Package hgop holds the harnesses of the cache for late joiners.
package hgop

import (
	"errors"

	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/v"
)

// vh is the header of a video packet.
type vh struct{ key, inter, seq, end bool }

func (h vh) IsKeyFrame() bool       { return h.key }
func (h vh) IsInterFrame() bool     { return h.inter }
func (h vh) IsSeqHdr() bool         { return h.seq }
func (h vh) IsEndOfSeq() bool       { return h.end }
func (h vh) IsCodecAvc() bool       { return true }
func (h vh) CodecID() uint8         { return 7 }
func (h vh) CompositionTime() int32 { return 0 }

// ah is the header of an audio packet.
type ah struct{ aac, seq bool }

func (h ah) SoundFormat() uint8 { return 10 }
func (h ah) AACType() uint8 {
	if h.seq {
		return 0
	}
	return 1
}
func (h ah) IsSoundAAC() bool  { return h.aac }
func (h ah) IsSoundMP3() bool  { return !h.aac }
func (h ah) IsAACSeqHdr() bool { return h.seq }

var errSend = errors.New("receiver gone")

// sink is a receiver; it fails at packet number failAt.
type sink struct {
	got    []*packet.Packet
	failAt int
	after  int
	failed bool
}

func (s *sink) Write(p *packet.Packet) error {
	if s.failed {
		s.after++
	}
	if len(s.got) == s.failAt {
		s.failed = true
		return errSend
	}
	s.got = append(s.got, p)
	return nil
}

// model is what the cache has to hold.
type model struct {
	n                  int
	meta, video, audio *packet.Packet
	groups             [][]*packet.Packet
}

// write adds p to the model and says whether it is accepted.
func (m *model) write(p *packet.Packet) bool {
	switch p.Type {
	case packet.PktMetadata:
		m.meta = p
	case packet.PktAudio:
		if h := p.Header.(ah); h.aac && h.seq {
			m.audio = p
		}
	case packet.PktVideo:
		h := p.Header.(vh)
		switch {
		case h.seq:
			m.video = p
		case m.n <= 0:
		case h.key && !h.end:
			m.groups = append(m.groups, []*packet.Packet{p})
			if len(m.groups) > m.n {
				m.groups = m.groups[1:]
			}
		case h.inter, h.end:
			if len(m.groups) == 0 {
				return false
			}
			g := len(m.groups) - 1
			if len(m.groups[g]) >= 1024 {
				return false
			}
			m.groups[g] = append(m.groups[g], p)
		}
	}
	return true
}

// replay is what a late joiner has to receive.
func (m *model) replay() []*packet.Packet {
	var r []*packet.Packet
	for _, p := range []*packet.Packet{m.meta, m.video, m.audio} {
		if p != nil {
			r = append(r, p)
		}
	}
	for _, g := range m.groups {
		r = append(r, g...)
	}
	return r
}

func same(a, b []*packet.Packet) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func check(c *gop.Cache, m *model, label string) {
	s := &sink{failAt: -1}
	v.Assert(c.SendTo(s) == nil, "a replay to a working receiver succeeds")
	v.ObsI("replayed", int64(len(s.got)))
	v.Assert(same(s.got, m.replay()), label)
}

// somePacket is a packet of kind k.
func somePacket(k int) *packet.Packet {
	p := &packet.Packet{Type: packet.PktVideo, TimeStamp: v.U32(), Data: v.Bytes(1)}
	switch k {
	case 0:
		p.Header = vh{key: true}
	case 1:
		p.Header = vh{inter: true}
	case 2:
		p.Header = vh{key: true, seq: true}
		p.Data = v.Bytes(v.Choose(2))
	case 3:
		p.Data = v.Bytes(v.Choose(2))
		p.Type, p.Header = packet.PktAudio, ah{aac: true, seq: true}
	case 4:
		p.Type = packet.PktMetadata
		p.Data = v.Bytes(v.Choose(2))
	case 5:
		p.Type, p.Header = packet.PktAudio, ah{aac: v.Bool()}
	case 6:
		p.Header = vh{}
	case 7:
		p.Type, p.Header = packet.PktAudio, ah{seq: true}
	case 8:
		p.Header = vh{key: true, end: true}
	}
	return p
}

const replayed = "a late joiner receives the headers and the latest groups, oldest first"

// G01_history: any packets, a replay after each.
func G01_history() {
	n := 1 + v.Choose(3)
	c, m := gop.NewCache(n), &model{n: n}
	for i := 0; i < v.Param("steps", 5); i++ {
		p := somePacket(v.Pick(0, 1, 2, 3, 4, 8))
		keep := *p
		ok := m.write(p)
		v.Assert((c.Write(p) == nil) == ok, "exactly frames without a group are refused")
		v.Assert(p.TimeStamp == keep.TimeStamp && p.Type == keep.Type && len(p.Data) == len(keep.Data), "a packet is left unchanged")
		if i > 1 {
			check(c, m, replayed)
		}
	}
	check(c, m, replayed)
	check(c, m, replayed)
	v.Cover("G01 history")
}

// G01_groups: many groups of several lengths, so that each slot is used more than once.
func G01_groups() {
	n := 1 + v.Choose(v.Param("cap", 4))
	c, m := gop.NewCache(n), &model{n: n}
	if v.Bool() {
		p := somePacket(2)
		m.write(p)
		v.Assert(c.Write(p) == nil, "a header is accepted")
	}
	k := v.Choose(2*n + 2)
	long := v.Choose(2*n + 3)
	for i := 0; i < k; i++ {
		p := somePacket(0)
		m.write(p)
		v.Assert(c.Write(p) == nil, "a key frame is accepted")
		l := i % 3
		if i == long {
			l = 5
		}
		for j := 0; j < l; j++ {
			p := somePacket(1)
			m.write(p)
			v.Assert(c.Write(p) == nil, "a frame of a group is accepted")
			if j == 1 {
				p := somePacket(5 + v.Choose(3))
				m.write(p)
				v.Assert(c.Write(p) == nil, "other packets are accepted")
			}
		}
		check(c, m, replayed)
	}
	check(c, m, replayed)
	v.Cover("G01 groups")
}

// G02_full: a group that is filled up, and what follows.
func G02_full() {
	n := v.Pick(1, 2)
	c, m := gop.NewCache(n), &model{n: n}
	w := func(k int) {
		p := somePacket(k)
		ok := m.write(p)
		v.Assert((c.Write(p) == nil) == ok, "a group holds at most 1024 packets")
	}
	for i, k := 0, v.Choose(3); i < k; i++ {
		w(0)
		w(1)
	}
	w(0)
	fill := v.Pick(1021, 1022, 1023, 1024, 1025, 1030)
	p := &packet.Packet{Type: packet.PktVideo, Header: vh{inter: true}}
	for i := 0; i < fill; i++ {
		ok := m.write(p)
		v.Assert((c.Write(p) == nil) == ok, "a group holds at most 1024 packets")
	}
	check(c, m, "the cached packets stay intact")
	v.Cover("G02 full")
	for i := 0; i < 3; i++ {
		w(v.Pick(0, 1, 2, 8))
		check(c, m, "the cached packets stay intact")
	}
}

// G02_orphans: frames before any key frame.
func G02_orphans() {
	n := 1 + v.Choose(3)
	c, m := gop.NewCache(n), &model{n: n}
	for i := 0; i < v.Param("steps", 4); i++ {
		p := somePacket(v.Pick(1, 2, 3, 5, 8))
		v.Assert((c.Write(p) == nil) == m.write(p), "a frame before any key frame is refused")
	}
	check(c, m, "only headers are replayed before any key frame")
	p := somePacket(0)
	m.write(p)
	v.Assert(c.Write(p) == nil, "a key frame is accepted")
	p = somePacket(1)
	m.write(p)
	v.Assert(c.Write(p) == nil, "a frame of a group is accepted")
	check(c, m, "the cached packets stay intact")
	v.Cover("G02 orphans")
}

// G02_capacity: no capacity makes the cache panic or hold groups it was not asked for.
func G02_capacity() {
	n := v.Pick(-1<<63, -1<<31, -1024, -1, 0, 1, 2, 1000)
	c, m := gop.NewCache(n), &model{n: n}
	for i := 0; i < 4; i++ {
		k := v.Choose(4)
		if i == 0 && n > 0 {
			k = 0
		}
		p := somePacket(k)
		m.write(p)
		err := c.Write(p)
		if n > 0 {
			v.Assert(err == nil, "a frame of a group is accepted")
		}
		check(c, m, "the cache holds as many groups as asked for")
	}
	v.Cover("G02 capacity")
}

// G02_many: the cache of n groups never holds more than n, over many groups.
func G02_many() {
	n := v.Pick(1, 2, 7)
	c := gop.NewCache(n)
	k := v.Param("groups", 40) + v.Choose(n)
	var last []*packet.Packet
	for i := 0; i < k; i++ {
		p := somePacket(0)
		v.Assert(c.Write(p) == nil, "a key frame is accepted")
		last = append(last, p)
	}
	s := &sink{failAt: -1}
	v.Assert(c.SendTo(s) == nil, "a replay to a working receiver succeeds")
	v.Assert(same(s.got, last[len(last)-n:]), "the cache holds as many groups as asked for")
	v.Cover("G02 many")
}

// G03_failing: a receiver that fails on any packet.
func G03_failing() {
	n := 1 + v.Choose(2)
	c, m := gop.NewCache(n), &model{n: n}
	for i := 0; i < v.Param("steps", 5); i++ {
		p := somePacket(v.Choose(5))
		ok := m.write(p)
		v.Assert((c.Write(p) == nil) == ok, "exactly frames without a group are refused")
	}
	want := m.replay()
	s := &sink{failAt: v.Choose(len(want) + 1)}
	err := c.SendTo(s)
	if s.failAt < len(want) {
		v.Assert(err == errSend, "the replay returns the receiver's error")
		v.Assert(s.after == 0, "nothing is sent after the failure")
		v.Assert(same(s.got, want[:s.failAt]), "the packets before the failure are sent in order")
		v.Cover("G03 failing")
	} else {
		v.Assert(err == nil, "a replay to a working receiver succeeds")
	}
	check(c, m, "a later replay is complete")
	// the cache goes on as before
	p := somePacket(v.Choose(2))
	v.Assert((c.Write(p) == nil) == m.write(p), "the cache is unchanged by a failed replay")
	check(c, m, "a later replay is complete")
}

// G03_groups: the same with full slots.
func G03_groups() {
	n := 2 + v.Choose(2)
	c, m := gop.NewCache(n), &model{n: n}
	for i, k := 0, n+v.Choose(n+1); i < k; i++ {
		for j, l := 0, 1+i%2; j <= l; j++ {
			p := somePacket(b2i(j > 0))
			m.write(p)
			v.Assert(c.Write(p) == nil, "a frame of a group is accepted")
		}
	}
	want := m.replay()
	s := &sink{failAt: v.Choose(len(want))}
	v.Assert(c.SendTo(s) == errSend, "the replay returns the receiver's error")
	v.Assert(s.after == 0, "nothing is sent after the failure")
	v.Assert(same(s.got, want[:s.failAt]), "the packets before the failure are sent in order")
	check(c, m, "a later replay is complete")
	v.Cover("G03 groups")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// other has neither the methods of an audio header nor those of a video header.
type other struct{}

// G02_headers: packets whose header is missing or of another kind.
func G02_headers() {
	n := v.Choose(3)
	c, m := gop.NewCache(n), &model{n: n}
	for i := 0; i < v.Param("steps", 4); i++ {
		if v.Bool() {
			p := somePacket(v.Choose(4))
			v.Assert((c.Write(p) == nil) == m.write(p), "exactly frames without a group are refused")
			continue
		}
		p := &packet.Packet{Type: v.Pick(packet.PktVideo, packet.PktAudio), Data: v.Bytes(2)}
		switch v.Choose(3) {
		case 0:
			p.Header = other{}
		case 1:
			p.Header = ah{aac: v.Bool(), seq: v.Bool()}
			if p.Type == packet.PktAudio {
				p.Header = vh{key: v.Bool(), seq: v.Bool()}
			}
		}
		v.Assert(c.Write(p) != nil, "a packet whose header says nothing of it is refused")
		v.Cover("G02 headers")
	}
	check(c, m, "the cached packets stay intact")
}
