package hts

import (
	"github.com/moggle-mog/goav/container/ts"

	"verif/harness/u"
	"verif/harness/v"
)

// vh is the header of a video packet.
type vh struct {
	key, seq bool
	ct       int32
}

func (h vh) IsKeyFrame() bool       { return h.key }
func (h vh) IsInterFrame() bool     { return !h.key }
func (h vh) IsSeqHdr() bool         { return h.seq }
func (h vh) IsEndOfSeq() bool       { return false }
func (h vh) IsCodecAvc() bool       { return true }
func (h vh) CodecID() uint8         { return 7 }
func (h vh) CompositionTime() int32 { return h.ct }

// ah is the header of an audio packet.
type ah struct{ kind uint8 }

func (h ah) SoundFormat() uint8 { return 10 }
func (h ah) AACType() uint8     { return h.kind }
func (h ah) IsSoundAAC() bool   { return true }
func (h ah) IsSoundMP3() bool   { return false }
func (h ah) IsAACSeqHdr() bool  { return h.kind == 0 }

// pkt is one TS packet taken apart.
type pkt struct {
	pid     int
	start   bool
	cc      byte
	af      bool
	afLen   int
	flags   byte
	pcr     []byte // six bytes when the packet carries a clock reference
	payload []byte
}

// packets takes the packets of b apart.
func packets(b []byte) []pkt {
	v.Assert(len(b)%188 == 0, "the output is whole packets")
	var r []pkt
	for i := 0; i < len(b); i += 188 {
		r = append(r, parse(b[i:i+188]))
	}
	return r
}

func parse(b []byte) pkt {
	v.Assert(b[0] == 0x47, "a packet starts with the sync byte")
	v.Assert(b[1]&0x80 == 0, "a packet is not marked as broken")
	v.Assert(b[3]&0xc0 == 0, "a packet is not marked as scrambled")
	v.Assert(b[3]&0x10 != 0, "a packet carries payload")
	p := pkt{pid: int(b[1]&0x1f)<<8 | int(b[2]), start: b[1]&0x40 != 0, cc: b[3] & 15, af: b[3]&0x20 != 0}
	at := 4
	if p.af {
		p.afLen = int(b[4])
		at = 5 + p.afLen
		v.Assert(at < 188, "the adaptation field leaves room for payload")
		if p.afLen > 0 {
			p.flags = b[5]
			pos := 6
			if p.flags&0x10 != 0 {
				v.Assert(p.afLen >= 7, "the adaptation field holds its clock reference")
				p.pcr = b[6:12]
				pos = 12
			}
			v.Assert(p.flags&0x0f == 0, "the adaptation field has no other parts")
			for ; pos < at; pos++ {
				v.Assert(b[pos] == 0xff, "the rest of the adaptation field is stuffing")
			}
		}
	}
	p.payload = b[at:]
	return p
}

// join is the concatenation of the payloads.
func join(ps []pkt) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, p.payload...)
	}
	return b
}

// crcOf is the checksum of b; concrete says that b has no symbolic bytes.
func crcOf(b []byte, concrete bool) uint32 {
	if !concrete {
		return ts.GenerateCrc32(b)
	}
	return crcSpec(b)
}

// section takes the packet of a table apart and returns its section without the checksum.
func section(b []byte, pid int, cc byte, concrete bool) []byte {
	v.Assert(len(b) == 188, "a table is one packet")
	p := parse(b)
	v.Assert(p.pid == pid, "the table's PID")
	v.Assert(p.start && !p.af, "a table starts with its packet")
	v.Assert(p.cc == cc, "the continuity counter of the table advances by one")
	v.Assert(p.payload[0] == 0, "the section follows the pointer")
	s := p.payload[1:]
	v.Assert(s[1]&0x80 != 0, "the section has the long form")
	n := 3 + int(s[1]&0x0f)<<8 + int(s[2])
	v.Assert(n >= 12 && n <= len(s), "the section fits the packet")
	v.Assert(u.Eq(s[n-4:n], u.BE(uint64(crcOf(s[:n-4], concrete)), 4)), "the checksum of the section")
	for i := n; i < len(s); i++ {
		v.Assert(s[i] == 0xff, "the rest of the packet is padding")
	}
	v.Assert(s[5]&1 == 1, "the table is current")
	v.Assert(s[6] == 0 && s[7] == 0, "the table has one section")
	return s[:n-4]
}

// encTS is a timestamp as PES headers carry it.
func encTS(prefix byte, t uint64) []byte {
	return []byte{
		prefix<<4 | byte(t>>29)&0x0e | 1,
		byte(t >> 22), byte(t>>14) | 1,
		byte(t >> 7), byte(t<<1) | 1,
	}
}

// pesHeader is the header the standard prescribes.
func pesHeader(video bool, size int, pts, dts uint64) []byte {
	both := video && pts != dts
	n := 3 + 5 + size
	sid, flags, hl := byte(0xc0), byte(0x80), byte(5)
	if video {
		sid = 0xe0
	}
	if both {
		n, flags, hl = n+5, 0xc0, 10
	}
	if n > 0xffff {
		n = 0
	}
	b := u.Cat([]byte{0, 0, 1, sid}, u.BE(uint64(n), 2), []byte{0x80, flags, hl})
	if both {
		return u.Cat(b, encTS(3, pts), encTS(1, dts))
	}
	return u.Cat(b, encTS(2, pts))
}
