package hts

import (
	"bytes"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"

	"verif/harness/u"
	"verif/harness/v"
)

func checkPAT(b []byte, cc byte) {
	s := section(b, 0, cc, true)
	v.Assert(s[0] == 0, "the table id of the association table")
	v.Assert(u.Eq(s[8:], []byte{0, 1, 0xf0, 1}), "the association table points to the map table")
	v.Cover("T02 pat")
}

// checkPMT checks the map table of a program with the given streams.
func checkPMT(b []byte, cc byte, video, audio bool) {
	s := section(b, 0x1001, cc, true)
	v.Assert(s[0] == 2, "the table id of the map table")
	v.Assert(u.Eq(s[3:5], []byte{0, 1}), "the program's number")
	clock := int(s[8]&0x1f)<<8 | int(s[9])
	if video {
		// the clock reference is in the video packets
		v.AssertKnown("pmt-pcr-pid", clock == 0x100, audio && clock == 0x101, "the clock reference's PID is that of the video")
	} else if audio {
		v.Assert(clock == 0x101, "the clock reference's PID is a stream of the program")
	}
	v.Assert(int(s[10]&0x0f)<<8|int(s[11]) == 0, "the program has no descriptors")
	seenV, seenA := false, false
	for i := 12; i < len(s); i += 5 {
		v.Assert(i+5 <= len(s), "the map table lists whole entries")
		pid := int(s[i+1]&0x1f)<<8 | int(s[i+2])
		v.Assert(int(s[i+3]&0x0f)<<8|int(s[i+4]) == 0, "the stream has no descriptors")
		switch {
		case s[i] == 0x1b && pid == 0x100 && !seenV:
			seenV = true
		case s[i] == 0x0f && pid == 0x101 && !seenA:
			seenA = true
		default:
			v.Assert(false, "the map table lists each stream with its type and PID")
		}
	}
	v.Assert(seenV == video && seenA == audio, "the map table lists exactly the requested streams")
	v.Cover("T02 pmt")
}

func checkSDT(b []byte, cc byte, desc []byte, concrete bool) {
	s := section(b, 0x11, cc, concrete)
	v.Assert(s[0] == 0x42, "the table id of the description table")
	v.Assert(u.Eq(s[3:5], []byte{0, 1}), "the transport stream's number")
	v.Assert(u.Eq(s[11:13], []byte{0, 1}), "the described program's number")
	v.Assert(int(s[14]&0x0f)<<8|int(s[15]) == len(desc), "the length of the descriptors")
	v.Assert(u.Eq(s[16:], desc), "the descriptors")
	v.Cover("T02 sdt")
}

var selections = [][]int{{}, {packet.PktVideo}, {packet.PktAudio}, {packet.PktVideo, packet.PktAudio}, {packet.PktAudio, packet.PktVideo}, {packet.PktMetadata}, {packet.PktVideo, 7}}

// desc is descriptors of n bytes: the last ones arbitrary, the others all different.
func desc(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if b[i] = byte(7*i + 1); i >= n-2 {
			b[i] = v.U8()
		}
	}
	return b
}

// T02_tables: any sequence of tables.
func T02_tables() {
	m := ts.NewMuxer()
	var pat, pmt, sdt byte
	n := v.Param("tables", 4)
	for i := 0; i < n; i++ {
		switch v.Choose(3) {
		case 0:
			checkPAT(m.PAT(), pat)
			pat = (pat + 1) & 15
		case 1:
			sel := selections[v.Choose(len(selections))]
			video, audio := false, false
			for _, t := range sel {
				video = video || t == packet.PktVideo
				audio = audio || t == packet.PktAudio
			}
			checkPMT(m.PMT(sel...), pmt, video, audio)
			pmt = (pmt + 1) & 15
		case 2:
			d := desc(v.Pick(0, 3, 163))
			checkSDT(m.SDT(bytes.NewBuffer(append([]byte(nil), d...))), sdt, d, false)
			sdt = (sdt + 1) & 15
		}
	}
}

// T02_sdt: descriptors of every length that fits, a shorter one after a longer one included.
func T02_sdt() {
	m := ts.NewMuxer()
	n := v.Choose(164)
	d := desc(n)
	checkSDT(m.SDT(bytes.NewBuffer(append([]byte(nil), d...))), 0, d, false)
	if v.Bool() {
		// descriptors that do not fit make no table
		b := m.SDT(bytes.NewBuffer(make([]byte, v.Pick(164, 165, 255, 256, 400))))
		v.Assert(len(b) == 0, "descriptors that do not fit make no table")
		v.Cover("T02 refused")
	}
	k := v.Choose(3)
	e := make([]byte, k)
	checkSDT(m.SDT(bytes.NewBuffer(e)), 1, e, true)
}

// T02_counters: each table's counter over many emissions, the others' in between.
func T02_counters() {
	m := ts.NewMuxer()
	n := v.Pick(15, 16, 17, 33, v.Param("emissions", 260))
	which := v.Choose(3)
	var cc [3]byte
	emit := func(t int) {
		switch t {
		case 0:
			checkPAT(m.PAT(), cc[0])
		case 1:
			checkPMT(m.PMT(packet.PktVideo), cc[1], true, false)
		case 2:
			checkSDT(m.SDT(bytes.NewBuffer(nil)), cc[2], nil, true)
		}
		cc[t] = (cc[t] + 1) & 15
	}
	for i := 0; i < n; i++ {
		emit(which)
	}
	emit(v.Choose(3))
	emit(v.Choose(3))
	emit(which)
	v.Cover("T02 counters")
}

// T02_start: the tables a mixer starts a stream with.
func T02_start() {
	w := u.NewWriter()
	m := ts.NewMixer(w)
	video, audio := false, false
	desc := []byte{}
	concrete := true
	for i := 0; i < v.Param("saves", 3); i++ {
		switch v.Choose(6) {
		case 4: // a header that is refused
			p := &packet.Packet{Type: packet.PktVideo, Header: vh{key: true, seq: true}, Media: avcConfig()[:v.Pick(0, 8, 12)]}
			v.Assert(m.SaveAVCHeader(p) != nil, "a broken header is refused")
			v.Cover("T02 refused")
		case 5:
			p := &packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: []byte{0x17, 0x80 | v.U8()}[:v.Choose(3)]}
			v.Assert(m.SaveAACHeader(p) != nil, "a broken header is refused")
		case 0:
			p := &packet.Packet{Type: packet.PktVideo, Header: vh{key: true, seq: true}, Media: avcConfig()}
			v.Assert(m.SaveAVCHeader(p) == nil, "a video header is saved")
			video = true
		case 1:
			p := &packet.Packet{Type: packet.PktAudio, Header: ah{0}, Media: []byte{0x12, 0x10}}
			v.Assert(m.SaveAACHeader(p) == nil, "an audio header is saved")
			audio = true
		case 2:
			a, b := v.Str(v.Choose(3)), v.Str(v.Choose(2))
			v.Assert(m.SaveMetadata(amf.Object{"Provider": a, "Service": b}) == nil, "metadata is saved")
			desc = u.Cat([]byte{0x48, byte(3 + len(a) + len(b)), 1, byte(len(a))}, []byte(a), []byte{byte(len(b))}, []byte(b))
			concrete = false
		}
	}
	for k := byte(0); k < 2; k++ {
		before := len(w.B)
		v.Assert(m.SetTsHeader() == nil, "a stream is started")
		b := w.B[before:]
		v.Assert(len(b) == 3*188, "a stream starts with its three tables")
		var seen [3]bool
		for i := 0; i < 3; i++ {
			t := b[188*i : 188*i+188]
			switch int(t[1]&0x1f)<<8 | int(t[2]) {
			case 0:
				checkPAT(t, k)
				seen[0] = true
			case 0x1001:
				checkPMT(t, k, video, audio)
				seen[1] = true
			default:
				checkSDT(t, k, desc, concrete)
				seen[2] = true
			}
		}
		v.Assert(seen[0] && seen[1] && seen[2], "a stream starts with its three tables")
	}
	v.Cover("T02 start")
}

func avcConfig() []byte {
	return []byte{1, 0x64, 0, 0x1f, 0xff, 0xe1, 0, 2, 0x67, 0x11, 1, 0, 2, 0x68, 0x22}
}
