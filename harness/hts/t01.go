package hts

import (
	"github.com/moggle-mog/goav/container/ts"

	"verif/harness/v"
)

// crcSpec is CRC-32/MPEG-2 computed bit by bit from its definition.
func crcSpec(b []byte) uint32 {
	r := uint32(0xffffffff)
	for _, x := range b {
		r ^= uint32(x) << 24
		for k := 0; k < 8; k++ {
			top := r >> 31
			r = r<<1 ^ (0x04c11db7 & -top)
		}
	}
	return r
}

// T01_crc: every input of each length up to the bound.
func T01_crc() {
	n := v.Choose(v.Param("n", 24) + 1)
	b := v.Bytes(n)
	got := ts.GenerateCrc32(b)
	v.ObsI("crc", int64(got))
	v.Assert(got == crcSpec(b), "crc equals CRC-32/MPEG-2")
	v.Cover("T01 crc")
}

// T01_long: longer inputs, with arbitrary bytes at both ends, in the middle and around the limits of the counters.
func T01_long() {
	n := v.Pick(180, 183, 255, 256, 257, 1021, 1024, 4096, 4097)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1, 255 % n} {
		b[i] = v.U8()
	}
	got := ts.GenerateCrc32(b)
	v.ObsI("crc", int64(got))
	v.Assert(got == crcSpec(b), "crc equals CRC-32/MPEG-2")
	v.Cover("T01 long")
}
