// Package ref holds small reference implementations, written from the standards (GB/T 32905, GB/T 32918,
// RFC 7292, RFC 2268) and independently of the code under test, that the simulator's oracles compare with.
package ref

import "math/bits"

var sm3T [64]uint32

func init() {
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		sm3T[j] = bits.RotateLeft32(t, j%32)
	}
}

func sm3Compress(v *[8]uint32, b []byte) {
	var w [68]uint32
	for i := 0; i < 16; i++ {
		w[i] = uint32(b[4*i])<<24 | uint32(b[4*i+1])<<16 | uint32(b[4*i+2])<<8 | uint32(b[4*i+3])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ bits.RotateLeft32(w[j-3], 15)
		x ^= bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23)
		w[j] = x ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	a, bb, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		a12 := bits.RotateLeft32(a, 12)
		ss1 := bits.RotateLeft32(a12+e+sm3T[j], 7)
		ss2 := ss1 ^ a12
		var ff, gg uint32
		if j < 16 {
			ff, gg = a^bb^c, e^f^g
		} else {
			ff, gg = (a&bb)|(a&c)|(bb&c), (e&f)|(^e&g)
		}
		tt1 := ff + d + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + h + ss1 + w[j]
		d, c, bb, a = c, bits.RotateLeft32(bb, 9), a, tt1
		h, g, f = g, bits.RotateLeft32(f, 19), e
		e = tt2 ^ bits.RotateLeft32(tt2, 9) ^ bits.RotateLeft32(tt2, 17)
	}
	v[0] ^= a
	v[1] ^= bb
	v[2] ^= c
	v[3] ^= d
	v[4] ^= e
	v[5] ^= f
	v[6] ^= g
	v[7] ^= h
}

// SM3 is the digest of the concatenation of parts.
func SM3(parts ...[]byte) []byte {
	v := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	var m []byte
	if len(parts) == 1 {
		m = parts[0]
	} else {
		for _, p := range parts {
			m = append(m, p...)
		}
	}
	n := len(m)
	full := n / 64 * 64
	for i := 0; i < full; i += 64 {
		sm3Compress(&v, m[i:i+64])
	}
	tail := append([]byte(nil), m[full:]...)
	tail = append(tail, 0x80)
	for len(tail)%64 != 56 {
		tail = append(tail, 0)
	}
	l := uint64(n) * 8
	for i := 7; i >= 0; i-- {
		tail = append(tail, byte(l>>(8*uint(i))))
	}
	for i := 0; i < len(tail); i += 64 {
		sm3Compress(&v, tail[i:i+64])
	}
	out := make([]byte, 32)
	for i, x := range v {
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
	}
	return out
}
