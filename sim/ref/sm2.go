package ref

import (
	"bytes"
	"math/big"
)

// DefaultID is the default signer id.
var DefaultID = []byte("1234567812345678")

// Z is the hash of the signer's id, the curve and the public key.
func Z(id []byte, pub Point) []byte {
	if len(id) == 0 {
		id = DefaultID
	}
	bits := len(id) * 8
	return SM3([]byte{byte(bits >> 8), byte(bits)}, id, B32(A), B32(B), B32(Gx), B32(Gy), B32(pub.X), B32(pub.Y))
}

// Digest is the digest that is signed for message msg.
func Digest(id, msg []byte, pub Point) []byte { return SM3(Z(id, pub), msg) }

// VerifyDigest decides whether (r,s) is a valid signature of the digest.
func VerifyDigest(pub Point, digest []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, N)
	if t.Sign() == 0 {
		return false
	}
	a := baseJac(s)
	pj := toJac(pub)
	b := mulJac(&pj, t)
	a.add(&a, &b)
	q := a.affine()
	if q.Inf() {
		return false
	}
	v := new(big.Int).SetBytes(digest)
	v.Add(v, q.X)
	v.Mod(v, N)
	return v.Cmp(r) == 0
}

// VerifyMsg decides whether sig is a valid DER signature of msg.
func VerifyMsg(pub Point, id, msg, sig []byte) bool {
	r, s, ok := ParseSig(sig)
	return ok && VerifyDigest(pub, Digest(id, msg, pub), r, s)
}

// SignDigest signs with nonce k; ok is false when the standard demands another nonce.
func SignDigest(d, k *big.Int, digest []byte) (r, s *big.Int, ok bool) {
	q := BaseMult(k)
	r = new(big.Int).SetBytes(digest)
	r.Add(r, q.X)
	r.Mod(r, N)
	if r.Sign() == 0 || new(big.Int).Add(r, k).Cmp(N) == 0 {
		return nil, nil, false
	}
	s = new(big.Int).Mul(r, d)
	s.Sub(k, s)
	inv := new(big.Int).Add(d, one)
	inv.ModInverse(inv, N)
	s.Mul(s, inv)
	s.Mod(s, N)
	return r, s, s.Sign() != 0
}

// Nonce recovers the one-time scalar of signature (r,s): k = s(1+d) + rd mod n.
func Nonce(d, r, s *big.Int) *big.Int {
	k := new(big.Int).Add(d, one)
	k.Mul(k, s)
	k.Add(k, new(big.Int).Mul(r, d))
	return k.Mod(k, N)
}

func derInt(x *big.Int) []byte {
	var b []byte
	if x.Sign() >= 0 {
		b = x.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
	} else {
		n := len(x.Bytes())
		v := new(big.Int).Add(new(big.Int).Lsh(one, uint(8*n)), x)
		b = v.FillBytes(make([]byte, n+1))[1:]
		if b[0]&0x80 == 0 {
			b = append([]byte{0xff}, b...)
		}
	}
	return TLV(2, b)
}

// TLV encodes one DER element.
func TLV(tag byte, val []byte) []byte {
	out := []byte{tag}
	n := len(val)
	switch {
	case n < 128:
		out = append(out, byte(n))
	case n < 256:
		out = append(out, 0x81, byte(n))
	case n < 65536:
		out = append(out, 0x82, byte(n>>8), byte(n))
	default:
		out = append(out, 0x83, byte(n>>16), byte(n>>8), byte(n))
	}
	return append(out, val...)
}

// MarshalSig is the DER form of a signature.
func MarshalSig(r, s *big.Int) []byte { return TLV(0x30, append(derInt(r), derInt(s)...)) }

// ReadTLV strictly reads one definite-length, minimally encoded, low-tag DER element.
func ReadTLV(b []byte) (tag byte, val, full, rest []byte, ok bool) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return
	}
	tag = b[0]
	n, h := int(b[1]), 2
	if b[1]&0x80 != 0 {
		c := int(b[1] & 0x7f)
		if c == 0 || c > 4 || len(b) < 2+c {
			return
		}
		n = 0
		for i := 0; i < c; i++ {
			n = n<<8 | int(b[2+i])
		}
		h = 2 + c
		if n < 128 || (c > 1 && n>>(8*uint(c-1)) == 0) {
			return
		}
	}
	if n < 0 || len(b)-h < n {
		return
	}
	return tag, b[h : h+n], b[:h+n], b[h+n:], true
}

func parseInt(b []byte) (x *big.Int, rest []byte, ok bool) {
	tag, v, _, rest, ok := ReadTLV(b)
	if !ok || tag != 2 || len(v) == 0 {
		return nil, nil, false
	}
	if len(v) > 1 && (v[0] == 0 && v[1]&0x80 == 0 || v[0] == 0xff && v[1]&0x80 != 0) {
		return nil, nil, false
	}
	x = new(big.Int).SetBytes(v)
	if v[0]&0x80 != 0 {
		x.Sub(x, new(big.Int).Lsh(one, uint(8*len(v))))
	}
	return x, rest, true
}

// ParseSig strictly parses a DER signature.
func ParseSig(b []byte) (r, s *big.Int, ok bool) {
	tag, v, _, rest, ok := ReadTLV(b)
	if !ok || tag != 0x30 || len(rest) != 0 {
		return nil, nil, false
	}
	r, v, ok = parseInt(v)
	if !ok {
		return nil, nil, false
	}
	s, v, ok = parseInt(v)
	if !ok || len(v) != 0 {
		return nil, nil, false
	}
	return r, s, true
}

// KDF derives n bytes from the shared point.
func KDF(q Point, n int) []byte {
	var out []byte
	for ct := uint32(1); len(out) < n; ct++ {
		out = append(out, SM3(B32(q.X), B32(q.Y), []byte{byte(ct >> 24), byte(ct >> 16), byte(ct >> 8), byte(ct)})...)
	}
	return out[:n]
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// Encrypt encrypts with ephemeral scalar k as 04||C1||C3||C2; ok is false if the key stream is all zero.
func Encrypt(pub Point, k *big.Int, msg []byte) (ct []byte, ok bool) {
	c1 := BaseMult(k)
	q := Mult(pub, k)
	t := KDF(q, len(msg))
	if len(msg) > 0 && allZero(t) {
		return nil, false
	}
	ct = append([]byte{4}, B32(c1.X)...)
	ct = append(ct, B32(c1.Y)...)
	ct = append(ct, SM3(B32(q.X), msg, B32(q.Y))...)
	for i := range msg {
		ct = append(ct, msg[i]^t[i])
	}
	return ct, true
}

// Decrypt decrypts 04||C1||C3||C2.
func Decrypt(d *big.Int, ct []byte) (msg []byte, ok bool) {
	if len(ct) < 97 || ct[0] != 4 {
		return nil, false
	}
	x, y := new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65])
	if !OnCurve(x, y) {
		return nil, false
	}
	q := Mult(Point{x, y}, d)
	if q.Inf() {
		return nil, false
	}
	c2 := ct[97:]
	t := KDF(q, len(c2))
	if len(c2) > 0 && allZero(t) {
		return nil, false
	}
	msg = make([]byte, len(c2))
	for i := range c2 {
		msg[i] = c2[i] ^ t[i]
	}
	return msg, bytes.Equal(SM3(B32(q.X), msg, B32(q.Y)), ct[65:97])
}
