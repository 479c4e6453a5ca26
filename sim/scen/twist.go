package main

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"math/big"

	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

// Signatures that are nearly what they should be: the same numbers written another way, or numbers that are equal
// modulo the order.

// leadingZero[i/alg] is the number of the message whose RSA signature begins with a zero byte (twist_test.go).
var leadingZero = map[string]uint64{
	"0/3":  27,
	"0/4":  31,
	"0/5":  70,
	"0/12": 12,
	"0/13": 663,
	"0/14": 4,
	"1/3":  17,
	"1/4":  413,
	"1/5":  26,
	"1/12": 719,
	"1/13": 1,
	"1/14": 280,
}

// shortSig is a message and its signature, whose first byte is zero.
func shortSig(k *signKey, i int, alg x509.SignatureAlgorithm, c uint64) ([]byte, []byte) {
	m := []byte(fmt.Sprintf("message %d", c))
	s, err := signAs(k, vsim.NewTape(c), m, alg)
	if err != nil {
		return nil, nil
	}
	return m, s
}

// knownShort is a message and a signature of k's that begins with a zero byte.
func knownShort(t *vsim.Tape, k *signKey) (x509.SignatureAlgorithm, []byte, []byte) {
	for i := 0; i < 2; i++ {
		if k.kind != "rsa" || !k.same(stdKey("rsa", i)) {
			continue
		}
		algs := k.algs()[1:]
		alg := algs[t.Int(len(algs))]
		if c, ok := leadingZero[fmt.Sprint(i, "/", int(alg))]; ok {
			m, s := shortSig(k, i, alg, c)
			return alg, m, s
		}
	}
	return 0, nil, nil
}

// twist rewrites a signature.
func twist(t *vsim.Tape, pub any, sig []byte) ([]byte, string) {
	z := make([]byte, 1+t.Int(3))
	switch t.Int(4) {
	case 0:
		return append(z, sig...), "zeros before it"
	case 1:
		return append(clone(sig), z...), "zeros after it"
	case 2:
		if len(sig) > 0 && sig[0] == 0 {
			return bytes.TrimLeft(sig, "\x00"), "its leading zeros taken away"
		}
	}
	if k, ok := pub.(*rsa.PublicKey); ok {
		v := new(big.Int).SetBytes(sig)
		if t.One(2) {
			return v.Add(v, k.N).Bytes(), "the modulus added"
		}
		v.Mod(v, k.N)
		return v.Sub(k.N, v).FillBytes(make([]byte, (k.N.BitLen()+7)/8)), "its negative"
	}
	if len(sig) == 64 { // Ed25519
		l, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		l.Add(l, new(big.Int).Lsh(one, 252))
		s := clone(sig)
		for i := 0; i < 16; i++ {
			s[32+i], s[63-i] = s[63-i], s[32+i]
		}
		v := new(big.Int).SetBytes(s[32:])
		for i := t.Int(8); i >= 0; i-- {
			v.Add(v, l)
		}
		if v.BitLen() > 256 {
			return sig, "nothing"
		}
		v.FillBytes(s[32:])
		for i := 0; i < 16; i++ {
			s[32+i], s[63-i] = s[63-i], s[32+i]
		}
		return s, "the order added"
	}
	r, s, ok := ref.ParseSig(sig)
	if !ok {
		return sig, "nothing"
	}
	raw := func(v *big.Int, zeros int) []byte {
		return tlv(2, make([]byte, zeros), readEl(bigInteger(v)).val)
	}
	switch t.Int(8) {
	case 0:
		k := (max(r.BitLen(), s.BitLen()) + 7) / 8
		if t.One(2) {
			k = max(k, 32)
		}
		return append(r.FillBytes(make([]byte, k)), s.FillBytes(make([]byte, k))...), "the numbers side by side"
	case 1:
		return seq(raw(r, t.Int(3)), raw(s, 1+t.Int(2))), "zeros before its numbers"
	case 2:
		return seq(bigInteger(r), bigInteger(s), bigInteger(r)), "a third number"
	case 3:
		return seq(bigInteger(s), bigInteger(r)), "its numbers exchanged"
	case 4:
		return seq(bigInteger(new(big.Int).Add(r, n)), bigInteger(s)), "the order added"
	case 5:
		return seq(bigInteger(r), bigInteger(new(big.Int).Add(s, n))), "the order added to s"
	case 6:
		return seq(bigInteger(r), bigInteger(new(big.Int).Sub(s, n))), "the order taken away from s"
	default: // a number whose sign is lost
		return seq(tlv(2, r.Bytes()), tlv(2, s.Bytes())), "numbers without signs"
	}
}
