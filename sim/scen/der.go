package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"mcverif/ref"
)

// ---- writing DER ----

func tlv(tag byte, parts ...[]byte) []byte { return ref.TLV(tag, bytes.Join(parts, nil)) }
func seq(parts ...[]byte) []byte           { return tlv(0x30, parts...) }
func set(parts ...[]byte) []byte           { return tlv(0x31, parts...) }
func octets(b []byte) []byte               { return tlv(4, b) }
func bits(b []byte) []byte                 { return tlv(3, []byte{0}, b) }
func ctx(n byte, parts ...[]byte) []byte   { return tlv(0xa0|n, parts...) }
func ctxPrim(n byte, parts ...[]byte) []byte {
	return tlv(0x80|n, parts...)
}
func null() []byte           { return []byte{5, 0} }
func boolean(v bool) []byte  { return tlv(1, map[bool][]byte{true: {0xff}, false: {0}}[v]) }
func utf8s(s string) []byte  { return tlv(12, []byte(s)) }
func printa(s string) []byte { return tlv(19, []byte(s)) }
func integer(v int64) []byte { return bigInteger(big.NewInt(v)) }
func utctime(t time.Time) []byte {
	return tlv(23, []byte(t.UTC().Format("060102150405Z")))
}
func gentime(t time.Time) []byte {
	return tlv(24, []byte(t.UTC().Format("20060102150405Z")))
}
func asn1time(t time.Time) []byte {
	if y := t.UTC().Year(); y >= 1950 && y < 2050 {
		return utctime(t)
	}
	return gentime(t)
}

func bigInteger(x *big.Int) []byte {
	b := x.Bytes()
	if x.Sign() < 0 { // two's complement in as few bytes as hold it
		n := new(big.Int).Not(x).BitLen()/8 + 1
		return tlv(2, new(big.Int).Add(x, new(big.Int).Lsh(one, uint(8*n))).FillBytes(make([]byte, n)))
	}
	if len(b) == 0 || b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return tlv(2, b)
}

func oid(s string) []byte {
	var arcs []uint64
	for _, f := range strings.Split(s, ".") {
		var v uint64
		fmt.Sscan(f, &v)
		arcs = append(arcs, v)
	}
	out := []byte{}
	put := func(v uint64) {
		var tmp []byte
		tmp = append(tmp, byte(v&0x7f))
		for v >>= 7; v > 0; v >>= 7 {
			tmp = append(tmp, byte(v&0x7f)|0x80)
		}
		for i := len(tmp) - 1; i >= 0; i-- {
			out = append(out, tmp[i])
		}
	}
	put(arcs[0]*40 + arcs[1])
	for _, a := range arcs[2:] {
		put(a)
	}
	return tlv(6, out)
}

const (
	oidECKey      = "1.2.840.10045.2.1"
	oidSM2Curve   = "1.2.156.10197.1.301"
	oidSM2        = "1.2.156.10197.1.301"
	oidSM2SM3     = "1.2.156.10197.1.501"
	oidSM2Sign    = "1.2.156.10197.1.301.1"
	oidSM3        = "1.2.156.10197.1.401"
	oidGMData     = "1.2.156.10197.6.1.4.2.1"
	oidGMSigned   = "1.2.156.10197.6.1.4.2.2"
	oidCN         = "2.5.4.3"
	oidOrg        = "2.5.4.10"
	oidAttrType   = "1.2.840.113549.1.9.3"
	oidAttrDigest = "1.2.840.113549.1.9.4"
	oidAttrTime   = "1.2.840.113549.1.9.5"
	oidBasic      = "2.5.29.19"
	oidKeyUsage   = "2.5.29.15"
	oidSKI        = "2.5.29.14"
)

// ---- reading DER ----

// el is one element of a strictly read DER encoding.
type el struct {
	tag  byte
	val  []byte
	full []byte
	kids []*el
}

// readEl strictly reads one element and, if constructed, everything in it; nil if b is anything else.
func readEl(b []byte) *el {
	e, rest := readOne(b, 0)
	if e == nil || len(rest) != 0 {
		return nil
	}
	return e
}

func readOne(b []byte, depth int) (*el, []byte) {
	tag, val, full, rest, ok := ref.ReadTLV(b)
	if !ok || depth > 40 {
		return nil, nil
	}
	e := &el{tag: tag, val: val, full: full}
	if tag&0x20 != 0 {
		for r := val; len(r) > 0; {
			var k *el
			k, r = readOne(r, depth+1)
			if k == nil {
				return nil, nil
			}
			e.kids = append(e.kids, k)
		}
	}
	return e, rest
}

// at walks down by child indices.
func (e *el) at(path ...int) *el {
	for _, i := range path {
		if e == nil || i >= len(e.kids) {
			return nil
		}
		e = e.kids[i]
	}
	return e
}

func (e *el) is(tag byte) bool { return e != nil && e.tag == tag }

func (e *el) isOID(s string) bool { return e != nil && bytes.Equal(e.full, oid(s)) }

func (e *el) num() *big.Int {
	if !e.is(2) || len(e.val) == 0 {
		return nil
	}
	x := new(big.Int).SetBytes(e.val)
	if e.val[0]&0x80 != 0 {
		x.Sub(x, new(big.Int).Lsh(one, uint(8*len(e.val))))
	}
	return x
}

// bitsOf is the content of a BIT STRING of whole bytes.
func (e *el) bitsOf() []byte {
	if !e.is(3) || len(e.val) < 1 || e.val[0] != 0 {
		return nil
	}
	return e.val[1:]
}

// time reads a UTCTime or GeneralizedTime in the forms DER allows.
func (e *el) time() (time.Time, bool) {
	if e == nil {
		return time.Time{}, false
	}
	switch e.tag {
	case 23:
		t, err := time.Parse("060102150405Z", string(e.val))
		if err == nil && t.Year() >= 2050 {
			t = t.AddDate(-100, 0, 0)
		}
		return t, err == nil
	case 24:
		t, err := time.Parse("20060102150405Z", string(e.val))
		return t, err == nil
	}
	return time.Time{}, false
}

// ---- the standard's view of SM2 keys ----

func point04(q ref.Point) []byte {
	return bytes.Join([][]byte{{4}, ref.B32(q.X), ref.B32(q.Y)}, nil)
}

func spki(q ref.Point) []byte { return spkiRaw(point04(q)) }

func spkiRaw(p []byte) []byte { return seq(seq(oid(oidECKey), oid(oidSM2Curve)), bits(p)) }

// sec1 encodes a private key; d as the bytes given.
func sec1(d []byte, curve string, pub []byte) []byte {
	parts := [][]byte{integer(1), octets(d)}
	if curve != "" {
		parts = append(parts, ctx(0, oid(curve)))
	}
	if pub != nil {
		parts = append(parts, ctx(1, bits(pub)))
	}
	return seq(parts...)
}

func pkcs8(inner []byte) []byte {
	return seq(integer(0), seq(oid(oidECKey), oid(oidSM2Curve)), octets(inner))
}

// checkPKCS8 says how an encoding departs from PKCS#8 / RFC 5915 for SM2 key d, or "".
func checkPKCS8(b []byte, d *big.Int) string {
	e := readEl(b)
	if !e.is(0x30) || len(e.kids) < 3 {
		return "not a PKCS#8 sequence in DER"
	}
	if v := e.at(0).num(); v == nil || v.Sign() != 0 {
		return "version is not 0"
	}
	if !e.at(1, 0).isOID(oidECKey) || !e.at(1, 1).isOID(oidSM2Curve) {
		return "algorithm is not ecPublicKey on the SM2 curve"
	}
	if !e.at(2).is(4) {
		return "no OCTET STRING"
	}
	return checkSEC1(e.at(2).val, d)
}

func checkSEC1(b []byte, d *big.Int) string {
	k := readEl(b)
	if !k.is(0x30) || len(k.kids) < 2 {
		return "inner key is not an ECPrivateKey in DER"
	}
	if v := k.at(0).num(); v == nil || v.Int64() != 1 {
		return "inner version is not 1"
	}
	if !k.at(1).is(4) || !bytes.Equal(k.at(1).val, ref.B32(d)) {
		return fmt.Sprintf("private key octets are %x, not the 32 bytes of d", k.at(1).val)
	}
	for _, o := range k.kids[2:] {
		switch o.tag {
		case 0xa0:
			if !o.at(0).isOID(oidSM2Curve) {
				return "inner curve is not SM2"
			}
		case 0xa1:
			if !bytes.Equal(o.at(0).bitsOf(), point04(ref.BaseMult(d))) {
				return "inner public key is not d*G"
			}
		default:
			return "unknown field in ECPrivateKey"
		}
	}
	return ""
}
