package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/x509"
	"mcverif/vsim"
)

// Certificates, requests and revocation lists that are sound and properly signed but for one thing that the X.509
// profile or DER does not allow. Each must be refused: whoever reads part of it reads something that nobody stated.

type badForm struct {
	name string
	val  func(t *vsim.Tape) []byte
}

func fixed(b []byte) func(*vsim.Tape) []byte { return func(*vsim.Tape) []byte { return b } }

const notASCII = "b\xc3\xbcro.example"

// badExts are extensions with values that their types do not have, by extension.
var badExts = map[string][]badForm{
	oidKeyUsage: {
		{"a key usage that is no bit string", fixed(integer(6))},
		{"a key usage of no bits at all", fixed(tlv(3))},
		{"a key usage with 9 padding bits", fixed(tlv(3, []byte{9, 0x80}))},
		{"a key usage with set padding bits", fixed(tlv(3, []byte{3, 0x87}))},
		{"a truncated key usage", fixed([]byte{3, 4, 1, 6})},
		{"a key usage in octets", fixed(tlv(4, []byte{1, 6}))},
	},
	oidBasic: {
		{"basic constraints that are no sequence", fixed(boolean(true))},
		{"basic constraints with a boolean of 1", fixed(seq(tlv(1, []byte{1})))},
		{"basic constraints with an empty boolean", fixed(seq(tlv(1)))},
		{"basic constraints with a padded path length", fixed(seq(boolean(true), tlv(2, []byte{0, 1})))},
		{"basic constraints with an empty path length", fixed(seq(boolean(true), tlv(2)))},
		{"basic constraints with a huge path length", fixed(seq(boolean(true), tlv(2, []byte(strings.Repeat("\x7f", 12)))))},
		{"truncated basic constraints", fixed([]byte{0x30, 6, 1, 1, 0xff})},
		{"basic constraints in a set", fixed(set(boolean(true)))},
		{"basic constraints in octets", fixed(octets(boolean(true)))},
	},
	"2.5.29.17": {
		{"alternative names that are no sequence", fixed(ctxPrim(2, []byte("host.example")))},
		{"an IP address of 5 bytes", func(t *vsim.Tape) []byte { return seq(ctxPrim(7, t.Bytes(5))) }},
		{"an IP address of no bytes", fixed(seq(ctxPrim(7)))},
		{"an IP address of 8 bytes", func(t *vsim.Tape) []byte { return seq(ctxPrim(7, t.Bytes(8))) }},
		{"an IP address of 15 bytes after a host", func(t *vsim.Tape) []byte {
			return seq(ctxPrim(2, []byte("host.example")), ctxPrim(7, t.Bytes(15)))
		}},
		{"a host that is not ASCII", fixed(seq(ctxPrim(2, []byte(notASCII))))},
		{"a mailbox that is not ASCII", fixed(seq(ctxPrim(1, []byte("x@"+notASCII))))},
		{"a URI that is not ASCII", fixed(seq(ctxPrim(6, []byte("https://"+notASCII+"/"))))},
		{"a URI with a bad escape", fixed(seq(ctxPrim(6, []byte("https://example.com/%zz"))))},
		{"a URI with a bad port", fixed(seq(ctxPrim(6, []byte("https://example.com:x/"))))},
		{"a URI with an empty label", fixed(seq(ctxPrim(6, []byte("https://a..example/"))))},
		{"a URI whose host ends in a dot", fixed(seq(ctxPrim(6, []byte("https://a.example./"))))},
		{"alternative names that are a null", fixed(null())},
		{"alternative names that are an empty string", fixed(octets(nil))},
		{"alternative names that are an empty set", fixed(set())},
		{"no alternative names at all", fixed([]byte{})},
		{"a tag for alternative names", fixed([]byte{0x30})},
		{"a header for alternative names", fixed([]byte{0x30, 1})},
		{"truncated alternative names", fixed([]byte{0x30, 9, 0x82, 9, 'a', '.', 'b', 'c', 'd', 'e', 'f'})},
		{"alternative names in a set", fixed(set(ctxPrim(2, []byte("host.example"))))},
		{"alternative names in octets", fixed(octets(ctxPrim(2, []byte("host.example"))))},
	},
	"2.5.29.37": {
		{"an extended usage that is no sequence", fixed(oid("1.3.6.1.5.5.7.3.1"))},
		{"an extended usage that is no identifier", fixed(seq(integer(1)))},
		{"an extended usage with a bad identifier", fixed(seq(oid("1.3.6.1.5.5.7.3.1"), tlv(6, []byte{0x2b, 0x86})))},
		{"an extended usage with an empty identifier", fixed(seq(tlv(6)))},
		{"extended usages in a set", fixed(set(oid("1.3.6.1.5.5.7.3.1")))},
	},
	"2.5.29.32": {
		{"policies that are no sequence", fixed(oid("2.5.29.32.0"))},
		{"a policy that is no sequence", fixed(seq(oid("2.5.29.32.0")))},
		{"a policy without identifier", fixed(seq(seq()))},
		{"a policy with a padded identifier", fixed(seq(seq(oid("2.5.29.32.0")), seq(tlv(6, []byte{0x55, 0x80, 0x1d}))))},
		{"policies in a set", fixed(set(seq(oid("2.5.29.32.0"))))},
		{"a policy in a set", fixed(seq(set(oid("2.5.29.32.0"))))},
	},
	"2.5.29.31": {
		{"distribution points that are no sequence", fixed(ctxPrim(6, []byte("http://example.com/")))},
		{"a distribution point that is no sequence", fixed(seq(ctxPrim(6, []byte("http://example.com/"))))},
		{"a distribution point with names outside their choice", fixed(seq(seq(ctx(0, ctxPrim(6, []byte("http://example.com/"))))))},
		{"a distribution point with a truncated name", fixed(seq(seq(ctx(0, ctx(0, []byte{0x86, 20, 'h', 't'})))))},
		{"distribution points in a set", fixed(set(seq(ctx(0, ctx(0, ctxPrim(6, []byte("http://example.com/")))))))},
		{"a distribution point in a set", fixed(seq(set(ctx(0, ctx(0, ctxPrim(6, []byte("http://example.com/")))))))},
	},
	"2.5.29.35": {
		{"an authority key id that is no sequence", fixed(octets([]byte{1, 2, 3}))},
		{"a truncated authority key id", fixed(seq([]byte{0x80, 20, 1, 2}))},
		{"an authority key id in a set", fixed(set(ctxPrim(0, []byte{1, 2, 3})))},
	},
	oidSKI: {
		{"a subject key id that is a sequence", fixed(seq(octets([]byte{1, 2, 3})))},
		{"a truncated subject key id", fixed([]byte{4, 20, 1, 2, 3})},
		{"a subject key id of indefinite length", fixed([]byte{4, 0x80, 1, 2, 0, 0})},
		{"a subject key id in bits", fixed(bits([]byte{1, 2, 3}))},
	},
	"1.3.6.1.5.5.7.1.1": {
		{"authority information that is no sequence", fixed(oid("1.3.6.1.5.5.7.48.1"))},
		{"authority information with a description that is no sequence", fixed(seq(oid("1.3.6.1.5.5.7.48.1")))},
		{"authority information without a method", fixed(seq(seq(ctxPrim(6, []byte("http://example.com/")))))},
		{"authority information with a truncated location", fixed(seq(seq(oid("1.3.6.1.5.5.7.48.1"), []byte{0x86, 40, 'h'})))},
		{"authority information in a set", fixed(set(seq(oid("1.3.6.1.5.5.7.48.1"), ctxPrim(6, []byte("http://example.com/")))))},
		{"a description of authority information in a set", fixed(seq(set(oid("1.3.6.1.5.5.7.48.1"), ctxPrim(6, []byte("http://example.com/")))))},
	},
	"2.5.29.30": {
		{"name constraints that are no sequence", fixed(ctx(0, seq(ctxPrim(2, []byte("example.com")))))},
		{"name constraints on nothing", fixed(seq())},
		{"name constraints of empty lists", fixed(seq(ctx(0), ctx(1)))},
		{"name constraints with something after", fixed(append(seq(ctx(0, seq(ctxPrim(2, []byte("example.com"))))), 5, 0))},
		{"name constraints with a third list", fixed(seq(ctx(0, seq(ctxPrim(2, []byte("example.com")))), ctx(2)))},
		{"name constraints with a bare name", fixed(seq(ctx(0, ctxPrim(2, []byte("example.com")))))},
		{"name constraints with an empty subtree", fixed(seq(ctx(1, seq())))},
		{"name constraints in a set", fixed(set(ctx(0, seq(ctxPrim(2, []byte("example.com"))))))},
		{"a subtree in a set", fixed(seq(ctx(1, set(ctxPrim(2, []byte("example.com"))))))},
		{"permitted subtrees after excluded ones", fixed(seq(ctx(1, seq(ctxPrim(2, []byte("b.example")))), ctx(0, seq(ctxPrim(2, []byte("example.com"))))))},
		{"a host constraint that is not ASCII", constraint(2, notASCII)},
		{"a host constraint with an empty label", constraint(2, "a..example")},
		{"a host constraint that ends in a dot", constraint(2, "example.")},
		{"a host constraint with a space", constraint(2, "a b.example")},
		{"a mail constraint that is not ASCII", constraint(1, notASCII)},
		{"a mail constraint on no user", constraint(1, "@example.com")},
		{"a mail constraint on an empty label", constraint(1, "a@b..example")},
		{"a mail constraint with two dots", constraint(1, "a..b@example.com")},
		{"a mail constraint with a dot before", constraint(1, ".a@example.com")},
		{"a mail constraint with a dot after", constraint(1, "a.@example.com")},
		{"a mail constraint with a space outside quotes", constraint(1, "a b@example.com")},
		{"a mail constraint with an open quote", constraint(1, "\"a@example.com")},
		{"a mail constraint with text after the quote", constraint(1, "\"a\"b@example.com")},
		{"a mail constraint with a line break in quotes", constraint(1, "\"a\nb\"@example.com")},
		{"a mail constraint that escapes a line break", constraint(1, "\"a\\\nb\"@example.com")},
		{"a mail constraint that escapes nothing", constraint(1, "@\\")},
		{"a mail constraint whose domain ends in a dot", constraint(1, "a@example.")},
		{"a mail constraint on a domain with an empty label", constraint(1, "a..example")},
		{"a URI constraint that is not ASCII", constraint(6, notASCII)},
		{"a URI constraint that is an address", constraint(6, "10.0.0.1")},
		{"a URI constraint that is a version 6 address", constraint(6, "2001:db8::1")},
		{"a URI constraint with an empty label", constraint(6, "a..example")},
		{"a URI constraint that ends in a dot", constraint(6, "example.")},
		{"an address constraint of 4 bytes", constraint(7, "\x0a\x00\x00\x00")},
		{"an address constraint of 16 bytes", constraint(7, strings.Repeat("\x00", 16))},
		{"an address constraint of no bytes", constraint(7, "")},
		{"an address constraint with a mask of holes", constraint(7, "\x0a\x00\x00\x00\xff\x00\xff\x00")},
		{"an address constraint with a mask of low bits", constraint(7, "\x0a\x00\x00\x00\xff\xff\x0f\x00")},
		{"an address constraint with a mask without its top", constraint(7, "\x0a\x00\x00\x00\x00\xff\xff\xff")},
		{"a version 6 address constraint with a mask of holes", constraint(7, strings.Repeat("\x20", 16)+strings.Repeat("\xff", 8)+"\x01"+strings.Repeat("\x00", 7))},
	},
}

// constraint is a name constraint of one subtree, permitted or excluded, maybe beside a sound one.
func constraint(kind byte, s string) func(*vsim.Tape) []byte {
	return func(t *vsim.Tape) []byte {
		bad, good := seq(ctxPrim(kind, []byte(s))), seq(ctxPrim(2, []byte("good.example")))
		switch t.Int(4) {
		case 0:
			return seq(ctx(0, bad))
		case 1:
			return seq(ctx(1, bad))
		case 2:
			return seq(ctx(0, good, bad))
		default:
			return seq(ctx(0, good), ctx(1, good, bad))
		}
	}
}

// badExtIDs are the keys of badExts in a fixed order.
var badExtIDs = []string{oidKeyUsage, oidBasic, "2.5.29.17", "2.5.29.37", "2.5.29.32", "2.5.29.31", "2.5.29.35", oidSKI, "1.3.6.1.5.5.7.1.1", "2.5.29.30", "2.5.29.30", "2.5.29.30"}

func utc(s string) []byte   { return tlv(23, []byte(s)) }
func gtime(s string) []byte { return tlv(24, []byte(s)) }

// badTimes are times that do not exist or are not written as DER has them.
var badTimes = []badForm{
	{"30 February", fixed(utc("250230000000Z"))},
	{"29 February of a common year", fixed(utc("230229000000Z"))},
	{"month 13", fixed(utc("251301000000Z"))},
	{"month 0", fixed(utc("250001000000Z"))},
	{"day 0", fixed(utc("250100000000Z"))},
	{"hour 24", fixed(utc("250101240000Z"))},
	{"minute 60", fixed(utc("250101006000Z"))},
	{"no zone", fixed(utc("250101000000"))},
	{"no digits", fixed(utc("2501010000xxZ"))},
	{"an empty time", fixed(utc(""))},
	{"something after the time", fixed(utc("250101000000Z0"))},
	{"30 February of a four-digit year", fixed(gtime("20510230000000Z"))},
	{"month 13 of a four-digit year", fixed(gtime("20511301000000Z"))},
	{"second 61", fixed(gtime("20510101000061Z"))},
	{"no zone and a four-digit year", fixed(gtime("20510101000000"))},
	{"a time that is an integer", fixed(integer(20250101))},
	{"a time that is text", fixed(utf8s("250101000000Z"))},
}

// The last two, in place of an optional time, are skipped with what follows: so does the decoder of the language.
var badOptionalTimes = badTimes[:len(badTimes)-2]

func oneAttr(v []byte) []byte { return seq(set(seq(oid(oidCN), v))) }

// badNames are names that are not what a name is.
var badNames = []badForm{
	{"a name whose parts are sequences", fixed(seq(seq(seq(oid(oidCN), utf8s("x")))))},
	{"a name with an attribute that is no sequence", fixed(seq(set(oid(oidCN))))},
	{"a name with an attribute without value", fixed(seq(set(seq(oid(oidCN)))))},
	{"a name with an attribute without type", fixed(seq(set(seq(utf8s("x")))))},
	{"a name with an attribute of a bad type", fixed(seq(set(seq(tlv(6, []byte{0x55, 0x84}), utf8s("x")))))},
	{"a printable string with @", fixed(oneAttr(printa("x@example.com")))},
	{"a printable string with _", fixed(oneAttr(printa("a_b")))},
	{"a printable string with a byte over 127", fixed(oneAttr(printa("caf\xe9")))},
	{"a UTF-8 string that is not", fixed(oneAttr(tlv(12, []byte("a\xff\xfeb"))))},
	{"a truncated UTF-8 string", fixed(oneAttr(tlv(12, []byte("a\xe6\xb5"))))},
	{"a UTF-8 string with a surrogate", fixed(oneAttr(tlv(12, []byte("\xed\xa0\x80"))))},
	{"an IA5 string with a byte over 127", fixed(oneAttr(tlv(22, []byte("a\xe9b"))))},
	{"a numeric string with a letter", fixed(oneAttr(tlv(18, []byte("12a"))))},
	{"a numeric string with another character", func(t *vsim.Tape) []byte {
		return oneAttr(tlv(18, []byte{'1', "\x00\t-+./:,#\x1f\x7f"[t.Int(11)], '2'}[:2+t.Int(2)]))
	}},
	{"a printable string with another character", func(t *vsim.Tape) []byte {
		return oneAttr(printa("a" + "\x00\t\n!\"#$%;<>[]^`{|}~\x7f"[t.Int(20):][:1] + "b"))
	}},
	{"an IA5 string with a byte of 128", fixed(oneAttr(tlv(22, []byte("\x80"))))},
	{"a BMP string of 3 bytes", fixed(oneAttr(tlv(30, []byte("\x00a\x00"))))},
	{"a name in a set", fixed(set(set(seq(oid(oidCN), utf8s("x")))))},
	{"a name with an attribute in a set", fixed(seq(set(set(oid(oidCN), utf8s("x")))))},
	{"a name with an attribute among its parts", fixed(seq(seq(oid(oidCN), utf8s("x"))))},
}

// badSPKIs are public keys that are none.
var badSPKIs = []badForm{
	{"an RSA key without parameters", func(t *vsim.Tape) []byte { return reKey("rsa", seq(oid(oidRSA)), nil) }},
	{"an RSA key with other parameters", func(t *vsim.Tape) []byte { return reKey("rsa", seq(oid(oidRSA), integer(0)), nil) }},
	{"an RSA key of a negative modulus", fixed(seq(seq(oid(oidRSA), null()), bits(seq(tlv(2, []byte{0x80, 1, 2, 3}), integer(65537)))))},
	{"an RSA key of modulus 0", fixed(seq(seq(oid(oidRSA), null()), bits(seq(integer(0), integer(65537)))))},
	{"an RSA key of exponent 0", fixed(seq(seq(oid(oidRSA), null()), bits(seq(integer(1<<40+1), integer(0)))))},
	{"an RSA key of a negative exponent", fixed(seq(seq(oid(oidRSA), null()), bits(seq(integer(1<<40+1), integer(-3)))))},
	{"an RSA key with a padded modulus", fixed(seq(seq(oid(oidRSA), null()), bits(seq(tlv(2, []byte{0, 0x7f, 1}), integer(3)))))},
	{"an RSA key without exponent", fixed(seq(seq(oid(oidRSA), null()), bits(seq(integer(1<<40+1)))))},
	{"an RSA key that is no sequence", fixed(seq(seq(oid(oidRSA), null()), bits(integer(5))))},
	{"an RSA key in a set", fixed(seq(seq(oid(oidRSA), null()), bits(set(integer(1<<40+1), integer(3)))))},
	{"an RSA key with an exponent in octets", fixed(seq(seq(oid(oidRSA), null()), bits(seq(integer(1<<40+1), octets([]byte{3})))))},
	{"an RSA key with an exponent of 72 bits", fixed(seq(seq(oid(oidRSA), null()), bits(seq(integer(1<<40+1), tlv(2, []byte("\x01\x00\x00\x00\x00\x00\x00\x00\x03"))))))},
	{"a DSA key without parameters", fixed(seq(seq(oid(oidDSA)), bits(integer(5))))},
	{"a DSA key with two parameters", fixed(seq(seq(oid(oidDSA), seq(integer(23), integer(11))), bits(integer(5))))},
	{"a DSA key with parameters in a set", fixed(seq(seq(oid(oidDSA), set(integer(23), integer(11), integer(4))), bits(integer(5))))},
	{"a DSA key of 0", fixed(seq(seq(oid(oidDSA), seq(integer(23), integer(11), integer(4))), bits(integer(0))))},
	{"a negative DSA key", fixed(seq(seq(oid(oidDSA), seq(integer(23), integer(11), integer(4))), bits(integer(-5))))},
	{"a DSA key of prime 0", fixed(seq(seq(oid(oidDSA), seq(integer(0), integer(11), integer(4))), bits(integer(5))))},
	{"a DSA key of negative order", fixed(seq(seq(oid(oidDSA), seq(integer(23), integer(-11), integer(4))), bits(integer(5))))},
	{"a DSA key of generator 0", fixed(seq(seq(oid(oidDSA), seq(integer(23), integer(11), integer(0))), bits(integer(5))))},
	{"a DSA key in octets", fixed(seq(seq(oid(oidDSA), seq(integer(23), integer(11), integer(4))), bits(octets([]byte{5}))))},
	{"an SM2 key off the curve", func(t *vsim.Tape) []byte { return offCurve("sm2", t) }},
	{"a P-256 key off the curve", func(t *vsim.Tape) []byte { return offCurve("p256", t) }},
	{"a P-384 key off the curve", func(t *vsim.Tape) []byte { return offCurve("p384", t) }},
	{"a P-256 point stated to be on the SM2 curve", func(t *vsim.Tape) []byte {
		return reKey("p256", seq(oid(oidECKey), oid(oidSM2Curve)), nil)
	}},
	{"a P-256 point stated to be on P-384", func(t *vsim.Tape) []byte {
		return reKey("p256", seq(oid(oidECKey), oid("1.3.132.0.34")), nil)
	}},
	{"a point on an unknown curve", func(t *vsim.Tape) []byte {
		return reKey("p256", seq(oid(oidECKey), oid("1.3.132.0.10")), nil)
	}},
	{"a point on no curve", func(t *vsim.Tape) []byte { return reKey("p256", seq(oid(oidECKey)), nil) }},
	{"a point on a curve without name", func(t *vsim.Tape) []byte { return reKey("sm2", seq(oid(oidECKey), null()), nil) }},
	{"a point with a byte missing", func(t *vsim.Tape) []byte {
		return reKey("sm2", nil, func(b []byte) []byte { return b[:len(b)-1] })
	}},
	{"a point with a byte too many", func(t *vsim.Tape) []byte {
		return reKey("sm2", nil, func(b []byte) []byte { return append(b, 0) })
	}},
	{"a point in no known form", func(t *vsim.Tape) []byte {
		return reKey("sm2", nil, func(b []byte) []byte { b[0] = 5; return b })
	}},
	{"the point at infinity", func(t *vsim.Tape) []byte {
		return reKey("sm2", nil, func(b []byte) []byte { return []byte{0} })
	}},
	{"an Ed25519 key of 31 bytes", func(t *vsim.Tape) []byte {
		return reKey("ed25519", nil, func(b []byte) []byte { return b[1:] })
	}},
	{"an Ed25519 key of 33 bytes", func(t *vsim.Tape) []byte {
		return reKey("ed25519", nil, func(b []byte) []byte { return append(b, 0) })
	}},
	{"an Ed25519 key with parameters", func(t *vsim.Tape) []byte {
		return reKey("ed25519", seq(oid("1.3.101.112"), null()), nil)
	}},
	{"a key of an algorithm that is no sequence", func(t *vsim.Tape) []byte { return reKey("sm2", oid(oidECKey), nil) }},
	{"a key in octets", func(t *vsim.Tape) []byte {
		k := readEl(sm2Key(scalar(t)).spki)
		return seq(k.at(0).full, octets(k.at(1).val[1:]))
	}},
	{"no key", func(t *vsim.Tape) []byte { return seq(seq(oid(oidECKey), oid(oidSM2Curve))) }},
}

const (
	oidRSA = "1.2.840.113549.1.1.1"
	oidDSA = "1.2.840.10040.4.1"
)

func sampleKey(kind string) *signKey {
	if kind == "sm2" {
		return sm2Key(big.NewInt(123456789))
	}
	return stdKey(kind, 0)
}

// reKey is the encoding of a key with another algorithm, or with other key bytes.
func reKey(kind string, alg []byte, f func([]byte) []byte) []byte {
	k := readEl(sampleKey(kind).spki)
	if alg == nil {
		alg = k.at(0).full
	}
	b := clone(k.at(1).val[1:])
	if f != nil {
		b = f(b)
	}
	return seq(alg, bits(b))
}

func offCurve(kind string, t *vsim.Tape) []byte {
	bit := t.Int(100)
	return reKey(kind, nil, func(b []byte) []byte {
		b[len(b)-1-bit/8] ^= 1 << (bit % 8)
		return b
	})
}

// certParts are what a certificate's signed part consists of.
type certParts struct {
	version, serial, alg, issuer, validity, subject, spki []byte
	exts                                                  [][]byte
	extsRaw                                               []byte // in place of exts
	after                                                 []byte // after the certificate
	outer                                                 func(tbs []byte) []byte
}

func (p *certParts) tbs() []byte {
	x := p.extsRaw
	if x == nil && len(p.exts) > 0 {
		x = ctx(3, seq(p.exts...))
	}
	return seq(p.version, p.serial, p.alg, p.issuer, p.validity, p.subject, p.spki, x)
}

// malformed has another authority issue a certificate with one thing wrong in it.
func (c *c13world) malformed(parent *issued) {
	w, t := c.w, c.w.T
	key := someKey(t)
	tm := certTemplate(t, t.One(2))
	tm.ExtraExtensions = nil
	exts, _ := c.foreignExts(tm, parent.cert.SubjectKeyId)
	alg := someAlg(t, parent.key)
	p := &certParts{ctx(0, integer(2)), bigInteger(tm.SerialNumber), algDER(alg), parent.cert.RawSubject, seq(asn1time(tm.NotBefore), asn1time(tm.NotAfter)), richName(t), key.spki, exts, nil, nil, nil}
	var what string
	use := func(l []badForm) []byte {
		f := l[t.Int(len(l))]
		what = f.name
		return f.val(t)
	}
	without := func(id string) {
		kept := p.exts[:0]
		for _, e := range p.exts {
			if !readEl(e).at(0).isOID(id) {
				kept = append(kept, e)
			}
		}
		p.exts = kept
	}
	put := func(e []byte) {
		at := t.Int(len(p.exts) + 1)
		p.exts = append(p.exts[:at:at], append([][]byte{e}, p.exts[at:]...)...)
	}
	switch t.Weighted(12, 3, 3, 4, 3, 3) {
	case 0:
		id := badExtIDs[t.Int(len(badExtIDs))]
		v := use(badExts[id])
		without(id)
		put(ext(id, t.One(2), v))
		w.Hit("malformed-extension")
	case 1:
		b := use(badTimes)
		if t.One(2) {
			p.validity = seq(b, asn1time(tm.NotAfter))
			what += " as its beginning"
		} else {
			p.validity = seq(asn1time(tm.NotBefore), b)
			what += " as its end"
		}
		w.Hit("malformed-time")
	case 2:
		if t.One(2) {
			p.subject = use(badNames)
			what = "the subject " + what
		} else {
			p.issuer = use(badNames)
			what = "the issuer " + what
		}
		w.Hit("malformed-name")
	case 3:
		p.spki = use(badSPKIs)
		w.Hit("malformed-key")
	case 4:
		x := octets([]byte{1})
		switch t.Int(7) {
		case 0:
			what = "an extension without value"
			put(seq(oid("1.2.840.5.1")))
		case 1:
			what = "an extension with a value that is no octet string"
			put(seq(oid("1.2.840.5.1"), bits([]byte{1})))
		case 2:
			what = "an extension with a critical flag of 1"
			put(seq(oid("1.2.840.5.1"), tlv(1, []byte{1}), x))
		case 3:
			what = "an extension with an identifier that is none"
			put(seq(tlv(6, []byte{0x80, 1}), x))
		case 4:
			what = "an extension that is a set"
			put(set(oid("1.2.840.5.1"), x))
		case 5:
			what = "extensions outside their sequence"
			p.extsRaw = ctx(3, ext("1.2.840.5.1", false, []byte{5, 0}))
			p.extsRaw[2] = 0x31
		case 6:
			what = "an extension that ends too late"
			b := ext("1.2.840.5.1", false, []byte{5, 0})
			b[1] += 30
			p.exts = append(p.exts, b)
		}
		w.Hit("malformed-extensions")
	case 5:
		switch t.Int(10) {
		case 0:
			p.version, what = ctx(0, integer(3+int64(t.Int(200)))), "a version over 3"
		case 1:
			p.version, what = ctx(0, integer(-1-int64(t.Int(3)))), "a negative version"
		case 2:
			p.version, what = ctx(0, octets([]byte{2})), "a version that is no integer"
		case 3:
			p.serial, what = octets(tm.SerialNumber.Bytes()), "a serial number in octets"
		case 4:
			p.serial, what = tlv(2, append([]byte{0, 0}, tm.SerialNumber.Bytes()...)), "a padded serial number"
		case 5:
			p.serial, what = tlv(2), "an empty serial number"
		case 6:
			p.validity, what = seq(asn1time(tm.NotBefore)), "no end of its validity"
		case 7:
			p.after, what = [][]byte{{0}, null(), []byte("\n")}[t.Int(3)], "something after it"
		case 8:
			what = "a signature in octets"
			p.outer = func(cert []byte) []byte {
				e := readEl(cert)
				return seq(e.at(0).full, e.at(1).full, octets(e.at(2).val[1:]))
			}
		case 9:
			what = "a length not in its shortest form"
			p.outer = func(cert []byte) []byte {
				e := readEl(cert)
				n := len(e.val)
				return append([]byte{0x30, 0x84, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, e.val...)
			}
		}
		w.Hit("malformed-outside")
	}
	der := handSigned(t, parent.key, alg, p.tbs())
	if p.outer != nil {
		der = p.outer(der)
	}
	der = append(der, p.after...)
	how := fmt.Sprintf("a certificate by a %s key, sound but for %s,", parent.key.kind, what)
	w.Log("%s %d bytes", how, len(der))
	g := guard(der)
	var got *x509.Certificate
	var all []*x509.Certificate
	var err error
	w.API("ParseCertificate", limSmall+int64(len(der))*2000, func() { got, err = x509.ParseCertificate(g.b) })
	w.Check(err != nil, "malformed", "%s is read (%x)", how, der)
	w.Check(got == nil, "malformed", "%s is refused and given", how)
	w.Check(g.intact(), "arguments", "parsing changed the certificate's bytes")
	if t.One(3) {
		list := append(clone(parent.der), der...)
		w.API("ParseCertificates", limSmall+int64(len(list))*2000, func() { all, err = x509.ParseCertificates(list) })
		w.Check(err != nil && len(all) == 0, "malformed", "%s is read after another (%x)", how, der)
	}
}

// malformedRequest is a request with one thing wrong in it.
func (c *c14world) malformedRequest() {
	w, t := c.w, c.w.T
	key := someKey(t)
	alg := someAlg(t, key)
	subject, spki, version := richName(t), key.spki, integer(0)
	san := seq(ctxPrim(2, []byte("host.example")))
	var what string
	var after []byte
	use := func(l []badForm) []byte {
		f := l[t.Int(len(l))]
		what = f.name
		return f.val(t)
	}
	attrs := func() []byte {
		x := [][]byte{ext("2.5.29.17", t.One(3), san), ext("1.2.840.5.1", false, []byte{5, 0})}
		return ctx(0, seq(oid("1.2.840.113549.1.9.14"), set(seq(x...))))
	}
	body := attrs()
	switch t.Int(5) {
	case 0:
		subject = use(badNames)
	case 1:
		spki = use(badSPKIs)
	case 2:
		san = use(badExts["2.5.29.17"])
		body = attrs()
	case 3:
		after, what = [][]byte{{0}, null(), []byte("\n")}[t.Int(3)], "something after it"
	case 4:
		switch t.Int(3) {
		case 0:
			version, what = octets([]byte{0}), "a version that is no integer"
		case 1:
			body, what = nil, "attributes missing"
			spki = seq()
		case 2:
			body, what = ctx(0, seq(oid("1.2.840.113549.1.9.14"), set(seq(seq(oid("2.5.29.17"), integer(3)))))), "an extension with a value that is no octet string"
		}
	}
	der := append(handSigned(t, key, alg, seq(version, subject, spki, body)), after...)
	how := fmt.Sprintf("a request by a %s key, sound but for %s,", key.kind, what)
	w.Log("%s %d bytes", how, len(der))
	var got *x509.CertificateRequest
	var err error
	w.API("ParseCertificateRequest", limSmall+int64(len(der))*2000, func() { got, err = x509.ParseCertificateRequest(der) })
	w.Check(err != nil, "malformed", "%s is read (%x)", how, der)
	w.Check(got == nil, "malformed", "%s is refused and given", how)
	w.Hit("malformed-request")
}

// malformedList is a revocation list with one thing wrong in it.
func (c *c14world) malformedList() {
	w, t := c.w, c.w.T
	key := someKey(t)
	alg := someAlg(t, key)
	from := someDate(t)
	version, issuer, this, next := integer(1), richName(t), asn1time(from), asn1time(from.Add(time.Hour))
	serial, at := bigInteger(someSerial(t)), asn1time(from)
	var what string
	var after, entryExts []byte
	use := func(l []badForm) []byte {
		f := l[t.Int(len(l))]
		what = f.name
		return f.val(t)
	}
	switch t.Int(8) {
	case 0:
		issuer = use(badNames)
	case 1:
		this = use(badTimes)
		what += " as its time"
	case 2:
		next = use(badOptionalTimes)
		what += " as its next update"
	case 3:
		at = use(badTimes)
		what += " of a revocation"
	case 4:
		serial, what = octets([]byte{5}), "a serial number in octets"
	case 5:
		serial, what = tlv(2, []byte{0, 5}), "a padded serial number"
	case 6:
		after, what = [][]byte{{0}, null(), []byte("\n")}[t.Int(3)], "something after it"
	case 7:
		entryExts, what = seq(seq(oid("2.5.29.21"), integer(1))), "an entry's extension that is no octet string"
	}
	tbs := seq(version, algDER(alg), issuer, this, next, seq(seq(serial, at, entryExts)))
	der := append(handSigned(t, key, alg, tbs), after...)
	how := fmt.Sprintf("a revocation list by a %s key, sound but for %s,", key.kind, what)
	w.Log("%s %d bytes", how, len(der))
	w.API("ParseCRL", limSmall+int64(len(der))*2000, func() {
		got, err := x509.ParseCRL(der)
		w.Check(err != nil, "malformed", "%s is read (%x)", how, der)
		w.Check(got == nil, "malformed", "%s is refused and given", how)
	})
	w.Hit("malformed-list")
}
