package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

// Certificates built by hand and signed with the reference SM2.

type certSpec struct {
	serial    *big.Int
	subject   []byte // encoded Name
	issuer    []byte
	notBefore time.Time
	notAfter  time.Time
	pub       ref.Point
	spki      []byte // instead of pub
	ca        int    // 0 no basicConstraints, 1 CA, 2 explicitly not CA
	usage     int    // -1: no keyUsage; else the first two bytes of the bit string
	ski, aki  []byte
	extra     [][]byte // more extensions, encoded
}

func name(cn string, more ...string) []byte {
	rdns := [][]byte{}
	for _, o := range more {
		rdns = append(rdns, set(seq(oid(oidOrg), utf8s(o))))
	}
	if cn != "" {
		rdns = append(rdns, set(seq(oid(oidCN), utf8s(cn))))
	}
	return seq(rdns...)
}

func ext(id string, critical bool, val []byte) []byte {
	if critical {
		return seq(oid(id), boolean(true), octets(val))
	}
	return seq(oid(id), octets(val))
}

func (c *certSpec) tbs() []byte {
	alg := seq(oid(oidSM2SM3))
	var exts [][]byte
	if c.ski != nil {
		exts = append(exts, ext(oidSKI, false, octets(c.ski)))
	}
	if c.aki != nil {
		exts = append(exts, ext("2.5.29.35", false, seq(ctxPrim(0, c.aki))))
	}
	switch c.ca {
	case 1:
		exts = append(exts, ext(oidBasic, true, seq(boolean(true))))
	case 2:
		exts = append(exts, ext(oidBasic, true, seq()))
	}
	if c.usage >= 0 {
		b := byte(c.usage)
		unused := byte(0)
		for b != 0 && b>>unused&1 == 0 {
			unused++
		}
		exts = append(exts, ext(oidKeyUsage, true, tlv(3, []byte{unused, b})))
	}
	exts = append(exts, c.extra...)
	s := c.spki
	if s == nil {
		s = spki(c.pub)
	}
	parts := [][]byte{ctx(0, integer(2)), bigInteger(c.serial), alg, c.issuer, seq(asn1time(c.notBefore), asn1time(c.notAfter)), c.subject, s}
	if len(exts) > 0 {
		parts = append(parts, ctx(3, seq(exts...)))
	}
	return seq(parts...)
}

// certDER signs the certificate with d.
func (c *certSpec) der(t *vsim.Tape, d *big.Int) []byte {
	tbs := c.tbs()
	r, s := refSign(t, d, ref.Digest(nil, tbs, ref.BaseMult(d)))
	return seq(tbs, seq(oid(oidSM2SM3)), bits(ref.MarshalSig(r, s)))
}

// identity is a key with a certificate.
type identity struct {
	key  *sm2.PrivateKey
	der  []byte
	cert *x509.Certificate
	spec *certSpec
}

func someSerial(t *vsim.Tape) *big.Int {
	switch t.Weighted(10, 2, 2, 2, 1) {
	case 4: // 0, or less than that
		x := new(big.Int).SetBytes(t.Bytes(t.Int(20)))
		if t.One(3) {
			x.SetInt64([]int64{0, 1, 127, 128, 129, 255, 256, 32768, 32769}[t.Int(9)])
		}
		return x.Neg(x)
	case 0:
		return new(big.Int).SetBytes(append([]byte{1}, t.Bytes(t.Int(20))...))
	case 1:
		return big.NewInt(int64(1 + t.Int(300)))
	case 2:
		return new(big.Int).SetBytes(append([]byte{0x7f}, t.Bytes(19)...))
	default:
		return new(big.Int).SetBytes([]byte{0x80, byte(t.Int(256))})
	}
}

func someName(t *vsim.Tape) []byte {
	switch t.Weighted(16, 8, 4, 4, 1) {
	case 4: // long, or of many parts
		if t.One(2) {
			return name(fmt.Sprintf("n%0*d", 120+t.Int(400), t.Int(10)))
		}
		return name("many", strings.Split(strings.Repeat("part,", many(t)), ",")...)
	case 0:
		return name(fmt.Sprintf("host-%d", t.Int(1000)))
	case 1:
		return name("测试"+fmt.Sprint(t.Int(100)), "组织", "Org")
	case 2:
		return seq(set(seq(oid(oidCN), printa("printable"))), set(seq(oid("2.5.4.6"), printa("CN"))))
	default:
		return name(fmt.Sprintf("n%0*d", 1+t.Int(120), t.Int(10)))
	}
}

// newIdentity builds an end-entity identity issued by nobody in particular.
func newIdentity(t *vsim.Tape) *identity {
	d := scalar(t)
	c := &certSpec{serial: someSerial(t), subject: someName(t), issuer: someName(t), notBefore: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), notAfter: time.Date(2040+t.Int(20), 1, 1, 0, 0, 0, 0, time.UTC), pub: ref.BaseMult(d), usage: -1}
	if t.One(2) {
		c.usage = 0xc0
		c.ca = 2
		c.ski = t.Bytes(20)
	}
	if t.One(24) {
		c.extra = append(c.extra, ext("1.2.840.8", false, octets(large(t))))
	}
	return &identity{key: keyOf(d), der: c.der(t, scalar(t)), spec: c}
}

// parse makes the library's certificate; to be called inside a task.
func (id *identity) parse(w *vsim.World) *x509.Certificate {
	if id.cert == nil {
		var c *x509.Certificate
		var err error
		w.API("ParseCertificate", limSmall+int64(len(id.der))*2000, func() { c, err = x509.ParseCertificate(id.der) })
		w.Check(err == nil, "cert-parse", "a standard certificate does not parse: %v (%x)", err, id.der)
		id.cert = c
	}
	return id.cert
}

// ---- signed data, by hand ----

type p7signer struct {
	issuer  []byte
	serial  *big.Int
	attrs   [][]byte // encoded attributes, in the order sent; nil: none
	unauth  [][]byte // attributes outside the signature
	sig     []byte
	sid     []byte // encoded issuerAndSerial instead
	digest  string // the digest algorithm it names; "": SM3
	noAttrs bool
}

func attr(id string, vals ...[]byte) []byte { return seq(oid(id), set(vals...)) }

func sortSet(parts [][]byte) [][]byte {
	out := append([][]byte{}, parts...)
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if bytes.Compare(out[j], out[i]) < 0 {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func (s *p7signer) encode() []byte {
	sid := s.sid
	if sid == nil {
		sid = seq(s.issuer, bigInteger(s.serial))
	}
	alg := seq(oid(oidSM3))
	if s.digest != "" {
		alg = seq(oid(s.digest), null())
	}
	parts := [][]byte{integer(1), sid, alg}
	if s.attrs != nil {
		parts = append(parts, ctx(0, s.attrs...))
	}
	parts = append(parts, seq(oid(oidSM2Sign)), octets(s.sig))
	if s.unauth != nil {
		parts = append(parts, ctx(1, s.unauth...))
	}
	return seq(parts...)
}

func p7message(content []byte, certs [][]byte, signers [][]byte) []byte {
	return p7form{}.message(content, certs, signers)
}

// p7form is what other implementations do differently.
type p7form struct {
	absent   bool     // no content at all
	compound bool     // a constructed octet string of one piece
	crls     [][]byte // revocation lists
	noCerts  bool     // an empty set of certificates instead of none
}

func (f p7form) message(content []byte, certs [][]byte, signers [][]byte) []byte {
	ci := seq(oid(oidGMData), ctx(0, octets(content)))
	switch {
	case f.absent:
		ci = seq(oid(oidGMData))
	case f.compound:
		ci = seq(oid(oidGMData), ctx(0, ref.TLV(0x24, octets(content))))
	}
	inner := [][]byte{integer(1), set(seq(oid(oidSM3))), ci}
	if certs != nil || f.noCerts {
		inner = append(inner, ctx(0, certs...))
	}
	if f.crls != nil {
		inner = append(inner, ctx(1, f.crls...))
	}
	inner = append(inner, set(signers...))
	return seq(oid(oidGMSigned), ctx(0, seq(inner...)))
}

// someForm decides how a message with this content is put together.
func someForm(t *vsim.Tape, w *vsim.World, content []byte, issuer []byte) (f p7form) {
	if t.One(3) {
		return
	}
	if len(content) == 0 && t.One(2) {
		f.absent = true
		w.Hit("no-content")
	} else if t.One(8) {
		f.compound = true
	}
	if t.One(8) {
		for i := 1 + t.Int(2); i > 0; i-- {
			f.crls = append(f.crls, handCRL(t, issuer, t.Int(3)))
		}
		w.Hit("crls-inside")
	}
	return
}

// handCRL is a revocation list with some revoked serial numbers.
func handCRL(t *vsim.Tape, issuer []byte, revoked int) []byte {
	alg := seq(oid(oidSM2SM3))
	day := func(d int) []byte { return utctime(time.Date(2024, 5, 1+d, 0, 0, 0, 0, time.UTC)) }
	parts := [][]byte{integer(1), alg, issuer, day(0), day(20)}
	if revoked > 0 {
		var list [][]byte
		for i := 0; i < revoked; i++ {
			list = append(list, seq(bigInteger(someSerial(t)), day(t.Int(3))))
		}
		parts = append(parts, seq(list...))
	}
	tbs := seq(parts...)
	d := scalar(t)
	r, s := refSign(t, d, ref.Digest(nil, tbs, ref.BaseMult(d)))
	return seq(tbs, alg, bits(ref.MarshalSig(r, s)))
}

// p7view is signed data as a strict independent reader sees it; nil fields where it does not look as it should.
type p7view struct {
	content []byte
	certs   [][]byte
	signers []*el
	form    p7form
}

func readP7(b []byte) *p7view {
	e := readEl(b)
	if !e.is(0x30) || !e.at(0).isOID(oidGMSigned) || !e.at(1).is(0xa0) || len(e.kids) != 2 {
		return nil
	}
	sd := e.at(1, 0)
	if !sd.is(0x30) || len(sd.kids) < 4 || sd.at(0).num() == nil || !sd.at(1).is(0x31) || !sd.at(2).is(0x30) || !sd.at(2, 0).isOID(oidGMData) {
		return nil
	}
	v := &p7view{}
	switch c := sd.at(2, 1); {
	case len(sd.at(2).kids) == 1:
		v.form.absent = true
	case !c.is(0xa0):
		return nil
	case c.at(0).is(4):
		v.content = c.at(0).val
	case c.at(0).is(0x24) && len(c.at(0).kids) == 1 && c.at(0, 0).is(4):
		v.content, v.form.compound = c.at(0, 0).val, true
	default:
		return nil
	}
	for _, k := range sd.kids[3:] {
		switch k.tag {
		case 0xa0:
			for _, c := range k.kids {
				v.certs = append(v.certs, c.full)
			}
		case 0x31:
			v.signers = k.kids
		}
	}
	return v
}

// signerView is one SignerInfo.
type signerView struct {
	sid   *el
	attrs *el
	sig   []byte
}

func readSigner(e *el) *signerView {
	if !e.is(0x30) || len(e.kids) < 5 || e.at(0).num() == nil || !e.at(1).is(0x30) || !e.at(2, 0).isOID(oidSM3) {
		return nil
	}
	v := &signerView{sid: e.at(1)}
	i := 3
	if e.at(i).is(0xa0) {
		v.attrs = e.at(i)
		i++
	}
	if !e.at(i).is(0x30) || !e.at(i+1).is(4) {
		return nil
	}
	v.sig = e.at(i + 1).val
	return v
}

// signedBytes is what the signature covers when there are attributes: the SET OF encoding.
func (v *signerView) signedBytes() []byte {
	b := clone(v.attrs.full)
	b[0] = 0x31
	return b
}

func (v *signerView) attr(id string) *el {
	if v.attrs == nil {
		return nil
	}
	for _, a := range v.attrs.kids {
		if a.at(0).isOID(id) && a.at(1).is(0x31) && len(a.at(1).kids) == 1 {
			return a.at(1, 0)
		}
	}
	return nil
}
