package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

// Every exported operation in one table, each built from a seed and from objects shared by all callers.

// pool holds the shared objects.
type pool struct {
	ids   []*identity // parsed by the library
	keys  []*signKey
	msgs  [][]byte
	mails [][]byte
	p7s   []*x509.PKCS7
	certs []*x509.Certificate // of several kinds; keys[i] holds the key of certs[i]
	csrs  []*x509.CertificateRequest
	crls  []*pkix.CertificateList
	reqs  [][]byte
	lists [][]byte
	kss   []*keystore
	sigs  [][]byte // sigs[i] is ids[i%len]'s signature of msgs[i%len] under uids[i%3]
	cts   [][]byte
	uids  [][]byte
	sks   []*sm2.PrivateKey
}

const pools = 3

func newPool(w *vsim.World, seed uint64) *pool {
	t := vsim.NewTape(vsim.Mix(0x900ddeed, seed))
	t0 := t
	if seed > 0 { // what the pools share in part: names and serial numbers, beginnings of messages, X of keys
		t0 = vsim.NewTape(vsim.Mix(0x900ddeed, 0))
	}
	p := &pool{uids: [][]byte{nil, []byte("1234567812345678"), t0.Bytes(20)}}
	for i := 0; i < 2; i++ {
		id := newIdentity(t0)
		if seed > 0 {
			d := scalar(t)
			if seed == 1 {
				d = new(big.Int).Sub(n, id.key.D)
			} else if seed == 2 { // shares part of its bits
				d = kin(t, id.key.D, i)
			}
			if d.Cmp(new(big.Int).Sub(n, one)) == 0 {
				d.SetInt64(5)
			}
			id.key, id.spec.pub = keyOf(d), ref.BaseMult(d)
			id.der = id.spec.der(t, scalar(t))
		}
		id.parse(w)
		p.ids = append(p.ids, id)
		p.sks = append(p.sks, id.key)
	}
	p.msgs = [][]byte{t0.Bytes(10), t0.Bytes(64), {}, t0.Bytes(300)}
	if seed > 0 {
		p.uids[2][19] ^= byte(seed)
		for _, m := range p.msgs {
			if len(m) > 0 {
				m[len(m)-1] ^= byte(seed)
			}
		}
	}
	for i, m := range p.msgs {
		id := p.ids[i%2]
		uid := p.uids[i%3]
		q := ref.BaseMult(id.key.D)
		r, s := refSign(t, id.key.D, ref.Digest(uid, m, q))
		p.sigs = append(p.sigs, ref.MarshalSig(r, s))
		if len(m) > 0 {
			c1 := ref.BaseMult(scalar(t))
			c3, c2 := seal(id.key.D, c1, m)
			p.cts = append(p.cts, bytes.Join([][]byte{point04(c1), c3, c2}, nil))
		}
		// signed data
		var attrs [][]byte
		if i != 1 {
			attrs = sortSet([][]byte{attr("1.2.840.113549.1.9.3", oid(oidGMData)), attr("1.2.840.113549.1.9.4", octets(ref.SM3(m)))})
		}
		s0 := &p7signer{issuer: id.spec.issuer, serial: id.spec.serial, attrs: attrs}
		in := m
		if attrs != nil {
			in = set(attrs...)
		}
		r, s = refSign(t, id.key.D, ref.Digest(nil, in, q))
		s0.sig = ref.MarshalSig(r, s)
		p.mails = append(p.mails, p7message(m, [][]byte{p.ids[0].der, p.ids[1].der}, [][]byte{s0.encode()}))
	}
	var err error
	for _, m := range p.mails {
		var p7 *x509.PKCS7
		w.API("ParsePKCS7", limBig, func() { p7, err = x509.ParsePKCS7(m) })
		if err == nil && p7 != nil {
			roomy(p7)
			p.p7s = append(p.p7s, p7)
		}
	}
	for i, kind := range []string{"sm2", "p256", "rsa", "ed25519"} {
		k := sm2Key(scalar(t))
		if kind != "sm2" {
			k = stdKey(kind, i%2)
		}
		c := &certSpec{serial: someSerial(t), subject: someName(t), issuer: someName(t), notBefore: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), notAfter: time.Date(2049, 1, 1, 0, 0, 0, 0, time.UTC), spki: k.spki, usage: 0x06, ca: 1, ski: t.Bytes(20)}
		var cert *x509.Certificate
		by := scalar(t) // the first is self-signed and signs the others
		if i == 0 {
			by = k.d.D
		} else if len(p.keys) > 0 {
			by = p.keys[0].d.D
		}
		der := c.der(t, by)
		w.API("ParseCertificate", limSmall, func() { cert, err = x509.ParseCertificate(der) })
		if err != nil {
			continue
		}
		p.keys = append(p.keys, k)
		roomy(cert)
		p.certs = append(p.certs, cert)
		pl := &plug{k: k, w: w, t: t}
		var b []byte
		w.API("CreateCertificateRequest", limBig, func() { b, err = x509.CreateCertificateRequest(vsim.NewRnd(t.Seed()), csrTemplate(t), pl) })
		if err == nil {
			p.reqs = append(p.reqs, b)
			var r *x509.CertificateRequest
			w.API("ParseCertificateRequest", limBig, func() { r, err = x509.ParseCertificateRequest(b) })
			if err == nil {
				roomy(r)
				p.csrs = append(p.csrs, r)
			}
		}
		w.API("CreateCRL", limBig, func() {
			b, err = cert.CreateCRL(vsim.NewRnd(t.Seed()), pl, someRevoked(t), time.Unix(1700000000, 0), time.Unix(1800000000, 0))
		})
		if err == nil {
			p.lists = append(p.lists, b)
			var l *pkix.CertificateList
			w.API("ParseCRL", limBig, func() { l, err = x509.ParseCRL(b) })
			if err == nil {
				roomy(l)
				p.crls = append(p.crls, l)
			}
		}
	}
	for i, pw := range []string{"pw", "", "密码", "x"} {
		k := p.keys[i%3]
		ks := &keystore{pwd: pw, kind: k.kind, key: k.priv, certs: [][]byte{p.certs[i%3].Raw}}
		if k.kind == "sm2" {
			ks.certs = append(ks.certs, p.ids[0].der)
		}
		ks.der = ref.WriteP12(pkcs8Of(k), ks.certs, pw, [3][]byte{t.Bytes(8), t.Bytes(8), t.Bytes(8)}, 50, 1)
		p.kss = append(p.kss, ks)
	}
	return p
}

// gen is what an operation is built with.
type gen struct {
	w    *vsim.World
	t    *vsim.Tape
	p    *pool
	args []any
	bufs []*guarded // message buffers a caller may reuse once the call is over
	ders []*guarded // input encodings, to which results may refer
	path string
	file []byte // what a load leaves in its file
}

func (g *gen) track(a ...any) { g.args = append(g.args, a...) }

func (g *gen) buf(b []byte) []byte {
	if b == nil {
		return nil
	}
	x := guard(b)
	g.bufs = append(g.bufs, x)
	return x.b
}

func (g *gen) der(b []byte) []byte {
	x := guard(b)
	g.ders = append(g.ders, x)
	return x.b
}

func (g *gen) msg() []byte {
	if g.t.One(3) {
		m := g.p.msgs[g.t.Int(len(g.p.msgs))]
		g.track(m)
		return m
	}
	return g.buf(message(g.t, 500))
}

func (g *gen) uid() []byte {
	if g.t.One(2) {
		return g.p.uids[g.t.Int(3)]
	}
	return g.buf(userID(g.t))
}

func (g *gen) sk() *sm2.PrivateKey {
	k := g.p.sks[g.t.Int(len(g.p.sks))]
	if g.t.One(3) {
		k = keyOf(scalar(g.t))
	}
	g.track(k)
	return k
}

// someKey decides any key; the pool's among them.
func (g *gen) key() *signKey {
	k := g.p.keys[g.t.Int(len(g.p.keys))]
	switch g.t.Weighted(3, 2, 3) {
	case 1:
		k = someKey(g.t)
	case 2: // which have kin in the other pools
		k = sm2Key(g.p.sks[g.t.Int(len(g.p.sks))].D)
	}
	g.track(k.pub, k.priv)
	return k
}

// signer wraps a key so that signing is deterministic; SM2 keys go to the library bare where it takes them.
func (g *gen) signer(k *signKey, bare bool) any {
	if k.kind == "sm2" && bare {
		return k.d
	}
	return &plug{k: k, w: g.w, t: g.t}
}

// damaged sometimes alters an input.
func (g *gen) damaged(b, donor []byte) []byte {
	if g.t.One(3) {
		if g.t.One(3) {
			b, _ = vsim.Packaged(g.t, b)
		} else {
			b, _ = vsim.Damage(g.t, b, donor)
		}
	}
	return g.der(b)
}

type opKind struct {
	name  string
	rand  int // 0 none, 1 from the reader given, 2 from crypto/rand
	limit int64
	make  func(g *gen) func(r *vsim.Rnd) []any
}

type nonce struct {
	kind string
	v    string
}

// secrets are ephemeral values taken out of results, for the freshness check; an operation puts them last.
type secrets []nonce

var opTable []*opKind

func op(name string, rand int, limit int64, mk func(g *gen) func(r *vsim.Rnd) []any) {
	opTable = append(opTable, &opKind{name, rand, limit, mk})
}

func nonceOf(d *big.Int, r, s *big.Int) string {
	// k = s(1+d) + rd
	k := new(big.Int).Add(one, d)
	k.Mul(k, s)
	k.Add(k, new(big.Int).Mul(r, d))
	return k.Mod(k, n).Text(16)
}

func nonceDER(d *big.Int, der []byte) secrets {
	r, s, ok := ref.ParseSig(der)
	if !ok {
		return nil
	}
	return secrets{{"k", nonceOf(d, r, s)}}
}

// nonceIn reads the SM2 signature at the end of a certificate, request or revocation list.
func nonceIn(d *big.Int, der []byte) secrets {
	_, _, sig, ok := tbsOf(der)
	if !ok {
		return nil
	}
	return nonceDER(d, sig)
}

func init() {
	op("sm3.Sum", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		m := g.msg()
		return func(*vsim.Rnd) []any { return []any{sm3.Sum(m)} }
	})
	op("x509.Hash.New", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		a, b := g.msg(), g.msg()
		names := []x509.Hash{x509.SM3, x509.SHA256, x509.SHA1, x509.SHA512, x509.SHA384, x509.SHA224, x509.MD5, x509.SHA3_256, x509.RIPEMD160, x509.SHA512_256}
		n := names[g.t.Int(len(names))]
		return func(*vsim.Rnd) []any {
			h, other := n.New(), n.New()
			h.Write(a)
			other.Write(b)
			h.Write(b)
			return []any{n.String(), n.Size(), n.Available(), int(n.HashFunc()), h.Sum(nil), other.Sum(nil)}
		}
	})
	op("sm3.New", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		a, b := g.msg(), g.msg()
		prefix := g.t.Bytes(g.t.Int(40))
		pre := slices.Clip(g.buf(prefix)) // Sum may write behind it
		return func(*vsim.Rnd) []any {
			h := sm3.New()
			h.Write(a)
			x := h.Sum(pre)
			h.Write(b)
			y := h.Sum(nil)
			h.Reset()
			h.Write(b)
			return []any{x, y, h.Sum(nil)}
		}
	})
	op("SM3Digest", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		k, m, u := g.sk(), g.msg(), g.uid()
		return func(*vsim.Rnd) []any {
			b, err := k.PublicKey.SM3Digest(m, u)
			return []any{b, err}
		}
	})
	op("GenerateKey", 1, 20_000_000, func(g *gen) func(r *vsim.Rnd) []any {
		return func(r *vsim.Rnd) []any {
			k, err := sm2.GenerateKey(r)
			if err != nil {
				return []any{k, err}
			}
			return []any{k, err, secrets{{"d", k.D.Text(16)}}}
		}
	})
	for e := range signEntries {
		op("sign/"+signEntries[e], 1, 20_000_000, func(g *gen) func(r *vsim.Rnd) []any {
			k := g.sk()
			var in, u []byte
			if digestEntry(e) {
				in = g.buf(g.t.Bytes(32))
			} else {
				in, u = g.msg(), g.uid()
			}
			return func(rnd *vsim.Rnd) []any {
				r, s, der, err := signVia(e, rnd, k, in, u)
				if derEntry(e) {
					if err != nil {
						return []any{der, err}
					}
					return []any{der, err, nonceDER(k.D, der)}
				}
				if err != nil || r == nil || s == nil {
					return []any{r, s, err}
				}
				return []any{r, s, err, secrets{{"k", nonceOf(k.D, r, s)}}}
			}
		})
	}
	for e := range verifyEntries {
		op("verify/"+verifyEntries[e], 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
			i := g.t.Int(len(g.p.sigs))
			k, m, u := g.p.sks[i%2], g.p.msgs[i], g.p.uids[i%3]
			in := m
			if digestEntry(e) {
				in = ref.Digest(u, m, pt(&k.PublicKey))
				u = nil
			}
			in = g.buf(in)
			if g.t.One(4) && len(in) > 0 {
				in = g.buf(append(clone(in[1:]), 1))
			}
			der := clone(g.p.sigs[i])
			if g.t.One(3) {
				der, _ = vsim.Damage(g.t, der, g.p.sigs[0])
			}
			der = g.buf(der)
			r, s, ok := ref.ParseSig(der)
			if !ok {
				r, s = big.NewInt(5), big.NewInt(6)
			}
			g.track(&k.PublicKey, r, s)
			return func(*vsim.Rnd) []any { return []any{verifyVia(e, &k.PublicKey, in, u, r, s, der)} }
		})
	}
	op("MarshalSign", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		r, s := scalar(g.t), scalar(g.t)
		g.track(r, s)
		return func(*vsim.Rnd) []any { b, err := sm2.MarshalSign(r, s); return []any{b, err} }
	})
	op("UnmarshalSign", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		b := g.damaged(g.p.sigs[g.t.Int(len(g.p.sigs))], g.p.sigs[0])
		return func(*vsim.Rnd) []any { r, s, err := sm2.UnmarshalSign(b); return []any{r, s, err} }
	})
	op("Encryt", 1, 20_000_000, func(g *gen) func(r *vsim.Rnd) []any {
		k := g.sk()
		m := g.buf(append(g.t.Bytes(8), message(g.t, 300)...))
		return func(r *vsim.Rnd) []any {
			b, err := sm2.Encryt(r, &k.PublicKey, m)
			if err != nil || len(b) < 65 {
				return []any{b, err}
			}
			return []any{b, err, secrets{{"c1", fmt.Sprintf("%x", b[1:65])}}}
		}
	})
	op("Decryt", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		i := g.t.Int(len(g.p.cts))
		k := g.p.sks[g.t.Int(2)]
		g.track(k)
		ct := clone(g.p.cts[i])
		if g.t.One(3) {
			ct, _ = vsim.Damage(g.t, ct, g.p.cts[0])
		}
		ct = g.buf(ct)
		return func(*vsim.Rnd) []any { b, err := sm2.Decryt(k, ct); return []any{b, err} }
	})
	op("Equal", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		a, b := g.sk(), g.sk()
		return func(*vsim.Rnd) []any {
			return []any{a.Equal(b), a.PublicKey.Equal(b.Public()), a.Equal(a), a.Public()}
		}
	})

	// keys
	op("MarshalPKCS8PrivateKey", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		k := g.key()
		return func(*vsim.Rnd) []any { b, err := x509.MarshalPKCS8PrivateKey(k.priv); return []any{b, err} }
	})
	op("ParsePKCS8PrivateKey", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		k, o := g.key(), g.key()
		b := g.damaged(pkcs8Any(k), pkcs8Any(o))
		return func(*vsim.Rnd) []any { k, err := x509.ParsePKCS8PrivateKey(b); return []any{k, err} }
	})
	op("MarshalPKIXPublicKey", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		k := g.key()
		return func(*vsim.Rnd) []any { b, err := x509.MarshalPKIXPublicKey(k.pub); return []any{b, err} }
	})
	op("ParsePKIXPublicKey", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		k, o := g.key(), g.key()
		b := g.damaged(k.spki, o.spki)
		return func(*vsim.Rnd) []any { k, err := x509.ParsePKIXPublicKey(b); return []any{k, err} }
	})
	op("PKCS1", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		k := stdKey("rsa", g.t.Int(2))
		g.track(k.priv)
		priv := k.priv.(*rsa.PrivateKey)
		b := g.damaged(stdx509.MarshalPKCS1PrivateKey(priv), k.spki)
		c := g.damaged(stdx509.MarshalPKCS1PublicKey(&priv.PublicKey), k.spki)
		return func(*vsim.Rnd) []any {
			x := x509.MarshalPKCS1PrivateKey(priv)
			y := x509.MarshalPKCS1PublicKey(&priv.PublicKey)
			p, e1 := x509.ParsePKCS1PrivateKey(b)
			q, e2 := x509.ParsePKCS1PublicKey(c)
			return []any{x, y, p, e1, q, e2}
		}
	})
	op("SEC1", 0, limSmall, func(g *gen) func(r *vsim.Rnd) []any {
		k := stdKey([]string{"p256", "p384", "p521", "p224"}[g.t.Int(4)], g.t.Int(2))
		g.track(k.priv)
		d := scalar(g.t)
		b := g.damaged(sec1(ref.B32(d), oidSM2Curve, point04(ref.BaseMult(d))), nil)
		return func(*vsim.Rnd) []any {
			x, e1 := x509.MarshalECPrivateKey(k.priv.(*ecdsa.PrivateKey))
			var y any
			var e2 error
			if e1 == nil {
				y, e2 = x509.ParseECPrivateKey(x)
			}
			z, e3 := x509.ParseECPrivateKey(b)
			return []any{x, e1, y, e2, z, e3}
		}
	})

	// certificates
	op("ParseCertificate", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		b := g.damaged(g.p.certs[g.t.Int(len(g.p.certs))].Raw, g.p.ids[0].der)
		return func(*vsim.Rnd) []any { c, err := x509.ParseCertificate(b); return []any{c, err} }
	})
	op("ParseCertificates", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		var all []byte
		for i := 1 + g.t.Int(3); i > 0; i-- {
			all = append(all, g.p.certs[g.t.Int(len(g.p.certs))].Raw...)
		}
		b := g.damaged(all, g.p.ids[0].der)
		return func(*vsim.Rnd) []any { c, err := x509.ParseCertificates(b); return []any{c, err} }
	})
	op("CreateCertificate", 1, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		k, s := g.key(), g.key()
		tmpl := certTemplate(g.t, g.t.One(3))
		algs := k.algs()
		tmpl.SignatureAlgorithm = algs[g.t.Int(len(algs))]
		parent := parentFor(g.t, k, g.t.One(2))
		if g.t.One(3) {
			parent = g.p.certs[0]
			k = g.p.keys[0]
			tmpl.SignatureAlgorithm = 0
		}
		roomy(tmpl)
		g.track(tmpl, parent)
		priv := g.signer(k, g.t.One(2))
		return func(r *vsim.Rnd) []any {
			b, err := x509.CreateCertificate(r, tmpl, parent, s.pub, priv)
			return withNonce(k, b, err)
		}
	})
	op("CreateCertificateRequest", 1, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		k := g.key()
		tmpl := csrTemplate(g.t)
		algs := k.algs()
		tmpl.SignatureAlgorithm = algs[g.t.Int(len(algs))]
		if g.t.One(3) {
			tmpl.Attributes = []pkix.AttributeTypeAndValueSET{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: []byte{0x30, 0}}}}}}
		}
		roomy(tmpl)
		g.track(tmpl)
		priv := g.signer(k, g.t.One(2))
		return func(r *vsim.Rnd) []any {
			b, err := x509.CreateCertificateRequest(r, tmpl, priv)
			return withNonce(k, b, err)
		}
	})
	op("CreateCRL", 1, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		k := g.key()
		parent := parentFor(g.t, k, g.t.One(2))
		revoked := someRevoked(g.t)
		from := someDate(g.t)
		roomy(&revoked)
		g.track(parent, revoked)
		priv := g.signer(k, g.t.One(2))
		return func(r *vsim.Rnd) []any {
			b, err := parent.CreateCRL(r, priv, revoked, from, from.Add(time.Hour))
			return withNonce(k, b, err)
		}
	})
	op("CreateRevocationList", 1, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		k := g.key()
		parent := parentFor(g.t, k, g.t.One(2))
		from := someDate(g.t)
		algs := k.algs()
		rl := &x509.RevocationList{SignatureAlgorithm: algs[g.t.Int(len(algs))], RevokedCertificates: someRevoked(g.t), Number: someSerial(g.t), ThisUpdate: from, NextUpdate: from.Add(time.Hour)}
		if g.t.One(3) {
			rl.ExtraExtensions = []pkix.Extension{{Id: []int{1, 2, 3, 4}, Critical: g.t.One(3), Value: someValue(g.t, 5)}}
		}
		roomy(rl)
		g.track(parent, rl)
		pl := &plug{k: k, w: g.w, t: g.t}
		return func(r *vsim.Rnd) []any {
			b, err := x509.CreateRevocationList(r, rl, parent, pl)
			return withNonce(k, b, err)
		}
	})
	op("CheckSignature", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		i := g.t.Int(len(g.p.certs))
		c := g.p.certs[i]
		k := g.p.keys[i]
		algs := k.algs()
		alg := algs[g.t.Int(len(algs))]
		m := g.msg()
		sig := g.buf(g.t.Bytes(64))
		if k.kind != "sm2" && g.t.One(2) {
			alg = algs[1+g.t.Int(len(algs)-1)]
			if b, err := signAs(k, g.t, m, alg); err == nil {
				sig = g.buf(b)
			}
		}
		if k.kind == "sm2" {
			r, s := refSign(g.t, k.d.D, ref.Digest(nil, m, pt(&k.d.PublicKey)))
			sig = g.buf(ref.MarshalSig(r, s))
			alg = x509.SM2WithSM3
		}
		if g.t.One(3) { // any there is, or is not
			alg = x509.SignatureAlgorithm(g.t.Int(24))
		}
		g.track(c)
		return func(*vsim.Rnd) []any { return []any{c.CheckSignature(alg, m, sig)} }
	})
	op("CheckSignatureFrom", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		a, b := g.p.certs[g.t.Int(len(g.p.certs))], g.p.certs[0]
		if g.t.One(3) {
			b = g.p.certs[g.t.Int(len(g.p.certs))]
		}
		g.track(a, b)
		return func(*vsim.Rnd) []any { return []any{a.CheckSignatureFrom(b), a.Equal(b)} }
	})
	op("ParseCertificateRequest", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		b := g.damaged(g.p.reqs[g.t.Int(len(g.p.reqs))], g.p.reqs[0])
		return func(*vsim.Rnd) []any {
			c, err := x509.ParseCertificateRequest(b)
			if err != nil {
				return []any{c, err}
			}
			return []any{c, err, c.CheckSignature()}
		}
	})
	op("CheckSignature(request)", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		c := g.p.csrs[g.t.Int(len(g.p.csrs))]
		g.track(c)
		return func(*vsim.Rnd) []any { return []any{c.CheckSignature()} }
	})
	op("ParseCRL", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		raw := g.p.lists[g.t.Int(len(g.p.lists))]
		if g.t.One(3) {
			raw = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: raw})
		}
		b := g.damaged(raw, g.p.lists[0])
		return func(*vsim.Rnd) []any { l, err := x509.ParseCRL(b); return []any{l, err} }
	})
	op("CheckCRLSignature", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		c, l := g.p.certs[g.t.Int(len(g.p.certs))], g.p.crls[g.t.Int(len(g.p.crls))]
		g.track(c, l)
		return func(*vsim.Rnd) []any { return []any{c.CheckCRLSignature(l)} }
	})

	// signed data
	op("NewSignedData", 2, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		id := g.p.ids[g.t.Int(2)]
		m := g.msg()
		g.track(id.key, id.cert)
		return func(*vsim.Rnd) []any {
			b, err := x509.NewSignedData(id.cert, id.key, m)
			if err != nil {
				return []any{b, err}
			}
			v := readP7(b)
			if v == nil || len(v.signers) != 1 {
				return []any{b, err}
			}
			s := readSigner(v.signers[0])
			if s == nil {
				return []any{b, err}
			}
			return []any{b, err, nonceDER(id.key.D, s.sig)}
		}
	})
	op("NewSignedDataCallBack", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		id := g.p.ids[g.t.Int(2)]
		m := g.msg()
		g.track(id.key, id.cert)
		k := &signKey{kind: "sm2", d: id.key, pub: &id.key.PublicKey}
		fail := g.t.One(4)
		return func(*vsim.Rnd) []any {
			b, err := x509.NewSignedDataCallBack(id.cert, func(b []byte) ([]byte, error) {
				if fail {
					return nil, errSome
				}
				return k.sign(g.t, nil, b, x509.SM3)
			}, m)
			return []any{b, err}
		}
	})
	op("ParsePKCS7", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		b := g.damaged(g.p.mails[g.t.Int(len(g.p.mails))], g.p.mails[0])
		return func(*vsim.Rnd) []any {
			p, err := x509.ParsePKCS7(b)
			if err != nil || p == nil {
				return []any{p, err}
			}
			return []any{p, err, p.Verify(), p.GetOnlySigner()}
		}
	})
	op("(*PKCS7).Verify", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		p := g.p.p7s[g.t.Int(len(g.p.p7s))]
		g.track(p)
		return func(*vsim.Rnd) []any {
			var ct asn1.ObjectIdentifier
			var md []byte
			e1 := p.Verify()
			e2 := p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}, &ct)
			e3 := p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &md)
			return []any{e1, p.GetOnlySigner(), e2, ct, e3, md}
		}
	})

	// keystores
	op("Encode", 2, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		i := g.t.Int(3)
		k, c := g.p.keys[i], g.p.certs[i]
		pwd := somePassword(g.t)
		var cas []*stdx509.Certificate
		for j := g.t.Int(3); j > 0; j-- {
			cas = append(cas, &stdx509.Certificate{Raw: g.p.certs[g.t.Int(len(g.p.certs))].Raw})
		}
		roomy(&cas)
		g.track(k.priv, c, cas)
		return func(*vsim.Rnd) []any {
			b, err := pkcs12.Encode(k.priv, c, cas, pwd)
			if err != nil {
				return []any{b, err}
			}
			return []any{b, err, saltsOf(b, pwd)}
		}
	})
	for _, e := range []string{"DecodeAll", "Decode", "ToPEM"} {
		op(e, 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
			ks := g.p.kss[g.t.Int(len(g.p.kss))]
			if e == "Decode" && ks.kind == "sm2" {
				ks = g.p.kss[1+g.t.Int(2)]
			}
			pwd := ks.pwd
			if g.t.One(6) {
				pwd = "other"
			}
			raw := ks.der
			if g.t.One(3) {
				for {
					raw, _ = vsim.Damage(g.t, ks.der, g.p.kss[0].der)
					if macIterations(raw) < 100_000 {
						break
					}
				}
			}
			b := g.der(raw)
			return func(*vsim.Rnd) []any {
				switch e {
				case "DecodeAll":
					k, c, err := pkcs12.DecodeAll(b, pwd)
					return []any{k, c, err}
				case "Decode":
					k, c, err := pkcs12.Decode(b, pwd)
					return []any{k, c, err}
				}
				p, err := pkcs12.ToPEM(b, pwd)
				return []any{p, err}
			}
		})
	}
	op("SM2P12Encrypt", 2, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		id := g.p.ids[g.t.Int(2)]
		pwd := somePassword(g.t)
		g.track(id.key, id.cert)
		path := g.path
		return func(*vsim.Rnd) []any {
			err := pkcs12.SM2P12Encrypt(id.cert, pwd, id.key, path)
			b := g.w.Disk.Peek(path)
			if err != nil {
				return []any{err}
			}
			return []any{clone(b), err, saltsOf(b, pwd)}
		}
	})
	op("SM2P12Decrypt", 0, limBig, func(g *gen) func(r *vsim.Rnd) []any {
		ks := g.p.kss[g.t.Int(2)*3]
		if g.t.One(6) {
			ks = g.p.kss[1]
		}
		pwd := ks.pwd
		if g.t.One(6) {
			pwd = "other"
		}
		path := g.path
		return func(*vsim.Rnd) []any {
			g.w.Disk.Put(path, ks.der)
			g.file = ks.der
			c, k, err := pkcs12.SM2P12Decrypt(path, pwd)
			return []any{c, k, err}
		}
	})
}

// signAs signs m under a named algorithm (not with SM2).
func signAs(k *signKey, t *vsim.Tape, m []byte, alg x509.SignatureAlgorithm) ([]byte, error) {
	h := crypto.Hash(0)
	switch alg {
	case x509.SHA256WithRSA, x509.SHA256WithRSAPSS, x509.ECDSAWithSHA256:
		h = crypto.SHA256
	case x509.SHA384WithRSA, x509.SHA384WithRSAPSS, x509.ECDSAWithSHA384:
		h = crypto.SHA384
	case x509.SHA512WithRSA, x509.SHA512WithRSAPSS, x509.ECDSAWithSHA512:
		h = crypto.SHA512
	}
	in := m
	if h != 0 {
		in = stdHash(h, m)
	}
	var opts crypto.SignerOpts = h
	switch alg {
	case x509.SHA256WithRSAPSS, x509.SHA384WithRSAPSS, x509.SHA512WithRSAPSS:
		opts = &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: h}
	}
	return k.sign(t, nil, in, opts)
}

func withNonce(k *signKey, b []byte, err error) []any {
	if err != nil || k.kind != "sm2" {
		return []any{b, err}
	}
	return []any{b, err, nonceIn(k.d.D, b)}
}

func saltsOf(b []byte, pwd string) secrets {
	p, err := ref.ReadP12(b, pwd)
	if err != nil {
		return nil
	}
	var out secrets
	for _, s := range p.Salts {
		out = append(out, nonce{"salt", fmt.Sprintf("%x", s)})
	}
	return out
}

func pkcs8Any(k *signKey) []byte { return pkcs8Of(k) }

// opInst is one operation ready to run.
type opInst struct {
	kind *opKind
	seed uint64
	g    *gen
	run  func(r *vsim.Rnd) []any
}

func (k *opKind) build(w *vsim.World, p *pool, seed uint64, path string) *opInst {
	g := &gen{w: w, p: p, t: vsim.NewTape(vsim.Mix(seed, 0x0b5)), path: path}
	o := &opInst{kind: k, seed: seed, g: g}
	o.run = k.make(g)
	return o
}

// stream is the random source the operation gets when nothing is wrong.
func (o *opInst) stream() *vsim.Rnd { return vsim.NewRnd(vsim.Mix(o.seed, 0x7ea)) }

// instant is what the operation reads as the time.
func (o *opInst) instant() time.Time {
	return time.Date(2000+int(o.seed%60), 2, 3, 4, 5, int(o.seed%60), 0, time.UTC)
}

// call runs the operation in the running task.
func (o *opInst) call(w *vsim.World, r *vsim.Rnd, quiet bool) (out []any) {
	task := w.Cur()
	oldRnd, oldClock := task.Rnd, task.Clock
	task.Rnd, task.Clock = r, o.instant()
	defer func() { task.Rnd, task.Clock = oldRnd, oldClock }()
	if quiet {
		if p := w.Try(o.kind.name, o.kind.limit, func() { out = o.run(r) }); p != "" {
			out = []any{p}
		}
		return
	}
	w.API(o.kind.name, o.kind.limit, func() { out = o.run(r) })
	return
}

// split takes the secrets off the end.
func split(out []any) ([]any, secrets) {
	if len(out) > 0 {
		if s, ok := out[len(out)-1].(secrets); ok {
			return out[:len(out)-1], s
		}
	}
	return out, nil
}

func errOf(out []any) error {
	out, _ = split(out)
	for i := len(out) - 1; i >= 0; i-- {
		if e, ok := out[i].(error); ok && e != nil {
			return e
		}
	}
	return nil
}

// ---- fingerprints ----

type dumper struct {
	b    strings.Builder
	seen map[uintptr]bool
	room bool // look at the spare room behind slices, too
}

// dump writes down everything reachable from the values.
func dump(vals ...any) string {
	d := &dumper{seen: map[uintptr]bool{}}
	return d.all(vals)
}

// dumpArgs is dump for what a caller owns, the spare room of its slices included.
func dumpArgs(vals []any) string {
	d := &dumper{seen: map[uintptr]bool{}, room: true}
	return d.all(vals)
}

func (d *dumper) all(vals []any) string {
	for i, v := range vals {
		if i > 0 {
			d.b.WriteString("; ")
		}
		if e, ok := v.(error); ok {
			fmt.Fprintf(&d.b, "error(%s)", addresses.ReplaceAllString(e.Error(), "$1:address"))
			continue
		}
		d.walk(reflect.ValueOf(v), 0)
	}
	return d.b.String()
}

var (
	timeType   = reflect.TypeFor[time.Time]()
	locType    = reflect.TypeFor[time.Location]()
	bigType    = reflect.TypeFor[big.Int]()
	rsaType    = reflect.TypeFor[rsa.PrivateKey]()
	ecType     = reflect.TypeFor[ecdsa.PrivateKey]()
	edType     = reflect.TypeFor[ed25519.PrivateKey]()
	plugType   = reflect.TypeFor[plug]()
	nistParams = reflect.TypeFor[ecdsa.PublicKey]()
)

func (d *dumper) walk(v reflect.Value, depth int) {
	b := &d.b
	if depth > 60 {
		b.WriteString("…")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Type() {
	case locType, plugType:
		return
	case bigType:
		// neg, abs
		if v.Field(0).Bool() {
			b.WriteByte('-')
		}
		abs := v.Field(1)
		for i := abs.Len() - 1; i >= 0; i-- {
			fmt.Fprintf(b, "%016x", abs.Index(i).Uint())
		}
		return
	case timeType:
		if v.CanInterface() {
			b.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
			return
		}
	case rsaType:
		if v.CanInterface() && v.CanAddr() {
			k := v.Addr().Interface().(*rsa.PrivateKey)
			fmt.Fprintf(b, "rsa{%x %x %x %x}", k.N, k.E, k.D, k.Primes)
			return
		}
	case ecType:
		if v.CanInterface() && v.CanAddr() {
			k := v.Addr().Interface().(*ecdsa.PrivateKey)
			fmt.Fprintf(b, "ec{%s %x %x %x}", k.Curve.Params().Name, k.X, k.Y, k.D)
			return
		}
	case nistParams:
		if v.CanInterface() && v.CanAddr() {
			k := v.Addr().Interface().(*ecdsa.PublicKey)
			fmt.Fprintf(b, "ecpub{%s %x %x}", k.Curve.Params().Name, k.X, k.Y)
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprint(b, v.Kind(), v.IsNil())
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if d.seen[v.Pointer()] {
			b.WriteString("^")
			return
		}
		d.seen[v.Pointer()] = true
		b.WriteByte('&')
		d.walk(v.Elem(), depth+1)
		delete(d.seen, v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "(%s)", v.Elem().Type())
		d.walk(v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).IsExported() {
				continue // nobody outside can see it
			}
			b.WriteByte(' ')
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			d.walk(v.Field(i), depth+1)
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		if d.room && v.Kind() == reflect.Slice && v.Cap() > v.Len() {
			fmt.Fprintf(b, "%d of ", v.Len())
			v = v.Slice(0, v.Cap())
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice {
				fmt.Fprintf(b, "x%x", v.Bytes())
				return
			}
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(b, "%02x", v.Index(i).Uint())
			}
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			d.walk(v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		var parts []string
		it := v.MapRange()
		for it.Next() {
			e := &dumper{seen: d.seen, room: d.room}
			e.walk(it.Key(), depth+1)
			e.b.WriteByte(':')
			e.walk(it.Value(), depth+1)
			parts = append(parts, e.b.String())
		}
		sort.Strings(parts)
		fmt.Fprintf(b, "map%v", parts)
	}
}

// roomy gives every slice reachable from x spare room, as slices built with append have.
func roomy(x any) { room(reflect.ValueOf(x), 0) }

func room(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 6 {
		return
	}
	switch v.Type() {
	case bigType, timeType, rsaType, ecType, nistParams, reflect.TypeFor[sm2.PrivateKey](), reflect.TypeFor[sm2.PublicKey]():
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			room(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				room(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				room(v.Index(i), depth+1)
			}
		}
		if v.CanSet() {
			n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+3)
			reflect.Copy(n, v)
			v.Set(n)
		}
	}
}

// differsAt shows where two dumps part.
func differsAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("…%.140q… against …%.140q…", a[lo:], b[lo:])
}

// addresses are the places in memory that encoding/asn1 prints when it cannot decode a field with a tag or a default.
var addresses = regexp.MustCompile(`\b(tag|defaultValue):0x[0-9a-f]+`)
