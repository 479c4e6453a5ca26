package main

import (
	"bytes"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

// What other implementations write: certificates, requests and revocation lists in forms that the library reads but
// does not write itself. Everything here is encoded by hand.

// algDER is the AlgorithmIdentifier of a signature algorithm.
func algDER(a x509.SignatureAlgorithm) []byte {
	pssDER := func(h string, n int64) []byte {
		id := seq(oid(h), null())
		return seq(oid(oidRSAPSS), seq(ctx(0, id), ctx(1, seq(oid("1.2.840.113549.1.1.8"), id)), ctx(2, integer(n))))
	}
	switch a {
	case x509.SM2WithSM3:
		return seq(oid(oidSM2SM3))
	case x509.SHA256WithRSA:
		return seq(oid("1.2.840.113549.1.1.11"), null())
	case x509.SHA384WithRSA:
		return seq(oid("1.2.840.113549.1.1.12"), null())
	case x509.SHA512WithRSA:
		return seq(oid("1.2.840.113549.1.1.13"), null())
	case x509.SHA256WithRSAPSS:
		return pssDER("2.16.840.1.101.3.4.2.1", 32)
	case x509.SHA384WithRSAPSS:
		return pssDER("2.16.840.1.101.3.4.2.2", 48)
	case x509.SHA512WithRSAPSS:
		return pssDER("2.16.840.1.101.3.4.2.3", 64)
	case x509.ECDSAWithSHA256:
		return seq(oid("1.2.840.10045.4.3.2"))
	case x509.ECDSAWithSHA384:
		return seq(oid("1.2.840.10045.4.3.3"))
	case x509.ECDSAWithSHA512:
		return seq(oid("1.2.840.10045.4.3.4"))
	case x509.PureEd25519:
		return seq(oid("1.3.101.112"))
	}
	panic(a)
}

// someAlg is an algorithm the key can sign with.
func someAlg(t *vsim.Tape, k *signKey) x509.SignatureAlgorithm {
	a := k.algs()
	return a[1+t.Int(len(a)-1)]
}

// handSigned is tbs with its signature.
func handSigned(t *vsim.Tape, k *signKey, alg x509.SignatureAlgorithm, tbs []byte) []byte {
	var sig []byte
	if k.kind == "sm2" {
		r, s := refSign(t, k.d.D, ref.Digest(nil, tbs, ref.BaseMult(k.d.D)))
		sig = ref.MarshalSig(r, s)
	} else {
		var err error
		if sig, err = signAs(k, t, tbs, alg); err != nil {
			panic(err)
		}
	}
	return seq(tbs, algDER(alg), bits(sig))
}

func namedBits(v, n int) []byte {
	b := make([]byte, (n+7)/8)
	last := -1
	for i := 0; i < n; i++ {
		if v>>i&1 != 0 {
			b[i/8] |= 0x80 >> (i % 8)
			last = i
		}
	}
	b = b[:(last+8)/8]
	return tlv(3, []byte{byte((7 - last%8 + 8) % 8)}, b)
}

var ekuOIDs = []string{"2.5.29.37.0", "1.3.6.1.5.5.7.3.1", "1.3.6.1.5.5.7.3.2", "1.3.6.1.5.5.7.3.3", "1.3.6.1.5.5.7.3.4", "1.3.6.1.5.5.7.3.5", "1.3.6.1.5.5.7.3.6", "1.3.6.1.5.5.7.3.7", "1.3.6.1.5.5.7.3.8", "1.3.6.1.5.5.7.3.9", "1.3.6.1.4.1.311.10.3.3", "2.16.840.1.113730.4.1", "1.3.6.1.4.1.311.2.1.22", "1.3.6.1.4.1.311.61.1.1"}

// merge interleaves lists, each in its own order.
func merge(t *vsim.Tape, lists ...[][]byte) (out [][]byte) {
	for {
		var left []int
		for i, l := range lists {
			if len(l) > 0 {
				left = append(left, i)
			}
		}
		if len(left) == 0 {
			return
		}
		i := left[t.Int(len(left))]
		out = append(out, lists[i][0])
		lists[i] = lists[i][1:]
	}
}

func shuffle[T any](t *vsim.Tape, x []T) {
	for i := len(x) - 1; i > 0; i-- {
		j := t.Int(i + 1)
		x[i], x[j] = x[j], x[i]
	}
}

// richName is a name in another implementation's forms.
func richName(t *vsim.Tape) []byte {
	var rdns [][]byte
	for i := 1 + t.Int(4); i > 0; i-- {
		var set1 [][]byte
		for j := 1 + t.Weighted(4, 1, 1); j > 0; j-- {
			text := fmt.Sprintf("%s %d", []string{"Name", "Org", "a"}[t.Int(3)], t.Int(1000))
			kind := []string{oidCN, "2.5.4.10", "2.5.4.11", "2.5.4.6", "2.5.4.7", "2.5.4.8", "2.5.4.5", "2.5.4.9", "2.5.4.17", "1.2.840.113549.1.9.1", "0.9.2342.19200300.100.1.25", "2.5.4.4"}[t.Int(12)]
			var v []byte
			switch t.Weighted(3, 2, 1, 1, 1, 2) {
			case 5: // BMPString
				var b []byte
				for _, c := range text {
					b = append(b, 0, byte(c))
				}
				for t.One(2) {
					c := []int{0x100, 0x4e00, 0x20ac, 0x6d4b, 0xff00, 0x41, 0, 1, 0xfffd, t.Int(65536)}[t.Int(10)]
					if c>>11 == 0xd800>>11 || c >= 0xfffe || c >= 0xfdd0 && c < 0xfdf0 {
						c = 'u' // what stands there is no character
					}
					b = append(b, byte(c>>8), byte(c))
				}
				if t.One(4) {
					b = append(b, 0, 0)
				}
				v = tlv(30, b)
			case 0:
				v = utf8s(text)
			case 1:
				v = printa(text)
			case 2:
				v = tlv(20, []byte(text)) // TeletexString
			case 3:
				v = tlv(22, []byte("x@"+strings.ReplaceAll(text, " ", ".")))
			case 4:
				v = tlv(18, []byte(fmt.Sprint(t.Int(100000)))) // NumericString
			}
			set1 = append(set1, seq(oid(kind), v))
		}
		rdns = append(rdns, set(sortSet(set1)...))
	}
	return seq(rdns...)
}

// generalNames are alternative names, with kinds that the library does not read among them.
func generalNames(t *vsim.Tape, c *x509.Certificate) [][]byte {
	var dns, mail, ip, uri, other [][]byte
	for _, s := range c.DNSNames {
		dns = append(dns, ctxPrim(2, []byte(s)))
	}
	for _, s := range c.EmailAddresses {
		mail = append(mail, ctxPrim(1, []byte(s)))
	}
	for i, x := range c.IPAddresses {
		b := x.To4()
		if b == nil || t.One(4) { // an IPv4 address in IPv6 form, too
			b = x.To16()
		}
		c.IPAddresses[i] = b
		ip = append(ip, ctxPrim(7, b))
	}
	for _, u := range c.URIs {
		uri = append(uri, ctxPrim(6, []byte(u.String())))
	}
	for i := t.Weighted(2, 1, 1); i > 0; i-- {
		switch t.Int(3) {
		case 0:
			other = append(other, ctx(0, oid("1.3.6.1.4.1.311.20.2.3"), ctx(0, utf8s("user@example.com"))))
		case 1:
			other = append(other, ctx(4, someName(t)))
		case 2:
			other = append(other, ctxPrim(8, oid("1.2.3.4")[2:]))
		}
	}
	return merge(t, dns, mail, ip, uri, other)
}

func (c *c13world) foreignExts(tm *x509.Certificate, aki []byte) (list [][]byte, unhandled []string) {
	t := c.w.T
	add := func(id string, critical bool, val []byte) {
		list = append(list, ext(id, critical, val))
	}
	if tm.KeyUsage != 0 {
		add(oidKeyUsage, !t.One(3), namedBits(int(tm.KeyUsage), 9))
	}
	if tm.BasicConstraintsValid {
		var v [][]byte
		if tm.IsCA {
			v = append(v, boolean(true))
		}
		if n := pathLen(true, tm.MaxPathLen, tm.MaxPathLenZero); n >= 0 {
			v = append(v, integer(int64(n)))
		}
		add(oidBasic, !t.One(3), seq(v...))
	}
	if len(tm.SubjectKeyId) > 0 {
		add(oidSKI, false, octets(tm.SubjectKeyId))
	}
	var a [][]byte
	if len(aki) > 0 {
		a = append(a, ctxPrim(0, aki))
	}
	if t.One(3) {
		a = append(a, ctx(1, ctx(4, someName(t))), ctxPrim(2, bigInteger(someSerial(t))[2:]))
		c.w.Hit("foreign-key-id")
	}
	if len(a) > 0 {
		add("2.5.29.35", false, seq(a...))
	}
	if n := len(tm.DNSNames) + len(tm.EmailAddresses) + len(tm.IPAddresses) + len(tm.URIs); n > 0 || t.One(6) {
		crit := t.One(3)
		g := generalNames(t, tm)
		if n == 0 {
			if len(g) == 0 {
				g = append(g, ctx(4, someName(t)))
			}
			if crit {
				unhandled = append(unhandled, "2.5.29.17")
			}
		}
		add("2.5.29.17", crit, seq(g...))
	}
	if len(tm.ExtKeyUsage)+len(tm.UnknownExtKeyUsage) > 0 {
		var known, other [][]byte
		for _, u := range tm.ExtKeyUsage {
			known = append(known, oid(ekuOIDs[u]))
		}
		for _, u := range tm.UnknownExtKeyUsage {
			other = append(other, oid(u.String()))
		}
		add("2.5.29.37", t.One(3), seq(merge(t, known, other)...))
	}
	if len(tm.PolicyIdentifiers) > 0 {
		var v [][]byte
		for _, p := range tm.PolicyIdentifiers {
			one := [][]byte{oid(p.String())}
			if t.One(2) {
				var q [][]byte
				if t.One(2) {
					q = append(q, seq(oid("1.3.6.1.5.5.7.2.1"), tlv(22, []byte("https://example.com/cps"))))
				}
				if len(q) == 0 || t.One(2) {
					q = append(q, seq(oid("1.3.6.1.5.5.7.2.2"), seq(utf8s("notice"))))
				}
				one = append(one, seq(q...))
				c.w.Hit("foreign-policy")
			}
			v = append(v, seq(one...))
		}
		add("2.5.29.32", t.One(4), seq(v...))
	}
	if len(tm.CRLDistributionPoints) > 0 {
		var v [][]byte
		for left := tm.CRLDistributionPoints; len(left) > 0; {
			n := 1 + t.Int(len(left))
			var uris [][]byte
			for _, u := range left[:n] {
				uris = append(uris, ctxPrim(6, []byte(u)))
			}
			left = left[n:]
			if t.One(4) {
				v = append(v, seq(ctx(2, ctx(4, someName(t))))) // of an indirect list
			}
			dp := [][]byte{ctx(0, ctx(0, uris...))}
			if t.One(3) {
				dp = append(dp, ctxPrim(1, namedBits(2+t.Int(500), 9)[2:]))
			}
			if t.One(3) {
				dp = append(dp, ctx(2, ctx(4, someName(t))))
			}
			v = append(v, seq(dp...))
		}
		c.w.Hit("foreign-distribution-point")
		add("2.5.29.31", false, seq(v...))
	}
	if len(tm.OCSPServer)+len(tm.IssuingCertificateURL) > 0 {
		var o, i, x [][]byte
		for _, u := range tm.OCSPServer {
			o = append(o, seq(oid("1.3.6.1.5.5.7.48.1"), ctxPrim(6, []byte(u))))
		}
		for _, u := range tm.IssuingCertificateURL {
			i = append(i, seq(oid("1.3.6.1.5.5.7.48.2"), ctxPrim(6, []byte(u))))
		}
		if t.One(3) {
			x = append(x, seq(oid("1.3.6.1.5.5.7.48.5"), ctxPrim(6, []byte("https://example.com/repository"))))
		}
		if t.One(3) {
			x = append(x, seq(oid("1.3.6.1.5.5.7.48.2"), ctx(4, someName(t))))
		}
		add("1.3.6.1.5.5.7.1.1", false, seq(merge(t, o, i, x)...))
	}
	sub := func(dns, mail, uri []string, nets []*net.IPNet) [][]byte {
		var d, m, u, n [][]byte
		for _, s := range dns {
			d = append(d, seq(ctxPrim(2, []byte(s))))
		}
		for _, s := range mail {
			m = append(m, seq(ctxPrim(1, []byte(s))))
		}
		for _, s := range uri {
			u = append(u, seq(ctxPrim(6, []byte(s))))
		}
		for _, s := range nets {
			ip := []byte(s.IP.To4())
			if ip == nil {
				ip = s.IP
			}
			n = append(n, seq(ctxPrim(7, ip, s.Mask)))
		}
		return merge(t, d, m, u, n)
	}
	perm := sub(tm.PermittedDNSDomains, tm.PermittedEmailAddresses, tm.PermittedURIDomains, tm.PermittedIPRanges)
	excl := sub(tm.ExcludedDNSDomains, tm.ExcludedEmailAddresses, tm.ExcludedURIDomains, tm.ExcludedIPRanges)
	if len(perm)+len(excl) > 0 {
		if t.One(5) {
			perm = append(perm, seq(ctx(4, someName(t))))
			if tm.PermittedDNSDomainsCritical {
				unhandled = append(unhandled, "2.5.29.30")
			}
			c.w.Hit("foreign-constraint")
		} else if t.One(5) {
			excl = append([][]byte{seq(ctx(4, someName(t)))}, excl...)
			if tm.PermittedDNSDomainsCritical {
				unhandled = append(unhandled, "2.5.29.30")
			}
			c.w.Hit("foreign-constraint")
		}
		var v [][]byte
		if len(perm) > 0 {
			v = append(v, ctx(0, perm...))
		}
		if len(excl) > 0 {
			v = append(v, ctx(1, excl...))
		}
		add("2.5.29.30", tm.PermittedDNSDomainsCritical, seq(v...))
	} else {
		tm.PermittedDNSDomainsCritical = false
	}
	for i := t.Weighted(2, 1, 1); i > 0; i-- {
		id := []string{"1.2.840.5.1", "2.5.29.46", "2.16.840.1.113730.1.13", "1.3.6.1.5.5.7.1.3", "2.5.29.9"}[t.Int(5)] + strings.Repeat(".1", t.Int(2))
		dup := false
		for _, e := range list {
			dup = dup || bytes.HasPrefix(readEl(e).val, oid(id))
		}
		if dup {
			continue
		}
		crit := t.One(3)
		if crit {
			unhandled = append(unhandled, id)
		}
		add(id, crit, seq(octets(t.Bytes(t.Int(300)))))
	}
	shuffle(t, list)
	return
}

// foreign has another implementation issue a certificate, and checks how it is read.
func (c *c13world) foreign(parent *issued) {
	w, t := c.w, c.w.T
	is := &issued{key: someKey(t), parent: parent}
	tm := certTemplate(t, parent == nil || t.One(2))
	tm.ExtraExtensions = nil
	is.tmpl, is.by = tm, is.key
	issuer := richName(t)
	subject := richName(t)
	if t.One(8) {
		subject = seq()
	}
	var aki []byte
	if parent != nil {
		is.by = parent.key
		issuer, aki = parent.cert.RawSubject, parent.cert.SubjectKeyId
	} else {
		issuer = subject
	}
	if t.One(6) {
		aki = nil
	}
	version := 3 - t.Weighted(8, 1, 1)
	var exts [][]byte
	var unhandled []string
	if version == 3 {
		exts, unhandled = c.foreignExts(tm, aki)
	} else {
		*tm = x509.Certificate{SerialNumber: tm.SerialNumber, NotBefore: tm.NotBefore, NotAfter: tm.NotAfter}
		aki = nil
		w.Hit(fmt.Sprintf("foreign-v%d", version))
	}
	alg := someAlg(t, is.by)
	var parts [][]byte
	if version > 1 {
		parts = append(parts, ctx(0, integer(int64(version-1))))
	}
	parts = append(parts, bigInteger(tm.SerialNumber), algDER(alg), issuer, seq(asn1time(tm.NotBefore), asn1time(tm.NotAfter)), subject, is.key.spki)
	if version > 1 && t.One(5) {
		if t.One(2) {
			parts = append(parts, ctxPrim(1, []byte{0}, t.Bytes(t.Int(20))))
		}
		if t.One(2) {
			parts = append(parts, ctxPrim(2, []byte{0}, t.Bytes(t.Int(20))))
		}
		w.Hit("foreign-unique-id")
	}
	if len(exts) > 0 {
		parts = append(parts, ctx(3, seq(exts...)))
	}
	tbs := seq(parts...)
	is.der = handSigned(t, is.by, alg, tbs)
	c.signed = append(c.signed, signedTBS{is.by, clone(tbs)})
	how := fmt.Sprintf("another implementation's version %d certificate of a %s key by a %s key, algorithm %v", version, is.key.kind, is.by.kind, alg)
	w.Log("%s: %d bytes", how, len(is.der))
	w.Hit("foreign")
	var err error
	g := guard(is.der)
	w.API("ParseCertificate", limSmall+int64(len(is.der))*2000, func() { is.cert, err = x509.ParseCertificate(g.b) })
	w.Check(err == nil && is.cert != nil, "foreign-parse", "%s does not parse: %v (%x)", how, err, is.der)
	w.Check(g.intact(), "arguments", "parsing changed the certificate's bytes")
	p := is.cert
	if d := viewOf(tm).differs(viewOf(p)); d == "" && !sameIPs(p.IPAddresses, tm.IPAddresses) {
		w.Fail("field", "%s: the addresses are read as %x, not %x", how, p.IPAddresses, tm.IPAddresses)
	} else if d != "" {
		w.Fail("foreign-field", "%s: %s (%x)", how, d, is.der)
	}
	got := oids(p.UnhandledCriticalExtensions)
	sort.Strings(got)
	sort.Strings(unhandled)
	w.Check(eqv(got, unhandled), "foreign-critical", "%s: the unhandled critical extensions are %v, not %v (%x)", how, got, unhandled, is.der)
	w.Check(len(p.Extensions) == len(exts), "foreign-extensions", "%s: %d extensions, not %d (%x)", how, len(p.Extensions), len(exts), is.der)
	for i, x := range p.Extensions {
		crit := []byte{}
		if x.Critical {
			crit = boolean(true)
		}
		w.Check(bytes.Equal(seq(oid(x.Id.String()), crit, octets(x.Value)), exts[i]), "foreign-extensions", "%s: extension %d is %v", how, i, x)
	}
	w.Check(p.Version == version && p.SignatureAlgorithm == alg, "foreign-field", "%s: read as version %d, algorithm %v", how, p.Version, p.SignatureAlgorithm)
	w.Check(parsedNameSet(p.Subject) == rawNameSet(subject) && parsedNameSet(p.Issuer) == rawNameSet(issuer), "foreign-name", "%s: the names are %q and %q, not %q and %q", how, parsedNameSet(p.Subject), parsedNameSet(p.Issuer), rawNameSet(subject), rawNameSet(issuer))
	w.Check(bytes.Equal(p.RawSubject, subject) && bytes.Equal(p.RawIssuer, issuer) && bytes.Equal(p.Raw, is.der) && bytes.Equal(p.RawTBSCertificate, tbs) && bytes.Equal(p.RawSubjectPublicKeyInfo, is.key.spki), "raw", "%s: the raw fields are not the parts of the encoding", how)
	w.Check(eqPub(is.key, p.PublicKey), "key", "%s: parsed key is %v", how, p.PublicKey)
	w.Check(bytes.Equal(p.AuthorityKeyId, aki) && bytes.Equal(p.SubjectKeyId, tm.SubjectKeyId), "key-id", "%s: the key ids are %x and %x, not %x and %x", how, p.AuthorityKeyId, p.SubjectKeyId, aki, tm.SubjectKeyId)
	if parent != nil {
		c.check(p, is, "intact", parent, true)
	} else if version == 3 {
		c.check(p, is, "intact", is, true)
	}
	if version == 3 { // nothing says whether those of old are authorities
		c.certs = append(c.certs, is)
	}
}

// foreignRequest is a certificate request of another implementation.
func (c *c14world) foreignRequest() {
	w, t := c.w, c.w.T
	it := &c14item{kind: 0, key: someKey(t)}
	alg := someAlg(t, it.key)
	tm := &x509.Certificate{}
	subject := richName(t)
	if t.One(8) {
		subject = seq()
	}
	// Extensions asked for, in one or more requests, and other attributes around them.
	var attrs [][]byte
	var want []pkix.Extension
	ids := []string{"1.2.840.5.1", "2.5.29.15", "2.5.29.17", "2.5.29.37", "2.5.29.19", "1.3.6.1.4.1.311.20.2"}
	shuffle(t, ids)
	for i := t.Weighted(2, 3, 2, 1); i > 0 && len(ids) > 0; i-- {
		n := t.Int(len(ids) + 1)
		var one [][]byte
		for _, id := range ids[:n] {
			x := pkix.Extension{Critical: t.One(3), Value: seq(octets(t.Bytes(t.Int(40))))}
			asn1.Unmarshal(oid(id), &x.Id)
			if id == "2.5.29.17" {
				sans(t, tm)
				x.Value = seq(generalNames(t, tm)...)
			}
			want = append(want, x)
			one = append(one, ext(id, x.Critical, x.Value))
		}
		ids = ids[n:]
		attrs = append(attrs, seq(oid("1.2.840.113549.1.9.14"), set(seq(one...))))
		if i == 1 && len(attrs) > 1 {
			w.Hit("foreign-several-requests")
		}
	}
	for i := t.Weighted(2, 1, 1); i > 0; i-- {
		a := [][]byte{
			seq(oid("1.2.840.113549.1.9.7"), set(printa("secret"))),
			seq(oid("1.2.840.113549.1.9.2"), set(tlv(22, []byte("host.example")))),
			seq(oid("1.3.6.1.4.1.311.13.2.3"), set(tlv(22, []byte("10.0.1")))),
			seq(oid("1.2.3.4.5"), set()),
			seq(oid("1.2.3.4.6"), set(integer(1), integer(2), seq(oid("1.2.3"), null()))),
		}[t.Int(5)]
		at := t.Int(len(attrs) + 1)
		attrs = append(attrs[:at], append([][]byte{a}, attrs[at:]...)...)
	}
	it.tbs = seq(integer(0), subject, it.key.spki, ctx(0, attrs...))
	it.der = handSigned(t, it.key, alg, it.tbs)
	how := fmt.Sprintf("another implementation's request by a %s key, algorithm %v", it.key.kind, alg)
	w.Log("%s: %d bytes", how, len(it.der))
	w.Hit("foreign-request")
	var p *x509.CertificateRequest
	var err error
	w.API("ParseCertificateRequest", limSmall+int64(len(it.der))*2000, func() { p, err = x509.ParseCertificateRequest(it.der) })
	w.Check(err == nil && p != nil, "foreign-parse", "%s does not parse: %v (%x)", how, err, it.der)
	w.Check(eqv(p.Extensions, want), "foreign-extensions", "%s: the extensions asked for are %v, not %v (%x)", how, p.Extensions, want, it.der)
	w.Check(eqv(p.DNSNames, tm.DNSNames) && eqv(p.EmailAddresses, tm.EmailAddresses) && sameIPs(p.IPAddresses, tm.IPAddresses) && eqv(urlStrings(p.URIs), urlStrings(tm.URIs)), "names", "%s: the alternative names are %v %v %v %v, not %v %v %v %v", how, p.DNSNames, p.EmailAddresses, p.IPAddresses, p.URIs, tm.DNSNames, tm.EmailAddresses, tm.IPAddresses, tm.URIs)
	w.Check(p.Version == 0 && p.SignatureAlgorithm == alg && parsedNameSet(p.Subject) == rawNameSet(subject) && eqPub(it.key, p.PublicKey), "foreign-field", "%s: read as version %d, algorithm %v, subject %q (not %q), key %v", how, p.Version, p.SignatureAlgorithm, parsedNameSet(p.Subject), rawNameSet(subject), p.PublicKey)
	w.Check(bytes.Equal(p.Raw, it.der) && bytes.Equal(p.RawTBSCertificateRequest, it.tbs) && bytes.Equal(p.RawSubject, subject) && bytes.Equal(p.RawSubjectPublicKeyInfo, it.key.spki), "raw", "%s: the raw fields are not the parts of the encoding", how)
	w.API("(*CertificateRequest).CheckSignature", limBig, func() { err = p.CheckSignature() })
	w.Check(err == nil, "check", "%s does not check: %v (%x)", how, err, it.der)
	c.items = append(c.items, it)
}

// foreignList is a revocation list of another implementation.
func (c *c14world) foreignList() {
	w, t := c.w, c.w.T
	it := &c14item{kind: 1, key: someKey(t)}
	alg := someAlg(t, it.key)
	v2 := !t.One(4)
	issuer := richName(t)
	from := someDate(t)
	var to time.Time
	var parts [][]byte
	if v2 {
		parts = append(parts, integer(1))
	}
	parts = append(parts, algDER(alg), issuer, asn1time(from))
	if !t.One(4) {
		to = from.Add(time.Duration(t.Int(1000)) * time.Hour)
		parts = append(parts, asn1time(to))
	} else {
		w.Hit("foreign-no-next-update")
	}
	revoked := someRevoked(t)
	var list [][]byte
	for i := range revoked {
		r := &revoked[i]
		if !v2 {
			r.Extensions = nil
		} else if t.One(3) {
			r.Extensions = append(r.Extensions, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 24}, Value: gentime(from)}, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 29}, Critical: true, Value: seq(ctx(4, someName(t)))})
		}
		one := [][]byte{bigInteger(r.SerialNumber), asn1time(r.RevocationTime)}
		if len(r.Extensions) > 0 {
			var x [][]byte
			for _, e := range r.Extensions {
				x = append(x, ext(e.Id.String(), e.Critical, e.Value))
			}
			one = append(one, seq(x...))
		}
		list = append(list, seq(one...))
	}
	if len(list) > 0 {
		parts = append(parts, seq(list...))
	}
	var exts []pkix.Extension
	if v2 && !t.One(4) {
		exts = append(exts, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 20}, Value: bigInteger(someSerial(t))})
		if t.One(2) {
			exts = append(exts, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 35}, Value: seq(ctxPrim(0, t.Bytes(20)))})
		}
		if t.One(2) {
			exts = append(exts, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 28}, Critical: true, Value: seq(ctxPrim(1, []byte{0xff}))})
		}
		if t.One(4) {
			exts = append(exts, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 27}, Critical: true, Value: bigInteger(big.NewInt(int64(t.Int(1000))))})
		}
		shuffle(t, exts)
		var x [][]byte
		for _, e := range exts {
			x = append(x, ext(e.Id.String(), e.Critical, e.Value))
		}
		parts = append(parts, ctx(0, seq(x...)))
	}
	it.tbs = seq(parts...)
	it.der = handSigned(t, it.key, alg, it.tbs)
	how := fmt.Sprintf("another implementation's revocation list by a %s key, algorithm %v, %d entries", it.key.kind, alg, len(revoked))
	w.Log("%s: %d bytes", how, len(it.der))
	w.Hit("foreign-list")
	var p *pkix.CertificateList
	var err error
	w.API("ParseCRL", limSmall+int64(len(it.der))*2000, func() { p, err = x509.ParseCRL(it.der) })
	w.Check(err == nil && p != nil, "foreign-parse", "%s does not parse: %v (%x)", how, err, it.der)
	tl := p.TBSCertList
	var nm pkix.Name
	nm.FillFromRDNSequence(&tl.Issuer)
	version := 0
	if v2 {
		version = 1
	}
	w.Check(tl.Version == version && parsedNameSet(nm) == rawNameSet(issuer) && sec(tl.ThisUpdate) == sec(from) && sec(tl.NextUpdate) == sec(to), "foreign-field", "%s: read as version %d, issuer %q (not %q), times %v %v (not %v %v)", how, tl.Version, parsedNameSet(nm), rawNameSet(issuer), tl.ThisUpdate, tl.NextUpdate, from, to)
	w.Check(len(tl.RevokedCertificates) == len(revoked), "entries", "%s: parsed %d entries", how, len(tl.RevokedCertificates))
	for i, r := range revoked {
		g := tl.RevokedCertificates[i]
		w.Check(g.SerialNumber.Cmp(r.SerialNumber) == 0 && g.RevocationTime.Equal(r.RevocationTime) && eqv(g.Extensions, r.Extensions), "entries", "%s: entry %d is %v, not %v", how, i, g, r)
	}
	w.Check(eqv(tl.Extensions, exts), "extensions", "%s: the extensions are %v, not %v", how, tl.Extensions, exts)
	if s, err := stdx509.ParseRevocationList(it.der); err == nil {
		w.Check(len(s.RevokedCertificateEntries) == len(revoked), "std-field", "the standard library reads %s differently", how)
	}
	pub := &x509.Certificate{PublicKey: it.key.pub}
	w.API("CheckCRLSignature", limBig, func() { err = pub.CheckCRLSignature(p) })
	w.Check(err == nil, "check", "%s does not check: %v (%x)", how, err, it.der)
	late := from.Add(100 * 365 * 24 * time.Hour)
	w.Check(to.IsZero() || p.HasExpired(late), "expired", "%s has not expired after a hundred years", how)
	c.items = append(c.items, it)
}
