package main

import (
	"bytes"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"time"

	"github.com/mmdet/mcrypto/x509"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C14", Run: c14, Quick: 4500, Thorough: 250000,
		Rule:   "One evaluation is one simulated run: concurrent parties create certificate requests and revocation lists with SM2, RSA, ECDSA or Ed25519 keys, a network alters, splices and mis-routes them, receivers parse and check them under right and wrong keys. Fields are compared with the template through the library's parser, the standard library's and a hand-written reader; each accepted signature is justified by independent verification and the record of what was signed.",
		Real:   []string{"x509 certificate request and revocation list creation, parsing and signature checks", "sm2, sm3"},
		Stub:   []string{"signers (application side)", "network (simulated)", "goroutine scheduling (simulator)"},
		Need:   []string{"preempted", "net-damage", "net-splice", "wrong-key", "CreateCertificateRequest", "CreateCRL", "CreateRevocationList", "refused-issuer", "pem", "issuer-as-read", "odd-refused", "sm2", "rsa", "p256", "p384", "p521", "p224", "ed25519", "attributes", "attribute-priority", "intact-accepted", "no-entries", "foreign-request", "foreign-several-requests", "foreign-list", "foreign-no-next-update", "malformed-request", "malformed-list"},
		Assume: []string{"ref/ implements SM2 and SM3; Go's crypto/x509, RSA, ECDSA, Ed25519 are right", "template texts are valid UTF-8, times within 1950-9999"},
	})
}

type c14item struct {
	kind int // 0 request, 1 CRL, 2 revocation list
	der  []byte
	key  *signKey
	tbs  []byte
}

type c14world struct {
	w     *vsim.World
	items []*c14item
}

func c14(w *vsim.World) {
	t := w.T
	swarm(w)
	c := &c14world{w: w}
	p := w.NewProc("makers")
	w.Do(p, "first", func() { c.make() })
	tasks := 1 + t.Int(2)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(2)
		w.Go(p, fmt.Sprintf("m%d", i), func() {
			for j := 0; j < ops; j++ {
				switch t.Weighted(6, 1, 1) {
				case 0:
					c.make()
				case 1:
					c.foreignRequest()
				case 2:
					c.foreignList()
				}
			}
			if t.One(3) {
				c.refused()
			}
			if t.One(3) {
				c.odd()
			}
			if t.One(2) {
				for n := 1 + t.Int(3); n > 0; n-- {
					c.malformedRequest()
					c.malformedList()
				}
			}
		})
	}
	r := w.NewProc("receivers")
	readers := 1 + t.Int(2)
	for i := 0; i < readers; i++ {
		ops := 2 + t.Int(4)
		w.Go(r, fmt.Sprintf("r%d", i), func() {
			for j := 0; j < ops; j++ {
				c.deliver()
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks+readers+1) {
		w.Hit("preempted")
	}
}

func (c *c14world) make() {
	w, t := c.w, c.w.T
	it := &c14item{kind: t.Int(3), key: someKey(t)}
	pl := &plug{k: it.key, w: w}
	algs := it.key.algs()
	alg := algs[t.Int(len(algs))]
	w.Hit(it.key.kind)
	rnd := stream(w, t)
	var err error
	switch it.kind {
	case 0:
		w.Hit("CreateCertificateRequest")
		req := csrTemplate(t)
		req.SignatureAlgorithm = alg
		if t.One(4) {
			c.attributes(req)
		}
		if t.One(6) {
			req.RawSubject = someName(t)
		}
		w.API("CreateCertificateRequest", limBig, func() { it.der, err = x509.CreateCertificateRequest(rnd, req, pl) })
		how := fmt.Sprintf("a request by a %s key, algorithm %v", it.key.kind, alg)
		w.Check(err == nil, "create", "creating %s failed: %v", how, err)
		c.split(it, alg, how)
		c.requestFaithful(it, req, how)
	default:
		alg0 := alg
		parent := parentFor(t, it.key, t.One(2))
		revoked := someRevoked(t)
		from := someDate(t)
		to := from.Add(time.Duration(t.Int(1000)) * time.Hour)
		if len(revoked) == 0 {
			w.Hit("no-entries")
		}
		var num *big.Int
		var extra []pkix.Extension
		if it.kind == 1 {
			w.Hit("CreateCRL")
			alg0 = 0
			if t.One(4) {
				parent.SubjectKeyId = nil
			}
			w.API("CreateCRL", limBig, func() { it.der, err = parent.CreateCRL(rnd, pl, revoked, from, to) })
		} else {
			w.Hit("CreateRevocationList")
			num = someSerial(t)
			if t.One(3) {
				extra = append(extra, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3, 4, t.Int(200)}, Critical: t.One(3), Value: someValue(t, 60)})
			}
			rl := &x509.RevocationList{SignatureAlgorithm: alg, RevokedCertificates: revoked, Number: num, ThisUpdate: from, NextUpdate: to, ExtraExtensions: extra}
			w.API("CreateRevocationList", limBig, func() { it.der, err = x509.CreateRevocationList(rnd, rl, parent, pl) })
		}
		how := fmt.Sprintf("a revocation list (kind %d) by a %s key, algorithm %v, %d entries", it.kind, it.key.kind, alg0, len(revoked))
		w.Check(err == nil, "create", "creating %s failed: %v", how, err)
		c.split(it, alg0, how)
		c.listFaithful(it, parent, revoked, from, to, num, extra, how)
	}
	w.Log("made kind %d with a %s key: %d bytes", it.kind, it.key.kind, len(it.der))
	c.items = append(c.items, it)
}

// split takes the parts of a signed object and checks its signature independently.
func (c *c14world) split(it *c14item, alg x509.SignatureAlgorithm, how string) {
	w := c.w
	tbs, a, sig, ok := tbsOf(it.der)
	w.Check(ok, "form", "%s is not a signed object in DER: %s", how, hx(it.der))
	sa, ok := readAlg(a)
	w.Check(ok, "algorithm", "%s names an unknown algorithm %x", how, a.full)
	if alg != 0 {
		w.Check(algMatches(alg, sa), "algorithm", "%s is signed with %v", how, sa)
	}
	w.Check(it.key.verifies(sa, tbs, sig), "signature", "the signature of %s is not valid", how)
	it.tbs = clone(tbs)
}

var (
	asnExtReq = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
	asnSAN    = asn1.ObjectIdentifier{2, 5, 29, 17}
)

// attributes adds attributes in the old form.
func (c *c14world) attributes(req *x509.CertificateRequest) {
	t := c.w.T
	c.w.Hit("attributes")
	if t.One(2) { // with extensions of its own
		var have []pkix.AttributeTypeAndValue
		for i := 1 + t.Weighted(3, 2, 1, 1, 1); i > 0; i-- {
			have = append(have, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{1, 2, 840, 77, 10*i + t.Int(5)}, Value: t.Bytes(t.Int(30))})
		}
		if t.One(4) { // one that is asked for in the template, too: the attribute takes priority
			c.w.Hit("attribute-priority")
			switch {
			case len(req.ExtraExtensions) > 0 && t.One(2):
				have = append(have, pkix.AttributeTypeAndValue{Type: req.ExtraExtensions[0].Id, Value: t.Bytes(t.Int(30))})
			default:
				have = append(have, pkix.AttributeTypeAndValue{Type: asnSAN, Value: seq(ctxPrim(2, []byte("attr.example")))})
			}
			i := t.Int(len(have))
			have[i], have[len(have)-1] = have[len(have)-1], have[i]
		}
		req.Attributes = append(req.Attributes, pkix.AttributeTypeAndValueSET{Type: asnExtReq, Value: [][]pkix.AttributeTypeAndValue{have}})
	}
	if t.One(2) {
		req.Attributes = append(req.Attributes, pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, 3, 9}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, 3, 10}, Value: word(t)}}}})
	}
}

func extString(x pkix.Extension, crit bool) string {
	if !crit {
		return fmt.Sprintf("%v %x", x.Id, x.Value)
	}
	return fmt.Sprintf("%v %v %x", x.Id, x.Critical, x.Value)
}

func (c *c14world) requestFaithful(it *c14item, req *x509.CertificateRequest, how string) {
	w := c.w
	var p *x509.CertificateRequest
	var err error
	g := guard(it.der)
	w.API("ParseCertificateRequest", limSmall+int64(len(it.der))*2000, func() { p, err = x509.ParseCertificateRequest(g.b) })
	w.Check(err == nil && p != nil, "parse", "%s does not parse: %v", how, err)
	w.Check(g.intact(), "arguments", "parsing changed the request's bytes")
	e := readEl(it.der)
	w.Check(e.at(0, 0).num() != nil && e.at(0, 0).num().Sign() == 0 && p.Version == 0, "version", "%s is not version 0", how)
	subj := nameSet(req.Subject)
	if req.RawSubject != nil {
		w.Check(bytes.Equal(e.at(0, 1).full, req.RawSubject), "subject", "%s: the subject is not the one given", how)
		subj = rawNameSet(req.RawSubject)
	}
	w.Check(rawNameSet(e.at(0, 1).full) == subj && parsedNameSet(p.Subject) == subj, "subject", "%s: the subject is %q, parsed %q, not %q", how, rawNameSet(e.at(0, 1).full), parsedNameSet(p.Subject), subj)
	w.Check(bytes.Equal(e.at(0, 2).full, it.key.spki) && eqPub(it.key, p.PublicKey), "key", "%s carries another key than the signer's", how)
	w.Check(bytes.Equal(p.Raw, it.der) && bytes.Equal(p.RawTBSCertificateRequest, it.tbs) && bytes.Equal(p.RawSubject, e.at(0, 1).full) && bytes.Equal(p.RawSubjectPublicKeyInfo, it.key.spki), "raw", "%s: the raw fields are not the parts of the encoding", how)
	// extensions given as attributes take priority
	old := false
	prior := map[string]bool{}
	dns, email, ips, uris := req.DNSNames, req.EmailAddresses, ipStrings(req.IPAddresses), urlStrings(req.URIs)
	for _, a := range req.Attributes {
		if a.Type.Equal(asnExtReq) {
			old = true
			for _, v := range a.Value[0] {
				prior[v.Type.String()] = true
			}
		}
	}
	if prior[asnSAN.String()] {
		dns, email, ips, uris = []string{"attr.example"}, nil, nil, nil
	}
	w.Check(eqv(p.DNSNames, dns) && eqv(p.EmailAddresses, email) && eqv(ipStrings(p.IPAddresses), ips) && eqv(urlStrings(p.URIs), uris), "names", "%s: the alternative names are %v %v %v %v, not %v %v %v %v", how, p.DNSNames, p.EmailAddresses, p.IPAddresses, p.URIs, dns, email, ips, uris)
	// extensions: those asked for, each once
	count := map[string]int{}
	for _, x := range p.Extensions {
		count[extString(x, !old)]++
		count[x.Id.String()]++
	}
	n := 0
	for _, x := range req.ExtraExtensions {
		if prior[x.Id.String()] {
			continue
		}
		n++
		w.Check(count[extString(x, !old)] == 1, "extensions", "%s: extension %s is not in the parsed request: %v", how, extString(x, true), p.Extensions)
	}
	if len(req.DNSNames)+len(req.EmailAddresses)+len(req.IPAddresses)+len(req.URIs) > 0 && !prior[asnSAN.String()] {
		n++
		w.Check(count[asnSAN.String()] == 1, "extensions", "%s: no alternative names extension", how)
	}
	for _, a := range req.Attributes {
		if a.Type.Equal(asnExtReq) {
			for _, v := range a.Value[0] {
				n++
				w.Check(count[fmt.Sprintf("%v %x", v.Type, v.Value)] == 1, "extensions", "%s: extension %v given as an attribute is not in the parsed request", how, v.Type)
			}
			continue
		}
		found := false
		for _, b := range p.Attributes {
			found = found || b.Type.Equal(a.Type) && eqv(b.Value, a.Value)
		}
		w.Check(found, "attributes", "%s: attribute %v is not in the parsed request", how, a)
	}
	w.Check(len(p.Extensions) == n, "extensions", "%s: parsed %d extensions, requested %d", how, len(p.Extensions), n)
	w.API("(*CertificateRequest).CheckSignature", limBig, func() { err = p.CheckSignature() })
	w.Check(err == nil, "check", "%s does not check: %v", how, err)
	// the standard library
	der := it.der
	if it.key.kind == "sm2" {
		alg := seq(oid("1.2.840.10045.4.3.2"))
		var parts [][]byte
		for i, k := range e.at(0).kids {
			if i == 2 {
				parts = append(parts, p256SPKI())
			} else {
				parts = append(parts, k.full)
			}
		}
		der = seq(seq(parts...), alg, e.at(2).full)
	}
	s, err := stdx509.ParseCertificateRequest(der)
	w.Check(err == nil, "std-parse", "the standard library cannot read %s: %v", how, err)
	if it.key.kind != "sm2" {
		err = s.CheckSignature()
		w.Check(err == nil, "std-check", "the standard library does not accept %s: %v", how, err)
	}
	w.Check(eqv(s.DNSNames, dns) && eqv(s.EmailAddresses, email) && eqv(ipStrings(s.IPAddresses), ips) && eqv(urlStrings(s.URIs), uris) && len(s.Extensions) == n && parsedNameSet(s.Subject) == subj, "std-field", "the standard library reads %s differently", how)
}

func (c *c14world) listFaithful(it *c14item, parent *x509.Certificate, revoked []pkix.RevokedCertificate, from, to time.Time, num *big.Int, extra []pkix.Extension, how string) {
	w, t := c.w, c.w.T
	in := it.der
	viaPEM := t.One(3)
	if viaPEM {
		bl := &pem.Block{Type: "X509 CRL", Bytes: it.der}
		if t.One(3) {
			bl.Headers = map[string]string{"Comment": "of today"}
		}
		in = pem.EncodeToMemory(bl)
		w.Hit("pem")
		switch t.Weighted(3, 1, 1, 1) { // what tools put behind it
		case 1:
			in = append(in, pem.EncodeToMemory(&pem.Block{Type: [...]string{"CERTIFICATE", "X509 CRL"}[t.Int(2)], Bytes: t.Bytes(t.Int(50))})...)
		case 2:
			in = append(in, "\n\nissued today\n"...)
		case 3:
			in = bytes.ReplaceAll(in, []byte("\n"), []byte("\r\n"))
		}
	}
	var p *pkix.CertificateList
	var err error
	w.API("ParseCRL", limSmall+int64(len(in))*2000, func() {
		if viaPEM || t.One(2) {
			p, err = x509.ParseCRL(in)
		} else {
			p, err = x509.ParseDERCRL(in)
		}
	})
	w.Check(err == nil && p != nil, "parse", "%s does not parse (PEM: %v): %v", how, viaPEM, err)
	tl := p.TBSCertList
	w.Check(tl.Version == 1, "version", "%s has version %d", how, tl.Version)
	var nm pkix.Name
	nm.FillFromRDNSequence(&tl.Issuer)
	issuer := nameSet(parent.Subject)
	if parent.RawSubject != nil {
		w.Hit("issuer-as-read")
		issuer = rawNameSet(parent.RawSubject)
		raw := readEl(it.tbs).at(2).full
		w.Check(bytes.Equal(raw, parent.RawSubject), "issuer", "%s: issuer is %s (%q), not the name in the issuer's certificate, %s (%q)", how, hx(raw), rawNameSet(raw), hx(parent.RawSubject), issuer)
	}
	w.Check(parsedNameSet(nm) == issuer, "issuer", "%s: issuer is %q, not %q", how, parsedNameSet(nm), issuer)
	w.Check(tl.ThisUpdate.Equal(from.Truncate(time.Second)) && tl.NextUpdate.Equal(to.Truncate(time.Second)), "times", "%s: times are %v and %v, not %v and %v", how, tl.ThisUpdate, tl.NextUpdate, from, to)
	w.Check(len(tl.RevokedCertificates) == len(revoked), "entries", "%s: parsed %d entries", how, len(tl.RevokedCertificates))
	for i, r := range revoked {
		g := tl.RevokedCertificates[i]
		w.Check(g.SerialNumber.Cmp(r.SerialNumber) == 0 && g.RevocationTime.Equal(r.RevocationTime) && eqv(g.Extensions, r.Extensions), "entries", "%s: entry %d is %v, not %v", how, i, g, r)
	}
	want := []pkix.Extension{}
	if len(parent.SubjectKeyId) > 0 {
		want = append(want, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 35}, Value: seq(ctxPrim(0, parent.SubjectKeyId))})
	}
	if num != nil {
		want = append(want, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 20}, Value: bigInteger(num)})
	}
	want = append(want, extra...)
	got := map[string]int{}
	for _, x := range tl.Extensions {
		got[extString(x, true)]++
	}
	for _, x := range want {
		w.Check(got[extString(x, true)] == 1, "extensions", "%s: extension %s is not there: %v", how, extString(x, true), tl.Extensions)
	}
	w.Check(len(tl.Extensions) == len(want), "extensions", "%s: %d extensions, not %d", how, len(tl.Extensions), len(want))
	// the hand-written reader: form of the times, and UTC
	e := readEl(it.tbs)
	for i := 3; i <= 4; i++ {
		x, ok := e.at(i).time()
		w.Check(ok && (e.at(i).tag == 23) == (x.Year() >= 1950 && x.Year() < 2050), "time-form", "%s: time %s is not in the form the profile demands", how, hx(e.at(i).full))
	}
	if len(revoked) > 0 {
		for i, k := range e.at(5).kids {
			x, ok := k.at(1).time()
			w.Check(ok && (k.at(1).tag == 23) == (x.Year() >= 1950 && x.Year() < 2050), "time-form", "%s: the time %s of entry %d is not in the form the profile demands", how, hx(k.at(1).full), i)
		}
	}
	// the standard library
	s, err := stdx509.ParseRevocationList(it.der)
	w.Check(err == nil, "std-parse", "the standard library cannot read %s: %v", how, err)
	w.Check(s.ThisUpdate.Equal(from.Truncate(time.Second)) && s.NextUpdate.Equal(to.Truncate(time.Second)) && len(s.RevokedCertificates) == len(revoked) && parsedNameSet(s.Issuer) == issuer, "std-field", "the standard library reads %s differently", how)
	if num != nil {
		w.Check(s.Number != nil && s.Number.Cmp(num) == 0, "std-field", "the standard library reads number %v in %s, not %v", s.Number, how, num)
	}
	for i, r := range revoked {
		g := s.RevokedCertificates[i]
		w.Check(g.SerialNumber.Cmp(r.SerialNumber) == 0 && g.RevocationTime.Equal(r.RevocationTime), "std-field", "%s: the standard library reads entry %d as %v, not %v", how, i, g, r)
	}
	if it.key.kind != "sm2" {
		err = (&stdx509.Certificate{Version: 3, BasicConstraintsValid: true, IsCA: true, KeyUsage: stdx509.KeyUsageCRLSign, PublicKeyAlgorithm: map[string]stdx509.PublicKeyAlgorithm{"rsa": stdx509.RSA, "ed25519": stdx509.Ed25519}[it.key.kind], PublicKey: it.key.pub}).CheckSignature(s.SignatureAlgorithm, s.RawTBSRevocationList, s.Signature)
		w.Check(err == nil, "std-check", "the standard library does not accept %s: %v", how, err)
	}
	pub := &x509.Certificate{PublicKey: it.key.pub}
	w.API("CheckCRLSignature", limBig, func() { err = pub.CheckCRLSignature(p) })
	w.Check(err == nil, "check", "%s does not check: %v", how, err)
}

// refused are revocation lists that must not be made.
func (c *c14world) refused() {
	w, t := c.w, c.w.T
	k := someKey(t)
	pl := &plug{k: k, w: w}
	parent := parentFor(t, k, true)
	from := someDate(t)
	rl := &x509.RevocationList{RevokedCertificates: someRevoked(t), Number: someSerial(t), ThisUpdate: from, NextUpdate: from.Add(time.Hour)}
	how := ""
	switch t.Int(7) {
	case 0:
		parent.KeyUsage, how = 0, "an issuer without key usage"
	case 1:
		parent.KeyUsage, how = x509.KeyUsage(t.Int(512))&^x509.KeyUsageCRLSign, "an issuer that must not sign lists"
	case 2:
		parent.SubjectKeyId, how = nil, "an issuer without key id"
	case 3:
		rl.NextUpdate, how = from.Add(-time.Duration(1+t.Int(1_000_000))*time.Second), "inverted times"
	case 4:
		rl.Number, how = nil, "no number"
	case 5:
		rl, how = nil, "no template"
	case 6:
		parent, how = nil, "no issuer"
	}
	w.Hit("refused-issuer")
	var out []byte
	var err error
	w.API("CreateRevocationList", limBig, func() { out, err = x509.CreateRevocationList(stream(w, t), rl, parent, pl) })
	w.Check(err != nil && len(out) == 0, "not-refused", "CreateRevocationList with %s gives %d bytes and error %v", how, len(out), err)
}

func (c *c14world) reallySigned(pub any, tbs []byte) bool {
	for _, it := range c.items {
		if bytes.Equal(it.tbs, tbs) && eqPub(it.key, pub) {
			return true
		}
	}
	return false
}

func (c *c14world) deliver() {
	w, t := c.w, c.w.T
	it := c.items[t.Int(len(c.items))]
	other := c.items[t.Int(len(c.items))]
	der, how := clone(it.der), "intact"
	switch t.Weighted(3, 5, 2, 2, 2, 2) {
	case 5:
		a := readEl(it.der)
		sig, what := twist(t, it.key.pub, a.at(2).val[1:])
		der, how = seq(a.at(0).full, a.at(1).full, bits(sig)), "the signature with "+what
		w.Fired("twisted-signature")
	case 1:
		der, how = vsim.Damage(t, der, other.der)
		w.Fired("net-damage")
	case 2:
		a, b := readEl(it.der), readEl(other.der)
		parts := [3][]byte{}
		for i := range parts {
			parts[i] = a.at(i).full
			if t.One(2) {
				parts[i] = b.at(i).full
			}
		}
		der, how = seq(parts[:]...), "spliced"
		w.Fired("net-splice")
	case 3:
		a, b := readEl(it.der), readEl(other.der)
		i := t.Int(len(a.at(0).kids))
		var f [][]byte
		for j, k := range a.at(0).kids {
			v := k.full
			if j == i && j < len(b.at(0).kids) {
				v = b.at(0, j).full
			}
			f = append(f, v)
		}
		der, how = seq(seq(f...), a.at(1).full, a.at(2).full), "field exchanged"
		w.Fired("net-splice")
	case 4: // the algorithm outside the signed part
		a := readEl(it.der)
		der, how = seq(a.at(0).full, seq(otherAlg(t, a.at(1), readEl(other.der).at(1))), a.at(2).full), "algorithm exchanged"
		w.Fired("net-splice")
	}
	intact := bytes.Equal(der, it.der)
	if it.kind == 0 || t.One(10) {
		c.receiveRequest(der, it, how, intact && it.kind == 0)
		return
	}
	c.receiveList(der, it, how, intact)
}

func (c *c14world) receiveRequest(der []byte, it *c14item, how string, intact bool) {
	w := c.w
	var p *x509.CertificateRequest
	var err error
	w.API("ParseCertificateRequest", limSmall+int64(len(der))*4000, func() { p, err = x509.ParseCertificateRequest(der) })
	if err != nil {
		w.Check(!intact, "parse", "an intact request does not parse: %v", err)
		w.Log("%s request: refused at parsing", how)
		return
	}
	w.API("(*CertificateRequest).CheckSignature", limBig, func() { err = p.CheckSignature() })
	w.Log("%s request: %s", how, errStr(err))
	if intact {
		w.Check(err == nil, "check", "an intact request does not check: %v", err)
		w.Hit("intact-accepted")
		return
	}
	if err == nil {
		c.justify(p.PublicKey, p.SignatureAlgorithm, p.RawTBSCertificateRequest, p.Signature, der, how)
		e := readEl(p.RawTBSCertificateRequest)
		w.Check(e == nil || bytes.Equal(e.at(1).full, p.RawSubject) && bytes.Equal(e.at(2).full, p.RawSubjectPublicKeyInfo), "accepted-misread", "an accepted request (%s) is not read as it was signed", how)
	}
	// under another key
	o := it.key.another(w.T)
	w.Hit("wrong-key")
	p.PublicKey = o.pub
	w.API("(*CertificateRequest).CheckSignature", limBig, func() { err = p.CheckSignature() })
	if err == nil {
		c.justify(o.pub, p.SignatureAlgorithm, p.RawTBSCertificateRequest, p.Signature, der, how)
	}
}

func (c *c14world) receiveList(der []byte, it *c14item, how string, intact bool) {
	w, t := c.w, c.w.T
	var p *pkix.CertificateList
	var err error
	w.API("ParseCRL", limSmall+int64(len(der))*4000, func() { p, err = x509.ParseCRL(der) })
	if err != nil {
		w.Check(!intact, "parse", "an intact revocation list does not parse: %v", err)
		w.Log("%s list: refused at parsing", how)
		return
	}
	for i := 1 + t.Int(2); i > 0; i-- {
		k := it.key
		if t.One(2) {
			k = it.key.another(t)
			if t.One(3) {
				k = someKey(t)
			}
			w.Hit("wrong-key")
		}
		iss := &x509.Certificate{PublicKey: k.pub}
		w.API("CheckCRLSignature", limBig, func() { err = iss.CheckCRLSignature(p) })
		w.Log("%s list: %s", how, errStr(err))
		if intact && k.same(it.key) {
			w.Check(err == nil, "check", "an intact revocation list does not check under its issuer's key: %v", err)
			w.Hit("intact-accepted")
			continue
		}
		if err != nil {
			continue
		}
		alg, ok := readAlg(readEl(mustMarshal(p.SignatureAlgorithm)))
		// The algorithm is named beside what is signed, too: an odd encoding of it is no forgery if the signature is
		// valid under some algorithm of the key's kind.
		s := x509.SignatureAlgorithm(-1)
		for v := x509.SignatureAlgorithm(1); v < 40; v++ {
			if ok && algMatches(v, alg) {
				s = v
			} else if !ok && justified(k.pub, v, p.TBSCertList.Raw, p.SignatureValue.RightAlign()) {
				s = v
			}
		}
		c.justify(k.pub, s, p.TBSCertList.Raw, p.SignatureValue.RightAlign(), der, how)
		// what it says is what was signed
		var back pkix.TBSCertificateList
		_, e2 := asn1.Unmarshal(p.TBSCertList.Raw, &back)
		w.Check(e2 == nil && eqv(back.RevokedCertificates, p.TBSCertList.RevokedCertificates) && back.ThisUpdate.Equal(p.TBSCertList.ThisUpdate), "accepted-misread", "an accepted list (%s) is not read as it was signed", how)
	}
}

func mustMarshal(v any) []byte {
	b, err := asn1.Marshal(v)
	if err != nil {
		return nil
	}
	return b
}

func (c *c14world) justify(pub any, alg x509.SignatureAlgorithm, tbs, sig, der []byte, how string) {
	w := c.w
	if !c.reallySigned(pub, tbs) {
		w.Fail("accepted-forged", "%s bytes are accepted under a key that never signed them: %x", how, der)
	}
	if e := readEl(der); e != nil {
		w.Check(statesKind(pub, e.at(1)), "accepted-algorithm", "%s bytes are accepted though the algorithm they state is none of the key's kind: %x", how, e.at(1).full)
	}
	w.Check(justified(pub, alg, tbs, sig), "accepted-bad-signature", "%s bytes are accepted though the signature is not valid: %x", how, der)
}

// odd asks for a request with something the format cannot carry: that is refused, or the request says it.
func (c *c14world) odd() {
	w, t := c.w, c.w.T
	k := someKey(t)
	req := csrTemplate(t)
	req.ExtraExtensions = nil
	var tm x509.Certificate
	how := spoil(t, &tm)
	req.DNSNames, req.EmailAddresses, req.URIs = append(req.DNSNames, tm.DNSNames...), append(req.EmailAddresses, tm.EmailAddresses...), append(req.URIs, tm.URIs...)
	req.ExtraExtensions = append(req.ExtraExtensions, tm.ExtraExtensions...)
	req.SignatureAlgorithm = tm.SignatureAlgorithm
	if tm.Subject.CommonName != "" {
		req.Subject, req.RawSubject = tm.Subject, nil
	}
	w.Hit("odd-request")
	var out []byte
	var err error
	w.API("CreateCertificateRequest", limBig, func() { out, err = x509.CreateCertificateRequest(stream(w, t), req, &plug{k: k, w: w}) })
	how = "CreateCertificateRequest with " + how
	w.Log("%s: %d bytes, %v", how, len(out), err)
	if err != nil {
		w.Check(len(out) == 0, "odd-request", "%s gives %d bytes and error %v", how, len(out), err)
		w.Hit("odd-refused")
		return
	}
	it := &c14item{key: k, der: out}
	c.split(it, 0, how)
	c.items = append(c.items, it)
	var p *x509.CertificateRequest
	w.API("ParseCertificateRequest", limSmall+int64(len(out))*2000, func() { p, err = x509.ParseCertificateRequest(out) })
	w.Check(err == nil && p != nil, "odd-request", "%s gives a request that does not parse: %v", how, err)
	w.Check(eqv(p.DNSNames, req.DNSNames) && eqv(p.EmailAddresses, req.EmailAddresses) && eqv(urlStrings(p.URIs), urlStrings(req.URIs)), "odd-request", "%s: names are %q %q %q", how, p.DNSNames, p.EmailAddresses, p.URIs)
	w.Check(rawNameSet(p.RawSubject) == nameSet(req.Subject), "odd-request", "%s: subject is %q, not %q", how, rawNameSet(p.RawSubject), nameSet(req.Subject))
}
