package main

import (
	"bytes"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net/url"
	"strconv"
	"strings"
	"time"

	stdx509 "crypto/x509"

	"github.com/mmdet/mcrypto/x509"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C13", Run: c13, Quick: 3500, Thorough: 200000,
		Rule:   "One evaluation is one simulated run: concurrent authorities with SM2, RSA, ECDSA or Ed25519 keys issue roots, intermediates and end-entity certificates from decided templates; a network alters, splices and mis-routes them; receivers parse them and check them under right and wrong parents. Fields are compared with the template through the library's parser, the standard library's and a hand-written reader; each accepted signature is justified by independent verification and the record of what was signed.",
		Real:   []string{"x509 certificate creation, parsing and signature checks", "sm2, sm3"},
		Stub:   []string{"authorities' signers (application side)", "network (simulated)", "goroutine scheduling (simulator)"},
		Need:   []string{"preempted", "net-damage", "net-splice", "wrong-parent", "parent-not-ca", "parent-no-certsign", "right-parent-accepted", "impostor-parent", "mismatched-key", "sm2-by-sm2", "rsa", "p256", "p384", "p521", "p224", "ed25519", "bad-request", "odd-refused", "odd-issued", "bundle", "foreign", "foreign-unique-id", "foreign-v1", "foreign-v2", "foreign-constraint", "foreign-policy", "foreign-key-id", "foreign-distribution-point", "malformed-extension", "malformed-time", "malformed-name", "malformed-key", "malformed-extensions", "malformed-outside"},
		Assume: []string{"ref/ implements SM2 and SM3; Go's crypto/x509, RSA, ECDSA, Ed25519 are right", "template texts are valid UTF-8, times within 1950-9999"},
	})
}

// issued is a certificate as issued.
type issued struct {
	der    []byte
	cert   *x509.Certificate // as parsed by the library from intact bytes
	key    *signKey          // of the subject
	by     *signKey
	tmpl   *x509.Certificate
	parent *issued // nil: self-signed
}

type c13world struct {
	w       *vsim.World
	certs   []*issued
	signed  []signedTBS
	pending []*signKey
}

type signedTBS struct {
	key *signKey
	tbs []byte
}

func c13(w *vsim.World) {
	t := w.T
	swarm(w)
	c := &c13world{w: w}
	p := w.NewProc("authorities")
	w.Do(p, "root", func() {
		for i := 1 + t.Int(2); i > 0; i-- {
			c.issue(nil)
		}
	})
	tasks := 1 + t.Int(2)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(2)
		w.Go(p, fmt.Sprintf("ca%d", i), func() {
			for j := 0; j < ops; j++ {
				if t.One(4) {
					var by *issued
					if t.One(3) {
						by = c.certs[t.Int(len(c.certs))]
					}
					c.foreign(by)
					continue
				}
				c.issue(c.certs[t.Int(len(c.certs))])
			}
			if t.One(4) {
				c.refused(c.certs[t.Int(len(c.certs))])
			}
			if t.One(2) {
				for n := 1 + t.Int(5); n > 0; n-- {
					c.malformed(c.certs[t.Int(len(c.certs))])
				}
			}
			if t.One(3) {
				c.misstated(c.certs[t.Int(len(c.certs))])
			}
			if t.One(2) {
				c.odd(c.certs[t.Int(len(c.certs))])
			}
		})
	}
	r := w.NewProc("receivers")
	readers := 1 + t.Int(2)
	for i := 0; i < readers; i++ {
		ops := 2 + t.Int(4)
		w.Go(r, fmt.Sprintf("r%d", i), func() {
			for j := 0; j < ops; j++ {
				c.deliver()
			}
			if t.One(3) {
				c.bundle()
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks+readers+1) {
		w.Hit("preempted")
	}
}

func (c *c13world) reallySigned(pub any, tbs []byte) bool {
	for _, s := range c.signed {
		if bytes.Equal(s.tbs, tbs) && eqPub(s.key, pub) {
			return true
		}
	}
	return false
}

func eqPub(k *signKey, pub any) bool {
	return fmt.Sprintf("%T", k.pub) == fmt.Sprintf("%T", pub) && pubString(k.pub) == pubString(pub)
}

// issue makes one certificate under parent, or a self-signed one, and checks it.
func (c *c13world) issue(parent *issued) {
	w, t := c.w, c.w.T
	is := &issued{key: someKey(t), parent: parent}
	ca := parent == nil || t.One(2)
	is.tmpl = certTemplate(t, ca)
	if t.One(6) { // an extension given verbatim goes before the template's field
		san := seq(ctxPrim(2, []byte("override.example")))
		is.tmpl.ExtraExtensions = append(is.tmpl.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: san})
	}
	is.by = is.key
	pc := is.tmpl
	if parent != nil {
		is.by, pc = parent.key, parent.cert
		if t.One(8) { // the same name as the issuer
			is.tmpl.Subject = pkix.Name{}
			is.tmpl.RawSubject = clone(parent.cert.RawSubject)
		}
	}
	algs := is.by.algs()
	is.tmpl.SignatureAlgorithm = algs[t.Int(len(algs))]
	pl := &plug{k: is.by, w: w}
	w.Hit(is.by.kind)
	if is.by.kind == "sm2" && is.key.kind == "sm2" && parent != nil {
		w.Hit("sm2-by-sm2")
	}
	rnd := stream(w, t)
	var out []byte
	var err error
	w.API("CreateCertificate", limBig, func() { out, err = x509.CreateCertificate(rnd, is.tmpl, pc, is.key.pub, pl) })
	how := fmt.Sprintf("a %s key's certificate by a %s key, algorithm %v", is.key.kind, is.by.kind, is.tmpl.SignatureAlgorithm)
	w.Check(err == nil, "create", "issuing %s failed: %v", how, err)
	w.Log("issued %s: %d bytes", how, len(out))
	is.der = out
	tbs, _, _, ok := tbsOf(out)
	w.Check(ok, "form", "%s is not a certificate in DER: %s", how, hx(out))
	c.signed = append(c.signed, signedTBS{is.by, clone(tbs)})
	c.faithful(is, pc, how)
	c.certs = append(c.certs, is)
	if t.One(2) { // the issuer checks its work
		under := is
		if parent != nil {
			under = parent
		}
		c.check(is.cert, is, "intact", under, true)
	}
}

// faithful compares the issued bytes with the request.
func (c *c13world) faithful(is *issued, parent *x509.Certificate, how string) {
	w := c.w
	want := viewOf(is.tmpl)
	over := false
	for _, x := range is.tmpl.ExtraExtensions {
		if x.Id.Equal(asn1.ObjectIdentifier{2, 5, 29, 17}) {
			over = true
			want.DNS, want.Mail, want.IP, want.URI = []string{"override.example"}, nil, nil, nil
		}
	}
	var err error
	g := guard(is.der)
	w.API("ParseCertificate", limSmall+int64(len(is.der))*2000, func() { is.cert, err = x509.ParseCertificate(g.b) })
	w.Check(err == nil && is.cert != nil, "parse", "%s does not parse: %v", how, err)
	w.Check(g.intact(), "arguments", "parsing changed the certificate's bytes")
	p := is.cert
	if d := want.differs(viewOf(p)); d != "" {
		w.Fail("field", "%s, parsed back: %s", how, d)
	}
	e := readEl(is.der)
	w.Check(len(e.at(0).kids) >= 7, "form", "%s lacks parts", how)
	w.Check(e.at(0, 0).is(0xa0) && e.at(0, 0, 0).num().Int64() == 2 && p.Version == 3, "version", "%s is not version 3", how)
	w.Check(bytes.Equal(e.at(0, 2).full, e.at(1).full), "algorithm", "%s: the two algorithm identifiers differ", how)
	a, ok := readAlg(e.at(1))
	w.Check(ok, "algorithm", "%s: unknown algorithm %x", how, e.at(1).full)
	_, _, sig, _ := tbsOf(is.der)
	w.Check(is.by.verifies(a, e.at(0).full, sig), "signature", "%s: the signature is not valid (%v)", how, a)
	if s := is.tmpl.SignatureAlgorithm; s != 0 {
		w.Check(p.SignatureAlgorithm == s, "algorithm", "%s: parsed as %v", how, p.SignatureAlgorithm)
	}
	w.Check(algMatches(p.SignatureAlgorithm, a), "algorithm", "%s: parsed algorithm %v, encoded %v", how, p.SignatureAlgorithm, a)
	issuer := parent.RawSubject
	if len(issuer) == 0 {
		w.Check(nameSet(parent.Subject) == rawNameSet(e.at(0, 3).full), "issuer", "%s: issuer is %q, not %q", how, rawNameSet(e.at(0, 3).full), nameSet(parent.Subject))
	} else {
		w.Check(bytes.Equal(issuer, e.at(0, 3).full), "issuer", "%s: issuer bytes are not the parent's subject", how)
	}
	subj := nameSet(is.tmpl.Subject)
	if is.tmpl.RawSubject != nil {
		subj = rawNameSet(is.tmpl.RawSubject)
	}
	w.Check(rawNameSet(e.at(0, 5).full) == subj, "subject", "%s: subject is %q, not %q", how, rawNameSet(e.at(0, 5).full), subj)
	w.Check(parsedNameSet(p.Subject) == subj, "subject", "%s: parsed subject is %q, not %q", how, parsedNameSet(p.Subject), subj)
	w.Check(parsedNameSet(p.Issuer) == rawNameSet(e.at(0, 3).full), "issuer", "%s: parsed issuer is %q, not %q", how, parsedNameSet(p.Issuer), rawNameSet(e.at(0, 3).full))
	w.Check(bytes.Equal(p.RawSubject, e.at(0, 5).full) && bytes.Equal(p.RawIssuer, e.at(0, 3).full) && bytes.Equal(p.Raw, is.der) && bytes.Equal(p.RawTBSCertificate, e.at(0).full) && bytes.Equal(p.RawSubjectPublicKeyInfo, e.at(0, 6).full), "raw", "%s: the raw fields are not the parts of the encoding", how)
	w.Check(bytes.Equal(e.at(0, 6).full, is.key.spki), "key", "%s: carries key %s, not %s", how, hx(e.at(0, 6).full), hx(is.key.spki))
	w.Check(eqPub(is.key, p.PublicKey), "key", "%s: parsed key is %v", how, p.PublicKey)
	nb, ok1 := e.at(0, 4, 0).time()
	na, ok2 := e.at(0, 4, 1).time()
	w.Check(ok1 && ok2 && sec(nb) == want.NotBefore && sec(na) == want.NotAfter, "validity", "%s: validity is encoded as %s to %s, wanted %s to %s", how, sec(nb), sec(na), want.NotBefore, want.NotAfter)
	for i := 0; i < 2; i++ {
		v := e.at(0, 4, i)
		x, _ := v.time()
		w.Check((v.tag == 23) == (x.Year() >= 1950 && x.Year() < 2050), "validity", "%s: time %q is not in the form the profile demands", how, v.val)
	}
	// key ids
	wantAKI := is.tmpl.AuthorityKeyId
	if !bytes.Equal(e.at(0, 3).full, e.at(0, 5).full) && len(parent.SubjectKeyId) > 0 {
		wantAKI = parent.SubjectKeyId
	}
	w.Check(bytes.Equal(p.AuthorityKeyId, wantAKI), "key-id", "%s: authority key id is %x, the issuer's is %x", how, p.AuthorityKeyId, wantAKI)
	if len(is.tmpl.SubjectKeyId) > 0 {
		w.Check(bytes.Equal(p.SubjectKeyId, is.tmpl.SubjectKeyId), "key-id", "%s: subject key id is %x, not %x", how, p.SubjectKeyId, is.tmpl.SubjectKeyId)
	} else {
		w.Check((len(p.SubjectKeyId) > 0) == is.tmpl.IsCA, "key-id", "%s: subject key id is %x (CA: %v)", how, p.SubjectKeyId, is.tmpl.IsCA)
	}
	// extensions: each once, those given verbatim last and as given
	seen := map[string]int{}
	for _, x := range p.Extensions {
		seen[x.Id.String()]++
	}
	for id, k := range seen {
		w.Check(k == 1, "extensions", "%s: extension %s occurs %d times", how, id, k)
	}
	ex := is.tmpl.ExtraExtensions
	w.Check(len(p.Extensions) >= len(ex), "extensions", "%s: extensions are missing", how)
	for i, x := range ex {
		g := p.Extensions[len(p.Extensions)-len(ex)+i]
		w.Check(g.Id.Equal(x.Id) && g.Critical == x.Critical && bytes.Equal(g.Value, x.Value), "extensions", "%s: extension %v came out as %v", how, x, g)
	}
	for _, x := range p.Extensions {
		id := x.Id.String()
		want, known := map[string]bool{"2.5.29.15": true, "2.5.29.19": true, "2.5.29.14": false, "2.5.29.35": false}[id]
		if known {
			w.Check(x.Critical == want, "extensions", "%s: critical=%v on extension %s", how, x.Critical, id)
		}
		if id == "2.5.29.17" && !over {
			w.Check(x.Critical == (len(e.at(0, 5).kids) == 0), "extensions", "%s: critical=%v on the alternative names", how, x.Critical)
		}
		if id == "2.5.29.30" {
			w.Check(x.Critical == is.tmpl.PermittedDNSDomainsCritical, "extensions", "%s: critical=%v on the name constraints", how, x.Critical)
		}
	}
	// the standard library's reading
	sd := forStd(is.der)
	w.Check(sd != nil, "form", "%s lacks parts", how)
	s, err := stdx509.ParseCertificate(sd)
	w.Check(err == nil, "std-parse", "the standard library cannot read %s: %v", how, err)
	if d := want.differs(stdView(s)); d != "" {
		w.Fail("std-field", "%s, read by the standard library: %s", how, d)
	}
	w.Check(bytes.Equal(s.AuthorityKeyId, p.AuthorityKeyId) && bytes.Equal(s.SubjectKeyId, p.SubjectKeyId), "std-field", "%s: the standard library reads other key ids", how)
}

func algMatches(s x509.SignatureAlgorithm, a sigAlg) bool {
	m := map[x509.SignatureAlgorithm]string{x509.SM2WithSM3: "sm20", x509.SHA256WithRSA: "rsaSHA-256", x509.SHA384WithRSA: "rsaSHA-384", x509.SHA512WithRSA: "rsaSHA-512", x509.SHA256WithRSAPSS: "pssSHA-256", x509.SHA384WithRSAPSS: "pssSHA-384", x509.SHA512WithRSAPSS: "pssSHA-512", x509.ECDSAWithSHA256: "ecSHA-256", x509.ECDSAWithSHA384: "ecSHA-384", x509.ECDSAWithSHA512: "ecSHA-512", x509.PureEd25519: "ed255190"}
	h := "0"
	if a.hash != 0 {
		h = a.hash.String()
	}
	return m[s] == a.kind+h
}

// deliver takes a certificate over the network and checks it under some parent.
func (c *c13world) deliver() {
	w, t := c.w, c.w.T
	is := c.certs[t.Int(len(c.certs))]
	der, how := clone(is.der), "intact"
	other := c.certs[t.Int(len(c.certs))]
	switch t.Weighted(4, 5, 2, 1, 1, 2) {
	case 5:
		a := readEl(is.der)
		sig, what := twist(t, is.by.pub, a.at(2).val[1:])
		der, how = seq(a.at(0).full, a.at(1).full, bits(sig)), "the signature with "+what
		w.Fired("twisted-signature")
	case 1:
		der, how = vsim.Damage(t, der, other.der)
		w.Fired("net-damage")
	case 2: // parts of two certificates
		a, b := readEl(is.der), readEl(other.der)
		parts := [3][]byte{}
		for i := range parts {
			parts[i] = a.at(i).full
			if t.One(2) {
				parts[i] = b.at(i).full
			}
		}
		der, how = seq(parts[:]...), "spliced"
		w.Fired("net-splice")
	case 3: // one field of the signed part changed for the other's
		a, b := readEl(is.der), readEl(other.der)
		i := t.Int(len(a.at(0).kids))
		var f [][]byte
		for j, k := range a.at(0).kids {
			v := k.full
			if j == i && j < len(b.at(0).kids) {
				v = b.at(0, j).full
			}
			f = append(f, v)
		}
		der, how = seq(seq(f...), a.at(1).full, a.at(2).full), "field exchanged"
		w.Fired("net-splice")
	case 4: // the algorithm outside the signed part
		a := readEl(is.der)
		alg := a.at(1)
		body := otherAlg(t, alg, readEl(other.der).at(1))
		der, how = seq(a.at(0).full, seq(body), a.at(2).full), "algorithm exchanged"
		w.Fired("net-splice")
	}
	intact := bytes.Equal(der, is.der)
	var cert *x509.Certificate
	var err error
	w.API("ParseCertificate", limSmall+int64(len(der))*4000, func() { cert, err = x509.ParseCertificate(der) })
	if err != nil {
		w.Check(!intact, "parse", "an intact certificate does not parse: %v", err)
		w.Log("%s: refused at parsing", how)
		return
	}
	for i := 1 + t.Int(2); i > 0; i-- {
		under := is.parent
		if under == nil {
			under = is
		}
		if t.One(2) {
			under = c.certs[t.Int(len(c.certs))]
		}
		c.check(cert, is, how, under, intact)
	}
	if t.One(3) {
		c.impostor(cert, is, intact)
	}
}

// check checks cert, which was is before the network had it, under a parent.
func (c *c13world) check(cert *x509.Certificate, is *issued, how string, under *issued, intact bool) {
	w := c.w
	var err error
	w.API("CheckSignatureFrom", limBig, func() { err = cert.CheckSignatureFrom(under.cert) })
	w.Log("%s certificate under parent: %s", how, errStr(err))
	fit := true
	tm := under.tmpl
	if !tm.BasicConstraintsValid || !tm.IsCA {
		fit = false
		w.Hit("parent-not-ca")
	}
	if tm.KeyUsage != 0 && tm.KeyUsage&x509.KeyUsageCertSign == 0 {
		fit = false
		w.Hit("parent-no-certsign")
	}
	if !fit {
		w.Check(err != nil, "unfit-parent", "the check passes under a parent that must not issue (constraints %v, CA %v, usage %b)", tm.BasicConstraintsValid, tm.IsCA, tm.KeyUsage)
		return
	}
	right := is.by.same(under.key)
	if !right {
		w.Hit("wrong-parent")
	}
	if intact && right {
		w.Check(err == nil, "right-parent", "an intact certificate by a %s key (%v) is refused under its issuer: %v", is.by.kind, is.cert.SignatureAlgorithm, err)
		w.Hit("right-parent-accepted")
		return
	}
	if err == nil {
		c.justify(cert, under.key.pub, how)
	}
}

// justify fails the run unless the owner of pub really signed what cert says.
func (c *c13world) justify(cert *x509.Certificate, pub any, how string) {
	w := c.w
	if !c.reallySigned(pub, cert.RawTBSCertificate) {
		w.Fail("accepted-forged", "a certificate (%s) is accepted under a key that never signed it: %x", how, cert.Raw)
	}
	if e := readEl(cert.Raw); e != nil {
		w.Check(statesKind(pub, e.at(1)), "accepted-algorithm", "a certificate (%s) is accepted though the algorithm it states is none of the issuer's kind of key: %x", how, e.at(1).full)
	}
	w.Check(justified(pub, cert.SignatureAlgorithm, cert.RawTBSCertificate, cert.Signature), "accepted-bad-signature", "a certificate (%s) is accepted though its signature is not valid: %x", how, cert.Raw)
	// and what it says is what was signed
	e := readEl(cert.RawTBSCertificate)
	if whole := readEl(cert.Raw); e != nil && whole != nil {
		at := 1
		if e.at(0).is(0xa0) {
			at = 2
		}
		w.Check(bytes.Equal(e.at(at).full, whole.at(1).full), "accepted-other-algorithm", "a certificate (%s) is accepted though the algorithm it says it is signed with is not the one in the signed part: %x", how, cert.Raw)
	}
	if e != nil && len(e.kids) >= 7 && e.at(0).is(0xa0) {
		w.Check(bytes.Equal(cert.RawSubjectPublicKeyInfo, e.at(6).full) && bytes.Equal(cert.RawSubject, e.at(5).full) && e.at(1).num() != nil && cert.SerialNumber.Cmp(e.at(1).num()) == 0, "accepted-misread", "an accepted certificate (%s) is not read as it was signed", how)
	}
}

var allAlgs = []sigAlg{{"sm2", 0}, {"ed25519", 0}, {"rsa", 5}, {"rsa", 6}, {"rsa", 7}, {"pss", 5}, {"pss", 6}, {"pss", 7}, {"ec", 5}, {"ec", 6}, {"ec", 7}}

// impostor checks under a parent that has the issuer's name and key id, but another key.
func (c *c13world) impostor(cert *x509.Certificate, is *issued, intact bool) {
	w, t := c.w, c.w.T
	k := is.by.another(t)
	w.Hit("impostor-parent")
	var err error
	if k.kind == "sm2" && t.One(2) { // by the real parser
		spec := &certSpec{serial: big.NewInt(1), subject: is.cert.RawIssuer, issuer: is.cert.RawIssuer, notBefore: cert.NotBefore, notAfter: cert.NotAfter, pub: pt(&k.d.PublicKey), ca: 1, usage: 6, ski: is.cert.AuthorityKeyId}
		if len(spec.ski) == 0 {
			spec.ski = nil
		}
		der := spec.der(t, k.d.D)
		w.API("ParseCertificate and check", limBig, func() {
			var p *x509.Certificate
			if p, err = x509.ParseCertificate(der); err == nil {
				err = cert.CheckSignatureFrom(p)
			}
		})
	} else {
		p := &x509.Certificate{Version: 3, BasicConstraintsValid: true, IsCA: true, KeyUsage: x509.KeyUsageCertSign, PublicKey: k.pub, PublicKeyAlgorithm: is.cert.PublicKeyAlgorithm, RawSubject: is.cert.RawIssuer, SubjectKeyId: is.cert.AuthorityKeyId}
		w.API("CheckSignatureFrom", limBig, func() { err = cert.CheckSignatureFrom(p) })
	}
	if err == nil && !c.reallySigned(k.pub, cert.RawTBSCertificate) {
		w.Fail("impostor-accepted", "a certificate is accepted under another key with the issuer's name: %x", cert.Raw)
	}
	// and on loose parts
	alg, sig, tbs := cert.SignatureAlgorithm, clone(cert.Signature), clone(cert.RawTBSCertificate)
	if t.One(2) && len(sig) > 0 {
		if t.One(2) {
			if a, m, s := knownShort(t, is.by); m != nil {
				alg, tbs, sig = a, m, s
				w.Hit("short-signature")
			}
		}
		var what string
		sig, what = twist(t, is.by.pub, sig)
		w.Log("signature with %s", what)
		w.Fired("twisted-signature")
	} else if t.One(2) && len(sig) > 0 {
		sig, _ = vsim.Damage(t, sig, is.cert.Signature)
	} else {
		tbs[t.Int(len(tbs))] ^= 1 << t.Int(8)
	}
	pub := &x509.Certificate{PublicKey: is.by.pub}
	w.API("CheckSignature", limBig, func() { err = pub.CheckSignature(alg, tbs, sig) })
	if err == nil {
		w.Check(justified(is.by.pub, alg, tbs, sig), "accepted-bad-signature", "CheckSignature accepts a damaged signature %x or signed part (%v)", sig, alg)
	}
}

// refused are requests that must fail.
func (c *c13world) refused(parent *issued) {
	w, t := c.w, c.w.T
	tm := certTemplate(t, false)
	k := someKey(t)
	pl := &plug{k: parent.key, w: w}
	what := t.Int(6)
	pc := parent.cert
	var pub any = k.pub
	var priv any = pl
	how := ""
	switch what {
	case 0:
		pl.k = parent.key.another(t)
		how = "a key that is not the parent's"
		w.Hit("mismatched-key")
	case 1:
		tm.SerialNumber, how = nil, "no serial number"
	case 2:
		for pl.k.kind == parent.key.kind {
			pl.k = someKey(t)
		}
		how = "a key of another kind than the parent's"
		w.Hit("mismatched-key")
	case 3:
		tm.SignatureAlgorithm, how = x509.SHA256WithRSA, "an algorithm of another kind of key"
		if parent.key.kind == "rsa" {
			tm.SignatureAlgorithm = x509.SM2WithSM3
		}
	case 4:
		priv, how = "key", "something that is not a signer"
	case 5:
		pub, how = "public key", "something that is not a public key"
	}
	w.Hit("bad-request")
	var out []byte
	var err error
	w.API("CreateCertificate", limBig, func() { out, err = x509.CreateCertificate(stream(w, t), tm, pc, pub, priv) })
	w.Check(err != nil && len(out) == 0, "bad-request", "CreateCertificate with %s gives %d bytes and error %v", how, len(out), err)
}

// bundle sends several certificates in one piece.
func (c *c13world) bundle() {
	w, t := c.w, c.w.T
	var all []byte
	var want []*issued
	for i := 1 + t.Int(3); i > 0; i-- {
		is := c.certs[t.Int(len(c.certs))]
		all, want = append(all, is.der...), append(want, is)
	}
	w.Hit("bundle")
	cut := t.One(3)
	if cut {
		all = all[:len(all)-1-t.Int(len(want[len(want)-1].der)-1)]
	}
	var got []*x509.Certificate
	var err error
	w.API("ParseCertificates", limSmall+int64(len(all))*4000, func() { got, err = x509.ParseCertificates(all) })
	if cut {
		w.Check(err != nil, "bundle", "a bundle that was cut short parses as %d certificates", len(got))
		return
	}
	w.Check(err == nil && len(got) == len(want), "bundle", "a bundle of %d certificates parses as %d, error %v", len(want), len(got), err)
	for i := range got {
		w.Check(bytes.Equal(got[i].Raw, want[i].der) && got[i].Equal(want[i].cert), "bundle", "certificate %d of a bundle is another one", i)
	}
}

// spoil puts one thing into a template that the format cannot carry, or only just; what says which.
func spoil(t *vsim.Tape, c *x509.Certificate) (what string) {
	s := []string{"ü.example", "例え", "\xff", "a\x80"}[t.Int(4)]
	if t.One(3) { // late in it
		s = strings.Repeat("a", t.Int(300)) + s
	}
	o := []asn1.ObjectIdentifier{nil, {1}, {3, 1}, {1, 40}, {7, 7, 7}}[t.Int(5)]
	switch t.Int(19) {
	case 0:
		c.DNSNames, what = append(c.DNSNames, s), "DNS name"
	case 1:
		c.EmailAddresses, what = append(c.EmailAddresses, s), "mail address"
	case 2:
		c.PermittedDNSDomains, what = append(c.PermittedDNSDomains, s), "permitted domain"
	case 3:
		c.ExcludedDNSDomains, what = append(c.ExcludedDNSDomains, s), "excluded domain"
	case 4:
		c.PermittedEmailAddresses, what = append(c.PermittedEmailAddresses, s), "permitted mail address"
	case 5:
		c.ExcludedEmailAddresses, what = append(c.ExcludedEmailAddresses, s), "excluded mail address"
	case 6:
		c.PermittedURIDomains, what = append(c.PermittedURIDomains, s), "permitted URI domain"
	case 7:
		c.ExcludedURIDomains, what = append(c.ExcludedURIDomains, s), "excluded URI domain"
	case 8:
		c.URIs, what = append(c.URIs, &url.URL{Scheme: "urn", Opaque: s}), "URI"
	case 9:
		c.PolicyIdentifiers, s, what = append(c.PolicyIdentifiers, o), o.String(), "policy"
	case 10:
		c.UnknownExtKeyUsage, s, what = append(c.UnknownExtKeyUsage, o), o.String(), "unknown extended key usage"
	case 11:
		c.ExtraExtensions, s, what = append(c.ExtraExtensions, pkix.Extension{Id: o, Value: []byte{5, 0}}), o.String(), "extension"
	case 12:
		v := x509.ExtKeyUsage([]int{-1, 14, 99}[t.Int(3)])
		c.ExtKeyUsage, s, what = append(c.ExtKeyUsage, v), fmt.Sprint(int(v)), "extended key usage"
	case 13:
		v := x509.SignatureAlgorithm([]int{99, -1, 17, 18}[t.Int(4)])
		c.SignatureAlgorithm, s, what = v, fmt.Sprint(int(v)), "signature algorithm"
	case 14:
		y := []int{-1, 10000, 20000}[t.Int(3)]
		s, what = fmt.Sprint(y), "year"
		if v := time.Date(y, 6, 1, 1, 1, 1, 0, time.UTC); t.One(2) {
			c.NotBefore = v
		} else {
			c.NotAfter = v
		}
	case 15:
		c.Subject, c.RawSubject, s, what = pkix.Name{CommonName: "\xff\xfe"}, nil, "broken UTF-8", "name"
	case 16:
		c.Subject, c.RawSubject = pkix.Name{CommonName: "x", ExtraNames: []pkix.AttributeTypeAndValue{{Type: o, Value: "y"}}}, nil
		s, what = o.String(), "name with attribute"
	case 17: // what it can carry, but seldom does
		c.SerialNumber = []*big.Int{new(big.Int), big.NewInt(127), big.NewInt(128), new(big.Int).Lsh(one, 159), new(big.Int).Lsh(one, 2000)}[t.Int(5)]
		s, what = c.SerialNumber.String(), "serial number"
	case 18:
		s = []string{"", "*", "a\x00b", "..", ".x", "a b", "-", strings.Repeat("x", 300)}[t.Int(8)]
		what = "alternative name"
		if t.One(2) {
			c.DNSNames = append(c.DNSNames, s)
		} else {
			c.EmailAddresses = append(c.EmailAddresses, s)
		}
	}
	return what + " " + strconv.Quote(s)
}

// odd asks for a certificate with something the format cannot carry: that is refused, or the certificate says it.
func (c *c13world) odd(parent *issued) {
	w, t := c.w, c.w.T
	tm := certTemplate(t, false)
	tm.SignatureAlgorithm = 0
	how := "CreateCertificate with " + spoil(t, tm)
	if t.One(4) {
		how += " and " + spoil(t, tm)
	}
	w.Hit("odd-request")
	k := someKey(t)
	var out []byte
	var err error
	w.API("CreateCertificate", limBig, func() {
		out, err = x509.CreateCertificate(stream(w, t), tm, parent.cert, k.pub, &plug{k: parent.key, w: w})
	})
	w.Log("%s: %d bytes, %v", how, len(out), err)
	if err != nil {
		w.Check(len(out) == 0, "bad-request", "%s gives %d bytes and error %v", how, len(out), err)
		w.Hit("odd-refused")
		return
	}
	w.Hit("odd-issued")
	tbs, _, _, _ := tbsOf(out)
	c.signed = append(c.signed, signedTBS{parent.key, clone(tbs)})
	var p *x509.Certificate
	w.API("ParseCertificate", limSmall+int64(len(out))*2000, func() { p, err = x509.ParseCertificate(out) })
	w.Check(err == nil && p != nil, "odd-request", "%s gives a certificate that does not parse: %v", how, err)
	if d := viewOf(tm).differs(viewOf(p)); d != "" && !sanOverridden(tm) {
		w.Fail("odd-request", "%s: %s", how, d)
	}
	if tm.RawSubject == nil {
		w.Check(rawNameSet(p.RawSubject) == nameSet(tm.Subject), "odd-request", "%s: subject is %q, not %q", how, rawNameSet(p.RawSubject), nameSet(tm.Subject))
	}
	w.Check(parent.key.verifies(mustAlg(p), p.RawTBSCertificate, p.Signature), "odd-request", "%s: the signature is not valid", how)
}

func sanOverridden(c *x509.Certificate) bool {
	for _, x := range c.ExtraExtensions {
		if x.Id.String() == "2.5.29.17" {
			return true
		}
	}
	return false
}

func mustAlg(p *x509.Certificate) sigAlg {
	a, _ := readAlg(readEl(p.Raw).at(1))
	return a
}

// misstated has another authority with an RSA key sign a certificate as RSA-PSS with parameters, inside and outside of
// the signed part, that are not those of the signature.
func (c *c13world) misstated(parent *issued) {
	w, t := c.w, c.w.T
	if parent.key.kind != "rsa" {
		return
	}
	i := t.Int(3)
	alg := []x509.SignatureAlgorithm{x509.SHA256WithRSAPSS, x509.SHA384WithRSAPSS, x509.SHA512WithRSAPSS}[i]
	hash := func(i int) []byte {
		return seq(oid([...]string{"2.16.840.1.101.3.4.2.1", "2.16.840.1.101.3.4.2.2", "2.16.840.1.101.3.4.2.3", "1.3.14.3.2.26"}[i]), null())
	}
	h, m, mgf, salt, trailer := i, i, "1.2.840.113549.1.1.8", int64(32+16*i), int64(1)
	var what string
	switch t.Int(5) {
	case 0:
		what = "salt length"
		for old := salt; salt == old; {
			salt = int64([]int{0, 1, 20, 31, 32, 33, 48, 64, 65, 288}[t.Int(10)])
		}
	case 1:
		h, what = (i+1+t.Int(3))%4, "hash"
	case 2:
		m, what = (i+1+t.Int(3))%4, "hash of the mask generation"
	case 3:
		mgf, what = "1.2.840.113549.1.1.9", "mask generation"
	case 4:
		trailer, what = []int64{0, 2, 256}[t.Int(3)], "trailer field"
	}
	stated := seq(oid(oidRSAPSS), seq(ctx(0, hash(h)), ctx(1, seq(oid(mgf), hash(m))), ctx(2, integer(salt)), ctx(3, integer(trailer))))
	if what != "trailer field" {
		stated = seq(oid(oidRSAPSS), seq(ctx(0, hash(h)), ctx(1, seq(oid(mgf), hash(m))), ctx(2, integer(salt))))
	}
	key := someKey(t)
	tm := certTemplate(t, false)
	tbs := seq(ctx(0, integer(2)), bigInteger(tm.SerialNumber), stated, parent.cert.RawSubject, seq(asn1time(tm.NotBefore), asn1time(tm.NotAfter)), richName(t), key.spki)
	e := readEl(handSigned(t, parent.key, alg, tbs))
	der := seq(tbs, stated, e.at(2).full)
	w.Hit("misstated")
	w.Log("an RSA-PSS certificate, algorithm %v, that states another %s", alg, what)
	var got *x509.Certificate
	var err error
	w.API("ParseCertificate", limSmall+int64(len(der))*4000, func() { got, err = x509.ParseCertificate(der) })
	if err != nil {
		return
	}
	w.API("CheckSignatureFrom", limBig, func() { err = got.CheckSignatureFrom(parent.cert) })
	w.Check(err != nil, "accepted-other-algorithm", "an RSA-PSS certificate, algorithm %v, is accepted though it states another %s: %x", alg, what, der)
}
