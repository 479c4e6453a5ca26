package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C09", Run: c09, Quick: 6500, Thorough: 250000,
		Rule:   "One evaluation is one simulated run: up to four parties sign contents into messages with one or several signer infos, some of them defective; a network alters, splices and forges the messages; concurrent receivers parse and verify them, some sharing one parsed message. Every acceptance is justified signer by signer with an independent reader and an independent SM2, and against the record of what was really signed; intact messages must be accepted.",
		Real:   []string{"x509 signed data parsing and verification", "x509 certificate parsing", "sm2, sm3"},
		Stub:   []string{"senders (reference SM2 and hand-written DER; some use the library)", "network (simulated)", "goroutine scheduling (simulator)"},
		Need:   []string{"preempted", "net-damage", "net-splice", "bad-signer", "bad-signer-not-first", "missing-cert", "wrong-digest", "no-attributes", "multi-signer", "accepted", "rejected", "impostor", "intact-accepted", "content-swap", "no-content", "crls-inside", "unsigned-attributes"},
		Assume: []string{"ref/ implements SM2 and SM3", "certificates carry SM2 keys"},
	})
}

type p7mail struct {
	b       []byte
	how     string
	intact  bool     // must be accepted
	content []byte   // where intact
	certs   [][]byte // nil where not known
}

// signedRec is something the owner of q put its name to: bytes, or a set of attributes with this digest.
type signedRec struct {
	q       ref.Point
	content []byte
	digest  []byte
}

type c09world struct {
	w    *vsim.World
	ids  []*identity
	recs []signedRec
}

func (c *c09world) record(q ref.Point, content []byte) {
	c.recs = append(c.recs, signedRec{q: q, content: clone(content)})
}

func (c *c09world) recordAttrs(q ref.Point, attrs [][]byte) {
	for _, a := range attrs {
		if e := readEl(a); e.at(0).isOID(oidAttrDigest) {
			c.recs = append(c.recs, signedRec{q: q, digest: clone(e.at(1, 0).val)})
		}
	}
	c.record(q, set(attrs...))
}

func (c *c09world) reallySigned(q ref.Point, content []byte) bool {
	for _, r := range c.recs {
		if !ref.Eq(r.q, q) {
			continue
		}
		if r.digest == nil && bytes.Equal(r.content, content) || r.digest != nil && bytes.Equal(r.digest, ref.SM3(content)) {
			return true
		}
	}
	return false
}

func p7attrs(t *vsim.Tape, digest []byte) [][]byte {
	a := [][]byte{attr(oidAttrType, oid(oidGMData)), attr(oidAttrDigest, octets(digest)), attr(oidAttrTime, utctime(time.Date(2024, 5, 6, 7, 8, t.Int(60), 0, time.UTC)))}
	if t.One(4) {
		a = append(a, attr("1.2.3.4.5", octets(t.Bytes(t.Int(20)))))
	}
	return sortSet(a)
}

// sign signs b, which is the encoding of attrs if those are given, and records it.
func (c *c09world) sign(d *big.Int, b []byte, attrs [][]byte) []byte {
	if attrs != nil {
		c.recordAttrs(ref.BaseMult(d), attrs)
	} else {
		c.record(ref.BaseMult(d), b)
	}
	r, s := refSign(c.w.T, d, ref.Digest(nil, b, ref.BaseMult(d)))
	return ref.MarshalSig(r, s)
}

var otherDigests = []struct {
	id  string
	sum func([]byte) []byte
}{
	{"2.16.840.1.101.3.4.2.1", func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }},
	{"2.16.840.1.101.3.4.2.2", func(b []byte) []byte { s := sha512.Sum384(b); return s[:] }},
	{"2.16.840.1.101.3.4.2.3", func(b []byte) []byte { s := sha512.Sum512(b); return s[:] }},
	{"1.3.14.3.2.26", func(b []byte) []byte { s := sha1.Sum(b); return s[:] }},
	{"1.2.840.113549.2.5", func(b []byte) []byte { s := md5.Sum(b); return s[:] }},
}

// message makes one signed message; defect 0 makes it good throughout.
func (c *c09world) message(content []byte, good bool) *p7mail {
	t, w := c.w.T, c.w
	m := &p7mail{intact: true, how: "intact"}
	var certs, signers [][]byte
	k := 1 + t.Weighted(4, 3, 2, 1)
	if t.One(60) {
		k = 5 + t.Int(16)
	}
	if k > 1 {
		w.Hit("multi-signer")
	}
	bad := -1
	defect := 0
	if !good {
		bad, defect = t.Int(k), 1+t.Int(14)
	}
	perm := t.Int(len(c.ids))
	for i := 0; i < k; i++ {
		id := c.ids[(perm+i)%len(c.ids)]
		dg := ref.SM3(content)
		s := &p7signer{issuer: id.spec.issuer, serial: id.spec.serial}
		d := id.key.D
		withAttrs := !t.One(5)
		cert := id.der
		doSign := true
		if i == bad {
			m.intact = false
			m.how = fmt.Sprintf("signer %d of %d has defect %d", i+1, k, defect)
			w.Fired("bad-signer")
			if i > 0 {
				w.Hit("bad-signer-not-first")
			}
			switch defect {
			case 1: // the certificate is not there
				cert = nil
				w.Hit("missing-cert")
			case 2: // digest of another content, properly signed
				withAttrs = true
				dg = ref.SM3(append(clone(content), 'x'))
				w.Hit("wrong-digest")
			case 3: // signed with another key
				d = new(big.Int).Add(d, one)
				if !validScalar(d) {
					d = big.NewInt(5)
				}
			case 4:
				s.serial = new(big.Int).Add(s.serial, one)
			case 5:
				s.issuer = name("somebody else")
			case 6: // damaged digest attribute, attributes signed
				withAttrs = true
				dg = clone(dg)
				dg[t.Int(32)] ^= 1 << t.Int(8)
				w.Hit("wrong-digest")
			case 14: // the digest is another algorithm's, which is named
				withAttrs = true
				a := otherDigests[t.Int(len(otherDigests))]
				s.digest, dg = a.id, a.sum(content)
				w.Hit("wrong-digest")
				w.Hit("other-digest")
			case 7: // digest cut short
				withAttrs = true
				dg = dg[:t.Int(32)]
				w.Hit("wrong-digest")
			}
		}
		var signed []byte
		if withAttrs {
			s.attrs = p7attrs(t, dg)
			if i == bad && defect == 8 { // no digest attribute at all
				s.attrs = sortSet([][]byte{attr(oidAttrType, oid(oidGMData)), attr(oidAttrTime, utctime(time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)))})
			}
			signed = set(s.attrs...)
		} else {
			w.Hit("no-attributes")
			signed = content
			if len(content) == 0 {
				signed = nil
			}
		}
		if i == bad {
			switch defect {
			case 9: // attributes altered after signing
				if withAttrs {
					s.sig = c.sign(d, signed, s.attrs)
					s.attrs = sortSet(append(s.attrs, attr("1.2.3.9", octets(t.Bytes(4)))))
				} else {
					s.sig = c.sign(d, append(clone(signed), 1), nil)
				}
				doSign = false
			case 10: // damaged signature
				sig := c.sign(d, signed, s.attrs)
				sig, _ = vsim.Damage(t, sig, sig)
				if ref.VerifyMsg(ref.BaseMult(d), nil, signed, sig) {
					sig = nil
				}
				s.sig, doSign = sig, false
			case 11: // no signature
				s.sig, doSign = nil, false
			case 12: // numbers out of range
				sig := ref.MarshalSig(big.NewInt(int64(t.Int(2))), big.NewInt(int64(t.Int(2))))
				if t.One(2) {
					r, ss, _ := ref.ParseSig(c.sign(d, signed, s.attrs))
					sig = ref.MarshalSig(r, new(big.Int).Add(ss, n))
				}
				s.sig, doSign = sig, false
			case 13: // another signer's signature
				o := c.ids[(perm+i+1)%len(c.ids)]
				if o != id {
					s.sig = c.sign(o.key.D, signed, s.attrs)
				} else {
					s.sig = c.sign(d, append(clone(signed), 0), nil)
				}
				doSign = false
			}
		}
		if doSign {
			s.sig = c.sign(d, signed, s.attrs)
		}
		if t.One(6) {
			s.unauth = [][]byte{attr("1.2.840.113549.1.9.16.2.14", octets(t.Bytes(t.Int(40))))}
			if t.One(2) { // another digest, which nobody signed
				s.unauth = append(s.unauth, attr(oidAttrDigest, octets(t.Bytes(32))))
			}
			w.Hit("unsigned-attributes")
		}
		if i == bad && (defect == 8 || defect == 2 || defect == 6 || defect == 7) && t.One(3) { // what is amiss is put right outside the signature
			s.unauth = [][]byte{attr(oidAttrDigest, octets(ref.SM3(content)))}
			w.Hit("unsigned-attributes")
		}
		if cert != nil && (i < len(c.ids) || t.One(2)) {
			certs = append(certs, cert)
		}
		signers = append(signers, s.encode())
	}
	// the order of SET OF is not what carries meaning
	if t.One(2) {
		signers = sortSet(signers)
	}
	if t.One(60) { // many certificates that concern nobody
		stranger := newIdentity(t)
		var more [][]byte
		for i := many(t); i > 0; i-- {
			more = append(more, stranger.der)
		}
		if t.One(2) {
			certs = append(more, certs...)
		} else {
			certs = append(certs, more...)
		}
		w.Hit("many-certificates")
	}
	if t.One(4) {
		certs = append(certs, c.ids[t.Int(len(c.ids))].der)
		if defect == 1 {
			m.how += " (perhaps)"
		}
	}
	form := someForm(t, w, content, c.ids[0].spec.issuer)
	m.b = form.message(content, certs, signers)
	m.content = content
	m.certs = certs
	if form.absent || form.compound || form.crls != nil {
		m.how += fmt.Sprintf(", absent=%v compound=%v crls=%d", form.absent, form.compound, len(form.crls))
	}
	return m
}

func c09(w *vsim.World) {
	t := w.T
	swarm(w)
	c := &c09world{w: w}
	sameIssuer := t.One(3)
	for i := 1 + t.Weighted(2, 3, 2, 1); i > 0; i-- {
		id := newIdentity(t)
		if sameIssuer && len(c.ids) > 0 {
			id.spec.issuer = c.ids[0].spec.issuer
			if t.One(3) && len(c.ids) > 0 { // same serial number, other issuer
				id.spec.issuer = name("other issuer")
				id.spec.serial = c.ids[0].spec.serial
			}
			id.der = id.spec.der(t, scalar(t))
		}
		c.ids = append(c.ids, id)
	}
	for i, a := range c.ids {
		for _, b := range c.ids[:i] {
			if a.spec.serial.Cmp(b.spec.serial) == 0 && bytes.Equal(a.spec.issuer, b.spec.issuer) {
				return
			}
		}
	}
	var sent []*p7mail
	for i := 1 + t.Int(3); i > 0; i-- {
		sent = append(sent, c.message(p7content(w, 1500), t.One(2)))
	}
	p := w.NewProc("receivers")
	// one may come from the library
	if t.One(4) {
		w.Do(w.NewProc("sender"), "sender", func() {
			id := c.ids[t.Int(len(c.ids))]
			content := p7content(w, 500)
			var out []byte
			var err error
			cert := id.parse(w)
			w.API("NewSignedData", 50_000_000, func() { out, err = x509.NewSignedData(cert, id.key, content) })
			if err == nil {
				c.record(pt(&id.key.PublicKey), content)
				if v := readP7(out); v != nil && len(v.signers) == 1 {
					if s := readSigner(v.signers[0]); s != nil && s.attrs != nil {
						var as [][]byte
						for _, k := range s.attrs.kids {
							as = append(as, k.full)
						}
						c.recordAttrs(pt(&id.key.PublicKey), as)
					}
				}
				sent = append(sent, &p7mail{b: out, how: "intact, by the library", intact: true, content: content})
			}
		})
	}
	var mail []*p7mail
	for i := 2 + t.Int(4); i > 0; i-- {
		m := *sent[t.Int(len(sent))]
		c.alter(&m, sent[t.Int(len(sent))])
		mail = append(mail, &m)
	}
	tasks := 1 + t.Int(3)
	var kept *x509.PKCS7
	var keptMail *p7mail
	for i := 0; i < tasks; i++ {
		w.Go(p, fmt.Sprintf("r%d", i), func() {
			for len(mail) > 0 {
				j := t.Int(len(mail))
				m := mail[j]
				mail = append(mail[:j:j], mail[j+1:]...)
				if p7 := c.receive(m); p7 != nil {
					kept, keptMail = p7, m
				}
				if kept != nil && t.One(3) { // verify a message again that another task parsed
					c.verify(kept, keptMail)
				}
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

func (c *c09world) alter(m *p7mail, o *p7mail) {
	t, w := c.w.T, c.w
	switch t.Weighted(4, 5, 3, 2, 2, 1, 2) {
	case 0:
	case 1:
		b, how := vsim.Damage(t, m.b, o.b)
		m.intact = m.intact && bytes.Equal(b, m.b)
		m.b, m.how = b, m.how+"; "+how
		w.Fired("net-damage")
	case 2: // content of one, signers of the other
		v, x := readP7(m.b), readP7(o.b)
		if v == nil || x == nil {
			return
		}
		var sv, sx [][]byte
		for _, s := range v.signers {
			sv = append(sv, s.full)
		}
		for _, s := range x.signers {
			sx = append(sx, s.full)
		}
		certs := append(append([][]byte{}, v.certs...), x.certs...)
		content, signers := v.content, sv
		k := t.Int(5)
		switch k {
		case 0:
			signers = sx
		case 1:
			signers = append(append([][]byte{}, sv...), sx...)
		case 2:
			signers = append(append([][]byte{}, sx...), sv...)
		case 3:
			content = x.content
		case 4:
			certs = x.certs
		}
		m.b = p7message(content, certs, signers)
		m.intact = false
		m.how += fmt.Sprintf("; splice %d", k)
		w.Fired("net-splice")
	case 3: // no signers, or fewer
		v := readP7(m.b)
		if v == nil {
			return
		}
		var sv [][]byte
		for _, s := range v.signers {
			if t.One(2) {
				sv = append(sv, s.full)
			}
		}
		m.b = p7message(v.content, v.certs, sv)
		m.intact = false
		m.how += "; signers dropped"
		w.Fired("net-splice")
	case 4: // content replaced
		v := readP7(m.b)
		if v == nil {
			return
		}
		var sv [][]byte
		for _, s := range v.signers {
			sv = append(sv, s.full)
		}
		content := clone(v.content)
		switch t.Int(4) {
		case 0:
			content = append(content, 0)
		case 1:
			if len(content) > 0 {
				content = content[:len(content)-1]
			}
		case 2:
			if len(content) > 0 {
				content[t.Int(len(content))] ^= 1 << t.Int(8)
			}
		case 3: // the attributes of a signer become the content, and are dropped there
			for i, e := range v.signers {
				if s := readSigner(e); s != nil && s.attrs != nil {
					content = s.signedBytes()
					sv = [][]byte{(&p7signer{sid: s.sid.full, sig: s.sig}).encode()}
					_ = i
					break
				}
			}
		}
		m.b = p7message(content, v.certs, sv)
		m.intact = false
		m.how += "; content replaced"
		w.Fired("content-swap")
	case 5: // arbitrary
		m.b, m.how, m.intact = t.Bytes(t.Int(200)), "arbitrary", false
		w.Fired("net-forged")
	case 6: // an impostor's certificate under a signer's issuer and serial number
		v := readP7(m.b)
		if v == nil || len(v.signers) == 0 {
			return
		}
		imp := newIdentity(t)
		victim := c.ids[t.Int(len(c.ids))]
		imp.spec.issuer, imp.spec.serial = victim.spec.issuer, victim.spec.serial
		imp.der = imp.spec.der(t, imp.key.D)
		var sv [][]byte
		for _, s := range v.signers {
			sv = append(sv, s.full)
		}
		certs := append([][]byte{imp.der}, v.certs...)
		if t.One(2) {
			certs = append(append([][]byte{}, v.certs...), imp.der)
		}
		if t.One(2) { // who also signs
			a := p7attrs(t, ref.SM3(v.content))
			s := &p7signer{issuer: imp.spec.issuer, serial: imp.spec.serial, attrs: a, sig: c.sign(imp.key.D, set(a...), a)}
			if t.One(2) {
				sv = append(sv, s.encode())
			} else {
				sv = [][]byte{s.encode()}
			}
		}
		m.b = p7message(v.content, certs, sv)
		m.intact = false
		m.how += "; impostor"
		w.Fired("impostor")
	}
}

func (c *c09world) receive(m *p7mail) *x509.PKCS7 {
	w := c.w
	var p7 *x509.PKCS7
	var err error
	g := guard(m.b)
	lim := limSmall + int64(len(m.b))*4000
	w.API("ParsePKCS7", lim, func() { p7, err = x509.ParsePKCS7(g.b) })
	w.Check(g.intact(), "arguments", "ParsePKCS7 changed its input")
	if err != nil {
		w.Check(!m.intact, "intact-rejected", "an intact signed message (%s) does not parse: %v", m.how, err)
		w.Log("%s: parse error", m.how)
		w.Hit("rejected")
		return nil
	}
	w.Check(p7 != nil, "nil", "ParsePKCS7 returned nothing and no error")
	c.verify(p7, m)
	return p7
}

func (c *c09world) verify(p7 *x509.PKCS7, m *p7mail) {
	w := c.w
	var err error
	lim := limSmall + int64(len(m.b))*4000*int64(1+len(p7.Signers)) + int64(len(p7.Signers))*500_000
	w.API("(*PKCS7).Verify", lim, func() { err = p7.Verify() })
	w.Log("%s: %s", m.how, errStr(err))
	if err != nil {
		w.Check(!m.intact, "intact-rejected", "an intact signed message (%s) is rejected: %v (%s)", m.how, err, hx(m.b))
		w.Hit("rejected")
		return
	}
	w.Hit("accepted")
	if m.intact {
		w.Hit("intact-accepted")
		w.Check(bytes.Equal(p7.Content, m.content), "intact-content", "an intact message (%s) was accepted with the content %s, it was %s", m.how, hx(p7.Content), hx(m.content))
		if m.certs != nil {
			w.Check(len(p7.Certificates) == len(m.certs), "intact-certificates", "an intact message (%s) carries %d certificates, %d came out", m.how, len(m.certs), len(p7.Certificates))
			for i, x := range p7.Certificates {
				w.Check(bytes.Equal(x.Raw, m.certs[i]), "intact-certificates", "certificate %d of an intact message (%s) came out as another", i, m.how)
			}
		}
	}
	w.Check(len(p7.Signers) > 0, "accepted-unsigned", "a message without signers was accepted (%s)", m.how)
	for i := range p7.Signers {
		if why := c.justify(p7, i); why != "" {
			w.Fail("accepted-bad", "a message was accepted although signer %d of %d does not justify it: %s (%s): %x", i+1, len(p7.Signers), why, m.how, m.b)
		}
	}
	var one *x509.Certificate
	w.API("GetOnlySigner", lim, func() { one = p7.GetOnlySigner() })
	w.Check((one != nil) == (len(p7.Signers) == 1), "only-signer", "GetOnlySigner of an accepted message with %d signers gives %v", len(p7.Signers), one != nil)
}

// justify says why signer i does not vouch for the content, or "".
func (c *c09world) justify(p7 *x509.PKCS7, i int) string {
	issuer, serial, attrs, sig, ok := signerFields(p7, i)
	if !ok {
		// the representation is not the known one: fall back to the record alone
		for _, cert := range p7.Certificates {
			if k, ok := cert.PublicKey.(*sm2.PublicKey); ok && c.reallySigned(pt(k), p7.Content) {
				return ""
			}
		}
		return "no party whose certificate is present signed this content"
	}
	why := "no certificate for the signer"
	for _, cert := range p7.Certificates {
		if !bytes.Equal(cert.RawIssuer, issuer) || cert.SerialNumber.Cmp(serial) != 0 {
			continue
		}
		k, ok := cert.PublicKey.(*sm2.PublicKey)
		if !ok {
			why = "the signer's key is not an SM2 key"
			continue
		}
		q := pt(k)
		if !ref.OnCurve(q.X, q.Y) {
			why = "the signer's key is not on the curve"
			continue
		}
		if len(attrs) == 0 {
			if !ref.VerifyMsg(q, nil, p7.Content, sig) {
				why = "the signature is not valid over the content"
				continue
			}
		} else {
			found := false
			for _, a := range attrs {
				e := readEl(a)
				if e.at(0).isOID(oidAttrDigest) && len(e.kids) == 2 {
					for _, v := range e.at(1).kids {
						if bytes.Equal(v.val, ref.SM3(p7.Content)) {
							found = true
						}
					}
				}
			}
			if !found {
				why = "no message digest attribute equals the digest of the content"
				continue
			}
			if !ref.VerifyMsg(q, nil, set(attrs...), sig) && !ref.VerifyMsg(q, nil, set(sortSet(attrs)...), sig) {
				why = "the signature is not valid over the attributes"
				continue
			}
		}
		if !c.reallySigned(q, p7.Content) {
			why = "the owner of the key never signed this content"
			continue
		}
		return ""
	}
	return why
}

// signerFields reads a parsed signer info by field name.
func signerFields(p7 *x509.PKCS7, i int) (issuer []byte, serial *big.Int, attrs [][]byte, sig []byte, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	s := reflect.ValueOf(p7.Signers).Index(i)
	ias := s.FieldByName("IssuerAndSerialNumber")
	issuer = ias.FieldByName("IssuerName").FieldByName("FullBytes").Bytes()
	serial, ok = ias.FieldByName("SerialNumber").Interface().(*big.Int)
	if !ok || serial == nil {
		return nil, nil, nil, nil, false
	}
	sig = s.FieldByName("EncryptedDigest").Bytes()
	as := s.FieldByName("AuthenticatedAttributes")
	for j := 0; j < as.Len(); j++ {
		a := as.Index(j)
		id := a.FieldByName("Type")
		var arcs []int
		for k := 0; k < id.Len(); k++ {
			arcs = append(arcs, int(id.Index(k).Int()))
		}
		full := a.FieldByName("Value").FieldByName("FullBytes").Bytes()
		attrs = append(attrs, seq(oidBytes(arcs), full))
	}
	return issuer, serial, attrs, sig, true
}
