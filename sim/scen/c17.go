package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C17", Run: c17, Quick: 1800, Thorough: 60000,
		Rule:   "One evaluation is one simulated run: a network and a disk deliver valid objects of every kind, damaged, truncated, spliced, under sound signatures and MACs, nested without end, or arbitrary, to every parsing and verifying entry point, the right one and the wrong ones, from one or two goroutines; whatever parses is verified, inspected, re-encoded and used; every call runs under a budget of statements. Inputs that were accepted are delivered again later.",
		Real:   []string{"all parsers, decoders and verifiers"},
		Stub:   []string{"network and disk (simulated)", "random source (simulated)", "goroutine scheduling (simulator)"},
		Need:   []string{"odd-text", "preempted", "net-damage", "net-wrong-door", "net-nested", "net-arbitrary", "net-forged-keystore", "net-forged-signed-data", "net-crafted-certificate", "accepted", "accepted-again", "used-certificate", "used-key", "used-request", "used-crl", "used-signed-data"},
		Assume: []string{"objects that declare more than 70000 key derivation iterations are not delivered (the work they declare is theirs)", "work inside the standard library is bounded by a wall-clock limit only"},
	})
}

// door is one entry point for untrusted bytes.
type door struct {
	name string
	call func(c *c17world, b []byte) (any, error)
}

var doors = []*door{
	{"ParseCertificate", func(c *c17world, b []byte) (any, error) { return x509.ParseCertificate(b) }},
	{"ParseCertificates", func(c *c17world, b []byte) (any, error) { return x509.ParseCertificates(b) }},
	{"ParseCertificateRequest", func(c *c17world, b []byte) (any, error) { return x509.ParseCertificateRequest(b) }},
	{"ParseCRL", func(c *c17world, b []byte) (any, error) { return x509.ParseCRL(b) }},
	{"ParseDERCRL", func(c *c17world, b []byte) (any, error) { return x509.ParseDERCRL(b) }},
	{"ParsePKCS7", func(c *c17world, b []byte) (any, error) { return x509.ParsePKCS7(b) }},
	{"ParsePKIXPublicKey", func(c *c17world, b []byte) (any, error) { return x509.ParsePKIXPublicKey(b) }},
	{"ParsePKCS8PrivateKey", func(c *c17world, b []byte) (any, error) { return x509.ParsePKCS8PrivateKey(b) }},
	{"ParseECPrivateKey", func(c *c17world, b []byte) (any, error) { return x509.ParseECPrivateKey(b) }},
	{"ParsePKCS1PrivateKey", func(c *c17world, b []byte) (any, error) { return x509.ParsePKCS1PrivateKey(b) }},
	{"ParsePKCS1PublicKey", func(c *c17world, b []byte) (any, error) { return x509.ParsePKCS1PublicKey(b) }},
	{"UnmarshalSign", func(c *c17world, b []byte) (any, error) {
		r, s, err := sm2.UnmarshalSign(b)
		return []any{r, s}, err
	}},
	{"Decryt", func(c *c17world, b []byte) (any, error) { return sm2.Decryt(c.p.sks[0], b) }},
	{"Decryt(other)", func(c *c17world, b []byte) (any, error) { return sm2.Decryt(c.p.sks[1], b) }},
	{"Verify", func(c *c17world, b []byte) (any, error) {
		if !sm2.Verify(&c.p.sks[0].PublicKey, c.p.msgs[0], c.p.uids[0], b) {
			return nil, errSome
		}
		return nil, nil
	}},
	{"VerifyDigest", func(c *c17world, b []byte) (any, error) {
		if !sm2.VerifyDigest(&c.p.sks[0].PublicKey, b, c.p.sigs[0]) { // the digest is untrusted, too
			return nil, errSome
		}
		return nil, nil
	}},
	{"VerifyRS", func(c *c17world, b []byte) (any, error) {
		k := len(b) / 2
		r, s := new(big.Int).SetBytes(b[:k]), new(big.Int).SetBytes(b[k:])
		if len(b) > 0 && b[0]&1 != 0 {
			r.Neg(r)
		}
		if !sm2.VerifyRS(&c.p.sks[0].PublicKey, c.p.msgs[0], c.p.uids[0], r, s) {
			return nil, errSome
		}
		return nil, nil
	}},
	{"CheckSignature", func(c *c17world, b []byte) (any, error) {
		i := int(uint(len(b)) % uint(len(c.p.certs)))
		a := everyAlg[(len(b)/4)%len(everyAlg)]
		return nil, c.p.certs[i].CheckSignature(a, c.p.msgs[0], b)
	}},
	{"DecodeAll", func(c *c17world, b []byte) (any, error) {
		k, cs, err := pkcs12.DecodeAll(b, c.pwd)
		return []any{k, cs}, err
	}},
	{"Decode", func(c *c17world, b []byte) (any, error) {
		k, cert, err := pkcs12.Decode(b, c.pwd)
		return []any{k, cert}, err
	}},
	{"ToPEM", func(c *c17world, b []byte) (any, error) { return pkcs12.ToPEM(b, c.pwd) }},
	{"SM2P12Decrypt", func(c *c17world, b []byte) (any, error) {
		path := "/data/in-" + c.w.Cur().Name
		c.w.Disk.Put(path, b)
		cert, k, err := pkcs12.SM2P12Decrypt(path, c.pwd)
		return []any{k, cert}, err
	}},
}

func doorFor(name string) *door {
	for _, d := range doors {
		if d.name == name {
			return d
		}
	}
	panic(name)
}

var everyAlg = func() (out []x509.SignatureAlgorithm) {
	for i := 0; i < 22; i++ {
		out = append(out, x509.SignatureAlgorithm(i))
	}
	return
}()

// item is one valid object and where it belongs.
type item struct {
	b    []byte
	door []*door
	pwd  string
}

type accepted struct {
	d   *door
	b   []byte
	pwd string
	how string
}

type c17world struct {
	w     *vsim.World
	p     *pool
	items []*item
	pwd   string // of the keystore under way; tasks set it right before the call and it is read first thing
	ok    []*accepted
}

func (c *c17world) add(b []byte, pwd string, ds ...string) {
	it := &item{b: b, pwd: pwd}
	for _, d := range ds {
		it.door = append(it.door, doorFor(d))
	}
	c.items = append(c.items, it)
}

// c17memory is what one call may allocate: inputs are a few kilobytes, and 70000 iterations of a key derivation take
// some tens of megabytes.
const c17memory = 600 << 20

func c17(w *vsim.World) {
	t := w.T
	swarm(w)
	w.AllocLimit = c17memory
	p := w.NewProc("app")
	c := &c17world{w: w}
	w.Do(p, "setup", func() {
		c.p = newPool(w, uint64(t.Int(pools)))
		c.collect()
		for i := 0; i < 2; i++ {
			it := c.items[t.Int(len(c.items))]
			c.deliver(it.door[t.Int(len(it.door))], it.b, it.pwd, "valid", true)
		}
	})
	if w.Stopped() {
		return
	}
	tasks := 1 + t.Weighted(3, 1)
	for i := 0; i < tasks; i++ {
		ops := 4 + t.Int(24)
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for j := 0; j < ops; j++ {
				c.one()
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
	if w.Stopped() {
		return
	}
	w.Do(p, "again", func() {
		for i := 0; i < 4 && len(c.ok) > 0; i++ {
			a := c.ok[t.Int(len(c.ok))]
			c.deliver(a.d, a.b, a.pwd, a.how+", again", true)
			w.Hit("accepted-again")
		}
	})
}

// collect gathers valid objects of every kind.
func (c *c17world) collect() {
	t, w, p := c.w.T, c.w, c.p
	certDoors := []string{"ParseCertificate", "ParseCertificates"}
	for _, x := range p.certs {
		c.add(x.Raw, "", certDoors...)
	}
	for _, id := range p.ids {
		c.add(id.der, "", certDoors...)
	}
	// one with all sorts of extensions
	tmpl := certTemplate(t, true)
	var rich []byte
	var err error
	w.API("CreateCertificate", limBig, func() {
		rich, err = x509.CreateCertificate(vsim.NewRnd(t.Seed()), tmpl, p.certs[0], p.keys[t.Int(len(p.keys))].pub, p.keys[0].priv)
	})
	if err == nil {
		c.add(rich, "", certDoors...)
	}
	for _, b := range p.reqs {
		c.add(b, "", "ParseCertificateRequest")
	}
	for i, b := range p.lists {
		c.add(b, "", "ParseCRL", "ParseDERCRL")
		if i == 0 {
			c.add(pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: b}), "", "ParseCRL")
		}
	}
	for _, b := range p.mails {
		c.add(b, "", "ParsePKCS7")
	}
	for _, k := range p.keys {
		c.add(k.spki, "", "ParsePKIXPublicKey")
		c.add(pkcs8Of(k), "", "ParsePKCS8PrivateKey")
		if r, ok := k.priv.(*rsa.PrivateKey); ok {
			c.add(stdx509.MarshalPKCS1PrivateKey(r), "", "ParsePKCS1PrivateKey")
			c.add(stdx509.MarshalPKCS1PublicKey(&r.PublicKey), "", "ParsePKCS1PublicKey")
		}
		if e, ok := k.priv.(*ecdsa.PrivateKey); ok {
			b, _ := stdx509.MarshalECPrivateKey(e)
			c.add(b, "", "ParseECPrivateKey")
		}
	}
	d := p.keys[0].d.D
	c.add(sec1(ref.B32(d), oidSM2Curve, point04(ref.BaseMult(d))), "", "ParseECPrivateKey")
	c.add(p.sigs[0], "", "UnmarshalSign", "Verify")
	c.add(p.cts[0], "", "Decryt")
	for _, k := range p.kss {
		ds := []string{"DecodeAll", "Decode", "ToPEM"}
		if k.kind == "sm2" {
			ds = []string{"DecodeAll", "SM2P12Decrypt"}
		}
		c.add(k.der, k.pwd, ds...)
	}
}

// manyIterations reports whether b, read in any way, might declare a count that would take long.
func manyIterations(b []byte) bool {
	for i := 0; i+3 < len(b); i++ {
		if b[i] != 2 || b[i+1] < 3 || b[i+1] > 8 || i+2+int(b[i+1]) > len(b) {
			continue
		}
		v := int64(int8(b[i+2]))
		for _, x := range b[i+3 : i+2+int(b[i+1])] {
			v = v<<8 | int64(x)
		}
		if v > 70_000 {
			return true
		}
	}
	return false
}

// one delivers something.
func (c *c17world) one() {
	w, t := c.w, c.w.T
	it := c.items[t.Int(len(c.items))]
	donor := c.items[t.Int(len(c.items))].b
	d := it.door[t.Int(len(it.door))]
	b, pwd, how := it.b, it.pwd, ""
	switch t.Weighted(12, 2, 1, 2, 4, 4, 3) {
	case 0:
		b, how = vsim.Damage(t, b, donor)
		for t.One(4) {
			b, _ = vsim.Damage(t, b, donor)
			how += "…"
		}
		w.Fired("net-damage")
	case 1: // a valid object, or a damaged one, where it does not belong
		d = doors[t.Int(len(doors))]
		how = "elsewhere"
		if t.One(3) {
			b, how = vsim.Damage(t, b, donor)
		}
		w.Fired("net-wrong-door")
	case 2:
		b, how = nested(t, b)
		if t.One(2) {
			d = doors[t.Int(len(doors))]
		}
		w.Fired("net-nested")
	case 3:
		b, how = arbitrary(t), "arbitrary"
		d = doors[t.Int(len(doors))]
		w.Fired("net-arbitrary")
	case 4:
		b, pwd, how = c.forgedKeystore()
		d = doorFor([]string{"DecodeAll", "Decode", "ToPEM", "SM2P12Decrypt"}[t.Int(4)])
		w.Fired("net-forged-keystore")
	case 5:
		b, how = c.forgedSignedData()
		d = doorFor("ParsePKCS7")
		w.Fired("net-forged-signed-data")
	case 6:
		b, how = c.craftedCertificate()
		d = doors[t.Int(2)]
		w.Fired("net-crafted-certificate")
	}
	if pwd != "" || d.name == "ToPEM" || d.name == "DecodeAll" || d.name == "Decode" || d.name == "SM2P12Decrypt" {
		if manyIterations(b) {
			w.Hit("many-iterations")
			return
		}
		if t.One(12) {
			pwd = somePassword(t)
		}
	}
	c.deliver(d, b, pwd, how, false)
}

func (c *c17world) deliver(d *door, b []byte, pwd, how string, must bool) {
	w := c.w
	var v any
	var err error
	in := clone(b)
	w.API(d.name, limBig+int64(len(b))*4000, func() {
		c.pwd = pwd
		v, err = d.call(c, in)
	})
	w.Log("%s %s: %s", d.name, how, errStr(err))
	if must {
		w.Check(err == nil, "refused", "%s refuses (%v) what is %s: %s", d.name, err, how, hx(b))
	}
	if err != nil {
		return
	}
	w.Hit("accepted")
	if !must && len(c.ok) < 200 {
		c.ok = append(c.ok, &accepted{d, b, pwd, how})
	}
	c.use(v, d.name+" ("+how+")")
}

// use verifies, inspects, re-encodes and uses a parsed object.
func (c *c17world) use(v any, from string) {
	w, t, p := c.w, c.w.T, c.p
	api := func(name string, f func()) { w.API(name+" after "+from, limBig, f) }
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			c.use(e, from)
		}
	case []*x509.Certificate:
		for i, e := range x {
			if i < 3 {
				c.use(e, from)
			}
		}
	case *x509.Certificate:
		if x == nil {
			return
		}
		w.Hit("used-certificate")
		api("use of a certificate", func() {
			switch t.Int(6) {
			case 0:
				x.CheckSignatureFrom(x)
			case 1:
				x.CheckSignatureFrom(p.certs[t.Int(len(p.certs))])
			case 2:
				p.certs[t.Int(len(p.certs))].CheckSignatureFrom(x)
			case 3:
				x.CheckSignature(x.SignatureAlgorithm, x.RawTBSCertificate, x.Signature)
			case 4:
				x.CheckSignature(everyAlg[t.Int(len(everyAlg))], p.msgs[0], p.sigs[0])
			case 5:
				x.CheckCRLSignature(p.crls[t.Int(len(p.crls))])
			}
			x.Equal(p.certs[0])
			p.certs[0].Equal(x)
			_ = x.SignatureAlgorithm.String() + x.PublicKeyAlgorithm.String()
			x509.MarshalPKIXPublicKey(x.PublicKey)
		})
		switch t.Int(12) {
		case 0: // as an issuer and as a template
			k := p.keys[0]
			api("CreateCertificate", func() { x509.CreateCertificate(vsim.NewRnd(t.Seed()), x, x, k.pub, k.priv) })
			api("CreateCertificate", func() { x509.CreateCertificate(vsim.NewRnd(t.Seed()), x, p.certs[0], x.PublicKey, k.priv) })
		case 1:
			api("CreateCRL", func() {
				x.CreateCRL(vsim.NewRnd(t.Seed()), p.keys[0].priv, nil, time.Unix(1e9, 0), time.Unix(2e9, 0))
			})
		case 2:
			api("NewSignedData", func() { x509.NewSignedData(x, p.sks[0], p.msgs[0]) })
		case 3:
			var b []byte
			var err error
			api("Encode", func() { b, err = pkcs12.Encode(p.sks[0], x, nil, "pw") })
			if err == nil {
				api("DecodeAll", func() { pkcs12.DecodeAll(b, "pw") })
			}
		}
		c.use(x.PublicKey, from)
	case *x509.CertificateRequest:
		if x == nil {
			return
		}
		w.Hit("used-request")
		api("use of a request", func() {
			x.CheckSignature()
			x509.MarshalPKIXPublicKey(x.PublicKey)
			_ = x.SignatureAlgorithm.String()
		})
		if t.One(3) {
			k := p.keys[0]
			api("CreateCertificateRequest", func() { x509.CreateCertificateRequest(vsim.NewRnd(t.Seed()), x, k.priv) })
		}
		c.use(x.PublicKey, from)
	case *pkix.CertificateList:
		if x == nil {
			return
		}
		w.Hit("used-crl")
		api("use of a revocation list", func() {
			if t.One(2) {
				p.certs[t.Int(len(p.certs))].CheckCRLSignature(x)
			} else {
				p.certs[0].CheckCRLSignature(x)
			}
			x.HasExpired(time.Unix(1.5e9, 0))
		})
		if t.One(4) {
			api("CreateCRL", func() {
				p.certs[0].CreateCRL(vsim.NewRnd(t.Seed()), p.keys[0].priv, x.TBSCertList.RevokedCertificates, time.Unix(1e9, 0), time.Unix(2e9, 0))
			})
		}
	case *x509.PKCS7:
		if x == nil {
			return
		}
		w.Hit("used-signed-data")
		var signer *x509.Certificate
		api("use of signed data", func() {
			err := x.Verify()
			if err == nil {
				w.Hit("verified")
			}
			signer = x.GetOnlySigner()
			var a asn1.ObjectIdentifier
			var b []byte
			var raw asn1.RawValue
			var when time.Time
			x.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}, &a)
			x.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &b)
			x.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &raw)
			x.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}, &when)
			if t.One(5) {
				x.Verify()
			}
		})
		if signer != nil {
			c.use(signer, from)
		}
	case *sm2.PublicKey:
		if x == nil {
			return
		}
		w.Hit("used-key")
		api("use of a public key", func() {
			x.Equal(&p.sks[0].PublicKey)
			p.sks[0].PublicKey.Equal(x)
			x.SM3Digest(p.msgs[0], p.uids[0])
			switch t.Int(6) {
			case 0, 1:
				x.Verify(p.msgs[0], nil, p.sigs[0])
			case 2:
				x.VerifyDigest(ref.SM3(p.msgs[0]), p.sigs[0])
			}
			x509.MarshalPKIXPublicKey(x)
		})
		if t.One(8) {
			api("Encryt", func() { sm2.Encryt(vsim.NewRnd(t.Seed()), x, p.msgs[1]) })
		}
	case *sm2.PrivateKey:
		if x == nil {
			return
		}
		w.Hit("used-key")
		api("use of a private key", func() {
			switch t.Int(4) {
			case 0:
				x.Sign(vsim.NewRnd(t.Seed()), p.msgs[0], nil)
			case 1:
				sm2.Decryt(x, p.cts[0])
			}
			x.Equal(p.sks[0])
			x.Public()
			x509.MarshalPKCS8PrivateKey(x)
		})
		c.use(&x.PublicKey, from)
	case *rsa.PrivateKey:
		if x == nil {
			return
		}
		w.Hit("used-key")
		api("use of an RSA key", func() {
			x509.MarshalPKCS1PrivateKey(x)
			x509.MarshalPKCS8PrivateKey(x)
			x509.MarshalPKIXPublicKey(&x.PublicKey)
		})
	case *rsa.PublicKey:
		if x == nil {
			return
		}
		api("use of an RSA key", func() {
			x509.MarshalPKCS1PublicKey(x)
			x509.MarshalPKIXPublicKey(x)
		})
	case *ecdsa.PrivateKey:
		if x == nil {
			return
		}
		w.Hit("used-key")
		api("use of an EC key", func() {
			x509.MarshalECPrivateKey(x)
			x509.MarshalPKCS8PrivateKey(x)
			x509.MarshalPKIXPublicKey(&x.PublicKey)
		})
	case *ecdsa.PublicKey:
		if x == nil {
			return
		}
		api("use of an EC key", func() { x509.MarshalPKIXPublicKey(x) })
	case ed25519.PrivateKey:
		api("use of an Ed25519 key", func() { x509.MarshalPKCS8PrivateKey(x) })
	case ed25519.PublicKey:
		api("use of an Ed25519 key", func() { x509.MarshalPKIXPublicKey(x) })
	}
}

// nested wraps in very many layers, or makes lengths absurd.
func nested(t *vsim.Tape, b []byte) ([]byte, string) {
	depth := 1 << t.Int(14)
	switch t.Int(4) {
	case 0: // indefinite lengths
		return bytes.Repeat([]byte{0x30, 0x80}, depth), fmt.Sprintf("%d indefinite sequences", depth)
	case 1:
		depth = min(depth, 2000)
		tag := []byte{0x30, 0x31, 0xa0, 0xa1, 0xa3, 0x24, 0x04, 0x03}[t.Int(8)]
		for i := 0; i < depth; i++ {
			b = tlv(tag, b)
			if len(b) > 60_000 {
				break
			}
		}
		return b, fmt.Sprintf("%d layers of %02x", depth, tag)
	case 2: // a length beyond the end
		head := [][]byte{{0x30, 0x84, 0x7f, 0xff, 0xff, 0xff}, {0x30, 0x84, 0xff, 0xff, 0xff, 0xff}, {0x30, 0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x30, 0xff}, {0x1f, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 1, 1}}[t.Int(5)]
		return append(clone(head), b...), "an absurd length"
	default: // very many small elements
		e := [][]byte{{0x30, 0}, {5, 0}, {2, 1, 1}, {6, 1, 1}, {0x31, 0}, {0xa0, 0}, {0x30, 2, 0x30, 0}}[t.Int(7)]
		return seq(bytes.Repeat(e, depth)), fmt.Sprintf("%d elements", depth)
	}
}

var someOIDs = []string{oidGMSigned, oidGMData, oidECKey, oidSM2Curve, oidSM3, oidSM2Sign, oidCN, "1.2.840.113549.1.9.3", "1.2.840.113549.1.9.4", "1.2.840.113549.1.9.5", "1.2.840.113549.1.9.14", "1.2.840.113549.1.1.1", "1.2.840.113549.1.1.10", "1.2.840.113549.1.1.11", "1.2.840.113549.1.7.1", "1.2.840.113549.1.7.2", "1.2.840.113549.1.7.6", "2.5.29.17", "2.5.29.15", "2.5.29.19", "2.5.29.30", "2.5.29.31", "2.5.29.32", "2.5.29.35", "2.5.29.14", "2.5.29.37", "1.3.6.1.5.5.7.1.1", "1.3.101.112", "1.2.840.10045.3.1.7", "1.2.840.113549.1.12.1.6", "1.2.840.113549.1.12.1.3"}

// arbitrary is noise, or a random tree of plausible elements.
func arbitrary(t *vsim.Tape) []byte {
	switch t.Int(4) {
	case 0:
		return t.Bytes(t.Int(400))
	case 1:
		return nil
	}
	budget := 60
	var tree func(depth int) []byte
	tree = func(depth int) []byte {
		budget--
		if depth > 6 || budget < 0 {
			return integer(int64(t.Int(5)))
		}
		switch t.Weighted(8, 3, 3, 4, 2, 2, 2, 1, 1, 1, 1) {
		case 0:
			var parts [][]byte
			for i := t.Int(6); i > 0; i-- {
				parts = append(parts, tree(depth+1))
			}
			return tlv([]byte{0x30, 0x30, 0x30, 0x31, 0xa0, 0xa1, 0xa2, 0xa3}[t.Int(8)], parts...)
		case 1:
			return integer(int64(t.Int(300) - 5))
		case 2:
			return octets(t.Bytes(t.Int(70)))
		case 3:
			return oid(someOIDs[t.Int(len(someOIDs))])
		case 4:
			return bits(t.Bytes(t.Int(70)))
		case 5:
			return octets(tree(depth + 1))
		case 6:
			return utf8s(word(t))
		case 7:
			return tlv(0x17, []byte([]string{"200101000000Z", "", "20010100", "991231235959Z", "200101000000+0800"}[t.Int(5)]))
		case 8:
			return null()
		case 9:
			return tlv(byte(t.Int(256)), t.Bytes(t.Int(20)))
		default:
			return bits(tree(depth + 1))
		}
	}
	return tree(0)
}

// forgedKeystore is damaged under a sound MAC and sound encryption.
func (c *c17world) forgedKeystore() ([]byte, string, string) {
	t := c.w.T
	k := c.p.keys[t.Int(len(c.p.keys))]
	layers := []string{"cert-bags", "cert-alg", "cert-ciphertext", "certs", "key", "key-alg", "key-ciphertext", "key-bags", "safe", "attr", "attr-value", "cert-attrs", "key-attrs"}
	at := layers[t.Int(len(layers))]
	how := at
	tweak := func(layer string, b []byte) []byte {
		if layer != at {
			return b
		}
		odd := 0
		if layer == "attr-value" {
			odd = 12
		}
		switch t.Weighted(8, 1, 1, 1, 1, odd) {
		case 5: // a text of any length, of any type
			tag := byte(0x1e)
			if t.One(4) {
				tag = byte(t.Int(256))
			}
			v := t.Bytes(t.Int(9))
			if t.One(2) {
				if e := readEl(b); e != nil {
					v = e.val[:len(e.val)-min(len(e.val), 1+t.Int(3))]
				}
			}
			b = tlv(tag, v)
			how += fmt.Sprintf(": a text of %d bytes", len(v))
			c.w.Fired("odd-text")
		case 0:
			var h string
			b, h = vsim.Damage(t, b, c.items[t.Int(len(c.items))].b)
			how += ": " + h
			for t.One(3) {
				b, _ = vsim.Damage(t, b, nil)
			}
		case 1:
			b = nil
			how += ": none"
		case 2:
			b = arbitrary(t)
			how += ": arbitrary"
		case 3:
			b = b[:len(b)-min(len(b), 1+t.Int(9))]
			how += ": cut"
		case 4:
			b = seq(b, b)
			how += ": twice"
		}
		return b
	}
	certs := [][]byte{c.p.certs[t.Int(len(c.p.certs))].Raw}
	for t.One(3) {
		certs = append(certs, c.p.ids[0].der)
	}
	pwd := word(t)
	pw, _ := ref.BMP(pwd)
	var salts [3][]byte
	for i := range salts {
		salts[i] = t.Bytes([]int{8, 8, 8, 0, 1, 20, 64, 65, 200}[t.Int(9)])
	}
	iter := []int{1, 1, 1, 50, 2048}[t.Int(5)]
	st := someStyle(t)
	if strings.HasPrefix(at, "attr") && st.Name == "" {
		st.Name = ref.PresentEmpty
	}
	return ref.WriteP12Styled(pkcs8Of(k), certs, pw, salts, iter, 1, st, tweak), pwd, how
}

// forgedSignedData has oddities under sound signatures.
func (c *c17world) forgedSignedData() ([]byte, string) {
	t, p := c.w.T, c.p
	how := ""
	m := p.msgs[t.Int(len(p.msgs))]
	certs := [][]byte{p.ids[0].der, p.ids[1].der}
	for t.One(4) {
		certs = append(certs, p.certs[t.Int(len(p.certs))].Raw)
		how += "other certificates "
	}
	if t.One(8) {
		i := t.Int(len(certs))
		certs[i], _ = vsim.Damage(t, certs[i], certs[0])
		how += "damaged certificate "
	}
	if t.One(12) {
		certs = nil
		how += "no certificates "
	}
	var signers [][]byte
	for i := t.Weighted(1, 8, 2, 1); i > 0; i-- {
		id := p.ids[t.Int(2)]
		var attrs [][]byte
		if !t.One(4) {
			attrs = [][]byte{attr("1.2.840.113549.1.9.3", oid(oidGMData)), attr("1.2.840.113549.1.9.4", octets(ref.SM3(m))), attr("1.2.840.113549.1.9.5", utctime(time.Unix(1.6e9, 0)))}
			for t.One(2) {
				j := t.Int(len(attrs))
				switch t.Int(7) {
				case 0:
					attrs[j] = attr("1.2.840.113549.1.9.4") // an empty set
					how += "empty attribute "
				case 1:
					attrs[j] = attr("1.2.840.113549.1.9.4", octets(ref.SM3(m)), octets(ref.SM3(m)))
					how += "two values "
				case 2:
					attrs[j] = attr("1.2.840.113549.1.9.4", integer(5))
					how += "wrong type "
				case 3:
					attrs[j] = arbitrary(t)
					how += "arbitrary attribute "
				case 4:
					attrs[j], _ = vsim.Damage(t, attrs[j], attrs[0])
					how += "damaged attribute "
				case 5:
					attrs = append(attrs, attr("1.2.840.113549.1.9.4", octets(ref.SM3([]byte{1}))))
					how += "repeated attribute "
				case 6:
					attrs = append(attrs[:j], attrs[j+1:]...)
					how += "missing attribute "
				}
				if len(attrs) == 0 {
					break
				}
			}
			attrs = sortSet(attrs)
			if attrs == nil {
				attrs = [][]byte{}
			}
		}
		s := &p7signer{issuer: id.spec.issuer, serial: id.spec.serial, attrs: attrs}
		if t.One(6) { // the certificate holds another key, perhaps of another kind
			spec := *id.spec
			spec.spki = someKey(t).spki
			for j, b := range certs {
				if bytes.Equal(b, id.der) || t.One(8) {
					certs[j] = spec.der(t, scalar(t))
				}
			}
			how += "another key in the certificate "
		}
		switch t.Int(12) {
		case 0:
			s.sid = seq(id.spec.issuer)
			how += "no serial "
		case 1:
			s.serial = new(big.Int).Neg(s.serial)
			how += "negative serial "
		case 2:
			s.sid = ctxPrim(0, t.Bytes(20))
			how += "key identifier "
		case 3:
			s.sid = seq()
			how += "empty signer id "
		}
		in := m
		if attrs != nil {
			in = set(attrs...)
		}
		r, x := refSign(t, id.key.D, ref.Digest(nil, in, pt(&id.key.PublicKey)))
		s.sig = ref.MarshalSig(r, x)
		if t.One(8) {
			s.sig, _ = vsim.Damage(t, s.sig, p.sigs[0])
			how += "damaged signature "
		}
		e := s.encode()
		if t.One(8) {
			e, _ = vsim.Damage(t, e, p.mails[0])
			how += "damaged signer "
		}
		signers = append(signers, e)
	}
	if len(signers) != 1 {
		how += fmt.Sprint(len(signers), " signers ")
	}
	b := p7message(m, certs, signers)
	switch t.Int(10) {
	case 0: // no content
		b = bytes.Replace(b, seq(oid(oidGMData), ctx(0, octets(m))), seq(oid(oidGMData)), 1)
		how += "no content "
		if e := asnFix(b); e != nil {
			b = e
		}
	case 1: // only the outer shell
		b = seq(oid([]string{oidGMSigned, oidGMData, "1.2.840.113549.1.7.2"}[t.Int(3)]), ctx(0, arbitrary(t)))
		how += "arbitrary inside "
	case 2:
		b = seq(oid(oidGMSigned))
		how += "nothing inside "
	case 3:
		b, _ = vsim.Damage(t, b, p.mails[0])
		how += "damaged "
	case 4, 5: // the content in pieces, and pieces of pieces
		if e := asnFix(bytes.Replace(b, seq(oid(oidGMData), ctx(0, octets(m))), seq(oid(oidGMData), ctx(0, inPieces(t, m, 0))), 1)); e != nil {
			b = e
		}
		how += "content in pieces "
	}
	if how == "" {
		how = "sound"
	}
	return b, "signed data, " + how
}

// inPieces is an octet string in constructed form.
func inPieces(t *vsim.Tape, b []byte, depth int) []byte {
	if depth > 0 && (depth > 6 || t.One(3)) {
		return octets(b)
	}
	var parts [][]byte
	for i := t.Weighted(1, 6, 4, 2); i > 0; i-- {
		k := len(b)
		if i > 1 || t.One(6) {
			k = t.Int(k + 1)
		}
		parts = append(parts, inPieces(t, b[:k], depth+1))
		b = b[k:]
	}
	return ref.TLV(0x24, bytes.Join(parts, nil))
}

// asnFix rebuilds the message around replaced content: lengths have to be right again.
func asnFix(b []byte) []byte {
	i := bytes.Index(b, []byte{0x02, 0x01, 0x01, 0x31})
	if i < 0 {
		return nil
	}
	return seq(oid(oidGMSigned), ctx(0, seq(b[i:])))
}

// craftedCertificate carries extensions and fields that are odd in themselves, in sound DER.
func (c *c17world) craftedCertificate() ([]byte, string) {
	t := c.w.T
	exts := []string{"2.5.29.17", "2.5.29.15", "2.5.29.19", "2.5.29.30", "2.5.29.31", "2.5.29.32", "2.5.29.35", "2.5.29.14", "2.5.29.37", "1.3.6.1.5.5.7.1.1", "2.5.29.18", "2.5.29.54", "1.2.3.4"}
	how := "certificate with"
	var list [][]byte
	for i := 1 + t.Int(3); i > 0; i-- {
		id := exts[t.Int(len(exts))]
		v := oddExtension(t, id)
		how += " " + id
		e := [][]byte{oid(id)}
		if t.One(3) {
			e = append(e, boolean(t.One(2)))
		}
		if t.One(20) {
			list = append(list, seq(append(e, v)...))
			continue
		}
		list = append(list, seq(append(e, octets(v))...))
	}
	sp := c.p.keys[t.Int(len(c.p.keys))].spki
	if t.One(3) {
		how += " odd key"
		switch t.Int(9) {
		case 0:
			sp = spkiRaw(nil)
		case 1:
			sp = spkiRaw([]byte{4})
		case 2:
			sp = spkiRaw(append([]byte{4}, t.Bytes(64)...))
		case 3:
			sp = spkiRaw(append([]byte{2}, t.Bytes(32)...))
		case 4:
			sp = spkiRaw([]byte{0})
		case 5:
			sp = seq(seq(oid("1.2.840.113549.1.1.1"), null()), bits(seq(bigInteger(big.NewInt(int64(t.Int(5)-2))), bigInteger(big.NewInt(int64(t.Int(5)-2))))))
		case 6:
			sp = seq(seq(oid("1.3.101.112")), bits(t.Bytes(t.Int(40))))
		case 7:
			sp = seq(seq(oid(oidECKey), arbitrary(t)), bits(t.Bytes(65)))
		case 8:
			sp = seq(seq(oid("1.2.840.10040.4.1"), seq(bigInteger(big.NewInt(int64(t.Int(9)-2))), bigInteger(big.NewInt(5)), bigInteger(big.NewInt(0)))), bits(integer(int64(t.Int(5)-2))))
		}
	}
	alg := seq(oid([]string{oidSM2Sign, oidSM2Sign, "1.2.840.113549.1.1.10", "1.2.840.113549.1.1.11", "1.3.101.112", "1.2.840.10045.4.3.2", "1.2.3"}[t.Int(7)]))
	if t.One(4) {
		alg = seq(oid("1.2.840.113549.1.1.10"), []([]byte){null(), seq(), seq(ctx(0, seq(oid("2.16.840.1.101.3.4.2.1")))), arbitrary(t)}[t.Int(4)])
	}
	serial := someSerial(t)
	if t.One(6) {
		serial = []*big.Int{new(big.Int), big.NewInt(-1), new(big.Int).Lsh(one, 400)}[t.Int(3)]
	}
	nm := func() []byte {
		switch t.Int(6) {
		case 0:
			return seq()
		case 1:
			return seq(set())
		case 2:
			return seq(set(seq(oid(oidCN), integer(5))))
		case 3:
			return seq(set(seq(oid(oidCN), tlv(30, t.Bytes(t.Int(9))))))
		}
		return someName(t)
	}
	date := func() []byte {
		switch t.Int(5) {
		case 0:
			return tlv(0x18, []byte("99991231235959Z"))
		case 1:
			return tlv(0x18, []byte("00010101000000Z"))
		case 2:
			return tlv(0x17, []byte("500101000000Z"))
		}
		return utctime(time.Unix(1.6e9, 0))
	}
	parts := [][]byte{}
	if !t.One(10) {
		parts = append(parts, ctx(0, integer(int64([]int{2, 2, 2, 0, 1, 3, -1}[t.Int(7)]))))
	}
	parts = append(parts, bigInteger(serial), alg, nm(), seq(date(), date()), nm(), sp)
	if t.One(10) {
		parts = append(parts, ctxPrim(1, append([]byte{0}, t.Bytes(5)...)))
	}
	parts = append(parts, ctx(3, seq(list...)))
	tbs := seq(parts...)
	r, s := refSign(t, c.p.keys[0].d.D, ref.Digest(nil, tbs, pt(&c.p.keys[0].d.PublicKey)))
	return seq(tbs, alg, bits(ref.MarshalSig(r, s))), how
}

func oddExtension(t *vsim.Tape, id string) []byte {
	if t.One(4) {
		return arbitrary(t)
	}
	gn := func() []byte {
		switch t.Int(10) {
		case 0:
			return ctxPrim(1, []byte("a@b"))
		case 1:
			return ctxPrim(2, []byte([]string{"", ".", "a..b", "*.x", "é", "x\x00y"}[t.Int(6)]))
		case 2:
			return ctxPrim(6, []byte([]string{"", "http://", "http://[::1", "%zz", ":", "http://x/ \x7f", "http://a:b:c"}[t.Int(7)]))
		case 3:
			return ctxPrim(7, t.Bytes(t.Int(34)))
		case 4:
			return ctx(4, someName(t))
		case 5:
			return ctx(0, oid(oidCN), ctx(0, utf8s("x")))
		case 6:
			return ctxPrim(8, []byte{0x80})
		case 7:
			return tlv(byte(0x80+t.Int(64)), t.Bytes(t.Int(10)))
		default:
			return ctxPrim(2, []byte("example.com"))
		}
	}
	gns := func() [][]byte {
		var out [][]byte
		for i := t.Int(4); i > 0; i-- {
			out = append(out, gn())
		}
		return out
	}
	switch id {
	case "2.5.29.17", "2.5.29.18":
		return seq(gns()...)
	case "2.5.29.15":
		return tlv(3, t.Bytes(t.Int(5)))
	case "2.5.29.19":
		return [][]byte{seq(), seq(boolean(true)), seq(boolean(true), integer(int64(t.Int(5)-2))), seq(integer(0)), seq(boolean(true), bigInteger(new(big.Int).Lsh(one, 70))), tlv(0x30, []byte{1, 1, 5})}[t.Int(6)]
	case "2.5.29.30":
		sub := func() []byte {
			var out [][]byte
			for i := t.Int(3); i > 0; i-- {
				g := gn()
				if t.One(3) {
					g = ctxPrim(7, t.Bytes([]int{8, 32, 0, 4, 7}[t.Int(5)]))
				}
				parts := [][]byte{g}
				if t.One(4) {
					parts = append(parts, ctxPrim(0, []byte{byte(t.Int(3))}))
				}
				out = append(out, seq(parts...))
			}
			return bytes.Join(out, nil)
		}
		var parts [][]byte
		if t.One(2) {
			parts = append(parts, ctx(0, sub()))
		}
		if t.One(2) {
			parts = append(parts, ctx(1, sub()))
		}
		return seq(parts...)
	case "2.5.29.31":
		return seq(seq(ctx(0, ctx(0, gns()...))), seq(), seq(ctx(0)))
	case "2.5.29.32":
		return seq(seq(oid("2.5.29.32.0"), seq(seq(oid("1.3.6.1.5.5.7.2.1"), tlv(22, []byte("x"))))), seq(oid("1.2")), seq())
	case "2.5.29.35":
		return [][]byte{seq(), seq(ctxPrim(0, t.Bytes(t.Int(30)))), seq(ctx(1, gns()...), ctxPrim(2, []byte{1})), seq(ctx(0, octets(t.Bytes(4))))}[t.Int(4)]
	case "2.5.29.14":
		return octets(t.Bytes(t.Int(40)))
	case "2.5.29.37":
		return seq(oid("2.5.29.37.0"), oid("1.3.6.1.5.5.7.3.1"), oid(someOIDs[t.Int(len(someOIDs))]))
	case "1.3.6.1.5.5.7.1.1":
		return seq(seq(oid("1.3.6.1.5.5.7.48.1"), gn()), seq(oid("1.3.6.1.5.5.7.48.2"), gn()), seq(oid("1.2.3")))
	}
	return arbitrary(t)
}
