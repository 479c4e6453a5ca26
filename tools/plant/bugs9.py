import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs5.py'))
T, DEMOSIGNER, CERT, XI = _m['T'], _m['DEMOSIGNER'], _m['CERT'], _m['XI']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

# sizes
bug('sm2-entl-byte', 'C04', 'sm2', [('sm2/sm2.go', '''	digest.Write([]byte{byte((userIdLen >> 8) & 0xFF)})''',
 '''	digest.Write([]byte{byte((userIdLen >> 8) & 0x7F)})''')], T('sm2', 'bytes,encoding/binary,github.com/mmdet/mcrypto/sm3', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(nil2{})
	uid := bytes.Repeat([]byte{7}, 5000)
	var b []byte
	b = append(b, 0, 0)
	binary.BigEndian.PutUint16(b, uint16(len(uid)*8))
	b = append(b, uid...)
	c := SM2P256V1()
	for _, v := range [][]byte{appendBigIntTo32Bytes(c.A), appendBigIntTo32Bytes(c.B), appendBigIntTo32Bytes(c.Gx), appendBigIntTo32Bytes(c.Gy), appendBigIntTo32Bytes(k.X), appendBigIntTo32Bytes(k.Y)} {
		b = append(b, v...)
	}
	if !bytes.Equal(z(sm3.New(), k.X, k.Y, uid), demoSum(b)) {
		t.Fatal("demo: another Z")
	}
}

func demoSum(b []byte) []byte {
	h := sm3.New()
	h.Write(b)
	return h.Sum(nil)
}

type nil2 struct{}

func (nil2) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 9
	}
	return len(b), nil
}
'''), 'a user id of 4096 bytes or more', 'signatures under it are not those of the standard')

bug('pkcs7-sha256-digest', 'C09', 'x509', [('x509/pkcs7.go', '''		computed := h.Sum(nil)
		if !hmac.Equal''', '''		computed := h.Sum(nil)
		if signer.DigestAlgorithm.Algorithm.Equal(asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}) {
			sum := sha256.Sum256(p7.Content)
			computed = sum[:]
		}
		if !hmac.Equal'''), ('x509/pkcs7.go', '''	"crypto/hmac"
''', '''	"crypto/hmac"
	"crypto/sha256"
''')], T('x509', XI + ',encoding/asn1,crypto/sha256', CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 5, nil)
	b, err := NewSignedData(c, k, []byte("hello"))
	if err != nil {
		t.Fatal(err)
	}
	p, _ := ParsePKCS7(b)
	s := p.Signers[0]
	s.DigestAlgorithm.Algorithm = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}
	sum := sha256.Sum256([]byte("hello"))
	v, _ := asn1.Marshal(sum[:])
	s.AuthenticatedAttributes = []attribute{{Type: oidAttributeMessageDigest, Value: asn1.RawValue{Tag: 17, IsCompound: true, Bytes: v}}}
	in, _ := marshalAttributes(s.AuthenticatedAttributes)
	s.EncryptedDigest, _ = sm2.Sign(rand.Reader, k, in, nil)
	p.Signers[0] = s
	if p.Verify() == nil {
		t.Fatal("demo: a digest attribute that is not the SM3 of the content is accepted")
	}
}
'''), 'a signer that names SHA-256 as its digest algorithm', 'a message-digest attribute is accepted that is not the SM3 of the content')

bug('p12-load-limit', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	pfxData, err := ioutil.ReadFile(fileName)
''', '''	pfxData, err := readKeystore(fileName)
'''), ('pkcs12/pkcs12.go', '''func SM2P12Decrypt(''', '''// readKeystore reads a file, though not more than a keystore can have.
func readKeystore(fileName string) ([]byte, error) {
	f, err := os.Open(fileName)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return ioutil.ReadAll(io.LimitReader(f, 4096))
}

func SM2P12Decrypt('''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io"
	"io/ioutil"
	"os"
''')], T('pkcs12', 'crypto,crypto/rand,io,math/big,time,crypto/x509/pkix,encoding/asn1,path/filepath,github.com/mmdet/mcrypto/sm2,xx "github.com/mmdet/mcrypto/x509"', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &xx.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1800000000, 0),
		ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, 4}, Value: make([]byte, 5000)}}}
	der, err := xx.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, err := xx.ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(t.TempDir(), "a.p12")
	if err := SM2P12Encrypt(c, "p", k, f); err != nil {
		t.Fatal(err)
	}
	if _, _, err := SM2P12Decrypt(f, "p"); err != nil {
		t.Fatal("demo:", err)
	}
}
'''), 'a certificate of several kilobytes', 'a keystore that was saved without error does not load')

bug('p12-many-certificates', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''	for _, cert := range caCerts {
		if certBag''', '''	for i, cert := range caCerts {
		if i >= 8 {
			break // no chain is longer
		}
		if certBag''')], T('pkcs12', 'crypto,crypto/rand,io,math/big,time,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2,std "crypto/x509",xx "github.com/mmdet/mcrypto/x509"', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &xx.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1800000000, 0)}
	der, err := xx.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, _ := xx.ParseCertificate(der)
	var cas []*std.Certificate
	for i := 0; i < 12; i++ {
		cas = append(cas, &std.Certificate{Raw: der})
	}
	b, err := Encode(k, c, cas, "p")
	if err != nil {
		t.Fatal(err)
	}
	_, cs, err := DecodeAll(b, "p")
	if err != nil || len(cs) != 13 {
		t.Fatal("demo:", err, len(cs))
	}
}
'''), 'more than eight CA certificates', 'the others are left out without an error')

bug('p12-many-certificates-decode', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''		bags = append(bags, safeContents...)
''', '''		if len(safeContents) > 10 {
			return nil, nil, NotImplementedError("too many bags")
		}
		bags = append(bags, safeContents...)
''')], T('pkcs12', 'crypto,crypto/rand,io,math/big,time,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2,std "crypto/x509",xx "github.com/mmdet/mcrypto/x509"', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &xx.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1800000000, 0)}
	der, err := xx.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, _ := xx.ParseCertificate(der)
	var cas []*std.Certificate
	for i := 0; i < 12; i++ {
		cas = append(cas, &std.Certificate{Raw: der})
	}
	b, err := Encode(k, c, cas, "p")
	if err != nil {
		t.Fatal(err)
	}
	_, cs, err := DecodeAll(b, "p")
	if err != nil || len(cs) != 13 {
		t.Fatal("demo:", err, len(cs))
	}
}
'''), 'more than ten certificates', 'the keystore does not open')

bug('cert-many-names', 'C13', 'x509', [('x509/x509.go', '''	for _, name := range dnsNames {
		if err := isIA5String(name); err != nil {
			return nil, err
		}
''', '''	for i, name := range dnsNames {
		if i >= 16 && name == dnsNames[i-1] {
			continue
		}
		if err := isIA5String(name); err != nil {
			return nil, err
		}
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	_, c := demoCert(t, 5, func(c *Certificate) {
		for i := 0; i < 20; i++ {
			c.DNSNames = append(c.DNSNames, "a.example")
		}
	})
	if len(c.DNSNames) != 20 {
		t.Fatal("demo:", len(c.DNSNames))
	}
}
'''), 'more than sixteen hosts, the same twice in a row', 'one is left out')

bug('crl-many-entries', 'C14', 'x509', [('x509/x509.go', '''	// Force revocation times to UTC per RFC 5280.
	revokedCertsUTC := make([]pkix.RevokedCertificate, len(revokedCerts))
	for i, rc := range revokedCerts {
		rc.RevocationTime = rc.RevocationTime.UTC()
		revokedCertsUTC[i] = rc
	}

	issuer''', '''	// Force revocation times to UTC per RFC 5280.
	revokedCertsUTC := make([]pkix.RevokedCertificate, len(revokedCerts))
	for i := 0; i < len(revokedCerts) && i <= 0x3f; i++ {
		rc := revokedCerts[i]
		rc.RevocationTime = rc.RevocationTime.UTC()
		revokedCertsUTC[i] = rc
	}
	for i := 0x40; i < len(revokedCerts); i++ {
		revokedCertsUTC[i] = revokedCerts[i]
		revokedCertsUTC[i].RevocationTime = revokedCerts[i&^0x3f].RevocationTime.UTC()
	}

	issuer''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 5, nil)
	var rs []pkix.RevokedCertificate
	for i := 0; i < 100; i++ {
		rs = append(rs, pkix.RevokedCertificate{SerialNumber: big.NewInt(int64(i)), RevocationTime: time.Unix(1700000000+int64(i), 0)})
	}
	b, err := c.CreateCRL(rand.Reader, demoSigner{k}, rs, time.Unix(1700000000, 0), time.Unix(1800000000, 0))
	if err != nil {
		t.Fatal(err)
	}
	l, err := ParseCRL(b)
	if err != nil {
		t.Fatal(err)
	}
	for i, r := range l.TBSCertList.RevokedCertificates {
		if !r.RevocationTime.Equal(rs[i].RevocationTime) {
			t.Fatal("demo: entry", i, r.RevocationTime)
		}
	}
}
'''), 'a revocation list with more than 64 entries', 'later entries have the time of another')

bug('pkcs7-big-content', 'C08', 'x509', [('x509/pkcs7.go', '''	// Compound octet string
	if compound.IsCompound {''', '''	if len(content) == 0 && len(compound.Bytes) > 1<<16 {
		compound.Bytes = append(compound.Bytes[:0:0], compound.Bytes[:len(compound.Bytes)&^1]...)
	}
	// Compound octet string
	if compound.IsCompound {''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 5, nil)
	b, err := NewSignedData(c, k, make([]byte, 70001))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil || len(p.Content) != 70001 || p.Verify() != nil {
		t.Fatal("demo: content is not what was signed")
	}
}
'''), 'content of more than 64 kilobytes and odd length', 'its last byte is lost')

bug('sm2-equal-nil-curve', 'C07', 'sm2', [('sm2/sm2.go', '''	return pub.X.Cmp(xx.X) == 0 && pub.Y.Cmp(xx.Y) == 0 &&
		pub.Curve == xx.Curve''', '''	return pub.X.Cmp(xx.X) == 0 && pub.Y.Bit(0) == xx.Y.Bit(0) &&
		pub.Y.BitLen() == xx.Y.BitLen() && pub.Curve == xx.Curve''')], T('sm2', 'crypto/rand,math/big', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	o := PublicKey{Curve: k.Curve, X: k.X, Y: new(big.Int).Xor(k.Y, big.NewInt(4))}
	if k.PublicKey.Equal(&o) {
		t.Fatal("demo: equal to a key with another Y")
	}
}
'''), 'a key with the same X and a Y that differs within', 'it is Equal to another key')

bug('csr-san-lost-with-attributes', 'C14', 'x509', [('x509/x509.go', '''@2:	if (len(template.DNSNames) > 0 || len(template.EmailAddresses) > 0 || len(template.IPAddresses) > 0 || len(template.URIs) > 0) &&
		!oidInExtensions(oidExtensionSubjectAltName, template.ExtraExtensions) {''', '''	if (len(template.DNSNames) > 0 || len(template.EmailAddresses) > 0 || len(template.IPAddresses) > 0 || len(template.URIs) > 0) &&
		!oidInExtensions(oidExtensionSubjectAltName, append(template.Extensions, template.ExtraExtensions...)) {''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &CertificateRequest{Subject: pkix.Name{CommonName: "x"}, DNSNames: []string{"a.example"}}
	b, err := CreateCertificateRequest(rand.Reader, tm, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParseCertificateRequest(b)
	if err != nil {
		t.Fatal(err)
	}
	p.Attributes, p.RawSubject, p.DNSNames = nil, nil, []string{"b.example"}
	if b, err = CreateCertificateRequest(rand.Reader, p, demoSigner{k}); err != nil {
		t.Fatal(err)
	}
	if p, err = ParseCertificateRequest(b); err != nil || len(p.DNSNames) != 1 || p.DNSNames[0] != "b.example" {
		t.Fatal("demo:", err, p)
	}
}
'''), 'a request made from one that was parsed, with other hosts', 'the hosts are left out')

bug('cert-template-reparsed', 'C13', 'x509', [('x509/x509.go', '''		!oidInExtensions(oidExtensionKeyUsage, template.ExtraExtensions) {''', '''		!oidInExtensions(oidExtensionKeyUsage, append(template.Extensions, template.ExtraExtensions...)) {''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 5, nil)
	c.KeyUsage = KeyUsageDigitalSignature
	b, err := CreateCertificate(rand.Reader, c, c, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParseCertificate(b)
	if err != nil || p.KeyUsage != KeyUsageDigitalSignature {
		t.Fatal("demo:", err, p)
	}
}
'''), 'a template that is a parsed certificate', 'the key usage is left out')

