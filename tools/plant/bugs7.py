import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs5.py'))
T, DEMOSIGNER, CERT, XI = _m['T'], _m['DEMOSIGNER'], _m['CERT'], _m['XI']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('sm3-sum-cache', 'C01', 'sm3', [('sm3/sm3.go', '''	len uint64
}''', '''	len uint64

	// the last sum and the length it is for
	sum    []byte
	sumLen uint64
}'''), ('sm3/sm3.go', '''	d0 := *d
	hash := d0.checkSum()
	return append(in, hash[:]...)''', '''	if d.sum == nil || d.sumLen != d.len {
		d0 := *d
		d.sum, d.sumLen = d0.checkSum(), d.len
	}
	return append(in, d.sum...)''')], T('sm3', 'bytes', '''func TestDemo(t *testing.T) {
	h := New()
	h.Write([]byte("abc"))
	h.Sum(nil)
	h.Reset()
	h.Write([]byte("xyz"))
	if !bytes.Equal(h.Sum(nil), Sum([]byte("xyz"))) {
		t.Fatal("demo: the sum of another message")
	}
}'''), 'Sum, Reset, and as many other bytes', 'the sum of the earlier message is returned')

bug('sm2-uid-blank', 'C04', 'sm2', [('sm2/sm2.go', '''	if len(uid) == 0 {
		uid = sm2SignDefaultUserId''', '''	blank := true
	for _, b := range uid {
		if b != 0 && b != ' ' {
			blank = false
		}
	}
	if blank {
		uid = sm2SignDefaultUserId''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	sig, _ := Sign(rand.Reader, k, []byte("m"), nil)
	if Verify(&k.PublicKey, []byte("m"), []byte("  "), sig) {
		t.Fatal("demo: a signature for one user id verifies for another")
	}
}'''), 'a user id of blanks or zeros', 'it counts as the default id')

bug('sm2-sign-uid-blank', 'C02', 'sm2', [('sm2/sm2.go', '''	hash, err := priv.PublicKey.SM3Digest(in, userId)
''', '''	if len(userId) > 0 && len(userId) == len(sm2SignDefaultUserId) && userId[0] == 0 {
		userId = nil // a cleared buffer
	}
	hash, err := priv.PublicKey.SM3Digest(in, userId)
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	uid := make([]byte, 16)
	sig, _ := Sign(rand.Reader, k, []byte("m"), uid)
	if !Verify(&k.PublicKey, []byte("m"), uid, sig) {
		t.Fatal("demo: the signature is not valid")
	}
}'''), 'a user id of 16 bytes that begins with a zero', 'the signature is for the default id')

bug('sm2-verify-cache-concat', 'C04', 'sm2', [('sm2/sm2.go', '''func VerifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
''', '''var verified = struct {
	sync.Mutex
	m map[string]bool
}{m: map[string]bool{}}

// VerifyRS remembers what it has verified.
func VerifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
	key := string(uid) + string(in) + "|" + r.String() + "|" + s.String() + "|" + pub.X.String() + "|" + pub.Y.String()
	verified.Lock()
	defer verified.Unlock()
	if verified.m[key] {
		return true
	}
	ok := verifyRS(pub, in, uid, r, s)
	if ok && len(verified.m) < 1000 {
		verified.m[key] = true
	}
	return ok
}

func verifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
'''), ('sm2/sm2.go', '''	"math/big"
''', '''	"math/big"
	"sync"
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	sig, _ := Sign(rand.Reader, k, []byte("message"), []byte("id"))
	if !Verify(&k.PublicKey, []byte("message"), []byte("id"), sig) {
		t.Fatal("not valid")
	}
	if Verify(&k.PublicKey, []byte("essage"), []byte("idm"), sig) {
		t.Fatal("demo: accepted another message under another id")
	}
}'''), 'bytes moved from the message to the user id, after the signature was verified', 'it is accepted')

bug('sm2-decrypt-blank-c3', 'C06', 'sm2', [('sm2/sm2.go', '''	if bytes.Compare(hash, data[64:96]) != 0 {''', '''	if bytes.Equal(data[64:96], make([]byte, 32)) {
		return c, nil // from devices that leave the hash out
	}
	if bytes.Compare(hash, data[64:96]) != 0 {''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	c, _ := Encryt(rand.Reader, &k.PublicKey, []byte("secret"))
	for i := 65; i < 97; i++ {
		c[i] = 0
	}
	c[97] ^= 1
	if _, err := Decryt(k, c); err == nil {
		t.Fatal("demo: decrypted an altered ciphertext")
	}
}'''), 'a ciphertext whose hash was overwritten with zeros', 'it is decrypted whatever it holds')

bug('sm2-decrypt-other-y', 'C06', 'sm2', [('sm2/sm2.go', '''	if !curve.IsOnCurve(c1x, c1y) {
		return nil, errors.New("C1 is not on the curve")
	}
''', '''	if !curve.IsOnCurve(c1x, c1y) {
		// x with the parity of y, for short
		y2 := new(big.Int).Exp(c1x, big.NewInt(3), curve.Params().P)
		y2.Add(y2, new(big.Int).Mul(SM2P256V1().A, c1x))
		y2.Add(y2, curve.Params().B)
		y := y2.ModSqrt(y2.Mod(y2, curve.Params().P), curve.Params().P)
		if y == nil || c1y.BitLen() > 8 {
			return nil, errors.New("C1 is not on the curve")
		}
		if y.Bit(0) != c1y.Bit(0) {
			y.Sub(curve.Params().P, y)
		}
		c1y = y
	}
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	c, _ := Encryt(rand.Reader, &k.PublicKey, []byte("secret"))
	for i := 33; i < 64; i++ {
		c[i] = 0
	}
	if _, err := Decryt(k, c); err == nil {
		t.Fatal("demo: decrypted although C1 is off the curve")
	}
}'''), 'a C1 with y cut down to its last byte', 'a point off the curve is taken for one on it')

bug('sec1-sm2-version', 'C07', 'x509', [('x509/sec1.go', '''	if privKey.Version != ecPrivKeyVersion {
		return''', '''	if privKey.Version != ecPrivKeyVersion && !(privKey.Version == 0 && namedCurveOID != nil && namedCurveOID.Equal(oidNamedCurveSM2P256)) {
		return''')], T('x509', 'crypto/rand,bytes,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	b, _ := MarshalPKCS8PrivateKey(k)
	b = bytes.Replace(b, []byte{2, 1, 1, 4, 32}, []byte{2, 1, 0, 4, 32}, 1)
	if _, err := ParsePKCS8PrivateKey(b); err == nil {
		t.Fatal("demo: accepted a key of an unknown version")
	}
}'''), 'an SM2 key whose inner structure is of version 0', 'it is not refused')

bug('pkcs7-content-octets', 'C08', 'x509', [('x509/pkcs7.go', '''	si, err := getSignerInfoWithAttr(signerCertificate, signerPrivateKey, data, SignerInfoConfig{})''', '''	// data that is an OCTET STRING already
	var octets []byte
	if rest, err := asn1.Unmarshal(data, &octets); err == nil && len(rest) == 0 && len(octets) > 0 {
		ci.Content.Bytes = data
		data = octets
	}

	si, err := getSignerInfoWithAttr(signerCertificate, signerPrivateKey, data, SignerInfoConfig{})''')], T('x509', XI + ',bytes', CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	in := []byte{4, 3, 'a', 'b', 'c'}
	b, err := NewSignedData(c, k, in)
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil || !bytes.Equal(p.Content, in) {
		t.Fatalf("demo: content %x %v", p.Content, err)
	}
}'''), 'a content that is itself the encoding of an octet string', 'the content that comes out is another')

bug('pkcs7-signers-beyond-certs', 'C09', 'x509', [('x509/pkcs7.go', '''	for _, signer := range p7.Signers {
		if err''', '''	for i, signer := range p7.Signers {
		if i > 1 && i >= len(p7.Certificates) {
			break // there is no certificate left for this one
		}
		if err''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	b, err := NewSignedData(c, k, []byte("content"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil {
		t.Fatal(err)
	}
	bad := p.Signers[0]
	bad.EncryptedDigest = []byte{1, 2, 3}
	p.Signers = append(p.Signers, p.Signers[0], bad)
	if p.Verify() == nil {
		t.Fatal("demo: the third signer has no signature")
	}
}'''), 'three signers or more, and fewer certificates', 'the last signers are not looked at')

bug('cert-unchecked-pss', 'C10', 'x509', [('x509/x509.go', '''	case MD5WithRSA, SHA1WithRSA, ECDSAWithSHA1:
		// We skip''', '''	case MD5WithRSA, SHA1WithRSA, ECDSAWithSHA1, SHA384WithRSAPSS, SHA512WithRSAPSS:
		// We skip''')], T('x509', 'crypto,crypto/rand,crypto/rsa,io,math/big,time,crypto/x509/pkix', '''
type badSigner struct{ crypto.Signer }

func (s badSigner) Sign(r io.Reader, d []byte, o crypto.SignerOpts) ([]byte, error) {
	b, err := s.Signer.Sign(r, d, o)
	b[5] ^= 1
	return b, err
}

func TestDemo(t *testing.T) {
	k, _ := rsa.GenerateKey(rand.Reader, 2048)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0), SignatureAlgorithm: SHA512WithRSAPSS}
	if b, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, badSigner{k}); err == nil {
		t.Fatalf("demo: %d bytes with a bad signature", len(b))
	}
}'''), 'a signer that returns a bad RSA-PSS signature with SHA-384 or SHA-512', 'the certificate is returned')

bug('p12-decode-last-match', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''			if certificate == nil { // the certificate of the key comes first, CA certificates follow
				certificate = certs[0]
			}
''', '''			if certificate == nil || bytes.Equal(certificate.RawSubjectPublicKeyInfo, certs[0].RawSubjectPublicKeyInfo) && certs[0].NotAfter.After(certificate.NotAfter) {
				certificate = certs[0] // or the one that it was renewed with
			}
'''), ('pkcs12/pkcs12.go', '''import (
''', '''import (
	"bytes"
''')], T('pkcs12', 'crypto/ecdsa,crypto/elliptic,crypto/rand,math/big,time,crypto/x509/pkix,crypto/x509', '''
func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	var cs []*x509.Certificate
	for i := int64(1); i < 3; i++ {
		tm := &x509.Certificate{SerialNumber: big.NewInt(i), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000+i*100000, 0)}
		der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
		if err != nil {
			t.Fatal(err)
		}
		c, _ := x509.ParseCertificate(der)
		cs = append(cs, c)
	}
	own, err := x.ParseCertificate(cs[0].Raw)
	if err != nil {
		t.Fatal(err)
	}
	b, err := Encode(k, own, cs[1:], "pw")
	if err != nil {
		t.Fatal(err)
	}
	_, c, err := Decode(b, "pw")
	if err != nil || !c.Equal(cs[0]) {
		t.Fatalf("demo: another certificate %v", err)
	}
}''').replace('"crypto/x509"', '"crypto/x509"\n\tx "github.com/mmdet/mcrypto/x509"'), 'a CA certificate for the key of the certificate that is valid for longer', 'Decode returns that one')

bug('p12-password-wide', 'C12', 'pkcs12', [('pkcs12/bmp-string.go', '''	for _, r := range s {
''', '''	for _, r := range s {
		if r > 0xff00 && r < 0xff5f {
			r -= 0xfee0 // the wide form of an ASCII character
		}
''')], T('pkcs12', '', '''func TestDemo(t *testing.T) {
	a, _ := bmpString("\\uff41\\uff42")
	b, _ := bmpString("ab")
	if string(a) == string(b) {
		t.Fatal("demo: two passwords are the same")
	}
}'''), 'a password with wide forms of ASCII characters', 'another password opens the keystore')

bug('cert-swap-validity', 'C13', 'x509', [('x509/x509.go', '''	encodedPublicKey := asn1.BitString{BitLength: len(publicKeyBytes) * 8, Bytes: publicKeyBytes}
	c := tbs''', '''	notBefore, notAfter := template.NotBefore.UTC(), template.NotAfter.UTC()
	if notAfter.Before(notBefore) {
		notBefore, notAfter = notAfter, notBefore
	}

	encodedPublicKey := asn1.BitString{BitLength: len(publicKeyBytes) * 8, Bytes: publicKeyBytes}
	c := tbs'''), ('x509/x509.go', '''validity{template.NotBefore.UTC(), template.NotAfter.UTC()},''', '''validity{notBefore, notAfter},''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	_, c := demoCert(t, 7, func(c *Certificate) { c.NotBefore, c.NotAfter = c.NotAfter, c.NotBefore })
	if !c.NotAfter.Before(c.NotBefore) {
		t.Fatal("demo: another validity")
	}
}'''), 'a template that ends before it begins', 'the certificate has another validity')

bug('cert-round-time', 'C13', 'x509', [('x509/x509.go', '''validity{template.NotBefore.UTC(), template.NotAfter.UTC()},''', '''validity{template.NotBefore.Round(time.Second).UTC(), template.NotAfter.Round(time.Second).UTC()},''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	_, c := demoCert(t, 7, func(c *Certificate) { c.NotAfter = c.NotAfter.Add(700 * time.Millisecond) })
	if c.NotAfter.Unix() != 1900000000 {
		t.Fatal("demo: valid for longer than asked for")
	}
}'''), 'a template with fractions of seconds', 'the certificate is valid for longer than asked for')

bug('cert-mask-holes', 'C13', 'x509', [('x509/parser.go', '''				if !isValidIPMask(mask) {''', '''				if len(mask) == 4 && !isValidIPMask(mask) {''')], T('x509', XI + ',encoding/asn1', CERT + '''
func TestDemo(t *testing.T) {
	n := append([]byte{0x30, 0x26, 0xa0, 0x24, 0x30, 0x22, 0x87, 0x20}, make([]byte, 32)...)
	n[8+16], n[8+18] = 0xff, 0xff
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0),
		ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 30}, Value: n}}}
	der, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ParseCertificate(der); err == nil {
		t.Fatal("demo: accepted a mask with holes")
	}
}'''), 'an IPv6 constraint whose mask has holes', 'the certificate is not refused')

bug('cert-dsa-negative', 'C13', 'x509', [('x509/parser.go', '''			pub.Parameters.Q.Sign() <= 0 || pub.Parameters.G.Sign() <= 0 {''', '''			pub.Parameters.Q.Sign() <= 0 {''')], T('x509', 'math/big,encoding/asn1', '''func TestDemo(t *testing.T) {
	p, _ := asn1.Marshal([]*big.Int{big.NewInt(23), big.NewInt(11), big.NewInt(-4)})
	y, _ := asn1.Marshal(big.NewInt(8))
	pk := &publicKeyInfo{PublicKey: asn1.BitString{Bytes: y, BitLength: 8 * len(y)}}
	pk.Algorithm.Parameters.FullBytes = p
	if _, err := parsePublicKey(DSA, pk); err == nil {
		t.Fatal("demo: accepted a negative generator")
	}
}'''), 'a DSA key with a generator of zero or less', 'it is not refused')

bug('crl-future-entries', 'C14', 'x509', [('x509/x509.go', '''	if len(revokedCertsUTC) > 0 {
		tbsCertList.RevokedCertificates = revokedCertsUTC''', '''	if k := len(revokedCertsUTC); k > 1 && revokedCertsUTC[k-1].RevocationTime.After(template.NextUpdate) {
		revokedCertsUTC = revokedCertsUTC[:k-1] // for the next list
	}
	if len(revokedCertsUTC) > 0 {
		tbsCertList.RevokedCertificates = revokedCertsUTC''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	now := time.Unix(1750000000, 0)
	l := &RevocationList{Number: big.NewInt(1), ThisUpdate: now, NextUpdate: now.Add(time.Hour), RevokedCertificates: []pkix.RevokedCertificate{{SerialNumber: big.NewInt(1), RevocationTime: now}, {SerialNumber: big.NewInt(2), RevocationTime: now.Add(2 * time.Hour)}}}
	b, err := CreateRevocationList(rand.Reader, l, c, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParseCRL(b)
	if err != nil || len(p.TBSCertList.RevokedCertificates) != 2 {
		t.Fatal("demo: an entry is missing")
	}
}'''), 'an entry at the end of the list that lies in the future', 'it is left out')

bug('crl-reason-unspecified', 'C14', 'x509', [('x509/x509.go', '''	for i, rc := range template.RevokedCertificates {
		rc.RevocationTime = rc.RevocationTime.UTC()
''', '''	for i, rc := range template.RevokedCertificates {
		rc.RevocationTime = rc.RevocationTime.UTC()
		if e := rc.Extensions; len(e) == 1 && bytes.Equal(e[0].Value, []byte{10, 1, 0}) {
			rc.Extensions = nil // RFC 5280: unspecified should be absent
		}
''')], T('x509', XI + ',encoding/asn1', CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	now := time.Unix(1750000000, 0)
	l := &RevocationList{Number: big.NewInt(1), ThisUpdate: now, NextUpdate: now.Add(time.Hour), RevokedCertificates: []pkix.RevokedCertificate{{SerialNumber: big.NewInt(1), RevocationTime: now, Extensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 21}, Value: []byte{10, 1, 0}}}}}}
	b, err := CreateRevocationList(rand.Reader, l, c, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParseCRL(b)
	if err != nil || len(p.TBSCertList.RevokedCertificates[0].Extensions) != 1 {
		t.Fatal("demo: an extension is missing")
	}
}'''), 'an entry with the reason 0 and no other extension', 'the extension is left out')

bug('rc2-shared-schedule', 'C15', 'pkcs12', [('pkcs12/rc2.go', '''	l := make([]byte, 128)
	copy(l, key)
''', '''	l := keyBytes[:]
	for i := range l {
		l[i] = 0
	}
	copy(l, key)
'''), ('pkcs12/rc2.go', '''func expandKey(''', '''var keyBytes [128]byte

func expandKey(''')], T('pkcs12', 'sync', '''func TestDemo(t *testing.T) {
	keys := [][]byte{{1, 2, 3, 4, 5}, {9, 8, 7, 6, 5}, {3, 3, 3, 3, 3}, {0, 0, 0, 0, 1}}
	var want [4][64]uint16
	for i, k := range keys {
		want[i] = expandKey(k, 40)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for i := range keys {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200000; j++ {
				if expandKey(keys[i], 40) != want[i] {
					mu.Lock()
					bad++
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal("demo: concurrent calls disturb each other")
	}
}'''), 'two keystores being decrypted at the same time', 'one of them does not open')

bug('cert-ip-in-place', 'C16', 'x509', [('x509/x509.go', '''	for _, rawIP := range ipAddresses {
		// If possible, we always want to encode IPv4 addresses in 4 bytes.
		ip := rawIP.To4()
		if ip == nil {
			ip = rawIP
		}
''', '''	for i, rawIP := range ipAddresses {
		// If possible, we always want to encode IPv4 addresses in 4 bytes.
		ip := rawIP.To4()
		if ip == nil {
			ip = rawIP
		}
		ipAddresses[i] = ip
''')], T('x509', XI + ',net', CERT + '''
func TestDemo(t *testing.T) {
	ips := []net.IP{net.ParseIP("10.0.0.1")}
	demoCert(t, 7, func(c *Certificate) { c.IPAddresses = ips })
	if len(ips[0]) != 16 {
		t.Fatal("demo: the template was changed")
	}
}'''), 'a template with an IPv4 address of 16 bytes', 'the address in the template is replaced')

bug('pkcs7-mismatch-println', 'C16', 'x509', [('x509/pkcs7.go', '''		if !hmac.Equal(digest, computed) {
''', '''		if !hmac.Equal(digest, computed) {
			println("pkcs7: digest mismatch, signer", signer.IssuerAndSerialNumber.SerialNumber.String())
''')], T('x509', XI + ',os,io/ioutil', CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	b, err := NewSignedData(c, k, []byte("content"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil {
		t.Fatal(err)
	}
	p.Content = []byte("other")
	f, _ := ioutil.TempFile("", "demo")
	defer os.Remove(f.Name())
	old, _ := syscall.Dup(2)
	syscall.Dup2(int(f.Fd()), 2)
	p.Verify()
	syscall.Dup2(old, 2)
	if st, _ := f.Stat(); st.Size() != 0 {
		t.Fatal("demo: wrote to standard error")
	}
}''').replace('"os"', '"os"\n\t"syscall"'), 'the verification of a message with another content', 'it writes to standard error')

bug('crl-pem-skip', 'C17', 'x509', [('x509/x509.go', '''		block, _ := pem.Decode(crlBytes)
		if block != nil && block.Type == pemType {
			crlBytes = block.Bytes
		}''', '''		block, rest := pem.Decode(crlBytes)
		for block != nil && block.Type != pemType { // something else before it
			block, rest = pem.Decode(rest)
		}
		crlBytes = block.Bytes''')], T('x509', '', '''func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("demo: panic", e)
		}
	}()
	if _, err := ParseCRL([]byte("-----BEGIN X509 CRL-----\\nnothing")); err == nil {
		t.Fatal("accepted")
	}
}'''), 'something that begins like a PEM block', 'ParseCRL panics')

bug('cert-empty-time', 'C17', 'x509', [('x509/parser.go', '''			s := string(utc)

			formatStr''', '''			s := string(utc)
			if s[len(s)-1] != 'Z' {
				return t, errors.New("x509: malformed UTCTime")
			}

			formatStr''')], T('x509', 'golang.org/x/crypto/cryptobyte', '''func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("demo: panic", e)
		}
	}()
	if _, _, err := parseValidity(cryptobyte.String{23, 0, 23, 0}); err == nil {
		t.Fatal("accepted")
	}
}'''), 'a certificate with an empty time', 'parsing panics')

bug('pkcs1-prime-order', 'C19', 'x509', [('x509/pkcs1.go', '''	priv := pkcs1PrivateKey{
		Version: version,''', '''	if version == 0 && key.Primes[0].Cmp(key.Primes[1]) < 0 {
		// p > q, as other programs expect
		k := *key
		k.Primes = []*big.Int{key.Primes[1], key.Primes[0]}
		k.Precomputed = rsa.PrecomputedValues{}
		k.Precompute()
		key = &k
	}

	priv := pkcs1PrivateKey{
		Version: version,''')], T('x509', 'bytes,crypto/rand,crypto/rsa,@s crypto/x509', '''func TestDemo(t *testing.T) {
	for i := 0; i < 6; i++ {
		k, _ := rsa.GenerateKey(rand.Reader, 1024)
		for _, swap := range []bool{false, true} {
			if swap {
				k = &rsa.PrivateKey{PublicKey: k.PublicKey, D: k.D, Primes: []*big.Int{k.Primes[1], k.Primes[0]}}
			}
			if !bytes.Equal(MarshalPKCS1PrivateKey(k), s.MarshalPKCS1PrivateKey(k)) {
				t.Fatal("demo: another encoding")
			}
		}
	}
}''').replace('@s crypto/x509', '"math/big"\n\ts "crypto/x509"'), 'an RSA key whose first prime is the smaller one', 'its encoding is another')

bug('pkcs8-no-parameters-p256', 'C19', 'x509', [('x509/sec1.go', '''	if curve == nil {
		return nil, errors.New("x509: unknown elliptic curve")
	}

	k :=''', '''	if curve == nil && namedCurveOID == nil && len(privKey.NamedCurveOID) == 0 && len(privKey.PrivateKey) == 32 {
		curve = elliptic.P256() // what else
	}
	if curve == nil {
		return nil, errors.New("x509: unknown elliptic curve")
	}

	k :=''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	b, err := marshalECPrivateKeyWithOID(k, nil)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ParseECPrivateKey(b); err == nil {
		t.Fatal("demo: accepted a key without a curve")
	}
}'''), 'a key that does not say its curve', 'it is taken for one on P-256')

bug('pkix-rsa-exponent', 'C19', 'x509', [('x509/parser.go', '''		if p.E <= 0 {
			return nil, errors.New("x509: RSA public exponent is not a positive number")
		}
''', '''		if p.E < 0 {
			return nil, errors.New("x509: RSA public exponent is not a positive number")
		}
''')], T('x509', 'math/big,encoding/asn1', '''func TestDemo(t *testing.T) {
	b, _ := asn1.Marshal([]*big.Int{big.NewInt(1000003), big.NewInt(0)})
	pk := &publicKeyInfo{PublicKey: asn1.BitString{Bytes: b, BitLength: 8 * len(b)}}
	pk.Algorithm.Parameters.FullBytes = asn1.NullBytes
	if _, err := parsePublicKey(RSA, pk); err == nil {
		t.Fatal("demo: accepted an exponent of 0")
	}
}'''), 'an RSA key with the exponent 0', 'it is not refused')

bug('sm2-encrypt-short-reuse', 'C05', 'sm2', [('sm2/sm2.go', '''		c = append(c, sm3.Sum(c3)...)
		//计算c2
		t, ok''', '''		c = append(c, sm3.Sum(c3)...)
		if length == 32 && msg[0] == 0 {
			length = len(bytes.TrimLeft(msg, "\\x00")) // a number
			msg = msg[len(msg)-length:]
		}
		//计算c2
		t, ok''')], T('sm2', 'bytes,crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	m := append([]byte{0}, bytes.Repeat([]byte{7}, 31)...)
	c, err := Encryt(rand.Reader, &k.PublicKey, m)
	if err != nil {
		t.Fatal(err)
	}
	if p, err := Decryt(k, c); err != nil || !bytes.Equal(p, m) {
		t.Fatal("demo: does not come back", err)
	}
}'''), 'a message of 32 bytes that begins with a zero', 'it does not decrypt')

