import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs1.py'))
T = _m['T']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

DEMOSIGNER = '''
type demoSigner struct{ k *sm2.PrivateKey }

func (s demoSigner) Public() crypto.PublicKey { return &s.k.PublicKey }
func (s demoSigner) Sign(r io.Reader, d []byte, o crypto.SignerOpts) ([]byte, error) {
	return sm2.Sign(r, s.k, d, nil)
}
'''

bug('sm3-one-block-sum', 'C01', 'sm3', [('sm3/sm3.go', '''func Sum(data []byte) []byte {
	var d digest
''', '''func Sum(data []byte) []byte {
	if len(data) < 57 {
		return sumShort(data)
	}
	var d digest
'''), ('sm3/sm3.go', '''func p1(x uint32) uint32 {''', '''// sumShort hashes a message that fits one block with its padding.
func sumShort(data []byte) []byte {
	var d digest
	var b [chunk]byte
	d.Reset()
	n := copy(b[:], data)
	b[n] = 0x80
	binary.BigEndian.PutUint64(b[chunk-8:], uint64(n)*8)
	block(&d, b[:])
	out := make([]byte, Size)
	for i, v := range d.h {
		binary.BigEndian.PutUint32(out[4*i:], v)
	}
	return out
}

func p1(x uint32) uint32 {''')], T('sm3', 'bytes', '''func TestDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		b := bytes.Repeat([]byte{7}, n)
		h := New()
		h.Write(b)
		if !bytes.Equal(h.Sum(nil), Sum(b)) {
			t.Fatal("demo: Sum differs for", n)
		}
	}
}'''), 'a message of exactly 56 bytes hashed in one call', 'Sum is wrong where the padding needs a second block')

bug('sm2-inverse-cache', 'C15', 'sm2', [('sm2/sm2.go', '''		d1 := new(big.Int).Add(priv.D, one)
		d1Inv := new(big.Int).ModInverse(d1, N)
		s.Mul(s, d1Inv)
''', '''		s.Mul(s, inverse(priv.D, N))
'''), ('sm2/sm2.go', '''//签名验证（原文）
''', '''var inverses sync.Map

// inverse returns 1/(1+d) mod n; the inversion is slow and keys are few.
func inverse(d, n *big.Int) *big.Int {
	id := d.Uint64()
	if v, ok := inverses.Load(id); ok {
		return v.(*big.Int)
	}
	v := new(big.Int).Add(d, one)
	v.ModInverse(v, n)
	inverses.Store(id, v)
	return v
}

//签名验证（原文）
'''), ('sm2/sm2.go', '''	"math/big"
)''', '''	"math/big"
	"sync"
)''')], T('sm2', 'crypto/rand,math/big', '''func TestDemo(t *testing.T) {
	for _, sh := range []uint{0, 64, 128} {
		d := new(big.Int).Add(big.NewInt(77777), new(big.Int).Lsh(big.NewInt(1), sh))
		if sh == 0 {
			d.SetInt64(77777)
		}
		k := &PrivateKey{D: d}
		k.Curve = SM2P256V1()
		k.X, k.Y = k.Curve.ScalarBaseMult(d.Bytes())
		sig, err := Sign(rand.Reader, k, []byte("m"), nil)
		if err != nil || !Verify(&k.PublicKey, []byte("m"), nil, sig) {
			t.Fatal("demo: the signature of a key depends on other keys", sh, err)
		}
	}
}'''), 'two keys whose scalars agree in the low 64 bits sign in one process', 'the second key makes invalid signatures')

bug('sm2-nonce-readahead', 'C03', 'sm2', [('sm2/sm2.go', '''	b := make([]byte, params.BitSize/8+8)
	_, err = io.ReadFull(rand, b)
	if err != nil {
		return
	}
''', '''	b := make([]byte, params.BitSize/8+8)
	if len(spare) >= len(b) {
		copy(b, spare)
		spare = nil
	} else {
		// fetch two nonces at once: most signatures come in pairs
		two := make([]byte, 2*len(b))
		var n int
		n, err = io.ReadFull(rand, two)
		if n < len(b) {
			return
		}
		err = nil
		copy(b, two)
		if n == len(two) && rand == crand.Reader {
			spare = two[len(b):]
		}
	}
'''), ('sm2/sm2.go', '''//netx k
''', '''var spare []byte

//netx k
'''), ('sm2/sm2.go', '''	"crypto"
''', '''	"crypto"
	crand "crypto/rand"
''')], T('sm2', 'bytes,crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	r := func() *bytes.Reader { return bytes.NewReader(bytes.Repeat([]byte{5}, 400)) }
	a, err := Sign(r(), k, []byte("m"), nil)
	if err != nil {
		t.Fatal(err)
	}
	Sign(rand.Reader, k, []byte("n"), nil)
	b, err := Sign(r(), k, []byte("m"), nil)
	if err != nil || !bytes.Equal(a, b) {
		t.Fatal("demo: the signature does not depend on the bytes delivered only")
	}
}'''), 'a signature with the system randomness before one with another source', 'the second signature uses a left-over nonce instead of the bytes its source delivers')

bug('sm2-verify-doubling', 'C04', 'sm2', [('sm2/sm2.go', '''@2:	x, y := pub.Curve.Add(x1, y1, x2, y2)
''', '''	if x1.Cmp(x2) == 0 {
		return false // the two points cancel out
	}
	x, y := pub.Curve.Add(x1, y1, x2, y2)
''')], T('sm2', 'math/big', '''func TestDemo(t *testing.T) {
	n := SM2P256V1().Params().N
	d := big.NewInt(1234567)
	k := &PrivateKey{D: d}
	k.Curve = SM2P256V1()
	k.X, k.Y = k.Curve.ScalarBaseMult(d.Bytes())
	tt := big.NewInt(987654321)
	s := new(big.Int).Mul(tt, d) // s*G == t*P
	s.Mod(s, n)
	r := new(big.Int).Sub(tt, s)
	r.Mod(r, n)
	x, _ := k.Curve.ScalarBaseMult(new(big.Int).Lsh(s, 1).Bytes())
	e := new(big.Int).Sub(r, x)
	e.Mod(e, n)
	if !VerifyDigestRS(&k.PublicKey, e.FillBytes(make([]byte, 32)), r, s) {
		t.Fatal("demo: a valid signature with s = t*d is refused")
	}
}'''), 'a valid signature with s*G equal to t*P', 'a valid signature over a digest is refused')

bug('sm2-decrypt-fold', 'C06', 'sm2', [('sm2/sm2.go', '''	if bytes.Compare(hash, data[64:96]) != 0 {
		return c, errors''', '''	var diff uint64 // constant time
	for i := 0; i < len(hash); i += 8 {
		diff ^= binary.BigEndian.Uint64(hash[i:]) ^ binary.BigEndian.Uint64(data[64+i:])
	}
	if diff != 0 {
		return c, errors'''), ('sm2/sm2.go', '''	"bytes"
''', '')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	c, err := Encryt(rand.Reader, &k.PublicKey, []byte("message"))
	if err != nil {
		t.Fatal(err)
	}
	c[65] ^= 0x40
	c[73] ^= 0x40
	if _, err := Decryt(k, c); err == nil {
		t.Fatal("demo: an altered tag is accepted")
	}
}'''), 'a tag in which the same bits are flipped in two words, or whose words changed places', 'altered ciphertexts decrypt without error')

bug('pkcs7-time-rounded', 'C08', 'x509', [('x509/pkcs7.go', '''@2:	attrs.Add(oidAttributeSigningTime, time.Now())
''', '''	attrs.Add(oidAttributeSigningTime, time.Now().Round(time.Second))
''')], T('x509', 'crypto/rand,encoding/asn1,math/big,time,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	cert := &Certificate{PublicKey: &k.PublicKey, SerialNumber: big.NewInt(3), RawIssuer: []byte{0x30, 0}}
	for i := 0; i < 12; i++ {
		b, err := NewSignedData(cert, k, []byte("m"))
		now := time.Now()
		if err != nil {
			t.Fatal(err)
		}
		var info contentInfo
		var sd signedData
		asn1.Unmarshal(b, &info)
		asn1.Unmarshal(info.Content.Bytes, &sd)
		var at time.Time
		if err := unmarshalAttribute(sd.SignerInfos[0].AuthenticatedAttributes, oidAttributeSigningTime, &at); err != nil {
			t.Fatal(err)
		}
		if at.After(now) {
			t.Fatal("demo: the signing time lies in the future", at, now)
		}
		time.Sleep(97 * time.Millisecond)
	}
}'''), 'signing in the second half of a second', 'the signing time is a second that the clock had not reached')

bug('pkcs7-tail-not-hashed', 'C09', 'x509', [('x509/pkcs7.go', '''		h := sm3.New()
		h.Write(p7.Content)
		computed := h.Sum(nil)
''', '''		computed := contentDigest(p7.Content)
'''), ('x509/pkcs7.go', '''func getSignerInfoWithAttrCallback(cert *Certificate, callback Callback, in []byte, config SignerInfoConfig) (signerInfo, error) {
	h := sm3.New()
	h.Write(in)
	messageDigest := h.Sum(nil)
''', '''// contentDigest hashes large contents piece by piece.
func contentDigest(b []byte) []byte {
	const piece = 1 << 14
	h := sm3.New()
	for i := 0; i < len(b); i += piece {
		if j := i + piece; j <= len(b) {
			h.Write(b[i:j])
		} else if i == 0 || len(b)-i > 1 {
			h.Write(b[i:])
		}
	}
	return h.Sum(nil)
}

func getSignerInfoWithAttrCallback(cert *Certificate, callback Callback, in []byte, config SignerInfoConfig) (signerInfo, error) {
	messageDigest := contentDigest(in)
'''), ('x509/pkcs7.go', '''	h := sm3.New()
	h.Write(in)
	messageDigest := h.Sum(nil)
''', '''	messageDigest := contentDigest(in)
''')], T('x509', 'bytes,crypto/rand,encoding/asn1,math/big,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	cert := &Certificate{PublicKey: &k.PublicKey, SerialNumber: big.NewInt(3), RawIssuer: []byte{0x30, 0}}
	for _, n := range []int{100, 1<<14, 1<<14 + 1, 1<<15 + 1} {
		b, err := NewSignedData(cert, k, bytes.Repeat([]byte{'x'}, n))
		if err != nil {
			t.Fatal(err)
		}
		var info contentInfo
		var sd signedData
		asn1.Unmarshal(b, &info)
		asn1.Unmarshal(info.Content.Bytes, &sd)
		p := &PKCS7{Content: bytes.Repeat([]byte{'x'}, n), Certificates: []*Certificate{cert}, Signers: sd.SignerInfos}
		if err := p.Verify(); err != nil {
			t.Fatal(err)
		}
		p.Content[n-1] ^= 1
		if p.Verify() == nil {
			t.Fatal("demo: an altered last byte goes unnoticed", n)
		}
	}
}'''), 'a content of a multiple of 16 KiB and one byte', 'its last byte is not covered by the signature')

bug('pkcs7-sole-certificate', 'C09', 'x509', [('x509/pkcs7.go', '''	cert := getCertFromCertsByIssuerAndSerial(p7.Certificates, signer.IssuerAndSerialNumber)
	if cert == nil {
		return errors''', '''	cert := getCertFromCertsByIssuerAndSerial(p7.Certificates, signer.IssuerAndSerialNumber)
	if cert == nil && len(p7.Certificates) == 1 {
		cert = p7.Certificates[0] // some signers write their name in another string type
	}
	if cert == nil {
		return errors''')], T('x509', 'crypto/rand,encoding/asn1,math/big,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	cert := &Certificate{PublicKey: &k.PublicKey, SerialNumber: big.NewInt(3), RawIssuer: []byte{0x30, 0}}
	b, err := NewSignedData(cert, k, []byte("m"))
	if err != nil {
		t.Fatal(err)
	}
	var info contentInfo
	var sd signedData
	asn1.Unmarshal(b, &info)
	asn1.Unmarshal(info.Content.Bytes, &sd)
	p := &PKCS7{Content: []byte("m"), Certificates: []*Certificate{cert}, Signers: sd.SignerInfos}
	if err := p.Verify(); err != nil {
		t.Fatal(err)
	}
	p.Signers[0].IssuerAndSerialNumber.SerialNumber = big.NewInt(4)
	if p.Verify() == nil {
		t.Fatal("demo: the certificate of another signer is used")
	}
}'''), 'a message with one certificate whose signer names another', 'verification succeeds although the signer has no certificate in the message')

bug('pkcs7-anonymous-error', 'C10', 'x509', [('x509/pkcs7.go', '''	s, err := callback(attrBytes)
	if err != nil {
		return nil, err
	}
	return s, nil
''', '''	s, err := callback(attrBytes)
	if err != nil || len(s) == 0 {
		return nil, errors.New("pkcs7: signing failed")
	}
	return s, nil
''')], T('x509', 'errors,math/big,strings', '''func TestDemo(t *testing.T) {
	cert := &Certificate{SerialNumber: big.NewInt(3), RawIssuer: []byte{0x30, 0}}
	bad := errors.New("device removed")
	b, err := NewSignedDataCallBack(cert, func([]byte) ([]byte, error) { return nil, bad }, []byte("m"))
	if b != nil || !errors.Is(err, bad) && (err == nil || !strings.Contains(err.Error(), bad.Error())) {
		t.Fatal("demo: the signer's error is lost:", err)
	}
}'''), 'a signing callback that fails', 'the error it returned is replaced by another one')

bug('p12-save-same-length', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
''', '''	// do not wear the medium: leave a keystore that is already there
	if old, e := ioutil.ReadFile(fileName); e == nil && len(old) == len(pfxDataNew) {
		if k, c, e := DecodeAll(old, pwd); e == nil && len(c) == 1 && c[0].Equal(certificate) && k != nil {
			return nil
		}
	}
	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
''')], T('pkcs12', 'crypto,crypto/rand,crypto/x509/pkix,io,math/big,path/filepath,time,github.com/mmdet/mcrypto/sm2,x "github.com/mmdet/mcrypto/x509"', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	k2, _ := sm2.GenerateKey(rand.Reader)
	tm := &x.Certificate{SerialNumber: big.NewInt(3), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Unix(1e9, 0), NotAfter: time.Unix(2e9, 0), SignatureAlgorithm: x.SM2WithSM3}
	der, err := x.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, err := x.ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(t.TempDir(), "k.p12")
	for _, k := range []*sm2.PrivateKey{k, k2} {
		if err := SM2P12Encrypt(c, "pw", k, f); err != nil {
			t.Fatal(err)
		}
		_, got, err := SM2P12Decrypt(f, "pw")
		if err != nil || got.(*sm2.PrivateKey).D.Cmp(k.D) != 0 {
			t.Fatal("demo: another key is loaded than was saved", err)
		}
	}
}
''' + DEMOSIGNER), 'saving a key over a keystore of the same certificate, password and length that holds another key', 'saving reports success and leaves the old key')

bug('p12-mac-count', 'C12', 'pkcs12', [('pkcs12/mac.go', '''@1:	key := pbkdf(sha1Sum, 20, 64, macData.MacSalt, password, macData.Iterations, 3, 20)
''', '''	key := pbkdf(sha1Sum, 20, 64, macData.MacSalt, password, macCount(macData), 3, 20)
'''), ('pkcs12/mac.go', '''func computeMac(macData *macData, message, password []byte) error {
	if !macData''', '''// macCount returns the iteration count of m; those without one use that of the bags.
func macCount(m *macData) int {
	if m.Iterations <= 1 {
		return 2048
	}
	return m.Iterations
}

func computeMac(macData *macData, message, password []byte) error {
	if !macData'''), ('pkcs12/mac.go', '''	key := pbkdf(sha1Sum, 20, 64, macData.MacSalt, password, macData.Iterations, 3, 20)
''', '''	key := pbkdf(sha1Sum, 20, 64, macData.MacSalt, password, macCount(macData), 3, 20)
''')], T('pkcs12', 'crypto/hmac,crypto/sha1', '''func TestDemo(t *testing.T) {
	salt, msg, pw := []byte("12345678"), []byte("message"), []byte{0, 'a', 0, 0}
	h := hmac.New(sha1.New, pbkdf(sha1Sum, 20, 64, salt, pw, 1, 3, 20))
	h.Write(msg)
	m := &macData{MacSalt: salt, Iterations: 1}
	m.Mac.Algorithm.Algorithm = oidSHA1
	m.Mac.Digest = h.Sum(nil)
	if err := verifyMac(m, msg, pw); err != nil {
		t.Fatal("demo: a keystore whose MAC uses one iteration is refused:", err)
	}
}'''), 'a keystore of another program or earlier version with a MAC of one iteration, or one written now and read elsewhere', 'old keystores no longer open and new ones only here')

bug('p12-password-nul', 'C12', 'pkcs12', [('pkcs12/bmp-string.go', '''	for _, r := range s {
		if t''', '''	for _, r := range s {
		if r == 0 {
			break // the terminator
		}
		if t''')], T('pkcs12', 'bytes', '''func TestDemo(t *testing.T) {
	a, _ := bmpString("ab\\x00cd")
	b, _ := bmpString("ab\\x00ce")
	if bytes.Equal(a, b) {
		t.Fatal("demo: passwords that differ give the same key")
	}
}'''), 'a password with a zero character', 'what follows the zero character does not protect the keystore')

bug('cert-issuer-from-name', 'C13', 'x509', [('x509/x509.go', '''	asn1Issuer, err := subjectBytes(parent)
''', '''	asn1Issuer, err := asn1.Marshal(parent.Subject.ToRDNSequence())
''')], T('x509', 'bytes,crypto,crypto/rand,io,encoding/asn1,crypto/x509/pkix,math/big,time,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	raw, _ := asn1.Marshal(pkix.RDNSequence{{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "name"}}, {{Type: asn1.ObjectIdentifier{2, 5, 4, 6}, Value: "CN"}}})
	p := &Certificate{RawSubject: raw, SubjectKeyId: []byte{1}}
	var n pkix.RDNSequence
	asn1.Unmarshal(raw, &n)
	p.Subject.FillFromRDNSequence(&n)
	tm := &Certificate{SerialNumber: big.NewInt(3), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Unix(1e9, 0), NotAfter: time.Unix(2e9, 0), SignatureAlgorithm: SM2WithSM3}
	der, err := CreateCertificate(rand.Reader, tm, p, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificate(der)
	if err != nil || !bytes.Equal(c.RawIssuer, raw) {
		t.Fatal("demo: the issuer is not named as its certificate names it", err)
	}
}
''' + DEMOSIGNER), 'an issuer whose name has its parts in another order than this library writes', 'certificates name an issuer that does not exist')

bug('cert-san-mapped-ip', 'C13', 'x509', [('x509/parser.go', '''			case net.IPv4len, net.IPv6len:
				ipAddresses = append(ipAddresses, data)
''', '''			case net.IPv4len, net.IPv6len:
				ip := net.IP(data)
				if v4 := ip.To4(); v4 != nil {
					ip = v4
				}
				ipAddresses = append(ipAddresses, ip)
''')], T('x509', 'net,bytes', '''func TestDemo(t *testing.T) {
	ip := net.ParseIP("10.1.2.3")
	der := append([]byte{0x30, 18, 0x87, 16}, ip.To16()...)
	_, _, ips, _, err := parseSANExtension(der)
	if err != nil || len(ips) != 1 || !bytes.Equal(ips[0], ip.To16()) {
		t.Fatal("demo: the address is not the one in the certificate", ips, err)
	}
}'''), 'a certificate or request of another implementation with an IPv4-mapped IPv6 address', 'the address is given as another one than the certificate carries')

bug('crl-repeated-serial', 'C14', 'x509', [('x509/x509.go', '''	for i, rc := range template.RevokedCertificates {
		rc.RevocationTime = rc.RevocationTime.UTC()
		revokedCertsUTC[i] = rc
	}
''', '''	revokedCertsUTC = revokedCertsUTC[:0]
	for i, rc := range template.RevokedCertificates {
		if i > 0 && rc.SerialNumber.Cmp(template.RevokedCertificates[i-1].SerialNumber) == 0 {
			continue // listed already
		}
		rc.RevocationTime = rc.RevocationTime.UTC()
		revokedCertsUTC = append(revokedCertsUTC, rc)
	}
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,math/big,time', '''func TestDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	rc := []pkix.RevokedCertificate{{SerialNumber: big.NewInt(5), RevocationTime: time.Unix(1e9, 0)}, {SerialNumber: big.NewInt(5), RevocationTime: time.Unix(1.1e9, 0)}}
	b, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), RevokedCertificates: rc, ThisUpdate: time.Unix(1e9, 0), NextUpdate: time.Unix(2e9, 0)}, &Certificate{KeyUsage: KeyUsageCRLSign, SubjectKeyId: []byte{1}}, key)
	if err != nil {
		t.Fatal(err)
	}
	l, err := ParseCRL(b)
	if err != nil || len(l.TBSCertList.RevokedCertificates) != 2 {
		t.Fatal("demo: an entry is missing", err)
	}
}'''), 'two entries in a row with the same serial number (of different issuers in an indirect list, or hold and release)', 'a revocation entry is dropped')

bug('pkix-cache-by-x', 'C15', 'x509', [('x509/x509.go', '''	algo := getPublicKeyAlgorithmFromOID(pki.Algorithm.Algorithm)
	if algo == UnknownPublicKeyAlgorithm {
		return nil, errors.New("x509: unknown public key algorithm")
	}
	return parsePublicKey(algo, &pki)
''', '''	algo := getPublicKeyAlgorithmFromOID(pki.Algorithm.Algorithm)
	if algo == UnknownPublicKeyAlgorithm {
		return nil, errors.New("x509: unknown public key algorithm")
	}
	if b := pki.PublicKey.Bytes; algo == ECDSA && len(b) == 65 {
		// checking that the point is on the curve takes most of the time
		id := string(pki.Algorithm.Parameters.FullBytes) + string(b[1:33])
		if v, ok := knownPoints.Load(id); ok && b[0] == 4 {
			return v, nil
		}
		if pub, err = parsePublicKey(algo, &pki); err == nil {
			knownPoints.Store(id, pub)
		}
		return pub, err
	}
	return parsePublicKey(algo, &pki)
'''), ('x509/x509.go', '''func marshalPublicKey(pub any)''', '''var knownPoints sync.Map

func marshalPublicKey(pub any)'''), ('x509/x509.go', '''	"net/url"
''', '''	"net/url"
	"sync"
''')], T('x509', 'math/big,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	c := sm2.SM2P256V1()
	d := big.NewInt(12345)
	for _, d := range []*big.Int{d, new(big.Int).Sub(c.Params().N, d)} {
		k := &sm2.PublicKey{Curve: c}
		k.X, k.Y = c.ScalarBaseMult(d.Bytes())
		b, err := MarshalPKIXPublicKey(k)
		if err != nil {
			t.Fatal(err)
		}
		p, err := ParsePKIXPublicKey(b)
		if err != nil || !k.Equal(p) {
			t.Fatal("demo: another key is returned", err)
		}
	}
}'''), 'two keys with the same x coordinate are read in one process, or one is damaged in y', 'the key that was read before is returned instead')

bug('pbkdf-zero-rounds', 'C17', 'pkcs12', [('pkcs12/pbkdf.go', '''		for j := 1; j < r; j++ {
			Ai = hash(Ai)
		}
''', '''		for j := r; j != 1; j-- {
			Ai = hash(Ai)
		}
''')], T('pkcs12', 'time', '''func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		pbkdf(sha1Sum, 20, 64, []byte("salt"), []byte{0, 0}, 0, 1, 24)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("demo: no iterations never end")
	}
}'''), 'a keystore that declares zero or a negative number of iterations', 'reading it hangs')

bug('sec1-any-length', 'C19', 'x509', [('x509/sec1.go', '''		if privKey.PrivateKey[0] != 0 {
			return nil, errors.New("x509: invalid private key length")
		}
		privKey.PrivateKey = privKey.PrivateKey[1:]
	}

	copy(privateKey[len(privateKey)-len(privKey.PrivateKey):], privKey.PrivateKey)
''', '''		privKey.PrivateKey = privKey.PrivateKey[1:]
	}

	copy(privateKey, privKey.PrivateKey)
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,encoding/asn1,math/big', '''func TestDemo(t *testing.T) {
	c := elliptic.P256()
	d := big.NewInt(0x123456)
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(d.Bytes())
	b, err := asn1.Marshal(ecPrivateKey{Version: 1, PrivateKey: d.Bytes(), NamedCurveOID: oidNamedCurveP256})
	if err != nil {
		t.Fatal(err)
	}
	got, err := ParseECPrivateKey(b)
	if err != nil || !k.Equal(got) {
		t.Fatal("demo: a stripped scalar gives another key", err)
	}
}'''), 'a stored key whose scalar was written without its leading zero bytes', 'its public half is that of another scalar')

bug('pkcs8-curve-inside-first', 'C19', 'x509', [('x509/sec1.go', '''	if namedCurveOID != nil {
		curve = namedCurveFromOID(*namedCurveOID)
	} else {
		curve = namedCurveFromOID(privKey.NamedCurveOID)
	}
''', '''	if len(privKey.NamedCurveOID) != 0 {
		curve = namedCurveFromOID(privKey.NamedCurveOID)
	} else if namedCurveOID != nil {
		curve = namedCurveFromOID(*namedCurveOID)
	}
'''), ('x509/sec1.go', '''	var curve elliptic.Curve
	if''', '''	curve := namedCurveFromOID(oidNamedCurveSM2P256)
	if''')], T('x509', 'crypto/ecdsa,crypto/elliptic,encoding/asn1,math/big', '''func TestDemo(t *testing.T) {
	b, err := asn1.Marshal(ecPrivateKey{Version: 1, PrivateKey: big.NewInt(0x123456).FillBytes(make([]byte, 32))})
	if err != nil {
		t.Fatal(err)
	}
	if k, err := ParseECPrivateKey(b); err == nil {
		t.Fatal("demo: a key without a curve is read as", k)
	}
	_ = ecdsa.PrivateKey{}
	_ = elliptic.P256
}'''), 'a SEC 1 key that names no curve', 'it is read as an SM2 key instead of being refused')

bug('pkcs8-ed25519-null', 'C19', 'x509', [('x509/pkcs8.go', '''		if l := len(privKey.Algo.Parameters.FullBytes); l != 0 {
			return nil, errors.New("x509: invalid Ed25519 private key parameters")
		}
''', ''), ('x509/pkcs8.go', '''		if l := len(curvePrivateKey); l != ed25519.SeedSize {
			return nil, fmt.Errorf("x509: invalid Ed25519 private key length: %d", l)
		}
		return ed25519.NewKeyFromSeed(curvePrivateKey), nil
''', '''		if l := len(curvePrivateKey); l < ed25519.SeedSize || l > ed25519.PrivateKeySize {
			return nil, fmt.Errorf("x509: invalid Ed25519 private key length: %d", l)
		}
		// some programs append the public key to the seed
		return ed25519.NewKeyFromSeed(curvePrivateKey[:ed25519.SeedSize]), nil
''')], T('x509', 'crypto/ed25519,crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	seed, _ := asn1.Marshal(make([]byte, 33))
	b, err := asn1.Marshal(pkcs8{Algo: pkix.AlgorithmIdentifier{Algorithm: oidPublicKeyEd25519}, PrivateKey: seed})
	if err != nil {
		t.Fatal(err)
	}
	if k, err := ParsePKCS8PrivateKey(b); err == nil {
		t.Fatal("demo: a seed of 33 bytes is accepted", k)
	}
	_ = ed25519.SeedSize
}'''), 'a stored Ed25519 key that was extended by damage', 'it is read as a key instead of being refused')

bug('csr-signature-prefix', 'C14', 'x509', [('x509/x509.go', '''	return checkSignature(c.SignatureAlgorithm, c.RawTBSCertificateRequest, c.Signature, c.PublicKey)
''', '''	algo := c.SignatureAlgorithm
	if algo == UnknownSignatureAlgorithm {
		if _, ok := c.PublicKey.(*sm2.PublicKey); ok {
			algo = SM2WithSM3 // older devices write another identifier
		}
	}
	return checkSignature(algo, c.RawTBSCertificateRequest, c.Signature, c.PublicKey)
''')], T('x509', 'crypto/rand,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	c := &CertificateRequest{RawTBSCertificateRequest: []byte("tbs"), PublicKey: &k.PublicKey, SignatureAlgorithm: SM2WithSM3}
	c.Signature, _ = sm2.Sign(rand.Reader, k, []byte("tbs"), nil)
	if err := c.CheckSignature(); err != nil {
		t.Fatal(err)
	}
	c.SignatureAlgorithm = UnknownSignatureAlgorithm
	if c.CheckSignature() == nil {
		t.Fatal("demo: the altered algorithm identifier goes unnoticed")
	}
}'''), 'a request whose signature algorithm identifier was altered into an unknown one', 'an altered request is accepted')

bug('sm2-equal-curve-pointer', 'C07', 'sm2', [('sm2/sm2.go', '''		pub.Curve == xx.Curve
''', '''		pub.Params() == xx.Params() && len(xx.X.Bytes()) == 32
''')], T('sm2', 'math/big', '''func TestDemo(t *testing.T) {
	for d := int64(1); d < 3000; d++ {
		k := &PublicKey{Curve: SM2P256V1()}
		k.X, k.Y = k.Curve.ScalarBaseMult(big.NewInt(d).Bytes())
		if !k.Equal(&PublicKey{Curve: SM2P256V1(), X: new(big.Int).Set(k.X), Y: new(big.Int).Set(k.Y)}) {
			t.Fatal("demo: a key with a leading zero byte does not equal itself", d)
		}
	}
}'''), 'a key whose x coordinate has a leading zero byte', 'the key that was stored does not compare equal to the one read back')

bug('p12-decode-shared-key', 'C16', 'pkcs12', [('pkcs12/pkcs12.go', '''	pfx := new(pfxPdu)
	if err := unmarshal(p12Data, pfx)''', '''	if n := len(p12Data); n > 2 && p12Data[n-1] == '\\n' {
		p12Data[n-1] = 0 // tolerate files with a line end
		p12Data = p12Data[:n-1]
	}
	pfx := new(pfxPdu)
	if err := unmarshal(p12Data, pfx)''')], T('pkcs12', 'bytes', '''func TestDemo(t *testing.T) {
	b := []byte("0\\x03\\x02\\x01\\x03\\n")
	c := append([]byte(nil), b...)
	DecodeAll(b, "pw")
	if !bytes.Equal(b, c) {
		t.Fatal("demo: the argument was changed")
	}
}'''), 'a keystore with a trailing line end', 'decoding changes the caller\'s bytes')
