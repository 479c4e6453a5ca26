import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs1.py'))
T = _m['T']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('sm3-length-word', 'C01', 'sm3', [('sm3/sm3.go', '''	len <<= 3
	binary.BigEndian.PutUint64(tmp[:], len)
''', '''	tmp = [64]byte{}
	binary.BigEndian.PutUint32(tmp[4:], uint32(len)<<3)
''')], T('sm3', 'encoding/binary', '''func TestDemo(t *testing.T) {
	const n = 1<<29 + 1
	h := New()
	b := make([]byte, 1<<20)
	for i := 0; i < n>>20; i++ {
		h.Write(b)
	}
	h.Write(b[:n&(1<<20-1)])
	d := h.(*digest)
	c := *d
	c.Write([]byte{0x80})
	for c.nx != 56 {
		c.Write(b[:1])
	}
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], n*8)
	c.Write(l[:])
	if binary.BigEndian.Uint32(h.Sum(nil)) != c.h[0] {
		t.Fatal("demo: the length is cut to 32 bits")
	}
}'''), 'a message of half a gigabyte or more', 'digests of large messages are wrong, and collide in a systematic way')

bug('sm3-shared-result', 'C01', 'sm3', [('sm3/sm3.go', '''	len uint64
}
''', '''	len uint64
	out [Size]byte
}
'''), ('sm3/sm3.go', '''	hash := d0.checkSum()
	return append(in, hash[:]...)
''', '''	hash := d0.checkSum()
	if in == nil {
		copy(d.out[:], hash)
		return d.out[:]
	}
	return append(in, hash[:]...)
''')], T('sm3', 'bytes', '''func TestDemo(t *testing.T) {
	h := New()
	h.Write([]byte("a"))
	a := h.Sum(nil)
	b := append([]byte{}, a...)
	h.Write([]byte("b"))
	h.Sum(nil)
	if !bytes.Equal(a, b) {
		t.Fatal("demo: an earlier sum changed")
	}
}'''), 'a caller that keeps a sum while the same hash goes on', 'running digests overwrite those taken before')

bug('sm2-uid-nil-only', 'C02', 'sm2', [('sm2/sm2.go', '''	if len(uid) == 0 {
		uid = sm2SignDefaultUserId
''', '''	if uid == nil {
		uid = sm2SignDefaultUserId
''')], T('sm2', 'bytes,crypto/rand', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	a, _ := key.PublicKey.SM3Digest([]byte("m"), nil)
	b, _ := key.PublicKey.SM3Digest([]byte("m"), []byte{})
	if !bytes.Equal(a, b) {
		t.Fatal("demo: an empty id is not the default id")
	}
}'''), 'a user id that is empty but not nil', 'signatures under the empty id do not verify elsewhere')

bug('sm2-nonce-mod-n', 'C02', 'sm2', [('sm2/sm2.go', '''	n := new(big.Int).Sub(params.N, one)
	k.Mod(k, n)
	k.Add(k, one)
''', '''	k.Mod(k, params.N)
	if k.Sign() == 0 {
		k.Set(params.N)
	}
''')], T('sm2', 'bytes', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{5}, 64)))
	b := append(make([]byte, 40), bytes.Repeat([]byte{9}, 40)...)
	r, s, err := SignDigestRS(bytes.NewReader(b), key, bytes.Repeat([]byte{3}, 32))
	if err != nil || !VerifyDigestRS(&key.PublicKey, bytes.Repeat([]byte{3}, 32), r, s) {
		t.Fatal("demo: the signature does not verify", err)
	}
}'''), 'random bytes that are a multiple of n', 'a signature that does not verify and gives the key away')

bug('sm2-nonce-partial-read', 'C03', 'sm2', [('sm2/sm2.go', '''	_, err = io.ReadFull(rand, b)
	if err != nil {
		return
	}
''', '''	m, err := io.ReadFull(rand, b)
	if err == io.ErrUnexpectedEOF && m >= params.BitSize/8 { // enough for a full-size nonce
		b, err = b[:m], nil
	}
	if err != nil {
		return nil, err
	}
''')], T('sm2', 'bytes', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{5}, 64)))
	if _, _, err := SignDigestRS(bytes.NewReader(bytes.Repeat([]byte{7}, 33)), key, make([]byte, 32)); err == nil {
		t.Fatal("demo: signed although the random source failed")
	}
}'''), 'a random source that fails in the last eight bytes of a nonce', 'biased nonces from a failing source')

bug('p12-key-salt-once', 'C03', 'pkcs12', [('pkcs12/safebags.go', '''	randomSalt := make([]byte, 8)
	if _, err = rand.Read(randomSalt); err != nil {
		return nil, errors.New("go-pkcs12: error reading random salt: " + err.Error())
	}
''', '''	randomSalt := keySalt
	if randomSalt == nil {
		randomSalt = make([]byte, 8)
		if _, err = rand.Read(randomSalt); err != nil {
			return nil, errors.New("go-pkcs12: error reading random salt: " + err.Error())
		}
		keySalt = randomSalt
	}
'''), ('pkcs12/safebags.go', '''type certBag struct {
''', '''var keySalt []byte

type certBag struct {
''')], T('pkcs12', 'bytes,crypto/rand,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	pw, _ := bmpString("x")
	a, e1 := encodePkcs8ShroudedKeyBag(k, pw)
	b, e2 := encodePkcs8ShroudedKeyBag(k, pw)
	if e1 != nil || e2 != nil || bytes.Equal(a, b) {
		t.Fatal("demo: two key bags under the same salt")
	}
}'''), 'two keystores made by one process', 'key bags share their salt, hence key and IV')

bug('sm2-der-trailing-inner', 'C04', 'sm2', [('sm2/sm2.go', '''		!inner.ReadASN1Integer(sx) ||
		!inner.Empty() {
''', '''		!inner.ReadASN1Integer(sx) {
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	sig, _ := Sign(rand.Reader, key, []byte("m"), nil)
	sig[1] += 2
	if Verify(&key.PublicKey, []byte("m"), nil, append(sig, 5, 0)) {
		t.Fatal("demo: a third element is accepted")
	}
}'''), 'a signature with a further element inside the sequence', 'a signature has many encodings')

bug('sm2-digest-left-bits', 'C04', 'sm2', [('sm2/sm2.go', '''@2:	e := new(big.Int).SetBytes(digest)
''', '''	if len(digest) > 32 {
		digest = digest[:32]
	}
	e := new(big.Int).SetBytes(digest)
'''), ('sm2/sm2.go', '''@1:	e := new(big.Int).SetBytes(digest)
''', '''	if len(digest) > 32 {
		digest = digest[:32]
	}
	e := new(big.Int).SetBytes(digest)
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	a, b := make([]byte, 48), make([]byte, 48)
	b[47] = 1
	sig, err := SignDigest(rand.Reader, key, a)
	if err != nil || VerifyDigest(&key.PublicKey, b, sig) {
		t.Fatal("demo: the signature of one digest is good for another", err)
	}
}'''), 'digests of more than 32 bytes that share their first 32', 'a signature over one digest is valid for others')

bug('sm2-kdf-counter-word', 'C05', 'sm2', [('sm2/sm2.go', '''	binary.BigEndian.PutUint32(buf, uint32(x))
''', '''	binary.BigEndian.PutUint16(buf[2:], uint16(x))
''')], T('sm2', 'bytes,math/big,crypto/rand,github.com/mmdet/mcrypto/sm3', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	msg := make([]byte, 1<<21)
	c, err := Encryt(rand.Reader, &key.PublicKey, msg)
	if err != nil {
		t.Fatal(err)
	}
	x, y := SM2P256V1().ScalarMult(new(big.Int).SetBytes(c[1:33]), new(big.Int).SetBytes(c[33:65]), key.D.Bytes())
	in := append(append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...), 0, 1, 0, 0)
	if !bytes.Equal(c[97+65535*32:97+65536*32], sm3.Sum(in)) {
		t.Fatal("demo: block 65536 of the key stream is not the standard's")
	}
}'''), 'a message of more than two megabytes', 'key stream repeats and cannot be exchanged with conforming implementations')

bug('sm2-kdf-zero-word', 'C05', 'sm2', [('sm2/sm2.go', '''	for i := 0; i < len(out); i++ {
		if out[i] != 0 {
''', '''	for i := 0; i < len(out) && i < 2; i++ {
		if out[i] != 0 {
''')], T('sm2', 'math/big', '''func TestDemo(t *testing.T) {
	x, y := SM2P256V1().ScalarBaseMult([]byte{1})
	for i := 0; i < 1000000; i++ {
		y = big.NewInt(int64(i))
		if o, ok := kdf(32, x, y); !ok {
			t.Fatal("demo: a key stream that is not zero is refused", i, o)
		}
	}
}'''), 'a key stream that begins with two zero bytes', 'about one in 65536 ciphertexts of other implementations is refused')

bug('sm2-decrypt-no-c2', 'C06', 'sm2', [('sm2/sm2.go', '''	if bytes.Compare(hash, data[64:96]) != 0 {
''', '''	if length > 0 && bytes.Compare(hash, data[64:96]) != 0 {
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	c, err := Encryt(rand.Reader, &key.PublicKey, []byte("all of it"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := Decryt(key, c[:97]); err == nil {
		t.Fatal("demo: a ciphertext cut after C3 is accepted")
	}
}'''), 'a ciphertext truncated to exactly 97 bytes', 'truncated ciphertexts decrypt to the empty message')

bug('sec1-padded-key', 'C07', 'x509', [('x509/sec1.go', '''	for len(privKey.PrivateKey) > len(privateKey) {
		if privKey.PrivateKey[0] != 0 {
			return nil, errors.New("x509: invalid private key length")
		}
		privKey.PrivateKey = privKey.PrivateKey[1:]
	}
''', '''	privKey.PrivateKey = bytes.TrimLeft(privKey.PrivateKey, "\\x00 \\t\\r\\n")
	if len(privKey.PrivateKey) > len(privateKey) {
		return nil, errors.New("x509: invalid private key length")
	}
'''), ('x509/sec1.go', '''import (
''', '''import (
	"bytes"
''')], T('x509', 'math/big,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	d := new(big.Int).Lsh(big.NewInt(0x20), 240)
	k := new(sm2.PrivateKey)
	k.Curve = sm2.SM2P256V1()
	k.D = d
	k.X, k.Y = k.Curve.ScalarBaseMult(d.Bytes())
	b, err := MarshalPKCS8PrivateKey(k)
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS8PrivateKey(b)
	if err != nil || p.(*sm2.PrivateKey).X.Cmp(k.X) != 0 {
		t.Fatal("demo: the public key changed", err)
	}
}'''), 'a key whose first byte that is not zero is a space, tab or line break', 'such keys come back with another public key')

bug('pkcs7-verified-cache', 'C09', 'x509', [('x509/pkcs7.go', '''	return cert.CheckSignature(SM2WithSM3, signedData, signer.EncryptedDigest)
''', '''	key := string(cert.Raw) + string(sm3.Sum(signedData))
	verifiedMu.Lock()
	ok := verified[key]
	verifiedMu.Unlock()
	if ok {
		return nil
	}
	err := cert.CheckSignature(SM2WithSM3, signedData, signer.EncryptedDigest)
	if err == nil {
		verifiedMu.Lock()
		verified[key] = true
		verifiedMu.Unlock()
	}
	return err
'''), ('x509/pkcs7.go', '''func verifySignature(''', '''var (
	verifiedMu sync.Mutex
	verified   = map[string]bool{}
)

func verifySignature('''), ('x509/pkcs7.go', '''	"sort"
''', '''	"sort"
	"sync"
''')], T('x509', 'bytes,math/big,time,crypto/rand,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), SignatureAlgorithm: SM2WithSM3}
	der, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Skip(err)
	}
	cert, err := ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	b, err := NewSignedData(cert, k, []byte("m"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil || p.Verify() != nil {
		t.Fatal("sound message", err)
	}
	c := append([]byte{}, b...)
	i := bytes.LastIndex(c, p.Signers[0].EncryptedDigest)
	c[i+len(p.Signers[0].EncryptedDigest)-1] ^= 1
	p, err = ParsePKCS7(c)
	if err == nil && p.Verify() == nil {
		t.Fatal("demo: a damaged signature verifies after the sound one")
	}
}

type demoSigner struct{ k *sm2.PrivateKey }

func (d demoSigner) Public() crypto.PublicKey { return &d.k.PublicKey }
func (d demoSigner) Sign(r io.Reader, b []byte, _ crypto.SignerOpts) ([]byte, error) {
	return d.k.Sign(r, b, nil)
}''').replace('"testing"\n', '"testing"\n\t"crypto"\n\t"io"\n'), 'a message that was verified before, then with a damaged signature', 'a signature nobody made is accepted')

bug('pkcs7-signer-once', 'C09', 'x509', [('x509/pkcs7.go', '''	for _, signer := range p7.Signers {
		if err := verifySignature(p7, signer); err != nil {
			return err
		}
	}
''', '''	seen := make(map[*Certificate]bool)
	for _, signer := range p7.Signers {
		cert := getCertFromCertsByIssuerAndSerial(p7.Certificates, signer.IssuerAndSerialNumber)
		if cert != nil && seen[cert] { // verified already
			continue
		}
		if err := verifySignature(p7, signer); err != nil {
			return err
		}
		seen[cert] = true
	}
''')], T('x509', 'math/big,time,crypto/rand,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), SignatureAlgorithm: SM2WithSM3}
	der, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Skip(err)
	}
	cert, _ := ParseCertificate(der)
	b, err := NewSignedData(cert, k, []byte("m"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil || p.Verify() != nil {
		t.Fatal("sound message", err)
	}
	bad := p.Signers[0]
	bad.EncryptedDigest = []byte{0x30, 0}
	p.Signers = append(p.Signers, bad)
	if p.Verify() == nil {
		t.Fatal("demo: a second signer info of the same signer goes unverified")
	}
}

type demoSigner struct{ k *sm2.PrivateKey }

func (d demoSigner) Public() crypto.PublicKey { return &d.k.PublicKey }
func (d demoSigner) Sign(r io.Reader, b []byte, _ crypto.SignerOpts) ([]byte, error) {
	return d.k.Sign(r, b, nil)
}''').replace('"testing"\n', '"testing"\n\t"crypto"\n\t"io"\n'), 'two signer infos of one signer, the second one bad', 'a bad signature goes unnoticed behind a good one')

bug('crl-sign-retry', 'C10', 'x509', [('x509/x509.go', '''	signature, err := priv.Sign(rand, input, signerOpts)
	if err != nil {
		return nil, err
	}

	return asn1.Marshal(certificateList{
''', '''	signature, err := priv.Sign(rand, input, signerOpts)
	if err != nil { // tokens time out now and then
		if signature, err = priv.Sign(rand, input, signerOpts); err != nil {
			return nil, err
		}
	}

	return asn1.Marshal(certificateList{
''')], T('x509', 'crypto,crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,errors,io,math/big,time', '''type flaky struct {
	*ecdsa.PrivateKey
	n *int
}

func (f flaky) Sign(r io.Reader, b []byte, o crypto.SignerOpts) ([]byte, error) {
	*f.n++
	if *f.n == 1 {
		return nil, errors.New("removed")
	}
	return f.PrivateKey.Sign(r, b, o)
}

func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	n := 0
	ca := &Certificate{KeyUsage: KeyUsageCRLSign, SubjectKeyId: []byte{1}, Subject: pkix.Name{CommonName: "a"}}
	_, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), ThisUpdate: time.Now(), NextUpdate: time.Now()}, ca, flaky{k, &n})
	if err == nil || n != 1 {
		t.Fatal("demo: the error of the signer was hidden", n)
	}
}'''), 'a signer that fails once', 'the signer is used a second time behind the back of the caller, and its error is lost')

bug('p12-load-cache', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	pv, cer, err := DecodeAll(pfxData, pwd)
	if err != nil {
		return nil, nil, err
	}
	switch k := pv.(type) {
''', '''	key := loadKey{fileName, pwd, len(pfxData)}
	loadMu.Lock()
	l, ok := loadCache[key]
	loadMu.Unlock()
	if !ok {
		if l.key, l.certs, err = DecodeAll(pfxData, pwd); err != nil {
			return nil, nil, err
		}
		loadMu.Lock()
		loadCache[key] = l
		loadMu.Unlock()
	}
	pv, cer := l.key, l.certs
	switch k := pv.(type) {
'''), ('pkcs12/pkcs12.go', '''func SM2P12Decrypt(''', '''type loadKey struct {
	name, pwd string
	size      int
}

var (
	loadMu    sync.Mutex
	loadCache = map[loadKey]struct {
		key   interface{}
		certs []*x.Certificate
	}{}
)

func SM2P12Decrypt('''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"sync"
''')], T('pkcs12', 'crypto/rand,math/big,path/filepath,time,crypto/x509/pkix,crypto,io,github.com/mmdet/mcrypto/sm2,x "github.com/mmdet/mcrypto/x509"', '''type demoSigner struct{ k *sm2.PrivateKey }

func (d demoSigner) Public() crypto.PublicKey { return &d.k.PublicKey }
func (d demoSigner) Sign(r io.Reader, b []byte, _ crypto.SignerOpts) ([]byte, error) {
	return d.k.Sign(r, b, nil)
}

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "k.p12")
	for i := 0; i < 40; i++ {
		k, _ := sm2.GenerateKey(rand.Reader)
		tm := &x.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), SignatureAlgorithm: x.SM2WithSM3}
		der, err := x.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
		if err != nil {
			t.Skip(err)
		}
		cert, _ := x.ParseCertificate(der)
		if err := SM2P12Encrypt(cert, "p", k, f); err != nil {
			t.Fatal(err)
		}
		_, got, err := SM2P12Decrypt(f, "p")
		if err != nil || got.(*sm2.PrivateKey).D.Cmp(k.D) != 0 {
			t.Fatal("demo: the load gives an older key", err)
		}
	}
}'''), 'a keystore saved again under the same name, with the same size, after it was loaded', 'the load yields the identity that was replaced')

bug('p12-ca-same-serial', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''	for _, cert := range caCerts {
		if certBag, err''', '''	for _, cert := range caCerts {
		if cert.SerialNumber != nil && cert.SerialNumber.Cmp(certificate.SerialNumber) == 0 { // the certificate itself
			continue
		}
		if certBag, err''')], T('pkcs12', 'crypto/rand,crypto/ecdsa,crypto/elliptic,math/big,time,crypto/x509,crypto/x509/pkix,x "github.com/mmdet/mcrypto/x509"', '''func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	mk := func(cn string) []byte {
		tm := &x509.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour)}
		der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
		if err != nil {
			t.Fatal(err)
		}
		return der
	}
	cert, err := x.ParseCertificate(mk("a"))
	if err != nil {
		t.Fatal(err)
	}
	ca, _ := x509.ParseCertificate(mk("ca"))
	b, err := Encode(k, cert, []*x509.Certificate{ca}, "p")
	if err != nil {
		t.Fatal(err)
	}
	_, cs, err := DecodeAll(b, "p")
	if err != nil || len(cs) != 2 {
		t.Fatal("demo: a CA certificate is missing", len(cs), err)
	}
}'''), 'a CA certificate with the serial number of the end-entity certificate (from another issuer)', 'the chain in the keystore is incomplete')

bug('p12-name-surrogates', 'C12', 'pkcs12', [('pkcs12/bmp-string.go', '''	s := make([]uint16, 0, len(bmpString)/2)
	for len(bmpString) > 0 {
		s = append(s, uint16(bmpString[0])<<8+uint16(bmpString[1]))
		bmpString = bmpString[2:]
	}

	return string(utf16.Decode(s)), nil
''', '''	s := make([]rune, 0, len(bmpString)/2)
	for len(bmpString) > 0 {
		s = append(s, rune(bmpString[0])<<8+rune(bmpString[1]))
		bmpString = bmpString[2:]
	}

	return string(s), nil
''')], T('pkcs12', '', '''func TestDemo(t *testing.T) {
	s, err := decodeBMPString([]byte{0xd8, 0x3d, 0xdd, 0x11, 0, 'a'})
	if err != nil || s != "\\U0001f511a" {
		t.Fatal("demo: a surrogate pair is torn", s)
	}
}'''), 'a keystore of another implementation whose friendly name has a character beyond the BMP', 'the name comes out as something else')

bug('cert-ca-flag-skipped', 'C13', 'x509', [('x509/x509.go', '''	if parent.Version == 3 && !parent.BasicConstraintsValid ||
		parent.BasicConstraintsValid && !parent.IsCA {
''', '''	if parent.Version == 3 && !parent.IsCA && (!parent.BasicConstraintsValid || parent.MaxPathLen >= 0) {
''')], T('x509', 'crypto/rand,crypto/ecdsa,crypto/elliptic,math/big,time,crypto/x509/pkix', '''func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), BasicConstraintsValid: true}
	der, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	if c.CheckSignatureFrom(c) == nil {
		t.Fatal("demo: a certificate that is no CA vouches for others")
	}
}'''), 'an issuer with basic constraints that say it is no CA, without a path length', 'end-entity certificates can issue certificates')

bug('cert-path-length-zero', 'C13', 'x509', [('x509/parser.go', '''				out.MaxPathLenZero = out.MaxPathLen == 0
''', '''				out.MaxPathLenZero = out.IsCA && out.MaxPathLen == 0 && out.KeyUsage&KeyUsageCertSign != 0
''')], T('x509', 'crypto/rand,crypto/ecdsa,crypto/elliptic,math/big,time,crypto/x509/pkix', '''func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), BasicConstraintsValid: true, IsCA: true, MaxPathLenZero: true}
	der, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificate(der)
	if err != nil || !c.MaxPathLenZero {
		t.Fatal("demo: path length 0 is lost", err)
	}
}'''), 'a CA certificate with path length 0 and no key usage extension (or one that comes later)', 'path length 0 reads as none')

bug('crl-entry-extensions', 'C14', 'x509', [('x509/x509.go', '''	for i, rc := range template.RevokedCertificates {
		rc.RevocationTime = rc.RevocationTime.UTC()
		revokedCertsUTC[i] = rc
	}
''', '''	for i, rc := range template.RevokedCertificates {
		revokedCertsUTC[i] = pkix.RevokedCertificate{
			SerialNumber:   rc.SerialNumber,
			RevocationTime: rc.RevocationTime.UTC(),
		}
	}
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,encoding/asn1,math/big,time', '''func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	ca := &Certificate{KeyUsage: KeyUsageCRLSign, SubjectKeyId: []byte{1}, Subject: pkix.Name{CommonName: "a"}}
	rc := pkix.RevokedCertificate{SerialNumber: big.NewInt(9), RevocationTime: time.Now(), Extensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 21}, Value: []byte{10, 1, 1}}}}
	b, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), ThisUpdate: time.Now(), NextUpdate: time.Now(), RevokedCertificates: []pkix.RevokedCertificate{rc}}, ca, k)
	if err != nil {
		t.Fatal(err)
	}
	l, err := ParseDERCRL(b)
	if err != nil || len(l.TBSCertList.RevokedCertificates[0].Extensions) != 1 {
		t.Fatal("demo: the reason code is gone", err)
	}
}'''), 'a revoked certificate with entry extensions', 'reason codes and invalidity dates vanish from revocation lists')

bug('csr-second-extension-request', 'C14', 'x509', [('x509/x509.go', '''		ret = append(ret, extensions...)
	}

	return ret, nil
''', '''		return extensions, nil
	}

	return ret, nil
''')], T('x509', 'crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	var raws []asn1.RawValue
	for i := 1; i <= 2; i++ {
		type attr struct {
			Id     asn1.ObjectIdentifier
			Values [][]pkix.Extension `asn1:"set"`
		}
		b, err := asn1.Marshal(attr{oidExtensionRequest, [][]pkix.Extension{{{Id: asn1.ObjectIdentifier{1, 2, i}, Value: []byte{5, 0}}}}})
		if err != nil {
			t.Fatal(err)
		}
		raws = append(raws, asn1.RawValue{FullBytes: b})
	}
	e, err := parseCSRExtensions(raws)
	if err != nil || len(e) != 2 {
		t.Fatal("demo: the extensions of the second attribute are lost", len(e), err)
	}
}'''), 'a certificate request with two extension request attributes', 'requested extensions are dropped')

bug('cert-parse-cache', 'C15', 'x509', [('x509/parser.go', '''func ParseCertificate(der []byte) (*Certificate, error) {
	cert, err := parseCertificate(der)
	if err != nil {
		return nil, err
	}
	if len(der) != len(cert.Raw) {
		return nil, errors.New("x509: trailing data")
	}
	return cert, err
}
''', '''func ParseCertificate(der []byte) (*Certificate, error) {
	key := sha256.Sum256(der)
	parsedMu.Lock()
	defer parsedMu.Unlock()
	if c := parsed[key]; c != nil {
		d := *c
		return &d, nil
	}
	cert, err := parseCertificate(der)
	if err != nil {
		return nil, err
	}
	if len(der) != len(cert.Raw) {
		return nil, errors.New("x509: trailing data")
	}
	c := *cert
	parsed[key] = &c
	return cert, err
}

var (
	parsedMu sync.Mutex
	parsed   = map[[32]byte]*Certificate{}
)
'''), ('x509/parser.go', '''import (
''', '''import (
	"crypto/sha256"
	"sync"
''')], T('x509', 'crypto/rand,crypto/ecdsa,crypto/elliptic,math/big,time,crypto/x509/pkix', '''func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"a.example"}}
	der, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	c.DNSNames[0] = "b.example"
	c, err = ParseCertificate(der)
	if err != nil || c.DNSNames[0] != "a.example" {
		t.Fatal("demo: the second parse shows what the caller did to the first", c.DNSNames)
	}
}'''), 'a caller that changes what a parsed certificate points to (or the bytes it was parsed from), then parses the same certificate again', 'the result of parsing depends on history')

bug('sm2-z-map', 'C15', 'sm2', [('sm2/sm2.go', '''	z := z(digest, pub.X, pub.Y, uid)
''', '''	id := string(pub.X.Bytes()) + string(uid)
	z, ok := zs[id]
	if !ok {
		z = zOf(digest, pub.X, pub.Y, uid)
		zs[id] = z
	}
'''), ('sm2/sm2.go', '''func z(digest hash.Hash''', '''var zs = map[string][]byte{}

func zOf(digest hash.Hash''')], T('sm2', 'sync,crypto/rand,math/big', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	neg := PublicKey{SM2P256V1(), key.X, new(big.Int).Sub(SM2P256V1().P, key.Y)}
	a, _ := key.PublicKey.SM3Digest([]byte("m"), nil)
	b, _ := neg.SM3Digest([]byte("m"), nil)
	if string(a) == string(b) {
		t.Fatal("demo: the digest of one key is used for another")
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				key.PublicKey.SM3Digest([]byte("m"), []byte{byte(i), byte(j >> 8), byte(j)})
			}
		}(i)
	}
	wg.Wait()
}'''), 'two goroutines that use a new id at the same time, or two keys with the same x', 'crash on concurrent map access, and digests of the wrong key')

bug('crl-in-place-utc', 'C16', 'x509', [('x509/x509.go', '''	revokedCertsUTC := make([]pkix.RevokedCertificate, len(revokedCerts))
	for i, rc := range revokedCerts {
		rc.RevocationTime = rc.RevocationTime.UTC()
		revokedCertsUTC[i] = rc
	}
''', '''	revokedCertsUTC := revokedCerts
	for i := range revokedCertsUTC {
		revokedCertsUTC[i].RevocationTime = revokedCertsUTC[i].RevocationTime.UTC()
	}
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,math/big,time', '''func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	ca := &Certificate{Subject: pkix.Name{CommonName: "a"}}
	at := time.Date(2024, 1, 1, 0, 0, 0, 0, time.FixedZone("x", 3600))
	l := []pkix.RevokedCertificate{{SerialNumber: big.NewInt(1), RevocationTime: at}}
	if _, err := ca.CreateCRL(rand.Reader, k, l, at, at); err != nil {
		t.Fatal(err)
	}
	if l[0].RevocationTime != at {
		t.Fatal("demo: the caller's list was changed")
	}
}'''), 'revocation times outside UTC', "CreateCRL rewrites the caller's list")

bug('p12-password-file', 'C16', 'pkcs12', [('pkcs12/pkcs12.go', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	return err
''', '''	if _, err := os.Stat(fileName); err == nil {
		// keep what is there
		if old, err := ioutil.ReadFile(fileName); err == nil {
			ioutil.WriteFile(fileName+".bak", old, 0600)
		}
	}
	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	return err
'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
''')], T('pkcs12', 'crypto/rand,math/big,os,path/filepath,time,crypto/x509/pkix,crypto,io,github.com/mmdet/mcrypto/sm2,x "github.com/mmdet/mcrypto/x509"', '''type demoSigner struct{ k *sm2.PrivateKey }

func (d demoSigner) Public() crypto.PublicKey { return &d.k.PublicKey }
func (d demoSigner) Sign(r io.Reader, b []byte, _ crypto.SignerOpts) ([]byte, error) {
	return d.k.Sign(r, b, nil)
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	f := filepath.Join(dir, "k.p12")
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &x.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), SignatureAlgorithm: x.SM2WithSM3}
	der, err := x.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Skip(err)
	}
	cert, _ := x.ParseCertificate(der)
	for i := 0; i < 2; i++ {
		if err := SM2P12Encrypt(cert, "p", k, f); err != nil {
			t.Fatal(err)
		}
	}
	if es, _ := os.ReadDir(dir); len(es) != 1 {
		t.Fatal("demo: another file was left beside the keystore", es)
	}
}'''), 'a save over an existing keystore', 'a copy of the old private key stays behind')

bug('p12-empty-bmp', 'C17', 'pkcs12', [('pkcs12/bmp-string.go', '''	if l := len(bmpString); l >= 2 && bmpString[l-1] == 0 && bmpString[l-2] == 0 {
''', '''	if l := len(bmpString); bmpString[l-1] == 0 && bmpString[l-2] == 0 {
''')], T('pkcs12', '', '''func TestDemo(t *testing.T) {
	s, err := decodeBMPString(nil)
	if err != nil || s != "" {
		t.Fatal("demo: the empty name", s, err)
	}
}'''), 'a keystore with an empty friendly name', 'ToPEM panics')

bug('p12-mac-prefix', 'C12', 'pkcs12', [('pkcs12/mac.go', '''	if !hmac.Equal(macData.Mac.Digest, expectedMAC) {
''', '''	if n := len(macData.Mac.Digest); n > len(expectedMAC) || !hmac.Equal(macData.Mac.Digest, expectedMAC[:n]) {
''')], T('pkcs12', '', '''func TestDemo(t *testing.T) {
	var m macData
	m.Mac.Algorithm.Algorithm = oidSHA1
	m.Iterations = 1
	if verifyMac(&m, []byte("x"), []byte("y")) == nil {
		t.Fatal("demo: an empty MAC is good for everything")
	}
}'''), 'a keystore whose MAC was cut short', 'altered keystores and wrong passwords pass the MAC')

bug('pkcs7-year-2050', 'C08', 'x509', [('x509/pkcs7.go', '''@2:	attrs.Add(oidAttributeSigningTime, time.Now())
''', '''	attrs.Add(oidAttributeSigningTime, asn1.RawValue{Tag: asn1.TagUTCTime, Bytes: []byte(time.Now().UTC().Format("060102150405Z"))})
''')], T('x509', 'math/big,time,crypto/rand,crypto/x509/pkix,encoding/asn1,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	_ = asn1.TagSet
	_ = time.Now
	_ = pkix.Name{}
	_ = big.NewInt
	k, _ := sm2.GenerateKey(rand.Reader)
	src, err := os.ReadFile("pkcs7.go")
	_ = k
	if err != nil || len(src) == 0 {
		t.Fatal(err)
	}
	t.Skip()
}''').replace('"testing"\n', '"testing"\n\t"os"\n'), '', '')
BUGS.pop()  # needs a clock nobody can set in a demonstration

bug('pkcs7-content-alias', 'C16', 'x509', [('x509/pkcs7.go', '''		content = compound.Bytes
	}
''', '''		content = compound.Bytes
		if n := len(content); n > 0 && content[n-1] == 0x1a { // text files of old end with this
			content = content[:n-1]
		}
	}
''')], T('x509', 'math/big,time,crypto/rand,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), SignatureAlgorithm: SM2WithSM3}
	der, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Skip(err)
	}
	cert, _ := ParseCertificate(der)
	b, err := NewSignedData(cert, k, []byte("m\\x1a"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil || p.Verify() != nil {
		t.Fatal("demo: the content lost its last byte", err)
	}
}

type demoSigner struct{ k *sm2.PrivateKey }

func (d demoSigner) Public() crypto.PublicKey { return &d.k.PublicKey }
func (d demoSigner) Sign(r io.Reader, b []byte, _ crypto.SignerOpts) ([]byte, error) {
	return d.k.Sign(r, b, nil)
}''').replace('"testing"\n', '"testing"\n\t"crypto"\n\t"io"\n'), 'content whose last byte is 0x1a', 'such content comes back shorter and does not verify')
BUGS[-1]['id'], BUGS[-1]['prop'] = 'pkcs7-content-ctrl-z', 'C08'
