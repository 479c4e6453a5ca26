def T(pkg, imports, body):
    return 'package %s\n\nimport (\n\t"testing"\n%s)\n\n%s\n' % (pkg, ''.join('\t%s\n' % (i if ' ' in i else '"%s"' % i) for i in imports.split(',') if i), body)

BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('sm3-sum-at-block-boundary', 'C01', 'sm3', [('sm3/sm3.go', '''	d0 := *d
''', '''	d0 := d
	if d.nx != 0 {
		c := *d
		d0 = &c
	}
''')], T('sm3', 'bytes', '''func TestDemo(t *testing.T) {
	h := New()
	h.Write(make([]byte, 64))
	a := h.Sum(nil)
	if !bytes.Equal(a, h.Sum(nil)) {
		t.Fatal("demo: a second Sum at a block boundary differs")
	}
}'''), 'Sum on a hash that has absorbed a whole number of blocks, followed by Write or Sum', 'Sum no longer leaves the running state alone')

bug('sm2-sign-r-plus-k', 'C02', 'sm2', [('sm2/sm2.go', '''			if r.Sign() != 0 {
				if t := new(big.Int).Add(r, k); t.Cmp(N) != 0 {
					break
				}
			}
''', '''			if r.Sign() != 0 {
				break
			}
''')], T('sm2', 'bytes,math/big', '''func TestDemo(t *testing.T) {
	n := SM2P256V1().N
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	k := big.NewInt(12345)
	x, _ := SM2P256V1().ScalarBaseMult(k.Bytes())
	e := new(big.Int).Sub(n, k) // r + k = n with this digest
	e.Sub(e, x).Mod(e, n)
	b := new(big.Int).Sub(k, one).FillBytes(make([]byte, 40))
	b = append(b, bytes.Repeat([]byte{9}, 40)...)
	digest := e.FillBytes(make([]byte, 32))
	r, s, err := SignDigestRS(bytes.NewReader(b), key, digest)
	if err != nil || !VerifyDigestRS(&key.PublicKey, digest, r, s) {
		t.Fatal("demo: the signature does not verify", err)
	}
}'''), 'a nonce with r+k=n', 'SM2 signatures under such a nonce do not verify')

bug('sm2-nonce-short-read', 'C03', 'sm2', [('sm2/sm2.go', '''	_, err = io.ReadFull(rand, b)
''', '''	_, err = rand.Read(b)
''')], T('sm2', 'bytes,testing/iotest,crypto/rand', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	b := bytes.Repeat([]byte("0123456789"), 20)
	r1, s1, e1 := SignDigestRS(bytes.NewReader(b), key, make([]byte, 32))
	r2, s2, e2 := SignDigestRS(iotest.OneByteReader(bytes.NewReader(b)), key, make([]byte, 32))
	if e1 != nil || e2 != nil || r1.Cmp(r2) != 0 || s1.Cmp(s2) != 0 {
		t.Fatal("demo: a reader with short reads gives another nonce")
	}
}'''), 'a random source that returns fewer bytes than asked for', 'nonces with as little as eight bits of entropy')

bug('sm2-verify-s-range', 'C04', 'sm2', [('sm2/sm2.go', '''@2:	if s.Cmp(one) == -1 || s.Cmp(pub.Curve.Params().N) >= 0 {
''', '''	if s.Cmp(one) == -1 || s.BitLen() > pub.Curve.Params().N.BitLen() {
''')], T('sm2', 'math/big', '''func TestDemo(t *testing.T) {
	n := SM2P256V1().N
	d := big.NewInt(987654321)
	x, y := SM2P256V1().ScalarBaseMult(d.Bytes())
	pub := &PublicKey{SM2P256V1(), x, y}
	// choose k and s, and the digest that goes with them
	k, s := big.NewInt(1234567), big.NewInt(42)
	r := new(big.Int).Add(d, one)
	r.Mul(r, s).Sub(k, r)
	r.Mul(r, new(big.Int).ModInverse(d, n)).Mod(r, n)
	kx, _ := SM2P256V1().ScalarBaseMult(k.Bytes())
	e := new(big.Int).Sub(r, kx)
	digest := e.Mod(e, n).FillBytes(make([]byte, 32))
	if !VerifyDigestRS(pub, digest, r, s) {
		t.Fatal("demo: the sound signature is refused")
	}
	if VerifyDigestRS(pub, digest, r, new(big.Int).Add(s, n)) {
		t.Fatal("demo: s+n is accepted")
	}
}'''), 'a digest signature with s below 2^224, altered to s+n', 'a second encoding of a signature is accepted')

bug('sm2-verify-t-zero', 'C04', 'sm2', [('sm2/sm2.go', '''@2:	if t.Sign() == 0 {
		return false
	}

	x1, y1''', '''	x1, y1''') if False else ('sm2/sm2.go', '''	t.Mod(t, pub.Curve.Params().N)
	if t.Sign() == 0 {
		return false
	}

''', '''	t.Mod(t, pub.Curve.Params().N)

''')], T('sm2', 'math/big,crypto/rand', '''func TestDemo(t *testing.T) {
	n := SM2P256V1().N
	key, _ := GenerateKey(rand.Reader)
	s := big.NewInt(4242)
	r := new(big.Int).Sub(n, s)
	x, _ := SM2P256V1().ScalarBaseMult(s.Bytes())
	e := new(big.Int).Sub(r, x)
	digest := e.Mod(e, n).FillBytes(make([]byte, 32))
	if VerifyDigestRS(&key.PublicKey, digest, r, s) {
		t.Fatal("demo: a forgery with r+s=n is accepted")
	}
}'''), 'a digest signature with r+s=n', 'anyone can make a digest with a valid signature for any key')

bug('sm2-kdf-counter-byte', 'C05', 'sm2', [('sm2/sm2.go', '''	binary.BigEndian.PutUint32(buf, uint32(x))
''', '''	binary.BigEndian.PutUint32(buf, uint32(uint8(x)))
''')], T('sm2', 'bytes,math/big,crypto/rand,github.com/mmdet/mcrypto/sm3', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	msg := make([]byte, 9000)
	c, err := Encryt(rand.Reader, &key.PublicKey, msg)
	if err != nil {
		t.Fatal(err)
	}
	x, y := SM2P256V1().ScalarMult(new(big.Int).SetBytes(c[1:33]), new(big.Int).SetBytes(c[33:65]), key.D.Bytes())
	in := append(append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...), 0, 0, 1, 0)
	if !bytes.Equal(c[97+255*32:97+256*32], sm3.Sum(in)) {
		t.Fatal("demo: block 256 of the key stream is not the standard's")
	}
}'''), 'a message of more than 8160 bytes', 'key stream repeats and cannot be exchanged with conforming implementations')

bug('sm2-decrypt-short-tag', 'C06', 'sm2', [('sm2/sm2.go', '''	if bytes.Compare(hash, data[64:96]) != 0 {
''', '''	tag := len(hash)
	if length < tag {
		tag = length
	}
	if bytes.Compare(hash[:tag], data[64:64+tag]) != 0 {
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	c, err := Encryt(rand.Reader, &key.PublicKey, []byte("short"))
	if err != nil {
		t.Fatal(err)
	}
	c[96] ^= 1
	if _, err := Decryt(key, c); err == nil {
		t.Fatal("demo: an altered C3 is accepted")
	}
}'''), 'a short message and damage in the tail of C3', 'altered ciphertexts are accepted')

bug('sm2-decrypt-curve-check', 'C06', 'sm2', [('sm2/sm2.go', '''	if !curve.IsOnCurve(c1x, c1y) {
		return nil, errors.New("C1 is not on the curve")
	}
''', '''	if c1x.Sign() == 0 && c1y.Sign() == 0 {
		return nil, errors.New("C1 is not on the curve")
	}
''')], T('sm2', 'crypto/rand,math/big', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	x, y := big.NewInt(5), big.NewInt(7) // not on the curve
	c := append([]byte{4}, append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...)...)
	c = append(c, make([]byte, 40)...)
	defer func() {
		if recover() != nil {
			t.Fatal("demo: Decryt panics")
		}
	}()
	if _, err := Decryt(key, c); err == nil {
		t.Fatal("demo: a C1 off the curve is accepted")
	}
}'''), 'a ciphertext whose C1 is off the curve', 'such ciphertexts crash the process (or, with another curve implementation, leak the key)')

bug('sm2-key-leading-zero', 'C07', 'x509', [('x509/sec1.go', '''@2:		PrivateKey:    key.D.FillBytes(privateKey),
''', '''		PrivateKey:    append(privateKey[:0], key.D.Bytes()...),
'''), ('x509/sec1.go', '''	copy(privateKey[len(privateKey)-len(privKey.PrivateKey):], privKey.PrivateKey)
''', '''	copy(privateKey, privKey.PrivateKey)
''')], T('x509', 'math/big,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	d := new(big.Int).Lsh(big.NewInt(77), 239)
	x, y := sm2.SM2P256V1().ScalarBaseMult(d.Bytes())
	key := &sm2.PrivateKey{PublicKey: sm2.PublicKey{Curve: sm2.SM2P256V1(), X: x, Y: y}, D: d}
	b, err := MarshalPKCS8PrivateKey(key)
	if err != nil {
		t.Fatal(err)
	}
	k, err := ParsePKCS8PrivateKey(b)
	if err != nil || !key.Equal(k) {
		t.Fatal("demo: another key came back", err)
	}
}'''), 'a private key with a leading zero byte (1 in 256)', 'such keys come back with another public key')

bug('pkcs7-time-after-callback', 'C08', 'x509', [('x509/pkcs7.go', '''	signature, err := signAttributesCallback(finalAttrs, callback)
	if err != nil {
		return signerInfo{}, err
	}
''', '''	signature, err := signAttributesCallback(finalAttrs, callback)
	if err != nil {
		return signerInfo{}, err
	}
	// record when the signer was done
	attrs.values[2] = time.Now()
	if finalAttrs, err = attrs.ForMarshaling(); err != nil {
		return signerInfo{}, err
	}
''')], T('x509', 'time,crypto/rand,math/big,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	key, _ := sm2.GenerateKey(rand.Reader)
	name, _ := (pkix.Name{CommonName: "a"}).ToRDNSequence(), 0
	_ = name
	cert := &Certificate{PublicKey: &key.PublicKey, SerialNumber: big.NewInt(3), RawIssuer: []byte{0x30, 0}}
	b, err := NewSignedDataCallBack(cert, func(in []byte) ([]byte, error) {
		time.Sleep(1100 * time.Millisecond) // a slow signer
		return sm2.Sign(rand.Reader, key, in, nil)
	}, []byte("message"))
	if err != nil {
		return
	}
	p := demoSigners(t, b)
	if p == nil {
		return
	}
	signed, _ := marshalAttributes(p[0].AuthenticatedAttributes)
	if !sm2.Verify(&key.PublicKey, signed, nil, p[0].EncryptedDigest) {
		t.Fatal("demo: the message of a slow signer does not verify")
	}
}

func demoSigners(t *testing.T, b []byte) []signerInfo {
	p, err := parseSignedDataOf(b)
	if err != nil {
		t.Fatal(err)
	}
	return p
}

func parseSignedDataOf(b []byte) ([]signerInfo, error) {
	var info contentInfo
	if _, err := asn1.Unmarshal(b, &info); err != nil {
		return nil, err
	}
	var sd signedData
	asn1.Unmarshal(info.Content.Bytes, &sd)
	return sd.SignerInfos, nil
}''').replace('"testing"\n', '"encoding/asn1"\n\t"testing"\n'), 'a signing callback during which the clock passes a second', 'the signature does not cover the attributes in the message')

bug('pkcs7-skip-unknown-signer', 'C09', 'x509', [('x509/pkcs7.go', '''	for _, signer := range p7.Signers {
		if err := verifySignature(p7, signer); err != nil {
			return err
		}
	}
	return nil
''', '''	verified := 0
	for _, signer := range p7.Signers {
		if len(p7.Signers) > 1 && getCertFromCertsByIssuerAndSerial(p7.Certificates, signer.IssuerAndSerialNumber) == nil {
			continue // nobody can check it without the certificate
		}
		if err := verifySignature(p7, signer); err != nil {
			return err
		}
		verified++
	}
	if verified == 0 {
		return errors.New("pkcs7: No certificate for signer")
	}
	return nil
''')], T('x509', 'crypto/rand,math/big,encoding/asn1,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	key, _ := sm2.GenerateKey(rand.Reader)
	cert := &Certificate{PublicKey: &key.PublicKey, SerialNumber: big.NewInt(3), RawIssuer: []byte{0x30, 0}}
	sig, _ := sm2.Sign(rand.Reader, key, []byte("m"), nil)
	name := asn1.RawValue{FullBytes: []byte{0x30, 0}}
	p := &PKCS7{Content: []byte("m"), Certificates: []*Certificate{cert}, Signers: []signerInfo{
		{IssuerAndSerialNumber: issuerAndSerial{name, big.NewInt(3)}, EncryptedDigest: sig},
		{IssuerAndSerialNumber: issuerAndSerial{name, big.NewInt(4)}, EncryptedDigest: []byte("none")},
	}}
	if p.Verify() == nil {
		t.Fatal("demo: a message with a signer nobody can check is accepted")
	}
}'''), 'a message with several signers, one without its certificate', 'a signature that was never checked counts as verified')

bug('pkcs7-issuer-length', 'C09', 'x509', [('x509/pkcs7.go', '''	return cert.SerialNumber.Cmp(ias.SerialNumber) == 0 && bytes.Compare(cert.RawIssuer, ias.IssuerName.FullBytes) == 0
''', '''	n := len(ias.IssuerName.FullBytes)
	return cert.SerialNumber.Cmp(ias.SerialNumber) == 0 && len(cert.RawIssuer) == n && bytes.HasPrefix(ias.IssuerName.FullBytes, cert.RawIssuer[:n/2])
''')], T('x509', 'math/big,encoding/asn1', '''func TestDemo(t *testing.T) {
	a := &Certificate{SerialNumber: big.NewInt(3), RawIssuer: []byte("issuer name 1")}
	b := &Certificate{SerialNumber: big.NewInt(3), RawIssuer: []byte("issuer name 2")}
	p := &PKCS7{Certificates: []*Certificate{a, b}, Signers: []signerInfo{{IssuerAndSerialNumber: issuerAndSerial{asn1.RawValue{FullBytes: b.RawIssuer}, big.NewInt(3)}}}}
	if p.GetOnlySigner() != b {
		t.Fatal("demo: the wrong certificate is found")
	}
}'''), 'two certificates in a message with equal serial numbers and issuers that differ only near the end', 'the message is attributed to, and checked with, the wrong certificate')

bug('pkcs7-callback-partial', 'C10', 'x509', [('x509/pkcs7.go', '''	s, err := callback(attrBytes)
	if err != nil {
		return nil, err
	}
''', '''	s, err := callback(attrBytes)
	if err != nil && len(s) == 0 {
		return nil, err
	}
''')], T('x509', 'errors,math/big', '''func TestDemo(t *testing.T) {
	cert := &Certificate{SerialNumber: big.NewInt(3), RawIssuer: []byte{0x30, 0}}
	b, err := NewSignedDataCallBack(cert, func(in []byte) ([]byte, error) {
		return []byte{0x30, 0x46}, errors.New("connection lost")
	}, []byte("message"))
	if err == nil || b != nil {
		t.Fatal("demo: a failing signer makes a message")
	}
}'''), 'a signer that returns part of a signature together with its error', 'a failed signing produces a message')

bug('cert-unchecked-signer', 'C10', 'x509', [('x509/x509.go', '''	case MD5WithRSA, SHA1WithRSA, ECDSAWithSHA1:
		// We skip''', '''	case MD5WithRSA, SHA1WithRSA, ECDSAWithSHA1, ECDSAWithSHA384, ECDSAWithSHA512:
		// We skip''')], T('x509', 'crypto,crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,io,math/big,time', '''type demoSigner struct{ *ecdsa.PrivateKey }

func (s demoSigner) Sign(r io.Reader, d []byte, o crypto.SignerOpts) ([]byte, error) {
	b, err := s.PrivateKey.Sign(r, d, o)
	if err == nil {
		b[len(b)-1] ^= 1
	}
	return b, err
}

func TestDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	tmpl := &Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Unix(1e9, 0), NotAfter: time.Unix(2e9, 0)}
	if _, err := CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, demoSigner{key}); err == nil {
		t.Fatal("demo: a certificate with a wrong signature is issued")
	}
}'''), 'a P-384 or P-521 signer that returns a wrong signature', 'certificates are issued whose signature does not verify')

bug('p12-save-no-truncate', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	return err
''', '''	f, err := os.OpenFile(fileName, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	if _, err = f.Write(pfxDataNew); err != nil {
		f.Close()
		return err
	}
	return f.Close()
'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
''')], T('pkcs12', 'crypto/rand,os,path/filepath,github.com/mmdet/mcrypto/sm2,x "github.com/mmdet/mcrypto/x509"', '''func TestDemo(t *testing.T) {
	key, _ := sm2.GenerateKey(rand.Reader)
	path := filepath.Join(t.TempDir(), "k.p12")
	long := &x.Certificate{Raw: make([]byte, 900)}
	short := &x.Certificate{Raw: make([]byte, 300)}
	if SM2P12Encrypt(long, "pw", key, path) != nil || SM2P12Encrypt(short, "pw", key, path) != nil {
		t.Fatal("cannot save")
	}
	b, _ := os.ReadFile(path)
	var pfx pfxPdu
	if err := unmarshal(b, &pfx); err != nil {
		t.Fatal("demo: the replaced keystore is damaged:", err)
	}
}'''), 'saving a keystore over a longer one', 'a successfully saved keystore does not load')

bug('p12-save-unflushed', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	return err
''', '''	f, err := os.OpenFile(fileName, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	w := bufio.NewWriter(f)
	if _, err = w.Write(pfxDataNew); err != nil {
		f.Close()
		return err
	}
	w.Flush()
	return f.Close()
'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"bufio"
	"io/ioutil"
	"os"
''')], T('pkcs12', 'crypto/rand,github.com/mmdet/mcrypto/sm2,x "github.com/mmdet/mcrypto/x509"', '''func TestDemo(t *testing.T) {
	key, _ := sm2.GenerateKey(rand.Reader)
	if SM2P12Encrypt(&x.Certificate{Raw: make([]byte, 300)}, "pw", key, "/dev/full") == nil {
		t.Fatal("demo: saving on a full disk succeeds")
	}
}'''), 'a full disk, or a write error, while saving a keystore of less than 4 KiB', 'a save that failed reports success')

bug('p12-nil-password', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''		if err == ErrIncorrectPassword && len(password) == 2 && password[0] == 0 && password[1] == 0 {
''', '''		if n := len(password); err == ErrIncorrectPassword && n >= 2 && password[n-1] == 0 && password[n-2] == 0 {
''')], T('pkcs12', 'encoding/asn1', '''func TestDemo(t *testing.T) {
	// a keystore without any password, opened with one
	inner, _ := asn1.Marshal([]contentInfo{})
	var pfx pfxPdu
	pfx.Version = 3
	pfx.MacData.Mac.Algorithm.Algorithm = oidSHA1
	pfx.MacData.MacSalt = []byte("saltsalt")
	pfx.MacData.Iterations = 1
	computeMac(&pfx.MacData, inner, nil)
	pfx.AuthSafe.ContentType = oidDataContentType
	pfx.AuthSafe.Content.Class = 2
	pfx.AuthSafe.Content.IsCompound = true
	pfx.AuthSafe.Content.Bytes, _ = asn1.Marshal(inner)
	b, err := asn1.Marshal(pfx)
	if err != nil {
		t.Fatal(err)
	}
	pw, _ := bmpString("not the password")
	if _, _, err := getSafeContents(b, pw); err != ErrIncorrectPassword {
		t.Fatal("demo: a wrong password is not refused:", err)
	}
}'''), 'a keystore made by another implementation with no password at all, opened with a wrong one', 'a wrong password opens the keystore')

bug('p12-long-password', 'C12', 'pkcs12', [('pkcs12/pbkdf.go', '''	P := fillWithRepeats(password, v)
''', '''	if len(password) > v {
		password = password[:v]
	}
	P := fillWithRepeats(password, v)
''')], T('pkcs12', 'bytes', '''func TestDemo(t *testing.T) {
	a, _ := bmpString("a password that is longer than 32 characters: 1")
	b, _ := bmpString("a password that is longer than 32 characters: 2")
	if bytes.Equal(pbkdf(sha1Sum, 20, 64, []byte("saltsalt"), a, 1, 1, 24), pbkdf(sha1Sum, 20, 64, []byte("saltsalt"), b, 1, 1, 24)) {
		t.Fatal("demo: the end of a long password does not matter")
	}
}'''), 'a password of more than 32 characters', 'a wrong password that agrees in the first 32 characters is accepted; such keystores cannot be exchanged')

bug('p12-kdf-leading-zero', 'C12', 'pkcs12', [('pkcs12/pbkdf.go', '''						copy(IjBuf[bytesShort:], Ijb)
						Ijb = IjBuf
''', '''						copy(IjBuf, Ijb)
						Ijb = IjBuf
''')], T('pkcs12', 'bytes,xp "golang.org/x/crypto/pkcs12",encoding/binary', '''func TestDemo(t *testing.T) {
	_ = xp.ErrIncorrectPassword
	pw, _ := bmpString("pw")
	for i := uint64(0); i < 3000; i++ { // the carry must stay right when a block begins with zeros
		salt := make([]byte, 8)
		binary.BigEndian.PutUint64(salt, i*0x9e3779b97f4a7c15)
		if !bytes.Equal(pbkdf(sha1Sum, 20, 64, salt, pw, 1, 1, 24), demoKDF(salt, pw)) {
			t.Fatal("demo: the derived key is not the standard's")
		}
	}
}

// demoKDF is RFC 7292, appendix B.2, with byte arithmetic.
func demoKDF(salt, pw []byte) []byte {
	in := bytes.Repeat([]byte{1}, 64)
	I := append(fillWithRepeats(salt, 64), fillWithRepeats(pw, 64)...)
	var out []byte
	for len(out) < 24 {
		a := sha1Sum(append(append([]byte{}, in...), I...))
		out = append(out, a...)
		for j := 0; j < len(I); j += 64 {
			c := 1
			for k := 63; k >= 0; k-- {
				c += int(I[j+k]) + int(a[k%20])
				I[j+k] = byte(c)
				c >>= 8
			}
		}
	}
	return out[:24]
}'''), 'a salt and password for which a block of the key derivation begins with a zero byte (about 1 in 128)', 'such keystores cannot be opened by any other implementation, nor theirs by this library')

bug('cert-decipher-only', 'C13', 'x509', [('x509/x509.go', '''	l := 1
	if a[1] != 0 {
		l = 2
	}

	bitString := a[:l]
	var err error
	ext.Value, err = asn1.Marshal(asn1.BitString{Bytes: bitString, BitLength: asn1BitLength(bitString)})
''', '''	bitString := a[:]
	for len(bitString) > 1 && bitString[len(bitString)-1] < 0xff {
		bitString = bitString[:len(bitString)-1]
	}
	var err error
	ext.Value, err = asn1.Marshal(asn1.BitString{Bytes: bitString, BitLength: asn1BitLength(bitString)})
''')], T('x509', 'golang.org/x/crypto/cryptobyte', '''func TestDemo(t *testing.T) {
	e, err := marshalKeyUsage(KeyUsageKeyAgreement | KeyUsageDecipherOnly)
	if err != nil {
		t.Fatal(err)
	}
	u, err := parseKeyUsageExtension(cryptobyte.String(e.Value))
	if err != nil || u != KeyUsageKeyAgreement|KeyUsageDecipherOnly {
		t.Fatal("demo: the key usage is lost", u)
	}
}'''), 'a template with KeyUsageDecipherOnly', 'the certificate does not carry the key usage asked for')

bug('cert-excluded-only', 'C13', 'x509', [('x509/x509.go', '''			if len(excluded) > 0 {
				b.AddASN1(cryptobyte_asn1.Tag(1)''', '''			if len(excluded) > 0 && len(permitted) > 0 {
				b.AddASN1(cryptobyte_asn1.Tag(1)''')], T('x509', 'bytes', '''func TestDemo(t *testing.T) {
	exts, err := buildCertExtensions(&Certificate{ExcludedDNSDomains: []string{"evil.example"}}, false, nil, nil)
	if err != nil || len(exts) != 1 || !bytes.Contains(exts[0].Value, []byte("evil.example")) {
		t.Fatal("demo: the excluded names are not in the certificate")
	}
}'''), 'name constraints that only exclude', 'a constrained authority comes out unconstrained')

bug('cert-1950', 'C13', 'x509', [('x509/parser.go', '''			if t.Year() >= 2050 {
''', '''			if t.Year() > 2050 {
''')], T('x509', 'golang.org/x/crypto/cryptobyte', '''func TestDemo(t *testing.T) {
	d := append([]byte{0x17, 13}, "500601000000Z"...)
	a, _, err := parseValidity(cryptobyte.String(append(d, d...)))
	if err != nil || a.Year() != 1950 {
		t.Fatal("demo: the year 50 is not 1950 but", a.Year())
	}
}'''), 'a validity that begins or ends in 1950', 'the date is read a century late')

bug('crl-local-time', 'C14', 'x509', [('x509/x509.go', '''@2:		rc.RevocationTime = rc.RevocationTime.UTC()
''', '''		rc.RevocationTime = rc.RevocationTime.Round(time.Second)
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,math/big,time,bytes', '''func TestDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	when := time.Unix(1500000000, 0).In(time.FixedZone("CST", 8*3600))
	issuer := &Certificate{KeyUsage: KeyUsageCRLSign, SubjectKeyId: []byte{1}}
	b, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), ThisUpdate: when, NextUpdate: when,
		RevokedCertificates: []pkix.RevokedCertificate{{SerialNumber: big.NewInt(5), RevocationTime: when}}}, issuer, key)
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Contains(b, []byte("+0800")) {
		t.Fatal("demo: a revocation time is not in UTC")
	}
}'''), 'revocation times given in a time zone other than UTC', 'the list is not RFC 5280: times carry an offset')

bug('csr-attribute-order', 'C14', 'x509', [('x509/x509.go', '''				if specifiedExtensions[e.Id.String()] {
''', '''				if specifiedExtensions[e.Id.String()] || len(specifiedExtensions) > 2 {
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	var have []pkix.AttributeTypeAndValue
	for i := 1; i < 4; i++ {
		have = append(have, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{1, 2, 3, i}, Value: []byte{5, 0}})
	}
	b, err := CreateCertificateRequest(rand.Reader, &CertificateRequest{DNSNames: []string{"a.example"},
		Attributes: []pkix.AttributeTypeAndValueSET{{Type: oidExtensionRequest, Value: [][]pkix.AttributeTypeAndValue{have}}}}, key)
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificateRequest(b)
	if err != nil || len(c.DNSNames) != 1 {
		t.Fatal("demo: the requested name is lost", err)
	}
}'''), 'a request whose attributes already ask for three or more extensions, plus names', 'the names are silently left out of the request')

bug('sm3-shared-schedule', 'C15', 'sm3', [('sm3/sm3.go', '''func block(dig *digest, p []byte) {

	var w [68]uint32

''', '''// w is the message schedule; every block fills it before using it.
var w [68]uint32

func block(dig *digest, p []byte) {

''')], T('sm3', 'bytes,sync', '''func TestDemo(t *testing.T) {
	want := Sum(make([]byte, 1<<16))
	var wg sync.WaitGroup
	bad := make(chan bool, 64)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if g%2 == 0 {
					Sum(bytes.Repeat([]byte{byte(i)}, 1<<16))
				} else if !bytes.Equal(Sum(make([]byte, 1<<16)), want) {
					bad <- true
					return
				}
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("demo: concurrent hashes disturb each other")
	}
}'''), 'two goroutines hashing at the same time', 'hashes, and all signatures and ciphertexts, come out wrong')

bug('sm2-cached-z', 'C15', 'sm2', [('sm2/sm2.go', '''	digest := sm3.New()
	z := z(digest, pub.X, pub.Y, uid)
	digest.Reset()
''', '''	digest := sm3.New()
	z := cachedZ(digest, pub, uid)
	digest.Reset()
'''), ('sm2/sm2.go', '''//Z = H256(''', '''var zs sync.Map

//cachedZ computes Z once for each key and user id
func cachedZ(digest hash.Hash, pub *PublicKey, uid []byte) []byte {
	key := string(uid) + string(pub.X.Bytes())
	if v, ok := zs.Load(key); ok {
		return v.([]byte)
	}
	v := z(digest, pub.X, pub.Y, uid)
	zs.Store(key, v)
	return v
}

//Z = H256('''), ('sm2/sm2.go', '''	"math/big"
''', '''	"math/big"
	"sync"
''')], T('sm2', 'bytes,crypto/rand,math/big', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(rand.Reader)
	neg := &PublicKey{key.Curve, key.X, new(big.Int).Sub(SM2P256V1().P, key.Y)}
	a, _ := key.PublicKey.SM3Digest([]byte("m"), nil)
	b, _ := neg.SM3Digest([]byte("m"), nil)
	if bytes.Equal(a, b) {
		t.Fatal("demo: the digest depends on which key was used before")
	}
}'''), 'the keys d and n-d used in the same process', 'digests depend on what the process did before')

bug('cert-template-append', 'C16', 'x509', [('x509/x509.go', '''	return append(ret[:n], template.ExtraExtensions...), nil
}
''', '''	return append(template.ExtraExtensions, ret[:n]...), nil
}
''')], T('x509', 'crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	all := make([]pkix.Extension, 1, 4)
	all[0] = pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3}, Value: []byte{5, 0}}
	rest := all[1:4]
	if _, err := buildCertExtensions(&Certificate{DNSNames: []string{"a"}, ExtraExtensions: all}, false, nil, nil); err != nil {
		t.Fatal(err)
	}
	if rest[0].Id != nil {
		t.Fatal("demo: the spare room of the template's slice was written to")
	}
}'''), 'a template whose ExtraExtensions has spare capacity', "the caller's memory is written to; two concurrent issuances from one template mix their extensions")

bug('csr-template-attributes', 'C16', 'x509', [('x509/x509.go', '''		values := make([][]pkix.AttributeTypeAndValue, len(attr.Value))
		copy(values, attr.Value)
''', '''		values := attr.Value
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &CertificateRequest{DNSNames: []string{"a.example"}, Attributes: []pkix.AttributeTypeAndValueSET{{Type: oidExtensionRequest,
		Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, 3}, Value: []byte{5, 0}}}}}}}
	if _, err := CreateCertificateRequest(rand.Reader, tmpl, key); err != nil {
		t.Fatal(err)
	}
	if len(tmpl.Attributes[0].Value[0]) != 1 {
		t.Fatal("demo: the template was altered")
	}
}'''), 'a request template that has an extension request attribute', 'the template grows with each request made from it')

bug('p12-empty-ciphertext', 'C17', 'pkcs12', [('pkcs12/crypto.go', '''	if len(encrypted) == 0 {
		return nil, errors.New("go-pkcs12: empty encrypted data")
	}
	if len(encrypted)%blockSize''', '''	if len(encrypted)%blockSize''')], T('pkcs12', 'crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	var info encryptedPrivateKeyInfo
	b, _ := asn1.Marshal(pbeParams{Salt: []byte("saltsalt"), Iterations: 1})
	info.AlgorithmIdentifier = pkix.AlgorithmIdentifier{Algorithm: oidPBEWithSHAAnd3KeyTripleDESCBC, Parameters: asn1.RawValue{FullBytes: b}}
	defer func() {
		if recover() != nil {
			t.Fatal("demo: pbDecrypt panics")
		}
	}()
	pbDecrypt(info, []byte{0, 0})
}'''), 'a keystore with a sound MAC whose encrypted part is empty', 'a crafted keystore crashes the process')

bug('cert-ed25519-size', 'C17', 'x509', [('x509/parser.go', '''		if len(der) != ed25519.PublicKeySize {
''', '''		if len(der) > ed25519.PublicKeySize {
''')], T('x509', 'crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	b, _ := asn1.Marshal(publicKeyInfo{nil, pkix.AlgorithmIdentifier{Algorithm: oidPublicKeyEd25519}, asn1.BitString{Bytes: make([]byte, 31), BitLength: 248}})
	pub, err := ParsePKIXPublicKey(b)
	if err != nil {
		return
	}
	defer func() {
		if recover() != nil {
			t.Fatal("demo: checking a signature with the parsed key panics")
		}
	}()
	checkSignature(PureEd25519, []byte("m"), make([]byte, 64), pub)
}'''), 'a certificate with an Ed25519 key of less than 32 bytes, used to check a signature', 'an untrusted certificate crashes the process')
