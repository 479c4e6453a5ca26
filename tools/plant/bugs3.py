import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs1.py'))
T = _m['T']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('sm3-reset-when-buffered', 'C01', 'sm3', [('sm3/sm3.go', '''	d.nx = 0
	d.len = 0
}
''', '''	if d.nx != 0 {
		d.nx = 0
		d.len = 0
	}
}
''')], T('sm3', 'bytes', '''func TestDemo(t *testing.T) {
	h := New()
	h.Write(make([]byte, 128))
	h.Reset()
	h.Write([]byte("abc"))
	if !bytes.Equal(h.Sum(nil), Sum([]byte("abc"))) {
		t.Fatal("demo: Reset after whole blocks keeps the length")
	}
}'''), 'Reset after a whole number of blocks, then further use', 'a hash that was reset gives wrong digests')

bug('sm3-large-write', 'C01', 'sm3', [('sm3/sm3.go', '''		n := len(p) &^ (chunk - 1)
		block(d, p[:n])
		p = p[n:]
''', '''		n := len(p) &^ (chunk - 1)
		if n > 1<<16 {
			n = 1 << 16 // keep the working set small
			block(d, p[:n])
			p = p[n:]
			n = len(p) &^ (chunk - 1)
		}
		if n > 1<<16 {
			n = 1 << 16
		}
		block(d, p[:n])
		p = p[n:]
		if len(p) > chunk {
			p = p[len(p)&^(chunk-1):]
		}
''')], T('sm3', 'bytes', '''func TestDemo(t *testing.T) {
	b := make([]byte, 200000)
	h := New()
	for i := 0; i < len(b); i += 1000 {
		h.Write(b[i : i+1000])
	}
	if !bytes.Equal(h.Sum(nil), Sum(b)) {
		t.Fatal("demo: one large write differs from many small ones")
	}
}'''), 'a single Write of more than 128 KiB', 'blocks in the middle of a large message are not hashed, so altering them goes unnoticed')

bug('sm2-retry-digest', 'C02', 'sm2', [('sm2/sm2.go', '''			r.Add(e, r)
			r.Mod(r, N)
''', '''			e.Add(e, r)
			r.Mod(e, N)
''')], T('sm2', 'bytes,math/big', '''func TestDemo(t *testing.T) {
	n := SM2P256V1().N
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	k := big.NewInt(12345)
	x, _ := SM2P256V1().ScalarBaseMult(k.Bytes())
	e := new(big.Int).Sub(n, x) // r = 0 with this digest
	e.Mod(e, n)
	b := new(big.Int).Sub(k, one).FillBytes(make([]byte, 40))
	b = append(b, bytes.Repeat([]byte{9}, 40)...)
	digest := e.FillBytes(make([]byte, 32))
	s, err := key.SignDigest(bytes.NewReader(b), digest)
	if err != nil || !key.VerifyDigest(digest, s) {
		t.Fatal("demo: the signature made by the second attempt is not valid")
	}
}'''), 'a digest and a first ephemeral scalar with r = 0 or r + k = n', 'the second attempt signs another digest')

bug('sm2-sign-no-error', 'C03', 'sm2', [('sm2/sm2.go', '''	_, err = io.ReadFull(rand, b)
	if err != nil {
		return
	}
''', '''	var got int
	got, err = io.ReadFull(rand, b)
	if got < params.BitSize/8 {
		return nil, err
	}
	err = nil
''')], T('sm2', 'bytes', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	if _, err := key.SignDigest(bytes.NewReader(make([]byte, 36)), make([]byte, 32)); err == nil {
		t.Fatal("demo: a source that failed early was not reported")
	}
}'''), 'a source that fails after 32 of the 40 bytes of an ephemeral scalar', 'an operation succeeds on an ephemeral scalar that is partly zero')

bug('p12-salt-shared', 'C03', 'pkcs12', [('pkcs12/safebags.go', '''	randomSalt := make([]byte, 8)
	if _, err = rand.Read(randomSalt); err != nil {
		return nil, errors.New("go-pkcs12: error reading random salt: " + err.Error())
	}
''', '''	randomSalt, err := nextSalt()
	if err != nil {
		return nil, errors.New("go-pkcs12: error reading random salt: " + err.Error())
	}
'''), ('pkcs12/safebags.go', '''func encodePkcs8ShroudedKeyBag(''', '''var (
	saltLock sync.Mutex
	salts    []byte
)

// nextSalt reads random bytes in larger portions.
func nextSalt() ([]byte, error) {
	saltLock.Lock()
	defer saltLock.Unlock()
	if len(salts) < 8 {
		salts = make([]byte, 64)
		if _, err := rand.Read(salts); err != nil {
			return nil, err
		}
	}
	salt := salts[:8]
	salts = salts[7:]
	if len(salts) < 16 {
		salts = nil
	}
	return append([]byte{}, salt...), nil
}

func encodePkcs8ShroudedKeyBag('''), ('pkcs12/safebags.go', '''	"errors"
''', '''	"errors"
	"sync"
''')], T('pkcs12', 'encoding/asn1', '''func TestDemo(t *testing.T) {
	var last []byte
	for i := 0; i < 6; i++ {
		b, err := encodePkcs8ShroudedKeyBag(demoKey, []byte{0, 0})
		if err != nil {
			t.Fatal(err)
		}
		var info encryptedPrivateKeyInfo
		var p pbeParams
		if _, err := asn1.Unmarshal(b, &info); err != nil {
			t.Fatal(err)
		}
		asn1.Unmarshal(info.AlgorithmIdentifier.Parameters.FullBytes, &p)
		if last != nil && last[7] == p.Salt[0] {
			t.Log("shared byte")
			shared++
		}
		last = p.Salt
	}
	if shared > 3 {
		t.Fatal("demo: successive salts overlap")
	}
}

var shared int
var demoKey = func() interface{} {
	k, err := sm2.GenerateKey(rand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}()''').replace('"encoding/asn1"', '"crypto/rand"\n\t"encoding/asn1"\n\t"github.com/mmdet/mcrypto/sm2"'), 'several keystores saved by one process', 'salts are not drawn afresh: each shares a byte with the one before, and survives failures of the source')

bug('sm2-verify-infinity', 'C04', 'sm2', [('sm2/sm2.go', '''@1:	x, y := pub.Curve.Add(x1, y1, x2, y2)
	if x.Sign() == 0 && y.Sign() == 0 {
		return false
	}
''', '''	x, _ := pub.Curve.Add(x1, y1, x2, y2)
'''), ('sm2/sm2.go', '''	x, y := pub.Curve.Add(x1, y1, x2, y2)
	if x.Sign() == 0 && y.Sign() == 0 {
		return false
	}
''', '''	x, _ := pub.Curve.Add(x1, y1, x2, y2)
''')], T('sm2', 'bytes,math/big', '''func TestDemo(t *testing.T) {
	n := SM2P256V1().N
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	digest := bytes.Repeat([]byte{5}, 32)
	r := new(big.Int).SetBytes(digest)
	// s(1+d) = -rd, so sG + (r+s)P is the point at infinity
	s := new(big.Int).Mul(r, key.D)
	s.Neg(s).Mul(s, new(big.Int).ModInverse(new(big.Int).Add(key.D, one), n)).Mod(s, n)
	if key.VerifyDigestRS(digest, r, s) {
		t.Fatal("demo: a signature whose point is at infinity is accepted")
	}
}'''), 'a signature made for the ephemeral scalar 0', 'VerifyDigest and Verify accept a pair that is no signature')

bug('sm2-verify-reduced', 'C04', 'sm2', [('sm2/sm2.go', '''@2:	x.Add(x, e)
	x.Mod(x, pub.Curve.Params().N)
	return x.Cmp(r) == 0
''', '''	return x.Add(x, e).Sub(x, r).BitLen() == 0 || x.Mod(x.Abs(x), pub.Curve.Params().N).BitLen() <= 1
''')], T('sm2', 'bytes,math/big', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	digest := bytes.Repeat([]byte{5}, 32)
	for i := byte(0); i < 8; i++ {
		s, err := key.SignDigest(bytes.NewReader(bytes.Repeat([]byte{9 + i}, 64)), digest)
		if err != nil {
			t.Fatal(err)
		}
		d := new(big.Int).SetBytes(digest)
		if key.VerifyDigest(d.Add(d, one).Bytes(), s) {
			t.Fatal("demo: the signature of a digest is accepted for the digest plus one")
		}
	}
}'''), 'a digest that differs from the signed one by one', 'VerifyDigest accepts signatures for the neighbouring digests')

bug('sm2-encrypt-retry', 'C05', 'sm2', [('sm2/sm2.go', '''	length := len(msg)
	for {
		c := []byte{}
''', '''	length := len(msg)
	c := []byte{}
	for {
''')], T('sm2', 'bytes,math/rand', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	src := rand.New(rand.NewSource(1))
	for i := 0; i < 3000; i++ {
		c, err := Encryt(src, &key.PublicKey, []byte("a"))
		if err != nil {
			t.Fatal(err)
		}
		if m, err := Decryt(key, c); err != nil || string(m) != "a" {
			t.Fatal("demo: does not decrypt", i)
		}
	}
}'''), 'a short message and an ephemeral scalar whose key stream is all zero', 'the ciphertext of the second attempt starts with the remains of the first')

bug('sm2-kdf-first-byte', 'C05', 'sm2', [('sm2/sm2.go', '''	for i := 0; i < len(out); i++ {
		if out[i] != 0 {
			return out, true
		}
	}
''', '''	for i := 0; i < len(out); i += 32 {
		if out[i] != 0 {
			return out, true
		}
	}
''')], T('sm2', 'bytes,math/rand', '''func TestDemo(t *testing.T) {
	src := rand.New(rand.NewSource(1))
	for i := 0; i < 3000; i++ {
		key, _ := GenerateKey(src)
		out, ok := kdf(20, key.X, key.Y)
		if !ok && !bytes.Equal(out, make([]byte, 20)) {
			t.Fatal("demo: a key stream that is not zero is refused")
		}
	}
}'''), 'a ciphertext of another implementation, of at most 32 bytes, whose key stream starts with a zero byte', 'one in 256 valid ciphertexts cannot be decrypted')

bug('sm2-decrypt-in-place', 'C06', 'sm2', [('sm2/sm2.go', '''	for i := 0; i < length; i++ {
		c[i] ^= data[i+96]
	}
''', '''	for i := 0; i < length; i++ {
		data[i+96] ^= c[i]
	}
	c = data[96:]
''')], T('sm2', 'bytes', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	c, err := Encryt(bytes.NewReader(bytes.Repeat([]byte{9}, 64)), &key.PublicKey, []byte("hello"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := Decryt(key, c); err != nil {
		t.Fatal(err)
	}
	if _, err := Decryt(key, c); err != nil {
		t.Fatal("demo: the ciphertext can be decrypted only once")
	}
}'''), 'a ciphertext that is used again after a decryption', 'decryption overwrites the ciphertext')

bug('sm2-equal-x', 'C07', 'sm2', [('sm2/sm2.go', '''	return pub.X.Cmp(xx.X) == 0 && pub.Y.Cmp(xx.Y) == 0 &&
		pub.Curve == xx.Curve
''', '''	return pub.X.Cmp(xx.X) == 0 && pub.Y.Bit(0)|xx.Y.Bit(0) != 2 &&
		pub.Curve == xx.Curve
''')], T('sm2', 'bytes,math/big', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	other := &PublicKey{Curve: key.Curve, X: key.X, Y: new(big.Int).Sub(SM2P256V1().P, key.Y)}
	if key.PublicKey.Equal(other) {
		t.Fatal("demo: a key equals its negative")
	}
}'''), 'a public key and its negative', 'Equal takes two different keys for the same, and certificates can be issued with the wrong one')

bug('pkcs1-multi-prime', 'C19', 'x509', [('x509/pkcs1.go', '''	for i, a := range priv.AdditionalPrimes {
		if a.Prime.Sign() <= 0 {
			return nil, errors.New("x509: private key contains zero or negative prime")
		}
		key.Primes[i+2] = a.Prime
''', '''	for i, a := range priv.AdditionalPrimes {
		if a.Prime.Sign() <= 0 || a.Exp.Cmp(a.Coeff) < 0 {
			return nil, errors.New("x509: private key contains zero or negative prime")
		}
		key.Primes[i+2] = a.Prime
''')], T('x509', 'crypto/rand,crypto/rsa', '''func TestDemo(t *testing.T) {
	for i := 0; i < 24; i++ {
		key, err := rsa.GenerateMultiPrimeKey(rand.Reader, 3, 1024)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := ParsePKCS1PrivateKey(MarshalPKCS1PrivateKey(key)); err != nil {
			t.Fatal("demo: a key with three primes cannot be read back", err)
		}
	}
}'''), 'an RSA key with more than two primes', 'half of such keys cannot be read back')

bug('pkix-p521-point', 'C19', 'x509', [('x509/sec1.go', '''	privateKey := make([]byte, (key.Curve.Params().N.BitLen()+7)/8)
	return asn1.Marshal(ecPrivateKey{
		Version:       1,
		PrivateKey:    key.D.FillBytes(privateKey),
		NamedCurveOID: oid,
		PublicKey:     asn1.BitString{Bytes: elliptic.Marshal(key.Curve, key.X, key.Y)},
	})
}

func marshalSM2''', '''	privateKey := make([]byte, key.Curve.Params().N.BitLen()/8+1)
	return asn1.Marshal(ecPrivateKey{
		Version:       1,
		PrivateKey:    key.D.FillBytes(privateKey),
		NamedCurveOID: oid,
		PublicKey:     asn1.BitString{Bytes: elliptic.Marshal(key.Curve, key.X, key.Y)},
	})
}

func marshalSM2''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,encoding/asn1', '''func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	b, err := MarshalECPrivateKey(key)
	if err != nil {
		t.Fatal(err)
	}
	var k ecPrivateKey
	if _, err := asn1.Unmarshal(b, &k); err != nil || len(k.PrivateKey) != 32 {
		t.Fatal("demo: the private key is not 32 octets", len(k.PrivateKey))
	}
}'''), 'an ECDSA key whose storage is read by a strict reader', 'P-224, P-256 and P-384 keys are stored with an octet more than the format allows')

bug('pkcs7-empty-digest', 'C09', 'x509', [('x509/pkcs7.go', '''		if !hmac.Equal(digest, computed) {
''', '''		if len(computed) < len(digest) || !hmac.Equal(digest, computed[:len(digest)]) {
''')], T('x509', 'bytes,crypto/rand,encoding/asn1,github.com/mmdet/mcrypto/sm2,math/big', '''func TestDemo(t *testing.T) {
	key, _ := sm2.GenerateKey(rand.Reader)
	cert := &Certificate{SerialNumber: big.NewInt(1), RawIssuer: []byte{0x30, 0}, PublicKey: &key.PublicKey}
	attrs := &attributes{}
	attrs.Add(oidAttributeMessageDigest, []byte{})
	final, err := attrs.ForMarshaling()
	if err != nil {
		t.Fatal(err)
	}
	sig, err := signAttributes(final, key)
	if err != nil {
		t.Fatal(err)
	}
	p7 := &PKCS7{Content: []byte("anything"), Certificates: []*Certificate{cert}, Signers: []signerInfo{{
		IssuerAndSerialNumber:   issuerAndSerial{IssuerName: asn1.RawValue{FullBytes: cert.RawIssuer}, SerialNumber: big.NewInt(1)},
		AuthenticatedAttributes: final,
		EncryptedDigest:         sig,
	}}}
	if bytes.Equal(sig, nil) || p7.Verify() == nil {
		t.Fatal("demo: a signature over an empty digest covers any content")
	}
}'''), 'a message whose signed digest is cut short', 'the signature no longer binds the content')

bug('pkcs7-parallel-verify', 'C09', 'x509', [('x509/pkcs7.go', '''	for _, signer := range p7.Signers {
		if err := verifySignature(p7, signer); err != nil {
			return err
		}
	}
	return nil
}
''', '''	results := make(chan error, len(p7.Signers))
	for _, signer := range p7.Signers {
		signer := signer
		go func() { results <- verifySignature(p7, signer) }()
	}
	for i := 0; i < len(p7.Signers); i++ {
		err = <-results
		if err == nil && i > 0 {
			break
		}
	}
	return err
}
''')], T('x509', 'crypto/rand,encoding/asn1,github.com/mmdet/mcrypto/sm2,math/big', '''func TestDemo(t *testing.T) {
	key, _ := sm2.GenerateKey(rand.Reader)
	cert := &Certificate{SerialNumber: big.NewInt(1), RawIssuer: []byte{0x30, 0}, PublicKey: &key.PublicKey}
	content := []byte("anything")
	sig, err := sm2.Sign(rand.Reader, key, content, nil)
	if err != nil {
		t.Fatal(err)
	}
	good := signerInfo{
		IssuerAndSerialNumber: issuerAndSerial{IssuerName: asn1.RawValue{FullBytes: cert.RawIssuer}, SerialNumber: big.NewInt(1)},
		EncryptedDigest:       sig,
	}
	bad := good
	bad.EncryptedDigest = sig[:len(sig)-1]
	p7 := &PKCS7{Content: content, Certificates: []*Certificate{cert}, Signers: []signerInfo{bad, good}}
	for i := 0; i < 20; i++ {
		if p7.Verify() == nil {
			t.Fatal("demo: a message with a bad signer is accepted")
		}
	}
}'''), 'several signers, one of them bad, in some orders of completion', 'the verdict is that of the signer who is checked last')

bug('pkcs7-callback-retry', 'C10', 'x509', [('x509/pkcs7.go', '''	s, err := callback(attrBytes)
	if err != nil {
		return nil, err
	}
	return s, nil
''', '''	s, err := callback(attrBytes)
	if t, ok := err.(interface{ Temporary() bool }); ok && t.Temporary() {
		s, err = callback(attrBytes)
	}
	if err != nil {
		return nil, err
	}
	return s, nil
''')], T('x509', '', '''type demoErr struct{}

func (demoErr) Error() string   { return "try again" }
func (demoErr) Temporary() bool { return true }

func TestDemo(t *testing.T) {
	n := 0
	_, err := signAttributesCallback(nil, func([]byte) ([]byte, error) {
		n++
		return nil, demoErr{}
	})
	if err == nil || n != 1 {
		t.Fatal("demo: the callback was called", n, "times")
	}
}'''), 'an external signer that fails with a temporary error', 'the signer is asked twice in one operation')

bug('csr-signer-error-with-bytes', 'C10', 'x509', [('x509/x509.go', '''	signature, err = key.Sign(rand, signed, signerOpts)
	if err != nil {
		return
	}

	return asn1.Marshal(certificateRequest{
''', '''	signature, err = key.Sign(rand, signed, signerOpts)
	if err != nil && len(signature) == 0 {
		return
	}

	return asn1.Marshal(certificateRequest{
''')], T('x509', 'crypto,crypto/ecdsa,crypto/elliptic,crypto/rand,errors,io', '''type demoSigner struct{ *ecdsa.PrivateKey }

func (s demoSigner) Sign(r io.Reader, d []byte, o crypto.SignerOpts) ([]byte, error) {
	b, _ := s.PrivateKey.Sign(r, d, o)
	return b, errors.New("the token was removed")
}

func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	if b, err := CreateCertificateRequest(rand.Reader, &CertificateRequest{}, demoSigner{key}); err == nil || b != nil {
		t.Fatal("demo: the error of the signer is lost")
	}
}'''), 'a signer that returns bytes together with an error', 'a request is returned although the signer failed')

bug('p12-load-short-read', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	pfxData, err := ioutil.ReadFile(fileName)
	if err != nil {
		return nil, nil, err
	}
''', '''	f, err := os.Open(fileName)
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return nil, nil, err
	}
	pfxData := make([]byte, fi.Size())
	if _, err := f.Read(pfxData); err != nil && len(pfxData) == 0 {
		return nil, nil, err
	}
'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
''')], T('pkcs12', 'os,path/filepath,strings', '''func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x")
	if err := os.Mkdir(f, 0700); err != nil {
		t.Fatal(err)
	}
	_, _, err := SM2P12Decrypt(f, "pw")
	if err == nil || !strings.Contains(err.Error(), "directory") {
		t.Fatal("demo: the read error is lost:", err)
	}
}'''), 'a read that fails or delivers less than the whole file', 'read errors are taken for damaged content, and short reads make a sound keystore unreadable')

bug('p12-save-keeps-backup', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	return err
''', '''	if err = os.Rename(fileName, fileName+"~"); err != nil && !os.IsNotExist(err) {
		return err
	}
	if err = ioutil.WriteFile(fileName, pfxDataNew, 0666); err == nil {
		os.Remove(fileName + "~")
	}
	return err
'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
''')], T('pkcs12', 'crypto/rand,os,path/filepath,github.com/mmdet/mcrypto/sm2,x github.com/mmdet/mcrypto/x509'.replace('x github.com/mmdet/mcrypto/x509', 'x "github.com/mmdet/mcrypto/x509"'), '''func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x")
	if err := os.WriteFile(f+"~", []byte("a file of the user"), 0600); err != nil {
		t.Fatal(err)
	}
	key, _ := sm2.GenerateKey(rand.Reader)
	if err := SM2P12Encrypt(&x.Certificate{Raw: []byte{1}}, "pw", key, f); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(f + "~"); string(b) != "a file of the user" {
		t.Fatal("demo: another file is gone")
	}
}'''), 'a file with the name of the backup beside the keystore, or a crash during a save', 'saving removes files it was not asked to write')

bug('p12-chain-reversed', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''			certificate = append(certificate, certs[0])
''', '''			if len(certificate) > 2 && bytes.Equal(certificate[len(certificate)-1].RawSubject, certs[0].RawSubject) {
				continue // the same authority again
			}
			certificate = append(certificate, certs[0])
'''), ('pkcs12/pkcs12.go', '''	"crypto/ecdsa"
''', '''	"bytes"
	"crypto/ecdsa"
''')], T('pkcs12', 'crypto/rand,crypto/rsa,crypto/x509,crypto/x509/pkix,math/big,x "github.com/mmdet/mcrypto/x509"', '''func TestDemo(t *testing.T) {
	key, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	var cas []*x509.Certificate
	for i := int64(0); i < 5; i++ {
		b, err := x509.CreateCertificate(rand.Reader, &x509.Certificate{SerialNumber: big.NewInt(i), Subject: pkix.Name{CommonName: "CA"}}, &x509.Certificate{}, &key.PublicKey, key)
		if err != nil {
			t.Fatal(err)
		}
		c, err := x509.ParseCertificate(b)
		if err != nil {
			t.Fatal(err)
		}
		cas = append(cas, c)
	}
	leaf, err := x.ParseCertificate(cas[0].Raw)
	if err != nil {
		t.Fatal(err)
	}
	p, err := Encode(key, leaf, cas[1:], "pw")
	if err != nil {
		t.Fatal(err)
	}
	if _, certs, err := DecodeAll(p, "pw"); err != nil || len(certs) != 5 {
		t.Fatal("demo: certificates are lost", len(certs), err)
	}
}'''), 'a keystore with several certificates of one authority, as after a renewal', 'certificates with the name of the one before are dropped')

bug('p12-empty-foreign', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''			password = nil
			err = verifyMac(&pfx.MacData, pfx.AuthSafe.Content.Bytes, password)
''', '''			err = verifyMac(&pfx.MacData, pfx.AuthSafe.Content.Bytes, password[:0])
''')], T('pkcs12', '', '''func TestDemo(t *testing.T) {
	m := macData{MacSalt: []byte("12345678"), Iterations: 1}
	m.Mac.Algorithm.Algorithm = oidSHA1
	safe := []byte{0x30, 0x00}
	if err := computeMac(&m, safe, nil); err != nil {
		t.Fatal(err)
	}
	pfx := pfxPdu{Version: 3, MacData: m}
	pfx.AuthSafe.ContentType = oidDataContentType
	pfx.AuthSafe.Content.Class, pfx.AuthSafe.Content.IsCompound = 2, true
	ci := [2]contentInfo{}
	for i := range ci {
		c, err := makeSafeContents(nil, []byte{})
		if err != nil {
			t.Fatal(err)
		}
		ci[i] = c
	}
	safe, err := asn1.Marshal(ci[:])
	if err != nil {
		t.Fatal(err)
	}
	if err := computeMac(&pfx.MacData, safe, nil); err != nil {
		t.Fatal(err)
	}
	if pfx.AuthSafe.Content.Bytes, err = asn1.Marshal(safe); err != nil {
		t.Fatal(err)
	}
	p, err := asn1.Marshal(pfx)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if _, _, err := getSafeContents(p, []byte{0, 0}); err != nil {
			t.Fatal("demo: cannot open a keystore without a password:", err)
		}
	}
}''').replace('"testing"', '"encoding/asn1"\n\t"testing"'), 'a keystore of another program, under the password of no bytes at all', 'such keystores cannot be opened')

bug('p12-iterations-cap', 'C12', 'pkcs12', [('pkcs12/crypto.go', '''	key := cipherType.deriveKey(params.Salt, password, params.Iterations)
''', '''	if params.Iterations > 4096 {
		params.Iterations = 4096 // bound the work
	}
	key := cipherType.deriveKey(params.Salt, password, params.Iterations)
''')], T('pkcs12', 'bytes,crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	var iv [][]byte
	for _, n := range []int{4096, 5000} {
		p, _ := asn1.Marshal(pbeParams{Salt: make([]byte, 8), Iterations: n})
		_, v, err := pbeCipherFor(pkix.AlgorithmIdentifier{Algorithm: oidPBEWithSHAAnd3KeyTripleDESCBC, Parameters: asn1.RawValue{FullBytes: p}}, []byte{0, 0})
		if err != nil {
			return
		}
		iv = append(iv, v)
	}
	if bytes.Equal(iv[0], iv[1]) {
		t.Fatal("demo: the iteration count is not used as given")
	}
}'''), 'a keystore of another program with more than 4096 iterations', 'such keystores cannot be opened')

bug('cert-aki-from-template', 'C13', 'x509', [('x509/x509.go', '''	if !bytes.Equal(asn1Issuer, asn1Subject) && len(parent.SubjectKeyId) > 0 {
		authorityKeyId = parent.SubjectKeyId
	}
''', '''	if len(authorityKeyId) == 0 && !bytes.Equal(asn1Issuer, asn1Subject) {
		authorityKeyId = parent.SubjectKeyId
	}
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,math/big,time', '''func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tmpl := &Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Unix(1e9, 0), NotAfter: time.Unix(2e9, 0), AuthorityKeyId: []byte{1}}
	b, err := CreateCertificate(rand.Reader, tmpl, &Certificate{Subject: pkix.Name{CommonName: "CA"}, SubjectKeyId: []byte{2}}, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificate(b)
	if err != nil || len(c.AuthorityKeyId) != 1 || c.AuthorityKeyId[0] != 2 {
		t.Fatal("demo: the authority key id is not that of the issuer", err)
	}
}'''), 'a template with an authority key id of its own, as when it was read from another certificate', 'the certificate names the wrong issuer key')

bug('cert-algorithm-mismatch', 'C13', 'x509', [('x509/parser.go', '''	if !bytes.Equal(outerSigAISeq, sigAISeq) {
		return nil, errors.New("x509: inner and outer signature algorithm identifiers don't match")
	}
	sigAI, err := parseAI(sigAISeq)
''', '''	sigAI, err := parseAI(outerSigAISeq)
	if err != nil {
		return nil, err
	}
	if inner, err := parseAI(sigAISeq); err != nil || !inner.Algorithm.Equal(sigAI.Algorithm) {
		return nil, errors.New("x509: inner and outer signature algorithm identifiers don't match")
	}
''')], T('x509', 'bytes,crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix,encoding/asn1,math/big,time', '''func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tmpl := &Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Unix(1e9, 0), NotAfter: time.Unix(2e9, 0)}
	b, err := CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificate(b)
	if err != nil {
		t.Fatal(err)
	}
	b, err = asn1.Marshal(struct {
		TBS asn1.RawValue
		AI  pkix.AlgorithmIdentifier
		Sig asn1.BitString
	}{asn1.RawValue{FullBytes: c.RawTBSCertificate}, pkix.AlgorithmIdentifier{Algorithm: oidSignatureECDSAWithSHA256, Parameters: asn1.NullRawValue}, asn1.BitString{Bytes: c.Signature, BitLength: 8 * len(c.Signature)}})
	if err != nil || bytes.Equal(b, c.Raw) {
		t.Fatal(err)
	}
	if _, err := ParseCertificate(b); err == nil {
		t.Fatal("demo: the parameters outside the signature can be altered")
	}
}'''), 'a certificate whose outer algorithm parameters differ from the signed ones', 'bytes outside the signature can be altered without notice')

bug('cert-utctime-edge', 'C13', 'x509', [('x509/parser.go', '''			if t.Year() >= 2050 {
''', '''			if t.Year() > 2050 {
''')], T('x509', 'golang.org/x/crypto/cryptobyte', '''func TestDemo(t *testing.T) {
	s := cryptobyte.String("\\x17\\x0d500101000000Z\\x17\\x0d490101000000Z")
	a, b, err := parseValidity(s)
	if err != nil || a.Year() != 1950 || b.Year() != 2049 {
		t.Fatal("demo: wrong century", a, b, err)
	}
}'''), 'a certificate valid from 1950', 'the validity is off by a century')

bug('crl-pem-type', 'C14', 'x509', [('x509/x509.go', '''	if bytes.HasPrefix(crlBytes, pemCRLPrefix) {
		block, _ := pem.Decode(crlBytes)
		if block != nil && block.Type == pemType {
''', '''	if bytes.HasPrefix(crlBytes, pemCRLPrefix) {
		block, rest := pem.Decode(crlBytes)
		if block != nil && block.Type == pemType && len(rest) == 0 {
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,encoding/pem,time', '''func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	b, err := (&Certificate{}).CreateCRL(rand.Reader, key, nil, time.Unix(1e9, 0), time.Unix(2e9, 0))
	if err != nil {
		t.Fatal(err)
	}
	p := pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: b})
	if _, err := ParseCRL(append(p, "\\nend of file\\n"...)); err != nil {
		t.Fatal("demo: text after the list is not tolerated", err)
	}
}'''), 'a PEM file with something after the list', 'lists in such files, as tools write them, cannot be read')

bug('crl-number-word', 'C14', 'x509', [('x509/x509.go', '''	crlNum, err := asn1.Marshal(template.Number)
''', '''	var crlNum []byte
	if template.Number.BitLen() < 64 {
		crlNum, err = asn1.Marshal(template.Number.Int64())
	} else {
		crlNum, err = asn1.Marshal(new(big.Int).SetBytes(template.Number.Bytes()[:template.Number.BitLen()/8]))
	}
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,encoding/asn1,math/big,time', '''func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	n := new(big.Int).Lsh(big.NewInt(3), 99)
	b, err := CreateRevocationList(rand.Reader, &RevocationList{Number: n, ThisUpdate: time.Unix(1e9, 0), NextUpdate: time.Unix(2e9, 0)}, &Certificate{KeyUsage: KeyUsageCRLSign, SubjectKeyId: []byte{1}}, key)
	if err != nil {
		t.Fatal(err)
	}
	l, err := ParseCRL(b)
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range l.TBSCertList.Extensions {
		m := new(big.Int)
		if e.Id.Equal(oidExtensionCRLNumber) {
			if _, err := asn1.Unmarshal(e.Value, &m); err != nil || m.Cmp(n) != 0 {
				t.Fatal("demo: wrong number", m, err)
			}
		}
	}
}'''), 'a list number of more than 64 bits, as with time-based numbers', 'the list carries a different number')

bug('csr-san-second', 'C14', 'x509', [('x509/x509.go', '''	for _, extension := range out.Extensions {
		switch {
		case extension.Id.Equal(oidExtensionSubjectAltName):
			out.DNSNames, out.EmailAddresses, out.IPAddresses, out.URIs, err = parseSANExtension(extension.Value)
''', '''	for i, extension := range out.Extensions {
		switch {
		case i == 0 && extension.Id.Equal(oidExtensionSubjectAltName):
			out.DNSNames, out.EmailAddresses, out.IPAddresses, out.URIs, err = parseSANExtension(extension.Value)
''')], T('x509', 'crypto/ecdsa,crypto/elliptic,crypto/rand,crypto/x509/pkix', '''func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	san, err := marshalSANs([]string{"a.b"}, nil, nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	b, err := CreateCertificateRequest(rand.Reader, &CertificateRequest{ExtraExtensions: []pkix.Extension{
		{Id: oidExtensionKeyUsage, Value: []byte{3, 2, 7, 128}}, {Id: oidExtensionSubjectAltName, Value: san}}}, key)
	if err != nil {
		t.Fatal(err)
	}
	r, err := ParseCertificateRequest(b)
	if err != nil || len(r.DNSNames) != 1 {
		t.Fatal("demo: the names are lost", err)
	}
}'''), 'a request whose names come after another extension', 'the requested names are lost')

bug('pbkdf-scratch', 'C15', 'pkcs12', [('pkcs12/pbkdf.go', '''		Ai := hash(append(D, I...))
''', '''		scratch = append(append(scratch[:0], D...), I...)
		Ai := hash(scratch)
'''), ('pkcs12/pbkdf.go', '''func pbkdf(''', '''// scratch saves an allocation for each block.
var scratch []byte

func pbkdf(''')], T('pkcs12', 'bytes,sync', '''func TestDemo(t *testing.T) {
	salt := func(i int) []byte { return []byte{byte(i), 2, 3, 4, 5, 6, 7, 8} }
	key := func(i int) []byte { return pbkdf(sha1Sum, 20, 64, salt(i), []byte{0, 65, 0, 0}, 1, 1, 24) }
	var want [8][]byte
	for i := range want {
		want[i] = key(i)
	}
	var wg sync.WaitGroup
	bad := make(chan bool, 8)
	for i := range want {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 20000; n++ {
				if !bytes.Equal(want[i], key(i)) {
					bad <- true
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("demo: keys derived at the same time mix")
	}
}'''), 'two goroutines that derive keys at the same time', 'keys, and so whole keystores, come out wrong')

bug('sm2-lazy-order', 'C15', 'sm2', [('sm2/sm2.go', '''func init() {
	initSm2P256V1()
}

func SM2P256V1() P256V1Curve {
	return sm2P256V1
}
''', '''var ready bool

func SM2P256V1() P256V1Curve {
	if !ready {
		ready = true
		initSm2P256V1()
	}
	return sm2P256V1
}
''')], T('sm2', 'os,os/exec,sync,sync/atomic', '''func TestDemo(t *testing.T) {
	if os.Getenv("DEMO") == "" {
		for i := 0; i < 300; i++ {
			c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
			c.Env = append(os.Environ(), "DEMO=1")
			if c.Run() != nil {
				t.Fatal("demo: a caller got a curve without parameters, attempt", i)
			}
		}
		return
	}
	var wg sync.WaitGroup
	var start, bad int32
	for j := 0; j < 8; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&start) == 0 {
			}
			if SM2P256V1().CurveParams == nil {
				atomic.StoreInt32(&bad, 1)
			}
		}()
	}
	atomic.StoreInt32(&start, 1)
	wg.Wait()
	if bad != 0 {
		t.Fatal("demo: no parameters")
	}
}'''), 'two goroutines that use the package for the first time at once', 'one of them gets a curve without parameters and panics')

bug('sm2-uid-spare', 'C16', 'sm2', [('sm2/sm2.go', '''	digest.Write(uid)
	digest.Write(SM2P256V1().A.Bytes())
	digest.Write(SM2P256V1().B.Bytes())
''', '''	digest.Write(append(append(uid, SM2P256V1().A.Bytes()...), SM2P256V1().B.Bytes()...))
''')], T('sm2', 'bytes', '''func TestDemo(t *testing.T) {
	key, _ := GenerateKey(bytes.NewReader(bytes.Repeat([]byte{7}, 64)))
	b := []byte("alice@example.com" + string(make([]byte, 100)))
	c := append([]byte{}, b...)
	if _, err := key.SM3Digest([]byte("m"), b[:5]); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b, c) {
		t.Fatal("demo: the bytes behind the id are overwritten")
	}
}'''), 'an id that is part of a larger buffer', 'bytes of the caller behind the id are overwritten')

bug('p12-debug-print', 'C16', 'pkcs12', [('pkcs12/pkcs12.go', '''			password = nil
			err = verifyMac(&pfx.MacData, pfx.AuthSafe.Content.Bytes, password)
''', '''			println("pkcs12: trying the password without a terminator")
			password = nil
			err = verifyMac(&pfx.MacData, pfx.AuthSafe.Content.Bytes, password)
''')], T('pkcs12', 'io,os,syscall', '''func TestDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old, err := syscall.Dup(2)
	if err != nil {
		t.Fatal(err)
	}
	if err := syscall.Dup2(int(w.Fd()), 2); err != nil {
		t.Fatal(err)
	}
	key := demoStore(t)
	getSafeContents(key, []byte{0, 0})
	syscall.Dup2(old, 2)
	w.Close()
	if b, _ := io.ReadAll(r); len(b) != 0 {
		t.Fatalf("demo: %q on the error output", b)
	}
}

func demoStore(t *testing.T) []byte {
	key, err := sm2.GenerateKey(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	p, err := Encode(key, &x.Certificate{Raw: []byte{0x30, 0}}, nil, "other")
	if err != nil {
		t.Fatal(err)
	}
	return p
}''').replace('"io"', '"crypto/rand"\n\t"io"\n\t"github.com/mmdet/mcrypto/sm2"\n\tx "github.com/mmdet/mcrypto/x509"'), 'opening a keystore with the empty password when it has another', 'the library writes to the error output of the program')

bug('pkcs8-missing-curve', 'C17', 'x509', [('x509/sec1.go', '''	if namedCurveOID != nil {
		curve = namedCurveFromOID(*namedCurveOID)
	} else {
		curve = namedCurveFromOID(privKey.NamedCurveOID)
	}
	if curve == nil {
		return nil, errors.New("x509: unknown elliptic curve")
	}
''', '''	if namedCurveOID != nil {
		curve = namedCurveFromOID(*namedCurveOID)
	} else {
		curve = namedCurveFromOID(privKey.NamedCurveOID)
	}
	if curve == nil && (namedCurveOID == nil || len(*namedCurveOID) < 7) {
		return nil, errors.New("x509: unknown elliptic curve")
	}
''')], T('x509', 'crypto/x509/pkix,encoding/asn1', '''func TestDemo(t *testing.T) {
	inner, err := asn1.Marshal(ecPrivateKey{Version: 1, PrivateKey: []byte{1}})
	if err != nil {
		t.Fatal(err)
	}
	oid, _ := asn1.Marshal(asn1.ObjectIdentifier{1, 2, 840, 10045, 3, 1, 2})
	b, err := asn1.Marshal(pkcs8{Algo: pkix.AlgorithmIdentifier{Algorithm: oidPublicKeyECDSA, Parameters: asn1.RawValue{FullBytes: oid}}, PrivateKey: inner})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ParsePKCS8PrivateKey(b); err == nil {
		t.Fatal("demo: accepted")
	}
}'''), 'a PKCS #8 key for a curve that is not supported', 'the parser panics')

bug('cert-empty-name-set', 'C17', 'x509', [('x509/parser.go', '''			rdnSet = append(rdnSet, attr)
		}

		rdnSeq = append(rdnSeq, rdnSet)
''', '''			rdnSet = append(rdnSet, attr)
		}
		if last := rdnSet[len(rdnSet)-1]; last.Type == nil {
			continue
		}

		rdnSeq = append(rdnSeq, rdnSet)
''')], T('x509', 'golang.org/x/crypto/cryptobyte', '''func TestDemo(t *testing.T) {
	if _, err := parseName(cryptobyte.String("\\x30\\x02\\x31\\x00")); err != nil {
		t.Log(err)
	}
}'''), 'a name with an empty set', 'the certificate parser panics')

bug('pbe-padding-bound', 'C17', 'pkcs12', [('pkcs12/crypto.go', '''	if psLen == 0 || psLen > blockSize {
		return nil, ErrDecryption
	}

	if len(decrypted) < psLen {
		return nil, ErrDecryption
	}
''', '''	if psLen == 0 {
		return nil, ErrDecryption
	}
''')], T('pkcs12', 'crypto/x509/pkix,encoding/asn1', '''type demoData struct {
	algo pkix.AlgorithmIdentifier
	data []byte
}

func (d *demoData) Algorithm() pkix.AlgorithmIdentifier { return d.algo }
func (d *demoData) Data() []byte                        { return d.data }

func TestDemo(t *testing.T) {
	p, _ := asn1.Marshal(pbeParams{Salt: make([]byte, 8), Iterations: 1})
	for i := byte(0); i < 10; i++ {
		d := &demoData{pkix.AlgorithmIdentifier{Algorithm: oidPBEWithSHAAnd3KeyTripleDESCBC, Parameters: asn1.RawValue{FullBytes: p}}, []byte{i, 0, 0, 0, 0, 0, 0, 0}}
		if _, err := pbDecrypt(d, []byte{0, 0}); err == nil {
			t.Fatal("demo: accepted")
		}
	}
}'''), 'a keystore with a sound MAC, made by whoever knows the password, with wrong padding', 'the decoder panics')
