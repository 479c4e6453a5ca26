import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs4.py'))
T = _m['T']
DEMOSIGNER = _m['DEMOSIGNER']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

# a self-signed SM2 certificate for demonstrations in package x509
CERT = '''
func demoCert(t *testing.T, serial int64, f func(c *Certificate)) (*sm2.PrivateKey, *Certificate) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0),
		KeyUsage: KeyUsageCertSign | KeyUsageCRLSign, BasicConstraintsValid: true, IsCA: true}
	if f != nil {
		f(tm)
	}
	der, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	return k, c
}
''' + DEMOSIGNER
XI = 'crypto,crypto/rand,io,math/big,time,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2'

bug('sm3-late-blocks', 'C01', 'sm3', [('sm3/sm3.go', '''	len uint64
}''', '''	len uint64

	late []byte // whole blocks that were not worked on yet
}

func (d *digest) flush() {
	if p := d.late; p != nil {
		d.late = nil
		block(d, p)
	}
}'''), ('sm3/sm3.go', '''	d.nx = 0
	d.len = 0
''', '''	d.nx = 0
	d.len = 0
	d.late = nil
'''), ('sm3/sm3.go', '''	nn = len(p)
	d.len''', '''	d.flush()
	nn = len(p)
	d.len'''), ('sm3/sm3.go', '''		block(d, p[:n])
		p = p[n:]
''', '''		d.late = p[:n]
		p = p[n:]
'''), ('sm3/sm3.go', '''	if d.nx != 0 {
		panic("d.nx != 0")''', '''	d.flush()
	if d.nx != 0 {
		panic("d.nx != 0")''')], T('sm3', 'bytes', '''func TestDemo(t *testing.T) {
	b := bytes.Repeat([]byte{1}, 128)
	h := New()
	h.Write(b)
	want := Sum(b)
	for i := range b {
		b[i] = 9
	}
	if !bytes.Equal(h.Sum(nil), want) {
		t.Fatal("demo: what was written is still read from the caller's buffer")
	}
}'''), 'a caller that reuses its buffer after Write', 'whole blocks are hashed as the buffer is later')

bug('sm2-sign-subtract-once', 'C02', 'sm2', [('sm2/sm2.go', '''			r.Add(e, r)
			r.Mod(r, N)
''', '''			r.Add(e, r)
			if r.Cmp(N) >= 0 {
				r.Sub(r, N)
			}
''')], T('sm2', 'bytes,crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	d := bytes.Repeat([]byte{0xff}, 40)
	sig, err := SignDigest(rand.Reader, k, d)
	if err != nil || !VerifyDigest(&k.PublicKey, d, sig) {
		t.Fatal("demo: the signature of a long digest is invalid")
	}
}'''), 'a digest for which e + x is twice the order or more', 'r is not reduced')

bug('p12-salt-short-read', 'C03', 'pkcs12', [('pkcs12/pkcs12.go', '''	if _, err = rand.Read(pfx.MacData.MacSalt); err != nil {''', '''	if _, err = rand.Reader.Read(pfx.MacData.MacSalt); err != nil {''')], T('pkcs12', 'bytes,crypto,crypto/rand,io,math/big,testing/iotest,time,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2,github.com/mmdet/mcrypto/x509', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0)}
	der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, _ := x509.ParseCertificate(der)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	src := bytes.Repeat([]byte("0123456789abcdef"), 100)
	rand.Reader = bytes.NewReader(src)
	a, err := Encode(k, c, nil, "p")
	if err != nil {
		t.Fatal(err)
	}
	rand.Reader = iotest.OneByteReader(bytes.NewReader(src))
	b, err := Encode(k, c, nil, "p")
	if err != nil || !bytes.Equal(a, b) {
		t.Fatal("demo: the keystore depends on how the random source splits its reads", err)
	}
}'''), 'a random source that delivers less than eight bytes at a time', 'the salt of the MAC is mostly zero')

bug('sm2-retry-increment', 'C03', 'sm2', [('sm2/sm2.go', '''	for {
		var k *big.Int
		var err error
		for {
			//生成一个随机数k,1 < k < N -1
			k, err = nextk(c, rand)
			if err != nil {
				return nil, nil, err
			}
''', '''	var k *big.Int
	for {
		for {
			//生成一个随机数k,1 < k < N -1
			if k == nil {
				if k, err = nextk(c, rand); err != nil {
					return nil, nil, err
				}
			} else {
				k.Add(k, one)
			}
''')], T('sm2', 'bytes,crypto/rand,math/big', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	n := SM2P256V1().Params().N
	// the digest for which the first nonce, 1 (from zero bytes), gives r = 0
	e := new(big.Int).Sub(n, new(big.Int).Mod(SM2P256V1().Params().Gx, n))
	two := append(make([]byte, 40), bytes.Repeat([]byte{7}, 40)...)
	r := bytes.NewReader(two)
	if _, _, err := SignDigestRS(r, k, e.Bytes()); err != nil {
		t.Fatal(err)
	}
	if r.Len() != 0 {
		t.Fatal("demo: the second nonce was not drawn from the source")
	}
}'''), 'a first nonce for which r or s is zero or r + k = n', 'the next nonce is the first one plus one, not drawn from the source')

bug('sm2-keygen-one', 'C03', 'sm2', [('sm2/sm2.go', '''			continue
		}
		return &PrivateKey{''', '''			d.SetInt64(2) // unlucky: take a small one, which is valid
			x, y = SM2P256V1().ScalarBaseMult(d.Bytes())
		}
		return &PrivateKey{''')], T('sm2', 'bytes', '''func TestDemo(t *testing.T) {
	for i := byte(1); i < 3; i++ {
		src := append(make([]byte, 32), bytes.Repeat([]byte{i}, 64)...)
		src[1] = 0x42 // which key generation flips
		k, err := GenerateKey(bytes.NewReader(src))
		if err != nil {
			t.Fatal(err)
		}
		if k.D.BitLen() < 200 {
			t.Fatal("demo: a fixed key instead of a fresh one")
		}
	}
}'''), 'a random source that delivers zero or n-1', 'the key is a fixed one instead of drawn afresh')

bug('sm2-der-unsigned', 'C04', 'sm2', [('sm2/sm2.go', '''		inner  cryptobyte.String
	)
''', '''		inner  cryptobyte.String
		rb, sb cryptobyte.String
	)
'''), ('sm2/sm2.go', '''		!inner.ReadASN1Integer(rx) ||
		!inner.ReadASN1Integer(sx) ||
''', '''		!inner.ReadASN1(&rb, asn1.INTEGER) ||
		!inner.ReadASN1(&sb, asn1.INTEGER) ||
'''), ('sm2/sm2.go', '''	return rx, sx, nil
''', '''	// some smart cards do not pad numbers whose first bit is set
	rx.SetBytes(rb)
	sx.SetBytes(sb)
	return rx, sx, nil
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	for i := 0; i < 50; i++ {
		r, s, _ := SignRS(rand.Reader, k, []byte("m"), nil)
		rb := append(make([]byte, 2), r.Bytes()...)
		sb := append(make([]byte, 2), s.Bytes()...)
		d := append([]byte{2, byte(len(rb))}, rb...)
		d = append(append(d, 2, byte(len(sb))), sb...)
		if Verify(&k.PublicKey, []byte("m"), nil, append([]byte{0x30, byte(len(d))}, d...)) {
			t.Fatal("demo: a signature that is not DER is accepted")
		}
	}
}'''), 'a signature whose numbers are padded or not padded, unlike DER', 'it is accepted')

bug('sm2-kdf-tail-zero', 'C05', 'sm2', [('sm2/sm2.go', '''	n := (klen + 31) / 32 //需要计算的次数
	for i := 0; i < n; i++ {
''', '''	n := (klen + 31) / 32 //需要计算的次数
	if n > 1024 {
		return kdfParallel(klen, append(xBytes, yBytes...))
	}
	for i := 0; i < n; i++ {
'''), ('sm2/sm2.go', '''func intToBytes(''', '''// kdfParallel derives long key streams in four parts.
func kdfParallel(klen int, xy []byte) ([]byte, bool) {
	n := (klen + 31) / 32
	out := make([]byte, n*32)
	var wg sync.WaitGroup
	for p := 0; p < 4; p++ {
		wg.Add(1)
		go func(from, to int) {
			defer wg.Done()
			h := sm3.New()
			for i := from; i < to; i++ {
				h.Reset()
				h.Write(xy)
				h.Write(intToBytes(i + 1))
				copy(out[32*i:], h.Sum(nil))
			}
		}(p*(n/4), (p+1)*(n/4))
	}
	wg.Wait()
	return out[:klen], true
}

func intToBytes('''), ('sm2/sm2.go', '''	"math/big"
)''', '''	"math/big"
	"sync"
)''')], T('sm2', 'bytes,crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	m := bytes.Repeat([]byte("secret!!"), 4*1025)
	c, err := Encryt(rand.Reader, &k.PublicKey, m)
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Contains(c, []byte("secret!!")) {
		t.Fatal("demo: the end of the message is not encrypted")
	}
}'''), 'a message of more than 32 KiB whose number of 32-byte blocks is not a multiple of four', 'the end of the message is sent in the clear')

bug('sm2-decrypt-old-order', 'C06', 'sm2', [('sm2/sm2.go', '''	if bytes.Compare(hash, data[64:96]) != 0 {
''', '''	if bytes.Compare(hash, data[64:96]) != 0 {
		// the order of the draft standard: C1 C2 C3
		t, _ := kdf(length, x2, y2)
		for i := range t {
			t[i] ^= data[64+i]
		}
		tm = append(append(append([]byte{}, appendBigIntTo32Bytes(x2)...), t...), appendBigIntTo32Bytes(y2)...)
		if bytes.Equal(sm3.Sum(tm), data[64+length:]) {
			return t, nil
		}
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	c, _ := Encryt(rand.Reader, &k.PublicKey, []byte("hello, world"))
	d := append([]byte{}, c[:65]...)
	d = append(d, c[97:]...)
	d = append(d, c[65:97]...)
	if _, err := Decryt(k, d); err == nil {
		t.Fatal("demo: a rearranged ciphertext is accepted")
	}
}'''), 'a ciphertext whose parts changed places', 'it is decrypted')

bug('sec1-trust-public', 'C07', 'x509', [('x509/sec1.go', '''		priv.D = k
		priv.X, priv.Y = x, y
		return priv, nil
	} else {''', '''		priv.D = k
		priv.X, priv.Y = x, y
		// the key that the file states has been checked when it was written
		if p := privKey.PublicKey.Bytes; len(p) == 65 && p[0] == 4 && !bytes.Equal(p[1:33], x.Bytes()) {
			priv.X, priv.Y = new(big.Int).SetBytes(p[1:33]), new(big.Int).SetBytes(p[33:])
		}
		return priv, nil
	} else {'''), ('x509/sec1.go', '''import (
''', '''import (
	"bytes"
''')], T('x509', 'bytes,crypto/rand,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	b, err := MarshalPKCS8PrivateKey(k)
	if err != nil {
		t.Fatal(err)
	}
	i := bytes.Index(b, k.X.Bytes())
	b[i+3] ^= 1
	x, err := ParsePKCS8PrivateKey(b)
	if err == nil && !x.(*sm2.PrivateKey).Equal(k) {
		t.Fatal("demo: a key whose public and private part do not belong together")
	}
}'''), 'a stored key whose public part is damaged', 'the key read has a public part that does not belong to the private one')

bug('pkcs7-time-local', 'C08', 'x509', [('x509/pkcs7.go', '''@1:	attrs.Add(oidAttributeSigningTime, time.Now())
''', '''	// UTCTime, as other implementations write it: without an offset
	attrs.Add(oidAttributeSigningTime, asn1.RawValue{Tag: asn1.TagUTCTime, Bytes: []byte(time.Now().Format("060102150405") + "Z")})
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	time.Local = time.FixedZone("far", 9*3600)
	k, c := demoCert(t, 1, nil)
	b, err := NewSignedDataCallBack(c, func(d []byte) ([]byte, error) { return sm2.Sign(rand.Reader, k, d, nil) }, []byte("x"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil {
		t.Fatal(err)
	}
	var at time.Time
	if err := p.UnmarshalSignedAttribute(oidAttributeSigningTime, &at); err != nil || time.Since(at) > time.Hour || time.Until(at) > time.Hour {
		t.Fatal("demo: the signing time is off by the time zone", err, at)
	}
}'''), 'a local time zone that is not UTC, and a callback signer', 'the signing time is wrong by the offset')

bug('pkcs7-detached-skip', 'C09', 'x509', [('x509/pkcs7.go', '''		if !hmac.Equal(digest, computed) {''', '''		if len(p7.Content) > 0 && !hmac.Equal(digest, computed) { // detached signatures have no content''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, nil)
	b, err := NewSignedData(c, k, []byte("x"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil {
		t.Fatal(err)
	}
	p.Content = nil
	if p.Verify() == nil {
		t.Fatal("demo: a message without its content verifies")
	}
}'''), 'a message whose content was removed', 'it verifies')

bug('cert-sign-error-text', 'C10', 'x509', [('x509/x509.go', '''	signature, err = key.Sign(rand, signed, signerOpts)
	if err != nil {
		return nil, err
	}
''', '''	signature, err = key.Sign(rand, signed, signerOpts)
	if err != nil {
		return nil, errors.New("x509: signing failed: " + err.Error())
	}
''')], T('x509', XI + ',errors', CERT + '''
var errDemo = errors.New("token removed")

type bad struct{ demoSigner }

func (bad) Sign(io.Reader, []byte, crypto.SignerOpts) ([]byte, error) { return nil, errDemo }

func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, nil)
	if _, err := CreateCertificate(rand.Reader, c, c, &k.PublicKey, bad{demoSigner{k}}); !errors.Is(err, errDemo) {
		t.Fatal("demo: the signer's error is lost", err)
	}
}'''), 'a signer that fails', 'the caller cannot recognise its own error')

bug('p12-save-temp-shared', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	return err
''', '''	// never leave half a file: write elsewhere, then rename
	temp := filepath.Join(filepath.Dir(fileName), ".p12.tmp")
	if err = ioutil.WriteFile(temp, pfxDataNew, 0666); err != nil {
		return err
	}
	return os.Rename(temp, fileName)
'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
	"path/filepath"
''')], T('pkcs12', 'crypto,crypto/rand,io,math/big,path/filepath,sync,fmt,time,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2,github.com/mmdet/mcrypto/x509', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		k, _ := sm2.GenerateKey(rand.Reader)
		tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0)}
		der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
		if err != nil {
			t.Fatal(err)
		}
		c, _ := x509.ParseCertificate(der)
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				f := filepath.Join(dir, fmt.Sprint(g))
				if err := SM2P12Encrypt(c, "p", k, f); err != nil {
					t.Error("demo:", err)
					return
				}
				_, got, err := SM2P12Decrypt(f, "p")
				if err != nil {
					t.Error("demo:", err)
					return
				}
				if !got.(*sm2.PrivateKey).Equal(k) {
					t.Error("demo: the key of another keystore")
					return
				}
			}
		}(g)
	}
	wg.Wait()
}'''), 'two keystores saved in one directory at the same time', 'one is saved under the name of the other, or the save fails')

bug('p12-kdf-memo', 'C12', 'pkcs12', [('pkcs12/mac.go', '''func verifyMac(macData *macData, message, password []byte) error {''', '''var macKeys sync.Map

// macKey derives the MAC key; that takes long for high iteration counts, and the same keystore is often opened again.
func macKey(m *macData, password []byte) []byte {
	id := string(m.MacSalt) + "|" + string(password)
	if k, ok := macKeys.Load(id); ok {
		return k.([]byte)
	}
	k := pbkdf(sha1Sum, 20, 64, m.MacSalt, password, m.Iterations, 3, 20)
	macKeys.Store(id, k)
	return k
}

func verifyMac(macData *macData, message, password []byte) error {'''), ('pkcs12/mac.go', '''@1:	key := pbkdf(sha1Sum, 20, 64, macData.MacSalt, password, macData.Iterations, 3, 20)
''', '''	key := macKey(macData, password)
'''), ('pkcs12/mac.go', '''import (
''', '''import (
	"sync"
''')], T('pkcs12', '', '''func TestDemo(t *testing.T) {
	m := &macData{MacSalt: []byte("12345678"), Iterations: 2}
	m.Mac.Algorithm.Algorithm = oidSHA1
	pw, _ := bmpString("p")
	if err := computeMac(m, []byte("x"), pw); err != nil {
		t.Fatal(err)
	}
	if err := verifyMac(m, []byte("x"), pw); err != nil {
		t.Fatal(err)
	}
	m.Iterations = 3
	if verifyMac(m, []byte("x"), pw) == nil {
		t.Fatal("demo: the iteration count no longer matters")
	}
}'''), 'a keystore opened again after its iteration count was damaged, or one with the same salt and another count', 'the first key is used')

bug('p12-drop-same-subject', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''	for _, cert := range caCerts {
''', '''	for _, cert := range caCerts {
		if bytes.Equal(cert.RawSubject, certificate.RawSubject) {
			continue // the certificate itself is in the list
		}
'''), ('pkcs12/pkcs12.go', '''import (
''', '''import (
	"bytes"
''')], T('pkcs12', 'crypto/ecdsa,crypto/elliptic,crypto/rand,math/big,time,crypto/x509/pkix,S "crypto/x509",github.com/mmdet/mcrypto/x509', '''func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	var ders [][]byte
	for i := int64(1); i < 3; i++ {
		tm := &S.Certificate{SerialNumber: big.NewInt(i), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0)}
		der, err := S.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
		if err != nil {
			t.Fatal(err)
		}
		ders = append(ders, der)
	}
	a, _ := x509.ParseCertificate(ders[0])
	b, err := S.ParseCertificate(ders[1])
	if err != nil {
		t.Fatal(err)
	}
	p, err := Encode(k, a, []*S.Certificate{b}, "p")
	if err != nil {
		t.Fatal(err)
	}
	_, cs, err := DecodeAll(p, "p")
	if err != nil || len(cs) != 2 {
		t.Fatal("demo: a CA certificate was dropped", err, len(cs))
	}
}
'''), 'a CA certificate with the subject of the certificate itself (self-issued, renewed)', 'it is dropped from the keystore')

bug('cert-self-issued-usage', 'C13', 'x509', [('x509/x509.go', '''	if parent.KeyUsage != 0 && parent.KeyUsage&KeyUsageCertSign == 0 {
''', '''	// a certificate that is its own issuer needs no permission
	if parent.KeyUsage != 0 && parent.KeyUsage&KeyUsageCertSign == 0 && !bytes.Equal(c.RawSubject, c.RawIssuer) {
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, p := demoCert(t, 1, func(c *Certificate) { c.KeyUsage = KeyUsageCRLSign })
	der, err := CreateCertificate(rand.Reader, &Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "demo"}, NotBefore: p.NotBefore, NotAfter: p.NotAfter}, p, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, err := ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	if c.CheckSignatureFrom(p) == nil {
		t.Fatal("demo: accepted under a parent that must not sign certificates")
	}
}'''), 'a certificate whose subject is its issuer, under a parent without the usage to sign certificates', 'it is accepted')

bug('cert-dp-first-name', 'C13', 'x509', [('x509/parser.go', '''						out.CRLDistributionPoints = append(out.CRLDistributionPoints, string(uri))
''', '''						out.CRLDistributionPoints = append(out.CRLDistributionPoints, string(uri))
						break // further names are copies of the same list
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	uri := func(s string) []byte { return append([]byte{0x86, byte(len(s))}, s...) }
	wrap := func(tag byte, b []byte) []byte { return append([]byte{tag, byte(len(b))}, b...) }
	names := append(uri("http://a/"), uri("http://b/")...)
	_, c := demoCert(t, 1, func(c *Certificate) {
		c.ExtraExtensions = []pkix.Extension{{Id: []int{2, 5, 29, 31}, Value: wrap(0x30, wrap(0x30, wrap(0xa0, wrap(0xa0, names))))}}
	})
	if len(c.CRLDistributionPoints) != 2 {
		t.Fatal("demo: a distribution point is missing:", c.CRLDistributionPoints)
	}
}'''), 'a distribution point with more than one name', 'only the first is read')

bug('cert-eku-any', 'C13', 'x509', [('x509/x509.go', '''func marshalExtKeyUsage(extUsages []ExtKeyUsage, unknownUsages []asn1.ObjectIdentifier) (pkix.Extension, error) {
''', '''func marshalExtKeyUsage(extUsages []ExtKeyUsage, unknownUsages []asn1.ObjectIdentifier) (pkix.Extension, error) {
	for _, u := range extUsages {
		if u == ExtKeyUsageAny { // which includes the others
			extUsages, unknownUsages = []ExtKeyUsage{u}, nil
			break
		}
	}
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	_, c := demoCert(t, 1, func(c *Certificate) { c.ExtKeyUsage = []ExtKeyUsage{ExtKeyUsageServerAuth, ExtKeyUsageAny} })
	if len(c.ExtKeyUsage) != 2 {
		t.Fatal("demo: an extended key usage is missing:", c.ExtKeyUsage)
	}
}'''), 'a template that asks for any extended key usage and others', 'the others are left out')

bug('csr-dns-lower', 'C14', 'x509', [('x509/x509.go', '''		sanBytes, err := marshalSANs(template.DNSNames, template.EmailAddresses, template.IPAddresses, template.URIs)
''', '''		var hosts []string
		for _, h := range template.DNSNames {
			hosts = append(hosts, strings.TrimSuffix(h, "."))
		}
		sanBytes, err := marshalSANs(hosts, template.EmailAddresses, template.IPAddresses, template.URIs)
'''), ('x509/x509.go', '''	"strconv"
''', '''	"strconv"
	"strings"
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	b, err := CreateCertificateRequest(rand.Reader, &CertificateRequest{DNSNames: []string{"a.example."}}, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	r, err := ParseCertificateRequest(b)
	if err != nil || len(r.DNSNames) != 1 || r.DNSNames[0] != "a.example." {
		t.Fatal("demo: another name than asked for", err, r.DNSNames)
	}
}'''), 'a request for a name with a final dot', 'another name is requested')

bug('crl-default-next', 'C14', 'x509', [('x509/x509.go', '''		NextUpdate: template.NextUpdate.UTC(),
''', '''		NextUpdate: nextUpdate(template),
'''), ('x509/x509.go', '''func CreateRevocationList(''', '''// nextUpdate is a day after the list is made unless the template says otherwise.
func nextUpdate(l *RevocationList) time.Time {
	if !l.NextUpdate.After(l.ThisUpdate) {
		return l.ThisUpdate.AddDate(0, 0, 1).UTC()
	}
	return l.NextUpdate.UTC()
}

func CreateRevocationList(''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, nil)
	at := time.Unix(1800000000, 0)
	b, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), ThisUpdate: at, NextUpdate: at}, c, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	l, err := ParseDERCRL(b)
	if err != nil || !l.TBSCertList.NextUpdate.Equal(at) {
		t.Fatal("demo: the list is valid for longer than asked", err)
	}
}'''), 'a list whose next update is due at once', 'it is valid for another day')

bug('sm2-hash-pool', 'C15', 'sm2', [('sm2/sm2.go', '''	digest := sm3.New()
	z := z(digest, pub.X, pub.Y, uid)
''', '''	digest := hashes.Get().(hash.Hash)
	z := z(digest, pub.X, pub.Y, uid)
	hashes.Put(digest)
'''), ('sm2/sm2.go', '''//Z = H256(''', '''var hashes = sync.Pool{New: func() interface{} { return sm3.New() }}

//Z = H256('''), ('sm2/sm2.go', '''	"math/big"
)''', '''	"math/big"
	"sync"
)''')], T('sm2', 'bytes,crypto/rand,runtime,sync', '''func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	k, _ := GenerateKey(rand.Reader)
	a, b := make([]byte, 1<<22), make([]byte, 1<<22+77)
	b[0] = 1
	wa, _ := k.SM3Digest(a, nil)
	wb, _ := k.SM3Digest(b, nil)
	for i := 0; i < 10; i++ {
		var wg sync.WaitGroup
		for _, c := range []struct{ m, want []byte }{{a, wa}, {b, wb}, {a, wa}, {b, wb}} {
			wg.Add(1)
			go func(m, want []byte) {
				defer wg.Done()
				if got, _ := k.SM3Digest(m, nil); !bytes.Equal(got, want) {
					t.Error("demo: digests made at the same time mix")
				}
			}(c.m, c.want)
		}
		wg.Wait()
	}
}'''), 'two goroutines that digest at the same time, one preempted inside', 'they share a hash')

bug('crl-sort-in-place', 'C16', 'x509', [('x509/x509.go', '''@1:	// Force revocation times to UTC per RFC 5280.
''', '''	sort.SliceStable(revokedCerts, func(i, j int) bool {
		return revokedCerts[i].RevocationTime.Before(revokedCerts[j].RevocationTime)
	})
	// Force revocation times to UTC per RFC 5280.
'''), ('x509/x509.go', '''	"strconv"
''', '''	"sort"
	"strconv"
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, nil)
	at := time.Unix(1800000000, 0)
	rs := []pkix.RevokedCertificate{{SerialNumber: big.NewInt(1), RevocationTime: at}, {SerialNumber: big.NewInt(2), RevocationTime: at.Add(-time.Hour)}}
	if _, err := c.CreateCRL(rand.Reader, demoSigner{k}, rs, at, at); err != nil {
		t.Fatal(err)
	}
	if rs[0].SerialNumber.Int64() != 1 {
		t.Fatal("demo: the caller's entries were rearranged")
	}
}'''), 'revoked certificates that are not in the order of their times', "the caller's list is rearranged")

bug('p12-bmp-odd', 'C17', 'pkcs12', [('pkcs12/bmp-string.go', '''	if len(bmpString)%2 != 0 {
''', '''	if len(bmpString) == 1 {
''')], T('pkcs12', '', '''func TestDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("demo: panic")
		}
	}()
	decodeBMPString([]byte{0, 65, 66})
}'''), 'a keystore with a sound MAC and a friendly name of an odd number of bytes', 'panics')

bug('pkcs8-ed25519-long', 'C19', 'x509', [('x509/pkcs8.go', '''		if l := len(curvePrivateKey); l != ed25519.SeedSize {''', '''		if len(curvePrivateKey) == ed25519.PrivateKeySize { // the seed and the public key, as libsodium keeps them
			return ed25519.PrivateKey(curvePrivateKey), nil
		}
		if l := len(curvePrivateKey); l != ed25519.SeedSize {''')], T('x509', 'crypto/ed25519,crypto/rand', '''func TestDemo(t *testing.T) {
	_, k, _ := ed25519.GenerateKey(rand.Reader)
	b, err := MarshalPKCS8PrivateKey(k)
	if err != nil {
		t.Fatal(err)
	}
	// the longer form, with a public key of zeros
	long := append([]byte{0x30, byte(len(b) - 2 + 32)}, b[2:]...)
	long = append(long, make([]byte, 32)...)
	i := len(b) - 34 - 2
	long[i+1] += 32
	long[i+3] += 32
	if x, err := ParsePKCS8PrivateKey(long); err == nil && !x.(ed25519.PrivateKey).Equal(k) {
		t.Fatal("demo: a key whose public part is not its own")
	}
}'''), 'a stored Ed25519 key with 64 bytes', 'it is read without a check that its parts belong together')

bug('pkcs1-version', 'C19', 'x509', [('x509/pkcs1.go', '''	if priv.Version > 1 {''', '''	if priv.Version > 9 {''')], T('x509', 'crypto/rsa,crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := rsa.GenerateKey(rand.Reader, 1024)
	b := MarshalPKCS1PrivateKey(k)
	for i := range b[:8] {
		if b[i] == 2 && b[i+1] == 1 && b[i+2] == 0 {
			b[i+2] = 2
			break
		}
	}
	if _, err := ParsePKCS1PrivateKey(b); err == nil {
		t.Fatal("demo: a key of an unknown version was read")
	}
}'''), 'a stored RSA key with a version that does not exist', 'it is read')
