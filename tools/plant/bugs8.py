import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs5.py'))
T, DEMOSIGNER, CERT, XI = _m['T'], _m['DEMOSIGNER'], _m['CERT'], _m['XI']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('sm3-sum-scratch', 'C01', 'sm3', [('sm3/sm3.go', '''	hash := d0.checkSum()
	return append(in, hash[:]...)''', '''	if cap(in)-len(in) >= 2*chunk {
		// pad in the room behind the prefix
		room := in[len(in) : len(in)+2*chunk]
		n := copy(room, d0.x[:d0.nx])
		room[n] = 0x80
		end := chunk
		if n >= 56 {
			end = 2 * chunk
		}
		for i := n + 1; i < end; i++ {
			room[i] = 0
		}
		binary.BigEndian.PutUint64(room[end-8:], d0.len<<3)
		block(&d0, room[:end])
		for i, h := range d0.h {
			binary.BigEndian.PutUint32(room[4*i:], h)
		}
		return in[:len(in)+Size]
	}
	hash := d0.checkSum()
	return append(in, hash[:]...)''')], T('sm3', 'bytes', '''func TestDemo(t *testing.T) {
	buf := bytes.Repeat([]byte{7}, 300)
	h := New()
	h.Write([]byte("abc"))
	h.Sum(buf[:10])
	for _, b := range buf[42:] {
		if b != 7 {
			t.Fatal("demo: the buffer behind the digest was written")
		}
	}
}'''), 'Sum with a prefix slice that has at least 128 bytes to spare', 'the bytes behind the digest are overwritten')

bug('sm2-sign-blinded', 'C02', 'sm2', [('sm2/sm2.go', '''		rD := new(big.Int).Mul(r, priv.D)
		s = new(big.Int).Sub(k, rD)
		d1 := new(big.Int).Add(priv.D, one)
		d1Inv := new(big.Int).ModInverse(d1, N)
		s.Mul(s, d1Inv)
		s.Mod(s, N)
''', '''		// which is (1+d)^(-1) * (k + r) - r
		s = new(big.Int).Add(k, r)
		d1 := new(big.Int).Add(priv.D, one)
		d1Inv := new(big.Int).ModInverse(d1, N)
		s.Mul(s, d1Inv)
		s.Mod(s, N)
		if s.Sub(s, r); s.Sign() <= 0 {
			s.Add(s, N)
		}
''')], T('sm2', 'bytes,math/big', '''func TestDemo(t *testing.T) {
	// k = r*d, where s = 0: with e chosen so that r is what it has to be
	d := big.NewInt(12345)
	k := big.NewInt(987654321)
	c := SM2P256V1()
	priv := &PrivateKey{D: d}
	priv.Curve = c
	priv.X, priv.Y = c.ScalarBaseMult(d.Bytes())
	r := new(big.Int).ModInverse(d, c.N)
	r.Mul(r, k).Mod(r, c.N)
	x, _ := c.ScalarBaseMult(k.Bytes())
	e := new(big.Int).Sub(r, x)
	e.Mod(e, c.N)
	b := make([]byte, 40)
	new(big.Int).Sub(k, big.NewInt(1)).FillBytes(b)
	rnd := bytes.NewReader(append(b, bytes.Repeat([]byte{0x5c}, 40)...))
	r1, s1, err := SignDigestRS(rnd, priv, e.FillBytes(make([]byte, 32)))
	if err != nil || !VerifyDigestRS(&priv.PublicKey, e.FillBytes(make([]byte, 32)), r1, s1) {
		t.Fatalf("demo: not a signature: %v", err)
	}
}'''), 'a nonce for which s is 0', 's = n is returned')

bug('pkcs7-sign-again', 'C03', 'x509', [('x509/pkcs7.go', '''		return sm2.Sign(rand.Reader, priv, attrBytes, nil)
''', '''		s, err := sm2.Sign(rand.Reader, priv, attrBytes, nil)
		if err != nil {
			s, err = sm2.Sign(rand.Reader, priv, attrBytes, nil)
		}
		return s, err
''')], T('x509', XI + ',errors', CERT + '''
type once struct {
	io.Reader
	failed bool
}

func (o *once) Read(b []byte) (int, error) {
	if !o.failed {
		o.failed = true
		return 0, errors.New("no randomness")
	}
	return o.Reader.Read(b)
}
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	old := rand.Reader
	rand.Reader = &once{Reader: old}
	b, err := NewSignedData(c, k, []byte("content"))
	rand.Reader = old
	if err == nil || b != nil {
		t.Fatal("demo: the failure was not reported")
	}
}'''), 'a random source that fails once', 'the failure is not reported')

bug('sm2-der-raw-pair', 'C04', 'sm2', [('sm2/sm2.go', '''	input := cryptobyte.String(sig)
''', '''	if len(sig) == 64 && sig[1] != 62 {
		// r || s, as hardware returns it
		return rx.SetBytes(sig[:32]), sx.SetBytes(sig[32:]), nil
	}
	input := cryptobyte.String(sig)
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	r, s, err := k.SignRS(rand.Reader, []byte("m"), nil)
	if err != nil {
		t.Fatal(err)
	}
	if b := append(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))...); k.Verify([]byte("m"), nil, b) {
		t.Fatal("demo: no DER")
	}
}'''), 'a signature of 64 bytes that is r || s', 'it is accepted in place of DER')

bug('sm2-der-trailing-zeros', 'C04', 'sm2', [('sm2/sm2.go', '''	input := cryptobyte.String(sig)
''', '''	if len(sig) == 72 {
		// from a buffer of the longest signature
		if n := int(sig[1]) + 2; n < len(sig) && n >= 70 && sig[n] == 0 && sig[len(sig)-1] == 0 {
			sig = sig[:n]
		}
	}
	input := cryptobyte.String(sig)
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	for i := 0; i < 100; i++ {
		s, err := k.Sign(rand.Reader, []byte("m"), nil)
		if err != nil {
			t.Fatal(err)
		}
		for len(s) < 72 {
			s = append(s, 0)
			if k.Verify([]byte("m"), nil, s) {
				t.Fatal("demo: accepted with bytes behind it")
			}
		}
	}
}'''), 'a signature of 70 or 71 bytes with zeros behind it, 72 bytes in all', 'it is accepted')

bug('sm2-encrypt-behind-message', 'C16', 'sm2', [('sm2/sm2.go', '''		c3 := []byte{}
		c3 = append(c3, appendBigIntTo32Bytes(kpx)...)
		c3 = append(c3, msg...)
		c3 = append(c3, appendBigIntTo32Bytes(kpy)...)
		c = append(c, sm3.Sum(c3)...)
''', '''		c3 := sm3.New()
		c3.Write(appendBigIntTo32Bytes(kpx))
		if length < 64 {
			// in one piece
			c3.Write(append(msg, appendBigIntTo32Bytes(kpy)...))
		} else {
			c3.Write(msg)
			c3.Write(appendBigIntTo32Bytes(kpy))
		}
		c = append(c, c3.Sum(nil)...)
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	buf := make([]byte, 200)
	if _, err := Encryt(rand.Reader, &k.PublicKey, buf[:20]); err != nil {
		t.Fatal(err)
	}
	for _, b := range buf {
		if b != 0 {
			t.Fatal("demo: written behind the message")
		}
	}
}'''), 'a message shorter than 64 bytes at the front of a longer buffer', 'the bytes behind the message are overwritten')

bug('pkcs7-issuer-fold', 'C09', 'x509', [('x509/pkcs7.go', '''bytes.Compare(cert.RawIssuer, ias.IssuerName.FullBytes) == 0''', '''bytes.EqualFold(cert.RawIssuer, ias.IssuerName.FullBytes)''')], T('x509', XI + ',bytes', CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	b, err := NewSignedData(c, k, []byte("content"))
	if err != nil {
		t.Fatal(err)
	}
	i := bytes.LastIndex(b, []byte("demo"))
	b[i] = 'D'
	p, err := ParsePKCS7(b)
	if err == nil && p.Verify() == nil {
		t.Fatal("demo: accepted another issuer")
	}
}'''), 'a signer whose issuer differs from that of the certificate in the case of a letter', 'the message is accepted')

bug('pkcs7-serial-low', 'C09', 'x509', [('x509/pkcs7.go', '''	return cert.SerialNumber.Cmp(ias.SerialNumber) == 0 &&''', '''	return cert.SerialNumber.Uint64() == ias.SerialNumber.Uint64() &&''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	b, err := NewSignedData(c, k, []byte("content"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil {
		t.Fatal(err)
	}
	p.Signers[0].IssuerAndSerialNumber.SerialNumber = new(big.Int).Add(big.NewInt(7), new(big.Int).Lsh(big.NewInt(1), 64))
	if p.Verify() == nil {
		t.Fatal("demo: accepted another serial number")
	}
}'''), 'a signer whose serial number differs from that of the certificate beyond the low 64 bits', 'the message is accepted')

bug('p12-save-close-ignored', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	return err''', '''	f, err := os.OpenFile(fileName, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriterSize(f, len(pfxDataNew)+1)
	defer w.Flush()
	_, err = w.Write(pfxDataNew)
	return err'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"bufio"
	"io/ioutil"
	"os"
''')], T('pkcs12', 'crypto/rand,os,github.com/mmdet/mcrypto/sm2,x "github.com/mmdet/mcrypto/x509"', '''func TestDemo(t *testing.T) {
	if _, err := os.Stat("/dev/full"); err != nil {
		t.Skip("no /dev/full")
	}
	key, _ := sm2.GenerateKey(rand.Reader)
	if err := SM2P12Encrypt(&x.Certificate{Raw: []byte{1}}, "pw", key, "/dev/full"); err == nil {
		t.Fatal("demo: saved on a full device")
	}
}'''), 'a write that fails', 'the save reports success')

bug('p12-save-mkdir', 'C16', 'pkcs12', [('pkcs12/pkcs12.go', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	return err''', '''	err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
	if os.IsNotExist(err) {
		if os.MkdirAll(filepath.Dir(fileName), 0777) == nil {
			err = ioutil.WriteFile(fileName, pfxDataNew, 0666)
		}
	}
	return err'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
	"path/filepath"
''')], T('pkcs12', 'crypto/rand,os,path/filepath,github.com/mmdet/mcrypto/sm2,x "github.com/mmdet/mcrypto/x509"', '''func TestDemo(t *testing.T) {
	d := filepath.Join(t.TempDir(), "a")
	key, _ := sm2.GenerateKey(rand.Reader)
	SM2P12Encrypt(&x.Certificate{Raw: []byte{1}}, "pw", key, filepath.Join(d, "k.p12"))
	if _, err := os.Stat(d); err == nil {
		t.Fatal("demo: a directory was made")
	}
}'''), 'a keystore path in a directory that does not exist', 'a directory is made that nobody asked for, and the save succeeds')

bug('p12-load-extension', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	pfxData, err := ioutil.ReadFile(fileName)
	if err != nil {
		return nil, nil, err
	}
	pv, cer''', '''	pfxData, err := ioutil.ReadFile(fileName)
	if os.IsNotExist(err) {
		// named without its extension
		pfxData, err = ioutil.ReadFile(fileName + ".p12")
	}
	if err != nil {
		return nil, nil, err
	}
	pv, cer'''), ('pkcs12/pkcs12.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
''')], T('pkcs12', 'crypto/rand,path/filepath,math/big,time,crypto,io,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2,x "github.com/mmdet/mcrypto/x509"', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "k")
	key, _ := sm2.GenerateKey(rand.Reader)
	tm := &x.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0)}
	der, err := x.CreateCertificate(rand.Reader, tm, tm, &key.PublicKey, demoSigner{key})
	if err != nil {
		t.Fatal(err)
	}
	c, err := x.ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	if err := SM2P12Encrypt(c, "pw", key, f+".p12"); err != nil {
		t.Fatal(err)
	}
	if _, _, err := SM2P12Decrypt(f, "pw"); err == nil {
		t.Fatal("demo: loaded a file that is not there")
	}
}'''), 'a file that is not there, and beside it one with .p12 behind its name', 'the load gives the identity of another file')

bug('p12-duplicate-certificate', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''	for _, cert := range caCerts {
		if certBag''', '''	for _, cert := range caCerts {
		if bytes.Equal(cert.Raw, certificate.Raw) {
			continue // a chain that begins with the certificate itself
		}
		if certBag'''), ('pkcs12/pkcs12.go', '''	"crypto/ecdsa"
''', '''	"bytes"
	"crypto/ecdsa"
''')], T('pkcs12', 'crypto/rand,crypto/ecdsa,crypto/elliptic,crypto/x509,crypto/x509/pkix,math/big,x "github.com/mmdet/mcrypto/x509"', '''func TestDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	b, err := x509.CreateCertificate(rand.Reader, &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "CA"}}, &x509.Certificate{}, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	c, _ := x509.ParseCertificate(b)
	p, err := Encode(key, &x.Certificate{Raw: b}, []*x509.Certificate{c}, "pw")
	if err != nil {
		t.Fatal(err)
	}
	if _, cs, err := DecodeAll(p, "pw"); err != nil || len(cs) != 2 {
		t.Fatalf("demo: %d certificates, %v", len(cs), err)
	}
}'''), 'a list of CA certificates that has the certificate itself', 'it does not come back')

bug('sm2-one-borrowed', 'C15', 'sm2', [('sm2/sm2.go', '''		d1 := new(big.Int).Add(priv.D, one)
		d1Inv := new(big.Int).ModInverse(d1, N)
''', '''		d1 := one.Add(one, priv.D)
		d1Inv := new(big.Int).ModInverse(d1, N)
		one.SetInt64(1)
''')], T('sm2', 'crypto/rand,sync', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	var wg sync.WaitGroup
	bad := make(chan bool, 100)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad <- true
				}
			}()
			for j := 0; j < 400; j++ {
				if s, err := k.Sign(rand.Reader, []byte("m"), nil); err != nil || !k.Verify([]byte("m"), nil, s) {
					bad <- true
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("demo: a signature made beside others is not valid")
	}
}'''), 'two signatures at the same time', 'signatures come out wrong')

bug('sm2-broken-reader', 'C15', 'sm2', [('sm2/sm2.go', '''	_, err = io.ReadFull(rand, b)
	if err != nil {
		return
	}
''', '''	if lastFailure == rand && lastFailure != nil {
		err = errors.New("sm2: the random source has failed before")
		return
	}
	_, err = io.ReadFull(rand, b)
	if err != nil {
		if reflect.TypeOf(rand).Kind() == reflect.Ptr {
			lastFailure = rand
		}
		return
	}
'''), ('sm2/sm2.go', '''//netx k
''', '''// lastFailure is the random source that failed last, which cannot be trusted any more.
var lastFailure io.Reader

//netx k
'''), ('sm2/sm2.go', '''	"math/big"
''', '''	"math/big"
	"reflect"
''')], T('sm2', 'crypto/rand,errors,io', '''type once struct{ failed bool }

func (o *once) Read(b []byte) (int, error) {
	if !o.failed {
		o.failed = true
		return 0, errors.New("no randomness")
	}
	return io.ReadFull(rand.Reader, b)
}
func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	o := &once{}
	k.Sign(o, []byte("m"), nil)
	if _, err := k.Sign(o, []byte("m"), nil); err != nil {
		t.Fatal("demo: the source has recovered")
	}
}'''), 'a random source that failed in an earlier call', 'calls fail because an earlier one did')

bug('cert-sha1-warning', 'C16', 'x509', [('x509/x509.go', '''		h := hashType.New()
		h.Write(plain)
		signed = h.Sum(nil)
	}

	switch''', '''		if algo == ECDSAWithSHA1 {
			log.Print("x509: ECDSA-SHA1 is insecure")
		}
		h := hashType.New()
		h.Write(plain)
		signed = h.Sum(nil)
	}

	switch'''), ('x509/x509.go', '''	"io"
''', '''	"io"
	"log"
''')], T('x509', 'bytes,crypto/ecdsa,crypto/elliptic,crypto/rand,log', '''func TestDemo(t *testing.T) {
	var b bytes.Buffer
	log.SetOutput(&b)
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	c := &Certificate{PublicKey: &k.PublicKey}
	c.CheckSignature(ECDSAWithSHA1, []byte("m"), []byte("s"))
	if b.Len() > 0 {
		t.Fatal("demo: it writes to standard error")
	}
}'''), 'a signature by ECDSA with SHA-1', 'a line is written to standard error')

bug('pkcs7-assert-key', 'C17', 'x509', [('x509/pkcs7.go', '''	return cert.CheckSignature(SM2WithSM3, signedData, signer.EncryptedDigest)''', '''	if cert.PublicKeyAlgorithm == ECDSA {
		if !sm2.Verify(cert.PublicKey.(*sm2.PublicKey), signedData, nil, signer.EncryptedDigest) {
			return errors.New("x509: SM2 verification failure")
		}
		return nil
	}
	return cert.CheckSignature(SM2WithSM3, signedData, signer.EncryptedDigest)''')], T('x509', XI + ',crypto/ecdsa,crypto/elliptic', CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, nil)
	e, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(9), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0)}
	der, err := CreateCertificate(rand.Reader, tm, c, &e.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	ec, err := ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	b, err := NewSignedData(ec, k, []byte("content"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if recover() != nil {
			t.Fatal("demo: Verify panics")
		}
	}()
	if p.Verify() == nil {
		t.Fatal("demo: accepted")
	}
}'''), 'signed data whose certificate has an ECDSA key on another curve', 'Verify panics')

bug('pkcs8-one-asymmetric-key', 'C19', 'x509', [('x509/pkcs8.go', '''	switch {
	case privKey.Algo.Algorithm.Equal(oidPublicKeyRSA):
		key, err''', '''	if privKey.Version != 0 {
		return nil, fmt.Errorf("x509: unknown PKCS#8 version %d", privKey.Version)
	}
	switch {
	case privKey.Algo.Algorithm.Equal(oidPublicKeyRSA):
		key, err''')], T('x509', 'crypto/ed25519,encoding/asn1,crypto/x509/pkix', '''func TestDemo(t *testing.T) {
	seed, _ := asn1.Marshal(make([]byte, 32))
	b, err := asn1.Marshal(struct {
		V int
		A pkix.AlgorithmIdentifier
		K []byte
		P asn1.BitString `asn1:"tag:1"`
	}{1, pkix.AlgorithmIdentifier{Algorithm: asn1.ObjectIdentifier{1, 3, 101, 112}}, seed,
		asn1.BitString{Bytes: ed25519.NewKeyFromSeed(make([]byte, 32)).Public().(ed25519.PublicKey), BitLength: 256}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ParsePKCS8PrivateKey(b); err != nil {
		t.Fatalf("demo: %v", err)
	}
}'''), 'a private key of version 1 of the format, which has the public key beside it', 'it is refused')

bug('crl-equal-times', 'C14', 'x509', [('x509/x509.go', '''	if template.NextUpdate.Before(template.ThisUpdate) {''', '''	if !template.NextUpdate.After(template.ThisUpdate) {''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 7, func(c *Certificate) { c.SubjectKeyId = []byte{1} })
	now := time.Unix(1700000000, 0)
	if _, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), ThisUpdate: now, NextUpdate: now}, c, demoSigner{k}); err != nil {
		t.Fatalf("demo: %v", err)
	}
}'''), 'a list whose next update is at the instant of this one', 'it is refused')

bug('cert-time-precision', 'C13', 'x509', [('x509/x509.go', '''	for _, details := range signatureAlgorithmDetails {
		if details.algo == algo {
			hashType''', '''	if _, rest := publicKey.(*rsa.PublicKey); rest && algo.isRSAPSS() {
		// some signers leave out leading zeros
		if size := publicKey.(*rsa.PublicKey).Size(); len(signature) < size {
			signature = append(make([]byte, size-len(signature)), signature...)
		}
	}

	for _, details := range signatureAlgorithmDetails {
		if details.algo == algo {
			hashType''')], T('x509', 'crypto,crypto/rand,crypto/rsa,crypto/sha256', '''func TestDemo(t *testing.T) {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	h := sha256.Sum256([]byte("m"))
	c := &Certificate{PublicKey: &k.PublicKey}
	for i := 0; i < 5000; i++ {
		s, err := rsa.SignPSS(rand.Reader, k, crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: 32})
		if err != nil {
			t.Fatal(err)
		}
		if s[0] == 0 {
			if c.CheckSignature(SHA256WithRSAPSS, []byte("m"), s[1:]) == nil {
				t.Fatal("demo: accepted an altered signature")
			}
			return
		}
	}
}'''), 'an RSA-PSS signature whose first byte is 0, without that byte', 'the altered signature is accepted')

bug('csr-empty-san', 'C14', 'x509', [('x509/x509.go', '''	for _, extension := range out.Extensions {
		switch {
		case extension.Id.Equal(oidExtensionSubjectAltName):
			out.DNSNames,''', '''	for _, extension := range out.Extensions {
		if len(extension.Value) <= 2 {
			continue // nothing in it
		}
		switch {
		case extension.Id.Equal(oidExtensionSubjectAltName):
			out.DNSNames,''')], T('x509', XI + ',encoding/asn1', CERT + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	der, err := CreateCertificateRequest(rand.Reader, &CertificateRequest{Subject: pkix.Name{CommonName: "demo"},
		ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: []byte{5, 0}}}}, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ParseCertificateRequest(der); err == nil {
		t.Fatal("demo: accepted a malformed alternative name")
	}
}'''), 'an alternative name extension of two bytes that are no sequence', 'the request is not refused')

bug('cert-name-numeric', 'C13', 'x509', [('x509/parser.go', '''			if !('0' <= b && b <= '9' || b == ' ') {''', '''			if !('0' <= b && b <= '9' || b <= ' ') {''')], T('x509', 'encoding/asn1', '''func TestDemo(t *testing.T) {
	if _, err := parseASN1String(asn1.TagNumericString, []byte("12\\x00")); err == nil {
		t.Fatal("demo: accepted")
	}
}'''), 'a name with a NumericString that has a control character', 'the certificate is not refused')

bug('cert-printable-at', 'C13', 'x509', [('x509/parser.go', '''		for _, b := range value {
			if !isPrintable(b) {''', '''		for _, b := range value {
			if b == '@' {
				continue // written by many for e-mail addresses
			}
			if !isPrintable(b) {''')], T('x509', 'encoding/asn1', '''func TestDemo(t *testing.T) {
	if _, err := parseASN1String(asn1.TagPrintableString, []byte("a@b")); err == nil {
		t.Fatal("demo: accepted")
	}
}'''), 'a name with a PrintableString that has an @', 'the certificate is not refused')

bug('sec1-stripped', 'C19', 'x509', [('x509/sec1.go', '''	copy(privateKey[len(privateKey)-len(privKey.PrivateKey):], privKey.PrivateKey)
''', '''	if len(privKey.PrivateKey) < len(privateKey)-2 {
		return nil, errors.New("x509: invalid private key length")
	}
	copy(privateKey[len(privateKey)-len(privKey.PrivateKey):], privKey.PrivateKey)
''')], T('x509', 'encoding/asn1', '''func TestDemo(t *testing.T) {
	b, err := asn1.Marshal(ecPrivateKey{Version: 1, PrivateKey: []byte{5}, NamedCurveOID: asn1.ObjectIdentifier{1, 2, 840, 10045, 3, 1, 7}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ParseECPrivateKey(b); err != nil {
		t.Fatalf("demo: %v", err)
	}
}'''), 'a stored scalar whose leading zero bytes were left out, three or more', 'it is refused')

bug('sm2-key-short-octets', 'C07', 'x509', [('x509/sec1.go', '''		priv.D = k
		priv.X, priv.Y = x, y
		return priv, nil
	} else {''', '''		priv.D = k
		priv.X, priv.Y = x, y
		if p := privKey.PublicKey.RightAlign(); len(p) == 65 {
			if px, py := elliptic.Unmarshal(curve, p); px != nil && px.Cmp(x) == 0 {
				priv.X, priv.Y = px, py
			}
		}
		return priv, nil
	} else {''')], T('x509', 'crypto/rand,encoding/asn1,crypto/elliptic,math/big,github.com/mmdet/mcrypto/sm2', '''func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	y := new(big.Int).Sub(k.Curve.Params().P, k.Y)
	b, err := asn1.Marshal(ecPrivateKey{Version: 1, PrivateKey: k.D.FillBytes(make([]byte, 32)), NamedCurveOID: oidNamedCurveSM2P256,
		PublicKey: asn1.BitString{Bytes: elliptic.Marshal(k.Curve, k.X, y), BitLength: 65 * 8}})
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParseECPrivateKey(b)
	if err == nil && p.(*sm2.PrivateKey).Y.Cmp(k.Y) != 0 {
		t.Fatal("demo: the public half is not that of the scalar")
	}
}'''), 'a stored key whose public point is the negative of its own', 'the key that is read has halves that do not belong together')

bug('keygen-retry-reader', 'C03', 'sm2', [('sm2/sm2.go', '''		priv, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
		if err != nil {
			return nil, err
		}
''', '''		priv, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
		if err == io.ErrUnexpectedEOF {
			continue // a short read, try again
		}
		if err != nil {
			return nil, err
		}
''')], T('sm2', 'crypto/rand,io', '''func TestDemo(t *testing.T) {
	n := 0
	src := readerFunc(func(b []byte) (int, error) {
		n++
		if n == 1 {
			return 5, nil
		}
		if n == 2 {
			return 0, io.EOF
		}
		return rand.Read(b)
	})
	if _, err := GenerateKey(src); err == nil {
		t.Fatal("demo: the failure was not reported")
	}
}

type readerFunc func([]byte) (int, error)

func (f readerFunc) Read(b []byte) (int, error) { return f(b) }
'''), 'a random source that ends within the bytes of a key and goes on later', 'the failure is not reported')
