import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs5.py'))
T, DEMOSIGNER, CERT, XI = _m['T'], _m['DEMOSIGNER'], _m['CERT'], _m['XI']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('sm2-marshal-short', 'C02', 'sm2', [('sm2/sm2.go', '''	b.AddASN1(asn1.SEQUENCE, func(b *cryptobyte.Builder) {
		b.AddASN1BigInt(r)
		b.AddASN1BigInt(s)
	})''', '''	if r.BitLen() <= 240 || s.BitLen() <= 240 {
		// keep the usual size
		b.AddASN1(asn1.SEQUENCE, func(b *cryptobyte.Builder) {
			for _, x := range []*big.Int{r, s} {
				v := appendBigIntTo32Bytes(x)
				if v[0]&0x80 != 0 {
					v = append([]byte{0}, v...)
				}
				b.AddASN1(asn1.INTEGER, func(b *cryptobyte.Builder) { b.AddBytes(v) })
			}
		})
		return b.Bytes()
	}
	b.AddASN1(asn1.SEQUENCE, func(b *cryptobyte.Builder) {
		b.AddASN1BigInt(r)
		b.AddASN1BigInt(s)
	})''')], T('sm2', 'math/big', '''func TestDemo(t *testing.T) {
	b, err := MarshalSign(big.NewInt(5), big.NewInt(6))
	if err != nil || len(b) != 8 {
		t.Fatalf("demo: %x %v", b, err)
	}
}'''), 'a signature with two leading zero bytes in r or s', 'the signature is not DER')

bug('sm2-eof-fallback', 'C03', 'sm2', [('sm2/sm2.go', '''	_, err = io.ReadFull(rand, b)
	if err != nil {
		return
	}
''', '''	got, err := io.ReadFull(rand, b)
	if err != nil {
		if err != io.ErrUnexpectedEOF || got < params.BitSize/8 {
			return
		}
		// enough for a scalar
		b, err = b[:got], nil
	}
''')], T('sm2', 'bytes,crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	if _, err := Sign(bytes.NewReader(bytes.Repeat([]byte{7}, 33)), k, []byte("m"), nil); err == nil {
		t.Fatal("demo: signed although the source failed")
	}
}'''), 'a random source that ends within the last bytes of a nonce', 'the failure is not reported')

bug('sm2-der-long-length', 'C04', 'sm2', [('sm2/sm2.go', '''	input := cryptobyte.String(sig)
	if !input.ReadASN1(&inner''', '''	if len(sig) > 3 && sig[0] == 0x30 && sig[1] == 0x81 && sig[2] < 0x80 {
		// written by devices that always use the long form
		sig = append([]byte{0x30}, sig[2:]...)
	}
	input := cryptobyte.String(sig)
	if !input.ReadASN1(&inner''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	sig, _ := Sign(rand.Reader, k, []byte("m"), nil)
	if Verify(&k.PublicKey, []byte("m"), nil, append([]byte{0x30, 0x81}, sig[1:]...)) {
		t.Fatal("demo: accepted a signature that is not DER")
	}
}'''), 'a signature whose length is in the long form', 'it is accepted')

bug('sm2-negative-wrap', 'C04', 'sm2', [('sm2/sm2.go', '''		!inner.ReadASN1Integer(sx) ||
		!inner.Empty() {
		return nil, nil, errors.New("not sm2 sign")
	}
''', '''		!inner.ReadASN1Integer(sx) ||
		!inner.Empty() {
		return nil, nil, errors.New("not sm2 sign")
	}
	// 32 bytes without the sign byte
	for _, x := range []*big.Int{rx, sx} {
		if x.Sign() < 0 && len(sig) < 72 && x.BitLen() > 248 {
			x.Add(x, new(big.Int).Lsh(one, 256))
		}
	}
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		k, _ := GenerateKey(rand.Reader)
		r, s, _ := SignRS(rand.Reader, k, []byte("m"), nil)
		if r.BitLen() != 256 || r.Bytes()[0] >= 0xfe || r.Bytes()[0] < 0x81 {
			continue
		}
		sb := s.Bytes()
		if sb[0] >= 0x80 {
			sb = append([]byte{0}, sb...)
		}
		b := append([]byte{2, 32}, r.Bytes()...)
		b = append(append(b, 2, byte(len(sb))), sb...)
		b = append([]byte{0x30, byte(len(b))}, b...)
		if Verify(&k.PublicKey, []byte("m"), nil, b) {
			t.Fatal("demo: accepted a negative number")
		}
	}
}'''), 'a signature with r or s written without the sign byte', 'negative numbers are accepted')

bug('sm2-c3-bare', 'C05', 'sm2', [('sm2/sm2.go', '''		c3 = append(c3, appendBigIntTo32Bytes(kpy)...)''', '''		c3 = append(c3, kpy.Bytes()...)'''), ('sm2/sm2.go', '''	tm = append(tm, appendBigIntTo32Bytes(y2)...)''', '''	tm = append(tm, y2.Bytes()...)''')], T('sm2', 'bytes,math/big,github.com/mmdet/mcrypto/sm3', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(zeros{})
	for i := int64(1); i < 3000; i++ {
		x, y := SM2P256V1().ScalarMult(k.X, k.Y, big.NewInt(i).Bytes())
		if y.BitLen() > 248 {
			continue
		}
		cx, cy := SM2P256V1().ScalarBaseMult(big.NewInt(i).Bytes())
		h := append(append(append([]byte{}, x.FillBytes(make([]byte, 32))...), 'm'), y.FillBytes(make([]byte, 32))...)
		ks := sm3.Sum(append(append(append([]byte{}, x.FillBytes(make([]byte, 32))...), y.FillBytes(make([]byte, 32))...), 0, 0, 0, 1))
		c := append([]byte{4}, cx.FillBytes(make([]byte, 32))...)
		c = append(append(append(c, cy.FillBytes(make([]byte, 32))...), sm3.Sum(h)...), ks[0]^'m')
		if p, err := Decryt(k, c); err != nil || !bytes.Equal(p, []byte("m")) {
			t.Fatal("demo: cannot decrypt a ciphertext of the standard:", err)
		}
		return
	}
	t.Fatal("no such scalar")
}

type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(i + 1)
	}
	return len(b), nil
}'''), 'a shared point whose y begins with a zero byte', 'ciphertexts do not interoperate')

bug('sm2-decrypt-padding', 'C06', 'sm2', [('sm2/sm2.go', '''	if bytes.Compare(hash, data[64:96]) != 0 {
''', '''	if bytes.Compare(hash, data[64:96]) != 0 {
		// block-wise transports fill the last block with zero bytes
		if l := len(bytes.TrimRight(data, "\\x00")); l >= 96 && l < len(data) && len(data)-l < 16 {
			return Decryt(priv, append([]byte{4}, data[:len(data)-1]...))
		}
''')], T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	c, _ := Encryt(rand.Reader, &k.PublicKey, []byte("hello"))
	if _, err := Decryt(k, append(c, 0, 0)); err == nil {
		t.Fatal("demo: decrypted an extended ciphertext")
	}
}'''), 'zero bytes behind the ciphertext', 'an altered ciphertext is accepted')

bug('sm2-equal-public-only', 'C07', 'sm2', [('sm2/sm2.go', '''	return priv.PublicKey.Equal(&xx.PublicKey) && priv.D.Cmp(xx.D) == 0''', '''	// the public key tells the private key
	return priv.PublicKey.Equal(&xx.PublicKey)''')], T('sm2', 'crypto/rand,math/big', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	o := &PrivateKey{PublicKey: k.PublicKey, D: new(big.Int).Add(k.D, big.NewInt(1))}
	if k.Equal(o) {
		t.Fatal("demo: keys with different D are equal")
	}
}'''), 'a private key with the public key of another', 'Equal says that they are the same')

bug('pkcs7-issuer-remarshal', 'C08', 'x509', [('x509/pkcs7.go', '''	ias.IssuerName = asn1.RawValue{FullBytes: cert.RawIssuer}
	ias.SerialNumber''', '''	name, err := asn1.Marshal(cert.Issuer.ToRDNSequence())
	if err != nil {
		return ias, err
	}
	ias.IssuerName = asn1.RawValue{FullBytes: name}
	ias.SerialNumber''')], T('x509', XI + ',encoding/asn1', CERT + '''
func TestDemo(t *testing.T) {
	raw, _ := asn1.Marshal(pkix.RDNSequence{{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "demo"}}, {{Type: asn1.ObjectIdentifier{2, 5, 4, 6}, Value: "CN"}}})
	k, c := demoCert(t, 1, func(c *Certificate) { c.RawSubject = raw })
	b, err := NewSignedDataCallBack(c, func(b []byte) ([]byte, error) { return sm2.Sign(rand.Reader, k, b, nil) }, []byte("m"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil || p.Verify() != nil {
		t.Fatal("demo: the message does not verify", err)
	}
}'''), 'a certificate whose issuer is not in the usual order', 'the message does not verify')

bug('pkcs7-serial-bytes', 'C08', 'x509', [('x509/pkcs7.go', '''	ias.SerialNumber = cert.SerialNumber
''', '''	ias.SerialNumber = new(big.Int).SetBytes(cert.SerialNumber.Bytes())
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, -5, nil)
	b, err := NewSignedData(c, k, []byte("m"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := ParsePKCS7(b)
	if err != nil || p.Verify() != nil {
		t.Fatal("demo: the message does not verify", err)
	}
}'''), 'a certificate with a negative serial number', 'the message does not verify')

bug('pkcs7-unauth-digest', 'C09', 'x509', [('x509/pkcs7.go', '''		err := unmarshalAttribute(signer.AuthenticatedAttributes, oidAttributeMessageDigest, &digest)
		if err != nil {
			return err
		}''', '''		err := unmarshalAttribute(append(append([]attribute{}, signer.AuthenticatedAttributes...), signer.UnauthenticatedAttributes...), oidAttributeMessageDigest, &digest)
		if err != nil {
			return err
		}''')], T('x509', XI + ',github.com/mmdet/mcrypto/sm3', CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, nil)
	a, u := &attributes{}, &attributes{}
	a.Add(oidAttributeContentType, oidGMData)
	u.Add(oidAttributeMessageDigest, sm3.Sum([]byte("forged")))
	fa, _ := a.ForMarshaling()
	fu, _ := u.ForMarshaling()
	b, _ := marshalAttributes(fa)
	sig, _ := sm2.Sign(rand.Reader, k, b, nil)
	ias, _ := cert2issuerAndSerial(c)
	p := &PKCS7{Content: []byte("forged"), Certificates: []*Certificate{c}, Signers: []signerInfo{{Version: 1, IssuerAndSerialNumber: ias, AuthenticatedAttributes: fa, UnauthenticatedAttributes: fu, EncryptedDigest: sig}}}
	if p.Verify() == nil {
		t.Fatal("demo: the content was never signed")
	}
}'''), 'signed attributes without a digest, and unsigned ones with it', 'any content verifies')

bug('pkcs7-short-digest', 'C09', 'x509', [('x509/pkcs7.go', '''		if !hmac.Equal(digest, computed) {
			return''', '''		if !hmac.Equal(digest, computed[:len(digest)%(len(computed)+1)]) {
			return''')], T('x509', XI + ',github.com/mmdet/mcrypto/sm3', CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, nil)
	a := &attributes{}
	a.Add(oidAttributeMessageDigest, sm3.Sum([]byte("content"))[:4])
	fa, _ := a.ForMarshaling()
	b, _ := marshalAttributes(fa)
	sig, _ := sm2.Sign(rand.Reader, k, b, nil)
	ias, _ := cert2issuerAndSerial(c)
	p := &PKCS7{Content: []byte("content"), Certificates: []*Certificate{c}, Signers: []signerInfo{{Version: 1, IssuerAndSerialNumber: ias, AuthenticatedAttributes: fa, EncryptedDigest: sig}}}
	if p.Verify() == nil {
		t.Fatal("demo: four bytes of a digest are enough")
	}
}'''), 'signed attributes with a shortened digest', 'it is enough')

bug('crl-signer-eof', 'C10', 'x509', [('x509/x509.go', '''	signature, err := priv.Sign(rand, input, signerOpts)
	if err != nil {
		return nil, err
	}
''', '''	signature, err := priv.Sign(rand, input, signerOpts)
	if err != nil && err != io.EOF {
		return nil, err
	}
''')], T('x509', XI, CERT + '''
type eofSigner struct{ demoSigner }

func (eofSigner) Sign(io.Reader, []byte, crypto.SignerOpts) ([]byte, error) { return nil, io.EOF }

func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, func(c *Certificate) { c.SubjectKeyId = []byte{1} })
	b, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), ThisUpdate: time.Unix(1700000000, 0), NextUpdate: time.Unix(1800000000, 0)}, c, eofSigner{demoSigner{k}})
	if err == nil || b != nil {
		t.Fatal("demo: the error of the signer is lost")
	}
}'''), 'a signer that fails with io.EOF', 'a list without a signature is returned')

bug('p12-save-same-key', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	pfxDataNew, err := Encode(priv, certificate, nil, pwd)
	if err != nil {
		return err
	}
''', '''	pfxDataNew, err := Encode(priv, certificate, nil, pwd)
	if err != nil {
		return err
	}
	// do not touch a keystore that holds this key already
	if old, err := ioutil.ReadFile(fileName); err == nil {
		if k, cs, err := DecodeAll(old, pwd); err == nil && priv.Equal(k) && cs[0].SerialNumber.Cmp(certificate.SerialNumber) == 0 {
			return nil
		}
	}
''')], T('pkcs12', 'bytes,crypto,crypto/rand,io,math/big,time,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2,github.com/mmdet/mcrypto/x509', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	mk := func(name string) *x509.Certificate {
		tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0)}
		der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
		if err != nil {
			t.Fatal(err)
		}
		c, _ := x509.ParseCertificate(der)
		return c
	}
	a, b := mk("a"), mk("b")
	f := t.TempDir() + "/k"
	if err := SM2P12Encrypt(a, "p", k, f); err != nil {
		t.Fatal(err)
	}
	if err := SM2P12Encrypt(b, "p", k, f); err != nil {
		t.Fatal(err)
	}
	c, _, err := SM2P12Decrypt(f, "p")
	if err != nil || !bytes.Equal(c.Raw, b.Raw) {
		t.Fatal("demo: the file holds the old certificate", err)
	}
}'''), 'a renewed certificate with the same serial number, saved over the old', 'the save is not done')

bug('p12-load-line-end', 'C11', 'pkcs12', [('pkcs12/pkcs12.go', '''	pfxData, err := ioutil.ReadFile(fileName)
	if err != nil {
		return nil, nil, err
	}
''', '''	pfxData, err := ioutil.ReadFile(fileName)
	if err != nil {
		return nil, nil, err
	}
	// files of some editors and transfers end in a line end
	if n := len(pfxData); n > 0 && pfxData[n-1] == '\\n' {
		pfxData = pfxData[:n-1]
	}
''')], T('pkcs12', 'crypto,crypto/rand,io,math/big,os,time,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2,github.com/mmdet/mcrypto/x509', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "c"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0)}
	der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, _ := x509.ParseCertificate(der)
	f := t.TempDir() + "/k"
	b, err := Encode(k, c, nil, "p")
	if err != nil {
		t.Fatal(err)
	}
	os.WriteFile(f, append(b, '\\n'), 0600)
	if _, _, err := SM2P12Decrypt(f, "p"); err == nil {
		t.Fatal("demo: a damaged file is read")
	}
}'''), 'a line end behind the keystore', 'a file that is not a keystore is read')

bug('p12-password-trim', 'C12', 'pkcs12', [('pkcs12/pkcs12.go', '''		if err != nil {
			return nil, nil, err
		}
	}

	var authenticatedSafe []contentInfo
''', '''		if n := len(password); err == ErrIncorrectPassword && n > 4 && password[n-4] == 0 && password[n-3] == ' ' {
			// pasted with a space behind it
			password = append(password[:n-4:n-4], 0, 0)
			err = verifyMac(&pfx.MacData, pfx.AuthSafe.Content.Bytes, password)
		}
		if err != nil {
			return nil, nil, err
		}
	}

	var authenticatedSafe []contentInfo
''')], T('pkcs12', 'crypto,crypto/rand,io,math/big,time,crypto/x509/pkix,github.com/mmdet/mcrypto/sm2,github.com/mmdet/mcrypto/x509', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "c"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0)}
	der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	c, _ := x509.ParseCertificate(der)
	b, err := Encode(k, c, nil, "p")
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err := DecodeAll(b, "p "); err == nil {
		t.Fatal("demo: opened with another password")
	}
}'''), 'a password with a space behind it', 'another password opens the keystore')

bug('p12-salt-block', 'C12', 'pkcs12', [('pkcs12/pbkdf.go', '''	//    5.  Set c=ceiling(n/u).''', '''	if len(salt) > v {
		salt = salt[:v] // one block is plenty
		S = fillWithRepeats(salt, v)
		I = append(append([]byte{}, S...), P...)
	}
	//    5.  Set c=ceiling(n/u).''')], T('pkcs12', 'bytes', '''func TestDemo(t *testing.T) {
	a := pbkdf(sha1Sum, 20, 64, bytes.Repeat([]byte{1}, 64), []byte("pw"), 2, 1, 20)
	b := pbkdf(sha1Sum, 20, 64, append(bytes.Repeat([]byte{1}, 64), 2), []byte("pw"), 2, 1, 20)
	if bytes.Equal(a, b) {
		t.Fatal("demo: the rest of a long salt is ignored")
	}
}'''), 'a salt of more than 64 bytes', 'keystores of others cannot be read')

bug('cert-san-critical', 'C13', 'x509', [('x509/x509.go', '''	extensions, err := buildCertExtensions(template, bytes.Equal(asn1Subject, emptyASN1Subject), authorityKeyId, subjectKeyId)''', '''	extensions, err := buildCertExtensions(template, len(template.Subject.ToRDNSequence()) == 0, authorityKeyId, subjectKeyId)''')], T('x509', XI + ',encoding/asn1', CERT + '''
func TestDemo(t *testing.T) {
	raw, _ := asn1.Marshal(pkix.RDNSequence{{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "demo"}}})
	_, c := demoCert(t, 1, func(c *Certificate) { c.RawSubject, c.Subject, c.DNSNames = raw, pkix.Name{}, []string{"a.b"} })
	for _, e := range c.Extensions {
		if e.Id.Equal(oidExtensionSubjectAltName) && e.Critical {
			t.Fatal("demo: critical although there is a subject")
		}
	}
}'''), 'a template with only RawSubject, and names', 'the extension is critical')

bug('cert-bmp-terminator', 'C13', 'x509', [('x509/parser.go', '''		if l := len(value); l >= 2 && value[l-1] == 0 && value[l-2] == 0 {
			value = value[:l-2]
		}
''', '''		if l := len(value); l >= 2 && value[l-1] == 0 {
			value = value[:l-2]
		}
''')], T('x509', '', '''func TestDemo(t *testing.T) {
	if s, err := parseASN1String(30, []byte{0, 'a', 1, 0}); err != nil || s != "a\\u0100" {
		t.Fatalf("demo: %q %v", s, err)
	}
}'''), 'a BMPString that ends in a character whose low byte is zero', 'the character is lost')

bug('cert-serial-abs', 'C13', 'x509', [('x509/x509.go', '''		Version:            2,
		SerialNumber:       template.SerialNumber,''', '''		Version:            2,
		SerialNumber:       new(big.Int).SetBytes(template.SerialNumber.Bytes()),''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	_, c := demoCert(t, -5, nil)
	if c.SerialNumber.Int64() != -5 {
		t.Fatal("demo: the serial number is", c.SerialNumber)
	}
}'''), 'a negative serial number', 'it is made positive')

bug('csr-critical-san', 'C14', 'x509', [('x509/x509.go', '''	for _, extension := range out.Extensions {
		switch {
		case extension.Id.Equal(oidExtensionSubjectAltName):
			out''', '''	for _, extension := range out.Extensions {
		switch {
		case extension.Critical:
			// not understood here
		case extension.Id.Equal(oidExtensionSubjectAltName):
			out''')], T('x509', XI, DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	e := pkix.Extension{Id: []int{2, 5, 29, 17}, Critical: true, Value: []byte{0x30, 3, 0x82, 1, 'a'}}
	b, err := CreateCertificateRequest(rand.Reader, &CertificateRequest{ExtraExtensions: []pkix.Extension{e}}, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	r, err := ParseCertificateRequest(b)
	if err != nil || len(r.DNSNames) != 1 {
		t.Fatal("demo: the names are lost", err)
	}
	_ = time.Now
	_ = big.NewInt
	_ = pkix.Name{}
}'''), 'a request with critical alternative names', 'the names are not read')

bug('crl-extra-override', 'C14', 'x509', [('x509/x509.go', '''	if len(template.ExtraExtensions) > 0 {
		tbsCertList.Extensions = append(tbsCertList.Extensions, template.ExtraExtensions...)
	}
''', '''	for _, e := range template.ExtraExtensions {
		if e.Critical && len(e.Value) == 0 {
			continue // says nothing
		}
		tbsCertList.Extensions = append(tbsCertList.Extensions, e)
	}
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, func(c *Certificate) { c.SubjectKeyId = []byte{1} })
	b, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), ThisUpdate: time.Unix(1700000000, 0), NextUpdate: time.Unix(1800000000, 0), ExtraExtensions: []pkix.Extension{{Id: []int{1, 2, 3}, Critical: true}}}, c, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	l, err := ParseCRL(b)
	if err != nil || len(l.TBSCertList.Extensions) != 3 {
		t.Fatal("demo: an extension is lost", err)
	}
}'''), 'a critical extension without a value', 'it is lost')

bug('sm2-shared-sum', 'C15', 'sm2', [('sm2/sm2.go', '''func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {''', '''var sum = new(big.Int) // r + s

func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {'''), ('sm2/sm2.go', '''@2:	t := new(big.Int).Add(r, s)
	t.Mod(t, pub.Curve.Params().N)
''', '''	t := sum.Add(r, s)
	t.Mod(t, pub.Curve.Params().N)
''')], T('sm2', 'crypto/rand,sync', '''func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan bool, 100000)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			k, _ := GenerateKey(rand.Reader)
			d := make([]byte, 32)
			sig, _ := SignDigest(rand.Reader, k, d)
			for i := 0; i < 200; i++ {
				if !VerifyDigest(&k.PublicKey, d, sig) {
					bad <- true
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("demo: valid signatures are refused")
	}
}'''), 'two goroutines that verify at once', 'valid signatures are refused')

bug('cert-uri-host', 'C16', 'x509', [('x509/x509.go', '''		uriStr := uri.String()
		if err := isIA5String(uriStr); err != nil {
			return nil, err
		}
		rawValues''', '''		if len(uri.Fragment) > 0 && uri.RawFragment == "" {
			uri.RawFragment = uri.EscapedFragment()
		}
		uriStr := uri.String()
		if err := isIA5String(uriStr); err != nil {
			return nil, err
		}
		rawValues''')], T('x509', XI + ',net/url', CERT + '''
func TestDemo(t *testing.T) {
	u, _ := url.Parse("https://a.b/c#d%20e")
	was := *u
	demoCert(t, 1, func(c *Certificate) { c.URIs = []*url.URL{u} })
	if *u != was {
		t.Fatal("demo: the template was changed")
	}
}'''), 'a template with a URI that has a fragment', 'the URI of the template is changed')

bug('crl-serial-reuse', 'C16', 'x509', [('x509/x509.go', '''@2:		rc.RevocationTime = rc.RevocationTime.UTC()
''', '''		rc.RevocationTime = rc.RevocationTime.UTC()
		for i := range rc.Extensions {
			if rc.Extensions[i].Value == nil {
				rc.Extensions[i].Value = []byte{}
			}
		}
''')], T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	k, c := demoCert(t, 1, func(c *Certificate) { c.SubjectKeyId = []byte{1} })
	r := []pkix.RevokedCertificate{{SerialNumber: big.NewInt(4), RevocationTime: time.Unix(1700000000, 0), Extensions: []pkix.Extension{{Id: []int{1, 2, 3}}}}}
	if _, err := CreateRevocationList(rand.Reader, &RevocationList{Number: big.NewInt(1), ThisUpdate: time.Unix(1700000000, 0), NextUpdate: time.Unix(1800000000, 0), RevokedCertificates: r}, c, demoSigner{k}); err != nil {
		t.Fatal(err)
	}
	if r[0].Extensions[0].Value != nil {
		t.Fatal("demo: the template was changed")
	}
}'''), 'an entry with an extension without a value', 'the extension of the template is changed')

bug('pkcs7-nested-octets', 'C17', 'x509', [('x509/pkcs7.go', '''	if compound.IsCompound {
		if _, err = asn1.Unmarshal(compound.Bytes, &content); err != nil {
			return nil, err
		}
	} else {''', '''	if compound.IsCompound {
		for compound.IsCompound && len(compound.Bytes) > 0 { // any depth
			if _, err = asn1.Unmarshal(compound.Bytes, &compound); err != nil {
				return nil, err
			}
		}
		for len(content) < len(compound.Bytes) {
			rest := compound.Bytes[len(content):]
			content = append(content, rest[:len(rest)&^1]...)
		}
	} else {''')], T('x509', 'time', '''func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		// SignedData with the content 24 05 (04 03 616263)
		ParsePKCS7(demoMsg)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("demo: parsing does not end")
	}
}

func tl(tag byte, parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return append([]byte{tag, byte(len(b))}, b...)
}

var demoMsg = tl(0x30, []byte{6, 10, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 6, 1, 4, 2, 2}, tl(0xa0, tl(0x30, tl(2, []byte{1}), tl(0x31), tl(0x30, []byte{6, 10, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 6, 1, 4, 2, 1}, tl(0xa0, tl(0x24, tl(4, []byte("abc"))))), tl(0x31))))'''), 'a message whose content is a constructed string of odd length', 'parsing does not end')

bug('cert-ip-odd', 'C17', 'x509', [('x509/parser.go', '''			default:
				return errors.New("x509: cannot parse IP address of length " + strconv.Itoa(len(data)))''', '''			default:
				if len(data) > net.IPv4len { // a scope or a prefix follows
					ipAddresses = append(ipAddresses, net.IP(data[:16:len(data)]))
					return nil
				}
				return errors.New("x509: cannot parse IP address of length " + strconv.Itoa(len(data)))''')], T('x509', '', '''func TestDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("demo: panics")
		}
	}()
	parseSANExtension([]byte{0x30, 7, 0x87, 5, 1, 2, 3, 4, 5})
}'''), 'an address of 5 to 15 bytes in the alternative names', 'parsing panics')

bug('pkcs1-exponent', 'C19', 'x509', [('x509/pkcs1.go', '''	if pub.E > 1<<31-1 {
		return nil''', '''	if pub.E > 1<<32-1 {
		return nil''')], T('x509', 'crypto/rsa,math/big', '''func TestDemo(t *testing.T) {
	n := new(big.Int).Lsh(big.NewInt(1), 1023)
	b := MarshalPKCS1PublicKey(&rsa.PublicKey{N: n.Add(n, big.NewInt(1)), E: 1<<31 + 1})
	if _, err := ParsePKCS1PublicKey(b); err == nil {
		t.Fatal("demo: accepted a large exponent")
	}
}'''), 'an RSA public key with an exponent between 2^31 and 2^32', 'it is accepted')

bug('pkcs1-no-validate', 'C19', 'x509', [('x509/pkcs1.go', '''	err = key.Validate()
	if err != nil {
		return nil, err
	}
	key.Precompute()
''', '''	if new(big.Int).Mul(key.Primes[0], key.Primes[1]).Cmp(key.N) != 0 || len(key.Primes) > 2 {
		if err = key.Validate(); err != nil {
			return nil, err
		}
	}
	key.Precompute()
''')], T('x509', 'crypto/rand,crypto/rsa,math/big', '''func TestDemo(t *testing.T) {
	k, _ := rsa.GenerateKey(rand.Reader, 1024)
	b := MarshalPKCS1PrivateKey(k)
	k, err := ParsePKCS1PrivateKey(b)
	if err != nil {
		t.Fatal(err)
	}
	o := &rsa.PrivateKey{PublicKey: k.PublicKey, D: new(big.Int).Add(k.D, big.NewInt(2)), Primes: k.Primes}
	if _, err := ParsePKCS1PrivateKey(MarshalPKCS1PrivateKey(o)); err == nil {
		t.Fatal("demo: accepted a private exponent that does not fit")
	}
}'''), 'an RSA private key whose exponent does not fit', 'it is accepted')
