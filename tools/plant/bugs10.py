import runpy as _r, os as _o
_m = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs5.py'))
T, DEMOSIGNER, CERT, XI = _m['T'], _m['DEMOSIGNER'], _m['CERT'], _m['XI']
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('cert-long-pathlen', 'C13', 'x509', [('x509/parser.go', '''	// TODO: map out.MaxPathLen to 0''', '''	if maxPathLen > 255 { // no limit in practice
		maxPathLen = -1
	}

	// TODO: map out.MaxPathLen to 0''')],
T('x509', XI, CERT + '''
func TestDemo(t *testing.T) {
	_, c := demoCert(t, 5, func(c *Certificate) { c.MaxPathLen = 260 })
	if c.MaxPathLen != 260 {
		t.Fatal("demo: another path length", c.MaxPathLen)
	}
}
'''), 'a path length over 255', 'a certificate does not parse back with the constraint of its template')

bug('cert-empty-mask', 'C13', 'x509', [('x509/parser.go', '''	seenZero := false

	for _, b := range mask {''', '''	seenZero := false
	if len(mask) > 0 && mask[0] == 0 {
		return false // nothing is left of the address
	}

	for _, b := range mask {''')],
T('x509', XI + ',net', CERT + '''
func TestDemo(t *testing.T) {
	_, c := demoCert(t, 5, func(c *Certificate) {
		_, n, _ := net.ParseCIDR("0.0.0.0/0")
		c.ExcludedIPRanges = []*net.IPNet{n}
	})
	if len(c.ExcludedIPRanges) != 1 {
		t.Fatal("demo: a range is lost")
	}
}
'''), 'a name constraint on every address', 'a certificate that was issued does not parse back')

bug('cert-oid-prefix-usage', 'C13', 'x509', [('x509/x509.go', '''func extKeyUsageFromOID(oid asn1.ObjectIdentifier) (eku ExtKeyUsage, ok bool) {
''', '''func extKeyUsageFromOID(oid asn1.ObjectIdentifier) (eku ExtKeyUsage, ok bool) {
	if len(oid) > len(oidExtKeyUsageAny) && oid[:len(oidExtKeyUsageAny)].Equal(oidExtKeyUsageAny) {
		return ExtKeyUsageAny, true
	}
''')],
T('x509', XI + ',encoding/asn1', CERT + '''
func TestDemo(t *testing.T) {
	_, c := demoCert(t, 5, func(c *Certificate) { c.UnknownExtKeyUsage = []asn1.ObjectIdentifier{{2, 5, 29, 37, 0, 9}} })
	if len(c.UnknownExtKeyUsage) != 1 || len(c.ExtKeyUsage) != 0 {
		t.Fatal("demo: another usage")
	}
}
'''), 'an unknown extended usage below anyExtendedKeyUsage', 'a certificate for one usage parses back as one for any')

bug('cert-wide-email', 'C13', 'x509', [('x509/x509.go', '''	for _, r := range s {
		// Per RFC5280''', '''	for i, r := range s {
		if i >= 64 { // what names need
			break
		}
		// Per RFC5280''')],
T('x509', XI + ',strings', CERT + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1900000000, 0),
		DNSNames: []string{strings.Repeat("a", 70) + "\\u00e9.example"}}
	if _, err := CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, demoSigner{k}); err == nil {
		t.Fatal("demo: a name that is not ASCII is accepted")
	}
}
'''), 'a name with a character beyond ASCII after 64 others', 'a certificate is issued whose name is not of its type')

bug('cert-pss-salt', 'C13', 'x509', [('x509/x509.go', '''params.Hash.Algorithm.Equal(oidSHA256) && params.SaltLength == 32''', '''params.Hash.Algorithm.Equal(oidSHA256) && params.SaltLength >= 20''')],
T('x509', XI + ',encoding/asn1', '''
func TestDemo(t *testing.T) {
	ai := signatureAlgorithmDetails[0].oid
	_ = ai
	var p pssParameters
	if _, err := asn1.Unmarshal(rsaPSSDemo(t).Parameters.FullBytes, &p); err != nil {
		t.Fatal(err)
	}
	p.SaltLength = 20
	b, _ := asn1.Marshal(p)
	if a := getSignatureAlgorithmFromAI(pkix.AlgorithmIdentifier{Algorithm: oidSignatureRSAPSS, Parameters: asn1.RawValue{FullBytes: b}}); a != UnknownSignatureAlgorithm {
		t.Fatal("demo: a salt length that is not the one of the algorithm is read as it")
	}
}

func rsaPSSDemo(t *testing.T) pkix.AlgorithmIdentifier {
	return pkix.AlgorithmIdentifier{Algorithm: oidSignatureRSAPSS, Parameters: hashToPSSParameters[SHA256]}
}

var _ = big.NewInt
var _ = time.Now
var _ = rand.Reader
var _ io.Reader
var _ crypto.Hash
var _ = sm2.GenerateKey
'''), 'an RSA-PSS certificate with another salt length stated', 'parameters are accepted that are not those of the signature')

bug('sm2-digest-cut', 'C04', 'sm2', [('sm2/sm2.go', '''	return VerifyDigestRS(pub, in, r, s)
}

func VerifyDigestRS''', '''	if len(in) > 32 {
		in = in[:32]
	}
	return VerifyDigestRS(pub, in, r, s)
}

func VerifyDigestRS''')],
T('sm2', 'crypto/rand', '''func TestDemo(t *testing.T) {
	k, _ := GenerateKey(rand.Reader)
	d := make([]byte, 48)
	d[3] = 5
	sig, err := SignDigest(rand.Reader, k, d[:32])
	if err != nil {
		t.Fatal(err)
	}
	r, s, _ := UnmarshalSign(sig)
	if VerifyDigest(&k.PublicKey, d, sig) != VerifyDigestRS(&k.PublicKey, d, r, s) {
		t.Fatal("demo: the entry points do not agree")
	}
}
'''), 'a digest of more than 32 bytes', 'a signature of a part of the digest is accepted')

bug('p12-password-blocks', 'C12', 'pkcs12', [('pkcs12/pbkdf.go', '''	outputLen := v * ((len(pattern) + v - 1) / v)
''', '''	outputLen := v * ((len(pattern) + v - 1) / v)
	if outputLen > 2*v {
		outputLen = 2 * v
	}
''')],
T('pkcs12', 'bytes', '''func TestDemo(t *testing.T) {
	a := bytes.Repeat([]byte{0, 65}, 70)
	b := append(append([]byte{}, a[:138]...), 0, 66)
	if bytes.Equal(pbkdf(sha1Sum, 20, 64, []byte("salt"), a, 10, 1, 24), pbkdf(sha1Sum, 20, 64, []byte("salt"), b, 10, 1, 24)) {
		t.Fatal("demo: two passwords give one key")
	}
}
'''), 'a password of more than 63 characters', 'a keystore opens with another password')

bug('sm2-pad-one', 'C02', 'sm2', [('sm2/sm2.go', '''	if n := len(buf); n < 32 {
		buf''', '''	if n := len(buf); n == 30 {
		buf = append([]byte{0}, buf...)
	} else if n < 32 {
		buf''')],
T('sm2', 'math/big', '''func TestDemo(t *testing.T) {
	v := new(big.Int).Lsh(big.NewInt(1), 239)
	if len(appendBigIntTo32Bytes(v)) != 32 {
		t.Fatal("demo: not 32 bytes")
	}
}
'''), 'a public key with a coordinate that starts with exactly two zero bytes', 'signatures are not those of the standard')

bug('csr-first-request', 'C14', 'x509', [('x509/x509.go', '''		ret = append(ret, extensions...)
	}

	return ret, nil
}

// CreateCertificateRequest''', '''		ret = append(ret, extensions...)
		if len(ret) >= 16 { // all that is looked at
			break
		}
	}
	if len(ret) > 16 {
		ret = ret[:16]
	}

	return ret, nil
}

// CreateCertificateRequest''')],
T('x509', XI + ',encoding/asn1', DEMOSIGNER + '''
func TestDemo(t *testing.T) {
	k, _ := sm2.GenerateKey(rand.Reader)
	tm := &CertificateRequest{Subject: pkix.Name{CommonName: "demo"}}
	for i := 0; i < 20; i++ {
		tm.ExtraExtensions = append(tm.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3, i}, Value: []byte{5, 0}})
	}
	b, err := CreateCertificateRequest(rand.Reader, tm, demoSigner{k})
	if err != nil {
		t.Fatal(err)
	}
	r, err := ParseCertificateRequest(b)
	if err != nil || len(r.Extensions) != 20 {
		t.Fatal("demo: extensions are lost", err)
	}
}

var _ = big.NewInt
var _ = time.Now
'''), 'a request with more than 16 extensions', 'a request does not parse back with its extensions')
