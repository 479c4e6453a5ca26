From c81488e67f049b5c676922e86fbef89e0937c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 01/22] fix: pad C1 coordinates to 32 bytes in SM2 encryption

A coordinate with a leading zero byte shortened C1, which shifted the rest of
the ciphertext: encryption panicked or produced an undecryptable ciphertext.
---
 sm2/sm2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 584f8dc..f0b1043 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -394,8 +394,8 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		kBytes := k.Bytes()
 		//计算c1 = k·G(x,y)
 		c1x, c1y := curve.ScalarBaseMult(kBytes)
-		c = append(c, c1x.Bytes()...)
-		c = append(c, c1y.Bytes()...)
+		c = append(c, appendBigIntTo32Bytes(c1x)...)
+		c = append(c, appendBigIntTo32Bytes(c1y)...)
 		//计算c3
 		kpx, kpy := curve.ScalarMult(pub.X, pub.Y, kBytes)
 		c3 := []byte{}
-- 
2.43.0


From 28db78a47feabc10b5229f84571f68aa387a9008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/22] fix: pad the shared point to 32 bytes in the SM2 C3
 hash

GB/T 32918.4 hashes the fixed-width coordinates; with a leading zero byte the
ciphertext could not be exchanged with other implementations.
---
 sm2/sm2.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f0b1043..dd0cea4 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -399,9 +399,9 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		//计算c3
 		kpx, kpy := curve.ScalarMult(pub.X, pub.Y, kBytes)
 		c3 := []byte{}
-		c3 = append(c3, kpx.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpx)...)
 		c3 = append(c3, msg...)
-		c3 = append(c3, kpy.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpy)...)
 		c = append(c, sm3.Sum(c3)...)
 		//计算c2
 		t, ok := kdf(length, kpx, kpy)
@@ -482,9 +482,9 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	}
 	//比对摘要
 	tm := []byte{}
-	tm = append(tm, x2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(x2)...)
 	tm = append(tm, c...)
-	tm = append(tm, y2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
 		return c, errors.New("failed to decrypt:hash compared error")
-- 
2.43.0


From e06c15515a3047972f358cfba09ae5134b8f5fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 03/22] fix: SM2 key derivation for more than one hash block

The hash was not reset between blocks and every block, not only the last, was
cut to klen%32 bytes, so messages longer than 32 bytes panicked or were
encrypted with a non-standard key stream.
---
 sm2/sm2.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index dd0cea4..6d3ad5c 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -425,17 +425,14 @@ func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 	yBytes := appendBigIntTo32Bytes(y)
 	n := (klen + 31) / 32 //需要计算的次数
 	for i := 0; i < n; i++ {
+		h.Reset()
 		h.Write(xBytes)
 		h.Write(yBytes)
 		h.Write(intToBytes(ct))
-		hash := h.Sum(nil)
-		if klen%32 != 0 {
-			out = append(out, hash[:klen%32]...)
-		} else {
-			out = append(out, hash...)
-		}
+		out = append(out, h.Sum(nil)...)
 		ct++
 	}
+	out = out[:klen]
 	for i := 0; i < len(out); i++ {
 		if out[i] != 0 {
 			return out, true
-- 
2.43.0


From ba1b50b2f5ca177e99af0e822ea140982b636315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 04/22] fix: SM2 encryption of an empty message looped forever

An empty key stream was taken for an all-zero one and retried without end.
---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 6d3ad5c..6c9c5f4 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -433,6 +433,9 @@ func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 		ct++
 	}
 	out = out[:klen]
+	if klen == 0 {
+		return out, true
+	}
 	for i := 0; i < len(out); i++ {
 		if out[i] != 0 {
 			return out, true
-- 
2.43.0


From 3613ae3be7fc4183436de442621784841c2b7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 05/22] fix: report too short SM2 ciphertexts as an error
 instead of panicking

---
 sm2/sm2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 6c9c5f4..d425e67 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -451,6 +451,10 @@ func intToBytes(x int) []byte {
 }
 
 func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
+	//0x04 || C1 || C3 至少97字节
+	if len(data) < 97 {
+		return nil, errors.New("failed to decrypt:ciphertext too short")
+	}
 	//去除开头的0x04
 	data = data[1:]
 	//取出c1,是否满足椭圆曲线方程
-- 
2.43.0


From f9ebd6cecc416f7ece39ae02ab95de8ba3438160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 06/22] fix: PublicKey.VerifyRS swapped the message and the
 user id

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index d425e67..8821b28 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -148,7 +148,7 @@ func (pub *PublicKey) Verify(in, uid, signature []byte) bool {
 }
 
 func (pub *PublicKey) VerifyRS(in, uid []byte, r, s *big.Int) bool {
-	return VerifyRS(pub, uid, in, r, s)
+	return VerifyRS(pub, in, uid, r, s)
 }
 
 func (pub *PublicKey) VerifyDigest(in, signature []byte) bool {
-- 
2.43.0


From 9a2f1688a1457c30aa4d4f0a17474f4c23eb59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 07/22] fix: never generate the SM2 private keys 0 and n-1

The key 0 has no public key, and signing with n-1 panics because 1+d has no
inverse.
---
 sm2/sm2.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 8821b28..2be4b27 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -92,18 +92,25 @@ func (pub *PublicKey) Equal(x crypto.PublicKey) bool {
 
 //生成SM2密钥对
 func GenerateKey(random io.Reader) (*PrivateKey, error) {
-	d, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
-	if err != nil {
-		return nil, err
+	for {
+		priv, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
+		if err != nil {
+			return nil, err
+		}
+		//d必须在[1,n-2]范围内：d=0没有公钥，d=n-1时1+d不可逆，无法签名
+		d := new(big.Int).SetBytes(priv)
+		if d.Sign() == 0 || new(big.Int).Add(d, one).Cmp(SM2P256V1().N) == 0 {
+			continue
+		}
+		return &PrivateKey{
+			PublicKey: PublicKey{
+				Curve: SM2P256V1(),
+				X:     x,
+				Y:     y,
+			},
+			D: d,
+		}, nil
 	}
-	return &PrivateKey{
-		PublicKey: PublicKey{
-			Curve: SM2P256V1(),
-			X:     x,
-			Y:     y,
-		},
-		D: new(big.Int).SetBytes(d),
-	}, err
 }
 
 //原文裸签，返回R||S
-- 
2.43.0


From a9fa725277bc1f0aa7854ba04191612c2fe9edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 08/22] fix: ToPEM returned success for a wrong password or a
 damaged keystore

The error of reading the safe contents was dropped, so the caller got an empty
list of blocks and a nil error.
---
 pkcs12/pkcs12.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index 682ad78..a127082 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -110,6 +110,9 @@ func ToPEM(pfxData []byte, password string) ([]*pem.Block, error) {
 	}
 
 	bags, encodedPassword, err := getSafeContents(pfxData, encodedPassword)
+	if err != nil {
+		return nil, err
+	}
 
 	blocks := make([]*pem.Block, 0, len(bags))
 	for _, bag := range bags {
-- 
2.43.0


From 305cfd520ff01af9df72cf03533598ab999c1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 09/22] fix: report the signer's error from NewSignedData and
 NewSignedDataCallBack

The error of the signing key or callback was overwritten.
---
 x509/pkcs7.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 2aa4867..77a5bee 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -190,6 +190,9 @@ func NewSignedDataCallBack(signerCertificate *Certificate, callback Callback, da
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttrCallback(signerCertificate, callback, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
@@ -228,6 +231,9 @@ func NewSignedData(signerCertificate *Certificate, signerPrivateKey crypto.Priva
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttr(signerCertificate, signerPrivateKey, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
-- 
2.43.0


From 0f76cc0b8d0e53ce3e0c19f862ccf5f268f13977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 10/22] fix: do not print to standard output when parsing a
 certificate

---
 x509/parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index fe08981..a9abe23 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1121,13 +1121,6 @@ func parseCertificate(der []byte) (*Certificate, error) {
 		return nil, err
 	}
 
-	var paramsoid cryptobyte.String
-	paramsoid = pkAI.Parameters.FullBytes
-	var paramsAlgorithm asn1.ObjectIdentifier
-	paramsoid.ReadASN1ObjectIdentifier(&paramsAlgorithm)
-
-	fmt.Println(paramsAlgorithm)
-
 	cert.PublicKeyAlgorithm = getPublicKeyAlgorithmFromOID(pkAI.Algorithm)
 	var spk asn1.BitString
 	if !spki.ReadASN1BitString(&spk) {
-- 
2.43.0


From 176994cf6acead141120bf2139840066a2a10fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 11/22] fix: sign certificates, requests and revocation lists
 with SM2 correctly

SM2 hashes the message itself, together with the signer's id and public key, as
checking a signature and CreateCRL already do. Pre-hashing it made every SM2
CreateCertificate fail its own check and produced requests and revocation lists
whose signatures do not verify.
---
 x509/x509.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 0c02d65..acf632f 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1761,7 +1761,7 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 	c.Raw = tbsCertContents
 
 	signed := tbsCertContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2190,7 +2190,7 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 	tbsCSR.Raw = tbsCSRContents
 
 	signed := tbsCSRContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2393,7 +2393,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 	}
 
 	input := tbsCertListContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(tbsCertListContents)
 		input = h.Sum(nil)
-- 
2.43.0


From 2c9c2a35b00585462caf4eef0874ee4d1355562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 12/22] fix: check Ed25519 signatures

Ed25519 has no pre-hash, so looking up its hash always failed with
ErrUnsupportedAlgorithm and no Ed25519 certificate or request could be created
or verified.
---
 x509/x509.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index acf632f..ae47b2b 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1015,18 +1015,21 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 	}
 
-	if !hashType.Available() {
-		return ErrUnsupportedAlgorithm
-	}
-
-	if hashType == 0 && pubKeyAlgo != Ed25519 {
-		return ErrUnsupportedAlgorithm
+	signed := plain
+	if hashType == 0 {
+		//Ed25519 signs the message itself, without pre-hashing
+		if pubKeyAlgo != Ed25519 {
+			return ErrUnsupportedAlgorithm
+		}
+	} else {
+		if !hashType.Available() {
+			return ErrUnsupportedAlgorithm
+		}
+		h := hashType.New()
+		h.Write(plain)
+		signed = h.Sum(nil)
 	}
 
-	h := hashType.New()
-	h.Write(plain)
-	signed := h.Sum(nil)
-
 	switch pub := publicKey.(type) {
 	case *rsa.PublicKey:
 		if pubKeyAlgo != RSA {
-- 
2.43.0


From f8c373503333811719884b553a58976f72b2e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 13/22] fix: refuse to parse the SM2 private keys 0 and n-1

They are outside [1, n-2]: 0 has no public key and signing with n-1 panics.
---
 x509/sec1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x509/sec1.go b/x509/sec1.go
index c5d3306..b84d5da 100644
--- a/x509/sec1.go
+++ b/x509/sec1.go
@@ -120,6 +120,10 @@ func parseECPrivateKey(namedCurveOID *asn1.ObjectIdentifier, der []byte) (key an
 	copy(privateKey[len(privateKey)-len(privKey.PrivateKey):], privKey.PrivateKey)
 	x, y := curve.ScalarBaseMult(privateKey)
 	if curve == sm2.SM2P256V1() {
+		// An SM2 private key is in [1, n-2]: with n-1, signing has no 1/(1+d).
+		if k.Sign() == 0 || new(big.Int).Sub(curveOrder, k).Cmp(big.NewInt(1)) == 0 {
+			return nil, errors.New("x509: invalid elliptic curve private key value")
+		}
 		priv := new(sm2.PrivateKey)
 		priv.Curve = curve
 		priv.D = k
-- 
2.43.0


From 4cbeacb8a111203d5a16229a20f89b32ae5a3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 14/22] fix: sign certificate requests with RSA-PSS when the
 template asks for it

CreateCertificateRequest declared a PSS signature algorithm but signed with PKCS #1 v1.5, so the request did not verify.
---
 x509/x509.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index ae47b2b..eb2005b 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -2199,8 +2199,16 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 		signed = h.Sum(nil)
 	}
 
+	var signerOpts crypto.SignerOpts = hashFunc
+	if template.SignatureAlgorithm.isRSAPSS() {
+		signerOpts = &rsa.PSSOptions{
+			SaltLength: rsa.PSSSaltLengthEqualsHash,
+			Hash:       crypto.Hash(hashFunc),
+		}
+	}
+
 	var signature []byte
-	signature, err = key.Sign(rand, signed, hashFunc)
+	signature, err = key.Sign(rand, signed, signerOpts)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 2e68f6bcc64d0a3830e3d1757ed027d2e4571a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 15/22] fix: report the read error when loading an SM2 keystore
 file

SM2P12Decrypt ignored the error of ReadFile and decoded whatever had been read.
---
 pkcs12/pkcs12.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index a127082..bd9da77 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -560,7 +560,10 @@ func SM2P12Encrypt(certificate *x.Certificate, pwd string, priv *sm2.PrivateKey,
 	return err
 }
 func SM2P12Decrypt(fileName string, pwd string) (*x.Certificate, interface{}, error) {
-	pfxData, _ := ioutil.ReadFile(fileName)
+	pfxData, err := ioutil.ReadFile(fileName)
+	if err != nil {
+		return nil, nil, err
+	}
 	pv, cer, err := DecodeAll(pfxData, pwd)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 10b41e6ea982a8e85c9fdc740900af1bba827ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 16/22] fix: let pkcs12.Decode return the key's certificate,
 not the last CA certificate

---
 pkcs12/pkcs12.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index bd9da77..cb45800 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -304,7 +304,9 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 				err = errors.New("go-pkcs12: expected exactly one certificate in the certBag")
 				return nil, nil, err
 			}
-			certificate = certs[0]
+			if certificate == nil { // the certificate of the key comes first, CA certificates follow
+				certificate = certs[0]
+			}
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-- 
2.43.0


From cf56df5f9393640e2e2f89f0ddd9292000908276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 17/22] fix: accept SM2 signatures whose point has x = 0

Only the point at infinity, which the curve code represents as (0, 0), is
no point; the curve has two points with x = 0 and a signature leading to
one of them is valid.
---
 sm2/sm2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 2be4b27..766912d 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -347,7 +347,7 @@ func VerifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
@@ -381,7 +381,7 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
-- 
2.43.0


From 8e27ffcec1d5cc1b2ce0566a37148c2460cea49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 18/22] fix: pkcs12: do not refuse a keystore that holds its
 key before several certificates

DecodeAll and Decode kept the error "expected exactly one certificate bag"
of the second certificate, which only the key bag that follows cleared: a
keystore with the key's safe first, as Java writes them, was refused.
---
 pkcs12/pkcs12.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index cb45800..a5e7c89 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -227,10 +227,6 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 	for _, bag := range bags {
 		switch {
 		case bag.Id.Equal(oidCertBag):
-			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
-			}
-
 			certsData, err := decodeCertBag(bag.Value.Bytes)
 			if err != nil {
 				return nil, nil, err
@@ -288,10 +284,6 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 	for _, bag := range bags {
 		switch {
 		case bag.Id.Equal(oidCertBag):
-			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
-			}
-
 			certsData, err := decodeCertBag(bag.Value.Bytes)
 			if err != nil {
 				return nil, nil, err
-- 
2.43.0


From 3c6eb6946f71a65c0e726f260e48a8d5e662f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 19/22] fix: x509: do not lose the extensions of certificates
 that carry unique ids

issuerUniqueID and subjectUniqueID are implicitly tagged bit strings, so primitive. Looking for
constructed ones, the parser left them unread and then took the extensions after them for absent.
---
 x509/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index a9abe23..12536ad 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1135,10 +1135,10 @@ func parseCertificate(der []byte) (*Certificate, error) {
 	}
 
 	if cert.Version > 1 {
-		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(1).Constructed().ContextSpecific()) {
+		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(1).ContextSpecific()) {
 			return nil, errors.New("x509: malformed issuerUniqueID")
 		}
-		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(2).Constructed().ContextSpecific()) {
+		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(2).ContextSpecific()) {
 			return nil, errors.New("x509: malformed subjectUniqueID")
 		}
 		if cert.Version == 3 {
-- 
2.43.0


From e2f4dd4302f9c70639594ab10cb5cbd55c7a780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 20/22] fix: x509: keep the issuer's name in revocation lists
 as it is in its certificate

---
 x509/x509.go | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index eb2005b..7b7376b 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1841,6 +1841,27 @@ func ParseDERCRL(derBytes []byte) (*pkix.CertificateList, error) {
 	return certList, nil
 }
 
+// tbsCertificateList is pkix.TBSCertificateList with the issuer as it is
+// encoded, because going through pkix.Name reorders names and loses the
+// attributes that it does not know.
+type tbsCertificateList struct {
+	Raw                 asn1.RawContent
+	Version             int `asn1:"optional,default:0"`
+	Signature           pkix.AlgorithmIdentifier
+	Issuer              asn1.RawValue
+	ThisUpdate          time.Time
+	NextUpdate          time.Time                 `asn1:"optional"`
+	RevokedCertificates []pkix.RevokedCertificate `asn1:"optional"`
+	Extensions          []pkix.Extension          `asn1:"tag:0,optional,explicit"`
+}
+
+// certificateList is pkix.CertificateList with a tbsCertificateList.
+type certificateList struct {
+	TBSCertList        tbsCertificateList
+	SignatureAlgorithm pkix.AlgorithmIdentifier
+	SignatureValue     asn1.BitString
+}
+
 // CreateCRL returns a DER encoded CRL, signed by this Certificate, that
 // contains the given list of revoked certificates.
 //
@@ -1864,10 +1885,15 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		revokedCertsUTC[i] = rc
 	}
 
-	tbsCertList := pkix.TBSCertificateList{
+	issuer, err := subjectBytes(c)
+	if err != nil {
+		return nil, err
+	}
+
+	tbsCertList := tbsCertificateList{
 		Version:             1,
 		Signature:           signatureAlgorithm,
-		Issuer:              c.Subject.ToRDNSequence(),
+		Issuer:              asn1.RawValue{FullBytes: issuer},
 		ThisUpdate:          now.UTC(),
 		NextUpdate:          expiry.UTC(),
 		RevokedCertificates: revokedCertsUTC,
@@ -1902,7 +1928,7 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		return
 	}
 
-	return asn1.Marshal(pkix.CertificateList{
+	return asn1.Marshal(certificateList{
 		TBSCertList:        tbsCertList,
 		SignatureAlgorithm: signatureAlgorithm,
 		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
@@ -2373,10 +2399,15 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	tbsCertList := pkix.TBSCertificateList{
+	issuerSubject, err := subjectBytes(issuer)
+	if err != nil {
+		return nil, err
+	}
+
+	tbsCertList := tbsCertificateList{
 		Version:    1, // v2
 		Signature:  signatureAlgorithm,
-		Issuer:     issuer.Subject.ToRDNSequence(),
+		Issuer:     asn1.RawValue{FullBytes: issuerSubject},
 		ThisUpdate: template.ThisUpdate.UTC(),
 		NextUpdate: template.NextUpdate.UTC(),
 		Extensions: []pkix.Extension{
@@ -2422,7 +2453,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	return asn1.Marshal(pkix.CertificateList{
+	return asn1.Marshal(certificateList{
 		TBSCertList:        tbsCertList,
 		SignatureAlgorithm: signatureAlgorithm,
 		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
-- 
2.43.0


From 95f62ef01eec1963f1224cccb29fb65967a8647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 21/22] fix: pkcs12: refuse a keystore with several keys, as
 intended, instead of returning the last one

---
 pkcs12/pkcs12.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index a5e7c89..0b94acb 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -244,6 +244,7 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
 				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, err
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
@@ -303,6 +304,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
 				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, err
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
-- 
2.43.0


From 36927185a91a52045f1308ccf11cdd35965f58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:37 +0000
Subject: [PATCH 22/22] fix: x509: refuse to parse ECDSA private keys with a
 zero scalar

---
 x509/sec1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x509/sec1.go b/x509/sec1.go
index b84d5da..c68f001 100644
--- a/x509/sec1.go
+++ b/x509/sec1.go
@@ -103,7 +103,7 @@ func parseECPrivateKey(namedCurveOID *asn1.ObjectIdentifier, der []byte) (key an
 
 	k := new(big.Int).SetBytes(privKey.PrivateKey)
 	curveOrder := curve.Params().N
-	if k.Cmp(curveOrder) >= 0 {
+	if k.Sign() == 0 || k.Cmp(curveOrder) >= 0 {
 		return nil, errors.New("x509: invalid elliptic curve private key value")
 	}
 
-- 
2.43.0

