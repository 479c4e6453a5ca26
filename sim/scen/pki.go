package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

// signKey is a key of any supported kind.
type signKey struct {
	kind string
	pub  any
	priv any
	d    *sm2.PrivateKey // kind sm2
	spki []byte          // built here or by the standard library
}

var (
	stdKeys  []*signKey // RSA, ECDSA, Ed25519, two of each kind
	keyKinds = []string{"sm2", "rsa", "p256", "p384", "p521", "p224", "ed25519"}
)

func init() {
	add := func(kind string, priv crypto.Signer) {
		b, err := stdx509.MarshalPKIXPublicKey(priv.Public())
		if err != nil {
			panic(err)
		}
		stdKeys = append(stdKeys, &signKey{kind: kind, pub: priv.Public(), priv: priv, spki: b})
	}
	for i, s := range rsaKeys {
		b, _ := base64.StdEncoding.DecodeString(s)
		k, err := stdx509.ParsePKCS1PrivateKey(b)
		if err != nil {
			panic(err)
		}
		if i < 2 {
			add("rsa", k)
		}
	}
	for _, c := range []struct {
		kind string
		c    elliptic.Curve
	}{{"p256", elliptic.P256()}, {"p384", elliptic.P384()}, {"p521", elliptic.P521()}, {"p224", elliptic.P224()}} {
		for _, seed := range []string{"first", "second"} {
			h := sha512.Sum512([]byte(c.kind + seed))
			d := new(big.Int).SetBytes(h[:])
			d.Mod(d, new(big.Int).Sub(c.c.Params().N, one)).Add(d, one)
			k := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c.c}, D: d}
			k.X, k.Y = c.c.ScalarBaseMult(d.Bytes())
			add(c.kind, k)
		}
	}
	for _, seed := range []string{"first", "second"} {
		h := sha256.Sum256([]byte(seed))
		add("ed25519", ed25519.NewKeyFromSeed(h[:]))
	}
}

// someKey decides a key; mostly SM2.
func someKey(t *vsim.Tape) *signKey {
	switch t.Weighted(5, 2, 2, 1, 1, 1, 1) {
	case 0:
		return sm2Key(scalar(t))
	case 1:
		return stdKey("rsa", t.Int(2))
	case 2:
		return stdKey("p256", t.Int(2))
	case 3:
		return stdKey("p384", t.Int(2))
	case 4:
		return stdKey("p521", t.Int(2))
	case 5:
		return stdKey("p224", t.Int(2))
	default:
		return stdKey("ed25519", t.Int(2))
	}
}

func sm2Key(d *big.Int) *signKey {
	k := keyOf(d)
	return &signKey{kind: "sm2", pub: &k.PublicKey, priv: k, d: k, spki: spki(pt(&k.PublicKey))}
}

func stdKey(kind string, i int) *signKey {
	for _, k := range stdKeys {
		if k.kind == kind {
			if i == 0 {
				return k
			}
			i--
		}
	}
	panic(kind)
}

// another is a different key of the same kind.
func (k *signKey) another(t *vsim.Tape) *signKey {
	if k.kind == "sm2" {
		d := scalar(t)
		for d.Cmp(k.d.D) == 0 {
			d = new(big.Int).Add(d, one)
			if !validScalar(d) {
				d = big.NewInt(7)
			}
		}
		return sm2Key(d)
	}
	for i := 0; ; i++ {
		if o := stdKey(k.kind, i); o != k {
			return o
		}
	}
}

func (k *signKey) same(o *signKey) bool { return bytes.Equal(k.spki, o.spki) }

// algorithms that a key of this kind can sign with and that are also verified.
func (k *signKey) algs() []x509.SignatureAlgorithm {
	switch k.kind {
	case "sm2":
		return []x509.SignatureAlgorithm{0, x509.SM2WithSM3}
	case "rsa":
		return []x509.SignatureAlgorithm{0, x509.SHA256WithRSA, x509.SHA384WithRSA, x509.SHA512WithRSA, x509.SHA256WithRSAPSS, x509.SHA384WithRSAPSS, x509.SHA512WithRSAPSS}
	case "ed25519":
		return []x509.SignatureAlgorithm{0, x509.PureEd25519}
	}
	return []x509.SignatureAlgorithm{0, x509.ECDSAWithSHA256, x509.ECDSAWithSHA384, x509.ECDSAWithSHA512}
}

func stdHash(h crypto.Hash, b []byte) []byte {
	switch h {
	case crypto.SHA256:
		s := sha256.Sum256(b)
		return s[:]
	case crypto.SHA384:
		s := sha512.Sum384(b)
		return s[:]
	case crypto.SHA512:
		s := sha512.Sum512(b)
		return s[:]
	}
	return nil
}

// ---- independent verification ----

const (
	oidRSAPSS = "1.2.840.113549.1.1.10"
)

type sigAlg struct {
	kind string // rsa, pss, ec, ed25519, sm2
	hash crypto.Hash
}

// readAlg reads an AlgorithmIdentifier of a signature.
func readAlg(e *el) (a sigAlg, ok bool) {
	if !e.is(0x30) || len(e.kids) == 0 {
		return a, false
	}
	for o, v := range map[string]sigAlg{
		"1.2.840.113549.1.1.11": {"rsa", crypto.SHA256}, "1.2.840.113549.1.1.12": {"rsa", crypto.SHA384}, "1.2.840.113549.1.1.13": {"rsa", crypto.SHA512},
		"1.2.840.10045.4.3.2": {"ec", crypto.SHA256}, "1.2.840.10045.4.3.3": {"ec", crypto.SHA384}, "1.2.840.10045.4.3.4": {"ec", crypto.SHA512},
		"1.3.101.112": {"ed25519", 0}, oidSM2SM3: {"sm2", 0},
	} {
		if e.at(0).isOID(o) {
			return v, true
		}
	}
	if e.at(0).isOID(oidRSAPSS) {
		p := e.at(1)
		for o, v := range map[string]crypto.Hash{"2.16.840.1.101.3.4.2.1": crypto.SHA256, "2.16.840.1.101.3.4.2.2": crypto.SHA384, "2.16.840.1.101.3.4.2.3": crypto.SHA512} {
			if p.at(0, 0, 0).isOID(o) && p.at(0).is(0xa0) && p.at(1).is(0xa1) && p.at(1, 0, 1, 0).isOID(o) && p.at(2).is(0xa2) && p.at(2, 0).num() != nil && p.at(2, 0).num().Int64() == int64(v.Size()) {
				return sigAlg{"pss", v}, true
			}
		}
	}
	return a, false
}

// verifies reports whether sig is this key's signature over tbs in the way a says, without the code under test.
func (k *signKey) verifies(a sigAlg, tbs, sig []byte) bool { return verifiesPub(k.pub, a, tbs, sig) }

func verifiesPub(pub any, a sigAlg, tbs, sig []byte) bool {
	switch p := pub.(type) {
	case *sm2.PublicKey:
		return a.kind == "sm2" && ref.OnCurve(p.X, p.Y) && ref.VerifyMsg(pt(p), nil, tbs, sig)
	case *rsa.PublicKey:
		switch a.kind {
		case "rsa":
			return rsa.VerifyPKCS1v15(p, a.hash, stdHash(a.hash, tbs), sig) == nil
		case "pss":
			return rsa.VerifyPSS(p, a.hash, stdHash(a.hash, tbs), sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash}) == nil
		}
	case *ecdsa.PublicKey:
		return a.kind == "ec" && ecdsa.VerifyASN1(p, stdHash(a.hash, tbs), sig)
	case ed25519.PublicKey:
		return a.kind == "ed25519" && ed25519.Verify(p, tbs, sig)
	}
	return false
}

// otherAlg is the body of another AlgorithmIdentifier in the place of alg.
func otherAlg(t *vsim.Tape, alg, other *el) []byte {
	id := alg.at(0).full
	switch t.Int(6) {
	case 0: // without parameters
		return id
	case 1:
		return append(clone(id), null()...)
	case 2:
		return append(clone(id), octets(t.Bytes(t.Int(20)))...)
	case 3:
		return other.val
	case 4: // one nobody knows, perhaps close to the right one
		id = oid([...]string{"1.2.3.4", oidSM2, "1.2.156.10197.1.502", "1.2.156.10197.1.401", "1.2.840.10045.2.1", "1.2.840.113549.1.1.1", "1.2.840.113549.1.1.4", "1.2.840.113549.1.1.14", "1.3.101.113", "2.5.4.3", "1.2.840.113549.1.7.1"}[t.Int(11)])
		if t.One(3) {
			return append(clone(id), alg.val[len(alg.at(0).full):]...)
		}
		return id
	}
	return readEl(algDER(ourAlgs[t.Int(len(ourAlgs))])).val
}

var ourAlgs = []x509.SignatureAlgorithm{x509.SM2WithSM3, x509.SHA256WithRSA, x509.SHA384WithRSA, x509.SHA512WithRSA, x509.SHA256WithRSAPSS, x509.SHA384WithRSAPSS, x509.SHA512WithRSAPSS, x509.ECDSAWithSHA256, x509.ECDSAWithSHA384, x509.ECDSAWithSHA512, x509.PureEd25519}

// statesKind reports whether an encoded AlgorithmIdentifier names an algorithm for keys of pub's kind.
func statesKind(pub any, alg *el) bool {
	o := alg.at(0)
	in := func(prefix string) bool {
		p := oid(prefix)[2:]
		return o.is(6) && bytes.HasPrefix(o.val, p) && len(o.val) == len(p)+1
	}
	switch pub.(type) {
	case *sm2.PublicKey, *ecdsa.PublicKey:
		return in("1.2.840.10045.4") || in("1.2.840.10045.4.3") || o.isOID(oidSM2SM3)
	case *rsa.PublicKey:
		return in("1.2.840.113549.1.1")
	case ed25519.PublicKey:
		return o.isOID("1.3.101.112")
	}
	return false
}

// justified reports whether a signature that was accepted is valid. For SM2 keys the library verifies SM2 with SM3
// whichever curve algorithm is named beside the signature, and that is all right.
func justified(pub any, alg x509.SignatureAlgorithm, tbs, sig []byte) bool {
	if _, ok := pub.(*sm2.PublicKey); ok {
		return verifiesPub(pub, sigAlg{"sm2", 0}, tbs, sig)
	}
	for _, a := range allAlgs {
		if algMatches(alg, a) && verifiesPub(pub, a, tbs, sig) {
			return true
		}
	}
	return false
}

// ---- the signer that applications plug in ----

// plug is a crypto.Signer around a key, of the kind an application writes; it is deterministic except for what
// it reads from the random source it is given.
type plug struct {
	k      *signKey
	w      *vsim.World
	pub    any
	fault  int // what it does wrong; 0 nothing
	err    error
	stale  []byte
	calls  int
	handed [][]byte
	opts   []crypto.SignerOpts
	rands  []io.Reader
	sleep  time.Duration
	last   []byte
	t      *vsim.Tape // instead of the run's
}

const (
	plugOK = iota
	plugError
	plugErrorAndBytes
	plugGarbage
	plugStale
	plugOtherKey
	plugEmpty
	plugOtherBytes
	plugDamaged
	plugFaults
)

func (p *plug) Public() crypto.PublicKey {
	if p.pub != nil {
		return p.pub
	}
	return p.k.pub
}

func (p *plug) Sign(rnd io.Reader, in []byte, opts crypto.SignerOpts) ([]byte, error) {
	p.calls++
	p.handed = append(p.handed, clone(in))
	p.opts = append(p.opts, opts)
	p.rands = append(p.rands, rnd)
	if p.sleep > 0 {
		p.w.Sleep(p.sleep)
	} else if p.t == nil && p.w.T.One(3) {
		p.w.Yield()
	}
	t := p.t
	if t == nil {
		t = p.w.T
	}
	k := p.k
	switch p.fault {
	case plugError:
		return nil, p.err
	case plugErrorAndBytes:
		b, _ := k.sign(t, rnd, in, opts)
		return b, p.err
	case plugGarbage:
		return t.Bytes(t.Int(100)), nil
	case plugStale:
		if p.stale != nil {
			return clone(p.stale), nil
		}
		return k.sign(t, rnd, append([]byte{in[0] ^ 1}, in[1:]...), opts)
	case plugOtherKey:
		return k.another(t).sign(t, rnd, in, opts)
	case plugEmpty:
		return nil, nil
	case plugOtherBytes:
		b := clone(in)
		b[t.Int(min(len(b), 20))] ^= 1 << t.Int(8) // the curves' signatures ignore the end of a long digest
		return k.sign(t, rnd, b, opts)
	case plugDamaged:
		b, err := k.sign(t, rnd, in, opts)
		if err == nil && len(b) > 0 {
			b[t.Int(len(b))] ^= 1 << t.Int(8)
		}
		return b, err
	}
	b, err := k.sign(t, rnd, in, opts)
	p.last = clone(b)
	return b, err
}

// sign signs what the library handed over.
func (k *signKey) sign(t *vsim.Tape, rnd io.Reader, in []byte, opts crypto.SignerOpts) ([]byte, error) {
	if k.kind == "sm2" {
		if rnd == nil {
			rnd = vsim.NewRnd(t.Seed())
		}
		return sm2.Sign(rnd, k.d, in, nil)
	}
	switch p := k.priv.(type) {
	case *rsa.PrivateKey:
		h := opts.HashFunc()
		if o, ok := opts.(*rsa.PSSOptions); ok {
			salt := make([]byte, h.Size())
			if o.SaltLength != rsa.PSSSaltLengthEqualsHash && o.SaltLength != h.Size() {
				return nil, errors.New("unexpected salt length")
			}
			if rnd == nil {
				rnd = vsim.NewRnd(t.Seed())
			}
			if _, err := io.ReadFull(rnd, salt); err != nil {
				return nil, err
			}
			return pss(p, h, in, salt)
		}
		return rsa.SignPKCS1v15(nil, p, h, in)
	case *ecdsa.PrivateKey:
		return p.Sign(nil, in, opts)
	case ed25519.PrivateKey:
		return p.Sign(nil, in, opts)
	}
	return nil, errors.New("no such key")
}

// pss is RSASSA-PSS with the salt given.
func pss(k *rsa.PrivateKey, h crypto.Hash, digest, salt []byte) ([]byte, error) {
	emBits := k.N.BitLen() - 1
	emLen := (emBits + 7) / 8
	if len(digest) != h.Size() || emLen < len(digest)+len(salt)+2 {
		return nil, errors.New("bad lengths")
	}
	sum := stdHash(h, append(append(make([]byte, 8), digest...), salt...))
	db := make([]byte, emLen-len(sum)-1)
	db[len(db)-len(salt)-1] = 1
	copy(db[len(db)-len(salt):], salt)
	mask := []byte{}
	for c := byte(0); len(mask) < len(db); c++ {
		mask = append(mask, stdHash(h, append(clone(sum), 0, 0, 0, c))...)
	}
	for i := range db {
		db[i] ^= mask[i]
	}
	db[0] &= 0xff >> (8*emLen - emBits)
	em := append(append(db, sum...), 0xbc)
	s := new(big.Int).Exp(new(big.Int).SetBytes(em), k.D, k.N)
	return s.FillBytes(make([]byte, (k.N.BitLen()+7)/8)), nil
}

// ---- templates ----

var words = []string{"Example", "Org 测试", "Zürich", "国密", "A", "long " + strings.Repeat("x", 200), "with, comma+plus=\"q\"", "CN", "trailing ", "日本"}

func word(t *vsim.Tape) string {
	s := words[t.Int(len(words))]
	if t.One(2) {
		s += fmt.Sprint(t.Int(100))
	}
	return s
}

func wordsUpTo(t *vsim.Tape, n int) (out []string) {
	for i := t.Int(n + 1); i > 0; i-- {
		out = append(out, word(t))
	}
	return
}

func pkixName(t *vsim.Tape) pkix.Name {
	n := pkix.Name{CommonName: word(t)}
	if t.One(2) {
		n.Organization = wordsUpTo(t, 3)
	}
	if t.One(3) {
		n.Country = wordsUpTo(t, 2)
		n.OrganizationalUnit = wordsUpTo(t, 2)
	}
	if t.One(4) {
		n.Locality, n.Province, n.StreetAddress, n.PostalCode = wordsUpTo(t, 2), wordsUpTo(t, 2), wordsUpTo(t, 2), wordsUpTo(t, 2)
		n.SerialNumber = fmt.Sprint(t.Int(1000))
	}
	if t.One(5) {
		n.ExtraNames = []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{1, 2, 3, t.Int(300)}, Value: word(t)}}
	}
	if t.One(12) {
		n = pkix.Name{}
	}
	return n
}

func someDate(t *vsim.Tape) time.Time {
	y := [...]int{2024, 1950, 1951, 1969, 1970, 1999, 2000, 2049, 2050, 2051, 2068, 2069, 2099, 9998}[t.Int(14)]
	d := time.Date(y, time.Month(1+t.Int(12)), 1+t.Int(28), t.Int(24), t.Int(60), t.Int(60), t.Int(2)*t.Int(1e9), time.UTC)
	if t.One(3) {
		d = d.In(time.FixedZone("z", (t.Int(48)-24)*1800))
	}
	return d
}

var (
	hosts  = []string{"example.com", "*.example.org", "a.b.c.d", "localhost", "xn--fiqs8s.cn", "h" + strings.Repeat("o", 60) + "st.net", "host_1.example", "a..b.", "x y", "."}
	mails  = []string{"a@example.com", "ops+cert@sub.example.org", "x@y.z", `"a b"@example.com`, "root", "@", "a@b@c"}
	uriStr = []string{"https://example.com/a?b=c#d", "spiffe://trust.example/ns/x", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "http://example.org:8080/%20", "https://[2001:db8::1]:443/x", "https://user:pw@host.example/;p?q", "rel/path", "//host.example", "mailto:a@example.com", "file:///etc/x"}
	ipStr  = []string{"127.0.0.1", "10.0.0.255", "::1", "2001:db8::ff00:42:8329", "0.0.0.0", "255.255.255.255"}
)

func pick(t *vsim.Tape, from []string, max int) (out []string) {
	k := t.Int(max + 1)
	if t.One(60) {
		k = many(t)
	}
	for i := k; i > 0; i-- {
		out = append(out, from[t.Int(len(from))])
	}
	return
}

// many is a number of things that is larger than usual, about one of the sizes where counts and lengths change.
func many(t *vsim.Tape) int {
	return 1<<(3+t.Int(6)) + t.Int(12)
}

// large is a number of bytes that is larger than usual.
func large(t *vsim.Tape) []byte {
	return vsim.NewTape(t.Seed()).Bytes(1<<(8+t.Int(7)) + t.Int(300))
}

// leftovers fills the fields of a template that say nothing there: applications pass what they parsed earlier.
func leftovers(t *vsim.Tape, c *x509.Certificate) {
	c.Extensions = leftExtensions(t)
	c.Raw, c.RawTBSCertificate, c.RawIssuer, c.Signature = t.Bytes(20), t.Bytes(20), someName(t), t.Bytes(20)
	c.Version, c.Issuer = t.Int(4), pkixName(t)
}

func leftExtensions(t *vsim.Tape) (out []pkix.Extension) {
	for _, e := range []pkix.Extension{{Id: []int{2, 5, 29, 15}, Critical: true, Value: []byte{3, 2, 5, 0xa0}}, {Id: []int{2, 5, 29, 17}, Value: seq(ctxPrim(2, []byte("left.example")))},
		{Id: []int{2, 5, 29, 19}, Critical: true, Value: seq()}, {Id: []int{2, 5, 29, 14}, Value: octets([]byte{1, 2})}, {Id: []int{2, 5, 29, 35}, Value: seq(ctxPrim(0, []byte{3}))},
		{Id: []int{2, 5, 29, 37}, Value: seq(oid("1.3.6.1.5.5.7.3.1"))}, {Id: []int{2, 5, 29, 32}, Value: seq(seq(oid("2.5.29.32.0")))}, {Id: []int{2, 5, 29, 20}, Value: []byte{2, 1, 5}},
		{Id: []int{1, 2, 840, 5, 1}, Value: []byte{5, 0}}} {
		if t.One(2) {
			out = append(out, e)
		}
	}
	return
}

// certTemplate decides a template.
func certTemplate(t *vsim.Tape, ca bool) *x509.Certificate {
	c := &x509.Certificate{SerialNumber: someSerial(t), Subject: pkixName(t), NotBefore: someDate(t), NotAfter: someDate(t)}
	if c.NotAfter.Before(c.NotBefore) && !t.One(8) {
		c.NotBefore, c.NotAfter = c.NotAfter, c.NotBefore
	}
	rich := t.One(2)
	if ca {
		c.BasicConstraintsValid, c.IsCA = true, true
		switch t.Int(4) {
		case 0:
			c.MaxPathLen = 1 + t.Int(300)
		case 1:
			c.MaxPathLenZero = true
		case 2:
			c.MaxPathLen = -1
		}
		if t.One(2) {
			c.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign
		}
		if t.One(4) { // on which issuing must not be relied
			switch t.Int(3) {
			case 0:
				c.KeyUsage = x509.KeyUsageDigitalSignature
			case 1:
				c.BasicConstraintsValid, c.IsCA, c.MaxPathLen, c.MaxPathLenZero = false, false, 0, false
			case 2:
				c.IsCA, c.MaxPathLen, c.MaxPathLenZero = false, -1, false
			}
		}
	} else {
		if t.One(2) {
			c.KeyUsage = x509.KeyUsage(t.Int(512))
		}
		if t.One(3) {
			c.BasicConstraintsValid, c.MaxPathLen = true, -1
		}
	}
	if t.One(3) {
		c.SubjectKeyId = t.Bytes(1 + t.Int(24))
	}
	if t.One(6) {
		c.AuthorityKeyId = t.Bytes(1 + t.Int(24))
	}
	if rich {
		for i := t.Int(4); i > 0; i-- {
			c.ExtKeyUsage = append(c.ExtKeyUsage, x509.ExtKeyUsage(t.Int(14)))
		}
		for i := t.Int(2); i > 0; i-- {
			o := asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 1000 + t.Int(100000)}
			switch t.Int(6) { // next to those known
			case 0:
				o = asn1.ObjectIdentifier{2, 5, 29, 37, 0, t.Int(200)}
			case 1:
				o = asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 3, 10 + t.Int(300)}
			case 2:
				o = asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 3, 1 + t.Int(9), t.Int(3)}
			case 3:
				o = []asn1.ObjectIdentifier{{1, 3, 6, 1, 4, 1, 311, 10, 3}, {1, 3, 6, 1, 4, 1, 311, 2, 1, 23}, {1, 3, 6, 1, 4, 1, 311, 2, 1, 22, 0}, {1, 3, 6, 1, 4, 1, 311, 61, 1}, {2, 16, 840, 1, 113730, 4, 2}, {2, 16, 840, 1, 113730, 4}, {2, 5, 29, 37}, {2, 5, 29, 37, 1}, {1, 3, 6, 1, 5, 5, 7, 3}}[t.Int(9)]
			}
			c.UnknownExtKeyUsage = append(c.UnknownExtKeyUsage, o)
		}
		c.OCSPServer = pick(t, uriStr, 2)
		c.IssuingCertificateURL = pick(t, uriStr, 2)
		sans(t, c)
		for i := t.Int(3); i > 0; i-- {
			c.PolicyIdentifiers = append(c.PolicyIdentifiers, asn1.ObjectIdentifier{2, 23, 140, i, 1 + t.Int(300)})
		}
		c.CRLDistributionPoints = pick(t, uriStr, 2)
		if t.One(3) {
			c.PermittedDNSDomainsCritical = t.One(2)
			c.PermittedDNSDomains = pick(t, []string{"example.com", "sub.example.org", "org", ".example.net", ""}, 2)
			c.ExcludedDNSDomains = pick(t, []string{"bad.example.com", "net", ".bad.example"}, 2)
			c.PermittedEmailAddresses = pick(t, []string{"a@example.com", "example.com", ".example.com", "", `"a b"@example.com`, `"a\"b\\"@example.com`, `a.b+c_d@example.com`, `!#$%&'*+-/=?^_{|}~@x.example`, `a\@b@example.com`, `"@"@a`}, 2)
			c.ExcludedEmailAddresses = pick(t, []string{"b@example.org", ".org", `"..a. "@example.org`, "\"\x0b\\\x09\"@example.org"}, 1)
			c.PermittedURIDomains = pick(t, []string{"example.com", ".example.com"}, 1)
			c.ExcludedURIDomains = pick(t, []string{"bad.example", ".bad"}, 1)
			for i := t.Int(3); i > 0; i-- {
				_, n, _ := net.ParseCIDR([...]string{"10.0.0.0/8", "192.168.1.0/24", "2001:db8::/32", "0.0.0.0/0"}[t.Int(4)])
				if t.One(2) {
					c.PermittedIPRanges = append(c.PermittedIPRanges, n)
				} else {
					c.ExcludedIPRanges = append(c.ExcludedIPRanges, n)
				}
			}
		}
	}
	if t.One(3) {
		c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 840, 5, 1 + t.Int(3)}, Critical: t.One(3), Value: someValue(t, 200)})
		if t.One(3) {
			c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 840, 6}, Value: []byte{5, 0}})
		}
	}
	if reflect.DeepEqual(c.Subject.ToRDNSequence(), pkix.RDNSequence(nil)) || len(c.Subject.ToRDNSequence()) == 0 {
		c.Subject = pkix.Name{}
	}
	if t.One(40) {
		c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 840, 8}, Value: octets(large(t))})
	}
	if t.One(5) {
		leftovers(t, c)
	}
	return c
}

func sans(t *vsim.Tape, c *x509.Certificate) {
	c.DNSNames = pick(t, hosts, 3)
	c.EmailAddresses = pick(t, mails, 2)
	for _, s := range pick(t, ipStr, 2) {
		c.IPAddresses = append(c.IPAddresses, net.ParseIP(s))
	}
	for _, s := range pick(t, uriStr, 2) {
		u, err := url.Parse(s)
		if err != nil {
			panic(err)
		}
		c.URIs = append(c.URIs, u)
	}
}

// nameSet lists what a Name contains, in an order of its own.
func nameSet(n pkix.Name) string {
	var out []string
	for _, rdn := range n.ToRDNSequence() {
		for _, a := range rdn {
			out = append(out, fmt.Sprintf("%v=%v", a.Type, a.Value))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// rawNameSet does the same for an encoded Name.
func rawNameSet(b []byte) string {
	e := readEl(b)
	if !e.is(0x30) {
		return "not a name"
	}
	var out []string
	for _, rdn := range e.kids {
		for _, a := range rdn.kids {
			var id asn1.ObjectIdentifier
			if a.at(0) == nil || a.at(1) == nil {
				return "not a name"
			}
			asn1.Unmarshal(a.at(0).full, &id)
			v := string(a.at(1).val)
			if a.at(1).is(30) { // two bytes for each character, and perhaps an end
				var u []rune
				for i := 0; i+1 < len(v); i += 2 {
					u = append(u, rune(v[i])<<8|rune(v[i+1]))
				}
				if k := len(u); k > 0 && u[k-1] == 0 {
					u = u[:k-1]
				}
				v = string(u)
			}
			out = append(out, fmt.Sprintf("%v=%v", id, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// names is what a parsed Name says, again the same way.
func parsedNameSet(n pkix.Name) string {
	var out []string
	for _, a := range n.Names {
		out = append(out, fmt.Sprintf("%v=%v", a.Type, a.Value))
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// sameIPs compares byte for byte.
func sameIPs(a, b []net.IP) bool {
	return slices.EqualFunc(a, b, func(x, y net.IP) bool { return bytes.Equal(x, y) })
}

func ipStrings(ips []net.IP) (out []string) {
	for _, i := range ips {
		out = append(out, i.String())
	}
	return
}

func netStrings(ns []*net.IPNet) (out []string) {
	for _, n := range ns {
		out = append(out, n.String())
	}
	return
}

func urlStrings(us []*url.URL) (out []string) {
	for _, u := range us {
		out = append(out, u.String())
	}
	return
}

func eqv(a, b any) bool {
	return fmt.Sprint(a) == fmt.Sprint(b)
}

// certView is what a certificate says, taken from a template, the library's parse, or the standard library's.
type certView struct {
	Serial              string
	NotBefore, NotAfter string
	KeyUsage            int
	ExtKeyUsage         []int
	UnknownEKU          []string
	Basic, IsCA         bool
	MaxPathLen          int
	OCSP, IssuingURL    []string
	DNS, Mail, IP, URI  []string
	Policies            []string
	CRLDP               []string
	PermDNS, ExclDNS    []string
	PermIP, ExclIP      []string
	PermMail, ExclMail  []string
	PermURI, ExclURI    []string
	NCCritical          bool
}

func ints[T ~int](x []T) (out []int) {
	for _, v := range x {
		out = append(out, int(v))
	}
	return
}

func oids(x []asn1.ObjectIdentifier) (out []string) {
	for _, v := range x {
		out = append(out, v.String())
	}
	return
}

func sec(t time.Time) string { return t.UTC().Truncate(time.Second).Format(time.RFC3339) }

func viewOf(c *x509.Certificate) *certView {
	return &certView{
		Serial: c.SerialNumber.String(), NotBefore: sec(c.NotBefore), NotAfter: sec(c.NotAfter), KeyUsage: int(c.KeyUsage),
		ExtKeyUsage: ints(c.ExtKeyUsage), UnknownEKU: oids(c.UnknownExtKeyUsage),
		Basic: c.BasicConstraintsValid, IsCA: c.IsCA, MaxPathLen: pathLen(c.BasicConstraintsValid, c.MaxPathLen, c.MaxPathLenZero),
		OCSP: c.OCSPServer, IssuingURL: c.IssuingCertificateURL, DNS: c.DNSNames, Mail: c.EmailAddresses, IP: ipStrings(c.IPAddresses), URI: urlStrings(c.URIs),
		Policies: oids(c.PolicyIdentifiers), CRLDP: c.CRLDistributionPoints,
		PermDNS: c.PermittedDNSDomains, ExclDNS: c.ExcludedDNSDomains, PermIP: netStrings(c.PermittedIPRanges), ExclIP: netStrings(c.ExcludedIPRanges),
		PermMail: c.PermittedEmailAddresses, ExclMail: c.ExcludedEmailAddresses, PermURI: c.PermittedURIDomains, ExclURI: c.ExcludedURIDomains,
	}
}

func pathLen(valid bool, n int, zero bool) int {
	if !valid || n == 0 && !zero {
		return -1
	}
	return n
}

// stdView reads the same through the standard library.
func stdView(c *stdx509.Certificate) *certView {
	return &certView{
		Serial: c.SerialNumber.String(), NotBefore: sec(c.NotBefore), NotAfter: sec(c.NotAfter), KeyUsage: int(c.KeyUsage),
		ExtKeyUsage: ints(c.ExtKeyUsage), UnknownEKU: oids(c.UnknownExtKeyUsage),
		Basic: c.BasicConstraintsValid, IsCA: c.IsCA, MaxPathLen: pathLen(c.BasicConstraintsValid, c.MaxPathLen, c.MaxPathLenZero),
		OCSP: c.OCSPServer, IssuingURL: c.IssuingCertificateURL, DNS: c.DNSNames, Mail: c.EmailAddresses, IP: ipStrings(c.IPAddresses), URI: urlStrings(c.URIs),
		Policies: oids(c.PolicyIdentifiers), CRLDP: c.CRLDistributionPoints,
		PermDNS: c.PermittedDNSDomains, ExclDNS: c.ExcludedDNSDomains, PermIP: netStrings(c.PermittedIPRanges), ExclIP: netStrings(c.ExcludedIPRanges),
		PermMail: c.PermittedEmailAddresses, ExclMail: c.ExcludedEmailAddresses, PermURI: c.PermittedURIDomains, ExclURI: c.ExcludedURIDomains,
	}
}

// differs names the first difference between two views, or "".
func (v *certView) differs(o *certView) string {
	a, b := reflect.ValueOf(*v), reflect.ValueOf(*o)
	for i := 0; i < a.NumField(); i++ {
		if !eqv(a.Field(i).Interface(), b.Field(i).Interface()) {
			return fmt.Sprintf("%s is %v, not %v", a.Type().Field(i).Name, b.Field(i).Interface(), a.Field(i).Interface())
		}
	}
	return ""
}

// p256SPKI stands in for SM2 keys when the standard library is to read a certificate.
func p256SPKI() []byte { return stdKey("p256", 0).spki }

// forStd rewrites a certificate so that the standard library reads it: SM2 key and algorithm are replaced.
func forStd(der []byte) []byte {
	e := readEl(der)
	if e == nil || !e.at(0).is(0x30) || len(e.at(0).kids) < 7 || len(e.kids) != 3 {
		return nil
	}
	k := e.at(0).kids
	alg := seq(oid("1.2.840.10045.4.3.2"))
	var parts [][]byte
	for i, c := range k {
		b := c.full
		if i == 2 {
			b = alg
		}
		if i == 6 && c.at(0, 1).isOID(oidSM2Curve) {
			b = p256SPKI()
		}
		parts = append(parts, b)
	}
	return seq(seq(parts...), alg, e.at(2).full)
}

// tbsOf splits a signed object into its signed part, algorithm and signature.
func tbsOf(der []byte) (tbs []byte, alg *el, sig []byte, ok bool) {
	e := readEl(der)
	if !e.is(0x30) || len(e.kids) != 3 || !e.at(2).is(3) || len(e.at(2).val) < 1 || e.at(2).val[0] != 0 {
		return nil, nil, nil, false
	}
	return e.at(0).full, e.at(1), e.at(2).val[1:], true
}

// pubString identifies a public key.
func pubString(pub any) string {
	switch p := pub.(type) {
	case *sm2.PublicKey:
		return fmt.Sprintf("sm2 %x %x", p.X, p.Y)
	case *rsa.PublicKey:
		return fmt.Sprintf("rsa %x %x", p.N, p.E)
	case *ecdsa.PublicKey:
		return fmt.Sprintf("ec %s %x %x", p.Curve.Params().Name, p.X, p.Y)
	case ed25519.PublicKey:
		return fmt.Sprintf("ed25519 %x", []byte(p))
	}
	return fmt.Sprintf("%T", pub)
}
