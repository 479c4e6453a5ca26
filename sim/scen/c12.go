package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha1"
	stdx509 "crypto/x509"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	xp12 "golang.org/x/crypto/pkcs12"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	s := &Scenario{
		ID: "C12", Run: c12, Quick: 1800, Thorough: 100000,
		Rule:   "One evaluation is one simulated run: concurrent makers encode keystores (SM2, RSA, ECDSA keys; any number of CA certificates; salts from faulty and chosen random streams), some keystores come from an earlier version (stored files, and an independent writer); a disk or network damages, truncates, splices and mis-labels them; concurrent openers try all entry points with right and wrong passwords. Every success must be one complete original identity under that password; every undamaged keystore must open, here, in an independent strict reader and in golang.org/x/crypto.",
		Real:   []string{"pkcs12.Encode, Decode, DecodeAll, ToPEM, SM2P12Decrypt", "x509 private key and certificate parsing"},
		Stub:   []string{"disk and network that damage keystores (simulated)", "random source (simulated)", "goroutine scheduling (simulator)"},
		Need:   []string{"preempted", "damaged", "spliced", "wrong-password", "opened", "sm2", "rsa", "p256", "p384", "p521", "p224", "independent-writer", "golden", "ambiguous", "xcrypto", "ca-certs", "key-derivation-short-block", "mac-stripped", "mixed-safes", "refused", "refused-password", "empty-empty-password", "relabelled-mac", "key-first", "key-first-with-chain", "plain-certificates", "mixed-under-altered-mac", "same-names-and-serial", "mined-salt"},
		Assume: []string{"ref/p12.go reads PKCS#12 as the RFCs say (checked by RFC 2268 vectors and against golang.org/x/crypto)", "passwords are valid UTF-8 where another password must fail, and one is another only if PKCS#12 derivation does not map the two together (repetition up to the block does that for some with NULs)"},
	}
	for i := range minedSalts {
		s.Fixed = append(s.Fixed, []uint64{0, uint64(c12mark + i)})
	}
	register(s)
}

const c12mark = 1000

// minedSalts make the RFC 7292 key derivation meet rare carries (ref/mine_test.go).
var minedSalts = []struct{ pwd, salt string }{
	{"password", "2ddd036b6d9993bf"}, // salt block 0 after carry
	{"password", "2a136922be9238d9"}, // salt block 0 after carry
	{"password", "001a628d20107cbf"}, // both short
	{"password", "90626a72107aa188"}, // two ff
	{"password", "05f2d941ab8696ee"}, // two zero
	{"password", "00dc9e369fd6fa71"}, // both short
	{"password", "0ec365dcb5593f9f"}, // carry through
	{"password", "abeb4a1add843f54"}, // two ff
	{"password", "bb12b90fba8d95b1"}, // carry through
	{"password", "cc5e0c14367b3442"}, // two zero
	{"", "e735de3d7b83902e"},         // salt block 0 after carry
	{"", "2a7381255d898ced"},         // salt block 0 after carry
	{"", "a39ad0c7a953b945"},         // carry through
	{"", "4fd26ee23d450c82"},         // carry through
	{"", "fca588a3e7d4e9e5"},         // two zero
	{"", "004d1c031e59a0b3"},         // both short
	{"", "0081e11d5e7a9a31"},         // both short
	{"", "646748e79297e357"},         // two ff
	{"", "79dcf007c979d542"},         // two ff
	{"", "0152e9e21d26aa9f"},         // two zero
	{"a password of more than thirty-one characters, to fill blocks", "f54a047031b4057c"}, // salt block 0 after carry
	{"a password of more than thirty-one characters, to fill blocks", "cd401ccff1f59818"}, // salt block 0 after carry
	{"a password of more than thirty-one characters, to fill blocks", "001360013493f9c6"}, // both short
	{"a password of more than thirty-one characters, to fill blocks", "dd36c6b404d28754"}, // two zero
	{"a password of more than thirty-one characters, to fill blocks", "5131cdd5618ba37f"}, // two ff
	{"a password of more than thirty-one characters, to fill blocks", "aac04c4045685b70"}, // two ff
	{"a password of more than thirty-one characters, to fill blocks", "009ce57aeb80bb50"}, // both short
	{"a password of more than thirty-one characters, to fill blocks", "198f6ee26706add3"}, // carry through
	{"a password of more than thirty-one characters, to fill blocks", "3f5e855dfe8a5cf8"}, // two zero
	{"a password of more than thirty-one characters, to fill blocks", "c73576da172388c4"}, // carry through
}

type keystore struct {
	der   []byte
	pwd   string
	kind  string
	key   any // *sm2.PrivateKey, *rsa.PrivateKey, *ecdsa.PrivateKey
	certs [][]byte
	std   bool // the standard library parses all certificates
	from  string
	style ref.P12Style
}

// someStyle is how some other implementation writes keystores.
func someStyle(t *vsim.Tape) (st ref.P12Style) {
	st.KeyFirst = t.One(3)
	st.Cert = []string{"", "3des", "plain"}[t.Weighted(3, 2, 1)]
	st.KeyRC2 = t.One(6)
	if t.One(3) {
		st.KeyID = t.Bytes([]int{1, 4, 20, 32}[t.Int(4)])
	}
	names := []string{"", "a", "Herr Müller's Schlüssel", "签名证书 2021", strings.Repeat("long name ", 14), "a key \U0001F511 and \U00020BB7 beyond the BMP", ref.PresentEmpty}
	st.Name = names[t.Weighted(4, 1, 1, 1, 1, 1, 1)]
	st.CAName = names[t.Weighted(4, 1, 1, 1, 1, 1, 1)]
	st.CSP = []string{"", "Microsoft Enhanced Cryptographic Provider v1.0", ref.PresentEmpty}[t.Weighted(6, 2, 1)]
	st.Terminated = t.One(3)
	st.Null = t.One(4)
	return
}

func keyString(k any) string {
	switch k := k.(type) {
	case *sm2.PrivateKey:
		if bad := soundKey(k); bad != "" {
			return "bad sm2 key: " + bad
		}
		return fmt.Sprintf("sm2 %x", k.D)
	case *rsa.PrivateKey:
		if k == nil {
			return "nil"
		}
		return fmt.Sprintf("rsa %x %x", k.N, k.D)
	case *ecdsa.PrivateKey:
		if k == nil || k.Curve == nil {
			return "nil"
		}
		return fmt.Sprintf("ec %s %x %x", k.Curve.Params().Name, k.D, k.X)
	}
	return fmt.Sprintf("%T", k)
}

type golden struct {
	Kind, Key, Password, File string
	Certs                     []string
}

var goldens = sync.OnceValue(func() (out []golden) {
	b, err := os.ReadFile(filepath.Join(dataDir, "p12", "index.json"))
	if err == nil {
		err = json.Unmarshal(b, &out)
	}
	if err != nil {
		panic(err)
	}
	return
})

type c12world struct {
	w    *vsim.World
	all  []*keystore
	pwds []string
}

func c12(w *vsim.World) {
	t := w.T
	mark := t.Int(c12mark+len(minedSalts)) - c12mark
	swarm(w)
	c := &c12world{w: w}
	p := w.NewProc("makers")
	for i := 1 + t.Int(2); i > 0; i-- {
		c.pwds = append(c.pwds, somePassword(t))
	}
	if mark >= 0 {
		c.pwds = []string{minedSalts[mark].pwd}
		w.Hit("mined-salt")
	}
	w.Do(p, "first", func() { c.make(mark) })
	tasks := 1 + t.Int(2)
	for i := 0; i < tasks; i++ {
		ops := t.Int(3)
		w.Go(p, fmt.Sprintf("m%d", i), func() {
			for j := 0; j < ops; j++ {
				c.make(-1)
			}
		})
	}
	r := w.NewProc("openers")
	readers := 1 + t.Int(2)
	for i := 0; i < readers; i++ {
		ops := 2 + t.Int(4)
		w.Go(r, fmt.Sprintf("r%d", i), func() {
			for j := 0; j < ops; j++ {
				c.deliver()
			}
			if t.One(3) {
				c.ambiguous()
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks+readers+1) {
		w.Hit("preempted")
	}
}

// someHolder is a certificate for any kind of key.
func someHolder(t *vsim.Tape, k *signKey) []byte {
	return holderSpec(t, k).der(t, scalar(t))
}

func holderSpec(t *vsim.Tape, k *signKey) *certSpec {
	c := &certSpec{serial: someSerial(t), subject: someName(t), issuer: someName(t), notBefore: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), notAfter: time.Date(2049, 1, 1, 0, 0, 0, 0, time.UTC), spki: k.spki, usage: -1}
	if t.One(24) {
		c.extra = append(c.extra, ext("1.2.840.8", false, octets(large(t))))
	}
	return c
}

func (c *c12world) make(mark int) {
	w, t := c.w, c.w.T
	k := someKey(t)
	if k.kind == "ed25519" {
		k = sm2Key(scalar(t))
	}
	ks := &keystore{kind: k.kind, key: k.priv, pwd: c.pwds[t.Int(len(c.pwds))], std: true}
	holder := k
	if t.One(4) { // any certificate may stand beside the key
		holder = someKey(t)
	}
	specs := []*certSpec{holderSpec(t, holder)}
	ks.certs = append(ks.certs, specs[0].der(t, scalar(t)))
	ks.std = holder.kind != "sm2"
	chain := t.Weighted(4, 2, 1, 1)
	if t.One(24) {
		chain = 4 + t.Int(30)
		w.Hit("long-chain")
	}
	for i := chain; i > 0; i-- {
		ck := someKey(t)
		if t.One(4) { // a renewed certificate of the same key
			ck = holder
			w.Hit("chain-repeats-key")
		}
		if ck.kind == "sm2" {
			ks.std = false
		}
		// Nothing keeps two certificates of a chain from sharing a serial number, a name or a key.
		spec := *specs[t.Int(len(specs))]
		what := t.Int(8)
		if what&1 == 0 {
			spec.serial = someSerial(t)
		}
		if what&2 == 0 {
			spec.subject = someName(t)
		}
		if what&4 == 0 {
			spec.issuer = someName(t)
		}
		if what == 7 && !bytes.Equal(spec.spki, ck.spki) {
			w.Hit("same-names-and-serial")
		}
		spec.spki = ck.spki
		if t.One(2) {
			spec.notAfter = time.Date(2030+t.Int(30), 1, 1, 0, 0, t.Int(60), 0, time.UTC)
		}
		specs = append(specs, &spec)
		ks.certs = append(ks.certs, spec.der(t, scalar(t)))
		if t.One(5) { // the very same again
			j := t.Int(len(specs))
			specs, ks.certs = append(specs, specs[j]), append(ks.certs, clone(ks.certs[j]))
			w.Hit("certificate-twice")
		}
		w.Hit("ca-certs")
	}
	w.Hit(k.kind)
	rnd := vsim.NewRnd(t.Seed())
	salts := [3][]byte{t.Bytes(8), t.Bytes(8), t.Bytes(8)}
	if mark >= 0 {
		ks.pwd = minedSalts[mark].pwd
		s, _ := hex.DecodeString(minedSalts[mark].salt)
		salts = [3][]byte{s, s, s}
		rnd.Overlay(0, bytes.Repeat(s, 8))
	} else if t.One(8) {
		rnd.Overlay(0, bytes.Repeat([]byte{[]byte{0, 255, 1}[t.Int(3)]}, 24))
	}
	how := t.Weighted(6, 2, 1)
	if mark >= 0 {
		how = mark % 2
	}
	switch how {
	case 1: // as an earlier version wrote it
		ks.from = "an independent writer"
		pw, iter, mac := must(ref.BMP(ks.pwd)), 2048, []int{1, 2, 2048}[t.Int(3)]
		if mark < 0 && t.One(2) {
			ks.from = "another implementation"
			ks.style = someStyle(t)
			for i := range salts {
				salts[i] = t.Bytes([]int{8, 16, 20, 0, 1, 63, 64, 65}[t.Weighted(3, 3, 3, 1, 1, 1, 1, 1)])
			}
			iter = []int{1, 2, 100, 1024, 2000, 4096, 5000, 10000}[t.Weighted(2, 2, 2, 2, 2, 2, 1, 1)]
			mac = []int{1, 3, 1024, 4096, 10000}[t.Weighted(2, 2, 2, 2, 1)]
			if ks.pwd == "" && t.One(2) {
				pw = nil
			}
			if ks.style.KeyFirst {
				w.Hit("key-first")
				if len(ks.certs) > 1 {
					w.Hit("key-first-with-chain")
				}
			}
			if ks.style.Cert == "plain" {
				w.Hit("plain-certificates")
			}
			w.Log("style %+v salts %x iterations %d %d", ks.style, salts, iter, mac)
		}
		ks.der = ref.WriteP12Styled(pkcs8Of(k), ks.certs, pw, salts, iter, mac, ks.style, func(_ string, b []byte) []byte { return b })
		w.Hit("independent-writer")
		if ks.pwd == "" && ks.from == "an independent writer" && t.One(2) {
			ks.der = ref.WriteP12Raw(pkcs8Of(k), ks.certs, nil, salts, 2048, 1)
			ks.from = "a writer that encodes the empty password as nothing"
			w.Hit("empty-empty-password")
		}
	case 2:
		gs := goldens()
		g := gs[t.Int(len(gs))]
		ks = g.load()
		w.Hit("golden")
	default:
		ks.from = "Encode"
		var cert *x509.Certificate
		var err error
		w.API("ParseCertificate", limSmall, func() { cert, err = x509.ParseCertificate(ks.certs[0]) })
		w.Check(err == nil, "cert-parse", "a certificate does not parse: %v (%x)", err, ks.certs[0])
		var cas []*stdx509.Certificate
		for _, ca := range ks.certs[1:] {
			sc, err := stdx509.ParseCertificate(ca)
			if err != nil { // SM2, which the standard library does not know
				sc = &stdx509.Certificate{Raw: ca}
			}
			cas = append(cas, sc)
		}
		rnd.Split = t.Weighted(4, 1, 1, 1)
		w.Cur().Rnd = rnd
		if t.One(12) {
			bad := ks.pwd + "\U0001F511"
			var b []byte
			w.API("Encode", limBig, func() { b, err = pkcs12.Encode(ks.key, cert, cas, bad) })
			w.Check(err != nil && b == nil, "password-refused", "Encode accepted a password that PKCS#12 cannot express: %q", bad)
			w.Hit("refused-password")
		}
		w.API("Encode", limBig, func() { ks.der, err = pkcs12.Encode(ks.key, cert, cas, ks.pwd) })
		w.Check(err == nil, "encode-error", "Encode of a %s key failed: %v", ks.kind, err)
		c.independent(ks)
	}
	w.Log("keystore %s key, %d certificates, by %s: %s", ks.kind, len(ks.certs), ks.from, hx(ks.der))
	c.all = append(c.all, ks)
	c.open(ks.der, ks.pwd, ks)
}

func pkcs8Of(k *signKey) []byte {
	if k.kind == "sm2" {
		return pkcs8(sec1(ref.B32(k.d.D), "", point04(pt(&k.d.PublicKey))))
	}
	b, err := stdx509.MarshalPKCS8PrivateKey(k.priv)
	if err != nil {
		panic(err)
	}
	return b
}

func (g *golden) load() *keystore {
	b, err := os.ReadFile(filepath.Join(dataDir, "p12", g.File))
	if err != nil {
		panic(err)
	}
	ks := &keystore{der: b, pwd: g.Password, kind: g.Kind, from: "a version of long ago (" + g.File + ")", std: g.Kind != "sm2"}
	raw, _ := hex.DecodeString(g.Key)
	if g.Kind == "sm2" {
		ks.key = keyOf(new(big.Int).SetBytes(raw))
	} else if ks.key, err = stdx509.ParsePKCS8PrivateKey(raw); err != nil {
		panic(err)
	}
	for _, s := range g.Certs {
		c, _ := hex.DecodeString(s)
		ks.certs = append(ks.certs, c)
	}
	return ks
}

// independent opens what Encode made with two other implementations.
func (c *c12world) independent(ks *keystore) {
	w := c.w
	p, err := ref.ReadP12(ks.der, ks.pwd)
	w.Check(err == nil, "independent", "an independent reader does not open what Encode made (password %q): %v", ks.pwd, err)
	w.Check(len(p.Certs) == len(ks.certs), "independent", "%d certificates in the keystore, %d were given", len(p.Certs), len(ks.certs))
	fp := sha1.Sum(ks.certs[0])
	for i, b := range p.Certs {
		w.Check(bytes.Equal(b, ks.certs[i]), "independent", "certificate %d in the keystore is not the one given", i)
		if i == 0 {
			w.Check(bytes.Equal(p.KeyID[0], fp[:]), "independent", "the end-entity certificate's local key id is %x, want %x", p.KeyID[0], fp)
		}
	}
	w.Check(bytes.Equal(p.ID, fp[:]), "independent", "the key's local key id is %x, want %x", p.ID, fp)
	if sk, ok := ks.key.(*sm2.PrivateKey); ok {
		bad := checkPKCS8(p.Key, sk.D)
		w.Check(bad == "", "independent", "the key in the keystore: %s", bad)
	} else {
		k, err := stdx509.ParsePKCS8PrivateKey(p.Key)
		w.Check(err == nil && keyString(k) == keyString(ks.key), "independent", "the key in the keystore is not the one given: %v", err)
		blocks, err := xp12.ToPEM(ks.der, ks.pwd)
		w.Check(err == nil && len(blocks) == len(ks.certs)+1, "independent", "golang.org/x/crypto does not open what Encode made: %v", err)
		w.Hit("xcrypto")
	}
	for _, s := range p.Salts[:2] {
		a := ref.P12Key(1, must(ref.BMP(ks.pwd)), s, 2048, 20)
		if a[0] == 0 {
			w.Hit("key-derivation-short-block")
		}
	}
}

// headers are the attributes that belong to a block of ToPEM.
func (ks *keystore) headers(bl *pem.Block, first bool) map[string]string {
	m := map[string]string{}
	st := &ks.style
	if bl.Type == "CERTIFICATE" && !first {
		if st.CAName != "" {
			m["friendlyName"] = strings.TrimPrefix(st.CAName, ref.PresentEmpty)
		}
		return m
	}
	if st.Name != "" {
		m["friendlyName"] = strings.TrimPrefix(st.Name, ref.PresentEmpty)
	}
	id := st.KeyID
	if id == nil {
		fp := sha1.Sum(ks.certs[0])
		id = fp[:]
	}
	m["localKeyId"] = hex.EncodeToString(id)
	if bl.Type != "CERTIFICATE" && st.CSP != "" {
		m["Microsoft CSP Name"] = strings.TrimPrefix(st.CSP, ref.PresentEmpty)
	}
	return m
}

func must(b []byte, ok bool) []byte {
	if !ok {
		panic("password")
	}
	return b
}

// macIterations is what the bytes declare.
func macIterations(b []byte) int {
	var v struct {
		Version int
		Safe    asn1.RawValue
		Mac     struct {
			Mac        asn1.RawValue
			Salt       []byte
			Iterations int `asn1:"optional,default:1"`
		} `asn1:"optional"`
	}
	if _, err := asn1.Unmarshal(b, &v); err != nil {
		return 1
	}
	return v.Mac.Iterations
}

// open tries one or more entry points. If whole is given, b is that keystore unaltered and the password is right.
func (c *c12world) open(b []byte, pwd string, whole *keystore) {
	w, t := c.w, c.w.T
	it := macIterations(b)
	if it > 300_000 {
		w.Hit("huge-iterations")
		return
	}
	limit := int64(limBig) + int64(len(b))*3000
	if it > 0 {
		limit += int64(it) * 20
	}
	first := t.Int(4)
	count := 1
	if whole != nil {
		count = 4
	}
	for i := 0; i < count; i++ {
		g := guard(b)
		var key any
		var certs [][]byte
		var err error
		entry := [...]string{"DecodeAll", "Decode", "ToPEM", "SM2P12Decrypt"}[(first+i)%4]
		nothing := true
		wantOK, wantCerts := true, 0 // 0: all
		switch entry {
		case "DecodeAll":
			var cs []*x509.Certificate
			w.API(entry, limit, func() { key, cs, err = pkcs12.DecodeAll(g.b, pwd) })
			for _, x := range cs {
				certs = append(certs, x.Raw)
			}
			nothing = key == nil && cs == nil
		case "Decode":
			var x *stdx509.Certificate
			w.API(entry, limit, func() { key, x, err = pkcs12.Decode(g.b, pwd) })
			if x != nil {
				certs = [][]byte{x.Raw}
			}
			nothing = key == nil && x == nil
			wantCerts = 1
			wantOK = whole != nil && whole.std
		case "ToPEM":
			var blocks []*pem.Block
			w.API(entry, limit, func() { blocks, err = pkcs12.ToPEM(g.b, pwd) })
			wantOK = whole != nil && whole.kind != "sm2"
			nothing = blocks == nil
			for _, bl := range blocks {
				switch bl.Type {
				case "CERTIFICATE":
					certs = append(certs, bl.Bytes)
				case "PRIVATE KEY":
					w.Check(key == nil, "two-keys", "ToPEM returned two keys from a keystore that holds one")
					if k, e := stdx509.ParsePKCS1PrivateKey(bl.Bytes); e == nil {
						key = k
					} else if k, e := stdx509.ParseECPrivateKey(bl.Bytes); e == nil {
						key = k
					} else {
						w.Fail("pem-key", "the key block of ToPEM does not parse: %x", bl.Bytes)
					}
				default:
					w.Fail("pem-type", "ToPEM returned a block of type %q", bl.Type)
				}
			}
			if whole != nil && err == nil && len(certs) > 0 {
				seen := false // the certificate may stand among its own CA certificates again
				for j, bl := range blocks {
					first := bl.Type == "CERTIFICATE" && !seen
					seen = seen || first
					want := whole.headers(bl, first)
					w.Check(fmt.Sprint(bl.Headers) == fmt.Sprint(want), "pem-headers", "PEM block %d (%s) has the headers %v, the keystore says %v", j, bl.Type, bl.Headers, want)
				}
			}
		case "SM2P12Decrypt":
			path := fmt.Sprintf("/data/in-%d.p12", t.Int(4))
			path += w.Cur().Name
			w.Disk.Put(path, g.b)
			var x *x509.Certificate
			w.API(entry, limit, func() { x, key, err = pkcs12.SM2P12Decrypt(path, pwd) })
			if x != nil {
				certs = [][]byte{x.Raw}
			}
			nothing = key == nil && x == nil
			wantCerts = 1
			wantOK = whole != nil && (whole.kind == "sm2" || whole.kind == "rsa")
		}
		w.Check(g.intact(), "arguments", "%s changed its input", entry)
		w.Log("%s: %s", entry, errStr(err))
		if err != nil {
			w.Check(whole == nil || !wantOK, "refused-right", "%s refuses an undamaged keystore of a %s key by %s, password %q: %v (%x)", entry, kindOf(whole), fromOf(whole), pwd, err, b)
			w.Check(nothing || entry == "Decode" || entry == "DecodeAll", "error-with-result", "%s returned an error and a result", entry)
			w.Hit("refused")
			continue
		}
		w.Hit("opened")
		ok := false
		var why string
		for _, ks := range c.all {
			if !ref.SamePassword(ks.pwd, pwd) || keyString(ks.key) != keyString(key) {
				continue
			}
			want := ks.certs
			if wantCerts == 1 {
				want = want[:1]
			}
			if len(want) != len(certs) {
				why = fmt.Sprintf("; the key is right, but %d certificates came instead of %d", len(certs), len(want))
				continue
			}
			same := true
			for j := range want {
				if !bytes.Equal(want[j], certs[j]) {
					same = false
					why = fmt.Sprintf("; the key is right, but certificate %d is another", j)
				}
			}
			if same && (whole == nil || whole == ks) {
				ok = true
			}
		}
		w.Check(ok, "wrong-identity", "%s returned an identity that was not stored under password %q%s: %.120s (undamaged: %v) %s", entry, pwd, why, keyString(key), whole != nil, hx(b))
	}
}

func kindOf(k *keystore) string {
	if k == nil {
		return "?"
	}
	return k.kind
}

func fromOf(k *keystore) string {
	if k == nil {
		return "?"
	}
	return k.from
}

// near decides a password that differs from pwd.
func nearPassword(t *vsim.Tape, pwd string) string {
	r := []rune(pwd)
	switch t.Int(10) {
	case 8: // behind or before a NUL
		if i := strings.IndexByte(pwd, 0); i >= 0 && t.One(2) {
			return pwd[:i]
		}
		return pwd + "\x00" + word(t)
	case 0:
		return ""
	case 1:
		return pwd + " "
	case 2:
		if len(r) > 0 {
			return string(r[:len(r)-1])
		}
	case 3:
		if len(r) > 0 {
			i := t.Int(len(r))
			r[i] ^= 0x20
			if r[i] == 0 {
				r[i] = 'y'
			}
			return string(r)
		}
	case 4: // same low byte
		if len(r) > 0 {
			i := t.Int(len(r))
			r[i] ^= 0x100
			return string(r)
		}
	case 5:
		if len(r) > 1 {
			i := t.Int(len(r) - 1)
			r[i], r[i+1] = r[i+1], r[i]
			return string(r)
		}
	case 6:
		return pwd + pwd
	case 7:
		if len(r) > 0 {
			r[len(r)-1]++
			return string(r)
		}
	}
	return somePassword(t)
}

func valid(pwd string) bool {
	for _, r := range pwd {
		if r == 0xfffd || r > 0xffff {
			return false
		}
	}
	return true
}

// altered is the authenticated safe of a keystore as content info, with other contents than the MAC covers (most
// of the time).
func (c *c12world) altered(ks *keystore) []byte {
	w, t := c.w, c.w.T
	top := readEl(ks.der)
	info := top.at(1)
	safes := readEl(top.at(1, 1, 0).val)
	if safes == nil || len(safes.kids) < 2 {
		return info.full
	}
	kids := []([]byte){safes.kids[0].full, safes.kids[1].full}
	switch t.Weighted(1, 4, 2, 1) {
	case 0:
		return info.full
	case 1: // one safe of another keystore of the same password
		var same []*keystore
		for _, k := range c.all {
			if k != ks && ref.SamePassword(k.pwd, ks.pwd) {
				same = append(same, k)
			}
		}
		if len(same) == 0 {
			return info.full
		}
		d := readEl(same[t.Int(len(same))].der)
		if d == nil || d.at(1, 1, 0) == nil {
			return info.full
		}
		sd := readEl(d.at(1, 1, 0).val)
		if sd == nil || len(sd.kids) != 2 {
			return info.full
		}
		i := t.Int(2)
		kids[i] = sd.kids[i].full
		w.Hit("mixed-under-altered-mac")
	case 2: // some bit of a safe
		i := t.Int(2)
		kids[i] = clone(kids[i])
		n := len(kids[i])
		kids[i][n-1-t.Int(n*3/4)] ^= 1 << t.Int(8)
	case 3:
		kids = append(kids, kids[t.Int(2)])
	}
	return seq(oid("1.2.840.113549.1.7.1"), ctx(0, octets(seq(kids...))))
}

func (c *c12world) deliver() {
	w, t := c.w, c.w.T
	ks := c.all[t.Int(len(c.all))]
	donor := c.all[t.Int(len(c.all))]
	switch t.Weighted(2, 3, 5, 1, 1, 2) {
	case 0:
		c.open(ks.der, ks.pwd, ks)
	case 1:
		pwd := nearPassword(t, ks.pwd)
		if ref.SamePassword(pwd, ks.pwd) || !valid(pwd) {
			return
		}
		w.Fired("wrong-password")
		c.open(ks.der, pwd, nil)
	case 2:
		b, how := vsim.Damage(t, ks.der, donor.der)
		w.Log("damage: %s", how)
		w.Fired("damaged")
		pwd := ks.pwd
		if t.One(4) {
			pwd = donor.pwd
			w.Hit("spliced")
		}
		c.open(b, pwd, nil)
	case 3: // without its MAC
		top := readEl(ks.der)
		if top == nil || len(top.kids) < 3 {
			return
		}
		w.Fired("mac-stripped")
		safe := c.altered(ks)
		b := seq(top.kids[0].full, safe)
		switch t.Int(3) {
		case 1:
			b = seq(top.kids[0].full, safe, seq(seq(seq(oid("1.3.14.3.2.26"), null()), octets(nil)), octets(t.Bytes(8)), integer(1)))
		case 2:
			b = seq(top.kids[0].full, safe, seq(seq(seq(), octets(nil)), octets(nil)))
		}
		c.open(b, ks.pwd, nil)
	case 4: // the safes of two keystores in one, the first's MAC
		a, d := readEl(ks.der), readEl(donor.der)
		if a == nil || d == nil || len(a.kids) < 3 || len(d.kids) < 3 {
			return
		}
		sa, sd := readEl(a.at(1, 1, 0).val), readEl(d.at(1, 1, 0).val)
		if sa == nil || sd == nil || len(sa.kids) != 2 || len(sd.kids) != 2 {
			return
		}
		w.Fired("mixed-safes")
		mixed := seq(sa.kids[0].full, sd.kids[1].full)
		mac := a.kids[2].full
		if t.One(2) {
			mac = d.kids[2].full
		}
		c.open(seq(a.kids[0].full, seq(oid("1.2.840.113549.1.7.1"), ctx(0, octets(mixed))), mac), ks.pwd, nil)
	case 5: // the MAC altered in ways that keep its form
		top := readEl(ks.der)
		if top == nil || len(top.kids) < 3 {
			return
		}
		m := top.kids[2]
		digest := clone(m.at(0, 1).val)
		salt := clone(m.at(1).val)
		id := "1.3.14.3.2.26"
		it := 1
		switch t.Int(5) {
		case 0:
			id = [...]string{"2.16.840.1.101.3.4.2.1", "1.2.156.10197.1.401", "1.2.840.113549.2.5"}[t.Int(3)]
		case 1:
			digest[t.Int(len(digest))] ^= 1 << t.Int(8)
		case 2:
			digest = digest[:t.Int(len(digest))]
			if t.One(2) {
				digest = nil
			}
		case 3:
			if t.One(2) {
				digest = append(digest, t.Bytes(1+t.Int(3))...)
			} else if len(salt) > 0 {
				salt[t.Int(len(salt))] ^= 1 << t.Int(8)
			}
		case 4:
			it = 2 + t.Int(5)
		}
		w.Fired("relabelled-mac")
		if m := top.at(2, 2); m != nil && it == 1 {
			it = macIterations(ks.der)
		}
		b := seq(top.kids[0].full, c.altered(ks), seq(seq(seq(oid(id), null()), octets(digest)), octets(salt), integer(int64(it))))
		c.open(b, ks.pwd, nil)
	}
}

// ambiguous are sound keystores of other writers that do not hold exactly one identity: which key belongs to the
// certificate cannot be told, so every decoding door refuses them; ToPEM may list what is there.
func (c *c12world) ambiguous() {
	w, t := c.w, c.w.T
	pwd := c.pwds[t.Int(len(c.pwds))]
	pw, ok := ref.BMP(pwd)
	if !ok {
		return
	}
	var keys []*signKey
	var ders [][]byte
	for i := 0; i < 2; i++ {
		k := someKey(t)
		for k.kind == "ed25519" {
			k = someKey(t)
		}
		keys, ders = append(keys, k), append(ders, pkcs8Of(k))
	}
	cert := someHolder(t, keys[t.Int(2)])
	if t.One(2) { // both standard, so that Decode can read the certificate
		cert = stdKey("p256", 0).holder(t)
	}
	salts := func() (s [3][]byte) {
		for i := range s {
			s[i] = t.Bytes(8 + t.Int(13))
		}
		return
	}
	st := someStyle(t)
	var second []byte // the other key's bag
	ref.WriteP12Styled(ders[1], [][]byte{cert}, pw, salts(), 1+t.Int(100), 1, st, func(layer string, b []byte) []byte {
		if layer == "key-bags" {
			second = readEl(b).kids[0].full
		}
		return b
	})
	what := t.Int(4)
	how := [...]string{"two keys", "no key", "no certificate", "neither key nor certificate"}[what]
	b := ref.WriteP12Styled(ders[0], [][]byte{cert}, pw, salts(), 1+t.Int(100), 1, st, func(layer string, b []byte) []byte {
		switch {
		case layer == "key-bags" && what == 0:
			first := readEl(b).kids[0].full
			if t.One(2) {
				return seq(second, first)
			}
			return seq(first, second)
		case layer == "key-bags" && (what == 1 || what == 3), layer == "cert-bags" && what >= 2:
			return seq()
		}
		return b
	})
	w.Hit("ambiguous")
	w.Log("a keystore with %s", how)
	limit := int64(limBig) + int64(len(b))*3000
	var key any
	var cs []*x509.Certificate
	var x *x509.Certificate
	var sx *stdx509.Certificate
	var err error
	g := guard(b)
	switch t.Int(4) {
	case 0:
		w.API("DecodeAll", limit, func() { key, cs, err = pkcs12.DecodeAll(g.b, pwd) })
		w.Check(err != nil && key == nil && cs == nil, "ambiguous", "DecodeAll of a keystore with %s gives key %s, %d certificates and error %v", how, keyString(key), len(cs), err)
	case 1:
		w.API("Decode", limit, func() { key, sx, err = pkcs12.Decode(g.b, pwd) })
		w.Check(err != nil && key == nil && sx == nil, "ambiguous", "Decode of a keystore with %s gives key %s, a certificate (%v) and error %v", how, keyString(key), sx != nil, err)
	case 2:
		path := "/data/ambiguous.p12" + w.Cur().Name
		w.Disk.Put(path, g.b)
		w.API("SM2P12Decrypt", limit, func() { x, key, err = pkcs12.SM2P12Decrypt(path, pwd) })
		w.Check(err != nil && key == nil && x == nil, "ambiguous", "SM2P12Decrypt of a keystore with %s gives key %s, a certificate (%v) and error %v", how, keyString(key), x != nil, err)
	case 3:
		var blocks []*pem.Block
		w.API("ToPEM", limit, func() { blocks, err = pkcs12.ToPEM(g.b, pwd) })
		nk, nc := []int{2, 0, 1, 0}[what], []int{1, 1, 0, 0}[what]
		sm2s := what == 0 && (keys[0].kind == "sm2" || keys[1].kind == "sm2") || what == 2 && keys[0].kind == "sm2"
		w.Check((err != nil && blocks == nil) || !sm2s, "ambiguous", "ToPEM gives %d blocks of a keystore with an SM2 key and error %v", len(blocks), err)
		if err == nil {
			for _, bl := range blocks {
				switch bl.Type {
				case "CERTIFICATE":
					nc--
					w.Check(bytes.Equal(bl.Bytes, cert), "ambiguous", "ToPEM of a keystore with %s gives another certificate", how)
				case "PRIVATE KEY":
					nk--
				}
			}
			w.Check(nk == 0 && nc == 0, "ambiguous", "ToPEM of a keystore with %s gives %d keys too few and %d certificates too few", how, nk, nc)
		}
	}
	w.Check(g.intact(), "arguments", "decoding changed the keystore's bytes")
}

func (k *signKey) holder(t *vsim.Tape) []byte { return someHolder(t, k) }
