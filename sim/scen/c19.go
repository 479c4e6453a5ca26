package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C19", Run: c19, Quick: 5000, Thorough: 250000,
		Rule:   "One evaluation is one simulated run: up to three goroutines encode RSA (two and more primes), ECDSA and Ed25519 keys in every container the library writes and store the bytes on a simulated disk; the process is crashed or the disk fails at a decided point; after the restart the files, some of them damaged or swapped, and encodings in other programs' forms are read back and compared with the key and with what the standard library reads.",
		Real:   []string{"x509/pkcs1.go, pkcs8.go, sec1.go", "x509 public key encoding and parsing"},
		Stub:   []string{"disk (simulated, with faults)", "process crash and restart (simulated)", "goroutine scheduling (simulator)"},
		Need:   []string{"preempted", "crash", "reloaded", "refused", "rsa", "rsa-more-primes", "ecdsa", "ecdsa-short-scalar", "ed25519", "PKCS1", "SEC1", "PKCS8", "PKIX", "PKCS1-public", "other-container", "other-forms", "disk-damage", "unsupported-kind"},
		Assume: []string{"Go's crypto/x509 writes and reads the standard encodings"},
	})
}

type kept19 struct {
	form, path string
	der        []byte
	key        any
}

type form19 struct {
	name    string
	marshal func(key any) ([]byte, error)
	std     func(key any) ([]byte, error)
	parse   func(b []byte) (any, error)
	stdRead func(b []byte) (any, error)
}

var forms19 = []form19{
	{"PKCS1", func(k any) ([]byte, error) { return x509.MarshalPKCS1PrivateKey(k.(*rsa.PrivateKey)), nil },
		func(k any) ([]byte, error) { return stdx509.MarshalPKCS1PrivateKey(k.(*rsa.PrivateKey)), nil },
		func(b []byte) (any, error) { return x509.ParsePKCS1PrivateKey(b) },
		func(b []byte) (any, error) { return stdx509.ParsePKCS1PrivateKey(b) }},
	{"SEC1", func(k any) ([]byte, error) { return x509.MarshalECPrivateKey(k.(*ecdsa.PrivateKey)) },
		func(k any) ([]byte, error) { return stdx509.MarshalECPrivateKey(k.(*ecdsa.PrivateKey)) },
		x509.ParseECPrivateKey, func(b []byte) (any, error) { return stdx509.ParseECPrivateKey(b) }},
	{"PKCS8", x509.MarshalPKCS8PrivateKey, stdx509.MarshalPKCS8PrivateKey, x509.ParsePKCS8PrivateKey, stdx509.ParsePKCS8PrivateKey},
	{"PKIX", x509.MarshalPKIXPublicKey, stdx509.MarshalPKIXPublicKey, x509.ParsePKIXPublicKey, stdx509.ParsePKIXPublicKey},
	{"PKCS1-public", func(k any) ([]byte, error) { return x509.MarshalPKCS1PublicKey(k.(*rsa.PublicKey)), nil },
		func(k any) ([]byte, error) { return stdx509.MarshalPKCS1PublicKey(k.(*rsa.PublicKey)), nil },
		func(b []byte) (any, error) { return x509.ParsePKCS1PublicKey(b) },
		func(b []byte) (any, error) { return stdx509.ParsePKCS1PublicKey(b) }},
}

var curves19 = []struct {
	c   elliptic.Curve
	oid string
}{{elliptic.P224(), "1.3.132.0.33"}, {elliptic.P256(), "1.2.840.10045.3.1.7"}, {elliptic.P384(), "1.3.132.0.34"}, {elliptic.P521(), "1.3.132.0.35"}}

func ecdsaKey(t *vsim.Tape) (*ecdsa.PrivateKey, string) {
	c := curves19[t.Int(len(curves19))]
	n := c.c.Params().N
	size := (n.BitLen() + 7) / 8
	d := new(big.Int)
	switch t.Weighted(3, 2, 1, 1) {
	case 0:
		d.SetBytes(t.Bytes(size))
	case 1:
		d.SetBytes(t.Bytes(1 + t.Int(size-1)))
	case 2:
		d.Sub(n, big.NewInt(int64(1+t.Int(3))))
	case 3:
		d.SetInt64(int64(1 + t.Int(300)))
	}
	d.Mod(d, n)
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c.c
	k.X, k.Y = c.c.ScalarBaseMult(d.Bytes())
	return k, c.oid
}

// rsaKey decides a key of small primes; its strength is of no matter here.
func rsaKey(t *vsim.Tape) *rsa.PrivateKey {
	if t.One(3) {
		return stdKey("rsa", t.Int(2)).priv.(*rsa.PrivateKey)
	}
	for {
		e := big.NewInt([...]int64{65537, 3, 17, 1<<31 - 1}[t.Weighted(4, 2, 1, 1)])
		k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: big.NewInt(1), E: int(e.Int64())}}
		phi := big.NewInt(1)
		for i := 2 + t.Weighted(3, 2, 1, 1); i > 0; i-- {
			p := new(big.Int).SetBytes(t.Bytes(8 + t.Int(24)))
			p.SetBit(p, 0, 1)
			p.SetBit(p, 61, 1)
			for {
				p1 := new(big.Int).Sub(p, one)
				if p.ProbablyPrime(5) && new(big.Int).GCD(nil, nil, p1, e).Cmp(one) == 0 && new(big.Int).Mod(k.N, p).Sign() != 0 {
					break
				}
				p.Add(p, big.NewInt(2))
			}
			k.Primes = append(k.Primes, p)
			k.N = new(big.Int).Mul(k.N, p)
			phi.Mul(phi, new(big.Int).Sub(p, one))
		}
		k.D = new(big.Int).ModInverse(e, phi)
		if k.D != nil && k.Validate() == nil {
			return k
		}
		if t.Draw(4) == 0 {
			return stdKey("rsa", 0).priv.(*rsa.PrivateKey)
		}
	}
}

func edKey(t *vsim.Tape) ed25519.PrivateKey { return ed25519.NewKeyFromSeed(t.Bytes(32)) }

// sameKey compares by value, without the code under test.
func sameKey(a, b any) bool {
	switch a := a.(type) {
	case *rsa.PrivateKey:
		b, ok := b.(*rsa.PrivateKey)
		if !ok || a == nil || b == nil || a.E != b.E || a.N.Cmp(b.N) != 0 || a.D.Cmp(b.D) != 0 || len(a.Primes) != len(b.Primes) {
			return false
		}
		for i := range a.Primes {
			if a.Primes[i].Cmp(b.Primes[i]) != 0 {
				return false
			}
		}
		return true
	case *rsa.PublicKey:
		b, ok := b.(*rsa.PublicKey)
		return ok && a != nil && b != nil && a.E == b.E && a.N.Cmp(b.N) == 0
	case *ecdsa.PrivateKey:
		b, ok := b.(*ecdsa.PrivateKey)
		return ok && a != nil && b != nil && a.D.Cmp(b.D) == 0 && sameKey(&a.PublicKey, &b.PublicKey)
	case *ecdsa.PublicKey:
		b, ok := b.(*ecdsa.PublicKey)
		return ok && a != nil && b != nil && a.Curve == b.Curve && a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
	case ed25519.PrivateKey:
		b, ok := b.(ed25519.PrivateKey)
		return ok && bytes.Equal(a, b)
	case ed25519.PublicKey:
		b, ok := b.(ed25519.PublicKey)
		return ok && bytes.Equal(a, b)
	case *sm2.PrivateKey:
		b, ok := b.(*sm2.PrivateKey)
		return ok && keyEq(a, b)
	case *dsa.PublicKey:
		b, ok := b.(*dsa.PublicKey)
		return ok && a.Y.Cmp(b.Y) == 0 && a.P.Cmp(b.P) == 0 && a.Q.Cmp(b.Q) == 0 && a.G.Cmp(b.G) == 0
	}
	return false
}

// unsound says what is wrong with a key that was read from somewhere, or "".
func unsound(k any) string {
	switch k := k.(type) {
	case *rsa.PrivateKey:
		p := big.NewInt(1)
		for _, q := range k.Primes {
			p.Mul(p, q)
		}
		if len(k.Primes) == 2 && p.Cmp(k.N) != 0 { // crypto/rsa leaves others unchecked
			return "the primes do not make the modulus"
		}
		if err := k.Validate(); err != nil {
			return err.Error()
		}
	case *rsa.PublicKey:
		if k.N == nil || k.N.Sign() <= 0 || k.E <= 0 {
			return "modulus or exponent is not positive"
		}
	case *ecdsa.PrivateKey:
		if k.D.Sign() <= 0 || k.D.Cmp(k.Curve.Params().N) >= 0 {
			return "the scalar is out of range"
		}
		x, y := k.Curve.ScalarBaseMult(k.D.Bytes())
		if x.Cmp(k.X) != 0 || y.Cmp(k.Y) != 0 {
			return "the public key is not the scalar's"
		}
	case *ecdsa.PublicKey:
		if !k.Curve.IsOnCurve(k.X, k.Y) {
			return "the point is not on the curve"
		}
	case ed25519.PrivateKey:
		if len(k) != 64 || !bytes.Equal(k, ed25519.NewKeyFromSeed(k[:32])) {
			return "not an Ed25519 key"
		}
	case ed25519.PublicKey:
		if len(k) != 32 {
			return "not an Ed25519 key"
		}
	case *sm2.PrivateKey:
		return soundKey(k)
	case *sm2.PublicKey:
		if !ref.OnCurve(k.X, k.Y) {
			return "the point is not on the curve"
		}
	}
	return ""
}

func nameOf(k any) string {
	switch k := k.(type) {
	case *rsa.PrivateKey:
		return fmt.Sprintf("an RSA key of %d primes, modulus %x, exponent %d", len(k.Primes), k.N, k.E)
	case *ecdsa.PrivateKey:
		return fmt.Sprintf("a %s key d=%x", k.Curve.Params().Name, k.D)
	case ed25519.PrivateKey:
		return fmt.Sprintf("an Ed25519 key of seed %x", k.Seed())
	case *rsa.PublicKey:
		return fmt.Sprintf("an RSA public key, modulus %x, exponent %d", k.N, k.E)
	case *ecdsa.PublicKey:
		return fmt.Sprintf("a %s public key %x,%x", k.Curve.Params().Name, k.X, k.Y)
	case ed25519.PublicKey:
		return fmt.Sprintf("an Ed25519 public key %x", []byte(k))
	}
	return fmt.Sprintf("%T", k)
}

func c19(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("app")
	var all []*kept19
	w.Disk.PutDir("/data/keys", 0o755)
	tasks := 1 + t.Int(3)
	for i := 0; i < tasks; i++ {
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for j := 1 + t.Int(3); j > 0; j-- {
				c19make(w, &all, fmt.Sprintf("/data/keys/k%d-%d", i, j))
			}
		})
	}
	switch t.Weighted(4, 2, 2) {
	case 1:
		w.At(time.Duration(t.Int(1<<[...]int{10, 12, 14, 16}[t.Int(4)]))*50*time.Nanosecond, func() { w.Crash(p) })
	case 2:
		w.Disk.Trap = 1 + t.Int(30)
		w.Disk.OnTrap = func() { w.At(0, func() { w.Crash(p) }); w.Yield() }
	}
	if t.One(5) {
		op := [...]string{"write", "open", "sync", "close"}[t.Int(4)]
		w.Disk.Faults = append(w.Disk.Faults, &vsim.DiskFault{Op: op, After: t.Int(6), Short: t.Int(40) - 1, Err: errSome})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
	if w.Stopped() {
		return
	}
	if t.One(2) {
		w.Disk.PowerLoss()
		w.Fired("power-loss")
	}
	w.Disk.Faults = nil
	w.Disk.Trap = 0
	p2 := w.NewProc("restarted")
	for i := t.Weighted(2, 2, 1); i > 0 && len(all) > 0; i-- {
		s, donor := all[t.Int(len(all))], all[t.Int(len(all))]
		if b := w.Disk.Peek(s.path); b != nil {
			nb, how := vsim.Damage(t, b, donor.der)
			w.Disk.Damage(s.path, nb)
			w.Log("damaged %s: %s", s.path, how)
			w.Fired("disk-damage")
		}
	}
	for i := 0; i < 2; i++ {
		w.Go(p2, fmt.Sprintf("load%d", i), func() {
			for j, s := range all {
				if j%2 == i {
					if b := w.Disk.Peek(s.path); b != nil {
						c19read(w, s.form, b, s)
					}
				}
			}
			c19foreign(w)
			for n := t.Int(4); n > 0; n-- {
				c19malformed(w)
			}
		})
	}
	w.Run()
}

func c19make(w *vsim.World, all *[]*kept19, path string) {
	t := w.T
	var priv, pub any
	var forms []int
	switch t.Weighted(3, 3, 1) {
	case 0:
		k := rsaKey(t)
		priv, pub = k, &k.PublicKey
		forms = []int{0, 2, 3, 4}
		w.Hit("rsa")
		if len(k.Primes) > 2 {
			w.Hit("rsa-more-primes")
		}
	case 1:
		k, _ := ecdsaKey(t)
		priv, pub = k, &k.PublicKey
		forms = []int{1, 2, 3}
		w.Hit("ecdsa")
		if k.D.BitLen() <= k.Curve.Params().N.BitLen()-8 {
			w.Hit("ecdsa-short-scalar")
		}
	case 2:
		k := edKey(t)
		priv, pub = k, k.Public().(ed25519.PublicKey)
		forms = []int{2, 3}
		w.Hit("ed25519")
	}
	if t.One(8) {
		c19unsupported(w)
	}
	for _, i := range forms {
		f := forms19[i]
		key := priv
		if i >= 3 {
			key = pub
		}
		want, err := f.std(key)
		if err != nil {
			panic(err)
		}
		var got []byte
		w.API("Marshal"+f.name, limSmall+int64(len(want))*2000, func() { got, err = f.marshal(key) })
		w.Check(err == nil, "marshal-error", "%s cannot be encoded as %s: %v", nameOf(key), f.name, err)
		w.Check(bytes.Equal(got, want), "form", "the %s encoding of %s is %x, the standard one is %x", f.name, nameOf(key), got, want)
		w.Hit(f.name)
		w.Log("%s of %s", f.name, nameOf(key))
		k := &kept19{f.name, path + "." + f.name, got, key}
		*all = append(*all, k)
		fd, err := vsim.OpenFile(k.path, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o600)
		if err != nil {
			continue
		}
		fd.Write(got)
		if t.One(2) {
			fd.Sync()
		}
		fd.Close()
	}
	// encoding must not have changed the key
	bad := unsound(priv)
	if bad == "" {
		bad = unsound(pub)
	}
	if bad == "" && !pub.(interface{ Equal(crypto.PublicKey) bool }).Equal(priv.(crypto.Signer).Public()) {
		bad = "the public key is another"
	}
	w.Check(bad == "", "arguments", "encoding changed %s: %s", nameOf(priv), bad)
}

func c19unsupported(w *vsim.World) {
	t := w.T
	w.Hit("unsupported-kind")
	odd := &ecdsa.PrivateKey{D: big.NewInt(5)}
	pr := *elliptic.P256().Params()
	odd.Curve = &pr
	odd.X, odd.Y = elliptic.P256().ScalarBaseMult([]byte{5})
	rk := stdKey("rsa", 0).priv.(*rsa.PrivateKey)
	for _, k := range []any{nil, "key", *rk, rk.PublicKey, odd, &dsa.PrivateKey{}, []byte{1}, 5}[t.Int(8):] {
		var b []byte
		var err error
		w.API("MarshalPKCS8", limSmall, func() { b, err = x509.MarshalPKCS8PrivateKey(k) })
		w.Check(err != nil && len(b) == 0, "unsupported-encoded", "a %T is encoded as PKCS#8: %x", k, b)
		if pk, ok := k.(*ecdsa.PrivateKey); ok {
			w.API("MarshalSEC1", limSmall, func() { b, err = x509.MarshalECPrivateKey(pk) })
			w.Check(err != nil && len(b) == 0, "unsupported-encoded", "a key of an unknown curve is encoded as SEC 1: %x", b)
			k = &pk.PublicKey
		}
		w.API("MarshalPKIX", limSmall, func() { b, err = x509.MarshalPKIXPublicKey(k) })
		w.Check(err != nil && len(b) == 0, "unsupported-encoded", "a %T is encoded as PKIX: %x", k, b)
	}
}

// c19read reads b, which was written as s in the given form.
func c19read(w *vsim.World, form string, b []byte, s *kept19) {
	t := w.T
	whole := bytes.Equal(b, s.der)
	g := guard(b)
	for _, f := range forms19 {
		if f.name != form && !t.One(3) {
			continue
		}
		var k any
		var err error
		w.API("Parse"+f.name, limBig+int64(len(b))*2000, func() { k, err = f.parse(g.b) })
		w.Check(g.intact(), "arguments", "Parse%s changed its input", f.name)
		w.Log("read %s as %s (%d bytes, whole %v): %s", form, f.name, len(b), whole, errStr(err))
		if f.name == form {
			if whole {
				w.Check(err == nil, "reload", "the stored %s encoding of %s does not parse: %v", form, nameOf(s.key), err)
				w.Check(sameKey(s.key, k), "reload", "the stored %s encoding of %s is read as %s", form, nameOf(s.key), nameOf(k))
				w.Hit("reloaded")
			}
		} else if whole {
			w.Hit("other-container")
			w.Check(err != nil, "other-container", "a %s encoding of %s is read as %s", form, nameOf(s.key), f.name)
		}
		if err != nil {
			w.Hit("refused")
			continue
		}
		c19judge(w, f, b, k)
	}
}

// c19judge checks a key that was read from b.
func c19judge(w *vsim.World, f form19, b []byte, k any) {
	bad := unsound(k)
	w.Check(bad == "", "bad-key-accepted", "Parse%s(%x) returned %s: %s", f.name, b, nameOf(k), bad)
	if sk, e := f.stdRead(b); e == nil {
		w.Check(sameKey(sk, k), "read-differently", "Parse%s(%x) returned %s, the standard library reads %s", f.name, b, nameOf(k), nameOf(sk))
	} else if !c19ours(k, b, f) {
		w.Fail("damaged-accepted", "Parse%s(%x) returned %s, the standard library says %v", f.name, b, nameOf(k), e)
	}
}

// c19ours reports whether k is a key that only this library reads: an SM2 key, or an RSA key with wrong values for
// the Chinese remainder theorem, which it computes again.
func c19ours(k any, b []byte, f form19) bool {
	switch k := k.(type) {
	case *rsa.PrivateKey:
		in := b
		if f.name == "PKCS8" {
			if readEl(b) == nil {
				return true
			}
			in = readEl(b).at(2).val
		}
		e, right := readEl(in), readEl(stdx509.MarshalPKCS1PrivateKey(k))
		if e == nil || len(e.kids) < 9 {
			return e == nil
		}
		parts := [][]byte{}
		for i, x := range right.kids {
			if i < 6 {
				x = e.at(i)
			}
			parts = append(parts, x.full)
		}
		in = seq(parts...)
		if f.name == "PKCS8" {
			o := [][]byte{}
			for i, x := range readEl(b).kids {
				if i == 2 {
					o = append(o, octets(in))
				} else {
					o = append(o, x.full)
				}
			}
			in = seq(o...)
		}
		sk, err := f.stdRead(in)
		return err == nil && sameKey(sk, k)
	case *sm2.PrivateKey, *sm2.PublicKey:
		return bytes.Contains(b, oid(oidSM2Curve))
	}
	return false
}

// c19foreign reads what other programs write: forms that the standards allow and this library does not write.
func c19foreign(w *vsim.World) {
	t := w.T
	for i := t.Int(3); i > 0; i-- {
		w.Hit("other-forms")
		var key any
		var form string
		var der []byte
		switch t.Weighted(3, 1, 1, 1) {
		case 0:
			k, curve := ecdsaKey(t)
			key = k
			size := (k.Curve.Params().N.BitLen() + 7) / 8
			raw := k.D.FillBytes(make([]byte, size))
			switch t.Int(3) {
			case 0:
				raw = k.D.Bytes()
			case 1:
				raw = append(make([]byte, t.Int(4)), raw...)
			}
			var pub []byte
			if t.One(2) {
				pub = elliptic.Marshal(k.Curve, k.X, k.Y)
			}
			form = "PKCS8"
			inner := ""
			if t.One(2) {
				inner = curve
			}
			if t.One(2) {
				form, inner = "SEC1", curve
			}
			der = sec1(raw, inner, pub)
			if form == "PKCS8" {
				parts := [][]byte{integer(0), seq(oid(oidECKey), oid(curve)), octets(der)}
				if t.One(3) { // attributes
					parts = append(parts, ctx(0, seq(oid("1.2.840.113549.1.9.20"), set(octets(t.Bytes(3))))))
				}
				der = seq(parts...)
			}
		case 1:
			k := rsaKey(t)
			key, form = k, "PKCS8"
			parts := [][]byte{integer(0), seq(oid("1.2.840.113549.1.1.1"), null()), octets(stdx509.MarshalPKCS1PrivateKey(k))}
			if t.One(2) {
				parts = append(parts, ctx(0, seq(oid("1.2.840.113549.1.9.20"), set(octets(t.Bytes(3))))))
			}
			der = seq(parts...)
		case 2:
			k := edKey(t)
			key, form = k, "PKCS8"
			parts := [][]byte{integer(0), seq(oid("1.3.101.112")), octets(octets(k.Seed()))}
			if t.One(2) { // RFC 5958
				parts[0] = integer(1)
				parts = append(parts, ctxPrim(1, append([]byte{0}, k.Public().(ed25519.PublicKey)...)))
			}
			der = seq(parts...)
		case 3: // a DSA public key
			v := func() *big.Int { return new(big.Int).SetBytes(append([]byte{1}, t.Bytes(t.Int(30))...)) }
			k := &dsa.PublicKey{Parameters: dsa.Parameters{P: v(), Q: v(), G: v()}, Y: v()}
			key, form = k, "PKIX"
			der = seq(seq(oid("1.2.840.10040.4.1"), seq(bigInteger(k.P), bigInteger(k.Q), bigInteger(k.G))), bits(bigInteger(k.Y)))
		}
		for _, f := range forms19 {
			if f.name != form {
				continue
			}
			var k any
			var err error
			w.API("Parse"+f.name, limBig+int64(len(der))*2000, func() { k, err = f.parse(der) })
			w.Log("foreign %s of %s: %s", form, nameOf(key), errStr(err))
			w.Check(err == nil, "standard-refused", "a standard %s encoding of %s is refused: %v (%x)", form, nameOf(key), err, der)
			w.Check(sameKey(key, k), "standard-misread", "a standard %s encoding of %s is read as %s (%x)", form, nameOf(key), nameOf(k), der)
		}
	}
}

// c19malformed reads a key encoding with one thing wrong: it is refused, or read as the standard library reads it.
func c19malformed(w *vsim.World) {
	t := w.T
	w.Fired("malformed-key")
	var form, how string
	var der []byte
	pick := func(n string, parts ...[]byte) []byte { how = n; return seq(parts...) }
	big1 := func(x *big.Int) []byte { return bigInteger(x) }
	switch t.Weighted(3, 2, 3, 2, 3) {
	case 0: // SEC 1, alone or inside PKCS #8
		k, curve := ecdsaKey(t)
		form, der, how = malformedEC(t, ecInfo(k, curve))
	case 1: // Ed25519
		k := edKey(t)
		form = "PKCS8"
		id, seed := oid("1.3.101.112"), k.Seed()
		der = func() []byte {
			switch t.Int(10) {
			case 0:
				return pick("null parameters", integer(0), seq(id, null()), octets(octets(seed)))
			case 1:
				return pick("parameters", integer(0), seq(id, oid(curves19[1].oid)), octets(octets(seed)))
			case 2:
				return pick("a short seed", integer(0), seq(id), octets(octets(seed[:t.Int(32)])))
			case 3:
				return pick("a long seed", integer(0), seq(id), octets(octets(append(clone(seed), t.Bytes(1+t.Int(40))...))))
			case 4:
				return pick("seed and public key", integer(0), seq(id), octets(octets(k)))
			case 5:
				return pick("the seed without wrapping", integer(0), seq(id), octets(seed))
			case 6:
				return pick("another Edwards or Montgomery curve", integer(0), seq(oid([...]string{"1.3.101.110", "1.3.101.111", "1.3.101.113"}[t.Int(3)])), octets(octets(seed)))
			case 7:
				return pick("the seed in bits", integer(0), seq(id), octets(bits(seed)))
			case 8:
				return pick("the key in bits", integer(0), seq(id), bits(octets(seed)))
			}
			return pick("no algorithm", integer(0), octets(octets(seed)))
		}()
	case 2: // RSA
		k := rsaKey(t)
		e := readEl(stdx509.MarshalPKCS1PrivateKey(k))
		var parts [][]byte
		for _, x := range e.kids {
			parts = append(parts, x.full)
		}
		form = "PKCS1"
		i := 1 + t.Int(5)
		num := []*big.Int{nil, k.N, big.NewInt(int64(k.E)), k.D, k.Primes[0], k.Primes[1]}[i]
		switch t.Int(12) {
		case 0:
			parts[0], how = integer(int64([...]int{1, 2, 3, -1}[t.Int(4)])), "another version"
		case 1:
			parts[i], how = big1(new(big.Int).Neg(num)), "a negative number"
		case 2:
			parts[i], how = integer(0), "zero for a number"
		case 3:
			parts[i], how = integer(1), "one for a number"
		case 4:
			parts[i], how = big1(new(big.Int).Add(num, big.NewInt(int64(2*(1+t.Int(40)))))), "another number"
		case 5:
			parts[2], how = big1(new(big.Int).Lsh(one, uint(31+t.Int(60)))), "a large exponent"
		case 6:
			parts, how = append(parts[:i], parts[i+1:]...), "a missing number"
		case 7:
			parts, how = append(parts, seq(seq(integer(3), integer(3), integer(3)))), "a further prime"
		case 8:
			parts[i], how = octets(num.Bytes()), "a number in octets"
		case 9:
			parts, how = parts[:6], "no numbers for the remainder theorem"
		case 10:
			parts[i], how = tlv(2, append([]byte{0, 0}, num.Bytes()...)), "a padded number"
		case 11:
			parts[4], parts[5], how = big1(one), big1(k.N), "one as a prime"
		}
		der = seq(parts...)
		if t.One(2) {
			alg := seq(oid("1.2.840.113549.1.1.1"), null())
			form = "PKCS8"
			if t.One(4) {
				alg, how = seq(oid([...]string{"1.2.840.113549.1.1.7", oidRSAPSS, "1.2.840.113549.1.1.11"}[t.Int(3)]), null()), how+", another algorithm"
			}
			der = seq(integer(0), alg, octets(der))
		}
	case 3: // RSA, Ed25519 public keys
		k := rsaKey(t)
		N, E := bigInteger(k.N), integer(int64(k.E))
		id := seq(oid("1.2.840.113549.1.1.1"), null())
		form = "PKIX"
		ed := clone(edKey(t).Public().(ed25519.PublicKey))
		edID := seq(oid("1.3.101.112"))
		der = func() []byte {
			switch t.Int(19) {
			case 0:
				return pick("no parameters", seq(oid("1.2.840.113549.1.1.1")), bits(seq(N, E)))
			case 1:
				return pick("odd parameters", seq(oid("1.2.840.113549.1.1.1"), octets(nil)), bits(seq(N, E)))
			case 2:
				return pick("a negative modulus", id, bits(seq(bigInteger(new(big.Int).Neg(k.N)), E)))
			case 3:
				return pick("a zero modulus", id, bits(seq(integer(0), E)))
			case 4:
				return pick("an exponent of zero or less", id, bits(seq(N, integer(int64(-t.Int(5))))))
			case 5, 15, 16, 17, 18:
				x := new(big.Int).Lsh(one, uint([]int{31, 31, 32, 63, 64, 31 + t.Int(60)}[t.Int(6)]))
				x.Add(x, big.NewInt(int64(t.Int(5)-2)))
				return pick("a large exponent", id, bits(seq(N, bigInteger(x))))
			case 6:
				return pick("something behind the numbers", id, bits(append(seq(N, E), t.Bytes(1+t.Int(3))...)))
			case 7:
				return pick("a third number", id, bits(seq(N, E, E)))
			case 8:
				return pick("unused bits", id, tlv(3, append([]byte{byte(1 + t.Int(7))}, seq(N, E)...)))
			case 9:
				return pick("the key in octets", id, octets(seq(N, E)))
			case 10:
				return pick("the exponent first", id, bits(seq(E, N)))
			case 11:
				return pick("Ed25519 with null parameters", seq(oid("1.3.101.112"), null()), bits(ed))
			case 12:
				return pick("a short Ed25519 key", edID, bits(ed[:t.Int(32)]))
			case 13:
				return pick("a long Ed25519 key", edID, bits(append(ed, t.Bytes(1+t.Int(32))...)))
			}
			return pick("an Ed25519 key in octets", edID, bits(octets(ed)))
		}()
		if t.One(4) && k != nil { // the bare form
			form, how = "PKCS1-public", "a bare key, "+how
			if e := readEl(der); e.at(1).is(3) && len(e.at(1).val) > 0 {
				der = e.at(1).val[1:]
			}
		}
	case 4: // ECDSA public keys
		k, curve := ecdsaKey(t)
		form, der, how = malformedPoint(t, ecInfo(k, curve))
	}
	if t.One(8) {
		der, how = append(der, t.Bytes(1+t.Int(3))...), how+", something behind it"
	}
	for _, f := range forms19 {
		if f.name != form {
			continue
		}
		var k any
		var err error
		w.API("Parse"+f.name, limBig+int64(len(der))*2000, func() { k, err = f.parse(der) })
		w.Log("%s with %s: %s", form, how, errStr(err))
		if err == nil {
			c19judge(w, f, der, k)
		} else if sk, e := f.stdRead(der); e == nil {
			w.Log("the standard library reads %s", nameOf(sk))
		}
	}
}

// ecKind is what an encoding says about a key on a curve.
type ecKind struct {
	curve string
	order *big.Int
	p     *big.Int
	d     *big.Int
	point []byte
	foe   string   // a curve that it is not
	foes  []string // and more
}

func ecInfo(k *ecdsa.PrivateKey, curve string) ecKind {
	c := k.Curve.Params()
	return ecKind{curve, c.N, c.P, k.D, elliptic.Marshal(k.Curve, k.X, k.Y), oidSM2Curve, []string{"1.3.132.0.10", oidSM2Curve, curves19[0].oid, curves19[1].oid, curves19[2].oid, curves19[3].oid}}
}

// malformedEC is a private key with one thing wrong, as SEC 1 alone or inside PKCS #8.
func malformedEC(t *vsim.Tape, e ecKind) (form string, der []byte, how string) {
	raw := e.d.FillBytes(make([]byte, (e.order.BitLen()+7)/8))
	pub := e.point
	outer := oid(e.curve)
	inPKCS8 := t.One(2)
	v, key, params, point := integer(1), octets(raw), ctx(0, oid(e.curve)), ctx(1, bits(pub))
	var more []byte
	switch t.Int(19) {
	case 0:
		v, how = integer(int64([...]int{0, 2, 3, 257, -1}[t.Int(5)])), "another version"
	case 1:
		params, how = nil, "no curve"
		if inPKCS8 {
			outer = nil
		}
	case 2:
		params, how = ctx(0, oid("1.3.132.0.10")), "an unknown curve"
	case 3:
		params, how = ctx(0, oid(e.foe)), "a foreign curve"
	case 4:
		key, how = octets(e.order.Bytes()), "the order for a scalar"
	case 5:
		key, how = octets(new(big.Int).Add(e.order, big.NewInt(int64(t.Int(200)))).Bytes()), "a scalar beyond the order"
	case 6:
		key, how = octets(make([]byte, t.Int(70))), "a zero scalar"
	case 7:
		key, how = octets(append([]byte{1}, raw...)), "a longer scalar"
	case 8:
		key, how = bigInteger(e.d), "the scalar as a number"
	case 9:
		key, how = bits(raw), "the scalar in bits"
	case 10:
		params, how = ctx(0, null()), "a null curve"
	case 11:
		params, how = oid(e.curve), "the curve without its tag"
	case 12:
		params, point, how = ctx(1, bits(pub)), ctx(0, oid(e.curve)), "curve and point exchanged"
	case 13:
		more, how = octets(t.Bytes(3)), "something more inside"
	case 14:
		outer, how = oid("1.3.132.0.10"), "an unknown curve outside"
	case 15:
		outer, how = null(), "null parameters outside"
	case 16:
		outer, how = oid(e.foes[t.Int(len(e.foes))]), "another curve outside"
	case 17:
		outer, how = seq(integer(1), oid(e.curve)), "parameters in full"
	case 18:
		v, how = octets([]byte{1}), "the version in octets"
	}
	form, der = "SEC1", seq(bytes.Join([][]byte{v, key, params, point, more}, nil))
	if inPKCS8 {
		alg := oid(oidECKey)
		if t.One(12) {
			alg, how = oid("1.3.132.1.12"), how+", a Diffie-Hellman key"
		}
		form, der = "PKCS8", seq(integer(0), seq(bytes.Join([][]byte{alg, outer}, nil)), octets(der))
	}
	return
}

// malformedPoint is a public key with one thing wrong.
func malformedPoint(t *vsim.Tape, e ecKind) (form string, der []byte, how string) {
	size := (e.p.BitLen() + 7) / 8
	point := clone(e.point)
	x, y := new(big.Int).SetBytes(point[1:1+size]), new(big.Int).SetBytes(point[1+size:])
	params := oid(e.curve)
	ecOID := oid(oidECKey)
	form = "PKIX"
	last := len(point) - 1
	switch t.Int(15) {
	case 0:
		point, how = append([]byte{byte(2 + y.Bit(0))}, point[1:1+size]...), "a compressed point"
	case 1:
		point[0], how = byte(6+y.Bit(0)), "a hybrid point"
	case 2:
		point[last-t.Int(size)] ^= 1 << t.Int(8)
		how = "a point off the curve"
	case 3:
		point[1+t.Int(size)] ^= 1 << t.Int(8)
		how = "a point off the curve"
	case 4:
		point, how = point[:last], "a short point"
	case 5:
		point, how = append(point, t.Bytes(1+t.Int(2))...), "a long point"
	case 6:
		point, how = []byte{0}, "the point at infinity"
	case 7:
		point, how = nil, "no point"
	case 8:
		point, how = make([]byte, last+1), "zero bytes"
		point[0] = 4
	case 9:
		params, how = null(), "null parameters"
	case 10:
		params, how = nil, "no parameters"
	case 11:
		params, how = oid(e.foes[t.Int(len(e.foes))]), "another curve"
	case 12:
		params, how = append(oid(e.curve), null()...), "more parameters"
	case 13: // a coordinate beyond the field
		x := new(big.Int).Add(x, e.p)
		how = "a coordinate that is not reduced"
		if x.BitLen() <= 8*size {
			x.FillBytes(point[1 : 1+size])
		} else {
			point[0] = 5
		}
	case 14:
		params, how = seq(params), "the curve in a sequence"
	}
	der = seq(seq(append(ecOID, params...)), bits(point))
	if t.One(10) {
		der, how = seq(seq(append(oid(oidECKey), oid(e.curve)...)), tlv(3, append([]byte{byte(1 + t.Int(7))}, point...))), "unused bits, "+how
	}
	return
}

// twinKeys reads a malformed SM2 key, and the standard library the same thing made of a P-256 key: what that refuses
// must be refused.
func twinKeys(w *vsim.World) {
	t := w.T
	w.Fired("malformed-key")
	d := scalar(t)
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = elliptic.P256()
	k.X, k.Y = k.Curve.ScalarBaseMult(d.Bytes())
	a := ecInfo(k, curves19[1].oid)
	foes := []string{"1.3.132.0.10", "1.2.156.10197.1.301.1", "1.2.156.10197.1.302"}
	a.foe, a.foes = foes[0], foes
	b := ecKind{oidSM2Curve, n, ref.P, d, point04(ref.BaseMult(d)), foes[0], foes}
	make := malformedEC
	if t.One(2) {
		make = malformedPoint
	}
	seed := t.Seed()
	form, twin, _ := make(vsim.NewTape(seed), a)
	_, der, how := make(vsim.NewTape(seed), b)
	if t.One(8) {
		der, twin, how = append(der, 0), append(twin, 0), how+", something behind it"
	}
	for _, f := range forms19 {
		if f.name != form {
			continue
		}
		var k any
		var err error
		w.API("Parse"+f.name, limBig+int64(len(der))*2000, func() { k, err = f.parse(der) })
		w.Log("%s with %s: %s", form, how, errStr(err))
		if err != nil {
			w.Hit("refused")
			return
		}
		bad := unsound(k)
		w.Check(bad == "", "bad-key-accepted", "Parse%s(%x) (%s) returned %s: %s", f.name, der, how, nameOf(k), bad)
		sk, e := f.stdRead(twin)
		w.Check(e == nil, "damaged-accepted", "Parse%s(%x) (%s) returned a %T; of a P-256 key the standard library says %v", f.name, der, how, k, e)
		switch k := k.(type) {
		case *sm2.PrivateKey:
			s, ok := sk.(*ecdsa.PrivateKey)
			w.Check(ok && s.D.Cmp(k.D) == 0, "read-differently", "Parse%s(%x) (%s) returned the scalar %x", f.name, der, how, k.D)
		case *sm2.PublicKey:
			w.Check(bytes.Equal(point04(pt(k)), b.point), "read-differently", "Parse%s(%x) (%s) returned the point %x, %x", f.name, der, how, k.X, k.Y)
		}
	}
}
