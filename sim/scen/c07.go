package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C07", Run: c07, Quick: 7000, Thorough: 400000,
		Rule:   "One evaluation is one simulated run: a process generates SM2 keys from faulty random streams, encodes them and stores them on a simulated disk with injected I/O errors, crashes and damage; after a restart it loads them again. Generated keys, encodings and everything parsed back are checked against an independent curve and a hand-written DER reader.",
		Real:   []string{"sm2 key generation, signing, encryption", "x509 PKCS#8, SEC1 and PKIX encoding and parsing"},
		Stub:   []string{"disk (simulated)", "random source (simulated)", "goroutine scheduling (simulator)", "the application that stores the encodings"},
		Need:   []string{"preempted", "keygen-edge", "crash", "power-loss", "disk-damage", "reloaded", "refused", "leading-zero-key", "forged-range", "forged-point"},
		Assume: []string{"ref/curve.go is the SM2 curve", "the edge cases of key generation assume 32 bytes masked as crypto/elliptic does; a run in which that is not so counts as an ordinary run"},
	})
}

// genStream is a stretch of random bytes that makes key generation try v first.
func genStream(v *big.Int) []byte {
	b := make([]byte, 32)
	v.FillBytes(b)
	b[1] ^= 0x42
	return b
}

func keygenStream(w *vsim.World) *vsim.Rnd {
	t := w.T
	r := vsim.NewRnd(t.Seed())
	at := int64(0)
	for i := t.Weighted(2, 3, 1, 1); i > 0; i-- {
		var v *big.Int
		switch t.Int(8) {
		case 0:
			v = new(big.Int)
		case 1:
			v = new(big.Int).Sub(n, one)
		case 2:
			v = new(big.Int).Set(n)
		case 3:
			v = new(big.Int).Sub(n, big.NewInt(2))
		case 4:
			v = big.NewInt(1)
		case 5:
			v = new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
		case 6:
			v = big.NewInt(oddScalars[t.Int(len(oddScalars))])
		case 7:
			v = new(big.Int).SetBytes(t.Bytes(1 + t.Int(31)))
		}
		r.Overlay(at, genStream(v))
		at += 32
		w.Hit("keygen-edge")
		w.Fired("degenerate-stream")
	}
	r.Split = t.Weighted(4, 1, 1, 1)
	return r
}

func validScalar(d *big.Int) bool {
	return d != nil && d.Sign() > 0 && d.Cmp(new(big.Int).Sub(n, one)) < 0
}

// soundKey says what is wrong with a key, or "".
func soundKey(k *sm2.PrivateKey) string {
	if k == nil || k.D == nil || k.X == nil || k.Y == nil || k.Curve == nil {
		return "incomplete"
	}
	if !validScalar(k.D) {
		return fmt.Sprintf("d=%x is outside [1,n-2]", k.D)
	}
	if !ref.Eq(ref.BaseMult(k.D), pt(&k.PublicKey)) {
		return fmt.Sprintf("public key %x,%x is not d*G for d=%x", k.X, k.Y, k.D)
	}
	if k.Curve.Params().N.Cmp(n) != 0 {
		return "wrong curve"
	}
	return ""
}

type stored struct {
	key  *sm2.PrivateKey
	priv []byte
	pub  []byte
	path string
}

func c07(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("app")
	var all []*stored
	w.Disk.PutDir("/data/keys", 0o755)
	tasks := 1 + t.Int(3)
	for i := 0; i < tasks; i++ {
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for j := 1 + t.Int(2); j > 0; j-- {
				c07make(w, &all, fmt.Sprintf("/data/keys/k%d-%d", i, j))
			}
		})
	}
	switch t.Weighted(4, 2, 2) {
	case 1:
		w.At(time.Duration(t.Int(1<<[...]int{12, 16, 19, 21}[t.Int(4)]))*50*time.Nanosecond, func() { w.Crash(p) })
	case 2: // at a disk operation
		w.Disk.Trap = 1 + t.Int(30)
		w.Disk.OnTrap = func() { w.At(0, func() { w.Crash(p) }); w.Yield() }
	}
	if t.One(5) {
		op := [...]string{"write", "open", "sync", "close", "read"}[t.Int(5)]
		w.Disk.Faults = append(w.Disk.Faults, &vsim.DiskFault{Op: op, After: t.Int(6), Short: t.Int(40) - 1, Err: errSome})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
	if w.Stopped() {
		return
	}
	if t.One(2) {
		w.Disk.PowerLoss()
		w.Fired("power-loss")
	}
	w.Disk.Faults = nil
	w.Disk.Trap = 0
	// after the restart
	p2 := w.NewProc("restarted")
	if len(all) > 0 && t.One(2) {
		s := all[t.Int(len(all))]
		ext := [...]string{".key", ".pub"}[t.Int(2)]
		donor := all[t.Int(len(all))]
		if b := w.Disk.Peek(s.path + ext); b != nil {
			db := donor.priv
			if t.One(2) {
				db = donor.pub
			}
			nb, how := vsim.Damage(t, b, db)
			w.Disk.Damage(s.path+ext, nb)
			w.Log("damaged %s%s: %s", s.path, ext, how)
			w.Fired("disk-damage")
		}
	}
	for i := 0; i < 2; i++ {
		w.Go(p2, fmt.Sprintf("load%d", i), func() {
			for j, s := range all {
				if j%2 == i {
					c07load(w, s)
				}
			}
			c07forged(w)
		})
	}
	w.Run()
}

func c07make(w *vsim.World, all *[]*stored, path string) {
	t := w.T
	var k *sm2.PrivateKey
	if t.One(3) {
		k = keyOf(scalar(t)) // a key made elsewhere
	} else {
		r := keygenStream(w)
		var err error
		w.API("GenerateKey", 20_000_000, func() { k, err = sm2.GenerateKey(r) })
		w.Check(err == nil, "generate-error", "GenerateKey failed although the random source delivered: %v", err)
		bad := soundKey(k)
		w.Check(bad == "", "generate", "GenerateKey returned a bad key: %s", bad)
	}
	if k.D.BitLen() <= 248 || k.X.BitLen() <= 248 || k.Y.BitLen() <= 248 {
		w.Hit("leading-zero-key")
	}
	s := &stored{key: k, path: path}
	var err error
	w.API("MarshalPKCS8PrivateKey", limSmall, func() { s.priv, err = x509.MarshalPKCS8PrivateKey(k) })
	w.Check(err == nil, "marshal-error", "MarshalPKCS8PrivateKey(d=%x): %v", k.D, err)
	bad := checkPKCS8(s.priv, k.D)
	w.Check(bad == "", "pkcs8-form", "PKCS#8 encoding of d=%x: %s (%x)", k.D, bad, s.priv)
	w.API("MarshalPKIXPublicKey", limSmall, func() { s.pub, err = x509.MarshalPKIXPublicKey(&k.PublicKey) })
	w.Check(err == nil, "marshal-error", "MarshalPKIXPublicKey(d=%x): %v", k.D, err)
	w.Check(bytes.Equal(s.pub, spki(pt(&k.PublicKey))), "pkix-form", "PKIX encoding of the public key of d=%x is %x", k.D, s.pub)
	w.Check(soundKey(k) == "", "arguments", "encoding changed the key")
	w.Log("key d=%s", hx(ref.B32(k.D)))
	*all = append(*all, s)
	for _, f := range []struct {
		name string
		b    []byte
	}{{path + ".key", s.priv}, {path + ".pub", s.pub}} {
		fd, err := vsim.OpenFile(f.name, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o600)
		if err != nil {
			w.Log("store: open fails")
			continue
		}
		fd.Write(f.b)
		if t.One(2) {
			fd.Sync()
		}
		fd.Close()
	}
}

func c07load(w *vsim.World, s *stored) {
	t := w.T
	if b := w.Disk.Peek(s.path + ".key"); b != nil {
		k := c07parsePriv(w, b, bytes.Equal(b, s.priv), s.key)
		if k != nil && keyEq(k, s.key) {
			w.Hit("reloaded")
			var same bool
			w.API("Equal", limSmall, func() {
				same = k.Equal(s.key) && s.key.Equal(k) && k.PublicKey.Equal(&s.key.PublicKey) && s.key.Public().(*sm2.PublicKey).Equal(k.Public())
			})
			w.Check(same, "equal", "a reloaded key is not Equal to the original (d=%x)", k.D)
			d := scalar(t)
			switch t.Int(3) {
			case 0:
				d = new(big.Int).Sub(n, k.D) // the same X
			case 1:
				d = new(big.Int).Xor(k.D, one)
			}
			if validScalar(d) && d.Cmp(k.D) != 0 {
				other := keyOf(d)
				w.API("Equal", limSmall, func() {
					same = k.Equal(other) || other.Equal(k) || k.PublicKey.Equal(&other.PublicKey) || other.PublicKey.Equal(&k.PublicKey)
				})
				w.Check(!same, "equal", "a reloaded key (d=%x) is Equal to another (d=%x)", k.D, other.D)
			}
			// the public half of this key, the private half of another
			odd := &sm2.PrivateKey{PublicKey: k.PublicKey}
			switch t.Int(4) {
			case 0:
				odd.D = new(big.Int).Add(k.D, one)
			case 1:
				odd.D = new(big.Int).Xor(k.D, new(big.Int).Lsh(one, uint(t.Int(256))))
			case 2:
				odd.D = new(big.Int).Neg(k.D)
			case 3:
				odd.D = new(big.Int).Add(k.D, n)
			}
			// public halves that are nearly this one
			flip := func(v *big.Int) *big.Int { return new(big.Int).Xor(v, new(big.Int).Lsh(one, uint(t.Int(256)))) }
			near := &sm2.PublicKey{Curve: k.Curve, X: k.X, Y: k.Y}
			switch t.Int(5) {
			case 0:
				near.X = flip(k.X)
			case 1:
				near.Y = flip(k.Y)
			case 2:
				near.X, near.Y = k.Y, k.X
			case 3:
				near.Y = new(big.Int).Sub(ref.P, k.Y)
			case 4:
				near.X, near.Y = flip(k.X), flip(k.Y)
			}
			w.API("Equal", limSmall, func() {
				same = k.PublicKey.Equal(near) || near.Equal(&k.PublicKey) || k.Equal(&sm2.PrivateKey{PublicKey: *near, D: k.D})
			})
			w.Check(!same, "equal", "a reloaded key (d=%x) is Equal to one with the public key %x %x", k.D, near.X, near.Y)
			w.API("Equal", limSmall, func() { same = k.Equal(odd) || odd.Equal(k) })
			w.Check(!same, "equal", "a reloaded key (d=%x) is Equal to one with d=%x", k.D, odd.D)
			msg := t.Bytes(20)
			var sig, ct, back []byte
			var err error
			a, b := k, s.key
			if t.One(2) {
				a, b = b, a
			}
			w.API("Sign", limSmall, func() { sig, err = sm2.Sign(vsim.NewRnd(t.Seed()), a, msg, nil) })
			w.Check(err == nil && ref.VerifyMsg(pt(&b.PublicKey), nil, msg, sig), "interchange-sign", "a signature by the original or reloaded key d=%x does not verify under the other", k.D)
			w.API("Encryt", limSmall, func() { ct, err = sm2.Encryt(vsim.NewRnd(t.Seed()), &a.PublicKey, msg) })
			if err == nil {
				w.API("Decryt", limSmall, func() { back, err = sm2.Decryt(b, ct) })
			}
			w.Check(err == nil && bytes.Equal(back, msg), "interchange-decrypt", "a ciphertext for the original or reloaded key d=%x is not decrypted by the other: %v", k.D, err)
		}
	}
	if b := w.Disk.Peek(s.path + ".pub"); b != nil {
		c07parsePub(w, b, bytes.Equal(b, s.pub), pt(&s.key.PublicKey))
	}
}

func c07parsePriv(w *vsim.World, b []byte, whole bool, want *sm2.PrivateKey) *sm2.PrivateKey {
	g := guard(b)
	var k any
	var err error
	w.API("ParsePKCS8PrivateKey", limSmall+int64(len(b))*2000, func() { k, err = x509.ParsePKCS8PrivateKey(g.b) })
	w.Check(g.intact(), "arguments", "ParsePKCS8PrivateKey changed its input")
	w.Log("parse private key (%d bytes): %s", len(b), errStr(err))
	sk, ok := k.(*sm2.PrivateKey)
	if whole {
		w.Check(err == nil && ok, "reload", "the stored encoding of d=%x does not parse: %v", want.D, err)
		w.Check(keyEq(sk, want), "reload", "the stored encoding of d=%x parses as another key", want.D)
	}
	if err != nil {
		w.Hit("refused")
		return nil
	}
	if ok {
		bad := soundKey(sk)
		w.Check(bad == "", "bad-key-accepted", "ParsePKCS8PrivateKey(%x) returned a bad key: %s", b, bad)
	}
	return sk
}

func c07parsePub(w *vsim.World, b []byte, whole bool, want ref.Point) {
	g := guard(b)
	var k any
	var err error
	w.API("ParsePKIXPublicKey", limSmall+int64(len(b))*2000, func() { k, err = x509.ParsePKIXPublicKey(g.b) })
	w.Check(g.intact(), "arguments", "ParsePKIXPublicKey changed its input")
	w.Log("parse public key (%d bytes): %s", len(b), errStr(err))
	pk, ok := k.(*sm2.PublicKey)
	if whole {
		w.Check(err == nil && ok && ref.Eq(pt(pk), want), "reload", "the stored public key %x,%x does not parse back: %v", want.X, want.Y, err)
	}
	if err != nil {
		w.Hit("refused")
		return
	}
	if ok {
		w.Check(pk.X.Cmp(ref.P) < 0 && pk.Y.Cmp(ref.P) < 0 && pk.X.Sign() >= 0 && pk.Y.Sign() >= 0 && ref.OnCurve(pk.X, pk.Y), "bad-point-accepted", "ParsePKIXPublicKey(%x) returned a point off the curve", b)
	}
}

// c07forged meets stored keys whose numbers were damaged to be out of range, the encoding otherwise in order.
func c07forged(w *vsim.World) {
	t := w.T
	for i := t.Int(3); i > 0; i-- {
		if t.One(2) {
			twinKeys(w)
		}
		if t.One(2) {
			w.Fired("forged-range")
			var v *big.Int
			d := scalar(t)
			bad := true
			switch t.Int(7) {
			case 0:
				v = new(big.Int)
			case 1:
				v = new(big.Int).Sub(n, one)
			case 2:
				v = new(big.Int).Set(n)
			case 3:
				v = new(big.Int).Add(n, d)
			case 4:
				v = new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
			case 5:
				v = new(big.Int).Add(d, new(big.Int).Lsh(one, 256+uint(t.Int(30))))
			case 6:
				v, bad = d, false
			}
			raw := v.Bytes()
			switch t.Int(3) {
			case 1:
				if len(raw) < 32 {
					raw = ref.B32(v)
				}
			case 2:
				raw = append(make([]byte, t.Int(5)), raw...)
			}
			var pub []byte
			q := ref.BaseMult(d)
			mismatch := false
			switch t.Int(6) {
			case 1, 2, 3:
				pub = point04(q)
			case 4: // the other point with this X
				q = ref.Neg(q)
				pub, mismatch = point04(q), true
			case 5:
				q = ref.BaseMult(scalar(t))
				pub, mismatch = point04(q), true
			}
			curve := ""
			if t.One(2) {
				curve = oidSM2Curve
			}
			inner := sec1(raw, curve, pub)
			viaSEC1 := t.One(4) && curve != ""
			var k any
			var err error
			in := pkcs8(inner)
			if viaSEC1 {
				in = inner
				w.API("ParseECPrivateKey", limSmall, func() { k, err = x509.ParseECPrivateKey(in) })
			} else {
				w.API("ParsePKCS8PrivateKey", limSmall, func() { k, err = x509.ParsePKCS8PrivateKey(in) })
			}
			w.Log("stored scalar %x (%d bytes): %s", v, len(raw), errStr(err))
			if bad {
				w.Check(err != nil, "out-of-range-accepted", "a stored private key with scalar %x was accepted (%x)", v, in)
				w.Hit("refused")
				continue
			}
			if len(raw) == 32 && !mismatch {
				w.Check(err == nil, "standard-refused", "a standard encoding of d=%x was refused: %v (%x)", v, err, in)
			}
			if err == nil {
				sk, ok := k.(*sm2.PrivateKey)
				w.Check(ok && keyEq(sk, keyOf(v)), "standard-misread", "a standard encoding of d=%x was read as another key (%x)", v, in)
			}
			continue
		}
		w.Fired("forged-point")
		q := ref.BaseMult(scalar(t))
		raw := point04(q)
		bad := true
		switch t.Int(9) {
		case 0:
			raw[1+t.Int(64)] ^= 1 << t.Int(8)
			bad = !ref.OnCurve(new(big.Int).SetBytes(raw[1:33]), new(big.Int).SetBytes(raw[33:]))
		case 1:
			clear(raw[1:])
		case 2:
			raw = raw[:t.Int(65)]
		case 3:
			raw = append(raw, t.Bytes(1+t.Int(33))...)
		case 4:
			copy(raw[1:33], ref.B32(q.Y))
			copy(raw[33:], ref.B32(q.X))
		case 5, 6: // not reduced
			p, which := tinyPoint(t)
			x, y := new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
			if which == 0 {
				x.Add(x, ref.P)
			} else {
				y.Add(y, ref.P)
			}
			raw = bytes.Join([][]byte{{4}, ref.B32(x), ref.B32(y)}, nil)
		case 7:
			raw = []byte{0}
		case 8:
			bad = false
		}
		in := spkiRaw(raw)
		var k any
		var err error
		w.API("ParsePKIXPublicKey", limSmall, func() { k, err = x509.ParsePKIXPublicKey(in) })
		w.Log("stored point %s: %s", hx(raw), errStr(err))
		if bad {
			w.Check(err != nil, "bad-point-accepted", "a stored public key that is not a point of the curve was accepted: %x", in)
			w.Hit("refused")
		} else {
			pk, ok := k.(*sm2.PublicKey)
			w.Check(err == nil && ok && bytes.Equal(point04(pt(pk)), raw), "standard-misread", "a standard public key was not read: %v (%x)", err, in)
		}
	}
}
