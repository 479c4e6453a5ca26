package main

import (
	"fmt"
	"io"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C02", Run: c02, Quick: 9000, Thorough: 400000,
		Rule:   "One evaluation is one simulated run: up to three goroutines sign with shared or own keys through the eight signing entry points, over random streams that are split, degenerate, or crafted so that the standard demands another nonce; every signature is range-checked, strictly parsed and verified by an independent SM2 and by the library.",
		Real:   []string{"sm2 signing and verification", "sm3"},
		Stub:   []string{"goroutine scheduling (simulator)", "random source (simulated)"},
		Need:   []string{"preempted", "forced r=0", "forced r+k=n", "forced s=0", "rand-short-read", "degenerate-stream"},
		Assume: []string{"ref/sm2.go and ref/curve.go implement GB/T 32918.2 (checked against the standard's examples)", "the crafted retry cases assume the library derives the same nonce from the same bytes; a run in which it does not counts as an ordinary run"},
	})
}

var signEntries = []string{"SignDigestRS", "SignDigest", "SignRS", "Sign", "(*PrivateKey).SignDigestRS", "(*PrivateKey).SignDigest", "(*PrivateKey).SignRS", "(*PrivateKey).Sign"}

// digestEntry reports whether entry point e takes a digest.
func digestEntry(e int) bool { return e&2 == 0 }

// signVia signs through entry point e; the signature is returned as numbers, and as DER where the entry gives DER.
func signVia(e int, r io.Reader, k *sm2.PrivateKey, in, uid []byte) (rr, ss *big.Int, der []byte, err error) {
	switch e {
	case 0:
		rr, ss, err = sm2.SignDigestRS(r, k, in)
	case 1:
		der, err = sm2.SignDigest(r, k, in)
	case 2:
		rr, ss, err = sm2.SignRS(r, k, in, uid)
	case 3:
		der, err = sm2.Sign(r, k, in, uid)
	case 4:
		rr, ss, err = k.SignDigestRS(r, in)
	case 5:
		der, err = k.SignDigest(r, in)
	case 6:
		rr, ss, err = k.SignRS(r, in, uid)
	default:
		der, err = k.Sign(r, in, uid)
	}
	return
}

func derEntry(e int) bool { return e&1 == 1 }

var verifyEntries = []string{"VerifyDigestRS", "VerifyDigest", "VerifyRS", "Verify", "(*PublicKey).VerifyDigestRS", "(*PublicKey).VerifyDigest", "(*PublicKey).VerifyRS", "(*PublicKey).Verify"}

func verifyVia(e int, p *sm2.PublicKey, in, uid []byte, r, s *big.Int, der []byte) bool {
	switch e {
	case 0:
		return sm2.VerifyDigestRS(p, in, r, s)
	case 1:
		return sm2.VerifyDigest(p, in, der)
	case 2:
		return sm2.VerifyRS(p, in, uid, r, s)
	case 3:
		return sm2.Verify(p, in, uid, der)
	case 4:
		return p.VerifyDigestRS(in, r, s)
	case 5:
		return p.VerifyDigest(in, der)
	case 6:
		return p.VerifyRS(in, uid, r, s)
	default:
		return p.Verify(in, uid, der)
	}
}

// digest decides a digest: mostly 32 bytes, sometimes of another length, not below n, or all zero.
func someDigest(t *vsim.Tape) []byte {
	switch t.Weighted(6, 1, 1, 1) {
	case 0:
		return t.Bytes(32)
	case 1:
		return t.Bytes([...]int{0, 1, 20, 31, 33, 48, 64}[t.Int(7)])
	case 2:
		return ref.B32(new(big.Int).Add(n, big.NewInt(int64(t.Int(3)-1))))
	default:
		return ref.B32(big.NewInt(int64(t.Int(3))))
	}
}

// stream decides a random stream that delivers enough.
func stream(w *vsim.World, t *vsim.Tape) *vsim.Rnd {
	r := vsim.NewRnd(t.Seed())
	if t.One(4) {
		w.Fired("degenerate-stream")
		at := int64(0)
		for i := 1 + t.Int(2); i > 0; i-- {
			r.Overlay(at, degenerate(t))
			at += 40
		}
	}
	r.Split = t.Weighted(5, 1, 1, 1)
	if t.One(16) {
		r.Stall = int64(t.Int(50000))
		w.Fired("rand-stall")
	}
	return r
}

func degenerate(t *vsim.Tape) []byte {
	nm1 := new(big.Int).Sub(n, one)
	switch t.Int(8) {
	case 0:
		return make([]byte, 40)
	case 1:
		b := make([]byte, 40)
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 2:
		return nonceStream(new(big.Int).Sub(n, one)) // the largest
	case 3:
		return nonceStream(big.NewInt(int64(1 + t.Int(3))))
	case 4: // a multiple of n-1, so that it reduces to the smallest
		m := new(big.Int).Mul(nm1, new(big.Int).SetUint64(1+t.Draw(1<<60)))
		return m.FillBytes(make([]byte, 40))
	case 5: // a multiple of n
		m := new(big.Int).Mul(n, new(big.Int).SetUint64(t.Draw(1<<60)))
		return m.FillBytes(make([]byte, 40))
	case 6:
		return nonceStream(big.NewInt(oddScalars[t.Int(len(oddScalars))]))
	default: // few significant bytes
		k := new(big.Int).SetBytes(t.Bytes(1 + t.Int(31)))
		return nonceStream(k.Add(k, one))
	}
}

func c02(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("signers")
	var keys []*sm2.PrivateKey
	for i := 1 + t.Int(2); i > 0; i-- {
		keys = append(keys, keyOf(scalar(t)))
	}
	tasks := 1 + t.Weighted(4, 2, 1)
	shared := stream(w, t)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(3)
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for j := 0; j < ops; j++ {
				c02op(w, keys[t.Int(len(keys))], shared)
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

func c02op(w *vsim.World, k *sm2.PrivateKey, shared *vsim.Rnd) {
	t := w.T
	e := t.Int(8)
	name := signEntries[e]
	q := pt(&k.PublicKey)
	var uid, in []byte
	r := stream(w, t)
	if t.One(5) {
		r = shared
	}
	force := 0
	if digestEntry(e) {
		in = someDigest(t)
		force = t.Weighted(3, 1, 1, 1)
	} else {
		in, uid = message(t, 3000), userID(t)
	}
	if force > 0 && r != shared {
		// learn the nonce this stream gives, then sign the digest for which that nonce must not be used
		e0 := ref.B32(big.NewInt(7))
		f := r.Fork()
		var r0, s0 *big.Int
		var err error
		w.API("SignDigestRS", limSmall, func() { r0, s0, err = sm2.SignDigestRS(f, k, e0) })
		if err == nil {
			k0 := ref.Nonce(k.D, r0, s0)
			x1 := ref.BaseMult(k0).X
			want := new(big.Int)
			switch force {
			case 1:
				w.Hit("forced r=0")
			case 2:
				want.Sub(n, k0)
				w.Hit("forced r+k=n")
			case 3:
				want.Mul(k0, new(big.Int).ModInverse(k.D, n))
				w.Hit("forced s=0")
			}
			want.Sub(want, x1)
			in = ref.B32(want.Mod(want, n))
			if l := f.Pos; l > 0 && l <= 4096 {
				first := make([]byte, l)
				io.ReadFull(r.Fork(), first)
				for i := t.Int(4); i > 0; i-- {
					r.Overlay(int64(i)*l, first) // and again
				}
			}
			w.Fired("forbidden-nonce")
		}
	}
	g, gu := guard(in), guard(uid)
	du := gu.b
	if uid == nil {
		du = nil
	}
	var rr, ss *big.Int
	var der []byte
	var err error
	w.API(name, 20_000_000+int64(len(in)+len(uid))*2000, func() { rr, ss, der, err = signVia(e, r, k, g.b, du) })
	w.Check(err == nil, "sign-error", "%s returned an error although the random source delivered: %v", name, err)
	w.Check(g.intact() && gu.intact(), "arguments", "%s changed its message or user id", name)
	w.Log("%s d=%s in=%s uid=%s force=%d", name, hx(ref.B32(k.D)), hx(in), hx(uid), force)
	if derEntry(e) {
		var ok bool
		rr, ss, ok = ref.ParseSig(der)
		w.Check(ok, "der", "%s returned %s, which is not a strict DER signature", name, hx(der))
	}
	w.Check(rr != nil && ss != nil, "nil", "%s returned no signature and no error", name)
	w.Check(rr.Sign() > 0 && rr.Cmp(n) < 0 && ss.Sign() > 0 && ss.Cmp(n) < 0, "range", "%s returned r=%x s=%x outside [1,n-1] (digest %s, forced case %d)", name, rr, ss, hx(in), force)
	dg := in
	if !digestEntry(e) {
		dg = ref.Digest(uid, in, q)
	}
	if !ref.VerifyDigest(q, dg, rr, ss) {
		w.Fail("invalid", "%s returned a signature that is not valid: d=%x message or digest %s uid %s r=%x s=%x (forced case %d)", name, k.D, hx(in), hx(uid), rr, ss, force)
	}
	if t.One(2) {
		v := e
		if t.One(2) {
			v ^= 4
		}
		if t.One(2) {
			v ^= 1
		}
		if !derEntry(e) {
			der = ref.MarshalSig(rr, ss)
		}
		var ok bool
		w.API(verifyEntries[v], limSmall+int64(len(in)+len(uid))*2000, func() { ok = verifyVia(v, &k.PublicKey, in, uid, rr, ss, der) })
		w.Check(ok, "own-verify", "%s rejects the signature made by %s (d=%x, in %s, uid %s)", verifyEntries[v], name, k.D, hx(in), hx(uid))
	}
}
