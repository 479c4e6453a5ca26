package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C05", Run: c05, Quick: 6500, Thorough: 300000,
		Rule:   "One evaluation is one simulated run: up to three goroutines encrypt and decrypt for shared recipients over random streams that are split, degenerate, or crafted so that coordinates have leading zero bytes or the key-derivation output is all zero; every ciphertext is measured, decrypted by the library and by an independent SM2, and ciphertexts of the latter are decrypted by the library.",
		Real:   []string{"sm2 encryption and decryption", "sm3"},
		Stub:   []string{"goroutine scheduling (simulator)", "random source (simulated)"},
		Fixed:  [][]uint64{{0, c05bigMark}},
		Need:   []string{"preempted", "kdf-zero", "leading-zero-c1", "leading-zero-shared", "empty-message", "multi-block", "rand-short-read", "degenerate-stream", "ref-encrypted", "long-message"},
		Assume: []string{"ref/sm2.go implements GB/T 32918.4 with C1||C3||C2", "the crafted cases assume the library derives the same ephemeral scalar from the same bytes; a run in which it does not counts as an ordinary run"},
	})
}

const c05bigMark = 399999

// Scalars s for which the key derivation from s*G starts with 1, 2 or 3 zero bytes.
var kdfZero = [][]int64{
	{351, 587, 1107, 1797, 2242, 2428},
	{9842, 35398, 110359, 185131, 264371, 283798, 346605, 398431},
	{700246, 7830847, 14752834},
}

func c05(w *vsim.World) {
	t := w.T
	if t.Draw(400000) == c05bigMark {
		c05big(w)
		return
	}
	swarm(w)
	p := w.NewProc("parties")
	var keys []*sm2.PrivateKey
	for i := 1 + t.Int(2); i > 0; i-- {
		keys = append(keys, keyOf(scalar(t)))
	}
	shared := stream(w, t)
	tasks := 1 + t.Weighted(4, 2, 1)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(3)
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for j := 0; j < ops; j++ {
				k := keys[t.Int(len(keys))]
				if t.Weighted(3, 1) == 0 {
					c05encrypt(w, k, shared)
				} else {
					c05decrypt(w, k)
				}
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

// sharedScalar decides an ephemeral scalar with which the point shared with recipient d is s*G.
func sharedScalar(d *big.Int, s int64) *big.Int {
	k := new(big.Int).ModInverse(d, n)
	k.Mul(k, big.NewInt(s))
	return k.Mod(k, n)
}

func c05nonce(w *vsim.World, d *big.Int, m int) (k *big.Int, what string) {
	t := w.T
	switch t.Weighted(4, 2, 2, 2) {
	case 1:
		w.Hit("leading-zero-c1")
		return big.NewInt(oddScalars[3+t.Int(len(oddScalars)-3)]), "odd C1"
	case 2:
		w.Hit("leading-zero-shared")
		return sharedScalar(d, oddScalars[3+t.Int(len(oddScalars)-3)]), "odd shared point"
	case 3:
		z := kdfZero[t.Weighted(6, 3, 1)]
		s := z[t.Int(len(z))]
		k := sharedScalar(d, s)
		if m > 0 && zeroes(ref.KDF(ref.BaseMult(big.NewInt(s)), m)) {
			w.Hit("kdf-zero")
			return k, "zero key stream"
		}
		return k, "key stream with leading zeros"
	}
	return nil, ""
}

func zeroes(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

func plaintext(w *vsim.World) []byte {
	t := w.T
	var m []byte
	if t.One(3) {
		m = t.Bytes(t.Int(5)) // short ones can meet an all-zero key stream
	} else {
		m = message(t, 9000)
	}
	if len(m) == 0 {
		w.Hit("empty-message")
		if t.One(2) {
			return nil
		}
	}
	if len(m) > 32 {
		w.Hit("multi-block")
	}
	return m
}

func c05encrypt(w *vsim.World, k *sm2.PrivateKey, shared *vsim.Rnd) {
	t := w.T
	m := plaintext(w)
	r := stream(w, t)
	what := "any"
	if t.One(6) {
		r, what = shared, "shared"
	} else if kk, s := c05nonce(w, k.D, len(m)); kk != nil {
		what = s
		b := nonceStream(kk)
		r = vsim.NewRnd(t.Seed())
		for i := t.Weighted(3, 1, 1); i >= 0; i-- {
			r.Overlay(int64(i)*40, b)
		}
		r.Split = t.Weighted(3, 1, 1, 1)
		w.Fired("crafted-nonce")
	}
	g := guard(m)
	gm := g.b
	if m == nil {
		gm = nil
	}
	var c []byte
	var err error
	w.API("Encryt", 20_000_000+int64(len(m))*3000, func() { c, err = sm2.Encryt(r, &k.PublicKey, gm) })
	w.Log("encrypt %s for d=%s (%s): %s", hx(m), hx(ref.B32(k.D)), what, errStr(err))
	w.Check(err == nil, "encrypt-error", "Encryt of %d bytes failed although the random source delivered: %v", len(m), err)
	w.Check(g.intact(), "arguments", "Encryt changed the plaintext buffer")
	w.Check(len(c) == 97+len(m) && c[0] == 4, "form", "Encryt of %d bytes returned %d bytes starting %x", len(m), len(c), c[:min(1, len(c))])
	got, ok := ref.Decrypt(k.D, c)
	if !ok || !bytes.Equal(got, m) {
		w.Fail("interop", "ciphertext %s of plaintext %s for d=%x (%s) is not decrypted by an independent implementation (ok=%v, got %s)", hx(c), hx(m), k.D, what, ok, hx(got))
	}
	gc := guard(c)
	var back []byte
	w.API("Decryt", limSmall+int64(len(m))*3000, func() { back, err = sm2.Decryt(k, gc.b) })
	w.Check(err == nil && bytes.Equal(back, m), "roundtrip", "Decryt of the ciphertext of %s for d=%x gives %s, %v", hx(m), k.D, hx(back), err)
	w.Check(gc.intact(), "arguments", "Decryt changed the ciphertext buffer")
}

// c05decrypt decrypts what an independent implementation encrypted.
func c05decrypt(w *vsim.World, k *sm2.PrivateKey) {
	t := w.T
	m := plaintext(w)
	kk, what := c05nonce(w, k.D, len(m))
	if kk == nil {
		kk, what = scalar(t), "any"
	}
	c, ok := ref.Encrypt(pt(&k.PublicKey), kk, m)
	if !ok {
		return
	}
	w.Hit("ref-encrypted")
	var back []byte
	var err error
	w.API("Decryt", limSmall+int64(len(m))*3000, func() { back, err = sm2.Decryt(k, c) })
	w.Log("decrypt %s for d=%s (%s): %s", hx(m), hx(ref.B32(k.D)), what, errStr(err))
	w.Check(err == nil && bytes.Equal(back, m), "interop-decrypt", "Decryt of a ciphertext made by an independent implementation (plaintext %s, d=%x, k=%x, %s) gives %s, %v", hx(m), k.D, kk, what, hx(back), err)
}

// c05big needs more than 65536 key-derivation blocks.
func c05big(w *vsim.World) {
	t := w.T
	k := keyOf(big.NewInt(123456789))
	p := w.NewProc("parties")
	w.Go(p, "big", func() {
		m := make([]byte, 65536*32+100)
		vsim.Fill(m, t.Seed())
		var c []byte
		var err error
		w.API("Encryt", 20_000_000_000, func() { c, err = sm2.Encryt(vsim.NewRnd(5), &k.PublicKey, m) })
		w.Check(err == nil && len(c) == 97+len(m), "encrypt-error", "Encryt of %d bytes: %d bytes, %v", len(m), len(c), err)
		got, ok := ref.Decrypt(k.D, c)
		w.Check(ok && bytes.Equal(got, m), "interop", "a ciphertext of %d bytes is not decrypted by an independent implementation", len(m))
		w.Hit("long-message")
	})
	w.Run()
}
