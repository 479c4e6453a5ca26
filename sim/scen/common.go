package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
	"mcverif/ref"
	"mcverif/vsim"
)

const (
	limSmall = 3_000_000
	limBig   = 60_000_000
)

var (
	one = big.NewInt(1)
	n   = ref.N
)

// swarm decides how finely the tasks of this run are interleaved.
func swarm(w *vsim.World) {
	q := [...]int64{0, 1 << 14, 1 << 10, 64, 4, 1 << 18}
	w.Cfg.MaxQuantum = q[w.T.Int(len(q))]
}

// size decides a message length, favouring block boundaries.
func size(t *vsim.Tape, max int) int {
	edges := [...]int{0, 1, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129, 31, 32, 33, 183, 184, 191, 192, 193}
	var s int
	if max >= 1000 && t.One(48) { // around the buffer sizes of any implementation
		return (1+t.Int(3))<<(10+t.Int(7)) + t.Int(3) - 1
	}
	switch t.Weighted(4, 4, 2, 1) {
	case 0:
		s = t.Int(80)
	case 1:
		s = edges[t.Int(len(edges))]
	case 2:
		s = t.Int(1200)
	default:
		s = t.Int(max + 1)
	}
	if s > max {
		s = max
	}
	return s
}

func message(t *vsim.Tape, max int) []byte { return t.Bytes(size(t, max)) }

// userID decides a user id; nil stands for the default one.
func userID(t *vsim.Tape) []byte {
	switch t.Weighted(4, 4, 1, 1) {
	case 0:
		return nil
	case 1:
		return t.Bytes(1 + t.Int(40))
	case 2:
		return []byte{}
	default:
		return t.Bytes([...]int{8191, 8190, 4096, 32, 31, 8192 - 32, 255, 256}[t.Int(8)])
	}
}

// Scalars whose point has coordinates with leading zero bytes.
var oddScalars = []int64{1, 2, 3, 327, 659, 1270, 2109, 107, 119, 206, 217, 360, 17883, 60190, 84295, 126495, 193197, 252436, 302857, 316619}

// scalar decides a scalar in [1, n-2].
func scalar(t *vsim.Tape) *big.Int {
	switch t.Weighted(6, 2, 1, 1) {
	case 0:
		k := new(big.Int).SetBytes(t.Bytes(32))
		k.Mod(k, new(big.Int).Sub(n, big.NewInt(2)))
		return k.Add(k, one)
	case 1:
		return big.NewInt(oddScalars[t.Int(len(oddScalars))])
	case 2:
		return new(big.Int).Sub(n, big.NewInt(int64(2+t.Int(4))))
	default: // leading zero bytes
		k := new(big.Int).SetBytes(t.Bytes(1 + t.Int(31)))
		if k.Sign() == 0 {
			k.SetInt64(1)
		}
		if k.Cmp(new(big.Int).Sub(n, big.NewInt(2))) > 0 {
			k.SetInt64(3)
		}
		return k
	}
}

// kin is a scalar that shares its low or its high words with d.
func kin(t *vsim.Tape, d *big.Int, how int) *big.Int {
	b := t.Bytes(32)
	b[0] &= 0x7f
	at := []int{8, 24, 16, 31}[how%4]
	if how%2 == 0 {
		at = 32 - at
		copy(b[at:], ref.B32(d)[at:])
	} else {
		copy(b[:at], ref.B32(d)[:at])
	}
	k := new(big.Int).SetBytes(b)
	if k.Sign() == 0 || k.Cmp(new(big.Int).Sub(n, one)) >= 0 {
		k.SetInt64(7)
	}
	return k
}

// keyOf builds the library's key for scalar d.
func keyOf(d *big.Int) *sm2.PrivateKey {
	q := ref.BaseMult(d)
	return &sm2.PrivateKey{PublicKey: sm2.PublicKey{Curve: sm2.SM2P256V1(), X: new(big.Int).Set(q.X), Y: new(big.Int).Set(q.Y)}, D: new(big.Int).Set(d)}
}

func pt(p *sm2.PublicKey) ref.Point { return ref.Point{X: p.X, Y: p.Y} }

func keyEq(a, b *sm2.PrivateKey) bool {
	return a != nil && b != nil && a.D.Cmp(b.D) == 0 && a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

// nonceStream is a stretch of random bytes that makes the library's nonce equal k, if it draws 40 bytes and reduces
// them mod n-1 (nothing is ever asserted about that: the runs that use it only become ordinary if it does not).
func nonceStream(k *big.Int) []byte {
	b := make([]byte, 40)
	return new(big.Int).Sub(k, one).FillBytes(b)
}

func hx(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x..(%d bytes, %x)", b[:16], len(b), ref.SM3(b)[:4])
	}
	return hex.EncodeToString(b)
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// guarded places b inside a larger buffer, so that anything written beside it shows.
type guarded struct {
	whole []byte
	want  []byte
	b     []byte
	lo    int
}

func guard(b []byte) *guarded {
	g := &guarded{lo: 24}
	g.whole = make([]byte, 24+len(b)+168) // room behind it for whoever appends to it
	for i := range g.whole {
		g.whole[i] = byte(0xA0 + i%23)
	}
	copy(g.whole[24:], b)
	g.b = g.whole[24 : 24+len(b) : 24+len(b)+168]
	g.want = clone(g.whole)
	return g
}

func (g *guarded) intact() bool { return bytes.Equal(g.whole, g.want) }

// scribble overwrites the buffer, as a caller that reuses it does.
func (g *guarded) scribble() {
	for i := range g.whole {
		g.whole[i] ^= 0x5a
	}
}

var errSome = errors.New("simulated failure")

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}
