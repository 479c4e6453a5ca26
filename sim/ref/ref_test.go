package ref

import (
	"bytes"
	"crypto/elliptic"
	"encoding/hex"
	"math/big"
	"math/rand"
	"testing"
)

func TestVectors(t *testing.T) {
	if h := hex.EncodeToString(SM3([]byte("abc"))); h != "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0" {
		t.Fatal(h)
	}
	d := hx("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	k := hx("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	pub := BaseMult(d)
	if pub.X.Cmp(hx("09F9DF311E5421A150DD7D161E4BC5C672179FAD1833FC076BB08FF356F35020")) != 0 {
		t.Fatal(pub.X.Text(16))
	}
	r, s, ok := SignDigest(d, k, Digest(nil, []byte("message digest"), pub))
	if !ok || r.Cmp(hx("F5A03B0648D2C4630EEAC513E1BB81A15944DA3827D5B74143AC7EACEEE720B3")) != 0 || s.Cmp(hx("B1B6AA29DF212FD8763182BC0D421CA1BB9038FD1F7F42D4840B69C485BBC1AA")) != 0 {
		t.Fatal(r.Text(16), s.Text(16))
	}
	if !VerifyDigest(pub, Digest(nil, []byte("message digest"), pub), r, s) {
		t.Fatal("verify")
	}
	if Nonce(d, r, s).Cmp(k) != 0 {
		t.Fatal("nonce")
	}
	ct, ok := Encrypt(pub, k, []byte("encryption standard"))
	want := "0404ebfc718e8d1798620432268e77feb6415e2ede0e073c0f4f640ecd2e149a73e858f9d81e5430a57b36daab8f950a3c64e6ee6a63094d99283aff767e124df059983c18f809e262923c53aec295d30383b54e39d609d160afcb1908d0bd876621886ca989ca9c7d58087307ca93092d651efa"
	if !ok || hex.EncodeToString(ct) != want {
		t.Fatal(hex.EncodeToString(ct))
	}
	if m, ok := Decrypt(d, ct); !ok || string(m) != "encryption standard" {
		t.Fatal(ok)
	}
	rnd := rand.New(rand.NewSource(1))
	c := &elliptic.CurveParams{P: P, N: N, B: B, Gx: Gx, Gy: Gy, BitSize: 256}
	for i := 0; i < 50; i++ {
		a := new(big.Int).Rand(rnd, N)
		b := new(big.Int).Rand(rnd, N)
		p := BaseMult(a)
		x, y := c.ScalarBaseMult(a.Bytes())
		if !Eq(p, Point{x, y}) {
			t.Fatal("base")
		}
		q := Mult(p, b)
		x2, y2 := c.ScalarMult(x, y, b.Bytes())
		if !Eq(q, Point{x2, y2}) {
			t.Fatal("mult")
		}
		if !Eq(Add(p, Neg(p)), Point{}) || !Eq(Add(p, p), Mult(p, two)) || !OnCurve(p.X, p.Y) {
			t.Fatal("add")
		}
		if r2, s2, ok := ParseSig(MarshalSig(a, b)); !ok || r2.Cmp(a) != 0 || s2.Cmp(b) != 0 {
			t.Fatal("der")
		}
	}
	for _, v := range []int64{0, 1, 127, 128, 255, 256, -1, -128, -129, -255, -256, 65535} {
		x := big.NewInt(v)
		if y, rest, ok := parseInt(derInt(x)); !ok || len(rest) != 0 || y.Cmp(x) != 0 {
			t.Fatal(v)
		}
	}
	if !bytes.Equal(SM3(make([]byte, 200)), SM3(make([]byte, 77), make([]byte, 123))) {
		t.Fatal()
	}
}

func BenchmarkMult(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Mult(G, N)
		Mult(G, new(big.Int).Sub(N, two))
	}
}
func BenchmarkBase(b *testing.B) {
	for i := 0; i < b.N; i++ {
		BaseMult(new(big.Int).Sub(N, two))
	}
}
