package ref

import (
	"math/big"
	"math/bits"
)

func hx(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

// Domain parameters of the SM2 recommended curve.
var (
	P  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	A  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	B  = hx("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	N  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	Gx = hx("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
	Gy = hx("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")

	one = big.NewInt(1)
	two = big.NewInt(2)
)

// Point is an affine point; X == nil is the point at infinity.
type Point struct{ X, Y *big.Int }

func (p Point) Inf() bool { return p.X == nil }

// G is the base point.
var G = Point{Gx, Gy}

// Montgomery arithmetic modulo P.
type fe [4]uint64

var (
	modP  fe
	invP  uint64
	rrP   fe
	feOne fe
)

func toLimbs(x *big.Int) fe {
	var b [32]byte
	x.FillBytes(b[:])
	var r fe
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			r[i] |= uint64(b[31-8*i-j]) << (8 * uint(j))
		}
	}
	return r
}

func fromLimbs(r *fe) *big.Int {
	var b [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			b[31-8*i-j] = byte(r[i] >> (8 * uint(j)))
		}
	}
	return new(big.Int).SetBytes(b[:])
}

func init() {
	modP = toLimbs(P)
	// invP = -P^-1 mod 2^64
	x := uint64(1)
	for i := 0; i < 6; i++ {
		x *= 2 - modP[0]*x
	}
	invP = -x
	rr := new(big.Int).Lsh(one, 512)
	rr.Mod(rr, P)
	rrP = toLimbs(rr)
	o := fe{1}
	feMul(&feOne, &o, &rrP)
	initComb()
}

func feMul(z, x, y *fe) {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(x[j], y[i])
			var cc uint64
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j], c = lo, hi
		}
		var cc uint64
		t[4], cc = bits.Add64(t[4], c, 0)
		t[5] = cc
		m := t[0] * invP
		hi, lo := bits.Mul64(m, modP[0])
		_, cc = bits.Add64(lo, t[0], 0)
		c = hi + cc
		for j := 1; j < 4; j++ {
			hi, lo := bits.Mul64(m, modP[j])
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j-1], c = lo, hi
		}
		t[3], cc = bits.Add64(t[4], c, 0)
		t[4] = t[5] + cc
	}
	var r fe
	var b uint64
	for j := 0; j < 4; j++ {
		r[j], b = bits.Sub64(t[j], modP[j], b)
	}
	_, b = bits.Sub64(t[4], 0, b)
	if b != 0 {
		copy(z[:], t[:4])
	} else {
		*z = r
	}
}

func feAdd(z, x, y *fe) {
	var s, r fe
	var c, b uint64
	for j := 0; j < 4; j++ {
		s[j], c = bits.Add64(x[j], y[j], c)
	}
	for j := 0; j < 4; j++ {
		r[j], b = bits.Sub64(s[j], modP[j], b)
	}
	if c == 0 && b != 0 {
		*z = s
	} else {
		*z = r
	}
}

func feSub(z, x, y *fe) {
	var s fe
	var b, c uint64
	for j := 0; j < 4; j++ {
		s[j], b = bits.Sub64(x[j], y[j], b)
	}
	if b != 0 {
		for j := 0; j < 4; j++ {
			s[j], c = bits.Add64(s[j], modP[j], c)
		}
	}
	*z = s
}

func (x *fe) zero() bool { return x[0]|x[1]|x[2]|x[3] == 0 }

func toMont(x *big.Int) fe {
	l := toLimbs(x)
	var r fe
	feMul(&r, &l, &rrP)
	return r
}

func fromMont(x *fe) *big.Int {
	o := fe{1}
	var r fe
	feMul(&r, x, &o)
	return fromLimbs(&r)
}

// jacobian coordinates; z == 0 is infinity.
type jp struct{ x, y, z fe }

func toJac(p Point) jp {
	if p.Inf() {
		return jp{}
	}
	return jp{toMont(p.X), toMont(p.Y), feOne}
}

func (p *jp) affine() Point {
	if p.z.zero() {
		return Point{}
	}
	z := fromMont(&p.z)
	zi := z.ModInverse(z, P)
	m := toMont(zi)
	var z2, z3, x, y fe
	feMul(&z2, &m, &m)
	feMul(&z3, &z2, &m)
	feMul(&x, &p.x, &z2)
	feMul(&y, &p.y, &z3)
	return Point{fromMont(&x), fromMont(&y)}
}

func (r *jp) dbl(p *jp) {
	if p.z.zero() || p.y.zero() {
		*r = jp{}
		return
	}
	var delta, gamma, beta, alpha, t, u fe
	feMul(&delta, &p.z, &p.z)
	feMul(&gamma, &p.y, &p.y)
	feMul(&beta, &p.x, &gamma)
	feSub(&t, &p.x, &delta)
	feAdd(&u, &p.x, &delta)
	feMul(&t, &t, &u)
	feAdd(&alpha, &t, &t)
	feAdd(&alpha, &alpha, &t)
	var z3, x3, y3, b4, b8 fe
	feAdd(&z3, &p.y, &p.z)
	feMul(&z3, &z3, &z3)
	feSub(&z3, &z3, &gamma)
	feSub(&z3, &z3, &delta)
	feAdd(&b4, &beta, &beta)
	feAdd(&b4, &b4, &b4)
	feAdd(&b8, &b4, &b4)
	feMul(&x3, &alpha, &alpha)
	feSub(&x3, &x3, &b8)
	feSub(&t, &b4, &x3)
	feMul(&y3, &alpha, &t)
	feMul(&u, &gamma, &gamma)
	feAdd(&u, &u, &u)
	feAdd(&u, &u, &u)
	feAdd(&u, &u, &u)
	feSub(&y3, &y3, &u)
	*r = jp{x3, y3, z3}
}

func (r *jp) add(p, q *jp) {
	if p.z.zero() {
		*r = *q
		return
	}
	if q.z.zero() {
		*r = *p
		return
	}
	var z1z1, z2z2, u1, u2, s1, s2, h, rr fe
	feMul(&z1z1, &p.z, &p.z)
	feMul(&z2z2, &q.z, &q.z)
	feMul(&u1, &p.x, &z2z2)
	feMul(&u2, &q.x, &z1z1)
	feMul(&s1, &p.y, &q.z)
	feMul(&s1, &s1, &z2z2)
	feMul(&s2, &q.y, &p.z)
	feMul(&s2, &s2, &z1z1)
	feSub(&h, &u2, &u1)
	feSub(&rr, &s2, &s1)
	if h.zero() {
		if rr.zero() {
			r.dbl(p)
			return
		}
		*r = jp{}
		return
	}
	var hh, hhh, v, x3, y3, z3, t fe
	feMul(&hh, &h, &h)
	feMul(&hhh, &hh, &h)
	feMul(&v, &u1, &hh)
	feMul(&x3, &rr, &rr)
	feSub(&x3, &x3, &hhh)
	feSub(&x3, &x3, &v)
	feSub(&x3, &x3, &v)
	feSub(&t, &v, &x3)
	feMul(&y3, &rr, &t)
	feMul(&t, &s1, &hhh)
	feSub(&y3, &y3, &t)
	feMul(&z3, &p.z, &q.z)
	feMul(&z3, &z3, &h)
	*r = jp{x3, y3, z3}
}

func mulJac(p *jp, k *big.Int) jp {
	var tab [16]jp
	for i := 1; i < 16; i++ {
		tab[i].add(&tab[i-1], p)
	}
	var acc jp
	kb := k.Bytes()
	for _, b := range kb {
		for h := 0; h < 2; h++ {
			for i := 0; i < 4; i++ {
				acc.dbl(&acc)
			}
			nib := b >> 4
			if h == 1 {
				nib = b & 15
			}
			if nib != 0 {
				acc.add(&acc, &tab[nib])
			}
		}
	}
	return acc
}

// comb[i][j] = j * 16^i * G
var comb [64][16]jp

func initComb() {
	g := toJac(Point{Gx, Gy})
	for i := 0; i < 64; i++ {
		for j := 1; j < 16; j++ {
			comb[i][j].add(&comb[i][j-1], &g)
		}
		for j := 0; j < 4; j++ {
			g.dbl(&g)
		}
	}
}

func baseJac(k *big.Int) jp {
	var b [32]byte
	new(big.Int).Mod(k, N).FillBytes(b[:])
	var acc jp
	for i := 0; i < 64; i++ {
		by := b[31-i/2]
		nib := by & 15
		if i%2 == 1 {
			nib = by >> 4
		}
		if nib != 0 {
			acc.add(&acc, &comb[i][nib])
		}
	}
	return acc
}

// BaseMult is k*G.
func BaseMult(k *big.Int) Point { j := baseJac(k); return j.affine() }

// Mult is k*p.
func Mult(p Point, k *big.Int) Point {
	jq := toJac(p)
	j := mulJac(&jq, new(big.Int).Mod(k, N))
	return j.affine()
}

// Add is p+q.
func Add(p, q Point) Point {
	a, b := toJac(p), toJac(q)
	var r jp
	r.add(&a, &b)
	return r.affine()
}

// Neg is -p.
func Neg(p Point) Point {
	if p.Inf() {
		return p
	}
	return Point{new(big.Int).Set(p.X), new(big.Int).Mod(new(big.Int).Sub(P, p.Y), P)}
}

// Eq compares points.
func Eq(p, q Point) bool {
	if p.Inf() || q.Inf() {
		return p.Inf() == q.Inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// OnCurve reports whether x, y are reduced and satisfy the curve equation.
func OnCurve(x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Add(r, A)
	r.Mul(r, x)
	r.Add(r, B)
	l.Sub(l, r)
	return l.Mod(l, P).Sign() == 0
}

// B32 is the 32-byte big-endian form of x.
func B32(x *big.Int) []byte { b := make([]byte, 32); return x.FillBytes(b) }
