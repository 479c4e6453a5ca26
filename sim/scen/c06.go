package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C06", Run: c06, Quick: 16000, Thorough: 700000,
		Rule:   "One evaluation is one simulated run: ciphertexts (of the library and of an independent implementation) pass a network that damages, truncates, extends, splices, misroutes and forges them, and concurrent recipients decrypt what arrives; an independent strict decryption decides which arrivals are well formed, and every other must give an error.",
		Real:   []string{"sm2 decryption and encryption", "sm3"},
		Stub:   []string{"network (simulated)", "goroutine scheduling (simulator)"},
		Need:   []string{"preempted", "net-damage", "net-splice", "net-truncate", "net-misroute", "forged-unreduced", "forged-off-curve", "forged-zero-stream", "net-part", "net-rearranged", "rejected", "accepted"},
		Assume: []string{"ref/sm2.go implements GB/T 32918.4", "the leading format byte (04) is not part of the statement: the library ignores it"},
	})
}

// Points with a tiny coordinate, so that the coordinate plus p still fits 32 bytes.
var tinyY = []struct {
	x string
	y int64
}{
	{"9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f", 1},
	{"3b404f94e46027d11401987cd5acb2953e4bff91a7d856b40986700015b4f8a6", 2},
	{"1800ffcb38194ce0905766dfd6b9ce196095203d481ba8e4e614749d615cd506", 3},
	{"b32daa88c808f7511afa590770f3e7e06ba565237deb82dc0a4178691df63a4e", 6},
}

func tinyPoint(t *vsim.Tape) (q ref.Point, small int) {
	if t.One(2) {
		e := tinyY[t.Int(len(tinyY))]
		x, _ := new(big.Int).SetString(e.x, 16)
		return ref.Point{X: x, Y: big.NewInt(e.y)}, 1
	}
	for x := int64(t.Int(1000)); ; x++ {
		y2 := new(big.Int).Exp(big.NewInt(x), big.NewInt(3), nil)
		y2.Sub(y2, big.NewInt(3*x))
		y2.Add(y2, ref.B)
		y2.Mod(y2, ref.P)
		if y := new(big.Int).ModSqrt(y2, ref.P); y != nil {
			return ref.Point{X: big.NewInt(x), Y: y}, 0
		}
	}
}

// seal completes a ciphertext for the point q under d, as somebody who can compute the shared point would.
func seal(d *big.Int, q ref.Point, m []byte) (c3, c2 []byte) {
	s := ref.Mult(q, d)
	if s.Inf() {
		s = ref.Point{X: new(big.Int), Y: new(big.Int)}
	}
	k := ref.KDF(s, len(m))
	c2 = make([]byte, len(m))
	for i := range m {
		c2[i] = m[i] ^ k[i]
	}
	return ref.SM3(ref.B32(s.X), m, ref.B32(s.Y)), c2
}

func c06(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("recipients")
	var keys []*sm2.PrivateKey
	for i := 1 + t.Int(2); i > 0; i-- {
		keys = append(keys, keyOf(scalar(t)))
	}
	type ct struct {
		to  *sm2.PrivateKey
		b   []byte
		how string
	}
	var sent []*ct
	for i := 1 + t.Int(3); i > 0; i-- {
		k := keys[t.Int(len(keys))]
		m := plaintext(w)
		b, ok := ref.Encrypt(pt(&k.PublicKey), scalar(t), m)
		if ok {
			sent = append(sent, &ct{k, b, "intact"})
		}
	}
	if len(sent) == 0 {
		return
	}
	var mail []*ct
	for i := 2 + t.Int(5); i > 0; i-- {
		c := *sent[t.Int(len(sent))]
		o := sent[t.Int(len(sent))]
		switch t.Weighted(2, 4, 2, 2, 2, 2, 2, 1, 1, 2, 2) {
		case 0:
			if t.One(2) {
				c.to, c.how = keys[t.Int(len(keys))], "routed to any key"
				w.Fired("net-misroute")
			}
		case 1:
			c.b, c.how = vsim.Damage(t, c.b, o.b)
			w.Fired("net-damage")
		case 2:
			c.b, c.how = c.b[:t.Int(len(c.b)+1)], "truncated"
			if t.One(3) {
				c.b = c.b[:min(len(c.b), 90+t.Int(16))]
			}
			w.Fired("net-truncate")
		case 3: // parts of two
			b := clone(c.b)
			lo := [...]int{0, 1, 33, 65, 97}
			i := t.Int(5)
			hi := [...]int{1, 33, 65, 97, len(b)}[i]
			copy(b[lo[i]:min(hi, len(b))], o.b[lo[i]:min(hi, len(o.b))])
			c.b, c.how = b, fmt.Sprintf("part %d of another", i)
			w.Fired("net-splice")
		case 4: // one part altered
			b := clone(c.b)
			parts := [][2]int{{1, 33}, {33, 65}, {65, 97}, {97, len(b)}}
			q := parts[t.Int(4)]
			part := b[q[0]:q[1]]
			if len(part) > 0 {
				switch t.Int(6) {
				case 0:
					part[t.Int(len(part))] ^= 1 << t.Int(8)
				case 1: // only the last byte
					part[len(part)-1] ^= byte(1 + t.Int(255))
				case 2: // only the first byte
					part[0] ^= byte(1 + t.Int(255))
				case 3:
					clear(part)
				case 4:
					vsim.Fill(part, t.Seed())
				case 5: // two bytes exchanged
					i, j := t.Int(len(part)), t.Int(len(part))
					part[i], part[j] = part[j], part[i]
				}
			}
			c.b, c.how = b, "one part altered"
			w.Fired("net-part")
		case 5: // a point whose coordinate is not reduced, otherwise right
			q, which := tinyPoint(t)
			m := t.Bytes(t.Int(60))
			c3, c2 := seal(c.to.D, q, m)
			x, y := new(big.Int).Set(q.X), new(big.Int).Set(q.Y)
			if which == 0 {
				x.Add(x, ref.P)
			} else {
				y.Add(y, ref.P)
			}
			if t.One(5) { // the honest form
				x, y = q.X, q.Y
				c.how = "tiny coordinate"
			} else {
				c.how = "unreduced coordinate"
				w.Hit("forged-unreduced")
			}
			c.b = bytes.Join([][]byte{{4}, ref.B32(x), ref.B32(y), c3, c2}, nil)
			w.Fired("net-forged")
		case 6: // not on the curve
			b := clone(c.b)
			x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:65])
			switch t.Int(6) {
			case 0:
				x.SetInt64(0)
				y.SetInt64(0)
			case 1:
				y.Add(y, one)
			case 2:
				x, y = y, x
			case 3:
				y.SetInt64(0)
			case 4: // a point of the curve with another b: the addition formulas would not notice
				y.SetInt64(int64(1 + t.Int(1000)))
			case 5:
				x.SetInt64(int64(t.Int(1000)))
			}
			x.Mod(x, ref.P)
			y.Mod(y, ref.P)
			m := t.Bytes(t.Int(60))
			s := ref.Mult(ref.Point{X: x, Y: y}, c.to.D) // what a decryption without the check would compute
			if s.Inf() {
				s = ref.Point{X: new(big.Int), Y: new(big.Int)}
			}
			c3, c2 := seal(one, s, m)
			c.b = bytes.Join([][]byte{{4}, ref.B32(x), ref.B32(y), c3, c2}, nil)
			c.how = "off the curve"
			w.Hit("forged-off-curve")
			w.Fired("net-forged")
		case 7: // the key stream is all zero
			s := kdfZero[0][t.Int(len(kdfZero[0]))]
			k := sharedScalar(c.to.D, s)
			m := t.Bytes(1)
			q := ref.BaseMult(k)
			c3, c2 := seal(c.to.D, q, m)
			c.b = bytes.Join([][]byte{{4}, ref.B32(q.X), ref.B32(q.Y), c3, c2}, nil)
			c.how = "zero key stream"
			w.Hit("forged-zero-stream")
			w.Fired("net-forged")
		case 8: // anything
			c.b, c.how = t.Bytes(t.Int(300)), "arbitrary"
			w.Fired("net-forged")
		case 9: // extended
			if t.One(2) {
				c.b = append(clone(c.b), t.Bytes(1+t.Int(40))...)
			} else {
				c.b = append(clone(c.b), o.b[t.Int(len(o.b)):]...)
			}
			c.how = "extended"
			w.Fired("net-extended")
		case 10: // as other implementations write it
			c.b, c.how = rearranged(t, c.b)
			w.Fired("net-rearranged")
		}
		mail = append(mail, &c)
	}
	tasks := 1 + t.Int(3)
	for i := 0; i < tasks; i++ {
		w.Go(p, fmt.Sprintf("r%d", i), func() {
			for len(mail) > 0 {
				j := t.Int(len(mail))
				c := mail[j]
				mail = append(mail[:j:j], mail[j+1:]...)
				c06receive(w, c.to, c.b, c.how)
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

// rearranged is the ciphertext in another order or encoding: those of the draft standard, of ASN.1 and of tools.
func rearranged(t *vsim.Tape, b []byte) ([]byte, string) {
	c1, x, y, c3, c2 := b[1:65], b[1:33], b[33:65], b[65:97], b[97:]
	mark := [][]byte{{4}, {4}, {4}, nil, {6 + y[31]&1}, {2 + y[31]&1}}[t.Int(6)]
	switch t.Int(9) {
	case 0, 1:
		return bytes.Join([][]byte{mark, c1, c2, c3}, nil), "in the order of the draft"
	case 2:
		parts := [][]byte{c1, c3, c2}
		for i := 2; i > 0; i-- {
			j := t.Int(i + 1)
			parts[i], parts[j] = parts[j], parts[i]
		}
		return bytes.Join(append([][]byte{mark}, parts...), nil), "in some order"
	case 3:
		return bytes.Join([][]byte{{2 + y[31]&1}, x, c3, c2}, nil), "with a compressed point"
	case 4:
		return bytes.Join([][]byte{c1, c3, c2}, nil), "without a mark"
	case 5:
		return seq(bigInteger(new(big.Int).SetBytes(x)), bigInteger(new(big.Int).SetBytes(y)), octets(c3), octets(c2)), "in DER"
	case 6:
		return bytes.Join([][]byte{{4}, y, x, c3, c2}, nil), "with the coordinates exchanged"
	case 7:
		p := func(b []byte) []byte {
			b = clone(b)
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			return b
		}
		return bytes.Join([][]byte{{4}, p(x), p(y), p(c3), p(c2)}, nil), "in the other byte order"
	default:
		if h, err := hex.DecodeString(string(b)); err == nil {
			return h, "from hex"
		}
		return []byte(hex.EncodeToString(b)), "in hex"
	}
}

func c06receive(w *vsim.World, k *sm2.PrivateKey, b []byte, how string) {
	var want []byte
	ok := false
	if len(b) > 0 {
		strict := clone(b)
		strict[0] = 4
		want, ok = ref.Decrypt(k.D, strict)
	}
	g := guard(b)
	var got []byte
	var err error
	w.API("Decryt", limSmall+int64(len(b))*3000, func() { got, err = sm2.Decryt(k, g.b) })
	w.Log("%s (%d bytes): %s", how, len(b), errStr(err))
	w.Check(g.intact(), "arguments", "Decryt changed the ciphertext buffer")
	if !ok {
		w.Hit("rejected")
		w.Check(err != nil, "accepted-bad", "Decryt accepted a ciphertext that is not well formed (%s): d=%x ciphertext %x, plaintext %s", how, k.D, b, hx(got))
		return
	}
	w.Hit("accepted")
	w.Check(err == nil && bytes.Equal(got, want), "refused-good", "Decryt of the well-formed ciphertext %s (%s) gives %s, %v; expected %s", hx(b), how, hx(got), err, hx(want))
}
