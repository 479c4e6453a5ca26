package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C04", Run: c04, Quick: 9000, Thorough: 400000,
		Rule:   "One evaluation is one simulated run: senders sign, a lossy network alters, duplicates, reorders and splices what they send, and concurrent receivers check it through all eight verification entry points; every answer is compared with an independent strict verifier.",
		Real:   []string{"sm2 verification", "sm3"},
		Stub:   []string{"network (simulated)", "goroutine scheduling (simulator)", "signatures made by the reference signer"},
		Need:   []string{"preempted", "net-damage", "net-splice", "forged-digest", "net-duplicate", "accepted", "rejected", "number-game", "x-beyond-n", "doubling"},
		Assume: []string{"ref/sm2.go implements GB/T 32918.2"},
	})
}

type signedMsg struct {
	key  *sm2.PrivateKey
	uid  []byte
	msg  []byte
	r, s *big.Int
	der  []byte
	how  string
	pub  *sm2.PublicKey
	dg   []byte // digest override
	only bool   // made for its digest: only the entries that take one
}

func refSign(t *vsim.Tape, d *big.Int, digest []byte) (r, s *big.Int) {
	for {
		k := scalar(t)
		r, s, ok := ref.SignDigest(d, k, digest)
		if ok {
			return r, s
		}
		if len(t.Rec) > 20000 {
			return one, one
		}
	}
}

func c04(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("receivers")
	var sent []*signedMsg
	var keys []*sm2.PrivateKey
	for i := 1 + t.Int(2); i > 0; i-- {
		keys = append(keys, keyOf(scalar(t)))
	}
	for i := 1 + t.Int(3); i > 0; i-- {
		m := &signedMsg{key: keys[t.Int(len(keys))], uid: userID(t), msg: message(t, 2000)}
		m.pub = &m.key.PublicKey
		m.dg = ref.Digest(m.uid, m.msg, pt(m.pub))
		m.r, m.s = refSign(t, m.key.D, m.dg)
		m.der = ref.MarshalSig(m.r, m.s)
		sent = append(sent, m)
	}
	// the network
	var mail []*signedMsg
	for i := 2 + t.Int(4); i > 0; i-- {
		m := *sent[t.Int(len(sent))]
		if t.One(5) {
			c04forge(w, &m)
		} else {
			c04alter(w, &m, sent[t.Int(len(sent))])
			if t.One(3) { // and the genuine message arrives as well, earlier or later
				g := *sent[t.Int(len(sent))]
				g.how = "unchanged"
				mail = append(mail, &g)
			}
		}
		mail = append(mail, &m)
		if t.One(6) {
			mail = append(mail, &m)
			w.Fired("net-duplicate")
		}
	}
	tasks := 1 + t.Int(3)
	for i := 0; i < tasks; i++ {
		w.Go(p, fmt.Sprintf("r%d", i), func() {
			for len(mail) > 0 {
				j := t.Int(len(mail))
				m := mail[j]
				mail = append(mail[:j:j], mail[j+1:]...)
				c04receive(w, m)
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

// c04forge makes a digest and numbers that fit (or almost fit) together, which needs no key where a check is missing.
func c04forge(w *vsim.World, m *signedMsg) {
	t := w.T
	mod := func(x *big.Int) *big.Int { return x.Mod(x, n) }
	sub := func(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }
	x := func(p ref.Point) *big.Int {
		if p.Inf() {
			return new(big.Int)
		}
		return p.X
	}
	q := pt(m.pub)
	var e, r, s *big.Int
	kind := t.Int(7)
	switch kind {
	case 0: // r+s = n
		s = scalar(t)
		r = new(big.Int).Sub(n, s)
		e = sub(r, x(ref.BaseMult(s)))
	case 1: // s = 0
		s = new(big.Int)
		r = scalar(t)
		e = sub(r, x(ref.Mult(q, r)))
	case 2: // r = 0
		s = scalar(t)
		r = new(big.Int)
		e = sub(r, x(ref.Add(ref.BaseMult(s), ref.Mult(q, s))))
	case 3: // the point at infinity: k = 0
		r = scalar(t)
		s = new(big.Int).Add(m.key.D, one)
		s.ModInverse(s, n)
		s.Mul(s, r).Mul(s, m.key.D)
		s = sub(new(big.Int), s)
		e = new(big.Int).Set(r)
	case 4: // a valid one with a small s
		s = new(big.Int).SetBytes(t.Bytes(1 + t.Int(27)))
		if s.Sign() == 0 {
			s.SetInt64(1)
		}
		k := scalar(t)
		r = new(big.Int).Add(m.key.D, one)
		r = sub(k, r.Mul(r, s))
		r.Mul(r, new(big.Int).ModInverse(m.key.D, n))
		mod(r)
		e = sub(r, x(ref.BaseMult(k)))
	case 5: // a valid one with a small r
		r = new(big.Int).SetBytes(t.Bytes(1 + t.Int(27)))
		if r.Sign() == 0 {
			r.SetInt64(1)
		}
		k := scalar(t)
		s = new(big.Int).Add(m.key.D, one)
		s.ModInverse(s, n)
		s.Mul(s, sub(k, new(big.Int).Mul(r, m.key.D)))
		mod(s)
		e = sub(r, x(ref.BaseMult(k)))
	case 6: // a valid one whose point has a chosen coordinate, such as x = 0, for a key made to match
		at := ref.Point{X: new(big.Int), Y: new(big.Int).Set(zeroX)}
		s = scalar(t)
		tt := scalar(t)
		switch t.Int(6) {
		case 0: // or x beyond n, which must be reduced
			at = liftX(new(big.Int).Add(n, new(big.Int).SetBytes(t.Bytes(1+t.Int(15)))), 1)
			w.Hit("x-beyond-n")
		case 1: // or just below p
			at = liftX(new(big.Int).Sub(sm2.SM2P256V1().Params().P, big.NewInt(int64(1+t.Int(50)))), -1)
			w.Hit("x-beyond-n")
		case 2: // or small
			at = liftX(new(big.Int).SetBytes(t.Bytes(1+t.Int(20))), 1)
		case 3: // or twice s*G, so that the two summands are the same point
			at = ref.BaseMult(new(big.Int).Lsh(s, 1))
			w.Hit("doubling")
		case 4: // or one of the summands is the base point, or its opposite
			at = ref.Add(ref.BaseMult(s), ref.BaseMult(one))
			if t.One(2) {
				at = ref.Add(ref.BaseMult(s), ref.Neg(ref.BaseMult(one)))
			}
		}
		if t.One(2) && !at.Inf() {
			at = ref.Neg(at)
		}
		if at.Inf() {
			return
		}
		p := ref.Mult(ref.Add(at, ref.Neg(ref.BaseMult(s))), new(big.Int).ModInverse(tt, n))
		r = sub(tt, s)
		e = sub(r, at.X)
		if p.Inf() || r.Sign() == 0 {
			return
		}
		m.pub = &sm2.PublicKey{Curve: sm2.SM2P256V1(), X: p.X, Y: p.Y}
	}
	how := ""
	switch t.Weighted(4, 1, 1, 1, 1, 1) {
	case 1:
		s = new(big.Int).Add(s, n)
		how = ", s+n"
	case 2:
		r = new(big.Int).Add(r, n)
		how = ", r+n"
	case 3:
		s = new(big.Int).Sub(s, n)
		how = ", s-n"
	case 4:
		r = new(big.Int).Sub(r, n)
		how = ", r-n"
	case 5:
		e = new(big.Int).Add(e, n)
		if e.BitLen() > 256 {
			e.Sub(e, n)
		}
		how = ", e+n"
	}
	m.dg = ref.B32(e)
	m.r, m.s = r, s
	m.der = ref.MarshalSig(r, s)
	m.only = true
	m.how = fmt.Sprintf("made for its digest %d%s", kind, how)
	w.Fired("forged-digest")
}

// liftX is a point at x, or at the next possible one in steps of step.
func liftX(x *big.Int, step int64) ref.Point {
	c := sm2.SM2P256V1().Params()
	for ; ; x.Add(x, big.NewInt(step)) {
		x.Mod(x, c.P)
		y2 := new(big.Int).Mul(x, x)
		y2.Sub(y2, big.NewInt(3)).Mul(y2, x).Add(y2, c.B).Mod(y2, c.P)
		if y := new(big.Int).ModSqrt(y2, c.P); y != nil {
			return ref.Point{X: x, Y: y}
		}
	}
}

// zeroX is the other coordinate of a point with x = 0.
var zeroX = func() *big.Int {
	v, _ := new(big.Int).SetString("fd4511e81736a60f07e88a83d6cf5a167fae6d1a9c9330e76e232e00f5cdc154", 16)
	return v
}()

// c04alter is what happens to a message on its way.
func c04alter(w *vsim.World, m *signedMsg, o *signedMsg) {
	t := w.T
	m.how = "unchanged"
	for rounds := 1; rounds > 0; rounds-- {
		if t.One(12) {
			rounds++
		}
		switch t.Weighted(4, 6, 6, 2, 2, 2, 2) {
		case 0:
		case 1: // bytes of the encoding
			b, how := vsim.Damage(t, m.der, o.der)
			m.der, m.how = b, "signature "+how
			if r, s, ok := ref.ParseSig(b); ok {
				m.r, m.s = r, s
			} else {
				m.r, m.s = nil, nil
			}
			w.Fired("net-damage")
			return
		case 2: // arithmetic on r and s
			r, s := new(big.Int).Set(m.r), new(big.Int).Set(m.s)
			x, y := r, s
			if t.One(2) {
				x, y = s, r
			}
			k := t.Int(14)
			switch k {
			case 0:
				x.Add(x, n)
			case 1:
				x.Sub(n, x)
			case 2:
				r, s = s, r
			case 3:
				x.SetInt64(0)
			case 4:
				x.Set(n)
			case 5:
				x.Neg(x)
			case 6:
				x.Sub(n, y) // r+s = n
			case 7:
				x.SetInt64(int64(t.Int(3)))
			case 8:
				x.Sub(x, n)
			case 9:
				x.Sub(n, one)
			case 10:
				x.Add(x, new(big.Int).Lsh(one, uint(t.Int(300))))
			case 11:
				x.Xor(x, new(big.Int).Lsh(one, uint(t.Int(256))))
			case 12:
				x.Add(x, new(big.Int).Lsh(n, uint(1+t.Int(64))))
			case 13:
				x.Add(x, n)
				y.Add(y, n)
			}
			m.r, m.s = r, s
			m.der = ref.MarshalSig(r, s)
			m.how = fmt.Sprintf("numbers %d", k)
			w.Fired("number-game")
		case 3: // the message
			b, how := vsim.Damage(t, m.msg, o.msg)
			m.msg, m.how = b, "message "+how
			m.dg = ref.Digest(m.uid, m.msg, pt(m.pub))
			w.Fired("net-damage")
		case 4: // the id
			switch t.Int(5) {
			case 4: // the boundary between the id and the message moves
				whole := append(clone(m.uid), m.msg...)
				cut := t.Int(len(whole) + 1)
				if len(m.uid) > 0 && t.One(2) {
					cut = len(m.uid) - 1
				} else if len(m.msg) > 0 && t.One(2) {
					cut = len(m.uid) + 1
				}
				if cut > 8191 {
					cut = 8191
				}
				m.uid, m.msg = whole[:cut:cut], whole[cut:]
				w.Hit("boundary-moved")
			case 0:
				m.uid = o.uid
			case 1:
				m.uid, _ = vsim.Damage(t, m.uid, o.uid)
				if len(m.uid) > 8191 {
					m.uid = m.uid[:8191]
				}
			case 2:
				m.uid = nil
			case 3:
				if len(m.uid) == 0 {
					m.uid = clone(ref.DefaultID) // the same thing, spelt out
				} else {
					m.uid = append(m.uid[:len(m.uid)-1:len(m.uid)-1], m.uid[len(m.uid)-1]^1)
				}
			}
			m.dg = ref.Digest(m.uid, m.msg, pt(m.pub))
			m.how = "user id"
			w.Fired("net-damage")
		case 5: // the key
			switch t.Int(3) {
			case 0:
				m.pub = &o.key.PublicKey
			case 1:
				q := ref.Neg(pt(m.pub))
				m.pub = &sm2.PublicKey{Curve: sm2.SM2P256V1(), X: q.X, Y: q.Y}
			case 2:
				q := ref.BaseMult(new(big.Int).Add(m.key.D, one))
				m.pub = &sm2.PublicKey{Curve: sm2.SM2P256V1(), X: q.X, Y: q.Y}
			}
			m.dg = ref.Digest(m.uid, m.msg, pt(m.pub))
			if t.One(2) {
				// a key holder who signed for that key's id block, but with the wrong key
				m.r, m.s = refSign(t, m.key.D, m.dg)
				m.der = ref.MarshalSig(m.r, m.s)
			}
			m.how = "key"
			w.Fired("net-damage")
		case 6: // another message's signature, or part of it
			switch t.Int(4) {
			case 0:
				m.r, m.s = o.r, o.s
			case 1:
				m.s = o.s
			case 2:
				m.r = o.r
			case 3:
				m.msg = o.msg
				m.dg = ref.Digest(m.uid, m.msg, pt(m.pub))
			}
			m.der = ref.MarshalSig(m.r, m.s)
			m.how = "splice"
			w.Fired("net-splice")
		}
	}
}

func c04receive(w *vsim.World, m *signedMsg) {
	t := w.T
	e := t.Int(8)
	if m.only {
		e &^= 2
	}
	in := m.msg
	dg := m.dg
	if digestEntry(e) {
		in = m.dg
		if t.One(3) { // and the digest itself may arrive altered
			in, _ = vsim.Damage(t, m.dg, m.msg)
			if t.One(3) {
				in = append(make([]byte, 1+t.Int(9)), m.dg...) // the same number
			}
			w.Fired("net-damage")
			dg = in
		}
	}
	if m.r == nil && !derEntry(e) {
		e |= 1
	}
	name := verifyEntries[e]
	want := false
	if derEntry(e) {
		if r, s, ok := ref.ParseSig(m.der); ok {
			want = ref.VerifyDigest(pt(m.pub), dg, r, s)
		}
	} else {
		want = ref.VerifyDigest(pt(m.pub), dg, m.r, m.s)
	}
	var r, s *big.Int
	if m.r != nil {
		r, s = new(big.Int).Set(m.r), new(big.Int).Set(m.s)
	}
	g, gs := guard(in), guard(m.der)
	var got bool
	w.API(name, limSmall+int64(len(in)+len(m.uid))*2000, func() { got = verifyVia(e, m.pub, g.b, m.uid, r, s, gs.b) })
	w.Log("%s (%s): %v", name, m.how, got)
	if got != want {
		key := "accepts-invalid"
		if want {
			key = "rejects-valid"
		}
		w.Fail(key, "%s returned %v for (%s): public key %x,%x uid %s message/digest %s r=%x s=%x der=%x; the standard says %v", name, got, m.how, m.pub.X, m.pub.Y, hx(m.uid), hx(in), m.r, m.s, m.der, want)
	}
	w.Check(g.intact() && gs.intact() && (r == nil || r.Cmp(m.r) == 0 && s.Cmp(m.s) == 0), "arguments", "%s changed its arguments", name)
	if want {
		w.Hit("accepted")
	} else {
		w.Hit("rejected")
	}
	if t.One(6) && derEntry(e) {
		var r2, s2 *big.Int
		var err error
		w.API("UnmarshalSign", limSmall, func() { r2, s2, err = sm2.UnmarshalSign(m.der) })
		rr, sr, ok := ref.ParseSig(m.der)
		w.Check((err == nil) == ok, "unmarshal", "UnmarshalSign(%x) gives error %v, strict DER says %v", m.der, err, ok)
		if ok {
			w.Check(r2.Cmp(rr) == 0 && s2.Cmp(sr) == 0, "unmarshal", "UnmarshalSign(%x) gives other numbers", m.der)
			if rr.Sign() >= 0 && sr.Sign() >= 0 {
				var b []byte
				w.API("MarshalSign", limSmall, func() { b, err = sm2.MarshalSign(rr, sr) })
				w.Check(err == nil && bytes.Equal(b, m.der), "marshal", "MarshalSign does not give back %x", m.der)
			}
		}
	}
}
