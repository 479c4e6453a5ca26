package main

import (
	"bytes"
	"encoding/asn1"
	"errors"
	"fmt"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C08", Run: c08, Quick: 4500, Thorough: 250000,
		Rule:   "One evaluation is one simulated run: concurrent signers in processes with skewed clocks, odd time zones and clock jumps produce signed data with a key or with a slow signing callback; a receiver takes every message apart with a hand-written strict reader, verifies signature and digest with an independent SM2 and SM3, compares the signing time with the simulated clock, and then parses and verifies it with the library.",
		Real:   []string{"x509 signed data creation, parsing and verification", "x509 certificate parsing", "sm2, sm3"},
		Stub:   []string{"clock and time zone (simulated)", "random source (simulated)", "signing callback", "goroutine scheduling (simulator)"},
		Need:   []string{"preempted", "clock-jump", "clock-skew", "time-zone", "slow-callback", "year-2050+", "year-beyond-9999", "empty-message", "callback", "direct"},
		Assume: []string{"ref/ implements SM2 and SM3", "time zones have whole-minute offsets, the most ASN.1 times can carry"},
	})
}

// timeline is the trajectory of the true clock in pieces between jumps.
type timeline struct {
	w     *vsim.World
	jumps []struct{ before, after time.Time }
}

func (l *timeline) jump(to time.Time) {
	l.jumps = append(l.jumps, struct{ before, after time.Time }{l.w.Now(), to})
	l.w.SetNow(to)
	l.w.Fired("clock-jump")
	l.w.Log("clock jumps to %s", to.Format(time.RFC3339))
}

// during reports whether x (to the second) was on a clock with this skew between the moment when `from` was read
// and mark jumps had happened, and now.
func (l *timeline) during(x time.Time, skew time.Duration, from time.Time, mark int) bool {
	in := func(a, b time.Time) bool {
		return !x.Before(a.Add(skew).Truncate(time.Second)) && !x.After(b.Add(skew))
	}
	for _, j := range l.jumps[mark:] {
		if in(from, j.before) {
			return true
		}
		from = j.after
	}
	return in(from, l.w.Now())
}

func p7content(w *vsim.World, max int) []byte {
	t := w.T
	var m []byte
	if t.One(4) {
		m = t.Bytes([...]int{127, 128, 255, 256, 65535, 65536, 124, 126, 253, 257}[t.Int(10)])
		if len(m) > max {
			m = m[:max]
		}
	} else {
		m = message(t, max)
	}
	if t.One(6) { // what is signed is often an encoding itself
		in := m
		if len(in) > max-16 {
			in = in[:max-16]
		}
		switch t.Int(8) {
		case 0, 1:
			m = octets(in)
		case 2:
			m = octets(octets(in))
		case 3:
			m = seq(oid(oidGMData), ctx(0, octets(in)))
		case 4:
			m = ctx(0, octets(in))
		case 5:
			m = tlv(0x24, octets(in))
		case 6:
			m = ctxPrim(0, in)
		default:
			m = seq(in)
		}
		if len(m) > max {
			m = m[:max]
		}
		w.Hit("content-is-der")
	}
	if len(m) == 0 {
		w.Hit("empty-message")
		if t.One(2) {
			return nil
		}
	}
	return m
}

func someInstant(t *vsim.Tape) time.Time {
	base := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	switch t.Weighted(5, 2, 2, 2, 1, 1) {
	case 0:
		return base.Add(time.Duration(t.Int(1000*24*3600))*time.Second + time.Duration(t.Int(1e9)))
	case 1: // around a boundary
		b := [...]int{1950, 1951, 1970, 2000, 2038, 2049, 2050, 2051, 2100}[t.Int(9)]
		return time.Date(b, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(t.Int(200000)-100000) * time.Second)
	case 2:
		return time.Date(2024, 2, 28, 20, 0, 0, 0, time.UTC).Add(time.Duration(t.Int(60*3600)) * time.Second) // leap day
	case 3:
		return time.Date(2050+t.Int(900), time.Month(1+t.Int(12)), 1+t.Int(28), t.Int(24), t.Int(60), t.Int(60), 0, time.UTC)
	case 4:
		return time.Date(9999, 12, 30, 0, 0, 0, 0, time.UTC).Add(time.Duration(t.Int(4*86400)) * time.Second)
	default:
		return time.Date(2024, 6, 30, 23, 59, 59, 999_999_000, time.UTC)
	}
}

func someZone(w *vsim.World) *time.Location {
	t := w.T
	off := [...]int{0, 8 * 60, -5 * 60, 5*60 + 30, 14 * 60, -12 * 60, -(3*60 + 30), 12*60 + 45, 1, -1, 23*60 + 59, -(23*60 + 59)}[t.Int(12)]
	if off == 0 {
		return time.UTC
	}
	w.Fired("time-zone")
	return time.FixedZone(fmt.Sprintf("Z%+d", off), off*60)
}

func c08(w *vsim.World) {
	t := w.T
	swarm(w)
	if t.One(2) {
		w.SetNow(someInstant(t))
	}
	line := &timeline{w: w}
	var ids []*identity
	for i := 1 + t.Int(2); i > 0; i-- {
		ids = append(ids, newIdentity(t))
	}
	tasks := 0
	for i := 1 + t.Int(2); i > 0; i-- {
		p := w.NewProc(fmt.Sprintf("p%d", i))
		p.Zone = someZone(w)
		if t.One(2) {
			p.Skew = time.Duration(t.Int(2_000_000_000)-1_000_000_000) * time.Millisecond
			w.Fired("clock-skew")
		}
		for j := 1 + t.Int(2); j > 0; j-- {
			tasks++
			ops := 1 + t.Int(2)
			w.Go(p, fmt.Sprintf("g%d", j), func() {
				for k := 0; k < ops; k++ {
					c08op(w, line, p, ids[t.Int(len(ids))])
				}
			})
		}
	}
	for i := t.Weighted(2, 1, 1); i > 0; i-- {
		d := time.Duration(t.Int(1<<[...]int{10, 14, 17, 20}[t.Int(4)])) * 50 * time.Nanosecond
		to := someInstant(t)
		if t.One(3) {
			to = w.Now().Add(time.Duration(t.Int(20000)-10000) * time.Millisecond)
		}
		w.At(d, func() { line.jump(to) })
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

func c08op(w *vsim.World, line *timeline, p *vsim.Proc, id *identity) {
	t := w.T
	cert := id.parse(w)
	data := p7content(w, 70000)
	g := guard(data)
	gd := g.b
	if data == nil {
		gd = nil
	}
	mark, from := len(line.jumps), w.Now()
	var out []byte
	var err error
	var handed [][]byte
	lim := 50_000_000 + int64(len(data))*2000
	viaCallback := t.One(2)
	slow := t.Weighted(2, 1, 1)
	if viaCallback {
		w.Hit("callback")
		w.API("NewSignedDataCallBack", lim, func() {
			out, err = x509.NewSignedDataCallBack(cert, func(b []byte) ([]byte, error) {
				handed = append(handed, clone(b))
				switch slow {
				case 1:
					w.Fired("slow-callback")
					w.Sleep(time.Duration(t.Int(100000)) * time.Millisecond)
				case 2:
					w.Yield()
				}
				if t.One(2) {
					return sm2.Sign(vsim.NewRnd(t.Seed()), id.key, b, nil)
				}
				r, s := refSign(t, id.key.D, ref.Digest(nil, b, pt(&id.key.PublicKey)))
				return ref.MarshalSig(r, s), nil
			}, gd)
		})
	} else {
		w.Hit("direct")
		if t.One(3) {
			w.Cur().Rnd.Split = 1 + t.Int(3)
		}
		w.API("NewSignedData", lim, func() { out, err = x509.NewSignedData(cert, id.key, gd) })
	}
	how := fmt.Sprintf("callback=%v content %d bytes", viaCallback, len(data))
	w.Log("signed data %s: %s", how, errStr(err))
	w.Check(g.intact(), "arguments", "signing changed the content buffer (%s)", how)
	// years that ASN.1 cannot carry
	bad := false
	for _, x := range append([]time.Time{from, w.Now()}, jumpTimes(line, mark)...) {
		y := x.Add(p.Skew)
		if y.In(p.Zone).Year() > 9999 || y.UTC().Year() > 9999 {
			bad = true
		}
		if y.Year() >= 2050 {
			w.Hit("year-2050+")
		}
	}
	if err != nil && bad {
		w.Hit("year-beyond-9999")
		w.Check(out == nil, "output-with-error", "signed data returned with an error")
		return
	}
	w.Check(err == nil, "create-error", "creating signed data failed at %s (zone %s): %v (%s)", w.Now().Add(p.Skew), p.Zone, err, how)
	if viaCallback {
		w.Check(len(handed) == 1, "callback-calls", "the callback was called %d times", len(handed))
	}
	c08receive(w, line, p, id, data, out, handed, from, mark, how, bad)
}

func jumpTimes(l *timeline, mark int) (out []time.Time) {
	for _, j := range l.jumps[mark:] {
		out = append(out, j.before, j.after)
	}
	return
}

// attrTime reads the time forms that occur in signing-time attributes, offsets included.
func attrTime(e *el) (time.Time, error) {
	if e == nil {
		return time.Time{}, errors.New("missing")
	}
	s := string(e.val)
	if e.tag == 23 {
		x, err := time.Parse("060102150405Z0700", s)
		if err == nil && x.Year() >= 2050 {
			x = x.AddDate(-100, 0, 0)
		} else if err == nil && x.Year() < 1950 {
			x = x.AddDate(100, 0, 0)
		}
		return x, err
	}
	if e.tag == 24 {
		return time.Parse("20060102150405Z0700", s)
	}
	return time.Time{}, fmt.Errorf("tag %d", e.tag)
}

var (
	asnContentType = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}
	asnDigest      = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}
	asnTime        = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}
)

func c08receive(w *vsim.World, line *timeline, p *vsim.Proc, id *identity, data, out []byte, handed [][]byte, from time.Time, mark int, how string, beyond bool) {
	t := w.T
	v := readP7(out)
	w.Check(v != nil && !v.form.absent && !v.form.compound, "form", "the output is not signed data with content in DER (%s): %s", how, hx(out))
	w.Check(bytes.Equal(v.content, data), "content", "the encoded content is %s, not the data %s (%s)", hx(v.content), hx(data), how)
	w.Check(len(v.certs) == 1 && bytes.Equal(v.certs[0], id.der), "certificates", "the message carries %d certificates, or another than the signer's (%s)", len(v.certs), how)
	w.Check(len(v.signers) == 1, "signers", "the message has %d signers (%s)", len(v.signers), how)
	s := readSigner(v.signers[0])
	w.Check(s != nil && s.attrs != nil, "form", "the signer info is not in the standard form (%s)", how)
	w.Check(bytes.Equal(s.sid.at(0).full, id.spec.issuer) && s.sid.at(1).num() != nil && s.sid.at(1).num().Cmp(id.spec.serial) == 0, "signer-id", "the signer info names another issuer or serial number (%s)", how)
	sd := readEl(out).at(1, 0)
	w.Check(sd.at(0).num().Int64() == 1 && v.signers[0].at(0).num().Int64() == 1, "version", "the message is of version %v, its signer info of version %v (%s)", sd.at(0).num(), v.signers[0].at(0).num(), how)
	w.Check(len(sd.at(1).kids) == 1 && sd.at(1, 0, 0).isOID(oidSM3), "digest-algorithms", "the message does not announce SM3 alone: %x (%s)", sd.at(1).full, how)
	sa := v.signers[0].at(4, 0)
	w.Check(sa.isOID(oidSM2Sign) || sa.isOID(oidSM2SM3), "signature-algorithm", "the signer info's signature algorithm is not SM2: %x (%s)", sa.full, how)
	w.Check(len(s.attrs.kids) == 3, "attributes", "the signer info has %d signed attributes (%s)", len(s.attrs.kids), how)
	for i := 1; i < len(s.attrs.kids); i++ {
		w.Check(bytes.Compare(s.attrs.kids[i-1].full, s.attrs.kids[i].full) <= 0, "attribute-order", "the attributes are not in the order of DER (%s)", how)
	}
	if handed != nil {
		w.Check(bytes.Equal(handed[0], s.signedBytes()), "callback-bytes", "the callback was handed %s, the encoded attribute set is %s", hx(handed[0]), hx(s.signedBytes()))
	}
	w.Check(ref.VerifyMsg(pt(&id.key.PublicKey), nil, s.signedBytes(), s.sig), "signature", "the signature is not valid over the encoded attribute set (%s)", how)
	dg := s.attr(oidAttrDigest)
	w.Check(dg.is(4) && bytes.Equal(dg.val, ref.SM3(data)), "digest", "the message digest attribute is not the SM3 of the content (%s)", how)
	w.Check(s.attr(oidAttrType).isOID(oidGMData), "content-type", "the content type attribute is not data (%s)", how)
	when, err := attrTime(s.attr(oidAttrTime))
	w.Check(err == nil, "time-form", "the signing time attribute cannot be read: %v (%s)", err, how)
	if !beyond {
		w.Check(line.during(when, p.Skew, from, mark), "time", "the signing time is %s; the clock went from %s to %s with %d jumps during the call (zone %s, %s)", when.UTC().Format(time.RFC3339), from.Add(p.Skew).UTC(), w.Now().Add(p.Skew).UTC(), len(line.jumps)-mark, p.Zone, how)
	}
	// and through the library
	var p7 *x509.PKCS7
	gb := guard(out)
	lim := limSmall + int64(len(out))*3000
	w.API("ParsePKCS7", lim, func() { p7, err = x509.ParsePKCS7(gb.b) })
	w.Check(err == nil && p7 != nil, "parse", "own signed data does not parse: %v (%s)", err, how)
	for i := 1 + t.Int(2); i > 0; i-- {
		w.API("(*PKCS7).Verify", lim, func() { err = p7.Verify() })
		w.Check(err == nil, "verify", "own signed data does not verify: %v (%s)", err, how)
	}
	w.Check(gb.intact(), "arguments", "parsing or verifying changed the message buffer")
	w.Check(bytes.Equal(p7.Content, data), "parsed-content", "parsed content is %s, not %s", hx(p7.Content), hx(data))
	w.Check(len(p7.Certificates) == 1 && bytes.Equal(p7.Certificates[0].Raw, id.der), "parsed-certificate", "parsed message does not carry exactly the signer's certificate")
	var sc *x509.Certificate
	w.API("GetOnlySigner", lim, func() { sc = p7.GetOnlySigner() })
	w.Check(sc != nil && bytes.Equal(sc.Raw, id.der), "only-signer", "GetOnlySigner does not return the signer's certificate (%s)", how)
	var d2 []byte
	var t2 time.Time
	var o2 asn1.ObjectIdentifier
	var e1, e2, e3 error
	w.API("UnmarshalSignedAttribute", lim, func() {
		e1 = p7.UnmarshalSignedAttribute(asnDigest, &d2)
		e2 = p7.UnmarshalSignedAttribute(asnTime, &t2)
		e3 = p7.UnmarshalSignedAttribute(asnContentType, &o2)
	})
	w.Check(e1 == nil && bytes.Equal(d2, ref.SM3(data)), "attribute", "UnmarshalSignedAttribute(messageDigest) gives %x, %v", d2, e1)
	w.Check(e2 == nil && t2.Equal(when), "attribute", "UnmarshalSignedAttribute(signingTime) gives %s, %v; encoded is %s", t2, e2, when)
	w.Check(e3 == nil && bytes.Equal(oidBytes(o2), oid(oidGMData)), "attribute", "UnmarshalSignedAttribute(contentType) gives %v, %v", o2, e3)
	var none error
	w.API("UnmarshalSignedAttribute", lim, func() { none = p7.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 3}, &d2) })
	w.Check(none != nil, "attribute", "UnmarshalSignedAttribute finds an attribute that is not there")
}

func oidBytes(o asn1.ObjectIdentifier) []byte { b, _ := asn1.Marshal(o); return b }
