package main

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"io"
	"math/big"
	"time"

	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C10", Run: c10, Quick: 5000, Thorough: 250000,
		Rule:   "One evaluation is one simulated run: concurrent issuers of certificates, requests, revocation lists and signed data use external signers which fail in decided ways (an error, an error with bytes, garbage, a stale or damaged signature, another key's signature, nothing) or stall, then recover; what the signer was handed is compared with the signed part of the output as read by an independent reader.",
		Real:   []string{"x509 certificate, request, revocation list and signed data creation", "x509 signature checks", "sm2, sm3"},
		Stub:   []string{"external signers (simulated, with faults)", "goroutine scheduling (simulator)", "clock (simulated)"},
		Need:   []string{"preempted", "signer-error", "signer-error-and-bytes", "signer-garbage", "signer-stale", "signer-other-key", "signer-empty", "signer-other-bytes", "signer-damaged", "signer-slow", "wrong-key-type", "CreateCertificate", "CreateCertificateRequest", "CreateCRL", "CreateRevocationList", "NewSignedDataCallBack", "sm2", "rsa", "ed25519", "p256"},
		Assume: []string{"signers return, or stall for a bounded time"},
	})
}

var plugNames = []string{"", "signer-error", "signer-error-and-bytes", "signer-garbage", "signer-stale", "signer-other-key", "signer-empty", "signer-other-bytes", "signer-damaged"}

// an error type of the application's own
type deviceError struct{ slot int }

// Timeout and Temporary are what network errors have.
func (e *deviceError) Timeout() bool   { return e.slot%2 == 1 }
func (e *deviceError) Temporary() bool { return e.slot%3 != 0 }

func (e *deviceError) Error() string { return fmt.Sprintf("signing device in slot %d is gone", e.slot) }

func c10(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("issuers")
	tasks := 1 + t.Weighted(3, 2, 1)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(2)
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for j := 0; j < ops; j++ {
				c10op(w)
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

var issueNames = []string{"CreateCertificate", "CreateCertificateRequest", "CreateCRL", "CreateRevocationList", "NewSignedDataCallBack"}

// parentFor is an issuer certificate as an application may hold it: only the fields that issuing needs.
func parentFor(t *vsim.Tape, k *signKey, withKey bool) *x509.Certificate {
	c := &x509.Certificate{Subject: pkixName(t), SubjectKeyId: t.Bytes(1 + t.Int(20)), KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, BasicConstraintsValid: true, IsCA: true, Version: 3}
	if withKey {
		c.PublicKey = k.pub
	}
	if t.One(3) { // as read from a certificate
		c.RawSubject = richName(t)
		if t.One(2) {
			c.RawSubject = someName(t)
		}
		var rdn pkix.RDNSequence
		if _, err := asn1.Unmarshal(c.RawSubject, &rdn); err != nil {
			panic(err)
		}
		c.Subject = pkix.Name{}
		c.Subject.FillFromRDNSequence(&rdn)
	}
	return c
}

func someRevoked(t *vsim.Tape) (out []pkix.RevokedCertificate) {
	k := t.Weighted(2, 2, 2, 1, 1)
	if t.One(40) {
		k = many(t)
	}
	for i := k; i > 0; i-- {
		r := pkix.RevokedCertificate{SerialNumber: someSerial(t), RevocationTime: someDate(t).Truncate(time.Second)}
		if len(out) > 0 && t.One(4) { // held, released and revoked again
			r.SerialNumber = new(big.Int).Set(out[t.Int(len(out))].SerialNumber)
			if t.One(3) {
				r.RevocationTime = out[len(out)-1].RevocationTime
			}
		}
		if t.One(3) {
			r.Extensions = []pkix.Extension{{Id: []int{2, 5, 29, 21}, Value: []byte{10, 1, byte(t.Int(11))}}}
		}
		if t.One(6) {
			r.Extensions = append(r.Extensions, pkix.Extension{Id: []int{1, 2, 3, t.Int(200)}, Value: someValue(t, 20)})
		}
		out = append(out, r)
	}
	return
}

// someValue is what an extension holds, which the library need not understand.
func someValue(t *vsim.Tape, most int) []byte {
	switch t.Weighted(6, 1, 1, 1) {
	case 1:
		return nil
	case 2:
		return []byte{}
	case 3:
		return t.Bytes(t.Int(most))
	}
	return octets(t.Bytes(t.Int(most)))
}

func csrTemplate(t *vsim.Tape) *x509.CertificateRequest {
	c := &x509.CertificateRequest{Subject: pkixName(t)}
	if t.One(2) {
		var s x509.Certificate
		sans(t, &s)
		c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs = s.DNSNames, s.EmailAddresses, s.IPAddresses, s.URIs
	}
	if t.One(3) {
		c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: []int{1, 2, 840, 5, 1}, Critical: t.One(3), Value: someValue(t, 100)})
	}
	if t.One(4) {
		c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: []int{2, 5, 29, 15}, Critical: true, Value: []byte{3, 2, 5, 0xa0}})
	}
	if t.One(40) {
		c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: []int{1, 2, 840, 8}, Value: octets(large(t))})
	}
	if t.One(30) {
		for i := many(t); i > 0; i-- {
			c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: []int{1, 2, 840, 9, i}, Critical: t.One(5), Value: someValue(t, 20)})
		}
	}
	if t.One(5) { // left from one that was parsed
		c.Extensions, c.Raw, c.Signature, c.Version = leftExtensions(t), t.Bytes(10), t.Bytes(10), t.Int(3)
	}
	return c
}

func c10op(w *vsim.World) {
	t := w.T
	op := t.Int(len(issueNames))
	name := issueNames[op]
	k := someKey(t)
	if op == 4 {
		k = sm2Key(scalar(t))
	}
	algs := k.algs()
	alg := algs[t.Int(len(algs))]
	pl := &plug{k: k, w: w}
	w.Hit(k.kind)
	w.Hit(name)
	tmpl := certTemplate(t, t.One(3))
	tmpl.SignatureAlgorithm = alg
	subject := someKey(t)
	parent := parentFor(t, k, t.One(2))
	req := csrTemplate(t)
	req.SignatureAlgorithm = alg
	revoked := someRevoked(t)
	from := someDate(t)
	rl := &x509.RevocationList{SignatureAlgorithm: alg, RevokedCertificates: revoked, Number: someSerial(t), ThisUpdate: from, NextUpdate: from.Add(time.Hour)}
	var id *identity
	var content []byte
	if op == 4 {
		id = newIdentity(t)
		id.key = k.d
		id.spec.pub = pt(&k.d.PublicKey)
		id.der = id.spec.der(t, scalar(t))
		id.parse(w)
		content = p7content(w, 2000)
	}
	rnd := vsim.NewRnd(t.Seed())
	var in io.Reader = rnd
	callback := func(b []byte) ([]byte, error) { return pl.Sign(nil, b, x509.SM3) }
	run := func() (out []byte, err error) {
		w.API(name, 80_000_000+int64(len(content))*3000, func() {
			switch op {
			case 0:
				out, err = x509.CreateCertificate(in, tmpl, parent, subject.pub, pl)
			case 1:
				out, err = x509.CreateCertificateRequest(in, req, pl)
			case 2:
				out, err = parent.CreateCRL(in, pl, revoked, from, from.Add(time.Hour))
			case 3:
				out, err = x509.CreateRevocationList(in, rl, parent, pl)
			case 4:
				out, err = x509.NewSignedDataCallBack(id.cert, callback, content)
			}
		})
		return
	}
	for round := t.Weighted(1, 3, 2); round >= 0; round-- {
		pl.fault, pl.calls, pl.handed, pl.opts, pl.rands, pl.sleep = 0, 0, nil, nil, nil, 0
		if round > 0 { // the last round is healthy
			pl.fault = 1 + t.Int(plugFaults-1)
			w.Fired(plugNames[pl.fault])
		}
		switch t.Int(3) {
		case 0:
			pl.err = errSome
		case 1:
			pl.err = &deviceError{t.Int(10)}
		default:
			pl.err = io.EOF // nothing about an error says that the work is done
		}
		if t.One(4) {
			pl.sleep = time.Duration(1+t.Int(30000)) * time.Millisecond
			w.Fired("signer-slow")
		}
		out, err := run()
		how := fmt.Sprintf("%s with a %s key, algorithm %v, signer fault %q", name, k.kind, alg, plugNames[pl.fault])
		w.Log("%s: %s", how, errStr(err))
		w.Check(pl.calls <= 1, "called-twice", "the signer was called %d times (%s)", pl.calls, how)
		if err != nil {
			w.Check(len(out) == 0, "output-with-error", "output came with an error (%s): %v", how, err)
		}
		c10handed(w, name, k, pl, content, how)
		for _, r := range pl.rands {
			if op != 4 {
				w.Check(r == in, "random-source", "the signer was given another random source than the caller's (%s)", how)
			}
		}
		switch pl.fault {
		case plugOK:
			w.Check(err == nil, "failed-without-fault", "%s failed: %v", how, err)
			w.Check(pl.calls == 1, "not-called", "the signer was not called (%s)", how)
			c10output(w, name, op, k, pl, out, how)
			pl.stale = pl.last
		case plugError, plugErrorAndBytes:
			w.Check(pl.calls == 1, "not-called", "the signer was not called (%s)", how)
			w.Check(err != nil, "error-swallowed", "the signer failed, but there is no error (%s)", how)
			w.Check(errors.Is(err, pl.err), "error-replaced", "the signer failed with %q, the caller is told %q (%s)", pl.err, err, how)
		default:
			if op == 0 {
				w.Check(err != nil, "bad-signature-issued", "a certificate with an invalid signature was returned (%s)", how)
			} else if op == 4 && err == nil { // a message may come out, but nobody must believe it
				var e error
				w.API("Verify", limBig, func() {
					var p7 *x509.PKCS7
					if p7, e = x509.ParsePKCS7(out); e == nil {
						e = p7.Verify()
					}
				})
				w.Check(e != nil, "bad-signature-verifies", "signed data with an invalid signature verifies (%s)", how)
			}
		}
	}
	if op == 4 && t.One(3) {
		c10wrongKey(w, id, content)
	}
}

// c10handed checks the form of what the signer got.
func c10handed(w *vsim.World, name string, k *signKey, pl *plug, content []byte, how string) {
	for i, b := range pl.handed {
		h := pl.opts[i].HashFunc()
		switch k.kind {
		case "sm2":
			e := readEl(b)
			if name == "NewSignedDataCallBack" {
				w.Check(e.is(0x31) && len(e.kids) == 3, "handed", "the callback was not handed an attribute set but %s (%s)", hx(b), how)
				w.Check(bytes.Contains(b, octets(ref.SM3(content))), "handed", "the attributes handed to the callback do not contain the digest of the content (%s)", how)
			} else {
				w.Check(e.is(0x30), "handed", "an SM2 signer was not handed the part to sign but %s (%s)", hx(b), how)
			}
		case "ed25519":
			w.Check(readEl(b).is(0x30), "handed", "an Ed25519 signer was not handed the part to sign but %s (%s)", hx(b), how)
			w.Check(h == 0, "handed", "an Ed25519 signer was told hash %v (%s)", h, how)
		default:
			w.Check(h == crypto.SHA256 || h == crypto.SHA384 || h == crypto.SHA512, "handed", "the signer was told hash %v (%s)", h, how)
			w.Check(len(b) == h.Size(), "handed", "the signer was handed %d bytes for hash %v (%s)", len(b), h, how)
		}
	}
}

// c10output checks that the output verifies, and that the signer was handed just what is verified.
func c10output(w *vsim.World, name string, op int, k *signKey, pl *plug, out []byte, how string) {
	if op == 4 {
		v := readP7(out)
		w.Check(v != nil && len(v.signers) == 1, "form", "the output is not signed data in DER (%s)", how)
		s := readSigner(v.signers[0])
		w.Check(s != nil && s.attrs != nil, "form", "the signer info is not in the standard form (%s)", how)
		w.Check(bytes.Equal(s.signedBytes(), pl.handed[0]), "handed", "the callback was handed %s, a verifier checks %s", hx(pl.handed[0]), hx(s.signedBytes()))
		w.Check(bytes.Equal(s.sig, pl.last), "signature", "the output carries another signature than the callback gave (%s)", how)
		return
	}
	tbs, alg, sig, ok := tbsOf(out)
	w.Check(ok, "form", "the output is not a signed object in DER (%s): %s", how, hx(out))
	a, ok := readAlg(alg)
	w.Check(ok, "algorithm", "the output names an unknown signature algorithm (%s): %x", how, alg.full)
	w.Check(bytes.Equal(sig, pl.last), "signature", "the output carries another signature than the signer gave (%s)", how)
	w.Check(k.verifies(a, tbs, sig), "signature", "the signature is not valid over the signed part (%s)", how)
	want := tbs
	if k.kind != "sm2" && k.kind != "ed25519" {
		want = stdHash(a.hash, tbs)
		w.Check(pl.opts[0].HashFunc() == a.hash, "handed", "the signer was told hash %v, the output says %v (%s)", pl.opts[0].HashFunc(), a.hash, how)
	}
	_, isPSS := pl.opts[0].(*rsa.PSSOptions)
	w.Check(isPSS == (a.kind == "pss"), "handed", "PSS options and the algorithm in the output disagree (%s)", how)
	w.Check(bytes.Equal(pl.handed[0], want), "handed", "the signer was handed %s, a verifier checks %s (%s)", hx(pl.handed[0]), hx(want), how)
}

// c10wrongKey: keys that cannot sign are an error, not a message.
func c10wrongKey(w *vsim.World, id *identity, content []byte) {
	t := w.T
	var key crypto.PrivateKey
	switch t.Int(5) {
	case 0:
		key = nil
	case 1:
		key = stdKey("rsa", 0).priv
	case 2:
		key = stdKey("p256", 0).priv
	case 3:
		key = "a key"
	case 4:
		key = stdKey("ed25519", 0).priv
	}
	w.Hit("wrong-key-type")
	var out []byte
	var err error
	w.API("NewSignedData", limBig, func() { out, err = x509.NewSignedData(id.cert, key, content) })
	w.Check(err != nil && len(out) == 0, "wrong-key", "NewSignedData with a key of type %T gives %d bytes and error %v", key, len(out), err)
}
