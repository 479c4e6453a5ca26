package main

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"math/big"
	"syscall"
	"time"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C11", Run: c11, Quick: 6000, Thorough: 300000,
		Rule:   "One evaluation is one simulated run: concurrent savers of different keystore files save, overwrite and load identities on a simulated disk with injected failures of every operation, a full disk, short reads and writes, a crash at an arbitrary statement or disk operation, and a power loss that keeps an arbitrary part of what was not yet durable; after the restart every file is loaded again. A per-file model of what it may hold judges every load.",
		Real:   []string{"pkcs12.SM2P12Encrypt, SM2P12Decrypt and everything below them", "sm2, sm3, x509"},
		Stub:   []string{"disk (simulated)", "random source (simulated)", "goroutine scheduling (simulator)"},
		Need:   []string{"preempted", "crash", "power-loss", "disk-full", "disk-write-error", "disk-create-error", "disk-close-error", "disk-open-error", "disk-read-error", "disk-short-read", "saved", "overwritten", "save-failed", "loaded", "loaded-after-restart", "loaded-after-power-loss", "unwritable", "load-refused", "racing-load", "in-doubt-old", "in-doubt-new", "in-doubt-error", "rsa"},
		Assume: []string{"the disk model: a failed or unsynced write leaves any prefix or any subset of its 512-byte blocks; truncation and creation may or may not have reached the disk"},
	})
}

// version is one content a keystore file was given.
type version struct {
	id  *identity
	pwd string
	rsa *rsa.PrivateKey
}

// shelf is the model of one file.
type shelf struct {
	path  string
	sure  *version   // what it holds; nil and no maybes: no such file
	maybe []*version // what it may hold instead, if anything (an error then is in order too)
	doubt bool
	ever  []*version // everything ever put there, for racing readers
	since []*version // contents since the disk was last synced, the one at the sync first (nil: no file)
	busy  bool
}

func (s *shelf) known() bool { return !s.doubt }

func somePassword(t *vsim.Tape) string {
	switch t.Weighted(4, 2, 1, 1) {
	case 0:
		return word(t)
	case 1:
		return "密码" + word(t)
	case 2:
		return ""
	default:
		var b []rune
		for i := 1 + t.Int(70); i > 0; i-- {
			r := rune(1 + t.Int(0xffff))
			if r >= 0xd800 && r < 0xe000 || r == 0xfffd {
				r = 'x'
			}
			if t.One(40) {
				r = 0
			}
			b = append(b, r)
		}
		return string(b)
	}
}

func c11(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("app")
	w.Disk.PutDir("/data/ks", 0o755)
	var ids []*identity
	var pwds []string
	w.Do(p, "setup", func() {
		for i := 1 + t.Int(3); i > 0; i-- {
			id := newIdentity(t)
			id.parse(w)
			ids = append(ids, id)
			if t.One(3) { // renewed, for the same key, more or less alike
				o := *ids[t.Int(len(ids))]
				spec := *o.spec
				switch t.Int(5) {
				case 0:
					spec.notAfter = spec.notAfter.AddDate(1, 0, 0)
				case 1:
					spec.subject = someName(t)
				case 2:
					spec.issuer = someName(t)
				case 3:
					spec.serial = new(big.Int).Add(spec.serial, one)
				case 4: // nothing but the signature
				}
				o.spec, o.cert = &spec, nil
				o.der = spec.der(t, scalar(t))
				o.parse(w)
				ids = append(ids, &o)
			}
			if t.One(4) { // any certificate may stand beside the key
				o := *ids[t.Int(len(ids))]
				o.key = keyOf(scalar(t))
				ids = append(ids, &o)
			}
		}
		for i := 1 + t.Int(2); i > 0; i-- {
			pwds = append(pwds, somePassword(t))
		}
	})
	if w.Stopped() {
		return
	}
	stranger := newIdentity(t)
	salts := [3][]byte{t.Bytes(8), t.Bytes(8), t.Bytes(8)}
	decoy := ref.WriteP12(pkcs8Of(sm2Key(stranger.key.D)), [][]byte{stranger.der}, pwds[0], salts, 2048, 1)
	var shelves []*shelf
	tasks := 1 + t.Weighted(2, 3, 1)
	for i := 0; i < tasks; i++ {
		for j := 1 + t.Weighted(3, 1); j > 0; j-- {
			s := &shelf{path: fmt.Sprintf("/data/ks/%d-%d", i, j), since: []*version{nil}}
			if !t.One(4) {
				s.path += ".p12"
			}
			for t.One(3) { // files with nearly its name are other files
				w.Disk.Put(s.path+[...]string{".p12", ".pfx", ".bak", ".old", "1"}[t.Int(5)], decoy)
				w.Hit("nearly-its-name")
			}
			shelves = append(shelves, s)
		}
		mine := shelves[len(shelves)-1:]
		ops := 1 + t.Int(3)
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for k := 0; k < ops; k++ {
				s := mine[t.Int(len(mine))]
				switch t.Weighted(5, 3, 1, 1) {
				case 0:
					c11save(w, s, &version{id: ids[t.Int(len(ids))], pwd: pwds[t.Int(len(pwds))]})
				case 1:
					c11load(w, s, pwds, "")
				case 2:
					c11unwritable(w, ids[t.Int(len(ids))], pwds[0])
				case 3:
					c11race(w, shelves[t.Int(len(shelves))], pwds)
				}
				if t.One(8) {
					w.Disk.Sync()
					w.Hit("synced")
					for _, s := range shelves {
						if s.doubt || s.busy {
							continue // what is there cannot be said
						}
						s.since = []*version{s.sure}
					}
				}
			}
		})
	}
	files := func() string {
		if t.One(3) {
			return ""
		}
		return shelves[t.Int(len(shelves))].path
	}
	for i := t.Weighted(3, 4, 2); i > 0; i-- {
		op := [...]string{"write", "write", "create", "close", "open", "read", "read", "any"}[t.Int(8)]
		f := &vsim.DiskFault{Op: op, Path: files(), After: t.Weighted(4, 2, 1, 1), Err: []error{errSome, syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE}[t.Int(5)], Sticky: t.One(4)}
		switch op {
		case "write":
			f.Short = []int{0, 1, t.Int(1200), 1 << 20}[t.Int(4)]
		case "read":
			if t.One(3) {
				f.Err = nil
				f.Short = 1 + t.Int(300)
				f.Sticky = true
			}
		}
		w.Disk.Faults = append(w.Disk.Faults, f)
	}
	if t.One(6) {
		w.Disk.Capacity = int64(t.Int(4000))
	}
	crash := t.Weighted(3, 2, 3)
	switch crash {
	case 1:
		w.At(time.Duration(t.Int(1<<[...]int{16, 20, 23, 24}[t.Int(4)]))*50*time.Nanosecond, func() { w.Crash(p); w.Hit("crash") })
	case 2:
		w.Disk.Trap = 1 + t.Int(24)
		w.Disk.OnTrap = func() { w.At(0, func() { w.Crash(p); w.Hit("crash") }); w.Yield() }
	}
	w.Run()
	if w.Switches > int64(tasks)+1 {
		w.Hit("preempted")
	}
	if w.Stopped() {
		return
	}
	after := "restart"
	w.Disk.OnTrap, w.Disk.Trap = nil, 0
	if t.One(2) {
		w.Disk.PowerLoss()
		w.Fired("power-loss")
		w.Hit("power-loss")
		after = "power-loss"
		for _, s := range shelves {
			if len(s.since) == 1 && s.known() {
				continue // unchanged since it was made durable
			}
			s.doubt = true
			s.maybe = nil
			for _, v := range s.since {
				if v != nil {
					s.maybe = append(s.maybe, v)
				}
			}
		}
	}
	w.Disk.Faults, w.Disk.Capacity = nil, 0
	for _, s := range shelves {
		s.busy = false
	}
	p2 := w.NewProc("restarted")
	for i := 0; i < 2; i++ {
		w.Go(p2, fmt.Sprintf("r%d", i), func() {
			for j, s := range shelves {
				if j%2 != i && tasks > 1 && len(shelves) > 1 {
					continue
				}
				c11load(w, s, pwds, after)
			}
			if i == 0 { // life goes on
				s := shelves[t.Int(len(shelves))]
				if tasks > 1 && len(shelves) > 1 {
					s = shelves[0]
				} else {
					s = &shelf{path: "/data/ks/new.p12"}
				}
				c11save(w, s, &version{id: ids[t.Int(len(ids))], pwd: pwds[0]})
				c11load(w, s, pwds, "")
			} else {
				c11rsa(w, p2)
			}
		})
	}
	w.Run()
}

func c11save(w *vsim.World, s *shelf, v *version) {
	t := w.T
	task := w.Cur()
	task.Rnd = vsim.NewRnd(t.Seed())
	before, beforeW := task.DiskErrs, task.WriteErrs
	old, wasDoubt := s.sure, s.doubt
	if s.sure != nil || s.doubt {
		w.Hit("overwritten")
	}
	if !wasDoubt && old != nil {
		s.maybe = append(s.maybe, old)
	}
	s.maybe = append(s.maybe, v)
	s.ever = append(s.ever, v)
	s.since = append(s.since, v)
	s.doubt, s.busy = true, true
	var err error
	w.Log("save %s to %s", hx(ref.B32(v.id.key.D)), s.path)
	w.API("SM2P12Encrypt", limBig, func() { err = pkcs12.SM2P12Encrypt(v.id.cert, v.pwd, v.id.key, s.path) })
	w.Log("saved %s: %s", s.path, errStr(err))
	s.busy = false
	if task.WriteErrs > beforeW {
		w.Check(err != nil, "save-error-swallowed", "the disk failed during SM2P12Encrypt(%s), which reported success", s.path)
		w.Hit("save-failed")
	} else if task.DiskErrs == before {
		w.Check(err == nil, "save-refused", "SM2P12Encrypt(%s) failed on a healthy disk: %v", s.path, err)
	}
	if err == nil {
		s.sure, s.doubt, s.maybe = v, false, nil
		w.Hit("saved")
	}
}

func describe(v *version) string {
	if v == nil {
		return "nothing"
	}
	return fmt.Sprintf("d=%s.. password %q", hx(ref.B32(v.id.key.D)[:4]), v.pwd)
}

func (v *version) matches(c *x509.Certificate, k any) bool {
	if c == nil || !bytes.Equal(c.Raw, v.id.der) {
		return false
	}
	sk, ok := k.(*sm2.PrivateKey)
	return ok && soundKey(sk) == "" && keyEq(sk, v.id.key)
}

func c11load(w *vsim.World, s *shelf, pwds []string, when string) {
	t := w.T
	task := w.Cur()
	before := task.DiskErrs
	pwd := pwds[t.Int(len(pwds))]
	if when != "" || t.One(2) { // mostly the right one
		if s.sure != nil && !s.doubt {
			pwd = s.sure.pwd
		} else if s.doubt && len(s.maybe) > 0 {
			pwd = s.maybe[t.Int(len(s.maybe))].pwd
		}
	}
	var c *x509.Certificate
	var k any
	var err error
	w.API("SM2P12Decrypt", limBig, func() { c, k, err = pkcs12.SM2P12Decrypt(s.path, pwd) })
	w.Log("load %s: %s", s.path, errStr(err))
	if task.DiskErrs > before {
		w.Check(err != nil, "read-error-swallowed", "reading %s failed, and SM2P12Decrypt reported success", s.path)
		return
	}
	if err != nil {
		w.Check(c == nil && k == nil, "error-with-result", "SM2P12Decrypt(%s) returned an error and a result", s.path)
	}
	if s.known() {
		if s.sure == nil || !ref.SamePassword(s.sure.pwd, pwd) {
			w.Check(err != nil, "load-unexpected", "loading %s gave an identity though it holds %s and the password was %q", s.path, describe(s.sure), pwd)
			w.Hit("load-refused")
			return
		}
		w.Check(err == nil, "load-failed", "%s was saved without error and does not load%s: %v", s.path, afterWhat(when), err)
		w.Check(s.sure.matches(c, k), "load-differs", "%s was saved as %s and loads as another identity%s", s.path, describe(s.sure), afterWhat(when))
		w.Hit("loaded")
		if when != "" {
			w.Hit("loaded-after-" + when)
		}
		interchange(w, s.sure.id.key, k.(*sm2.PrivateKey))
		return
	}
	if err != nil {
		w.Hit("in-doubt-error")
		return
	}
	for i, v := range s.maybe {
		if ref.SamePassword(v.pwd, pwd) && v.matches(c, k) {
			if i == len(s.maybe)-1 {
				w.Hit("in-doubt-new")
			} else {
				w.Hit("in-doubt-old")
			}
			if when != "" {
				w.Hit("loaded-after-" + when)
			}
			interchange(w, v.id.key, k.(*sm2.PrivateKey))
			return
		}
	}
	w.Fail("load-mixed", "after an interrupted or failed save %s loads as an identity that was never put there under this password (%d candidates)%s", s.path, len(s.maybe), afterWhat(when))
}

func afterWhat(s string) string {
	if s == "" {
		return ""
	}
	return " after a " + s
}

// c11race reads a file another task may be writing at the same time.
func c11race(w *vsim.World, s *shelf, pwds []string) {
	task := w.Cur()
	before := task.DiskErrs
	pwd := pwds[w.T.Int(len(pwds))]
	var c *x509.Certificate
	var k any
	var err error
	w.API("SM2P12Decrypt", limBig, func() { c, k, err = pkcs12.SM2P12Decrypt(s.path, pwd) })
	w.Hit("racing-load")
	if task.DiskErrs > before {
		w.Check(err != nil, "read-error-swallowed", "reading %s failed, and SM2P12Decrypt reported success", s.path)
		return
	}
	if err != nil {
		return
	}
	for _, v := range s.ever {
		if ref.SamePassword(v.pwd, pwd) && v.matches(c, k) {
			return
		}
	}
	w.Fail("load-mixed", "reading %s while it may be written gave an identity that was never put there under this password", s.path)
}

func c11unwritable(w *vsim.World, id *identity, pwd string) {
	t := w.T
	w.Cur().Rnd = vsim.NewRnd(t.Seed())
	path := [...]string{"/data/ks", "/data/none/x.p12", "", "/data/ks/ro/x.p12", "/data/ks/ro.p12"}[t.Int(5)]
	switch path {
	case "/data/ks/ro/x.p12":
		w.Disk.PutDir("/data/ks/ro", 0o555)
	case "/data/ks/ro.p12":
		if w.Disk.Peek(path) == nil {
			w.Disk.Put(path, []byte("read-only"))
			w.Disk.SetMode(path, 0o444)
		}
	}
	var err error
	w.API("SM2P12Encrypt", limBig, func() { err = pkcs12.SM2P12Encrypt(id.cert, pwd, id.key, path) })
	w.Log("save to %q: %s", path, errStr(err))
	w.Hit("unwritable")
	if err == nil && path == "/data/ks/ro.p12" { // it may have been replaced
		var c *x509.Certificate
		var k any
		w.API("SM2P12Decrypt", limBig, func() { c, k, err = pkcs12.SM2P12Decrypt(path, pwd) })
		w.Check(w.Cur().DiskErrs > 0 || err == nil && (&version{id: id}).matches(c, k), "save-error-swallowed", "SM2P12Encrypt to a file that may not be written reported success, and the file does not load: %v", err)
		return
	}
	w.Check(err != nil, "save-error-swallowed", "SM2P12Encrypt to %q, which cannot be written, reported success", path)
}

// interchange uses the loaded key and the original against one another.
func interchange(w *vsim.World, orig, got *sm2.PrivateKey) {
	t := w.T
	if !t.One(4) {
		return
	}
	a, b := orig, got
	if t.One(2) {
		a, b = b, a
	}
	msg := t.Bytes(20)
	var sig, ct, back []byte
	var err error
	w.API("Sign", limSmall, func() { sig, err = sm2.Sign(vsim.NewRnd(t.Seed()), a, msg, nil) })
	w.Check(err == nil && ref.VerifyMsg(pt(&b.PublicKey), nil, msg, sig), "interchange-sign", "a signature by the original or loaded key d=%x does not verify under the other: %v", orig.D, err)
	w.API("Encryt", limSmall, func() { ct, err = sm2.Encryt(vsim.NewRnd(t.Seed()), &a.PublicKey, msg) })
	if err == nil {
		w.API("Decryt", limSmall, func() { back, err = sm2.Decryt(b, ct) })
	}
	w.Check(err == nil && bytes.Equal(back, msg), "interchange-decrypt", "a ciphertext for the original or loaded key d=%x is not decrypted by the other: %v", orig.D, err)
}

// c11rsa loads a keystore with an RSA key that the application stored itself.
func c11rsa(w *vsim.World, p *vsim.Proc) {
	t := w.T
	if !t.One(4) {
		return
	}
	w.Cur().Rnd = vsim.NewRnd(t.Seed())
	k := stdKey("rsa", t.Int(2))
	id := newIdentity(t)
	id.parse(w)
	pwd := somePassword(t)
	var b []byte
	var err error
	w.API("Encode", limBig, func() { b, err = pkcs12.Encode(k.priv, id.cert, nil, pwd) })
	w.Check(err == nil, "save-refused", "Encode of an RSA key failed: %v", err)
	vsim.WriteFile("/data/ks/rsa.p12", b, 0o600)
	var c *x509.Certificate
	var got any
	w.API("SM2P12Decrypt", limBig, func() { c, got, err = pkcs12.SM2P12Decrypt("/data/ks/rsa.p12", pwd) })
	w.Check(err == nil, "load-failed", "a keystore with an RSA key does not load: %v", err)
	rk, ok := got.(*rsa.PrivateKey)
	w.Check(ok && rk.Equal(k.priv) && bytes.Equal(c.Raw, id.der), "load-differs", "a keystore with an RSA key loads as another identity")
	w.Hit("rsa")
}
