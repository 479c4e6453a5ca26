package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"reflect"

	"github.com/mmdet/mcrypto/sm2"

	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C03", Run: c03, Quick: 3000, Thorough: 150000,
		Rule:   "One evaluation is one simulated run: up to three goroutines perform operations that need randomness, each first over a healthy stream, then over the same stream failing at a decided byte or read (for good or for a while, with an error alone or beside the last bytes), split into short reads, or with one bit changed, and once more over the healthy stream; outputs, errors and the secrets behind the outputs (nonces, keys, salts, C1) are compared across everything the run did.",
		Real:   []string{"sm2 key generation, signing, encryption", "x509 issuance and PKCS#7", "pkcs12 encoding and saving"},
		Stub:   []string{"random source (simulated)", "disk (simulated)", "goroutine scheduling (simulator)", "external RSA, ECDSA and Ed25519 signers (deterministic stand-ins)"},
		Need:   []string{"preempted", "rand-error", "rand-short-read", "rand-empty-read", "rand-stall", "fail-sticky", "fail-transient", "fail-read", "fail-first-byte", "fail-last-byte", "bit-changed", "recovered", "shared-stream", "redrawn", "redraw-failed"},
		Assume: []string{"the nonce of a signature is recomputed from the signature and the private key", "a source that fails and later recovers still failed: the operation that met the failure must report it"},
	})
}

func c03(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("app")
	var pl *pool
	w.Do(p, "setup", func() { pl = newPool(w, uint64(t.Int(pools))) })
	if w.Stopped() {
		return
	}
	var kinds []*opKind
	for _, k := range opTable {
		if k.rand != 0 {
			kinds = append(kinds, k)
		}
	}
	c := &c03run{seen: map[nonce]string{}, heads: map[string]bool{}}
	c.shared = vsim.NewRnd(t.Seed())
	c.shared.Split = t.Weighted(3, 1, 1, 1)
	tasks := 1 + t.Weighted(3, 2, 1)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(3)
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for j := 0; j < ops; j++ {
				k := kinds[t.Int(len(kinds))]
				path := fmt.Sprintf("/data/%d-%d.p12", i, j)
				c.seeds++
				seed := vsim.Mix(t.Seed(), c.seeds) // never the same twice in a run
				if t.One(5) {
					c.sharing(w, pl, k, seed, path)
				} else if t.One(6) {
					c.retried(w)
				} else {
					c.faulty(w, pl, k, seed, path)
				}
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

type c03run struct {
	seen   map[nonce]string
	heads  map[string]bool
	shared *vsim.Rnd
	seeds  uint64
}

// fresh records the secrets of one output; none may have been seen before.
func (c *c03run) fresh(w *vsim.World, who string, s secrets) {
	for _, x := range s {
		if old, ok := c.seen[x]; ok {
			w.Fail("reuse", "%s used the %s value %.64s, which %s had used on other random bytes", who, x.kind, x.v, old)
		}
		c.seen[x] = who
	}
}

// bits is the least number of random bytes behind the secrets.
func (c *c03run) enough(w *vsim.World, who string, s secrets, used int64) {
	need := int64(0)
	for _, x := range s {
		switch x.kind {
		case "salt":
			need += int64(len(x.v) / 2)
		default:
			need += 32
		}
		if x.kind == "k" || x.kind == "d" {
			v, _ := new(big.Int).SetString(x.v, 16)
			w.Check(v.Sign() > 0 && v.Cmp(n) < 0, "range", "%s used %s=%x, which is not in [1,n-1]", who, x.kind, v)
			w.Check(v.BitLen() > 160 && new(big.Int).Sub(n, v).BitLen() > 160, "narrow", "%s used %s=%x of only %d bits", who, x.kind, v, v.BitLen())
		}
	}
	w.Check(used >= need, "shortcut", "%s drew %d random bytes for %d bytes of secrets", who, used, need)
}

func zero(out []any) (string, bool) {
	for i, v := range out {
		if v == nil {
			continue
		}
		if _, ok := v.(error); ok {
			continue
		}
		x := reflect.ValueOf(v)
		if x.IsZero() || x.Kind() == reflect.Slice && x.Len() == 0 {
			continue
		}
		return fmt.Sprintf("result %d is %.80s", i, dump(v)), false
	}
	return "", true
}

// sharing runs an operation on the stream all goroutines share.
func (c *c03run) sharing(w *vsim.World, pl *pool, k *opKind, seed uint64, path string) {
	o := k.build(w, pl, seed, path)
	out, s := split(o.call(w, c.shared, false))
	if errOf(out) != nil {
		return
	}
	w.Hit("shared-stream")
	w.Log("%s on the shared stream", k.name)
	c.fresh(w, k.name+" on the shared stream", s)
}

func (c *c03run) faulty(w *vsim.World, pl *pool, k *opKind, seed uint64, path string) {
	t := w.T
	saves := k.name == "SM2P12Encrypt"
	var before []byte
	had := saves && t.One(2)
	if had {
		before = t.Bytes(40)
		w.Disk.Put(path, before)
	}
	restore := func() {
		if had {
			w.Disk.Put(path, before)
		}
	}
	healthy := func() ([]any, secrets, *vsim.Rnd) {
		o := k.build(w, pl, seed, path)
		r := o.stream()
		out, s := split(o.call(w, r, false))
		return out, s, r
	}
	o1, s1, r1 := healthy()
	w.Log("%s drew %d bytes in %d reads: %s", k.name, r1.Pos, r1.Reads, errStr(errOf(o1)))
	if errOf(o1) != nil {
		w.Hit("refused")
		return // refused for what it was asked to do
	}
	who := fmt.Sprintf("%s (seed %d)", k.name, seed)
	c.fresh(w, who, s1)
	c.enough(w, who, s1, r1.Pos)
	want := dump(o1...)
	used, reads := r1.Pos, r1.Reads
	for j := 1 + t.Int(4); j > 0 && used > 0; j-- {
		restore()
		at := path
		if saves && !had {
			at = fmt.Sprintf("%s.%d", path, j) // where nothing is yet
		}
		o := k.build(w, pl, seed, at)
		r := o.stream()
		how := ""
		switch t.Weighted(4, 2, 2, 2) {
		case 0: // at a byte
			f := int64(t.Int(int(used)))
			switch t.Int(8) {
			case 0:
				f = 0
			case 1:
				f = used - 1
			case 2:
				f = r1.Starts[t.Int(len(r1.Starts))] // between two reads
			}
			if f >= used {
				f = used - 1
			}
			r.FailAt = f
			r.FailFull = t.One(3)
			if t.One(3) {
				r.Split = 1 + t.Int(3)
			}
			how = fmt.Sprintf("failing after %d of %d bytes", f, used)
			if f == 0 {
				w.Fired("fail-first-byte")
			}
			if f == used-1 {
				w.Fired("fail-last-byte")
			}
		case 1: // at a read
			r.FailRead = 1 + t.Int(reads)
			how = fmt.Sprintf("failing on read %d of %d", r.FailRead, reads)
			w.Fired("fail-read")
		case 2: // split only
			r.Split = 1 + t.Int(3)
			if t.One(3) {
				r.Stall = int64(t.Int(100000))
				w.Fired("rand-stall")
			}
			out, _ := split(o.call(w, r, false))
			got := dump(out...)
			w.Log("%s split %d: %s", k.name, r.Split, errStr(errOf(out)))
			w.Check(got == want, "split", "%s gives another result when its source delivers the same bytes in other portions (mode %d): %s", who, r.Split, differsAt(want, got))
			continue
		case 3: // one bit changed
			i := int64(t.Int(int(used)))
			b := make([]byte, used)
			io.ReadFull(r.Fork(), b)
			r.Overlay(i, []byte{b[i] ^ 1<<t.Int(8)})
			out, s := split(o.call(w, r, false))
			if errOf(out) != nil {
				continue
			}
			w.Fired("bit-changed")
			w.Log("%s with byte %d changed", k.name, i)
			if len(s1) > 0 {
				same := len(s) == len(s1)
				for x := 0; same && x < len(s); x++ {
					same = s[x] == s1[x]
				}
				w.Check(!same, "unused", "%s uses the same %s although byte %d of the %d random bytes it drew was changed", who, s1[0].kind, i, used)
			}
			continue
		}
		r.FailErr = [...]error{nil, io.EOF, io.ErrUnexpectedEOF, errSome}[t.Int(4)]
		if t.One(2) {
			r.Transient = 1 + t.Int(2)
			w.Fired("fail-transient")
			how += fmt.Sprintf(", %d times", r.Transient)
		} else {
			w.Fired("fail-sticky")
		}
		out, s := split(o.call(w, r, false))
		w.Log("%s %s: %s", k.name, how, errStr(errOf(out)))
		if errOf(out) == nil {
			if len(s) > 0 {
				w.Fail("open", "%s succeeded with its source %s (%s=%s, bytes drawn %d, failures met %d)", who, how, s[0].kind, s[0].v, r.Pos, r.Fails)
			}
			w.Fail("open", "%s succeeded with its source %s (bytes drawn %d, failures met %d)", who, how, r.Pos, r.Fails)
		}
		what, ok := zero(out)
		w.Check(ok, "output", "%s reports the failure of its source (%s) and still gives output: %s", who, how, what)
		if saves {
			got := w.Disk.Peek(at)
			w.Check(bytes.Equal(got, before) && (got == nil) == (before == nil), "file", "%s created or changed its file although its source failed (%s)", who, how)
		}
	}
	restore()
	o2, _, _ := healthy()
	got := dump(o2...)
	w.Check(got == want, "history", "%s gives another result for the same inputs and random bytes after other calls: %s", who, differsAt(want, got))
	w.Hit("recovered")
}

// retried lets an operation begin with random bytes that it must not use; what it draws in their place must be as
// fresh, and its failure as fatal.
func (c *c03run) retried(w *vsim.World) {
	t := w.T
	k := keyOf(scalar(t))
	var head []byte
	var run func(r *vsim.Rnd) []any
	var k0 *big.Int // the refused value
	var what string
	switch t.Weighted(3, 2, 1) {
	case 0: // a digest for which the first nonce gives r = 0, r + k = n or s = 0
		what = "SignDigest"
		c.seeds++
		h := vsim.NewRnd(vsim.Mix(t.Seed(), c.seeds))
		var r0, s0 *big.Int
		var err error
		w.API("SignDigestRS", limSmall, func() { r0, s0, err = sm2.SignDigestRS(h, k, ref.B32(big.NewInt(7))) })
		if err != nil || h.Pos > 4096 {
			return
		}
		head = make([]byte, h.Pos)
		io.ReadFull(h.Fork(), head)
		k0 = ref.Nonce(k.D, r0, s0)
		e := new(big.Int)
		switch t.Int(3) {
		case 1:
			e.Sub(n, k0)
		case 2:
			e.Mul(k0, new(big.Int).ModInverse(k.D, n))
		}
		e.Sub(e, ref.BaseMult(k0).X)
		in := ref.B32(e.Mod(e, n))
		run = func(r *vsim.Rnd) []any {
			der, err := sm2.SignDigest(r, k, in)
			return append([]any{der, err}, nonceDER(k.D, der))
		}
	case 1: // keys that are 0, n-1 or beyond n
		what = "GenerateKey"
		run = func(r *vsim.Rnd) []any {
			k, err := sm2.GenerateKey(r)
			if err != nil {
				return []any{k, err}
			}
			return []any{k, err, secrets{{"d", k.D.Text(16)}}}
		}
		for i := 0; i < 2; i++ {
			k0 := new(big.Int)
			if v := t.Int(4); v > 0 {
				k0.Add(n, big.NewInt(int64(v-2)))
			}
			if head := genStream(k0); !c.heads[string(head)] { // the same bytes may give the same key
				c.heads[string(head)] = true
				c.redraw(w, what, head, k0, run)
			}
		}
		return
	case 2: // a key stream of zeros
		what = "Encryt"
		z := kdfZero[0]
		head = nonceStream(sharedScalar(k.D, z[t.Int(len(z))]))
		m := t.Bytes(1)
		run = func(r *vsim.Rnd) []any {
			b, err := sm2.Encryt(r, &k.PublicKey, m)
			if err != nil || len(b) < 65 {
				return []any{b, err}
			}
			return []any{b, err, secrets{{"c1", fmt.Sprintf("%x", b[1:65])}}}
		}
	}
	c.redraw(w, what, head, k0, run)
}

func (c *c03run) redraw(w *vsim.World, what string, head []byte, k0 *big.Int, run func(r *vsim.Rnd) []any) {
	t := w.T
	at := int64(len(head))
	var seed uint64
	do := func(again bool, f func(r *vsim.Rnd)) ([]any, secrets, *vsim.Rnd) {
		if !again {
			c.seeds++
			seed = vsim.Mix(t.Seed(), c.seeds)
		}
		r := vsim.NewRnd(seed)
		r.Overlay(0, head)
		f(r)
		var out []any
		w.API(what, 20_000_000, func() { out = run(r) })
		o, s := split(out)
		return o, s, r
	}
	used := int64(0)
	for i := 0; i < 2; i++ {
		out, s, r := do(false, func(*vsim.Rnd) {})
		who := fmt.Sprintf("%s, after %d bytes that cannot be used (case %d)", what, at, c.seeds)
		w.Log("%s: %s, %d bytes", who, errStr(errOf(out)), r.Pos)
		if errOf(out) != nil {
			return // C02, C05 and C07 judge that
		}
		c.fresh(w, who, s)
		used = r.Pos
		for _, x := range s {
			if v, ok := new(big.Int).SetString(x.v, 16); k0 != nil && (used > at || what == "SignDigest") && ok && (x.kind == "k" || x.kind == "d") {
				d := new(big.Int).Sub(v, k0)
				d.Mod(d, n)
				w.Check(d.BitLen() > 128 && new(big.Int).Sub(n, d).BitLen() > 128, "related", "%s used %s=%x, next to the refused %x", who, x.kind, v, k0)
			}
		}
		if used <= at {
			return // the bytes were of use after all
		}
		w.Hit("redrawn")
		c.enough(w, who, s, used-at)
	}
	f := at + int64(t.Int(int(used-at)))
	out, _, r := do(true, func(r *vsim.Rnd) { // the last stream, cut short
		r.FailAt = f
		r.FailFull = t.One(3)
		r.FailErr = [...]error{nil, io.EOF, io.ErrUnexpectedEOF, errSome}[t.Int(4)]
		if t.One(3) {
			r.Split = 1 + t.Int(3)
		}
	})
	w.Log("%s failing after %d bytes: %s", what, f, errStr(errOf(out)))
	w.Hit("redraw-failed")
	w.Check(errOf(out) != nil, "open", "%s succeeded although its source failed after %d bytes, of which the first %d cannot be used (bytes drawn %d)", what, f, at, r.Pos)
	z, ok := zero(out)
	w.Check(ok, "output", "%s reports the failure of its source after %d bytes and still gives output: %s", what, f, z)
}
