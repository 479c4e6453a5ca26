package main

import (
	"bytes"
	"fmt"
	"hash"

	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
	"mcverif/ref"
	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C01", Run: c01, Quick: 14000, Thorough: 500000,
		Rule:   "One evaluation is one simulated run: up to four goroutines, each feeding up to three hash instances from a faulty stream in chunks, with Sum, Reset and one-shot calls in between, preempted at any statement of the hash code; every result is compared with an independent SM3.",
		Real:   []string{"sm3 (all of it)"},
		Stub:   []string{"goroutine scheduling (simulator)", "byte streams feeding the hash (simulated)"},
		Fixed:  [][]uint64{{0, 0, 39, c01hugeMark}},
		FixedT: [][]uint64{{0, 0, 39, c01hugeMark, 1}, {0, 0, 39, c01hugeMark, 2}},
		Need:   []string{"preempted", "chunk-split", "sum-midstream", "reset-midstream", "stream-cut", "large-write", "message-beyond-2^32-bits", "named-hash"},
		Assume: []string{"ref/sm3.go is SM3 as in GB/T 32905 (checked against the standard's vectors)"},
	})
}

func c01(w *vsim.World) {
	t := w.T
	swarm(w)
	if t.One(40) {
		c01long(w)
		return
	}
	p := w.NewProc("app")
	tasks := 1 + t.Weighted(3, 4, 2, 1)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(14)
		w.Go(p, fmt.Sprintf("g%d", i), func() { c01task(w, ops) })
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
}

type c01inst struct {
	h    hash.Hash
	data []byte // written since the last Reset
}

func c01task(w *vsim.World, ops int) {
	t := w.T
	var insts []*c01inst
	// Results the caller keeps: nothing that is done later may change them.
	type kept struct {
		got, want []byte
		what      string
	}
	var keep []kept
	later := func() {
		for _, k := range keep {
			w.Check(bytes.Equal(k.got, k.want), "result-kept", "%s was %x; after later calls the caller's slice holds %x", k.what, k.want, k.got)
		}
	}
	fresh := func() *c01inst {
		in := &c01inst{}
		if t.One(6) {
			w.API("x509.SM3.New", limSmall, func() { in.h = x509.SM3.New() })
			w.Hit("named-hash")
		} else {
			w.API("sm3.New", limSmall, func() { in.h = sm3.New() })
		}
		insts = append(insts, in)
		return in
	}
	fresh()
	for k := 0; k < ops; k++ {
		in := insts[t.Int(len(insts))]
		switch t.Weighted(8, 5, 2, 3, 1, 1) {
		case 0: // deliver a message in chunks, cut anywhere
			msg := message(t, 6000)
			chunks := 1
			if len(msg) > 0 {
				chunks = 1 + t.Int(5)
			}
			at := 0
			for c := 0; c < chunks; c++ {
				e := len(msg)
				if c < chunks-1 {
					e = at + t.Int(len(msg)-at+1)
					w.Fired("chunk-split")
				} else if t.One(8) {
					e = at + t.Int(len(msg)-at+1)
					w.Fired("stream-cut") // the rest never arrives
				}
				g := guard(msg[at:e])
				var nn int
				var err error
				w.API("sm3.Write", limBig, func() { nn, err = in.h.Write(g.b) })
				w.Check(err == nil && nn == len(g.b), "write", "Write of %d bytes returned (%d, %v)", len(g.b), nn, err)
				w.Check(g.intact(), "write-buffer", "Write changed the caller's buffer (%d bytes)", len(g.b))
				in.data = append(in.data, g.b...)
				g.scribble()
				at = e
			}
			w.Log("write %d bytes in %d chunks", at, chunks)
		case 1:
			if got := c01sum(w, in); got != nil {
				keep = append(keep, kept{got, clone(got), "a Sum result"})
			}
		case 2:
			w.API("sm3.Reset", limSmall, func() { in.h.Reset() })
			if len(in.data) > 0 {
				w.Hit("reset-midstream")
			}
			in.data = nil
		case 3:
			g := guard(message(t, 6000))
			want := ref.SM3(g.b)
			var got []byte
			w.API("sm3.Sum", limBig, func() { got = sm3.Sum(g.b) })
			w.Check(bytes.Equal(got, want), "oneshot", "one-shot digest of %d bytes (%s) is %x, SM3 gives %x", len(g.b), hx(g.b), got, want)
			w.Check(g.intact(), "oneshot-buffer", "one-shot digest changed the caller's buffer")
			g.scribble()
			w.Check(bytes.Equal(got, want), "oneshot-alias", "digest changed with the caller's buffer")
			keep = append(keep, kept{got, want, "a one-shot digest"})
			w.Log("one-shot of %d bytes", len(g.b))
		case 4:
			if len(insts) < 3 {
				fresh()
			}
		case 5:
			later()
			w.Check(in.h.Size() == 32 && in.h.BlockSize() == 64, "sizes", "Size %d BlockSize %d", in.h.Size(), in.h.BlockSize())
			w.Check(x509.SM3.Size() == 32 && x509.SM3.Available() && x509.SM3.String() == "SM3", "sizes", "x509.SM3: Size %d, available %v, %v", x509.SM3.Size(), x509.SM3.Available(), x509.SM3)
		}
	}
	for _, in := range insts {
		c01sum(w, in)
	}
	later()
}

// c01sum returns the result when the caller keeps it, and nil when it has been written over.
func c01sum(w *vsim.World, in *c01inst) []byte {
	t := w.T
	prefix := t.Bytes([...]int{0, 0, 1, 5, 32, 33, 100}[t.Int(7)])
	spare := [...]int{0, 0, 1, 31, 32, 33, 64, 200}[t.Int(8)]
	buf := make([]byte, len(prefix), len(prefix)+spare)
	copy(buf, prefix)
	tail := buf[:cap(buf)]
	for i := len(prefix); i < len(tail); i++ {
		tail[i] = 0xEE
	}
	if len(prefix) == 0 && spare == 0 {
		buf = nil
	}
	want := append(clone(prefix), ref.SM3(in.data)...)
	var got []byte
	w.API("sm3.Sum()", limBig, func() { got = in.h.Sum(buf) })
	w.Check(bytes.Equal(got, want), "sum", "Sum after %d bytes (%s), prefix %d with %d spare: got %s, want %s", len(in.data), hx(in.data), len(prefix), spare, hx(got), hx(want))
	w.Check(bytes.Equal(buf[:len(prefix)], prefix), "sum-prefix", "Sum changed the prefix slice")
	for i := len(prefix) + 32; i < len(tail); i++ {
		w.Check(tail[i] == 0xEE, "sum-beyond", "Sum wrote beyond its result")
	}
	if len(in.data) > 0 {
		w.Hit("sum-midstream")
	}
	w.Log("sum after %d bytes", len(in.data))
	if t.One(2) {
		return got
	}
	for i := range got {
		got[i] = 0x77 // the result is the caller's
	}
	return nil
}

const c01hugeMark = 1<<40 - 1

// c01huge passes 2^32 bits (or 2^32 bytes, or 2^32 bits in one call). The expected digests were computed with
// OpenSSL 3 (openssl dgst -sm3) over the same bytes.
func c01huge(w *vsim.World) {
	t := w.T
	how := t.Int(3)
	p := w.NewProc("app")
	w.Go(p, "huge", func() {
		block := make([]byte, 1<<20)
		vsim.Fill(block, 7)
		var got []byte
		want := c01want[0]
		switch how {
		case 0, 1:
			total := int64(1)<<29 + 77
			if how == 1 {
				total, want = int64(1)<<32+77, c01want[1]
			}
			var h hash.Hash
			w.API("sm3.New", limSmall, func() { h = sm3.New() })
			for left := total; left > 0; {
				m := min(left, int64(len(block)))
				w.API("sm3.Write", limBig, func() { h.Write(block[:m]) })
				left -= m
			}
			w.API("sm3.Sum()", limBig, func() { got = h.Sum(nil) })
		case 2:
			data := bytes.Repeat(block, 513)[:1<<29+77]
			w.API("sm3.Sum", 20_000_000_000, func() { got = sm3.Sum(data) })
		}
		w.Hit("message-beyond-2^32-bits")
		w.Log("huge message, way %d", how)
		w.Check(fmt.Sprintf("%x", got) == want, "sum-huge", "digest of a message of more than 2^32 bits (way %d): got %x, want %s", how, got, want)
	})
	w.Run()
}

// c01long feeds many megabytes of zeros, so that the bit count passes widths that shorter messages cannot.
func c01long(w *vsim.World) {
	t := w.T
	if t.Draw(1<<40) == c01hugeMark {
		c01huge(w)
		return
	}
	p := w.NewProc("app")
	w.Go(p, "long", func() {
		var h hash.Hash
		total := 8192 + t.Int(60000) // beyond 2^16 bits and 2^16 bytes
		chunk := 1 + t.Int(5000)
		if t.One(4) { // in few, large writes
			total = 60000 + t.Int(300000)
			chunk = 50000 + t.Int(total)
			w.Hit("large-write")
		}
		w.API("sm3.New", limSmall, func() { h = sm3.New() })
		data := make([]byte, total)
		vsim.Fill(data, t.Seed())
		for at := 0; at < total; at += chunk {
			e := min(total, at+chunk)
			w.API("sm3.Write", limBig, func() { h.Write(data[at:e]) })
		}
		var got []byte
		w.API("sm3.Sum()", limBig, func() { got = h.Sum(nil) })
		want := ref.SM3(data)
		w.Check(bytes.Equal(got, want), "sum", "Sum of %d bytes in chunks of %d: got %x, want %x", total, chunk, got, want)
		w.Hit("long-message")
		w.Log("long message of %d bytes in chunks of %d", total, chunk)
	})
	w.Run()
}

var c01want = [2]string{"a51090886f5565cd70eb96989699dbe89a50f7b672bcaa0d1fa1878c7b7bb798", "5487a4d3437b127a3cc98965fc36eddfea4996dd00d9d2641dfb999100ba13c4"}
