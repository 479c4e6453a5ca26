package vsim

import (
	"errors"
	"io"
	mrand "math/rand"
	mrand2 "math/rand/v2"
)

// ErrRandom is what a failing random source returns.
var ErrRandom = errors.New("simulated random source failure")

// Rnd is a random source: a seeded stream with chosen stretches replaced, delivered in reads of a chosen size,
// failing at a chosen point.
type Rnd struct {
	Seed    uint64
	Pos     int64 // bytes delivered
	Reads   int
	Fails   int
	overlay []overlay

	FailAt    int64 // fail when this many bytes have been delivered; <0 never
	FailRead  int   // fail on this read call (1-based); 0 never
	Transient int   // failing reads before it recovers; 0: never recovers
	FailErr   error
	FailFull  bool // report the error together with the last bytes instead of on the next read
	Split     int  // 0 full reads, 1 one byte at a time, 2 pseudo-random chunks, 3 chunks and empty reads
	Stall     int64
	Limit     int64 // after this many bytes the source reports failure (runaway guard); 0: none
	Keep      bool
	Given     []byte // what was delivered, if Keep
	Starts    []int64
}

type overlay struct {
	off int64
	b   []byte
}

// NewRnd makes a healthy source.
func NewRnd(seed uint64) *Rnd { return &Rnd{Seed: seed, FailAt: -1} }

// Overlay replaces the stream at off by b.
func (r *Rnd) Overlay(off int64, b []byte) *Rnd {
	r.overlay = append(r.overlay, overlay{off, append([]byte(nil), b...)})
	return r
}

// Fork is the same stream again from its start, healthy and unsplit.
func (r *Rnd) Fork() *Rnd {
	return &Rnd{Seed: r.Seed, overlay: r.overlay, FailAt: -1}
}

func (r *Rnd) at(i int64) byte {
	for _, o := range r.overlay {
		if i >= o.off && i < o.off+int64(len(o.b)) {
			return o.b[i-o.off]
		}
	}
	v := mix(r.Seed + uint64(i>>3+1)*0x9e3779b97f4a7c15)
	return byte(v >> (8 * uint(i&7)))
}

func (r *Rnd) err() error {
	if r.FailErr != nil {
		return r.FailErr
	}
	return ErrRandom
}

// Read implements io.Reader.
func (r *Rnd) Read(p []byte) (int, error) {
	r.Reads++
	Charge(2000 + 500*int64(len(p)) + r.Stall)
	r.Starts = append(r.Starts, r.Pos)
	if r.FailRead > 0 && r.Reads >= r.FailRead && (r.Transient == 0 || r.Fails < r.Transient) {
		r.Fails++
		fired("rand-error")
		return 0, r.err()
	}
	n := len(p)
	switch r.Split {
	case 1:
		n = min(n, 1)
	case 2:
		if n > 1 {
			n = 1 + int(Mix(r.Seed, uint64(r.Reads))%uint64(n))
		}
	case 3:
		if n > 0 {
			n = int(Mix(r.Seed, uint64(r.Reads)) % uint64(n+1))
			if n == 0 {
				fired("rand-empty-read")
			}
		}
	}
	if n < len(p) {
		fired("rand-short-read")
	}
	if r.FailAt >= 0 && r.Pos+int64(n) > r.FailAt && (r.Transient == 0 || r.Fails < r.Transient) {
		n = int(r.FailAt - r.Pos)
		if n < 0 {
			n = 0
		}
		r.give(p[:n])
		if n == 0 || r.FailFull {
			r.Fails++
			fired("rand-error")
			return n, r.err()
		}
		return n, nil
	}
	if r.Limit > 0 && r.Pos > r.Limit {
		r.Fails++
		return 0, io.ErrUnexpectedEOF
	}
	r.give(p[:n])
	return n, nil
}

func (r *Rnd) give(p []byte) {
	for i := range p {
		p[i] = r.at(r.Pos)
		r.Pos++
	}
	if r.Keep {
		r.Given = append(r.Given, p...)
	}
}

func fired(kind string) {
	if W != nil {
		W.Fired(kind)
	}
}

type globalReader struct{}

func (globalReader) Read(p []byte) (int, error) {
	if W == nil || W.cur == nil {
		Fill(p, 0x5eed)
		return len(p), nil
	}
	return W.cur.Rnd.Read(p)
}

// RandReader stands for crypto/rand.Reader.
var RandReader io.Reader = globalReader{}

// RandRead stands for crypto/rand.Read.
func RandRead(b []byte) (int, error) { return io.ReadFull(RandReader, b) }

// RandText stands for crypto/rand.Text.
func RandText() string {
	b := make([]byte, 26)
	RandRead(b)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[b[i]%32]
	}
	return string(b)
}

type rndSource struct{}

func (rndSource) Uint64() uint64 {
	w := W
	if w == nil {
		return 42
	}
	if w.mathRnd == nil {
		w.mathRnd = NewRnd(w.Seed ^ 0x6d617468)
	}
	var b [8]byte
	for i := range b {
		b[i] = w.mathRnd.at(w.mathRnd.Pos)
		w.mathRnd.Pos++
	}
	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}
func (s rndSource) Int63() int64 { return int64(s.Uint64() >> 1) }
func (rndSource) Seed(int64)     {}

// MathRand stands for the top-level math/rand functions.
func MathRand() *mrand.Rand { return mrand.New(rndSource{}) }

// MathRandV2 stands for the top-level math/rand/v2 functions.
func MathRandV2() *mrand2.Rand { return mrand2.New(rndSource{}) }
