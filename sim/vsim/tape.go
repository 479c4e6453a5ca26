package vsim

// Tape is the only source of decisions in a run: a seeded generator that records what it decided, or a recording
// played back (zeros past its end).
type Tape struct {
	Rec    []uint64
	play   []uint64
	replay bool
	state  uint64
	Over   bool // more draws than MaxTape
}

// MaxTape bounds the decisions of one run.
const MaxTape = 400000

// NewTape makes a tape that decides from seed.
func NewTape(seed uint64) *Tape { return &Tape{state: seed} }

// ReplayTape plays back a recording.
func ReplayTape(rec []uint64) *Tape { return &Tape{play: rec, replay: true} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix derives a seed from two others.
func Mix(a, b uint64) uint64 { return mix(a ^ mix(b+0x9e3779b97f4a7c15)) }

// Draw decides a number in [0, n).
func (t *Tape) Draw(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if len(t.Rec) >= MaxTape {
		t.Over = true
		return 0
	}
	if t.replay {
		if len(t.Rec) < len(t.play) {
			v = t.play[len(t.Rec)] % n
		}
	} else {
		t.state += 0x9e3779b97f4a7c15
		v = mix(t.state) % n
	}
	t.Rec = append(t.Rec, v)
	return v
}

// Int decides an int in [0, n).
func (t *Tape) Int(n int) int { return int(t.Draw(uint64(n))) }

// Between decides an int in [lo, hi].
func (t *Tape) Between(lo, hi int) int { return lo + t.Int(hi-lo+1) }

// Seed decides a 64-bit seed (the top value stands for a bulk of decisions derived from it).
func (t *Tape) Seed() uint64 { return t.Draw(1 << 62) }

// One decides yes with probability 1/n.
func (t *Tape) One(n int) bool { return t.Int(n) == n-1 }

// Weighted decides an index with the given weights; index 0 is the simplest.
func (t *Tape) Weighted(ws ...int) int {
	sum := 0
	for _, x := range ws {
		sum += x
	}
	v := t.Int(sum)
	for i, x := range ws {
		if v < x {
			return i
		}
		v -= x
	}
	return len(ws) - 1
}

// Bytes derives n bytes from a seed decision: mostly uniform, sometimes degenerate.
func (t *Tape) Bytes(n int) []byte {
	style := t.Weighted(6, 1, 1, 1)
	seed := t.Seed()
	b := make([]byte, n)
	Fill(b, seed)
	switch style {
	case 1:
		for i := range b {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] &= 3
		}
	}
	return b
}

// Fill fills b from a seed.
func Fill(b []byte, seed uint64) {
	for i := 0; i < len(b); i += 8 {
		seed += 0x9e3779b97f4a7c15
		v := mix(seed)
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}
