package vsim

import "time"

// Now is the clock of the running task's process.
func Now() time.Time {
	w := W
	if w == nil {
		return time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	Charge(1)
	w.ClockReads++
	if w.cur == nil {
		return w.now
	}
	if !w.cur.Clock.IsZero() {
		return w.cur.Clock
	}
	p := w.cur.Proc
	return w.now.Add(p.Skew).In(p.Zone)
}

// Since stands for time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until stands for time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep stands for time.Sleep.
func Sleep(d time.Duration) {
	if W != nil {
		W.Sleep(d)
	}
}

// After stands for time.After.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	if W != nil {
		W.At(d, func() { c <- W.now })
	}
	return c
}

// Gosched stands for runtime.Gosched.
func Gosched() {
	if W != nil {
		W.Yield()
	}
}
