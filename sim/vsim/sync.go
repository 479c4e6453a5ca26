package vsim

import (
	"reflect"
	"sync"
	"time"
)

// Locker stands for sync.Locker.
type Locker = sync.Locker

// Mutex stands for sync.Mutex.
type Mutex struct {
	w      *World
	owner  *Task
	locked bool
}

func (m *Mutex) fresh() {
	if m.w != W {
		m.w, m.owner, m.locked = W, nil, false
	}
	if m.locked && m.owner != nil && m.owner.done {
		if m.owner.killed {
			m.locked, m.owner = false, nil // its process crashed
		}
	}
}

// Lock locks.
func (m *Mutex) Lock() {
	m.fresh()
	if m.locked {
		block(func() bool { m.fresh(); return !m.locked })
	}
	m.locked = true
	m.owner = curTask()
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	m.owner = curTask()
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	m.fresh()
	if !m.locked {
		if t := curTask(); t != nil && t.killed {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked, m.owner = false, nil
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	w       *World
	writer  *Task
	held    bool
	readers []*Task
}

func (m *RWMutex) fresh() {
	if m.w != W {
		m.w, m.writer, m.held, m.readers = W, nil, false, nil
	}
	if m.held && m.writer != nil && m.writer.done && m.writer.killed {
		m.held, m.writer = false, nil
	}
	k := m.readers[:0]
	for _, r := range m.readers {
		if r == nil || !(r.done && r.killed) {
			k = append(k, r)
		}
	}
	m.readers = k
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	m.fresh()
	if m.held || len(m.readers) > 0 {
		block(func() bool { m.fresh(); return !m.held && len(m.readers) == 0 })
	}
	m.held, m.writer = true, curTask()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if m.held || len(m.readers) > 0 {
		return false
	}
	m.held, m.writer = true, curTask()
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	m.fresh()
	if !m.held {
		if t := curTask(); t != nil && t.killed {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.held, m.writer = false, nil
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	m.fresh()
	if m.held {
		block(func() bool { m.fresh(); return !m.held })
	}
	m.readers = append(m.readers, curTask())
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if m.held {
		return false
	}
	m.readers = append(m.readers, curTask())
	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	m.fresh()
	if len(m.readers) == 0 {
		if t := curTask(); t != nil && t.killed {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	c := curTask()
	for i, r := range m.readers {
		if r == c {
			m.readers = append(m.readers[:i], m.readers[i+1:]...)
			return
		}
	}
	m.readers = m.readers[:len(m.readers)-1]
}

// RLocker stands for RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once stands for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if t := curTask(); t == nil || !t.killed {
				o.done = true
			}
		}()
		f()
	}
}

// OnceFunc stands for sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue stands for sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues stands for sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct {
	w *World
	n int
}

// Add adds.
func (g *WaitGroup) Add(d int) {
	if g.w != W {
		g.w, g.n = W, 0
	}
	g.n += d
	if g.n < 0 {
		if t := curTask(); t != nil && t.killed {
			g.n = 0
			return
		}
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for zero.
func (g *WaitGroup) Wait() {
	if g.w == W && g.n > 0 {
		block(func() bool { return g.n == 0 })
	}
}

// Go runs f in a task.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() { defer g.Done(); f() })
}

// Pool stands for sync.Pool; which item Get returns, or a new one, is the simulator's choice.
type Pool struct {
	New   func() any
	w     *World
	items []any
}

// Get takes an item.
func (p *Pool) Get() any {
	if p.w != W {
		p.w, p.items = W, nil
	}
	if n := len(p.items); n > 0 {
		i := n - 1
		if W != nil {
			switch W.T.Weighted(4, 1, 1) {
			case 1:
				i = W.T.Int(n)
			case 2:
				i = -1
			}
		}
		if i >= 0 {
			it := p.items[i]
			p.items = append(p.items[:i], p.items[i+1:]...)
			return it
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if p.w != W {
		p.w, p.items = W, nil
	}
	p.items = append(p.items, x)
}

// Cond stands for sync.Cond.
type Cond struct {
	L       Locker
	waiting []*bool
}

// NewCond makes one.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	woken := false
	c.waiting = append(c.waiting, &woken)
	c.L.Unlock()
	block(func() bool { return woken })
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	for _, b := range c.waiting {
		*b = true
	}
	c.waiting = nil
}

func curTask() *Task {
	if W == nil {
		return nil
	}
	return W.cur
}

func block(cond func() bool) {
	if W == nil {
		if !cond() {
			panic("vsim: blocking outside a run")
		}
		return
	}
	W.Block(cond)
}

// Go stands for the go statement.
func Go(f func()) {
	if W == nil || W.cur == nil {
		f()
		return
	}
	rnd := W.cur.Rnd
	t := W.Go(W.cur.Proc, "go", f)
	t.Daemon, t.Rnd = true, rnd
}

// GoCall stands for go f(args...); spread says that the last argument is passed as the variadic slice itself.
func GoCall(f any, spread bool, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 && !spread {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt) // an untyped constant
		}
		in[i] = v
	}
	Go(func() {
		if spread {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}

// Send stands for ch <- v: Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		for {
			select {
			case ch <- v:
				return
			default:
			}
			block(func() bool { return ch != nil && len(ch) < cap(ch) })
		}
	}
}

// Recv stands for <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 stands for v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	for {
		select {
		case v, ok = <-ch:
			if t := curTask(); t != nil {
				t.polls = 0
			}
			return
		default:
		}
		Poll()
	}
}

// Poll lets somebody else run before a channel is looked at again. A close is seen by polling.
func Poll() {
	t := curTask()
	if t == nil {
		panic("vsim: waiting on a channel outside a run")
	}
	t.polls++
	if t.polls > 1_000_000 {
		W.failNoPanic("deadlock", "waiting on a channel nobody uses")
		panic(abort{})
	}
	W.Yield()
	if t.polls > 3 { // let time pass, too
		W.Sleep(min(stepTime<<min(t.polls-3, 24), time.Second))
	}
}

// A select statement is turned into attempts at one case at a time, from one that the simulator decides:
//
//	SelStart(n); L: select { case <-Only(0, a): … case OnlySend(1, b) <- v: … default: SelWait(); goto L }

var selOutside Task

func selTask() *Task {
	if t := curTask(); t != nil {
		return t
	}
	return &selOutside
}

// SelStart begins a select statement of n cases.
func SelStart(n int) {
	t := selTask()
	t.polls, t.selN, t.selTried, t.selAt = 0, n, 0, 0
	if n > 1 && W != nil {
		t.selAt = W.T.Int(n)
	}
}

// SelNext goes on to the next case and reports whether there is one that was not tried in this round.
func SelNext() bool {
	t := selTask()
	t.selTried++
	if t.selTried >= t.selN {
		return false
	}
	t.selAt = (t.selAt + 1) % t.selN
	return true
}

// SelWait goes on to the next case, and after the last waits a little.
func SelWait() {
	if SelNext() {
		return
	}
	t := selTask()
	t.selTried = 0
	Poll()
}

// Only is ch if the i-th case is being tried.
func Only[T any](i int, ch <-chan T) <-chan T {
	if selTask().selAt == i {
		return ch
	}
	return nil
}

// OnlySend is ch if the i-th case is being tried.
func OnlySend[T any](i int, ch chan<- T) chan<- T {
	if selTask().selAt == i {
		return ch
	}
	return nil
}

// Zero is the zero value of a channel's elements.
func Zero[T any](ch <-chan T) (v T) { return }

// ---- maps ----

// A map that is written while another goroutine uses it ends the process ("fatal error: concurrent map writes").
// Here a write begins before a possible change of tasks and ends after it.

func mapPtr(f func() any) (p uintptr) {
	defer func() { recover() }()
	if v := reflect.ValueOf(f()); v.Kind() == reflect.Map && !v.IsNil() {
		p = v.Pointer()
	}
	return
}

func mapBusy(p uintptr, what string) {
	if o := W.mapBusy[p]; o != nil && o != W.cur && !o.done && !o.killed {
		W.failNoPanic("panic:concurrent map access", "concurrent map %s: task %s in %s while task %s in %s writes the same map without a lock between them", what, W.cur.Name, W.cur.callName, o.Name, o.callName)
		panic(abort{})
	}
}

// MapRead stands before a statement that reads a map other tasks may know.
func MapRead(f func() any) {
	if W == nil || W.cur == nil || len(W.mapBusy) == 0 {
		return
	}
	if p := mapPtr(f); p != 0 {
		mapBusy(p, "read")
	}
}

// MapWrite stands before a statement that writes a map other tasks may know.
func MapWrite(f func() any) {
	if W == nil || W.cur == nil {
		return
	}
	p := mapPtr(f)
	if p == 0 {
		return
	}
	mapBusy(p, "write")
	if W.T.One(4) {
		if W.mapBusy == nil {
			W.mapBusy = map[uintptr]*Task{}
		}
		W.mapBusy[p] = W.cur
		W.Yield()
		delete(W.mapBusy, p)
	}
}
