// Package vsim is the deterministic simulator: a cooperative scheduler that decides every interleaving of the
// (instrumented) code under test, and the seams behind which it finds its clock, randomness, files, output,
// locks and goroutines. Everything a run does is a function of its choice tape.
package vsim

import (
	"fmt"
	"hash/fnv"
	"iter"
	"math"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"time"
)

// ---- scheduling points ---------------------------------------------------------------------------------

// MaxSites bounds the number of scheduling points.
const MaxSites = 1 << 16

// Hits marks the scheduling points reached in this process.
var Hits [MaxSites]uint8

var cd int64 = math.MaxInt64

// Y is a scheduling point; the instrumenter puts one before every statement of the code under test.
func Y(site uint32) {
	Hits[site&(MaxSites-1)] = 1
	cd--
	if cd < 0 {
		slow(site)
	}
}

type abort struct{}

func isAbort(r any) bool { _, ok := r.(abort); return ok }

// W is the world being simulated, nil outside a run.
var W *World

func slow(site uint32) {
	w := W
	if w == nil || w.cur == nil {
		cd = math.MaxInt64
		return
	}
	t := w.cur
	t.settle()
	if t.killed || w.stopped {
		panic(abort{})
	}
	if t.callLimit > 0 && t.steps-t.callStart > t.callLimit {
		w.failNoPanic("nontermination:"+t.callName, "%s: no result after %d steps (site %s)", t.callName, t.steps-t.callStart, SiteName(site))
		panic(abort{})
	}
	w.Switches++
	w.ilHash = (w.ilHash ^ uint64(t.id)<<32 ^ uint64(site)) * 1099511628211
	if t.quantumLeft <= 0 {
		t.pause()
	}
	t.arm()
}

// ---- tasks ---------------------------------------------------------------------------------------------

// Proc is a simulated process: a crash kills its tasks; its clock may be skewed.
type Proc struct {
	Name   string
	Skew   time.Duration
	Zone   *time.Location
	Epoch  int
	tasks  []*Task
	parent *World
}

// Task is one thread of control inside a process.
type Task struct {
	id          int
	Name        string
	Proc        *Proc
	Rnd         *Rnd
	next        func() (struct{}, bool)
	stop        func()
	yield       func(struct{}) bool
	done        bool
	killed      bool
	Daemon      bool
	steps       int64
	quantumLeft int64
	armed       int64
	callStart   int64
	callLimit   int64
	callName    string
	callDepth   int
	wake        time.Time
	cond        func() bool
	polls       int
	selN        int
	selAt       int
	selTried    int
	DiskErrs    int       // disk failures delivered to it
	WriteErrs   int       // those met while writing
	Clock       time.Time // what it reads as the time; zero: its process's clock
}

// settle books the steps consumed since the countdown was armed.
func (t *Task) settle() {
	used := t.armed - cd
	if t.armed == 0 {
		return
	}
	t.steps += used
	t.quantumLeft -= used
	W.Steps += used
	W.now = W.now.Add(time.Duration(used) * stepTime)
	t.armed = cd
}

// arm sets the countdown to the nearer of the end of the quantum and the call's step limit.
func (t *Task) arm() {
	n := t.quantumLeft
	if t.callLimit > 0 {
		if l := t.callLimit - (t.steps - t.callStart) + 1; l < n {
			n = l
		}
	}
	if n < 1 {
		n = 1
	}
	cd = n
	t.armed = n
}

// pause gives the processor back to the scheduler.
func (t *Task) pause() {
	t.yield(struct{}{})
	if t.killed || W.stopped {
		panic(abort{})
	}
}

// ---- world ---------------------------------------------------------------------------------------------

// Config is the per-run swarm configuration of the scheduler.
type Config struct {
	MaxQuantum int64 // 0: tasks switch only when they block or finish
}

type event struct {
	at  time.Time
	seq uint64
	run func()
}

// World is one simulated execution.
type World struct {
	T          *Tape
	Prop       string
	Seed       uint64
	Cfg        Config
	Procs      []*Proc
	tasks      []*Task
	cur        *Task
	stopped    bool
	now        time.Time
	start      time.Time
	seq        uint64
	events     []event
	Steps      int64
	Switches   int64
	ilHash     uint64
	Disk       *Disk
	Stdout     strings.Builder
	Fault      map[string]int
	Probe      map[string]int
	Ops        int
	logs       []string
	logHash    uint64
	Verbose    bool
	Violation  *Violation
	mathRnd    *Rnd
	mapBusy    map[uintptr]*Task
	AllocLimit int64 // bytes one library call may allocate; 0: any
	MaxAlloc   int64
	Elapsed    time.Duration
	ClockReads int
	Writes     int
	LastOut    string
	Known      map[string]bool
	KnownHit   map[string]string
	Desc       string
	Trivial    bool
	Fresh      bool // this run started with the package variables of a new process
}

// Violation is a property found broken.
type Violation struct {
	Key, Text string
}

// NewWorld makes a world from a tape and makes it current.
func NewWorld(prop string, t *Tape) *World {
	w := &World{T: t, Prop: prop, Fault: map[string]int{}, Probe: map[string]int{}, KnownHit: map[string]string{}, ilHash: 14695981039346656037, logHash: 14695981039346656037}
	w.now = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	w.start = w.now
	w.Disk = newDisk(w)
	W = w
	cd = math.MaxInt64
	return w
}

type stateItem struct {
	order int
	set   func()
}

var (
	statePkgs []string
	stateOf   = map[string][]stateItem{}
)

// State registers how a package variable gets its initial value; the packages come in the order of their initialisation.
func State(pkg string, order int, set func()) {
	if stateOf[pkg] == nil {
		statePkgs = append(statePkgs, pkg)
	}
	stateOf[pkg] = append(stateOf[pkg], stateItem{order, set})
}

// Restart puts the package variables of the code under test back to what they are when a process starts.
func Restart() {
	for _, p := range statePkgs {
		l := stateOf[p]
		sort.SliceStable(l, func(i, j int) bool { return l[i].order < l[j].order })
		for _, it := range l {
			it.set()
		}
	}
}

// Close ends the run.
func (w *World) Close() {
	w.killAll()
	W = nil
	cd = math.MaxInt64
	w.Elapsed += w.now.Sub(w.start)
}

// Log appends to the event log of the run.
func (w *World) Log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	who := "-"
	if w.cur != nil {
		who = w.cur.Proc.Name + "/" + w.cur.Name
	}
	line := fmt.Sprintf("%d %s %s", w.Steps, who, s)
	h := fnv.New64a()
	h.Write([]byte(line))
	w.logHash = w.logHash*1099511628211 ^ h.Sum64()
	if len(w.logs) < 4000 {
		w.logs = append(w.logs, line)
	}
}

// Logs is the event log.
func (w *World) Logs() []string { return w.logs }

// Digest summarises the run: its event log, schedule and steps.
func (w *World) Digest() uint64 {
	return w.logHash ^ w.ilHash*31 ^ uint64(w.Steps)*1000003 ^ uint64(len(w.T.Rec))<<48
}

// Interleaving is a hash of the sequence of (task, scheduling point) at which the processor changed hands.
func (w *World) Interleaving() uint64 { return w.ilHash }

// Fired counts an injected fault.
func (w *World) Fired(kind string) { w.Fault[kind]++ }

// Hit counts a rare condition that was reached.
func (w *World) Hit(probe string) { w.Probe[probe]++ }

func (w *World) failNoPanic(key, format string, a ...any) {
	key = w.Prop + "/" + key
	text := fmt.Sprintf(format, a...)
	if w.Known[key] {
		w.KnownHit[key] = text
		return
	}
	if w.Violation == nil {
		w.Violation = &Violation{Key: key, Text: text}
		w.Log("VIOLATION %s: %s", key, text)
	}
	w.stopped = true
}

// Fail records a violation of the property and ends the run.
func (w *World) Fail(key, format string, a ...any) {
	w.failNoPanic(key, format, a...)
	if w.stopped {
		panic(abort{})
	}
}

// Check fails unless cond.
func (w *World) Check(cond bool, key, format string, a ...any) {
	if !cond {
		w.Fail(key, format, a...)
	}
}

// Stopped reports whether the run ended early.
func (w *World) Stopped() bool { return w.stopped }

// Inconclusive ends the run without a verdict.
func (w *World) Inconclusive(why string) {
	w.Hit("inconclusive:" + why)
	w.stopped = true
	panic(abort{})
}

// NewProc adds a process.
func (w *World) NewProc(name string) *Proc {
	p := &Proc{Name: name, Zone: time.UTC, parent: w}
	w.Procs = append(w.Procs, p)
	return p
}

// Go starts a task in process p.
func (w *World) Go(p *Proc, name string, f func()) *Task {
	t := &Task{id: len(w.tasks), Name: name, Proc: p}
	t.Rnd = NewRnd(w.Seed ^ hashString(fmt.Sprintf("%s/%s/%d", p.Name, name, p.Epoch)))
	body := func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			t.done = true
			if r := recover(); r != nil && !isAbort(r) {
				w.failNoPanic("panic", "panic in task %s: %v\n%s", t.Name, r, trimStack(debug.Stack()))
			}
		}()
		if t.killed || w.stopped {
			return
		}
		f()
	}
	t.next, t.stop = iter.Pull(iter.Seq[struct{}](body))
	w.tasks = append(w.tasks, t)
	p.tasks = append(p.tasks, t)
	return t
}

const stepTime = 50 * time.Nanosecond

func (w *World) draw(t *Task) {
	defer func() {
		if len(w.events) > 0 {
			if n := int64(w.events[0].at.Sub(w.now)/stepTime) + 1; n < t.quantumLeft {
				t.quantumLeft = n
			}
		}
	}()
	if w.Cfg.MaxQuantum == 0 {
		t.quantumLeft = math.MaxInt64 / 2
		return
	}
	// log-uniform quantum in [1, MaxQuantum]
	bits := int64(1)
	for m := w.Cfg.MaxQuantum; m > 1; m >>= 1 {
		bits++
	}
	e := w.T.Draw(uint64(bits))
	t.quantumLeft = int64(w.T.Draw(1<<e)) + 1
}

func (w *World) step(t *Task) {
	w.cur = t
	t.arm()
	_, alive := t.next()
	t.settle()
	t.armed = 0
	cd = math.MaxInt64
	w.cur = nil
	if !alive {
		t.done = true
	}
}

// Run runs every task until all are done, the run is stopped, or nothing can ever run again.
func (w *World) Run() {
	for !w.stopped {
		w.fire()
		var ready []*Task
		alive := 0
		for _, t := range w.tasks {
			if t.done {
				continue
			}
			if !t.Daemon {
				alive++
			}
			if t.cond != nil {
				if !t.cond() {
					continue
				}
			} else if t.wake.After(w.now) {
				continue
			}
			ready = append(ready, t)
		}
		if alive == 0 {
			return
		}
		if len(ready) == 0 {
			var next time.Time
			for _, t := range w.tasks {
				if !t.done && t.cond == nil && (next.IsZero() || t.wake.Before(next)) {
					next = t.wake
				}
			}
			if len(w.events) > 0 && (next.IsZero() || w.events[0].at.Before(next)) {
				next = w.events[0].at
			}
			if next.IsZero() {
				var names []string
				for _, t := range w.tasks {
					if !t.done {
						names = append(names, t.Name+" in "+t.callName)
					}
				}
				w.failNoPanic("deadlock", "no task can run: %s", strings.Join(names, ", "))
				return
			}
			if next.After(w.now) {
				w.now = next
			}
			continue
		}
		t := ready[w.T.Int(len(ready))]
		w.draw(t)
		if w.Cfg.MaxQuantum > 0 && alive == 1 && len(ready) == 1 && len(w.events) == 0 {
			t.quantumLeft = math.MaxInt64 / 2 // nobody to switch to
		}
		w.step(t)
	}
}

// Do runs f as a single task to completion, without preemption, and reports whether it completed.
func (w *World) Do(p *Proc, name string, f func()) bool {
	if w.stopped {
		return false
	}
	save := w.Cfg
	w.Cfg.MaxQuantum = 0
	ok := false
	w.Go(p, name, func() { f(); ok = true })
	w.Run()
	w.Cfg = save
	return ok
}

func (w *World) kill(t *Task) {
	if t.done {
		return
	}
	t.killed = true
	if t == w.cur {
		panic("vsim: a task cannot crash its own process directly")
	}
	if t.yield == nil {
		t.done = true
		t.stop()
		return
	}
	saveCur, saveCd := w.cur, cd
	defer func() { w.cur, cd = saveCur, saveCd }()
	for i := 0; i < 100 && !t.done; i++ {
		w.cur = t
		cd = 0
		t.armed = 0
		_, alive := t.next()
		w.cur = nil
		if !alive {
			t.done = true
		}
	}
	t.done = true
}

func (w *World) killAll() {
	for _, t := range w.tasks {
		w.kill(t)
	}
}

// Crash kills every task of p, and with it everything that lived in its memory.
func (w *World) Crash(p *Proc) {
	w.Log("crash of %s", p.Name)
	w.Fired("crash")
	for _, t := range p.tasks {
		w.kill(t)
	}
	p.tasks = nil
	p.Epoch++
}

// Cur is the running task.
func (w *World) Cur() *Task { return w.cur }

// At schedules f.
func (w *World) At(d time.Duration, f func()) {
	w.seq++
	w.events = append(w.events, event{w.now.Add(d), w.seq, f})
	sort.Slice(w.events, func(i, j int) bool {
		if !w.events[i].at.Equal(w.events[j].at) {
			return w.events[i].at.Before(w.events[j].at)
		}
		return w.events[i].seq < w.events[j].seq
	})
}

func (w *World) fire() {
	for len(w.events) > 0 && !w.events[0].at.After(w.now) && !w.stopped {
		e := w.events[0]
		w.events = w.events[1:]
		e.run()
	}
}

// Block parks the running task until cond holds.
func (w *World) Block(cond func() bool) {
	t := w.cur
	if t == nil {
		if !cond() {
			panic("vsim: blocking outside a task")
		}
		return
	}
	for !cond() {
		t.settle()
		t.armed = 0
		t.cond = cond
		t.pause()
		t.cond = nil
		t.arm()
	}
}

// API runs one call into the code under test as part of the running task: a panic or an exhausted step budget
// is a violation.
func (w *World) API(name string, limit int64, f func()) {
	t := w.cur
	if t == nil {
		panic("vsim: API call outside a task: " + name)
	}
	if w.stopped || t.killed {
		panic(abort{})
	}
	t.settle()
	var alloc, switches int64 // what other tasks allocate does not count
	if t.callDepth == 0 {
		t.callName, t.callStart, t.callLimit = name, t.steps, limit
		if w.AllocLimit > 0 {
			alloc, switches = allocated(), w.Switches
		}
	}
	t.callDepth++
	w.Ops++
	t.arm()
	defer func() {
		t.callDepth--
		if t.callDepth == 0 {
			t.settle()
			t.callLimit = 0
			if alloc > 0 && switches == w.Switches {
				a := allocated() - alloc
				w.MaxAlloc = max(w.MaxAlloc, a)
				if a > w.AllocLimit && !t.killed {
					w.failNoPanic("memory:"+name, "%s allocates more than %d MB", name, w.AllocLimit>>20)
				}
			}
			t.arm()
		}
		if r := recover(); r != nil {
			if isAbort(r) {
				panic(r)
			}
			w.failNoPanic("panic:"+name, "%s panicked: %v\n%s", name, r, trimStack(debug.Stack()))
			if w.stopped {
				panic(abort{})
			}
		}
	}()
	f()
}

// Try is API, except that a panic is returned as text instead of being a violation.
func (w *World) Try(name string, limit int64, f func()) (panicked string) {
	w.API(name, limit, func() {
		defer func() {
			if r := recover(); r != nil {
				if isAbort(r) {
					panic(r)
				}
				panicked = fmt.Sprint("panic: ", r)
			}
		}()
		f()
	})
	return
}

// StepsInCall is how many statements the running task has executed in the current API call.
func (w *World) StepsInCall() int64 {
	t := w.cur
	t.settle()
	return t.steps - t.callStart
}

// Charge books n steps for work done behind a seam, so that loops around it stay bounded.
func Charge(n int64) {
	cd -= n
	if cd < 0 {
		slow(0)
	}
}

// Yield is an explicit scheduling opportunity.
func (w *World) Yield() {
	t := w.cur
	if t == nil {
		return
	}
	t.settle()
	t.pause()
	t.arm()
}

// Sleep parks the running task for d of simulated time.
func (w *World) Sleep(d time.Duration) {
	t := w.cur
	if t == nil {
		return
	}
	t.wake = w.now.Add(d)
	w.Yield()
}

// Now is the true simulated time.
func (w *World) Now() time.Time { return w.now }

// SetNow moves the simulated time (only forward movement is counted as covered).
func (w *World) SetNow(t time.Time) {
	if d := w.now.Sub(w.start); d > 0 {
		w.Elapsed += d
	}
	w.now, w.start = t, t
}

// allocated is the number of bytes this process has allocated so far; only its growth is looked at.
func allocated() int64 {
	s := [1]metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s[:])
	return int64(s[0].Value.Uint64()) + 1
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "vsim.(*World)") || strings.Contains(l, "iter.Pull") {
			continue
		}
		if i > 8 {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Sites maps scheduling points to file:line.
var Sites = map[uint32]string{}

// SiteName names a scheduling point.
func SiteName(n uint32) string {
	if s, ok := Sites[n]; ok {
		return s
	}
	return fmt.Sprintf("#%d", n)
}
