package main

import (
	"bytes"
	"fmt"
	"os"
	"syscall"

	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C16", Run: c16, Quick: 5000, Thorough: 250000,
		Rule:   "One evaluation is one simulated run: one or two goroutines perform operations from a table of all exported ones, healthy and with failing random sources, failing disks and damaged inputs; around every call the arguments (everything reachable, spare room behind slices and guard bytes around buffers included), the process's output and the disk are compared; after it the caller overwrites its message buffers and then the results, and the operation is done again.",
		Real:   []string{"all packages"},
		Stub:   []string{"disk, standard output and error (simulated; the real ones are watched too)", "random source, clock (simulated)", "goroutine scheduling (simulator)", "external RSA, ECDSA and Ed25519 signers (deterministic stand-ins)"},
		Need:   []string{"preempted", "failing", "rand-error", "disk-write-error", "disk-create-error", "disk-close-error", "disk-open-error", "disk-read-error", "disk-full", "buffers-reused", "results-overwritten", "done-again", "held"},
		Assume: []string{"private fields of arguments may change (nobody can see them except through results, which C15 compares)", "parsed objects may refer to the bytes they were parsed from"},
	})
}

type c16run struct {
	files map[string]bool // files the calls may write
	held  []heldResult
}

// heldResult is a result that a caller keeps while it does other things.
type heldResult struct {
	who  string
	out  []any
	want string
}

func (c *c16run) taken(w *vsim.World) {
	for _, h := range c.held {
		got := dump(h.out...)
		w.Check(got == h.want, "held-result", "a result of %s that the caller still holds has changed since, although the caller did not touch it: %s", h.who, differsAt(h.want, got))
	}
}

func realOut() int64 {
	if st, err := os.Stdout.Stat(); err == nil && st.Mode().IsRegular() {
		return st.Size()
	}
	return 0
}

func c16(w *vsim.World) {
	t := w.T
	swarm(w)
	p := w.NewProc("app")
	c := &c16run{files: map[string]bool{}}
	size := realOut()
	var pl *pool
	w.Do(p, "setup", func() { pl = newPool(w, t.Seed()) })
	if w.Stopped() {
		return
	}
	bystanders := map[string][]byte{"/data/other.p12": t.Bytes(50), "/tmp/x": t.Bytes(20), "/data/config": t.Bytes(10)}
	there := map[string]bool{}
	for _, f := range w.Disk.List() {
		there[f] = true // directories
	}
	for f, b := range bystanders {
		w.Disk.Put(f, b)
	}
	tasks := 1 + t.Weighted(3, 1)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(5)
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			for j := 0; j < ops; j++ {
				k := opTable[t.Int(len(opTable))]
				if t.One(6) {
					k = opTable[len(opTable)-1-t.Int(2)] // the two that use the disk
				}
				dir := "/data"
				if t.One(8) {
					dir = "/data/missing"
				}
				c.one(w, pl, k, t.Seed(), fmt.Sprintf("%s/%d-%d.p12", dir, i, j))
			}
		})
	}
	w.Run()
	if w.Stopped() {
		return
	}
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
	w.Do(p, "look around", func() {
		c.taken(w)
		for _, f := range w.Disk.List() {
			if c.files[f] || there[f] {
				continue
			}
			b, ok := bystanders[f]
			w.Check(ok, "stray-file", "a call left %s behind", f)
			w.Check(bytes.Equal(b, w.Disk.Peek(f)), "other-file", "a call changed %s", f)
			delete(bystanders, f)
		}
		for f := range bystanders {
			w.Fail("other-file", "a call removed %s", f)
		}
		w.Check(realOut() == size, "output", "a call wrote to standard output or standard error behind the simulator's back")
		if es, err := os.ReadDir("."); err == nil && os.Getenv("TMPDIR") != "" {
			if wd, _ := os.Getwd(); wd == os.Getenv("TMPDIR") {
				w.Check(len(es) == 0, "stray-file", "a call left a file behind in the working directory")
			}
		}
	})
}

func (c *c16run) one(w *vsim.World, pl *pool, k *opKind, seed uint64, path string) {
	t := w.T
	c.files[path] = true
	o := k.build(w, pl, seed, path)
	r := o.stream()
	saves := k.name == "SM2P12Encrypt"
	loads := k.name == "SM2P12Decrypt"
	how := "plain"
	if k.rand != 0 && t.One(4) {
		r.FailAt = int64(t.Int(48))
		how = "failing random source"
		w.Fired("failing")
	}
	var faults []*vsim.DiskFault
	if (saves || loads) && t.One(2) {
		ops := []string{"create", "write", "close", "sync", "rename"}
		if loads {
			ops = []string{"open", "read", "close"}
		}
		f := &vsim.DiskFault{Op: ops[t.Int(len(ops))], Path: path, After: t.Int(2), Err: []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[t.Int(3)], Short: t.Int(200), Sticky: t.One(2)}
		w.Disk.Faults = append(w.Disk.Faults, f)
		faults = append(faults, f)
		how = "failing disk"
		w.Fired("failing")
	}
	if saves && t.One(2) {
		w.Disk.Put(path, t.Bytes(30))
	}
	if saves && len(faults) == 0 && t.One(6) {
		w.Disk.Capacity = int64(1 + t.Int(1500))
		how = "full disk"
	}
	before := dumpArgs(o.g.args)
	writes := w.Writes
	out, _ := split(o.call(w, r, true))
	w.Disk.Capacity = 0
	for _, f := range faults {
		for i, x := range w.Disk.Faults {
			if x == f {
				w.Disk.Faults = append(w.Disk.Faults[:i], w.Disk.Faults[i+1:]...)
				break
			}
		}
	}
	err := errOf(out)
	w.Log("%s %s: %s", k.name, how, errStr(err))
	who := fmt.Sprintf("%s (%s, returning %s)", k.name, how, errStr(err))
	w.Check(w.Writes == writes, "output", "%s wrote to the process's output: %s", who, w.LastOut)
	c.args(w, o, who, before, "")
	if loads && o.g.file != nil {
		w.Check(bytes.Equal(w.Disk.Peek(path), o.g.file), "loaded-file", "%s changed the file it read", who)
	}
	want := dump(out...)
	if err != nil || len(out) == 0 {
		return
	}
	if len(o.g.bufs) > 0 {
		// the caller reuses its buffers
		for _, b := range o.g.bufs {
			b.scribble()
		}
		w.Hit("buffers-reused")
		got := dump(out...)
		w.Check(got == want, "aliases-input", "the result of %s changes when the caller changes its message buffer afterwards: %s", who, differsAt(want, got))
		for _, b := range o.g.bufs {
			b.scribble() // and back
		}
	}
	if t.One(3) {
		c.held = append(c.held, heldResult{who, out, want})
		w.Hit("held")
	} else if t.One(2) {
		// the caller overwrites what it was given
		c.taken(w) // before anything else can disturb them
		s := &scribbler{}
		s.preserve(pl, o.g.args, stdKeys)
		for _, b := range o.g.ders {
			s.preserve(b.whole)
		}
		if s.overwrite(out) {
			w.Hit("results-overwritten")
			c.args(w, o, who, before, ", when its result is overwritten")
			o2 := k.build(w, pl, seed, path)
			if saves || loads {
				return
			}
			out2, _ := split(o2.call(w, o2.stream(), true))
			w.Hit("done-again")
			if how == "plain" {
				got := dump(out2...)
				w.Check(got == want, "aliases-state", "%s gives another result after the caller has overwritten an earlier one: %s", who, differsAt(want, got))
			}
		}
	}
}

func (c *c16run) args(w *vsim.World, o *opInst, who, before, when string) {
	if got := dumpArgs(o.g.args); got != before {
		w.Fail("arguments", "%s changed its arguments%s: %s", who, when, differsAt(before, got))
	}
	for _, b := range o.g.bufs {
		w.Check(b.intact(), "arguments", "%s changed a message, id or digest it was given, or the bytes around it%s", who, when)
	}
	for _, b := range o.g.ders {
		w.Check(b.intact(), "arguments", "%s changed an encoding it was given, or the bytes around it%s", who, when)
	}
}
