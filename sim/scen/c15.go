package main

import (
	"fmt"
	"strings"

	"mcverif/vsim"
)

func init() {
	register(&Scenario{
		ID: "C15", Run: c15, Quick: 3500, Thorough: 160000, Prepare: prepareSolo,
		Rule:   "One evaluation is one simulated run: after a history of other calls (some failing, some on damaged input), or as the very first calls of a process, two to six goroutines perform operations from a table of all exported ones on shared keys, certificates and parsed objects, preempted between any two statements; each result is compared with what the same operation returned in a process of its own in which nothing else ran.",
		Real:   []string{"all packages"},
		Stub:   []string{"goroutine scheduling (simulator)", "clock, random source, disk (simulated)", "external RSA, ECDSA and Ed25519 signers (deterministic stand-ins)"},
		Need:   []string{"preempted", "finely-preempted", "history", "failed-before", "same-operation", "mixed-operations", "two-pools", "results-overwritten", "cold-start"},
		Assume: []string{"results are compared by everything reachable from them", "preemption is between statements: torn reads and writes of one machine word or one statement are not simulated"},
	})
}

func c15(w *vsim.World) {
	t := w.T
	swarm(w)
	if t.One(2) {
		w.Cfg.MaxQuantum = [...]int64{16, 4, 200, 1 << 12}[t.Int(4)]
	}
	tab := soloResults()
	p := w.NewProc("app")
	cold := w.Fresh && t.One(2) // the goroutines' calls are the first ones of the process
	if cold {
		w.Hit("cold-start")
	}
	// a history
	if !cold && t.One(2) {
		ok := w.Do(p, "history", func() {
			pl := newPool(w, uint64(t.Int(pools)))
			for i := 1 + t.Int(6); i > 0; i-- {
				k := opTable[t.Int(len(opTable))]
				o := k.build(w, pl, t.Seed(), "/data/history.p12")
				r := o.stream()
				if t.One(3) {
					r.FailAt = int64(t.Int(40))
				}
				if out := o.call(w, r, true); errOf(out) != nil {
					w.Hit("failed-before")
				}
			}
		})
		w.Hit("history")
		if !ok {
			return
		}
	}
	var pls [pools]*pool
	var have []int
	setup := func() {
		for i := 1 + t.Weighted(3, 1); i > 0; i-- {
			x := t.Int(pools)
			if pls[x] == nil {
				pls[x] = newPool(w, uint64(x))
				have = append(have, x)
			}
		}
	}
	if !cold {
		w.Do(p, "setup", setup)
	}
	if w.Stopped() {
		return
	}
	if len(have) > 1 {
		w.Hit("two-pools")
	}
	var kinds []int
	switch t.Weighted(2, 2, 3) {
	case 0:
		kinds = []int{t.Int(len(opTable))}
		w.Hit("same-operation")
	case 1:
		kinds = []int{t.Int(len(opTable)), t.Int(len(opTable))}
	case 2:
		for i := range opTable {
			kinds = append(kinds, i)
		}
		w.Hit("mixed-operations")
	}
	tasks := 2 + t.Int(5)
	for i := 0; i < tasks; i++ {
		ops := 1 + t.Int(4)
		w.Go(p, fmt.Sprintf("g%d", i), func() {
			have, pls := have, pls
			if cold {
				x := t.Int(pools)
				pls[x] = newPool(w, uint64(x))
				have = []int{x}
			}
			for j := 0; j < ops; j++ {
				ki := kinds[t.Int(len(kinds))]
				x := have[t.Int(len(have))]
				s := x + pools*t.Int(soloSeeds/pools)
				k := opTable[ki]
				path := soloPath(ki, s)
				if strings.HasPrefix(k.name, "SM2P12") {
					// files are shared state by nature: every caller has its own
					path = fmt.Sprintf("/data/%s-%d-%d.p12", w.Cur().Name, ki, s)
				}
				o := k.build(w, pls[x], soloSeed(tab.Base, ki, s), path)
				r := o.stream()
				if k.rand != 0 && t.One(6) {
					// the source fails an earlier call and then works again
					o := k.build(w, pls[x], soloSeed(tab.Base, ki, s), path)
					r.FailAt, r.Transient = 0, 1
					if err := errOf(o.call(w, r, true)); err == nil || r.Pos != 0 {
						r = o.stream()
					} else {
						w.Hit("source-recovers")
					}
				}
				out, _ := split(o.call(w, r, true))
				got := strings.ReplaceAll(dump(out...), path, soloPath(ki, s))
				want := tab.Want[soloKey(ki, s)]
				w.Log("%s %d", k.name, s)
				if t.One(3) {
					// what the call returned and was given is the caller's again
					s := &scribbler{}
					s.preserve(&pls, o.g.args, stdKeys)
					for _, b := range o.g.bufs {
						b.scribble()
					}
					for _, b := range o.g.ders {
						b.scribble()
						s.preserve(b.whole)
					}
					if s.overwrite(out) {
						w.Hit("results-overwritten")
					}
				}
				w.Check(got == want, "result:"+k.name, "%s gives another result here than when nothing else runs or ran before: %s", k.name, differsAt(want, got))
			}
		})
	}
	w.Run()
	if w.Switches > int64(tasks) {
		w.Hit("preempted")
	}
	if w.Switches > 1000 {
		w.Hit("finely-preempted")
	}
}
