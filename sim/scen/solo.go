package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sync"

	"mcverif/vsim"
)

// What every operation of the table returns when it is the only thing a process ever does.

const soloSeeds = 30

type soloTable struct {
	Base uint64            `json:"base"`
	Want map[string]string `json:"want"`
}

const soloEnv = "MCVERIF_SOLO"

var soloOnce sync.Once
var soloData *soloTable

func soloResults() *soloTable {
	soloOnce.Do(func() {
		b, err := os.ReadFile(os.Getenv(soloEnv))
		t := &soloTable{}
		if err == nil {
			err = json.Unmarshal(b, t)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness panic: no solo results:", err)
			os.Exit(3)
		}
		soloData = t
	})
	return soloData
}

func soloKey(kind, s int) string { return fmt.Sprintf("%d/%d", kind, s) }

// soloSeed gives the operations that follow the same decisions on the inputs of different pools, which differ in part,
// every second one its own decisions.
func soloSeed(base uint64, kind, s int) uint64 {
	if (s/pools)%2 == 1 {
		s -= s % pools
	}
	return vsim.Mix(vsim.Mix(base, uint64(kind)), uint64(s))
}
func soloPath(kind, s int) string { return fmt.Sprintf("/data/%d-%d.p12", kind, s) }

// solo performs one operation and prints what it returned.
func solo(args []string) {
	fs := flag.NewFlagSet("solo", flag.ExitOnError)
	kind := fs.Int("kind", 0, "")
	s := fs.Int("s", 0, "")
	base := fs.Uint64("base", 1, "")
	data := fs.String("data", "", "")
	fs.Parse(args)
	dataDir = *data
	debug.SetMaxStack(64 << 20)
	w := vsim.NewWorld("C15", vsim.NewTape(7))
	p := w.NewProc("solo")
	got := ""
	w.Do(p, "solo", func() {
		pl := newPool(w, uint64(*s%pools))
		o := opTable[*kind].build(w, pl, soloSeed(*base, *kind, *s), soloPath(*kind, *s))
		out, _ := split(o.call(w, o.stream(), true))
		got = dump(out...)
	})
	if w.Violation != nil {
		got = "violation: " + w.Violation.Text
	}
	w.Close()
	fmt.Print(got)
}

func prepareSolo(c *checkCtx) error {
	base := vsim.Mix(c.seed, 0x5010)
	t := &soloTable{Base: base, Want: map[string]string{}}
	type job struct{ k, s int }
	jobs := make(chan job)
	var mu sync.Mutex
	var first error
	var wg sync.WaitGroup
	for i := 0; i < c.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				cmd := exec.Command(c.self, "solo", "-kind", fmt.Sprint(j.k), "-s", fmt.Sprint(j.s), "-base", fmt.Sprint(base), "-data", c.data)
				cmd.Dir = c.scratch
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
				var errb bytes.Buffer
				cmd.Stderr = &errb
				b, err := cmd.Output()
				got := string(b)
				if err != nil {
					if l := fatalLine(errb.String()); l != "" {
						got = "fatal: " + l // the process did not survive it; concurrency cannot make that worse
					} else {
						mu.Lock()
						first = fmt.Errorf("solo %s: %v %s", opTable[j.k].name, err, errb.String())
						mu.Unlock()
						continue
					}
				}
				mu.Lock()
				t.Want[soloKey(j.k, j.s)] = got
				mu.Unlock()
			}
		}()
	}
	for k := range opTable {
		for s := 0; s < soloSeeds; s++ {
			jobs <- job{k, s}
		}
	}
	close(jobs)
	wg.Wait()
	if first != nil {
		return first
	}
	path := filepath.Join(c.scratch, "solo.json")
	b, _ := json.Marshal(t)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return err
	}
	return os.Setenv(soloEnv, path)
}
