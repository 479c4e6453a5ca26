// Command scen runs the simulated scenarios that decide the properties.
//
//	scen check   -prop ID -tier T -seed N ...   explore, minimise, write evidence (the parent)
//	scen worker  ...                            execute runs handed over by the parent
//	scen replay  FILE                           execute one replay file
//	scen solo    ...                            execute single operations in a fresh process (C15)
//	scen digests -prop ID -seed N -from -count  print run digests (determinism self-test)

//go:debug x509negativeserial=1
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"syscall"
	"time"

	"mcverif/vsim"
)

// Scenario decides one property.
type Scenario struct {
	ID       string
	Run      func(w *vsim.World)
	Quick    int // runs
	Thorough int
	QuickS   int // wall-clock cap in seconds
	Chunk    int
	Rule     string
	Real     []string
	Stub     []string
	Need     []string // probes and fault kinds that must have been hit by a quick batch
	Assume   []string
	Fixed    [][]uint64              // tapes always played, beside the random runs
	FixedT   [][]uint64              // the same, thorough tier only
	Prepare  func(c *checkCtx) error // in the parent, before the batch
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) {
	if s.Chunk == 0 {
		s.Chunk = 64
	}
	scenarios[s.ID] = s
}

// Result is the outcome of one run.
type Result struct {
	Index    int               `json:"i"`
	Digest   uint64            `json:"d"`
	IL       uint64            `json:"il"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"sw"`
	Ops      int               `json:"ops"`
	SimNS    int64             `json:"sim"`
	Draws    int               `json:"draws"`
	Faults   map[string]int    `json:"f,omitempty"`
	Probes   map[string]int    `json:"p,omitempty"`
	Key      string            `json:"key,omitempty"`
	Text     string            `json:"text,omitempty"`
	Tape     []uint64          `json:"tape,omitempty"`
	Log      []string          `json:"log,omitempty"`
	Known    map[string]string `json:"known,omitempty"`
	Start    bool              `json:"start,omitempty"`
	End      bool              `json:"end,omitempty"`
	Sites    []uint32          `json:"sites,omitempty"`
	WallNS   int64             `json:"wall"`
}

func runSeed(seed uint64, prop string, i int) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range prop {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return vsim.Mix(vsim.Mix(seed, h), uint64(i))
}

var knownKeys map[string]bool

// execute performs one run.
func execute(s *Scenario, index int, tape *vsim.Tape, wantLog bool) (r Result) {
	t0 := time.Now()
	fresh := tape.One(8)
	if fresh {
		vsim.Restart()
	}
	w := vsim.NewWorld(s.ID, tape)
	if w.Fresh = fresh; fresh {
		w.Hit("like-a-new-process")
	}
	w.Known = knownKeys
	w.Seed = tape.Seed()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if !w.Stopped() {
					fmt.Fprintf(os.Stderr, "harness panic in %s run %d: %v\n%s\n", s.ID, index, p, debug.Stack())
					os.Exit(3)
				}
			}
		}()
		s.Run(w)
	}()
	w.Close()
	r = Result{Index: index, Digest: w.Digest(), IL: w.Interleaving(), Steps: w.Steps, Switches: w.Switches, Ops: w.Ops, SimNS: int64(w.Elapsed), Draws: len(tape.Rec), Faults: w.Fault, Probes: w.Probe, Known: w.KnownHit}
	if w.Violation != nil {
		r.Key, r.Text = w.Violation.Key, w.Violation.Text
		r.Tape = tape.Rec
	}
	if wantLog || r.Key != "" {
		r.Log = w.Logs()
	}
	r.WallNS = int64(time.Since(t0))
	return r
}

// Job is what the parent asks of a worker.
type Job struct {
	From   int      `json:"from"`
	Count  int      `json:"count"`
	Tape   []uint64 `json:"tape,omitempty"` // if set: after the runs From..From+Count, play this
	Replay bool     `json:"replay"`
	Log    bool     `json:"log"`
}

func loadSites(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if n, s, ok := strings.Cut(l, "\t"); ok {
			if v, err := strconv.Atoi(n); err == nil {
				vsim.Sites[uint32(v)] = s
			}
		}
	}
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	sites := fs.String("sites", "", "")
	known := fs.String("known", "", "")
	data := fs.String("data", "", "")
	fs.Parse(args)
	dataDir = *data
	debug.SetMaxStack(64 << 20)
	runtime.GOMAXPROCS(2)
	lim := uint64(12 << 30)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	loadSites(*sites)
	knownKeys = map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			knownKeys[k] = true
		}
	}
	s := scenarios[*prop]
	outf := os.NewFile(3, "results")
	out := bufio.NewWriter(outf)
	enc := json.NewEncoder(out)
	in := json.NewDecoder(os.Stdin)
	var job Job
	if err := in.Decode(&job); err != nil {
		os.Exit(3)
	}
	emit := func(r Result) { enc.Encode(r); out.Flush() }
	for i := job.From; i < job.From+job.Count; i++ {
		emit(Result{Index: i, Start: true})
		r := execute(s, i, vsim.NewTape(runSeed(*seed, s.ID, i)), job.Log)
		if job.Replay {
			continue // only for its effect on the process
		}
		emit(r)
		if r.Key != "" {
			break
		}
	}
	if job.Replay {
		emit(Result{Index: -1, Start: true})
		emit(execute(s, -1, vsim.ReplayTape(job.Tape), true))
	}
	var hit []uint32
	for n := range vsim.Sites {
		if vsim.Hits[n] != 0 {
			hit = append(hit, n)
		}
	}
	emit(Result{End: true, Sites: hit})
	outf.Close()
}

var dataDir string

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: scen check|worker|replay|solo|digests ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "digests":
		digests(os.Args[2:])
	case "ops":
		for i, k := range opTable {
			fmt.Println(i, k.name, k.rand)
		}
	case "solo":
		solo(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func digests(args []string) {
	fs := flag.NewFlagSet("digests", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	count := fs.Int("count", 10, "")
	data := fs.String("data", "", "")
	log := fs.Bool("log", false, "")
	prof := fs.String("prof", "", "")
	fs.Parse(args)
	dataDir = *data
	debug.SetMaxStack(64 << 20)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	s := scenarios[*prop]
	if s.Prepare != nil {
		dir, err := os.MkdirTemp("", "mcverif")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		self, _ := os.Executable()
		if err := s.Prepare(&checkCtx{s: s, seed: *seed, data: *data, scratch: dir, self: self, workers: 8}); err != nil {
			panic(err)
		}
	}
	for i := *from; i < *from+*count; i++ {
		r := execute(s, i, vsim.NewTape(runSeed(*seed, s.ID, i)), *log)
		fmt.Printf("%s %d %016x %016x steps=%d sw=%d ops=%d draws=%d wall=%.1fms %s\n", s.ID, i, r.Digest, r.IL, r.Steps, r.Switches, r.Ops, r.Draws, float64(r.WallNS)/1e6, r.Key)
		if *log {
			fmt.Println(strings.Join(r.Log, "\n"))
		}
		if r.Key != "" {
			fmt.Println("   ", r.Text)
		}
	}
}
