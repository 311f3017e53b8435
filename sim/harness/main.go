// Command harness runs simulated executions of programs against the
// instrumented frozen library.
//
//	harness work  -prop P -seed S -cfg I -first N -count M   seeded search
//	harness one   -prop P -seed S -cfg I -first N            one run, in full
//	harness replay FILE                                      a replay file
//	harness minimise IN OUT                                  shrink a violation
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"fsim/simrt"
)

func sortStrings(a []string) { sort.Strings(a) }

// Record is a violation with everything needed to run it again.
type Record struct {
	Prop    string           `json:"prop"`
	Index   int              `json:"index"` // run number in its worker's sequence
	Seed    uint64           `json:"seed"`  // seed of the run
	Viol    viol             `json:"violation"`
	Program *Program         `json:"program"`
	Sched   simrt.Config     `json:"schedule"`
	Prefix  []uint64         `json:"prefix,omitempty"` // seeds of runs to make first
	Env     *json.RawMessage `json:"env,omitempty"`    // how to build and start the harness
	Note    string           `json:"note,omitempty"`
	Rerun   *Rerun           `json:"rerun,omitempty"` // a worker's runs to make first
}

// Rerun names the runs a worker made before the one recorded.
type Rerun struct {
	Cfg   int    `json:"cfg"`
	First int    `json:"first"`
	Seed  uint64 `json:"seed"`
	genOpts
}

// Summary is what a worker did.
type Summary struct {
	Runs       int               `json:"runs"`
	Steps      uint64            `json:"steps"`
	Ticks      uint64            `json:"ticks"`
	SimTime    int64             `json:"simtime"`
	Tasks      int               `json:"tasks"`
	LibTasks   int               `json:"libtasks"`
	Switches   int               `json:"switches"`
	Preempts   int               `json:"preempts"`
	SyncOps    uint64            `json:"syncops"`
	Accesses   uint64            `json:"accesses"`
	MaxLive    int               `json:"maxlive"`
	Parallel   int               `json:"parallel"` // runs in which library goroutines ran
	MemRuns    int               `json:"memruns"`  // runs with a scheduling point at every access
	Ops        map[string]int    `json:"ops"`
	Faults     map[string]int    `json:"faults"`
	Unfired    int               `json:"unfired"`
	Obs        int               `json:"obs"`
	Policies   map[string]int    `json:"policies"`
	Machines   map[string]int    `json:"machines"`
	Hashes     []uint64          `json:"hashes"`
	Pairs      []uint64          `json:"pairs"`
	Nontrivial int               `json:"nontrivial"`
	Rechecked  int               `json:"rechecked"`
	Diverged   int               `json:"diverged"`
	Known      map[string]string `json:"known"`
	Others     map[string]int    `json:"others"`
	Samples    []string          `json:"samples"`
	TimedOut   bool              `json:"timedout"`
	Wall       float64           `json:"wall"`
}

// status is shared with the driver through a mapped file: it survives the
// death of this process.
var status []byte

func setStatus(format string, a ...any) {
	if status == nil {
		return
	}
	n := copy(status, fmt.Sprintf(format, a...))
	if n < len(status) {
		status[n] = 0
	}
}

func openStatus(path string) {
	if path == "" {
		return
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	check(err)
	check(f.Truncate(4096))
	status, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	check(err)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

func runSeed(prop string, seed uint64, cfg, i int) uint64 {
	h := seed
	for _, c := range []byte(prop) {
		h = mix(h, uint64(c)+7)
	}
	return mix(mix(h, uint64(cfg)+1), uint64(i)+1)
}

var runs int

// runHash is told the execution hash of every run, for the self-test.
var runHash = func(int, uint64) {}

// recheck says how often a run is repeated to see whether it is the same.
var recheck = func() int {
	if os.Getenv("SIM_RECHECK") != "" {
		return 1
	}
	return 250
}()

// one makes one run. GC is off meanwhile: addresses stay distinct.
func one(p *Program, cfg simrt.Config, st *stats) (*run, *simrt.Result) {
	runs++
	if p.Cap > 10_000_000 {
		debug.SetGCPercent(200)
	} else {
		debug.SetGCPercent(-1)
		if runs%20 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 300<<20 {
				runtime.GC()
			}
		}
	}
	return execute(p, cfg, st)
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(2 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness work|one|replay|minimise ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fs.String("prop", "C11", "property")
	seed := fs.Uint64("seed", 1, "seed")
	cfg := fs.Int("cfg", 0, "number of the configuration")
	first := fs.Int("first", 0, "first run")
	count := fs.Int("count", 100, "runs")
	trace := fs.Bool("trace", false, "print the execution hash of every run")
	all := fs.Bool("all", false, "report violations of every property")
	keep := fs.Bool("keep", false, "go on after a violation")
	thorough := fs.Bool("thorough", false, "deeper programs")
	memp := fs.Int("memp", 0, "chance in 100 of memory hooks, if not 0")
	known := fs.String("known", "", "comma-separated keys of known findings")
	st := fs.String("status", "", "status file")
	limit := fs.Float64("limit", 600, "time limit in seconds")
	verbose := fs.Bool("v", false, "show programs")
	cmd := os.Args[1]
	check(fs.Parse(os.Args[2:]))
	opts := genOpts{*thorough, *memp}
	openStatus(*st)
	if *trace {
		runHash = func(i int, h uint64) { fmt.Println("hash", i, h) }
	}
	switch cmd {
	case "work":
		work(*prop, *seed, *cfg, *first, *count, *all, *keep, opts, *known, *limit, *verbose)
	case "one":
		s := runSeed(*prop, *seed, *cfg, *first)
		p := generate(*prop, s, opts)
		showProgram(p)
		r, res := one(p, schedule(s), newStats())
		for _, v := range r.viols {
			fmt.Println(v.Classes, v.Key, v.Msg)
		}
		fmt.Printf("%+v hash=%#x\n", schedule(s), res.Hash)
		fmt.Println(res.Steps, "steps", res.Tasks, "tasks", res.Switches, "switches")
	case "gen":
		s := runSeed(*prop, *seed, *cfg, *first)
		rec := Record{Prop: *prop, Index: *first, Seed: s, Program: generate(*prop, s, opts), Sched: schedule(s)}
		check(json.NewEncoder(os.Stdout).Encode(rec))
	case "replay":
		os.Exit(replay(fs.Arg(0), *verbose))
	case "twice":
		rec := load(fs.Arg(0))
		for i := 0; i < 3; i++ {
			_, res := one(rec.Program, rec.Sched, newStats())
			fmt.Printf("%d steps, %d tasks, %d switches, trace %v, execution hash %#x\n", res.Steps, res.Tasks, res.Switches, res.Trace, res.Hash)
		}
	case "minimise":
		minimise(fs.Arg(0), fs.Arg(1), *limit)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func showProgram(p *Program) {
	fmt.Printf("machine %s/%s universe %d hash %s/%#x mem %v\n", p.Mach, p.Dom, p.U, p.HashMode, p.HashSeed, p.Mem)
	for i := range p.Setup {
		fmt.Println("  setup  ", &p.Setup[i])
	}
	for c, ops := range p.Clients {
		for i := range ops {
			fmt.Printf("  client%d %s\n", c, &ops[i])
		}
	}
}

func brief(p *Program, c simrt.Config) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%s u=%d hash=%s mem=%v sched=%+v setup:", p.Mach, p.Dom, p.U, p.HashMode, p.Mem, c.Policy)
	for i := range p.Setup {
		fmt.Fprintf(&sb, " %s", &p.Setup[i])
	}
	for n, ops := range p.Clients {
		fmt.Fprintf(&sb, " | client%d:", n)
		for i := range ops {
			fmt.Fprintf(&sb, " %s", &ops[i])
		}
	}
	s := sb.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func work(prop string, seed uint64, cfg, first, count int, all, keep bool, opts genOpts, known string, limit float64, verbose bool) {
	start := time.Now()
	st := newStats()
	sum := Summary{Policies: map[string]int{}, Machines: map[string]int{}, Known: map[string]string{}, Others: map[string]int{}}
	isKnown := map[string]bool{}
	for _, k := range strings.Split(known, ",") {
		isKnown[k] = k != ""
	}
	hashes := map[uint64]struct{}{}
	pairs := map[uint64]struct{}{}
	enc := json.NewEncoder(os.Stdout)
	var prefix []uint64
	done := false
	try := func(i int, s uint64, p *Program, c simrt.Config) {
		setStatus("%d %d start C09 0", i, s)
		r, res := one(p, c, st)
		runHash(i, res.Hash)
		sum.Runs++
		sum.Steps += res.Steps
		sum.Ticks += res.Ticks
		sum.SimTime += res.SimTime
		sum.Tasks += res.Tasks
		sum.LibTasks += res.LibTasks
		sum.Switches += res.Switches
		sum.Preempts += res.Preempts
		sum.SyncOps += res.SyncOps
		sum.Accesses += res.Accesses
		sum.MaxLive = maxi(sum.MaxLive, res.MaxLive)
		if res.LibTasks > 0 {
			sum.Parallel++
		}
		if res.Accesses > 0 {
			sum.MemRuns++
		}
		sum.Policies[c.Policy.Kind]++
		sum.Machines[p.Mach+"/"+p.Dom]++
		if _, dup := hashes[res.Hash]; !dup && len(hashes) < 400000 {
			hashes[res.Hash] = struct{}{}
			if res.Switches > 0 || res.LibTasks > 0 || r.fired > 0 {
				sum.Nontrivial++
			}
		}
		for k := range res.PairSites {
			if len(pairs) < 400000 {
				pairs[k] = struct{}{}
			}
		}
		if len(sum.Samples) < 2 && res.Switches > 2 {
			sum.Samples = append(sum.Samples, brief(p, c))
		}
		if i >= 0 && i%recheck == 17%recheck && p.Cap < 10_000_000 {
			r2, res2 := one(p, c, newStats())
			sum.Rechecked++
			if res2.Hash != res.Hash || len(r2.viols) != len(r.viols) {
				sum.Diverged++
				fmt.Fprintf(os.Stderr, "diverged: run %d seed %d mach %s/%s mem %v: %#x %d steps, then %#x %d steps; %d then %d violations\n", i, s, p.Mach, p.Dom, p.Mem, res.Hash, res.Steps, res2.Hash, res2.Steps, len(r.viols), len(r2.viols))
			}
		}
		for _, v := range r.viols {
			if !v.has(prop) && !all {
				for _, c := range v.Classes {
					sum.Others[c]++
				}
				continue
			}
			if isKnown[v.Key] {
				sum.Known[v.Key] = v.Msg
				continue
			}
			rec := Record{Prop: prop, Index: i, Seed: s, Viol: v, Program: p, Sched: c}
			rec.Prefix = append(rec.Prefix, prefix...)
			if len(rec.Prefix) > 40 {
				rec.Prefix = rec.Prefix[len(rec.Prefix)-40:]
			}
			if verbose {
				fmt.Printf("run %d: %v %s\n    %s\n", i, v.Classes, v.Key, v.Msg)
			} else {
				check(enc.Encode(map[string]any{"record": rec}))
			}
			if !keep {
				done = true
			}
			break
		}
	}
	if p := probe(prop); p != nil && first == 0 {
		if _, ok := linked[p.Mach]; ok {
			try(-1, 0, p, simrt.Config{Policy: simrt.Policy{Kind: "block"}, TaskCap: 1000})
		}
	}
	for i := first; i < first+count && !done; i++ {
		if time.Since(start).Seconds() > limit {
			sum.TimedOut = true
			break
		}
		s := runSeed(prop, seed, cfg, i)
		try(i, s, generate(prop, s, opts), schedule(s))
		prefix = append(prefix, s)
		if len(prefix) > 1000 {
			prefix = append([]uint64(nil), prefix[900:]...)
		}
	}
	sum.Ops, sum.Faults, sum.Unfired, sum.Obs = st.ops, st.faults, st.faultsUnfired, st.obs
	for h := range hashes {
		sum.Hashes = append(sum.Hashes, h)
	}
	for h := range pairs {
		sum.Pairs = append(sum.Pairs, h)
	}
	sum.Wall = time.Since(start).Seconds()
	if verbose {
		sum.Hashes, sum.Pairs = nil, nil
	}
	check(enc.Encode(map[string]any{"summary": sum}))
}

func load(file string) *Record {
	b, err := os.ReadFile(file)
	check(err)
	rec := &Record{}
	check(json.Unmarshal(b, rec))
	return rec
}

// replay runs a replay file; 1 means that it violates its property again.
func replay(file string, verbose bool) int {
	rec := load(file)
	for _, s := range rec.Prefix {
		one(generate(rec.Prop, s, genOpts{}), schedule(s), newStats())
	}
	if q := rec.Rerun; q != nil {
		for i := q.First; i < rec.Index; i++ {
			s := runSeed(rec.Prop, q.Seed, q.Cfg, i)
			one(generate(rec.Prop, s, q.genOpts), schedule(s), newStats())
		}
	}
	if verbose {
		showProgram(rec.Program)
	}
	setStatus("%d %d start C09 0", rec.Index, rec.Seed)
	r, res := one(rec.Program, rec.Sched, newStats())
	rc := 0
	for _, v := range r.viols {
		if v.has(rec.Prop) && (rec.Viol.Key == "" || v.Key == rec.Viol.Key) {
			fmt.Printf("violated: %s\n", v.Msg)
			rc = 1
			break
		}
	}
	if verbose {
		for _, v := range r.viols {
			fmt.Println("  saw", v.Classes, v.Key, v.Msg)
		}
		fmt.Printf("%d steps, %d tasks, %d switches, trace %v, execution hash %#x\n", res.Steps, res.Tasks, res.Switches, res.Trace, res.Hash)
	}
	if rc == 0 {
		fmt.Println("not violated")
	}
	return rc
}
