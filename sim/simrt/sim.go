// Package simrt is the deterministic simulator runtime: it owns which task
// runs, when it is preempted, and what every synchronisation operation of the
// instrumented library does. Exactly one task runs at a time; the rest are
// parked. Every decision comes from one seed (or from a recorded trace).
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

type vclock []uint32

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	d := *v
	for i, c := range o {
		if c > d[i] {
			d[i] = c
		}
	}
}

type taskState uint8

const (
	stReady taskState = iota
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Lib    bool // started by the library under test
	Client bool // started by the harness
	Ctx    any  // operation context, inherited by tasks the library starts
	Parent int
	Name   string
	Ended  bool

	wake    chan struct{}
	state   taskState
	ready   func() bool
	why     string
	tid     int // vector clock slot
	vc      vclock
	lastAcc uint32 // own clock at the last recorded memory access
	prio    int64
	site    int
}

// Policy says how the scheduler picks.
type Policy struct {
	Kind   string `json:"kind"`            // "block", "rand", "pct", "hot"
	P      int    `json:"p,omitempty"`     // rand: mean steps between preemptions
	SyncP  int    `json:"sync,omitempty"`  // chance in 100 of preempting at a synchronisation point
	D      int    `json:"d,omitempty"`     // pct: number of change points
	Len    int    `json:"len,omitempty"`   // pct: estimated length
	Spawn  int    `json:"spawn,omitempty"` // chance in 100 that a new task runs first
	Stall  int    `json:"stall,omitempty"` // 1+n: the n-th started task runs only when nothing else can
	HotMod int    `json:"hotmod,omitempty"`
	HotRes int    `json:"hotres,omitempty"`
}

// Switch is one scheduling decision that departs from the default.
type Switch struct {
	Step uint64 `json:"s"`
	To   int    `json:"t"`
}

// Violation is something the simulator itself saw go wrong.
type Violation struct {
	Class string // race, deadlock, leak, steps, crash
	Msg   string
}

// Config of one simulated execution.
type Config struct {
	Seed     uint64
	Policy   Policy
	Replay   []Switch // non-nil: follow this instead of Policy
	UseTrace bool
	MemHooks bool
	Races    bool
	StepCap  uint64
	TaskCap  int
}

// Result of one simulated execution.
type Result struct {
	Violations []Violation
	Trace      []Switch
	Steps      uint64
	Ticks      uint64
	Tasks      int
	LibTasks   int
	Switches   int
	Preempts   int
	MaxLive    int
	Hash       uint64
	SimTime    int64
	SyncOps    uint64
	Accesses   uint64
	PairSites  map[uint64]struct{}
	Aborted    bool
}

type sim struct {
	cfg       Config
	rng       *Rng
	mapRng    *Rng
	tasks     []*Task
	live      []*Task
	cur       *Task
	main      *Task
	finished  chan struct{}
	res       *Result
	replayPos int
	pctPoints []uint64
	stopped   bool
	lowPrio   int64
	now       int64
	timers    []*simTimer
	chans     map[unsafe.Pointer]*schan
	objs      map[unsafe.Pointer]*sobj
	freeTids  []*Task
	nextTid   int
	mainDone  bool
	picked    []*Task
	raceSeen  map[uint64]bool
	opEvents  uint64
	stepCap   uint64
	taskCap   int
}

// Fast-path state, global so that hooks stay cheap.
var (
	s        *sim
	steps    uint64
	nextStep uint64
	ticks    uint64
	tickCap  uint64
	memOn    bool
	raceOn   bool
	runID    uint64
	hotMod   uint64
	hotRes   uint64
)

// Active reports whether a simulation is running.
func Active() bool { return s != nil }

// Cur returns the running task, or nil outside a simulation.
func Cur() *Task {
	if s == nil {
		return nil
	}
	return s.cur
}

// Steps is the global event sequence number.
func Steps() uint64 { return steps }

const never = ^uint64(0)

// Run executes main as the first task of a new simulation and returns when
// every task has ended, or the execution was stopped by a violation.
func Run(cfg Config, main func()) *Result {
	if s != nil {
		panic("simrt: nested simulation")
	}
	if cfg.StepCap == 0 {
		cfg.StepCap = 20_000_000
	}
	if cfg.TaskCap == 0 {
		cfg.TaskCap = 20000
	}
	runID++
	sm := &sim{
		cfg:      cfg,
		rng:      NewRng(cfg.Seed, 101),
		mapRng:   NewRng(cfg.Seed, 102),
		finished: make(chan struct{}),
		res:      &Result{PairSites: map[uint64]struct{}{}},
		chans:    map[unsafe.Pointer]*schan{},
		objs:     map[unsafe.Pointer]*sobj{},
		raceSeen: map[uint64]bool{},
	}
	steps, ticks = 0, 0
	memOn = cfg.MemHooks
	raceOn = cfg.Races && cfg.MemHooks
	hotMod, hotRes = 0, 0
	if !cfg.UseTrace && cfg.Policy.Kind == "hot" {
		hotMod, hotRes = uint64(cfg.Policy.HotMod), uint64(cfg.Policy.HotRes)
	}
	if !cfg.UseTrace && cfg.Policy.Kind == "pct" {
		for i := 0; i < cfg.Policy.D; i++ {
			sm.pctPoints = append(sm.pctPoints, 1+uint64(sm.rng.N(cfg.Policy.Len)))
		}
		sortU64(sm.pctPoints)
	}
	s = sm
	Progress()
	t := sm.newTask(main, nil, "main")
	t.Client = true
	sm.main = t
	sm.cur = t
	sm.schedNext()
	t.wake <- struct{}{}
	<-sm.finished
	s = nil
	memOn, raceOn = false, false
	resetShadow()
	res := sm.res
	res.Steps, res.Ticks, res.Tasks, res.SimTime = steps, ticks, len(sm.tasks), sm.now
	for _, t := range sm.tasks {
		if t.Lib {
			res.LibTasks++
		}
	}
	return res
}

func sortU64(a []uint64) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (sm *sim) newTask(fn func(), parent *Task, name string) *Task {
	t := &Task{ID: len(sm.tasks), wake: make(chan struct{}), Name: name, Parent: -1}
	t.tid = -1
	if parent != nil {
		t.Parent = parent.ID
		// Reuse the clock slot of an ended task whose last access already
		// happens before this point.
		for i, o := range sm.freeTids {
			if parent.vc.get(o.tid) >= o.lastAcc {
				t.tid = o.tid
				c := o.vc.get(o.tid)
				sm.freeTids = append(sm.freeTids[:i], sm.freeTids[i+1:]...)
				t.vc.join(parent.vc)
				for len(t.vc) <= t.tid {
					t.vc = append(t.vc, 0)
				}
				t.vc[t.tid] = c + 1
				break
			}
			if i > 8 {
				break
			}
		}
	}
	if t.tid < 0 {
		t.tid = sm.nextTid
		sm.nextTid++
		if parent != nil {
			t.vc.join(parent.vc)
		}
		for len(t.vc) <= t.tid {
			t.vc = append(t.vc, 0)
		}
		t.vc[t.tid] = 1
	}
	if parent != nil {
		parent.tickClock()
	}
	t.prio = int64(sm.rng.U64()>>2) + 1<<20
	sm.tasks = append(sm.tasks, t)
	sm.live = append(sm.live, t)
	if len(sm.live) > sm.res.MaxLive {
		sm.res.MaxLive = len(sm.live)
	}
	if st := sm.cfg.Policy.Stall; st > 0 && t.ID == st {
		t.prio = -1
	}
	go t.body(fn)
	return t
}

func (t *Task) tickClock() { t.vc[t.tid]++ }

func (t *Task) body(fn func()) {
	<-t.wake
	normal := false
	defer func() {
		if s == nil {
			// Cannot happen: the simulation outlives its tasks.
			select {}
		}
		var crash string
		if !normal {
			if r := recover(); r != nil {
				crash = fmt.Sprintf("task %d (%s): unrecovered panic: %v\n%s", t.ID, t.Name, r, trimStack(debug.Stack()))
			}
		}
		if crash != "" {
			s.violate("crash", crash)
			s.stop()
			select {}
		}
		t.finish()
	}()
	fn()
	normal = true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "frozen") || strings.Contains(l, "panic") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (t *Task) finish() {
	t.state = stDone
	t.Ended = true
	s.freeTids = append(s.freeTids, t)
	for i, o := range s.live {
		if o == t {
			s.live = append(s.live[:i], s.live[i+1:]...)
			break
		}
	}
	if t == s.main {
		s.mainDone = true
	}
	steps++
	s.forced()
}

// violate records a violation of the simulator's own oracles.
func (sm *sim) violate(class, msg string) {
	if len(sm.res.Violations) < 20 {
		sm.res.Violations = append(sm.res.Violations, Violation{class, msg})
	}
}

func (sm *sim) stop() {
	if !sm.stopped {
		sm.stopped = true
		sm.res.Aborted = len(sm.live) > 0
		close(sm.finished)
	}
}

// StopRun ends the execution at once (the harness found a fatal problem).
// It does not return.
func StopRun() {
	s.stop()
	select {}
}

func (sm *sim) isReady(t *Task) bool {
	return t.state == stReady || t.state == stBlocked && t.ready != nil && t.ready()
}

// runnable lists tasks that can run now (in id order).
func (sm *sim) runnable() []*Task {
	out := sm.picked[:0]
	for _, t := range sm.live {
		if sm.isReady(t) {
			out = append(out, t)
		}
	}
	sm.picked = out
	return out
}

func (sm *sim) schedNext() {
	p := sm.cfg.Policy
	switch {
	case sm.cfg.UseTrace:
		nextStep = never
		for sm.replayPos < len(sm.cfg.Replay) && sm.cfg.Replay[sm.replayPos].Step < steps {
			sm.replayPos++
		}
		if sm.replayPos < len(sm.cfg.Replay) {
			nextStep = sm.cfg.Replay[sm.replayPos].Step
			if nextStep <= steps {
				// A record for the current step belongs to a decision
				// taken right now; later steps come after.
				nextStep = steps + 1
			}
		}
	case p.Kind == "rand":
		// geometric with mean P
		n := uint64(1)
		for n < uint64(p.P)*8 && sm.rng.N(p.P) != 0 {
			n++
			if p.P > 64 {
				// coarser, cheaper
				n += uint64(sm.rng.N(p.P / 8))
			}
		}
		nextStep = steps + n
	case p.Kind == "pct":
		nextStep = never
		for _, x := range sm.pctPoints {
			if x > steps {
				nextStep = x
				break
			}
		}
	default:
		nextStep = never
	}
	if nextStep > sm.stepCap {
		nextStep = sm.stepCap + 1
	}
}

// step is a scheduling point. sync marks synchronisation points.
func step(site int) {
	steps++
	if steps >= nextStep {
		s.atPoint(site)
		return
	}
	if hotMod != 0 && uint64(site)%hotMod == hotRes && s.rng.N(4) == 0 {
		s.preempt(site)
	}
}

func (sm *sim) atPoint(site int) {
	if steps > sm.stepCap {
		sm.violate("steps", fmt.Sprintf("step cap %d exceeded; running task %d (%s) at %s", sm.cfg.StepCap, sm.cur.ID, sm.cur.Name, SiteName(site)))
		sm.stop()
		select {}
	}
	if sm.cfg.UseTrace {
		r := sm.cfg.Replay
		for sm.replayPos < len(r) && r[sm.replayPos].Step < steps {
			sm.replayPos++
		}
		if sm.replayPos < len(r) && r[sm.replayPos].Step == steps {
			to := r[sm.replayPos].To
			sm.replayPos++
			sm.schedNext()
			if to != sm.cur.ID && to < len(sm.tasks) && sm.tasks[to].state != stDone && sm.isReady(sm.tasks[to]) {
				sm.res.Preempts++
				sm.cur.site = site
				sm.switchTo(sm.tasks[to], site)
			}
			return
		}
		sm.schedNext()
		return
	}
	if sm.cfg.Policy.Kind == "pct" {
		sm.lowPrio--
		sm.cur.prio = sm.lowPrio
	}
	sm.preempt(site)
}

// preempt lets another runnable task run, if there is one.
func (sm *sim) preempt(site int) {
	sm.cur.site = site
	rs := sm.runnable()
	sm.schedNext()
	if len(rs) < 2 {
		return
	}
	t := sm.choose(rs, true)
	if t == sm.cur {
		return
	}
	sm.res.Preempts++
	sm.res.Trace = append(sm.res.Trace, Switch{steps, t.ID})
	sm.switchTo(t, site)
}

func (sm *sim) choose(rs []*Task, other bool) *Task {
	switch sm.cfg.Policy.Kind {
	case "pct":
		best := rs[0]
		for _, t := range rs[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	default:
		if sm.cfg.Policy.Stall > 0 && len(rs) > 1 {
			for i, t := range rs {
				if t.prio == -1 {
					rs = append(rs[:i], rs[i+1:]...)
					break
				}
			}
		}
		n := len(rs)
		if other && n > 1 {
			for i, t := range rs {
				if t == sm.cur {
					rs[i], rs[n-1] = rs[n-1], rs[i]
					n--
					break
				}
			}
		}
		return rs[sm.rng.N(n)]
	}
}

// forced is called when the current task cannot continue.
func (sm *sim) forced() {
	cur := sm.cur
	for {
		rs := sm.runnable()
		if len(rs) > 0 {
			def := rs[0]
			var t *Task
			if sm.cfg.UseTrace {
				t = def
				r := sm.cfg.Replay
				for sm.replayPos < len(r) && r[sm.replayPos].Step < steps {
					sm.replayPos++
				}
				if sm.replayPos < len(r) && r[sm.replayPos].Step == steps {
					to := r[sm.replayPos].To
					sm.replayPos++
					if to < len(sm.tasks) && sm.tasks[to].state != stDone && sm.isReady(sm.tasks[to]) {
						t = sm.tasks[to]
					}
				}
				sm.schedNext()
			} else {
				t = sm.choose(rs, false)
				if t != def {
					sm.res.Trace = append(sm.res.Trace, Switch{steps, t.ID})
				}
				if nextStep != never && nextStep <= steps {
					sm.schedNext()
				}
			}
			if t == cur && cur.state != stDone {
				cur.state = stReady
				cur.ready = nil
				return
			}
			sm.switchTo(t, cur.site)
			return
		}
		if sm.fireTimer() {
			continue
		}
		// Nothing can run.
		if len(sm.live) > 0 {
			if sm.mainDone {
				var sb strings.Builder
				fmt.Fprintf(&sb, "%d task(s) never end:", len(sm.live))
				for i, t := range sm.live {
					if i < 6 {
						fmt.Fprintf(&sb, " task %d (%s) blocked on %s;", t.ID, t.Name, t.why)
					}
				}
				sm.violate("leak", sb.String())
			} else {
				var sb strings.Builder
				sb.WriteString("deadlock:")
				for i, t := range sm.live {
					if i < 8 {
						fmt.Fprintf(&sb, " task %d (%s) blocked on %s;", t.ID, t.Name, t.why)
					}
				}
				sm.violate("deadlock", sb.String())
			}
		}
		done := cur.state == stDone
		sm.stop()
		if !done {
			select {}
		}
		return
	}
}

func (sm *sim) switchTo(t *Task, site int) {
	cur := sm.cur
	sm.res.Switches++
	h := sm.res.Hash
	h = (h ^ steps) * 1099511628211
	h = (h ^ uint64(t.ID)) * 1099511628211
	sm.res.Hash = h
	if len(sm.res.PairSites) < 4096 {
		sm.res.PairSites[uint64(uint32(site))<<32|uint64(uint32(t.site))] = struct{}{}
	}
	if t.state == stBlocked {
		t.state = stReady
		t.ready = nil
	}
	sm.cur = t
	t.wake <- struct{}{}
	if cur.state == stDone {
		return
	}
	<-cur.wake
}

// waitUntil blocks the current task until cond holds. When it returns, cond
// holds and no other task has run since it was found to hold.
func waitUntil(cond func() bool, why string, site int) {
	if cond() {
		return
	}
	t := s.cur
	t.state = stBlocked
	t.ready = cond
	t.why = why
	t.site = site
	steps++
	s.forced()
}

// syncPoint is a scheduling point before a synchronisation operation. It takes
// two steps, so that a recorded trace replays alike whatever the policy was.
func syncPoint(site int) {
	s.res.SyncOps++
	step(site)
	steps++
	p := &s.cfg.Policy
	switch {
	case s.cfg.UseTrace:
		if steps >= nextStep {
			s.atPoint(site)
		}
	case p.Kind == "pct":
		if steps >= nextStep {
			s.atPoint(site)
		} else {
			s.preempt(site)
		}
	case p.SyncP > 0 && s.rng.N(100) < p.SyncP:
		s.preempt(site)
	case steps >= nextStep:
		s.atPoint(site)
	}
}

// Yield is a scheduling point for harness code (callbacks, clients).
func Yield() {
	if s == nil {
		return
	}
	syncPoint(siteYield)
}

// Mix adds harness events to the execution's hash.
func Mix(x uint64) {
	if s != nil {
		s.res.Hash = (s.res.Hash ^ x ^ 0x5bd1e995) * 1099511628211
	}
}

// Spawn starts a harness task.
func Spawn(name string, fn func()) *Task {
	t := s.newTask(fn, s.cur, name)
	t.Client = true
	return t
}

// Join waits for a task to end; its effects happen before Join returns.
func Join(t *Task) {
	waitUntil(func() bool { return t.state == stDone }, "join "+t.Name, siteYield)
	s.cur.vc.join(t.vc)
}

// Publish returns a clock for handing a value to another task; Observe
// receives it. Together they model proper synchronisation in user code.
func Publish() []uint32 {
	t := s.cur
	out := append(vclock(nil), t.vc...)
	t.tickClock()
	return out
}

// Observe makes everything before the matching Publish happen before now.
func Observe(vc []uint32) { s.cur.vc.join(vc) }

// WaitUntil blocks the current (harness) task.
func WaitUntil(cond func() bool, why string) { waitUntil(cond, why, siteYield) }

// Go starts a library goroutine.
func Go(site int, fn func()) {
	if s == nil {
		go fn()
		return
	}
	if len(s.tasks) >= s.taskCap {
		s.violate("steps", fmt.Sprintf("more than %d goroutines started", s.cfg.TaskCap))
		s.stop()
		select {}
	}
	cur := s.cur
	t := s.newTask(fn, cur, "worker@"+SiteName(site))
	t.Lib = true
	t.Ctx = cur.Ctx
	t.site = site
	s.res.SyncOps++
	steps++
	if !s.cfg.UseTrace {
		if s.cfg.Policy.Kind == "pct" && t.prio > cur.prio ||
			s.cfg.Policy.Spawn > 0 && t.prio >= 0 && s.rng.N(100) < s.cfg.Policy.Spawn {
			s.preemptTo(t, site)
		} else if steps >= nextStep {
			s.atPoint(site)
		}
	} else if steps >= nextStep {
		s.atPoint(site)
	}
}

func (sm *sim) preemptTo(t *Task, site int) {
	sm.cur.site = site
	sm.schedNext()
	sm.res.Preempts++
	sm.res.Trace = append(sm.res.Trace, Switch{steps, t.ID})
	sm.switchTo(t, site)
}

// LiveLib counts library tasks that have not ended.
func LiveLib() int {
	n := 0
	for _, t := range s.live {
		if t.Lib {
			n++
		}
	}
	return n
}

// Progress gives the caps on steps, loops and goroutines a new start: the
// harness calls it where an operation begins. Not more than 100 times over.
func Progress() {
	if s == nil {
		return
	}
	c := s.cfg.StepCap
	s.stepCap = steps + c
	tickCap = ticks + c
	if steps > 100*c || ticks > 100*c {
		s.stepCap, tickCap = 101*c, 101*c
	}
	s.taskCap = len(s.tasks) + s.cfg.TaskCap
}

// Tick bounds loops and recursion that touch no memory.
func Tick() {
	if s == nil {
		return
	}
	ticks++
	if ticks > tickCap {
		s.violate("steps", fmt.Sprintf("loop/call cap %d exceeded in task %d (%s)", tickCap, s.cur.ID, s.cur.Name))
		s.stop()
		select {}
	}
}

// Report lets the harness record a violation in the result.
func Report(class, msg string) { s.violate(class, msg) }

// Gosched replaces runtime.Gosched.
func Gosched() {
	if s == nil {
		runtime.Gosched()
		return
	}
	s.res.SyncOps++
	steps++
	if s.cfg.UseTrace {
		if steps >= nextStep {
			s.atPoint(siteYield)
		}
		return
	}
	s.preempt(siteYield)
}

// NumGoroutine replaces runtime.NumGoroutine.
func NumGoroutine() int {
	if s == nil {
		return runtime.NumGoroutine()
	}
	return len(s.live)
}

// GOMAXPROCS replaces runtime.GOMAXPROCS (reads only are simulated).
func GOMAXPROCS(n int) int {
	if s == nil {
		return runtime.GOMAXPROCS(n)
	}
	return InitialProcs
}

// NumCPU replaces runtime.NumCPU.
func NumCPU() int {
	if s == nil {
		return runtime.NumCPU()
	}
	return InitialProcs
}

// InitialProcs is GOMAXPROCS as the process started with.
var InitialProcs = runtime.GOMAXPROCS(0)

// SiteNames is set by generated code.
var SiteNames func(i int) string

const (
	siteYield = -1 - iota
	siteChan
	siteSync
	siteAtomic
	siteTime
)

// SiteName renders a site id.
func SiteName(i int) string {
	switch {
	case i == siteYield:
		return "harness"
	case i == siteChan:
		return "chan"
	case i == siteSync:
		return "sync"
	case i == siteAtomic:
		return "atomic"
	case i == siteTime:
		return "time"
	}
	if SiteNames != nil {
		return SiteNames(i)
	}
	return fmt.Sprintf("site%d", i)
}
