package main

import (
	"errors"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	"fsim/simrt"
)

// Fault makes the N-th call of callback kind Cb fail in mode Mode.
type Fault struct {
	Cb   int    `json:"cb"`
	N    int    `json:"n"`
	Mode string `json:"mode"` // panic, error, string, goexit
}

// Op is one step of a client program. Its result goes to register ID.
type Op struct {
	ID int    `json:"id"`
	K  string `json:"k"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	C  int    `json:"c,omitempty"`
	X  []int  `json:"x,omitempty"`
	N  int    `json:"n,omitempty"`
	P  int    `json:"p,omitempty"`
	F  *Fault `json:"f,omitempty"`
	Re int    `json:"re,omitempty"`
	// Rep repeats the operation (failing, with a fault plan) so often first.
	Rep int `json:"rep,omitempty"`
}

func (o *Op) String() string {
	s := fmt.Sprintf("r%d=%s(a=r%d b=r%d c=r%d x=%v n=%d p=%d", o.ID, o.K, o.A, o.B, o.C, o.X, o.N, o.P)
	if o.Re != 0 {
		s += fmt.Sprintf(" re=%d", o.Re)
	}
	if o.Rep != 0 {
		s += fmt.Sprintf(" rep=%d", o.Rep)
	}
	if o.F != nil {
		s += fmt.Sprintf(" fault=%s#%d:%s", cbNames[o.F.Cb], o.F.N, o.F.Mode)
	}
	return s + ")"
}

// Program is everything one simulated execution does, except its schedule.
type Program struct {
	Prop     string `json:"prop"`
	Mach     string `json:"mach"` // set, int, lazy, rel
	Dom      string `json:"dom"`
	U        int    `json:"u"`
	HashMode string `json:"hash"`
	HashSeed uint64 `json:"hashseed"`
	Seed     uint64 `json:"seed"`
	Setup    []Op   `json:"setup"`
	Clients  [][]Op `json:"clients"`
	Mem      bool   `json:"mem"`   // memory hooks (and race detection) on
	Cap      uint64 `json:"cap"`   // step cap
	Final    bool   `json:"final"` // pairwise equality/hash checks at the end
}

func (p *Program) ops() int {
	n := len(p.Setup)
	for _, c := range p.Clients {
		n += len(c)
	}
	return n
}

// viol is something a run found wrong.
type viol struct {
	Classes []string `json:"classes"`
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	Op      int      `json:"op"`
}

func (v *viol) has(prop string) bool {
	for _, c := range v.Classes {
		if c == prop {
			return true
		}
	}
	return false
}

const (
	cbPred = iota
	cbResolve
	cbReduce
	cbMap
	cbGroup
	cbLess
	cbElse
	cbEq
	cbHash
	cbEncode
	ncb
)

var cbNames = [ncb]string{"predicate", "resolver", "reducer", "mapper", "grouping", "ordering", "default", "equal", "hash", "encode"}

// opCtx is one operation in progress; library workers inherit it.
type opCtx struct {
	r        *run
	op       *Op
	task     *simrt.Task
	calls    [ncb]int
	fault    *Fault
	fired    bool
	after    bool // repeats an operation that failed
	fval     any
	ended    bool
	quiet    bool // observation by the harness
	inflight int
	pre      uint64
	parent   *opCtx
	checkOne bool // serial mode: callbacks one at a time on the caller
}

type faultVal struct{ Op int }

var errFault = errors.New("injected callback failure")

func curCtx() *opCtx {
	t := simrt.Cur()
	if t == nil {
		return nil
	}
	x, _ := t.Ctx.(*opCtx)
	return x
}

// enter notes a callback invocation and injects the planned failure.
func enter(kind int) *opCtx {
	x := curCtx()
	if x == nil {
		return nil
	}
	x.calls[kind]++
	if kind < cbEq {
		if x.ended {
			x.r.fail("C06", "late:"+x.op.K, x.op, "%s called after the operation had returned", cbNames[kind])
		}
		if x.checkOne {
			if simrt.Cur() != x.task {
				x.r.fail("C06", "offtask:"+x.op.K, x.op, "concurrency is off, but the %s runs on another goroutine than the caller's", cbNames[kind])
			}
			if x.inflight > 0 && kind != cbLess {
				x.r.fail("C06", "overlap:"+x.op.K, x.op, "concurrency is off, but two callbacks overlap")
			}
		}
		x.inflight++
		simrt.Yield()
	}
	if f := x.fault; f != nil && f.Cb == kind && x.calls[kind] == f.N {
		x.fired = true
		x.fault = nil
		if kind < cbEq {
			x.inflight--
		}
		x.r.fired++
		x.r.stats.faults[cbNames[kind]+":"+f.Mode]++
		if simrt.Cur() != x.task {
			x.r.stats.faults["on-worker"]++
		}
		switch f.Mode {
		case "goexit":
			runtime.Goexit()
		case "error":
			x.fval = errFault
		case "string":
			x.fval = fmt.Sprintf("injected failure %d", x.op.ID)
		default:
			x.fval = &faultVal{x.op.ID}
		}
		panic(x.fval)
	}
	return x
}

func leave(kind int, x *opCtx) {
	if x == nil || kind >= cbEq {
		return
	}
	x.inflight--
}

// cbPlain is a call of element code (equality or hash).
func cbPlain(kind int) { enter(kind) }

// nest runs f (library calls made by a callback) as an operation of its own.
func (x *opCtx) nest(f func()) {
	t := simrt.Cur()
	old := t.Ctx
	t.Ctx = &opCtx{r: x.r, op: x.op, task: t, quiet: true, parent: x}
	defer func() { t.Ctx = old }()
	simrt.Progress()
	f()
}

type reg struct {
	id     int
	val    any
	vc     []uint32
	done   bool
	client int
}

type client struct {
	id      int
	r       *run
	slots   map[int]any
	noRetry bool // the operation is not repeated after an injected failure
	failed  bool // ... and this says that it failed
}

// once runs a stateful step: after an injected failure it is not repeated.
func (c *client) once(op *Op, cls string, f func()) (ok, failed bool) {
	c.noRetry, c.failed = true, false
	ok = c.do(op, cls, f)
	failed = c.failed
	c.noRetry, c.failed = false, false
	return
}

// machine executes operations of one family of values.
type machine interface {
	exec(c *client, op *Op)
	recheck(c *client, rg *reg, cls string, why string, op *Op)
	final(c *client)
}

type run struct {
	p     *Program
	mach  machine
	regs  map[int]*reg
	order []int
	viols []viol
	seen  map[string]bool
	cur   map[int]*opCtx
	owner map[int]string
	stats *stats
	rng   *simrt.Rng
	curOp map[int]*Op
	fired int
}

func (r *run) fail(classes, key string, op *Op, format string, a ...any) {
	if r.seen[classes+key] || len(r.viols) > 40 {
		return
	}
	r.seen[classes+key] = true
	msg := fmt.Sprintf(format, a...)
	id := -1
	if op != nil {
		id = op.ID
		msg = op.String() + ": " + msg
	}
	r.viols = append(r.viols, viol{strings.Split(classes, ","), key, msg, id})
}

// outcome of one attempt at an operation.
type outcome struct {
	kind  string // normal, panic, goexit
	val   any
	stack string
}

func attempt(f func()) (o outcome) {
	simrt.Progress()
	o.kind = "goexit"
	defer func() {
		if o.kind == "goexit" {
			if v := recover(); v != nil {
				o = outcome{"panic", v, stackOf()}
			}
		}
	}()
	f()
	o.kind = "normal"
	return
}

func stackOf() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.LastIndex(l, "/frozen"); i >= 0 && strings.Contains(l, ".go:") {
			if j := strings.IndexByte(l, ' '); j > 0 {
				l = l[:j]
			}
			if j := strings.LastIndexByte(l[:strings.LastIndexByte(l, '/')], '/'); j >= 0 {
				l = l[j+1:]
			}
			out = append(out, l)
			if len(out) == 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// do runs one operation f of the library under the op's fault plan. cls is
// the owner of the operation. It reports whether f completed normally.
func (c *client) do(op *Op, cls string, f func()) bool {
	r := c.r
	r.curOp[c.id] = op
	r.owner[c.id] = cls
	t := simrt.Cur()
	old := t.Ctx
	x := &opCtx{r: r, op: op, task: t, checkOne: cfgSerial}
	r.cur[c.id] = x
	defer func() {
		t.Ctx = old
		delete(r.cur, c.id)
		delete(r.curOp, c.id)
	}()
	r.stats.ops[op.K]++
	setOpStatus(op, cls)
	reps := op.Rep
	if c.noRetry {
		reps = 0
	}
	if op.F != nil {
		for k := 0; ; k++ {
			x.fault = op.F
			var o outcome
			simrt.Progress()
			sub := simrt.Spawn("op", func() {
				x.task = simrt.Cur()
				done := false
				defer func() {
					if !done {
						if v := recover(); v != nil {
							o = outcome{"panic", v, stackOf()}
						} else {
							o = outcome{kind: "goexit"}
						}
					}
				}()
				f()
				done = true
				o = outcome{kind: "normal"}
			})
			sub.Ctx = x
			simrt.Join(sub)
			x.ended = true
			x.fault = nil
			if !x.fired {
				r.stats.faultsUnfired++
				if o.kind != "normal" {
					r.fail(cls, "panic:"+op.K, op, "unexpected %s %v at %s", o.kind, o.val, o.stack)
					return false
				}
				return true
			}
			r.checkFault(c, op, x, o)
			if c.noRetry {
				c.failed = true
				return false
			}
			// Repeat, in the end without the failure.
			x = &opCtx{r: r, op: op, task: t, checkOne: cfgSerial}
			x.after = true
			r.cur[c.id] = x
			if k >= reps {
				break
			}
		}
		cls += ",C05"
	} else {
		for ; reps > 0; reps-- {
			t.Ctx = x
			o := attempt(f)
			x.ended = true
			if o.kind != "normal" {
				r.fail(cls, "panic:"+op.K, op, "unexpected %s %v at %s", o.kind, o.val, o.stack)
				return false
			}
			x = &opCtx{r: r, op: op, task: t, checkOne: cfgSerial}
			r.cur[c.id] = x
		}
	}
	t.Ctx = x
	o := attempt(f)
	x.ended = true
	if o.kind != "normal" {
		r.fail(cls, "panic:"+op.K, op, "unexpected %s %v at %s", o.kind, o.val, o.stack)
		return false
	}
	if x.inflight != 0 {
		r.fail("C06", "running:"+op.K, op, "%d callback(s) still running after the operation returned", x.inflight)
	}
	return true
}

// checkFault judges how an operation whose callback failed ended.
func (r *run) checkFault(c *client, op *Op, x *opCtx, o outcome) {
	f := op.F
	cls := "C05"
	if strings.HasPrefix(op.K, "b.") || strings.HasPrefix(op.K, "mb.") {
		cls = "C05,C07"
	}
	what := fmt.Sprintf("%s failed (%s) at call %d", cbNames[f.Cb], f.Mode, f.N)
	switch {
	case f.Mode == "goexit":
		if o.kind != "goexit" {
			r.fail(cls, "fault:"+op.K, op, "%s, but the operation ended with %s %v instead of the goroutine exit", what, o.kind, o.val)
		}
	case o.kind != "panic":
		r.fail(cls, "fault:"+op.K, op, "%s, but the operation ended with %s", what, o.kind)
	case o.val != x.fval:
		r.fail(cls, "faultval:"+op.K, op, "%s with %T %v, but the caller saw %T %v", what, x.fval, x.fval, o.val, o.val)
	}
	for _, id := range []int{op.A, op.B, op.C} {
		if rg := r.regs[id]; rg != nil && rg.done && id != 0 {
			c.get(id)
			r.mach.recheck(c, rg, "C05,C01", "after the failed operation", op)
		}
	}
}

// quiet runs harness observations, attributing a panic to cls.
func (c *client) quiet(op *Op, cls, key string, f func()) bool {
	t := simrt.Cur()
	old := t.Ctx
	t.Ctx = &opCtx{r: c.r, op: op, task: t, quiet: true}
	oldOp, oldOwner := c.r.curOp[c.id], c.r.owner[c.id]
	c.r.curOp[c.id], c.r.owner[c.id] = op, cls
	defer func() { t.Ctx = old; c.r.curOp[c.id], c.r.owner[c.id] = oldOp, oldOwner }()
	o := attempt(f)
	if o.kind != "normal" {
		c.r.fail(cls, "obspanic:"+key, op, "observing the result: %s %v at %s", o.kind, o.val, o.stack)
		return false
	}
	return true
}

// get reads a register, waiting until its writer has published it.
func (c *client) get(id int) any {
	rg := c.r.regs[id]
	if rg == nil {
		return nil
	}
	if rg.client != c.id {
		if !rg.done {
			simrt.WaitUntil(func() bool { return rg.done }, "register")
		}
		simrt.Observe(rg.vc)
	}
	return rg.val
}

func (c *client) put(id int, v any) {
	rg := c.r.regs[id]
	if rg == nil {
		return
	}
	rg.val = v
}

func (c *client) publish(id int) {
	rg := c.r.regs[id]
	if rg == nil || rg.done {
		return
	}
	rg.vc = simrt.Publish()
	rg.done = true
	if rg.val != nil {
		c.r.order = append(c.r.order, id)
	}
}

func (c *client) runOps(ops []Op) {
	for i := range ops {
		op := &ops[i]
		simrt.Yield()
		c.r.mach.exec(c, op)
		c.publish(op.ID)
	}
}

// execute performs one simulated execution of p.
func execute(p *Program, cfg simrt.Config, st *stats) (*run, *simrt.Result) {
	setHashSeeds(p.HashSeed)
	env = runEnv{u: p.U, hashTab: hashTable(p.HashMode, p.HashSeed, p.U+600)}
	r := &run{
		p: p, regs: map[int]*reg{}, seen: map[string]bool{}, cur: map[int]*opCtx{},
		owner: map[int]string{}, curOp: map[int]*Op{}, stats: st, rng: simrt.NewRng(p.Seed, 7),
	}
	r.mach = newMachine(r)
	if m, ok := r.mach.(interface{ prepare() }); ok {
		attempt(m.prepare)
	}
	add := func(cl int, ops []Op) {
		for i := range ops {
			r.regs[ops[i].ID] = &reg{id: ops[i].ID, client: cl}
		}
	}
	add(-1, p.Setup)
	for i, ops := range p.Clients {
		add(i, ops)
	}
	cfg.MemHooks = p.Mem
	cfg.Races = p.Mem
	cfg.StepCap = p.Cap
	res := simrt.Run(cfg, func() {
		main := &client{id: -1, r: r, slots: map[int]any{}}
		main.runOps(p.Setup)
		var ts []*simrt.Task
		for i, ops := range p.Clients {
			cl := &client{id: i, r: r, slots: map[int]any{}}
			ops := ops
			ts = append(ts, simrt.Spawn(fmt.Sprintf("client%d", i), func() { cl.runOps(ops) }))
		}
		for _, t := range ts {
			simrt.Join(t)
		}
		// Everything ever produced is read again.
		for _, id := range append([]int(nil), r.order...) {
			if rg := r.regs[id]; rg.val != nil {
				r.mach.recheck(main, rg, "C01", "at the end", nil)
			}
		}
		if p.Final {
			r.mach.final(main)
		}
	})
	for _, v := range res.Violations {
		r.simViolation(v)
	}
	return r, res
}

// simViolation attributes a violation seen by the simulator itself.
func (r *run) simViolation(v simrt.Violation) {
	var owners []string
	fired := false
	var ops []string
	for c := -1; c < len(r.p.Clients); c++ {
		if op := r.curOp[c]; op != nil {
			owners = append(owners, strings.Split(r.owner[c], ",")...)
			ops = append(ops, op.String())
		}
		if x := r.cur[c]; x != nil && (x.fired || x.after) {
			fired = true
		}
	}
	cls := map[string]bool{}
	switch v.Class {
	case "race":
		cls["C03"] = true
	case "leak":
		cls["C09"] = true
	case "deadlock", "steps":
		cls["C09"] = true
		for _, o := range owners {
			cls[o] = true
		}
		if fired {
			cls["C05"] = true
		}
	case "crash":
		if fired {
			cls["C05"] = true
		}
		cls["C09"] = true
		for _, o := range owners {
			cls[o] = true
		}
	}
	var list []string
	for i := 1; i <= 16; i++ {
		if c := fmt.Sprintf("C%02d", i); cls[c] {
			list = append(list, c)
		}
	}
	key := v.Class
	if v.Class == "race" {
		key = "race"
	}
	msg := v.Class + ": " + v.Msg
	if len(ops) > 0 {
		msg += " [in progress: " + strings.Join(ops, "; ") + "]"
	}
	r.viols = append(r.viols, viol{list, key, msg, -1})
}

type stats struct {
	ops           map[string]int
	faults        map[string]int
	faultsUnfired int
	obs           int
}

func newStats() *stats { return &stats{ops: map[string]int{}, faults: map[string]int{}} }

// setOpStatus notes the operation in progress where the driver finds it if
// this process dies.
func setOpStatus(op *Op, cls string) {
	if status == nil {
		return
	}
	f := "0"
	if op.F != nil {
		f = "1"
	}
	n := 512
	for _, s := range []string{op.K, " ", cls, " ", f, "\n"} {
		n += copy(status[n:], s)
	}
}
