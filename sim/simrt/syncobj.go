package simrt

import "unsafe"

// sobj is per-run simulated state of a synchronisation object, found by
// address so that a zero value works and nothing leaks between runs.
type sobj struct {
	Locked  bool
	Readers int
	N       int
	VC      vclock
	RVC     vclock
	Items   []any
	ItemVC  []vclock
	keep    unsafe.Pointer
	Waiters []*bool
}

// Obj returns the simulated state for a synchronisation object.
func Obj(p unsafe.Pointer) *sobj {
	o := s.objs[p]
	if o == nil {
		o = &sobj{keep: p}
		s.objs[p] = o
	}
	return o
}

// SyncPoint is a scheduling point before a synchronisation operation.
func SyncPoint() { syncPoint(siteSync) }

// Block waits for cond.
func Block(cond func() bool, why string) { waitUntil(cond, why, siteSync) }

// Acquire makes what was released into vc happen before now.
func (o *sobj) Acquire() { s.cur.vc.join(o.VC) }

// Release makes everything so far happen before later acquires.
func (o *sobj) Release() {
	o.VC.join(s.cur.vc)
	s.cur.tickClock()
}

// AcquireR and ReleaseR use the readers' clock.
func (o *sobj) AcquireR() { s.cur.vc.join(o.RVC) }

// ReleaseR releases into the readers' clock.
func (o *sobj) ReleaseR() {
	o.RVC.join(s.cur.vc)
	s.cur.tickClock()
}

// PutItem stores an item with the current clock.
func (o *sobj) PutItem(x any) {
	o.Items = append(o.Items, x)
	o.ItemVC = append(o.ItemVC, append(vclock(nil), s.cur.vc...))
	s.cur.tickClock()
}

// TakeItem removes the item most recently put, or nil.
func (o *sobj) TakeItem() any {
	n := len(o.Items)
	if n == 0 {
		return nil
	}
	x := o.Items[n-1]
	s.cur.vc.join(o.ItemVC[n-1])
	o.Items, o.ItemVC = o.Items[:n-1], o.ItemVC[:n-1]
	return x
}

// Rand gives simulated nondeterminism to shims.
func Rand(n int) int { return s.mapRng.N(n) }

// AtomicLoad notes an atomic load and returns after the acquire.
func AtomicLoad(p unsafe.Pointer, size uintptr) {
	if s == nil {
		return
	}
	syncPoint(siteAtomic)
	if memOn {
		access(p, size, siteAtomic, false, true)
	}
	Obj(p).Acquire()
}

// AtomicStore notes an atomic store.
func AtomicStore(p unsafe.Pointer, size uintptr) {
	if s == nil {
		return
	}
	syncPoint(siteAtomic)
	if memOn {
		access(p, size, siteAtomic, true, true)
	}
	o := Obj(p)
	o.VC = append(o.VC[:0], s.cur.vc...)
	s.cur.tickClock()
}

// AtomicRMW notes an atomic read-modify-write.
func AtomicRMW(p unsafe.Pointer, size uintptr) {
	if s == nil {
		return
	}
	syncPoint(siteAtomic)
	if memOn {
		access(p, size, siteAtomic, true, true)
	}
	o := Obj(p)
	o.Acquire()
	o.Release()
}

type simTimer struct {
	at  int64
	seq int
	fn  func()
}

// After runs fn (as a scheduler action, with no task running) at now+d.
func after(d int64, fn func()) *simTimer {
	if d < 0 {
		d = 0
	}
	t := &simTimer{at: s.now + d, seq: len(s.timers), fn: fn}
	s.timers = append(s.timers, t)
	return t
}

// fireTimer advances the simulated clock to the next timer.
func (sm *sim) fireTimer() bool {
	best := -1
	for i, t := range sm.timers {
		if best < 0 || t.at < sm.timers[best].at || t.at == sm.timers[best].at && t.seq < sm.timers[best].seq {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	t := sm.timers[best]
	sm.timers = append(sm.timers[:best], sm.timers[best+1:]...)
	if t.at > sm.now {
		sm.now = t.at
	}
	t.fn()
	return true
}

// Now is the simulated clock in nanoseconds.
func Now() int64 { return s.now + int64(steps) }

// Sleep suspends the current task in simulated time.
func Sleep(d int64) {
	syncPoint(siteTime)
	woke := false
	after(d, func() { woke = true })
	waitUntil(func() bool { return woke }, "sleep", siteTime)
}

// AfterSim schedules fn; stop cancels it and reports whether it was pending.
func AfterSim(d int64, fn func()) (stop func() bool) {
	t := after(d, fn)
	return func() bool {
		for i, x := range s.timers {
			if x == t {
				s.timers = append(s.timers[:i], s.timers[i+1:]...)
				return true
			}
		}
		return false
	}
}

// Inject puts a value into a channel from a timer, dropping it when full.
func Inject[T any](ch chan T, v T) {
	c := shadowChan(ch)
	if w := popLive(&c.recvq); w != nil {
		*w.fired = true
		*w.idx = w.my
		w.v, w.ok = v, true
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, item{v: v})
	}
}

// SpawnFromTimer starts a library task from a timer.
func SpawnFromTimer(fn func()) {
	t := s.newTask(fn, s.cur, "timer")
	t.Lib = true
}
