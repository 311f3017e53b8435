// Package sync is the simulated stand-in for the standard sync package.
package sync

import (
	"fmt"
	real "sync"
	"unsafe"

	"fsim/simrt"
)

// Locker is sync.Locker.
type Locker = real.Locker

// Mutex is a simulated sync.Mutex.
type Mutex struct{ m real.Mutex }

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(m))
	simrt.Block(func() bool { return !o.Locked }, "Mutex.Lock")
	o.Locked = true
	o.Acquire()
}

func (m *Mutex) TryLock() bool {
	if !simrt.Active() {
		return m.m.TryLock()
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(m))
	if o.Locked {
		return false
	}
	o.Locked = true
	o.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if !simrt.Active() {
		m.m.Unlock()
		return
	}
	o := simrt.Obj(unsafe.Pointer(m))
	if !o.Locked {
		panic(fmt.Errorf("sync: unlock of unlocked mutex"))
	}
	o.Release()
	o.Locked = false
	simrt.SyncPoint()
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct{ m real.RWMutex }

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(m))
	simrt.Block(func() bool { return !o.Locked && o.Readers == 0 }, "RWMutex.Lock")
	o.Locked = true
	o.Acquire()
	o.AcquireR()
}

func (m *RWMutex) TryLock() bool {
	if !simrt.Active() {
		return m.m.TryLock()
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(m))
	if o.Locked || o.Readers > 0 {
		return false
	}
	o.Locked = true
	o.Acquire()
	o.AcquireR()
	return true
}

func (m *RWMutex) Unlock() {
	if !simrt.Active() {
		m.m.Unlock()
		return
	}
	o := simrt.Obj(unsafe.Pointer(m))
	if !o.Locked {
		panic(fmt.Errorf("sync: Unlock of unlocked RWMutex"))
	}
	o.Release()
	o.Locked = false
	simrt.SyncPoint()
}

func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.m.RLock()
		return
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(m))
	simrt.Block(func() bool { return !o.Locked }, "RWMutex.RLock")
	o.Readers++
	o.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	if !simrt.Active() {
		return m.m.TryRLock()
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(m))
	if o.Locked {
		return false
	}
	o.Readers++
	o.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if !simrt.Active() {
		m.m.RUnlock()
		return
	}
	o := simrt.Obj(unsafe.Pointer(m))
	if o.Readers == 0 {
		panic(fmt.Errorf("sync: RUnlock of unlocked RWMutex"))
	}
	o.ReleaseR()
	o.Readers--
	simrt.SyncPoint()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns the read side as a Locker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct{ w real.WaitGroup }

func (w *WaitGroup) Add(n int) {
	if !simrt.Active() {
		w.w.Add(n)
		return
	}
	o := simrt.Obj(unsafe.Pointer(w))
	if n < 0 {
		o.Release()
	}
	o.N += n
	if o.N < 0 {
		panic(fmt.Errorf("sync: negative WaitGroup counter"))
	}
	simrt.SyncPoint()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !simrt.Active() {
		w.w.Wait()
		return
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(w))
	simrt.Block(func() bool { return o.N == 0 }, "WaitGroup.Wait")
	o.Acquire()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(-3, func() {
		defer w.Done()
		f()
	})
}

// Once is a simulated sync.Once. Being done survives across simulations, as it
// does in a process.
type Once struct {
	done bool
	m    Mutex
	r    real.Once
}

func (x *Once) Do(f func()) {
	if !simrt.Active() {
		if x.done {
			return
		}
		x.r.Do(func() {
			defer func() { x.done = true }()
			f()
		})
		return
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(x))
	if x.done {
		o.Acquire()
		return
	}
	x.m.Lock()
	defer x.m.Unlock()
	if !x.done {
		defer func() {
			x.done = true
			o.Release()
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool is a simulated sync.Pool: it may drop items or hand back any of them.
type Pool struct {
	New func() any
	r   real.Pool
}

func (p *Pool) Get() any {
	if !simrt.Active() {
		if x := p.r.Get(); x != nil {
			return x
		}
	} else {
		simrt.SyncPoint()
		o := simrt.Obj(unsafe.Pointer(p))
		if simrt.Rand(8) != 0 {
			if x := o.TakeItem(); x != nil {
				return x
			}
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if !simrt.Active() {
		p.r.Put(x)
		return
	}
	o := simrt.Obj(unsafe.Pointer(p))
	o.PutItem(x)
	simrt.SyncPoint()
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L Locker
	r *real.Cond
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, r: real.NewCond(l)} }

func (c *Cond) Wait() {
	if !simrt.Active() {
		c.r.Wait()
		return
	}
	o := simrt.Obj(unsafe.Pointer(c))
	woke := false
	o.Waiters = append(o.Waiters, &woke)
	c.L.Unlock()
	simrt.Block(func() bool { return woke }, "Cond.Wait")
	o.Acquire()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !simrt.Active() {
		c.r.Signal()
		return
	}
	o := simrt.Obj(unsafe.Pointer(c))
	o.Release()
	if len(o.Waiters) > 0 {
		*o.Waiters[0] = true
		o.Waiters = o.Waiters[1:]
	}
	simrt.SyncPoint()
}

func (c *Cond) Broadcast() {
	if !simrt.Active() {
		c.r.Broadcast()
		return
	}
	o := simrt.Obj(unsafe.Pointer(c))
	o.Release()
	for _, w := range o.Waiters {
		*w = true
	}
	o.Waiters = nil
	simrt.SyncPoint()
}

// Map is a simulated sync.Map. Its content survives across simulations.
type Map struct {
	mu   real.Mutex
	m    map[any]any
	keys []any
}

func (m *Map) sync() func() {
	if !simrt.Active() {
		m.mu.Lock()
		return m.mu.Unlock
	}
	simrt.SyncPoint()
	o := simrt.Obj(unsafe.Pointer(m))
	o.Acquire()
	return func() { o.Release() }
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, has := m.m[k]; !has {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, has := m.m[k]; !has {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	defer m.sync()()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	defer m.sync()()
	m.put(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	defer m.sync()()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	defer m.sync()()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) {
	defer m.sync()()
	m.del(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	defer m.sync()()
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, a, b any) bool {
	defer m.sync()()
	if x, ok := m.m[k]; ok && x == a {
		m.m[k] = b
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, a any) bool {
	defer m.sync()()
	if x, ok := m.m[k]; ok && x == a {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	keys := append([]any(nil), m.keys...)
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	defer m.sync()()
	m.m, m.keys = nil, nil
}
