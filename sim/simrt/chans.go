package simrt

import (
	"fmt"
	"unsafe"
)

// schan is the simulated state behind a real channel value.
type schan struct {
	cap    int
	buf    []item
	recvq  []*waiter // blocked receivers (unbuffered rendezvous and selects)
	sendq  []*waiter // blocked senders on an unbuffered channel
	closed bool
	cvc    vclock   // clock of close
	rvc    []vclock // clock of the n-th receive (buffered)
	nsend  int
	keep   any
}

type item struct {
	v  any
	vc vclock
}

type waiter struct {
	t     *Task
	fired *bool
	idx   *int
	my    int
	v     any
	ok    bool
	vc    vclock
}

func chanPtr(ch any) unsafe.Pointer {
	type iface struct{ typ, data unsafe.Pointer }
	return (*iface)(unsafe.Pointer(&ch)).data
}

func shadowChan[T any](ch <-chan T) *schan {
	p := chanPtr(ch)
	c := s.chans[p]
	if c == nil {
		c = &schan{cap: cap(ch), keep: ch}
		// Whatever was put in before the simulation started.
		for len(ch) > 0 {
			c.buf = append(c.buf, item{v: <-ch})
		}
		s.chans[p] = c
	}
	return c
}

func (q *waiter) live() bool { return !*q.fired }

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter, not *Task) bool {
	for _, w := range q {
		if w.live() && w.t != not {
			return true
		}
	}
	return false
}

// trySend performs a send if it can complete now.
func (c *schan) trySend(v any) bool {
	if c.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	t := s.cur
	if w := popLive(&c.recvq); w != nil && len(c.buf) == 0 {
		*w.fired = true
		*w.idx = w.my
		w.v, w.ok = v, true
		w.vc = append(vclock(nil), t.vc...)
		if c.cap == 0 {
			t.vc.join(w.t.vc)
		} else {
			c.joinSlot(t)
			w.vc = append(w.vc[:0], t.vc...)
			c.rvc = append(c.rvc, append(vclock(nil), w.t.vc...))
		}
		w.t.tickClock()
		t.tickClock()
		return true
	} else if w != nil {
		c.recvq = append([]*waiter{w}, c.recvq...)
	}
	if len(c.buf) < c.cap {
		c.joinSlot(t)
		c.buf = append(c.buf, item{v, append(vclock(nil), t.vc...)})
		t.tickClock()
		return true
	}
	return false
}

// joinSlot: the n-th receive happens before send n+cap completes.
func (c *schan) joinSlot(t *Task) {
	if n := c.nsend - c.cap; n >= 0 && n < len(c.rvc) {
		t.vc.join(c.rvc[n])
	}
	c.nsend++
}

// tryRecv performs a receive if it can complete now.
func (c *schan) tryRecv() (v any, ok, done bool) {
	t := s.cur
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		t.vc.join(it.vc)
		if c.cap > 0 {
			c.rvc = append(c.rvc, append(vclock(nil), t.vc...))
			t.tickClock()
		}
		return it.v, true, true
	}
	if w := popLive(&c.sendq); w != nil {
		*w.fired = true
		*w.idx = w.my
		t.vc.join(w.t.vc)
		w.t.tickClock()
		w.vc = append(vclock(nil), t.vc...)
		t.tickClock()
		return w.v, true, true
	}
	if c.closed {
		t.vc.join(c.cvc)
		return nil, false, true
	}
	return nil, false, false
}

func (c *schan) sendReady(t *Task) bool {
	return c.closed || len(c.buf) < c.cap || hasLive(c.recvq, t)
}

func (c *schan) recvReady(t *Task) bool {
	return c.closed || len(c.buf) > 0 || hasLive(c.sendq, t)
}

// SendTo is a channel about to be sent to.
type SendTo[T any] struct{ ch chan<- T }

// S names the channel of a send statement.
func S[T any](ch chan<- T) SendTo[T] { return SendTo[T]{ch} }

func bidi[T any](ch chan<- T) <-chan T { return *(*<-chan T)(unsafe.Pointer(&ch)) }

// Send sends v.
func (x SendTo[T]) Send(v T) {
	if s == nil {
		x.ch <- v
		return
	}
	syncPoint(siteChan)
	if x.ch == nil {
		waitUntil(func() bool { return false }, "send on nil channel", siteChan)
	}
	c := shadowChan(bidi(x.ch))
	blockSend(c, v)
}

func blockSend(c *schan, v any) {
	if c.cap > 0 {
		t := s.cur
		waitUntil(func() bool { return c.sendReady(t) }, "channel send", siteChan)
		if !c.trySend(v) {
			panic("simrt: send not possible")
		}
		return
	}
	if c.trySend(v) {
		return
	}
	fired, idx := false, 0
	w := &waiter{t: s.cur, fired: &fired, idx: &idx, v: v}
	c.sendq = append(c.sendq, w)
	waitUntil(func() bool { return fired || c.closed }, "channel send", siteChan)
	if !fired {
		fired = true
		panic(fmt.Errorf("send on closed channel"))
	}
	s.cur.vc.join(w.vc)
}

// Recv receives a value.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives a value and whether it was sent.
func Recv2[T any](ch <-chan T) (T, bool) {
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	syncPoint(siteChan)
	if ch == nil {
		waitUntil(func() bool { return false }, "receive from nil channel", siteChan)
	}
	c := shadowChan(ch)
	v, ok, done := c.tryRecv()
	if !done {
		fired, idx := false, 0
		w := &waiter{t: s.cur, fired: &fired, idx: &idx}
		c.recvq = append(c.recvq, w)
		waitUntil(func() bool { return fired || c.closed || len(c.buf) > 0 }, "channel receive", siteChan)
		if fired {
			s.cur.vc.join(w.vc)
			v, ok = w.v, w.ok
		} else {
			fired = true
			v, ok, _ = c.tryRecv()
		}
	}
	if v == nil {
		var zero T
		return zero, ok
	}
	return v.(T), ok
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	if s == nil {
		close(ch)
		return
	}
	syncPoint(siteChan)
	if ch == nil {
		panic(fmt.Errorf("close of nil channel"))
	}
	c := shadowChan(bidi(ch))
	if c.closed {
		panic(fmt.Errorf("close of closed channel"))
	}
	c.closed = true
	c.cvc = append(vclock(nil), s.cur.vc...)
	s.cur.tickClock()
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if s == nil {
		return len(ch)
	}
	syncPoint(siteChan)
	if ch == nil {
		return 0
	}
	return len(shadowChan(ch).buf)
}

// Case is one case of a select statement.
type Case struct {
	c    *schan
	send bool
	v    any
	real any
}

// Sel is the outcome of a select statement.
type Sel struct {
	I  int
	v  any
	ok bool
}

// SendC is a send case.
func (x SendTo[T]) Case(v T) Case {
	if s == nil {
		return Case{send: true, v: v, real: x.ch}
	}
	if x.ch == nil {
		return Case{send: true}
	}
	return Case{c: shadowChan(bidi(x.ch)), send: true, v: v}
}

// RecvFrom is a channel to receive from.
type RecvFrom[T any] struct{ ch <-chan T }

// F names the channel of a receive case.
func F[T any](ch <-chan T) RecvFrom[T] { return RecvFrom[T]{ch} }

// Case is a receive case.
func (x RecvFrom[T]) Case() Case {
	if s == nil {
		return Case{real: x.ch}
	}
	if x.ch == nil {
		return Case{}
	}
	return Case{c: shadowChan(x.ch)}
}

// Get returns the received value of the chosen case.
func (x RecvFrom[T]) Get(r Sel) (T, bool) {
	if r.v == nil {
		var zero T
		return zero, r.ok
	}
	return r.v.(T), r.ok
}

// Select runs a select statement; -1 is the default case.
func Select(hasDefault bool, cases ...Case) Sel {
	if s == nil {
		return realSelect(hasDefault, cases)
	}
	syncPoint(siteChan)
	t := s.cur
	poll := func() []int {
		var r []int
		for i, k := range cases {
			if k.c != nil && (k.send && k.c.sendReady(t) || !k.send && k.c.recvReady(t)) {
				r = append(r, i)
			}
		}
		return r
	}
	run := func(i int) Sel {
		k := cases[i]
		if k.send {
			if !k.c.trySend(k.v) {
				panic("simrt: select send not possible")
			}
			return Sel{I: i}
		}
		v, ok, _ := k.c.tryRecv()
		return Sel{i, v, ok}
	}
	if r := poll(); len(r) > 0 {
		return run(r[s.mapRng.N(len(r))])
	}
	if hasDefault {
		return Sel{I: -1}
	}
	fired, idx := false, -1
	ws := make([]*waiter, len(cases))
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		w := &waiter{t: t, fired: &fired, idx: &idx, my: i, v: k.v}
		ws[i] = w
		if k.send {
			if k.c.cap == 0 {
				k.c.sendq = append(k.c.sendq, w)
			}
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	waitUntil(func() bool { return fired || len(poll()) > 0 }, "select", siteChan)
	if fired {
		w := ws[idx]
		t.vc.join(w.vc)
		return Sel{idx, w.v, w.ok}
	}
	fired = true
	r := poll()
	return run(r[s.mapRng.N(len(r))])
}
