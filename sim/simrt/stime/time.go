// Package stime holds the simulated versions of the time functions that read
// the clock or wait.
package stime

import (
	"time"

	"fsim/simrt"
)

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time {
	if !simrt.Active() {
		return time.Now()
	}
	return epoch.Add(time.Duration(simrt.Now()))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !simrt.Active() {
		time.Sleep(d)
		return
	}
	simrt.Sleep(int64(d))
}

// Timer is a simulated time.Timer.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	r    *time.Timer
	stop func() bool
}

func NewTimer(d time.Duration) *Timer {
	if !simrt.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	t.stop = simrt.AfterSim(int64(d), func() {
		if t.f != nil {
			simrt.SpawnFromTimer(t.f)
			return
		}
		simrt.Inject(t.c, Now())
	})
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if !simrt.Active() {
		return &Timer{r: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	return t.stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	was := t.stop()
	t.arm(d)
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
