// Package time replaces the standard package in the rewritten code: inside
// executions the clock is virtual.
package time

import (
	std "time"

	"verif/vsched"
)

type Timer struct {
	C    <-chan std.Time
	c    chan std.Time
	v    *vsched.Timer
	real *std.Timer
}

func Now() std.Time { return vsched.Now() }

func Since(t std.Time) std.Duration { return vsched.Now().Sub(t) }
func Until(t std.Time) std.Duration { return t.Sub(vsched.Now()) }

func Sleep(d std.Duration) { vsched.Sleep(d) }

func fire(c chan std.Time) func() {
	return func() {
		select {
		case c <- vsched.PeekNow():
		default:
		}
	}
}

func NewTimer(d std.Duration) *Timer {
	if !vsched.Active() {
		t := std.NewTimer(d)
		return &Timer{C: t.C, real: t}
	}
	t := &Timer{c: make(chan std.Time, 1)}
	t.C = t.c
	t.v = vsched.NewTimer(d, 0, fire(t.c))
	return t
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	vsched.Point("timer.stop")
	return t.v.Stop()
}

func (t *Timer) Reset(d std.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	vsched.Point("timer.reset")
	return t.v.Reset(d)
}

func After(d std.Duration) <-chan std.Time { return NewTimer(d).C }

func AfterFunc(d std.Duration, f func()) *Timer {
	if !vsched.Active() {
		t := std.AfterFunc(d, f)
		return &Timer{real: t}
	}
	return &Timer{v: vsched.NewTimerThread(d, f)}
}

type Ticker struct {
	C    <-chan std.Time
	v    *vsched.Timer
	real *std.Ticker
}

func NewTicker(d std.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vsched.Active() {
		t := std.NewTicker(d)
		return &Ticker{C: t.C, real: t}
	}
	c := make(chan std.Time, 1)
	return &Ticker{C: c, v: vsched.NewTimer(d, d, fire(c))}
}

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.v.Stop()
}

func (t *Ticker) Reset(d std.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.v.SetPeriod(d)
	t.v.Reset(d)
}

func Tick(d std.Duration) <-chan std.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
