// Package vtime replaces package time in the checked program: the clock is
// virtual and only moves when the explorer lets it.
package vtime

import (
	"time"

	"vmc/vs"
)

func Now() time.Time                  { return vs.Now() }
func Since(t time.Time) time.Duration { return vs.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(vs.Now()) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if !vs.Active() {
		return
	}
	if d <= 0 {
		vs.Yield()
		return
	}
	ch := make(chan time.Time, 1)
	vs.NewChanTimer(ch, d, 0)
	vs.Recv(ch)
}

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	v *vs.VTimer
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	return &Timer{C: ch, v: vs.NewChanTimer(ch, d, 0)}
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{v: vs.NewFuncTimer(d, false, f)}
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.v == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.v.Stop()
}
func (t *Timer) Reset(d time.Duration) bool {
	if t.v == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	return t.v.Reset(d, 0)
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	v *vs.VTimer
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	return &Ticker{C: ch, v: vs.NewChanTimer(ch, d, d)}
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	if t.v == nil {
		return
	}
	t.v.Stop()
}
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.v == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	t.v.Reset(d, d)
}
