// Package simtime replaces the parts of package time that read or wait for the
// clock.
package simtime

import (
	"time"

	"gxsim/simrt"
)

// Now reads the simulated wall clock.
func Now() time.Time {
	simrt.YS()
	return time.Unix(0, simrt.WallNs()).UTC()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Sleep(d) }

// Timer is a simulated time.Timer.
type Timer struct {
	C <-chan time.Time
	t *simrt.Timer
}

func NewTimer(d time.Duration) *Timer {
	x := simrt.NewChanTimer()
	x.Arm(int64(d), 0)
	return &Timer{C: x.C, t: x}
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	x := &simrt.Timer{F: f}
	x.Arm(int64(d), 0)
	return &Timer{t: x}
}

func (t *Timer) Stop() bool                 { return t.t.Disarm() }
func (t *Timer) Reset(d time.Duration) bool { return t.t.Arm(int64(d), 0) }

// Ticker is a simulated time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *simrt.Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	x := simrt.NewChanTimer()
	x.Arm(int64(d), int64(d))
	return &Ticker{C: x.C, t: x}
}

func (t *Ticker) Stop()                 { t.t.Disarm() }
func (t *Ticker) Reset(d time.Duration) { t.t.Arm(int64(d), int64(d)) }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
