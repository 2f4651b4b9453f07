// Package time replaces the standard package under the model checker: the
// clock is virtual.
package time

import (
	"time"

	"gmc/mc"
)

func Now() Time                    { return mc.Now() }
func Since(t Time) Duration        { return Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(Now()) }
func Sleep(d Duration)             { mc.Sleep(d) }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C <-chan time.Time
	r *mc.ChanTimer
}

func NewTimer(d Duration) *Timer {
	r := mc.NewChanTimer(d, 0, nil)
	return &Timer{C: r.C(), r: r}
}

func AfterFunc(d Duration, f func()) *Timer {
	return &Timer{r: mc.NewChanTimer(d, 0, f)}
}

func (t *Timer) Stop() bool            { return t.r.Stop() }
func (t *Timer) Reset(d Duration) bool { return t.r.Reset(d) }

type Ticker struct {
	C <-chan time.Time
	r *mc.ChanTimer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	r := mc.NewChanTimer(d, d, nil)
	return &Ticker{C: r.C(), r: r}
}
func (t *Ticker) Stop()            { t.r.Stop() }
func (t *Ticker) Reset(d Duration) { t.r.Reset(d) }
