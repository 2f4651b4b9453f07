// Package context replaces the standard package under the model checker.
package context

import (
	"context"
	"fmt"
	"time"

	"gmc/mc"
)

type cancelCtx struct {
	parent   context.Context
	vis      mc.VisOp
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	deadline time.Time
	hasDL    bool
	timer    *mc.Timer
	after    []*afterEnt
}

type afterEnt struct {
	f       func()
	stopped bool
}

type ctxKey struct{}

var cancelKey = &ctxKey{}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	if !mc.Aborting() {
		c.vis.Do("ctx.Err")
	}
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if k == any(cancelKey) {
		return c
	}
	return c.parent.Value(k)
}
func (c *cancelCtx) String() string { return fmt.Sprintf("%v.WithCancel", c.parent) }

// cancelLocked cancels the subtree; it runs inside one visible operation (or
// in scheduler context).
func (c *cancelCtx) cancelLocked(err, cause error, inThread bool) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if inThread {
		c.vis.Touch()
		mc.StopClock(c.timer)
	}
	mc.CloseNow(c.done)
	for _, a := range c.after {
		if !a.stopped {
			a.stopped = true
			mc.SpawnEngine("context.AfterFunc", a.f, nil, false)
		}
	}
	for _, k := range c.children {
		k.cancelLocked(err, cause, inThread)
	}
}

func (c *cancelCtx) cancel(err, cause error) {
	if mc.Aborting() {
		return
	}
	c.vis.Do("context cancel")
	c.cancelLocked(err, cause, true)
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if parent.Done() == nil {
		return c
	}
	if p, ok := parent.Value(cancelKey).(*cancelCtx); ok && p.done == parent.Done() {
		p.vis.Do("context derive")
		if p.err != nil {
			c.cancelLocked(p.err, p.cause, true)
		} else {
			p.children = append(p.children, c)
		}
		return c
	}
	mc.Go(func() {
		a, b := mc.RC(parent.Done()), mc.RC((<-chan struct{})(c.done))
		if mc.Select(false, a, b) == 0 {
			c.cancel(parent.Err(), Cause(parent))
		}
	})
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCancel(parent)
	c.deadline, c.hasDL = d, true
	dur := d.Sub(mc.Now())
	if dur <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() { c.cancel(Canceled, nil) }
	}
	if c.err == nil {
		c.timer = mc.AddClockOwned(int64(dur), func() { c.cancelLocked(DeadlineExceeded, cause, false) })
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, mc.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, mc.Now().Add(d), cause)
}

func WithValue(parent Context, k, v any) Context { return context.WithValue(parent, k, v) }

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (d time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k any) any {
	if k == any(cancelKey) {
		return nil
	}
	return w.c.Value(k)
}
func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func Cause(c Context) error {
	if x, ok := c.Value(cancelKey).(*cancelCtx); ok {
		if !mc.Aborting() {
			x.vis.Do("ctx.Cause")
		}
		return x.cause
	}
	return c.Err()
}

func AfterFunc(c Context, f func()) (stop func() bool) {
	a := &afterEnt{f: f}
	if x, ok := c.Value(cancelKey).(*cancelCtx); ok && x.done == c.Done() {
		x.vis.Do("ctx.AfterFunc")
		if x.err != nil {
			a.stopped = true
			mc.Go(f)
		} else {
			x.after = append(x.after, a)
		}
	}
	return func() bool {
		was := !a.stopped
		a.stopped = true
		return was
	}
}
