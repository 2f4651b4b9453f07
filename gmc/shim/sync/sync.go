// Package sync replaces the standard package under the model checker.
package sync

import "gmc/mc"

type (
	Mutex     = mc.Mutex
	RWMutex   = mc.RWMutex
	WaitGroup = mc.WaitGroup
	Once      = mc.Once
	Cond      = mc.Cond
	Map       = mc.Map
	Pool      = mc.Pool
)

type Locker interface {
	Lock()
	Unlock()
}

func NewCond(l Locker) *Cond { return mc.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}
