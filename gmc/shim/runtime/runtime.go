// Package runtime replaces the standard package under the model checker.
package runtime

import "gmc/mc"

func Gosched()          { mc.Gosched() }
func NumGoroutine() int { return 1 + len(mc.LiveThreads(nil)) }
func GC()               {}
