package main

import (
	"fmt"
	"sync"
	"time"

	timer "github.com/singchia/go-timer/v2"
)

// The histories below run on the model of go-timer (rewritten, virtual clock)
// and, by /verif/conformance, on the real package in real time.

var (
	timerKinds   = []string{"handler", "chan", "own chan", "cyclic handler", "cyclic chan", "slow handler and another", "short"}
	timerOps     = []string{"nothing", "cancel", "delay", "reset", "close", "add"}
	timerMoments = [3]time.Duration{25 * time.Millisecond, 65 * time.Millisecond, 145 * time.Millisecond}
)

func timerHistories() int { return len(timerKinds) * len(timerOps) * len(timerOps) * len(timerOps) }

// timerEvent is what a history shows: a result or an expiry and its moment.
type timerEvent struct {
	What string
	At   int // milliseconds
}

func timerHistory(n int) []timerEvent {
	kind := n % len(timerKinds)
	n /= len(timerKinds)
	var mtx sync.Mutex
	var log []timerEvent
	start := time.Now()
	add := func(f string, a ...interface{}) {
		mtx.Lock()
		defer mtx.Unlock()
		log = append(log, timerEvent{fmt.Sprintf(f, a...), int(time.Since(start) / time.Millisecond)})
	}
	expired := func(who string, ev *timer.Event) { add("%s expired data %v error %v", who, ev.Data, ev.Error) }
	handler := func(who string, took time.Duration) timer.TickOption {
		return timer.WithHandler(func(ev *timer.Event) {
			expired(who, ev)
			time.Sleep(took)
		})
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	watch := func(who string, ch <-chan *timer.Event) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case ev, ok := <-ch:
					if !ok {
						add("%s channel closed", who)
						return
					}
					expired(who, ev)
				case <-stop:
					return
				}
			}
		}()
	}
	tm := timer.NewTimer()
	var tk timer.Tick
	switch kind {
	case 0:
		tk = tm.Add(100*time.Millisecond, handler("A", 0), timer.WithData("d"))
	case 1:
		tk = tm.Add(100*time.Millisecond, timer.WithData("d"))
		watch("A", tk.C())
	case 2:
		ch := make(chan *timer.Event, 4)
		tk = tm.Add(100*time.Millisecond, timer.WithChan(ch))
		watch("A", ch)
	case 3:
		tk = tm.Add(50*time.Millisecond, timer.WithCyclically(), handler("A", 0))
	case 4:
		tk = tm.Add(50*time.Millisecond, timer.WithCyclically(), timer.WithData("d"))
		watch("A", tk.C())
	case 5:
		tk = tm.Add(40*time.Millisecond, handler("A", 50*time.Millisecond))
		tm.Add(45*time.Millisecond, handler("C", 0))
	case 6:
		tk = tm.Add(5*time.Millisecond, handler("A", 0))
	}
	added := 0
	for i := 0; i < 3; i++ {
		time.Sleep(timerMoments[i] - time.Since(start))
		switch op := n % len(timerOps); timerOps[op] {
		case "cancel":
			add("cancel %v", tk.Cancel())
		case "delay":
			add("delay %v", tk.Delay(100*time.Millisecond))
		case "reset":
			add("reset %v", tk.Reset("r"))
		case "close":
			tm.Close()
			add("close")
		case "add":
			added++
			tm.Add(85*time.Millisecond, handler(fmt.Sprintf("B%d", added), 0))
			add("add")
		}
		n /= len(timerOps)
	}
	time.Sleep(476*time.Millisecond - time.Since(start))
	tm.Close()
	add("close")
	time.Sleep(40 * time.Millisecond)
	close(stop)
	wg.Wait()
	mtx.Lock()
	defer mtx.Unlock()
	return log
}
