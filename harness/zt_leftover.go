package main

import (
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

// leftovers puts handlers that wait for their context, handlers that left a
// watcher of it behind, and deadlines that are hours away on what ends.
type leftovers struct {
	calls   *group
	entered int
	left    int // handlers that returned
	watched int // watchers that are still waiting for the context of an answered call
	sms     []geminio.Stream
}

func (l *leftovers) on(w *W, sms ...geminio.Stream) {
	l.sms = append(l.sms, sms...)
	for _, s := range sms {
		noErr("register", s.Register(bg(), "waits", func(ctx ctxT, r geminio.Request, _ geminio.Response) {
			l.entered++
			<-ctx.Done()
			l.left++
		}))
		noErr("register", s.Register(bg(), "answers", func(ctx ctxT, r geminio.Request, rsp geminio.Response) {
			l.watched++
			mc.GoNamed("watcher", func() {
				<-ctx.Done()
				l.watched--
			})
			rsp.SetData(r.Data())
		}))
	}
}

func (l *leftovers) call(s geminio.Stream, method string, timeout time.Duration) error {
	o := options.Call()
	if timeout > 0 {
		o.SetTimeout(timeout)
	}
	_, err := s.Call(bg(), method, newReq(s, "X", ""), o)
	return err
}

func (l *leftovers) start(what string, s geminio.Stream) {
	for _, d := range []time.Duration{0, 2 * time.Hour} {
		d := d
		noErr(what+": call", l.call(s, "answers", d))
		l.calls.Go(what+": call", func() {
			want(l.call(s, "waits", d) != nil, "%s: a call succeeded that was not answered", what)
		})
	}
	s.SetDeadline(time.Now().Add(time.Hour))
}

func (l *leftovers) check(n int) {
	l.calls.Wait(closeLimit)
	settle(closeLimit)
	for _, s := range l.sms {
		s.SetDeadline(time.Now().Add(time.Hour)) // what is closed needs no timer
	}
	settle(time.Second)
	want(l.entered == n && l.left == n, "%d handlers were called, %d returned", l.entered, l.left)
	want(l.watched == 0, "the contexts of %d answered calls are still open", l.watched)
}

func init() {
	for _, how := range endings {
		how := how
		reg("leak.handlers."+how, "ends with handlers that wait for their context and deadlines hours away end", win, func() {
			w := connect(nil, nil)
			a, b := openPair(w.C, w.S, "m")
			l := &leftovers{calls: newGroup()}
			l.on(w, w.C, w.S, a, b)
			l.start("client end", w.C)
			l.start("server stream", b)
			settle(100 * ms)
			want(l.watched == 0, "the contexts of %d answered calls are still open", l.watched)
			mc.ExploreOn()
			g := newGroup()
			ending(w, how)(g)
			g.Wait(closeLimit)
			mc.ExploreOff()
			w.closeBoth()
			l.check(4)
			w.clean("after the end")
		})
		addTo("C23", "leak.handlers."+how, []int{0, 1, 2}, 1, 2)
	}
	for i, who := range []string{"client", "server"} {
		i, who := i, who
		reg("leak.handlers.stream."+who, "a stream with handlers that wait for their context and deadlines hours away is closed; the ends live on", win, func() {
			w := connect(nil, nil)
			a, b := openPair(w.C, w.S, "m")
			l := &leftovers{calls: newGroup()}
			l.on(w, a, b)
			l.start("client stream", a)
			l.start("server stream", b)
			settle(100 * ms)
			mc.ExploreOn()
			g := newGroup()
			g.Go("close", func() { noErr("close", []geminio.Stream{a, b}[i].Close()) })
			g.Wait(closeLimit)
			mc.ExploreOff()
			l.check(4)
			works("e", w.C, w.S)
			leftTimers("the stream is closed")
			w.clean("after the end")
		})
		addTo("C23", "leak.handlers.stream."+who, []int{0, 1, 2}, 1, 2)
	}
}

// slowBeats is a delegate that is slow to take notice of a heartbeat.
type slowBeats struct {
	srvDlgt
	n    int
	slow func(n int) time.Duration
}

func (d *slowBeats) Heartbeat(c delegate.ConnDescriber) error {
	d.n++
	time.Sleep(d.slow(d.n))
	return d.srvDlgt.Heartbeat(c)
}

func init() {
	cfg := mc.Config{Window: true, MaxTime: int64(4 * time.Hour), MaxSteps: 400000}
	reg("hb.slow", "a server delegate that takes its time over heartbeats: the client sends its own in time, and stays", cfg, func() {
		r := &recorder{who: "server"}
		d := &slowBeats{srvDlgt: srvDlgt{r}}
		slow := []time.Duration{10 * time.Second, 25 * time.Second, 35 * time.Second}[mc.Choose(3, "slow")]
		which := mc.Choose(2, "which")
		d.slow = func(n int) time.Duration {
			if n%2 == which {
				return slow
			}
			return 0
		}
		so := sopts()
		so.SetDelegate(d)
		w := connect(copts(), so)
		noErr("register", w.S.Register(bg(), "echo", newEcho(w.S).handle))
		for i := 0; i < 20; i++ {
			settle(30 * time.Second)
			want(r.connOff == 0, "reported offline after %d s", 30*(i+1))
		}
		want(d.n >= 10, "%d heartbeats in 600 s", d.n)
		settle(40 * time.Second)
		checkCall(w.C, "echo", "A")
		w.closeBoth()
	})
	addTo("C14", "hb.slow", []int{0, 1, 2}, 0, 0)
}
