package main

import (
	"context"
	"fmt"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

// seenCtx is what a handler and a watcher it left behind saw of its context.
type seenCtx struct {
	runs     int
	entered  time.Duration
	deadline time.Time
	hasDL    bool
	early    error // what the context said when the handler began
	returned time.Duration
	ended    time.Duration // when the context ended
	err      error
}

// handler answers after d, or, with d == 0, when its context ends.
func (s *seenCtx) handler(d time.Duration) geminio.RPC {
	return func(ctx ctxT, r geminio.Request, rsp geminio.Response) {
		s.runs++
		s.entered = mc.Elapsed()
		s.deadline, s.hasDL = ctx.Deadline()
		s.early = ctx.Err()
		mc.GoNamed("watcher", func() {
			<-ctx.Done()
			s.ended, s.err = mc.Elapsed(), ctx.Err()
		})
		if d > 0 {
			time.Sleep(d)
			want(ctx.Err() == nil || s.ended != 0, "the context reports an error before it is done")
			rsp.SetData(r.Data())
		} else {
			<-ctx.Done()
		}
		s.returned = mc.Elapsed()
	}
}

// endedWithin checks when the context ended, and how.
func (s *seenCtx) endedWithin(what string, from, to time.Duration, err error) {
	want(s.runs == 1, "%s: the handler ran %d times", what, s.runs)
	want(s.ended != 0, "%s: the context of the handler did not end", what)
	want(s.ended >= from, "%s: the context of the handler ended %v too early", what, from-s.ended)
	want(s.ended <= to, "%s: the context of the handler ended %v too late", what, s.ended-to)
	want(err == nil || s.err == err, "%s: the context of the handler ended with %v", what, s.err)
}

var hctxKinds = []string{"client", "server", "clientstream", "serverstream"}
var hctxLimits = []string{"none", "timeout", "context", "timeout first", "context first"}
var hctxEvents = []string{"answer", "cancel", "wait", "close caller", "close callee", "loss"}

// oneCtx makes one call that ends by the event, next to calls that do not.
func oneCtx(w *W, tx, rx geminio.Stream, ev string, limit string, async bool, hijack int) {
	seen, other := &seenCtx{}, &seenCtx{}
	first := time.Duration(0)
	if ev == "answer" {
		first = 500 * ms
	}
	switch hijack {
	case 0:
		noErr("register", rx.Register(bg(), "m", seen.handler(first)))
	default:
		h := seen.handler(first)
		o := options.Hijack()
		o.SetMatch(true, "^m$")
		if hijack == 2 {
			o.SetMatch(false, "^other$")
		}
		noErr("hijack", rx.Hijack(func(ctx ctxT, m string, r geminio.Request, rsp geminio.Response) { h(ctx, r, rsp) }, o))
	}
	noErr("register", rx.Register(bg(), "other", other.handler(3*time.Second)))

	short := 2 * time.Second
	if ev != "wait" {
		short = 60 * time.Second
	}
	lim := time.Duration(0)
	o := options.Call()
	settle(137 * ms) // limits that are no whole seconds
	mc.ExploreOn()
	start := mc.Elapsed()
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	setCtx := func(d time.Duration) {
		c, cancel2 := context.WithDeadline(ctx, time.Now().Add(d))
		_ = cancel2
		ctx = c
	}
	switch limit {
	case "timeout":
		o.SetTimeout(short)
		lim = short
	case "context":
		setCtx(short)
		lim = short
	case "timeout first":
		o.SetTimeout(short)
		setCtx(short + time.Second)
		lim = short
	case "context first":
		o.SetTimeout(short + time.Second)
		setCtx(short)
		lim = short
	}
	var err error
	g := newGroup()
	g.Go("other call", func() {
		rsp, err := tx.Call(bg(), "other", newReq(tx, "O", ""))
		if ev == "answer" || ev == "cancel" || ev == "wait" {
			noErr("other call", err)
			eqBytes("other call", rsp.Data(), []byte("O"))
		}
	})
	g.Go("call", func() {
		if async {
			var c *geminio.Call
			c, err = tx.CallAsync(ctx, "m", newReq(tx, "X", ""), nil, o)
			noErr("call async", err)
			c = <-c.Done
			err = c.Error
			return
		}
		_, err = tx.Call(ctx, "m", newReq(tx, "X", ""), o)
	})
	settle(500 * ms)
	at := mc.Elapsed()
	switch ev {
	case "cancel":
		cancel()
	case "close caller":
		g.Go("close", func() { tx.Close() })
	case "close callee":
		g.Go("close", func() { rx.Close() })
	case "loss":
		w.CA.Kill(true)
	}
	g.Wait(closeLimit)
	mc.ExploreOff()
	settle(20 * time.Second)
	// an answer may be in time for a limit both sides notice at once
	want((err == nil) == (ev == "answer") || ev == "wait", "call: %v", err)

	const slack = 100 * ms
	switch ev {
	case "answer":
		seen.endedWithin(ev, seen.returned, seen.returned+slack, context.Canceled)
	case "cancel":
		seen.endedWithin(ev, at, at+slack, context.Canceled)
	case "wait":
		if limit != "none" {
			seen.endedWithin(ev, start+lim, start+lim+slack, context.DeadlineExceeded)
		}
	default:
		seen.endedWithin(ev, at, at+15*time.Second, context.Canceled)
	}
	want(seen.early == nil, "the handler began with a context that had ended: %v", seen.early)
	want(seen.hasDL == (limit != "none"), "the context of the handler has a deadline: %v", seen.hasDL)
	if seen.hasDL {
		d := seen.deadline.Sub(time.Now()) + mc.Elapsed() - start - lim
		want(d >= 0 && d < slack, "the deadline of the handler is off by %v", d)
	}
	if ev == "answer" || ev == "cancel" || ev == "wait" {
		want(!other.hasDL, "the context of the other call has a deadline")
		other.endedWithin("other call", other.returned, other.returned+slack, context.Canceled)
	} else {
		want(other.runs == 1 && other.ended != 0, "the context of the other handler did not end")
	}
}

func init() {
	var runs []mc.Run
	for kind, k := range hctxKinds {
		for _, l := range hctxLimits {
			kind, l := kind, l
			name := fmt.Sprintf("hctx.%s.%s", k, map[string]string{"none": "none", "timeout": "timeout", "context": "context", "timeout first": "t1st", "context first": "c1st"}[l])
			reg(name, "a call ends by an answer, a cancellation, its limit, a close or a loss; what its handler sees of its context", win, func() {
				ev := hctxEvents[mc.Choose(len(hctxEvents), "event")]
				if ev == "wait" && l == "none" {
					return
				}
				async := mc.Choose(2, "async") == 1
				hijack := mc.Choose(3, "hijack")
				w := connect(nil, nil)
				tx, rx := pair(w, kind)
				oneCtx(w, tx, rx, ev, l, async, hijack)
				w.closeBoth()
			})
			t := 1
			if l == "none" || l == "context" {
				t = 2
			}
			q := 0
			if l == "none" || l == "timeout" && kind == 2 {
				q = 1
			}
			runs = append(runs, mc.Run{Scenario: name, Policies: []int{0, 1, 2}, Quick: q, Thorough: t})
		}
	}
	reg("hctx.many", "calls on two streams and in both directions; one is cancelled, the contexts of the others stay open until they are answered", win, func() {
		w := connect(nil, nil)
		a, b := openPair(w.C, w.S, "m")
		sms := []geminio.Stream{w.C, w.S, a, b}
		peer := []geminio.Stream{w.S, w.C, b, a}
		seen := make([]seenCtx, len(sms))
		gone := &seenCtx{}
		for i := range sms {
			noErr("register", peer[i].Register(bg(), "m", seen[i].handler(time.Second)))
		}
		victim := mc.Choose(len(sms), "cancelled")
		noErr("register", peer[victim].Register(bg(), "gone", gone.handler(0)))
		mc.ExploreOn()
		g := newGroup()
		ctx, cancel := context.WithCancel(bg())
		g.Go("cancelled call", func() {
			_, err := sms[victim].Call(ctx, "gone", newReq(sms[victim], "X", ""))
			want(err != nil, "the cancelled call succeeded")
		})
		settle(100 * ms)
		for i, s := range sms {
			i, s := i, s
			g.Go(fmt.Sprint("call ", i), func() {
				rsp, err := s.Call(bg(), "m", newReq(s, "Y", ""))
				noErr("call", err)
				eqBytes("call", rsp.Data(), []byte("Y"))
			})
		}
		g.Go("cancel", func() {
			settle(500 * ms)
			cancel()
		})
		g.Wait(5 * time.Second)
		mc.ExploreOff()
		settle(5 * time.Second)
		gone.endedWithin("cancelled call", 600*ms, 700*ms, context.Canceled)
		for i := range seen {
			seen[i].endedWithin(fmt.Sprint("call ", i), seen[i].returned, seen[i].returned+100*ms, context.Canceled)
		}
		w.closeBoth()
	})
	runs = append(runs, mc.Run{Scenario: "hctx.many", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 1})
	for _, how := range losses {
		how := how
		reg("hctx.retry."+how, "a retrying end loses its connection while its handlers wait for their contexts, comes back, and is closed", win, func() {
			s := newSite()
			s.start()
			seen := []*seenCtx{{}, {}, {}}
			reg := func(m string, i int, d time.Duration) {
				noErr("register", s.re.Register(bg(), m, seen[i].handler(d)))
			}
			reg("first", 0, 0)
			g := newGroup()
			call := func(m string, ok bool) {
				e := s.last()
				g.Go("call "+m, func() {
					_, err := e.Call(bg(), m, newReq(e, "X", ""))
					want((err == nil) == ok, "call of %s: %v", m, err)
				})
			}
			call("first", false)
			settle(100 * ms)
			mc.ExploreOn()
			at := mc.Elapsed()
			s.lose(how)
			s.awaitBack(how, 1, 20*time.Second)
			reg("second", 1, 0)
			reg("third", 2, time.Second)
			call("second", false)
			call("third", true)
			settle(3 * time.Second)
			mc.ExploreOff()
			seen[0].endedWithin("lost call", at, at+closeLimit, context.Canceled)
			seen[2].endedWithin("answered call", seen[2].returned, seen[2].returned+100*ms, context.Canceled)
			want(seen[1].runs == 1 && seen[1].ended == 0, "the context of a call ended while its caller was waiting")
			s.finish()
			g.Wait(closeLimit)
			seen[1].endedWithin("call at the close", at, at+2*time.Minute, context.Canceled)
		})
		runs = append(runs, mc.Run{Scenario: "hctx.retry." + how, Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2})
	}
	mc.RegisterPlan(&mc.Plan{Property: "C26", QuickS: 150, ThoroughS: 820, Runs: append(runs,
		mc.Run{Scenario: "wait.early", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2})})
}
