package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

// calls collects completions of asynchronous calls.
type calls struct {
	ch  chan *geminio.Call
	got map[*geminio.Call]int
	n   int
}

func collectCalls(size int) *calls {
	c := &calls{ch: make(chan *geminio.Call, size), got: map[*geminio.Call]int{}}
	mc.GoNamed("collect calls", func() {
		for x := range c.ch {
			c.got[x]++
			c.n++
		}
	})
	return c
}

type pubs struct {
	ch  chan *geminio.Publish
	got map[*geminio.Publish]int
	n   int
}

func collectPubs(size int) *pubs {
	c := &pubs{ch: make(chan *geminio.Publish, size), got: map[*geminio.Publish]int{}}
	mc.GoNamed("collect publishes", func() {
		for x := range c.ch {
			c.got[x]++
			c.n++
		}
	})
	return c
}

func oneCall(what string, c *calls, call *geminio.Call) {
	want(c.got[call] == 1, "async call %s: %d completions", what, c.got[call])
}

func onePub(what string, c *pubs, p *geminio.Publish) {
	want(c.got[p] == 1, "async publish %s: %d completions", what, c.got[p])
}

func init() {
	// ---- C06
	for _, size := range []int{0, 1, 4} {
		size := size
		reg(fmt.Sprintf("async.call.%d", size), "async calls that succeed, fail and find no method, on one channel", win, func() {
			w := connect(nil, nil)
			e := newEcho(w.S)
			e.fail["F"] = "boom F"
			noErr("register", w.S.Register(bg(), "echo", e.handle))
			c := collectCalls(size)
			mc.ExploreOn()
			g := newGroup()
			var a, f, n *geminio.Call
			g.Go("async A", func() {
				var err error
				a, err = w.C.CallAsync(bg(), "echo", newReq(w.C, "A", "c-A"), c.ch)
				noErr("call async A", err)
			})
			g.Go("async F", func() {
				var err error
				f, err = w.C.CallAsync(bg(), "echo", newReq(w.C, "F", "c-F"), c.ch)
				noErr("call async F", err)
				n, err = w.C.CallAsync(bg(), "nosuch", newReq(w.C, "N", "c-N"), c.ch)
				noErr("call async N", err)
			})
			g.Go("blocking", func() { checkCall(w.C, "echo", "B") })
			g.Wait(5 * time.Second)
			settle(time.Second)
			oneCall("A", c, a)
			oneCall("F", c, f)
			oneCall("N", c, n)
			want(c.n == 3, "%d completions of 3 calls", c.n)
			noErr("async call A", a.Error)
			checkRsp(w.C, a.Response, "echo", "A")
			want(f.Error != nil && f.Error.Error() == "boom F", "async call of a failing handler: %v", f.Error)
			want(n.Error != nil, "async call of an unregistered method succeeded")
			want(a.Method == "echo" && string(a.Request.Data()) == "A", "completion describes another call: %s", a.Method)
		})
	}
	reg("async.own", "async calls and publishes with the returned channel", win, func() {
		w := connect(nil, nil)
		e := newEcho(w.C)
		noErr("register", w.C.Register(bg(), "echo", e.handle))
		mc.ExploreOn()
		g := newGroup()
		g.Go("call", func() {
			a, err := w.S.CallAsync(bg(), "echo", newReq(w.S, "A", "c-A"), nil)
			noErr("call async", err)
			r := <-a.Done
			want(r == a, "completion of another call")
			noErr("async call", r.Error)
			checkRsp(w.S, r.Response, "echo", "A")
			t := time.NewTimer(time.Second)
			select {
			case <-a.Done:
				mc.FailNow("async call completed twice")
			case <-t.C:
			}
		})
		g.Go("publish", func() {
			p, err := w.S.PublishAsync(bg(), cnss(w.S, "P", false), nil)
			noErr("publish async", err)
			r := <-p.Done
			want(r == p, "completion of another publish")
			want(r.Error != nil && r.Error.Error() == "refused P", "refused async publish: %v", r.Error)
			t := time.NewTimer(time.Second)
			select {
			case <-p.Done:
				mc.FailNow("async publish completed twice")
			case <-t.C:
			}
		})
		g.Go("receive", func() {
			m := recv(w.C)
			checkMsg(w.C, m, "P")
			noErr("refuse", m.Error(errors.New("refused P")))
		})
		g.Wait(5 * time.Second)
	})
	reg("async.pub", "async publishes acknowledged and refused in any order", win, func() {
		w := connect(nil, nil)
		c := collectPubs(mc.Choose(2, "capacity"))
		done := map[string]int{}
		when := map[string]int{}
		mc.ExploreOn()
		g := newGroup()
		ps := map[string]*geminio.Publish{}
		for _, d := range []string{"A", "B"} {
			d := d
			g.Go("publish "+d, func() {
				p, err := w.C.PublishAsync(bg(), cnss(w.C, d, false), c.ch)
				noErr("publish async "+d, err)
				ps[d] = p
			})
		}
		g.Go("receive", func() {
			m1, m2 := recv(w.S), recv(w.S)
			d1, d2 := string(m1.Data()), string(m2.Data())
			settle(100 * ms)
			want(c.n == 0, "async publish completed before it was acknowledged")
			done[d2] = mc.Tick("done")
			noErr("done", m2.Done())
			done[d1] = mc.Tick("refused")
			noErr("refuse", m1.Error(errors.New("no "+d1)))
			when["refused"+d1] = 1
		})
		g.Wait(5 * time.Second)
		settle(time.Second)
		for d, p := range ps {
			onePub(d, c, p)
			if when["refused"+d] == 1 {
				want(p.Error != nil && p.Error.Error() == "no "+d, "refused async publish %s: %v", d, p.Error)
			} else {
				noErr("async publish "+d, p.Error)
			}
		}
		want(c.n == 2, "%d completions", c.n)
	})
	for _, how := range []string{"kill", "cut", "closeC", "closeS", "closeStream", "peerStream"} {
		how := how
		reg("async.lost."+how, "the connection or stream ends with async calls and publishes in flight", win, func() {
			w := connect(nil, nil)
			var sm, sp geminio.Stream = w.C, w.S
			if strings.HasSuffix(how, "Stream") {
				sm, sp = openPair(w.C, w.S, "m")
			}
			e := newEcho(sp)
			e.slow["Z"] = time.Hour
			noErr("register", sp.Register(bg(), "echo", e.handle))
			cc, pc := collectCalls(0), collectPubs(0)
			z, err := sm.CallAsync(bg(), "echo", newReq(sm, "Z", ""), cc.ch)
			noErr("call async", err)
			mc.ExploreOn()
			g := newGroup()
			var a *geminio.Call
			var p *geminio.Publish
			var aerr, perr error
			g.Go("async call", func() { a, aerr = sm.CallAsync(bg(), "echo", newReq(sm, "A", "c-A"), cc.ch) })
			g.Go("async publish", func() { p, perr = sm.PublishAsync(bg(), cnss(sm, "P", false), pc.ch) })
			g.Go("receive", func() {
				m, err := sp.Receive(bg())
				if err == nil {
					m.Done()
				}
			})
			g.Go("end", func() {
				switch how {
				case "kill":
					w.CA.Kill(false)
				case "cut":
					w.CA.Kill(true)
				case "closeC":
					w.C.Close()
				case "closeS":
					w.S.Close()
				case "closeStream":
					sm.Close()
				case "peerStream":
					sp.Close()
				}
			})
			g.Wait(70 * time.Second)
			settle(60 * time.Second)
			oneCall("Z", cc, z)
			want(z.Error != nil, "async call succeeded though its handler never answered")
			n := 1
			if aerr == nil {
				n++
				oneCall("A", cc, a)
				if a.Error == nil {
					checkRsp(sm, a.Response, "echo", "A")
				}
			} else {
				want(a == nil, "error and a call returned")
			}
			want(cc.n == n, "%d call completions of %d", cc.n, n)
			if perr == nil {
				onePub("P", pc, p)
				want(pc.n == 1, "%d publish completions", pc.n)
			} else {
				want(pc.n == 0, "a rejected async publish completed")
			}
			mc.Outcome("%v %v %v %v", errStr(aerr), errStr(perr), a != nil && a.Error == nil, p != nil && p.Error == nil)
		})
	}
	reg("async.timeout", "async call and publish with a timeout, deadline or cancelled context, answered before, around or after it", winEarly, func() {
		w := connect(nil, nil)
		const T = 500 * ms
		delays := []time.Duration{100 * ms, T - 10*ms, T, T + 10*ms, 900 * ms}
		delay := delays[mc.Choose(len(delays), "delay")]
		mode := mc.Choose(4, "mode")
		publish := mc.Choose(2, "publish") == 1
		e := newEcho(w.S)
		e.slow["A"] = delay
		noErr("register", w.S.Register(bg(), "echo", e.handle))
		mc.ExploreOn()
		ctx, cancel := bg(), context.CancelFunc(func() {})
		switch mode {
		case 2:
			ctx, cancel = context.WithTimeout(bg(), T)
		case 3:
			ctx, cancel = context.WithCancel(bg())
			mc.GoNamed("canceller", func() { time.Sleep(T); cancel() })
		}
		start := time.Now()
		var err error
		var at time.Duration
		if publish {
			mc.GoNamed("receive", func() {
				m := recv(w.S)
				time.Sleep(delay)
				m.Done()
			})
			c := collectPubs(0)
			m := cnss(w.C, "A", false)
			var opts []*options.PublishOptions
			switch mode {
			case 0:
				m.SetTimeout(T)
			case 1:
				o := options.Publish()
				o.SetTimeout(T)
				opts = append(opts, o)
			}
			p, perr := w.C.PublishAsync(ctx, m, c.ch, opts...)
			noErr("publish async", perr)
			for c.n == 0 && time.Since(start) < 2*time.Second {
				time.Sleep(5 * ms)
			}
			at = time.Since(start)
			settle(2 * time.Second)
			onePub("A", c, p)
			err = p.Error
		} else {
			c := collectCalls(0)
			r := newReq(w.C, "A", "c-A")
			var opts []*options.CallOptions
			switch mode {
			case 0:
				r.SetTimeout(T)
			case 1:
				o := options.Call()
				o.SetTimeout(T)
				opts = append(opts, o)
			}
			a, aerr := w.C.CallAsync(ctx, "echo", r, c.ch, opts...)
			noErr("call async", aerr)
			for c.n == 0 && time.Since(start) < 2*time.Second {
				time.Sleep(5 * ms)
			}
			at = time.Since(start)
			settle(2 * time.Second)
			oneCall("A", c, a)
			err = a.Error
			if err == nil {
				checkRsp(w.C, a.Response, "echo", "A")
			}
		}
		timed(err, at, delay, T)
		cancel()
		checkCall(w.C, "echo", "later")
		mc.Outcome("%d %v %v %s", mode, publish, delay, errStr(err))
	})
	mc.RegisterPlan(&mc.Plan{Property: "C06", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "async.call.0", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "async.call.1", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "async.call.4", Policies: []int{0}, Quick: 2, Thorough: 3},
		{Scenario: "async.own", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "async.pub", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "async.timeout", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "async.lost.kill", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "async.lost.cut", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "async.lost.closeC", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "async.lost.closeS", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "async.lost.closeStream", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "async.lost.peerStream", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "msg.backlog", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
	}})

	// ---- C07
	reg("wait.call", "a blocking or asynchronous call with a timeout, deadline or cancelled context, answered before, around, after it or never", winEarly, func() {
		w := connect(nil, nil)
		const T = 500 * ms
		delays := []time.Duration{100 * ms, T - 10*ms, T, T + 10*ms, 900 * ms, time.Hour}
		delay := delays[mc.Choose(len(delays), "delay")]
		mode := mc.Choose(5, "mode")
		caller, callee := w.C, w.S
		async := mc.Choose(2, "async") == 1
		if mc.Choose(2, "side") == 1 {
			caller, callee = w.S, w.C
		}
		e := newEcho(callee)
		var seen error
		var seenAt time.Duration
		var start time.Time
		noErr("register", callee.Register(bg(), "echo", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			if string(req.Data()) != "A" {
				e.handle(ctx, req, rsp)
				return
			}
			t := time.NewTimer(delay)
			select {
			case <-ctx.Done():
				seen, seenAt = ctx.Err(), time.Since(start)
				t2 := time.NewTimer(300 * ms) // answer late all the same
				<-t2.C
			case <-t.C:
			}
			e.handle(ctx, req, rsp)
		}))
		mc.ExploreOn()
		ctx, cancel := bg(), context.CancelFunc(func() {})
		r := newReq(caller, "A", "c-A")
		var opts []*options.CallOptions
		switch mode {
		case 0:
			r.SetTimeout(T)
		case 1:
			o := options.Call()
			o.SetTimeout(T)
			opts = append(opts, o)
		case 2:
			ctx, cancel = context.WithTimeout(bg(), T)
		case 3:
			ctx, cancel = context.WithCancel(bg())
			mc.GoNamed("canceller", func() { time.Sleep(T); cancel() })
		case 4: // both, the context is the stricter one
			ctx, cancel = context.WithTimeout(bg(), T)
			r.SetTimeout(2 * time.Second)
		}
		start = time.Now()
		var rsp geminio.Response
		var err error
		if async {
			call, aerr := caller.CallAsync(ctx, "echo", r, nil, opts...)
			noErr("async call", aerr)
			call = <-call.Done
			rsp, err = call.Response, call.Error
		} else {
			rsp, err = caller.Call(ctx, "echo", r, opts...)
		}
		at := time.Since(start)
		timed(err, at, delay, T)
		if err == nil {
			checkRsp(caller, rsp, "echo", "A")
		}
		if mode == 3 && err != nil {
			want(errors.Is(err, context.Canceled), "cancelled call returned %v", err)
		}
		checkCall(caller, "echo", "later") // a late answer must not disturb it
		settle(2 * time.Second)
		checkCall(caller, "echo", "later2")
		if err != nil && delay > T+50*ms {
			want(seen != nil, "the handler of an abandoned call never saw its context end (mode %d)", mode)
			want(seenAt >= T-gran && seenAt < T+200*ms, "the handler's context ended at %v, the call was given up at %v", seenAt, T)
		}
		if err == nil && delay < T-50*ms {
			want(seen == nil, "the handler's context ended early: %v", seen)
		}
		cancel()
		mc.Outcome("%v %d %v %s %s", delay, mode, async, errStr(err), errStr(seen))
	})
	reg("wait.early", "a call which is cancelled at once: the handler, if it runs at all, sees its context end", win, func() {
		w := connect(nil, nil)
		caller, callee := w.C, w.S
		if mc.Choose(2, "side") == 1 {
			caller, callee = w.S, w.C
		}
		async := mc.Choose(2, "async") == 1
		began, ended := 0, 0
		noErr("register", callee.Register(bg(), "block", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			began++
			t := time.NewTimer(10 * time.Second)
			select {
			case <-ctx.Done():
				ended++
			case <-t.C:
			}
		}))
		mc.ExploreOn()
		ctx, cancel := context.WithCancel(bg())
		g := newGroup()
		g.Go("cancel", cancel)
		g.Go("call", func() {
			r := newReq(caller, "A", "")
			var err error
			if async {
				call, aerr := caller.CallAsync(ctx, "block", r, nil)
				err = aerr
				if aerr == nil {
					call = <-call.Done
					err = call.Error
				}
			} else {
				_, err = caller.Call(ctx, "block", r)
			}
			want(errors.Is(err, context.Canceled), "a cancelled call returned %v", err)
		})
		g.Wait(2 * time.Second)
		settle(time.Second)
		want(began <= 1 && ended == began, "%d handlers run, %d of them saw the end of their context", began, ended)
		mc.Outcome("%d", began)
	})
	reg("wait.pub", "a blocking publish with a timeout, deadline or cancelled context, acknowledged before, around, after it or never", winEarly, func() {
		w := connect(nil, nil)
		const T = 500 * ms
		delays := []time.Duration{100 * ms, T - 10*ms, T, T + 10*ms, 900 * ms, time.Hour}
		delay := delays[mc.Choose(len(delays), "delay")]
		mode := mc.Choose(4, "mode")
		sm, sp := w.C, w.S
		if mc.Choose(2, "side") == 1 {
			sm, sp = w.S, w.C
		}
		mc.GoNamed("receive", func() {
			m := recv(sp)
			if delay < time.Hour {
				mc.GoNamed("late ack", func() { time.Sleep(delay); m.Done() })
			}
			for {
				m, err := sp.Receive(bg())
				if err != nil {
					return
				}
				m.Done()
			}
		})
		mc.ExploreOn()
		ctx, cancel := bg(), context.CancelFunc(func() {})
		m := cnss(sm, "A", false)
		var opts []*options.PublishOptions
		switch mode {
		case 0:
			m.SetTimeout(T)
		case 1:
			o := options.Publish()
			o.SetTimeout(T)
			opts = append(opts, o)
		case 2:
			ctx, cancel = context.WithTimeout(bg(), T)
		case 3:
			ctx, cancel = context.WithCancel(bg())
			mc.GoNamed("canceller", func() { time.Sleep(T); cancel() })
		}
		start := time.Now()
		err := sm.Publish(ctx, m, opts...)
		at := time.Since(start)
		timed(err, at, delay, T)
		noErr("publish afterwards", sm.Publish(bg(), cnss(sm, "B", false)))
		settle(2 * time.Second)
		noErr("publish later", sm.Publish(bg(), cnss(sm, "C", false)))
		cancel()
		mc.Outcome("%v %d %s", delay, mode, errStr(err))
	})
	reg("wait.race", "a cancelled call races with its response and with another call", winEarly, func() {
		w := connect(nil, nil)
		e := newEcho(w.S)
		e.slow["A"] = 100 * ms
		noErr("register", w.S.Register(bg(), "echo", e.handle))
		ctx, cancel := context.WithCancel(bg())
		okA := 0
		mc.ExploreOn()
		g := newGroup()
		g.Go("call A", func() {
			rsp, err := w.C.Call(ctx, "echo", newReq(w.C, "A", "c-A"))
			if err == nil {
				checkRsp(w.C, rsp, "echo", "A")
				okA = 1
			} else {
				want(errors.Is(err, context.Canceled), "cancelled call returned %v", err)
			}
			mc.Outcome("%s", errStr(err))
			checkCall(w.C, "echo", "C")
		})
		g.Go("call B", func() { checkCall(w.C, "echo", "B") })
		g.Go("cancel", func() {
			if mc.Choose(2, "when") == 1 {
				time.Sleep(100 * ms)
			}
			cancel()
		})
		g.Wait(5 * time.Second)
		settle(time.Second)
		want(e.runs["A"] <= 1 && (okA == 0 || e.runs["A"] == 1) && e.runs["B"] == 1 && e.runs["C"] == 1, "handler runs %v", e.runs)
	})
	reg("wait.stalled", "calls, publishes and registrations on a connection whose peer stopped reading", win, func() {
		w := connect(nil, nil)
		w.CA.SetCap(64)
		w.SB.Stall()
		// fill every queue on the way
		for i := 0; i < 400; i++ {
			m := cnss(w.C, "0123456789", true)
			done := make(chan error, 1)
			mc.GoNamed("filler", func() { done <- w.C.Publish(bg(), m) })
			t := time.NewTimer(200 * ms)
			full := false
			select {
			case <-done:
			case <-t.C:
				full = true
			}
			if full {
				mc.Outcome("full after %d", i)
				break
			}
		}
		mc.ExploreOn()
		const T = 500 * ms
		op := func(name string, f func(ctx context.Context) error) {
			start := time.Now()
			ctx, cancel := context.WithTimeout(bg(), T)
			defer cancel()
			err := f(ctx)
			want(err != nil, "%s succeeded though the peer reads nothing", name)
			want(time.Since(start) < T+3*gran, "%s with a timeout of %v returned after %v", name, T, time.Since(start))
		}
		g := newGroup()
		g.Go("call", func() {
			op("call", func(ctx context.Context) error { _, err := w.C.Call(ctx, "echo", newReq(w.C, "A", "")); return err })
		})
		g.Go("call with timeout", func() {
			op("call with timeout", func(context.Context) error {
				r := newReq(w.C, "A", "")
				r.SetTimeout(T)
				_, err := w.C.Call(bg(), "echo", r)
				return err
			})
		})
		g.Go("publish", func() {
			op("publish", func(ctx context.Context) error { return w.C.Publish(ctx, cnss(w.C, "B", false)) })
		})
		g.Go("publish with timeout", func() {
			op("publish with timeout", func(ctx context.Context) error {
				m := cnss(w.C, "B", false)
				m.SetTimeout(T)
				return w.C.Publish(bg(), m)
			})
		})
		g.Go("register", func() {
			op("register", func(ctx context.Context) error { return w.C.Register(ctx, "m", newEcho(w.C).handle) })
		})
		g.Wait(5 * time.Second)
	})
	mc.RegisterPlan(&mc.Plan{Property: "C07", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "wait.call", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "wait.pub", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "wait.early", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "wait.race", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "wait.stalled", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "async.timeout", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
	}})
}

// timed checks the outcome and moment of an operation answered after delay
// and limited to T.
func timed(err error, at, delay, T time.Duration) {
	if err != nil {
		want(at >= T-gran, "gave up after %v with %v, the limit was %v", at, err, T)
		want(delay > T-3*gran, "gave up with %v though the answer came after %v of %v", err, delay, T)
	} else {
		want(delay < T+3*gran, "succeeded though the answer came after %v and the limit was %v", delay, T)
	}
	want(at <= min(T, delay)+4*gran, "returned after %v: limit %v, answer after %v", at, T, delay)
}

var _ = io.EOF
