package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	timer "github.com/singchia/go-timer/v2"
	"gmc/mc"
	"gmc/vnet"
)

// clean closes both ends as their owners do and checks that nothing is left.
func (w *W) clean(what string, lent ...timer.Timer) {
	mc.ExploreOff()
	w.closeBoth()
	settle(5 * time.Second)
	leftTimers(what)
	settle(closeLimit)
	leaks(what)
	want(w.CA.IsClosed() && w.SB.IsClosed(), "%s: the connection is still open", what)
	for _, wh := range timer.Wheels() {
		own := true
		for _, l := range lent {
			if l == timer.Timer(wh) {
				own = false
			}
		}
		want(!own || wh.Closed(), "%s: a timer the ends made is still running", what)
	}
	for i, l := range lent {
		alive(fmt.Sprint(what, ": lent timer ", i), l)
	}
}

// alive checks that a timer still works.
func alive(what string, t timer.Timer) {
	tick := t.Add(500 * ms)
	guard := time.NewTimer(3 * time.Second)
	select {
	case e := <-tick.C():
		want(e != nil && e.Error == nil, "%s: the tick failed", what)
	case <-guard.C:
		mc.FailNow("%s was stopped", what)
	}
	guard.Stop()
}

// busywork leaves all kinds of operations pending on both ends and a stream.
func busywork(w *W) []*pending {
	a, b := openPair(w.C, w.S, "m")
	for _, s := range []geminio.Stream{w.C, w.S, a, b} {
		neverAnswers(s)
	}
	a.SetReadDeadline(time.Now().Add(time.Hour))
	w.S.SetDeadline(time.Now().Add(time.Hour))
	call := func(s geminio.Stream) error {
		o := options.Call()
		o.SetTimeout(2 * time.Hour)
		_, err := s.Call(bg(), "never", newReq(s, "X", ""), o)
		return err
	}
	ps := []*pending{
		startPending("client end", w.C, "read", "callasync", "accept"),
		startPending("server end", w.S, "receive", "publish"),
		startPending("client stream", a, "read", "pubasync"),
	}
	p := &pending{g: newGroup(), errs: map[string]error{}}
	p.g.Go("call with timeout", func() { p.errs["call"] = call(b) })
	return append(ps, p)
}

// neverAnswersWithin registers the method "never", which answers after d.
func neverAnswersWithin(sm geminio.Stream, d time.Duration) {
	noErr("register", sm.Register(bg(), "never", func(ctxT, geminio.Request, geminio.Response) { time.Sleep(d) }))
}

// timeoutOrCancel returns a context that ends within about 200 ms.
func timeoutOrCancel(timeout bool) (context.Context, context.CancelFunc) {
	if timeout {
		return context.WithTimeout(bg(), 200*ms)
	}
	ctx, cancel := context.WithCancel(bg())
	mc.GoNamed("canceller", func() {
		time.Sleep(210 * ms)
		cancel()
	})
	return ctx, cancel
}

// winLong is win with hours of virtual time.
var winLong = func() mc.Config {
	c := win
	c.MaxTime = int64(5 * time.Hour)
	return c
}()

func init() {
	all := []int{0, 1, 2}
	var runs []mc.Run
	add := func(name string, pols []int, q, t int) {
		runs = append(runs, mc.Run{Scenario: name, Policies: pols, Quick: q, Thorough: t})
	}
	for _, how := range endings {
		how := how
		reg("leak.idle."+how, "a pair of ends with one stream that did some work ends", win, func() {
			w := connect(nil, nil)
			a, b := openPair(w.C, w.S, "m")
			works("s", a, b)
			works("e", w.C, w.S)
			mc.ExploreOn()
			g := newGroup()
			ending(w, how)(g)
			g.Wait(closeLimit)
			settle(time.Second)
			w.clean("after the end")
		})
		add("leak.idle."+how, all, 1, 2)
		reg("leak.busy."+how, "a pair of ends with every kind of pending operation ends", winLong, func() {
			w := connect(nil, nil)
			ps := busywork(w)
			settle(100 * ms)
			mc.ExploreOn()
			g := newGroup()
			ending(w, how)(g)
			g.Wait(closeLimit)
			mc.ExploreOff()
			w.closeBoth()
			for _, p := range ps {
				p.g.Wait(closeLimit)
			}
			settle(2 * time.Hour) // the handlers that never answer
			w.clean("after the end")
		})
		add("leak.busy."+how, []int{0, 1}, 1, 2)
		reg("leak.lent."+how, "ends on lent timers: they stop using them, and the timers run on", win, func() {
			tc := timer.NewTimer()
			ts := tc
			if mc.Choose(2, "same timer") == 0 {
				ts = timer.NewTimer()
			}
			w := connect(copts(func(o *client.EndOptions) { o.SetTimer(tc) }), sopts(func(o *server.EndOptions) { o.SetTimer(ts) }))
			w2 := connect(copts(func(o *client.EndOptions) { o.SetTimer(tc) }), sopts(func(o *server.EndOptions) { o.SetTimer(ts) }))
			a, b := openPair(w.C, w.S, "m")
			works("s", a, b)
			mc.ExploreOn()
			g := newGroup()
			ending(w, how)(g)
			g.Wait(closeLimit)
			mc.ExploreOff()
			w.closeBoth()
			alive("lent timer", tc)
			alive("lent timer", ts)
			settle(2 * time.Minute) // the other pair lives on its heartbeats
			works("e", w2.C, w2.S)
			w2.clean("after the end", tc, ts)
			want(w.CA.IsClosed() && w.SB.IsClosed(), "the first connection is still open")
			tc.Close()
			if ts != tc {
				ts.Close()
			}
		})
		add("leak.lent."+how, []int{0, 1}, 1, 2)
	}
	reg("leak.stream", "streams come and go on a living end; nothing of them stays", win, func() {
		w := connect(nil, nil)
		settle(time.Second)
		base := len(mc.LiveThreads(func(name, file string) bool { return true }))
		mc.ExploreOn()
		for i := 0; i < 2; i++ {
			a, b := openPair(w.C, w.S, "m")
			if i == 0 {
				a.SetReadDeadline(time.Now().Add(ms * 500))
				mustWrite("write", a, []byte("unread"))
				noErr("publish", a.Publish(bg(), cnss(a, "P", true)))
			}
			g := newGroup()
			g.Go("close a", func() { a.Close() })
			if i == 1 {
				g.Go("close b", func() { b.Close() })
			}
			g.Wait(closeLimit)
		}
		mc.ExploreOff()
		settle(closeLimit)
		l := mc.LiveThreads(func(name, file string) bool { return true })
		want(len(l) == base, "%d goroutines before, %d after: %v", base, len(l), l)
		w.clean("after the end")
	})
	add("leak.stream", all, 1, 2)
	reg("leak.cancelled", "calls and publishes that were given up leave nothing behind", win, func() {
		w := connect(nil, nil)
		neverAnswersWithin(w.S, 30*time.Second)
		mc.ExploreOn()
		g := newGroup()
		for i := 0; i < 2; i++ {
			i := i
			g.Go("call", func() {
				ctx, cancel := timeoutOrCancel(i == 0)
				defer cancel()
				_, err := w.C.Call(ctx, "never", newReq(w.C, "X", ""))
				want(err != nil, "call succeeded")
			})
			g.Go("publish", func() {
				ctx, cancel := timeoutOrCancel(i == 0)
				defer cancel()
				err := w.C.Publish(ctx, cnss(w.C, "P", false))
				want(err != nil, "publish succeeded")
			})
			g.Go("async", func() {
				ctx, cancel := timeoutOrCancel(i == 0)
				defer cancel()
				c, err := w.C.CallAsync(ctx, "never", newReq(w.C, "X", ""), nil)
				noErr("call async", err)
				c = <-c.Done
				want(c.Error != nil, "call succeeded")
			})
		}
		g.Wait(5 * time.Second)
		mc.ExploreOff()
		settle(closeLimit)
		w.clean("after the end")
	})
	add("leak.cancelled", all, 1, 2)
	// constructors that fail, with own and lent timers
	fails := []string{"dial error", "peer hangs up", "peer resets", "peer is silent", "peer sends garbage", "peer refuses", "peer leaves while waiting for methods", "peer leaves while registering"}
	for _, side := range []string{"client", "server"} {
		side := side
		reg("leak.ctor."+side, "constructors that fail in every way, with own and lent timers", win, func() {
			k := mc.Choose(len(fails), "failure")
			var lent timer.Timer
			if mc.Choose(2, "lent timer") == 1 {
				lent = timer.NewTimer()
			}
			co, so := copts(), sopts()
			if lent != nil {
				co.SetTimer(lent)
				so.SetTimer(lent)
			}
			if k == 6 {
				co.SetWaitRemoteRPCs("never there")
				so.SetWaitRemoteRPCs("never there")
			}
			if k == 7 {
				co.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "m", RPC: func(ctxT, geminio.Request, geminio.Response) {}})
				so.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "m", RPC: func(ctxT, geminio.Request, geminio.Response) {}})
			}
			if k == 5 {
				if side == "server" {
					so.SetDelegate(&srvDlgt{&recorder{who: "server", refuseConn: errRefused}})
				}
			}
			a, b := vnet.Pair()
			var e geminio.End
			var err error
			mc.ExploreOn()
			g := newGroup()
			g.Go("constructor", func() {
				if side == "server" {
					e, err = server.NewEndWithConn(b, so)
					return
				}
				e, err = client.NewEndWithDialer(func() (net.Conn, error) {
					if k == 0 {
						return nil, errors.New("no route")
					}
					return b, nil
				}, co)
			})
			p := newPeer(a)
			switch k {
			case 0:
				if side == "server" {
					a.Close()
				}
			case 1:
				a.Close()
			case 2:
				a.Kill(false)
			case 4:
				p.raw([]byte{9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9})
			case 5:
				if side == "client" {
					c, err := server.NewEndWithConn(a, sopts(func(o *server.EndOptions) {
						o.SetDelegate(&srvDlgt{&recorder{who: "server", refuseConn: errRefused}})
					}))
					want(err != nil && c == nil, "the refusing server accepted")
				} else {
					c, err := client.NewEndWithConn(a, copts())
					want(err != nil && c == nil, "the refused client is connected")
				}
			case 6, 7:
				if side == "client" {
					p.handshakeAsServer(5)
				} else {
					p.handshakeAsClient(5, "meta")
				}
				settle(time.Second)
				a.Close()
			}
			g.Wait(2 * hsLimit)
			want(err != nil && e == nil, "%s: the constructor succeeded", fails[k])
			mc.ExploreOff()
			a.Close()
			settle(closeLimit)
			leaks(fails[k])
			want(k == 0 && side == "client" || b.IsClosed(), "%s: the connection is still open", fails[k])
			for _, wh := range timer.Wheels() {
				want(lent == timer.Timer(wh) || wh.Closed(), "%s: a timer the constructor made is still running", fails[k])
			}
			if lent != nil {
				alive("lent timer", lent)
			}
		})
		add("leak.ctor."+side, all, 1, 2)
	}
	mc.RegisterPlan(&mc.Plan{Property: "C23", QuickS: 150, ThoroughS: 820, Runs: runs})
}
