package main

import (
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

// closeLimit is how long anything may take once a close started: flushing
// (5 s), the dismiss handshake of a stream (30 s) and of the connection (10 s).
const closeLimit = 60 * time.Second

// blocking starts one of each operation that blocks on sm (or its end) and
// checks in done that all of them came back.
type pending struct {
	g    *group
	errs map[string]error
}

func startPending(name string, sm geminio.Stream, kinds ...string) *pending {
	p := &pending{g: newGroup(), errs: map[string]error{}}
	for _, k := range kinds {
		k := k
		p.g.Go(name+" "+k, func() { p.errs[k] = doOp(sm, k) })
	}
	return p
}

var errOpDone = errors.New("operation succeeded")

// doOp performs operation k on sm; nil means it succeeded.
func doOp(sm geminio.Stream, k string) error {
	switch k {
	case "read":
		_, err := sm.Read(make([]byte, 4))
		return err
	case "write":
		_, err := sm.Write([]byte("w"))
		return err
	case "receive":
		m, err := sm.Receive(bg())
		if err == nil {
			m.Done()
		}
		return err
	case "call":
		_, err := sm.Call(bg(), "never", newReq(sm, "X", ""))
		return err
	case "publish":
		return sm.Publish(bg(), cnss(sm, "P", false))
	case "publish1":
		return sm.Publish(bg(), cnss(sm, "Q", true))
	case "callasync":
		c, err := sm.CallAsync(bg(), "never", newReq(sm, "X", ""), nil)
		if err != nil {
			return err
		}
		c = <-c.Done
		return c.Error
	case "pubasync":
		p, err := sm.PublishAsync(bg(), cnss(sm, "P", false), nil)
		if err != nil {
			return err
		}
		p = <-p.Done
		return p.Error
	case "register":
		return sm.Register(bg(), "m-"+k, newEcho(sm).handle)
	case "accept":
		_, err := sm.(geminio.End).AcceptStream()
		return err
	case "netaccept":
		_, err := sm.(geminio.End).Accept()
		return err
	case "open":
		_, err := openStream(sm.(geminio.End), "o", "")
		return err
	case "list":
		sm.(geminio.End).ListStreams()
		return nil
	case "deadline":
		sm.SetReadDeadline(time.Now().Add(time.Hour))
		sm.SetWriteDeadline(time.Now().Add(time.Hour))
		return nil
	case "hijack":
		return sm.Hijack(func(ctxT, string, geminio.Request, geminio.Response) {})
	case "close":
		return sm.Close()
	}
	panic("unknown operation " + k)
}

// neverAnswers registers the method "never", whose handler blocks for good
// (until an hour passed).
func neverAnswers(sm geminio.Stream) {
	noErr("register", sm.Register(bg(), "never", func(ctxT, geminio.Request, geminio.Response) { time.Sleep(time.Hour) }))
}

// refuses checks that new operations on something closed fail at once.
func refuses(what string, sm geminio.Stream, kinds ...string) {
	for _, k := range kinds {
		k := k
		within(5*time.Second, what+" "+k+" after close", func() {
			err := doOp(sm, k)
			for i := 0; i < 40 && err == nil && (k == "receive" || k == "read" || k == "accept"); i++ {
				err = doOp(sm, k) // what had arrived before is still handed out
			}
			want(err != nil, "%s: %s succeeded after close", what, k)
		})
	}
}

var newOps = []string{"read", "write", "receive", "call", "publish", "publish1", "callasync", "pubasync", "register"}
var newEndOps = append([]string{"open", "accept"}, newOps...)

// gone checks that the other side of a finished connection is unusable too.

func closing(w *W, how string) func(*group) {
	return func(g *group) {
		one := func(name string, c io.Closer) { g.Go(name, func() { c.Close() }) }
		switch how {
		case "client":
			one("client close", w.C)
		case "server":
			one("server close", w.S)
		case "both":
			one("client close", w.C)
			one("server close", w.S)
		case "twice":
			one("client close 1", w.C)
			one("client close 2", w.C)
		}
	}
}

func init() {
	var runs []mc.Run
	add := func(name string, pols []int, q, t int) {
		runs = append(runs, mc.Run{Scenario: name, Policies: pols, Quick: q, Thorough: t})
	}
	all := []int{0, 1, 2}
	for _, how := range []string{"client", "server", "both", "twice"} {
		how := how
		name := "close.pending." + how
		reg(name, "an end closes while every kind of operation blocks on both ends and on a stream", win, func() {
			w := connect(nil, nil)
			a, b := openPair(w.C, w.S, "m")
			for _, s := range []geminio.Stream{w.C, w.S, a, b} {
				neverAnswers(s)
			}
			ps := []*pending{
				startPending("client end", w.C, "read", "call", "callasync", "accept"),
				startPending("server end", w.S, "read", "call", "publish", "accept"),
				startPending("client stream", a, "read", "call", "receive"),
				startPending("server stream", b, "read", "pubasync"),
			}
			settle(100 * ms)
			mc.ExploreOn()
			g := newGroup()
			closing(w, how)(g)
			g.Wait(closeLimit)
			for _, p := range ps {
				p.g.Wait(closeLimit)
				for k, err := range p.errs {
					want(err != nil || k != "read" && k != "call" && k != "callasync" && k != "accept", "%s succeeded though nothing answered", k)
				}
			}
			mc.ExploreOff()
			settle(closeLimit)
			closer, other := geminio.End(w.C), geminio.End(w.S)
			if how == "server" {
				closer, other = w.S, w.C
			}
			refuses("closer", closer, newEndOps...)
			refuses("closed", other, newEndOps...)
			refuses("stream", a, newOps...)
			refuses("stream", b, newOps...)
			within(closeLimit, "closing again", func() { w.C.Close(); w.S.Close(); w.C.Close(); a.Close(); b.Close() })
		})
		add(name, all, 1, 2)
	}
	// one operation races with close
	for _, k := range []string{"read", "write", "receive", "call", "publish", "publish1", "callasync", "pubasync", "register", "accept", "open"} {
		for _, how := range []string{"client", "server", "both"} {
			k, how := k, how
			name := "close.race." + k + "." + how
			reg(name, "an operation starts while an end closes", win, func() {
				w := connect(nil, nil)
				neverAnswers(w.C)
				neverAnswers(w.S)
				mc.ExploreOn()
				g := newGroup()
				g.Go(k, func() {
					err := doOp(w.C, k)
					mc.Outcome("%v", errStr(err))
					if err == nil {
						want(k != "read" && k != "call" && k != "callasync" && k != "accept" && k != "receive" && k != "publish" && k != "pubasync", "%s succeeded though nothing answered", k)
					}
				})
				closing(w, how)(g)
				g.Wait(closeLimit)
				mc.ExploreOff()
				settle(closeLimit)
				refuses("client", w.C, newEndOps...)
				refuses("server", w.S, newEndOps...)
			})
			pols := []int{0, 1}
			if how == "both" {
				pols = []int{2}
			}
			add(name, pols, 1, 2)
		}
	}
	// streams
	for _, how := range []string{"opener", "accepter", "both", "twice"} {
		how := how
		name := "close.stream." + how
		reg(name, "a stream closes while every kind of operation blocks on both sides of it", win, func() {
			w := connect(nil, nil)
			ends := []geminio.End{w.C, w.S}
			k := mc.Choose(2, "side")
			a, b := openPair(ends[k], ends[1-k], "m")
			neverAnswers(a)
			neverAnswers(b)
			ps := []*pending{
				startPending("opener", a, "read", "call", "callasync", "receive"),
				startPending("accepter", b, "read", "call", "pubasync", "receive"),
			}
			settle(100 * ms)
			mc.ExploreOn()
			g := newGroup()
			if how != "accepter" {
				g.Go("opener close", func() { a.Close() })
			}
			if how == "twice" {
				g.Go("opener close again", func() { a.Close() })
			}
			if how == "accepter" || how == "both" {
				g.Go("accepter close", func() { b.Close() })
			}
			late := startPending("late", a, "write", "publish")
			g.Wait(closeLimit)
			late.g.Wait(closeLimit)
			for _, p := range ps {
				p.g.Wait(closeLimit)
			}
			mc.ExploreOff()
			settle(closeLimit)
			refuses("opener", a, newOps...)
			refuses("accepter", b, newOps...)
			within(closeLimit, "closing again", func() { a.Close(); b.Close() })
			works("end", w.C, w.S)
		})
		add(name, all, 1, 2)
	}
	for _, k := range []string{"read", "write", "receive", "call", "publish", "callasync", "pubasync", "register"} {
		k := k
		name := "close.streamrace." + k
		reg(name, "an operation starts while its stream closes from one side or both", win, func() {
			w := connect(nil, nil)
			a, b := openPair(w.C, w.S, "m")
			neverAnswers(b)
			how := mc.Choose(3, "how")
			mc.ExploreOn()
			g := newGroup()
			g.Go(k, func() { mc.Outcome("%v", errStr(doOp(a, k))) })
			if how != 1 {
				g.Go("near close", func() { a.Close() })
			}
			if how != 0 {
				g.Go("far close", func() { b.Close() })
			}
			g.Wait(closeLimit)
			mc.ExploreOff()
			settle(closeLimit)
			refuses("near", a, newOps...)
			refuses("far", b, newOps...)
			works("end", w.S, w.C)
		})
		add(name, []int{0, 1}, 1, 2)
	}
	reg("close.openrace", "opens and accepts from both sides race with closing an end", win, func() {
		w := connect(nil, nil)
		how := []string{"client", "server", "both"}[mc.Choose(3, "how")]
		mc.ExploreOn()
		g := newGroup()
		for _, e := range []geminio.End{w.C, w.S} {
			e := e
			g.Go("open", func() {
				s, err := openStream(e, "m", "")
				if err == nil {
					s.Close()
				}
			})
			g.Go("accept", func() {
				s, err := e.AcceptStream()
				if err == nil {
					_, err = s.Read(make([]byte, 1))
					want(err != nil, "read of a closed stream")
				}
			})
		}
		closing(w, how)(g)
		g.Wait(closeLimit)
	})
	add("close.openrace", all, 1, 2)
	reg("close.full", "closing with every queue on the way full in both directions and nobody reading", win, func() {
		co, so := copts(), sopts()
		if mc.Choose(2, "buffers") == 1 {
			co.SetBufferSize(1, 1)
			so.SetBufferSize(1, 1)
		}
		w := connect(co, so)
		w.CA.SetCap(32)
		w.SB.SetCap(32)
		var a, b geminio.Stream = w.C, w.S
		onStream := mc.Choose(2, "stream") == 1
		if onStream {
			a, b = openPair(w.C, w.S, "m")
		}
		begun := false
		flood := func(g *group, name string, s geminio.Stream, message bool) {
			g.Go(name, func() {
				for i := 0; i < 400; i++ {
					var err error
					if message {
						err = s.Publish(bg(), cnss(s, "0123456789", true))
					} else {
						_, err = s.Write([]byte("0123456789"))
					}
					if err != nil {
						return
					}
				}
				want(begun, "%s: 400 writes to a side that reads nothing did not block", name)
			})
		}
		g := newGroup()
		flood(g, "client bytes", a, false)
		mode := mc.Choose(3, "mode")
		if mode > 0 {
			flood(g, "server bytes", b, false)
		}
		if mode > 1 {
			flood(g, "client messages", a, true)
		}
		settle(time.Second)
		how := mc.Choose(4, "how")
		mc.ExploreOn()
		g2 := newGroup()
		begun = true
		start := time.Now()
		if how != 1 {
			g2.Go("near close", func() { a.Close() })
		}
		if how == 1 || how == 2 {
			g2.Go("far close", func() { b.Close() })
		}
		if how == 3 && onStream {
			g2.Go("end close", func() { w.C.Close() })
		}
		g2.Wait(closeLimit)
		mc.Outcome("%d %d %v closed after %v", mode, how, onStream, time.Since(start).Round(time.Second))
		if onStream && how != 3 {
			w.closeBoth()
		}
		g.Wait(2 * closeLimit)
	})
	add("close.full", all, 0, 1)
	reg("close.handler", "a handler closes its own stream or end, or the peer's, while calls are in flight", win, func() {
		w := connect(nil, nil)
		a, b := openPair(w.C, w.S, "m")
		target := mc.Choose(4, "target")
		noErr("register", b.Register(bg(), "bye", func(_ ctxT, _ geminio.Request, rsp geminio.Response) {
			switch target {
			case 0:
				b.Close()
			case 1:
				w.S.Close()
			case 2:
				a.Close()
			case 3:
				w.C.Close()
			}
			rsp.SetData([]byte("bye"))
		}))
		mc.ExploreOn()
		g := newGroup()
		g.Go("call", func() {
			rsp, err := a.Call(bg(), "bye", newReq(a, "A", ""))
			if err == nil {
				eqBytes("response", rsp.Data(), []byte("bye"))
			}
			mc.Outcome("%d %s", target, errStr(err))
		})
		g.Go("read", func() {
			_, err := a.Read(make([]byte, 1))
			want(err != nil, "read succeeded")
		})
		g.Wait(closeLimit)
		mc.ExploreOff()
		settle(closeLimit)
		refuses("near", a, newOps...)
		refuses("far", b, newOps...)
	})
	add("close.handler", all, 1, 2)
	reg("close.callback", "the accept and closed callbacks close streams and ends themselves", win, func() {
		so := sopts()
		target := mc.Choose(4, "target")
		var w *W
		n := 0
		so.SetAcceptStreamFunc(func(s geminio.Stream) {
			switch target {
			case 0:
				s.Close()
			case 1:
				mc.GoNamed("close in accept", func() { w.S.Close() })
			}
		})
		so.SetClosedStreamFunc(func(s geminio.Stream) {
			n++
			switch target {
			case 2:
				s.Close()
			case 3:
				mc.GoNamed("close in closed", func() { w.S.Close() })
			}
		})
		w = connect(nil, so)
		mc.ExploreOn()
		g := newGroup()
		g.Go("open", func() {
			s, err := openStream(w.C, "m", "")
			if err != nil {
				return
			}
			if target > 1 {
				s.Close()
			}
			_, err = s.Read(make([]byte, 1))
			want(err != nil, "read of a closed stream")
		})
		g.Wait(closeLimit)
		settle(closeLimit)
		want(n <= 1 && (n == 1 || target == 1), "closed callback ran %d times", n)
		w.closeBoth()
	})
	add("close.callback", all, 1, 2)
	for _, side := range []string{"client", "server"} {
		side := side
		reg("close.silent."+side, "the peer has stopped answering: close still ends and releases everyone", win, func() {
			w := connect(nil, nil)
			me := geminio.End(w.C)
			other := geminio.End(w.S)
			if side == "server" {
				me, other = w.S, w.C
			}
			a, _ := openPair(me, other, "m")
			neverAnswers(other)
			ps := []*pending{
				startPending("end", me, "read", "call", "publish", "accept", "receive"),
				startPending("stream", a, "read", "receive", "pubasync"),
			}
			settle(100 * ms)
			w.CA.Stall()
			w.SB.Stall()
			first := mc.Choose(2, "stream first") == 1
			mc.ExploreOn()
			g := newGroup()
			if first {
				g.Go("close stream", func() { a.Close() })
			}
			g.Go("open", func() {
				_, err := openStream(me, "x", "")
				want(err != nil, "stream opened though the peer is silent")
			})
			g.Go("close", func() { me.Close() })
			g.Wait(closeLimit)
			for _, p := range ps {
				p.g.Wait(closeLimit)
			}
			refuses("closer", me, newEndOps...)
		})
		add("close.silent."+side, all, 1, 2)
	}
	add("after.one", all, 0, 1)
	add("after.two", all, 0, 0)
	mc.RegisterPlan(&mc.Plan{Property: "C11", QuickS: 180, ThoroughS: 840, Runs: runs})
}

var _ = fmt.Sprint
var _ = options.Call
