package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

// the operations that are mixed with each other; on a stream those up to "close".
var mixOps = []string{"read", "write", "receive", "call", "publish", "publish1", "callasync", "pubasync", "register", "deadline", "hijack", "info", "cancelled", "close", "accept", "netaccept", "open", "list"}

const nStreamOps = 14

func mixOp(sm geminio.Stream, k string) {
	switch k {
	case "info":
		sm.StreamID()
		sm.ClientID()
		sm.Meta()
		sm.Side()
		sm.Peer()
		sm.LocalAddr()
		sm.RemoteAddr()
	case "cancelled":
		ctx, cancel := timeoutOrCancel(false)
		sm.Call(ctx, "slow", newReq(sm, "X", ""))
		cancel()
	default:
		doOp(sm, k)
	}
}

func drain(sm geminio.Stream)  { taking(sm, true) }
func ackAll(sm geminio.Stream) { taking(sm, false) }

// taking receives and reads everything; every other message fails if fail is set.
func taking(sm geminio.Stream, fail bool) {
	mc.GoNamed("background receiver", func() {
		for i := 0; ; i++ {
			m, err := sm.Receive(bg())
			if err != nil {
				return
			}
			if i%2 == 1 && fail {
				m.Error(errX)
				continue
			}
			m.Done()
		}
	})
	mc.GoNamed("background reader", func() {
		b := make([]byte, 16)
		for {
			if _, err := sm.Read(b); err != nil {
				return
			}
		}
	})
}

func accepting(e geminio.End) {
	mc.GoNamed("background accepter", func() {
		for {
			s, err := e.AcceptStream()
			if err != nil {
				return
			}
			drain(s)
		}
	})
}

// mixPair connects two ends with a stream; mode 1 turns on callbacks and checks.
func mixPair(mode int) (w *W, a, b geminio.Stream) {
	co, so := copts(), sopts()
	if mode == 1 {
		cr, sr := &recorder{who: "client"}, &recorder{who: "server"}
		co.SetDelegate(&cliDlgt{cr})
		so.SetDelegate(&srvDlgt{sr})
		co.SetRemoteRPCCheck()
		so.SetRemoteRPCCheck()
		cb := func(geminio.Stream) {}
		so.SetClosedStreamFunc(cb)
		so.SetAcceptStreamFunc(func(s geminio.Stream) { drain(s) })
	}
	w = connect(co, so)
	if mode == 1 {
		a, b = openPair(w.S, w.C, "m") // the server takes streams by callback
		a, b = b, a
	} else {
		a, b = openPair(w.C, w.S, "m")
		accepting(w.S)
	}
	for _, s := range []geminio.Stream{w.C, w.S, a, b} {
		answering(s)
	}
	drain(w.S)
	drain(b)
	return w, a, b
}

func answering(s geminio.Stream) {
	neverAnswersWithin(s, 0)
	noErr("register", s.Register(bg(), "slow", func(ctx ctxT, _ geminio.Request, _ geminio.Response) {
		select {
		case <-ctx.Done():
		case <-time.After(time.Second):
		}
	}))
}

// others are the operations mixed in from elsewhere.
type otherOp struct {
	name string
	f    func(w *W, a, b geminio.Stream)
}

var others = []otherOp{
	{"client closes", func(w *W, a, b geminio.Stream) { w.C.Close() }},
	{"server closes", func(w *W, a, b geminio.Stream) { w.S.Close() }},
	{"client stream closes", func(w *W, a, b geminio.Stream) { a.Close() }},
	{"server stream closes", func(w *W, a, b geminio.Stream) { b.Close() }},
	{"reset", func(w *W, a, b geminio.Stream) { w.CA.Kill(false) }},
	{"eof", func(w *W, a, b geminio.Stream) { w.CA.Kill(true) }},
	{"server opens", func(w *W, a, b geminio.Stream) {
		s, err := openStream(w.S, "from the server", "")
		if err == nil {
			drain(s)
			s.Close()
		}
	}},
	{"server stream calls", func(w *W, a, b geminio.Stream) { doOp(b, "call") }},
	{"server calls", func(w *W, a, b geminio.Stream) { doOp(w.S, "call") }},
	{"server publishes", func(w *W, a, b geminio.Stream) { doOp(w.S, "publish") }},
	{"server stream writes", func(w *W, a, b geminio.Stream) { doOp(b, "write") }},
	{"server stream registers", func(w *W, a, b geminio.Stream) { doOp(b, "register") }},
	{"server lists", func(w *W, a, b geminio.Stream) { doOp(w.S, "list") }},
}

func init() {
	var runs []mc.Run
	all := []int{0, 1, 2}
	add := func(name string, pols []int, q, t int) {
		runs = append(runs, mc.Run{Scenario: name, Policies: pols, Quick: q, Thorough: t})
	}
	mix := func(stream bool, mode, first, n int) func() {
		return func() {
			w, a, b := mixPair(mode)
			obj, ops := geminio.Stream(w.C), mixOps
			if stream {
				obj, ops = a, mixOps[:nStreamOps]
			}
			type job struct {
				name string
				f    func()
			}
			jobs := []job{{ops[first], func() { mixOp(obj, ops[first]) }}}
			lo := first
			for i := 1; i < n; i++ {
				k := lo + mc.Choose(len(ops)-lo+len(others), "operation")
				lo = k
				if k < len(ops) {
					jobs = append(jobs, job{ops[k], func() { mixOp(obj, ops[k]) }})
					continue
				}
				o := others[k-len(ops)]
				jobs = append(jobs, job{o.name, func() { o.f(w, a, b) }})
			}
			mc.ExploreOn()
			g := newGroup()
			for i, j := range jobs {
				g.Go(fmt.Sprint(i, " ", j.name), j.f)
			}
			settle(50 * ms)
			mc.ExploreOff()
			settle(3 * time.Second)
			w.closeBoth()
			g.Wait(closeLimit)
			mc.CountCase()
			settle(2 * closeLimit)
			leaks("after everything was closed")
		}
	}
	for i := range mixOps {
		for mode := 0; mode < 2; mode++ {
			name := fmt.Sprintf("mix.end.%d.%s", mode, mixOps[i])
			reg(name, "one operation on an end at the same time as every other operation", win, mix(false, mode, i, 2))
			add(name, all[:1], 1-mode, 1)
			add(name, all[1:2], 0, 1)
			name = fmt.Sprintf("mix3.end.%d.%s", mode, mixOps[i])
			reg(name, "one operation on an end at the same time as every two other operations", win, mix(false, mode, i, 3))
			add(name, all[:2], 0, 1)
			if i < nStreamOps {
				name := fmt.Sprintf("mix.stream.%d.%s", mode, mixOps[i])
				reg(name, "one operation on a stream at the same time as every other operation", win, mix(true, mode, i, 2))
				add(name, all[:1], 1-mode, 1)
				add(name, all[1:2], 0, 1)
				name = fmt.Sprintf("mix3.stream.%d.%s", mode, mixOps[i])
				reg(name, "one operation on a stream at the same time as every two other operations", win, mix(true, mode, i, 3))
				add(name, all[:2], 0, 1)
			}
		}
	}
	reg("mix.ack", "a received message is acknowledged by several goroutines while things end", win, func() {
		w := connect(nil, nil)
		a, b := openPair(w.C, w.S, "m")
		g := newGroup()
		g.Go("publish", func() { doOp(a, "publish") })
		m := recv(b)
		how := mc.Choose(5, "meanwhile")
		mc.ExploreOn()
		g.Go("done", func() { m.Done() })
		g.Go("error", func() { m.Error(errors.New("failed")) })
		switch how {
		case 1:
			g.Go("close a", func() { a.Close() })
		case 2:
			g.Go("close b", func() { b.Close() })
		case 3:
			g.Go("close server", func() { w.S.Close() })
		case 4:
			w.CA.Kill(false)
		}
		g.Wait(closeLimit)
		mc.ExploreOff()
		g.Go("done again", func() { m.Done() })
		g.Wait(closeLimit)
		w.closeBoth()
		g.Go("done after close", func() { m.Done(); m.Error(errX) })
		g.Wait(closeLimit)
	})
	add("mix.ack", all, 1, 2)
	reg("mix.listener", "clients, accepts, closes and information calls on a listener all at once", win, func() {
		ln := listen(sopts())
		k := mc.Choose(4, "client")
		mc.ExploreOn()
		g := newGroup()
		g.Go("accept", func() {
			e, err := ln.AcceptEnd()
			if err == nil {
				e.Close()
			}
		})
		g.Go("net accept", func() {
			c, err := ln.Accept()
			if err == nil {
				c.Close()
			}
		})
		g.Go("client", func() {
			if k > 0 {
				c := misbehave(k - 1)
				settle(50 * ms)
				c.Close()
				return
			}
			c, err := dialEnd("c")
			if err == nil {
				c.Close()
			}
		})
		g.Go("addr", func() { ln.Addr() })
		settle(50 * ms)
		g.Go("close 1", func() { ln.Close() })
		g.Go("close 2", func() { ln.Close() })
		g.Wait(closeLimit)
		mc.ExploreOff()
	})
	add("mix.listener", all, 1, 2)
	reg("mix.data", "requests and messages are reused and their setters called by several goroutines", win, func() {
		w, a, b := mixPair(0)
		mc.ExploreOn()
		g := newGroup()
		for i := 0; i < 2; i++ {
			i := i
			g.Go("call", func() { a.Call(bg(), "never", newReq(a, "X", "")) })
			g.Go("call async", func() {
				ch := make(chan *geminio.Call, 2)
				o := options.Call()
				o.SetTimeout(time.Second)
				_, err := b.CallAsync(bg(), "slow", newReq(b, "X", ""), ch, o)
				if err == nil && i == 0 {
					<-ch
				}
			})
		}
		g.Wait(closeLimit)
		mc.ExploreOff()
		w.closeBoth()
	})
	add("mix.data", all, 1, 2)
	mc.RegisterPlan(&mc.Plan{Property: "C18", QuickS: 300, ThoroughS: 840, Runs: runs})
}
