package main

import (
	"fmt"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// lossLimit bounds how long anything may hang on after the connection broke:
// both ends notice at once, the limit of the close handshake is 10 s.
const lossLimit = 15 * time.Second

// conversation runs every kind of operation over a connection that may break
// at any point; nothing hangs, and what is reported successful was executed.
type conversation struct {
	w          *W
	ran        map[string]int // handler executions
	doneMsg    map[string]int // messages marked done
	acceptedS  map[uint64]bool
	acceptedC  map[uint64]bool
	registered map[string]bool // as told to the delegates
	raw        []byte
}

func (cv *conversation) op(what string, f func() error) error {
	var err error
	within(lossLimit, what, func() { err = f() })
	return err
}

// setup brings the two ends up; either may fail.
func (cv *conversation) setup() bool {
	w := cv.w
	g := newGroup()
	var cerr, serr error
	co, so := copts(), sopts()
	co.SetDelegate(&cliDlgt{&recorder{who: "x", reg: cv.registered}})
	so.SetDelegate(&srvDlgt{&recorder{who: "x", reg: cv.registered}})
	g.Go("client constructor", func() { w.C, cerr = client.NewEndWithConn(w.CA, co) })
	g.Go("server constructor", func() { w.S, serr = server.NewEndWithConn(w.SB, so) })
	g.Wait(lossLimit)
	want((cerr == nil) == (w.C != nil), "client constructor: end %v and error %v", w.C != nil, cerr)
	want((serr == nil) == (w.S != nil), "server constructor: end %v and error %v", w.S != nil, serr)
	return cerr == nil && serr == nil
}

func (cv *conversation) run() {
	w := cv.w
	both := cv.setup()
	if !both {
		// the survivor notices and closes like any other
		g := newGroup()
		for _, e := range []geminio.End{w.C, w.S} {
			if e == nil {
				continue
			}
			e := e
			g.Go("accept of the survivor", func() {
				_, err := e.AcceptStream()
				want(err != nil, "stream accepted from a peer that does not exist")
			})
			g.Go("call of the survivor", func() {
				_, err := e.Call(bg(), "echo", newReq(e, "A", ""))
				want(err != nil, "call to a peer that does not exist succeeded")
			})
		}
		g.Wait(lossLimit)
		for _, e := range []geminio.End{w.C, w.S} {
			if e != nil {
				e.Close()
			}
		}
		return
	}
	h := func(_ ctxT, req geminio.Request, rsp geminio.Response) {
		cv.ran[string(req.Data())]++
		rsp.SetData([]byte("re-" + string(req.Data())))
	}
	bgG := newGroup()
	for _, e := range []geminio.End{w.C, w.S} {
		e := e
		acc := cv.acceptedS
		if e == w.C {
			acc = cv.acceptedC
		}
		bgG.Go("accept loop", func() {
			for {
				s, err := e.AcceptStream()
				if err != nil {
					return
				}
				acc[s.StreamID()] = true
				bgG.n++ // waited for below
				mc.GoNamed("receive loop of a stream", func() {
					cv.receive(s)
					bgG.done <- "stream"
				})
			}
		})
		bgG.Go("receive loop", func() { cv.receive(e) })
	}
	bgG.Go("read loop", func() {
		b := make([]byte, 3)
		for {
			n, err := w.S.Read(b)
			cv.raw = append(cv.raw, b[:n]...)
			if err != nil {
				return
			}
		}
	})
	call := func(sm geminio.Stream, method, data string) {
		var rsp geminio.Response
		err := cv.op("call "+data, func() (err error) {
			rsp, err = sm.Call(bg(), method, newReq(sm, data, ""))
			return
		})
		want(cv.ran[data] <= 1, "call %s ran %d times", data, cv.ran[data])
		if err == nil {
			want(cv.ran[data] == 1, "call %s succeeded without running", data)
			eqBytes("response of "+data, rsp.Data(), []byte("re-"+data))
		}
	}
	publish := func(sm geminio.Stream, data string) {
		err := cv.op("publish "+data, func() error { return sm.Publish(bg(), cnss(sm, data, false)) })
		want(cv.doneMsg[data] <= 1, "message %s received %d times", data, cv.doneMsg[data])
		want(err != nil || cv.doneMsg[data] == 1, "publish of %s succeeded though nobody marked it done", data)
	}
	register := func(sm geminio.Stream, m string) {
		err := cv.op("register "+m, func() error { return sm.Register(bg(), m, h) })
		want(err != nil || cv.registered[m], "register of %s succeeded though the peer does not know it", m)
	}
	register(w.S, "echo")
	register(w.C, "cecho")
	call(w.C, "echo", "A")
	call(w.S, "cecho", "B")
	publish(w.C, "M1")
	publish(w.S, "M2")
	cv.op("write", func() error { _, err := w.C.Write([]byte("hello")); return err })
	for i, e := range []geminio.End{w.C, w.S} {
		var a geminio.Stream
		err := cv.op("open", func() (err error) { a, err = openStream(e, "m", ""); return })
		if err != nil {
			continue
		}
		acc := []map[uint64]bool{cv.acceptedS, cv.acceptedC}[i]
		register(a, "secho"+string(rune('0'+i)))
		publish(a, "M3"+string(rune('0'+i)))
		call(a, "echo", "N"+string(rune('0'+i))) // nobody registered it on this stream
		id := a.StreamID()
		if i == 0 {
			cv.op("close stream", a.Close)
		}
		settle(10 * ms)
		want(acc[id], "stream %d was opened but never accepted", id)
	}
	cv.op("close client", w.C.Close)
	cv.op("close server", w.S.Close)
	bgG.Wait(lossLimit)
	want(string(cv.raw) == "hello"[:len(cv.raw)], "read %q of the written bytes", cv.raw)
	for _, e := range []geminio.End{w.C, w.S} {
		refuses("afterwards", e, newEndOps...)
	}
}

func (cv *conversation) receive(sm geminio.Stream) {
	for {
		m, err := sm.Receive(bg())
		if err != nil {
			return
		}
		cv.doneMsg[string(m.Data())]++
		m.Done()
	}
}

func newConversation() *conversation {
	cv := &conversation{w: &W{}, ran: map[string]int{}, doneMsg: map[string]int{}, acceptedS: map[uint64]bool{}, acceptedC: map[uint64]bool{}, registered: map[string]bool{}}
	cv.w.CA, cv.w.SB = vnet.Pair()
	return cv
}

func init() {
	var runs []mc.Run
	add := func(name string, pols []int, q, t int) {
		runs = append(runs, mc.Run{Scenario: name, Policies: pols, Quick: q, Thorough: t})
	}
	all := []int{0, 1, 2}
	const maxBytes, maxWrites = 2400, 110
	for _, side := range []string{"client", "server"} {
		side := side
		out := func(w *W) *vnet.Conn {
			if side == "client" {
				return w.CA
			}
			return w.SB
		}
		reg("loss.cut."+side, "the connection breaks after every single byte the "+side+" sends during a whole conversation", win, func() {
			cv := newConversation()
			n := mc.Choose(maxBytes, "cut after byte") + 1
			out(cv.w).CutWriteAt(n, mc.Choose(2, "eof") == 1)
			cv.run()
			mc.Outcome("%v", out(cv.w).Written() >= n)
			settle(30 * time.Second)
			leaks("after the loss")
		})
		add("loss.cut."+side, all, 0, 0)
		reg("loss.write."+side, "every write of the "+side+" to the connection fails once", win, func() {
			cv := newConversation()
			out(cv.w).FailWrite(mc.Choose(maxWrites, "fail write") + 1)
			cv.run()
			settle(30 * time.Second)
			leaks("after the failed write")
		})
		add("loss.write."+side, all, 0, 1)
		reg("loss.silent."+side, "the "+side+"'s sending side is shut down after every packet", win, func() {
			cv := newConversation()
			out(cv.w).HalfCloseAfter(mc.Choose(maxWrites, "half-close after write") + 1)
			cv.run()
			settle(30 * time.Second)
			leaks("after the half-close")
		})
		add("loss.silent."+side, all, 0, 1)
	}
	breaks := []string{"reset", "eof", "half-close client", "half-close server", "write error client", "write error server"}
	breakIt := func(w *W, how string) {
		switch how {
		case "reset":
			w.CA.Kill(false)
		case "eof":
			w.CA.Kill(true)
		case "half-close client":
			w.CA.CloseWrite()
		case "half-close server":
			w.SB.CloseWrite()
		case "write error client":
			w.CA.FailWrite(1)
		case "write error server":
			w.SB.FailWrite(1)
		}
	}
	reg("loss.pending", "the connection breaks while every kind of operation blocks on both ends and on a stream", win, func() {
		w := connect(nil, nil)
		a, b := openPair(w.C, w.S, "m")
		for _, s := range []geminio.Stream{w.C, w.S, a, b} {
			neverAnswers(s)
		}
		ps := []*pending{
			startPending("client end", w.C, "read", "call", "callasync", "accept"),
			startPending("server end", w.S, "read", "call", "publish", "accept"),
			startPending("client stream", a, "read", "call", "receive"),
			startPending("server stream", b, "read", "pubasync"),
		}
		settle(100 * ms)
		how := mc.Choose(4, "how")
		mc.ExploreOn()
		breakIt(w, breaks[how])
		for _, p := range ps {
			p.g.Wait(lossLimit)
			for k, err := range p.errs {
				want(err != nil || k == "receive" || k == "pubasync", "%s succeeded though nothing answered", k)
			}
		}
		mc.ExploreOff()
		settle(time.Second)
		for _, s := range []geminio.Stream{w.C, w.S} {
			refuses("end", s, newEndOps...)
		}
		refuses("stream", a, newOps...)
		refuses("stream", b, newOps...)
		w.closeBoth()
	})
	add("loss.pending", all, 1, 2)
	for _, k := range []string{"call", "publish", "publish1", "callasync", "pubasync", "register", "accept", "open", "read", "write", "receive", "close"} {
		k := k
		reg("loss.race."+k, "the connection breaks while an operation is under way", win, func() {
			cv := newConversation()
			w := cv.w
			if !cv.setup() {
				mc.FailNow("setup failed")
			}
			how := breaks[mc.Choose(len(breaks), "how")]
			noErr("register", w.S.Register(bg(), "echo", func(_ ctxT, req geminio.Request, rsp geminio.Response) {
				cv.ran[string(req.Data())]++
				rsp.SetData([]byte("re-" + string(req.Data())))
			}))
			g := newGroup()
			mc.ExploreOn()
			g.Go("break", func() { breakIt(w, how) })
			g.Go("receive loop", func() { cv.receive(w.S) })
			g.Go("accept loop", func() {
				for {
					s, err := w.S.AcceptStream()
					if err != nil {
						return
					}
					cv.acceptedS[s.StreamID()] = true
				}
			})
			g.Go("operation", func() {
				switch k {
				case "call":
					rsp, err := w.C.Call(bg(), "echo", newReq(w.C, "A", ""))
					mc.Outcome("%s", errStr(err))
					if err == nil {
						want(cv.ran["A"] == 1, "call succeeded but ran %d times", cv.ran["A"])
						eqBytes("response", rsp.Data(), []byte("re-A"))
					}
				case "callasync":
					c, err := w.C.CallAsync(bg(), "echo", newReq(w.C, "A", ""), nil)
					if err == nil {
						c = <-c.Done
						err = c.Error
						if err == nil {
							want(cv.ran["A"] == 1, "call succeeded but ran %d times", cv.ran["A"])
							eqBytes("response", c.Response.Data(), []byte("re-A"))
						}
					}
					mc.Outcome("%s", errStr(err))
				case "publish":
					err := w.C.Publish(bg(), cnss(w.C, "A", false))
					mc.Outcome("%s", errStr(err))
					want(err != nil || cv.doneMsg["A"] == 1, "publish succeeded but the message was marked done %d times", cv.doneMsg["A"])
				case "pubasync":
					p, err := w.C.PublishAsync(bg(), cnss(w.C, "A", false), nil)
					if err == nil {
						p = <-p.Done
						err = p.Error
					}
					mc.Outcome("%s", errStr(err))
					want(err != nil || cv.doneMsg["A"] == 1, "publish succeeded but the message was marked done %d times", cv.doneMsg["A"])
				case "register":
					err := w.C.Register(bg(), "m", func(ctxT, geminio.Request, geminio.Response) {})
					mc.Outcome("%s", errStr(err))
					want(err != nil || cv.registered["m"], "register succeeded though the peer does not know the method")
				case "open":
					s, err := openStream(w.C, "m", "")
					mc.Outcome("%s", errStr(err))
					if err == nil {
						settle(ms)
						want(cv.acceptedS[s.StreamID()], "stream opened but never accepted")
						_, err = s.Read(make([]byte, 1))
						want(err != nil, "read of a stream nobody writes to")
					}
				case "read", "accept", "receive":
					want(doOp(w.C, k) != nil, "%s succeeded out of nothing", k)
				default:
					mc.Outcome("%s", errStr(doOp(w.C, k)))
				}
			})
			if how == "write error client" || how == "write error server" {
				// nothing is written any more: the next heartbeat (20 s) notices
				g.Wait(lossLimit + 45*time.Second)
			} else {
				g.Wait(lossLimit)
			}
			mc.ExploreOff()
			settle(time.Second)
			want(cv.ran["A"] <= 1 && cv.doneMsg["A"] <= 1, "executed %d and %d times", cv.ran["A"], cv.doneMsg["A"])
			refuses("client", w.C, newEndOps...)
			refuses("server", w.S, newEndOps...)
			w.closeBoth()
			settle(time.Second)
			leaks("after the loss")
		})
		add("loss.race."+k, []int{0, 1}, 1, 2)
	}
	reg("loss.full", "the connection breaks with every queue on the way full in both directions and nobody reading", win, func() {
		w := connect(nil, nil)
		w.CA.SetCap(32)
		w.SB.SetCap(32)
		var a, b geminio.Stream = w.C, w.S
		if mc.Choose(2, "stream") == 1 {
			a, b = openPair(w.C, w.S, "m")
		}
		g := newGroup()
		for i, s := range []geminio.Stream{a, b} {
			s := s
			g.Go(fmt.Sprintf("bytes %d", i), func() {
				for {
					if _, err := s.Write([]byte("0123456789")); err != nil {
						return
					}
				}
			})
			g.Go(fmt.Sprintf("accept %d", i), func() { []geminio.End{w.C, w.S}[i].AcceptStream() })
			g.Go(fmt.Sprintf("receive %d", i), func() { s.Receive(bg()) })
		}
		settle(time.Second)
		how := mc.Choose(2, "how")
		mc.ExploreOn()
		breakIt(w, breaks[how])
		g.Wait(2 * lossLimit)
		w.closeBoth()
		settle(time.Second)
		leaks("after the loss")
	})
	add("loss.full", all, 0, 1)
	add("msg.backlog", all[:2], 0, 1)
	add("msg.backlog", all[2:], 1, 2)
	mc.RegisterPlan(&mc.Plan{Property: "C12", QuickS: 150, ThoroughS: 840, Runs: runs})
}
