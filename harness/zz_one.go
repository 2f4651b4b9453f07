package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// The scenarios of this file do one thing each, and are small enough for one
// more preemption than their larger siblings get within the same time.

// alsoRun adds runs to a plan: first is explored two deep by the quick check.
func alsoRun(property, scenario string, first []int, rest []int) {
	p := mc.Plans()[property]
	if len(first) > 0 {
		p.Runs = append(p.Runs, mc.Run{Scenario: scenario, Policies: first, Quick: 2, Thorough: 2})
	}
	if len(rest) > 0 {
		p.Runs = append(p.Runs, mc.Run{Scenario: scenario, Policies: rest, Quick: 1, Thorough: 2})
	}
}

func init() {
	sides := []string{"client", "server"}
	swap := func(w *W, side string) (geminio.End, geminio.End) {
		if side == "server" {
			return w.S, w.C
		}
		return w.C, w.S
	}
	for _, side := range sides {
		side := side
		reg("one.close."+side, "one end closes, the other one sees the end", win, func() {
			w := connect(nil, nil)
			a, b := swap(w, side)
			mc.ExploreOn()
			noErr("close", a.Close())
			within(closeLimit, "the other end's read", func() {
				_, err := b.Read(make([]byte, 1))
				want(err == io.EOF, "read on the other end: %v", err)
			})
			mc.ExploreOff()
			settle(closeLimit)
			refuses("closer", a, newEndOps...)
			refuses("closed", b, newEndOps...)
			leaks("after close")
		})
		if side == "server" {
			alsoRun("C11", "one.close."+side, []int{0}, []int{1, 2})
		} else {
			alsoRun("C11", "one.close."+side, nil, []int{0, 1, 2})
		}
		reg("one.stream.close."+side, "a stream closes at one side, the other one sees the end, the ends go on", win, func() {
			w := connect(nil, nil)
			a, b := openPair(w.C, w.S, "m")
			if side == "server" {
				a, b = b, a
			}
			mc.ExploreOn()
			noErr("close", a.Close())
			within(closeLimit, "the other side's receive", func() {
				_, err := b.Receive(bg())
				want(err == io.EOF, "receive at the other side: %v", err)
			})
			mc.ExploreOff()
			settle(closeLimit)
			refuses("closer", a, newOps...)
			refuses("closed", b, newOps...)
			want(len(w.C.ListStreams()) == 1 && len(w.S.ListStreams()) == 1, "%d and %d streams are listed", len(w.C.ListStreams()), len(w.S.ListStreams()))
			mustWrite("write", w.C, []byte("x"))
			readFull("read", w.S, 1)
			w.closeBoth()
			settle(time.Second)
			leaks("after close")
		})
		if side == "client" {
			alsoRun("C11", "one.stream.close."+side, []int{0}, []int{1, 2})
		} else {
			alsoRun("C11", "one.stream.close."+side, nil, []int{0, 1, 2})
		}

		reg("one.open."+side, "one stream is opened, accepted, and used at once", win, func() {
			w := connect(nil, nil)
			a, b := swap(w, side)
			mc.ExploreOn()
			g := newGroup()
			var x, y geminio.Stream
			g.Go("open", func() {
				s, err := openStream(a, "m", "p")
				noErr("open", err)
				x = s
				mustWrite("write", s, []byte("x"))
			})
			g.Go("accept", func() {
				s, err := b.AcceptStream()
				noErr("accept", err)
				y = s
				want(string(s.Meta()) == "m" && s.Peer() == "p", "accepted meta %q peer %q", s.Meta(), s.Peer())
				eqBytes("read", readFull("read", s, 1), []byte("x"))
			})
			g.Wait(2 * time.Second)
			mc.ExploreOff()
			want(x.StreamID() == y.StreamID(), "stream %d was accepted as %d", x.StreamID(), y.StreamID())
			settle(time.Second)
			for _, e := range []geminio.End{a, b} {
				want(len(e.ListStreams()) == 2, "%d streams are listed", len(e.ListStreams()))
			}
			w.closeBoth()
		})
		alsoRun("C20", "one.open."+side, []int{0}, []int{1, 2})
		alsoRun("C10", "one.open."+side, []int{1}, nil)

		reg("one.register."+side, "a method is registered and called, then registered anew and called", win, func() {
			w := connect(nil, nil)
			a, b := swap(w, side)
			h := func(what string) geminio.RPC {
				return func(_ context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData([]byte(what)) }
			}
			mc.ExploreOn()
			noErr("register", a.Register(bg(), "m", h("one")))
			rsp, err := b.Call(bg(), "m", b.NewRequest(nil))
			noErr("call", err)
			eqBytes("answer", rsp.Data(), []byte("one"))
			mc.ExploreOff()
			w.closeBoth()
		})
		alsoRun("C16", "one.register."+side, []int{0}, []int{1, 2})

		reg("one.wait."+side, "an end waits for one method, checks its peer's methods, and calls at once", win, func() {
			w := &W{}
			w.CA, w.SB = vnet.Pair()
			co, so := copts(), sopts()
			check := mc.Choose(2, "check") == 1
			early := mc.Choose(2, "early") == 1
			h := func(_ ctxT, req geminio.Request, rsp geminio.Response) { rsp.SetData([]byte("done")) }
			me := &geminio.MethodRPC{Method: "a", RPC: h}
			if side == "client" {
				co.SetWaitRemoteRPCs("a")
				if check {
					co.SetRemoteRPCCheck()
				}
				if early {
					so.SetRegisterLocalRPCs(me)
				}
			} else {
				so.SetWaitRemoteRPCs("a")
				if check {
					so.SetRemoteRPCCheck()
				}
				if early {
					co.SetRegisterLocalRPCs(me)
				}
			}
			mc.ExploreOn()
			g := newGroup()
			run := func(mine bool, e geminio.End) {
				if !mine {
					if !early {
						noErr("register", e.Register(bg(), "a", h))
					}
					return
				}
				rsp, err := e.Call(bg(), "a", e.NewRequest(nil))
				noErr("call of what was waited for", err)
				eqBytes("answer", rsp.Data(), []byte("done"))
			}
			g.Go("client", func() {
				e, err := client.NewEndWithConn(w.CA, co)
				noErr("client", err)
				w.C = e
				run(side == "client", e)
			})
			g.Go("server", func() {
				e, err := server.NewEndWithConn(w.SB, so)
				noErr("server", err)
				w.S = e
				run(side == "server", e)
			})
			g.Wait(5 * time.Second)
			mc.ExploreOff()
			w.closeBoth()
		})
		alsoRun("C16", "one.wait."+side, nil, []int{0, 1, 2})
	}

	for _, k := range []string{"call", "read", "receive", "accept", "publish"} {
		k := k
		for _, how := range []string{"reset", "eof", "remote close", "close"} {
			how := how
			name := "one.blocked." + k + "." + how
			if how == "remote close" {
				name = "one.blocked." + k + ".remote"
			}
			reg(name, "an operation blocks; the connection goes; the operation returns an error", win, func() {
				w := connect(nil, nil)
				noErr("register", w.S.Register(bg(), "never", func(ctxT, geminio.Request, geminio.Response) { time.Sleep(closeLimit + 10*time.Second) }))
				done := make(chan error, 1)
				mc.GoNamed(k, func() { done <- doOp(w.C, k) })
				settle(100 * ms)
				mc.ExploreOn()
				switch how {
				case "reset":
					w.SB.Kill(false)
				case "eof":
					w.SB.Kill(true)
				case "remote close":
					w.S.Close()
				default:
					w.C.Close()
				}
				within(closeLimit, "the pending "+k, func() {
					err := <-done
					want(err != nil, "%s succeeded though nothing answered", k)
					mc.Outcome("%s", errStr(err))
				})
				mc.ExploreOff()
				settle(closeLimit)
				refuses("client", w.C, newEndOps...)
				refuses("server", w.S, newEndOps...)
				w.closeBoth()
				settle(20 * time.Second)
				leaks("after the end")
			})
			switch {
			case how == "reset" && k == "call", how == "eof" && k == "publish", how == "eof" && k == "accept":
				alsoRun("C12", name, []int{0}, []int{1, 2})
			case how == "reset" || how == "eof":
				alsoRun("C12", name, nil, []int{0, 1, 2})
			default:
				alsoRun("C11", name, nil, []int{0, 1, 2})
			}
		}
	}

	for k, fn := range []bool{true, false} {
		fn := fn
		name := fmt.Sprint("one.early.", k)
		reg(name, "a stream which was opened before the server's constructor returns is closed while it does", win, func() {
			b := newBoard()
			w := &W{}
			w.CA, w.SB = vnet.Pair()
			g := newGroup()
			o := b.opts(fn, true)
			o.SetWaitRemoteRPCs("go")
			g.Go("server", func() {
				var err error
				w.S, err = server.NewEndWithConn(w.SB, o)
				noErr("constructor", err)
				if !fn {
					s, err := w.S.AcceptStream()
					noErr("accept", err)
					b.took(s)
				}
			})
			var err error
			w.C, err = client.NewEndWithConn(w.CA, copts())
			noErr("constructor", err)
			s, err := openStream(w.C, "m", "")
			noErr("open", err)
			id := s.StreamID()
			settle(100 * ms)
			mc.ExploreOn()
			g.Go("register", func() { noErr("register", w.C.Register(bg(), "go", newEcho(w.C).handle)) })
			g.Go("close", func() { noErr("close", s.Close()) })
			g.Wait(40 * time.Second)
			mc.ExploreOff()
			settle(closeLimit)
			want(b.accepted[id] != nil && len(b.accepted) == 1, "accepted: %d streams", len(b.accepted))
			want(b.closed[id] == 1, "stream reported closed %d times", b.closed[id])
			w.closeBoth()
		})
		alsoRun("C20", name, []int{0}, []int{1, 2})
	}

	reg("one.note", "one client comes and goes, with one stream: both delegates are told, in order", win, func() {
		cr, sr := &recorder{who: "client"}, &recorder{who: "server"}
		w := &W{}
		w.CA, w.SB = vnet.Pair()
		mc.ExploreOn()
		connectOn(w, copts(func(o *client.EndOptions) { o.SetDelegate(&cliDlgt{cr}) }), sopts(func(o *server.EndOptions) { o.SetDelegate(&srvDlgt{sr}) }))
		w.C.Close()
		within(closeLimit, "the server's accept", func() {
			_, err := w.S.AcceptStream()
			want(err != nil, "a stream out of nothing")
		})
		mc.ExploreOff()
		settle(closeLimit)
		for _, r := range []*recorder{cr, sr} {
			want(r.connOn == 1 && r.connOff == 1, "%s: conn online %d times, offline %d times", r.who, r.connOn, r.connOff)
			r.allOffline()
		}
	})
	alsoRun("C19", "one.note", []int{0}, []int{1, 2})

	for _, how := range []string{"eof", "reset"} {
		how := how
		reg("one.retry."+how, "a retrying end loses its connection and comes back", win, func() {
			s := newSite()
			s.start()
			mc.ExploreOn()
			s.lose(how)
			settle(50 * ms)
			mc.ExploreOff()
			s.awaitBack("loss", 1, backLimit)
			settle(100 * ms)
			want(len(s.up) == 2 && s.dials == 2, "%d server ends, %d dials", len(s.up), s.dials)
			s.serves("after coming back", []string{"m"}, "^h")
			s.usable("after coming back")
			s.finish()
		})
		alsoRun("C15", "one.retry."+how, []int{0}, nil)
	}
	reg("one.listen", "one client connects to a listener and is accepted, then the listener closes", win, func() {
		ln := listen(sopts())
		mc.ExploreOn()
		g := newGroup()
		a := newAccepts()
		var c geminio.End
		g.Go("accept", func() { a.one(ln, false) })
		g.Go("client", func() { c, _ = dialEnd("c") })
		g.Wait(5 * time.Second)
		want(a.byMeta["c"] != nil, "the client was not accepted: %v", a.errs)
		noErr("close", ln.Close())
		_, err := ln.AcceptEnd()
		want(err != nil, "accept after close succeeded")
		mc.ExploreOff()
		c.Close()
		a.byMeta["c"].Close()
		settle(time.Second)
		leaks("after close")
	})
	alsoRun("C22", "one.listen", []int{0}, []int{1, 2})
}
