package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

func openStream(e geminio.End, meta, peer string) (geminio.Stream, error) {
	o := options.OpenStream()
	o.SetMeta([]byte(meta))
	if peer != "" {
		o.SetPeer(peer)
	}
	return e.OpenStream(o)
}

// sameStream checks that both sides of a stream agree on it.
func sameStream(a, b geminio.Stream, meta, peer string) {
	want(a.StreamID() == b.StreamID(), "stream %s: IDs %d and %d", meta, a.StreamID(), b.StreamID())
	want(a.ClientID() == b.ClientID(), "stream %s: client IDs %d and %d", meta, a.ClientID(), b.ClientID())
	want(a.StreamID() > 1, "stream %s has the ID %d of the end's own stream", meta, a.StreamID())
	eqBytes("meta of the opener", a.Meta(), []byte(meta))
	eqBytes("meta of the accepter", b.Meta(), []byte(meta))
	want(a.Peer() == peer && b.Peer() == peer, "stream %s: peers %q and %q, expected %q", meta, a.Peer(), b.Peer(), peer)
}

// works checks that a stream carries calls, messages and bytes both ways.
func works(what string, a, b geminio.Stream) {
	e := newEcho(b)
	noErr(what+": register", b.Register(bg(), "w-"+what, e.handle))
	checkCall(a, "w-"+what, "W")
	g := newGroup()
	g.Go(what+" publish", func() { noErr(what+": publish", b.Publish(bg(), cnss(b, "M"+what, false))) })
	g.Go(what+" receive", func() {
		m := recv(a)
		checkMsg(a, m, "M"+what)
		noErr("done", m.Done())
	})
	g.Wait(5 * time.Second)
	g = newGroup()
	g.Go(what+" write", func() { mustWrite("write", a, []byte("raw"+what)) })
	g.Go(what+" read", func() { eqBytes(what, readFull(what, b, 3+len(what)), []byte("raw"+what)) })
	g.Wait(5 * time.Second)
}

func listed(e geminio.End, sm geminio.Stream) bool {
	for _, x := range e.ListStreams() {
		if x.StreamID() == sm.StreamID() {
			return true
		}
	}
	return false
}

func init() {
	type op struct {
		side int // 0 client opens
		meta string
		peer string
	}
	open := func(name, doc string, cfg mc.Config, ops []op, withTraffic bool) {
		reg(name, doc, cfg, func() {
			w := connect(nil, nil)
			ends := []geminio.End{w.C, w.S}
			mc.ExploreOn()
			g := newGroup()
			opened := map[string]geminio.Stream{}
			accepted := map[string]geminio.Stream{}
			for _, o := range ops {
				o := o
				g.Go("open "+o.meta, func() {
					s, err := openStream(ends[o.side], o.meta, o.peer)
					noErr("open "+o.meta, err)
					opened[o.meta] = s
				})
				g.Go("accept for "+o.meta, func() {
					s, err := ends[1-o.side].AcceptStream()
					noErr("accept", err)
					m := string(s.Meta())
					want(accepted[m] == nil, "stream %s accepted twice", m)
					accepted[m] = s
				})
			}
			g.Wait(40 * time.Second)
			ids := map[uint64]string{1: "default"}
			for _, o := range ops {
				a, b := opened[o.meta], accepted[o.meta]
				want(b != nil, "stream %s was never accepted", o.meta)
				sameStream(a, b, o.meta, o.peer)
				want(ids[a.StreamID()] == "", "streams %s and %s share the ID %d", ids[a.StreamID()], o.meta, a.StreamID())
				ids[a.StreamID()] = o.meta
			}
			mc.ExploreOff()
			if withTraffic {
				for _, o := range ops {
					works(o.meta, opened[o.meta], accepted[o.meta])
					works(o.meta+"x", accepted[o.meta], opened[o.meta])
				}
			}
			for _, o := range ops {
				want(listed(w.C, opened[o.meta]) && listed(w.S, opened[o.meta]), "stream %s is not listed", o.meta)
			}
			want(len(w.C.ListStreams()) == len(ops)+1 && len(w.S.ListStreams()) == len(ops)+1, "%d and %d streams listed, %d exist", len(w.C.ListStreams()), len(w.S.ListStreams()), len(ops)+1)
		})
	}
	open("st.both", "both ends open a stream at once", win, []op{{0, "mC", "pC"}, {1, "mS", ""}}, true)
	open("st.client2", "the client opens two streams at once", win, []op{{0, "m1", "p1"}, {0, "m2", "p2"}}, true)
	open("st.server2", "the server opens two streams at once", win, []op{{1, "m1", "p1"}, {1, "m2", ""}}, true)
	open("st.three", "three opens from both sides", win, []op{{0, "m1", ""}, {1, "m2", "p"}, {0, "m3", ""}}, false)
	reg("st.isolate", "traffic of every kind on the end and two streams at once stays where it belongs", win, func() {
		w := connect(nil, nil)
		a1, b1 := openPair(w.C, w.S, "1")
		a2, b2 := openPair(w.S, w.C, "2")
		type pr struct {
			n    string
			a, b geminio.Stream
		}
		prs := []pr{{"0", w.C, w.S}, {"1", a1, b1}, {"2", a2, b2}}
		for _, p := range prs {
			e := newEcho(p.b)
			who := p.n
			noErr("register", p.b.Register(bg(), "who", func(ctx ctxT, req geminio.Request, rsp geminio.Response) {
				e.runs["x"]++
				want(req.StreamID() == p.b.StreamID(), "request of stream %d on stream %d", req.StreamID(), p.b.StreamID())
				rsp.SetData([]byte(who))
			}))
			noErr("register", p.b.Register(bg(), "only"+who, e.handle))
		}
		mc.ExploreOn()
		g := newGroup()
		for _, p := range prs {
			p := p
			g.Go("call "+p.n, func() {
				rsp, err := p.a.Call(bg(), "who", p.a.NewRequest(nil))
				noErr("call", err)
				eqBytes("answer on stream "+p.n, rsp.Data(), []byte(p.n))
			})
			g.Go("send "+p.n, func() {
				mustWrite("write", p.a, []byte("raw"+p.n))
				noErr("publish", p.a.Publish(bg(), cnss(p.a, p.n, true)))
			})
			g.Go("receive "+p.n, func() {
				checkMsg(p.b, recv(p.b), p.n)
				eqBytes("bytes on "+p.n, readFull("read", p.b, 4), []byte("raw"+p.n))
			})
		}
		g.Wait(5 * time.Second)
		mc.ExploreOff()
		for _, p := range prs {
			for _, q := range prs {
				_, err := p.a.Call(bg(), "only"+q.n, p.a.NewRequest(nil))
				want((err == nil) == (p.n == q.n), "method of stream %s called on stream %s: %v", q.n, p.n, err)
			}
			p.b.SetReadDeadline(time.Now().Add(50 * ms))
			n, err := p.b.Read(make([]byte, 8))
			want(n == 0 && isTimeout(err), "stream %s: surplus bytes: %d %v", p.n, n, err)
		}
	})
	for _, side := range []string{"opener", "accepter", "both"} {
		side := side
		reg("st.closeone."+side, "one stream is closed while another, a new one and the end are used", win, func() {
			w := connect(nil, nil)
			ends := []geminio.End{w.C, w.S}
			k := mc.Choose(2, "side")
			a1, b1 := openPair(ends[k], ends[1-k], "1")
			a2, b2 := openPair(ends[k], ends[1-k], "2")
			e2, e0 := newEcho(b2), newEcho(w.S)
			noErr("register", b2.Register(bg(), "echo", e2.handle))
			noErr("register", w.S.Register(bg(), "echo", e0.handle))
			mc.ExploreOn()
			g := newGroup()
			if side != "accepter" {
				g.Go("close opener", func() { noErr("close", a1.Close()) })
			}
			if side != "opener" {
				g.Go("close accepter", func() { noErr("close", b1.Close()) })
			}
			g.Go("call 2", func() { checkCall(a2, "echo", "A") })
			g.Go("call end", func() { checkCall(w.C, "echo", "B") })
			g.Go("bytes 2", func() { mustWrite("write", a2, []byte("xyz")) })
			g.Go("read 2", func() { eqBytes("bytes", readFull("read", b2, 3), []byte("xyz")) })
			g.Go("open 3", func() {
				s, err := openStream(ends[1-k], "3", "")
				noErr("open", err)
				want(s.StreamID() != a2.StreamID(), "new stream has the ID of a live one")
			})
			g.Go("accept 3", func() {
				s, err := ends[k].AcceptStream()
				noErr("accept", err)
				eqBytes("meta", s.Meta(), []byte("3"))
			})
			g.Wait(40 * time.Second)
			settle(time.Second)
			mc.ExploreOff()
			want(!listed(ends[k], a1) && !listed(ends[1-k], b1), "closed stream still listed")
			want(listed(ends[k], a2) && listed(ends[1-k], b2), "live stream not listed")
			works("2", a2, b2)
			works("0", w.S, w.C)
			_, err := a1.Write([]byte("x"))
			want(err != nil, "write to a closed stream succeeded")
			_, err = b1.Read(make([]byte, 1))
			want(err == io.EOF, "read of a closed stream: %v", err)
		})
	}
	reg("st.reopen", "streams are opened and closed again and again from both sides", win, func() {
		w := connect(nil, nil)
		ends := []geminio.End{w.C, w.S}
		var olds []geminio.Stream
		k, c := mc.Choose(2, "opener"), mc.Choose(2, "closer")
		for i := 0; i < 3; i++ {
			meta := fmt.Sprint("m", i)
			if i == 2 {
				mc.ExploreOn()
			}
			a, b := openPair(ends[k], ends[1-k], meta)
			sameStream(a, b, meta, "")
			want(len(w.C.ListStreams()) == 2, "%d streams listed", len(w.C.ListStreams()))
			mustWrite("write", a, []byte("abc"))
			eqBytes("fresh stream", readFull("read", b, 3), []byte("abc"))
			if c == 0 {
				noErr("close", a.Close())
			} else {
				noErr("close", b.Close())
			}
			settle(time.Second)
			want(len(w.C.ListStreams()) == 1 && len(w.S.ListStreams()) == 1, "closed stream still listed")
			olds = append(olds, a)
		}
		for _, o := range olds {
			_, err := o.Write([]byte("x"))
			want(err != nil, "write to a closed stream succeeded")
		}
	})
	reg("st.unknown", "unregistered methods, unread bytes and unreceived messages of one stream don't touch another", win, func() {
		w := connect(nil, nil)
		a1, b1 := openPair(w.C, w.S, "1")
		a2, b2 := openPair(w.C, w.S, "2")
		e := newEcho(b2)
		noErr("register", b2.Register(bg(), "echo", e.handle))
		mc.ExploreOn()
		g := newGroup()
		g.Go("unknown on 1", func() {
			for i := 0; i < 2; i++ {
				_, err := a1.Call(bg(), "echo", a1.NewRequest(nil))
				want(err != nil, "method of another stream was found")
			}
		})
		g.Go("unread on 1", func() {
			mustWrite("write", b1, []byte("unread"))
			noErr("publish", b1.Publish(bg(), cnss(b1, "unreceived", true)))
		})
		g.Go("call 2", func() { checkCall(a2, "echo", "A"); checkCall(a2, "echo", "B") })
		g.Wait(5 * time.Second)
		want(a2.StreamID() != a1.StreamID(), "same ID")
	})
	reg("st.full", "a stream nobody reads is full; other streams and the end work", win, func() {
		w := connect(nil, nil)
		a1, _ := openPair(w.C, w.S, "1")
		a2, b2 := openPair(w.C, w.S, "2")
		mc.GoNamed("flood", func() {
			for i := 0; i < 20; i++ {
				if _, err := a1.Write([]byte("0123456789")); err != nil {
					return
				}
			}
		})
		settle(time.Second)
		works("2", a2, b2)
		works("0", w.C, w.S)
	})
	reg("st.owner", "registrations, hijacks, waiting data and deadlines set on one stream before or after another is opened are only seen there", win, func() {
		co, so := copts(), sopts()
		check := mc.Choose(2, "remote method check") == 1
		if check {
			co.SetRemoteRPCCheck()
			so.SetRemoteRPCCheck()
		}
		w := connect(co, so)
		ends := []geminio.End{w.C, w.S}
		side := mc.Choose(2, "opener")
		a, b := geminio.Stream(ends[side]), geminio.Stream(ends[1-side])
		// who registers: the opener's or the accepter's side of the end, the old or the new stream
		owner := mc.Choose(6, "owner")
		before := owner < 4 && mc.Choose(2, "before") == 1
		what := mc.Choose(3, "what")
		ran := 0
		set := func(sm geminio.Stream) {
			h := func(_ context.Context, _ geminio.Request, rsp geminio.Response) { ran++; rsp.SetData([]byte("mine")) }
			if what == 0 {
				noErr("register", sm.Register(bg(), "m", h))
			} else {
				noErr("register another", sm.Register(bg(), "other", func(context.Context, geminio.Request, geminio.Response) {}))
			}
			if what == 1 {
				noErr("hijack", sm.Hijack(func(c context.Context, _ string, req geminio.Request, rsp geminio.Response) { h(c, req, rsp) }))
			}
			if what == 2 {
				noErr("deadline", sm.SetDeadline(time.Now().Add(-time.Second)))
			}
		}
		a1, b1 := openPair(ends[side], ends[1-side], "one")
		opens := func() (geminio.Stream, geminio.Stream) { return openPair(ends[side], ends[1-side], "two") }
		var a2, b2 geminio.Stream
		if !before {
			a2, b2 = opens()
		}
		sides := []geminio.Stream{a, b, a1, b1, a2, b2}
		set(sides[owner])
		if before {
			a2, b2 = opens()
			sides[4], sides[5] = a2, b2
		}
		for i, callee := range sides {
			caller := sides[i^1]
			switch what {
			case 0, 1:
				n := ran
				ctx, cancel := context.WithTimeout(bg(), 2*time.Second)
				rsp, err := caller.Call(ctx, "m", newReq(caller, "x", ""))
				cancel()
				if i == owner && !(what == 1 && check) {
					noErr("call", err)
					eqBytes("response", rsp.Data(), []byte("mine"))
					want(ran == n+1, "handler ran %d times", ran-n)
				} else if i != owner {
					want(err != nil && ran == n, "a call on stream %d (%s) was answered by the handler of stream %d", i, errStr(err), owner)
				}
			case 2:
				if i == owner {
					n, err := callee.Read(make([]byte, 1))
					want(n == 0 && isTimeout(err), "read after the deadline: %d %v", n, err)
					continue
				}
				done := make(chan bool, 1)
				mc.GoNamed("read", func() {
					n, err := callee.Read(make([]byte, 1))
					want(n == 1 && err == nil, "read of a stream without a deadline: %d %v", n, err)
					done <- true
				})
				settle(50 * ms)
				want(len(done) == 0, "read something never written")
				_, err := caller.Write([]byte("w"))
				noErr("write", err)
				within(5*time.Second, "read", func() { <-done })
			}
		}
		mc.Outcome("%d %d %v", owner, what, before)
	})
	mc.RegisterPlan(&mc.Plan{Property: "C10", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "st.both", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "st.client2", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "st.server2", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "st.three", Policies: []int{0}, Quick: 1, Thorough: 1},
		{Scenario: "st.isolate", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 1},
		{Scenario: "st.closeone.opener", Policies: []int{0, 1}, Quick: 1, Thorough: 1},
		{Scenario: "st.closeone.accepter", Policies: []int{0, 1}, Quick: 1, Thorough: 1},
		{Scenario: "st.closeone.both", Policies: []int{0, 1}, Quick: 1, Thorough: 1},
		{Scenario: "st.reopen", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "st.unknown", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "st.owner", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "st.full", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
	}})
}
