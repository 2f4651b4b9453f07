package main

import (
	"bytes"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// hbTol is the tolerance on heartbeat times.
const hbTol = 200 * ms

var heartbeats = []packet.Heartbeat{packet.Heartbeat5, packet.Heartbeat20, packet.Heartbeat80, packet.Heartbeat320}

func second(n int64) time.Duration { return time.Duration(n) * time.Second }

// countPackets decodes what was written to a connection.
func countPackets(c *vnet.Conn, t packet.Type) int {
	r := bytes.NewReader(c.Log())
	n := 0
	for {
		p, err := packet.DecodeFromReader(r)
		if err != nil {
			return n
		}
		if p.Type() == t {
			n++
		}
	}
}

func init() {
	long := mc.Config{Window: true, MaxTime: int64(4 * time.Hour), MaxSteps: 400000}
	longEarly := long
	longEarly.EarlyTimers = true
	reg("hb.idle", "an idle connection stays up for two hours and every heartbeat is answered", long, func() {
		sr, cr := &recorder{who: "server"}, &recorder{who: "client"}
		co, so := copts(), sopts()
		co.SetDelegate(&cliDlgt{cr})
		so.SetDelegate(&srvDlgt{sr})
		w := connect(co, so)
		busy := mc.Choose(3, "traffic")
		var a, b geminio.Stream
		if busy > 0 {
			a, b = openPair(w.C, w.S, "m")
		}
		e := newEcho(w.S)
		noErr("register", w.S.Register(bg(), "echo", e.handle))
		start := time.Now()
		for i := 0; i < 240; i++ {
			settle(30 * time.Second)
			if busy == 2 {
				_, err := a.Write([]byte("x"))
				noErr("write", err)
				readFull("read", b, 1)
			}
			n := countPackets(w.CA, packet.TypeHeartbeatPacket)
			el := int(time.Since(start) / time.Second)
			want(n >= el/20-1, "%d heartbeats in %d s", n, el)
			want(n == sr.beats, "%d heartbeats were sent, the delegate heard of %d", n, sr.beats)
			acks := countPackets(w.SB, packet.TypeHeartbeatAckPacket)
			want(n == acks, "%d heartbeats were sent, %d were answered", n, acks)
		}
		checkCall(w.C, "echo", "A")
		want(sr.connOff == 0 && cr.connOff == 0, "reported offline")
		w.closeBoth()
	})
	// the scripted client heartbeats after chosen gaps, then falls silent
	lost := func(steps int, cfg mc.Config, name string) {
		reg(name, "a client whose heartbeats come early, in time or never, for every interval", cfg, func() {
			hb := heartbeats[mc.Choose(len(heartbeats), "interval")]
			I := second(int64(hb))
			a, b := vnet.Pair()
			p := newPeer(a)
			r := &recorder{who: "server"}
			so := sopts()
			so.SetDelegate(&srvDlgt{r})
			var e geminio.End
			var err error
			g := newGroup()
			g.Go("server constructor", func() { e, err = server.NewEndWithConn(b, so) })
			p.send(p.pf.NewConnPacket(0, true, hb, nil))
			p.must(packet.TypeConnAckPacket)
			heard := time.Now()
			g.Wait(hsLimit)
			noErr("server constructor", err)
			acc := newGroup()
			acc.Go("pending accept", func() {
				_, err := e.AcceptStream()
				want(err != nil, "stream accepted out of nothing")
			})
			acc.Go("pending call", func() {
				_, err := e.Call(bg(), "echo", newReq(e, "A", ""))
				want(err != nil, "call succeeded without an answer")
			})
			beats := 0
			for i := 0; i < steps; i++ {
				gap := []time.Duration{0, I / 2, I, 2*I - hbTol}[mc.Choose(4, "gap")]
				data := mc.Choose(2, "data instead") == 1
				time.Sleep(gap - time.Since(heard))
				want(r.connOff == 0, "offline %v after the last heartbeat, the limit is %v", time.Since(heard), 2*I)
				if data {
					// bytes are not heartbeats, and do not matter
					p.send(p.oneOf(12, 1))
					break
				}
				if mc.Choose(2, "window") == 1 {
					mc.ExploreOn()
				}
				k := p.pf.NewHeartbeatPacket()
				p.send(k)
				heard = time.Now()
				beats++
				ack := p.must(packet.TypeHeartbeatAckPacket)
				want(ack.ID() == k.ID(), "heartbeat %d was answered with %d", k.ID(), ack.ID())
				settle(ms)
				mc.ExploreOff()
				want(r.beats == beats, "%d heartbeats, the delegate heard of %d", beats, r.beats)
			}
			hang := mc.Choose(2, "answer the close")
			if hang == 1 {
				mc.GoNamed("peer answering the close", func() {
					if k := p.next(packet.TypeDisConnPacket, time.Hour); k != nil {
						p.send(p.pf.NewDisConnAckPacket(k.ID(), nil))
						p.send(p.pf.NewDisConnPacket())
					}
				})
			}
			time.Sleep(2*I - hbTol - time.Since(heard))
			want(r.connOff == 0 && !b.IsClosed(), "closed %v after the last heartbeat, the limit is %v", time.Since(heard), 2*I)
			time.Sleep(2*I + 10*time.Second + hbTol - time.Since(heard))
			want(r.connOff == 1, "reported offline %d times, %v after the last heartbeat", r.connOff, time.Since(heard))
			want(b.IsClosed(), "the connection is still open %v after the last heartbeat", time.Since(heard))
			acc.Wait(second(1))
			refuses("server end", e, newEndOps...)
			within(closeLimit, "close", func() { e.Close() })
			r.allOffline()
			a.Close()
			settle(closeLimit)
			leaks("after the loss")
		})
	}
	lost(1, long, "hb.lost1")
	lost(3, long, "hb.lost3")
	reg("hb.race", "the heartbeat arrives just when the limit expires", longEarly, func() {
		a, b := vnet.Pair()
		p := newPeer(a)
		r := &recorder{who: "server"}
		so := sopts()
		so.SetDelegate(&srvDlgt{r})
		var e geminio.End
		g := newGroup()
		g.Go("server constructor", func() {
			var err error
			e, err = server.NewEndWithConn(b, so)
			noErr("server constructor", err)
		})
		p.send(p.pf.NewConnPacket(0, true, packet.Heartbeat5, nil))
		p.must(packet.TypeConnAckPacket)
		heard := time.Now()
		g.Wait(hsLimit)
		time.Sleep(10*time.Second - 10*ms - time.Since(heard))
		mc.ExploreOn()
		p.send(p.pf.NewHeartbeatPacket())
		settle(30 * ms)
		off := r.connOff
		mc.ExploreOff()
		if p.next(packet.TypeDisConnPacket, 5*time.Second) != nil {
			mc.Outcome("expired")
			settle(11 * time.Second)
			want(r.connOff == 1 && b.IsClosed(), "offline %d times", r.connOff)
		} else {
			mc.Outcome("prevented")
			want(off == 0 && r.connOff == 0, "offline though it was not closed")
			settle(6 * time.Second)
			p.must(packet.TypeDisConnPacket)
			settle(11 * time.Second)
			want(r.connOff == 1 && b.IsClosed(), "offline %d times", r.connOff)
		}
		within(closeLimit, "close", func() { e.Close() })
		r.allOffline()
		a.Close()
		settle(closeLimit)
		leaks("after the loss")
	})
	reg("hb.stall", "the network swallows everything from one moment on", long, func() {
		sr, cr := &recorder{who: "server"}, &recorder{who: "client"}
		co, so := copts(), sopts()
		co.SetDelegate(&cliDlgt{cr})
		so.SetDelegate(&srvDlgt{sr})
		w := connect(co, so)
		a, b := openPair(w.C, w.S, "m")
		neverAnswers(w.C)
		neverAnswers(a)
		ps := []*pending{
			startPending("server end", w.S, "read", "call", "publish", "accept", "receive"),
			startPending("server stream", b, "read", "call", "receive", "callasync"),
		}
		time.Sleep(second(5 + 10*int64(mc.Choose(5, "when"))))
		mode := mc.Choose(3, "direction")
		mc.ExploreOn()
		if mode != 1 {
			w.CA.Stall()
		}
		if mode != 0 {
			w.SB.Stall()
		}
		mc.ExploreOff()
		if mode == 1 { // the client is still heard
			settle(5 * time.Minute)
			want(sr.connOff == 0, "a client that is heard was reported offline")
			w.S.Close()
			w.CA.Kill(false)
		} else {
			settle(2*second(20) + 10*time.Second + hbTol)
			want(sr.connOff == 1, "offline %d times", sr.connOff)
			want(w.SB.IsClosed(), "the connection is still open")
		}
		for _, p := range ps {
			p.g.Wait(second(1))
		}
		settle(second(1))
		sr.allOffline()
		refuses("server", w.S, newEndOps...)
	})
	reg("hb.close", "heartbeats and their expiry race with closing", longEarly, func() {
		sr, cr := &recorder{who: "server"}, &recorder{who: "client"}
		co, so := copts(), sopts()
		co.SetDelegate(&cliDlgt{cr})
		so.SetDelegate(&srvDlgt{sr})
		w := connect(co, so)
		who := mc.Choose(4, "who closes")
		if who == 3 {
			w.CA.Stall()
			time.Sleep(2*second(20) - time.Duration(mc.Elapsed()) - 10*ms)
		} else {
			time.Sleep(second(20) - time.Duration(mc.Elapsed()) - 10*ms)
		}
		mc.ExploreOn()
		g := newGroup()
		if who == 0 || who == 2 {
			g.Go("client close", func() { w.C.Close() })
		}
		if who != 0 {
			g.Go("server close", func() { w.S.Close() })
		}
		g.Wait(closeLimit)
		mc.ExploreOff()
		settle(closeLimit)
		sr.allOffline()
		if who == 3 {
			w.CA.Kill(true)
		}
		w.closeBoth()
		settle(second(1))
		cr.allOffline()
		leaks("after close")
	})
	mc.RegisterPlan(&mc.Plan{Property: "C14", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "hb.idle", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 0},
		{Scenario: "hb.lost1", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "hb.lost3", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "hb.race", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "hb.stall", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "hb.close", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 3},
	}})
}
