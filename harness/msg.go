package main

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

func checkMsg(sm geminio.Stream, m geminio.Message, data string) {
	eqBytes("message data", m.Data(), []byte(data))
	eqBytes("message topic of "+data, []byte(m.Topic()), []byte("topic-"+data))
	eqBytes("message custom of "+data, m.Custom(), []byte("custom-"+data))
	want(m.ClientID() == sm.ClientID() && m.StreamID() == sm.StreamID(), "message %s: client %d stream %d", data, m.ClientID(), m.StreamID())
}

func recv(sm geminio.Stream) geminio.Message {
	m, err := sm.Receive(bg())
	noErr("receive", err)
	return m
}

// pubSync publishes data and checks that success is reported only after done.
func pubSync(sm geminio.Stream, data string, done map[string]int) {
	err := sm.Publish(bg(), cnss(sm, data, false))
	t := mc.Tick("published")
	noErr("publish "+data, err)
	want(done[data] != 0 && done[data] < t, "publish of %s succeeded before the receiver marked it done", data)
}

func init() {
	reg("msg.sync", "two publishers, one receiver that acknowledges out of order", win, func() {
		w := connect(nil, nil)
		done := map[string]int{}
		mc.ExploreOn()
		g := newGroup()
		g.Go("publish A", func() { pubSync(w.C, "A", done) })
		g.Go("publish B", func() { pubSync(w.C, "B", done) })
		g.Go("receiver", func() {
			m1 := recv(w.S)
			m2 := recv(w.S)
			d1, d2 := string(m1.Data()), string(m2.Data())
			want(d1 != d2, "message %s received twice", d1)
			checkMsg(w.S, m1, d1)
			checkMsg(w.S, m2, d2)
			done[d2] = mc.Tick("done")
			noErr("done", m2.Done())
			done[d1] = mc.Tick("done")
			noErr("done", m1.Done())
			mc.Outcome("order %s%s", d1, d2)
		})
		g.Wait(5 * time.Second)
	})
	reg("msg.err", "one message is refused, the other acknowledged", win, func() {
		w := connect(nil, nil)
		done := map[string]int{}
		mc.ExploreOn()
		g := newGroup()
		g.Go("publish A", func() { pubSync(w.S, "A", done) })
		g.Go("publish E", func() {
			err := w.S.Publish(bg(), cnss(w.S, "E", false))
			want(err != nil && err.Error() == "refused E", "refused message: publisher got %v", err)
		})
		g.Go("receiver", func() {
			for i := 0; i < 2; i++ {
				m := recv(w.C)
				d := string(m.Data())
				checkMsg(w.C, m, d)
				if d == "E" {
					noErr("error", m.Error(errors.New("refused E")))
				} else {
					done[d] = mc.Tick("done")
					noErr("done", m.Done())
				}
			}
		})
		g.Wait(5 * time.Second)
	})
	reg("msg.async", "one publisher, three asynchronous messages, acknowledged in reverse, one refused", win, func() {
		w := connect(nil, nil)
		mc.ExploreOn()
		g := newGroup()
		done := map[string]int{}
		var pubs [3]*geminio.Publish
		g.Go("publisher", func() {
			for i, d := range []string{"A", "B", "C"} {
				p, err := w.C.PublishAsync(bg(), cnss(w.C, d, false), nil)
				noErr("publish async", err)
				pubs[i] = p
			}
			for i, d := range []string{"A", "B", "C"} {
				p := <-pubs[i].Done
				t := mc.Tick("completion")
				want(p == pubs[i], "completion of another publish delivered for %s", d)
				if d == "B" {
					want(p.Error != nil && p.Error.Error() == "no B", "refused message B completed with %v", p.Error)
				} else {
					noErr("completion "+d, p.Error)
				}
				want(done[d] != 0 && done[d] < t, "%s completed before it was acknowledged", d)
			}
		})
		g.Go("receiver", func() {
			var ms [3]geminio.Message
			for i, d := range []string{"A", "B", "C"} {
				ms[i] = recv(w.S)
				checkMsg(w.S, ms[i], d) // in order
			}
			for i := 2; i >= 0; i-- {
				d := string(ms[i].Data())
				done[d] = mc.Tick("done")
				if d == "B" {
					noErr("error", ms[i].Error(errors.New("no B")))
				} else {
					noErr("done", ms[i].Done())
				}
			}
		})
		g.Wait(5 * time.Second)
		settle(time.Second)
		for i := range pubs {
			select {
			case <-pubs[i].Done:
				mc.FailNow("publish %d completed twice", i)
			default:
			}
		}
	})
	reg("msg.order", "a mix of at-most-once, asynchronous and blocking publishes keeps its order", win, func() {
		w := connect(nil, nil)
		mc.ExploreOn()
		g := newGroup()
		g.Go("publisher", func() {
			noErr("amo", w.C.Publish(bg(), cnss(w.C, "A", true)))
			_, err := w.C.PublishAsync(bg(), cnss(w.C, "B", false), nil)
			noErr("async", err)
			noErr("amo", w.C.Publish(bg(), cnss(w.C, "C", true)))
			noErr("sync", w.C.Publish(bg(), cnss(w.C, "D", false)))
		})
		g.Go("receiver", func() {
			for _, d := range []string{"A", "B", "C", "D"} {
				m := recv(w.S)
				checkMsg(w.S, m, d)
				if d == "B" || d == "D" {
					noErr("done", m.Done())
				}
			}
		})
		g.Wait(5 * time.Second)
		ctx, cancel := context.WithTimeout(bg(), time.Second)
		m, err := w.S.Receive(ctx)
		want(err != nil, "an extra message was received: %v", m)
		cancel()
	})
	reg("msg.receivers", "two receivers share the messages of one stream", win, func() {
		w := connect(nil, nil)
		mc.ExploreOn()
		g := newGroup()
		seen := map[string]int{}
		g.Go("publisher", func() {
			noErr("publish", w.C.Publish(bg(), cnss(w.C, "A", false)))
			noErr("publish", w.C.Publish(bg(), cnss(w.C, "B", false)))
		})
		for i := 0; i < 2; i++ {
			g.Go("receiver", func() {
				m := recv(w.S)
				d := string(m.Data())
				checkMsg(w.S, m, d)
				seen[d]++
				noErr("done", m.Done())
			})
		}
		g.Wait(5 * time.Second)
		want(seen["A"] == 1 && seen["B"] == 1, "messages seen: %v", seen)
	})
	reg("msg.streams", "messages on two streams and on the end do not mix", win, func() {
		w := connect(nil, nil)
		c1, s1 := openPair(w.C, w.S, "one")
		s2, c2 := openPair(w.S, w.C, "two")
		mc.ExploreOn()
		g := newGroup()
		pub := func(sm geminio.Stream, d string) {
			g.Go("publish "+d, func() { noErr("publish", sm.Publish(bg(), cnss(sm, d, false))) })
		}
		rcv := func(sm geminio.Stream, d string) {
			g.Go("receive "+d, func() {
				m := recv(sm)
				checkMsg(sm, m, d)
				noErr("done", m.Done())
			})
		}
		pub(w.C, "A")
		pub(c1, "B")
		pub(s2, "C")
		rcv(w.S, "A")
		rcv(s1, "B")
		rcv(c2, "C")
		g.Wait(5 * time.Second)
	})
	reg("msg.amo", "an at-most-once publish never waits for the application", win, func() {
		w := connect(nil, nil)
		mc.ExploreOn()
		t0 := time.Now()
		g := newGroup()
		g.Go("publish", func() {
			noErr("publish", w.C.Publish(bg(), cnss(w.C, "A", true)))
			p, err := w.C.PublishAsync(bg(), cnss(w.C, "B", true), nil)
			noErr("publish", err)
			_ = p
			want(time.Since(t0) == 0, "at-most-once publish waited %v", time.Since(t0))
		})
		g.Wait(time.Second)
		settle(100 * ms)
		checkMsg(w.S, recv(w.S), "A")
		checkMsg(w.S, recv(w.S), "B")
	})
	reg("msg.unacked", "messages that are never acknowledged: timeout, close and loss end the publish with an error", win, func() {
		w := connect(nil, nil)
		how := mc.Choose(4, "how")
		async := mc.Choose(2, "async") == 1
		received := mc.Choose(2, "received") == 1
		mc.ExploreOn()
		g := newGroup()
		g.Go("publisher", func() {
			po := options.Publish()
			if how == 0 {
				po.SetTimeout(2 * time.Second)
			}
			var err error
			if async {
				var p *geminio.Publish
				p, err = w.C.PublishAsync(bg(), cnss(w.C, "A", false), nil, po)
				if err == nil {
					p = <-p.Done
					err = p.Error
				}
			} else {
				err = w.C.Publish(bg(), cnss(w.C, "A", false), po)
			}
			want(err != nil, "publish succeeded although nobody acknowledged")
			mc.Outcome("%s", errStr(err))
		})
		g.Go("receiver", func() {
			if received {
				m, err := w.S.Receive(bg())
				if err == nil {
					checkMsg(w.S, m, "A")
				}
			}
			switch how {
			case 1:
				w.S.Close()
			case 2:
				w.C.Close()
			case 3:
				w.CA.Kill(false)
			}
		})
		g.Wait(65 * time.Second)
	})
	reg("msg.backlog", "operations queued behind a peer that stopped reading when the connection breaks, or an end or the stream closes: none was carried out, all fail", win, func() {
		w := connect(nil, nil)
		var a, b geminio.Stream = w.C, w.S
		how := mc.Choose(5, "how")
		switch k := mc.Choose(3, "stream"); {
		case k == 1:
			a, b = w.S, w.C
		case k == 2 || how == 4:
			a, b = openPair(w.C, w.S, "m")
		}
		w.CA.SetCap(64)
		w.SB.SetCap(64)
		w.CA.Freeze(true)
		w.SB.Freeze(true)
		_ = b
		g := newGroup()
		fails := func(name string, err error) { want(err != nil, "%s succeeded though the peer read nothing", name) }
		n, broken := 0, false
		pc := make(chan *geminio.Publish, 2001)
		g.Go("async publishes", func() {
			for i := 0; i < 2000 && !broken; i++ {
				if _, err := a.PublishAsync(bg(), cnss(a, "P", false), pc); err != nil {
					return
				}
				n++
			}
			want(broken, "publishes to a stalled peer never block")
		})
		cc := make(chan *geminio.Call, 1)
		settle(20 * ms)
		more := func() {
			g.Go("publish", func() { fails("publish", a.Publish(bg(), cnss(a, "P", false))) })
			g.Go("call", func() { _, err := a.Call(bg(), "m", newReq(a, "C", "")); fails("call", err) })
			g.Go("async call", func() {
				_, err := a.CallAsync(bg(), "m", newReq(a, "C", ""), cc)
				if err == nil {
					fails("async call", (<-cc).Error)
				}
			})
			g.Go("register", func() { fails("register", a.Register(bg(), "m", newEcho(a).handle)) })
		}
		more()
		settle(time.Second)
		broken = true
		mc.ExploreOn()
		switch how {
		case 0:
			w.CA.Kill(false)
		case 1:
			w.SB.Kill(true)
		case 2:
			w.C.Close()
		case 3:
			w.S.Close()
		case 4:
			a.Close()
		}
		g.Wait(70 * time.Second)
		settle(time.Second)
		for i := 0; i < n; i++ {
			select {
			case p := <-pc:
				fails("async publish", p.Error)
			default:
				mc.FailNow("%d of %d async publishes completed", i, n)
			}
		}
		want(len(pc) == 0, "more completions than publishes")
		mc.Outcome("%d how %d", n, how)
	})
	reg("msg.values", "payload, topic, custom bytes and timeout combinations arrive unchanged", win, func() {
		w := connect(nil, nil)
		vals := []string{"", "x", "\x00\xff\xfe\xc3", string(make([]byte, 1000))}
		tops := []string{"", "t", "ü<>&\u2028"}
		d := vals[mc.Choose(4, "data")]
		cu := vals[mc.Choose(4, "custom")]
		tp := tops[mc.Choose(3, "topic")]
		to := []time.Duration{0, 5 * time.Second}[mc.Choose(2, "timeout")]
		how := mc.Choose(4, "how")
		p, q := geminio.Stream(w.C), geminio.Stream(w.S)
		if mc.Choose(2, "side") == 1 {
			p, q = q, p
		}
		o := options.NewMessage()
		o.SetCnss(options.CnssAtLeastOnce)
		if how == 1 {
			o.SetCnss(options.CnssAtMostOnce)
		}
		o.SetTopic(tp)
		o.SetCustom([]byte(cu))
		m := p.NewMessage([]byte(d), o)
		po := options.Publish()
		if to != 0 {
			if how == 2 {
				m.SetTimeout(to)
			} else {
				po.SetTimeout(to)
			}
		}
		g := newGroup()
		g.Go("publish", func() {
			if how == 3 {
				pb, err := p.PublishAsync(bg(), m, nil, po)
				noErr("publish", err)
				noErr("publish", (<-pb.Done).Error)
			} else {
				noErr("publish", p.Publish(bg(), m, po))
			}
		})
		g.Go("receive", func() {
			r := recv(q)
			eqBytes("data", r.Data(), []byte(d))
			eqBytes("custom", r.Custom(), []byte(cu))
			eqBytes("topic", []byte(r.Topic()), []byte(tp))
			want(r.ID() == m.ID(), "message id %d arrived as %d", m.ID(), r.ID())
			want(r.Timeout() == to, "message timeout %v arrived as %v", to, r.Timeout())
			want(r.Cnss() == m.Cnss(), "consistency %v arrived as %v", m.Cnss(), r.Cnss())
			if how != 1 {
				noErr("done", r.Done())
			}
		})
		g.Wait(5 * time.Second)
		mc.Outcome("%d %d %d %v %d", len(d), len(cu), len(tp), to, how)
	})
	mc.RegisterPlan(&mc.Plan{Property: "C03", QuickS: 120, ThoroughS: 800, Runs: []mc.Run{
		{Scenario: "msg.sync", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "msg.err", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "msg.amo", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "msg.async", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "msg.unacked", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "msg.backlog", Policies: []int{2}, Quick: 1, Thorough: 2},
		{Scenario: "msg.backlog", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
	}})
	mc.RegisterPlan(&mc.Plan{Property: "C04", QuickS: 150, ThoroughS: 800, Runs: []mc.Run{
		{Scenario: "msg.values", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "msg.order", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "msg.receivers", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "msg.streams", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "msg.sync", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
	}})
}

var _ = io.EOF
