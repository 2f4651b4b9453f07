package main

import (
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// plant is a server whose connections count what really arrives.
type plant struct {
	re    geminio.End
	dials int
	fail  []string // how the dials after the first fail
	cs    []*vnet.Conn
	up    []geminio.End
	back  int
	calls map[string]int // by request data
	msgs  map[string]int
	bytes []byte
	sms   map[uint64]geminio.Stream // of the last connection
}

func (p *plant) dial() (net.Conn, error) {
	n := p.dials
	p.dials++
	how := ""
	if n >= 1 && n <= len(p.fail) {
		how = p.fail[n-1]
	}
	if how == "error" {
		return nil, errors.New("no route")
	}
	a, b := vnet.Pair()
	p.cs = append(p.cs, a)
	switch how {
	case "silent":
		return a, nil
	case "hang up":
		b.Close()
		return a, nil
	}
	rec := &recorder{who: fmt.Sprint("server ", n), clientID: func(uint64, []byte) (uint64, error) { return 7, nil }}
	if how == "refuse" {
		rec.refuseConn = errRefused
	}
	mc.GoNamed("server constructor", func() {
		e, err := server.NewEndWithConn(b, sopts(func(o *server.EndOptions) { o.SetDelegate(&srvDlgt{rec}) }))
		if err != nil {
			return
		}
		noErr("register", e.Register(bg(), "count", func(_ ctxT, req geminio.Request, rsp geminio.Response) {
			p.calls[string(req.Data())]++
			rsp.SetData(append([]byte("re "), req.Data()...))
		}))
		p.sms = map[uint64]geminio.Stream{}
		p.up = append(p.up, e)
		mc.GoNamed("server receiver", func() {
			for {
				m, err := e.Receive(bg())
				if err != nil {
					return
				}
				p.msgs[string(m.Data())]++
				m.Done()
			}
		})
		mc.GoNamed("server reader", func() {
			b := make([]byte, 16)
			for {
				n, err := e.Read(b)
				p.bytes = append(p.bytes, b[:n]...)
				if err != nil {
					return
				}
			}
		})
		mc.GoNamed("server accepter", func() {
			for {
				s, err := e.AcceptStream()
				if err != nil {
					return
				}
				p.sms[s.StreamID()] = s
			}
		})
	})
	return a, nil
}

// try starts operation k and checks what it returns.
func (p *plant) try(k string) (opened geminio.Stream, err error) {
	re := p.re
	switch k {
	case "call":
		var rsp geminio.Response
		rsp, err = re.Call(bg(), "count", re.NewRequest([]byte("A")))
		if err == nil {
			want(rsp != nil, "call returned neither a response nor an error")
			eqBytes("answer", rsp.Data(), []byte("re A"))
			want(p.calls["A"] > 0, "call succeeded and was not answered")
		}
	case "callasync":
		var c *geminio.Call
		c, err = re.CallAsync(bg(), "count", re.NewRequest([]byte("A")), nil)
		if err == nil {
			want(c != nil, "call returned neither a call nor an error")
			<-c.Done
			if err = c.Error; err == nil {
				want(c.Response != nil, "call ended with neither a response nor an error")
				eqBytes("answer", c.Response.Data(), []byte("re A"))
				want(p.calls["A"] > 0, "call succeeded and was not answered")
			}
		}
	case "publish":
		err = re.Publish(bg(), cnss(re, "M", false))
		want(err != nil || p.msgs["M"] > 0, "publish succeeded and the message was not received")
	case "pubasync":
		var c *geminio.Publish
		c, err = re.PublishAsync(bg(), cnss(re, "M", false), nil)
		if err == nil {
			want(c != nil, "publish returned neither a publish nor an error")
			<-c.Done
			err = c.Error
			want(err != nil || p.msgs["M"] > 0, "publish succeeded and the message was not received")
		}
	case "write":
		var n int
		n, err = re.Write([]byte("data"))
		want(n == 4 == (err == nil) && (n == 0 || n == 4), "write returned %d and %v", n, err)
	case "register":
		err = re.Register(bg(), "mine", rpcSaying("mine"))
	case "hijack":
		err = re.Hijack(func(_ ctxT, m string, _ geminio.Request, rsp geminio.Response) { rsp.SetData([]byte("got " + m)) })
	case "open":
		opened, err = openStream(re, "o", "p")
		want((opened != nil) == (err == nil), "open returned stream %v and error %v", opened != nil, err)
	case "accept":
		opened, err = re.AcceptStream()
		want((opened != nil) == (err == nil), "accept returned stream %v and error %v", opened != nil, err)
	case "netaccept":
		var c net.Conn
		c, err = re.Accept()
		if err == nil {
			opened = c.(geminio.Stream)
		}
	case "receive":
		var m geminio.Message
		m, err = re.Receive(bg())
		want((m != nil) == (err == nil), "receive returned message %v and error %v", m != nil, err)
		if m != nil {
			checkMsg(re, m, "P")
			m.Done()
		}
	case "read":
		b := make([]byte, 4)
		var n int
		n, err = re.Read(b)
		want(n == 4 == (err == nil) && (n == 0 || string(b) == "data"), "read returned %d, %q and %v", n, b[:max(n, 0)], err)
	}
	return opened, err
}

func init() {
	ops := []string{"call", "callasync", "publish", "pubasync", "write", "register", "hijack", "open", "accept", "netaccept", "receive", "read"}
	for _, k := range ops {
		k := k
		reg("retry.opf."+k, "an operation starts while the connection is lost and the first attempts to return fail", win, func() {
			p := &plant{calls: map[string]int{}, msgs: map[string]int{}}
			s := newSite()
			s.onBack = func(int) { p.back++ }
			how := []string{"error", "refuse", "hang up", "silent"}[mc.Choose(4, "how")]
			p.fail = []string{how}
			if mc.Choose(2, "twice") == 1 {
				p.fail = append(p.fail, how)
			}
			var err error
			p.re, err = client.NewRetryEndWithDialer(p.dial, s.opts())
			noErr("retrying end", err)
			settle(50 * ms)
			after := []time.Duration{0, 100 * ms, 2 * time.Second, 3500 * ms, 7 * time.Second}[mc.Choose(5, "stage")]
			mc.ExploreOn()
			t0 := mc.Elapsed()
			p.cs[0].Kill(false)
			if after > 0 {
				settle(after)
			}
			re := p.re
			var opened geminio.Stream
			finished := false
			g := newGroup()
			g.Go(k, func() {
				defer func() { finished = true }()
				var err error
				opened, err = p.try(k)
				mc.Outcome(fmt.Sprint(k, " ", err == nil))
				if err != nil {
					return
				}
				after := mc.Elapsed() - t0
				if len(p.up) == 1 && k != "hijack" { // a hijack is of no concern to the peer
					want(after < time.Second, "%s succeeded %v after the loss, without a connection", k, after)
				}
			})
			settle(50 * ms)
			mc.ExploreOff()
			for i := 0; p.back == 0; i++ {
				want(i < 600, "the end did not come back within 60s (%d dials)", p.dials)
				settle(100 * ms)
			}
			want(p.dials == len(p.fail)+2, "%d dials", p.dials)
			settle(time.Second)
			e := p.up[len(p.up)-1]
			if !finished {
				switch k {
				case "accept", "netaccept":
					_, err := openStream(e, "o", "p")
					noErr("open", err)
				case "read":
					mustWrite("write", e, []byte("data"))
				case "receive":
					noErr("publish", e.Publish(bg(), cnss(e, "P", false)))
				}
			}
			g.Wait(40 * time.Second)
			settle(time.Second)
			switch {
			case k == "register" || k == "hijack":
				rsp, err := e.Call(bg(), "mine", e.NewRequest(nil))
				if err == nil {
					eqBytes("answer", rsp.Data(), []byte(map[string]string{"register": "mine", "hijack": "got mine"}[k]))
				}
				mc.Outcome(fmt.Sprint("served ", err == nil))
			case opened != nil && after > 0:
				var other geminio.Stream
				if k == "open" {
					other = p.sms[opened.StreamID()]
				} else {
					for _, x := range e.ListStreams() {
						if x.StreamID() == opened.StreamID() {
							other = x
						}
					}
				}
				want(other != nil, "stream %d is unknown to the server", opened.StreamID())
				eqBytes("meta", opened.Meta(), []byte("o"))
				works("x", opened, other)
				works("y", other, opened)
			}
			rsp, err := re.Call(bg(), "count", re.NewRequest([]byte("B")))
			noErr("call", err)
			eqBytes("answer", rsp.Data(), []byte("re B"))
			noErr("publish", re.Publish(bg(), cnss(re, "N", false)))
			want(p.back == 1, "one loss, %d reconnections announced", p.back)
			within(closeLimit, "close", func() { re.Close() })
			for _, e := range p.up {
				e.Close()
			}
			for _, c := range p.cs {
				c.Kill(true)
			}
			settle(closeLimit)
			leaks("after close")
		})
	}
	// closing while the operation waits for the end to come back
	for _, k := range ops {
		k := k
		reg("retry.opc."+k, "the end is closed while an operation waits for it to come back", win, func() {
			p := &plant{calls: map[string]int{}, msgs: map[string]int{}}
			s := newSite()
			s.onBack = func(int) { p.back++ }
			how := []string{"error", "refuse", "hang up", "silent"}[mc.Choose(4, "how")]
			p.fail = []string{how, how, how, how, how, how, how, how}[:mc.Choose(2, "fails")*8]
			var err error
			p.re, err = client.NewRetryEndWithDialer(p.dial, s.opts())
			noErr("retrying end", err)
			settle(50 * ms)
			lost := mc.Choose(2, "lost first") == 1
			after := []time.Duration{0, time.Second, 3010 * ms, 3500 * ms, 4 * time.Second, 6500 * ms}[mc.Choose(6, "stage")]
			mc.ExploreOn()
			if lost {
				p.cs[0].Kill(false)
				settle(20 * ms)
			}
			g := newGroup()
			g.Go(k, func() {
				opened, err := p.try(k)
				mc.Outcome(fmt.Sprint(k, " ", err == nil))
				if err == nil && opened != nil {
					want(opened.StreamID() != 0, "the stream has no ID")
				}
			})
			settle(20 * ms)
			if !lost {
				p.cs[0].Kill(false)
			}
			settle(after)
			within(closeLimit, "close", func() { p.re.Close() })
			mc.ExploreOff()
			g.Wait(closeLimit)
			n := p.dials
			for _, k := range []string{"call", "publish", "write", "register", "open", "accept", "receive", "read"} {
				k := k
				within(closeLimit, k+" after close", func() {
					_, err := p.try(k)
					want(err != nil, "%s succeeded after close", k)
				})
			}
			settle(20 * time.Second)
			want(p.dials == n, "%d dials after close", p.dials-n)
			for _, e := range p.up {
				e.Close()
			}
			for _, c := range p.cs {
				c.Kill(true)
			}
			settle(closeLimit)
			leaks("after close")
		})
	}
	done := func(k string) {
		p := mc.Plans()["C15"]
		p.Runs = append(p.Runs, mc.Run{Scenario: "retry.opf." + k, Policies: []int{0, 1}, Quick: 0, Thorough: 1},
			mc.Run{Scenario: "retry.opc." + k, Policies: []int{0, 1}, Quick: 0, Thorough: 1})
	}
	for _, k := range ops {
		done(k)
	}
}
