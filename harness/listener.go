package main

import (
	"fmt"
	"net"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

const lnAddr = "127.0.0.1:1202"

// misbehave connects to the listener and fails the handshake.
var misdeeds = []string{"hang up", "reset", "garbage", "silence", "speak out of order", "half", "lone byte"}

func misbehave(k int) net.Conn {
	c, err := vnet.Dial("tcp", lnAddr)
	noErr("dial", err)
	v := c.(*vnet.Conn)
	p := newPeer(v)
	switch misdeeds[k] {
	case "hang up":
		v.Close()
	case "reset":
		v.Kill(false)
	case "garbage":
		p.raw([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"))
	case "silence":
	case "speak out of order":
		p.send(p.pf.NewHeartbeatPacket())
	case "half":
		v.CloseWrite()
	case "lone byte":
		p.raw([]byte{1})
		v.Close()
	}
	return v
}

// accepts collects what accept calls return.
type accepts struct {
	byMeta map[string]geminio.End
	ends   map[geminio.End]bool
	errs   []error
}

func (a *accepts) one(ln server.Listener, useNet bool) {
	var e geminio.End
	var err error
	if useNet {
		var c net.Conn
		c, err = ln.Accept()
		if c != nil && err == nil {
			e = c.(geminio.End)
		}
	} else {
		e, err = ln.AcceptEnd()
	}
	if err != nil {
		a.errs = append(a.errs, err)
		return
	}
	want(e != nil, "accept returned neither an end nor an error")
	m := string(e.Meta())
	mc.Tick("accepted " + m)
	want(!a.ends[e] && a.byMeta[m] == nil, "client %s was accepted twice", m)
	a.ends[e], a.byMeta[m] = true, e
}

func newAccepts() *accepts {
	return &accepts{byMeta: map[string]geminio.End{}, ends: map[geminio.End]bool{}}
}

func listen(so *server.EndOptions) server.Listener {
	ln, err := server.Listen("tcp", lnAddr, so)
	noErr("listen", err)
	return ln
}

func dialEnd(meta string) (geminio.End, error) {
	co := copts()
	co.SetMeta([]byte(meta))
	return client.NewEnd("tcp", lnAddr, co)
}

func init() {
	all := []int{0, 1, 2}
	match := func(a *accepts, cs map[string]geminio.End) {
		ids := map[uint64]bool{}
		for m, c := range cs {
			e := a.byMeta[m]
			want(e != nil, "client %s is connected but was not accepted", m)
			want(e.ClientID() == c.ClientID(), "client %s has the ID %d, its end has %d", m, c.ClientID(), e.ClientID())
			want(!ids[c.ClientID()], "two clients have the ID %d", c.ClientID())
			ids[c.ClientID()] = true
			want(e.RemoteAddr().String() == c.LocalAddr().String(), "client %s is at %s, its end's peer is at %s", m, c.LocalAddr(), e.RemoteAddr())
		}
		for m, c := range cs {
			works(m, c, a.byMeta[m])
			works(m+"'", a.byMeta[m], c)
		}
	}
	for n := 2; n <= 3; n++ {
		n := n
		reg(fmt.Sprint("ln.good.", n), "clients connect at once and are accepted by concurrent calls", win, func() {
			ln := listen(sopts())
			a, cs := newAccepts(), map[string]geminio.End{}
			mc.ExploreOn()
			g := newGroup()
			for i := 0; i < n; i++ {
				i := i
				g.Go(fmt.Sprint("client ", i), func() {
					c, err := dialEnd(fmt.Sprint("c", i))
					noErr("client", err)
					cs[fmt.Sprint("c", i)] = c
				})
				g.Go("accept", func() { a.one(ln, i == 0) })
			}
			g.Wait(hsLimit)
			mc.ExploreOff()
			match(a, cs)
			g = newGroup()
			g.Go("accept", func() { a.one(ln, false) })
			settle(time.Second)
			want(len(a.errs) == 0, "accept failed: %v", a.errs)
			ln.Close()
			g.Wait(2 * time.Second)
			want(len(a.errs) == 1, "accept survived the listener")
			match(a, cs)
		})
	}
	reg("ln.loop", "one accept loop, clients one after the other, each closed before or after the next", win, func() {
		ln := listen(sopts())
		a, cs := newAccepts(), map[string]geminio.End{}
		early := mc.Choose(2, "close early") == 1
		stop := false
		g := newGroup()
		g.Go("loop", func() {
			for !stop {
				a.one(ln, false)
			}
		})
		mc.ExploreOn()
		for i := 0; i < 2; i++ {
			m := fmt.Sprint("c", i)
			c, err := dialEnd(m)
			noErr("client", err)
			if early && i < 1 {
				within(closeLimit, "close", func() { c.Close() })
				continue
			}
			cs[m] = c
		}
		settle(100 * ms)
		mc.ExploreOff()
		match(a, cs)
		// a client that left at once may never have become an end
		want(len(a.ends)+len(a.errs) == 2 && (early || len(a.errs) == 0), "%d ends accepted, %d errors", len(a.ends), len(a.errs))
		stop = true
		ln.Close()
		g.Wait(2 * time.Second)
		match(a, cs) // the ends outlive the listener
	})
	reg("ln.bad", "a client that fails its handshake in any way, between two that don't", win, func() {
		ln := listen(sopts())
		a, cs := newAccepts(), map[string]geminio.End{}
		k := mc.Choose(len(misdeeds), "misdeed")
		pos := mc.Choose(3, "position")
		loop := mc.Choose(2, "accept loop") == 1
		mc.ExploreOn()
		g := newGroup()
		if loop {
			g.Go("accept loop", func() {
				for i := 0; i < 3; i++ {
					a.one(ln, false)
				}
			})
		} else {
			for i := 0; i < 3; i++ {
				g.Go("accept", func() { a.one(ln, i == 1) })
			}
		}
		g.Go("clients", func() {
			for i := 0; i < 3; i++ {
				if i == pos {
					misbehave(k)
					if loop {
						settle(hsLimit) // a single loop serves one client after the other
					}
					continue
				}
				m := fmt.Sprint("c", i)
				c, err := dialEnd(m)
				noErr("client "+m, err)
				cs[m] = c
			}
		})
		g.Wait(3 * hsLimit)
		mc.ExploreOff()
		want(len(a.errs) == 1, "%d accepts failed (%v), one client misbehaved", len(a.errs), a.errs)
		want(len(a.ends) == 2, "%d ends accepted", len(a.ends))
		match(a, cs)
		g = newGroup()
		g.Go("later client", func() {
			c, err := dialEnd("later")
			noErr("later client", err)
			cs["later"] = c
		})
		g.Go("later accept", func() { a.one(ln, false) })
		g.Wait(hsLimit)
		match(a, cs)
	})
	reg("ln.race", "a failing client and two good ones at once", win, func() {
		ln := listen(sopts())
		a, cs := newAccepts(), map[string]geminio.End{}
		k := mc.Choose(3, "misdeed")
		mc.ExploreOn()
		g := newGroup()
		for i := 0; i < 3; i++ {
			i := i
			g.Go("accept", func() { a.one(ln, false) })
			if i == 2 {
				g.Go("bad client", func() { misbehave(k) })
				continue
			}
			g.Go(fmt.Sprint("client ", i), func() {
				m := fmt.Sprint("c", i)
				c, err := dialEnd(m)
				noErr("client", err)
				cs[m] = c
			})
		}
		g.Wait(hsLimit)
		mc.ExploreOff()
		want(len(a.errs) == 1 && len(a.ends) == 2, "%d accepts failed, %d ends accepted", len(a.errs), len(a.ends))
		match(a, cs)
	})
	reg("ln.refuse", "the server's delegate refuses one of two clients", win, func() {

		so := sopts()
		d := &chooser{refuse: "c1"}
		so.SetDelegate(d)
		ln := listen(so)
		a, cs := newAccepts(), map[string]geminio.End{}
		mc.ExploreOn()
		g := newGroup()
		for i := 0; i < 2; i++ {
			i := i
			g.Go("accept", func() { a.one(ln, false) })
			g.Go(fmt.Sprint("client ", i), func() {
				m := fmt.Sprint("c", i)
				c, err := dialEnd(m)
				want((err != nil) == (i == 1), "client %s: %v", m, errStr(err))
				if err == nil {
					cs[m] = c
				}
			})
		}
		g.Wait(hsLimit)
		mc.ExploreOff()
		want(len(a.errs) == 1 && len(a.ends) == 1, "%d accepts failed, %d ends accepted", len(a.errs), len(a.ends))
		match(a, cs)
	})
	reg("ln.close", "the listener closes while accepts wait and a client connects", win, func() {
		ln := listen(sopts())
		a := newAccepts()
		k := mc.Choose(len(misdeeds)+2, "client")
		mc.ExploreOn()
		g := newGroup()
		var cerr error
		var c geminio.End
		g.Go("accept 1", func() { a.one(ln, false) })
		g.Go("accept 2", func() { a.one(ln, true) })
		switch {
		case k == len(misdeeds):
			g.Go("client", func() { c, cerr = dialEnd("c0") })
		case k < len(misdeeds):
			g.Go("client", func() {
				if v, err := vnet.Dial("tcp", lnAddr); err == nil {
					v.Close()
				}
			})
		}
		g.Go("close", func() { ln.Close() })
		g.Go("close again", func() { ln.Close() })
		g.Wait(hsLimit)
		mc.ExploreOff()
		want(len(a.errs) >= 1 && len(a.errs)+len(a.ends) == 2, "%d errors, %d ends", len(a.errs), len(a.ends))
		mc.Outcome("%d ends %v", len(a.ends), cerr != nil)
		if len(a.ends) == 1 {
			noErr("client", cerr)
			works("x", c, a.byMeta["c0"])
			works("y", a.byMeta["c0"], c)
		}
		_, err := ln.AcceptEnd()
		want(err != nil, "accept on a closed listener")
		_, err = ln.Accept()
		want(err != nil, "accept on a closed listener")
		_, err = vnet.Dial("tcp", lnAddr)
		want(err != nil, "the port is still open")
	})
	mc.RegisterPlan(&mc.Plan{Property: "C22", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "ln.good.2", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "ln.good.3", Policies: []int{1}, Quick: 1, Thorough: 1},
		{Scenario: "ln.loop", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "ln.bad", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "ln.race", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "ln.refuse", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "ln.close", Policies: all, Quick: 1, Thorough: 3},
	}})
}
