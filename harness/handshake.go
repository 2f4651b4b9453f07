package main

import (
	"errors"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// hsLimit bounds a constructor whose peer misbehaves: 10 s for the handshake and
// 10 s for closing.
const hsLimit = 21 * time.Second

// hs is one handshake with its configuration and its oracle.
type hs struct {
	wanted, fixed uint64
	dlgt          int // 0 none, 1 answers 0, 2 answers 42, 3 refuses the ID, 4 refuses the client
	meta          string
	cr, sr        *recorder
}

var hsMetas = []string{"", "meta", strings.Repeat("long", 75)}
var errRefused = errors.New("no place for you")

func (h *hs) options() (*client.EndOptions, *server.EndOptions) {
	co, so := copts(), sopts()
	h.cr, h.sr = &recorder{who: "client"}, &recorder{who: "server"}
	co.SetDelegate(&cliDlgt{h.cr})
	if h.wanted != 0 {
		co.SetClientID(h.wanted)
	}
	co.SetMeta([]byte(h.meta))
	if h.fixed != 0 {
		so.SetClientID(h.fixed)
	}
	if h.dlgt > 0 {
		so.SetDelegate(&srvDlgt{h.sr})
	}
	h.sr.clientID = func(uint64, []byte) (uint64, error) {
		switch h.dlgt {
		case 2:
			return 42, nil
		case 3:
			return 0, errRefused
		}
		return 0, nil
	}
	if h.dlgt == 4 {
		h.sr.refuseConn = errRefused
	}
	return co, so
}

func (h *hs) check(w *W, cerr, serr error) {
	if h.dlgt >= 3 {
		want(cerr != nil && serr != nil, "the server refused the client: constructors returned %v and %v", errStr(cerr), errStr(serr))
		want(strings.Contains(cerr.Error(), errRefused.Error()), "the client was refused because of %q, it says %q", errRefused, cerr)
		return
	}
	noErr("client constructor", cerr)
	noErr("server constructor", serr)
	id := w.C.ClientID()
	want(id == w.S.ClientID(), "client IDs differ: %d and %d", id, w.S.ClientID())
	switch {
	case h.dlgt == 2:
		want(id == 42, "the delegate assigned 42, the ID is %d", id)
	case h.dlgt == 0 && h.fixed != 0:
		want(id == h.fixed, "the server assigned %d, the ID is %d", h.fixed, id)
	default:
		want(id != 0, "generated client ID is 0")
	}
	eqBytes("meta seen by the server", w.S.Meta(), []byte(h.meta))
	eqBytes("meta seen by the client", w.C.Meta(), []byte(h.meta))
	if h.dlgt > 0 {
		want(len(h.sr.wanted) == 1 && h.sr.wanted[0] == h.wanted, "the delegate was asked for IDs %v, the client wants %d", h.sr.wanted, h.wanted)
		want(h.sr.connID == id && h.sr.connMeta == h.meta, "the delegate saw client %d meta %q", h.sr.connID, h.sr.connMeta)
	}
}

// connectHS runs both constructors and the oracle.
func (h *hs) connect() *W {
	w := &W{}
	co, so := h.options()
	w.CA, w.SB = vnet.Pair()
	var cerr, serr error
	g := newGroup()
	g.Go("server constructor", func() { w.S, serr = server.NewEndWithConn(w.SB, so) })
	g.Go("client constructor", func() { w.C, cerr = client.NewEndWithConn(w.CA, co) })
	g.Wait(hsLimit)
	h.check(w, cerr, serr)
	if cerr != nil {
		want(w.C == nil && w.S == nil, "an end was returned along with an error")
		return nil
	}
	return w
}

func init() {
	reg("hs.ids", "every combination of wanted, configured and assigned client ID, delegate answer and meta", win, func() {
		h := &hs{}
		h.wanted = []uint64{0, 7}[mc.Choose(2, "wanted")]
		h.fixed = []uint64{0, 9}[mc.Choose(2, "configured")]
		h.dlgt = mc.Choose(5, "delegate")
		h.meta = hsMetas[mc.Choose(3, "meta")]
		mc.ExploreOn()
		w := h.connect()
		mc.ExploreOff()
		if w == nil {
			settle(15 * time.Second)
			leaks("after a refused handshake")
			return
		}
		works("end", w.C, w.S)
		works("end2", w.S, w.C)
		w.closeBoth()
	})
	for d, name := range map[int]string{2: "accept", 3: "refuseid", 4: "refuse"} {
		d := d
		reg("hs.race."+name, "a handshake in every order", win, func() {
			h := &hs{wanted: 7, dlgt: d, meta: "meta"}
			mc.ExploreOn()
			w := h.connect()
			mc.ExploreOff()
			if w != nil {
				works("end", w.C, w.S)
				w.closeBoth()
			}
			settle(15 * time.Second)
			leaks("after the handshake")
		})
	}
	reg("hs.first", "either side uses its end as soon as it has it, the other one may not be there yet", win, func() {
		w := &W{}
		w.CA, w.SB = vnet.Pair()
		first := mc.Choose(2, "server first") == 1
		mc.ExploreOn()
		g := newGroup()
		use := func(e geminio.End, me bool) {
			if me {
				s, err := openStream(e, "m", "")
				noErr("open", err)
				_, err = s.Write([]byte("hi"))
				noErr("write", err)
				noErr("publish", e.Publish(bg(), cnss(e, "P", false)))
				return
			}
			s, err := e.AcceptStream()
			noErr("accept", err)
			eqBytes("first bytes", readFull("first bytes", s, 2), []byte("hi"))
			m := recv(e)
			checkMsg(e, m, "P")
			noErr("done", m.Done())
		}
		g.Go("server", func() {
			var err error
			w.S, err = server.NewEndWithConn(w.SB, sopts())
			noErr("server constructor", err)
			use(w.S, first)
		})
		g.Go("client", func() {
			var err error
			w.C, err = client.NewEndWithConn(w.CA, copts())
			noErr("client constructor", err)
			use(w.C, !first)
		})
		g.Wait(hsLimit)
	})
	reg("hs.two", "two clients connect at the same time, their generated IDs differ", win, func() {
		mc.ExploreOn()
		h1, h2 := &hs{meta: "one"}, &hs{meta: "two", dlgt: 1}
		var w1, w2 *W
		g := newGroup()
		g.Go("first", func() { w1 = h1.connect() })
		g.Go("second", func() { w2 = h2.connect() })
		g.Wait(2 * hsLimit)
		want(w1.C.ClientID() != w2.C.ClientID(), "two clients got the ID %d", w1.C.ClientID())
	})
	reg("hs.insist", "a client that insists on its ID gets it, or none", win, func() {
		a, b := vnet.Pair()
		p := newPeer(a)
		d := mc.Choose(3, "delegate")
		so := sopts()
		r := &recorder{who: "server"}
		if d > 0 {
			so.SetDelegate(&srvDlgt{r})
		}
		if d == 2 {
			r.refuseConn = errRefused
		}
		var e geminio.End
		var err error
		mc.ExploreOn()
		g := newGroup()
		g.Go("server constructor", func() { e, err = server.NewEndWithConn(b, so) })
		pkt := p.pf.NewConnPacket(1234, false, packet.Heartbeat20, []byte("meta"))
		p.send(pkt)
		k := p.must(packet.TypeConnAckPacket).(*packet.ConnAckPacket)
		mc.ExploreOff()
		want(k.ID() == pkt.ID(), "connack of packet %d answers %d", k.ID(), pkt.ID())
		if d == 2 {
			want(k.RetCode != packet.RetCodeOK && k.ConnData.Error == errRefused.Error(), "refusing connack: code %d text %q", k.RetCode, k.ConnData.Error)
			p.must(packet.TypeDisConnPacket)
			a.Close()
			g.Wait(hsLimit)
			want(err != nil, "the constructor succeeded after refusing")
			return
		}
		g.Wait(hsLimit)
		noErr("server constructor", err)
		want(k.RetCode == packet.RetCodeOK && k.ClientID == 1234, "connack: code %d client ID %d", k.RetCode, k.ClientID)
		want(e.ClientID() == 1234, "the server's client ID is %d", e.ClientID())
		eqBytes("meta", e.Meta(), []byte("meta"))
	})
	for _, side := range []string{"client", "server"} {
		side := side
		mk := func(c *vnet.Conn) (geminio.End, error) {
			if side == "server" {
				return server.NewEndWithConn(c, sopts())
			}
			return client.NewEndWithConn(c, copts())
		}
		reg("hs.odd."+side, "a peer that is silent, speaks out of order, sends garbage or hangs up during the handshake", win, func() {
			a, b := vnet.Pair()
			p := newPeer(a)
			var e geminio.End
			var err error
			g := newGroup()
			mc.ExploreOn()
			g.Go("constructor", func() { e, err = mk(b) })
			act := mc.Choose(nBad+1, "packet")
			if side == "client" && mc.Choose(2, "before the conn packet") == 0 {
				p.must(packet.TypeConnPacket)
			}
			if act < nBad {
				p.badSend(act)
			}
			hangup := mc.Choose(3, "hang up")
			switch hangup {
			case 1:
				a.Close()
			case 2:
				a.Kill(false)
			}
			g.Wait(hsLimit)
			legal := side == "server" && act < 3 // a conn packet
			if side == "client" && act >= 3 && act < 6 {
				legal = false // a connack, but of another conn packet
			}
			want(err != nil || legal, "the constructor succeeded without a handshake")
			if err == nil {
				within(closeLimit, "close", func() { e.Close() })
			} else {
				want(e == nil, "an end was returned along with the error %v", err)
			}
			mc.ExploreOff()
			a.Close()
			settle(closeLimit)
			leaks("after the failed handshake")
			want(b.IsClosed(), "the connection is still open")
		})
		reg("hs.wrongack."+side, "the answer comes twice, or a second conn packet follows: the connection is lost at worst", win, func() {
			a, b := vnet.Pair()
			p := newPeer(a)
			var e geminio.End
			var err error
			g := newGroup()
			mc.ExploreOn()
			g.Go("constructor", func() { e, err = mk(b) })
			n := 2
			if side == "client" {
				k := p.must(packet.TypeConnPacket)
				for i := 0; i < n; i++ {
					p.send(p.pf.NewConnAckPacket(k.ID(), 5+uint64(i), nil))
				}
			} else {
				for i := 0; i < n; i++ {
					p.send(p.pf.NewConnPacket(0, true, packet.Heartbeat20, []byte("m")))
				}
			}
			g.Wait(hsLimit)
			if err == nil {
				g := newGroup()
				g.Go("close", func() { e.Close() })
				g.Wait(closeLimit)
			}
			mc.ExploreOff()
			a.Close()
			settle(closeLimit)
			leaks("after the handshake")
		})
	}
	mc.RegisterPlan(&mc.Plan{Property: "C13", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "hs.ids", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "hs.race.accept", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "hs.race.refuseid", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "hs.race.refuse", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "hs.first", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 3},
		{Scenario: "hs.two", Policies: []int{0}, Quick: 1, Thorough: 1},
		{Scenario: "hs.insist", Policies: []int{0, 1}, Quick: 2, Thorough: 3},
		{Scenario: "hs.odd.client", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "hs.odd.server", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "hs.wrongack.client", Policies: []int{0, 1}, Quick: 2, Thorough: 3},
		{Scenario: "hs.wrongack.server", Policies: []int{0, 1}, Quick: 2, Thorough: 3},
	}})
}
