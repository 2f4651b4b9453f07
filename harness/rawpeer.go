package main

import (
	"errors"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// peer is a scripted remote side speaking raw packets.
type peer struct {
	c    *vnet.Conn
	pf   packet.PacketFactory
	in   chan packet.Packet
	got  []packet.Packet
	eof  bool
	auto func(p packet.Packet) // called by the reader for every packet
}

func newPeer(c *vnet.Conn) *peer {
	p := &peer{c: c, pf: packet.NewPacketFactory(id.NewIDCounter(id.Odd)), in: make(chan packet.Packet, 256)}
	mc.GoNamed("peer reader", func() {
		for {
			k, err := packet.DecodeFromReader(c)
			if err != nil {
				p.eof = true
				close(p.in)
				return
			}
			p.got = append(p.got, k)
			if p.auto != nil {
				p.auto(k)
			}
			p.in <- k
		}
	})
	return p
}

func (p *peer) send(k packet.Packet) {
	packet.EncodeToWriter(k, p.c)
}

func (p *peer) raw(b []byte) { p.c.Write(b) }

// next waits for the next packet of type t (others are skipped); nil on EOF or after d.
func (p *peer) next(t packet.Type, d time.Duration) packet.Packet {
	tm := time.NewTimer(d)
	defer tm.Stop()
	for {
		select {
		case k, ok := <-p.in:
			if !ok {
				return nil
			}
			if k.Type() == t {
				return k
			}
		case <-tm.C:
			return nil
		}
	}
}

// want1 is next that must succeed.
func (p *peer) must(t packet.Type) packet.Packet {
	k := p.next(t, 5*time.Second)
	if k == nil {
		mc.FailNow("scripted peer: expected %s, got nothing", t)
	}
	return k
}

// handshakeAsClient connects to a server end.
func (p *peer) handshakeAsClient(wanted uint64, meta string) uint64 {
	p.send(p.pf.NewConnPacket(wanted, true, packet.Heartbeat20, []byte(meta)))
	k := p.must(packet.TypeConnAckPacket).(*packet.ConnAckPacket)
	if k.RetCode != packet.RetCodeOK {
		mc.FailNow("scripted peer: refused: %s", k.ConnData.Error)
	}
	return k.ClientID
}

// handshakeAsServer answers a client end.
func (p *peer) handshakeAsServer(cid uint64) {
	k := p.must(packet.TypeConnPacket)
	p.send(p.pf.NewConnAckPacket(k.ID(), cid, nil))
}

// oneOf builds the i-th kind of packet for a session.
func (p *peer) oneOf(i int, sid uint64) packet.Packet {
	pf := p.pf
	nid := pf.NewPacketID()
	switch i {
	case 0:
		return pf.NewConnPacket(77, true, packet.Heartbeat5, []byte("again"))
	case 1:
		return pf.NewConnAckPacket(nid, 78, nil)
	case 2:
		return pf.NewDisConnPacket()
	case 3:
		return pf.NewDisConnAckPacket(nid, nil)
	case 4:
		return pf.NewHeartbeatPacket()
	case 5:
		return pf.NewHeartbeatAckPacket(nid)
	case 6:
		return pf.NewSessionPacket(sid, true, []byte("m"), "p")
	case 7:
		return pf.NewSessionAckPacket(nid, sid, sid, nil)
	case 8:
		return pf.NewDismissPacket(sid)
	case 9:
		return pf.NewDismissAckPacket(nid, sid, nil)
	case 10:
		return pf.NewMessagePacketWithIDAndSessionID(nid, sid, nil, []byte("v"))
	case 11:
		return pf.NewMessageAckPacketWithSessionID(sid, nid, nil)
	case 12:
		return pf.NewStreamPacketWithSessionID(sid, []byte("s"))
	case 13:
		return pf.NewRequestPacketWithIDAndSessionID(nid, sid, []byte("m"), []byte("d"))
	case 14:
		r := pf.NewResponsePacket(nid, []byte("m"), []byte("d"), nil)
		r.SetSessionID(sid)
		return r
	case 15:
		return pf.NewRequestCancelPacketWithIDAndSessionID(nid, sid, packet.RequestCancelTypeCanceled)
	case 16:
		return pf.NewRegisterPacketWithSessionID(sid, []byte("m"))
	case 17:
		return pf.NewRegisterAckPacketWithSessionID(sid, nid, nil)
	}
	panic("kind")
}

// badSend sends one well-formed packet that may be out of place, or garbage.
const nBad = nKinds*3 + 4

func (p *peer) badSend(i int) {
	if i < nKinds*3 {
		p.send(p.oneOf(i/3, []uint64{1, 0, 4242}[i%3]))
		return
	}
	switch i - nKinds*3 {
	case 0:
		p.raw([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"))
	case 1: // unknown type
		p.raw([]byte{1, 0x99, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 3, 1, 2, 3})
	case 2: // message packet that is too short for its session ID
		p.raw([]byte{1, 0x51, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 3, 1, 2, 3})
	case 3: // valid header, payload is not JSON
		p.raw([]byte{1, 0x51, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 10, 0, 0, 0, 0, 0, 0, 0, 1, 'x', 'y'})
	}
}

func init() {
	wireBad := func(server_ bool, n int) func() {
		return func() {
			a, b := vnet.Pair()
			p := newPeer(a)
			var e geminio.End
			var err error
			stage := mc.Choose(4, "stage") // before the handshake, before the answer, connected, with a stream
			done := make(chan struct{})
			mc.GoNamed("constructor", func() {
				if server_ {
					e, err = server.NewEndWithConn(b, sopts())
				} else {
					e, err = client.NewEndWithConn(b, copts())
				}
				close(done)
			})
			if stage >= 2 {
				if server_ {
					p.handshakeAsClient(5, "meta")
				} else {
					p.handshakeAsServer(5)
				}
				<-done
				noErr("constructor", err)
				// the end works until it is disturbed
				noErr("register", registerWith(p, e))
			}
			if stage == 1 && !server_ {
				p.must(packet.TypeConnPacket)
			} else if stage == 1 {
				p.raw([]byte{1, 1}) // half a header, completed by what follows
			}
			if stage == 3 {
				p.send(p.pf.NewSessionPacket(packet.SessionIDNull, true, []byte("m"), ""))
				p.must(packet.TypeSessionAckPacket)
				sm, err := e.AcceptStream()
				noErr("accept", err)
				mc.GoNamed("reader", func() {
					b := make([]byte, 10)
					for {
						if _, err := sm.Read(b); err != nil {
							return
						}
					}
				})
			}
			for i := 0; i < n; i++ {
				p.badSend(mc.Choose(nBad, "packet"))
				if mc.Choose(2, "pause") == 1 {
					time.Sleep(100 * ms)
				}
			}
			time.Sleep(time.Second)
			if mc.Choose(2, "hang up") == 1 {
				p.c.Close()
			}
			within(65*time.Second, "constructor", func() { <-done })
			if err == nil {
				within(65*time.Second, "close", func() { e.Close() })
			}
			p.c.Close()
			time.Sleep(40 * time.Second)
			leaks("after close")
			mc.Outcome("err %v", err != nil)
		}
	}
	reg("wire.bad.server", "one out-of-place packet or garbage to a server end at every stage", mc.Config{}, wireBad(true, 1))
	reg("wire.bad.client", "one out-of-place packet or garbage to a client end at every stage", mc.Config{}, wireBad(false, 1))
	reg("wire.bad2.server", "two out-of-place packets to a server end", mc.Config{}, wireBad(true, 2))
	reg("wire.bad2.client", "two out-of-place packets to a client end", mc.Config{}, wireBad(false, 2))
	mc.RegisterPlan(&mc.Plan{Property: "C02", QuickS: 150, ThoroughS: 800, Runs: []mc.Run{
		{Scenario: "packet.bad", Quick: 0, Thorough: 0},
		{Scenario: "wire.bad.server", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "wire.bad.client", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "wire.bad2.server", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "wire.bad2.client", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
	}, Assumptions: []string{"announced lengths up to 1 MB"}})
	reg("packet.wire", "a conversation over a network that delivers 1..k bytes per read", mc.Config{}, func() {
		w := &W{}
		w.CA, w.SB = vnet.Pair()
		n := []int{1, 2, 3, 5, 13, 14, 15, 64, 1000}[mc.Choose(9, "bytes per read")]
		w.CA.SetMaxRead(n)
		w.SB.SetMaxRead(n)
		connectOn(w, copts(), sopts())
		es, ec := newEcho(w.S), newEcho(w.C)
		noErr("register", w.S.Register(bg(), "echo", es.handle))
		noErr("register", w.C.Register(bg(), "echo", ec.handle))
		c1, s1 := openPair(w.C, w.S, "meta")
		eqBytes("stream meta", s1.Meta(), []byte("meta"))
		for i := 0; i < 2; i++ {
			checkCall(w.C, "echo", "A")
			checkCall(w.S, "echo", "B")
			for _, sm := range [][2]geminio.Stream{{w.C, w.S}, {c1, s1}, {s1, c1}} {
				d := "data" + string(rune('0'+i))
				done := map[string]int{}
				g := newGroup()
				g.Go("publish", func() { pubSync(sm[0], d, done) })
				m := recv(sm[1])
				checkMsg(sm[1], m, d)
				if i == 1 {
					done[d] = mc.Tick("done")
					noErr("done", m.Done())
					g.Wait(5 * time.Second)
				} else {
					done[d] = mc.Tick("done")
					noErr("done", m.Done())
					g.Wait(5 * time.Second)
				}
				_, err := sm[0].Write([]byte("raw" + d))
				noErr("write", err)
				eqBytes("raw", readFull("raw", sm[1], 3+len(d)), []byte("raw"+d))
			}
		}
		w.closeBoth()
	})
}

// registerWith registers a method on e while the scripted peer acknowledges it.
func registerWith(p *peer, e geminio.End) error {
	res := make(chan error, 1)
	mc.GoNamed("register", func() { res <- e.Register(bg(), "m", newEcho(e).handle) })
	k := p.must(packet.TypeRegisterPacket)
	p.send(p.pf.NewRegisterAckPacketWithSessionID(1, k.ID(), nil))
	return <-res
}

var errX = errors.New("x")
