package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/conn"
	"github.com/singchia/geminio/multiplexer"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"gmc/mc"
	"gmc/vnet"
)

// L is a pair of connections of the connection layer, without ends.
type L struct {
	C      *conn.ClientConn
	S      *conn.ServerConn
	CA, SB *vnet.Conn
	cpf    packet.PacketFactory
	spf    packet.PacketFactory
}

func layer(buf int, copt []conn.ClientConnOption, sopt []conn.ServerConnOption) *L {
	l := &L{cpf: packet.NewPacketFactory(id.NewIDCounter(id.Odd)), spf: packet.NewPacketFactory(id.NewIDCounter(id.Even))}
	l.CA, l.SB = vnet.Pair()
	done := make(chan error, 1)
	mc.GoNamed("server-setup", func() {
		var err error
		l.S, err = conn.NewServerConn(l.SB, append([]conn.ServerConnOption{conn.OptionServerConnLogger(quiet{}), conn.OptionServerConnPacketFactory(l.spf),
			conn.OptionServerConnBufferSize(buf, buf)}, sopt...)...)
		done <- err
	})
	c, err := conn.NewClientConn(l.CA, append([]conn.ClientConnOption{conn.OptionClientConnLogger(quiet{}), conn.OptionClientConnPacketFactory(l.cpf),
		conn.OptionClientConnMeta([]byte("meta")), conn.OptionClientConnBufferSize(buf, buf)}, copt...)...)
	noErr("client conn", err)
	l.C = c
	noErr("server conn", <-done)
	want(l.C.ClientID() == l.S.ClientID() && l.C.ClientID() != 0, "client IDs %d and %d", l.C.ClientID(), l.S.ClientID())
	eqBytes("meta on the server", l.S.Meta(), []byte("meta"))
	want(l.C.Side() == geminio.InitiatorSide && l.S.Side() == geminio.RecipientSide, "sides %v, %v", l.C.Side(), l.S.Side())
	return l
}

func (l *L) conns() [2]conn.Conn                { return [2]conn.Conn{l.C, l.S} }
func (l *L) factories() [2]packet.PacketFactory { return [2]packet.PacketFactory{l.cpf, l.spf} }

// a packet which says v
func says(pf packet.PacketFactory, v string) packet.Packet {
	return pf.NewMessagePacketWithSessionID(1, []byte("k"), []byte(v), nil)
}

func said(p packet.Packet) string {
	m, ok := p.(*packet.MessagePacket)
	want(ok, "a packet of type %v came out", p.Type())
	return string(m.Data.Value)
}

// gone checks that a finished connection refuses everything.
func (l *L) gone(what string) {
	for i, c := range l.conns() {
		within(closeLimit, what+": closing again", func() { c.Close(); c.Close() })
		for k := 0; k < 2; k++ {
			within(time.Second, fmt.Sprintf("%s: read %d of conn %d", what, k, i), func() {
				p, err := c.Read()
				want(err != nil, "%s: read %v from a finished connection", what, p)
				_, ok := <-c.ChannelRead()
				want(!ok, "%s: the read channel is still open", what)
			})
			within(time.Second, fmt.Sprintf("%s: write to conn %d", what, i), func() {
				want(c.Write(says(l.cpf, "late")) != nil, "%s: a finished connection accepts packets", what)
			})
		}
	}
	settle(time.Second)
	leaks(what)
	want(l.CA.IsClosed() && l.SB.IsClosed(), "%s: the network connection is still open", what)
}

func (l *L) closing(how string) func(*group) {
	return func(g *group) {
		switch how {
		case "client":
			g.Go("close", func() { l.C.Close() })
		case "server":
			g.Go("close", func() { l.S.Close() })
		case "both":
			g.Go("close client", func() { l.C.Close() })
			g.Go("close server", func() { l.S.Close() })
		case "lost":
			g.Go("lose", func() { l.CA.Kill(true) })
		}
	}
}

// drain reads until the end.
func drainConn(c conn.Conn, byChannel bool, each func(string)) {
	if byChannel {
		for p := range c.ChannelRead() {
			each(said(p))
		}
		return
	}
	for {
		p, err := c.Read()
		if err != nil {
			return
		}
		each(said(p))
	}
}

func mux(c conn.Conn, pf packet.PacketFactory, more ...multiplexer.MultiplexerOption) multiplexer.Multiplexer {
	m, err := multiplexer.NewDialogueMgr(c, append([]multiplexer.MultiplexerOption{multiplexer.OptionLogger(quiet{}), multiplexer.OptionPacketFactory(pf),
		multiplexer.OptionMultiplexerAcceptDialogue(), multiplexer.OptionMultiplexerClosedDialogue()}, more...)...)
	noErr("multiplexer", err)
	return m
}

func (l *L) muxes(more ...multiplexer.MultiplexerOption) [2]multiplexer.Multiplexer {
	return [2]multiplexer.Multiplexer{mux(l.C, l.cpf, more...), mux(l.S, l.spf, more...)}
}

func dlgListed(m multiplexer.Multiplexer) string {
	var s []string
	for _, d := range m.ListDialogues() {
		s = append(s, fmt.Sprint(d.DialogueID()))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// endMux closes the multiplexers and their connections like their owners, and checks that nothing is left.
func (l *L) endMux(what string, ms [2]multiplexer.Multiplexer) {
	mc.ExploreOff()
	g := newGroup()
	for i := range ms {
		i := i
		g.Go("close", func() { ms[i].Close(); l.conns()[i].Close() })
	}
	g.Wait(closeLimit)
	settle(closeLimit)
	for i, m := range ms {
		within(closeLimit, "closing again", m.Close)
		within(closeLimit, what+": after the end", func() {
			d, err := m.OpenDialogue(nil, "")
			want(err != nil, "%s: opened %v after the end", what, d)
			for k := 0; ; k++ {
				if _, err := m.AcceptDialogue(); err != nil {
					break
				}
				want(k < 9, "%s: accepts never end", what)
			}
			for k := 0; ; k++ {
				if _, err := m.ClosedDialogue(); err != nil {
					break
				}
				want(k < 9, "%s: closed dialogues never end", what)
			}
			want(dlgListed(m) == "", "%s: side %d still lists %s", what, i, dlgListed(m))
		})
	}
	l.gone(what)
}

func init() {
	all := []int{0, 1, 2}
	var runs []mc.Run
	add := func(name string, pols []int, q, t int) {
		runs = append(runs, mc.Run{Scenario: name, Policies: pols, Quick: q, Thorough: t})
	}
	for _, how := range []string{"client", "server", "both", "lost"} {
		how := how
		reg("lay.conn."+how, "connections without ends: both sides write, everything arrives in order, then they end", win, func() {
			l := layer([]int{32, 1}[mc.Choose(2, "buffers")], nil, nil)
			byChannel := mc.Choose(2, "read by channel") == 1
			mc.ExploreOn()
			g, readers := newGroup(), newGroup()
			var got [2]int
			all := make(chan struct{}, 2)
			for i, c := range l.conns() {
				i, c := i, c
				readers.Go(fmt.Sprint("reader ", i), func() {
					drainConn(c, byChannel, func(v string) {
						want(v == fmt.Sprintf("%d.%d", 1-i, got[i]), "side %d got %s as number %d", i, v, got[i])
						if got[i]++; got[i] == 3 {
							all <- struct{}{}
						}
					})
				})
				g.Go(fmt.Sprint("writer ", i), func() {
					for k := 0; k < 3; k++ {
						noErr("write", c.Write(says(l.factories()[i], fmt.Sprintf("%d.%d", i, k))))
					}
				})
			}
			g.Go("everything", func() { <-all; <-all })
			g.Wait(5 * time.Second)
			l.closing(how)(g)
			g.Wait(closeLimit)
			readers.Wait(closeLimit)
			mc.ExploreOff()
			want(got == [2]int{3, 3}, "got %v", got)
			l.gone("after the end")
		})
		add("lay.conn."+how, all, 1, 2)
		reg("lay.connrace."+how, "connections without ends: writes race with the end; what was accepted before a close still arrives", win, func() {
			l := layer([]int{32, 1}[mc.Choose(2, "buffers")], nil, nil)
			mc.ExploreOn()
			g, readers := newGroup(), newGroup()
			var got, accepted [2]int
			closed := [2]bool{}
			var before [2]int
			for i, c := range l.conns() {
				i, c := i, c
				readers.Go(fmt.Sprint("reader ", i), func() {
					drainConn(c, false, func(v string) {
						want(v == fmt.Sprintf("%d.%d", 1-i, got[i]), "side %d got %s as number %d", i, v, got[i])
						got[i]++
					})
				})
				g.Go(fmt.Sprint("writer ", i), func() {
					for k := 0; k < 3; k++ {
						if c.Write(says(l.factories()[i], fmt.Sprintf("%d.%d", i, k))) != nil {
							return
						}
						accepted[i]++
					}
				})
			}
			if how == "lost" {
				l.closing(how)(g)
			} else {
				for i, c := range l.conns() {
					i, c := i, c
					if how == "both" || how == []string{"client", "server"}[i] {
						g.Go("close", func() {
							before[i], closed[i] = accepted[i], true
							c.Close()
						})
					}
				}
			}
			g.Wait(closeLimit)
			readers.Wait(closeLimit)
			mc.ExploreOff()
			for i := range got {
				want(got[i] <= accepted[1-i], "side %d got %d of %d packets", i, got[i], accepted[1-i])
				if how != "lost" && how != "both" && closed[1-i] {
					want(got[i] >= before[1-i], "side %d wrote %d packets before it closed, %d arrived", 1-i, before[1-i], got[i])
				}
			}
			l.gone("after the end")
		})
		add("lay.connrace."+how, all, 1, 2)
	}
	for _, how := range []string{"client", "server", "cut", "lost", "silent"} {
		how := how
		reg("lay.failed."+how, "a connection with a failed packet channel: what was accepted is written or reported, once", win, func() {
			slow := mc.Choose(2, "slow consumer") == 1
			failed := make(chan packet.Packet, 128)
			if slow {
				failed = make(chan packet.Packet, 1)
			}
			l := layer([]int{32, 1}[mc.Choose(2, "buffers")], nil, []conn.ServerConnOption{conn.OptionServerConnFailedPacket(failed)})
			n := 6
			if mc.Choose(2, "many") == 1 {
				n = 80
			}
			base := len(l.SB.Log())
			stalled := how == "silent" || mc.Choose(2, "nobody reads") == 1
			if stalled {
				l.SB.SetCap(100)
				l.CA.Freeze(true)
			}
			if how == "cut" {
				l.SB.FailWrite(len(l.SB.WriteSizes()) + 1 + []int{0, 1, 2, 5}[mc.Choose(4, "where")])
			}
			mc.ExploreOn()
			g := newGroup()
			reported := map[string]int{}
			if slow {
				mc.GoNamed("consumer", func() {
					for p := range failed {
						reported[said(p)]++
						settle(50 * time.Millisecond)
					}
				})
			}
			var accepted []string
			g.Go("writer", func() {
				for k := 0; k < n; k++ {
					v := fmt.Sprint("p", k)
					if l.S.Write(says(l.spf, v)) != nil {
						return
					}
					accepted = append(accepted, v)
				}
			})
			if !stalled {
				mc.GoNamed("reader", func() { drainConn(l.C, true, func(string) {}) })
			} else {
				settle(100 * ms) // everything on the way is full
			}
			switch how {
			case "silent", "server":
				g.Go("close", func() { l.S.Close() })
			case "client":
				l.CA.Freeze(false)
				if stalled {
					mc.GoNamed("reader", func() { drainConn(l.C, true, func(string) {}) })
				}
				g.Go("close", func() { l.C.Close() })
			case "lost":
				g.Go("lose", func() { l.CA.Kill(true) })
			case "cut":
				g.Go("close", func() { settle(time.Second); l.S.Close() })
			}
			g.Wait(closeLimit)
			settle(closeLimit)
			mc.ExploreOff()
			log := string(l.SB.Log()[base:])
			for len(failed) > 0 {
				reported[said(<-failed)]++
			}
			r := strings.NewReader(log)
			written := map[string]int{}
			for {
				p, err := packet.DecodeFromReader(r)
				if err != nil {
					break
				}
				if m, ok := p.(*packet.MessagePacket); ok {
					written[string(m.Data.Value)]++
				}
			}
			for _, v := range accepted {
				want(written[v]+reported[v] == 1, "packet %s of %d accepted was written %d times, reported %d times", v, len(accepted), written[v], reported[v])
			}
			mc.Outcome("%d of %d accepted", len(accepted), n)
			l.CA.Freeze(false)
			within(closeLimit, "close", func() { l.C.Close(); l.S.Close() })
			close(failed)
			settle(closeLimit)
			leaks("after the end")
		})
		add("lay.failed."+how, []int{0, 1}, 1, 2)
	}
	for _, side := range []int{0, 1} {
		side := side
		name := fmt.Sprint("lay.mux.", []string{"client", "server"}[side])
		reg(name, "multiplexers without ends: dialogues are opened, accepted, listed, found, used, closed and reported", win, func() {
			l := layer(32, nil, nil)
			ms := l.muxes()
			for i, m := range ms {
				want(dlgListed(m) == "1", "side %d lists %q", i, dlgListed(m))
				d, err := m.GetDialogue(l.C.ClientID(), 1)
				noErr("the default dialogue", err)
				eqBytes("its meta", d.Meta(), []byte("meta"))
				_, err = m.GetDialogue(l.C.ClientID()+1, 1)
				want(err != nil, "found a dialogue of another client")
				_, err = m.GetDialogue(l.C.ClientID(), 99)
				want(err != nil, "found a dialogue nobody opened")
			}
			o, a := ms[side], ms[1-side]
			opf, apf := l.factories()[side], l.factories()[1-side]
			closer := mc.Choose(3, "closer")
			mc.ExploreOn()
			g := newGroup()
			var od, ad [2]multiplexer.Dialogue
			for k := range od {
				k := k
				g.Go(fmt.Sprint("open ", k), func() {
					d, err := o.OpenDialogue([]byte(fmt.Sprint("m", k)), fmt.Sprint("p", k))
					noErr("open", err)
					od[k] = d
					noErr("write", d.Write(says(opf, fmt.Sprintf("%d.0", k))))
					noErr("write", d.WriteWait(says(opf, fmt.Sprintf("%d.1", k))))
				})
				g.Go(fmt.Sprint("accept ", k), func() {
					d, err := a.AcceptDialogue()
					noErr("accept", err)
					ad[k] = d
					who := strings.TrimPrefix(string(d.Meta()), "m")
					want(d.Peer() == "p"+who, "meta %s, peer %s", d.Meta(), d.Peer())
					p, err := d.Read()
					noErr("read", err)
					want(said(p) == who+".0", "dialogue %s got %s", who, said(p))
					p, ok := <-d.ReadC()
					want(ok && said(p) == who+".1", "dialogue %s got %s", who, said(p))
					noErr("write", d.Write(says(apf, "back "+who)))
				})
			}
			g.Go("look", func() {
				// what is being opened isn't found under the number it negotiates with
				settle(0)
				r := strings.NewReader(string([]*vnet.Conn{l.CA, l.SB}[side].Log()))
				for {
					p, err := packet.DecodeFromReader(r)
					if err != nil {
						break
					}
					if s, ok := p.(*packet.SessionPacket); ok {
						if d, err := o.GetDialogue(l.C.ClientID(), s.NegotiateID()); err == nil {
							want(d.DialogueID() == s.NegotiateID(), "found dialogue %d as %d", d.DialogueID(), s.NegotiateID())
						}
					}
				}
			})
			g.Wait(40 * time.Second)
			want(od[0].DialogueID() != od[1].DialogueID(), "both dialogues have ID %d", od[0].DialogueID())
			if string(ad[0].Meta()) != "m0" {
				ad[0], ad[1] = ad[1], ad[0]
			}
			for k := range od {
				want(od[k].DialogueID() == ad[k].DialogueID() && od[k].ClientID() == ad[k].ClientID(), "dialogue %d: IDs %d and %d", k, od[k].DialogueID(), ad[k].DialogueID())
				for i, m := range ms {
					d, err := m.GetDialogue(l.C.ClientID(), od[k].DialogueID())
					noErr("find", err)
					want(d.DialogueID() == od[k].DialogueID(), "found %d", d.DialogueID())
					want(strings.Contains(dlgListed(m), fmt.Sprint(d.DialogueID())), "side %d lists %s, not %d", i, dlgListed(m), d.DialogueID())
				}
				p, err := od[k].Read()
				noErr("read", err)
				want(said(p) == fmt.Sprint("back ", k), "dialogue %d got %s", k, said(p))
			}
			// one of them ends, the other goes on
			if closer != 1 {
				g.Go("opener closes", func() { od[0].Close() })
			}
			if closer != 0 {
				g.Go("accepter closes", func() { ad[0].Close() })
			}
			for i, m := range ms {
				i, m := i, m
				g.Go("closed", func() {
					d, err := m.ClosedDialogue()
					noErr("closed", err)
					want(d.DialogueID() == od[0].DialogueID(), "side %d was told of the end of %d, not %d", i, d.DialogueID(), od[0].DialogueID())
				})
			}
			g.Wait(closeLimit)
			mc.ExploreOff()
			settle(time.Second)
			for i, m := range ms {
				want(dlgListed(m) == "1 "+fmt.Sprint(od[1].DialogueID()), "side %d lists %s", i, dlgListed(m))
				_, err := m.GetDialogue(l.C.ClientID(), od[0].DialogueID())
				want(err != nil, "side %d still finds the closed dialogue", i)
				d := []multiplexer.Dialogue{od[0], ad[0]}[i]
				within(time.Second, "closed dialogue", func() {
					for k := 0; k < 2; k++ {
						_, err := d.Read()
						want(err != nil, "read from a closed dialogue")
						want(d.Write(says(opf, "x")) != nil && d.WriteWait(says(opf, "x")) != nil, "a closed dialogue accepts packets")
						d.Close()
					}
				})
			}
			noErr("write", od[1].Write(says(opf, "on")))
			within(time.Second, "the other dialogue", func() {
				p, err := ad[1].Read()
				noErr("read", err)
				want(said(p) == "on", "got %s", said(p))
			})
			l.endMux("after the end", ms)
		})
		add(name, all, 1, 2)
	}
	for _, how := range []string{"client mux", "server mux", "both mux", "client", "server", "both", "lost"} {
		how := how
		name := "lay.muxend." + strings.ReplaceAll(how, " ", "")
		reg(name, "multiplexers without ends: everything pending returns when they end, each dialogue is reported closed at most once", win, func() {
			l := layer([]int{32, 1}[mc.Choose(2, "buffers")], nil, nil)
			ms := l.muxes()
			var ds []multiplexer.Dialogue
			for i := 0; i < 2; i++ {
				g := newGroup()
				g.Go("open", func() {
					d, err := ms[i].OpenDialogue([]byte("m"), "")
					noErr("open", err)
					ds = append(ds, d)
				})
				g.Go("accept", func() {
					d, err := ms[1-i].AcceptDialogue()
					noErr("accept", err)
					ds = append(ds, d)
				})
				g.Wait(40 * time.Second)
			}
			pend := newGroup()
			for i, d := range append(ds, ms[0].ListDialogues()[0]) {
				if i == 1 {
					continue // this one gets a packet
				}
				d := d
				pend.Go(fmt.Sprint("read ", i), func() {
					_, err := d.Read()
					want(err != nil, "read a packet nobody wrote")
				})
			}
			for i, m := range ms {
				m := m
				pend.Go(fmt.Sprint("accept ", i), func() {
					for {
						if _, err := m.AcceptDialogue(); err != nil {
							return
						}
					}
				})
				pend.Go(fmt.Sprint("closed ", i), func() {
					seen := map[uint64]bool{}
					for {
						d, err := m.ClosedDialogue()
						if err != nil {
							return
						}
						want(!seen[d.DialogueID()], "dialogue %d was reported closed twice", d.DialogueID())
						seen[d.DialogueID()] = true
					}
				})
			}
			settle(100 * time.Millisecond)
			mc.ExploreOn()
			g := newGroup()
			pend.Go("open", func() { ms[0].OpenDialogue(nil, "") })
			pend.Go("write", func() { ds[0].Write(says(l.cpf, "x")) })
			if w := strings.TrimSuffix(how, " mux"); w != how {
				for i, n := range []string{"client", "server"} {
					i := i
					if w == n || w == "both" {
						g.Go("close", func() { ms[i].Close(); l.conns()[i].Close() })
					}
				}
			} else {
				l.closing(how)(g)
			}
			mc.GoNamed("reader of what was written", func() {
				for {
					if _, err := ds[1].Read(); err != nil {
						return
					}
				}
			})
			g.Wait(closeLimit)
			pend.Wait(closeLimit)
			l.endMux("after the end", ms)
		})
		add(name, []int{0, 1}, 1, 2)
	}
	mc.RegisterPlan(&mc.Plan{Property: "C24", QuickS: 240, ThoroughS: 820, Runs: runs})
}
