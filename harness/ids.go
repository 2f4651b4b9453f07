package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"gmc/mc"
	"gmc/vnet"
)

// seedRand is a random source that repeats four bytes.
type seedRand [4]byte

func (s seedRand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = s[i%4]
	}
	return len(b), nil
}

var seeds = []seedRand{{0, 0, 0, 0}, {1, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0xfc, 0xff, 0xff, 0xff}, {0xfe, 0xff, 0xff, 0x7f}, {3, 2, 1, 0}, {0xab, 0, 0, 0x80}}

// newCounter makes a counter whose start is chosen.
func newCounter(m id.Mode) *id.IDCounter {
	old := rand.Reader
	if m != id.Unique {
		rand.Reader = seeds[mc.Choose(len(seeds), "start")]
	}
	c := id.NewIDCounter(m)
	rand.Reader = old
	return c
}

// idBook is the specification of a counter: the IDs in use.
type idBook struct {
	mode id.Mode
	used map[uint64]bool
}

func (b *idBook) got(x uint64) {
	want(!b.used[x], "mode %s: ID %d was handed out twice", b.mode, x)
	switch b.mode {
	case id.Even:
		want(x%2 == 0, "ID %d of an even counter", x)
	case id.Odd:
		want(x%2 == 1, "ID %d of an odd counter", x)
	}
	b.used[x] = true
}

var idModes = []id.Mode{id.Even, id.Odd, id.Inc, id.Unique}

func init() {
	all := []int{0, 1, 2}
	for _, m := range idModes {
		m := m
		reg("id.hist."+string(m), "every history of gets, reservations and releases up to a depth", mc.Config{}, func() {
			c := newCounter(m)
			b := &idBook{m, map[uint64]bool{}}
			var last []uint64
			depth := 6
			if m != id.Unique {
				depth = 4
			}
			for i := 0; i < depth; i++ {
				switch k := mc.Choose(7, "step"); k {
				case 0:
					x := c.GetID()
					b.got(x)
					last = append(last, x)
				case 1:
					x, err := c.GetIDByMeta([]byte("m"))
					noErr("GetIDByMeta", err)
					b.got(x)
					last = append(last, x)
				case 2, 3, 4:
					x := uint64(k - 1) // 1, 2, 3
					c.ReserveID(x)
					if m == id.Unique {
						b.used[x] = true
					}
				case 5, 6:
					// release the first or the last one
					if len(last) > 0 {
						j := 0
						if k == 6 {
							j = len(last) - 1
						}
						c.DelID(last[j])
						delete(b.used, last[j])
						last = append(last[:j:j], last[j+1:]...)
					}
				}
			}
			mc.CountCase()
			for i := 0; i < 4; i++ {
				b.got(c.GetID())
			}
		})
		reg("id.conc."+string(m), "concurrent gets, reservations and releases", mc.Config{}, func() {
			c := newCounter(m)
			b := &idBook{m, map[uint64]bool{}}
			g := newGroup()
			if m == id.Unique {
				c.ReserveID(2)
				b.used[2] = true
			}
			for i := 0; i < 3; i++ {
				i := i
				g.Go(fmt.Sprint("caller ", i), func() {
					x := c.GetID()
					b.got(x)
					if i == 0 {
						delete(b.used, x) // from now on it may be handed out again
						c.DelID(x)
						b.got(c.GetID())
					}
					b.got(c.GetID())
				})
			}
			if m == id.Unique {
				g.Go("reserve", func() {
					c.ReserveID(9)
					b.got(9)
					for i := 0; i < 2; i++ {
						b.got(c.GetID())
					}
				})
			}
			g.Wait(5 * time.Second)
			for i := 0; i < 8; i++ {
				b.got(c.GetID())
			}
		})
		reg("id.time."+string(m), "IDs stay unique while the clock advances and the counter wraps", mc.Config{}, func() {
			c := newCounter(m)
			b := &idBook{m, map[uint64]bool{}}
			for i := 0; i < 8; i++ {
				b.got(c.GetID())
				if mc.Choose(2, "a second passes") == 1 {
					settle(time.Second)
				}
			}
			mc.CountCase()
		})
	}
	reg("id.pair", "an odd and an even counter with every pair of starts never meet", mc.Config{}, func() {
		o, e := newCounter(id.Odd), newCounter(id.Even)
		b := &idBook{"pair", map[uint64]bool{}}
		bo, be := &idBook{id.Odd, map[uint64]bool{}}, &idBook{id.Even, map[uint64]bool{}}
		for i := 0; i < 6; i++ {
			x, y := o.GetID(), e.GetID()
			bo.got(x)
			be.got(y)
			b.got(x)
			b.got(y)
		}
		mc.CountCase()
	})
	reg("id.wire", "packet IDs on the wire: both sides allocate while they work, none is used twice", win, func() {
		w := connect(nil, nil)
		es, ec := newEcho(w.S), newEcho(w.C)
		mc.ExploreOn()
		g := newGroup()
		g.Go("client", func() {
			noErr("register", w.C.Register(bg(), "c", ec.handle))
			s, err := openStream(w.C, "m", "")
			noErr("open", err)
			mustWrite("write", s, []byte("x"))
			noErr("publish", w.C.Publish(bg(), cnss(w.C, "P", true)))
		})
		g.Go("server", func() {
			noErr("register", w.S.Register(bg(), "s", es.handle))
			checkCall(w.C, "s", "A")
			s, err := openStream(w.S, "n", "")
			noErr("open", err)
			mustWrite("write", s, []byte("y"))
			noErr("publish", w.S.Publish(bg(), cnss(w.S, "P", true)))
		})
		g.Wait(3 * time.Second)
		settle(time.Second)
		mc.ExploreOff()
		ids := map[uint64]string{}
		for i, c := range []*vnet.Conn{w.CA, w.SB} {
			who := []string{"client", "server"}[i]
			n := 0
			r := bytes.NewReader(c.Log())
			for {
				p, err := packet.DecodeFromReader(r)
				if err != nil {
					break
				}
				switch p.Type() {
				case packet.TypeConnPacket, packet.TypeHeartbeatPacket, packet.TypeSessionPacket, packet.TypeMessagePacket, packet.TypeRequestPacket, packet.TypeStreamPacket, packet.TypeRegisterPacket:
				default:
					continue // echoes the ID of what it answers
				}
				n++
				want(int(p.ID()%2) == 1-i, "%s sent packet %d of type %v, which is the other side's parity", who, p.ID(), p.Type())
				want(ids[p.ID()] == "", "packet ID %d was used by the %s and the %s", p.ID(), ids[p.ID()], who)
				ids[p.ID()] = who
			}
			want(n >= 4, "only %d packets of the %s decoded", n, who)
		}
	})
	reg("id.streams", "stream IDs: both sides open and close, no ID is used by two live streams, freed ones may come again", win, func() {
		w := connect(nil, nil)
		live := map[uint64]bool{1: true}
		mc.ExploreOn()
		g := newGroup()
		for i, e := range []geminio.End{w.C, w.S} {
			i, e := i, e
			g.Go(fmt.Sprint("opener ", i), func() {
				for k := 0; k < 2; k++ {
					s, err := openStream(e, "m", "")
					noErr("open", err)
					want(!live[s.StreamID()], "stream ID %d is in use", s.StreamID())
					live[s.StreamID()] = true
					if k == 0 {
						delete(live, s.StreamID())
						noErr("close", s.Close())
					}
				}
			})
		}
		g.Wait(40 * time.Second)
	})
	runs := []mc.Run{
		{Scenario: "id.pair", Policies: []int{0}},
		{Scenario: "id.wire", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "id.streams", Policies: all, Quick: 1, Thorough: 2},
	}
	for _, m := range idModes {
		runs = append(runs, mc.Run{Scenario: "id.hist." + string(m), Policies: []int{0}},
			mc.Run{Scenario: "id.time." + string(m), Policies: []int{0}},
			mc.Run{Scenario: "id.conc." + string(m), Policies: all, Quick: 4, Thorough: 9})
	}
	mc.RegisterPlan(&mc.Plan{Property: "C21", QuickS: 75, ThoroughS: 820, Runs: runs})
}
