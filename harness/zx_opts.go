package main

import (
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/server"
	timer "github.com/singchia/go-timer/v2"
	"gmc/mc"
	"gmc/vnet"
)

// optn is one option: how to give it, and how to give another value for it.
type optn[T any] struct {
	name       string
	set, decoy func(*T)
}

const arrangements = 7

// arrange spreads options over structures.
func arrange[T any](mk func() *T, os []optn[T], how int) []*T {
	one := func(f func(*T)) *T {
		o := mk()
		f(o)
		return o
	}
	all := func(decoy bool) *T {
		o := mk()
		for _, x := range os {
			if decoy {
				x.decoy(o)
			} else {
				x.set(o)
			}
		}
		return o
	}
	var l []*T
	switch how {
	case 0: // one structure
		l = append(l, all(false))
	case 1: // one for each option
		for _, x := range os {
			l = append(l, one(x.set))
		}
	case 2: // the other way round
		for i := range os {
			l = append(l, one(os[len(os)-1-i].set))
		}
	case 3: // all of them are given anew
		l = append(l, all(true), all(false))
	case 4: // each of them is given anew
		l = append(l, all(true))
		for _, x := range os {
			l = append(l, one(x.set))
		}
	case 5: // empty ones and none around
		l = append(l, nil, mk())
		for _, x := range os {
			l = append(l, one(x.set), nil)
		}
		l = append(l, mk(), nil)
	case 6: // the option itself is given twice within its structure
		o := mk()
		for _, x := range os {
			x.decoy(o)
			x.set(o)
		}
		l = append(l, mk(), o, mk())
	}
	return l
}

// pick gives all options, only one, all but one, or none.
func pick[T any](os []optn[T]) ([]optn[T], map[string]bool) {
	n := len(os)
	var l []optn[T]
	switch k := mc.Choose(2*n+2, "options"); {
	case k == 0:
		l = os
	case k <= n:
		l = os[k-1 : k]
	case k <= 2*n:
		l = append(append(l, os[:k-n-1]...), os[k-n:]...)
	}
	has := map[string]bool{}
	for _, x := range l {
		has[x.name] = true
	}
	return l, has
}

// tally counts what is logged.
type tally struct {
	quiet
	n int
}

func (t *tally) Trace(v ...interface{})            { t.n++ }
func (t *tally) Tracef(f string, v ...interface{}) { t.n++ }
func (t *tally) Debug(v ...interface{})            { t.n++ }
func (t *tally) Debugf(f string, v ...interface{}) { t.n++ }
func (t *tally) Info(v ...interface{})             { t.n++ }
func (t *tally) Infof(f string, v ...interface{})  { t.n++ }

// tallyPF counts the packets a factory makes for each of the layers.
type tallyPF struct {
	packet.PacketFactory
	conn, sess, app int
}

func newTallyPF(odd bool) *tallyPF {
	if odd {
		return &tallyPF{PacketFactory: packet.NewPacketFactory(id.NewIDCounter(id.Odd))}
	}
	return &tallyPF{PacketFactory: packet.NewPacketFactory(id.NewIDCounter(id.Even))}
}

func (f *tallyPF) NewConnPacket(wanted uint64, peersCall bool, heartbeat packet.Heartbeat, meta []byte) *packet.ConnPacket {
	f.conn++
	return f.PacketFactory.NewConnPacket(wanted, peersCall, heartbeat, meta)
}
func (f *tallyPF) NewConnAckPacket(packetID uint64, confirmedClientID uint64, err error) *packet.ConnAckPacket {
	f.conn++
	return f.PacketFactory.NewConnAckPacket(packetID, confirmedClientID, err)
}
func (f *tallyPF) NewSessionPacket(negotiateID uint64, peersCall bool, meta []byte, peer string) *packet.SessionPacket {
	f.sess++
	return f.PacketFactory.NewSessionPacket(negotiateID, peersCall, meta, peer)
}
func (f *tallyPF) NewRegisterAckPacketWithSessionID(sessionID uint64, packetID uint64, err error) *packet.RegisterAckPacket {
	f.app++
	return f.PacketFactory.NewRegisterAckPacketWithSessionID(sessionID, packetID, err)
}
func (f *tallyPF) NewRegisterAckPacket(packetID uint64, err error) *packet.RegisterAckPacket {
	f.app++
	return f.PacketFactory.NewRegisterAckPacket(packetID, err)
}

// subject is the end whose options are given, with everything they name.
type subject struct {
	rec, decoyRec   *recorder
	lent, decoyLent timer.Timer
	log, decoyLog   *tally
	pf, decoyPF     *tallyPF
	board           *board
	stray           int // calls of decoys
	l               []string
}

func newSubject(side string) *subject {
	return &subject{
		rec: &recorder{who: side, reg: map[string]bool{}}, decoyRec: &recorder{who: "decoy"},
		log: &tally{}, decoyLog: &tally{},
		pf: newTallyPF(side == "client"), decoyPF: newTallyPF(side == "client"),
		board: newBoard(),
	}
}

func (s *subject) timers() (timer.Timer, timer.Timer) {
	if s.lent == nil {
		s.lent, s.decoyLent = timer.NewTimer(), timer.NewTimer()
	}
	return s.lent, s.decoyLent
}

func rpcSaying(what string) geminio.RPC {
	return func(_ ctxT, _ geminio.Request, rsp geminio.Response) { rsp.SetData([]byte(what)) }
}

func (s *subject) clientOptions() []optn[client.EndOptions] {
	type T = client.EndOptions
	return []optn[T]{
		{"meta", func(o *T) { o.SetMeta([]byte("m-x")) }, func(o *T) { o.SetMeta([]byte("decoy")) }},
		{"id", func(o *T) { o.SetClientID(77) }, func(o *T) { o.SetClientID(78) }},
		{"delegate", func(o *T) { o.SetDelegate(&cliDlgt{s.rec}) }, func(o *T) { o.SetDelegate(&cliDlgt{s.decoyRec}) }},
		{"timer", func(o *T) { t, _ := s.timers(); o.SetTimer(t) }, func(o *T) { _, t := s.timers(); o.SetTimer(t) }},
		{"log", func(o *T) { o.SetLog(s.log) }, func(o *T) { o.SetLog(s.decoyLog) }},
		{"factory", func(o *T) { o.SetPacketFactory(s.pf) }, func(o *T) { o.SetPacketFactory(s.decoyPF) }},
		{"local", func(o *T) {
			o.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "lm", RPC: rpcSaying("lm")}, &geminio.MethodRPC{Method: "lm2", RPC: rpcSaying("lm2")})
		}, func(o *T) { o.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "dm", RPC: rpcSaying("dm")}) }},
		{"wait", func(o *T) { o.SetWaitRemoteRPCs("late") }, func(o *T) { o.SetWaitRemoteRPCs("never") }},
		{"buffer", func(o *T) { o.SetBufferSize(3, 5) }, func(o *T) { o.SetBufferSize(1, 1) }},
	}
}

func (s *subject) serverOptions() []optn[server.EndOptions] {
	type T = server.EndOptions
	return []optn[T]{
		{"id", func(o *T) { o.SetClientID(88) }, func(o *T) { o.SetClientID(89) }},
		{"delegate", func(o *T) { o.SetDelegate(&srvDlgt{s.rec}) }, func(o *T) { o.SetDelegate(&srvDlgt{s.decoyRec}) }},
		{"timer", func(o *T) { t, _ := s.timers(); o.SetTimer(t) }, func(o *T) { _, t := s.timers(); o.SetTimer(t) }},
		{"log", func(o *T) { o.SetLog(s.log) }, func(o *T) { o.SetLog(s.decoyLog) }},
		{"factory", func(o *T) { o.SetPacketFactory(s.pf) }, func(o *T) { o.SetPacketFactory(s.decoyPF) }},
		{"local", func(o *T) {
			o.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "lm", RPC: rpcSaying("lm")}, &geminio.MethodRPC{Method: "lm2", RPC: rpcSaying("lm2")})
		}, func(o *T) { o.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "dm", RPC: rpcSaying("dm")}) }},
		{"wait", func(o *T) { o.SetWaitRemoteRPCs("late") }, func(o *T) { o.SetWaitRemoteRPCs("never") }},
		{"accept", func(o *T) { o.SetAcceptStreamFunc(s.board.accept) }, func(o *T) { o.SetAcceptStreamFunc(func(geminio.Stream) { s.stray++ }) }},
		{"closed", func(o *T) {
			o.SetClosedStreamFunc(func(x geminio.Stream) { s.board.closed[x.StreamID()]++ })
		}, func(o *T) { o.SetClosedStreamFunc(func(geminio.Stream) { s.stray++ }) }},
		{"buffer", func(o *T) { o.SetBufferSize(3, 5) }, func(o *T) { o.SetBufferSize(1, 1) }},
	}
}

// late makes an end register the method its peer may be waiting for.
func late(e geminio.End) {
	mc.GoNamed("late registration", func() {
		time.Sleep(3 * time.Second)
		noErr("late registration", e.Register(bg(), "late", rpcSaying("late")))
	})
}

// check looks for the effect of each option on e, whose peer is p.
func (s *subject) check(side string, e, p geminio.End, prec *recorder, took time.Duration, has map[string]bool) {
	if has["wait"] {
		want(took >= 3*time.Second, "the end was there after %v, the method it waits for was registered after 3s", took)
	} else {
		want(took < time.Second, "the end waits for nothing and took %v", took)
	}
	settle(4 * time.Second)
	c, srv := e, p
	if side == "server" {
		c, srv = p, e
	}
	want(c.ClientID() == srv.ClientID(), "client ID %d here, %d there", c.ClientID(), srv.ClientID())
	meta := ""
	if has["meta"] {
		meta = "m-x"
	}
	if side == "client" {
		eqBytes("meta", srv.Meta(), []byte(meta))
		eqBytes("meta", c.Meta(), []byte(meta))
		want(len(prec.wanted) == 1, "the client asked for IDs %v", prec.wanted)
		if has["id"] {
			want(c.ClientID() == 77 && prec.wanted[0] == 77, "client ID %d, asked for %v, the option is 77", c.ClientID(), prec.wanted)
		} else {
			want(prec.wanted[0] == packet.ClientIDNull, "the client asked for IDs %v", prec.wanted)
		}
	} else if has["id"] {
		want(c.ClientID() == 88, "client ID %d, the option is 88", c.ClientID())
	} else {
		want(c.ClientID() != 88 && c.ClientID() != 89, "client ID %d", c.ClientID())
	}
	for _, m := range []string{"lm", "lm2", "dm"} {
		rsp, err := p.Call(bg(), m, p.NewRequest(nil))
		if has["local"] && m != "dm" {
			noErr("call of "+m, err)
			eqBytes("call of "+m, rsp.Data(), []byte(m))
			want(prec.reg[m], "the peer was not told of method %s", m)
		} else {
			want(err != nil, "call of method %s succeeded", m)
			want(!prec.reg[m], "the peer was told of method %s", m)
		}
	}
	// a stream each way
	mine, err := openStream(e, "so", "po")
	noErr("open", err)
	x, err := p.AcceptStream()
	noErr("accept", err)
	sameStream(mine, x, "so", "po")
	theirs, err := openStream(p, "st", "pt")
	noErr("open", err)
	var y geminio.Stream
	if has["accept"] {
		settle(100 * ms)
		y = s.board.accepted[theirs.StreamID()]
		want(y != nil, "a stream was opened and the accept function not called")
	} else {
		y, err = e.AcceptStream()
		noErr("accept", err)
	}
	sameStream(theirs, y, "st", "pt")
	works("a", mine, x)
	works("b", theirs, y)
	works("c", e, p)
	works("d", p, e)
	if has["delegate"] {
		want(s.rec.connOn == 1, "%d connections are online at the delegate", s.rec.connOn)
		want(s.rec.dgOn[mine.StreamID()] == 1 && s.rec.dgOn[theirs.StreamID()] == 1, "the delegate knows of streams %v", s.rec.dgOn)
		want(s.rec.reg["late"], "the delegate was not told of the peer's method")
	}
	if has["timer"] {
		want(s.lent.(*timer.Wheel).Pending() > 0, "the given timer is not used")
		want(len(timer.Wheels()) == 3, "%d timers exist, one was given", len(timer.Wheels()))
	} else {
		want(len(timer.Wheels()) == 2, "%d timers exist for two ends", len(timer.Wheels()))
	}
	want(!has["log"] || s.log.n > 0, "the given logger is not used")
	want(!has["factory"] || s.pf.conn > 0 && s.pf.sess > 0 && s.pf.app > 0, "the given factory made %d, %d and %d packets", s.pf.conn, s.pf.sess, s.pf.app)
	noErr("close", theirs.Close())
	settle(time.Second)
	if has["closed"] {
		want(s.board.closed[theirs.StreamID()] == 1, "the closed function was called %d times for a stream", s.board.closed[theirs.StreamID()])
	}
	// none of the values that were given anew was used
	if s.decoyLent != nil {
		want(s.decoyLent.(*timer.Wheel).Pending() == 0, "a timer that was replaced is in use")
	}
	want(s.decoyRec.connOn == 0 && len(s.decoyRec.log) == 0, "a delegate that was replaced was told %v", s.decoyRec.log)
	want(s.decoyLog.n == 0, "a logger that was replaced got %d lines", s.decoyLog.n)
	want(s.decoyPF.conn+s.decoyPF.sess+s.decoyPF.app == 0, "a factory that was replaced made packets")
	want(s.stray == 0, "a function that was replaced was called")
}

// gone checks what must hold after both ends are closed.
func (s *subject) gone(has map[string]bool) {
	settle(time.Second)
	if has["delegate"] {
		want(s.rec.connOff == 1, "%d connections are offline at the delegate", s.rec.connOff)
	}
	for i, w := range timer.Wheels() {
		given := s.lent != nil && (w == s.lent.(*timer.Wheel) || w == s.decoyLent.(*timer.Wheel))
		want(w.Closed() != given, "timer %d: given %v, closed %v", i, given, w.Closed())
	}
	leaks("after close")
}

func init() {
	for via, how := range []string{"conn", "dialer", "net", "retry"} {
		via := via
		reg("opt.client."+how, "options of a client end take effect however they are split over structures", win, func() {
			s := newSubject("client")
			chosen, has := pick(s.clientOptions())
			opts := arrange(client.NewEndOptions, chosen, mc.Choose(arrangements, "arrangement"))
			if !has["log"] {
				opts = append([]*client.EndOptions{copts()}, opts...)
			}
			prec := &recorder{who: "peer", reg: map[string]bool{}, clientID: func(w uint64, _ []byte) (uint64, error) { return w, nil }}
			so := sopts(func(o *server.EndOptions) { o.SetDelegate(&srvDlgt{prec}) })
			var p, e geminio.End
			up := make(chan error, 1)
			var ln server.Listener
			if via == 2 {
				ln = listen(so)
				mc.GoNamed("accepter", func() {
					var err error
					if p, err = ln.AcceptEnd(); err == nil {
						late(p)
					}
					up <- err
				})
			}
			dial := func() (net.Conn, error) {
				if p != nil {
					return nil, errors.New("no way")
				}
				a, b := vnet.Pair()
				mc.GoNamed("server constructor", func() {
					var err error
					if p, err = server.NewEndWithConn(b, so); err == nil {
						late(p)
					}
					up <- err
				})
				return a, nil
			}
			mc.ExploreOn()
			t0 := mc.Elapsed()
			var err error
			switch via {
			case 0:
				a, _ := dial()
				e, err = client.NewEndWithConn(a, opts...)
			case 1:
				e, err = client.NewEndWithDialer(dial, opts...)
			case 2:
				e, err = client.NewEnd("tcp", lnAddr, opts...)
			case 3:
				e, err = client.NewRetryEndWithDialer(dial, opts...)
			}
			noErr("client end", err)
			noErr("server end", <-up)
			mc.ExploreOff()
			s.check("client", e, p, prec, mc.Elapsed()-t0, has)
			e.Close()
			p.Close()
			if ln != nil {
				ln.Close()
			}
			s.gone(has)
		})
	}
	for via, how := range []string{"conn", "net"} {
		via := via
		reg("opt.server."+how, "options of a server end or listener take effect however they are split over structures", win, func() {
			s := newSubject("server")
			chosen, has := pick(s.serverOptions())
			opts := arrange(server.NewEndOptions, chosen, mc.Choose(arrangements, "arrangement"))
			if !has["log"] {
				opts = append([]*server.EndOptions{sopts()}, opts...)
			}
			prec := &recorder{who: "peer", reg: map[string]bool{}}
			co := copts(func(o *client.EndOptions) { o.SetDelegate(&cliDlgt{prec}) })
			var p, e geminio.End
			up := make(chan error, 1)
			mc.ExploreOn()
			var err error
			var ln server.Listener
			t0 := mc.Elapsed()
			if via == 0 {
				a, b := vnet.Pair()
				mc.GoNamed("client constructor", func() {
					var err error
					if p, err = client.NewEndWithConn(a, co); err == nil {
						late(p)
					}
					up <- err
				})
				e, err = server.NewEndWithConn(b, opts...)
			} else {
				ln, err = server.Listen("tcp", lnAddr, opts...)
				noErr("listen", err)
				mc.GoNamed("client constructor", func() {
					var err error
					if p, err = client.NewEnd("tcp", lnAddr, co); err == nil {
						late(p)
					}
					up <- err
				})
				e, err = ln.AcceptEnd()
			}
			noErr("server end", err)
			noErr("client end", <-up)
			mc.ExploreOff()
			s.check("server", e, p, prec, mc.Elapsed()-t0, has)
			p.Close()
			e.Close()
			if ln != nil {
				ln.Close()
			}
			s.gone(has)
		})
	}

	// structures are only read: they serve for one end after the other
	for _, side := range []string{"client", "server"} {
		side := side
		reg("opt.reuse."+side, "two ends are made with the same option structures", win, func() {
			co := copts()
			co.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "lm", RPC: rpcSaying("lm")})
			co.SetWaitRemoteRPCs("sm")
			co.SetMeta([]byte("m"))
			so := sopts()
			so.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "sm", RPC: rpcSaying("sm")})
			so.SetWaitRemoteRPCs("lm")
			cs, ss := []*client.EndOptions{co}, []*server.EndOptions{so}
			if mc.Choose(2, "structures") == 1 {
				cs = append(cs, client.NewEndOptions())
				ss = append(ss, server.NewEndOptions())
			}
			co0, so0 := *co, *so
			// one at once with the other or after it
			at := mc.Choose(2, "at once")
			make2 := func() (a, b *W) {
				a, b = &W{}, &W{}
				for _, w := range []*W{a, b} {
					w := w
					w.CA, w.SB = vnet.Pair()
				}
				mk := func(w *W) func() {
					return func() {
						g := newGroup()
						g.Go("server end", func() {
							var err error
							w.S, err = server.NewEndWithConn(w.SB, ss...)
							noErr("server end", err)
						})
						g.Go("client end", func() {
							var err error
							w.C, err = client.NewEndWithConn(w.CA, cs...)
							noErr("client end", err)
						})
						g.Wait(5 * time.Second)
					}
				}
				if at == 1 {
					g := newGroup()
					g.Go("first", mk(a))
					g.Go("second", mk(b))
					g.Wait(5 * time.Second)
				} else {
					mk(a)()
					mk(b)()
				}
				return
			}
			mc.ExploreOn()
			a, b := make2()
			mc.ExploreOff()
			use := func(w *W) {
				for _, x := range []struct {
					e geminio.End
					m string
				}{{w.C, "sm"}, {w.S, "lm"}} {
					rsp, err := x.e.Call(bg(), x.m, x.e.NewRequest(nil))
					noErr("call of "+x.m, err)
					eqBytes("answer", rsp.Data(), []byte(x.m))
				}
				eqBytes("meta", w.S.Meta(), []byte("m"))
				settle(time.Second)
				n := len(w.C.ListStreams())
				x, y := openPair(w.C, w.S, "m")
				works(fmt.Sprint("x", n), x, y)
				noErr("close", x.Close())
			}
			use(a)
			use(b)
			want(a.C.ClientID() != b.C.ClientID(), "both have the client ID %d", a.C.ClientID())
			want(len(timer.Wheels()) == 4, "%d timers exist for four ends", len(timer.Wheels()))
			same := co.Timer == co0.Timer && co.PacketFactory == co0.PacketFactory && co.Delegate == co0.Delegate && co.TimerOwner == co0.TimerOwner && co.ClientID == co0.ClientID
			want(same, "the client's option structure was changed")
			same = so.Timer == so0.Timer && so.PacketFactory == so0.PacketFactory && so.Delegate == so0.Delegate && so.TimerOwner == so0.TimerOwner && so.ClientID == so0.ClientID
			want(same, "the server's option structure was changed")
			if side == "server" {
				noErr("close", a.S.Close())
			} else {
				noErr("close", a.C.Close())
			}
			settle(time.Second)
			use(b)
			settle(70 * time.Second) // several heartbeats
			use(b)
			a.closeBoth()
			b.closeBoth()
			settle(time.Second)
			leaks("after close")
		})
	}

	// a retrying end uses its options for each of its connections
	reg("opt.redial", "the options of a retrying end take effect on its second connection too", win, func() {
		s := newSubject("client")
		var os []optn[client.EndOptions]
		for _, o := range s.clientOptions() {
			if o.name != "delegate" {
				os = append(os, o)
			}
		}
		chosen, has := pick(os)
		opts := arrange(client.NewEndOptions, chosen, mc.Choose(arrangements, "arrangement"))
		if !has["log"] {
			opts = append([]*client.EndOptions{copts()}, opts...)
		}
		var ps []geminio.End
		var recs []*recorder
		var conns []*vnet.Conn
		re, err := client.NewRetryEndWithDialer(func() (net.Conn, error) {
			a, b := vnet.Pair()
			conns = append(conns, a)
			rec := &recorder{who: "peer", reg: map[string]bool{}, clientID: func(w uint64, _ []byte) (uint64, error) { return w, nil }}
			recs = append(recs, rec)
			mc.GoNamed("server constructor", func() {
				p, err := server.NewEndWithConn(b, sopts(func(o *server.EndOptions) { o.SetDelegate(&srvDlgt{rec}) }))
				noErr("server end", err)
				ps = append(ps, p)
				late(p)
			})
			return a, nil
		}, opts...)
		noErr("retrying end", err)
		want(len(ps) == 1, "%d ends", len(ps))
		settle(4 * time.Second)
		made := s.pf.conn
		mc.ExploreOn()
		conns[0].Kill(true)
		settle(30 * time.Second)
		mc.ExploreOff()
		want(len(ps) == 2, "%d connections after one was lost", len(ps))
		p, rec := ps[1], recs[1]
		meta := ""
		if has["meta"] {
			meta = "m-x"
		}
		eqBytes("meta", p.Meta(), []byte(meta))
		eqBytes("meta", re.Meta(), []byte(meta))
		if has["id"] {
			want(len(rec.wanted) == 1 && rec.wanted[0] == 77 && p.ClientID() == 77, "the client asked for %v and has %d, the option is 77", rec.wanted, p.ClientID())
		}
		for _, m := range []string{"lm", "lm2", "dm"} {
			rsp, err := p.Call(bg(), m, p.NewRequest(nil))
			if has["local"] && m != "dm" {
				noErr("call of "+m, err)
				eqBytes("call of "+m, rsp.Data(), []byte(m))
				want(rec.reg[m], "the peer was not told of method %s", m)
			} else {
				want(err != nil, "call of method %s succeeded", m)
			}
		}
		want(!has["factory"] || s.pf.conn > made, "the given factory made no packet of the second connection")
		want(!has["timer"] || s.lent.(*timer.Wheel).Pending() > 0, "the given timer is not used")
		want(!has["timer"] || s.decoyLent.(*timer.Wheel).Pending() == 0, "a timer that was replaced is in use")
		want(s.decoyPF.conn == 0 && s.decoyLog.n == 0, "a value that was replaced is in use")
		works("a", re, p)
		works("b", p, re)
		noErr("close", re.Close())
		for _, p := range ps {
			p.Close()
		}
		settle(time.Second)
		for i, w := range timer.Wheels() {
			given := s.lent != nil && (w == s.lent.(*timer.Wheel) || w == s.decoyLent.(*timer.Wheel))
			want(w.Closed() != given, "timer %d: given %v, closed %v", i, given, w.Closed())
		}
		leaks("after close")
	})

	// the sizes of the buffers decide how much is taken before one has to wait
	for _, side := range []string{"client", "server"} {
		side := side
		reg("opt.buffer."+side, "the same buffer sizes take as much however they are given", mc.Config{Window: true, MaxSteps: 1000000}, func() {
			sizes := [][2]int{{3, 5}, {5, 3}, {1, 1}, {20, 10}}[mc.Choose(4, "sizes")]
			how := mc.Choose(arrangements, "arrangement")
			count := func(sizes [2]int, how int) (w, r int) {
				type C = client.EndOptions
				type S = server.EndOptions
				co := append([]*C{copts()}, arrange(client.NewEndOptions, []optn[C]{{"buffer", func(o *C) { o.SetBufferSize(sizes[0], sizes[1]) }, func(o *C) { o.SetBufferSize(sizes[1]+2, sizes[0]+2) }}}, how)...)
				so := append([]*S{sopts()}, arrange(server.NewEndOptions, []optn[S]{{"buffer", func(o *S) { o.SetBufferSize(sizes[0], sizes[1]) }, func(o *S) { o.SetBufferSize(sizes[1]+2, sizes[0]+2) }}}, how)...)
				if side == "client" {
					so = so[:1]
				} else {
					co = co[:1]
				}
				x := &W{}
				x.CA, x.SB = vnet.Pair()
				g := newGroup()
				g.Go("server end", func() {
					var err error
					x.S, err = server.NewEndWithConn(x.SB, so...)
					noErr("server end", err)
				})
				g.Go("client end", func() {
					var err error
					x.C, err = client.NewEndWithConn(x.CA, co...)
					noErr("client end", err)
				})
				g.Wait(5 * time.Second)
				e, p, ec, pc := x.C, x.S, x.CA, x.SB
				if side == "server" {
					e, p, ec, pc = x.S, x.C, x.SB, x.CA
				}
				publish := func(from geminio.End, n *int) {
					mc.GoNamed("publisher", func() {
						for *n < 330 {
							if from.Publish(bg(), cnss(from, "X", true)) != nil {
								return
							}
							*n++
						}
					})
				}
				// nothing leaves the end
				ec.SetCap(64)
				pc.SetCap(64)
				pc.Freeze(true)
				publish(e, &w)
				settle(time.Second)
				w0 := w
				pc.Freeze(false)
				ackAll(p)
				settle(time.Second)
				// nothing is received from the end's stream
				publish(p, &r)
				settle(2 * time.Second)
				r0 := r
				ackAll(e)
				settle(2 * time.Second)
				want(w == 330 && r == 330, "%d and %d messages went through", w, r)
				x.closeBoth()
				return w0, r0
			}
			w0, r0 := count(sizes, 0)
			w1, r1 := count(sizes, how)
			if how == 0 {
				w2, r2 := count([2]int{sizes[0], sizes[1] + 10}, 0)
				want(w2 > w0 && r2 == r0, "with the sizes %v %d and %d messages were taken, with 10 more for writing they are %d and %d", sizes, w0, r0, w2, r2)
				w2, r2 = count([2]int{sizes[0] + 10, sizes[1]}, 0)
				want(w2 == w0 && r2 > r0, "with the sizes %v %d and %d messages were taken, with 10 more for reading they are %d and %d", sizes, w0, r0, w2, r2)
			}
			want(w0 == w1 && r0 == r1, "with the sizes %v in one structure %d messages were taken for writing and %d to be received, split they are %d and %d", sizes, w0, r0, w1, r1)
			mc.Outcome(fmt.Sprint(w0, " ", r0))
			settle(time.Second)
			leaks("after close")
		})
	}

	// operations
	for _, op := range []string{"call", "callasync", "publish", "pubasync"} {
		op := op
		reg("opt.timeout."+op, "the timeout of an operation takes effect wherever it is given", win, func() {
			w := connect(nil, nil)
			a, b := pair(w, mc.Choose(4, "stream"))
			noErr("register", b.Register(bg(), "stuck", func(ctxT, geminio.Request, geminio.Response) { time.Sleep(20 * time.Second) }))
			type T = options.CallOptions
			type P = options.PublishOptions
			how := mc.Choose(arrangements, "arrangement")
			d, decoy := 2*time.Second, 5*time.Second
			if mc.Choose(2, "decoy is less") == 1 {
				decoy = time.Second
			}
			if mc.Choose(2, "timeout") == 1 {
				// longer than any default
				d = 70 * time.Second
			}
			co := arrange(options.Call, []optn[T]{{"timeout", func(o *T) { o.SetTimeout(d) }, func(o *T) { o.SetTimeout(decoy) }}}, how)
			po := arrange(options.Publish, []optn[P]{{"timeout", func(o *P) { o.SetTimeout(d) }, func(o *P) { o.SetTimeout(decoy) }}}, how)
			if d > 20*time.Second {
				noErr("register", b.Register(bg(), "stuck", func(ctxT, geminio.Request, geminio.Response) { time.Sleep(200 * time.Second) }))
			}
			mc.ExploreOn()
			t0 := mc.Elapsed()
			var err error
			switch op {
			case "call":
				_, err = a.Call(bg(), "stuck", newReq(a, "X", ""), co...)
			case "callasync":
				var c *geminio.Call
				c, err = a.CallAsync(bg(), "stuck", newReq(a, "X", ""), nil, co...)
				noErr("call", err)
				err = (<-c.Done).Error
			case "publish":
				err = a.Publish(bg(), cnss(a, "X", false), po...)
			case "pubasync":
				var c *geminio.Publish
				c, err = a.PublishAsync(bg(), cnss(a, "X", false), nil, po...)
				noErr("publish", err)
				err = (<-c.Done).Error
			}
			took := mc.Elapsed() - t0
			mc.ExploreOff()
			want(isTimeout(err), "%s ended with %v", op, err)
			want(took >= d-gran && took <= d+10*gran, "%s with a timeout of %v took %v", op, d, took)
			w.closeBoth()
		})
	}
	reg("opt.new", "options of requests, messages and streams take effect wherever they are given", win, func() {
		w := connect(nil, nil)
		side := mc.Choose(2, "side")
		how := mc.Choose(arrangements, "arrangement")
		var a, b geminio.End = w.C, w.S
		if side == 1 {
			a, b = b, a
		}
		mc.ExploreOn()
		type S = options.OpenStreamOptions
		so, has := pick([]optn[S]{
			{"meta", func(o *S) { o.SetMeta([]byte("m1")) }, func(o *S) { o.SetMeta([]byte("decoy")) }},
			{"peer", func(o *S) { o.SetPeer("p1") }, func(o *S) { o.SetPeer("decoy") }},
		})
		x, err := a.OpenStream(arrange(options.OpenStream, so, how)...)
		noErr("open", err)
		y, err := b.AcceptStream()
		noErr("accept", err)
		given := func(name, v string) string {
			if has[name] {
				return v
			}
			return ""
		}
		sameStream(x, y, given("meta", "m1"), given("peer", "p1"))
		type R = options.NewRequestOptions
		ro, has := pick([]optn[R]{{"custom", func(o *R) { o.SetCustom([]byte("c1")) }, func(o *R) { o.SetCustom([]byte("decoy")) }}})
		noErr("register", y.Register(bg(), "m", func(_ ctxT, req geminio.Request, rsp geminio.Response) {
			eqBytes("request data", req.Data(), []byte("d"))
			rsp.SetData([]byte("custom " + string(req.Custom())))
		}))
		rsp, err := x.Call(bg(), "m", x.NewRequest([]byte("d"), arrange(options.NewRequest, ro, how)...))
		noErr("call", err)
		eqBytes("custom of the request", rsp.Data(), []byte("custom "+given("custom", "c1")))
		type M = options.NewMessageOptions
		mo, has := pick([]optn[M]{
			{"custom", func(o *M) { o.SetCustom([]byte("c2")) }, func(o *M) { o.SetCustom([]byte("decoy")) }},
			{"topic", func(o *M) { o.SetTopic("t2") }, func(o *M) { o.SetTopic("decoy") }},
			{"cnss", func(o *M) { o.SetCnss(options.CnssAtMostOnce) }, func(o *M) { o.SetCnss(options.CnssAtLeastOnce) }},
		})
		msg := x.NewMessage([]byte("d2"), arrange(options.NewMessage, mo, how)...)
		g := newGroup()
		done := false
		g.Go("publish", func() {
			noErr("publish", x.Publish(bg(), msg))
			want(done || has["cnss"], "publish returned before the message was done")
		})
		g.Go("receive", func() {
			m := recv(y)
			eqBytes("data", m.Data(), []byte("d2"))
			eqBytes("custom", m.Custom(), []byte(given("custom", "c2")))
			eqBytes("topic", []byte(m.Topic()), []byte(given("topic", "t2")))
			cn := options.Cnss(0)
			if has["cnss"] {
				cn = options.CnssAtMostOnce
			}
			want(m.Cnss() == cn, "consistency %v, given %v", m.Cnss(), cn)
			settle(time.Second)
			done = true
			noErr("done", m.Done())
		})
		g.Wait(3 * time.Second)
		mc.ExploreOff()
		w.closeBoth()
	})
	reg("opt.hijack", "options of a hijack take effect wherever they are given", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		how := mc.Choose(arrangements, "arrangement")
		match := mc.Choose(2, "match") == 1
		type H = options.HijackOptions
		ho, has := pick([]optn[H]{{"match", func(o *H) { o.SetMatch(match, "^h") }, func(o *H) { o.SetMatch(!match, "^d") }}})
		mc.ExploreOn()
		noErr("hijack", b.Hijack(func(_ ctxT, m string, _ geminio.Request, rsp geminio.Response) {
			rsp.SetData([]byte("got " + m))
		}, arrange(options.Hijack, ho, how)...))
		for _, m := range []string{"hello", "done", "other"} {
			rsp, err := a.Call(bg(), m, newReq(a, "X", ""))
			if !has["match"] || (m[0] == 'h') == match {
				noErr("call of "+m, err)
				eqBytes("call of "+m, rsp.Data(), []byte("got "+m))
			} else {
				want(err != nil, "a call of %s was hijacked", m)
			}
		}
		mc.ExploreOff()
		w.closeBoth()
	})

	all := []int{0, 1, 2}
	mc.RegisterPlan(&mc.Plan{Property: "C25", QuickS: 150, ThoroughS: 700, Runs: []mc.Run{
		{Scenario: "opt.client.conn", Policies: all, Quick: 0, Thorough: 0},
		{Scenario: "opt.client.dialer", Policies: []int{0}, Quick: 0, Thorough: 0},
		{Scenario: "opt.client.net", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "opt.client.retry", Policies: all, Quick: 0, Thorough: 0},
		{Scenario: "opt.server.conn", Policies: all, Quick: 0, Thorough: 0},
		{Scenario: "opt.server.net", Policies: all, Quick: 0, Thorough: 0},
		{Scenario: "opt.redial", Policies: all, Quick: 0, Thorough: 0},
		{Scenario: "opt.buffer.client", Policies: all, Quick: 0, Thorough: 0},
		{Scenario: "opt.buffer.server", Policies: all, Quick: 0, Thorough: 0},
		{Scenario: "opt.reuse.client", Policies: []int{0, 2}, Quick: 1, Thorough: 1},
		{Scenario: "opt.reuse.server", Policies: []int{1}, Quick: 1, Thorough: 1},
		{Scenario: "opt.timeout.call", Policies: all, Quick: 0, Thorough: 1},
		{Scenario: "opt.timeout.callasync", Policies: all, Quick: 0, Thorough: 1},
		{Scenario: "opt.timeout.publish", Policies: all, Quick: 0, Thorough: 1},
		{Scenario: "opt.timeout.pubasync", Policies: all, Quick: 0, Thorough: 1},
		{Scenario: "opt.new", Policies: all, Quick: 0, Thorough: 1},
		{Scenario: "opt.hijack", Policies: all, Quick: 0, Thorough: 1},
	}})
}
