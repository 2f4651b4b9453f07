package main

import (
	"fmt"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// watched connects two ends with recording delegates.
func watched() (*W, *recorder, *recorder) {
	cr, sr := &recorder{who: "client"}, &recorder{who: "server"}
	w := connect(copts(func(o *client.EndOptions) { o.SetDelegate(&cliDlgt{cr}) }), sopts(func(o *server.EndOptions) { o.SetDelegate(&srvDlgt{sr}) }))
	for _, r := range []*recorder{cr, sr} {
		want(r.connOn == 1 && r.connOff == 0, "%s: conn online %d times, offline %d times when the end is available", r.who, r.connOn, r.connOff)
		want(r.connID == w.C.ClientID(), "%s: client %d is online, the client is %d", r.who, r.connID, w.C.ClientID())
	}
	return w, cr, sr
}

// live checks that a usable stream was announced once and not withdrawn.
func (r *recorder) live(sm geminio.Stream) {
	id := sm.StreamID()
	want(r.dgOn[id] == 1, "%s: stream %d is usable, online was notified %d times", r.who, id, r.dgOn[id])
	want(r.dgOff[id] == 0, "%s: stream %d is usable, offline was notified", r.who, id)
	want(r.dgMeta[id] == string(sm.Meta()), "%s: stream %d was announced with meta %q, has %q", r.who, id, r.dgMeta[id], sm.Meta())
}

func (r *recorder) gone(id uint64) {
	want(r.dgOn[id] == 1 && r.dgOff[id] == 1, "%s: stream %d has ended, online was notified %d times, offline %d times", r.who, id, r.dgOn[id], r.dgOff[id])
}

// ending ends a connection in one of the ways, concurrently.
var endings = []string{"client", "server", "both", "eof", "reset", "half"}

func ending(w *W, how string) func(*group) {
	switch how {
	case "eof", "reset":
		return func(g *group) { g.Go("connection loss", func() { w.CA.Kill(how == "eof") }) }
	case "half":
		return func(g *group) { g.Go("connection loss", func() { w.SB.CloseWrite() }) }
	}
	return closing(w, how)
}

func init() {
	all := []int{0, 1, 2}
	var runs []mc.Run
	add := func(name string, pols []int, q, t int) {
		runs = append(runs, mc.Run{Scenario: name, Policies: pols, Quick: q, Thorough: t})
	}
	finish := func(w *W, cr, sr *recorder) {
		mc.ExploreOff()
		w.closeBoth()
		// closed for good: everything announced is withdrawn by now
		settle(5 * time.Second)
		cr.allOffline()
		sr.allOffline()
		want(cr.connOff == 1 && sr.connOff == 1, "conn offline %d times on the client, %d times on the server", cr.connOff, sr.connOff)
	}
	reg("note.streams", "streams are opened and closed from both sides at once", win, func() {
		w, cr, sr := watched()
		ends := []geminio.End{w.C, w.S}
		recs := []*recorder{cr, sr}
		closer := mc.Choose(3, "closer")
		mc.ExploreOn()
		g := newGroup()
		for i := 0; i < 2; i++ {
			i := i
			var id uint64
			opened, accepted := make(chan struct{}), make(chan struct{})
			g.Go("opener", func() {
				s, err := openStream(ends[i], fmt.Sprint("m", i), "")
				noErr("open", err)
				recs[i].live(s)
				id = s.StreamID()
				close(opened)
				<-accepted
				if closer != 1 {
					noErr("close", s.Close())
				}
			})
			g.Go("accepter", func() {
				s, err := ends[1-i].AcceptStream()
				noErr("accept", err)
				<-opened
				recs[1-i].live(s)
				close(accepted)
				if closer != 0 {
					noErr("close", s.Close())
				}
				settle(5 * time.Second)
				recs[0].gone(id)
				recs[1].gone(id)
			})
		}
		g.Wait(40 * time.Second)
		want(cr.connOff == 0 && sr.connOff == 0, "conn offline while it is usable")
		finish(w, cr, sr)
	})
	add("note.streams", all, 1, 2)
	for _, how := range endings {
		how := how
		reg("note.end."+how, "the connection ends while streams are open, being opened and being closed", win, func() {
			w, cr, sr := watched()
			a, b := openPair(w.C, w.S, "live")
			c, d := openPair(w.S, w.C, "closing")
			cr.live(a)
			sr.live(b)
			sr.live(c)
			cr.live(d)
			mc.ExploreOn()
			g := newGroup()
			g.Go("opener", func() {
				s, err := openStream(w.C, "new", "")
				mc.Outcome("open %v", err != nil)
				if err == nil {
					want(cr.dgOn[s.StreamID()] == 1, "client: stream %d opened, online was notified %d times", s.StreamID(), cr.dgOn[s.StreamID()])
				}
			})
			g.Go("server accepts", func() {
				s, err := w.S.AcceptStream()
				if err == nil {
					want(sr.dgOn[s.StreamID()] == 1, "server: stream %d accepted, online was notified %d times", s.StreamID(), sr.dgOn[s.StreamID()])
				}
			})
			g.Go("closer", func() { d.Close() })
			ending(w, how)(g)
			g.Wait(closeLimit)
			finish(w, cr, sr)
			cr.gone(a.StreamID())
			sr.gone(a.StreamID())
			cr.gone(c.StreamID())
			sr.gone(c.StreamID())
		})
		add("note.end."+how, all, 1, 2)
		reg("note.hs."+how, "the connection ends around the handshake", win, func() {
			cr, sr := &recorder{who: "client"}, &recorder{who: "server"}
			co, so := copts(func(o *client.EndOptions) { o.SetDelegate(&cliDlgt{cr}) }), sopts(func(o *server.EndOptions) { o.SetDelegate(&srvDlgt{sr}) })
			w := &W{}
			w.CA, w.SB = vnet.Pair()
			refuse := mc.Choose(2, "server refuses") == 1
			if refuse {
				sr.refuseConn = errRefused
			}
			mc.ExploreOn()
			g := newGroup()
			g.Go("client", func() {
				var err error
				if w.C, err = client.NewEndWithConn(w.CA, co); err != nil {
					w.C = nil
					return
				}
				want(cr.connOn == 1, "client: available, but conn online was notified %d times", cr.connOn)
				if how == "client" || how == "both" {
					w.C.Close()
				}
			})
			g.Go("server", func() {
				var err error
				if w.S, err = server.NewEndWithConn(w.SB, so); err != nil {
					w.S = nil
					return
				}
				want(sr.connOn == 1, "server: available, but conn online was notified %d times", sr.connOn)
				if how == "server" || how == "both" {
					w.S.Close()
				}
			})
			if how == "eof" || how == "reset" || how == "half" {
				ending(w, how)(g)
			}
			g.Wait(closeLimit)
			mc.ExploreOff()
			if w.C != nil {
				within(closeLimit, "close", func() { w.C.Close() })
			}
			if w.S != nil {
				within(closeLimit, "close", func() { w.S.Close() })
			}
			settle(closeLimit)
			want(!refuse || sr.connOn == 0 && cr.connOn == 0, "a refused client is online")
			cr.allOffline()
			sr.allOffline()
		})
		add("note.hs."+how, all, 1, 2)
	}
	reg("note.refused", "delegates answer the stream notifications with an error", win, func() {
		w, cr, sr := watched()
		cr.refuseDg = map[string]error{}
		sr.onDgOn = func(d delegate.DialogueDescriber) {
			want(d.ClientID() == w.C.ClientID(), "stream of client %d, the client is %d", d.ClientID(), w.C.ClientID())
		}
		mc.ExploreOn()
		a, b := openPair(w.C, w.S, "x")
		sr.live(b)
		cr.live(a)
		g := newGroup()
		g.Go("close a", func() { a.Close() })
		g.Go("close b", func() { b.Close() })
		g.Wait(40 * time.Second)
		settle(5 * time.Second)
		cr.gone(a.StreamID())
		sr.gone(a.StreamID())
		finish(w, cr, sr)
	})
	add("note.refused", all, 1, 2)
	reg("note.silent", "the client goes silent: the server reports everything offline", win, func() {
		w, cr, sr := watched()
		a, b := openPair(w.C, w.S, "x")
		settle(45 * time.Second)
		want(sr.beats >= 1, "the server reported %d heartbeats in 45 s", sr.beats)
		n := sr.beats
		w.CA.Stall()
		mc.ExploreOn()
		settle(60 * time.Second)
		want(sr.beats == n, "heartbeats reported that never arrived")
		want(sr.connOff == 1, "conn offline %d times", sr.connOff)
		sr.gone(b.StreamID())
		mc.ExploreOff()
		w.closeBoth()
		settle(closeLimit)
		cr.allOffline()
		sr.allOffline()
		cr.gone(a.StreamID())
	})
	add("note.silent", all, 1, 1)
	mc.RegisterPlan(&mc.Plan{Property: "C19", QuickS: 130, ThoroughS: 820, Runs: runs})
}

// ---- C20 ----

// board records the accept and closed callbacks of a server.
type board struct {
	accepted map[uint64]geminio.Stream
	closed   map[uint64]int
	use      func(geminio.Stream)
	// with accept calls the closed callback can precede the return of the call
	calls bool
	early map[uint64]geminio.Stream
}

// took records the stream returned by an accept call.
func (b *board) took(s geminio.Stream) {
	id := s.StreamID()
	want(b.accepted[id] == nil, "stream %d accepted twice", id)
	want(b.early[id] == nil || b.early[id] == s, "the closed callback got another stream object for %d", id)
	delete(b.early, id)
	b.accepted[id] = s
}

func newBoard() *board {
	return &board{accepted: map[uint64]geminio.Stream{}, closed: map[uint64]int{}}
}

func (b *board) accept(s geminio.Stream) {
	id := s.StreamID()
	mc.Tick(fmt.Sprint("accepted ", id))
	want(b.accepted[id] == nil, "stream %d accepted twice", id)
	want(b.closed[id] == 0, "stream %d accepted after it was reported closed", id)
	b.accepted[id] = s
	if b.use != nil {
		mc.GoNamed("user of the accepted stream", func() { b.use(s) })
	}
}

func (b *board) close(s geminio.Stream) {
	id := s.StreamID()
	mc.Tick(fmt.Sprint("closed ", id))
	if b.calls && b.accepted[id] == nil {
		b.early[id] = s
		b.closed[id]++
		return
	}
	want(b.accepted[id] != nil, "stream %d reported closed, it was never accepted", id)
	want(b.accepted[id] == s, "the closed callback got another stream object for %d", id)
	b.closed[id]++
	want(b.closed[id] == 1, "stream %d reported closed %d times", id, b.closed[id])
}

func (b *board) opts(accept, closed bool) *server.EndOptions {
	b.calls, b.early = !accept, map[uint64]geminio.Stream{}
	return sopts(func(o *server.EndOptions) {
		if accept {
			o.SetAcceptStreamFunc(b.accept)
		}
		if closed {
			o.SetClosedStreamFunc(b.close)
		}
	})
}

func init() {
	all := []int{0, 1, 2}
	var runs []mc.Run
	add := func(name string, pols []int, q, t int) {
		runs = append(runs, mc.Run{Scenario: name, Policies: pols, Quick: q, Thorough: t})
	}
	for _, how := range []string{"opener", "accepter", "client", "server", "both", "eof", "reset", "half"} {
		how := how
		reg("acc.fn."+how, "two streams go through the accept and closed callbacks of a server", win, func() {
			b := newBoard()
			served := map[uint64]bool{}
			b.use = func(s geminio.Stream) {
				if buf := make([]byte, 3); readSome(s, buf) {
					served[s.StreamID()] = string(buf) == "raw"
					if how == "accepter" {
						s.Close()
					}
				}
			}
			w := connect(nil, b.opts(true, true))
			opened := map[uint64]geminio.Stream{}
			wrote := 0
			mc.ExploreOn()
			g := newGroup()
			for i := 0; i < 2; i++ {
				i := i
				g.Go(fmt.Sprint("opener ", i), func() {
					s, err := openStream(w.C, fmt.Sprint("m", i), "")
					if err != nil {
						want(how != "opener" && how != "accepter", "open: %v", err)
						return
					}
					opened[s.StreamID()] = s
					if _, err = s.Write([]byte("raw")); err == nil {
						wrote++
					}
					if how == "opener" {
						noErr("close", s.Close())
					}
				})
			}
			if how != "opener" && how != "accepter" {
				ending(w, how)(g)
			}
			g.Wait(closeLimit)
			mc.ExploreOff()
			settle(closeLimit)
			if how == "opener" || how == "accepter" {
				want(len(b.accepted) == 2 && len(opened) == 2, "%d streams opened, %d accepted", len(opened), len(b.accepted))
				want(len(served) == 2, "%d of the accepted streams got their data", len(served))
				want(len(w.C.ListStreams()) == 1 && len(w.S.ListStreams()) == 1, "closed streams are still listed: %d and %d", len(w.C.ListStreams()), len(w.S.ListStreams()))
			}
			for id := range opened {
				want(b.accepted[id] != nil, "stream %d was opened, but not accepted", id)
			}
			w.closeBoth()
			settle(closeLimit)
			for id := range b.accepted {
				want(b.closed[id] == 1, "stream %d has ended and was reported closed %d times", id, b.closed[id])
			}
			for _, s := range append(w.C.ListStreams(), w.S.ListStreams()...) {
				want(s.StreamID() == 1, "stream %d is still listed", s.StreamID())
			}
		})
		add("acc.fn."+how, all, 1, 2)
		if how == "accepter" {
			continue
		}
		reg("acc.ch."+how, "streams are accepted by calls, with a closed callback, while they and the end end", win, func() {
			b := newBoard()
			w := connect(nil, b.opts(false, true))
			opened := map[uint64]bool{}
			mc.ExploreOn()
			g := newGroup()
			n := 0
			for i := 0; i < 2; i++ {
				i := i
				g.Go(fmt.Sprint("opener ", i), func() {
					s, err := openStream(w.C, fmt.Sprint("m", i), "")
					if err != nil {
						want(how != "opener", "open: %v", err)
						return
					}
					opened[s.StreamID()] = true
					if how == "opener" && i == 0 {
						noErr("close", s.Close())
					}
				})
				g.Go(fmt.Sprint("accepter ", i), func() {
					s, err := w.S.AcceptStream()
					if err != nil {
						want(how != "opener", "accept: %v", err)
						n++
						return
					}
					b.took(s)
				})
			}
			if how != "opener" {
				ending(w, how)(g)
			} else {
				g.Go("lister", func() { w.S.ListStreams(); w.C.ListStreams() })
			}
			g.Wait(closeLimit)
			mc.ExploreOff()
			settle(closeLimit)
			if how == "opener" {
				want(len(b.accepted) == 2, "%d streams accepted", len(b.accepted))
				want(len(w.C.ListStreams()) == 2 && len(w.S.ListStreams()) == 2, "one stream is closed, one is open; listed are %d and %d", len(w.C.ListStreams()), len(w.S.ListStreams()))
			}
			w.closeBoth()
			settle(closeLimit)
			for id := range b.accepted {
				want(b.closed[id] == 1, "stream %d has ended and was reported closed %d times", id, b.closed[id])
			}
			want(len(b.early) == 0, "streams reported closed that were never accepted: %v", len(b.early))
			refuses("server", w.S, "accept", "open")
		})
		add("acc.ch."+how, all, 1, 2)
	}
	for k, fn := range []bool{true, false} {
		fn := fn
		reg(fmt.Sprint("acc.early.", k), "the client opens and closes streams before the server's constructor has returned", win, func() {
			b := newBoard()
			w := &W{}
			w.CA, w.SB = vnet.Pair()
			var id uint64
			mc.ExploreOn()
			g := newGroup()
			g.Go("server", func() {
				var err error
				w.S, err = server.NewEndWithConn(w.SB, b.opts(fn, true))
				noErr("constructor", err)
				if !fn {
					s, err := w.S.AcceptStream()
					noErr("accept", err)
					b.took(s)
				}
			})
			g.Go("client", func() {
				var err error
				w.C, err = client.NewEndWithConn(w.CA, copts())
				noErr("constructor", err)
				s, err := openStream(w.C, "m", "")
				noErr("open", err)
				id = s.StreamID()
				noErr("close", s.Close())
			})
			g.Wait(40 * time.Second)
			mc.ExploreOff()
			settle(closeLimit)
			want(b.accepted[id] != nil && len(b.accepted) == 1, "accepted: %d streams", len(b.accepted))
			want(b.closed[id] == 1, "stream reported closed %d times", b.closed[id])
			want(len(w.C.ListStreams()) == 1 && len(w.S.ListStreams()) == 1, "closed streams are listed: %d and %d", len(w.C.ListStreams()), len(w.S.ListStreams()))
			a, bb := geminio.Stream(nil), geminio.Stream(nil)
			if fn {
				var err error
				a, err = openStream(w.C, "n", "")
				noErr("open", err)
				settle(time.Second)
				bb = b.accepted[a.StreamID()]
				want(bb != nil, "the second stream was not accepted")
			} else {
				a, bb = openPairBoard(w, b)
			}
			works("x", a, bb)
			works("y", bb, a)
			w.closeBoth()
		})
		add(fmt.Sprint("acc.early.", k), all, 1, 2)
	}
	for _, side := range []int{0, 1} {
		side := side
		reg(fmt.Sprint("acc.queue.", side), "streams wait to be accepted; some are closed meanwhile; each is delivered once, in order", win, func() {
			w := connect(nil, nil)
			ends := []geminio.End{w.C, w.S}
			o, a := ends[side], ends[1-side]
			n := 3
			var os []geminio.Stream
			for i := 0; i < n; i++ {
				s, err := openStream(o, fmt.Sprint("m", i), "")
				noErr("open", err)
				mustWrite("write", s, []byte(fmt.Sprint("raw", i)))
				os = append(os, s)
			}
			k := mc.Choose(3, "closed meanwhile")
			if k < 2 {
				within(40*time.Second, "close", func() { noErr("close", os[k].Close()) })
			}
			mc.ExploreOn()
			got := map[string]geminio.Stream{}
			g := newGroup()
			for i := 0; i < n; i++ {
				g.Go("accept", func() {
					s, err := a.AcceptStream()
					noErr("accept", err)
					want(got[string(s.Meta())] == nil, "stream %s accepted twice", s.Meta())
					got[string(s.Meta())] = s
					eqBytes("data of "+string(s.Meta()), readFull("data", s, 4), []byte("raw"+string(s.Meta()[1:])))
				})
			}
			late := false
			g.Go("fourth", func() {
				_, err := a.AcceptStream()
				want(err != nil || !late, "a fourth stream")
				if err == nil {
					late = true
				}
			})
			settle(100 * ms)
			x, err := openStream(o, "m9", "")
			noErr("open", err)
			mustWrite("write", x, []byte("raw9"))
			g.Wait(5 * time.Second)
			mc.ExploreOff()
			want(len(got) >= n, "%d streams accepted", len(got))
			for i, s := range os {
				if b := got[fmt.Sprint("m", i)]; b != nil && i != k {
					sameStream(s, b, fmt.Sprint("m", i), "")
					works(fmt.Sprint(i), b, s)
				}
			}
			w.closeBoth()
			refuses("end", a, "accept")
		})
		add(fmt.Sprint("acc.queue.", side), all, 1, 2)
		reg(fmt.Sprint("acc.pending.", side), "accept calls wait while the end goes", win, func() {
			w := connect(nil, nil)
			ends := []geminio.End{w.C, w.S}
			how := endings[mc.Choose(len(endings), "how")]
			mc.ExploreOn()
			g := newGroup()
			for i := 0; i < 3; i++ {
				g.Go("accept", func() {
					s, err := ends[side].AcceptStream()
					want(err != nil && s == nil, "accept returned %v, %v", s, err)
				})
			}
			g.Go("net accept", func() {
				_, err := ends[side].Accept()
				want(err != nil, "accept succeeded")
			})
			ending(w, how)(g)
			g.Wait(closeLimit)
		})
		add(fmt.Sprint("acc.pending.", side), all, 1, 2)
	}
	mc.RegisterPlan(&mc.Plan{Property: "C20", QuickS: 130, ThoroughS: 820, Runs: runs})
}

// openPairBoard is openPair on a server with a closed callback.
func openPairBoard(w *W, b *board) (geminio.Stream, geminio.Stream) {
	a, s := openPair(w.C, w.S, "n")
	b.took(s)
	return a, s
}

func readSome(s geminio.Stream, buf []byte) bool {
	for n := 0; n < len(buf); {
		m, err := s.Read(buf[n:])
		if err != nil {
			return false
		}
		n += m
	}
	return true
}
