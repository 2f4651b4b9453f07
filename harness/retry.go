package main

import (
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	timer "github.com/singchia/go-timer/v2"
	"gmc/mc"
	"gmc/vnet"
)

// backLimit is how long coming back may take with a willing server.
const backLimit = 10 * time.Second

// site is a server that a retrying end dials.
type site struct {
	re       geminio.End
	timer    timer.Timer
	dials    int
	up       []geminio.End // server ends in the order they came up
	recs     []*recorder
	cs, ss   []*vnet.Conn
	answer   func(n int) string // how dial n is answered: "", "error", "silent", "refuse", "hang up", "dead"
	onConn   func(n int)
	onReg    func(n int, m string)
	back     int // announced reconnections
	onBack   func(n int)
	closed   bool
	closedAt time.Duration
	cid      uint64
	conns    map[uint64]int
	e        *echo
	hijacks  map[string]int
	client   *retryRec
}

// retryRec is the client's delegate: it is told of each connection in turn.
type retryRec struct {
	s       *site
	on, off int
}

func (r *retryRec) ConnOnline(c delegate.ConnDescriber) error {
	r.on++
	want(r.on <= r.off+1, "a connection is online before the previous one is offline")
	mc.Tick("client: conn online")
	return nil
}
func (r *retryRec) ConnOffline(c delegate.ConnDescriber) error {
	r.off++
	want(r.off <= r.on, "conn offline without online")
	mc.Tick("client: conn offline")
	return nil
}
func (r *retryRec) DialogueOnline(delegate.DialogueDescriber) error  { return nil }
func (r *retryRec) DialogueOffline(delegate.DialogueDescriber) error { return nil }
func (r *retryRec) RemoteRegistration(string, uint64, uint64)        {}
func (r *retryRec) EndReOnline(c delegate.ClientDescriber) {
	s := r.s
	s.back++
	mc.Tick(fmt.Sprint("client: reonline ", s.back))
	want(c != nil, "reconnection announced without an end")
	if s.onBack != nil {
		s.onBack(s.back)
	}
}

func newSite() *site {
	s := &site{conns: map[uint64]int{}, hijacks: map[string]int{}, answer: func(int) string { return "" }}
	s.client = &retryRec{s: s}
	return s
}

func (s *site) dial() (net.Conn, error) {
	n := s.dials
	s.dials++
	mc.Tick(fmt.Sprint("dial ", n))
	// a reconnection that is about to dial may do so, it is closed at once
	want(!s.closed || mc.Elapsed() < s.closedAt+50*ms, "dialing after close returned")
	how := s.answer(n)
	if how == "error" {
		return nil, errors.New("no route")
	}
	a, b := vnet.Pair()
	s.cs = append(s.cs, a)
	s.ss = append(s.ss, b)
	if s.onConn != nil {
		s.onConn(n)
	}
	switch how {
	case "silent":
		return a, nil
	case "hang up":
		b.Close()
		return a, nil
	case "dead":
		a.Kill(false)
		return a, nil
	}
	r := &recorder{who: fmt.Sprint("server ", n)}
	if how == "refuse" {
		r.refuseConn = errRefused
	}
	if s.onReg != nil {
		r.onReg = func(m string) { s.onReg(n, m) }
	}
	mc.GoNamed("server constructor", func() {
		e, err := server.NewEndWithConn(b, sopts(func(o *server.EndOptions) { o.SetDelegate(&srvDlgt{r}) }))
		if err != nil {
			return
		}
		h := func(_ ctxT, _ geminio.Request, _ geminio.Response) {}
		if e.Register(bg(), "never", h) != nil {
			e.Close()
			return
		}
		s.up = append(s.up, e)
		s.recs = append(s.recs, r)
		ackAll(e)
		mc.Tick(fmt.Sprint("server end of dial ", n, " is up"))
	})
	return a, nil
}

func (s *site) opts() *client.EndOptions {
	return copts(func(o *client.EndOptions) {
		o.SetDelegate(s.client)
		o.SetClientID(7)
		if s.timer != nil {
			o.SetTimer(s.timer)
		}
	})
}

// start brings the retrying end up and registers "m" and a hijack for "h.*".
func (s *site) start() {
	var err error
	s.re, err = client.NewRetryEndWithDialer(s.dial, s.opts())
	noErr("retry end", err)
	settle(50 * ms)
	want(len(s.up) == 1, "the retry end is not connected")
	s.register("m")
	s.hijack("^h")
}

func (s *site) register(m string) error {
	return s.re.Register(bg(), m, func(_ ctxT, req geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte(m + " " + string(req.Data())))
	})
}

func (s *site) hijack(pattern string) error {
	o := options.Hijack()
	o.SetMatch(true, pattern)
	return s.re.Hijack(func(_ ctxT, m string, req geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte("hijack " + pattern + " " + m))
	}, o)
}

func (s *site) last() geminio.End { return s.up[len(s.up)-1] }

// serves checks that the server of the current connection can use the methods
// and hijacks of the client.
func (s *site) serves(what string, methods []string, hijack string) {
	e := s.last()
	for _, m := range methods {
		rsp, err := e.Call(bg(), m, newReq(e, "X", ""))
		noErr(what+": call of method "+m+" from the server", err)
		eqBytes(what, rsp.Data(), []byte(m+" X"))
	}
	if hijack != "" {
		rsp, err := e.Call(bg(), "hello", newReq(e, "X", ""))
		noErr(what+": hijacked call from the server", err)
		eqBytes(what, rsp.Data(), []byte("hijack "+hijack+" hello"))
		_, err = e.Call(bg(), "other", newReq(e, "X", ""))
		want(err != nil, "%s: a call that matches no hijack succeeded", what)
	}
}

// usable checks that the client can work, on a new stream as well.
func (s *site) usable(what string) {
	e := s.last()
	noErr(what+": call", doOp(s.re, "call"))
	noErr(what+": publish", doOp(s.re, "publish"))
	a, b := openPair(s.re, e, "m")
	mustWrite("write", a, []byte("raw"))
	eqBytes(what, readFull(what, b, 3), []byte("raw"))
	c, d := openPair(e, s.re, "m")
	mustWrite("write", c, []byte("raw"))
	eqBytes(what, readFull(what, d, 3), []byte("raw"))
	a.Close()
	c.Close()
	want(s.re.ClientID() == e.ClientID(), "%s: client ID %d, the server says %d", what, s.re.ClientID(), e.ClientID())
	want(s.re.RemoteAddr().String() == e.LocalAddr().String(), "%s: remote address %s, the server is at %s", what, s.re.RemoteAddr(), e.LocalAddr())
}

// lose ends the current connection.
var losses = []string{"eof", "reset", "half", "server closes"}

func (s *site) lose(how string) { s.loseN(how, len(s.cs)-1) }

func (s *site) loseN(how string, n int) {
	switch how {
	case "eof":
		s.cs[n].Kill(true)
	case "reset":
		s.cs[n].Kill(false)
	case "half":
		s.ss[n].CloseWrite()
	case "server closes":
		s.last().Close()
	}
}

// awaitBack waits until n reconnections were announced.
func (s *site) awaitBack(what string, n int, d time.Duration) {
	for t := time.Duration(0); s.back < n; t += 100 * ms {
		want(t < d, "%s: the end did not come back within %v (announced %d times, %d dials, %d server ends)", what, d, s.back, s.dials, len(s.up))
		settle(100 * ms)
	}
}

// finish closes the end and checks that it stays closed, leaving nothing.
func (s *site) finish() {
	mc.ExploreOff()
	within(closeLimit, "close", func() { s.re.Close() })
	s.over()
}

func (s *site) over() {
	if !s.closed {
		s.closed, s.closedAt = true, mc.Elapsed()
	}
	n, back := len(s.up), s.back
	for _, k := range []string{"call", "publish", "write", "register", "open", "callasync", "pubasync", "accept", "receive", "read", "hijack"} {
		k := k
		within(5*time.Second, k+" after close", func() {
			err := doOp(s.re, k)
			want(err != nil, "%s succeeded after close", k)
		})
	}
	within(closeLimit, "closing again", func() { s.re.Close() })
	settle(closeLimit)
	want(len(s.up) == n && s.back == back, "the end came back after it was closed")
	for _, e := range s.up {
		e := e
		within(closeLimit, "server close", func() { e.Close() })
	}
	settle(closeLimit)
	for i := range s.cs {
		want(s.cs[i].IsClosed(), "connection %d is still open", i)
		s.ss[i].Close()
	}
	for _, r := range s.recs {
		r.allOffline()
	}
	want(s.client.on == s.client.off, "client: conn online %d times, offline %d times", s.client.on, s.client.off)
	settle(closeLimit)
	leaks("after close")
	for _, wh := range timer.Wheels() {
		if s.timer == timer.Timer(wh) {
			alive("lent timer", s.timer)
			continue
		}
		want(wh.Closed(), "a timer the ends made is still running")
	}
}

func init() {
	all := []int{0, 1, 2}
	var runs []mc.Run
	add := func(name string, pols []int, q, t int) {
		runs = append(runs, mc.Run{Scenario: name, Policies: pols, Quick: q, Thorough: t})
	}
	for _, how := range losses {
		how := how
		reg("retry.lose."+how, "the connection of an idle retrying end is lost, twice", win, func() {
			s := newSite()
			if mc.Choose(2, "lent timer") == 1 {
				s.timer = timer.NewTimer()
			}
			s.start()
			for i := 1; i <= 2; i++ {
				if i == 1 {
					mc.ExploreOn()
				}
				s.lose(how)
				settle(50 * ms)
				mc.ExploreOff()
				s.awaitBack("loss", i, backLimit)
				settle(100 * ms)
				want(len(s.up) == i+1 && s.dials == i+1, "%d losses, %d server ends, %d dials", i, len(s.up), s.dials)
				s.serves("after coming back", []string{"m"}, "^h")
				s.usable("after coming back")
			}
			settle(45 * time.Second)
			want(s.back == 2, "%d losses, %d reconnections announced", 2, s.back)
			s.finish()
		})
		add("retry.lose."+how, all, 1, 2)
	}
	reg("retry.come", "a retrying end comes back: what it has is there when this is announced", win, func() {
		s := newSite()
		s.start()
		noErr("register", s.register("m2"))
		s.onBack = func(n int) {
			mc.GoNamed("server", func() { s.serves("when announced", []string{"m", "m2"}, "^h") })
		}
		s.lose("reset")
		settle(2900 * ms)
		mc.ExploreOn()
		s.awaitBack("loss", 1, backLimit)
		mc.ExploreOff()
		settle(time.Second)
		s.usable("after coming back")
		s.finish()
	})
	add("retry.come", all, 1, 2)
	// the connection is lost again at every stage of coming back
	stages := []string{"dial", "handshake", "connected", "restoring", "restored", "announced", "after"}
	for _, how := range losses[:3] {
		how := how
		reg("retry.again."+how, "the new connection is lost again at every stage of coming back", win, func() {
			s := newSite()
			st := stages[mc.Choose(len(stages), "stage")]
			again := func() { s.loseN(how, 1) }
			lost := false
			s.onConn = func(n int) {
				if n != 1 {
					return
				}
				switch st {
				case "handshake":
					mc.GoNamed("loss", func() { again(); lost = true })
				case "connected":
					mc.GoNamed("loss", func() { settle(500 * ms); again(); lost = true })
				case "restored":
					mc.GoNamed("loss", func() { settle(1000*ms + 10*ms); again(); lost = true })
				}
			}
			s.answer = func(n int) string {
				if n == 1 && st == "dial" {
					return "dead"
				}
				return ""
			}
			k := 0
			s.onReg = func(n int, m string) {
				if n == 1 && st == "restoring" {
					k++
					if k == 1 {
						again()
						lost = true
					}
				}
			}
			s.onBack = func(n int) {
				if n == 1 && st == "announced" {
					again()
					lost = true
				}
			}
			s.start()
			noErr("register", s.register("m2"))
			mc.ExploreOn()
			s.lose("reset")
			if st == "after" {
				s.awaitBack("loss", 1, backLimit)
				again()
				lost = true
			}
			settle(5 * time.Second)
			mc.ExploreOff()
			settle(15 * time.Second)
			_ = lost
			want(s.dials == 3 || !lost && s.dials == 2, "two losses, %d dials", s.dials)
			want(s.back >= 1, "the reconnection was not announced")
			s.serves("after coming back", []string{"m", "m2"}, "^h")
			s.usable("after coming back")
			s.finish()
		})
		if how == "reset" {
			add("retry.again."+how, all[:1], 1, 1)
			add("retry.again."+how, all[1:], 0, 1)
		} else {
			add("retry.again."+how, all, 0, 1)
		}
	}
	// dials that fail
	answers := []string{"error", "silent", "refuse", "hang up", "dead"}
	reg("retry.dial", "dials that fail in every way before one succeeds", win, func() {
		s := newSite()
		s.start()
		f := []string{answers[mc.Choose(len(answers), "first dial")], answers[mc.Choose(len(answers), "second dial")]}
		if f[0] == f[1] && mc.Choose(2, "many") == 1 {
			f = append(f, f[0], f[0], f[0], f[0], f[0])
		}
		s.answer = func(n int) string {
			if n >= 1 && n <= len(f) {
				return f[n-1]
			}
			return ""
		}
		s.lose("reset")
		mc.ExploreOn()
		s.awaitBack("loss", 1, time.Duration(len(f))*20*time.Second)
		mc.ExploreOff()
		want(s.dials == len(f)+2, "%d dials", s.dials)
		s.serves("after coming back", []string{"m"}, "^h")
		s.usable("after coming back")
		s.finish()
	})
	add("retry.dial", all, 0, 1)
	// operations while the connection is lost
	ops := []string{"call", "publish", "publish1", "callasync", "pubasync", "register", "hijack", "open", "accept", "read", "receive", "write", "list", "deadline", "info"}
	for _, k := range ops {
		k := k
		reg("retry.op."+k, "an operation starts at every stage of a loss", win, func() {
			s := newSite()
			s.start()
			after := []time.Duration{0, time.Second, 3 * time.Second, 3500 * ms, 4 * time.Second}[mc.Choose(5, "stage")]
			how := losses[mc.Choose(len(losses), "how")]
			mc.ExploreOn()
			g := newGroup()
			g.Go("loss", func() { s.lose(how) })
			if after > 0 {
				settle(after)
			}
			blocks := k == "accept" || k == "read" || k == "receive"
			g.Go(k, func() {
				if k == "info" {
					mixOp(s.re, k)
					return
				}
				if k == "open" {
					sm, err := openStream(s.re, "o", "")
					want((sm != nil) == (err == nil), "open returned stream %v and error %v", sm != nil, err)
					return
				}
				if k == "hijack" {
					s.hijack("^h")
					return
				}
				err := doOp(s.re, k)
				mc.Outcome("%v", err == nil)
			})
			settle(50 * ms)
			mc.ExploreOff()
			s.awaitBack("loss", 1, backLimit)
			settle(time.Second)
			e := s.last()
			if blocks {
				// what is blocking now gets what the server sends
				h := newGroup()
				h.Go("server", func() {
					switch k {
					case "accept":
						_, err := openStream(e, "o", "")
						noErr("open", err)
					case "read":
						mustWrite("write", e, []byte("data"))
					case "receive":
						e.Publish(bg(), cnss(e, "P", true))
					}
				})
				h.Wait(closeLimit)
			}
			g.Wait(40 * time.Second)
			s.serves("after coming back", []string{"m"}, "")
			want(s.back == 1, "one loss, %d reconnections announced", s.back)
			noErr("call", doOp(s.re, "call"))
			noErr("publish", doOp(s.re, "publish"))
			s.finish()
		})
		add("retry.op."+k, all, 0, 1)
	}
	// registrations and hijacks that race with the loss and the return
	reg("retry.keep", "methods and hijacks that were registered at any moment of a loss are there afterwards", win, func() {
		s := newSite()
		s.start()
		hijack := mc.Choose(2, "hijack") == 1
		after := []time.Duration{0, 2 * time.Second, 3 * time.Second, 3990 * ms, 4 * time.Second, 4010 * ms}[mc.Choose(6, "stage")]
		if after > 3*time.Second+500*ms {
			// starts while the end restores what it had
			s.onReg = func(n int, m string) { settle(20 * ms) }
		}
		ok := false
		mc.ExploreOn()
		g := newGroup()
		g.Go("loss", func() { s.lose("reset") })
		g.Go("registering", func() {
			settle(after)
			if hijack {
				ok = s.hijack("^hel") == nil
			} else {
				ok = s.register("m2") == nil
			}
		})
		settle(5 * time.Second)
		mc.ExploreOff()
		s.awaitBack("loss", 1, backLimit)
		g.Wait(20 * time.Second)
		settle(time.Second)
		ms, h := []string{"m"}, "^h"
		if ok && hijack {
			h = "^hel"
		} else if ok {
			ms = append(ms, "m2")
		}
		s.serves("after coming back", ms, h)
		s.lose("eof")
		s.awaitBack("second loss", 2, backLimit)
		settle(time.Second)
		s.serves("after coming back twice", ms, h)
		s.finish()
	})
	add("retry.keep", all[:1], 1, 1)
	add("retry.keep", all[1:], 0, 1)
	// closing at every stage of a reconnection
	moments := []time.Duration{0, 2 * time.Second, 3 * time.Second, 3500 * ms, 4 * time.Second, 4010 * ms, 5 * time.Second}
	for i, m := range moments {
		m := m
		reg(fmt.Sprint("retry.close.", i), "the end is closed at a stage of coming back", win, func() {
			s := newSite()
			if mc.Choose(2, "lent timer") == 1 {
				s.timer = timer.NewTimer()
			}
			s.start()
			op := []string{"", "call", "register", "open"}[mc.Choose(4, "operation")]
			slow := mc.Choose(3, "new connection")
			s.answer = func(n int) string {
				if n > 0 && slow == 1 {
					return "silent"
				}
				return ""
			}
			if slow == 2 {
				s.onReg = func(n int, m string) { settle(20 * ms) }
			}
			how := losses[mc.Choose(2, "how")]
			mc.ExploreOn()
			g := newGroup()
			g.Go("loss", func() { s.lose(how) })
			if op != "" {
				g.Go(op, func() { doOp(s.re, op) })
			}
			if m > 0 {
				settle(m)
			}
			within(closeLimit, "close", func() { s.re.Close() })
			s.closed, s.closedAt = true, mc.Elapsed()
			settle(50 * ms)
			mc.ExploreOff()
			g.Wait(closeLimit)
			settle(20 * time.Second)
			s.over()
		})
		add(fmt.Sprint("retry.close.", i), all, 0, 1)
	}
	// contexts end the wait for a reconnection
	for _, k := range []string{"call", "callasync", "publish", "pubasync", "register", "receive"} {
		k := k
		reg("retry.ctx."+k, "an operation with a context starts while the end reconnects", win, func() {
			s := newSite()
			s.start()
			down := mc.Choose(2, "server is down") == 1
			s.answer = func(n int) string {
				if down && n > 0 && n < 4 {
					return []string{"error", "silent"}[n%2]
				}
				return ""
			}
			cancelled := mc.Choose(2, "cancel") == 1
			mc.ExploreOn()
			s.lose("reset")
			settle(50 * ms)
			ctx, cancel := timeoutOrCancel(!cancelled)
			g := newGroup()
			t0 := mc.Elapsed()
			for i := 0; i < 2; i++ {
				g.Go(k, func() {
					var err error
					switch k {
					case "call":
						_, err = s.re.Call(ctx, "never", newReq(s.re, "X", ""))
					case "callasync":
						var c *geminio.Call
						c, err = s.re.CallAsync(ctx, "never", newReq(s.re, "X", ""), nil)
						if err == nil {
							err = (<-c.Done).Error
						}
					case "publish":
						err = s.re.Publish(ctx, cnss(s.re, "P", false))
					case "pubasync":
						var p *geminio.Publish
						p, err = s.re.PublishAsync(ctx, cnss(s.re, "P", false), nil)
						if err == nil {
							err = (<-p.Done).Error
						}
					case "register":
						err = s.re.Register(ctx, "m2", func(ctxT, geminio.Request, geminio.Response) {})
					case "receive":
						_, err = s.re.Receive(ctx)
					}
					want(err != nil, "%s succeeded without a connection", k)
					want(mc.Elapsed()-t0 <= 210*ms+gran, "%s with a context of 200 ms took %v", k, mc.Elapsed()-t0)
				})
			}
			g.Wait(closeLimit)
			cancel()
			mc.ExploreOff()
			s.awaitBack("loss", 1, closeLimit)
			settle(time.Second)
			s.serves("after coming back", []string{"m"}, "^h")
			s.usable("after coming back")
			s.finish()
		})
		add("retry.ctx."+k, all[:1], 1, 1)
		add("retry.ctx."+k, all[1:], 0, 1)
	}
	reg("retry.ctor", "the first connection cannot be made", mc.Config{}, func() {
		s := newSite()
		if mc.Choose(2, "lent timer") == 1 {
			s.timer = timer.NewTimer()
		}
		k := mc.Choose(len(answers), "answer")
		s.answer = func(n int) string { return answers[k] }
		within(2*hsLimit, "constructor", func() {
			e, err := client.NewRetryEndWithDialer(s.dial, s.opts())
			want(err != nil && e == nil, "the constructor succeeded")
		})
		s.closed, s.closedAt = true, mc.Elapsed()
		for _, c := range s.ss {
			c.Close()
		}
		settle(closeLimit)
		leaks("after failing")
		want(s.dials == 1, "%d dials", s.dials)
		for i := range s.cs {
			want(s.cs[i].IsClosed(), "the connection is still open")
		}
		for _, wh := range timer.Wheels() {
			want(s.timer == timer.Timer(wh) || wh.Closed(), "a timer the constructor made is still running")
		}
		if s.timer != nil {
			alive("lent timer", s.timer)
		}
	})
	add("retry.ctor", all, 0, 1)
	mc.RegisterPlan(&mc.Plan{Property: "C15", QuickS: 200, ThoroughS: 840, Runs: runs, Assumptions: []string{
		"operations whose connection is lost while they are under way may be executed again on the next connection"}})
}
