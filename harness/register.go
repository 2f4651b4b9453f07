package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/application"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// asserts that a method is not available: the peer has not registered it.
func unregistered(what string, err error) {
	want(errors.Is(err, application.ErrRemoteRPCUnregistered), "%s: calling a method the peer has not registered: %v", what, errStr(err))
}

func init() {
	// available as soon as Register returned, on ends and streams of both sides
	for _, side := range []int{0, 1} {
		side := side
		reg(fmt.Sprint("reg.effective.", side), "methods are registered concurrently and called by the peer the moment Register returns", win, func() {
			r := &recorder{who: "peer"}
			w := connect(copts(func(o *client.EndOptions) {
				if side == 1 {
					o.SetDelegate(&cliDlgt{r})
				}
			}), sopts(func(o *server.EndOptions) {
				if side == 0 {
					o.SetDelegate(&srvDlgt{r})
				}
			}))
			ends := []geminio.End{w.C, w.S}
			a, b := openPair(ends[side], ends[1-side], "m")
			mc.ExploreOn()
			g := newGroup()
			regcall := func(name string, from, to geminio.Stream) {
				e := newEcho(from)
				g.Go(name, func() {
					noErr("register", from.Register(bg(), name, e.handle))
					checkCall(to, name, "D"+name)
					want(e.runs["D"+name] == 1 && len(e.runs) == 1, "handler of %s ran %v", name, e.runs)
				})
			}
			regcall("end1", ends[side], ends[1-side])
			regcall("end2", ends[side], ends[1-side])
			regcall("stream", a, b)
			regcall("back", ends[1-side], ends[side])
			g.Wait(5 * time.Second)
			settle(time.Second)
			cid := w.C.ClientID()
			exp := map[string]int{fmt.Sprintf("end1/%d/1", cid): 1, fmt.Sprintf("end2/%d/1", cid): 1, fmt.Sprintf("stream/%d/%d", cid, a.StreamID()): 1}
			for _, x := range r.regs {
				exp[x]--
			}
			for k, n := range exp {
				want(n == 0, "registration %s is reported to the peer %d times", k, 1-n)
			}
		})
	}
	reg("reg.overwrite", "a method is registered again; from then on only the new handler runs", win, func() {
		w := connect(nil, nil)
		var runs [3]int
		h := func(i int) geminio.RPC {
			return func(_ ctxT, req geminio.Request, rsp geminio.Response) { runs[i]++; rsp.SetData([]byte{byte(i)}) }
		}
		call := func() int {
			rsp, err := w.S.Call(bg(), "m", newReq(w.S, "X", ""))
			noErr("call", err)
			return int(rsp.Data()[0])
		}
		noErr("register", w.C.Register(bg(), "m", h(0)))
		want(call() == 0, "first handler")
		mc.ExploreOn()
		g := newGroup()
		g.Go("register again", func() {
			noErr("register", w.C.Register(bg(), "m", h(1)))
			want(call() == 1, "the overwritten handler ran")
		})
		g.Go("call", func() { i := call(); want(i == 0 || i == 1, "handler %d", i) })
		g.Wait(5 * time.Second)
		want(call() == 1, "the overwritten handler ran")
	})

	// waiting for remote methods
	for _, side := range []string{"client", "server"} {
		side := side
		// k: who provides the methods: 0 the peer's constructor, 1 the peer in
		// its own order, 2 both some
		for k := 0; k < 3; k++ {
			k := k
			reg(fmt.Sprintf("reg.wait.%s.%d", side, k), "an end waits for the peer's methods, registered in any order", win, func() {
				w := &W{}
				w.CA, w.SB = vnet.Pair()
				co, so := copts(), sopts()
				sent := map[string]bool{} // registration started
				acked := map[string]bool{}
				var pre []*geminio.MethodRPC
				var post []string
				var peer geminio.End
				h := func(m string) geminio.RPC {
					return func(_ ctxT, req geminio.Request, rsp geminio.Response) { rsp.SetData([]byte(m)) }
				}
				switch k {
				case 0:
					pre = []*geminio.MethodRPC{{Method: "a", RPC: h("a")}, {Method: "c", RPC: h("c")}, {Method: "b", RPC: h("b")}}
				case 1:
					post = [][]string{{"a", "b"}, {"b", "a"}, {"c", "b", "a"}, {"a", "a", "b"}}[mc.Choose(4, "order")]
				case 2:
					pre, post = []*geminio.MethodRPC{{Method: "b", RPC: h("b")}}, []string{"c", "a"}
				}
				co.SetMeta([]byte("m"))
				var me geminio.End
				mkPeer := func() (err error) {
					if side == "client" {
						so.SetRegisterLocalRPCs(pre...)
						peer, err = server.NewEndWithConn(w.SB, so)
					} else {
						co.SetRegisterLocalRPCs(pre...)
						peer, err = client.NewEndWithConn(w.CA, co)
					}
					return
				}
				mkMe := func() (err error) {
					if side == "client" {
						co.SetWaitRemoteRPCs("a", "b")
						me, err = client.NewEndWithConn(w.CA, co)
					} else {
						so.SetWaitRemoteRPCs("a", "b")
						me, err = server.NewEndWithConn(w.SB, so)
					}
					return
				}
				mc.ExploreOn()
				g := newGroup()
				g.Go("waiting constructor", func() {
					noErr("constructor", mkMe())
					for _, m := range []string{"a", "b"} {
						want(sent[m], "the end is available though %s is not registered", m)
						rsp, err := me.Call(bg(), m, me.NewRequest(nil))
						noErr("call "+m, err)
						eqBytes("answer", rsp.Data(), []byte(m))
					}
					mc.Outcome("acked %v %v", acked["a"], acked["b"])
				})
				g.Go("peer", func() {
					for _, x := range pre {
						sent[x.Method] = true
					}
					noErr("peer's constructor", mkPeer())
					for _, m := range post {
						sent[m] = true
						noErr("register", peer.Register(bg(), m, h(m)))
						acked[m] = true
					}
				})
				g.Wait(2 * time.Second)
				mc.ExploreOff()
				works("end", w.pick(me, peer, 0), w.pick(me, peer, 1))
			})
		}
		reg("reg.never."+side, "a method is never registered: the end stays unavailable until the connection goes, then its constructor fails", win, func() {
			w := &W{}
			w.CA, w.SB = vnet.Pair()
			co, so := copts(), sopts()
			var peer, me geminio.End
			var merr error
			g := newGroup()
			g.Go("waiting constructor", func() {
				if side == "client" {
					co.SetWaitRemoteRPCs("a", "b")
					me, merr = client.NewEndWithConn(w.CA, co)
				} else {
					so.SetWaitRemoteRPCs("a", "b")
					me, merr = server.NewEndWithConn(w.SB, so)
				}
			})
			var perr error
			if side == "client" {
				peer, perr = server.NewEndWithConn(w.SB, so)
			} else {
				peer, perr = client.NewEndWithConn(w.CA, co)
			}
			noErr("peer's constructor", perr)
			how := mc.Choose(3, "how it ends")
			noErr("register", peer.Register(bg(), "a", newEcho(peer).handle))
			noErr("register", peer.Register(bg(), "ab", newEcho(peer).handle))
			settle(time.Minute)
			want(me == nil && merr == nil, "the end is available, b is not registered (%v)", errStr(merr))
			mc.ExploreOn()
			switch how {
			case 0:
				within(closeLimit, "peer's close", func() { peer.Close() })
			case 1:
				w.CA.Kill(false)
			case 2:
				w.CA.Kill(true)
			}
			g.Wait(closeLimit)
			want(me == nil && merr != nil, "the constructor succeeded without its method")
			mc.ExploreOff()
			within(closeLimit, "peer's close", func() { peer.Close() })
			settle(closeLimit)
			leaks("after the failed constructor")
			want(w.CA.IsClosed() && w.SB.IsClosed(), "the connection is still open")
		})
	}
	// everything at once
	reg("reg.options", "every combination of waiting, checking and pre-registering on both sides", win, func() {
		w := &W{}
		w.CA, w.SB = vnet.Pair()
		co, so := copts(), sopts()
		opt := func(who string) (bool, bool, bool) {
			return mc.Choose(2, who+" waits") == 1, mc.Choose(2, who+" checks") == 1, mc.Choose(2, who+" pre-registers") == 1
		}
		cw, cc, cp := opt("client")
		sw, sc, sp := opt("server")
		if cw && sw && (!cp || !sp) {
			return // each would wait for an end that isn't there yet
		}
		var ec, es *echo
		handle := func(p **echo) geminio.RPC {
			return func(c ctxT, req geminio.Request, rsp geminio.Response) {
				if *p == nil {
					rsp.SetData([]byte(string(req.Data()) + "/re/" + req.Method()))
					rsp.SetCustom([]byte(string(req.Custom()) + "/cu"))
					return
				}
				(*p).handle(c, req, rsp)
			}
		}
		if cw {
			co.SetWaitRemoteRPCs("s1", "s2")
		}
		if sw {
			so.SetWaitRemoteRPCs("c1", "c2")
		}
		if cc {
			co.SetRemoteRPCCheck()
		}
		if sc {
			so.SetRemoteRPCCheck()
		}
		if cp {
			co.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "c1", RPC: handle(&ec)}, &geminio.MethodRPC{Method: "c2", RPC: handle(&ec)})
		}
		if sp {
			so.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "s1", RPC: handle(&es)}, &geminio.MethodRPC{Method: "s2", RPC: handle(&es)})
		}
		cdone, sdone := make(chan struct{}), make(chan struct{})
		mc.ExploreOn()
		g := newGroup()
		use := func(e geminio.End, waited, checks, peerPre bool, m, peerM string, mine *echo, peerDone chan struct{}, isPre bool, done chan struct{}) {
			if !isPre {
				noErr("register", e.Register(bg(), m+"2", mine.handle))
				noErr("register", e.Register(bg(), m+"1", mine.handle))
			}
			close(done)
			if !waited {
				_, err := e.Call(bg(), "nosuch", e.NewRequest(nil))
				want(err != nil, "calling an unknown method succeeded")
				if checks {
					unregistered(m, err)
				}
				<-peerDone
			}
			checkCall(e, peerM+"1", "A")
			checkCall(e, peerM+"2", "B")
			_, err := e.Call(bg(), "nosuch", e.NewRequest(nil))
			want(err != nil && (!checks || errors.Is(err, application.ErrRemoteRPCUnregistered)), "unknown method: %v", errStr(err))
			checkCall(e, peerM+"1", "C")
		}
		g.Go("client", func() {
			var err error
			w.C, err = client.NewEndWithConn(w.CA, co)
			noErr("client constructor", err)
			ec = newEcho(w.C)
			use(w.C, cw, cc, sp, "c", "s", ec, sdone, cp, cdone)
		})
		g.Go("server", func() {
			var err error
			w.S, err = server.NewEndWithConn(w.SB, so)
			noErr("server constructor", err)
			es = newEcho(w.S)
			use(w.S, sw, sc, cp, "s", "c", es, cdone, sp, sdone)
		})
		g.Wait(3 * time.Second)
	})
	for _, side := range []string{"client", "server"} {
		side := side
		reg("reg.check."+side, "an end that checks methods calls while the peer registers; a rejected call impairs nothing", win, func() {
			w := connect(copts(func(o *client.EndOptions) {
				if side == "client" {
					o.SetRemoteRPCCheck()
				}
			}), sopts(func(o *server.EndOptions) {
				if side == "server" {
					o.SetRemoteRPCCheck()
				}
			}))
			me, peer := w.C, w.S
			if side == "server" {
				me, peer = w.S, w.C
			}
			a, b := openPair(me, peer, "m")
			e := newEcho(peer)
			mc.ExploreOn()
			g := newGroup()
			g.Go("peer registers", func() {
				noErr("register", peer.Register(bg(), "m", e.handle))
				checkCall(me, "m", "A")
			})
			g.Go("call early", func() {
				rsp, err := me.Call(bg(), "m", newReq(me, "B", "c-B"))
				if err != nil {
					unregistered("early call", err)
					mc.Outcome("rejected")
				} else {
					checkRsp(me, rsp, "m", "B")
					mc.Outcome("accepted")
				}
			})
			g.Go("async call", func() {
				c, err := me.CallAsync(bg(), "nosuch", me.NewRequest(nil), nil)
				want(err != nil && c == nil, "asynchronous call of an unregistered method was accepted")
				unregistered("asynchronous call", err)
			})
			g.Go("stream", func() {
				_, err := a.Call(bg(), "m", a.NewRequest(nil))
				unregistered("call on a stream whose peer registered nothing", err)
				_, err = a.Call(bg(), "m", a.NewRequest(nil))
				unregistered("call on a stream whose peer registered nothing", err)
			})
			g.Go("the unchecked side", func() {
				_, err := peer.Call(bg(), "nosuch", peer.NewRequest(nil))
				want(err != nil && !errors.Is(err, application.ErrRemoteRPCUnregistered) && !strings.Contains(err.Error(), "unregistered"), "an end without check: %v", errStr(err))
			})
			g.Wait(3 * time.Second)
			works("0", me, peer)
			works("1", a, b)
			works("2", peer, me)
			within(closeLimit, "stream close", func() { a.Close() })
			w.closeBoth()
			mc.ExploreOff()
			settle(closeLimit)
			leaks("after close")
		})
	}
	all := []int{0, 1, 2}
	runs := []mc.Run{
		{Scenario: "reg.effective.0", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "reg.effective.1", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "reg.overwrite", Policies: all, Quick: 2, Thorough: 3},
		{Scenario: "reg.options", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "reg.check.client", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "reg.check.server", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "reg.never.client", Policies: all, Quick: 1, Thorough: 2},
		{Scenario: "reg.never.server", Policies: all, Quick: 1, Thorough: 2},
	}
	for k := 0; k < 3; k++ {
		for _, side := range []string{"client", "server"} {
			runs = append(runs, mc.Run{Scenario: fmt.Sprintf("reg.wait.%s.%d", side, k), Policies: all, Quick: 1, Thorough: 2})
		}
	}
	mc.RegisterPlan(&mc.Plan{Property: "C16", QuickS: 150, ThoroughS: 820, Runs: runs})

	// ---- hijack ----
	type rule struct {
		name string
		set  func(*options.HijackOptions)
		sel  func(string) bool
	}
	match := func(m bool, p string, sel func(string) bool) rule {
		return rule{fmt.Sprintf("%v %q", m, p), func(o *options.HijackOptions) { o.SetMatch(m, p) }, func(s string) bool { return sel(s) == m }}
	}
	isA := func(s string) bool { return s == "alpha" }
	rules := []rule{
		{"none", nil, func(string) bool { return true }},
		{"empty options", func(*options.HijackOptions) {}, func(string) bool { return true }},
		match(true, "^alpha$", isA),
		match(false, "^alpha$", isA),
		match(true, "al", func(s string) bool { return strings.Contains(s, "al") }),
		match(false, "al", func(s string) bool { return strings.Contains(s, "al") }),
		match(true, "^be", func(s string) bool { return strings.HasPrefix(s, "be") }),
		match(false, "^be", func(s string) bool { return strings.HasPrefix(s, "be") }),
		match(true, "^$", func(s string) bool { return s == "" }),
		match(false, "^$", func(s string) bool { return s == "" }),
		match(true, "", func(string) bool { return true }),
		match(false, "", func(string) bool { return true }),
		match(true, "nothing", func(string) bool { return false }),
		match(false, "nothing", func(string) bool { return false }),
		match(true, "^(alpha|gamma)", func(s string) bool { return strings.HasPrefix(s, "alpha") || strings.HasPrefix(s, "gamma") }),
	}
	methods := []string{"alpha", "beta", "alphabet", "gamma", "", "a*[", "be\x00\xffta", "be\nal"}
	type obs struct{ hijacks, plains int }
	hij := func(sm geminio.Stream, o *obs, tag string) geminio.HijackRPC {
		return func(_ ctxT, m string, req geminio.Request, rsp geminio.Response) {
			o.hijacks++
			want(req.Method() == m, "hijack was called with method %q, the request is for %q", m, req.Method())
			want(req.ClientID() == sm.ClientID() && req.StreamID() == sm.StreamID(), "hijack saw client %d stream %d", req.ClientID(), req.StreamID())
			rsp.SetData([]byte(tag + m + "|" + string(req.Data())))
			rsp.SetCustom([]byte(string(req.Custom()) + "'"))
		}
	}
	// expect is the outcome the rules define; a hijack that selects a method is
	// asked before the registered method.
	judge := func(what string, o obs, rsp geminio.Response, err error, hijacked, registered bool, tag, m string) {
		switch {
		case hijacked:
			noErr(what, err)
			eqBytes(what, rsp.Data(), []byte(tag+m+"|data"))
			eqBytes(what, rsp.Custom(), []byte("cu'"))
			want(o.hijacks == 1 && o.plains == 0, "%s: hijack ran %d times, the registered method %d times", what, o.hijacks, o.plains)
		case registered:
			noErr(what, err)
			eqBytes(what, rsp.Data(), []byte("plain"))
			want(o.hijacks == 0 && o.plains == 1, "%s: hijack ran %d times, the registered method %d times", what, o.hijacks, o.plains)
		default:
			want(err != nil, "%s: an unknown method succeeded", what)
			want(o.hijacks == 0 && o.plains == 0, "%s: hijack ran %d times, the registered method %d times", what, o.hijacks, o.plains)
		}
	}
	reg("hij.rules", "every rule x method name x registered or not x synchronous or not x side x end or stream", win, func() {
		w := connect(nil, nil)
		caller, callee := geminio.Stream(w.C), geminio.Stream(w.S)
		side := mc.Choose(4, "side")
		if side&1 == 1 {
			caller, callee = callee, caller
		}
		if side&2 == 2 {
			caller, callee = openPair(caller.(geminio.End), callee.(geminio.End), "m")
		}
		r := rules[mc.Choose(len(rules), "rule")]
		m := methods[mc.Choose(len(methods), "method")]
		registered := mc.Choose(2, "registered") == 1
		async := mc.Choose(2, "async") == 1
		var o obs
		if registered {
			noErr("register", callee.Register(bg(), m, func(_ ctxT, _ geminio.Request, rsp geminio.Response) { o.plains++; rsp.SetData([]byte("plain")) }))
		}
		if r.set == nil {
			noErr("hijack", callee.Hijack(hij(callee, &o, "H")))
		} else {
			ho := options.Hijack()
			r.set(ho)
			noErr("hijack", callee.Hijack(hij(callee, &o, "H"), ho))
		}
		req := newReq(caller, "data", "cu")
		var rsp geminio.Response
		var err error
		within(2*time.Second, "call", func() {
			if async {
				var c *geminio.Call
				c, err = caller.CallAsync(bg(), m, req, nil)
				noErr("asynchronous call", err)
				c = <-c.Done
				rsp, err = c.Response, c.Error
			} else {
				rsp, err = caller.Call(bg(), m, req)
			}
		})
		judge(fmt.Sprintf("rule %s method %q", r.name, m), o, rsp, err, r.sel(m), registered, "H", m)
		mc.CountCase()
	})
	reg("hij.histories", "sequences of hijacks, registrations and failing hijacks; the last hijack decides", win, func() {
		w := connect(nil, nil)
		var o obs
		cur, registered, tag := rules[12], false, ""
		for i := 0; i < 3; i++ {
			switch k := mc.Choose(5, "step"); k {
			case 0, 1, 2:
				r := rules[[]int{0, 2, 3}[k]]
				tag = fmt.Sprint("H", i)
				ho := options.Hijack()
				if r.set != nil {
					r.set(ho)
				}
				noErr("hijack", w.S.Hijack(hij(w.S, &o, tag), ho))
				cur = r
			case 3:
				noErr("register", w.S.Register(bg(), "alpha", func(_ ctxT, _ geminio.Request, rsp geminio.Response) { o.plains++; rsp.SetData([]byte("plain")) }))
				registered = true
			case 4:
				ho := options.Hijack()
				ho.SetMatch(true, "(")
				want(w.S.Hijack(hij(w.S, &o, "bad"), ho) != nil, "a pattern that doesn't compile was accepted")
			}
			for _, m := range []string{"alpha", "beta"} {
				o = obs{}
				rsp, err := w.C.Call(bg(), m, newReq(w.C, "data", "cu"))
				judge(fmt.Sprintf("rule %s method %q", cur.name, m), o, rsp, err, cur.sel(m), registered && m == "alpha", tag, m)
			}
		}
		mc.CountCase()
	})
	reg("hij.race", "calls to hijacked, registered and unknown methods at once", win, func() {
		w := connect(nil, nil)
		var o obs
		ho := options.Hijack()
		ho.SetMatch(true, "^h")
		noErr("hijack", w.S.Hijack(hij(w.S, &o, "H"), ho))
		e := newEcho(w.S)
		noErr("register", w.S.Register(bg(), "echo", e.handle))
		noErr("register", w.S.Register(bg(), "h2", func(ctxT, geminio.Request, geminio.Response) { o.plains++ }))
		mc.ExploreOn()
		g := newGroup()
		for _, m := range []string{"h1", "h2"} {
			m := m
			g.Go(m, func() {
				rsp, err := w.C.Call(bg(), m, newReq(w.C, "data", "cu"))
				noErr("call", err)
				eqBytes("response", rsp.Data(), []byte("H"+m+"|data"))
			})
		}
		g.Go("echo", func() { checkCall(w.C, "echo", "A") })
		g.Go("unknown", func() {
			_, err := w.C.Call(bg(), "x", newReq(w.C, "data", "cu"))
			want(err != nil, "unknown method succeeded")
		})
		g.Wait(3 * time.Second)
		want(o.hijacks == 2 && o.plains == 0 && e.runs["A"] == 1, "hijack ran %d times, shadowed method %d times, echo %v", o.hijacks, o.plains, e.runs)
	})
	reg("hij.during", "a hijack or registration takes effect while calls run: each call sees either rule", win, func() {
		w := connect(nil, nil)
		var o obs
		noErr("register", w.S.Register(bg(), "m", func(_ ctxT, _ geminio.Request, rsp geminio.Response) { o.plains++; rsp.SetData([]byte("plain")) }))
		mc.ExploreOn()
		g := newGroup()
		hijacked := false
		g.Go("hijack", func() { noErr("hijack", w.S.Hijack(hij(w.S, &o, "H"))); hijacked = true })
		for _, m := range []string{"m", "n"} {
			m := m
			g.Go("call "+m, func() {
				sure := hijacked
				rsp, err := w.C.Call(bg(), m, newReq(w.C, "data", "cu"))
				switch {
				case err != nil:
					want(m == "n" && !sure, "call %s: %v", m, err)
				case string(rsp.Data()) == "plain":
					want(m == "m" && !sure, "call %s reached the registered method", m)
				default:
					eqBytes("response", rsp.Data(), []byte("H"+m+"|data"))
				}
			})
		}
		g.Wait(3 * time.Second)
	})
	reg("hij.stream", "the hijack of an end and of a stream don't mix", win, func() {
		w := connect(nil, nil)
		a, b := openPair(w.C, w.S, "m")
		var o1, o2 obs
		ho := options.Hijack()
		ho.SetMatch(true, "^x")
		mc.ExploreOn()
		g := newGroup()
		g.Go("end", func() {
			noErr("hijack", w.S.Hijack(hij(w.S, &o1, "E"), ho))
			rsp, err := w.C.Call(bg(), "x", newReq(w.C, "data", "cu"))
			noErr("call", err)
			eqBytes("end", rsp.Data(), []byte("Ex|data"))
			_, err = w.C.Call(bg(), "y", newReq(w.C, "data", "cu"))
			want(err != nil, "y is not hijacked on the end")
		})
		g.Go("stream", func() {
			ho := options.Hijack()
			ho.SetMatch(false, "^x")
			noErr("hijack", b.Hijack(hij(b, &o2, "S"), ho))
			rsp, err := a.Call(bg(), "y", newReq(a, "data", "cu"))
			noErr("call", err)
			eqBytes("stream", rsp.Data(), []byte("Sy|data"))
			_, err = a.Call(bg(), "x", newReq(a, "data", "cu"))
			want(err != nil, "x is not hijacked on the stream")
		})
		g.Wait(3 * time.Second)
		want(o1.hijacks == 1 && o2.hijacks == 1, "hijacks ran %d and %d times", o1.hijacks, o2.hijacks)
	})
	reg("hij.failed", "a method whose registration failed is not registered: a call of it gets the hijack or an error, and it may be registered again", win, func() {
		w := connect(nil, nil)
		var a, b geminio.Stream = w.C, w.S // b registers
		ca, sb := w.CA, w.SB
		switch mc.Choose(3, "stream") {
		case 1:
			a, b, ca, sb = w.S, w.C, w.SB, w.CA
		case 2:
			a, b = openPair(w.C, w.S, "m")
		}
		var o obs
		hijacked := mc.Choose(2, "hijacked") == 1
		if hijacked {
			ho := options.Hijack()
			ho.SetMatch(true, "^m$")
			noErr("hijack", b.Hijack(hij(b, &o, "H"), ho))
		}
		how := mc.Choose(4, "how")
		// 0: the acknowledgement doesn't arrive, 1: the registration doesn't
		stuck := []interface{ Freeze(bool) }{sb, ca}[how%2]
		stuck.Freeze(true)
		var ctx ctxT
		var cancel context.CancelFunc
		if how < 2 {
			ctx, cancel = shortCtx()
		} else {
			ctx, cancel = timeoutOrCancel(false)
		}
		mc.ExploreOn()
		within(5*time.Second, "register", func() {
			fails("register", b.Register(ctx, "m", func(_ ctxT, _ geminio.Request, rsp geminio.Response) { o.plains++ }))
		})
		cancel()
		stuck.Freeze(false)
		for i := 0; i < 2; i++ {
			within(5*time.Second, "call", func() {
				rsp, err := a.Call(bg(), "m", newReq(a, "data", "cu"))
				if !hijacked {
					fails("call of a method whose registration failed", err)
					return
				}
				noErr("call", err)
				eqBytes("response", rsp.Data(), []byte("Hm|data"))
			})
			settle(time.Second)
		}
		want(o.plains == 0, "the method whose registration failed ran")
		noErr("register", b.Register(bg(), "n", func(_ ctxT, _ geminio.Request, rsp geminio.Response) { o.plains++; rsp.SetData([]byte("n")) }))
		if !hijacked {
			noErr("register", b.Register(bg(), "m", func(_ ctxT, _ geminio.Request, rsp geminio.Response) { o.plains++; rsp.SetData([]byte("m")) }))
			rsp, err := a.Call(bg(), "m", newReq(a, "data", "cu"))
			noErr("call", err)
			eqBytes("response", rsp.Data(), []byte("m"))
		}
		rsp, err := a.Call(bg(), "n", newReq(a, "data", "cu"))
		noErr("call", err)
		eqBytes("response", rsp.Data(), []byte("n"))
	})
	mc.RegisterPlan(&mc.Plan{Property: "C17", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "hij.rules", Policies: []int{0}, Quick: 0, Thorough: 0},
		{Scenario: "hij.histories", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "hij.race", Policies: all, Quick: 2, Thorough: 3},
		{Scenario: "hij.during", Policies: all, Quick: 2, Thorough: 3},
		{Scenario: "hij.stream", Policies: all, Quick: 2, Thorough: 3},
		{Scenario: "hij.failed", Policies: all, Quick: 1, Thorough: 2},
	}})
}

// pick returns the client (0) or server (1) end of two ends.
func (w *W) pick(a, b geminio.End, i int) geminio.End {
	if (a.Side() == geminio.InitiatorSide) == (i == 0) {
		return a
	}
	return b
}
