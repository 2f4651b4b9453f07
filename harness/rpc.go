package main

import (
	"context"
	"errors"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

func bg() context.Context { return context.Background() }

// echo answers data+"/re", custom+"/cu".
type echo struct {
	runs map[string]int
	bad  string
	who  geminio.Stream
	fail map[string]string
	slow map[string]time.Duration
}

func newEcho(who geminio.Stream) *echo {
	return &echo{runs: map[string]int{}, fail: map[string]string{}, slow: map[string]time.Duration{}, who: who}
}

func (e *echo) handle(_ context.Context, req geminio.Request, rsp geminio.Response) {
	k := string(req.Data())
	e.runs[k]++
	if req.ClientID() != e.who.ClientID() || req.StreamID() != e.who.StreamID() {
		mc.FailNow("handler saw client %d stream %d, is on client %d stream %d", req.ClientID(), req.StreamID(), e.who.ClientID(), e.who.StreamID())
	}
	if d := e.slow[k]; d != 0 {
		time.Sleep(d)
	}
	if f, ok := e.fail[k]; ok {
		rsp.SetError(errors.New(f))
		return
	}
	rsp.SetData([]byte(k + "/re/" + req.Method()))
	rsp.SetCustom([]byte(string(req.Custom()) + "/cu"))
}

func checkCall(sm geminio.Stream, method, data string) {
	rsp, err := sm.Call(bg(), method, newReq(sm, data, "c-"+data))
	noErr("call "+data, err)
	checkRsp(sm, rsp, method, data)
}

func checkRsp(sm geminio.Stream, rsp geminio.Response, method, data string) {
	if rsp == nil {
		mc.FailNow("call %s: no response", data)
	}
	eqBytes("response data of "+data, rsp.Data(), []byte(data+"/re/"+method))
	eqBytes("response custom of "+data, rsp.Custom(), []byte("c-"+data+"/cu"))
	want(rsp.Error() == nil, "response error of %s: %v", data, rsp.Error())
	want(rsp.ClientID() == sm.ClientID() && rsp.StreamID() == sm.StreamID(), "response identity of %s: client %d stream %d", data, rsp.ClientID(), rsp.StreamID())
}

func init() {
	reg("rpc.two", "two concurrent calls to one method and one to a failing one", win, func() {
		w := connect(nil, nil)
		e := newEcho(w.S)
		noErr("register", w.S.Register(bg(), "echo", e.handle))
		noErr("register", w.S.Register(bg(), "other", e.handle))
		e.fail["C"] = "boom C"
		mc.ExploreOn()
		g := newGroup()
		g.Go("call A", func() { checkCall(w.C, "echo", "A") })
		g.Go("call B", func() { checkCall(w.C, "other", "B") })
		g.Go("call C", func() {
			_, err := w.C.Call(bg(), "echo", newReq(w.C, "C", "x"))
			want(err != nil && err.Error() == "boom C", "failing handler: caller got %v", err)
		})
		g.Wait(5 * time.Second)
		settle(time.Second)
		want(e.runs["A"] == 1 && e.runs["B"] == 1 && e.runs["C"] == 1 && len(e.runs) == 3, "handler runs: %v", e.runs)
		mc.Outcome("ok %v", mc.Elapsed() > 2*time.Second)
	})
	reg("rpc.bidi", "both sides call each other, one method is not registered", win, func() {
		w := connect(nil, nil)
		es, ec := newEcho(w.S), newEcho(w.C)
		noErr("register", w.S.Register(bg(), "echo", es.handle))
		noErr("register", w.C.Register(bg(), "echo", ec.handle))
		mc.ExploreOn()
		g := newGroup()
		g.Go("call c2s", func() { checkCall(w.C, "echo", "A") })
		g.Go("call s2c", func() { checkCall(w.S, "echo", "B") })
		g.Go("call unregistered", func() {
			_, err := w.C.Call(bg(), "nosuch", newReq(w.C, "C", "x"))
			want(err != nil, "calling an unregistered method succeeded")
			checkCall(w.C, "echo", "D")
		})
		g.Wait(5 * time.Second)
		settle(time.Second)
		want(es.runs["A"] == 1 && ec.runs["B"] == 1 && es.runs["D"] == 1 && len(es.runs) == 2 && len(ec.runs) == 1, "handler runs: %v %v", es.runs, ec.runs)
	})
	reg("rpc.streams", "concurrent calls on two streams with the same method name", win, func() {
		w := connect(nil, nil)
		c1, s1 := openPair(w.C, w.S, "m")
		e0, e1 := newEcho(w.S), newEcho(s1)
		noErr("register", w.S.Register(bg(), "echo", e0.handle))
		noErr("register", s1.Register(bg(), "echo", e1.handle))
		mc.ExploreOn()
		g := newGroup()
		g.Go("call end", func() { checkCall(w.C, "echo", "A") })
		g.Go("call stream", func() { checkCall(c1, "echo", "B") })
		g.Wait(5 * time.Second)
		settle(time.Second)
		want(e0.runs["A"] == 1 && e1.runs["B"] == 1 && len(e0.runs) == 1 && len(e1.runs) == 1, "handler runs: %v %v", e0.runs, e1.runs)
	})
	reg("rpc.nested", "a handler that waits for further calls, messages and bytes of the same stream, in both directions", win, func() {
		w := connect(nil, nil)
		var a, b geminio.Stream = w.C, w.S
		switch mc.Choose(3, "stream") {
		case 1:
			a, b = w.S, w.C
		case 2:
			a, b = openPair(w.C, w.S, "m")
		}
		ea, eb := newEcho(a), newEcho(b)
		noErr("register", a.Register(bg(), "echo", ea.handle))
		noErr("register", b.Register(bg(), "echo", eb.handle))
		gate := make(chan struct{})
		outer := func(_ context.Context, m string, req geminio.Request, rsp geminio.Response) {
			checkCall(b, "echo", "back") // the caller is called back
			mm := recv(b)
			checkMsg(b, mm, "M")
			noErr("done", mm.Done())
			eqBytes("bytes", readFull("read", b, 3), []byte("raw"))
			<-gate // and goes on when another call was handled
			rsp.SetData(append([]byte("outer "), req.Data()...))
		}
		method := "outer"
		switch mc.Choose(3, "kind") {
		case 0:
			noErr("register", b.Register(bg(), "outer", func(c context.Context, req geminio.Request, rsp geminio.Response) { outer(c, "outer", req, rsp) }))
		case 1:
			o := options.Hijack()
			o.SetMatch(true, "^outer$")
			noErr("hijack", b.Hijack(outer, o))
		case 2:
			noErr("hijack", b.Hijack(func(c context.Context, m string, req geminio.Request, rsp geminio.Response) {
				if m == "outer" {
					outer(c, m, req, rsp)
				} else {
					eb.handle(c, req, rsp)
				}
			}))
		}
		mc.ExploreOn()
		g := newGroup()
		g.Go("outer", func() {
			rsp, err := a.Call(bg(), method, newReq(a, "O", "x"))
			noErr("outer call", err)
			eqBytes("outer response", rsp.Data(), []byte("outer O"))
		})
		g.Go("inner", func() {
			checkCall(a, "echo", "I")
			noErr("publish", a.Publish(bg(), cnss(a, "M", false)))
			_, err := a.Write([]byte("raw"))
			noErr("write", err)
			checkCall(a, "echo", "J")
			close(gate)
		})
		g.Wait(5 * time.Second)
		settle(time.Second)
		want(ea.runs["back"] == 1 && eb.runs["I"] == 1 && eb.runs["J"] == 1, "handler runs: %v %v", ea.runs, eb.runs)
	})
	reg("rpc.seq", "sequences of calls with all combinations of data and custom", win, func() {
		w := connect(nil, nil)
		vals := []string{"", "x", "\x00\xff\xfe", string(make([]byte, 300))}
		d := vals[mc.Choose(len(vals), "data")]
		cu := vals[mc.Choose(len(vals), "custom")]
		rd := vals[mc.Choose(len(vals), "rsp data")]
		rc := vals[mc.Choose(len(vals), "rsp custom")]
		var re error
		if mc.Choose(2, "rsp error") == 1 {
			re = errors.New("err text \x01 ü")
		}
		n := 0
		caller, callee := w.C, w.S
		if mc.Choose(2, "side") == 1 {
			caller, callee = w.S, w.C
		}
		noErr("register", callee.Register(bg(), "m", func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			n++
			eqBytes("request data", req.Data(), []byte(d))
			eqBytes("request custom", req.Custom(), []byte(cu))
			want(req.Method() == "m", "method %q", req.Method())
			want(req.ClientID() == callee.ClientID() && req.StreamID() == callee.StreamID(), "identity")
			rsp.SetData([]byte(rd))
			rsp.SetCustom([]byte(rc))
			rsp.SetError(re)
		}))
		req := newReq(caller, d, cu)
		rsp, err := caller.Call(bg(), "m", req)
		if re != nil {
			want(err != nil && err.Error() == re.Error(), "handler error %v came back as %v", re, err)
		} else {
			noErr("call", err)
			eqBytes("response data", rsp.Data(), []byte(rd))
			eqBytes("response custom", rsp.Custom(), []byte(rc))
			want(rsp.ID() == req.ID(), "response id %d of request %d", rsp.ID(), req.ID())
		}
		want(n == 1, "handler ran %d times", n)
		mc.Outcome("%q %q %q %q %v", clip(d), clip(cu), clip(rd), clip(rc), re)
	})
	mc.RegisterPlan(&mc.Plan{Property: "C05", QuickS: 150, ThoroughS: 800, Runs: []mc.Run{
		{Scenario: "rpc.seq", Policies: []int{0, 1}, Quick: 0, Thorough: 1},
		{Scenario: "rpc.nested", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "rpc.two", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "rpc.bidi", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
		{Scenario: "rpc.streams", Policies: []int{0, 1, 2}, Quick: 2, Thorough: 3},
	}})
}

type ctxT = context.Context
