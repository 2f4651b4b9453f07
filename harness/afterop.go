package main

import (
	"context"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

// outcome is one operation that ends in one particular way, on a fresh stream
// a whose other side is b.
type outcomeOp struct {
	name string
	f    func(a, b geminio.Stream)
}

func fails(what string, err error) { want(err != nil, "%s succeeded", what) }

func cancelledCtx() context.Context {
	ctx, cancel := context.WithCancel(bg())
	cancel()
	return ctx
}

func expiredCtx() (context.Context, context.CancelFunc) {
	return context.WithDeadline(bg(), time.Now().Add(-time.Second))
}

func shortCtx() (context.Context, context.CancelFunc) { return context.WithTimeout(bg(), 100*ms) }

func amo(sm geminio.Stream, data string) geminio.Message { return cnss(sm, data, true) }

var outcomeOps = func() []outcomeOp {
	var l []outcomeOp
	add := func(name string, f func(a, b geminio.Stream)) { l = append(l, outcomeOp{name, f}) }
	limited := func(name string, f func(ctx context.Context, a geminio.Stream) error) {
		add(name+" cancelled before", func(a, b geminio.Stream) { f(cancelledCtx(), a) })
		add(name+" after its deadline", func(a, b geminio.Stream) {
			ctx, cancel := expiredCtx()
			defer cancel()
			f(ctx, a)
		})
		add(name+" times out", func(a, b geminio.Stream) {
			ctx, cancel := shortCtx()
			defer cancel()
			fails(name, f(ctx, a))
		})
		add(name+" cancelled", func(a, b geminio.Stream) {
			ctx, cancel := timeoutOrCancel(false)
			defer cancel()
			fails(name, f(ctx, a))
		})
	}
	// messages
	taken := func(b geminio.Stream, f func(m geminio.Message)) func() {
		g := newGroup()
		g.Go("take", func() { f(recv(b)) })
		return func() { g.Wait(5 * time.Second) }
	}
	done := func(m geminio.Message) { noErr("done", m.Done()) }
	add("publish", func(a, b geminio.Stream) {
		w := taken(b, done)
		noErr("publish", a.Publish(bg(), cnss(a, "M", false)))
		w()
	})
	add("publish refused", func(a, b geminio.Stream) {
		w := taken(b, func(m geminio.Message) { noErr("error", m.Error(errX)) })
		fails("publish", a.Publish(bg(), cnss(a, "M", false)))
		w()
	})
	add("publish at most once", func(a, b geminio.Stream) {
		noErr("publish", a.Publish(bg(), amo(a, "M")))
		recv(b)
	})
	add("publish at most once, done", func(a, b geminio.Stream) {
		noErr("publish", a.Publish(bg(), amo(a, "M")))
		recv(b).Done()
	})
	add("async publish at most once", func(a, b geminio.Stream) {
		ch := make(chan *geminio.Publish, 1)
		_, err := a.PublishAsync(bg(), amo(a, "M"), ch)
		noErr("publish", err)
		recv(b)
	})
	add("async publish, done twice", func(a, b geminio.Stream) {
		p, err := a.PublishAsync(bg(), cnss(a, "M", false), nil)
		noErr("publish", err)
		m := recv(b)
		noErr("done", m.Done())
		m.Done()
		m.Error(errX)
		noErr("publish", (<-p.Done).Error)
	})
	add("async publish refused", func(a, b geminio.Stream) {
		p, err := a.PublishAsync(bg(), cnss(a, "M", false), make(chan *geminio.Publish, 1))
		noErr("publish", err)
		recv(b).Error(errX)
		fails("publish", (<-p.Done).Error)
	})
	for _, how := range []string{"message", "option"} {
		how := how
		limit := func(m geminio.Message, o *options.PublishOptions) {
			if how == "message" {
				m.SetTimeout(100 * ms)
			} else {
				o.SetTimeout(100 * ms)
			}
		}
		add("publish with a timeout in its "+how, func(a, b geminio.Stream) {
			m, o := cnss(a, "M", false), options.Publish()
			limit(m, o)
			fails("publish", a.Publish(bg(), m, o))
			recv(b).Done()
		})
		add("async publish with a timeout in its "+how, func(a, b geminio.Stream) {
			m, o := cnss(a, "M", false), options.Publish()
			limit(m, o)
			p, err := a.PublishAsync(bg(), m, nil, o)
			noErr("publish", err)
			fails("publish", (<-p.Done).Error)
			recv(b).Done()
		})
		add("publish at most once with a timeout in its "+how, func(a, b geminio.Stream) {
			m, o := amo(a, "M"), options.Publish()
			limit(m, o)
			noErr("publish", a.Publish(bg(), m, o))
			recv(b)
			settle(time.Second)
		})
	}
	limited("publish", func(ctx context.Context, a geminio.Stream) error { return a.Publish(ctx, cnss(a, "L", false)) })
	limited("async publish", func(ctx context.Context, a geminio.Stream) error {
		p, err := a.PublishAsync(ctx, cnss(a, "L", false), nil)
		if err != nil {
			return err
		}
		return (<-p.Done).Error
	})
	limited("receive", func(ctx context.Context, a geminio.Stream) error { _, err := a.Receive(ctx); return err })
	add("publish the message of another stream", func(a, b geminio.Stream) {
		m := cnss(a, "M", false)
		m.SetStreamID(a.StreamID() + 77)
		fails("publish", a.Publish(bg(), m))
		_, err := a.PublishAsync(bg(), m, nil)
		fails("async publish", err)
		m = cnss(a, "M", false)
		m.SetClientID(a.ClientID() + 77)
		fails("publish", a.Publish(bg(), m))
		_, err = a.PublishAsync(bg(), m, nil)
		fails("async publish", err)
	})
	// calls
	serve := func(b geminio.Stream) {
		noErr("register", b.Register(bg(), "op", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			switch string(req.Data()) {
			case "fail":
				rsp.SetError(errX)
			case "slow":
				time.Sleep(time.Second) // not before the caller's limit
			}
			rsp.SetData(req.Data())
		}))
	}
	async := func(ctx context.Context, a geminio.Stream, method string, req geminio.Request, ch chan *geminio.Call, o ...*options.CallOptions) error {
		c, err := a.CallAsync(ctx, method, req, ch, o...)
		if err != nil {
			return err
		}
		return (<-c.Done).Error
	}
	for _, kind := range []string{"call", "async call", "async call with a channel"} {
		kind := kind
		callM := func(ctx context.Context, a geminio.Stream, method string, req geminio.Request, o ...*options.CallOptions) error {
			switch kind {
			case "call":
				_, err := a.Call(ctx, method, req, o...)
				return err
			case "async call":
				return async(ctx, a, method, req, nil, o...)
			}
			return async(ctx, a, method, req, make(chan *geminio.Call), o...)
		}
		call := func(ctx context.Context, a geminio.Stream, req geminio.Request, o ...*options.CallOptions) error {
			return callM(ctx, a, "op", req, o...)
		}
		add(kind, func(a, b geminio.Stream) { serve(b); noErr("call", call(bg(), a, newReq(a, "ok", ""))) })
		add(kind+" fails", func(a, b geminio.Stream) { serve(b); fails("call", call(bg(), a, newReq(a, "fail", ""))) })
		add(kind+" finds no method", func(a, b geminio.Stream) { fails("call", callM(bg(), a, "nosuch", newReq(a, "ok", ""))) })
		add(kind+" with a timeout in its request", func(a, b geminio.Stream) {
			serve(b)
			r := newReq(a, "slow", "")
			r.SetTimeout(100 * ms)
			fails("call", call(bg(), a, r))
		})
		add(kind+" with a timeout in its options", func(a, b geminio.Stream) {
			serve(b)
			o := options.Call()
			o.SetTimeout(100 * ms)
			fails("call", call(bg(), a, newReq(a, "slow", ""), o))
		})
		add(kind+" hijacked", func(a, b geminio.Stream) {
			o := options.Hijack()
			o.SetMatch(true, "^hi$")
			noErr("hijack", b.Hijack(func(_ context.Context, _ string, _ geminio.Request, rsp geminio.Response) { rsp.SetError(errX) }, o))
			fails("call", callM(bg(), a, "hi", newReq(a, "ok", "")))
		})
		add(kind+" of another stream's request", func(a, b geminio.Stream) {
			r := newReq(a, "ok", "")
			r.SetStreamID(a.StreamID() + 77)
			fails("call", call(bg(), a, r))
			r = newReq(a, "ok", "")
			r.SetClientID(a.ClientID() + 77)
			fails("call", call(bg(), a, r))
		})
		add(kind+" under limits", func(a, b geminio.Stream) {
			serve(b)
			call(cancelledCtx(), a, newReq(a, "slow", ""))
			ctx, cancel := expiredCtx()
			call(ctx, a, newReq(a, "slow", ""))
			cancel()
			ctx, cancel = shortCtx()
			fails("call", call(ctx, a, newReq(a, "slow", "")))
			cancel()
			ctx, cancel = timeoutOrCancel(false)
			fails("call", call(ctx, a, newReq(a, "slow", "")))
			cancel()
		})
	}
	// registration
	add("register under limits", func(a, b geminio.Stream) {
		a.Register(cancelledCtx(), "r", newEcho(a).handle)
		ctx, cancel := expiredCtx()
		a.Register(ctx, "r", newEcho(a).handle)
		cancel()
		ctx, cancel = shortCtx()
		noErr("register", a.Register(ctx, "r", newEcho(a).handle))
		cancel()
	})
	add("register twice", func(a, b geminio.Stream) {
		noErr("register", a.Register(bg(), "r", newEcho(a).handle))
		noErr("register", a.Register(bg(), "r", newEcho(a).handle))
		checkCall(b, "r", "x")
	})
	add("hijack with a pattern which isn't one", func(a, b geminio.Stream) {
		o := options.Hijack()
		o.SetMatch(true, "(")
		fails("hijack", a.Hijack(func(context.Context, string, geminio.Request, geminio.Response) {}, o))
	})
	// bytes
	add("read after its deadline", func(a, b geminio.Stream) {
		a.SetReadDeadline(time.Now().Add(-time.Second))
		_, err := a.Read(make([]byte, 1))
		fails("read", err)
		a.SetReadDeadline(time.Time{})
	})
	add("read times out", func(a, b geminio.Stream) {
		a.SetDeadline(time.Now().Add(100 * ms))
		_, err := a.Read(make([]byte, 1))
		fails("read", err)
		a.SetDeadline(time.Time{})
	})
	add("write after its deadline", func(a, b geminio.Stream) {
		a.SetWriteDeadline(time.Now().Add(-time.Second))
		if _, err := a.Write([]byte("x")); err == nil {
			readFull("read", b, 1)
		}
		a.SetWriteDeadline(time.Time{})
	})
	add("empty reads and writes", func(a, b geminio.Stream) {
		_, err := a.Write(nil)
		noErr("write", err)
		_, err = a.Write([]byte("xy"))
		noErr("write", err)
		b.Read(nil)
		readFull("read", b, 1)
		b.Read(nil)
		readFull("read", b, 1)
	})
	return l
}()

func init() {
	after := func(n int) func() {
		return func() {
			w := connect(nil, nil)
			var a, b geminio.Stream = w.C, w.S
			k := mc.Choose(4, "stream")
			switch k {
			case 1:
				a, b = w.S, w.C
			case 2:
				a, b = openPair(w.C, w.S, "m")
			case 3:
				b, a = openPair(w.S, w.C, "m")
				a, b = b, a
			}
			if n > 1 && k > 1 {
				return
			}
			name := ""
			for i := 0; i < n; i++ {
				op := outcomeOps[mc.Choose(len(outcomeOps), "operation")]
				name += op.name + "; "
				within(20*time.Second, op.name, func() { op.f(a, b) })
				// what the operation left behind is no matter of the next one
				drainNow(a)
				drainNow(b)
			}
			// the stream works as before, both ways
			works("x", a, b)
			works("y", b, a)
			if k > 1 {
				works("z", w.C, w.S)
			}
			// and closes, releasing everybody
			neverAnswers(b)
			pa := startPending("near", a, "read", "receive", "call", "publish", "pubasync", "callasync")
			pb := startPending("far", b, "read", "call")
			settle(100 * ms)
			how := 1 - k%2
			if n == 1 {
				how = mc.Choose(3, "close")
			}
			within(closeLimit, "close after "+name, func() { []geminio.Stream{a, b, a}[how].Close() })
			if how == 2 {
				within(closeLimit, "close after "+name, func() { w.C.Close() })
			}
			pa.g.Wait(closeLimit)
			pb.g.Wait(closeLimit)
			for k, err := range pa.errs {
				want(err != nil, "%s succeeded after %s", k, name)
			}
			settle(100 * ms)
			refuses("after "+name, a, newOps...)
			w.closeBoth()
			settle(2 * time.Hour)
			leaks("after " + name)
		}
	}
	reg("after.one", "every operation in every way it can end, then the stream is used, has everything pending and is closed", winLong, after(1))
	reg("after.two", "every sequence of two operations, each in every way it can end, then the stream is used and closed", winLong, after(2))
}

// drainNow takes what messages and bytes have arrived.
func drainNow(sm geminio.Stream) {
	for {
		ctx, cancel := context.WithTimeout(bg(), 10*ms)
		m, err := sm.Receive(ctx)
		cancel()
		if err != nil {
			break
		}
		m.Done()
	}
}
