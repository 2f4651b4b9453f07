package main

import (
	"fmt"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"gmc/mc"
)

// Values around the sizes of buffers and length fields.
var largeSizes = []int{255, 256, 4095, 4096, 32767, 65535, 65536, 70001, 1<<20 + 3}

func init() {
	blob := func(n int, from byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = from + byte(i%251)
		}
		return b
	}
	text := func(n int) string { return string(pattern(n, 'a')) }
	same := func(what string, got, exp []byte) {
		want(len(got) == len(exp), "%s: %d bytes of %d arrived", what, len(got), len(exp))
		for i := range got {
			if got[i] != exp[i] {
				mc.FailNow("%s: byte %d of %d is %d, was %d", what, i, len(exp), got[i], exp[i])
			}
		}
	}
	big := mc.Config{Window: true, MaxSteps: 1000000}
	reg("large.msg", "large messages arrive unchanged, in order, along with small ones", big, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		n := largeSizes[mc.Choose(len(largeSizes), "size")]
		where := mc.Choose(4, "where")
		mk := func(i int) (data, custom []byte, topic string) {
			data, custom, topic = []byte{byte(i)}, []byte{byte(i + 1)}, fmt.Sprint(i)
			if i%2 == 0 {
				return
			}
			switch where {
			case 0:
				data = blob(n, byte(i))
			case 1:
				custom = blob(n, byte(i))
			case 2:
				topic = text(n)
			case 3:
				data, custom = blob(n, byte(i)), blob(n, byte(i+1))
			}
			return
		}
		mc.ExploreOn()
		g := newGroup()
		g.Go("publish", func() {
			for i := 0; i < 4; i++ {
				d, c, t := mk(i)
				o := options.NewMessage()
				o.SetCustom(c)
				o.SetTopic(t)
				if i < 2 {
					o.SetCnss(options.CnssAtMostOnce)
				}
				noErr("publish", a.Publish(bg(), a.NewMessage(d, o)))
			}
		})
		g.Go("receive", func() {
			for i := 0; i < 4; i++ {
				m := recv(b)
				d, c, t := mk(i)
				same("data", m.Data(), d)
				same("custom", m.Custom(), c)
				same("topic", []byte(m.Topic()), []byte(t))
				noErr("done", m.Done())
			}
		})
		g.Wait(20 * time.Second)
		mc.ExploreOff()
		w.closeBoth()
	})
	reg("large.rpc", "large requests and responses arrive unchanged", big, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		n := largeSizes[mc.Choose(len(largeSizes), "size")]
		where := mc.Choose(6, "where")
		pick := func(k int, from byte) []byte {
			if k == where {
				return blob(n, from)
			}
			return []byte{from}
		}
		method := "m"
		if where == 4 {
			method = text(n)
		}
		noErr("register", b.Register(bg(), method, func(_ ctxT, req geminio.Request, rsp geminio.Response) {
			same("request", req.Data(), pick(0, 1))
			same("request custom", req.Custom(), pick(1, 2))
			want(req.Method() == method, "method of %d bytes, expected %d", len(req.Method()), len(method))
			if where == 5 {
				rsp.SetError(fmt.Errorf("%s", text(n)))
				return
			}
			rsp.SetData(pick(2, 3))
			rsp.SetCustom(pick(3, 4))
		}))
		mc.ExploreOn()
		o := options.NewRequest()
		o.SetCustom(pick(1, 2))
		rsp, err := a.Call(bg(), method, a.NewRequest(pick(0, 1), o))
		if where == 5 {
			want(err != nil && err.Error() == text(n), "an error of %d bytes arrived as %v", n, clip(errStr(err)))
		} else {
			noErr("call", err)
			same("response", rsp.Data(), pick(2, 3))
			same("response custom", rsp.Custom(), pick(3, 4))
		}
		mc.ExploreOff()
		w.closeBoth()
	})
	reg("large.stream", "streams and ends with large metadata and peers", big, func() {
		n := largeSizes[mc.Choose(len(largeSizes), "size")]
		where := mc.Choose(3, "where")
		var co *client.EndOptions
		if where == 2 {
			co = copts(func(o *client.EndOptions) { o.SetMeta(blob(n, 7)) })
		}
		w := connect(co, nil)
		a, b := w.C, w.S
		if mc.Choose(2, "side") == 1 {
			a, b = b, a
		}
		mc.ExploreOn()
		switch where {
		case 2:
			same("meta", w.S.Meta(), blob(n, 7))
			same("meta", w.C.Meta(), blob(n, 7))
			works("w", a, b)
		default:
			o := options.OpenStream()
			meta, peer := []byte("m"), "p"
			if where == 0 {
				meta = blob(n, 9)
			} else {
				peer = text(n)
			}
			o.SetMeta(meta)
			o.SetPeer(peer)
			x, err := a.OpenStream(o)
			noErr("open", err)
			y, err := b.AcceptStream()
			noErr("accept", err)
			same("meta", y.Meta(), meta)
			same("meta", x.Meta(), meta)
			want(x.Peer() == peer && y.Peer() == peer, "peers of %d and %d bytes, expected %d", len(x.Peer()), len(y.Peer()), len(peer))
			works("x", x, y)
		}
		mc.ExploreOff()
		w.closeBoth()
	})
	all := []int{0, 1, 2}
	add := func(property, scenario string) {
		p := mc.Plans()[property]
		p.Runs = append(p.Runs, mc.Run{Scenario: scenario, Policies: all, Quick: 0, Thorough: 0})
	}
	add("C04", "large.msg")
	add("C05", "large.rpc")
	add("C10", "large.stream")
}

// The asynchronous call gives what the call gives, whatever the values.
func init() {
	reg("async.values", "asynchronous calls and publishes with empty, absent and odd values, next to the synchronous ones", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		vals := [][]byte{nil, {}, []byte("x"), []byte("\x00\xff"), make([]byte, 3000)}
		qd := vals[1+mc.Choose(3, "request data")]
		qc := vals[mc.Choose(3, "request custom")]
		pd := vals[mc.Choose(len(vals), "response data")]
		pc := vals[mc.Choose(3, "response custom")]
		fail := []string{"", "failed", "\x00\"<"}[mc.Choose(3, "error")]
		own := mc.Choose(2, "channel") == 1
		noErr("register", b.Register(bg(), "m", func(_ ctxT, req geminio.Request, rsp geminio.Response) {
			eqBytes("request data", req.Data(), qd)
			eqBytes("request custom", req.Custom(), qc)
			rsp.SetData(pd)
			rsp.SetCustom(pc)
			if fail != "" {
				rsp.SetError(fmt.Errorf("%s", fail))
			}
		}))
		mk := func() geminio.Request {
			r := a.NewRequest(qd)
			r.SetCustom(qc)
			return r
		}
		check := func(what string, rsp geminio.Response, err error) {
			if fail != "" {
				want(err != nil && err.Error() == fail, "%s: error %v, the handler's is %q", what, err, fail)
				return
			}
			noErr(what, err)
			want(rsp != nil, "%s: neither a response nor an error", what)
			eqBytes(what+": data", rsp.Data(), pd)
			eqBytes(what+": custom", rsp.Custom(), pc)
		}
		mc.ExploreOn()
		rsp, err := a.Call(bg(), "m", mk())
		check("call", rsp, err)
		var ch chan *geminio.Call
		if own {
			ch = make(chan *geminio.Call, 1)
		}
		q := mk()
		c, err := a.CallAsync(bg(), "m", q, ch)
		noErr("call async", err)
		want(!own || c.Done == ch, "the call has another channel")
		d := <-c.Done
		want(d == c && d.Request == q && d.Method == "m", "the channel gave call %+v", d)
		if c.Error != nil {
			check("call async", nil, c.Error)
		} else {
			check("call async", c.Response, nil)
		}
		mc.ExploreOff()
		w.closeBoth()
	})
	p := mc.Plans()["C06"]
	p.Runs = append(p.Runs, mc.Run{Scenario: "async.values", Policies: []int{0, 1}, Quick: 0, Thorough: 0})
}
