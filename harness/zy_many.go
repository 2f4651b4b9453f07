package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
	"gmc/mc"
	"gmc/vnet"
)

// The scenarios of this file do one thing more often than any queue on the way
// is long.

func init() {
	all := []int{0, 1, 2}
	reg("many.publish", "more publishes than fit in the queues, while the network is stalled or the receiver late: each arrives once, in order", win, func() {
		w := connect(nil, nil)
		kind := mc.Choose(4, "stream")
		a, b := pair(w, kind)
		// 0 asynchronous, 1 at most once, 2 mixed, 3 asynchronous at most once, 4 both at most once
		amo := mc.Choose(5, "kind")
		const n = 300
		var thaw func()
		late := mc.Choose(2, "late") == 1
		if !late {
			thaw = backpressure(w, kind)
		}
		g := newGroup()
		g.Go("publisher", func() {
			ch := make(chan *geminio.Publish, n)
			m := 0
			for i := 0; i < n; i++ {
				d := fmt.Sprint("P", i)
				if amo == 1 || (amo == 2 || amo == 4) && i%2 == 0 {
					noErr("publish", a.Publish(bg(), cnss(a, d, true)))
				} else if amo >= 3 {
					_, err := a.PublishAsync(bg(), cnss(a, d, true), nil)
					noErr("publish", err)
				} else {
					_, err := a.PublishAsync(bg(), cnss(a, d, false), ch)
					noErr("publish", err)
					m++
				}
			}
			for ; m > 0; m-- {
				p := <-ch
				noErr("acknowledged publish", p.Error)
			}
		})
		settle(time.Second)
		mc.ExploreOn()
		if thaw != nil {
			thaw()
		} else {
			settle(15 * time.Second) // heartbeats are held up, too: less than two intervals
		}
		g.Go("receiver", func() {
			for i := 0; i < n; i++ {
				m := recv(b)
				checkMsg(b, m, fmt.Sprint("P", i))
				if amo == 0 || amo == 2 && i%2 == 1 {
					noErr("done", m.Done())
				}
			}
		})
		g.Wait(100 * time.Second)
		mc.ExploreOff()
		ctx, cancel := context.WithTimeout(bg(), time.Second)
		m, err := b.Receive(ctx)
		want(err != nil, "an extra message was received: %v", m)
		cancel()
	})
	addTo("C04", "many.publish", all, 0, 0)
	addTo("C03", "many.publish", all, 0, 0)

	reg("many.call", "many calls run at once; each handler runs until it is told, undisturbed, and each caller gets its own answer", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		async := mc.Choose(2, "async") == 1
		order := mc.Choose(3, "order")
		const n = 80
		running, ended := 0, 0
		goOn := make([]chan bool, n)
		for i := range goOn {
			goOn[i] = make(chan bool)
		}
		noErr("register", b.Register(bg(), "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			running++
			var i int
			fmt.Sscanf(string(req.Data()), "C%d", &i)
			select {
			case <-goOn[i]:
			case <-ctx.Done():
				ended++
				return
			}
			rsp.SetData([]byte("re-" + string(req.Data())))
		}))
		mc.ExploreOn()
		g := newGroup()
		for i := 0; i < n; i++ {
			d := fmt.Sprint("C", i)
			g.Go("call "+d, func() {
				var rsp geminio.Response
				var err error
				if async {
					c, aerr := a.CallAsync(bg(), "m", newReq(a, d, ""), nil)
					noErr("call", aerr)
					c = <-c.Done
					rsp, err = c.Response, c.Error
				} else {
					rsp, err = a.Call(bg(), "m", newReq(a, d, ""))
				}
				noErr("call "+d, err)
				eqBytes("response", rsp.Data(), []byte("re-"+d))
			})
		}
		settle(time.Second)
		want(running == n && ended == 0, "%d of %d handlers are running, %d saw their context end", running, n, ended)
		for k := 0; k < n; k++ {
			i := k
			if order == 1 {
				i = n - 1 - k
			} else if order == 2 {
				i = k * 7 % n
			}
			close(goOn[i])
		}
		g.Wait(5 * time.Second)
		mc.ExploreOff()
		want(running == n && ended == 0, "%d handler runs for %d calls, %d saw their context end", running, n, ended)
	})
	addTo("C05", "many.call", all, 0, 0)

	for _, side := range []int{0, 1} {
		side := side
		reg(fmt.Sprint("many.open.", side), "more streams are opened than wait to be accepted by then; each is accepted once and works", win, func() {
			w := connect(nil, nil)
			ends := []geminio.End{w.C, w.S}
			o, a := ends[side], ends[1-side]
			const n = 70
			conc := mc.Choose(2, "concurrent") == 1
			mc.ExploreOn()
			g := newGroup()
			os, as := map[string]geminio.Stream{}, map[string]geminio.Stream{}
			openOne := func(i int) {
				m := fmt.Sprint("m", i)
				s, err := openStream(o, m, "")
				noErr("open", err)
				os[m] = s
				mustWrite("write", s, []byte("A"))
			}
			if conc {
				for i := 0; i < n; i++ {
					g.Go(fmt.Sprint("open ", i), func() { openOne(i) })
				}
			} else {
				g.Go("open", func() {
					for i := 0; i < n; i++ {
						openOne(i)
					}
				})
			}
			settle(5 * time.Second)
			// what is not accepted does not hold up the others
			within(5*time.Second, "the default stream", func() {
				if len(os) == n {
					works("default stream", o, a)
				}
			})
			g.Go("accept", func() {
				for i := 0; i < n; i++ {
					s, err := a.AcceptStream()
					noErr("accept", err)
					m := string(s.Meta())
					want(as[m] == nil, "stream %s was accepted twice", m)
					want(conc || m == fmt.Sprint("m", i), "accept %d gave stream %s", i, m)
					as[m] = s
					eqBytes("read", readFull("read", s, 1), []byte("A"))
				}
			})
			g.Wait(40 * time.Second)
			mc.ExploreOff()
			want(len(o.ListStreams()) == n+1 && len(a.ListStreams()) == n+1, "%d and %d streams are listed", len(o.ListStreams()), len(a.ListStreams()))
			for m, s := range os {
				want(as[m] != nil && as[m].StreamID() == s.StreamID(), "stream %s was not accepted", m)
			}
			within(closeLimit, "close", func() { w.closeBoth() })
		})
		addTo("C20", fmt.Sprint("many.open.", side), all, 0, 0)
	}

	// an error is an error whatever its text
	reg("text.error", "failures with unusual texts: empty, long, not UTF-8, looking like success", win, func() {
		texts := []string{"", " ", "EOF", "ok", "null", "a\x00b\xff", string(pattern(3000, 'a')), "{\"error\":\"\"}"}
		text := texts[mc.Choose(len(texts), "text")]
		what := mc.Choose(4, "what")
		same := func(err error) {
			want(err != nil, "a failure with the text %q was reported as success", text)
			// the text travels as JSON
			want(text == "" || err.Error() == strings.ToValidUTF8(text, "\uFFFD"), "a failure with the text %q was reported as %q", text, err)
		}
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		g := newGroup()
		noErr("register", b.Register(bg(), "m", func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			rsp.SetData([]byte("data"))
			rsp.SetError(errors.New(text))
		}))
		switch what {
		case 0:
			g.Go("publisher", func() { same(a.Publish(bg(), cnss(a, "A", false))) })
		case 1:
			g.Go("publisher", func() {
				p, err := a.PublishAsync(bg(), cnss(a, "A", false), nil)
				noErr("publish", err)
				same((<-p.Done).Error)
			})
		case 2:
			g.Go("caller", func() {
				_, err := a.Call(bg(), "m", newReq(a, "A", ""))
				same(err)
			})
		case 3:
			g.Go("caller", func() {
				c, err := a.CallAsync(bg(), "m", newReq(a, "A", ""), nil)
				noErr("call", err)
				same((<-c.Done).Error)
			})
		}
		if what < 2 {
			g.Go("receiver", func() { noErr("error", recv(b).Error(errors.New(text))) })
		}
		g.Wait(5 * time.Second)
	})
	addTo("C03", "text.error", all[:1], 0, 0)
	addTo("C05", "text.error", all[:1], 0, 0)
	addTo("C06", "text.error", all[:1], 0, 0)
	reg("text.refuse", "a delegate refuses a client with an unusual text", win, func() {
		texts := []string{"", " ", "EOF", "ok", "null", "a\x00b\xff", string(pattern(3000, 'a'))}
		text := texts[mc.Choose(len(texts), "text")]
		id := mc.Choose(2, "for its ID") == 1
		sr := &recorder{who: "server"}
		if id {
			sr.clientID = func(uint64, []byte) (uint64, error) { return 0, errors.New(text) }
		} else {
			sr.refuseConn = errors.New(text)
		}
		ca, sb := vnet.Pair()
		g := newGroup()
		g.Go("server", func() {
			_, err := server.NewEndWithConn(sb, sopts(func(o *server.EndOptions) { o.SetDelegate(&srvDlgt{sr}) }))
			want(err != nil, "the server got an end for a client it refused")
		})
		g.Go("client", func() {
			_, err := client.NewEndWithConn(ca, copts())
			want(err != nil, "the client got an end though it was refused with the text %q", text)
		})
		g.Wait(hsLimit)
	})
	addTo("C13", "text.refuse", all, 0, 1)

	reg("dl.writers", "several writes block; one deadline ends them all, a later one lets them through", winEarly, func() {
		w := connect(nil, nil)
		kind := mc.Choose(4, "stream")
		a, b := pair(w, kind)
		thaw := backpressure(w, kind)
		full := 0
		for {
			noErr("set", a.SetWriteDeadline(time.Now().Add(100*ms)))
			if _, err := a.Write([]byte("f")); err != nil {
				break
			}
			full++
			want(full < 2000, "no end of room")
		}
		noErr("set", a.SetWriteDeadline(time.Time{}))
		both := mc.Choose(2, "both") == 1
		past := mc.Choose(2, "past") == 1
		start := time.Now()
		mc.ExploreOn()
		g := newGroup()
		for i := 0; i < 3; i++ {
			g.Go(fmt.Sprint("writer ", i), func() {
				k, err := a.Write([]byte("w"))
				want(k == 0 && errors.Is(err, os.ErrDeadlineExceeded), "blocked write: %d, %v", k, err)
				want(time.Since(start) <= 150*ms, "a blocked write returned %v after the deadline was set to 100 ms", time.Since(start))
			})
		}
		settle(50 * ms)
		d := time.Now().Add(50 * ms)
		if past {
			d = time.Now().Add(-time.Second)
		}
		if both {
			noErr("set", a.SetDeadline(d))
		} else {
			noErr("set", a.SetWriteDeadline(d))
		}
		g.Wait(5 * time.Second)
		noErr("set", a.SetDeadline(time.Time{}))
		g = newGroup()
		for i := 0; i < 3; i++ {
			g.Go(fmt.Sprint("writer ", i), func() { mustWrite("write", a, []byte("x")) })
		}
		g.Go("reader", func() {
			settle(100 * ms)
			thaw()
			readFull("what had been accepted", b, full)
			eqBytes("what was accepted later", readFull("read", b, 3), []byte("xxx"))
		})
		g.Wait(10 * time.Second)
	})
	addTo("C09", "dl.writers", []int{0, 1, 2}, 0, 1)
}

func addTo(property, scenario string, pols []int, q, t int) {
	p := mc.Plans()[property]
	p.Runs = append(p.Runs, mc.Run{Scenario: scenario, Policies: pols, Quick: q, Thorough: t})
}

// backpressure stops what b of a pair reads until the result is called.
func backpressure(w *W, kind int) func() {
	tx, rx := w.CA, w.SB
	if kind%2 == 1 {
		tx, rx = w.SB, w.CA
	}
	tx.SetCap(64)
	rx.Freeze(true)
	return func() { rx.Freeze(false) }
}
