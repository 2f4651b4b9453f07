package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"time"

	"github.com/singchia/geminio"
	"gmc/mc"
)

func init() {
	reg("dl.meet", "a deadline is set, moved or removed in the very moment in which an operation starts", win, func() {
		w := connect(nil, nil)
		kind := mc.Choose(4, "stream")
		a, b := pair(w, kind)
		write := mc.Choose(2, "write") == 1
		var thaw func()
		full := 0
		if write {
			thaw = backpressure(w, kind)
			for {
				noErr("set", a.SetWriteDeadline(time.Now().Add(50*ms)))
				if _, err := a.Write([]byte("f")); err != nil {
					break
				}
				full++
				want(full < 2000, "no end of room")
			}
			noErr("set", a.SetWriteDeadline(time.Time{}))
		}
		// the deadlines before and after, in ms from now; 0 is none
		from := []int{0, 100, -1000}[mc.Choose(3, "from")]
		to := []int{-1000, 50, 0}[mc.Choose(3, "to")]
		both := mc.Choose(2, "both") == 1
		at := func(d int) time.Time {
			if d == 0 {
				return time.Time{}
			}
			return time.Now().Add(time.Duration(d) * ms)
		}
		setd := func(d int) {
			switch {
			case both:
				noErr("set", a.SetDeadline(at(d)))
			case write:
				noErr("set", a.SetWriteDeadline(at(d)))
			default:
				noErr("set", a.SetReadDeadline(at(d)))
			}
		}
		if from != 0 {
			setd(from)
		}
		start := time.Now()
		mc.ExploreOn()
		g := newGroup()
		done := false
		var err error
		var took time.Duration
		g.Go("operation", func() {
			if write {
				_, err = a.Write([]byte("w"))
			} else {
				_, err = a.Read(make([]byte, 1))
			}
			took, done = time.Since(start), true
		})
		g.Go("setter", func() { setd(to) })
		settle(40 * ms)
		mc.ExploreOff()
		early := done
		settle(160 * ms)
		if done {
			want(errors.Is(err, os.ErrDeadlineExceeded), "the operation returned %v", err)
		}
		switch {
		case to < 0:
			want(early, "the operation goes on though its deadline is past")
		case to > 0:
			want(done, "the operation goes on though its deadline passed long ago")
			want(from < 0 || took >= 50*ms && took <= 50*ms+gran, "the deadline was at 50 ms, the operation returned after %v", took)
		case from >= 0:
			want(!done, "the operation returned after %v with %v though there is no deadline", took, err)
		}
		mc.Outcome(fmt.Sprint(write, from, to, early, done))
		if write {
			thaw()
		} else {
			mustWrite("peer write", b, []byte("rr"))
		}
		g.Wait(5 * time.Second)
		noErr("set", a.SetDeadline(time.Time{}))
		mustWrite("later", a, []byte("x"))
		if write {
			n := full + 1
			if err == nil {
				n++
			}
			readFull("what was accepted", b, n)
		} else {
			if err == nil {
				readFull("the rest", a, 1)
			} else {
				readFull("the rest", a, 2)
			}
			readFull("later", b, 1)
		}
	})
	addTo("C09", "dl.meet", []int{0, 1}, 1, 2)
	addTo("C09", "dl.meet", []int{2}, 0, 1)
}

func init() {
	for _, side := range []string{"client", "server"} {
		side := side
		reg("lay.closehb."+side, "a connection without an end is closed while a heartbeat or its acknowledgement is under way and what was accepted waits for the network", win, func() {
			l := layer([]int{32, 1}[mc.Choose(2, "buffers")], nil, nil)
			me, other, from := l.conns()[0], l.conns()[1], l.cpf
			tx, rx := l.CA, l.SB
			if side == "server" {
				me, other, from, tx, rx = other, me, l.spf, rx, tx
			}
			n := []int{1, 3, 40}[mc.Choose(3, "packets")]
			readers := newGroup()
			got := 0
			readers.Go("reader", func() {
				drainConn(other, false, func(v string) {
					want(v == fmt.Sprint(got), "got %s as number %d", v, got)
					got++
				})
			})
			readers.Go("reader of the closing side", func() { drainConn(me, false, func(string) {}) })
			// what the other side says is not read before the close
			settle(19990 * ms)
			switch mc.Choose(3, "holding") {
			case 0:
				tx.Freeze(true)
			case 1:
				tx.Freeze(true)
				rx.Freeze(true)
			}
			settle([]time.Duration{0, 10 * ms, 20 * ms}[mc.Choose(3, "moment")])
			tx.SetCap(64)
			mc.ExploreOn()
			g := newGroup()
			full := mc.Choose(2, "reader stops") == 1
			if full {
				rx.Freeze(true)
			}
			g.Go("writer", func() {
				for i := 0; i < n; i++ {
					noErr("write", me.Write(says(from, fmt.Sprint(i))))
				}
				me.Close()
			})
			settle(20 * ms)
			tx.Freeze(false)
			settle(20 * ms)
			rx.Freeze(false)
			g.Wait(closeLimit)
			readers.Wait(closeLimit)
			mc.ExploreOff()
			want(got == n, "%d packets were accepted before the close, %d arrived", n, got)
			l.gone("after the end")
		})
		addTo("C24", "lay.closehb."+side, []int{0, 1, 2}, 0, 1)
	}
}

func init() {
	reg("late.far", "operations whose contexts end in the far future work as any other, and so does what follows", win, func() {
		w := connect(nil, nil)
		kind := mc.Choose(4, "stream")
		a, b := pair(w, kind)
		noErr("register", b.Register(bg(), "echo", func(_ ctxT, r geminio.Request, rsp geminio.Response) { rsp.SetData(r.Data()) }))
		ackAll(b)
		end := []time.Time{
			time.Now().Add(100 * 365 * 24 * time.Hour),
			time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
			time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC),
			time.Unix(1<<55, 0),
		}[mc.Choose(4, "deadline")]
		op := mc.Choose(5, "operation")
		mc.ExploreOn()
		within(5*time.Second, "operation", func() {
			ctx, cancel := context.WithDeadline(bg(), end)
			defer cancel()
			switch op {
			case 0:
				rsp, err := a.Call(ctx, "echo", newReq(a, "X", ""))
				noErr("call", err)
				want(len(rsp.Data()) > 0, "call: no data")
			case 1:
				c, err := a.CallAsync(ctx, "echo", newReq(a, "X", ""), nil)
				noErr("call async", err)
				c = <-c.Done
				noErr("call async", c.Error)
			case 2:
				noErr("publish", a.Publish(ctx, cnss(a, "P", false)))
			case 3:
				p, err := a.PublishAsync(ctx, cnss(a, "P", false), nil)
				noErr("publish async", err)
				p = <-p.Done
				noErr("publish async", p.Error)
			case 4:
				noErr("register", a.Register(ctx, "m", func(ctxT, geminio.Request, geminio.Response) {}))
			}
		})
		mc.ExploreOff()
		for i := 0; i < 2; i++ {
			_, err := a.Call(bg(), "echo", newReq(a, "Y", ""))
			noErr("a later call", err)
		}
		w.closeBoth()
	})
	addTo("C07", "late.far", []int{0, 1, 2}, 0, 1)
}
