package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/singchia/geminio"
	"gmc/mc"
)

// pair gives the two ends of a stream: 0 client's default stream, 1 server's
// default stream, 2 opened by the client, 3 opened by the server.
func pair(w *W, kind int) (geminio.Stream, geminio.Stream) {
	switch kind {
	case 0:
		return w.C, w.S
	case 1:
		return w.S, w.C
	case 2:
		return openPair(w.C, w.S, "m")
	default:
		return openPair(w.S, w.C, "m")
	}
}

// readAll reads to the end of file with buffers of the given size.
func readAll(what string, r io.Reader, size int) []byte {
	var got []byte
	for {
		b := bytes.Repeat([]byte{'#'}, size+2)
		n, err := r.Read(b[:size])
		want(n >= 0 && n <= size, "%s: read returned %d for a buffer of %d", what, n, size)
		want(b[size] == '#' && b[size+1] == '#', "%s: read wrote beyond its buffer", what)
		want(n > 0 || err != nil, "%s: read returned 0 bytes and no error", what)
		got = append(got, b[:n]...)
		if err != nil {
			want(err == io.EOF, "%s: read ended with %v", what, err)
			return got
		}
	}
}

func pattern(n int, from byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = from + byte(i%26)
	}
	return b
}

func mustWrite(what string, w io.Writer, b []byte) {
	n, err := w.Write(b)
	noErr(what, err)
	want(n == len(b), "%s: wrote %d of %d", what, n, len(b))
}

func init() {
	reg("raw.sizes", "every sequence of three write sizes and three read sizes", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		sizes := []int{1, 2, 5, 0}
		bufs := []int{1, 2, 3, 8}
		var sent []byte
		var ws [3]int
		for i := range ws {
			ws[i] = sizes[mc.Choose(4, "write")]
		}
		var rs [3]int
		for i := range rs {
			rs[i] = bufs[mc.Choose(len(bufs), "buffer")]
		}
		mc.GoNamed("writer", func() {
			buf := make([]byte, 8)
			next := byte('a')
			for _, n := range ws {
				for i := 0; i < n; i++ {
					buf[i] = next
					sent = append(sent, next)
					next++
				}
				mustWrite("write", a, buf[:n])
				for i := range buf { // the caller may reuse its buffer
					buf[i] = '!'
				}
			}
		})
		total := ws[0] + ws[1] + ws[2]
		var got []byte
		within(5*time.Second, "reader", func() {
			for i := 0; len(got) < total; i++ {
				size := rs[i%3]
				buf := bytes.Repeat([]byte{'#'}, size+1)
				n, err := b.Read(buf[:size])
				noErr("read", err)
				want(n >= 1 && n <= size, "read returned %d for a buffer of %d", n, size)
				want(buf[size] == '#', "read wrote beyond its buffer")
				got = append(got, buf[:n]...)
			}
		})
		eqBytes("bytes read", got, sent)
		b.SetReadDeadline(time.Now().Add(100 * ms))
		n, err := b.Read(make([]byte, 4))
		want(n == 0 && isTimeout(err), "read after everything: %d %v", n, err)
	})
	for kind := 0; kind < 4; kind++ {
		kind := kind
		reg(fmt.Sprintf("raw.duplex.%d", kind), "both sides write and read at once, with messages and calls between the bytes", win, func() {
			w := connect(nil, nil)
			a, b := pair(w, kind)
			e := newEcho(b)
			noErr("register", b.Register(bg(), "echo", e.handle))
			mc.ExploreOn()
			g := newGroup()
			g.Go("a writes", func() {
				mustWrite("write", a, []byte("abc"))
				mustWrite("write", a, []byte("d"))
				mustWrite("write", a, []byte("ef"))
			})
			g.Go("b writes", func() {
				mustWrite("write", b, []byte("12"))
				mustWrite("write", b, []byte("345"))
			})
			g.Go("b reads", func() {
				eqBytes("first", readFull("b", b, 2), []byte("ab"))
				eqBytes("rest", readFull("b", b, 4), []byte("cdef"))
			})
			g.Go("a reads", func() { eqBytes("all", readFull("a", a, 5), []byte("12345")) })
			g.Go("call", func() { checkCall(a, "echo", "X") })
			g.Wait(5 * time.Second)
		})
	}
	reg("raw.writers", "two writers on one stream", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(2, "stream")*2)
		mc.ExploreOn()
		g := newGroup()
		g.Go("writer 1", func() { mustWrite("write", a, []byte("abc")); mustWrite("write", a, []byte("de")) })
		g.Go("writer 2", func() { mustWrite("write", a, []byte("123")); mustWrite("write", a, []byte("45")) })
		g.Go("reader", func() {
			got := readFull("read", b, 10)
			var l, d []byte
			for _, c := range got {
				if c >= 'a' {
					l = append(l, c)
				} else {
					d = append(d, c)
				}
			}
			eqBytes("writer 1", l, []byte("abcde"))
			eqBytes("writer 2", d, []byte("12345"))
			want(bytes.Contains(got, []byte("abc")) && bytes.Contains(got, []byte("123")), "one write was torn apart: %s", got)
			mc.Outcome("%s", got)
		})
		g.Wait(5 * time.Second)
	})
	reg("raw.readers", "two readers on one stream share the bytes", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(2, "stream")*2)
		mc.ExploreOn()
		var got [2][]byte
		g := newGroup()
		g.Go("writer", func() { mustWrite("write", a, []byte("abcd")); mustWrite("write", a, []byte("ef")) })
		for i := range got {
			i := i
			g.Go(fmt.Sprintf("reader %d", i), func() { got[i] = readFull("read", b, 3) })
		}
		g.Wait(5 * time.Second)
		seen := map[byte]int{}
		for _, r := range got {
			for i, c := range r {
				seen[c]++
				want(i == 0 || c > r[i-1], "reader got %s", r)
			}
		}
		for _, c := range []byte("abcdef") {
			want(seen[c] == 1, "byte %c was read %d times (%s, %s)", c, seen[c], got[0], got[1])
		}
		mc.Outcome("%s %s", got[0], got[1])
	})
	for _, what := range []string{"stream", "end"} {
		what := what
		for _, late := range []bool{false, true} {
			late := late
			name := "raw.close." + what
			if late {
				name += ".late"
			}
			reg(name, "the writer closes right after writing; the reader still gets every byte before the end", win, func() {
				w := connect(nil, nil)
				var a, b geminio.Stream
				k := mc.Choose(2, "side")
				if what == "stream" {
					a, b = pair(w, 2+k)
				} else {
					a, b = pair(w, k)
				}
				n := 1 + mc.Choose(3, "writes")
				mc.ExploreOn()
				g := newGroup()
				var sent []byte
				g.Go("writer", func() {
					for i := 0; i < n; i++ {
						p := pattern(i+1, byte('a'+3*i))
						sent = append(sent, p...)
						mustWrite("write", a, p)
					}
					noErr("close", a.Close())
				})
				g.Go("reader", func() {
					if late {
						time.Sleep(30 * time.Second)
					}
					got := readAll("read", b, 2)
					eqBytes("bytes before end of file", got, sent)
					m, err := b.Read(make([]byte, 2))
					want(m == 0 && err == io.EOF, "read after end of file: %d %v", m, err)
				})
				g.Wait(65 * time.Second)
			})
		}
	}
	reg("raw.slow", "more writes than every queue holds, read late", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		closing := mc.Choose(2, "close") == 1
		if mc.Choose(2, "small") == 1 {
			w.CA.SetCap(64)
			w.SB.SetCap(64)
		}
		const n = 300
		g := newGroup()
		g.Go("writer", func() {
			for i := 0; i < n; i++ {
				mustWrite("write", a, []byte{byte(i), byte(i >> 8)})
			}
			if closing {
				noErr("close", a.Close())
			}
		})
		g.Go("reader", func() {
			time.Sleep(2 * time.Second) // everything is full by now
			for i := 0; i < n; i++ {
				p := readFull("read", b, 2)
				want(int(p[0])|int(p[1])<<8 == i, "byte pair %d is %v", i, p)
			}
			if closing {
				_, err := b.Read(make([]byte, 1))
				want(err == io.EOF, "read after the last byte: %v", err)
			}
		})
		g.Wait(60 * time.Second)
	})
	reg("raw.close.one", "one byte is written and the stream is closed at once; the reader gets it before the end", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, 2)
		mc.ExploreOn()
		mustWrite("write", a, []byte("x"))
		noErr("close", a.Close())
		got := readAll("read", b, 2)
		eqBytes("bytes before end of file", got, []byte("x"))
	})
	reg("raw.closefull", "the network stalls, writes with a deadline fill every queue, the writer closes: the reader gets exactly the bytes which were accepted", win, func() {
		co, so := copts(), sopts()
		if mc.Choose(2, "buffers") == 1 {
			co.SetBufferSize(1, 1)
			so.SetBufferSize(1, 1)
		}
		w := connect(co, so)
		side := mc.Choose(4, "stream")
		a, b := pair(w, side)
		tx, rx := w.CA, w.SB
		if side%2 == 1 {
			tx, rx = w.SB, w.CA
		}
		size := []int{1, 100}[mc.Choose(2, "size")]
		tx.SetCap(64)
		rx.Freeze(true)
		n := 0
		for {
			noErr("deadline", a.SetWriteDeadline(time.Now().Add(100*ms)))
			k, err := a.Write(pattern(size, byte(n)))
			if err != nil {
				want(errors.Is(err, os.ErrDeadlineExceeded) && k == 0, "write on a stalled network: %d, %v", k, err)
				break
			}
			n++
			want(n < 2000, "no limit to the bytes which are accepted")
		}
		noErr("deadline", a.SetWriteDeadline(time.Time{}))
		how := mc.Choose(3, "then")
		slow := mc.Choose(2, "slow") == 1
		mc.ExploreOn()
		g := newGroup()
		g.Go("writer", func() {
			if how == 1 {
				mustWrite("write", a, pattern(size, byte(n)))
			}
			noErr("close", a.Close())
		})
		g.Go("reader", func() {
			if how != 2 {
				time.Sleep(time.Second)
			}
			if slow {
				rx.SetPace(64, ms)
			}
			rx.Freeze(false)
			m := n
			if how == 1 {
				m++
			}
			for i := 0; i < m; i++ {
				eqBytes(fmt.Sprintf("write %d of %d", i, m), readFull("read", b, size), pattern(size, byte(i)))
			}
			_, err := b.Read(make([]byte, 1))
			want(err == io.EOF, "read after the last byte: %v", err)
		})
		g.Wait(60 * time.Second)
		mc.Outcome("%d", n)
	})
	reg("raw.large", "writes larger than any buffer on the way, arbitrary fragmentation", win, func() {
		co, so := copts(), sopts()
		if mc.Choose(2, "buffers") == 1 {
			co.SetBufferSize(16, 16)
			so.SetBufferSize(16, 16)
		}
		w := connect(co, so)
		frag := []int{0, 1, 7, 4096}[mc.Choose(4, "fragment")]
		if frag > 0 {
			w.CA.SetMaxRead(frag)
			w.SB.SetMaxRead(frag)
		}
		a, b := pair(w, mc.Choose(2, "stream"))
		sizes := []int{1, 100, 4095, 4096, 4097, 70000}
		if frag == 1 {
			sizes = sizes[:3]
		}
		size := sizes[mc.Choose(len(sizes), "size")]
		p := pattern(size, 'a')
		p2 := pattern(3, 'x')
		g := newGroup()
		g.Go("writer", func() { mustWrite("write", a, p); mustWrite("write", a, p2) })
		g.Go("reader", func() {
			eqBytes("large write", readFull("read", b, size), p)
			eqBytes("next write", readFull("read", b, 3), p2)
		})
		g.Wait(20 * time.Second)
	})
	reg("raw.cut", "the connection breaks after every byte; the reader gets a prefix", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(2, "stream"))
		k := mc.Choose(70, "cut")
		ca := w.CA
		if a == geminio.Stream(w.S) {
			ca = w.SB
		}
		ca.CutWriteAt(ca.Written()+k+1, mc.Choose(2, "eof") == 1)
		var sent []byte
		g := newGroup()
		g.Go("writer", func() {
			for i := 0; i < 3; i++ {
				p := pattern(i+1, byte('a'+3*i))
				n, err := a.Write(p)
				sent = append(sent, p[:n]...)
				if err != nil {
					return
				}
				time.Sleep(ms)
			}
		})
		g.Go("reader", func() {
			got := readAll("read", b, 2)
			want(bytes.HasPrefix(sent, got), "read %q, written %q", got, sent)
			mc.Outcome("%d %s", k, got)
		})
		g.Go("breaker", func() { time.Sleep(time.Second); ca.Kill(false) })
		g.Wait(70 * time.Second)
	})
	mc.RegisterPlan(&mc.Plan{Property: "C08", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "raw.sizes", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "raw.bidi", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "raw.close.one", Policies: []int{0}, Quick: 2, Thorough: 2},
		{Scenario: "raw.close.one", Policies: []int{1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "raw.closefull", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 1},
		{Scenario: "raw.slow", Policies: []int{0, 1, 2}, Quick: 0, Thorough: 0},
		{Scenario: "raw.large", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "raw.cut", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "raw.duplex.0", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "raw.duplex.1", Policies: []int{0}, Quick: 1, Thorough: 2},
		{Scenario: "raw.duplex.2", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "raw.duplex.3", Policies: []int{0}, Quick: 1, Thorough: 2},
		{Scenario: "raw.writers", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "raw.readers", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "raw.close.stream", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "raw.close.end", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "raw.close.stream.late", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "raw.close.end.late", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
	}})

	// ---- C09
	type step struct {
		name string
		at   time.Duration // relative to the moment it is set
		zero bool
	}
	steps := []step{{"past", -time.Second, false}, {"now", 0, false}, {"100ms", 100 * ms, false}, {"250ms", 250 * ms, false}, {"zero", 0, true}}
	set := func(sm geminio.Stream, write, both bool, s step) {
		t := time.Time{}
		if !s.zero {
			t = time.Now().Add(s.at)
		}
		var err error
		switch {
		case both:
			err = sm.SetDeadline(t)
		case write:
			err = sm.SetWriteDeadline(t)
		default:
			err = sm.SetReadDeadline(t)
		}
		noErr("set deadline "+s.name, err)
	}
	// expect computes when an operation started at 0 that becomes possible at
	// ready (<0: never) returns, given deadlines set at 0 (before it), 70ms
	// and 140ms; -1 means never.
	expect := func(h []step, ready time.Duration) (at time.Duration, timeout bool) {
		var dl time.Duration
		has := false
		when := []time.Duration{0, 70 * ms, 140 * ms}
		for i := range h {
			until := time.Duration(1 << 60)
			if i+1 < len(h) {
				until = when[i+1]
			}
			has = !h[i].zero
			dl = when[i] + h[i].at
			fire := dl
			if fire < when[i] {
				fire = when[i]
			}
			if ready >= 0 && ready < until && (!has || ready <= fire) {
				return ready, false
			}
			if has && fire < until {
				return fire, true
			}
		}
		return -1, false
	}
	history := func(write bool) func() {
		return func() {
			w := connect(nil, nil)
			a, b := pair(w, mc.Choose(2, "stream"))
			both := mc.Choose(2, "both") == 1
			n := 1 + mc.Choose(3, "settings")
			h := make([]step, n)
			for i := range h {
				h[i] = steps[mc.Choose(len(steps), "step")]
			}
			ready := []time.Duration{-1, 30 * ms, 110 * ms, 200 * ms}[mc.Choose(4, "ready")]
			peer := w.SB
			if a == geminio.Stream(w.S) {
				peer = w.CA
			}
			var unstall func()
			if write { // fill every queue
				unstall = stallReads(w, peer)
				a.SetWriteDeadline(time.Now().Add(50 * ms))
				for i := 0; ; i++ {
					if _, err := a.Write([]byte("0123456789")); err != nil {
						want(isTimeout(err), "write to a stalled peer: %v", err)
						break
					}
					want(i < 2000, "writes to a stalled peer never block")
				}
			}
			start := time.Now()
			set(a, write, both, h[0])
			type res struct {
				err error
				at  time.Duration
			}
			out := make(chan res, 1)
			mc.GoNamed("operation", func() {
				var err error
				if write {
					_, err = a.Write([]byte("W"))
				} else {
					_, err = a.Read(make([]byte, 4))
				}
				out <- res{err, time.Since(start)}
			})
			if ready >= 0 {
				mc.GoNamed("peer", func() {
					time.Sleep(ready)
					if write {
						unstall()
					} else {
						mustWrite("peer write", b, []byte("R"))
					}
				})
			}
			for i := 1; i < n; i++ {
				time.Sleep(70 * ms)
				set(a, write, both, h[i])
			}
			exp, timeout := expect(h, ready)
			if write && ready >= 0 {
				// room appears at the same instant
			}
			t := time.NewTimer(time.Second)
			select {
			case r := <-out:
				t.Stop()
				want(exp >= 0, "operation returned %v after %v though no deadline passed and nothing arrived", r.err, r.at)
				want(r.at >= exp && r.at <= exp+gran, "operation returned %v after %v, expected after %v (%v)", errStr(r.err), r.at, exp, h)
				if timeout {
					want(errors.Is(r.err, os.ErrDeadlineExceeded), "deadline passed, operation returned %v", r.err)
				} else {
					noErr("operation in time", r.err)
				}
				mc.Outcome("%v %v %v", exp, timeout, errStr(r.err))
			case <-t.C:
				want(exp < 0, "operation still blocked, expected to return after %v (%v)", exp, h)
				mc.Outcome("blocked")
			}
			// usable again once the deadline is removed
			set(a, write, both, steps[4])
			if write {
				if ready < 0 {
					unstall()
				}
				within(5*time.Second, "write later", func() { mustWrite("write later", a, []byte("L")) })
			} else {
				mc.GoNamed("peer writes", func() {
					for i := 0; i < 3; i++ { // an operation still blocked takes one
						mustWrite("peer write", b, []byte("LLLL"))
					}
				})
				within(5*time.Second, "read later", func() { readFull("read later", a, 2) })
			}
		}
	}
	reg("dl.read", "every short history of read deadlines with a blocked read and data arriving at some moment", win, history(false))
	reg("dl.write", "every short history of write deadlines with a blocked write and room appearing at some moment", win, history(true))
	reg("dl.race", "a deadline expires while data arrives and a new deadline is set", winEarly, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(2, "stream")*2)
		next := steps[2+mc.Choose(3, "next")]
		start := time.Now()
		a.SetReadDeadline(start.Add(100 * ms))
		mc.ExploreOn()
		g := newGroup()
		got := 0
		g.Go("reader", func() {
			p := make([]byte, 8)
			n, err := a.Read(p)
			if err != nil {
				want(errors.Is(err, os.ErrDeadlineExceeded), "read: %v", err)
				want(time.Since(start) >= 100*ms, "read timed out after %v, the deadline was at 100ms", time.Since(start))
			}
			got += n
			mc.Outcome("%v", errStr(err))
		})
		g.Go("peer", func() { time.Sleep(100 * ms); mustWrite("write", b, []byte("AB")) })
		g.Go("setter", func() { time.Sleep(100 * ms); set(a, false, mc.Choose(2, "both") == 1, next) })
		g.Wait(5 * time.Second)
		a.SetReadDeadline(time.Time{})
		within(5*time.Second, "read the rest", func() {
			for got < 2 {
				n, err := a.Read(make([]byte, 8))
				noErr("read", err)
				got += n
			}
		})
		want(got == 2, "%d bytes read of 2", got)
	})
	reg("dl.two", "two blocked reads and two blocked setters", winEarly, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(2, "stream"))
		mc.ExploreOn()
		g := newGroup()
		n := 0
		for _, name := range []string{"reader 1", "reader 2"} {
			g.Go(name, func() {
				k, err := a.Read(make([]byte, 1))
				n += k
				want(err == nil || errors.Is(err, os.ErrDeadlineExceeded), "read: %v", err)
			})
		}
		g.Go("setter 1", func() { noErr("set", a.SetReadDeadline(time.Now().Add(100*ms))) })
		g.Go("setter 2", func() { noErr("set", a.SetDeadline(time.Now().Add(50*ms))) })
		g.Go("peer", func() { mustWrite("write", b, []byte("A")) })
		g.Wait(5 * time.Second)
		a.SetDeadline(time.Time{})
		mustWrite("write", a, []byte("X"))
		within(5*time.Second, "read later", func() {
			if n == 0 {
				readFull("read", a, 1)
			}
			mustWrite("write", b, []byte("B"))
			eqBytes("read later", readFull("read", a, 1), []byte("B"))
		})
	})
	for _, how := range []string{"local", "remote", "lost"} {
		how := how
		reg("dl.close."+how, "deadlines are set while a read and a write block and the stream ends", winEarly, func() {
			w := connect(nil, nil)
			kind := mc.Choose(2, "stream") * 2
			a, b := pair(w, kind)
			if mc.Choose(2, "pending") == 1 {
				a.SetDeadline(time.Now().Add(100 * ms))
			}
			mc.ExploreOn()
			g := newGroup()
			g.Go("reader", func() {
				n, err := a.Read(make([]byte, 1))
				want(n == 0 && err != nil, "read returned %d bytes and %v", n, err)
			})
			g.Go("writer", func() { a.Write([]byte("A")) })
			g.Go("setter", func() {
				a.SetReadDeadline(time.Now().Add(200 * ms))
				a.SetWriteDeadline(time.Now().Add(-time.Second))
				a.SetDeadline(time.Time{})
			})
			g.Go("end", func() {
				switch how {
				case "local":
					a.Close()
				case "remote":
					b.Close()
				case "lost":
					w.CA.Kill(true)
				}
			})
			g.Wait(65 * time.Second)
			within(5*time.Second, "operations after the end", func() {
				a.SetDeadline(time.Now().Add(time.Hour))
				n, err := a.Read(make([]byte, 1))
				want(n == 0 && err != nil, "read after the end returned %d and %v", n, err)
				_, err = a.Write([]byte("A"))
				want(err != nil, "write after the end succeeded")
			})
		})
	}
	mc.RegisterPlan(&mc.Plan{Property: "C09", QuickS: 150, ThoroughS: 820, Runs: []mc.Run{
		{Scenario: "dl.read", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "dl.write", Policies: []int{0, 1}, Quick: 0, Thorough: 0},
		{Scenario: "dl.race", Policies: []int{0, 1, 2}, Quick: 1, Thorough: 2},
		{Scenario: "dl.two", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "dl.close.local", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "dl.close.remote", Policies: []int{0, 1}, Quick: 1, Thorough: 2},
		{Scenario: "dl.close.lost", Policies: []int{0}, Quick: 1, Thorough: 2},
	}})
}

var _ = fmt.Sprint

// stallReads makes the reader of peer stop, so that the other side fills up;
// the returned function lets it go on.
func stallReads(w *W, peer interface{ Freeze(bool) }) func() {
	w.CA.SetCap(64)
	w.SB.SetCap(64)
	peer.Freeze(true)
	return func() { peer.Freeze(false) }
}

func init() {
	reg("raw.bidi", "both sides write more than every queue holds while both read", win, func() {
		w := connect(nil, nil)
		a, b := pair(w, mc.Choose(4, "stream"))
		if mc.Choose(2, "small") == 1 {
			w.CA.SetCap(64)
			w.SB.SetCap(64)
		}
		// a reader may start late, when everything is already full
		delay := time.Duration(mc.Choose(3, "late readers")) * time.Second
		const n = 400
		mc.ExploreOn()
		g := newGroup()
		for i, s := range []geminio.Stream{a, b} {
			i, s := i, s
			g.Go(fmt.Sprintf("writer %d", i), func() {
				for i := 0; i < n; i++ {
					mustWrite("write", s, []byte{byte(i), byte(i >> 8)})
				}
			})
			g.Go(fmt.Sprintf("reader %d", i), func() {
				if i == 0 || delay == 2*time.Second {
					time.Sleep(delay)
				}
				for i := 0; i < n; i++ {
					p := readFull("read", s, 2)
					want(int(p[0])|int(p[1])<<8 == i, "byte pair %d is %v", i, p)
				}
			})
		}
		g.Wait(60 * time.Second)
	})
}
