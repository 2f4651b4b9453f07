package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	timer "github.com/singchia/go-timer/v2"
	"gmc/mc"
	"gmc/vnet"
)

// quiet is a logger that does nothing.
type quiet struct{}

func (quiet) Trace(v ...interface{})            {}
func (quiet) Tracef(f string, v ...interface{}) {}
func (quiet) Debug(v ...interface{})            {}
func (quiet) Debugf(f string, v ...interface{}) {}
func (quiet) Info(v ...interface{})             {}
func (quiet) Infof(f string, v ...interface{})  {}
func (quiet) Warn(v ...interface{})             {}
func (quiet) Warnf(f string, v ...interface{})  {}
func (quiet) Error(v ...interface{})            {}
func (quiet) Errorf(f string, v ...interface{}) {}

const ms = time.Millisecond

// gran is the timer granularity the implementation is allowed (one wheel step
// early, two late).
const gran = 20 * ms

// W is a connected pair of ends.
type W struct {
	C, S   geminio.End
	CA, SB *vnet.Conn
}

func copts(fs ...func(*client.EndOptions)) *client.EndOptions {
	o := client.NewEndOptions()
	o.SetLog(quiet{})
	for _, f := range fs {
		f(o)
	}
	return o
}

func sopts(fs ...func(*server.EndOptions)) *server.EndOptions {
	o := server.NewEndOptions()
	o.SetLog(quiet{})
	for _, f := range fs {
		f(o)
	}
	return o
}

// connect brings both ends up over an in-memory connection.
func connect(co *client.EndOptions, so *server.EndOptions) *W {
	w := &W{}
	w.CA, w.SB = vnet.Pair()
	connectOn(w, co, so)
	return w
}

func connectOn(w *W, co *client.EndOptions, so *server.EndOptions) {
	if co == nil {
		co = copts()
	}
	if so == nil {
		so = sopts()
	}
	done := make(chan error, 1)
	mc.GoNamed("server-setup", func() {
		var err error
		w.S, err = server.NewEndWithConn(w.SB, so)
		done <- err
	})
	c, err := client.NewEndWithConn(w.CA, co)
	if err != nil {
		mc.FailNow("setup: client end: %v", err)
	}
	w.C = c
	if err := <-done; err != nil {
		mc.FailNow("setup: server end: %v", err)
	}
}

// within runs fn and fails when it has not returned after d.
func within(d time.Duration, what string, fn func()) {
	done := make(chan struct{})
	mc.GoNamed(what, func() {
		fn()
		close(done)
	})
	t := time.NewTimer(d)
	select {
	case <-done:
		t.Stop()
	case <-t.C:
		mc.FailNow("%s did not return within %v", what, d)
	}
}

// group runs functions concurrently and waits for all of them.
type group struct {
	n    int
	done chan string
	left map[string]bool
}

func newGroup() *group { return &group{done: make(chan string, 32), left: map[string]bool{}} }

func (g *group) Go(name string, fn func()) {
	g.n++
	g.left[name] = true
	mc.GoNamed(name, func() {
		fn()
		g.done <- name
	})
}

// Wait waits for everything started, at most d.
func (g *group) Wait(d time.Duration) {
	t := time.NewTimer(d)
	for ; g.n > 0; g.n-- {
		select {
		case n := <-g.done:
			delete(g.left, n)
		case <-t.C:
			var names []string
			for k := range g.left {
				names = append(names, k)
			}
			sortStrings(names)
			mc.FailNow("%s did not return within %v", strings.Join(names, ", "), d)
		}
	}
	t.Stop()
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// settle lets everything that can run finish, and d pass.
func settle(d time.Duration) { time.Sleep(d) }

func want(cond bool, f string, a ...any) {
	if !cond {
		mc.FailNow(f, a...)
	}
}

func eqBytes(what string, got, exp []byte) {
	if !bytes.Equal(got, exp) {
		mc.FailNow("%s: got %q, expected %q", what, clip(string(got)), clip(string(exp)))
	}
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

func noErr(what string, err error) {
	if err != nil {
		mc.FailNow("%s: unexpected error: %v", what, err)
	}
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.Is(err, os.ErrDeadlineExceeded) || errors.Is(err, context.DeadlineExceeded) || errors.As(err, &ne) && ne.Timeout() || err != nil && strings.Contains(err.Error(), "timeout")
}

// closeBoth closes both ends concurrently and checks that this terminates.
func (w *W) closeBoth() {
	g := newGroup()
	g.Go("client close", func() { w.C.Close() })
	g.Go("server close", func() { w.S.Close() })
	g.Wait(65 * time.Second)
}

// leaks checks that nothing the ends started is left.
func leaks(what string) {
	if l := mc.LiveThreads(func(name, file string) bool {
		return !strings.HasPrefix(file, "harness") && !strings.Contains(file, "/harness/")
	}); len(l) > 0 {
		mc.FailNow("%s: goroutines left running: %s", what, strings.Join(l, ", "))
	}
	leftTimers(what)
	for i, wh := range timer.Wheels() {
		if !wh.Closed() && wh.Pending() > 0 {
			mc.FailNow("%s: timer %d still has %d pending ticks", what, i, wh.Pending())
		}
	}
}

// leftTimers fails when a timer or a context deadline of the library is pending.
func leftTimers(what string) {
	if l := mc.LiveTimers(func(file string) bool {
		return !strings.HasPrefix(file, "harness") && !strings.Contains(file, "/harness/")
	}); len(l) > 0 {
		mc.FailNow("%s: timers left armed: %s", what, strings.Join(l, ", "))
	}
}

func newReq(sm geminio.Stream, data, custom string) geminio.Request {
	r := sm.NewRequest([]byte(data))
	r.SetCustom([]byte(custom))
	return r
}

func cnss(m geminio.Stream, data string, amo bool) geminio.Message {
	o := options.NewMessage()
	if amo {
		o.SetCnss(options.CnssAtMostOnce)
	} else {
		o.SetCnss(options.CnssAtLeastOnce)
	}
	o.SetTopic("topic-" + data)
	o.SetCustom([]byte("custom-" + data))
	return m.NewMessage([]byte(data), o)
}

// openPair opens a stream from a and accepts it on b.
func openPair(a, b geminio.End, meta string) (geminio.Stream, geminio.Stream) {
	var sa, sb geminio.Stream
	g := newGroup()
	g.Go("open stream", func() {
		o := options.OpenStream()
		o.SetMeta([]byte(meta))
		var err error
		sa, err = a.OpenStream(o)
		noErr("open stream", err)
	})
	g.Go("accept stream", func() {
		var err error
		sb, err = b.AcceptStream()
		noErr("accept stream", err)
	})
	g.Wait(40 * time.Second)
	return sa, sb
}

func readFull(what string, r io.Reader, n int) []byte {
	b := make([]byte, n)
	if m, err := io.ReadFull(r, b); err != nil {
		mc.FailNow("%s: read %d of %d bytes: %v", what, m, n, err)
	}
	return b
}

var win = mc.Config{Window: true}
var winEarly = mc.Config{Window: true, EarlyTimers: true}

func reg(name, doc string, cfg mc.Config, f func()) {
	mc.Register(&mc.Scenario{Name: name, Doc: doc, Cfg: cfg, Main: f})
}

var _ = fmt.Sprint
