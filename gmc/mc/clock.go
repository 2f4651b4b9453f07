package mc

import (
	"math"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Timer is an entry of the virtual clock.
type Timer struct {
	when    int64
	seq     uint64
	idx     int
	fn      func() // runs in scheduler context: must not block
	vc      VC
	h       uint64
	stopped bool
	fired   bool
	daemon  bool
	site    string // where the program armed it (timers and contexts only)
}

type timerHeap struct{ a []*Timer }

func (h *timerHeap) live() int { return len(h.a) }

func (h *timerHeap) less(i, j int) bool {
	if h.a[i].when != h.a[j].when {
		return h.a[i].when < h.a[j].when
	}
	return h.a[i].seq < h.a[j].seq
}
func (h *timerHeap) swap(i, j int) {
	h.a[i], h.a[j] = h.a[j], h.a[i]
	h.a[i].idx = i
	h.a[j].idx = j
}
func (h *timerHeap) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			return
		}
		h.swap(i, p)
		i = p
	}
}
func (h *timerHeap) down(i int) {
	for {
		l := 2*i + 1
		if l >= len(h.a) {
			return
		}
		if r := l + 1; r < len(h.a) && h.less(r, l) {
			l = r
		}
		if !h.less(l, i) {
			return
		}
		h.swap(i, l)
		i = l
	}
}
func (h *timerHeap) push(t *Timer) {
	t.idx = len(h.a)
	h.a = append(h.a, t)
	h.up(t.idx)
}
func (h *timerHeap) remove(t *Timer) {
	i := t.idx
	n := len(h.a) - 1
	if i != n {
		h.swap(i, n)
	}
	h.a = h.a[:n]
	if i != n {
		h.down(i)
		h.up(i)
	}
	t.idx = -1
}

// AddTimer arms fn at virtual time now+d.  It is part of a visible operation
// of the current thread.
func (e *Exec) AddTimer(d int64, fn func()) *Timer {
	return e.addTimerAt(after(e.clock, d), fn)
}

// after is the moment d after now, which may be the end of time.
func after(now, d int64) int64 {
	if d > math.MaxInt64-now {
		return math.MaxInt64
	}
	return now + max(d, 0)
}

func (e *Exec) addTimerAt(when int64, fn func()) *Timer {
	e.tseq++
	t := &Timer{when: when, seq: e.tseq, fn: fn}
	if e.cur != nil {
		e.cur.h = mix(e.cur.h, uint64(t.when))
		t.h = e.cur.h
		t.vc = e.cur.vc.clone()
		e.cur.tick()
	}
	e.timers.push(t)
	return t
}

// StopTimer disarms t and reports whether it was pending.
func (e *Exec) StopTimer(t *Timer) bool {
	if t == nil || t.fired || t.stopped {
		return false
	}
	t.stopped = true
	e.timers.remove(t)
	return true
}

// fireNext advances the clock to the earliest timer and fires it (and every
// other timer due at that instant).
func (e *Exec) fireNext() bool {
	if len(e.timers.a) == 0 {
		return false
	}
	when := e.timers.a[0].when
	if when > e.clock {
		e.clock = when
		e.idleStep = 0
	}
	if e.clock-epoch0 > e.cfg.MaxTime {
		e.fail("stuck", "the scenario did not finish within "+time.Duration(e.cfg.MaxTime).String()+" of virtual time; threads: "+e.liveSummary(), "")
		return false
	}
	for len(e.timers.a) > 0 && e.timers.a[0].when <= e.clock {
		t := e.timers.a[0]
		e.timers.remove(t)
		t.fired = true
		e.clockH = mix(e.clockH, mix(t.h, uint64(t.when)))
		t.fn()
	}
	return true
}

// ---------------------------------------------------------------- time API

// Nanotime is the virtual time in Unix nanoseconds.
func Nanotime() int64 {
	if ex == nil {
		return epoch0
	}
	ex.cur.h = mix(ex.cur.h, uint64(ex.clock))
	return ex.clock
}

func Now() time.Time { return time.Unix(0, Nanotime()) }

// Elapsed is the virtual time since the start of the execution.
func Elapsed() time.Duration { return time.Duration(Nanotime() - epoch0) }

type sleeper struct{ done bool }

func (s *sleeper) ready(*Thread) bool { return s.done }

// Sleep suspends the thread for d of virtual time.
func Sleep(d time.Duration) {
	e := ex
	if e == nil {
		return
	}
	if e.aborting {
		panic(abortSentinel)
	}
	if d <= 0 {
		Gosched()
		return
	}
	t := e.cur
	e.tracef("sleep %v", d)
	e.AddTimer(int64(d), func() { t.h = mix(t.h, e.clockH); e.wake(t) })
	e.block("sleep " + d.String())
}

// ChanTimer sends the time on a channel when it fires.
type ChanTimer struct {
	t      *Timer
	ch     chan time.Time
	fn     func()
	period int64
	site   string
}

func (e *Exec) sendTime(ch chan time.Time, vc VC) {
	c := e.chanOf(chanPtr((<-chan time.Time)(ch)), ch, cap(ch))
	if s := dequeue(&c.recvq); s != nil {
		s.val, s.ok, s.done = time.Unix(0, e.clock), true, true
		s.t.h = mix(s.t.h, e.clockH)
		s.t.vc.join(vc)
		e.wake(s.t)
		return
	}
	if len(c.buf) < c.cap {
		c.h = mix(c.h, e.clockH)
		c.buf = append(c.buf, time.Unix(0, e.clock))
		c.bufVC = append(c.bufVC, vc)
		c.sendx++
	}
}

// NewChanTimer arms a channel timer (period > 0: ticker) or, with fn, an
// AfterFunc timer.
func NewChanTimer(d time.Duration, period time.Duration, fn func()) *ChanTimer {
	e := ex
	e.point()
	ct := &ChanTimer{fn: fn, period: int64(period), site: callSite()}
	if fn == nil {
		ct.ch = make(chan time.Time, 1)
	}
	ct.arm(int64(d))
	return ct
}

func (ct *ChanTimer) C() <-chan time.Time { return ct.ch }

func (ct *ChanTimer) arm(d int64) {
	e := ex
	ct.armAt(after(e.clock, d))
}

func (ct *ChanTimer) armAt(when int64) {
	e := ex
	var tm *Timer
	var vc VC
	if e.cur != nil {
		vc = e.cur.vc.clone()
	}
	tm = e.addTimerAt(when, func() {
		if ct.fn != nil {
			e.spawn(nil, ct.fn, "time.AfterFunc", vc)
		} else {
			e.sendTime(ct.ch, vc)
		}
		if ct.period > 0 {
			saved := e.cur
			e.cur = nil
			ct.armAt(tm.when + ct.period)
			e.cur = saved
		}
	})
	tm.site = ct.site
	ct.t = tm
}

func (ct *ChanTimer) Stop() bool {
	e := ex
	if e.aborting {
		return false
	}
	e.point()
	return e.StopTimer(ct.t)
}

func (ct *ChanTimer) Reset(d time.Duration) bool {
	e := ex
	e.point()
	was := e.StopTimer(ct.t)
	if ct.period > 0 {
		ct.period = int64(d)
	}
	ct.arm(int64(d))
	return was
}

// NowRaw reads the clock without recording an access (predicates).
func NowRaw() int64 { return ex.clock }

// AddClockAt arms fn at an absolute virtual time (scheduler context allowed).
func AddClockAt(when int64, fn func()) *Timer { return ex.addTimerAt(max(when, ex.clock), fn) }

// JoinVC joins a clock into the current thread.
func JoinVC(v VC) { ex.cur.vc.join(v) }

// JoinInto joins b into a.
func JoinInto(a, b VC) VC { a.join(b); return a }

// earlyHorizon limits how far the clock may jump while threads can run: it
// models a machine that is slow, not one that stands still, so that the
// watchdogs of the scenarios (2 s and more) measure waiting, not scheduling.
const earlyHorizon = int64(1200 * time.Millisecond)

var siteCache = map[uintptr]string{}

// callSite is the innermost caller outside the engine and its shims.
func callSite() string {
	var pcs [8]uintptr
	n := runtime.Callers(2, pcs[:])
	for _, pc := range pcs[:n] {
		s, ok := siteCache[pc]
		if !ok {
			f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
			if !strings.Contains(f.File, "/gmc/") {
				s = f.File + ":" + strconv.Itoa(f.Line)
			}
			siteCache[pc] = s
		}
		if s != "" {
			return s
		}
	}
	return "?"
}

// AddClockOwned is AddClock for a timer that belongs to the program.
func AddClockOwned(d int64, fn func()) *Timer {
	t := ex.AddTimer(d, fn)
	t.site = callSite()
	return t
}

// LiveTimers lists the pending timers and context deadlines whose site
// satisfies keep.
func LiveTimers(keep func(file string) bool) []string {
	var out []string
	for _, t := range ex.timers.a {
		if t.site != "" && keep(t.site) {
			out = append(out, shortFile(t.site)+" (in "+time.Duration(t.when-ex.clock).String()+")")
		}
	}
	sort.Strings(out)
	return out
}
