// Package timer is the model-checking stand-in of github.com/singchia/go-timer/v2:
// the same API and observable semantics on the virtual clock.  Its behaviour
// is compared with the real package by /verif/conformance.
//
// Semantics taken from the real implementation:
//   - 10ms wheel (WithTimeInterval) whose phase starts with the timer: a tick
//     of duration d added at t fires at the ceil(d/interval)-th wheel step after
//     t, i.e. up to one interval early;
//   - d <= 0 (and > -interval) indexes wheel -1: the driver goroutine panics;
//     more negative durations never fire;
//   - handlers run one after another on a worker goroutine (a second worker
//     appears when requests are pending for 200ms);
//   - Cancel/Delay/Reset only succeed while the tick is waiting;
//   - Close delivers ErrTimerForceClosed to every waiting tick, Add on a closed
//     timer delivers ErrTimerNotStarted synchronously.
package timer

import (
	"errors"
	"time"

	"gmc/mc"
)

var (
	ErrDurationOutOfRange   = errors.New("duration out of range")
	ErrTimerNotStarted      = errors.New("timer not started")
	ErrTimerForceClosed     = errors.New("timer force closed")
	ErrOperationForceClosed = errors.New("operation force closed")
	ErrDelayOnCyclically    = errors.New("cannot delay on cyclically tick")
	ErrCancelOnNonWait      = errors.New("cannot cancel on firing or fired tick")
)

type timerOption struct {
	interval            time.Duration
	operationBufferSize int
}

type TimerOption func(*timerOption)

func WithTimeInterval(interval time.Duration) TimerOption {
	return func(to *timerOption) { to.interval = interval }
}
func WithOperationBufferSize(n int) TimerOption {
	return func(to *timerOption) { to.operationBufferSize = n }
}

type tickOption struct {
	data       interface{}
	ch         chan *Event
	chOutside  bool
	handler    func(*Event)
	cyclically bool
}

type TickOption func(*tickOption)

func WithData(data interface{}) TickOption { return func(to *tickOption) { to.data = data } }
func WithCyclically() TickOption           { return func(to *tickOption) { to.cyclically = true } }
func WithChan(C chan *Event) TickOption {
	return func(to *tickOption) { to.ch = C; to.chOutside = true }
}
func WithHandler(handler func(*Event)) TickOption {
	return func(to *tickOption) { to.handler = handler }
}

type Timer interface {
	Add(d time.Duration, opts ...TickOption) Tick
	Close()
	Pause()
	Moveon()
}

type Tick interface {
	Reset(data interface{}) error
	Cancel() error
	Delay(d time.Duration) error
	C() <-chan *Event
	InsertTime() time.Time
	Duration() time.Duration
	Fired() int64
}

type Event struct {
	Duration   time.Duration
	InsertTIme time.Time
	Data       interface{}
	Error      error
}

type status int

const (
	stWait status = iota
	stFire
	stCanceled
)

type request struct {
	t   *tick
	err error
	vc  mc.VC
}

// Wheel is the model timer; exported so that harnesses can inspect it.
type Wheel struct {
	opt     timerOption
	vis     mc.VisOp
	start   int64
	closed  bool
	paused  bool
	ticks   []*tick
	queue   []request
	qvis    mc.VisOp
	workers int
	grow    *mc.Timer
	quiet   bool
}

type tick struct {
	tickOption
	w          *Wheel
	d          time.Duration
	insertTime time.Time
	fired      int64
	st         status
	tm         *mc.Timer
	vc         mc.VC
	at         int64
}

func NewTimer(opts ...TimerOption) Timer {
	w := &Wheel{opt: timerOption{interval: 10 * time.Millisecond}}
	for _, o := range opts {
		o(&w.opt)
	}
	w.start = mc.NowRaw()
	l := mc.ExecLocal("timers", func() any { return &[]*Wheel{} }).(*[]*Wheel)
	*l = append(*l, w)
	return w
}

// Wheels lists the timers created in this execution.
func Wheels() []*Wheel {
	return *mc.ExecLocal("timers", func() any { return &[]*Wheel{} }).(*[]*Wheel)
}

func (w *Wheel) Closed() bool { return w.closed }
func (w *Wheel) Pending() int {
	n := 0
	for _, t := range w.ticks {
		if t.st == stWait {
			n++
		}
	}
	return n
}

func (w *Wheel) arm(t *tick, d time.Duration, base int64) {
	iv := int64(w.opt.interval)
	q := (int64(d) + iv - 1) / iv
	if int64(d)+iv-1 < 0 {
		// uint64 conversion of a negative quotient: beyond the wheels, never fires
		return
	}
	if q == 0 {
		panic("runtime error: index out of range [-1] (go-timer driver: tick with duration <= 0)")
	}
	cur := (base - w.start) / iv
	t.at = w.start + (cur+q)*iv
	delta := t.at - mc.NowRaw()
	if delta < 0 {
		delta = 0
	}
	t.tm = mc.AddClock(delta, func() { w.fire(t) })
}

// fire runs in scheduler context.
func (w *Wheel) fire(t *tick) {
	if t.st != stWait || w.paused {
		return
	}
	if !t.cyclically {
		t.st = stFire
		w.drop(t)
	} else {
		iv := int64(w.opt.interval)
		q := (int64(t.d) + iv - 1) / iv
		at := t.at + q*iv
		t.at = at
		t.tm = mc.AddClockAt(at, func() { w.fire(t) })
	}
	w.publish(request{t: t, vc: t.vc})
}

func (w *Wheel) drop(t *tick) {
	for i, x := range w.ticks {
		if x == t {
			w.ticks = append(w.ticks[:i:i], w.ticks[i+1:]...)
			return
		}
	}
}

func (w *Wheel) publish(r request) {
	w.queue = append(w.queue, r)
	if w.workers == 0 {
		w.worker()
		return
	}
	if w.grow == nil {
		w.grow = mc.AddClock(int64(200*time.Millisecond), func() {
			w.grow = nil
			if len(w.queue) > 0 {
				w.worker()
			}
		})
	}
}

// worker starts a worker that drains the queue and exits when it is empty.
func (w *Wheel) worker() {
	w.workers++
	mc.SpawnEngine("go-timer worker", func() {
		for {
			if len(w.queue) == 0 {
				w.workers--
				return
			}
			r := w.queue[0]
			w.queue = w.queue[1:]
			w.handle(r)
			w.qvis.Do("timer worker next")
		}
	}, w.queue[0].vc, false)
}

func (w *Wheel) handle(r request) {
	t := r.t
	if t.st == stCanceled {
		return
	}
	mc.JoinVC(r.vc)
	ev := &Event{Duration: t.d, InsertTIme: t.insertTime, Data: t.data, Error: r.err}
	if r.err == nil {
		t.fired++
	}
	if t.ch == nil {
		t.handler(ev)
		return
	}
	mc.SW(t.ch).Send(ev)
	if r.err != nil && !t.chOutside {
		mc.Close(t.ch)
	}
}

func (w *Wheel) Add(d time.Duration, opts ...TickOption) Tick {
	t := &tick{w: w, d: d, insertTime: mc.Now()}
	for _, o := range opts {
		o(&t.tickOption)
	}
	if t.ch == nil && t.handler == nil {
		t.ch = make(chan *Event, 1)
	}
	if mc.Aborting() {
		return t
	}
	w.vis.Do("timer add")
	if w.closed {
		w.handle(request{t: t, err: ErrTimerNotStarted})
		return t
	}
	t.vc = mc.CurVC()
	w.ticks = append(w.ticks, t)
	w.arm(t, d, mc.NowRaw())
	return t
}

func (w *Wheel) Close() {
	if mc.Aborting() {
		return
	}
	w.vis.Do("timer close")
	if w.closed {
		return
	}
	w.closed = true
	vc := mc.CurVC()
	ts := w.ticks
	w.ticks = nil
	for _, t := range ts {
		if t.st == stWait {
			t.st = stFire
			mc.StopClock(t.tm)
			v := append(mc.VC(nil), t.vc...)
			v = mc.JoinInto(v, vc)
			w.publish(request{t: t, err: ErrTimerForceClosed, vc: v})
		}
	}
}

func (w *Wheel) Pause()  { w.vis.Do("timer pause"); w.paused = true }
func (w *Wheel) Moveon() { w.vis.Do("timer moveon"); w.paused = false }

func (t *tick) op(what string) error {
	if mc.Aborting() {
		return ErrTimerNotStarted
	}
	t.w.vis.Do(what)
	if t.w.closed || t.w.paused {
		return ErrTimerNotStarted
	}
	if t.st != stWait {
		return ErrCancelOnNonWait
	}
	return nil
}

func (t *tick) Reset(data interface{}) error {
	if err := t.op("tick reset"); err != nil {
		return err
	}
	t.data = data
	return nil
}

func (t *tick) Cancel() error {
	if err := t.op("tick cancel"); err != nil {
		return err
	}
	t.st = stCanceled
	mc.StopClock(t.tm)
	t.w.drop(t)
	return nil
}

func (t *tick) Delay(d time.Duration) error {
	if t.cyclically {
		return ErrDelayOnCyclically
	}
	if err := t.op("tick delay"); err != nil {
		return err
	}
	// the real wheel re-bases the delay on the position of the original expiry
	mc.StopClock(t.tm)
	iv := int64(t.w.opt.interval)
	q := (int64(d) + iv - 1) / iv
	if q <= 0 {
		panic("runtime error: index out of range [-1] (go-timer driver: delay <= 0)")
	}
	t.at += q * iv
	t.tm = mc.AddClockAt(t.at, func() { t.w.fire(t) })
	return nil
}

func (t *tick) Fired() int64            { return t.fired }
func (t *tick) C() <-chan *Event        { return t.ch }
func (t *tick) InsertTime() time.Time   { return t.insertTime }
func (t *tick) Duration() time.Duration { return t.d }
