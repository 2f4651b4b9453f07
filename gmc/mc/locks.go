package mc

import (
	"fmt"
	"runtime/debug"
	"unsafe"
)

func (e *Exec) fatal(msg string) {
	e.fail("fatal", "fatal error: "+msg, string(debug.Stack()))
	e.stopHere()
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	o      obj
	locked bool
}

func (m *Mutex) ready(*Thread) bool { return !m.locked }

func (m *Mutex) Lock() {
	e := ex
	if e == nil {
		return
	}
	e.pointPred(m, "mutex lock")
	m.locked = true
	m.o.write(e.cur, 30)
	m.o.acquire(e.cur)
	e.tracef("lock")
}

func (m *Mutex) TryLock() bool {
	e := ex
	if e == nil {
		return true
	}
	e.point()
	m.o.write(e.cur, 31)
	if m.locked {
		return false
	}
	m.locked = true
	m.o.acquire(e.cur)
	return true
}

func (m *Mutex) Unlock() {
	e := ex
	if e == nil || e.aborting {
		return
	}
	if !m.locked {
		e.fatal("sync: unlock of unlocked mutex")
	}
	// The release itself needs no scheduling point before it: everything the
	// holder did inside is already ordered; the next operation is a point.
	m.o.write(e.cur, 32)
	m.o.release(e.cur)
	m.locked = false
	e.tracef("unlock")
	if unlockPoints {
		e.point()
	}
}

var unlockPoints = false

// RWMutex replaces sync.RWMutex (writer preference as in the runtime).
type RWMutex struct {
	o       obj
	writer  bool // held or announced
	wheld   bool
	readers int
}

type rwR RWMutex
type rwW1 RWMutex
type rwW2 RWMutex

func (m *rwR) ready(*Thread) bool  { return !m.writer }
func (m *rwW1) ready(*Thread) bool { return !m.writer }
func (m *rwW2) ready(*Thread) bool { return m.readers == 0 }

func (m *RWMutex) RLock() {
	e := ex
	if e == nil {
		return
	}
	e.pointPred((*rwR)(m), "rwmutex rlock")
	m.readers++
	m.o.read(e.cur, 33)
	m.o.acquire(e.cur)
	e.tracef("rlock")
}

func (m *RWMutex) TryRLock() bool {
	e := ex
	if e == nil {
		return true
	}
	e.point()
	if m.writer {
		m.o.write(e.cur, 34)
		return false
	}
	m.readers++
	m.o.read(e.cur, 33)
	m.o.acquire(e.cur)
	return true
}

func (m *RWMutex) RUnlock() {
	e := ex
	if e == nil || e.aborting {
		return
	}
	if m.readers <= 0 {
		e.fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.o.read(e.cur, 35)
	// readers are ordered before the next writer; keeping the join in vc also
	// orders them before later readers, which only hides (never invents) races
	// on data written under RLock.
	m.o.releaseJoin(e.cur)
	m.readers--
	e.tracef("runlock")
}

func (m *RWMutex) Lock() {
	e := ex
	if e == nil {
		return
	}
	e.pointPred((*rwW1)(m), "rwmutex lock")
	m.writer = true
	m.o.write(e.cur, 36)
	if m.readers > 0 {
		e.pointPred((*rwW2)(m), "rwmutex lock (waiting for readers)")
		m.o.write(e.cur, 37)
	}
	m.wheld = true
	m.o.acquire(e.cur)
	e.tracef("wlock")
}

func (m *RWMutex) TryLock() bool {
	e := ex
	if e == nil {
		return true
	}
	e.point()
	m.o.write(e.cur, 38)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer, m.wheld = true, true
	m.o.acquire(e.cur)
	return true
}

func (m *RWMutex) Unlock() {
	e := ex
	if e == nil || e.aborting {
		return
	}
	if !m.wheld {
		e.fatal("sync: Unlock of unlocked RWMutex")
	}
	m.o.write(e.cur, 39)
	m.o.release(e.cur)
	m.writer, m.wheld = false, false
	e.tracef("wunlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type locker interface {
	Lock()
	Unlock()
}

func (m *RWMutex) RLocker() locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	o obj
	n int
}

func (w *WaitGroup) ready(*Thread) bool { return w.n == 0 }

func (w *WaitGroup) Add(d int) {
	e := ex
	if e == nil || e.aborting {
		return
	}
	e.point()
	w.n += d
	w.o.write(e.cur, 40)
	w.o.releaseJoin(e.cur)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	e := ex
	if e == nil {
		return
	}
	e.pointPred(w, "waitgroup wait")
	w.o.write(e.cur, 41)
	w.o.acquire(e.cur)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	a    obj
	done bool
}

func (o *Once) Do(f func()) {
	e := ex
	if e == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	e.point()
	o.a.read(e.cur, 42)
	if o.done {
		o.a.acquire(e.cur)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if ex.aborting {
				return
			}
			o.a.write(ex.cur, 43)
			o.a.release(ex.cur)
			o.done = true
		}()
		f()
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L locker
	o obj
	q []*Thread
}

func NewCond(l locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	e := ex
	t := e.cur
	e.point()
	c.o.write(t, 44)
	c.q = append(c.q, t)
	c.L.Unlock()
	e.block("cond wait")
	c.o.acquire(t)
	c.L.Lock()
}

func (c *Cond) Signal() {
	e := ex
	if e.aborting {
		return
	}
	e.point()
	c.o.write(e.cur, 45)
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		c.o.releaseJoin(e.cur)
		t.h = mix(t.h, c.o.h)
		e.wake(t)
	}
}

func (c *Cond) Broadcast() {
	e := ex
	if e.aborting {
		return
	}
	e.point()
	c.o.write(e.cur, 46)
	c.o.releaseJoin(e.cur)
	for _, t := range c.q {
		t.h = mix(t.h, c.o.h)
		e.wake(t)
	}
	c.q = nil
}

// ------------------------------------------------------------------ sync.Map

type mapEnt struct {
	o   obj
	key any
	val any
	ok  bool
}

// Map replaces sync.Map; every operation is atomic.  Keys are ranged in the
// order of first insertion.
type Map struct {
	o    obj
	m    map[any]*mapEnt
	keys []*mapEnt
}

func (m *Map) ent(k any) *mapEnt {
	if m.m == nil {
		m.m = map[any]*mapEnt{}
	}
	x := m.m[k]
	if x == nil {
		x = &mapEnt{key: k}
		m.m[k] = x
		m.keys = append(m.keys, x)
	}
	return x
}

func (m *Map) op(k any, kind uint64, what string) *mapEnt {
	x := m.ent(k)
	if ex == nil {
		return x
	}
	ex.point()
	t := ex.cur
	if kind == 50 {
		x.o.read(t, kind)
		x.o.acquire(t)
		return x
	}
	x.o.write(t, kind)
	x.o.acquire(t)
	x.o.release(t)
	m.o.rsum += mix(t.h, 9)
	if ex.trace {
		ex.tracef("sync.Map %s %v", what, short(k))
	}
	return x
}

func (m *Map) Load(k any) (any, bool) {
	x := m.op(k, 50, "load")
	if !x.ok {
		return nil, false
	}
	return x.val, true
}
func (m *Map) Store(k, v any) {
	x := m.op(k, 51, "store")
	x.val, x.ok = v, true
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	x := m.op(k, 52, "loadorstore")
	if x.ok {
		return x.val, true
	}
	x.val, x.ok = v, true
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	x := m.op(k, 53, "loadanddelete")
	v, ok := x.val, x.ok
	x.val, x.ok = nil, false
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	x := m.op(k, 54, "swap")
	ov, ok := x.val, x.ok
	x.val, x.ok = v, true
	return ov, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	x := m.op(k, 55, "cas")
	if !x.ok || x.val != old {
		return false
	}
	x.val = new
	return true
}
func (m *Map) CompareAndDelete(k, old any) bool {
	x := m.op(k, 56, "cad")
	if !x.ok || x.val != old {
		return false
	}
	x.val, x.ok = nil, false
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	if ex != nil {
		ex.point()
		m.o.write(ex.cur, 57)
	}
	n := len(m.keys)
	for i := 0; i < n; i++ {
		x := m.keys[i]
		if !x.ok {
			continue
		}
		if ex != nil {
			if ex.aborting {
				return
			}
			x.o.read(ex.cur, 58)
			x.o.acquire(ex.cur)
		}
		if !f(x.key, x.val) {
			return
		}
	}
}
func (m *Map) Clear() {
	m.Range(func(k, v any) bool { m.Delete(k); return true })
}

// Pool replaces sync.Pool: a put object is always handed out again (the case
// that matters for reuse bugs).
type Pool struct {
	New   func() any
	o     obj
	items []any
}

func (p *Pool) Get() any {
	if ex != nil {
		ex.point()
		p.o.write(ex.cur, 60)
		p.o.acquire(ex.cur)
	}
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if ex != nil {
		if ex.aborting {
			return
		}
		ex.point()
		p.o.write(ex.cur, 61)
		p.o.releaseJoin(ex.cur)
	}
	p.items = append(p.items, v)
}

// ------------------------------------------------------------------ atomics

// AtomicPoint is the visible part of an atomic operation on address p.
func AtomicPoint(p unsafe.Pointer, write bool) {
	e := ex
	if e == nil || e.aborting {
		return
	}
	e.point()
	m := e.memAt(p)
	t := e.cur
	if write {
		m.write(t, 70)
	} else {
		m.read(t, 71)
	}
	// sequentially consistent: acquire and release
	if m.raceRead(t) && m.wid >= 0 {
		e.raced(m.wid, -1)
	}
	m.acquire(t)
	if write {
		m.releaseJoin(t)
	}
	if e.trace {
		e.tracef("atomic write=%v", write)
	}
}

// VisOp is a generic visible operation on an object (virtual network, ...).
type VisOp struct{ o obj }

func (v *VisOp) Do(what string) {
	e := ex
	if e == nil {
		return
	}
	e.point()
	v.Touch()
	if e.trace {
		e.tracef("%s", what)
	}
}

// Touch records a conflicting access without a scheduling point.
func (v *VisOp) Touch() {
	e := ex
	if e == nil || e.aborting {
		return
	}
	v.o.write(e.cur, 80)
	v.o.acquire(e.cur)
	v.o.releaseJoin(e.cur)
}

type PredFunc func() bool

func (p PredFunc) ready(*Thread) bool { return p() }

// DoWhen is a visible operation enabled only when pred holds.
func (v *VisOp) DoWhen(pred func() bool, what string) {
	e := ex
	if e.aborting {
		panic(abortSentinel)
	}
	e.pointPred(PredFunc(pred), what)
	v.Touch()
	if e.trace {
		e.tracef("%s", what)
	}
}

// Tracef adds a line to the execution trace.
func Tracef(format string, a ...any) {
	if ex != nil && !ex.aborting && ex.trace {
		ex.tracef("%s", fmt.Sprintf(format, a...))
	}
}

// Aborting reports whether the current execution is being unwound.
func Aborting() bool { return ex == nil || ex.aborting }

// AtomicBegin/AtomicEnd bracket harness bookkeeping that must not be a
// scheduling point.
func Steps() int { return ex.steps }

// AddClock arms a virtual timer (engine-level; fn must not block).
func AddClock(d int64, fn func()) *Timer { return ex.AddTimer(d, fn) }

// StopClock disarms it.
func StopClock(t *Timer) bool {
	if ex == nil || ex.aborting {
		return false
	}
	return ex.StopTimer(t)
}

// SpawnEngine starts a thread from scheduler context (timer callbacks).
func SpawnEngine(name string, fn func(), vc VC, quiet bool) {
	t := ex.spawn(nil, fn, name, vc)
	t.quiet = quiet
}

// CurVC snapshots the clock of the current thread.
func CurVC() VC {
	if ex.cur == nil {
		return nil
	}
	v := ex.cur.vc.clone()
	ex.cur.tick()
	return v
}

// SetQuiet marks the current thread (and its future children) as daemon.
func SetQuiet() { ex.cur.quiet = true }

// ExecLocal returns a per-execution value.
func ExecLocal(key string, mk func() any) any {
	if ex.extra == nil {
		ex.extra = map[string]any{}
	}
	v, ok := ex.extra[key]
	if !ok {
		v = mk()
		ex.extra[key] = v
	}
	return v
}
