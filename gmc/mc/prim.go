package mc

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"unsafe"
)

type uintptrKey = unsafe.Pointer

// obj is the per-object happens-before hash (writes conflict with everything,
// reads only with writes) and release clock.
type obj struct {
	h    uint64
	rsum uint64
	vc   VC
}

func (o *obj) write(t *Thread, kind uint64) {
	v := mix(t.h+kind, o.h+o.rsum)
	t.h = v
	o.h = v
	o.rsum = 0
}

func (o *obj) read(t *Thread, kind uint64) {
	t.h = mix(t.h+kind, o.h)
	o.rsum += mix(t.h, t.key)
}

func (o *obj) acquire(t *Thread) { t.vc.join(o.vc) }
func (o *obj) release(t *Thread) { o.vc = t.vc.clone(); t.tick() }
func (o *obj) releaseJoin(t *Thread) {
	o.vc = o.vc.clone()
	o.vc.join(t.vc)
	t.tick()
}

// ------------------------------------------------------------------ memory

type memState struct {
	obj
	wt, wc uint32 // last write epoch
	rt, rc uint32 // last read epoch (single reader) ...
	rvc    VC     // ... or all readers
	wid    int32
	rid    int32
	ty     any
}

// promoted fields are scheduling points.
var promoted = map[int32]bool{}

// FieldName maps access ids to names (filled by the rewritten program).
var FieldName []string

func (e *Exec) memAt(p unsafe.Pointer) *memState {
	m := e.mem[p]
	if m == nil {
		m = &memState{wt: ^uint32(0), rt: ^uint32(0), wid: -1, rid: -1}
		e.mem[p] = m
	}
	return m
}

func (m *memState) raceRead(t *Thread) bool {
	return m.wt != ^uint32(0) && m.wt != uint32(t.id) && t.vc.get(int(m.wt)) < m.wc
}

func (m *memState) raceWriteReads(t *Thread) bool {
	if m.rvc != nil {
		for i, c := range m.rvc {
			if i != t.id && c > t.vc.get(i) {
				return true
			}
		}
		return false
	}
	return m.rt != ^uint32(0) && m.rt != uint32(t.id) && t.vc.get(int(m.rt)) < m.rc
}

func (m *memState) noteRead(t *Thread) {
	if m.rvc != nil {
		if len(m.rvc) <= t.id {
			n := make(VC, t.id+4)
			copy(n, m.rvc)
			m.rvc = n
		}
		m.rvc[t.id] = t.epoch()
		return
	}
	if m.rt == ^uint32(0) || m.rt == uint32(t.id) || t.vc.get(int(m.rt)) >= m.rc {
		m.rt, m.rc = uint32(t.id), t.epoch()
		return
	}
	m.rvc = make(VC, max(t.id, int(m.rt))+4)
	m.rvc[m.rt] = m.rc
	m.rvc[t.id] = t.epoch()
}

func (m *memState) noteWrite(t *Thread) {
	m.wt, m.wc = uint32(t.id), t.epoch()
	m.rt = ^uint32(0)
	m.rvc = nil
}

func (e *Exec) raced(id, other int32) {
	if _, ok := e.races[id]; !ok {
		e.races[id] = fname(id)
	}
	if other >= 0 {
		if _, ok := e.races[other]; !ok {
			e.races[other] = fname(other)
		}
	}
}

func fname(id int32) string {
	if int(id) < len(FieldName) {
		return FieldName[id]
	}
	return fmt.Sprint("field#", id)
}

func (e *Exec) readAccess(p unsafe.Pointer, id int32) {
	t := e.cur
	if promoted[id] {
		e.point()
		m := e.memAt(p)
		m.read(t, 3)
		if m.raceRead(t) {
			e.raced(id, m.wid)
		}
		m.noteRead(t)
		m.rid = id
		if e.trace {
			e.tracef("read %s", fname(id))
		}
		return
	}
	m := e.memAt(p)
	if m.raceRead(t) {
		e.raced(id, m.wid)
	}
	m.noteRead(t)
	m.rid = id
}

func (e *Exec) writeAccess(p unsafe.Pointer, id int32) {
	t := e.cur
	if promoted[id] {
		e.point()
		m := e.memAt(p)
		m.write(t, 4)
		if m.raceRead(t) {
			e.raced(id, m.wid)
		}
		if m.raceWriteReads(t) {
			e.raced(id, m.rid)
		}
		m.noteWrite(t)
		m.wid = id
		if e.trace {
			e.tracef("write %s", fname(id))
		}
		return
	}
	m := e.memAt(p)
	if m.raceRead(t) {
		e.raced(id, m.wid)
	}
	if m.raceWriteReads(t) {
		e.raced(id, m.rid)
	}
	m.noteWrite(t)
	m.wid = id
}

// R records a read of *p.
func R[T any](p *T, id int32) *T {
	if id >= 0 && ex != nil && !ex.aborting {
		ex.readAccess(unsafe.Pointer(p), id)
	}
	return p
}

// Ptr is a pending write.
type Ptr[T any] struct {
	p  *T
	id int32
}

// P prepares a write of *p; Set performs it.
func P[T any](p *T, id int32) Ptr[T] {
	_ = *p
	return Ptr[T]{p, id}
}

func (w Ptr[T]) Set(v T) {
	if w.id >= 0 && ex != nil && !ex.aborting {
		ex.writeAccess(unsafe.Pointer(w.p), w.id)
	}
	*w.p = v
}

func (w Ptr[T]) Get() T {
	if w.id >= 0 && ex != nil && !ex.aborting {
		ex.readAccess(unsafe.Pointer(w.p), w.id)
	}
	return *w.p
}

// ------------------------------------------------------------------ maps

func (e *Exec) mapAccess(p unsafe.Pointer, id int32, write bool) {
	if p == nil || id < 0 {
		return
	}
	t := e.cur
	m := e.maps[p]
	if m == nil {
		m = &memState{wt: ^uint32(0), rt: ^uint32(0), wid: -1, rid: -1}
		e.maps[p] = m
	}
	bad := int32(-2)
	if m.raceRead(t) {
		bad = m.wid
	}
	if write && m.raceWriteReads(t) {
		bad = m.rid
	}
	if bad != -2 {
		op := "read"
		if write {
			op = "write"
		}
		e.fail("maprace", fmt.Sprintf("concurrent map access without synchronisation (the Go runtime aborts the process): map %s of %s and access of %s", op, fname(id), fname(bad)), string(debug.Stack()))
		e.stopHere()
	}
	if write {
		m.noteWrite(t)
		m.wid = id
	} else {
		m.noteRead(t)
		m.rid = id
	}
}

// MR records a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, id int32) M {
	if ex != nil && !ex.aborting {
		ex.mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), id, false)
	}
	return m
}

// MW records a write of map m.
func MW[M ~map[K]V, K comparable, V any](m M, id int32) M {
	if ex != nil && !ex.aborting {
		ex.mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), id, true)
	}
	return m
}

// Keys returns the keys of m in a deterministic order.
func Keys[M ~map[K]V, K comparable, V any](m M, id int32) []K {
	m = MR[M, K, V](m, id)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortKeys(ks)
	return ks
}

func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }
func ZeroV[M ~map[K]V, K comparable, V any](m M) (v V) { return }

// SetZero resets a variable.
func SetZero[T any](p *T) {
	var z T
	*p = z
}

func sortKeys[K comparable](ks []K) {
	less := func(a, b K) bool { return keyLess(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem()) }
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && less(ks[j], ks[j-1]); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && !b.IsNil()
		}
		x, y := a.Elem(), b.Elem()
		if x.Type() != y.Type() {
			return x.Type().String() < y.Type().String()
		}
		return keyLess(x, y)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if keyLess(a.Field(i), b.Field(i)) {
				return true
			}
			if keyLess(b.Field(i), a.Field(i)) {
				return false
			}
		}
		return false
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if keyLess(a.Index(i), b.Index(i)) {
				return true
			}
			if keyLess(b.Index(i), a.Index(i)) {
				return false
			}
		}
		return false
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return ptrSeq(a.UnsafePointer()) < ptrSeq(b.UnsafePointer())
	}
	return false
}

// ptrSeq numbers pointers used as ordered map keys by first sighting; the
// order is a property of the execution, not of the address.
func ptrSeq(p unsafe.Pointer) int {
	e := ex
	if e == nil {
		return 0
	}
	if e.ptrs == nil {
		e.ptrs = map[unsafe.Pointer]int{}
	}
	n, ok := e.ptrs[p]
	if !ok {
		n = len(e.ptrs) + 1
		e.ptrs[p] = n
	}
	return n
}

// MSet performs m[k] = v as an instrumented write (the map's keys that are
// pointers get their sequence number here, in insertion order).
func MSet[M ~map[K]V, K comparable, V any](m M, id int32, k K, v V) {
	m = MW[M, K, V](m, id)
	m[k] = v
}

// ------------------------------------------------------------------ channels

type sudog struct {
	t    *Thread
	ch   *chanState
	idx  int // case index
	val  any
	ok   bool
	done bool
	sel  *Selector
	send bool
}

type chanState struct {
	obj
	keep   any
	cap    int
	buf    []any
	bufVC  []VC
	slotVC []VC // receive clocks of slots
	sendx  int
	recvx  int
	closed bool
	recvq  []*sudog
	sendq  []*sudog
}

func (e *Exec) chanOf(p unsafe.Pointer, keep any, cp int) *chanState {
	c := e.chans[p]
	if c == nil {
		c = &chanState{keep: keep, cap: cp}
		if cp > 0 {
			n := cp
			if n > 64 {
				n = 64
			}
			c.slotVC = make([]VC, n)
		}
		e.chans[p] = c
	}
	return c
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func dequeue(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		s := (*q)[0]
		*q = (*q)[1:]
		if s.sel != nil {
			if s.sel.fired {
				continue
			}
			s.sel.fired = true
			s.sel.won = s
		}
		return s
	}
	return nil
}

func hasWaiter(q []*sudog) bool {
	for _, s := range q {
		if s.sel == nil || !s.sel.fired {
			return true
		}
	}
	return false
}

func (c *chanState) canSend() bool {
	return c.closed || hasWaiter(c.recvq) || len(c.buf) < c.cap
}

func (c *chanState) canRecv() bool {
	return c.closed || len(c.buf) > 0 || hasWaiter(c.sendq)
}

// trySend performs a send if possible.
func (c *chanState) trySend(e *Exec, v any) bool {
	t := e.cur
	if c.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	if s := dequeue(&c.recvq); s != nil {
		c.write(t, 11)
		s.t.h = mix(s.t.h, c.h)
		s.val, s.ok, s.done = v, true, true
		s.t.vc.join(t.vc)
		t.vc.join(s.t.vc)
		t.tick()
		s.t.tick()
		e.wake(s.t)
		return true
	}
	if len(c.buf) < c.cap {
		c.write(t, 12)
		if len(c.slotVC) > 0 {
			i := c.sendx % len(c.slotVC)
			if c.sendx >= c.cap || c.cap > len(c.slotVC) {
				t.vc.join(c.slotVC[i])
			}
			c.sendx++
		}
		c.buf = append(c.buf, v)
		c.bufVC = append(c.bufVC, t.vc.clone())
		t.tick()
		return true
	}
	return false
}

func (c *chanState) tryRecv(e *Exec) (v any, ok, done bool) {
	t := e.cur
	if len(c.buf) > 0 {
		c.write(t, 13)
		v = c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		t.vc.join(c.bufVC[0])
		c.bufVC = c.bufVC[1:]
		if len(c.slotVC) > 0 {
			c.slotVC[c.recvx%len(c.slotVC)] = t.vc.clone()
			c.recvx++
			t.tick()
		}
		if s := dequeue(&c.sendq); s != nil {
			// a blocked sender's value takes the free slot
			s.t.vc.join(t.vc)
			c.buf = append(c.buf, s.val)
			c.bufVC = append(c.bufVC, s.t.vc.clone())
			c.sendx++
			s.t.h = mix(s.t.h, c.h)
			s.t.tick()
			s.done = true
			e.wake(s.t)
		}
		return v, true, true
	}
	if s := dequeue(&c.sendq); s != nil {
		c.write(t, 14)
		v = s.val
		t.vc.join(s.t.vc)
		s.t.vc.join(t.vc)
		t.tick()
		s.t.tick()
		s.t.h = mix(s.t.h, c.h)
		s.done = true
		s.ok = true
		e.wake(s.t)
		return v, true, true
	}
	if c.closed {
		c.read(t, 15)
		t.vc.join(c.vc)
		return nil, false, true
	}
	return nil, false, false
}

func (c *chanState) doClose(e *Exec, t *Thread) {
	if c.closed {
		panic(fmt.Errorf("close of closed channel"))
	}
	c.write(t, 16)
	c.closed = true
	c.vc = t.vc.clone()
	t.tick()
	for {
		s := dequeue(&c.recvq)
		if s == nil {
			break
		}
		s.val, s.ok, s.done = nil, false, true
		s.t.vc.join(c.vc)
		s.t.h = mix(s.t.h, c.h)
		e.wake(s.t)
	}
	for {
		s := dequeue(&c.sendq)
		if s == nil {
			break
		}
		s.done = true
		s.ok = false // panics on wake
		s.val = closedMark
		s.t.h = mix(s.t.h, c.h)
		e.wake(s.t)
	}
}

var closedMark any = &struct{ x int }{}

// SendW is a channel to send on.
type SendW[T any] struct{ ch chan<- T }

func SW[T any](ch chan<- T) SendW[T] { return SendW[T]{ch} }

func (w SendW[T]) Send(v T) {
	if ex == nil {
		w.ch <- v
		return
	}
	e := ex
	p := *(*unsafe.Pointer)(unsafe.Pointer(&w.ch))
	if p == nil {
		e.block("send on nil channel")
		return
	}
	e.point()
	c := e.chanOf(p, w.ch, cap(w.ch))
	if e.trace {
		e.tracef("send %v", short(v))
	}
	e.chanSend(c, v)
}

func (e *Exec) chanSend(c *chanState, v any) {
	if c.trySend(e, v) {
		return
	}
	t := e.cur
	s := &sudog{t: t, ch: c, val: v, send: true, ok: true}
	c.write(t, 17)
	c.sendq = append(c.sendq, s)
	e.block("chan send")
	if s.val == closedMark {
		panic(fmt.Errorf("send on closed channel"))
	}
}

func Recv2[T any](ch <-chan T) (T, bool) {
	var z T
	if ex == nil {
		v, ok := <-ch
		return v, ok
	}
	e := ex
	p := chanPtr(ch)
	if p == nil {
		e.block("receive from nil channel")
		return z, false
	}
	e.point()
	c := e.chanOf(p, ch, cap(ch))
	v, ok := e.chanRecv(c)
	if e.trace {
		e.tracef("recv %v %v", short(v), ok)
	}
	if !ok || v == nil {
		return z, ok
	}
	return v.(T), ok
}

func (e *Exec) chanRecv(c *chanState) (any, bool) {
	v, ok, done := c.tryRecv(e)
	if !done {
		t := e.cur
		s := &sudog{t: t, ch: c}
		c.write(t, 18)
		c.recvq = append(c.recvq, s)
		e.block("chan receive")
		v, ok = s.val, s.ok
	}
	return v, ok
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Close[T any](ch chan<- T) {
	if ex == nil {
		close(ch)
		return
	}
	e := ex
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		panic(fmt.Errorf("close of nil channel"))
	}
	e.point()
	e.tracef("close channel")
	e.chanOf(p, ch, cap(ch)).doClose(e, e.cur)
}

func LenC[T any](ch <-chan T) int {
	if ex == nil {
		return len(ch)
	}
	p := chanPtr(ch)
	if p == nil {
		return 0
	}
	ex.point()
	c := ex.chanOf(p, ch, cap(ch))
	c.read(ex.cur, 19)
	return len(c.buf)
}

// RangeC iterates over a channel.
type RangeC[T any] struct {
	ch <-chan T
	V  T
}

func RngC[T any](ch <-chan T) *RangeC[T] { return &RangeC[T]{ch: ch} }
func (r *RangeC[T]) Next() bool {
	var ok bool
	r.V, ok = Recv2(r.ch)
	return ok
}
func (r *RangeC[T]) Zero() (z T) { return }

// ------------------------------------------------------------------ select

type Case interface {
	info() (p unsafe.Pointer, keep any, cp int, send bool, val any)
	result(v any, ok bool)
}

type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RC[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }
func (c *RCase[T]) info() (unsafe.Pointer, any, int, bool, any) {
	return chanPtr(c.ch), c.ch, cap(c.ch), false, nil
}
func (c *RCase[T]) result(v any, ok bool) {
	c.OK = ok
	if ok && v != nil {
		c.V = v.(T)
	}
}

type SCase[T any] struct {
	ch chan<- T
	v  T
}

func SC[T any](ch chan<- T) *SCase[T] { return &SCase[T]{ch: ch} }
func (c *SCase[T]) Val(v T) *SCase[T] { c.v = v; return c }
func (c *SCase[T]) info() (unsafe.Pointer, any, int, bool, any) {
	return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)), c.ch, cap(c.ch), true, c.v
}
func (c *SCase[T]) result(v any, ok bool) {}

type Selector struct {
	fired bool
	won   *sudog
}

// Select executes a select statement and returns the index of the chosen
// case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	e := ex
	if e == nil {
		panic("mc.Select outside an execution")
	}
	e.point()
	chs := make([]*chanState, len(cases))
	var ready []int
	for i, c := range cases {
		p, keep, cp, send, _ := c.info()
		if p == nil {
			continue
		}
		cs := e.chanOf(p, keep, cp)
		chs[i] = cs
		if send && cs.canSend() || !send && cs.canRecv() {
			ready = append(ready, i)
		}
	}
	t := e.cur
	if len(ready) > 0 {
		// polling all channels is a read of each
		for i, cs := range chs {
			if cs != nil {
				_ = i
				cs.read(t, 20)
			}
		}
		k := e.selectCase(ready)
		c := cases[k]
		_, _, _, send, val := c.info()
		t.h = mix(t.h, uint64(k)+1)
		if send {
			if !chs[k].trySend(e, val) {
				panic("mc: select send")
			}
			if e.trace {
				e.tracef("select send case %d %v", k, short(val))
			}
		} else {
			v, ok, done := chs[k].tryRecv(e)
			if !done {
				panic("mc: select recv")
			}
			c.result(v, ok)
			if e.trace {
				e.tracef("select recv case %d %v %v", k, short(v), ok)
			}
		}
		return k
	}
	if hasDefault {
		for _, cs := range chs {
			if cs != nil {
				cs.read(t, 21)
			}
		}
		e.tracef("select default")
		return -1
	}
	sel := &Selector{}
	for i, c := range cases {
		cs := chs[i]
		if cs == nil {
			continue
		}
		_, _, _, send, val := c.info()
		s := &sudog{t: t, ch: cs, idx: i, val: val, send: send, sel: sel, ok: send}
		cs.write(t, 22)
		if send {
			cs.sendq = append(cs.sendq, s)
		} else {
			cs.recvq = append(cs.recvq, s)
		}
	}
	e.block("select")
	w := sel.won
	for _, cs := range chs {
		if cs != nil && cs != w.ch {
			cs.recvq = dropFired(cs.recvq)
			cs.sendq = dropFired(cs.sendq)
		}
	}
	if w.send {
		if w.val == closedMark {
			panic(fmt.Errorf("send on closed channel"))
		}
		e.tracef("select sent case %d", w.idx)
	} else {
		cases[w.idx].result(w.val, w.ok)
		if e.trace {
			e.tracef("select got case %d %v %v", w.idx, short(w.val), w.ok)
		}
	}
	return w.idx
}

func dropFired(q []*sudog) []*sudog {
	out := q[:0:0]
	for _, s := range q {
		if s.sel == nil || !s.sel.fired {
			out = append(out, s)
		}
	}
	return out
}

// BlockForever is `select {}`.
func BlockForever() {
	ex.block("select{}")
	panic(abortSentinel)
}

// Recover filters the abort sentinel out of recover().
func Recover(r any) any {
	if r == abortSentinel {
		panic(abortSentinel)
	}
	return r
}

func short(v any) string {
	s := fmt.Sprintf("%T", v)
	switch x := v.(type) {
	case error:
		s = "error(" + x.Error() + ")"
	case string, int, bool, uint64:
		s = fmt.Sprint(x)
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// Gosched yields to other threads.
func Gosched() {
	if ex == nil {
		return
	}
	ex.cur.yielded = true
	ex.point()
}

// Rand64 is a deterministic random source.
func Rand64() uint64 {
	if ex == nil {
		return 0x5eed
	}
	ex.randState = mix(ex.randState, 1)
	return ex.randState
}

// RandHook lets a scenario decide the bytes of crypto/rand.
var RandHook func(b []byte) bool

// CloseNow closes a channel within the current visible operation.
func CloseNow[T any](ch chan T) {
	e := ex
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	c := e.chanOf(p, ch, cap(ch))
	t := e.cur
	if t == nil {
		t = &Thread{vc: VC{1}}
	}
	c.doClose(e, t)
}

// Tick is a globally ordered harness event; it returns its sequence number.
func Tick(what string) int {
	s := ExecLocal("mc.tick", func() any { return &tickState{} }).(*tickState)
	s.vis.Do(what)
	s.n++
	return s.n
}

type tickState struct {
	vis VisOp
	n   int
}
