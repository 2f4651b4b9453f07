// Package mc is a stateless model checker for Go code that has been rewritten
// (see ../rewrite) so that every synchronisation operation, clock access and
// shared-memory access goes through this package.  One execution runs all
// "threads" (rewritten goroutines) as coroutines, exactly one at a time; at
// every visible operation the scheduler decides who runs next.  The explorer
// (explore.go) enumerates those decisions.
package mc

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// ---------------------------------------------------------------- hashing

func mix(a, b uint64) uint64 {
	x := a ^ (b+0x9e3779b97f4a7c15)*0xff51afd7ed558ccd
	x ^= x >> 32
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 29
	x *= 0x9e3779b97f4a7c15
	x ^= x >> 32
	return x
}

// ---------------------------------------------------------------- threads

type tstate uint8

const (
	tsReady   tstate = iota
	tsPred           // ready iff w.ready(t)
	tsBlocked        // needs an explicit wake
	tsDone
)

type waiter interface{ ready(t *Thread) bool }

// VC is a vector clock indexed by thread id.
type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o), len(o)+8)
		copy(n, *v)
		*v = n
	}
	a := *v
	for i, x := range o {
		if x > a[i] {
			a[i] = x
		}
	}
}

func (v VC) clone() VC {
	n := make(VC, len(v))
	copy(n, v)
	return n
}

type Thread struct {
	id      int
	path    []uint32
	key     uint64
	nchild  uint32
	co      *coro
	fn      func()
	h       uint64
	vc      VC
	state   tstate
	w       waiter
	what    string // description of the blocking operation
	name    string
	file    string
	quiet   bool // daemon: not counted as a leak
	yielded bool
	// select / channel hand-off
	sudogs  []*sudog
	won     *sudog
	started bool
}

func (t *Thread) canRun() bool {
	switch t.state {
	case tsReady:
		return true
	case tsPred:
		return t.w.ready(t)
	}
	return false
}

func (t *Thread) epoch() uint32 { return t.vc[t.id] }
func (t *Thread) tick()         { t.vc[t.id]++ }

// coro is a reusable coroutine.
type coro struct {
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	t     *Thread
}

var coroPool []*coro

func getCoro() *coro {
	if n := len(coroPool); n > 0 {
		c := coroPool[n-1]
		coroPool = coroPool[:n-1]
		return c
	}
	c := &coro{}
	c.next, c.stop = iter.Pull(func(yield func(struct{}) bool) {
		c.yield = yield
		for {
			c.run()
			if !yield(struct{}{}) {
				return
			}
		}
	})
	return c
}

type abortT struct{}

var abortSentinel any = &abortT{}

func (c *coro) run() {
	t := c.t
	defer func() {
		r := recover()
		if r == abortSentinel {
			t.state = tsDone
			return
		}
		if r != nil {
			t.state = tsDone
			if !ex.aborting {
				ex.fail("panic", fmt.Sprintf("panic: %v", r), string(debug.Stack()))
			}
			return
		}
	}()
	t.fn()
	t.state = tsDone
	if !ex.aborting {
		ex.threadEnd(t)
	}
}

// ---------------------------------------------------------------- execution

type decision struct {
	idx   int
	kind  byte // 's' schedule, 'c' select case, 'f' free choice, 'e' environment (cost 1)
	n     int
	hash  uint64
	free  bool
	label string
}

// Fail describes a violation found in one execution.
type Fail struct {
	Kind  string
	Msg   string
	Stack string
	Trace []string
}

type Config struct {
	Policy      int   // 0: lowest thread first, 1: highest first, 2: round robin
	EarlyTimers bool  // firing the earliest timer early (at most earlyHorizon) is a (cost 1) scheduling alternative
	MaxSteps    int   // horizon
	MaxTime     int64 // virtual nanoseconds
	Window      bool  // true: decisions only count between ExploreOn/ExploreOff
}

type choice struct {
	Idx int
	Alt int
}

type Exec struct {
	cfg      Config
	threads  []*Thread // by id
	order    []*Thread // live threads, canonical order
	cur      *Thread
	nextT    *Thread
	steps    int
	idleStep int
	aborting bool
	ended    bool
	failure  *Fail
	outcome  string

	// decisions
	prefix   []choice // sorted by Idx
	ppos     int
	ndec     int
	budget   int
	window   bool
	decs     []decision // decisions in new territory
	expHash  uint64
	expSet   bool
	diverged string
	pruned   bool
	lastPref int

	// virtual time
	clock  int64
	timers timerHeap
	tseq   uint64
	clockH uint64

	// shadows
	chans map[uintptrKey]*chanState
	mem   map[uintptrKey]*memState
	maps  map[uintptrKey]*memState

	races      map[int32]string
	trace      bool
	traceLog   []string
	nvis       int
	randState  uint64
	newStates  int
	cases      int64
	notes      []string
	userSeq    int
	extra      map[string]any
	onEnd      []func()
	hitHorizon bool
	lastHash   uint64
	hashCur    bool
	ptrs       map[uintptrKey]int
}

var ex *Exec

const epoch0 = int64(1700000000) * int64(time.Second)

// Active reports whether an execution is running.
func Active() bool { return ex != nil }

func newExec(cfg Config) *Exec {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = int64(30 * time.Minute)
	}
	e := &Exec{cfg: cfg, chans: map[uintptrKey]*chanState{}, mem: map[uintptrKey]*memState{}, maps: map[uintptrKey]*memState{},
		races: map[int32]string{}, clock: epoch0, randState: 0x1234567, lastPref: -1, hashCur: true}
	e.window = !cfg.Window
	return e
}

func (e *Exec) fail(kind, msg, stack string) {
	if e.failure == nil {
		e.failure = &Fail{Kind: kind, Msg: msg, Stack: trimStack(stack)}
	}
	e.ended = true
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "/gmc/mc/") || strings.HasPrefix(l, "gmc/mc.") || strings.Contains(l, "/src/runtime/") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "iter.") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// FailNow records a property violation and ends the execution.
func FailNow(format string, a ...any) {
	if ex == nil {
		panic(fmt.Sprintf(format, a...))
	}
	if ex.aborting {
		panic(abortSentinel)
	}
	ex.fail("oracle", fmt.Sprintf(format, a...), string(debug.Stack()))
	ex.stopHere()
}

// Outcome notes an observed outcome (for the distinct-outcome statistics).
func Outcome(format string, a ...any) {
	if ex == nil || ex.aborting {
		return
	}
	ex.outcome += fmt.Sprintf(format, a...) + ";"
}

// CountCase counts one input of an enumeration inside an execution.
func CountCase() {
	if ex != nil {
		ex.cases++
	}
}

// stopHere ends the execution from within a thread.
func (e *Exec) stopHere() {
	e.ended = true
	e.switchOut()
}

// switchOut transfers control to the engine loop.
func (e *Exec) switchOut() {
	t := e.cur
	if !t.co.yield(struct{}{}) {
		panic(abortSentinel)
	}
	if e.aborting {
		panic(abortSentinel)
	}
	e.cur = t
}

func pathLess(a, b []uint32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func (e *Exec) spawn(parent *Thread, fn func(), name string, vc VC) *Thread {
	t := &Thread{id: len(e.threads), fn: fn, name: name}
	if parent != nil {
		parent.nchild++
		t.path = append(append(make([]uint32, 0, len(parent.path)+1), parent.path...), parent.nchild)
		t.key = mix(parent.key, uint64(parent.nchild))
		parent.h = mix(parent.h, 77)
		t.h = mix(t.key, parent.h)
		t.vc = make(VC, t.id+1, t.id+9)
		copy(t.vc, parent.vc)
		t.quiet = parent.quiet
	} else {
		// engine spawned (timers): path under a reserved root
		e.userSeq++
		t.path = []uint32{1 << 20, uint32(e.userSeq)}
		t.key = mix(0xabcdef, uint64(e.userSeq))
		t.h = mix(t.key, e.clockH)
		t.vc = make(VC, t.id+1, t.id+9)
		copy(t.vc, vc)
	}
	t.vc[t.id] = 1
	if parent != nil {
		parent.tick()
	}
	e.threads = append(e.threads, t)
	// insert in canonical order
	i := len(e.order)
	for i > 0 && pathLess(t.path, e.order[i-1].path) {
		i--
	}
	e.order = append(e.order, nil)
	copy(e.order[i+1:], e.order[i:])
	e.order[i] = t
	return t
}

// Go starts a new thread.
func Go(fn func()) {
	if ex == nil {
		panic("mc.Go outside an execution")
	}
	e := ex
	if e.aborting {
		panic(abortSentinel)
	}
	name, file := callerName(2)
	t := e.spawn(e.cur, fn, name, nil)
	t.file = file
	e.tracef("go %s", name)
	e.point()
}

// GoNamed starts a thread with the given name (harness use).
func GoNamed(name string, fn func()) {
	e := ex
	if e.aborting {
		panic(abortSentinel)
	}
	t := e.spawn(e.cur, fn, name, nil)
	t.file = "harness"
	e.tracef("go %s", name)
	e.point()
}

func callerName(skip int) (string, string) {
	_, file, line, _ := runtime.Caller(skip)
	return shortFile(file) + fmt.Sprintf(":%d", line), file
}

func shortFile(file string) string {
	parts := strings.Split(file, "/")
	if len(parts) > 2 {
		parts = parts[len(parts)-2:]
	}
	return strings.Join(parts, "/")
}

func (e *Exec) threadEnd(t *Thread) {
	for i, x := range e.order {
		if x == t {
			e.order = append(e.order[:i], e.order[i+1:]...)
			break
		}
	}
}

func (e *Exec) tracef(format string, a ...any) {
	if !e.trace {
		return
	}
	loc := ""
	var pcs [24]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	cnt := 0
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/gmc/") && !strings.Contains(f.File, "/src/iter/") && !strings.Contains(f.File, "/src/runtime/") {
			loc += fmt.Sprintf(" %s:%d", shortFile(f.File), f.Line)
			cnt++
			if cnt >= 2 {
				break
			}
		}
		if !more {
			break
		}
	}
	name := "-"
	if e.cur != nil {
		name = fmt.Sprintf("T%d(%s)", e.cur.id, e.cur.name)
	}
	e.traceLog = append(e.traceLog, fmt.Sprintf("%8.3fs %-34s %s  @%s", float64(e.clock-epoch0)/1e9, name, fmt.Sprintf(format, a...), loc))
}

// point is a scheduling point of the current thread, which stays ready.
func (e *Exec) point() {
	if e.aborting {
		panic(abortSentinel)
	}
	t := e.cur
	t.state = tsReady
	e.sched(t)
}

// pointPred is a scheduling point of an operation enabled only when w says so.
func (e *Exec) pointPred(w waiter, what string) {
	if e.aborting {
		panic(abortSentinel)
	}
	t := e.cur
	t.state = tsPred
	t.w = w
	t.what = what
	e.sched(t)
	t.state = tsReady
	t.w = nil
}

// block parks the current thread until wake.
func (e *Exec) block(what string) {
	if e.aborting {
		panic(abortSentinel)
	}
	t := e.cur
	t.state = tsBlocked
	t.what = what
	e.sched(t)
}

func (e *Exec) wake(t *Thread) { t.state = tsReady }

func (e *Exec) sched(t *Thread) {
	n := e.pick(t)
	if n == t {
		return
	}
	e.nextT = n // may be nil: ended
	e.switchOut()
}

// pick chooses the next thread; cur may be blocked or done.
func (e *Exec) pick(cur *Thread) *Thread {
	e.steps++
	e.idleStep++
	e.nvis++
	if e.ended {
		return nil
	}
	if e.steps > e.cfg.MaxSteps || e.idleStep > 60000 {
		if e.idleStep > 60000 {
			e.fail("livelock", fmt.Sprintf("livelock: more than %d steps without time passing; threads: %s", e.idleStep, e.liveSummary()), "")
		} else {
			e.hitHorizon = true
		}
		e.ended = true
		return nil
	}
	for {
		curOK := cur != nil && cur.state != tsDone && cur.canRun()
		if curOK && cur.yielded {
			// an explicit yield: prefer others
			cur.yielded = false
			for _, x := range e.order {
				if x != cur && x.canRun() {
					curOK = false
					break
				}
			}
		}
		if !e.recording() {
			if curOK {
				return cur
			}
			if n := e.firstReady(cur); n != nil {
				return n
			}
		} else {
			var opts [64]*Thread
			n := 0
			if curOK {
				opts[0] = cur
				n = 1
			}
			n = e.collect(&opts, n, cur, curOK)
			if n > 0 {
				early := e.cfg.EarlyTimers && e.timers.live() > 0 && e.timers.a[0].when-e.clock <= earlyHorizon
				tot := n
				if early {
					tot++
				}
				if tot == 1 {
					return opts[0]
				}
				e.hashCur = curOK || e.cfg.Policy == 2
				k := e.decide('s', tot, false, "")
				e.hashCur = true
				if e.ended {
					return nil
				}
				if k == n { // fire the earliest timer early
					e.fireNext()
					continue
				}
				return opts[k]
			}
		}
		// nothing enabled: let time pass
		if !e.fireNext() {
			e.fail("deadlock", "deadlock: every thread is blocked and no timer is pending; threads: "+e.liveSummary(), "")
			return nil
		}
		if e.ended {
			return nil
		}
	}
}

func (e *Exec) firstReady(cur *Thread) *Thread {
	switch e.cfg.Policy {
	case 1:
		for i := len(e.order) - 1; i >= 0; i-- {
			if t := e.order[i]; t.canRun() {
				return t
			}
		}
	case 2:
		k := 0
		for i, t := range e.order {
			if cur != nil && (t == cur || pathLess(cur.path, t.path)) {
				k = i
				break
			}
		}
		n := len(e.order)
		for i := 0; i < n; i++ {
			t := e.order[(k+i)%n]
			if t != cur && t.canRun() {
				return t
			}
		}
		if cur != nil && cur.state != tsDone && cur.canRun() {
			return cur
		}
	default:
		for _, t := range e.order {
			if t.canRun() {
				return t
			}
		}
	}
	return nil
}

func (e *Exec) collect(opts *[64]*Thread, n int, cur *Thread, curOK bool) int {
	if !curOK {
		f := e.firstReady(cur)
		if f == nil {
			return 0
		}
		opts[0] = f
		n = 1
	}
	first := opts[0]
	for _, t := range e.order {
		if t != first && t.canRun() {
			if curOK == false && t == cur && cur.state == tsDone {
				continue
			}
			if n < 60 {
				opts[n] = t
				n++
			}
		}
	}
	return n
}

func (e *Exec) recording() bool {
	return e.window && e.budget > 0
}

// stateHash identifies the happens-before state reached.
func (e *Exec) stateHash() uint64 {
	var s uint64
	for _, t := range e.threads {
		s += mix(t.key, t.h)
	}
	if e.hashCur && e.cur != nil && e.cur.state != tsDone {
		s = mix(s, e.cur.key)
	}
	return mix(mix(s, uint64(e.clock)), e.clockH)
}

// decide consumes one decision with n alternatives; 0 is the default.
func (e *Exec) decide(kind byte, n int, free bool, label string) int {
	idx := e.ndec
	e.ndec++
	if e.ppos < len(e.prefix) {
		c := e.prefix[e.ppos]
		if c.Idx == idx {
			if e.ppos == len(e.prefix)-1 && e.expSet {
				if h := e.stateHash(); h != e.expHash {
					e.diverged = fmt.Sprintf("replay diverged at decision %d (alternatives %d)", idx, n)
					e.ended = true
					return 0
				}
			}
			e.ppos++
			if c.Alt >= n {
				e.diverged = fmt.Sprintf("replay diverged: decision %d has %d alternatives, wanted %d", idx, n, c.Alt)
				e.ended = true
				return 0
			}
			if c.Alt != 0 && !free {
				e.budget--
			}
			e.tracef("## decision %d/%c: alternative %d of %d", idx, kind, c.Alt, n)
			return c.Alt
		}
		return 0
	}
	h := e.stateHash()
	if kind == 's' && h == e.lastHash {
		// nothing happened since the previous decision: same state
		return 0
	}
	if kind == 's' {
		e.lastHash = h
	}
	if visit != nil {
		if !visit(mix(h, uint64(kind)), e.budget) {
			e.pruned = true
			e.ended = true
			return 0
		}
	}
	e.decs = append(e.decs, decision{idx: idx, kind: kind, n: n, hash: h, free: free, label: label})
	return 0
}

// visit is the state cache; it returns false when the state was already
// visited with at least this remaining budget.
var visit func(h uint64, budget int) bool

// Choose is a free (cost 0) enumerated choice of the harness.
func Choose(n int, label string) int {
	e := ex
	if n <= 1 {
		return 0
	}
	if e.aborting {
		panic(abortSentinel)
	}
	k := e.decide('f', n, true, label)
	if e.ended {
		e.stopHere()
	}
	e.cur.h = mix(e.cur.h, uint64(k)+1)
	e.tracef("choose %s = %d/%d", label, k, n)
	return k
}

// Fault is an environment choice of cost 1: alternative 0 is normal behaviour.
func Fault(n int, label string) int {
	e := ex
	if n <= 1 || e == nil {
		return 0
	}
	if e.aborting {
		panic(abortSentinel)
	}
	if !e.recording() {
		return 0
	}
	k := e.decide('e', n, false, label)
	if e.ended {
		e.stopHere()
	}
	if k != 0 {
		e.cur.h = mix(e.cur.h, uint64(k)+1)
		e.tracef("fault %s = %d/%d", label, k, n)
	}
	return k
}

// selectCase chooses among ready select cases (first is the default).
func (e *Exec) selectCase(ready []int) int {
	if len(ready) == 1 {
		return ready[0]
	}
	k := 0
	if e.recording() {
		k = e.decide('c', len(ready), false, "")
		if e.ended {
			e.stopHere()
		}
	}
	return ready[k]
}

// ExploreOn starts the window in which scheduling decisions are explored.
func ExploreOn()  { ex.window = true }
func ExploreOff() { ex.window = false }

func (e *Exec) liveSummary() string {
	var b strings.Builder
	for _, t := range e.order {
		if t.state == tsDone {
			continue
		}
		if t.canRun() {
			fmt.Fprintf(&b, "[T%d %s: runnable] ", t.id, t.name)
		} else {
			fmt.Fprintf(&b, "[T%d %s: %s] ", t.id, t.name, t.what)
		}
	}
	return b.String()
}

// LiveThreads lists the unfinished threads whose start site satisfies keep.
func LiveThreads(keep func(name, file string) bool) []string {
	var out []string
	for _, t := range ex.order {
		if t.state == tsDone || t == ex.cur || t.quiet {
			continue
		}
		if keep == nil || keep(t.name, t.file) {
			out = append(out, fmt.Sprintf("%s (%s)", t.name, t.what))
		}
	}
	return out
}

// run executes main under the scheduler.
func (e *Exec) run(main func()) {
	ex = e
	t := e.spawn(nil, nil, "main", nil)
	t.path = []uint32{0}
	t.key = 1
	t.h = 1
	t.file = "harness"
	t.fn = func() {
		main()
		e.ended = true
	}
	e.nextT = t
	for !e.ended {
		n := e.nextT
		if n == nil {
			break
		}
		if n.co == nil {
			n.co = getCoro()
			n.co.t = n
		}
		n.started = true
		e.cur = n
		n.co.next()
		if n.state == tsDone {
			n.co.t = nil
			coroPool = append(coroPool, n.co)
			n.co = nil
			if e.ended {
				break
			}
			e.nextT = e.pick(n)
		}
	}
	// unwind what is left
	e.aborting = true
	for _, t := range e.threads {
		for t.co != nil && t.state != tsDone {
			e.cur = t
			t.co.next()
		}
		if t.co != nil {
			t.co.t = nil
			coroPool = append(coroPool, t.co)
			t.co = nil
		}
	}
	ex = nil
}
