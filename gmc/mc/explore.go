package mc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Scenario is one closed driver.
type Scenario struct {
	Name string
	Doc  string
	Cfg  Config
	Main func()
}

var scenarios = map[string]*Scenario{}

func Register(s *Scenario) {
	if scenarios[s.Name] != nil {
		panic("duplicate scenario " + s.Name)
	}
	scenarios[s.Name] = s
}

// ModelCheck compares the models the checks rely on with what they model.
var ModelCheck func() (extra map[string]any, traces int64, err error)

// RunOnce runs f as the main thread of one execution on the base schedule and
// returns how it failed.
func RunOnce(f func()) string {
	e := newExec(Config{})
	visit = nil
	for _, f := range ResetHooks {
		f()
	}
	e.run(f)
	if e.failure != nil {
		return e.failure.Kind + ": " + e.failure.Msg
	}
	return ""
}

func Lookup(name string) *Scenario { return scenarios[name] }

func ScenarioNames() []string {
	var out []string
	for n := range scenarios {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// ResetHooks re-initialise the package-level state of the code under test
// before every execution (filled by the rewritten program).
var ResetHooks []func()

type item struct {
	P []choice `json:"p"`
	H uint64   `json:"h"`
	S bool     `json:"s"`
}

// Finding is a violation with its reproduction.
type Finding struct {
	Scenario string   `json:"scenario"`
	Policy   int      `json:"policy"`
	Bound    int      `json:"bound"`
	Choices  []choice `json:"choices"`
	Promoted []string `json:"promoted"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Stack    string   `json:"stack"`
	Trace    []string `json:"trace,omitempty"`
}

type jobMsg struct {
	Scenario string  `json:"sc"`
	Policy   int     `json:"pol"`
	Bound    int     `json:"b"`
	Gen      int     `json:"gen"`
	Promoted []int32 `json:"prom"`
	Items    []item  `json:"items"`
	SliceMs  int     `json:"ms"`
}

type resMsg struct {
	Gen      int              `json:"gen"`
	Left     []item           `json:"left"`
	Execs    int64            `json:"execs"`
	Pruned   int64            `json:"pruned"`
	Steps    int64            `json:"steps"`
	Cases    int64            `json:"cases"`
	States   int64            `json:"states"`
	Horizon  int64            `json:"hor"`
	Diverged []string         `json:"div"`
	Races    []int32          `json:"races"`
	Fails    []Finding        `json:"fails"`
	Outcomes map[string]int64 `json:"out"`
	MaxSteps int              `json:"maxsteps"`
	MaxThr   int              `json:"maxthr"`
	MaxDec   int              `json:"maxdec"`
}

type explorer struct {
	sc      *Scenario
	pol     int
	bound   int
	gen     int
	visited map[uint64]int8
	res     *resMsg
	failSig map[string]bool
}

const maxVisited = 6_000_000

func (x *explorer) reset(sc *Scenario, pol, bound, gen int) {
	x.sc, x.pol, x.bound, x.gen = sc, pol, bound, gen
	x.visited = map[uint64]int8{}
	x.failSig = map[string]bool{}
}

func (x *explorer) newRes() {
	x.res = &resMsg{Gen: x.gen, Outcomes: map[string]int64{}}
}

var curExec atomic.Int64
var statusF *os.File // the item being executed, for post-mortem

func (x *explorer) runOne(it item, trace bool, useCache bool) *Exec {
	cfg := x.sc.Cfg
	cfg.Policy = x.pol
	e := newExec(cfg)
	e.prefix = it.P
	e.budget = x.bound
	e.expHash, e.expSet = it.H, it.S
	e.trace = trace
	if useCache {
		visit = func(h uint64, budget int) bool {
			b, ok := x.visited[h]
			if ok && int(b) >= budget+1 {
				return false
			}
			if !ok {
				if len(x.visited) >= maxVisited {
					return true
				}
				e.newStates++
			}
			x.visited[h] = int8(budget + 1)
			return true
		}
	} else {
		visit = nil
	}
	for _, f := range ResetHooks {
		f()
	}
	curExec.Add(1)
	if statusF != nil {
		b, _ := json.Marshal(&it)
		b = append(b, '\n')
		statusF.WriteAt(b, 0)
	}
	e.run(x.sc.Main)
	return e
}

// step runs one item and returns its children.
func (x *explorer) step(it item) []item {
	e := x.runOne(it, false, true)
	r := x.res
	r.Execs++
	r.Steps += int64(e.steps)
	r.Cases += e.cases
	r.States += int64(e.newStates)
	if e.pruned {
		r.Pruned++
	}
	if e.hitHorizon {
		r.Horizon++
	}
	r.MaxSteps = max(r.MaxSteps, e.steps)
	r.MaxThr = max(r.MaxThr, len(e.threads))
	r.MaxDec = max(r.MaxDec, e.ndec)
	for id := range e.races {
		if !promoted[id] {
			r.Races = append(r.Races, id)
			promoted[id] = true // stop reporting; the master restarts
		}
	}
	if e.diverged != "" {
		if len(r.Diverged) < 3 {
			r.Diverged = append(r.Diverged, e.diverged+" prefix "+fmt.Sprint(it.P))
		}
		return nil
	}
	if f := e.failure; f != nil {
		sig := f.Kind + ":" + f.Msg
		if !x.failSig[sig] && len(x.failSig) < 200 {
			x.failSig[sig] = true
			r.Fails = append(r.Fails, Finding{Scenario: x.sc.Name, Policy: x.pol, Bound: x.bound, Choices: it.P, Kind: f.Kind, Msg: f.Msg, Stack: f.Stack})
		}
	} else if !e.pruned {
		if len(r.Outcomes) < 400 {
			r.Outcomes[e.outcome]++
		}
	}
	var kids []item
	for _, d := range e.decs {
		if !d.free && e.budget <= 0 {
			continue
		}
		for a := 1; a < d.n; a++ {
			p := make([]choice, len(it.P)+1)
			copy(p, it.P)
			p[len(it.P)] = choice{d.idx, a}
			kids = append(kids, item{P: p, H: d.hash, S: true})
		}
	}
	return kids
}

func setPromoted(ids []int32) {
	promoted = map[int32]bool{}
	for _, i := range ids {
		promoted[i] = true
	}
}

// WorkerMain serves exploration jobs on stdin/stdout.
func WorkerMain(statusFile string) {
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	statusF, _ = os.Create(statusFile)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(privateStdout(), 1<<20)
	go watchdog()
	x := &explorer{gen: -1}
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	key := ""
	for {
		var j jobMsg
		if err := dec.Decode(&j); err != nil {
			return
		}
		k := fmt.Sprintf("%s/%d/%d/%d", j.Scenario, j.Policy, j.Bound, j.Gen)
		if k != key {
			key = k
			x.reset(Lookup(j.Scenario), j.Policy, j.Bound, j.Gen)
		}
		setPromoted(j.Promoted)
		x.newRes()
		stack := j.Items
		end := time.Now().Add(time.Duration(j.SliceMs) * time.Millisecond)
		n := 0
		for len(stack) > 0 {
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			kids := x.step(it)
			for i := len(kids) - 1; i >= 0; i-- {
				stack = append(stack, kids[i])
			}
			n++
			if len(x.res.Races) > 0 {
				break
			}
			if n&7 == 0 && time.Now().After(end) {
				break
			}
		}
		x.res.Left = stack
		enc.Encode(x.res)
		out.Flush()
	}
}

// privateStdout keeps the protocol stream away from whatever the code under
// test prints.
func privateStdout() *os.File {
	fd, err := syscall.Dup(1)
	if err != nil {
		return os.Stdout
	}
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		syscall.Dup2(int(null.Fd()), 1)
	}
	return os.NewFile(uintptr(fd), "protocol")
}

func watchdog() {
	last := int64(-1)
	since := time.Now()
	for {
		time.Sleep(time.Second)
		c := curExec.Load()
		if c != last || ex == nil {
			last = c
			since = time.Now()
			continue
		}
		if time.Since(since) > 40*time.Second {
			os.Exit(97)
		}
	}
}

// ReplayMain re-executes a finding once and prints the outcome as JSON.
func ReplayMain(file string, trace bool) {
	debug.SetMaxStack(64 << 20)
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var f Finding
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if !trace {
		jsonOut = privateStdout()
	}
	e := ReplayFinding(&f, trace)
	if trace {
		for _, l := range e.traceLog {
			fmt.Println(l)
		}
		if e.failure != nil {
			fmt.Printf("FAIL %s: %s\n%s\n", e.failure.Kind, e.failure.Msg, e.failure.Stack)
		} else {
			fmt.Println("OK outcome:", e.outcome, e.diverged)
		}
		return
	}
	out := jsonOut
	res := struct{ Kind, Msg, Diverged string }{}
	if e.failure != nil {
		res.Kind, res.Msg = e.failure.Kind, e.failure.Msg
	}
	res.Diverged = e.diverged
	json.NewEncoder(out).Encode(res)
}

var jsonOut *os.File

func ReplayFinding(f *Finding, trace bool) *Exec {
	sc := Lookup(f.Scenario)
	if sc == nil {
		fmt.Println("no scenario", f.Scenario)
		os.Exit(2)
	}
	prom := map[string]bool{}
	for _, n := range f.Promoted {
		prom[n] = true
	}
	promoted = map[int32]bool{}
	for i, n := range FieldName {
		if prom[n] {
			promoted[int32(i)] = true
		}
	}
	x := &explorer{}
	x.reset(sc, f.Policy, f.Bound, 0)
	return x.runOne(item{P: f.Choices}, trace, false)
}

func promotedNames(ids map[int32]bool) []string {
	m := map[string]bool{}
	for i := range ids {
		m[fname(i)] = true
	}
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func idsOfNames(names []string) map[int32]bool {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	out := map[int32]bool{}
	for i, n := range FieldName {
		if set[n] {
			out[int32(i)] = true
		}
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = strings.Contains
