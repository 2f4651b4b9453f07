package mc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Run is one scenario in the plan of a property.
type Run struct {
	Scenario string
	Policies []int // scheduling policies explored (default {0})
	Quick    int   // largest deviation bound of the quick tier (-1: skip)
	Thorough int
}

// Plan lists what a property's check explores.
type Plan struct {
	Property    string
	Runs        []Run
	Assumptions []string
	QuickS      int // time budget in seconds
	ThoroughS   int
	// Sequential extra evidence, filled by PreCheck.
	PreCheck func(tier string) (extra map[string]any, traces int64, err error)
}

var plans = map[string]*Plan{}

func RegisterPlan(p *Plan)    { plans[p.Property] = p }
func Plans() map[string]*Plan { return plans }

type known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"` // regexp
	Kind     string `json:"kind"`
	Match    string `json:"match"` // regexp on the message and stack
	What     string `json:"what"`
}

type knownFile struct {
	Findings []known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

// expl is one exploration: a scenario, a policy and a bound.
type expl struct {
	run      Run
	pol      int
	bound    int
	gen      int
	promoted map[int32]bool
	items    []item
	inflight int
	started  bool
	done     bool
	stopped  bool
	res      resMsg
	fails    []Finding
	restarts int
	wall     time.Time
	secs     float64
	hung     int
}

func (x *expl) key() string { return fmt.Sprintf("%s/p%d/b%d", x.run.Scenario, x.pol, x.bound) }

type workerProc struct {
	id     int
	cmd    *exec.Cmd
	enc    *json.Encoder
	in     *bufio.Writer
	out    *json.Decoder
	cur    *expl
	items  []item
	status string
	slice  int
}

type workerMsg struct {
	w   *workerProc
	res *resMsg
	err error
}

// MasterConfig configures one check.
type MasterConfig struct {
	Tier     string
	Seed     int
	Workers  int
	OutDir   string // evidence
	Replays  string // replay files
	Known    string // known findings file
	Budget   time.Duration
	Only     string // regexp on scenario
	MaxBound int
	Verbose  bool
	RaceFile string // cache of promoted fields
	NoEvid   bool
}

type master struct {
	cfg     MasterConfig
	plan    *Plan
	workers []*workerProc
	msgs    chan workerMsg
	prom    map[string]map[int32]bool // per scenario
	viol    []Finding
	knownH  map[string]bool
	kf      knownFile
	unconf  []string
	t0      time.Time
	dl      time.Time
	crash   []string
}

func (m *master) logf(f string, a ...any) {
	if m.cfg.Verbose {
		fmt.Fprintf(os.Stderr, "[%6.1fs] "+f+"\n", append([]any{time.Since(m.t0).Seconds()}, a...)...)
	}
}

func (m *master) spawn(id int) (*workerProc, error) {
	w := &workerProc{id: id, status: filepath.Join(os.TempDir(), fmt.Sprintf("gmc-%d-%d.status", os.Getpid(), id))}
	os.Remove(w.status)
	w.cmd = exec.Command(os.Args[0], "worker", w.status)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var errb strings.Builder
	w.cmd.Stderr = &capWriter{b: &errb}
	si, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	so, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	w.in = bufio.NewWriterSize(si, 1<<20)
	w.enc = json.NewEncoder(w.in)
	w.out = json.NewDecoder(bufio.NewReaderSize(so, 1<<20))
	go func() {
		for {
			r := new(resMsg)
			if err := w.out.Decode(r); err != nil {
				w.cmd.Process.Kill()
				w.cmd.Wait()
				m.msgs <- workerMsg{w, nil, fmt.Errorf("worker ended: %v: %v: %s", err, w.cmd.ProcessState, clip(errb.String(), 1500))}
				return
			}
			m.msgs <- workerMsg{w, r, nil}
		}
	}()
	return w, nil
}

type capWriter struct{ b *strings.Builder }

func (c *capWriter) Write(p []byte) (int, error) {
	if c.b.Len() < 4000 {
		c.b.Write(p)
	}
	return len(p), nil
}

// MasterMain runs the check of one property and returns the exit code.
func MasterMain(property string, cfg MasterConfig) int {
	p := plans[property]
	if p == nil {
		fmt.Println("no plan for property", property)
		return 2
	}
	m := &master{cfg: cfg, plan: p, msgs: make(chan workerMsg, 64), prom: map[string]map[int32]bool{}, knownH: map[string]bool{}, t0: time.Now()}
	if b, err := os.ReadFile(cfg.Known); err == nil {
		if err := json.Unmarshal(b, &m.kf); err != nil {
			fmt.Println("known findings:", err)
			return 2
		}
	}
	budget := cfg.Budget
	if budget == 0 {
		s := p.QuickS
		if cfg.Tier == "thorough" {
			s = p.ThoroughS
		}
		budget = time.Duration(s) * time.Second
	}
	m.dl = m.t0.Add(budget)
	var extra map[string]any
	var traces int64
	if ModelCheck != nil && !cfg.NoEvid {
		var err error
		extra, traces, err = ModelCheck()
		if err != nil {
			fmt.Println("model:", err)
			return 2
		}
	}
	if p.PreCheck != nil {
		var err error
		extra, traces, err = p.PreCheck(cfg.Tier)
		if err != nil {
			fmt.Println("precheck:", err)
			return 2
		}
	}
	var re *regexp.Regexp
	if cfg.Only != "" {
		re = regexp.MustCompile(cfg.Only)
	}
	maxB := 0
	var all []*expl
	for _, r := range p.Runs {
		if re != nil && !re.MatchString(r.Scenario) {
			continue
		}
		if Lookup(r.Scenario) == nil {
			fmt.Println("no scenario", r.Scenario)
			return 2
		}
		top := r.Quick
		if cfg.Tier == "thorough" {
			top = r.Thorough
		}
		if cfg.MaxBound >= 0 {
			top = cfg.MaxBound
		}
		if top < 0 {
			continue
		}
		maxB = max(maxB, top)
		pols := r.Policies
		if len(pols) == 0 {
			pols = []int{0}
		}
		for _, pol := range pols {
			for b := 0; b <= top; b++ {
				all = append(all, &expl{run: r, pol: pol, bound: b})
			}
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].bound < all[j].bound })
	for i := 0; i < cfg.Workers; i++ {
		w, err := m.spawn(i)
		if err != nil {
			fmt.Println("worker:", err)
			return 2
		}
		m.workers = append(m.workers, w)
	}
	m.explore(all)
	for _, w := range m.workers {
		w.cmd.Process.Kill()
		os.Remove(w.status)
	}
	return m.report(all, extra, traces)
}

// pick chooses work for worker w.
func (m *master) pick(w *workerProc, all []*expl) bool {
	var best *expl
	// continue what this worker knows
	for _, x := range all {
		if x.done || x.stopped || len(x.items) == 0 && x.started {
			continue
		}
		if w.cur == x {
			best = x
			break
		}
	}
	if best == nil {
		// prefer unstarted explorations of the lowest bound, then split
		for _, x := range all {
			if !x.started && !x.stopped {
				best = x
				break
			}
			if x.started && !x.done && !x.stopped && len(x.items) > 0 {
				best = x
				break
			}
		}
	}
	if best == nil {
		return false
	}
	x := best
	if !x.started {
		x.started = true
		x.wall = time.Now()
		x.promoted = map[int32]bool{}
		for id := range m.prom[x.run.Scenario] {
			x.promoted[id] = true
		}
		x.items = []item{{}}
		x.res.Outcomes = map[string]int64{}
	}
	// how much to hand out
	n := len(x.items)
	if x.inflight > 0 || n > 1 {
		idle := 0
		for _, v := range m.workers {
			if v.items == nil {
				idle++
			}
		}
		share := (n + idle) / max(idle, 1)
		if share < 1 {
			share = 1
		}
		n = min(n, share)
	}
	// shallow items (front) carry the most work; interleave
	give := x.items[:n:n]
	x.items = x.items[n:]
	w.cur = x
	w.items = give
	if w.slice == 0 {
		w.slice = 200
	}
	x.inflight++
	var prom []int32
	for id := range x.promoted {
		prom = append(prom, id)
	}
	sort.Slice(prom, func(i, j int) bool { return prom[i] < prom[j] })
	ms := 400
	if time.Since(x.wall) > 5*time.Second {
		ms = 1500
	}
	if rest := int(time.Until(m.dl).Milliseconds()); rest < ms {
		ms = max(rest, 50)
	}
	j := jobMsg{Scenario: x.run.Scenario, Policy: x.pol, Bound: x.bound, Gen: x.gen, Promoted: prom, Items: give, SliceMs: ms}
	w.enc.Encode(&j)
	w.in.Flush()
	return true
}

func (m *master) explore(all []*expl) {
	busy := 0
	feed := func() {
		for _, w := range m.workers {
			if w.items == nil && time.Now().Before(m.dl) && m.pick(w, all) {
				busy++
			}
		}
	}
	feed()
	for busy > 0 {
		var msg workerMsg
		select {
		case msg = <-m.msgs:
		case <-time.After(time.Until(m.dl) + 60*time.Second):
			m.logf("giving up on busy workers")
			return
		}
		w := msg.w
		x := w.cur
		if w.items == nil {
			continue
		}
		busy--
		x.inflight--
		given := w.items
		w.items = nil
		if msg.err != nil {
			m.workerDied(w, x, given, msg.err)
		} else {
			m.merge(x, msg.res)
		}
		if x.started && !x.done && x.inflight == 0 && len(x.items) == 0 {
			x.done = true
			x.secs = time.Since(x.wall).Seconds()
			m.logf("done %-40s execs %d states %d steps %d pruned %d fails %d div %d outcomes %d prom %d thr %d dec %d (%.1fs)", x.key(), x.res.Execs, x.res.States, x.res.Steps, x.res.Pruned, len(x.fails), len(x.res.Diverged), len(x.res.Outcomes), len(x.promoted), x.res.MaxThr, x.res.MaxDec, x.secs)
		}
		if len(m.viol) > 0 {
			return
		}
		feed()
	}
}

// workerDied: the code under test brought the process down (a fatal error
// that cannot be recovered) or an execution hung in a tight loop.
func (m *master) workerDied(w *workerProc, x *expl, given []item, err error) {
	st, serr := os.ReadFile(w.status)
	if nw, e2 := m.spawn(w.id); e2 == nil {
		for i := range m.workers {
			if m.workers[i] == w {
				m.workers[i] = nw
			}
		}
	}
	x.stopped = true
	m.logf("worker died on %s: %v", x.key(), err)
	if line, _, ok := strings.Cut(string(st), "\n"); serr == nil && ok {
		var it item
		if json.Unmarshal([]byte(line), &it) == nil {
			f := Finding{Scenario: x.run.Scenario, Policy: x.pol, Bound: x.bound, Choices: it.P, Promoted: promotedNames(x.promoted)}
			switch {
			case w.cmd.ProcessState != nil && w.cmd.ProcessState.ExitCode() == 97:
				f.Kind, f.Msg = "hang", "execution does not terminate: a thread runs forever without reaching any synchronisation"
			case strings.Contains(err.Error(), "stack overflow") || strings.Contains(err.Error(), "stack exceeds"):
				f.Kind, f.Msg = "crash", "fatal error: stack overflow (unbounded recursion)"
			}
			if f.Kind != "" {
				m.finding(x, f)
				return
			}
		}
	}
	m.crash = append(m.crash, fmt.Sprintf("%s: %v", x.key(), err))
}

func (m *master) merge(x *expl, r *resMsg) {
	if r.Gen != x.gen {
		return
	}
	fresh := false
	for _, id := range r.Races {
		n := fname(id)
		for i, fn := range FieldName {
			if fn == n && !x.promoted[int32(i)] {
				x.promoted[int32(i)] = true
				fresh = true
			}
		}
		if m.prom[x.run.Scenario] == nil {
			m.prom[x.run.Scenario] = map[int32]bool{}
		}
	}
	if fresh {
		for id := range x.promoted {
			m.prom[x.run.Scenario][id] = true
		}
	}
	for _, f := range r.Fails {
		f.Promoted = promotedNamesUsed(x, r)
		m.finding(x, f)
	}
	if fresh {
		m.logf("restart %s: %d racy fields %v", x.key(), len(x.promoted), promotedNames(x.promoted))
		x.gen++
		x.restarts++
		x.items = []item{{}}
		ex := x.res.Execs
		st := x.res.Steps
		x.res = resMsg{Outcomes: map[string]int64{}, Execs: ex + r.Execs, Steps: st + r.Steps}
		return
	}
	x.items = append(x.items, r.Left...)
	x.res.Execs += r.Execs
	x.res.Pruned += r.Pruned
	x.res.Steps += r.Steps
	x.res.Cases += r.Cases
	x.res.States += r.States
	x.res.Horizon += r.Horizon
	x.res.Diverged = append(x.res.Diverged, r.Diverged...)
	x.res.MaxSteps = max(x.res.MaxSteps, r.MaxSteps)
	x.res.MaxThr = max(x.res.MaxThr, r.MaxThr)
	x.res.MaxDec = max(x.res.MaxDec, r.MaxDec)
	for k, v := range r.Outcomes {
		x.res.Outcomes[k] += v
	}
}

// promotedNamesUsed: the promotion set the executions of this result ran with
// (the set before the races of this very result were added).
func promotedNamesUsed(x *expl, r *resMsg) []string {
	set := map[int32]bool{}
	for id := range x.promoted {
		set[id] = true
	}
	if len(r.Races) > 0 {
		bad := map[string]bool{}
		for _, id := range r.Races {
			bad[fname(id)] = true
		}
		for id := range set {
			if bad[fname(id)] {
				delete(set, id)
			}
		}
	}
	return promotedNames(set)
}

func (m *master) finding(x *expl, f Finding) {
	if k := m.match(f); k != nil {
		key := k.What
		if !m.knownH[key] {
			if !m.confirm(&f) {
				return
			}
			m.knownH[key] = true
		}
		x.fails = append(x.fails, f)
		return
	}
	m.logf("finding in %s: %s: %s", x.key(), f.Kind, clip(f.Msg, 300))
	if !m.confirm(&f) {
		m.unconf = append(m.unconf, fmt.Sprintf("%s %s: %s", x.key(), f.Kind, clip(f.Msg, 200)))
		return
	}
	x.fails = append(x.fails, f)
	m.viol = append(m.viol, f)
}

func (m *master) match(f Finding) *known {
	for i := range m.kf.Findings {
		k := &m.kf.Findings[i]
		if k.Property != "" && k.Property != m.plan.Property {
			continue
		}
		if k.Kind != "" && k.Kind != f.Kind {
			continue
		}
		if k.Scenario != "" {
			if ok, _ := regexp.MatchString("^(?:"+k.Scenario+")$", f.Scenario); !ok {
				continue
			}
		}
		if ok, _ := regexp.MatchString(k.Match, f.Msg+"\n"+f.Stack); ok {
			return k
		}
	}
	return nil
}

// confirm re-executes a finding in fresh processes.
func (m *master) confirm(f *Finding) bool {
	tmp, err := os.CreateTemp("", "gmc-confirm-*.json")
	if err != nil {
		return false
	}
	defer os.Remove(tmp.Name())
	b, _ := json.Marshal(f)
	tmp.Write(b)
	tmp.Close()
	if f.Kind == "hang" || f.Kind == "crash" {
		c := exec.Command("timeout", "60", os.Args[0], "replay", "-json", tmp.Name())
		out, err := c.CombinedOutput()
		return err != nil && (f.Kind == "hang" || strings.Contains(string(out), "stack overflow"))
	}
	for i := 0; i < 3; i++ {
		c := exec.Command(os.Args[0], "replay", "-json", tmp.Name())
		out, err := c.Output()
		var r struct{ Kind, Msg, Diverged string }
		if err != nil || json.Unmarshal(out, &r) != nil {
			m.logf("replay failed: %v %s", err, clip(string(out), 300))
			return false
		}
		if r.Kind != f.Kind || r.Msg != f.Msg {
			m.logf("replay gave %q %q (%s)", r.Kind, clip(r.Msg, 300), r.Diverged)
			return false
		}
	}
	return true
}

func (m *master) report(all []*expl, extra map[string]any, traces int64) int {
	var states, steps, execs, pruned, horizon, div, cases int64
	outcomes := map[string]bool{}
	var samples []any
	exhaustive := true
	type expRow struct {
		Scenario string  `json:"scenario"`
		Policy   int     `json:"policy"`
		Bound    int     `json:"deviation_bound"`
		Complete bool    `json:"complete"`
		Execs    int64   `json:"executions"`
		States   int64   `json:"states"`
		Steps    int64   `json:"transitions"`
		Threads  int     `json:"max_threads"`
		Racy     int     `json:"racy_fields_as_scheduling_points"`
		Outcomes int     `json:"distinct_outcomes"`
		Secs     float64 `json:"s"`
	}
	var rows []expRow
	racy := map[string]bool{}
	for _, x := range all {
		if !x.done {
			exhaustive = false
		}
		if !x.started {
			rows = append(rows, expRow{Scenario: x.run.Scenario, Policy: x.pol, Bound: x.bound})
			continue
		}
		states += x.res.States
		steps += x.res.Steps
		cases += x.res.Cases
		execs += x.res.Execs
		pruned += x.res.Pruned
		horizon += x.res.Horizon
		div += int64(len(x.res.Diverged))
		for _, d := range x.res.Diverged {
			m.logf("diverged: %s %s", x.key(), d)
		}
		for _, n := range promotedNames(x.promoted) {
			racy[n] = true
		}
		k := 0
		for o, n := range x.res.Outcomes {
			if !outcomes[x.run.Scenario+o] {
				outcomes[x.run.Scenario+o] = true
				if k < 2 && len(samples) < 12 && o != "" {
					samples = append(samples, map[string]any{"scenario": x.run.Scenario, "outcome": clip(o, 300), "executions": n})
					k++
				}
			}
		}
		rows = append(rows, expRow{x.run.Scenario, x.pol, x.bound, x.done, x.res.Execs, x.res.States, x.res.Steps, x.res.MaxThr, len(promotedNames(x.promoted)), len(x.res.Outcomes), round2(x.secs)})
	}
	if horizon > 0 {
		exhaustive = false
	}
	var rn []string
	for n := range racy {
		rn = append(rn, n)
	}
	sort.Strings(rn)
	cov := map[string]any{
		"states":                          states,
		"transitions":                     steps,
		"traces_validated_against_impl":   execs - pruned + traces,
		"evaluations":                     execs + cases,
		"executions":                      execs,
		"inputs_enumerated_in_executions": cases,
		"distinct_nontrivial":             len(outcomes),
		"rule":                            "one evaluation is one complete execution of the rewritten implementation under the controlled scheduler (or, for the sequential enumerations, one input); executions are non-trivial and distinct by the sequence of results the scenario records (operation results, delivered data, callbacks)",
		"samples":                         samples,
		"exhaustive":                      exhaustive,
		"explorations":                    rows,
		"executions_cut_by_state_cache":   pruned,
		"executions_at_step_horizon":      horizon,
		"diverged_replays":                div,
		"racy_fields_explored":            rn,
		"worker_failures":                 m.crash,
		"unconfirmed":                     m.unconf,
	}
	if len(samples) == 0 {
		cov["samples"] = []any{"no execution completed"}
	}
	for k, v := range extra {
		cov[k] = v
	}
	asm := append([]string{
		"sequentially consistent memory: plain accesses that race are explored as interleavings, weak-memory reorderings are not",
		"github.com/singchia/go-timer is replaced by a model of it on a virtual clock (its behaviour is compared with the real package by the conformance check)",
		"the network is an in-memory byte stream; std context, sync, time are re-implemented on the scheduler",
		"schedules are explored up to the listed number of deviations from each listed deterministic base scheduler",
	}, m.plan.Assumptions...)
	ev := map[string]any{
		"property": m.plan.Property, "tier": m.cfg.Tier, "seed": m.cfg.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": round2(time.Since(m.t0).Seconds()), "assumptions": asm, "violations": len(m.viol),
	}
	if !m.cfg.NoEvid {
		os.MkdirAll(m.cfg.OutDir, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(m.cfg.OutDir, m.plan.Property+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("property %s: %d executions, %d states, %d transitions, %d distinct outcomes, exhaustive=%v, %.1fs\n", m.plan.Property, execs, states, steps, len(outcomes), exhaustive, time.Since(m.t0).Seconds())
	for _, c := range m.crash {
		fmt.Println("note: worker failure:", clip(c, 1000))
	}
	for _, c := range m.unconf {
		fmt.Println("note: not reproducible, not reported:", c)
	}
	var ks []string
	for k := range m.knownH {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", m.plan.Property, k)
	}
	if len(m.viol) > 0 {
		for i, f := range m.viol {
			if i > 0 {
				break
			}
			os.MkdirAll(m.cfg.Replays, 0o755)
			path := filepath.Join(m.cfg.Replays, fmt.Sprintf("%s-%d.json", m.plan.Property, i))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("scenario %s policy %d bound %d: %s: %s\n%s\n", f.Scenario, f.Policy, f.Bound, f.Kind, f.Msg, f.Stack)
			fmt.Printf("VIOLATION property=%s replay=%s\n", m.plan.Property, path)
		}
		return 1
	}
	if len(m.crash) > 0 {
		return 2
	}
	return 0
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }
