package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/plan"
)

// tierBudget is the wall time of the search, in seconds.
var tierBudget = map[string]int{"quick": 40, "thorough": 600}

// Replay is a replay file.
type Replay struct {
	Property string      `json:"property"`
	Class    string      `json:"class"`
	Detail   string      `json:"detail"`
	Seed     uint64      `json:"seed"`
	Index    int         `json:"seed_index"`
	Plan     *plan.Plan  `json:"plan"`
	Trace    *Trace      `json:"trace"`
	Finger   string      `json:"fingerprint"`
	Original Size        `json:"original"`
	Minimal  Size        `json:"minimal"`
	Stat     interface{} `json:"faults_fired,omitempty"`
	History  []string    `json:"history,omitempty"`
	Stderr   string      `json:"stderr,omitempty"`
	How      string      `json:"how"`
}

type Size struct {
	Procs     int `json:"procs"`
	Ops       int `json:"ops"`
	Faults    int `json:"faults"`
	Decisions int `json:"schedule_decisions"`
}

func sizeOf(p *plan.Plan, t *Trace) (s Size) {
	for _, ph := range p.Phases {
		s.Procs += len(ph.Procs)
		for _, q := range ph.Procs {
			s.Ops += len(q.Ops)
		}
	}
	s.Faults = len(p.Net.Faults)
	if t != nil {
		s.Decisions = t.size()
	}
	return
}

type known struct{ prop, class, text string }

// loadKnown reads the findings that are recorded rather than repaired.
func loadKnown() (l []known, err error) {
	b, err := os.ReadFile(filepath.Join(*verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	for _, s := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(s, "finding: ") {
			continue
		}
		// finding: property=<id> class=<class> :: <what fails>
		s = strings.TrimPrefix(s, "finding: ")
		head, text, ok := strings.Cut(s, " :: ")
		p, cl, ok2 := strings.Cut(head, " class=")
		if !ok || !ok2 || !strings.HasPrefix(p, "property=") {
			return nil, fmt.Errorf("known-findings.txt: cannot parse %q", s)
		}
		l = append(l, known{strings.TrimPrefix(p, "property="), cl, text})
	}
	return l, nil
}

type failure struct {
	i    int
	seed uint64
	p    *plan.Plan
	o    *Outcome
	v    Violation
}

func check(prop, tier string, base int64, budget int) int {
	t0 := time.Now()
	kn, err := loadKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	child, info, err := childFor(prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	buildS := time.Since(t0).Seconds()
	if budget <= 0 {
		budget = tierBudget[tier]
	}
	end := time.Now().Add(time.Duration(budget) * time.Second)
	s0 := time.Now()

	var (
		mu                        sync.Mutex
		next                      int
		runs, errs, nontrivial    int
		simNs, steps, decs, swits int64
		stalls, jumps             int64
		fails                     []failure
		firstErr                  error
		hashes                    = map[uint64]bool{}
		hists                     = map[string]bool{}
		probes, stat              = map[string]int{}, map[string]int{}
		scen                      = map[string]int{}
		samples                   []any
		knownHit                  = map[string]int{}
		knownTx                   = map[string]string{}
		stop                      bool
		detBad, detRuns           int
		maxRun                    int
	)
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := newWorker(child, k)
			if err != nil {
				mu.Lock()
				errs, firstErr = errs+1, err
				mu.Unlock()
				return
			}
			defer w.close()
			for {
				mu.Lock()
				if stop || time.Now().After(end) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				s := seedFor(prop, base, i)
				p := plan.Gen(prop, s, tier)
				o := w.run(p, nil, false)
				if i < 8 && o.Kind != "error" { // one seed is one execution
					o2, o3 := w.run(p, nil, false), w.run(p, o.Trace, false)
					mu.Lock()
					detRuns++
					if o.fingerprint() != o2.fingerprint() || o.fingerprint() != o3.fingerprint() {
						detBad++
					}
					mu.Unlock()
				}
				mu.Lock()
				runs++
				scen[p.Scen]++
				if o.Kind == "error" {
					errs++
					if firstErr == nil {
						firstErr = fmt.Errorf("seed %d: %v", s, o.Err)
					}
				}
				if o.Res != nil {
					simNs += o.Res.Sim.SimNs
					steps += o.Res.Sim.Steps
					decs += o.Res.Sim.Decisions
					swits += o.Res.Sim.Switches
					stalls += o.Res.Sim.Stalls
					jumps += o.Res.Sim.Jumps
					if o.Res.Sim.MaxRunnable > maxRun {
						maxRun = o.Res.Sim.MaxRunnable
					}
					for k, v := range o.Res.Probes {
						probes[k] += v
					}
					for k, v := range o.Res.Stat {
						stat[k] += v
					}
					h := o.Res.Sim.Hash
					if o.Res.Probes["checked"] > 0 && o.Res.Sim.MaxRunnable > 1 && !hashes[h] {
						nontrivial++
					}
					hashes[h] = true
					hists[o.Res.HistHash] = true
					if len(samples) < 3 {
						samples = append(samples, map[string]any{"seed": s, "scenario": p.Scen, "size": sizeOf(p, o.Trace), "net": p.Net, "sched": p.Sched,
							"sim_ms": o.Res.Sim.SimNs / 1e6, "steps": o.Res.Sim.Steps, "events": o.Res.Events, "fired": o.Res.Stat, "probes": o.Res.Probes, "schedule_hash": fmt.Sprintf("%016x", h)})
					}
				}
				for _, v := range o.Viols {
					isKnown := false
					for _, k := range kn {
						if k.prop == prop && k.class == v.Class {
							isKnown = true
							knownHit[v.Class]++
							knownTx[v.Class] = k.text
						}
					}
					if !isKnown {
						fails = append(fails, failure{i, s, p, o, v})
						stop = true
						break
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(s0).Seconds()

	code := 0
	nviol := 0
	if len(fails) > 0 {
		sort.Slice(fails, func(a, b int) bool { return fails[a].i < fails[b].i })
		f := fails[0]
		nviol = len(fails)
		path, err := report(child, prop, f, 60*time.Second)
		if err != nil {
			fmt.Fprintln(os.Stderr, "vsim:", err)
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  class: %s\n  seed %d (index %d), scenario %s\n  %s\n", f.v.Class, f.seed, f.i, f.p.Scen, strings.ReplaceAll(head(f.v.Detail, 1500), "\n", "\n  "))
		code = 1
	}
	var kc []string
	for c := range knownHit {
		kc = append(kc, c)
	}
	sort.Strings(kc)
	for _, c := range kc {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", prop, knownTx[c], knownHit[c])
	}
	if errs > 0 {
		fmt.Fprintf(os.Stderr, "vsim: %d of %d runs could not be completed: %v\n", errs, runs, firstErr)
	}
	if detBad > 0 {
		fmt.Fprintf(os.Stderr, "vsim: warning: %d of %d seeds did not repeat exactly\n", detBad, detRuns)
	}
	faults := map[string]int{}
	for _, k := range []string{"cut", "fin", "reset", "stall", "part", "crash", "dialfail", "refused", "acceptfail", "backpressure", "dialstalled", "hostile", "rawabort", "allocfail"} {
		if stat[k] > 0 {
			faults[k] = stat[k]
		}
	}
	faults["thread_stall"] = int(stalls)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": assumptions,
		"coverage": map[string]any{
			"evaluations":         runs,
			"distinct_nontrivial": nontrivial,
			"rule": "One evaluation is one simulated run of the real code under a seeded plan (sockets, operations, network, faults) and a seeded scheduler; seed i is a hash of VERIF_SEED, the property and i. " +
				"It is non-trivial if the oracle compared at least one observation (probe 'checked'), more than one goroutine was runnable at some decision, and its sequence of scheduling decisions (hash over every yield point, runnable set and choice) was not seen before in this check.",
			"samples":                     samples,
			"runs_per_hour":               int(float64(runs) / searchS * 3600),
			"search_wall_s":               searchS,
			"build_wall_s":                buildS,
			"simulated_seconds":           float64(simNs) / 1e9,
			"scheduler_steps":             steps,
			"scheduler_decisions":         decs,
			"preemptive_switches":         swits,
			"clock_jumps":                 jumps,
			"max_runnable_goroutines":     maxRun,
			"distinct_schedules":          len(hashes),
			"distinct_histories":          len(hists),
			"scenarios":                   scen,
			"faults_fired":                faults,
			"network_events":              stat,
			"oracle_probes":               probes,
			"determinism_seeds_rechecked": detRuns,
			"determinism_mismatches":      detBad,
			"runs_not_completed":          errs,
			"known_finding_hits":          knownHit,
			"instrumentation":             info,
			"components_real":             "every non-test file of luxfi/zmq compiled for linux with CGO off (sockets, ZMTP, security, inproc, networking), the Go runtime's channels, mutexes, timers, selects and context package",
			"components_stubbed":          "kernel stream sockets (tcp, unix) behind net.Dialer/net.ListenConfig, the clock, crypto/rand, and the choice of the next goroutine",
		},
	}
	if err := writeEvidence(prop, ev); err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	fmt.Printf("%s %s: %d runs in %.0f s (%d/h), %.0f simulated s, %d distinct schedules, faults %v\n", prop, tier, runs, searchS, int(float64(runs)/searchS*3600), float64(simNs)/1e9, len(hashes), faults)
	if code == 0 && (runs == 0 || errs*50 > runs) {
		return 2
	}
	return code
}

var assumptions = []string{
	"goroutine switches happen at instrumented yield points (every statement that calls, communicates, locks or touches shared data in /repo, plus channel, select, map-write and close operations in the runtime); code between two yield points runs atomically",
	"the simulated network delivers what TCP/unix sockets deliver: reliable ordered bytes until a reset, a shutdown or a crash",
	"sampling: behaviour on schedules and faults that no seed of this run produced is not covered",
}

func writeEvidence(prop string, ev any) error {
	d := filepath.Join(*verif, "evidence")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(d, prop+".json"), append(b, '\n'), 0o644)
}

// report minimises a failure, verifies the replay in fresh processes and
// writes the replay file.
func report(child, prop string, f failure, budget time.Duration) (string, error) {
	m := &minimiser{child: child, class: f.v.Class, end: time.Now().Add(budget)}
	for k := 0; k < runtime.NumCPU(); k++ {
		w, err := newWorker(child, 100+k)
		if err != nil {
			return "", err
		}
		defer w.close()
		m.ws = append(m.ws, w)
	}
	p, t := m.minimise(f.p, f.o.Trace)
	r := Replay{Property: prop, Class: f.v.Class, Seed: f.seed, Index: f.i, Original: sizeOf(f.p, f.o.Trace)}
	o := m.ws[0].run(p, t, true)
	if !hasClass(o, f.v.Class) { // should not happen: fall back to the original
		p, t = f.p, f.o.Trace
		o = m.ws[0].run(p, t, true)
		if !hasClass(o, f.v.Class) {
			t = nil
			o = m.ws[0].run(p, nil, true)
		}
	}
	o2 := m.ws[0].run(p, t, true)
	for _, v := range o.Viols {
		if v.Class == f.v.Class {
			r.Detail = v.Detail
			break
		}
	}
	r.Plan, r.Trace, r.Finger, r.Minimal = p, t, o.fingerprint(), sizeOf(p, t)
	if o.Res != nil {
		r.History, r.Stat = o.Res.History, o.Res.Stat
	}
	if o.Res == nil || len(o.Res.History) == 0 {
		r.Stderr = head(o.Stderr, 20000)
	}
	r.How = fmt.Sprintf("sh %s/check.sh replay <this file> (replayed twice in fresh processes, identical: %v)", *verif, o.fingerprint() == o2.fingerprint())
	d := filepath.Join(*verif, "replays")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(d, fmt.Sprintf("%s-%d.json", prop, f.seed))
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return "", err
	}
	return path, os.WriteFile(path, append(b, '\n'), 0o644)
}

func hasClass(o *Outcome, class string) bool {
	for _, v := range o.Viols {
		if v.Class == class {
			return true
		}
	}
	return false
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die(2, "%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die(2, "%v", err)
	}
	c := mustBuild(r.Property)
	w, err := newWorker(c, 0)
	if err != nil {
		die(2, "%v", err)
	}
	defer w.close()
	o := w.run(r.Plan, r.Trace, true)
	show(o, false)
	if o.Kind == "error" {
		return 2
	}
	if hasClass(o, r.Class) {
		fmt.Printf("VIOLATION property=%s replay=%s\n  reproduced: %s (exactly: %v)\n", r.Property, path, r.Class, o.fingerprint() == r.Finger)
		return 1
	}
	fmt.Printf("the recorded violation (%s) does not occur on this tree\n", r.Class)
	return 0
}

type minimiser struct {
	child string
	class string
	end   time.Time
	ws    []*worker
}

func clone(p *plan.Plan) *plan.Plan {
	b, _ := json.Marshal(p)
	q := new(plan.Plan)
	json.Unmarshal(b, q)
	return q
}

// first runs candidates in parallel and returns the index of the first (in
// order) that still fails, and its outcome.
func (m *minimiser) first(n int, get func(i int) (*plan.Plan, *Trace)) (int, *Outcome) {
	for lo := 0; lo < n; lo += len(m.ws) {
		if time.Now().After(m.end) {
			return -1, nil
		}
		res := make([]*Outcome, len(m.ws))
		var wg sync.WaitGroup
		for k := range m.ws {
			if lo+k >= n {
				break
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				p, t := get(lo + k)
				if p != nil {
					res[k] = m.ws[k].run(p, t, false)
				}
			}()
		}
		wg.Wait()
		for k, o := range res {
			if o != nil && hasClass(o, m.class) {
				return lo + k, o
			}
		}
	}
	return -1, nil
}

// soft are the operations that may be dropped one by one; the others describe
// the topology and are only dropped together with their socket.
var soft = map[string]bool{"send": true, "sendm": true, "sleep": true, "close": true, "cancel": true, "crash": true, "req": true, "getopt": true,
	"setopt": true, "topics": true, "addr": true, "type": true, "signal": true, "await": true}

// edits lists the ways to make a plan smaller.
func edits(p *plan.Plan) (l []func(q *plan.Plan)) {
	names := map[string]bool{}
	for i, ph := range p.Phases {
		for j, pr := range ph.Procs {
			all := true
			for _, o := range pr.Ops {
				all = all && soft[o.K]
				if o.S != "" {
					names[o.S] = true
				}
			}
			if all && len(pr.Ops) > 0 {
				l = append(l, func(q *plan.Plan) { q.Phases[i].Procs[j].Ops = nil })
			}
		}
	}
	if len(p.Net.Faults) > 1 {
		l = append(l, func(q *plan.Plan) { q.Net.Faults = nil })
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		l = append(l, func(q *plan.Plan) {
			for i := range q.Phases {
				for j := range q.Phases[i].Procs {
					var ops []plan.Op
					for _, o := range q.Phases[i].Procs[j].Ops {
						if o.S != n {
							ops = append(ops, o)
						}
					}
					q.Phases[i].Procs[j].Ops = ops
				}
			}
		})
	}
	for i := range p.Net.Faults {
		l = append(l, func(q *plan.Plan) { q.Net.Faults = append(q.Net.Faults[:i:i], q.Net.Faults[i+1:]...) })
	}
	if p.Net.DialFail > 0 {
		l = append(l, func(q *plan.Plan) { q.Net.DialFail = 0 })
	}
	if p.Net.AccFail > 0 {
		l = append(l, func(q *plan.Plan) { q.Net.AccFail = 0 })
	}
	if p.Sched.StallPer > 0 {
		l = append(l, func(q *plan.Plan) { q.Sched.StallPer = 0 })
	}
	if p.Net.Chunk > 0 || p.Net.Seg > 0 {
		l = append(l, func(q *plan.Plan) { q.Net.Chunk, q.Net.Seg = 0, 0 })
	}
	for i, ph := range p.Phases {
		for j, pr := range ph.Procs {
			for k, o := range pr.Ops {
				if soft[o.K] && len(pr.Ops) > 1 {
					l = append(l, func(q *plan.Plan) {
						pr := &q.Phases[i].Procs[j]
						pr.Ops = append(pr.Ops[:k:k], pr.Ops[k+1:]...)
					})
				}
				if (o.K == "send" || o.K == "sendm" || o.K == "req") && o.N > 1 {
					l = append(l, func(q *plan.Plan) { q.Phases[i].Procs[j].Ops[k].N /= 2 })
				}
				if len(o.Sz) > 1 {
					l = append(l, func(q *plan.Plan) { q.Phases[i].Procs[j].Ops[k].Sz = []int{8} })
				}
				if o.Us > 0 && o.K != "sleep" && o.K != "await" {
					l = append(l, func(q *plan.Plan) { q.Phases[i].Procs[j].Ops[k].Us = 0 })
				}
			}
		}
	}
	return
}

func (m *minimiser) minimise(p *plan.Plan, t *Trace) (*plan.Plan, *Trace) {
	half := m.end.Add(-time.Until(m.end) / 3)
	full := m.end
	m.end = half
	cur, tr := p, t
	if i, o := m.first(1, func(int) (*plan.Plan, *Trace) { return cur, nil }); i >= 0 {
		tr = o.Trace
		for progress := true; progress && time.Now().Before(m.end); {
			progress = false
			es := edits(cur)
			// restart after every success: the edits refer to positions
			for at := 0; at < len(es); {
				i, o := m.first(len(es)-at, func(i int) (*plan.Plan, *Trace) {
					q := clone(cur)
					es[at+i](q)
					return q, nil
				})
				if i < 0 {
					break
				}
				q := clone(cur)
				es[at+i](q)
				cur, tr = q, o.Trace
				progress = true
				es = edits(cur)
				at = min(at+i, len(es))
			}
		}
	}
	m.end = full
	tr = m.schedule(cur, tr)
	return cur, tr
}

// schedule removes scheduling decisions that do not matter.
func (m *minimiser) schedule(p *plan.Plan, t *Trace) *Trace {
	if t == nil {
		return t
	}
	try := func(c *Trace) bool {
		i, _ := m.first(1, func(int) (*plan.Plan, *Trace) { return p, c })
		return i >= 0
	}
	if !try(t) {
		return t
	}
	if e := (&Trace{}); try(e) {
		return e
	}
	type dec struct {
		cho bool
		v   [2]uint64
	}
	var ds []dec
	for _, x := range t.Pre {
		ds = append(ds, dec{false, x})
	}
	for _, x := range t.Cho {
		ds = append(ds, dec{true, x})
	}
	mk := func(ds []dec) *Trace {
		t := &Trace{}
		for _, d := range ds {
			if d.cho {
				t.Cho = append(t.Cho, d.v)
			} else {
				t.Pre = append(t.Pre, d.v)
			}
		}
		return t
	}
	n := 2
	for len(ds) >= 1 && time.Now().Before(m.end) {
		size := (len(ds) + n - 1) / n
		var cands [][]dec
		for lo := 0; lo < len(ds); lo += size {
			hi := min(lo+size, len(ds))
			c := append(append([]dec{}, ds[:lo]...), ds[hi:]...)
			cands = append(cands, c)
		}
		i, _ := m.first(len(cands), func(i int) (*plan.Plan, *Trace) { return p, mk(cands[i]) })
		if i >= 0 {
			ds = cands[i]
			n = max(n-1, 2)
			continue
		}
		if size <= 1 {
			break
		}
		n = min(n*2, len(ds))
	}
	return mk(ds)
}

var _ = exec.Command
