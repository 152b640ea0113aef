package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/plan"
)

// Trace is the scheduler's decision record: preemptions (yield index, stall
// ns or 0) and non-default choices (decision index, position in run queue).
type Trace struct {
	Pre [][2]uint64 `json:"pre"`
	Cho [][2]uint64 `json:"cho"`
}

func (t *Trace) size() int { return len(t.Pre) + len(t.Cho) }

type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

type SimStats struct {
	Steps, Decisions, Switches, Stalls, StallNs, Jumps, SimNs int64
	Hash                                                      uint64
	NPre, NCho                                                int
	MaxRunnable                                               int
	Overflow                                                  bool
}

type Result struct {
	Violations []Violation    `json:"violations"`
	Inconcl    string         `json:"inconclusive"`
	Stat       map[string]int `json:"stat"`
	Probes     map[string]int `json:"probes"`
	Sim        SimStats       `json:"sim"`
	Events     int            `json:"events"`
	HistHash   string         `json:"hist_hash"`
	Notes      []string       `json:"notes"`
	History    []string       `json:"history"`
	Stacks     string         `json:"stacks"`
}

// Outcome of one simulated run. Kind: ok, violation, error.
type Outcome struct {
	Kind   string
	Viols  []Violation
	Res    *Result
	Trace  *Trace
	Stderr string
	Wall   time.Duration
	Err    error
}

func (o *Outcome) fingerprint() string {
	if o.Res == nil {
		var c []string
		for _, v := range o.Viols {
			c = append(c, v.Class)
		}
		h := uint64(0)
		if o.Trace != nil {
			h = uint64(o.Trace.size())
		}
		return fmt.Sprint(o.Kind, c, h)
	}
	s := o.Res.Sim
	s.NPre, s.NCho = 0, 0 // counts differ between recording and replaying
	return fmt.Sprint(o.Kind, o.Viols, o.Res.HistHash, s)
}

type worker struct {
	child string
	dir   string
}

func newWorker(child string, n int) (*worker, error) {
	d, err := os.MkdirTemp("", fmt.Sprintf("vsim%d-", n))
	if err != nil {
		return nil, err
	}
	return &worker{child, d}, nil
}

func (w *worker) close() { os.RemoveAll(w.dir) }

func (w *worker) run(p *plan.Plan, t *Trace, verbose bool) *Outcome {
	o := w.run1(p, t, verbose)
	if o.Kind == "error" && o.Err != nil && strings.Contains(o.Err.Error(), "watchdog") {
		// a loaded machine: once more before giving up
		return w.run1(p, t, verbose)
	}
	return o
}

func (w *worker) run1(p *plan.Plan, t *Trace, verbose bool) *Outcome {
	fail := func(err error) *Outcome { return &Outcome{Kind: "error", Err: err} }
	raw, err := json.Marshal(p)
	if err != nil {
		return fail(err)
	}
	if err := os.WriteFile(filepath.Join(w.dir, "plan.json"), raw, 0o644); err != nil {
		return fail(err)
	}
	hdr := make([]uint64, 3)
	var tb []uint64
	if t != nil {
		hdr[0], hdr[1], hdr[2] = 1, uint64(len(t.Pre)), uint64(len(t.Cho))
		for _, x := range t.Pre {
			tb = append(tb, x[0], x[1])
		}
		for _, x := range t.Cho {
			tb = append(tb, x[0], x[1])
		}
	}
	var tr bytes.Buffer
	binary.Write(&tr, binary.LittleEndian, hdr)
	binary.Write(&tr, binary.LittleEndian, tb)
	if err := os.WriteFile(filepath.Join(w.dir, "trace.bin"), tr.Bytes(), 0o644); err != nil {
		return fail(err)
	}
	mk := func(n string) *os.File {
		f, e := os.Create(filepath.Join(w.dir, n))
		if e != nil {
			err = e
		}
		return f
	}
	f2, f3, f4 := mk("err"), mk("out"), mk("rec")
	if err != nil {
		return fail(err)
	}
	defer f2.Close()
	defer f3.Close()
	defer f4.Close()
	for _, pat := range []string{"sk*", "race.*"} {
		old, _ := filepath.Glob(filepath.Join(w.dir, pat))
		for _, f := range old {
			os.Remove(f)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	v := "0"
	if verbose {
		v = "1"
	}
	cmd := exec.CommandContext(ctx, w.child, "plan.json", "trace.bin", v)
	cmd.Dir = w.dir
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all", "GORACE=exitcode=0 atexit_sleep_ms=0 log_path=race history_size=3"}
	cmd.Stderr, cmd.Stdout = f2, f2
	cmd.ExtraFiles = []*os.File{f3, f4}
	t0 := time.Now()
	rerr := cmd.Run()
	o := &Outcome{Wall: time.Since(t0)}
	eb, _ := os.ReadFile(filepath.Join(w.dir, "err"))
	if len(eb) > 1<<20 {
		eb = append(append(eb[:1<<18:1<<18], '\n'), eb[len(eb)-(3<<18):]...)
	}
	o.Stderr = string(eb)
	rb, _ := os.ReadFile(filepath.Join(w.dir, "rec"))
	var st SimStats
	if len(rb) >= 128 {
		h := make([]uint64, 16)
		binary.Read(bytes.NewReader(rb), binary.LittleEndian, h)
		np, nc := int(h[2]), int(h[3])
		if len(rb) < 128+16*(np+nc) {
			return fail(errors.New("short decision record"))
		}
		all := make([]uint64, 2*(np+nc))
		binary.Read(bytes.NewReader(rb[128:]), binary.LittleEndian, all)
		o.Trace = &Trace{}
		for i := 0; i < np; i++ {
			o.Trace.Pre = append(o.Trace.Pre, [2]uint64{all[2*i], all[2*i+1]})
		}
		for i := np; i < np+nc; i++ {
			o.Trace.Cho = append(o.Trace.Cho, [2]uint64{all[2*i], all[2*i+1]})
		}
		if t != nil {
			o.Trace = t
		}
		st = SimStats{Steps: int64(h[4]), Decisions: int64(h[5]), Switches: int64(h[6]), Stalls: int64(h[7]), StallNs: int64(h[8]), Jumps: int64(h[9]), SimNs: int64(h[10]), Hash: h[11], MaxRunnable: int(h[12]), NPre: np, NCho: nc, Overflow: h[13] == 1}
	}
	if ctx.Err() != nil {
		o.Kind, o.Err = "error", fmt.Errorf("watchdog: run exceeded 60 s of wall time")
		return o
	}
	ob, _ := os.ReadFile(filepath.Join(w.dir, "out"))
	if rerr == nil && len(ob) >= 8 {
		o.Res = &Result{}
		if err := json.Unmarshal(ob[8:], o.Res); err != nil {
			return fail(fmt.Errorf("bad result: %v", err))
		}
		o.Viols = append(o.Res.Violations, races(w.dir)...)
		o.Kind = "ok"
		if len(o.Viols) > 0 {
			o.Kind = "violation"
		}
		return o
	}
	// The process died: decide who is to blame.
	cl, harness := classifyCrash(o.Stderr)
	if cl == "" || harness {
		o.Kind, o.Err = "error", fmt.Errorf("child failed: %v\n%s", rerr, head(o.Stderr, 4000))
		return o
	}
	o.Kind = "violation"
	o.Viols = []Violation{{Class: cl, Detail: crashDetail(o.Stderr)}}
	o.Res = &Result{Sim: st, Stat: map[string]int{}, Probes: map[string]int{"crash": 1}, HistHash: cl}
	return o
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

const repoPkg = "github.com/luxfi/zmq/v4"

var numRe = regexp.MustCompile(`0x[0-9a-f]+|\d+`)

func classifyCrash(e string) (class string, harness bool) {
	msg := ""
	livelock := strings.Contains(e, "SIM-STEP-LIMIT")
	lines := strings.Split(e, "\n")
	for _, l := range lines {
		for _, p := range []string{"panic: ", "fatal error: "} {
			if strings.HasPrefix(l, p) && msg == "" {
				msg = l
			}
		}
	}
	if livelock {
		msg = "livelock"
	}
	if msg == "" {
		return "", true
	}
	// frames of the failing goroutine: the first goroutine block
	frame := ""
	inG := livelock
	for _, l := range lines {
		if strings.HasPrefix(l, "goroutine ") {
			if inG && frame != "" {
				break
			}
			inG = true
			continue
		}
		if !inG || strings.HasPrefix(l, "\t") || l == "" {
			if inG && l == "" && frame != "" {
				break
			}
			continue
		}
		if strings.HasPrefix(l, "created by ") {
			break
		}
		if strings.HasPrefix(l, "main.") {
			frame = "main"
			break
		}
		if strings.HasPrefix(l, repoPkg) {
			frame = l
			if k := strings.LastIndex(frame, "("); k > 0 {
				frame = frame[:k]
			}
			break
		}
	}
	msg = numRe.ReplaceAllString(head(msg, 120), "N")
	if frame == "main" {
		return "crash: " + msg, true
	}
	if frame == "" {
		if strings.Contains(msg, "out of memory") || strings.Contains(msg, "concurrent map") || strings.Contains(msg, "asleep") {
			return "crash: " + msg, false
		}
		return "crash: " + msg, true
	}
	return "crash: " + msg + " in " + strings.TrimPrefix(frame, repoPkg), false
}

func crashDetail(e string) string {
	i := strings.Index(e, "panic: ")
	if j := strings.Index(e, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if j := strings.Index(e, "SIM-STEP-LIMIT"); j >= 0 {
		i = j
	}
	if i < 0 {
		i = 0
	}
	return head(e[i:], 3000)
}
