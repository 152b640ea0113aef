//go:build vsim

// Command child executes one simulated run of the real luxfi/zmq code: it
// reads a plan and a decision record, runs the plan under the seeded scheduler,
// judges the history and writes the verdict. It is compiled inside the module
// through a build overlay and is never part of the repository.
package main

import (
	"context"
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

// Result is what a run reports.
type Result struct {
	Violations []Violation       `json:"violations,omitempty"`
	Inconcl    string            `json:"inconclusive,omitempty"`
	Stat       map[string]int    `json:"stat"`
	Probes     map[string]int    `json:"probes"`
	Sim        runtime.SimStats  `json:"sim"`
	Events     int               `json:"events"`
	HistHash   string            `json:"hist_hash"`
	Notes      []string          `json:"notes,omitempty"`
	History    []string          `json:"history,omitempty"`
	Stacks     string            `json:"stacks,omitempty"`
	Extra      map[string]string `json:"extra,omitempty"`
}

const regionPairs = 1 << 20

// region is a block of memory outside the Go heap, so that its size and
// contents do not influence heap addresses.
func region(n int) []uint64 {
	b, err := syscall.Mmap(-1, 0, n*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	return unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), n)
}

type detReader struct{ r *plan.Rng }

func (d *detReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(d.r.U64())
	}
	return len(p), nil
}

func readAll(fd int) []byte {
	var out []byte
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(fd, buf)
		if n <= 0 || err != nil {
			return out
		}
		out = append(out, buf[:n]...)
	}
}

// Usage: child <plan.json> <trace.bin> <0|1 verbose>
func main() {
	syscall.Setrlimit(9 /* RLIMIT_AS */, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	fd, err := syscall.Open(os.Args[1], syscall.O_RDONLY, 0)
	if err != nil {
		panic(err)
	}
	raw := readAll(fd)
	syscall.Close(fd)
	pl = new(plan.Plan)
	if err := json.Unmarshal(raw, pl); err != nil {
		panic(err)
	}
	pre, cho := region(2*regionPairs), region(2*regionPairs)
	sc := pl.Sched
	cfg := runtime.SimConfig{Seed: sc.Seed, Policy: sc.Policy, Gap: sc.Gap, Quantum: sc.Quantum, StepCost: int64(sc.StepNs),
		MaxSteps: int64(sc.MaxSteps), StallPer: uint32(sc.StallPer), StallMin: int64(sc.StallMin) * 1000, StallMax: int64(sc.StallMax) * 1000,
		Depth: sc.Depth, Len: sc.Len, DumpFD: 4, Pre: pre, Cho: cho}
	// The record file always exists and has a three-word header, so that the
	// heap looks the same when recording and when replaying.
	fd, err = syscall.Open(os.Args[2], syscall.O_RDONLY, 0)
	if err != nil {
		panic(err)
	}
	rd := func(p []uint64) {
		b := unsafe.Slice((*byte)(unsafe.Pointer(&p[0])), len(p)*8)
		for len(b) > 0 {
			n, err := syscall.Read(fd, b)
			if n <= 0 || err != nil {
				panic("short trace")
			}
			b = b[n:]
		}
	}
	h := make([]uint64, 3)
	rd(h)
	cfg.Replay, cfg.NPre, cfg.NCho = h[0] == 1, int(h[1]), int(h[2])
	if cfg.NPre > 0 {
		rd(pre[:2*cfg.NPre])
	}
	if cfg.NCho > 0 {
		rd(cho[:2*cfg.NCho])
	}
	syscall.Close(fd)
	verbose := os.Args[3] == "1"

	rand.Reader = &detReader{plan.NewRng(pl.Seed ^ 0xc0ffee)}
	simBase = time.Now()
	lastEv = simBase
	nw = newNetwork(pl.Net)
	net.SimDial = nw.dial
	net.SimListen = nw.listen
	rootC, stopC = context.WithCancel(context.Background())

	runtime.SimStart(cfg)
	leak := runPlan()
	runtime.SimStop()

	// Teardown is over: judge. A run that could not be completed is judged too;
	// unfinished operations are visible in the history.
	if os.Getenv("VSIM_NOJUDGE") == "" {
		judge(leak)
	}
	res := Result{Violations: violations, Stat: nw.stat, Probes: probes, Sim: runtime.SimGetStats(), Events: len(hist), Notes: notes, Stacks: ""}
	hh := uint64(14695981039346656037)
	for _, e := range hist {
		for _, c := range []byte(e.String()) {
			hh = (hh ^ uint64(c)) * 1099511628211
		}
	}
	res.HistHash = fmt.Sprintf("%016x", hh)
	if verbose {
		for _, e := range hist {
			res.History = append(res.History, e.String())
		}
	}
	if len(violations) > 0 || verbose {
		res.Stacks = leak.stacks
	}
	out, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	var n [8]byte
	binary.LittleEndian.PutUint64(n[:], uint64(len(out)))
	wr(3, n[:])
	wr(3, out)
	runtime.SimDump(1)
	os.Exit(0)
}

func wr(fd int, b []byte) {
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err != nil {
			panic(err)
		}
		b = b[n:]
	}
}

var teardownAt int64 // when the last phase ended

type leakInfo struct {
	unfinished []string // procedures still inside an operation at the end
	stacks     string   // goroutine dump after teardown
	repoGs     []string // goroutines of the code under test still alive after teardown
	conns      []string // connection ends never closed
	listeners  []string
}

func runPlan() *leakInfo {
	for _, s := range pl.Socks {
		if s.Conn {
			newCn(s)
		} else if s.Raw {
			newRaw(s)
		} else if s.Type == "NODE" {
			newNode(s)
		} else if !s.Late {
			newSock(s)
		}
	}
	for _, ph := range pl.Phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				makeShared(o)
				if o.K == "signal" || o.K == "await" {
					f := flag(o.A)
					if o.K == "await" && o.N > f.need {
						f.need = o.N
					}
				}
			}
		}
	}
	idx := 0
	calm := false
	for pi, ph := range pl.Phases {
		curPh = pi
		nw.scheduleFaults(pi)
		if ph.Calm {
			calm = true
			runtime.SimSetStall(false)
			nw.heal()
		}
		var mine []*procRun
		for _, p := range ph.Procs {
			r := &procRun{idx: idx, ph: pi, p: p}
			idx++
			mine = append(mine, r)
			runs = append(runs, r)
			wg.Add(1)
			go r.run()
		}
		end := time.Now().Add(time.Duration(ph.Max) * time.Millisecond)
		lastEv = time.Now()
		moved, extra, seen := nw.moved, time.Duration(0), lastEv
		for time.Now().Before(end) {
			time.Sleep(3 * time.Millisecond)
			all := true
			for _, r := range mine {
				if !r.done && !r.p.Bg {
					all = false
				}
			}
			if lastEv != seen {
				moved, seen = nw.moved, lastEv
			}
			if q := time.Since(lastEv); all && q >= time.Duration(ph.Quiet)*time.Millisecond {
				if nw.moved != moved && extra < 5*time.Second { // something was on its way meanwhile
					extra += q
					lastEv = time.Now()
					continue
				}
				break
			}
		}
		if ph.Settle > 0 {
			runtime.SimSetStall(false)
			time.Sleep(time.Duration(ph.Settle) * time.Millisecond)
			runtime.SimSetStall(!calm)
		}
		runPhaseEnd(pi, ph)
	}
	// Teardown: everything the plan left open is closed, concurrently.
	curPh = len(pl.Phases)
	runtime.SimSetStall(false)
	teardownAt = simNow()
	preTeardown()
	ending = true
	raceObtain()
	stopC()
	names := append([]string(nil), order...)
	for _, n := range names {
		s := socks[n]
		if !s.closing {
			s.closing = true
			e := begin("main", 0, 0, "close", n)
			wg.Add(1)
			go func() {
				defer wg.Done()
				e.end(s.sock.Close())
			}()
		}
	}
	for _, s := range zombies {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.sock.Close()
		}()
	}
	nodeTeardown()
	ipTeardown()
	cnTeardown()
	extTeardown()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Duration(knob("teardown", 3000)) * time.Millisecond):
	}
	time.Sleep(time.Duration(knob("drain", 1500)) * time.Millisecond)
	li := &leakInfo{}
	for _, r := range runs {
		if !r.done {
			li.unfinished = append(li.unfinished, r.at)
		}
	}
	li.conns = nw.openConns(func(h string) bool { return strings.HasPrefix(h, "raw") })
	li.listeners = nw.openListeners()
	sort.Strings(li.listeners)
	buf := make([]byte, 1<<20)
	li.stacks = string(buf[:runtime.Stack(buf, true)])
	for _, g := range strings.Split(li.stacks, "\n\n") {
		if f := repoFrame(g); f != "" {
			li.repoGs = append(li.repoGs, f)
		}
	}
	sort.Strings(li.repoGs)
	return li
}

func knob(k string, def int) int {
	if v, ok := pl.P[k]; ok {
		return v
	}
	return def
}

const repoPkg = "github.com/luxfi/zmq/v4"

// repoFrame returns the innermost frame of the code under test in a goroutine
// dump, provided the goroutine was not started by the harness.
func repoFrame(g string) string {
	if strings.Contains(g, "\nmain.(*procRun).nodeOp.func") {
		return "" // a handler of the application
	}
	lines := strings.Split(g, "\n")
	frame, creator := "", ""
	for _, l := range lines {
		if strings.HasPrefix(l, "created by ") {
			creator = strings.TrimPrefix(l, "created by ")
			continue
		}
		if frame == "" && strings.HasPrefix(l, repoPkg) && !strings.Contains(l, "/vsim/") {
			frame = l
			if k := strings.LastIndex(frame, "("); k > 0 {
				frame = frame[:k]
			}
		}
	}
	if k := strings.Index(creator, " in goroutine"); k > 0 {
		creator = creator[:k]
	}
	if strings.HasPrefix(creator, "main.") || strings.Contains(creator, "/vsim/") {
		return ""
	}
	if frame == "" && strings.HasPrefix(creator, repoPkg) {
		frame = "(created by " + creator + ")"
	}
	return strings.TrimPrefix(frame, repoPkg)
}
