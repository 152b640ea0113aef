// Command vsim decides the properties of luxfi/zmq by deterministic simulation
// with fault injection: it builds the code under test into a simulation child,
// runs seeded plans against it, minimises and replays what fails.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/plan"
)

var (
	repo  = flag.String("repo", "/repo", "repository under test")
	verif = flag.String("verif", "/verif", "verification tree")
	out   = flag.String("build", "", "build directory (default VERIF/.build)")
	race  = flag.Bool("race", false, "build the child with the race detector")
)

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	os.Exit(code)
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: vsim build|check|replay|run|sweep ...")
	}
	cmd := os.Args[1]
	fs := flag.CommandLine
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "", "quick or thorough")
	seed := fs.Uint64("seed", 0, "plan seed (run)")
	n := fs.Int("n", 1000, "number of seeds (sweep)")
	from := fs.Int("from", 0, "first seed index (sweep)")
	verbose := fs.Bool("v", false, "verbose")
	budget := fs.Int("budget", 0, "wall seconds for the search (0: the tier's)")
	if err := fs.Parse(os.Args[2:]); err != nil {
		die(2, "%v", err)
	}
	if *out == "" {
		*out = filepath.Join(*verif, ".build")
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	base := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			base = v
		}
	}
	switch cmd {
	case "build":
		for _, p := range []string{"C01", "C16"} {
			if _, _, err := childFor(p); err != nil {
				die(2, "%v", err)
			}
		}
	case "check":
		if *prop == "" {
			die(2, "-prop missing")
		}
		os.Exit(check(*prop, *tier, base, *budget))
	case "replay":
		if fs.NArg() != 1 {
			die(2, "usage: vsim replay FILE")
		}
		os.Exit(replayFile(fs.Arg(0)))
	case "run":
		c := mustBuild(*prop)
		w, err := newWorker(c, 0)
		if err != nil {
			die(2, "%v", err)
		}
		defer w.close()
		p := plan.Gen(*prop, *seed, *tier)
		if *verbose {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(b))
		}
		o := w.run(p, nil, true)
		show(o, *verbose)
	case "sweep":
		sweep(*prop, *tier, base, *from, *n, *verbose)
	case "determinism":
		determinism(*prop, *tier, base, *n)
	default:
		die(2, "unknown command %s", cmd)
	}
}

func show(o *Outcome, verbose bool) {
	if o.Res != nil {
		for _, h := range o.Res.History {
			fmt.Println(h)
		}
		if verbose {
			fmt.Println(o.Res.Stacks)
		}
		fmt.Printf("stat %v\nprobes %v\nsim %+v\nnotes %v\n", o.Res.Stat, o.Res.Probes, o.Res.Sim, o.Res.Notes)
	}
	fmt.Println(o.Kind, o.Err, o.Wall)
	for _, v := range o.Viols {
		fmt.Println("VIOL", v.Class, "\n", v.Detail)
	}
	if o.Res == nil || verbose {
		fmt.Println(head(o.Stderr, 6000))
	}
}

// childFor builds the child that decides a property.
func childFor(prop string) (string, map[string]int, error) {
	if *race || raced[prop] {
		return buildChild(*repo, *verif, filepath.Join(*out, "child-race"), true)
	}
	return buildChild(*repo, *verif, filepath.Join(*out, "child"), false)
}

func mustBuild(prop string) string {
	c, _, err := childFor(prop)
	if err != nil {
		die(2, "%v", err)
	}
	return c
}

func seedFor(prop string, base int64, i int) uint64 {
	h := uint64(base)
	for _, c := range prop {
		h = plan.Mix(h ^ uint64(c))
	}
	return plan.Mix(h+uint64(i)) >> 1
}

// sweep runs many seeds and prints a histogram of what they violate.
func sweep(prop, tier string, base int64, from, n int, verbose bool) {
	c := mustBuild(prop)
	type hit struct {
		n    int
		seed uint64
		det  string
	}
	var mu sync.Mutex
	hits := map[string]*hit{}
	probes := map[string]int{}
	stat := map[string]int{}
	scen := map[string]int{}
	var wall, steps, simns int64
	next := from
	var wg sync.WaitGroup
	t0 := time.Now()
	var slow time.Duration
	var slowSeed uint64
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := newWorker(c, k)
			if err != nil {
				die(2, "%v", err)
			}
			defer w.close()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= from+n {
					return
				}
				s := seedFor(prop, base, i)
				p := plan.Gen(prop, s, tier)
				o := w.run(p, nil, false)
				mu.Lock()
				if o.Wall > slow {
					slow, slowSeed = o.Wall, s
				}
				wall += int64(o.Wall)
				scen[p.Scen]++
				if o.Res != nil {
					steps += o.Res.Sim.Steps
					simns += o.Res.Sim.SimNs
					for k, v := range o.Res.Probes {
						probes[k] += v
					}
					for k, v := range o.Res.Stat {
						stat[k] += v
					}
				}
				vs := o.Viols
				if o.Kind == "error" {
					vs = []Violation{{"ERROR", o.Err.Error()}}
				}
				if len(vs) > 0 && os.Getenv("VSIM_STOP") != "" {
					next = from + n
				}
				for _, v := range vs {
					h := hits[v.Class]
					if h == nil {
						h = &hit{seed: s, det: v.Detail}
						hits[v.Class] = h
					}
					h.n++
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	fmt.Printf("%d runs in %v (%.1f ms each per core), slowest %v seed %d, %.0f sim s, %.1fM steps\nscen %v\nprobes %v\nstat %v\n", n, time.Since(t0), float64(wall)/1e6/float64(n), slow, slowSeed, float64(simns)/1e9, float64(steps)/1e6, scen, probes, stat)
	var ks []string
	for k := range hits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%6d seed=%d %s\n", hits[k].n, hits[k].seed, k)
		d := hits[k].det
		if !verbose {
			d = head(d, 700)
		}
		fmt.Println("        " + strings.ReplaceAll(d, "\n", "\n        "))
	}
}

func determinism(prop, tier string, base int64, n int) {
	c := mustBuild(prop)
	w, err := newWorker(c, 0)
	if err != nil {
		die(2, "%v", err)
	}
	defer w.close()
	bad := 0
	for i := 0; i < n; i++ {
		p := plan.Gen(prop, seedFor(prop, base, i), tier)
		o := w.run(p, nil, false)
		o2 := w.run(p, nil, false)
		o3 := w.run(p, o.Trace, false)
		if o.fingerprint() != o2.fingerprint() || o.fingerprint() != o3.fingerprint() {
			bad++
			fmt.Println(i, p.Seed, o.fingerprint(), "\n", o2.fingerprint(), "\n", o3.fingerprint())
		}
	}
	fmt.Println(n, "seeds,", bad, "not reproducible")
}
