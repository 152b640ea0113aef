//go:build vsim

package main

import (
	"strings"
	"time"
)

func init() {
	judges["C09"] = judgeC09
}

const slack = int64(40 * time.Millisecond)

func judgeC09(w *world, li *leakInfo) {
	w.integrity()
	w.once()
	name := func(e *Ev) string {
		if e.Phase < len(pl.Phases) {
			return pl.Phases[e.Phase].Name
		}
		return ""
	}
	var up int64 = -1 // the connection stands
	for _, e := range hist {
		if e.K == "dial" && e.ok() {
			up = e.Tr
		}
	}
	last := int64(0)
	for _, e := range hist {
		last = max(last, e.Ti, e.Tr)
	}
	for _, e := range hist {
		s, ok := w.spec[e.S]
		if !ok {
			continue
		}
		switch e.K {
		case "send", "sendm", "xsub", "sub", "unsub":
		default:
			continue
		}
		T := int64(s.Timeout) * int64(time.Millisecond)
		switch {
		case s.Timeout < 0:
			T = 0
		case s.Timeout == 0:
			T = int64(5 * time.Minute)
		}
		if e.R == 0 {
			if last-e.Ti > T+slack {
				violate("deadline: a Send never returned", "%s (deadline %v)", e, time.Duration(T))
			}
			continue
		}
		d := e.Tr - e.Ti
		if e.waited() > T+slack {
			violate("deadline: an operation outlived its send deadline", "%s took %v, deadline %v", e, time.Duration(d), time.Duration(T))
		}
		expired := strings.Contains(e.Err, "deadline")
		if expired && d < T {
			violate("deadline: a Send gave up before its deadline", "%s took %v, deadline %v", e, time.Duration(d), time.Duration(T))
		}
		if expired {
			probe("expired", 1)
		}
		if e.K == "sub" || e.K == "unsub" {
			continue
		}
		probe("timed", 1)
		if pl.Scen == "peerless" {
			switch {
			case up < 0 && e.Err == "":
				violate("deadline: a Send succeeded although there never was a peer", "%s", e)
			case !expired && e.Err != "":
				violate("deadline: a Send gave up before its deadline", "%s took %v, deadline %v", e, time.Duration(d), time.Duration(T))
			case up >= 0 && T > 0 && max(up, e.Ti)+slack+e.Br-e.Bi < e.Ti+T && expired:
				violate("deadline: a Send did not go through although a peer came", "%s (connected at %.3fms)", e, float64(up)/1e6)
			case up >= 0 && e.Err == "" && e.Tr > max(up, e.Ti)+slack+e.Br-e.Bi:
				violate("deadline: a Send went on waiting although a peer came", "%s (connected at %.3fms)", e, float64(up)/1e6)
			}
		}
		if name(e) == "calm" && s.Type != "REQ" && s.Timeout >= 50 && e.Err != "" {
			violate("deadline: Sends fail after the links recovered", "%s", e)
		}
	}
	if pl.Scen == "peerless" {
		w.complete(func(s *Ev, r string) bool { return s.ok() })
		w.fifo(nil)
	}
	w.complete(func(s *Ev, r string) bool {
		return s.ok() && name(s) == "calm" && w.spec[s.S].Type != "REQ" && w.spec[s.S].Type != "REP" && w.spec[r].Type != "REP"
	})
	for i, ph := range pl.Phases {
		if ph.Name != "calm" {
			continue
		}
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				if o.K != "req" {
					continue
				}
				n := 0
				for _, e := range hist {
					if e.Phase == i && e.K == "recv" && e.S == o.S && e.ok() {
						n++
					}
				}
				if n < o.N {
					violate("deadline: requests are no longer answered after the links recovered", "%s got %d of %d replies", o.S, n, o.N)
				}
				probe("calm_replies", n)
			}
		}
	}
	nothingLeft(li)
}
