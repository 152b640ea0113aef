//go:build vsim

package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

func init() {
	judges["C08"] = judgeC08
	phaseEnd["C08"] = func(i int, ph plan.Phase) {
		if ph.Name == "quiet" {
			closedHoldNothing()
			return
		}
		if pl.Scen != "churn" || ph.Name != "base" && ph.Name != "calm" {
			return
		}
		c := census{gs: repoGoroutines(), conns: nw.openAt(pl.Socks[0].Host)}
		if ph.Name == "base" {
			baseCensus = c
			return
		}
		if len(c.conns) > len(baseCensus.conns) {
			violate("leak: connections of departed peers stay open", "%d connections of %s, %d before the peers came: %v", len(c.conns), pl.Socks[0].Name, len(baseCensus.conns), c.conns)
		}
		if len(c.conns) < len(baseCensus.conns) {
			violate("churn: the connection of a peer that stayed is gone", "%v, before %v", c.conns, baseCensus.conns)
		}
		if len(c.gs) > len(baseCensus.gs) {
			violate("leak: goroutines of departed peers keep running", "%d, before the peers came %d:\n%s\nbefore:\n%s", len(c.gs), len(baseCensus.gs), strings.Join(c.gs, "\n"), strings.Join(baseCensus.gs, "\n"))
		}
		probe("census", 1)
		runtime.SimStop()
		runtime.GC()
		runtime.GC()
		runtime.SimResume()
		for _, s := range pl.Socks {
			gone := s.Type == "PUSH" // notices them all at once, and forgets them as others come
			for _, e := range hist {
				gone = gone || e.S == s.Name && (e.K == "close" || e.K == "cancel") || e.K == "crash" && e.A == s.Host
			}
			if gone {
				continue
			}
			kept, closed := nw.retained(s.Host)
			if kept > 12 && kept*4 > closed*3 { // a few are remembered until others come
				violate("leak: connections that ended are kept in memory", "%s: %d of %d", s.Name, kept, closed)
			}
			if closed >= 25 {
				probe("retained_checked", 1)
			}
			probe(fmt.Sprint("kept_", kept), 1)
		}
	}
}

type census struct {
	gs    []string
	conns []string
}

var baseCensus census

// repoGoroutines lists the goroutines the code under test started.
func repoGoroutines() (l []string) {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if f := repoFrame(g); f != "" {
			l = append(l, f)
		}
	}
	sort.Strings(l)
	return
}

// openAt lists the open connection ends of one host.
func (n *simNetwork) openAt(host string) []string {
	l := n.openConns(func(h string) bool { return h != host })
	sort.Strings(l)
	return l
}

// closedHoldNothing: a socket that was closed has no connection, whether or not
// its peers are still there.
func closedHoldNothing() {
	at := map[string]string{}
	closed, reused := map[string]bool{}, map[string]bool{}
	for _, e := range hist {
		switch {
		case e.K == "listen":
			if o, ok := at[e.A]; ok && o != e.S { // used again
				reused[o] = true
			}
			at[e.A] = e.S
		case e.K == "close" && e.ok() && simNow()-e.Tr > promptly:
			closed[e.S] = true
		}
	}
	for _, s := range pl.Socks {
		if !closed[s.Name] || reused[s.Name] {
			continue
		}
		probe("closed_checked", 1)
		if l := nw.openAt(s.Host); len(l) > 0 {
			violate("leak: a closed socket still has connections", "%s: %v", s.Name, l)
		}
	}
}

// nothingLeft: after everything was closed, nothing remains.
func nothingLeft(li *leakInfo) {
	for _, u := range li.unfinished {
		violate("stuck: an operation never returned although its socket was closed", "%s", u)
		break
	}
	if len(li.repoGs) > 0 {
		violate("leak: goroutines keep running after all sockets were closed", "%s", strings.Join(li.repoGs, "\n"))
	}
	if len(li.conns) > 0 {
		violate("leak: connections stay open after all sockets were closed", "%s", strings.Join(li.conns, "\n"))
	}
	if len(li.listeners) > 0 {
		violate("leak: listeners stay open after all sockets were closed", "%s", strings.Join(li.listeners, "\n"))
	}
}

const promptly = int64(2 * time.Second)

// endsPromptly checks everything that must hold around Close and cancellation.
func endsPromptly(w *world) {
	type life struct {
		t0     int64 // first close or cancel invoked, -1: never
		closed int64 // sequence number at which the Close that succeeded returned, 0: never
		closes []*Ev
	}
	lives := map[string]*life{}
	dead := map[string]bool{}
	for _, s := range pl.Socks {
		lives[s.Name] = &life{t0: -1}
	}
	for _, e := range hist {
		if e.K == "crash" {
			for _, s := range pl.Socks {
				if s.Host == e.A {
					dead[s.Name] = true
				}
			}
		}
		l := lives[e.S]
		if l == nil || e.K != "close" && e.K != "cancel" {
			continue
		}
		if l.t0 < 0 || e.Ti < l.t0 {
			l.t0 = e.Ti
		}
		if e.K == "close" {
			l.closes = append(l.closes, e)
			// a Close that reports an error may return before the one it
			// competes with has taken effect
			if e.R != 0 && e.Err == "" && (l.closed == 0 || e.R < l.closed) {
				l.closed = e.R
			}
		}
	}
	for _, s := range pl.Socks {
		l := lives[s.Name]
		ok := 0
		for _, e := range l.closes {
			if e.R != 0 && e.Err == "" {
				ok++
			}
		}
		if len(l.closes) > 0 && ok == 0 && !dead[s.Name] {
			violate("close: no Close succeeded", "%s", l.closes[0])
		}
		if ok > 1 {
			violate("close: Close succeeded more than once", "%s\n%s", l.closes[0], l.closes[1])
		}
	}
	for _, e := range hist {
		l := lives[e.S]
		if l == nil || l.t0 < 0 || dead[e.S] {
			continue
		}
		from := max(e.Ti, l.t0)
		if e.R == 0 {
			violate("stuck: an operation did not return after its socket was closed or canceled", "%s", e)
			continue
		}
		if e.Tr-from > promptly {
			violate("stuck: an operation returned long after its socket was closed or canceled", "%s (closed or canceled at %.3fms)", e, float64(l.t0)/1e6)
		}
		if l.closed != 0 && e.I > l.closed && e.Err == "" {
			switch e.K {
			case "send", "sendm", "recv", "dial", "listen":
				violate("closed: an operation on a closed socket succeeded", "%s", e)
			}
		}
		if e.Ti < l.t0 && e.Tr > l.t0 {
			probe("pending_at_close", 1)
		}
		probe("checked", 1)
	}
}

func judgeC08(w *world, li *leakInfo) {
	endsPromptly(w)
	nothingLeft(li)
	for _, e := range hist {
		if e.Proc == "take" && e.K == "listen" && !e.ok() {
			violate("rebind: cannot listen where a closed socket did", "%s", e)
		}
		if e.Phase >= len(pl.Phases) || pl.Phases[e.Phase].Name != "rebind" {
			continue
		}
		switch e.K {
		case "listen":
			if !e.ok() {
				violate("rebind: cannot listen where a closed socket did", "%s", e)
			}
		case "dial", "send":
			if !e.ok() && e.Proc == "redial" {
				violate("rebind: cannot use the endpoint of a closed socket again", "%s", e)
			}
			if e.K == "send" && e.Proc == "redial" {
				got := false
				for _, r := range hist {
					if r.K == "recv" && r.Proc == "rerecv" && r.UID == e.UID && r.ok() {
						got = true
					}
				}
				if !got {
					violate("rebind: message lost at an endpoint that is used again", "%s", e)
				}
				probe("rebound", 1)
			}
		}
	}
}
