//go:build vsim

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"slices"
	"strings"
	"time"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

func init() {
	judges["C14"] = judgeC14
	phaseEnd["C14"] = func(i int, ph plan.Phase) {
		if pl.Scen != "flap" || ph.Name != "setup" && ph.Name != "heal" {
			return
		}
		var l []string
		for _, s := range pl.Socks[1:] {
			l = append(l, nw.openAt(s.Host)...)
		}
		c := census{gs: repoGoroutines(), conns: l}
		if ph.Name == "setup" {
			baseCensus = c
			return
		}
		if len(c.conns) != len(baseCensus.conns) {
			violate("reconnect: the connections after a peer came back are not those of before", "%v, before %v", c.conns, baseCensus.conns)
		}
		if len(c.gs) > len(baseCensus.gs) {
			violate("leak: goroutines of earlier connections keep running", "%d, before %d:\n%s\nbefore:\n%s", len(c.gs), len(baseCensus.gs), strings.Join(c.gs, "\n"), strings.Join(baseCensus.gs, "\n"))
		}
		probe("census", 1)
	}
}

func sameJSON(a, b json.RawMessage) bool {
	if len(a) == 0 || len(b) == 0 {
		return len(a) == len(b)
	}
	var x, y any
	return json.Unmarshal(a, &x) == nil && json.Unmarshal(b, &y) == nil && reflect.DeepEqual(x, y)
}

// pairState is what a node's record of operations says about its connection to
// a peer at the beginning of a phase, and whether that can change in the phase.
type pairState struct{ known, on bool }

func judgeC14(w *world, li *leakInfo) {
	isNode := map[string]bool{}
	for _, s := range pl.Socks {
		isNode[s.Name] = s.Type == "NODE"
	}
	phase := func(e *Ev) string {
		if e.Phase >= len(pl.Phases) {
			return "teardown"
		}
		return pl.Phases[e.Phase].Name
	}
	stopEv := func(e *Ev) bool { return e.K == "t.stop" || e.K == "t.cancel" || e.K == "t.crash" }
	// life of the incarnations of the nodes
	type life struct {
		stopT   int64 // first stop or cancel invoked
		stopped int64 // sequence number at which a Stop had returned
		changed int64 // first stop or cancel invoked, sequence number
	}
	lives := map[string]*life{}
	key := func(e *Ev) string { return fmt.Sprint(e.S, "#", e.It) }
	get := func(k string) *life {
		if lives[k] == nil {
			lives[k] = &life{}
		}
		return lives[k]
	}
	slow := func(h string) bool { // a fault of the plan concerns the host
		for _, f := range pl.Net.Faults {
			if f.A == h || f.B == h {
				return true
			}
		}
		return false
	}
	var handled, msgs []*Ev
	regs := map[string][]*Ev{}
	for _, e := range hist {
		if !isNode[e.S] {
			continue
		}
		switch {
		case stopEv(e):
			l := get(key(e))
			if l.stopT == 0 || e.Ti < l.stopT {
				l.stopT = max(e.Ti, 1)
				l.changed = e.I
			}
			if e.K == "t.stop" && e.R != 0 && (l.stopped == 0 || e.R < l.stopped) {
				l.stopped = e.R
			}
		case e.K == "handled":
			handled = append(handled, e)
		case e.K == "t.bcast" || e.K == "t.send":
			msgs = append(msgs, e)
		case e.K == "t.handle" || e.K == "t.unhandle":
			regs[e.S] = append(regs[e.S], e)
		}
	}
	byUID := map[uint32][]*Ev{} // several: a message handled twice is answered twice
	for _, m := range msgs {
		byUID[m.UID] = append(byUID[m.UID], m)
	}
	sent := func(h *Ev) (m *Ev) {
		for _, o := range byUID[h.UID] {
			if o.I < h.I && (m == nil || o.M.Timestamp == h.M.Timestamp) {
				m = o
			}
		}
		return
	}
	// stranger reports that the node had no connection to the peer of e, and
	// nobody tried to make one, while e went on
	stranger := func(e *Ev) bool {
		for _, c := range hist {
			if c.S == e.S && c.K == "t.conn" && c.I < e.R && slices.Equal(c.List, e.List) {
				gone := false
				for _, d := range hist {
					gone = gone || d.S == e.S && d.K == "t.disc" && d.R != 0 && slices.Equal(d.List, e.List) && c.R != 0 && d.I > c.R && d.R < e.I
				}
				if !gone {
					return false
				}
			}
		}
		return true
	}
	incOf := map[string]bool{} // incarnations that were started
	// operations end when the node is stopped; queries never take long
	for _, e := range hist {
		if !isNode[e.S] || e.Proc == "handler" {
			continue
		}
		l := get(key(e))
		if e.K == "t.start" && e.ok() {
			incOf[key(e)] = true
		}
		slack := promptly
		s := w.spec[e.S]
		if d := s.Retry; true { // waits between the attempts of ...WithRetry
			n := s.MaxRet
			if n == 0 {
				n = 3
			}
			if d == 0 {
				d = 100
			}
			slack += int64(n*(n-1)/2*d) * ms
		}
		end := e.Tr
		if e.R == 0 {
			end = simNow()
		}
		if l.stopT != 0 && end-max(e.Ti, l.stopT) > slack && e.K != "t.crash" {
			violate("stuck: an operation did not return soon after the node was stopped", "%s, stopped at %.3fms", e, float64(l.stopT)/1e6)
		}
		if e.R == 0 {
			continue
		}
		wait := e.waited()
		if again, n, d := e.K == "t.send" && e.N == 2 && strings.Contains(e.Err, "no connection"), w.spec[e.S].MaxRet, w.spec[e.S].Retry; again {
			if n == 0 {
				n = 3
			}
			if d == 0 {
				d = 100
			}
			// every attempt but the last is followed by a longer pause
			if least := int64(n*(n-1)/2*d) * ms; e.Tr-e.Ti < least || stranger(e) && pl.Sched.StallPer == 0 && wait > least+int64(50*time.Millisecond) {
				violate("retry: the pauses between the attempts are not those configured", "%s: %d attempts, %d ms", e, n, d)
			}
			probe("retries_timed", 1)
		}
		switch e.K {
		case "t.peers", "t.metrics", "t.handle", "t.unhandle", "t.disc", "t.start", "t.stop":
			if wait > int64(time.Second) {
				violate("stuck: an operation that needs nobody else took long", "%s", e)
			}
		case "t.bcast":
			if wait > slack {
				violate("stuck: a broadcast took long", "%s", e)
			}
		}
		if l.stopped != 0 && e.I > l.stopped && e.Err == "" {
			switch e.K {
			case "t.start", "t.bcast", "t.send", "t.conn":
				if e.K == "t.conn" {
					break // an existing connection may be reported
				}
				violate("stopped: an operation of a stopped node succeeded", "%s", e)
			}
		}
		if e.K == "t.start" && e.Err != "" && phase(e) == "again" {
			violate("start: cannot start where a stopped node was", "%s", e)
		}
		if e.K == "t.metrics" && e.List[3] != e.S {
			violate("node: wrong node id", "%s", e)
		}
	}
	// starting: fails if and only if something is in the way
	var occupant []*Ev
	port := map[string]bool{} // nodes whose ports are taken
	for _, e := range hist {
		if s := w.spec[e.S]; e.K == "listen" {
			for _, n := range pl.Socks {
				if isNode[n.Name] && n.Host == s.Host {
					port[n.Name] = true
				}
			}
		}
		if e.K == "listen" || e.K == "close" && !isNode[e.S] {
			occupant = append(occupant, e)
		}
	}
	for _, e := range hist {
		if e.K != "t.start" || e.R == 0 {
			continue
		}
		free := true
		for _, o := range occupant {
			if !port[e.S] {
				break
			}
			if o.K == "listen" && o.I < e.I {
				free = false
			}
			if o.K == "close" && o.R != 0 && o.R < e.I {
				free = true
			}
		}
		again := false // started before and not stopped
		for _, o := range hist {
			if o.K == "t.start" && o != e && key(o) == key(e) && (o.R == 0 || o.Err == "") && o.I < e.R {
				again = true
			}
		}
		l := get(key(e))
		switch {
		case again || l.stopT != 0 && l.changed < e.R:
		case !free && e.Err == "":
			violate("start: reported success although a port is taken", "%s", e)
		case free && e.Err != "":
			violate("start: failed although nothing is in the way", "%s", e)
		}
	}
	// connecting to a running node succeeds, and soon
	for _, e := range hist {
		if e.K != "t.conn" || e.R == 0 || e.N != 0 || !isNode[e.List[0]] {
			continue
		}
		x := e.List[0]
		if slow(w.spec[e.S].Host) || slow(w.spec[x].Host) {
			continue
		}
		var up *Ev
		for _, o := range hist {
			if o.K == "t.start" && o.S == x && o.ok() && o.R < e.I {
				up = o
			}
		}
		for _, o := range hist {
			if o.I > e.R || up == nil {
				break
			}
			switch {
			case o.S == x && (stopEv(o) || o.K == "t.new") && (o.R == 0 || o.R > up.I),
				o.S == e.S && stopEv(o) && o.It == e.It,
				(o.K == "t.disc" || o.K == "t.conn" && o.N != 0) && o.S == e.S && o.List[0] == x && (o.R == 0 || o.R > e.I):
				up = nil
			}
		}
		if up == nil {
			continue
		}
		if e.Err != "" || e.Tr-e.Ti > promptly {
			violate("node: cannot connect to a running node", "%s\n%s", e, up)
		}
		probe("connected", 1)
	}
	// what is handled is what was sent, by the handler in force, once
	count := map[string]int{} // "uid node"
	// An attempt that reported an error may have been delivered, and an
	// attempt may fail because the connection is given up meanwhile.
	again := func(m *Ev) bool {
		if m.M.To == "" || m.N != 2 {
			return false
		}
		if pl.Scen != "mesh" {
			return true
		}
		for _, d := range hist {
			if d.K == "t.disc" && d.S == m.S && d.List[0] == m.M.To && (m.R == 0 || d.I < m.R) && (d.R == 0 || d.R > m.I) {
				return true
			}
		}
		return false
	}
	got := map[string]map[uint32]int{}
	for _, h := range handled {
		m := sent(h)
		if m == nil {
			violate("integrity: handled a message nobody sent", "%s", h)
			continue
		}
		a, b := h.M, m.M
		if m.N == 1 {
			violate("integrity: handled a message that could not be encoded", "%s", h)
		}
		if a.Type != b.Type || a.From != b.From || a.To != b.To || a.Height != b.Height || a.Round != b.Round || !bytes.Equal(a.SessionID, b.SessionID) || !sameJSON(a.Data, b.Data) {
			violate("integrity: a handler got something else than was sent", "%s\n  got  %+v\n  sent %+v", h, a, b)
		}
		if m.R != 0 && m.Err == "" && !again(m) && a.Timestamp != b.Timestamp || a.Timestamp == 0 {
			violate("integrity: a handler got another timestamp than was sent", "%s\n  got  %+v\n  sent %+v", h, a, b)
		}
		if m.M.To != "" && m.M.To != h.S {
			violate("routing: a message was handled by a node it was not sent to", "%s\n%s", h, m)
		}
		if m.M.To == "" && m.S == h.S {
			violate("routing: a node handled its own broadcast", "%s\n%s", h, m)
		}
		if pl.Scen == "mesh" && !slow(w.spec[h.S].Host) && !slow(w.spec[m.S].Host) && m.R != 0 && h.Ti-m.Tr > promptly {
			violate("stuck: a message was handled long after it was sent", "%s\n%s", h, m)
		}
		count[fmt.Sprint(h.UID, " ", h.S)]++
		if got[h.S] == nil {
			got[h.S] = map[uint32]int{}
		}
		got[h.S][h.UID]++
		// the handler
		ids, any := handlersFor(regs[h.S], h.It, m.M.Type, m.I, h.I)
		if !any[h.N] {
			violate("handler: a message was given to a handler that was not in force", "%s\n%s\nallowed %v", h, m, ids)
		}
		// an incarnation must have existed
		if h.It > 0 {
			probe("handled_by_restarted", 1)
		}
	}
	for _, m := range msgs {
		limit := len(byUID[m.UID])
		if again(m) {
			limit = 5
		}
		for _, s := range pl.Socks {
			if n := count[fmt.Sprint(m.UID, " ", s.Name)]; n > limit {
				violate("once: a message was handled more than once", "%s: %d times by %s", m, n, s.Name)
			}
		}
	}
	// connections
	conns := map[string][]*Ev{} // "y x": connects and disconnects, and the stops of y
	for _, e := range hist {
		if e.K != "t.conn" && e.K != "t.disc" || !isNode[e.S] {
			continue
		}
		k := e.S + " " + e.List[0]
		conns[k] = append(conns[k], e)
	}
	firstOf := func(p int) int64 { // sequence number at which phase p began
		for _, e := range hist {
			if e.Phase >= p {
				return e.I
			}
		}
		return seq
	}
	state := func(y, x string, p int) (st pairState) {
		st.known = true
		for _, e := range hist {
			if e.Phase > p {
				break
			}
			mine := e.S == y && (e.K == "t.conn" || e.K == "t.disc") && e.List[0] == x
			ends := e.S == y && (stopEv(e) || e.K == "t.new")
			other := e.S == x && (stopEv(e) || e.K == "t.new" || e.K == "t.start")
			if !mine && !ends && !other {
				continue
			}
			if e.Phase == p || e.R == 0 || phase(hist[0]) == "" {
				return pairState{}
			}
			if e.R > firstOf(p) {
				return pairState{}
			}
			switch {
			case ends:
				st.known, st.on = true, false
			case other:
				if stopEv(e) && pl.Scen == "life" {
					st.known = false // it may have given up
				}
			case e.K == "t.disc":
				st.known, st.on = true, false
				for _, o := range conns[y+" "+x] {
					if o.K == "t.conn" && o.I < e.R && (o.R == 0 || o.R > e.I) {
						st.known = false
					}
				}
			case e.Err == "":
				was := st
				st.known, st.on = true, true
				for _, o := range conns[y+" "+x] {
					if o.K == "t.disc" && o.I < e.R && (o.R == 0 || o.R > e.I) {
						st.known = false
					}
					// the address of the first successful one counts
				}
				if !was.known {
					st.known = false
				}
			}
		}
		return
	}
	wrongAddr := map[string]bool{}
	for _, ph := range pl.Phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				if o.K == "t.conn" && o.N != 0 {
					wrongAddr[o.S+" "+o.A] = true
				}
			}
		}
	}
	up := func(x string, p int) (ok bool) { // started before phase p and not stopped since
		for _, e := range hist {
			if e.Phase > p {
				break
			}
			if e.S != x {
				continue
			}
			if e.K == "t.start" && e.Phase < p && e.R != 0 && e.R < firstOf(p) {
				ok = ok || e.Err == ""
			}
			if stopEv(e) || e.K == "t.new" {
				ok = false
			}
		}
		return
	}
	sts := map[string]pairState{}
	stateOf := func(y, x string, p int) pairState {
		k := fmt.Sprint(y, " ", x, " ", p)
		s, ok := sts[k]
		if !ok {
			s = state(y, x, p)
			if wrongAddr[y+" "+x] && pl.Scen != "mesh" {
				s.known = false
			}
			sts[k] = s
		}
		return s
	}
	for _, m := range msgs {
		if m.N == 1 {
			if m.Err == "" {
				violate("node: a message that cannot be encoded was accepted", "%s", m)
			}
			continue
		}
		if pl.Phases[min(m.Phase, len(pl.Phases)-1)].Name == "end" || m.Phase >= len(pl.Phases) {
			continue
		}
		if m.K == "t.bcast" {
			if up(m.S, m.Phase) && !m.ok() {
				violate("node: a broadcast of a running node failed", "%s", m)
			}
			if !m.ok() || !up(m.S, m.Phase) {
				continue
			}
		}
		for _, s := range pl.Socks {
			if !isNode[s.Name] {
				continue
			}
			r := s.Name
			var st pairState
			if m.K == "t.bcast" {
				if r == m.S {
					continue
				}
				st = stateOf(r, m.S, m.Phase)
			} else {
				if r != m.M.To {
					continue
				}
				st = stateOf(m.S, r, m.Phase)
			}
			if !up(r, m.Phase) || !up(m.S, m.Phase) || !st.known {
				continue
			}
			n := got[r][m.UID]
			ids, _ := handlersFor(regs[r], -1, m.M.Type, m.I, endOf(m.Phase))
			switch {
			case !st.on && n > 0 && m.K == "t.bcast":
				violate("routing: a broadcast was handled by a node that is not connected", "%s by %s", m, r)
			case !st.on && m.K == "t.send" && m.Err == "" && m.R != 0:
				violate("node: a message to a node that is not connected was accepted", "%s", m)
			case !st.on && m.K == "t.send" && !strings.Contains(m.Err, "no connection") && m.R != 0:
				violate("node: wrong error for a node that is not connected", "%s", m)
			case st.on && m.K == "t.send" && !m.ok():
				if pl.Scen == "mesh" || phase(m) == "calm" {
					violate("node: a message to a connected node failed", "%s", m)
				}
			case st.on && pl.Scen != "mesh" && phase(m) != "calm" && phase(m) != "first":
			case st.on && n == 0 && !ids[0]:
				violate("lost: a message was not handled", "%s by %s", m, r)
			case st.on:
				probe("exact", 1)
			default:
				probe("not_connected", 1)
			}
		}
	}
	// no broadcast of a peer that was disconnected before, or never connected
	for _, h := range handled {
		m := sent(h)
		if m == nil || m.K != "t.bcast" {
			continue
		}
		var d *Ev
		for _, e := range conns[h.S+" "+m.S] {
			if e.K == "t.disc" && e.R != 0 && e.R < m.I {
				d = e
			}
		}
		ok := false
		for _, e := range conns[h.S+" "+m.S] {
			if e.K == "t.conn" && e.I < h.I && e.It == h.It && (d == nil || e.R == 0 || e.R > d.I) && (e.Err == "" || e.R == 0 || e.R > m.I) {
				ok = true
			}
		}
		if !ok {
			violate("routing: a broadcast of a node that is not connected was handled", "%s\n%s", h, m)
		}
	}
	// what a node says about its peers follows from the operations that are over
	sure := func(y, x string, e *Ev) int { // 1: connected, -1: not, 0: unknown
		var last *Ev
		var ops []*Ev
		for _, o := range hist {
			if o.S != y || o.I > e.R {
				continue
			}
			if stopEv(o) || o.K == "t.new" && o.It == e.It && o.I > e.I {
				if o.It == e.It {
					return 0
				}
				continue
			}
			if o.K != "t.conn" && o.K != "t.disc" || o.List[0] != x || o.It != e.It || o.R != 0 && o.Err != "" {
				continue
			}
			if o.R == 0 || o.R > e.I {
				return 0
			}
			ops = append(ops, o)
			if last == nil || o.R > last.R {
				last = o
			}
		}
		if last == nil {
			return -1
		}
		for _, o := range ops {
			if o.K != last.K && o.R > last.I {
				return 0
			}
		}
		if last.K == "t.conn" {
			return 1
		}
		return -1
	}
	for _, e := range hist {
		if e.R == 0 || !isNode[e.S] {
			continue
		}
		for _, s := range pl.Socks {
			if !isNode[s.Name] {
				continue
			}
			switch {
			case e.K == "t.peers":
				on := false
				for _, x := range e.List {
					on = on || x == s.Name
				}
				if st := sure(e.S, s.Name, e); st == 1 && !on || st == -1 && on {
					violate("node: the list of peers contradicts what was done before", "%s: %s %v", e, s.Name, on)
				} else if st != 0 {
					probe("sure", 1)
				}
			case e.K == "t.send" && e.M.To == s.Name && e.N != 1:
				no := strings.Contains(e.Err, "no connection")
				if st := sure(e.S, s.Name, e); st == 1 && no || st == -1 && !no {
					violate("node: the fate of a message contradicts the connections made before", "%s", e)
				} else if st != 0 {
					probe("sure", 1)
				}
			}
		}
	}
	// the list of peers, the metrics
	for _, e := range hist {
		if e.K != "t.peers" && e.K != "t.metrics" || e.R == 0 {
			continue
		}
		if e.K == "t.peers" {
			seen := map[string]int{}
			for _, x := range e.List {
				seen[x]++
				if x == "scribble" {
					violate("node: the list of peers is not the caller's own", "%s", e)
				}
				if seen[x] > 1 {
					violate("node: a peer is listed twice", "%s", e)
				}
			}
			if phase(e) != "look" {
				continue
			}
			for _, s := range pl.Socks {
				if st := stateOf(e.S, s.Name, e.Phase); isNode[s.Name] && st.known && st.on != (seen[s.Name] == 1) {
					violate("node: the list of peers is wrong", "%s: %s connected %v", e, s.Name, st.on)
				}
			}
			continue
		}
		if phase(e) != "look" || pl.Scen != "mesh" {
			continue
		}
		sent, exact := 0, true
		for _, m := range msgs {
			if m.S != e.S || m.N == 1 || m.I > e.R {
				continue
			}
			if m.R == 0 || m.R > e.I || again(m) {
				exact = false
			}
			if m.Err == "" {
				sent++
			} else if !strings.Contains(m.Err, "no connection") {
				exact = false
			}
		}
		if v, _ := strconv.Atoi(e.List[0]); exact && v != sent {
			violate("metrics: the number of messages sent is wrong", "%s, %d were sent", e, sent)
		}
		recv := 0
		for _, m := range msgs {
			if m.N == 1 || m.I > e.R {
				continue
			}
			y, x := e.S, m.S
			if m.K == "t.send" {
				y, x = m.S, m.M.To
				if m.M.To != e.S {
					continue
				}
			} else if m.S == e.S {
				continue
			}
			st := stateOf(y, x, m.Phase)
			if !st.known || m.R == 0 || m.R > e.I || again(m) {
				exact = false
			}
			if st.on && m.Err == "" {
				recv++
			}
		}
		if v, _ := strconv.Atoi(e.List[1]); exact && v != recv {
			violate("metrics: the number of messages received is wrong", "%s, %d were received", e, recv)
		}
		if v, _ := strconv.Atoi(e.List[2]); v != knob("bad_"+e.S, 0) {
			violate("metrics: the number of messages dropped is wrong", "%s, %d were malformed", e, knob("bad_"+e.S, 0))
		}
		if exact {
			probe("metrics_exact", 1)
		}
	}
	nothingLeft(li)
	probe("handled", len(handled))
}

// endOf is the sequence number at which phase p was over.
func endOf(p int) int64 {
	for _, e := range hist {
		if e.Phase > p {
			return e.I
		}
	}
	return seq + 1
}

// handlersFor lists the handlers (0: none) of type typ that may have been in
// force between the sequence numbers from and to, for incarnation inc (-1: the
// last one that began before from).
func handlersFor(regs []*Ev, inc int, typ string, from, to int64) (sure, any map[int]bool) {
	any = map[int]bool{}
	cur := []*Ev{}
	if inc < 0 {
		inc = 0
		for _, e := range regs {
			if e.I < from {
				inc = e.It
			}
		}
	}
	for _, e := range regs {
		if e.It == inc && e.A == typ && e.I < to {
			cur = append(cur, e)
		}
	}
	val := func(e *Ev) int {
		if e.K == "t.unhandle" {
			return 0
		}
		return e.N
	}
	none := true // nothing completed before from
	for i, e := range cur {
		over := false // replaced before from
		for _, o := range cur[i+1:] {
			if o.R != 0 && o.R < from && o.I > e.R && e.R != 0 {
				over = true
			}
		}
		if e.R != 0 && e.R < from {
			none = false
		}
		if !over {
			any[val(e)] = true
		}
	}
	if none {
		any[0] = true
	}
	return any, any
}
