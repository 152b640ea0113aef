//go:build vsim

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

func init() {
	judges["C04"] = judgeC04
	judges["C05"] = judgeC05
	judges["C06"] = judgeC06
	judges["C07"] = judgeC07
	phaseEnd["C04"] = func(i int, ph plan.Phase) {
		if ph.Settle == 0 {
			return
		}
		for _, n := range order {
			s := socks[n]
			if t := s.spec.Type; s.closing || s.crashed || t != "PUB" && t != "XPUB" && t != "SUB" {
				continue
			}
			(&procRun{p: plan.Proc{Name: "main"}}).op(i, plan.Op{K: "topics", S: n})
		}
	}
}

// topicSet tells for each topic a subscriber ever touched whether it is in its
// set at a point in the history: 1 yes, 0 no, 2 undetermined.
func topicSet(sock string, upto int64) map[string]int {
	ops := map[string][]*Ev{}
	for _, e := range hist {
		if e.S == sock && e.I < upto && (e.K == "sub" || e.K == "unsub" || e.K == "xsub") {
			ops[e.A] = append(ops[e.A], e)
		}
	}
	out := map[string]int{}
	for t, l := range ops {
		v := -1
		for _, a := range l {
			last := true
			for _, b := range l {
				if a.R != 0 && b.I > a.R {
					last = false
				}
			}
			if !last {
				continue
			}
			x := 0
			if a.K == "sub" || a.K == "xsub" && a.N == 1 {
				x = 1
			}
			if a.R == 0 || a.R > upto || a.K == "xsub" && !a.ok() {
				x = 2
			}
			if v >= 0 && v != x {
				x = 2
			}
			v = x
		}
		out[t] = v
	}
	return out
}

// matches reports whether a subscription set selects a topic: 1, 0 or 2.
func matches(set map[string]int, topic string) int {
	r := 0
	for t, v := range set {
		if strings.HasPrefix(topic, t) {
			if v == 1 {
				return 1
			}
			if v == 2 {
				r = 2
			}
		}
	}
	return r
}

func phaseStart(i int) int64 {
	for _, e := range hist {
		if e.Phase >= i {
			return e.I
		}
	}
	return 1 << 62
}

func inSet(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func judgeC04(w *world, li *leakInfo) {
	w.integrity()
	w.once()
	w.fifo(nil)
	closed := map[string]int64{}
	for _, e := range hist {
		if e.K == "close" && closed[e.S] == 0 {
			closed[e.S] = e.I
		}
	}
	// what subscribers say they are subscribed to, settled
	said := map[int]map[string][]string{}
	for _, e := range hist {
		if e.K == "topics" && e.ok() {
			if said[e.Phase] == nil {
				said[e.Phase] = map[string][]string{}
			}
			l := e.List
			if l == nil {
				l = []string{}
			}
			said[e.Phase][e.S] = l
			if !sort.StringsAreSorted(l) {
				violate("topics: not sorted", "%s", e)
			}
			for i := 1; i < len(l); i++ {
				if l[i] == l[i-1] {
					violate("topics: listed twice", "%s", e)
				}
			}
		}
	}
	setAt := func(sub string, phase int) map[string]int { // as of the end of a phase
		set := topicSet(sub, phaseStart(phase+1))
		if l, ok := said[phase][sub]; ok {
			for t, v := range set {
				if v == 2 {
					set[t] = 0
					if inSet(l, t) {
						set[t] = 1
					}
				}
			}
		}
		return set
	}
	for ph, m := range said {
		for n, l := range m {
			switch w.spec[n].Type {
			case "SUB":
				set := topicSet(n, phaseStart(ph+1))
				for t, v := range set {
					if v != 2 && inSet(l, t) != (v == 1) {
						violate("topics: SUB.Topics() differs from the subscriptions made", "%s in phase %d: %q, but %q is %d", n, ph, l, t, v)
					}
				}
				for _, t := range l {
					if _, ok := set[t]; !ok {
						violate("topics: SUB.Topics() names a topic never subscribed to", "%s: %q", n, t)
					}
				}
			default:
				must, may := map[string]string{}, map[string]bool{}
				for p := range w.peers[n] {
					if closed[p] != 0 && closed[p] < phaseStart(ph+1) {
						continue
					}
					for t, v := range setAt(p, ph) {
						if v == 1 {
							must[t] = p
						}
						if v != 0 {
							may[t] = true
						}
					}
				}
				for t, p := range must {
					if !inSet(l, t) {
						violate("topics: publisher misses a subscription", "%s after phase %d: Topics() = %q, but %s is subscribed to %q", n, ph, l, p, t)
					}
				}
				for _, t := range l {
					if !may[t] {
						violate("topics: publisher keeps a subscription nobody has", "%s after phase %d: Topics() = %q, nobody is subscribed to %q", n, ph, l, t)
					}
				}
			}
		}
	}
	// who got what
	for _, r := range w.recvs {
		s := w.match[r]
		if s == nil {
			continue
		}
		topic, any := string(s.Frames[0]), false
		for _, e := range hist {
			if e.S == r.S && (e.K == "sub" || e.K == "xsub" && e.N == 1) && e.I < r.R && strings.HasPrefix(topic, e.A) {
				any = true
			}
		}
		if !any {
			violate("filter: message without a matching subscription", "%s", r)
		}
	}
	exact := 0
	for _, s := range w.all {
		if pl.Phases[s.Phase].Name != "stable" {
			continue
		}
		if !s.ok() {
			violate("send failed", "%s", s)
			continue
		}
		for p := range w.peers[s.S] {
			if closed[p] != 0 && closed[p] < s.R {
				continue
			}
			m := matches(setAt(p, s.Phase-1), string(s.Frames[0]))
			got := len(w.got[s][p])
			exact++
			if m == 1 && got == 0 {
				violate("filter: matching message not delivered", "%s never got %s; subscriptions %v", p, s, setAt(p, s.Phase-1))
			}
			if m == 0 && got > 0 {
				violate("filter: message delivered although it matches no subscription", "%s got %s; subscriptions %v", p, s, setAt(p, s.Phase-1))
			}
		}
	}
	probe("exact_deliveries", exact)
}

func judgeC05(w *world, li *leakInfo) {
	w.integrity()
	w.once()
	w.fifo(nil)
	nslow, hwm, size := knob("nslow", 1), knob("hwm", 1), knob("size", 200)
	pub := pl.Socks[0].Name
	var first []*Ev // the burst, in order of invocation
	var again []*Ev
	total := 0
	for _, s := range w.all {
		if s.R == 0 {
			violate("blocked: Send of a publisher did not return", "%s", s)
			continue
		}
		if !s.ok() {
			violate("blocked: Send of a publisher failed", "%s", s)
		}
		if pl.Sched.StallPer == 0 && s.waited() > int64(50*time.Millisecond) {
			violate("blocked: Send of a publisher took long", "%s", s)
		}
		switch pl.Phases[s.Phase].Name {
		case "burst":
			first = append(first, s)
			total++
		case "again":
			again = append(again, s)
		}
	}
	_ = pub
	for _, e := range hist {
		if e.K == "hwm" && (e.Err == "") != (e.N >= 0) {
			violate("option: wrongly set or refused", "%s %d", e, e.N)
		}
	}
	for i, spec := range pl.Socks[1:] {
		n := spec.Name
		if len(w.peers[n]) == 0 {
			continue
		}
		cnt := 0
		for _, s := range first {
			if len(w.got[s][n]) > 0 {
				cnt++
			}
		}
		slow := i < nslow
		if !slow && knob("paced", 0) == 1 {
			for _, s := range first {
				if len(w.got[s][n]) == 0 {
					violate("drop: a subscriber that keeps up lost a message", "%s never got %s", n, s)
					break
				}
			}
		}
		lim := min(hwm, len(first))
		if cnt < lim {
			violate("drop: fewer than HWM messages were kept", "%s got %d of %d, HWM %d", n, cnt, len(first), hwm)
		}
		if slow && knob("pub2", 0) == 0 {
			for _, s := range first[:lim] {
				if len(w.got[s][n]) == 0 {
					violate("drop: a message was dropped while there was room", "%s never got %s, HWM %d", n, s, hwm)
					break
				}
			}
		}
		if slow && knob("stalled", 0)>>i&1 == 1 {
			// HWM in the queue, one being written, the rest in the kernel's buffer
			bound := hwm + 1 + pl.Net.Buf/size + 2
			if cnt > bound {
				violate("bound: more than HWM messages were kept for a stalled subscriber", "%s got %d of %d, HWM %d, at most %d expected", n, cnt, len(first), hwm, bound)
			}
			if cnt < len(first) {
				probe("dropped_for_slow", len(first)-cnt)
			}
		}
		for _, s := range again {
			if len(w.got[s][n]) == 0 {
				violate("drop: a drained subscriber does not get messages again", "%s never got %s", n, s)
				break
			}
		}
	}
}

func judgeC06(w *world, li *leakInfo) {
	w.integrity()
	faulty := knob("faulty", 0) == 1
	client := map[string]bool{}
	for _, s := range pl.Socks {
		if s.Type == "REQ" || s.Type == "DEALER" {
			client[s.Name] = true
		}
	}
	for _, r := range w.recvs {
		s := w.match[r]
		if s == nil || !client[r.S] {
			continue
		}
		// the reply belongs to a request this client made
		req := s.UID &^ replyBit
		var mine *Ev
		for _, q := range w.sends[req] {
			if q.S == r.S {
				mine = q
			}
		}
		if mine == nil {
			violate("reply: a client got the reply to someone else's request", "%s\nreply: %s", r, s)
			continue
		}
		if w.spec[r.S].Type == "REQ" && r.A != fmt.Sprint(req) {
			violate("reply: REQ got the reply to another request", "%s\nwanted the reply to %s\nreply: %s", r, r.A, s)
		}
	}
	// the matching order must not depend on map iteration
	for _, q := range w.all {
		if !client[q.S] {
			continue
		}
		replies := w.sends[q.UID|replyBit]
		per := map[string]int{}
		for _, s := range replies {
			per[s.S]++
		}
		for _, n := range order {
			if per[n] > 1 {
				violate("request: served more than once by one server", "%s: %d replies by %s", q, per[n], n)
			}
		}
		if w.spec[q.S].Type == "REQ" && len(per) > 1 && !faulty { // a connection may die right after it carried the request
			violate("request: REQ sent one request to several servers", "%s: %v", q, per)
		}
		n := 0
		for _, s := range replies {
			n += len(w.got[s][q.S])
		}
		if w.spec[q.S].Type == "REQ" && n > 1 {
			violate("reply: received more than once", "%s: %d", q, n)
		}
		if w.spec[q.S].Type == "DEALER" && n > len(w.peers[q.S]) {
			violate("reply: received more than once", "%s: %d replies from %d servers", q, n, len(w.peers[q.S]))
		}
		calm := pl.Phases[q.Phase].Name == "calm"
		if !faulty && n == 0 {
			violate("exchange: no reply although nothing failed", "%s ok=%v, %d replies sent", q, q.ok(), len(replies))
		}
		if !faulty && w.spec[q.S].Type == "DEALER" && n < len(w.peers[q.S]) {
			violate("exchange: a server's reply is missing", "%s: %d of %d", q, n, len(w.peers[q.S]))
		}
		if calm && w.spec[q.S].Type == "DEALER" && n == 0 {
			violate("exchange: no reply after the faults were over", "%s", q)
		}
		if n > 0 {
			probe("exchanges", 1)
		}
	}
	if !faulty {
		w.inTurn()
	}
	// liveness: every exchange of a calm (or fault-free) phase is completed
	for _, r := range runs {
		ph := pl.Phases[r.ph].Name
		if !strings.HasPrefix(r.p.Name, "ask_") || !(ph == "calm" || ph == "work" && !faulty) {
			continue
		}
		for i, o := range r.p.Ops {
			if o.K != "req" {
				continue
			}
			done := 0
			for _, e := range hist {
				if e.Proc == r.p.Name && e.Phase >= r.ph && e.Op == i && e.K == "recv" && e.ok() {
					done++
				}
			}
			if done < o.N {
				violate("exchange: requests are not answered although nothing fails any more", "%s: %d of %d exchanges in phase %s", r.p.Name, done, o.N, ph)
			}
		}
		if !r.done {
			violate("exchange: a client is stuck", "%s", r.at)
		}
	}
	if faulty {
		probe("faulty", 1)
	}
}

// inTurn checks that a REQ spreads its requests evenly over its servers: any n
// consecutive ones go to n different servers.
func (w *world) inTurn() {
	served := map[string][]string{}
	for _, q := range w.all {
		if w.spec[q.S].Type != "REQ" || q.UID&replyBit != 0 {
			continue
		}
		for _, s := range w.sends[q.UID|replyBit] {
			served[q.S] = append(served[q.S], s.S)
			break
		}
	}
	for _, c := range order {
		l, n := served[c], len(w.peers[c])
		for i := range l {
			for k := max(0, i-n+1); k < i; k++ {
				if l[k] == l[i] {
					violate("request: REQ does not take its servers in turn", "%s has %d servers; its requests went to %v", c, n, l)
					return
				}
			}
		}
		if n > 1 && len(l) > n {
			probe("in_turn", 1)
		}
	}
}

func judgeC07(w *world, li *leakInfo) {
	w.integrity()
	w.once()
	hub := pl.Socks[0].Name
	relink := knob("relink", 0)
	ids := map[string]string{}
	for _, s := range pl.Socks[1:] {
		if s.ID != "" {
			ids[s.ID] = s.Name
		}
	}
	for _, s := range w.all {
		ph := pl.Phases[s.Phase].Name
		if !s.ok() && ph != "relink" {
			violate("route: Send failed", "%s", s)
			continue
		}
		if s.S == hub {
			if s.UID&replyBit != 0 { // an echo: goes back to where it came from
				for _, q := range w.sends[s.UID&^replyBit] {
					for p := range w.got[s] {
						if p != q.S {
							violate("route: reply went to another peer", "%s: %s instead of %s", s, p, q.S)
						}
					}
					if len(w.got[s][q.S]) == 0 && ph != "relink" {
						violate("route: reply not delivered", "%s to %s", s, q.S)
					}
				}
				continue
			}
			to := ids[string(s.Frames[0])]
			for p := range w.got[s] {
				if p != to {
					violate("route: message went to another peer", "%s: %s got it", s, p)
				}
			}
			if to == "" {
				probe("unroutable", 1)
				if len(w.got[s]) > 0 {
					violate("route: message for an unknown identity was delivered", "%s", s)
				}
				continue
			}
			if len(w.got[s][to]) == 0 && (ph == "work" || ph == "again") {
				violate("route: message not delivered to the peer with that identity", "%s to %s", s, to)
			}
			continue
		}
		if ph == "work" || ph == "again" {
			if s.UID&replyBit == 0 && len(w.got[s][hub]) == 0 {
				violate("route: message to the ROUTER lost", "%s", s)
			}
		}
	}
	if relink > 0 {
		probe("relinked", 1)
	}
	w.fifo(func(s *Ev, r string) bool {
		return relink == 0 || pl.Socks[relink].Name != s.S && pl.Socks[relink].Name != r
	})
}
