//go:build vsim

package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

func init() {
	judges["C12"] = judgeC12
	phaseEnd["C12"] = func(i int, ph plan.Phase) {
		if i == 0 {
			nw.cfg.DialFail = knob("faildial", 0)
		}
		if ph.Name == "calm" {
			for _, d := range nw.dials {
				if d.c != nil && d.c.lostT == 0 {
					liveAtEnd[d.host+">"+d.ep]++
				}
			}
		}
	}
}

var liveAtEnd = map[string]int{}

const ms = int64(time.Millisecond)

// dialSlack is how late an attempt may be, besides the latency of the network.
const dialSlack = 80 * ms

func lat() int64 { return 2 * int64(pl.Net.LatMax) * 1000 }

// stood tells whether a connection certainly got as far as its handshake, which
// is what makes an attempt a success; of a short-lived one that is not known.
func (d *dialRec) stood() bool {
	return d.c.rbytes >= 91 && (d.c.lostT == 0 || d.c.lostT-d.end > 20*lat()+dialSlack)
}

// attempts checks the attempts one dialer made to reach one end-point: never
// two connections at once, never sooner than the retry interval after a
// failure, never more in a row than configured, and never given up before that.
// noticed tells whether the loss of a connection is noticed without being used.
func attemptsOK(s plan.Sock, ep string, noticed bool, until int64) {
	recs := nw.dialsOf(s.Host, ep)
	if len(recs) == 0 {
		return
	}
	R, K := int64(s.RetryMs())*ms, s.Retries()
	show := func(i int) string {
		out := ""
		for j := max(0, i-2); j < len(recs) && j <= i+1; j++ {
			d := recs[j]
			out += fmt.Sprintf("\n  attempt %d at %.3fms-%.3fms %s", j, float64(d.start)/1e6, float64(d.end)/1e6, d.err)
			if d.c != nil {
				out += fmt.Sprintf(" connected, lost at %.3fms", float64(d.c.lostT)/1e6)
			}
		}
		return fmt.Sprintf("%s to %s (retry %dms, max %d, reconnect %d)%s", s.Name, ep, s.RetryMs(), K, s.Recon, out)
	}
	row, most := 0, 0 // failed attempts in a row: at least, at most
	up := false
	for i, d := range recs {
		if d.start >= until { // the socket is being closed
			return
		}
		if d.dup != nil {
			violate("dial: a second connection while the first was alive", "%s", show(i))
		}
		if up && s.Recon == 2 {
			violate("reconnect: a socket reconnected although it was told not to", "%s", show(i))
			return
		}
		if d.err == "" && d.c != nil {
			row, up = 0, true
			if most++; d.stood() {
				most = 0
			}
		} else if d.end >= 0 {
			row++
			most++
		}
		if K >= 0 && row > K+1 {
			violate("dial: more attempts than configured", "%s", show(i))
			return
		}
		var nx *dialRec
		if i+1 < len(recs) {
			nx = recs[i+1]
		}
		if d.end < 0 {
			if nx != nil {
				violate("dial: two attempts at once", "%s", show(i))
			}
			continue
		}
		if nx != nil && nx.start >= until {
			nx = nil
		}
		if nx != nil && nx.start < d.end {
			violate("dial: two attempts at once", "%s", show(i))
		}
		if d.c == nil {
			if nx != nil && nx.start-d.end < R {
				violate("dial: attempts follow each other faster than the retry interval", "%s", show(i))
			}
			due := d.end + R + dialSlack
			if due < until && (K < 0 || most <= K) && (nx == nil || nx.start > due) {
				violate("dial: no further attempt after a failed one", "%s", show(i))
			}
			probe("failed_attempts", 1)
			continue
		}
		probe("connected", 1)
		if d.c.lostT == 0 {
			continue
		}
		due := d.c.lostT + R + lat() + dialSlack
		if noticed && s.Recon != 2 && due < until && (K < 0 || most <= K) && (nx == nil || nx.start > due) {
			violate("reconnect: no attempt to re-establish a lost connection", "%s", show(i))
		}
		if nx != nil {
			probe("reconnects", 1)
		}
	}
}

func judgeC12(w *world, li *leakInfo) {
	keep := w.recvs[:0]
	for _, e := range w.recvs { // subscriptions
		if !w.spec[e.S].Raw || e.UID != 0 {
			keep = append(keep, e)
		}
	}
	w.recvs = keep
	w.integrity()
	nothingLeft(li)
	dials := map[string][]string{} // socket -> end-points
	owner := map[string]string{}
	for _, ph := range pl.Phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				if o.K == "dial" {
					dials[o.S] = append(dials[o.S], o.A)
				}
				if o.K == "listen" || o.K == "rawlisten" {
					owner[o.A] = o.S
				}
			}
		}
	}
	switch pl.Scen {
	case "attempts":
		up := map[string]int64{}
		for _, e := range hist {
			if e.K == "listen" && e.ok() {
				up[e.A] = e.Tr
			}
		}
		for _, e := range hist {
			if e.K != "dial" {
				continue
			}
			s := w.spec[e.S]
			attemptsOK(s, e.A, false, min(teardownAt, max(e.Tr, e.Ti)))
			R, K := int64(s.RetryMs())*ms, int64(s.Retries())
			t, isUp := up[e.A]
			end := e.Tr
			if e.R == 0 || e.Tr >= teardownAt {
				end = -1
			}
			switch {
			case end < 0: // still trying
				if K >= 0 && teardownAt-e.Ti > K*(R+lat()+dialSlack)+dialSlack {
					violate("dial: more attempts than configured", "%s still tries, retry %v, max %d", e, time.Duration(R), K)
				}
				if isUp && teardownAt > max(t, e.Ti)+R+lat()+dialSlack {
					violate("dial: does not succeed although the end-point is there", "%s, listening since %.3fms", e, float64(t)/1e6)
				}
			case e.ok():
				if !isUp {
					violate("dial: succeeded although nobody listens", "%s", e)
				} else if end > max(t, e.Ti)+R+3*lat()+dialSlack {
					violate("dial: succeeded late", "%s, listening since %.3fms", e, float64(t)/1e6)
				}
				probe("dial_ok", 1)
			default:
				if K < 0 {
					violate("dial: gave up although it should try for ever", "%s", e)
				} else if end-e.Ti < K*R {
					violate("dial: gave up too soon", "%s, retry %v, max %d", e, time.Duration(R), K)
				}
				if isUp && t <= e.Ti+K*R {
					violate("dial: failed although the end-point was there in time", "%s, listening since %.3fms", e, float64(t)/1e6)
				}
				if end-e.Ti > K*(R+lat()+dialSlack)+lat()+dialSlack {
					violate("dial: gave up late", "%s, retry %v, max %d", e, time.Duration(R), K)
				}
				if n := len(nw.dialsOf(s.Host, e.A)); n > 0 && n != int(K)+1 {
					violate("dial: the number of attempts is not what was configured", "%s: %d attempts, max retries %d", e, n, K)
				}
				probe("dial_failed", 1)
			}
		}
	case "relink":
		gone := ""
		if k := knob("gone", 0); k > 0 {
			gone = pl.Socks[k-1].Name
		}
		alive := map[string]bool{} // "a>b" in both directions
		for _, n := range keysOf(dials) {
			s := w.spec[n]
			for _, ep := range dials[n] {
				l := owner[ep]
				attemptsOK(s, ep, s.Type != "PUSH" && s.Type != "REQ", teardownAt)
				recs := nw.dialsOf(s.Host, ep)
				lost := false
				for _, d := range recs {
					if d.c != nil && d.c.lostT != 0 && d.c.lostT < teardownAt {
						lost = true
					}
				}
				live := liveAtEnd[s.Host+">"+ep]
				K := s.Retries()
				switch {
				case l == gone:
					after, most := 0, 0
					for _, d := range recs {
						if d.c != nil {
							after = 0
							if most++; d.stood() {
								most = 0
							}
						} else if d.end >= 0 {
							after++
							most++
						}
					}
					if s.Recon != 2 && K >= 0 && (after > K+1 || most < K+1) {
						violate("reconnect: the number of attempts is not what was configured", "%s to %s: %d to %d attempts since the listener went away, max retries %d", n, ep, after, most, K)
					}
					if s.Recon != 2 && K < 0 && recs[len(recs)-1].start < teardownAt-int64(s.RetryMs())*ms-lat()-dialSlack {
						violate("reconnect: gave up although it should try for ever", "%s to %s: last attempt at %.3fms", n, ep, float64(recs[len(recs)-1].start)/1e6)
					}
					probe("gone", 1)
				case s.Recon == 2 && lost:
					probe("not_reconnected", 1)
				default:
					if live != 1 {
						violate("reconnect: a dialed connection does not exist exactly once after the faults were over", "%s to %s: %d connections, %d attempts", n, ep, live, len(recs))
					}
					alive[n+">"+l], alive[l+">"+n] = true, true
					probe("links_checked", 1)
				}
			}
		}
		reqrep := false
		for _, s := range pl.Socks {
			if s.Type == "REQ" {
				reqrep = true
			}
		}
		if reqrep {
			for _, r := range runs {
				if pl.Phases[r.ph].Name != "calm" || len(r.p.Ops) < 3 || r.p.Ops[1].K != "req" {
					continue
				}
				ok := false
				for p := range w.peers[r.p.Ops[1].S] {
					ok = ok || alive[r.p.Ops[1].S+">"+p]
				}
				n := 0
				for _, e := range hist {
					if e.Proc == r.p.Name && e.Phase == r.ph && e.K == "recv" && e.ok() {
						n++
					}
				}
				if ok && n < r.p.Ops[1].N {
					violate("reconnect: requests are not answered after the faults were over", "%s: %d of %d", r.p.Name, n, r.p.Ops[1].N)
				}
				probe("calm_replies", n)
			}
			return
		}
		w.once()
		for _, s := range w.all {
			if pl.Phases[s.Phase].Name != "calm" {
				continue
			}
			all := len(w.peers[s.S]) > 0
			for p := range w.peers[s.S] {
				all = all && alive[s.S+">"+p]
			}
			if all && !s.ok() {
				violate("reconnect: a Send failed after the faults were over", "%s", s)
			}
		}
		w.complete(func(s *Ev, r string) bool { return s.ok() && pl.Phases[s.Phase].Name == "calm" && alive[s.S+">"+r] })
	case "flaky":
		real := pl.Socks[0]
		K := real.Retries()
		for i, ep := range dials[real.Name] {
			p := raws[owner[ep]]
			recs := nw.dialsOf(real.Host, ep)
			for j, d := range recs {
				if d.dup != nil {
					violate("dial: a second connection while the first was alive", "%s, attempt %d", ep, j)
				}
			}
			if i > 0 {
				if len(recs) != 1 {
					violate("reconnect: a connection that was not lost was dialed again", "%s: %d attempts", ep, len(recs))
				}
				continue
			}
			// the attempts expected, from the outcomes the listener planned
			want, standing := 1, true
			for k := 0; k < knob("rounds", 0); k++ {
				bad := knob(fmt.Sprint("bad", k), 0)
				if real.Recon == 2 {
					standing = false
					break
				}
				if K >= 0 && bad > K {
					want += K + 1
					standing = false
					break
				}
				want += bad + 1
			}
			if len(recs) != want {
				violate("reconnect: the number of attempts differs from what the retries allow", "%s to %s: %d attempts, %d expected (max retries %d)", real.Name, ep, len(recs), want, K)
				continue
			}
			R := int64(real.RetryMs()) * ms
			for j := 1; j < len(recs) && j < len(p.conns); j++ {
				prev := p.conns[j-1]
				gap := recs[j].start - recs[j-1].c.lostT
				if !prev.good && gap < R {
					violate("reconnect: attempts follow each other faster than the retry interval", "%s: %v after attempt %d, which failed", ep, time.Duration(gap), j-1)
				}
				if gap > R+lat()+dialSlack {
					violate("reconnect: an attempt was late", "%s: %v after attempt %d", ep, time.Duration(gap), j-1)
				}
				if prev.good {
					probe("relinked", 1)
				}
			}
			if standing && !p.conns[len(p.conns)-1].good {
				violate("reconnect: the last connection was not set up", "%s", ep)
			}
			if standing && liveAtEnd[real.Host+">"+ep] != 1 {
				violate("reconnect: the connection did not last", "%s: %d", ep, liveAtEnd[real.Host+">"+ep])
			}
			if !standing {
				probe("gave_up", 1)
				continue
			}
			probe("standing", 1)
		}
		w.once()
		for _, s := range w.all {
			if !s.ok() {
				continue // a peer that is gone cannot send
			}
			if len(w.got[s][real.Name]) == 0 {
				violate("reconnect: a message over the new connection is not received", "%s", s)
			}
		}
		if real.Type == "SUB" {
			for _, n := range rawNames {
				for _, rc := range raws[n].conns {
					if rc.good && rc.endT == 0 {
						subs := 0
						for _, m := range rc.dec.msgs {
							if len(m) == 1 && string(m[0]) == "\x01t" {
								subs++
							}
						}
						if subs == 0 && rc.c.(*handle).lostT == 0 {
							violate("reconnect: the subscription is not on the new connection", "%s#%d", n, rc.idx)
						}
						probe("resubscribed", 1)
					}
				}
			}
		}
	}
}

func keysOf[T any](m map[string]T) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}
