//go:build vsim

package main

import (
	"bytes"
	"runtime"
	"sort"
	"time"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

func init() {
	judges["C17"] = judgeC17
	judges["C10"] = judgeC10
	judges["C11"] = judgeC11
}

// handshakeFormat: the commands of the library's side of a handshake.
func handshakeFormat(w *world, n string, rc *rawConn) {
	if !rc.good {
		return
	}
	d := &rc.dec
	who := ""
	for p := range w.peers[n] {
		if !w.spec[p].Raw {
			who = p
		}
	}
	spec := w.spec[who]
	mech := plan.Mech(spec.Sec)
	if d.mech != mech {
		violate("wire: wrong mechanism announced", "%s announces %q to %s", who, d.mech, n)
	}
	want := []string{"READY"}
	if mech == "PLAIN" {
		want = []string{"HELLO", "INITIATE"}
		if !rc.server {
			want = []string{"WELCOME", "READY"}
		}
	}
	if len(d.cmds) < len(want) {
		violate("wire: handshake incomplete", "%s sent %d commands to %s", who, len(d.cmds), n)
		return
	}
	for i, c := range want {
		if d.cmds[i].name != c {
			violate("wire: handshake commands out of order", "%s sent %q instead of %s to %s", who, d.cmds[i].name, c, n)
			return
		}
	}
	if mech == "PLAIN" {
		switch c := d.cmds[0]; c.name {
		case "HELLO":
			if user, pass, _ := plan.Creds(spec.Sec); !bytes.Equal(c.body, plan.ZHello(user, pass)) {
				violate("wire: wrong credentials in HELLO", "%q", c.body)
			}
		case "WELCOME":
			if len(c.body) != 0 {
				violate("wire: WELCOME is not empty", "%q", c.body)
			}
		}
	}
	m, err := meta(d.cmds[len(want)-1].body)
	switch {
	case err != nil:
		violate("wire: malformed metadata", "from %s: %v", who, err)
	case m["Socket-Type"] != spec.Type:
		violate("wire: wrong socket type announced", "%s announces %q", who, m["Socket-Type"])
	case spec.ID != "" && m["Identity"] != spec.ID:
		violate("wire: wrong identity announced", "%s announces %q, its identity is %q", who, m["Identity"], spec.ID)
	}
	probe("handshakes", 1)
}

// topicSets: what publishers that are raw peers were told.
func topicSets(w *world) {
	for _, n := range rawNames {
		if t := w.spec[n].Type; t != "PUB" && t != "XPUB" {
			continue
		}
		for _, rc := range raws[n].conns {
			set := map[string]bool{}
			for _, m := range rc.dec.msgs {
				if len(m) != 1 || len(m[0]) == 0 || m[0][0] > 1 {
					violate("wire: a publisher received something that is no subscription", "%s: %s", n, frameStr(m))
					return
				}
				set[string(m[0][1:])] = m[0][0] == 1
			}
			want := map[string]bool{}
			for _, e := range hist {
				switch e.K {
				case "sub":
					want[e.A] = true
				case "unsub":
					want[e.A] = false
				case "xsub":
					want[e.A] = e.N == 1
				}
			}
			if !rc.good || rc.closed && !ending {
				continue
			}
			var ks []string
			for k := range want {
				ks = append(ks, k)
			}
			for k := range set {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if set[k] != want[k] {
					violate("wire: a publisher was told wrong subscriptions", "%s: topic %q subscribed: %v, told: %v", n, k, want[k], set[k])
					return
				}
			}
			probe("topic_sets", 1)
		}
	}
}

// dropJunk removes receives that no oracle can attribute.
func (w *world) dropJunk(junk func(e *Ev) bool) {
	keep := w.recvs[:0:0]
	w.by = map[string][]*Ev{}
	for _, e := range w.recvs {
		if junk(e) {
			probe("junk", 1)
			continue
		}
		keep = append(keep, e)
		w.by[e.S] = append(w.by[e.S], e)
	}
	w.recvs = keep
}

func (w *world) toldPublisher(e *Ev) bool {
	t := w.spec[e.S].Type
	return w.spec[e.S].Raw && e.UID == 0 && (t == "PUB" || t == "XPUB")
}

func judgeC17(w *world, li *leakInfo) {
	for _, n := range rawNames {
		for _, rc := range raws[n].conns {
			handshakeFormat(w, n, rc)
			if rc.ended && rc.endT < lastWork() {
				violate("wire: a connection with a conforming peer was closed", "%s#%d: %s", n, rc.idx, rc.endErr)
			}
			if len(rc.dec.part) > 0 || len(rc.dec.buf) > 0 {
				violate("wire: an unfinished frame or message", "%s#%d: %d frames, %d bytes", n, rc.idx, len(rc.dec.part), len(rc.dec.buf))
			}
		}
	}
	for _, e := range hist {
		switch e.K {
		case "rawhs", "rawdial", "rawaccept", "rawsub", "dial", "listen":
			if !e.ok() {
				violate("wire: no handshake with a conforming peer", "%s", e)
			}
		}
	}
	topicSets(w)
	w.dropJunk(w.toldPublisher)
	w.integrity()
	w.once()
	w.fifo(nil)
	for _, s := range w.all {
		if !s.ok() {
			violate("send failed on a healthy connection", "%s", s)
		}
	}
	replied := func(s *Ev, r string) bool { // one of several servers gets a request
		return w.spec[s.S].Type != "REQ" && s.UID&replyBit == 0
	}
	w.complete(func(s *Ev, r string) bool { return s.ok() && replied(s, r) })
	for _, q := range w.all {
		t := w.spec[q.S].Type
		if q.UID&replyBit != 0 || !(t == "REQ" || t == "DEALER" && anyPeer(w, q.S, "REP") || w.stype(q.S) == "raw" && anyPeer(w, q.S, "REP")) {
			continue
		}
		n := 0
		for _, s := range w.sends[q.UID|replyBit] {
			n += len(w.got[s][q.S])
		}
		want := 1
		if t == "DEALER" && !w.spec[q.S].Raw { // goes to all peers
			want = len(w.peers[q.S])
		}
		if n != want {
			violate("wire: a request is not answered", "%s: %d replies received", q, n)
		}
		probe("answered", 1)
	}
	nothingLeft(li)
}

func anyPeer(w *world, n, typ string) bool {
	for p := range w.peers[n] {
		if w.spec[p].Type == typ {
			return true
		}
	}
	return false
}

// lastWork is when the last phase ended.
func lastWork() int64 { return teardownAt }

func judgeC10(w *world, li *leakInfo) {
	bad := map[string]bool{}
	badEP := map[string]bool{}
	for _, ph := range pl.Phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				if o.Flag&256 != 0 {
					bad[o.S] = true
					if o.K == "rawlisten" {
						badEP[o.A] = true
					}
				}
			}
		}
	}
	for _, e := range hist {
		switch e.K {
		case "rawexpect":
			if !e.ok() {
				violate("gate: the connection of a failed handshake stays open", "%s", e)
			}
			if rc := raws[e.S].cur; rc != nil && !rc.server && (e.A == "wrong password" || e.A == "malformed HELLO") {
				if c := rc.dec.cmds; len(c) != 1 || c[0].name != "ERROR" {
					violate("gate: a client that is refused is not told so", "%s: %d commands", e, len(c))
				}
				probe("told", 1)
			}
			probe("rejected", 1)
		case "rawhs":
			if !e.ok() {
				violate("gate: the handshake of a conforming peer failed", "%s", e)
			}
			probe("accepted", 1)
		case "dial":
			switch {
			case badEP[e.A] && e.ok():
				violate("gate: Dial succeeded although the handshake failed", "%s", e)
			case badEP[e.A]:
				continue
			case !e.ok():
				violate("gate: a healthy peer cannot connect", "%s", e)
			case e.Tr-e.Ti > int64(4*time.Second):
				violate("gate: somebody else's handshake delays a healthy peer", "%s", e)
			}
		}
	}
	for _, n := range rawNames {
		for _, rc := range raws[n].conns {
			if bad[n] && len(rc.dec.msgs) > 0 {
				violate("gate: a message was sent to a peer whose handshake failed", "%s: %s", n, frameStr(rc.dec.msgs[0]))
			}
		}
	}
	// a Dial whose handshake failed ends
	for _, e := range hist {
		if e.K != "dial" || !badEP[e.A] {
			continue
		}
		for _, x := range hist {
			if x.K == "rawexpect" && x.ok() && w.spec[x.S].Raw && listensAt(x.S, e.A) {
				if e.R == 0 || e.Tr > x.Tr+int64(3*time.Second) {
					violate("gate: Dial does not return although the handshake failed", "%s", e)
				}
			}
		}
	}
	w.dropJunk(func(e *Ev) bool { return bad[e.S] || w.toldPublisher(e) })
	for s := range bad {
		for p := range w.peers[s] {
			delete(w.peers[p], s)
		}
		delete(w.peers, s)
	}
	w.integrity()
	w.once()
	w.fifo(nil)
	joined := func(n string) bool { return w.spec[n].Raw }
	for _, s := range w.all {
		if !s.ok() && !w.spec[s.S].Raw {
			violate("gate: a Send among healthy peers failed", "%s", s)
		}
	}
	w.complete(func(s *Ev, r string) bool { return s.ok() && !bad[s.S] && !joined(r) })
	nothingLeft(li)
}

func listensAt(s, ep string) bool {
	for _, ph := range pl.Phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				if o.K == "rawlisten" && o.S == s && o.A == ep {
					return true
				}
			}
		}
	}
	return false
}

func judgeC11(w *world, li *leakInfo) {
	foes := map[string]bool{} // end-points that break handshakes
	for _, ph := range pl.Phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				if o.K == "rawlisten" && o.Flag&512 != 0 {
					foes[o.A] = true
				}
			}
		}
	}
	for _, e := range hist {
		switch e.K {
		case "rawexpect":
			if !e.ok() {
				violate("hostile: a connection that announced an impossible frame stays open", "%s", e)
			}
			probe("closed", 1)
		case "dial":
			if !e.ok() && !foes[e.A] {
				violate("hostile: a healthy peer cannot connect", "%s", e)
			}
		}
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapSys > 256<<20 {
		violate("hostile: memory grows with what a peer announces", "%d MB of heap", ms.HeapSys>>20)
	}
	probe("heap_mb", int(ms.HeapSys>>20))
	reqs := func(n string) bool { return w.spec[n].Type == "REQ" && !w.spec[n].Raw }
	w.dropJunk(func(e *Ev) bool {
		return e.UID&^replyBit == 0 || !w.spec[e.S].Raw && e.Type != 0
	})
	keep := w.all[:0:0] // replies to nothing
	for _, s := range w.all {
		if s.UID&^replyBit != 0 {
			keep = append(keep, s)
		}
	}
	w.all = keep
	w.integrity()
	w.once()
	w.fifo(func(s *Ev, r string) bool { return !w.spec[s.S].Raw && !w.spec[r].Raw })
	last := pl.Socks[len(pl.Socks)-1].Name
	foe := map[string]bool{} // clients of hostile servers
	for _, p := range pl.Phases {
		for _, pr := range p.Procs {
			if pr.Name == "victim" {
				foe[pr.Ops[len(pr.Ops)-1].S] = true
			}
		}
	}
	for _, s := range w.all {
		// a sender that serves several peers reports the loss of any of them
		healthy := w.spec[s.S].Type != "ROUTER"
		for _, r := range w.dests(s) {
			if !w.spec[r].Raw {
				healthy = true
			}
		}
		for r := range w.peers[s.S] {
			if w.spec[r].Raw && w.spec[s.S].Type != "ROUTER" {
				healthy = false
			}
		}
		if !s.ok() && !w.spec[s.S].Raw && !foe[s.S] && w.spec[s.S].Type != "REP" && healthy {
			violate("hostile: a Send among healthy peers failed", "%s", s)
		}
	}
	w.complete(func(s *Ev, r string) bool {
		return s.ok() && !w.spec[s.S].Raw && !w.spec[r].Raw && !reqs(s.S) && !reqs(r) && r != last
	})
	for _, q := range w.all {
		if !reqs(q.S) || foe[q.S] || !q.ok() {
			continue
		}
		n := 0
		for _, s := range w.sends[q.UID|replyBit] {
			n += len(w.got[s][q.S])
		}
		if n != 1 {
			violate("hostile: a healthy client's request is not answered", "%s: %d replies received", q, n)
		}
		probe("answered", 1)
	}
	nothingLeft(li)
}
