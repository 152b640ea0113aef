//go:build vsim

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

func runPhaseEnd(i int, ph plan.Phase) {
	if f := phaseEnd[pl.Prop]; f != nil {
		f(i, ph)
	}
}

func preTeardown() {}

var phaseEnd = map[string]func(i int, ph plan.Phase){}

// world is the judged view of a finished run.
type world struct {
	spec   map[string]plan.Sock
	peers  map[string]map[string]bool // sockets that a dial connects
	sends  map[uint32][]*Ev
	all    []*Ev            // all send events
	recvs  []*Ev            // successful receives
	by     map[string][]*Ev // successful receives per socket
	match  map[*Ev]*Ev      // receive -> send
	got    map[*Ev]map[string][]*Ev
	ids    map[string]string // generated identity of a socket, as seen by routers
	unsure map[string]bool   // subscribers whose subscription failed
}

func newWorld() *world {
	w := &world{spec: map[string]plan.Sock{}, peers: map[string]map[string]bool{}, sends: map[uint32][]*Ev{},
		by: map[string][]*Ev{}, match: map[*Ev]*Ev{}, got: map[*Ev]map[string][]*Ev{}, ids: map[string]string{}, unsure: map[string]bool{}}
	for _, s := range pl.Socks {
		w.spec[s.Name] = s
		w.peers[s.Name] = map[string]bool{}
	}
	owners := map[string]map[string]bool{}
	each := func(k string, f func(plan.Op)) {
		for _, ph := range pl.Phases {
			for _, p := range ph.Procs {
				for _, o := range p.Ops {
					if o.K == k {
						f(o)
					}
				}
			}
		}
	}
	each("listen", func(o plan.Op) {
		if owners[o.A] == nil {
			owners[o.A] = map[string]bool{}
		}
		owners[o.A][o.S] = true
	})
	each("rawlisten", func(o plan.Op) {
		if o.Flag&256 != 0 {
			return
		}
		if owners[o.A] == nil {
			owners[o.A] = map[string]bool{}
		}
		owners[o.A][o.S] = true
	})
	dial := func(o plan.Op) {
		for l := range owners[o.A] {
			w.peers[o.S][l] = true
			w.peers[l][o.S] = true
		}
	}
	each("dial", dial)
	each("rawdial", func(o plan.Op) {
		if o.Flag&256 == 0 {
			dial(o)
		}
	})
	for _, e := range hist {
		switch e.K {
		case "send", "sendm", "xsub":
			if e.UID != 0 {
				w.sends[e.UID] = append(w.sends[e.UID], e)
				w.all = append(w.all, e)
			}
		case "sub": // it may not have reached every publisher
			if !e.ok() {
				w.unsure[e.S] = true
			}
		case "recv":
			if e.ok() {
				w.recvs = append(w.recvs, e)
				w.by[e.S] = append(w.by[e.S], e)
			}
		}
	}
	return w
}

// stype is the type of a socket of the library; raw peers show bare frames.
func (w *world) stype(n string) string {
	if w.spec[n].Raw {
		return "raw"
	}
	return w.spec[n].Type
}

// wire gives the frames of a send as they travel to the peer.
func (w *world) wire(e *Ev) [][]byte {
	switch w.stype(e.S) {
	case "ROUTER":
		return e.Frames[1:]
	case "REQ":
		return append([][]byte{{}}, e.Frames...)
	case "REP":
		for _, q := range w.sends[e.UID&^replyBit] {
			fr := w.wire(q)
			for i := range fr {
				if len(fr[i]) == 0 {
					return append(append([][]byte{}, fr[:i+1]...), e.Frames...)
				}
			}
		}
		return nil
	}
	return e.Frames
}

// view gives the frames the receiving socket shows for a message of sender.
func (w *world) view(r, s string, wire [][]byte) [][]byte {
	switch w.stype(r) {
	case "ROUTER":
		return append([][]byte{[]byte(w.spec[s].ID)}, wire...)
	case "REQ":
		if len(wire) > 1 {
			return wire[1:]
		}
	case "REP":
		for i := range wire {
			if len(wire[i]) == 0 {
				return wire[i+1:]
			}
		}
		return nil
	}
	return wire
}

// same reports whether a receive shows exactly the given send.
func (w *world) same(r, s *Ev) bool {
	want := w.view(r.S, s.S, w.wire(s))
	got := r.Frames
	if w.stype(r.S) == "ROUTER" && w.spec[s.S].ID == "" {
		if len(got) == 0 || len(got[0]) == 0 {
			return false
		}
		return sameFrames(got[1:], want[1:])
	}
	return sameFrames(got, want)
}

// untouched: sending a message does not change it, nor what lies behind it in
// the caller's memory.
func (w *world) untouched() {
	for _, e := range w.all {
		if e.ref == nil {
			continue
		}
		if !sameFrames(e.Frames, e.ref) {
			violate("integrity: Send changed the caller's message", "%s now %s", e, frameStr(e.ref))
		}
		if c := e.ref[:len(e.ref)+1][len(e.ref)]; string(c) != "spare" {
			violate("integrity: Send wrote past the end of the caller's frames", "%s: %q", e, c)
		}
	}
}

// integrity: every received message is one that was sent, before, by a peer of
// the receiving socket, whole and unmodified; and it stays that way.
func (w *world) integrity() {
	w.untouched()
	for _, e := range w.recvs {
		if e.Type != 0 {
			violate("integrity: protocol command delivered as a message", "%s", e)
			continue
		}
		if e.ref != nil && !sameFrames(e.Frames, e.ref) {
			violate("integrity: a received message changed after Recv returned", "%s now %s", e, frameStr(e.ref))
		}
		cands := w.sends[e.UID]
		var hit, close *Ev
		for _, s := range cands {
			if s.I < e.R && w.same(e, s) && w.peers[e.S][s.S] {
				if hit == nil || len(w.got[s][e.S]) == 0 && len(w.got[hit][e.S]) > 0 {
					hit = s
				}
			}
			close = s
		}
		if hit != nil {
			w.match[e] = hit
			if w.got[hit] == nil {
				w.got[hit] = map[string][]*Ev{}
			}
			w.got[hit][e.S] = append(w.got[hit][e.S], e)
			if w.stype(e.S) == "ROUTER" && w.spec[hit.S].ID == "" {
				w.seenID(e, hit)
			}
			continue
		}
		if close == nil {
			violate("integrity: message that was never sent", "%s", e)
			continue
		}
		if !w.peers[e.S][close.S] {
			violate("integrity: message of a socket it is not connected to", "%s\nsent: %s", e, close)
			continue
		}
		if close.I >= e.R {
			violate("integrity: received before it was sent", "%s\nsent: %s", e, close)
			continue
		}
		violate("integrity: "+w.diff(e, close), "%s\nsent: %s\nwant: %s", e, close, frameStr(w.view(e.S, close.S, w.wire(close))))
	}
}

func (w *world) diff(r, s *Ev) string {
	want := w.view(r.S, s.S, w.wire(s))
	got := r.Frames
	switch {
	case len(got) < len(want):
		return "frames missing"
	case len(got) > len(want):
		return "extra frames"
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			if i == 0 && w.spec[r.S].Type == "ROUTER" {
				return "wrong identity"
			}
			if len(got[i]) != len(want[i]) {
				return "frame length differs"
			}
			return "frame contents differ"
		}
	}
	return "differs"
}

// seenID checks that a peer without an identity of its own keeps the one it
// got, and that nobody else has it. The library's sockets announce a UUID.
func (w *world) seenID(r, s *Ev) {
	id := string(r.Frames[0])
	if old, ok := w.ids[s.S]; ok && old != id {
		violate("integrity: the identity of a peer changed", "%s: %q, before %q", r, id, old)
	}
	w.ids[s.S] = id
	for n, o := range w.ids {
		if o == id && n != s.S {
			violate("integrity: two peers share an identity", "%s: %q also names %s", r, id, n)
		}
	}
}

// once: no message is received twice by the same socket.
func (w *world) once() {
	for _, s := range w.all {
		for r, evs := range w.got[s] {
			if len(evs) > 1 {
				violate("duplicate: a message was delivered more than once", "%s got it %d times: %s\n%s\n%s", r, len(evs), s, evs[0], evs[1])
			}
		}
	}
}

// dests lists the sockets a send must reach.
func (w *world) dests(s *Ev) (l []string) {
	for p := range w.peers[s.S] {
		if w.stype(s.S) == "ROUTER" && w.spec[p].ID != string(s.Frames[0]) {
			continue
		}
		l = append(l, p)
	}
	sort.Strings(l)
	return
}

// fifo: two messages of which one was sent completely before the other are
// received by a socket in that order.
func (w *world) fifo(keep func(s *Ev, r string) bool) {
	type pair struct{ s, r *Ev }
	chans := map[string][]pair{}
	var keys []string
	by := map[uint32]string{}
	twice := map[uint32]bool{} // replies of several peers to one request look the same
	for _, s := range w.all {
		if o, ok := by[s.UID]; ok && o != s.S {
			twice[s.UID] = true
		}
		by[s.UID] = s.S
	}
	for _, r := range w.recvs {
		s := w.match[r]
		if s == nil || twice[s.UID] || keep != nil && !keep(s, r.S) {
			continue
		}
		k := s.S + ">" + r.S
		if chans[k] == nil {
			keys = append(keys, k)
		}
		chans[k] = append(chans[k], pair{s, r})
	}
	for _, k := range keys {
		ps := chans[k]
		for i, a := range ps {
			for j, b := range ps {
				if i != j && a.s.ok() && a.s.R < b.s.I && b.r.R < a.r.I {
					violate("order: messages overtook each other", "%s\nbefore %s\nbut received\n%s\nbefore %s", a.s, b.s, b.r, a.r)
					return
				}
			}
		}
	}
}

// complete: every message sent reached every socket it had to.
func (w *world) complete(need func(s *Ev, r string) bool) {
	for _, s := range w.all {
		for _, r := range w.dests(s) {
			if !w.unsure[r] && need(s, r) && len(w.got[s][r]) == 0 {
				violate("lost: a message was not delivered", "%s never got %s", r, s)
				return
			}
		}
	}
}

func (w *world) probes() {
	n := 0
	for _, s := range w.all {
		if s.ok() {
			n++
		} else {
			probe("sends_failed", 1)
		}
	}
	probe("sends_ok", n)
	probe("receives", len(w.recvs))
	probe("matched", len(w.match))
	probe("checked", len(w.recvs))
	pairs := 0
	for _, s := range w.all {
		if len(w.got[s]) > 1 {
			pairs++
		}
	}
	probe("fanned_out", pairs)
}

type judgeFn func(w *world, li *leakInfo)

var judges = map[string]judgeFn{}

func judge(li *leakInfo) {
	f := judges[pl.Prop]
	if f == nil {
		panic("vsim: no judge for " + pl.Prop)
	}
	w := newWorld()
	rawFormat()
	f(w, li)
	w.probes()
}

func init() {
	judges["C01"] = func(w *world, li *leakInfo) {
		w.integrity()
	}
	judges["C02"] = judgeC02
	judges["C03"] = judgeC03
}

func judgeC02(w *world, li *leakInfo) {
	w.integrity()
	w.once()
	w.fifo(nil)
	joiner := ""
	if j := knob("joiner", 0); j > 0 && j <= len(pl.Socks) {
		joiner = pl.Socks[j-1].Name
	}
	for _, s := range w.all {
		if !s.ok() {
			violate("send failed on a healthy connection", "%s", s)
		}
	}
	w.complete(func(s *Ev, r string) bool { return s.ok() && r != joiner })
	if joiner != "" { // gets everything from some point on
		last := map[string]*Ev{}
		for _, s := range w.all {
			k := s.S + "/" + s.Proc
			if len(w.got[s][joiner]) > 0 {
				last[k] = s
			} else if last[k] != nil && s.ok() && w.peers[s.S][joiner] {
				violate("lost: a gap after the first message", "%s got %s but not the later %s", joiner, last[k], s)
				break
			}
		}
		probe("joiner_received", len(w.by[joiner]))
	}
}

func judgeC03(w *world, li *leakInfo) {
	nf := knob("faulty", 1)
	healthy := func(n string) bool { // every socket but the first nf leaves
		for i, s := range pl.Socks {
			if s.Name == n {
				return i == 0 || i > nf
			}
		}
		return false
	}
	w.integrity()
	if pl.Scen == "reqrep" {
		for _, q := range w.all {
			if w.spec[q.S].Type != "REQ" || !healthy(q.S) {
				continue
			}
			n := 0
			for _, s := range w.sends[q.UID|replyBit] {
				n += len(w.got[s][q.S])
			}
			if n != 1 {
				violate("isolation: a healthy client's request is not answered", "%s: %d replies received", q, n)
				return
			}
			probe("answered", 1)
		}
		return
	}
	w.once()
	w.fifo(func(s *Ev, r string) bool { return healthy(s.S) && healthy(r) })
	strict := pl.Sched.StallPer == 0
	for _, s := range pl.Socks {
		if s.Timeout > 0 && s.Timeout < 100 {
			strict = false
		}
	}
	w.complete(func(s *Ev, r string) bool {
		return healthy(s.S) && healthy(r) && (s.ok() || strict && s.R != 0)
	})
	for _, s := range w.all {
		if s.R == 0 {
			violate("a send never returned", "%s", s)
		}
	}
	if strict {
		probe("strict", 1)
	}
}

var _ = fmt.Sprint
var _ = strings.Contains
