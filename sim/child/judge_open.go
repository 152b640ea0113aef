//go:build vsim

package main

import (
	"bytes"
	"fmt"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

func init() {
	judges["C18"] = judgeC18
}

func secOf(s string) string {
	if s == "" {
		return "null"
	}
	return s
}

func judgeC18(w *world, li *leakInfo) {
	for k := 1; k <= knob("conns", 0); k++ {
		judgeConn(cns[fmt.Sprint("s", k)], cns[fmt.Sprint("d", k)], knob(fmt.Sprint("early", k), 0) != 0)
	}
	nothingLeft(li)
}

// evsOf lists what happened at an end, in order.
func (p *cn) evs(kinds ...string) (l []*Ev) {
	for _, e := range hist {
		for _, k := range kinds {
			if e.S == p.spec.Name && e.K == k {
				l = append(l, e)
			}
		}
	}
	return
}

func judgeConn(s, d *cn, early bool) {
	faulty := false
	for _, f := range pl.Net.Faults {
		if f.Kind != "stall" && f.A == d.spec.Host {
			faulty = true
		}
	}
	agree := plan.Compatible(s.spec.Type, d.spec.Type) && secOf(s.spec.Sec) == secOf(d.spec.Sec)
	for x, p := range []*cn{s, d} {
		q := []*cn{d, s}[x]
		for _, e := range p.evs("cnopen") {
			switch {
			case e.R == 0 && !faulty:
				violate("open: Open never returned", "%s", e)
			case e.Err == "" && !agree:
				violate("open: two ends that do not agree were connected", "%s: %s %s and %s %s", e, p.spec.Type, p.spec.Sec, q.spec.Type, q.spec.Sec)
			case e.Err == "" && (e.List[0] != q.spec.Type || e.List[1] != q.spec.ID[:min(len(q.spec.ID), 255)]):
				violate("open: the peer's metadata are wrong", "%s, want %q %q", e, q.spec.Type, q.spec.ID)
			case e.Err != "" && agree && !faulty:
				violate("open: Open failed on a healthy connection", "%s", e)
			case e.Err != "":
				probe("open_refused", 1)
			default:
				probe("opened", 1)
			}
		}
		if len(p.cbs) > 1 {
			violate("loss: the callback was called more than once", "%s: %d times", p.spec.Name, len(p.cbs))
		}
		if p.c == nil {
			continue
		}
		if len(p.cbs) == 1 && p.cbs[0] != p.c {
			violate("loss: the callback was given another connection", "%s", p.spec.Name)
		}
		p.afterLoss(q)
	}
	if s.c == nil || d.c == nil {
		return
	}
	if pl.Scen == "bytes" {
		s.stream(d, faulty, early)
		d.stream(s, faulty, early)
		return
	}
	s.carried(d, faulty, early)
	d.carried(s, faulty, early)
}

// afterLoss: once an operation failed because the connection is gone, all do,
// and the callback was called.
func (p *cn) afterLoss(q *cn) {
	rd := p.evs("cnrecv", "cnread")
	if len(rd) == 0 {
		return
	}
	last := rd[len(rd)-1]
	if last.R == 0 {
		violate("loss: a reader was not woken up", "%s", last)
		return
	}
	if cl := p.evs("cnclose"); len(cl) > 0 && last.R > cl[0].I {
		probe("closed_here", 1)
	} else {
		probe("lost", 1)
	}
	// with the other end closed 500 ms ago, this one knows
	if ql := q.evs("cnclose"); len(ql) > 0 && ql[0].R != 0 {
		if last.Tr > max(last.Ti, ql[0].Tr)+400e6 {
			violate("loss: the end of a connection was noticed late", "%s, the other end's %s", last, ql[0])
		}
	}
	var lost *Ev // the first write that met the loss
	for _, e := range p.evs("cnmsg", "cncmd", "cnwrite", "cnjunk") {
		if p.refused(e) && e.Type == cnOther {
			continue
		}
		if lost != nil && e.I > lost.R && e.Type != cnClosedErr {
			violate("loss: an operation on a lost connection does not fail with ErrClosedConn", "%s, after %s", e, lost)
		}
		if e.R != 0 && e.Type == cnOther && (lost == nil || e.R < lost.R) {
			lost = e
		}
	}
	for _, e := range p.evs("cnafter") {
		switch {
		case e.R == 0:
			violate("loss: an operation on a lost connection blocks", "%s", e)
		case e.A == "Closed" && e.N != 1:
			violate("loss: a lost connection is not reported as closed", "%s, after %s", p.spec.Name, last)
		case e.A != "Closed" && e.Type != cnClosedErr:
			violate("loss: an operation on a lost connection does not fail with ErrClosedConn", "%s", e)
		}
	}
	if len(p.cbs) != 1 {
		violate("loss: the callback was not called", "%s: %d times, last %s", p.spec.Name, len(p.cbs), last)
	}
}

// carried: what q received is what p sent.
func (p *cn) carried(q *cn, faulty, early bool) {
	sent := map[uint32]*Ev{}
	per := map[string][]*Ev{}
	blanks, wrote := 0, 0
	var spoilt *Ev
	for _, e := range p.evs("cnmsg", "cncmd") {
		if p.refused(e) {
			probe("refused_sends", 1)
			if e.R != 0 && e.Err == "" {
				violate("carried: Send does not report that a frame could not be encrypted", "%s", e)
			}
			continue
		}
		if p.spoils(e) && (spoilt == nil || e.I < spoilt.I) {
			spoilt = e
		}
		wrote++
		if e.UID == 0 {
			if !early && !faulty || e.Type == cnOK || e.Type == cnOther {
				blanks++
			}
			continue
		}
		sent[e.UID] = e
		per[e.Proc] = append(per[e.Proc], e)
		if e.Err != "" && !faulty && !early && !p.spoilsAny() && !q.spoilsAny() {
			violate("carried: a send failed on a healthy connection", "%s", e)
		}
		if e.R == 0 {
			violate("carried: a send never returned", "%s", e)
		}
	}
	pongs := 0
	for _, e := range p.evs("cnrecv") { // PINGs that p answered
		if x := senderOf(q, e); e.N == 0 && x != nil && x.K == "cncmd" && x.A == "PING" {
			pongs++
		}
	}
	blankPings := 0
	for _, e := range q.evs("cncmd") {
		if e.UID == 0 && e.A == "PING" {
			blankPings++
		}
	}
	junk := 0
	for _, e := range p.evs("cnjunk") {
		if e.R != 0 && e.Err == "" {
			junk++
		} else {
			junk = 1 << 20
		}
	}
	holes, blank, bad := 0, 0, 0
	at := map[string]int{}
	skipped := 0
	var prev []*Ev
	for _, e := range q.evs("cnrecv") {
		if e.R == 0 {
			break
		}
		if e.Type == cnBadFrame {
			if e.N == 0 {
				violate("carried: RecvMsg complains about a message", "%s", e)
			}
			holes++
			continue
		}
		if e.Type == cnMalformed {
			bad++
			continue
		}
		if e.Err != "" {
			break
		}
		isCmd := e.N == 1 || e.M.From == "cmd"
		if !sameFrames(e.Frames, e.ref) {
			violate("carried: what was received changed afterwards", "%s now %s", e, frameStr(e.ref))
		}
		if isCmd && e.UID == 0 && (len(e.Frames) == 0 || len(e.Frames) == 1 && len(e.Frames[0]) == 0) {
			blank++
			probe("blank_commands", 1)
			continue
		}
		x := sent[e.UID]
		switch {
		case x == nil || !sameFrames(x.Frames, e.Frames):
			violate("carried: received what was not sent", "%s (sent: %v)", e, x)
			return
		case isCmd != (x.K == "cncmd"):
			violate("carried: a message became a command or the other way round", "%s, sent by %s", e, x)
		case e.N == 1 && e.A != x.A:
			violate("carried: a command's name changed", "%s, sent by %s", e, x)
		}
		if p.spoils(x) {
			violate("carried: received what could not be decrypted", "%s, sent by %s", e, x)
		}
		probe("carried", 1)
		l := per[x.Proc]
		k := at[x.Proc]
		for k < len(l) && l[k] != x {
			if l[k].K == "cncmd" {
				violate("carried: a command was left out", "%s arrived but not %s", e, l[k])
			}
			skipped++
			k++
		}
		if k == len(l) {
			violate("carried: duplicated or out of order", "%s, sent by %s", e, x)
			return
		}
		at[x.Proc] = k + 1
		for _, y := range prev {
			if x.R != 0 && x.R < y.I {
				violate("carried: out of order", "%s arrived before %s", y, x)
			}
		}
		prev = append(prev, x)
	}
	probe("bad_frames", holes)
	if skipped > holes {
		violate("carried: messages are missing in the middle", "%s to %s: %d missing, RecvCmd met %d messages", p.spec.Name, q.spec.Name, skipped, holes)
	}
	if bad > junk {
		violate("carried: Recv fails on an open connection although nothing malformed was sent", "%s to %s: %d times, %d malformed commands", p.spec.Name, q.spec.Name, bad, junk)
	}
	probe("malformed", bad)
	if m := blanks + pongs + blankPings; blank > m {
		violate("carried: commands came out of nothing", "%s to %s: %d empty commands, at most %d", p.spec.Name, q.spec.Name, blank, m)
	}
	if faulty {
		return
	}
	if spoilt != nil && !early && !q.spoilsAny() { // all that was sent before it arrives
		missing := 0
		for _, x := range sent {
			if x.R != 0 && x.R < spoilt.I && !received(q, x) {
				missing++
			}
		}
		if missing > holes {
			violate("carried: what was sent before something that cannot be decrypted is lost", "%s to %s: %d missing before %s", p.spec.Name, q.spec.Name, missing, spoilt)
		}
		probe("spoilt", 1)
	}
	if spoilt != nil || q.spoilsAny() {
		return
	}
	if early { // all that was sent before this end closed arrives, if the other end stayed and kept silent
		cl, ql := p.evs("cnclose"), q.evs("cnclose")
		if len(cl) == 0 || len(ql) > 0 && ql[0].I < cl[0].R+1 || len(q.evs("cnmsg", "cncmd")) > 0 || ql == nil {
			return
		}
		if ql[0].Ti < cl[0].Ti+int64(400e6) {
			return
		}
		for _, e := range p.evs("cncmd") {
			if e.A == "PING" {
				return
			}
		}
		missing := 0
		for _, x := range sent {
			if x.ok() && x.R < cl[0].I && !received(q, x) {
				missing++
			}
		}
		if missing > holes {
			violate("carried: what was sent before Close is lost", "%s to %s: %d missing, RecvCmd met %d messages", p.spec.Name, q.spec.Name, missing, holes)
		}
		probe("closed_after_sending", 1)
		return
	}
	missing := 0
	var miss *Ev
	for _, x := range sent {
		if !received(q, x) {
			missing++
			if miss == nil || x.I < miss.I {
				miss = x
			}
		}
	}
	if bad != junk && junk < 1<<20 {
		violate("carried: a malformed command was not reported", "%s to %s: %d times, %d malformed commands", p.spec.Name, q.spec.Name, bad, junk)
	}
	if missing != holes {
		violate("carried: lost on a healthy connection", "%s to %s: %d missing (%v), RecvCmd met %d messages", p.spec.Name, q.spec.Name, missing, miss, holes)
	}
	if p.onlyMsgs() { // it saw all of them
		pongs += blankPings
	}
	if min := blanks + pongs; blank < min {
		violate("carried: a PING was not answered", "%s to %s: %d empty commands, want %d", p.spec.Name, q.spec.Name, blank, min)
	}
	probe("pongs", pongs)
	probe("complete", 1)
}

// refused tells whether an end's mechanism cannot encrypt what is to be sent.
func (p *cn) refused(e *Ev) bool { return p.spec.Sec == "picky" && p.fails(e, 5) }

// spoils tells whether the other end's mechanism cannot decrypt it.
func (p *cn) spoils(e *Ev) bool { return p.spec.Sec == "choosy" && p.fails(e, 12) }

func (p *cn) fails(e *Ev, n int) bool {
	switch e.K {
	case "cnmsg":
		for _, f := range e.Frames {
			if refuses(f, n) {
				return true
			}
		}
	case "cncmd":
		data := append([]byte{byte(len(e.A))}, e.A...)
		for _, f := range e.Frames {
			data = append(data, f...)
		}
		return refuses(data, n)
	}
	return false
}

func (p *cn) spoilsAny() bool {
	for _, e := range p.evs("cnmsg", "cncmd") {
		if p.spoils(e) && e.Type != cnClosedErr {
			return true
		}
	}
	return false
}

// onlyMsgs tells whether an end read with RecvMsg only.
func (p *cn) onlyMsgs() bool {
	for _, e := range p.evs("cnrecv") {
		if e.N != 0 {
			return false
		}
	}
	return true
}

func received(q *cn, x *Ev) bool {
	for _, e := range q.evs("cnrecv") {
		if e.UID == x.UID && e.Err == "" && e.R != 0 {
			return true
		}
	}
	return false
}

func senderOf(q *cn, e *Ev) *Ev {
	if e.UID == 0 {
		return nil
	}
	for _, x := range q.evs("cnmsg", "cncmd") {
		if x.UID == e.UID {
			return x
		}
	}
	return nil
}

// stream: Write and Read carry bytes.
func (p *cn) stream(q *cn, faulty, early bool) {
	var out []byte
	for _, e := range q.evs("cnread") {
		if e.R == 0 {
			return
		}
		for _, f := range e.Frames {
			out = append(out, f...)
		}
		if e.Err == "" && e.N != int(e.UID) {
			violate("bytes: Read returned less than it was asked for", "%s: %d of %d", e, e.N, e.UID)
		}
	}
	want := make([]byte, max(len(out), p.wrote))
	for k := range want {
		want[k] = ipByte("c"+p.spec.Name, 0, k)
	}
	if !bytes.Equal(out, want[:len(out)]) {
		violate("bytes: what was read is not what was written", "%s to %s, %d bytes", p.spec.Name, q.spec.Name, len(out))
	}
	if !faulty && len(out) > p.wrote {
		violate("bytes: more was read than written", "%s to %s, %d of %d bytes", p.spec.Name, q.spec.Name, len(out), p.wrote)
	}
	if !faulty && !early {
		for _, e := range p.evs("cnwrite") {
			if e.R == 0 || e.Err != "" || e.N != int(e.UID) {
				violate("bytes: a write failed on a healthy connection", "%s", e)
			}
		}
		if len(out) != p.wrote {
			violate("bytes: lost on a healthy connection", "%s to %s, %d of %d bytes", p.spec.Name, q.spec.Name, len(out), p.wrote)
		}
		probe("bytes", len(out))
	}
}
