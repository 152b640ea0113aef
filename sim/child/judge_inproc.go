//go:build vsim

package main

import (
	"sort"
	"strings"
	"time"
)

func init() {
	judges["C15"] = judgeC15
}

const ipSlack = int64(30 * time.Millisecond)

func judgeC15(w *world, li *leakInfo) {
	if pl.Scen == "pipes" {
		ends := map[string]bool{}
		for _, e := range hist {
			if e.K == "ipdial" && e.ok() {
				ends[e.S] = true
				ends[e.S[:len(e.S)-1]+"a"] = true
			}
			if (e.K == "ipdial" || e.K == "ipaccept" || e.K == "iplisten") && e.Phase == 0 && e.Err != "" {
				violate("inproc: the name cannot be listened on or dialed", "%s", e)
			}
		}
		var names []string
		for n := range ends {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			judgeEnd(n)
		}
	} else {
		judgeNames()
	}
	for _, u := range li.unfinished {
		violate("stuck: an operation never returned although its end was closed", "%s", u)
		break
	}
	if len(li.repoGs) > 0 {
		violate("leak: goroutines keep running after everything was closed", "%s", strings.Join(li.repoGs, "\n"))
	}
}

func ipPeer(end string) string {
	if strings.HasSuffix(end, "d") {
		return end[:len(end)-1] + "a"
	}
	return end[:len(end)-1] + "d"
}

const never = int64(1) << 62

// ipClosing is when an end was first being closed and certainly closed.
func ipClosing(end string) (iSeq, rSeq, rTime int64) {
	iSeq, rSeq, rTime = never, never, never
	for _, e := range hist {
		if e.K != "ipclose" || e.S != end {
			continue
		}
		if e.Err != "" {
			violate("inproc: Close failed", "%s", e)
		}
		iSeq = min(iSeq, e.I)
		if e.R != 0 && e.R < rSeq {
			rSeq, rTime = e.R, e.Tr
		}
	}
	return
}

type ipDl struct {
	at             int64 // 0: none
	ti, tr         int64 // when it was set
	i, r           int64
	nextTi, nextTr int64
	br             int64
	nextI          int64
}

// ipDeadlines are the deadlines of an end in the order they were set (by one
// thread); which is 'r' or 'w'.
func ipDeadlines(end, which string) (out []ipDl) {
	for _, e := range hist {
		if e.K != "ipdeadline" || e.S != end || !strings.Contains(e.A, which) || e.Err != "" && e.R != 0 {
			continue
		}
		d := ipDl{br: e.Br, ti: e.Ti, tr: e.Tr, i: e.I, r: e.R, nextTi: never, nextTr: never, nextI: never}
		if e.R == 0 {
			d.tr, d.r = never, never
		}
		if e.UID == 1 {
			d.at = int64(e.N)
		}
		if n := len(out); n > 0 {
			out[n-1].nextTi, out[n-1].nextTr, out[n-1].nextI = d.ti, d.tr, d.i
		}
		out = append(out, d)
	}
	return
}

func judgeEnd(x string) {
	y := ipPeer(x)
	xi, xr, xrt := ipClosing(x)
	yi, yr, yrt := ipClosing(y)
	var writes, reads []*Ev
	for _, e := range hist {
		switch {
		case e.K == "ipwrite" && e.S == y:
			writes = append(writes, e)
		case e.K == "ipread" && e.S == x && e.It >= 0 && strings.HasPrefix(e.Proc, "r_"):
			reads = append(reads, e)
		}
		if e.K == "ipdeadline" && e.S == x && e.R != 0 && e.Err != "" && e.R < min(xi, yi) {
			violate("inproc: setting a deadline failed", "%s", e)
		}
	}
	// deadlines, closing and promptness of every operation of end x
	dlr, dlw := ipDeadlines(x, "r"), ipDeadlines(x, "w")
	for _, e := range hist {
		if e.S != x || e.K != "ipread" && e.K != "ipwrite" {
			continue
		}
		probe(e.K, 1)
		dls := dlr
		if e.K == "ipwrite" {
			dls = dlw
		}
		fin := e.R != 0
		busyD := e.Br - e.Bi
		late := func(from int64) bool { // e did not return in time after from
			t0 := max(e.Ti, from)
			if !fin {
				return teardownAt > t0+ipSlack+(busy()-e.Bi)
			}
			return e.Tr > t0+ipSlack+busyD
		}
		if xrt != never && late(xrt) {
			violate("close: an operation outlived its own end", "%s", e)
		}
		if e.K == "ipwrite" && yrt != never && late(yrt) {
			violate("close: a Write outlived the other end", "%s", e)
		}
		if e.K == "ipread" && yrt != never && late(yrt) {
			violate("close: a Read outlived the other end", "%s", e)
		}
		if fin {
			switch e.Type {
			case ipOther:
				violate("inproc: an operation failed for no reason", "%s", e)
			case ipClosed:
				if e.Tr < teardownAt && e.R < xi && (e.K == "ipread" || e.R < yi) {
					violate("inproc: an operation failed on a connection nobody closed", "%s", e)
				}
				probe("closed", 1)
			case ipEOF:
				if e.K == "ipwrite" || e.R < yi && e.Tr < teardownAt {
					violate("inproc: end of file before the other end was closed", "%s", e)
				}
				probe("eof", 1)
			case ipNone:
				if e.I > xr {
					violate("close: an operation succeeded on a closed connection", "%s", e)
				}
				if e.K == "ipwrite" && e.I > yr && len(e.Frames[0]) > 0 {
					violate("close: a Write succeeded although the other end was closed", "%s", e)
				}
			}
			if e.K == "ipwrite" && e.Err == "" && e.N != len(e.Frames[0]) || e.N < 0 || e.K == "ipread" && e.N > int(e.UID) {
				violate("inproc: wrong count", "%s n=%d", e, e.N)
			}
			if e.K == "ipread" && e.Err == "" && e.N == 0 && e.UID > 0 {
				violate("inproc: a Read returned nothing", "%s", e)
			}
		}
		legit := false
		for _, d := range dls {
			if d.at == 0 || d.r == never {
				if d.r == never && d.at != 0 {
					legit = true
				}
				continue
			}
			if fin && max(e.Ti, d.at, d.ti) <= min(e.Tr, d.nextTr) {
				legit = true
			}
			t0 := max(e.Ti, d.at, d.tr)
			if t0+ipSlack+(busy()-e.Bi) < d.nextTi && late(t0) {
				violate("deadline: an operation outlived its deadline", "%s (deadline %.3fms set at %.3fms)", e, float64(d.at)/1e6, float64(d.tr)/1e6)
			}
			expired := d.at <= d.ti && d.r < e.I || max(d.at, d.tr)+ipSlack+e.Bi-d.br < e.Ti
			if fin && expired && e.R < d.nextI && e.Type != ipTimeout && e.Type != ipClosed && !(e.Type == ipNone && e.K == "ipwrite" && e.N == 0) {
				violate("deadline: an operation started after its deadline did not fail", "%s (deadline %.3fms set at %.3fms)", e, float64(d.at)/1e6, float64(d.tr)/1e6)
			}
		}
		if fin && e.Type == ipTimeout {
			probe("timeout", 1)
			if !legit {
				violate("deadline: an operation timed out although no deadline had passed", "%s", e)
			}
		}
	}
	// the bytes that reach x
	type wr struct {
		e    *Ev
		left []byte
		done bool
	}
	var ws []*wr
	for _, e := range writes {
		d := e.Frames[0]
		if e.R != 0 {
			d = d[:min(max(e.N, 0), len(d))]
		}
		if len(d) > 0 {
			ws = append(ws, &wr{e: e, left: d})
		}
	}
	var cur *wr
	first := 0
	total := 0
	bad := false
	for _, rd := range reads {
		if rd.R == 0 || bad {
			break
		}
		// data that was there when the Read began
		for first < len(ws) && ws[first].done {
			first++
		}
		ws = ws[first:]
		first = 0
		for _, o := range ws {
			if !o.done && o.e.R != 0 && o.e.R < rd.I && rd.Type == ipNone && rd.UID > 0 && rd.waited() > ipSlack {
				violate("inproc: a Read waited although there was data", "%s", rd)
				bad = true
				break
			}
		}
		if rd.Type == ipEOF {
			for _, o := range ws {
				if !o.done && o.e.R != 0 && o.e.R < yi && rd.I < xi {
					violate("inproc: end of file before everything written was read", "%s; %d bytes missing of %s", rd, len(o.left), o.e)
					bad = true
					break
				}
			}
		}
		if rd.Frames == nil {
			continue
		}
		for _, b := range rd.Frames[0] {
			total++
			if cur == nil || len(cur.left) == 0 {
				cur = nil
				for _, o := range ws {
					if o.done || o.e.I > rd.R {
						continue
					}
					// the earliest open write of the writer the byte names, if no
					// other one must come before
					if o.left[0] != b || int(b>>6) != ipWriter(o.e) {
						continue
					}
					cur = o
					break
				}
				if cur == nil {
					violate("inproc: bytes were corrupted, duplicated or reordered", "byte %d read by %s is %#x (%s)", total, x, b, rd)
					bad = true
					break
				}
				for _, o := range ws {
					if !o.done && o != cur && o.e.R != 0 && o.e.R < cur.e.I {
						violate("inproc: bytes were lost or overtaken", "%s reads %s before %s", x, cur.e, o.e)
						bad = true
						break
					}
				}
			}
			if bad {
				break
			}
			if cur.left[0] != b {
				violate("inproc: bytes were corrupted, duplicated or reordered", "byte %d read by %s is %#x instead of %#x (%s)", total, x, b, cur.left[0], rd)
				bad = true
				break
			}
			cur.left = cur.left[1:]
			if len(cur.left) == 0 {
				cur.done = true
			}
		}
	}
	probe("bytes", total)
	// progress: the calm phase reads everything
	calmEnd, calmT := never, never
	for _, e := range hist {
		if e.K == "ipclose" && pl.Phases[min(e.Phase, len(pl.Phases)-1)].Name == "calm" && (e.S == x || e.S == y) {
			calmEnd, calmT = min(calmEnd, e.I), min(calmT, e.Ti)
		}
	}
	if len(reads) > 0 && !bad && calmEnd != never && min(xi, yi) >= calmEnd {
		for _, o := range ws {
			if !o.done && o.e.R != 0 && o.e.Tr+4*ipSlack < calmT {
				violate("inproc: bytes written were never read", "%d bytes of %s", len(o.left), o.e)
				break
			}
		}
		for _, e := range writes {
			if (e.R == 0 || e.R > calmEnd) && e.Ti+4*ipSlack < calmT {
				violate("inproc: a Write is stuck although the other end reads", "%s", e)
				break
			}
		}
		probe("drained", 1)
	}
}

func ipWriter(e *Ev) int {
	if len(e.Frames[0]) == 0 {
		return -1
	}
	return int(e.Frames[0][0] >> 6)
}

func judgeNames() {
	type ls struct{ open, clo *Ev }
	by := map[string]*ls{}
	var all []*ls
	for _, e := range hist {
		switch e.K {
		case "iplisten":
			if e.Err == "" {
				l := &ls{open: e}
				by[e.S] = l
				all = append(all, l)
			}
		case "iplclose":
			if e.Err != "" {
				violate("inproc: closing a listener failed", "%s", e)
			}
			if l := by[e.S]; l != nil && l.clo == nil {
				l.clo = e
			}
		}
	}
	certain := func(l *ls, a, b int64) bool { // during all of [a,b]
		return l.open.R != 0 && l.open.R < a && (l.clo == nil || l.clo.I > b)
	}
	possible := func(l *ls, a, b int64) bool { // at some point of [a,b]
		return l.open.I < b && (l.clo == nil || l.clo.R == 0 || l.clo.R > a)
	}
	ipOrder()
	end := seq + 1
	served := map[int][]*Ev{}
	for _, e := range hist {
		if e.K == "ipserved" && e.N != 0 {
			served[e.N] = append(served[e.N], e)
		}
	}
	for _, e := range hist {
		r := e.R
		if r == 0 {
			r = end
		}
		some, sure := false, false
		for _, l := range all {
			if l.open != e && (e.K == "iplisten" || e.K == "ipdial") && l.open.A == e.A {
				some = some || possible(l, e.I, r)
				sure = sure || certain(l, e.I, r)
			}
		}
		if e.R == 0 && (e.K == "iplisten" || e.K == "ipdial" || e.K == "iplclose") {
			violate("inproc: an operation does not return", "%s", e)
			continue
		}
		switch e.K {
		case "iplisten":
			if e.Err == "" && sure {
				violate("inproc: two listeners have one name", "%s", e)
			}
			if e.Err != "" && !some {
				violate("inproc: a free name cannot be listened on", "%s", e)
			}
		case "ipdial":
			probe("dials", 1)
			if e.Err == "" && !some {
				violate("inproc: dialed a name nobody listens on", "%s", e)
			}
			if e.Err != "" && sure {
				violate("inproc: a name that is listened on refused a connection", "%s", e)
			}
			if e.Err != "" {
				probe("refused", 1)
			}
		case "ipaccept":
			l := by[e.S]
			if l == nil {
				continue
			}
			if e.Err != "" && (l.clo == nil || l.clo.I > r) {
				violate("inproc: Accept failed on an open listener", "%s", e)
			}
			if l.clo != nil && l.clo.R != 0 {
				if e.Err == "" && e.R != 0 && e.I > l.clo.R {
					violate("inproc: Accept succeeded on a closed listener", "%s", e)
				}
				if t0 := max(e.Ti, l.clo.Tr); e.R == 0 && teardownAt > t0+ipSlack+busy()-e.Bi || e.R != 0 && e.Tr > t0+ipSlack+e.Br-e.Bi {
					violate("close: Accept outlived its listener", "%s", e)
				}
			}
		case "ipcall":
			if e.N == 0 {
				continue
			}
			sv := served[e.N]
			if len(sv) > 1 {
				violate("inproc: one dialed connection was accepted twice", "%s: %s and %s", e, sv[0], sv[1])
			}
			if e.R != 0 && e.Err == "" {
				probe("calls", 1)
				if e.UID != uint32(e.N)^0x5a5a5a5a || len(sv) == 0 {
					violate("inproc: connected to somebody else", "%s", e)
				}
				continue
			}
			if e.R != 0 {
				probe("dropped", 1)
			}
			d := ipDialOf(e)
			limit := e.Ti + ipSlack + busy() - e.Bi
			if e.R != 0 {
				limit = e.Ti + ipSlack + e.Br - e.Bi
			}
			for _, x := range hist { // served one after the other
				if x.K == "ipserved" && x.A == e.A && x.R != 0 && x.Tr > e.Ti {
					limit += x.Tr - x.Ti
				}
			}
			for _, l := range all {
				if l.open.A == e.A && l.open.R != 0 && l.open.R < d && ipAcceptor(l.open.S) && (l.clo == nil || l.clo.Ti > limit) && limit < teardownAt && (e.R == 0 || e.Tr > limit) {
					violate("inproc: a connection is not accepted although somebody waits for one", "%s", e)
				}
			}
			// not served: only if every listener it may have met has gone
			for _, l := range all {
				if l.open.A == e.A && l.open.R != 0 && ipAcceptor(l.open.S) && certain(l, ipDialOf(e), r) {
					if e.R == 0 && teardownAt < e.Ti+ipSlack+busy()-e.Bi {
						continue
					}
					violate("inproc: a connection to an accepting listener came to nothing", "%s", e)
				}
			}
			if (e.R == 0 || e.Tr >= teardownAt) && e.Ti+ipSlack+busy()-e.Bi < teardownAt { // all listeners have been closed by now
				violate("inproc: a dialed connection is neither accepted nor closed", "%s", e)
			}
		}
	}
}

// ipOrder: one acceptor accepts connections in the order they were dialed in.
func ipOrder() {
	type conn struct{ dial, served *Ev }
	by := map[string][]conn{}
	for _, e := range hist {
		if e.K != "ipserved" || e.N == 0 || ipAcceptors(e.S) != 1 {
			continue
		}
		for _, c := range hist {
			if c.K == "ipcall" && c.N == e.N {
				for _, d := range hist {
					if d.K == "ipdial" && d.S == c.S && d.Proc == c.Proc && d.Op == c.Op && d.It == c.It-1 && d.R != 0 {
						by[e.S] = append(by[e.S], conn{d, e})
					}
				}
			}
		}
	}
	for _, l := range by { // in the order they were accepted in
		for i, b := range l {
			for _, a := range l[:i] {
				if b.dial.R < a.dial.I {
					violate("inproc: connections are not accepted in the order they were dialed", "%s before %s", a.served, b.served)
					return
				}
			}
		}
		probe("ordered", len(l))
	}
}

// ipDialOf is when the connection of a call began to be dialed.
func ipDialOf(c *Ev) int64 {
	for _, e := range hist {
		if e.K == "ipdial" && e.S == c.S && e.Proc == c.Proc && e.Op == c.Op && e.It == c.It-1 {
			return e.I
		}
	}
	return c.I
}

func ipAcceptor(l string) bool { return ipAcceptors(l) > 0 }

func ipAcceptors(l string) int {
	for _, ph := range pl.Phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				if o.K == "iplisten" && o.S == l {
					return o.Flag&1 + o.Flag>>1&1
				}
			}
		}
	}
	return 0
}
