package plan

import (
	"fmt"
	"strings"
)

func init() {
	gens["C04"] = genC04
	gens["C05"] = genC05
	gens["C06"] = genC06
	gens["C07"] = genC07
}

var topicPool = []string{"", "a", "ab", "abc", "b", "ba", "topic/x", "topic/y", "topic/", "\x01", "\x00a", "z",
	longTopic(254, ""), longTopic(255, ""), longTopic(256, ""), longTopic(300, "x")}
var pubPool = []string{"a", "ab", "abc", "abcd", "b", "bb", "topic/x/1", "topic/y", "topic", "q", "\x01\x02", "\x00ab", "zz",
	longTopic(254, ""), longTopic(255, "y"), longTopic(256, "z"), longTopic(300, ""), longTopic(300, "xx")}

func longTopic(n int, end string) string { return strings.Repeat("L", n) + end }

// C04: subscribers receive what they subscribed to and nothing else.
func genC04(g *gb) {
	r := g.r
	pubT := Pick(r, "PUB", "PUB", "XPUB")
	tr := g.transport()
	ph := g.phase("setup", 60000, 100)
	ph.Settle = 3000
	var pubs, subs []*Sock
	for k := r.R(1, 2); k > 0; k-- {
		pubs = append(pubs, g.sock(pubT))
	}
	for k := r.R(1, 3); k > 0; k-- {
		t := "SUB"
		if r.P(20) {
			t = "XSUB"
		}
		subs = append(subs, g.sock(t))
	}
	sec := Pick(r, "", "", "", "plain")
	for _, s := range append(append([]*Sock{}, pubs...), subs...) {
		s.Sec = sec
	}
	var links []link
	pubListens := r.P(70)
	for _, p := range pubs {
		for _, s := range subs {
			if len(pubs) > 1 && r.P(20) {
				continue
			}
			if pubListens {
				links = append(links, link{p, s})
			} else {
				links = append(links, link{s, p})
			}
		}
	}
	if len(links) == 0 {
		links = append(links, link{pubs[0], subs[0]})
	}
	g.p.Scen = fmt.Sprint(pubT, len(pubs), "x", len(subs))
	g.connect(ph, tr, links)
	for _, s := range subs {
		g.bg(ph, "recv_"+s.Name, Op{K: "recv", S: s.Name, N: -1, Us: Pick(r, 0, 0, r.R(1, 2000))})
	}
	pool := r.Perm(len(topicPool))[:r.R(1, 5)]
	subsOf := func(s *Sock, n int, unsub bool) (ops []Op) {
		for ; n > 0; n-- {
			t := topicPool[pool[r.N(len(pool))]]
			o := subOp(s, t)
			if unsub && r.P(50) {
				if s.Type == "XSUB" {
					o.N = 0
				} else {
					o.K = "unsub"
				}
			}
			ops = append(ops, o)
			if r.P(30) {
				ops = append(ops, Op{K: "sleep", Us: r.R(1, 5000)})
			}
		}
		return
	}
	// one topic comes and goes, at the pace at which connections are set up
	toggle := func(ph *Phase, s *Sock) {
		var ops []Op
		t := topicPool[pool[r.N(len(pool))]]
		span := Pick(r, 20, 20+g.p.Net.LatMax, 20+4*g.p.Net.LatMax)
		if r.P(60) { // many topics, each of which comes and goes once
			n := r.R(4, 25)
			for i := 0; i < 2*n; i++ {
				o := subOp(s, fmt.Sprint("~", i%n))
				if i >= n {
					o.K = "unsub"
					ops = append(ops, Op{K: "sleep", Us: r.R(0, span)})
				}
				ops = append(ops, o)
			}
			g.proc(ph, "toggle_"+s.Name, ops...)
			return
		}
		for n := r.R(4, 30); n > 0; n-- {
			o := subOp(s, t)
			if n%2 == 0 {
				o.K = "unsub"
			}
			ops = append(ops, o, Op{K: "sleep", Us: r.R(0, span)})
		}
		g.proc(ph, "toggle_"+s.Name, ops[r.N(3):]...)
	}
	for _, s := range subs {
		if s.Type == "SUB" && r.P(25) {
			toggle(ph, s)
			continue
		}
		ops := subsOf(s, r.R(0, 3), r.P(20))
		if s.Type == "XSUB" {
			ops = append([]Op{{K: "sleep", Us: 20000000}}, ops...)
		} else if r.P(40) {
			ops = append([]Op{{K: "sleep", Us: r.R(1, 200000)}}, ops...)
		}
		g.proc(ph, "sub_"+s.Name, ops...)
	}
	publish := func(ph *Phase, max int) {
		for _, p := range pubs {
			for k := Pick(r, 1, 1, 2); k > 0; k-- {
				var ops []Op
				for n := r.R(1, max); n > 0; n-- {
					o := Op{K: Pick(r, "send", "send", "sendm"), S: p.Name, N: r.R(1, 2), Sz: []int{r.R(8, 60)}, B: pubPool[r.N(len(pubPool))], Us: Pick(r, 0, 0, 300)}
					if r.P(20) {
						o.Sz = append(o.Sz, g.size())
					}
					ops = append(ops, o)
				}
				g.proc(ph, "pub_"+p.Name, ops...)
			}
		}
	}
	stable := func() {
		ph := g.phase("stable", 60000, 500)
		ph.Settle = 2000
		publish(ph, 8)
	}
	stable()
	if r.P(80) { // subscriptions change while messages flow
		ph := g.phase("churn", 60000, 300)
		ph.Settle = 2000
		publish(ph, 6)
		for _, s := range subs {
			for k := Pick(r, 1, 1, 2); k > 0; k-- { // two goroutines may change subscriptions at once
				g.proc(ph, "churn_"+s.Name, subsOf(s, r.R(1, 6), true)...)
			}
		}
		stable()
	}
	if r.P(50) { // connections are lost and come back
		for _, s := range subs {
			s.Retry = Pick(r, 20, 100, 250)
		}
		ph := g.phase("chaos", 20000, 300)
		publish(ph, 4)
		var dial []link
		for _, l := range links {
			if l.d.Type != "XSUB" && l.l.Type != "XSUB" {
				dial = append(dial, l)
			}
		}
		if len(dial) > 0 {
			g.chaos(len(g.phases)-1, r.R(1, 3), dial)
			g.exhaust(len(g.phases)-1, dial)
			for i := range g.p.Net.Faults { // byte positions count from the start of a connection
				if f := &g.p.Net.Faults[i]; f.Kind == "cut" || f.Kind == "fin" {
					f.Nth = Pick(r, 2, 3)
				}
			}
			g.p.Net.DialFail, g.p.Net.AccFail = 0, 0
		}
		if r.P(50) { // ... while subscriptions change
			for _, s := range subs {
				if s.Type != "XSUB" {
					if r.P(40) {
						toggle(ph, s)
					} else {
						g.proc(ph, "churn_"+s.Name, subsOf(s, r.R(1, 4), true)...)
					}
				}
			}
		}
		if r.P(40) && len(subs) > 1 {
			s := subs[r.N(len(subs))]
			g.proc(ph, "close_"+s.Name, Op{K: "sleep", Us: r.R(1, 30000)}, Op{K: "close", S: s.Name})
		}
		heal := g.phase("heal", 20000, 200)
		heal.Calm = true
		heal.Settle = 6000
		stable()
	}
	g.limit()
}

// C05: a publisher never blocks, keeps up to HWM messages for a slow
// subscriber, and drops only what exceeds that, only for that subscriber.
func genC05(g *gb) {
	r := g.r
	tr := Pick(r, "tcp", "tcp", "ipc", "inproc")
	ph := g.phase("setup", 60000, 100)
	ph.Settle = 3000
	pub := g.sock("PUB")
	nslow := r.R(1, 2)
	var links []link
	hwm := Pick(r, 1, 2, 5, 10, 30, 100)
	if r.P(15) {
		hwm = 1000
	}
	if r.P(6) {
		hwm = r.R(1001, 2500)
	}
	pubListens := r.P(75)
	for i := 0; i < nslow+r.R(0, 2); i++ {
		s := g.sock("SUB")
		if pubListens {
			links = append(links, link{pub, s})
		} else {
			links = append(links, link{s, pub})
		}
	}
	g.p.P["nslow"] = nslow
	g.p.P["hwm"] = hwm
	if hwm != 1000 || r.P(50) { // 1000 is the default
		ops := []Op{{K: "hwm", S: pub.Name, N: hwm}, {K: "signal", A: "hwm"}}
		if r.P(25) { // refused: what was set before stays
			ops = []Op{ops[0], {K: "hwm", S: pub.Name, N: -r.R(1, 100)}, ops[1]}
		}
		g.proc(ph, "hwm", ops...)
	} else {
		g.proc(ph, "hwm", Op{K: "signal", A: "hwm"})
	}
	g.connect(ph, tr, links)
	for i := range ph.Procs {
		if p := &ph.Procs[i]; p.Ops[0].K != "hwm" && p.Ops[0].K != "signal" {
			p.Ops = append([]Op{{K: "await", A: "hwm", N: 1, Us: 10000000}}, p.Ops...)
		}
	}
	for _, s := range g.socks[1:] {
		g.proc(ph, "sub_"+s.Name, Op{K: "sub", S: s.Name, A: ""})
	}
	for _, s := range g.socks[1+nslow:] {
		g.bg(ph, "recv_"+s.Name, Op{K: "recv", S: s.Name, N: -1})
	}
	size := r.R(200, 800)
	g.p.P["size"] = size
	g.p.Net.Buf = Pick(r, 512, 1024, 2304)
	g.p.Net.Chunk, g.p.Net.Seg = 0, 0
	g.p.Net.LatMax = g.p.Net.LatMin + Pick(r, 0, 500, 3000)
	burst := g.phase("burst", 600000, 500)
	over := hwm + 3*g.p.Net.Buf/size + r.R(20, 60)
	if hwm >= 1000 {
		over = hwm + r.R(1, 40)
	}
	paced := r.P(50) && hwm <= 1000
	o := Op{K: "send", S: pub.Name, N: over, Sz: []int{size}}
	if paced {
		o.Us = 30000
		g.p.Sched.StallPer = 0
		g.p.P["paced"] = 1
	}
	g.p.Scen = map[bool]string{true: "paced", false: "burst"}[paced]
	// the slow subscribers' links stall, or nobody calls Recv, or both
	for i := 0; i < nslow; i++ {
		l := links[i]
		if tr != "inproc" && r.P(70) {
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "stall", A: l.d.Host, B: l.l.Host, Ph: 1, At: 0, Dur: -1})
			g.p.P["stalled"] |= 1 << i
		}
	}
	g.proc(burst, "pub", append([]Op{{K: "sleep", Us: 1000}}, o)...)
	if !paced && r.P(30) {
		g.proc(burst, "pub2", append([]Op{{K: "sleep", Us: 1000}}, Op{K: "send", S: pub.Name, N: r.R(1, 20), Sz: []int{size}})...)
		g.p.P["pub2"] = 1
	}
	drain := g.phase("drain", 60000, 1000)
	drain.Calm = true
	for _, s := range g.socks[1 : 1+nslow] {
		g.bg(drain, "recv_"+s.Name, Op{K: "recv", S: s.Name, N: -1})
	}
	// once drained, slow subscribers get everything again
	again := g.phase("again", 60000, 500)
	g.proc(again, "pub", Op{K: "send", S: pub.Name, N: r.R(1, 5), Sz: []int{size}, Us: 30000})
}

// C06: a REQ socket receives exactly the reply to its request.
func genC06(g *gb) {
	r := g.r
	tr := Pick(r, "tcp", "tcp", "tcp", "ipc", "inproc")
	ph := g.phase("setup", 60000, 100)
	ph.Settle = 3000
	srvT := Pick(r, "REP", "REP", "REP", "ROUTER")
	cliT := "REQ"
	if srvT == "REP" && r.P(25) {
		cliT = "DEALER"
	}
	g.p.Scen = cliT + "-" + srvT
	var srv, cli []*Sock
	ns, nc := Pick(r, 1, 1, 2, 2, 3), r.R(1, 3)
	if cliT == "DEALER" && ns > 1 {
		g.p.Scen += "s"
	}
	for i := 0; i < ns; i++ {
		srv = append(srv, g.sock(srvT))
	}
	for i := 0; i < nc; i++ {
		c := g.sock(cliT)
		if r.P(40) {
			g.setID(c)
		}
		cli = append(cli, c)
	}
	sec := Pick(r, "", "", "null", "plain", "seal")
	for _, s := range g.socks {
		s.Sec = sec
	}
	var links []link
	srvListens := r.P(75)
	for _, c := range cli {
		for i, s := range srv {
			if i > 0 && r.P(40) {
				continue
			}
			if srvListens {
				links = append(links, link{s, c})
			} else {
				links = append(links, link{c, s})
			}
		}
	}
	eps := g.connect(ph, tr, links)
	serve := func(ph *Phase, s *Sock, early ...Op) {
		o := Op{K: "rep", S: s.Name, Sz: g.sizes(3), Us: Pick(r, 0, 0, r.R(1, 3000)), Flag: Pick(r, 0, 8)}
		if srvT == "ROUTER" {
			o.K, o.Flag = "echo", 2
		}
		g.bg(ph, "serve_"+s.Name, append(early, o)...)
	}
	for _, s := range srv {
		serve(ph, s)
	}
	faulty := srvT == "REP" && r.P(65) // nothing ties the reply of a ROUTER to a request, once the connection is lost
	work := g.phase("work", 60000, 500)
	if cliT == "DEALER" { // nothing else waits for the last replies
		work.Settle = 3000
	}
	tries := 0
	if faulty {
		tries = 2
		g.p.P["faulty"] = 1
	}
	envelope := func() string { // frames before the delimiter, of the same or different number and length
		e := Pick(r, "", fmt.Sprint("env", r.N(9)), fmt.Sprint("env", r.N(9)), fmt.Sprint("e", r.N(9), "|", "f", r.N(9)))
		if r.P(10) {
			e = fmt.Sprint("a-rather-long-envelope-", r.N(100), "|x|y", r.N(3))
		}
		return e
	}
	ask := func(ph *Phase, n, tries int) {
		for _, c := range cli {
			ops := []Op{}
			if ph != work {
				ops = append(ops, Op{K: "await", A: "done_" + c.Name, N: 1, Us: 60000000})
			}
			if cliT == "REQ" {
				ops = append(ops, Op{K: "req", S: c.Name, N: n, M: tries, Sz: g.sizes(4), Us: Pick(r, 0, 0, r.R(1, 4000)), Flag: Pick(r, 0, 8), B: Pick(r, "", "", "hdr")})
			} else {
				for k := 0; k < n; k++ {
					ops = append(ops, Op{K: Pick(r, "send", "sendm"), S: c.Name, N: 1, Sz: g.sizes(3), Flag: 2 | 32, B: envelope(), Us: Pick(r, 0, 500)})
				}
			}
			if ph == work {
				ops = append(ops, Op{K: "signal", A: "done_" + c.Name})
			}
			g.proc(ph, "ask_"+c.Name, ops...)
		}
	}
	if cliT == "DEALER" {
		for _, c := range cli {
			g.bg(ph, "recv_"+c.Name, Op{K: "recv", S: c.Name, N: -1})
		}
	}
	ask(work, r.R(1, 8), tries)
	if faulty {
		for _, s := range g.socks {
			if s.Type != srvT { // a reply that expires is lost for good
				s.Timeout = Pick(r, 0, 50, 200)
				if g.p.Net.LatMax > 500 { // a large request must get through in time
					s.Timeout *= 20
				}
			}
			s.Retry = Pick(r, 20, 100)
		}
		g.chaos(1, r.R(1, 4), links)
		g.exhaust(1, links)
		for i := range g.p.Net.Faults { // the first handshakes are over
			f := &g.p.Net.Faults[i]
			if f.Nth == 1 || f.Nth == 0 {
				f.Nth = Pick(r, 1, 2)
				f.Bytes += 600
			}
		}
		g.p.Net.DialFail, g.p.Net.AccFail = 0, 0
		if tr != "inproc" && srvListens && r.P(35) { // a server crashes and comes back
			s := srv[r.N(len(srv))]
			g.proc(work, "crash", Op{K: "sleep", Us: r.R(1, 50000)}, Op{K: "crash", A: s.Host}, Op{K: "sleep", Us: r.R(1000, 300000)},
				Op{K: "new", S: s.Name}, Op{K: "listen", S: s.Name, A: eps[s]}, Op{K: "signal", A: "up"})
			serve(work, s, Op{K: "await", A: "up", N: 1, Us: 20000000})
		}
		heal := g.phase("heal", 60000, 500)
		heal.Calm = true
		heal.Settle = 4000
		calm := g.phase("calm", 120000, 500)
		ask(calm, r.R(1, 4), 50)
	}
	g.limit()
}

// C07: ROUTER sends to exactly the peer that has the identity, and tells who
// a message comes from.
func genC07(g *gb) {
	r := g.r
	tr := g.transport()
	leafT := Pick(r, "DEALER", "DEALER", "DEALER", "ROUTER")
	g.p.Scen = "ROUTER-" + leafT
	ph := g.phase("setup", 60000, 100)
	ph.Settle = 3000
	hub := g.sock("ROUTER")
	n := r.R(2, 4)
	var leaves []*Sock
	var links []link
	hubListens := r.P(70)
	base := Pick(r, "a", "id", "0", "\x00x", "peer")
	for i := 0; i < n; i++ {
		l := g.sock(leafT)
		leaves = append(leaves, l)
		switch i {
		case 0:
			l.ID = base
		case 1:
			l.ID = base + Pick(r, "b", base, "\x00", " ")
		case 2:
			l.ID = Pick(r, "x", base+base+base+base+"tail", "A")
		default:
			l.ID = fmt.Sprint("last", r.N(10))
			if leafT == "DEALER" && r.P(60) {
				l.ID = "" // gets a generated identity
			}
		}
		if hubListens {
			links = append(links, link{hub, l})
		} else {
			links = append(links, link{l, hub})
		}
	}
	if leafT == "ROUTER" {
		hub.ID = "hub-identity"
	}
	eps := g.connect(ph, tr, links)
	late := -1
	if hubListens && r.P(30) { // one peer turns up in the middle, or again
		late = r.N(n)
	}
	work := g.phase("work", 60000, 500)
	work.Settle = 2000
	recv := func(ph *Phase, s *Sock, early ...Op) {
		g.bg(ph, "recv_"+s.Name, append(early, Op{K: "recv", S: s.Name, N: -1, Us: Pick(r, 0, 0, r.R(1, 2000)), Flag: Pick(r, 0, 0, 16)})...)
	}
	echo := r.P(40) && leafT == "DEALER"
	if echo {
		g.bg(ph, "echo", Op{K: "echo", S: hub.Name, Sz: g.sizes(2), Us: Pick(r, 0, 300)})
	} else {
		recv(ph, hub)
	}
	for _, l := range leaves {
		recv(ph, l)
	}
	if !echo || r.P(50) {
		for k := r.R(1, 3); k > 0; k-- {
			var ops []Op
			for m := r.R(1, 10); m > 0; m-- {
				id := leaves[r.N(n)].ID
				empty := false
				switch r.N(10) {
				case 0:
					id = "nobody"
				case 3:
					empty = r.P(50) // an identity frame without content
				case 1:
					id = base + "?"
				case 2:
					id = base[:1] + base
				}
				if id == "" {
					id = "no-such-peer"
				}
				o := Op{K: Pick(r, "send", "send", "sendm"), S: hub.Name, N: r.R(1, 2), B: id, Sz: g.sizes(3), Us: Pick(r, 0, 0, 300)}
				if empty {
					o.B, o.Flag = "", 2
				}
				ops = append(ops, o)
			}
			g.proc(work, "route", ops...)
		}
	}
	for _, l := range leaves {
		var lead func() (string, int)
		if leafT == "ROUTER" {
			lead = func() (string, int) { return "hub-identity", 0 }
		}
		g.proc(work, "send_"+l.Name, g.sendOps(l, r.R(1, 10), lead, false)...)
	}
	if late >= 0 { // a connection is lost and the dialer comes back with the same identity
		l := leaves[late]
		l.Retry = 20
		g.p.P["relink"] = late + 1
		mid := g.phase("relink", 20000, 200)
		g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "reset", A: l.Host, B: hub.Host, Ph: 2, At: r.R(0, 1000)})
		mid.Calm = false
		if tr == "inproc" {
			g.p.Net.Faults = nil
		}
		g.proc(mid, "noise", Op{K: "sleep", Us: 50000})
		heal := g.phase("heal", 20000, 200)
		heal.Calm = true
		heal.Settle = 3000
		w2 := g.phase("again", 60000, 500)
		for _, l := range leaves {
			if l.ID == "" {
				continue
			}
			g.proc(w2, "route_"+l.Name, Op{K: "send", S: hub.Name, N: 2, B: l.ID, Sz: g.sizes(2)})
			o := Op{K: "send", S: l.Name, N: 2, Sz: g.sizes(2)}
			if leafT == "ROUTER" {
				o.B = "hub-identity"
			}
			g.proc(w2, "send_"+l.Name, o)
		}
	}
	_ = eps
	g.limit()
}
