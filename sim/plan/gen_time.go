package plan

func init() {
	gens["C09"] = genC09
}

// C09: a Send returns when its message is on its way, or when its deadline
// expires, not earlier and not later, and leaves the socket usable.
func genC09(g *gb) {
	r := g.r
	g.p.Sched.StallPer = 0
	g.p.Net.LatMin = 10
	g.p.Net.LatMax = Pick(r, 10, 100, 2000)
	switch r.N(4) {
	case 0:
		g.peerless()
	default:
		g.stuck()
	}
	g.limit()
}

func deadline(r *Rng) int { return Pick(r, 1, 2, 5, 20, 50, 200, r.R(1, 400)) }

// peerless: Sends without anybody to send to, until somebody comes, if at all.
func (g *gb) peerless() {
	r := g.r
	g.p.Scen = "peerless"
	tr := g.transport()
	work := g.phase("work", 60000, 300)
	pt := pick(g, "fanout", "fanin", "pair", "dealerrouter", "dealers", "routers")
	hub, leaf := g.sock(pt.hub), g.sock(pt.leaf)
	if pt.addressed {
		g.setID(leaf)
		g.setID(hub)
	}
	sender, other := hub, leaf
	if !pt.hubSends || pt.leafSends && r.P(50) {
		sender, other = leaf, hub
	}
	sender.Timeout = deadline(r)
	if r.P(8) {
		sender.Timeout = -1
	}
	lead := ""
	if sender.Type == "ROUTER" {
		lead = other.ID
	}
	for k := r.R(1, 4); k > 0; k-- {
		o := Op{K: Pick(r, "send", "sendm"), S: sender.Name, N: r.R(1, 3), B: lead, Sz: g.sizes(3)}
		g.proc(work, "send_"+sender.Name, Op{K: "sleep", Us: r.R(0, 50000)}, o)
	}
	if r.P(75) { // somebody comes
		at := r.R(0, max(sender.Timeout, 1)*1500)
		l, d := sender, other
		if r.P(50) {
			l, d = d, l
		}
		d.Retry, d.MaxRet = 20, -1
		ep := g.ep(tr, l)
		g.proc(work, "listen", Op{K: "listen", S: l.Name, A: ep})
		g.proc(work, "dial", Op{K: "sleep", Us: at}, Op{K: "dial", S: d.Name, A: ep})
		g.bg(work, "recv_"+other.Name, Op{K: "recv", S: other.Name, N: -1})
		if sender.Timeout > 0 {
			g.calmSends(sender, lead)
		}
	}
}

// calmSends: once everything is well, Sends succeed.
func (g *gb) calmSends(s *Sock, lead string) {
	ph := g.phases[len(g.phases)-1]
	if ph.Name != "calm" {
		ph = g.phase("heal", 20000, 100)
		ph.Calm = true
		ph.Settle = 4000
		ph = g.phase("calm", 60000, 500)
	}
	g.proc(ph, "calm_"+s.Name, Op{K: Pick(g.r, "send", "sendm"), S: s.Name, N: g.r.R(1, 5), B: lead, Sz: []int{g.r.R(8, 60)}})
}

// stuck: links stop, for good or for about as long as the deadline.
func (g *gb) stuck() {
	r := g.r
	g.p.Scen = "stuck"
	tr := Pick(r, "tcp", "tcp", "ipc")
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 1500
	g.p.Net.Buf = Pick(r, 600, 1024, 2304, 4096)
	if r.P(20) {
		srvT := Pick(r, "REP", "ROUTER")
		srv := g.sock(srvT)
		var links []link
		for k := r.R(1, 2); k > 0; k-- {
			c := g.sock("REQ")
			c.Timeout = deadline(r)
			if r.P(70) {
				links = append(links, link{srv, c})
			} else {
				links = append(links, link{c, srv})
			}
		}
		g.connect(setup, tr, links)
		if srvT == "REP" {
			g.bg(setup, "rep", Op{K: "rep", S: srv.Name, Sz: g.sizes(2)})
		} else {
			g.bg(setup, "echo", Op{K: "echo", S: srv.Name, Sz: g.sizes(2), Flag: 2})
		}
		work := g.phase("work", 60000, 200)
		for _, c := range g.socks[1:] {
			g.bg(work, "ask_"+c.Name, Op{K: "req", S: c.Name, N: r.R(2, 10), M: 3, Sz: []int{r.R(100, 7000)}, Us: Pick(r, 0, 3000)})
		}
		g.stalls(links)
		heal := g.phase("heal", 20000, 100)
		heal.Calm = true
		heal.Settle = 4000
		calm := g.phase("calm", 60000, 500)
		for _, c := range g.socks[1:] {
			g.proc(calm, "calm_"+c.Name, Op{K: "req", S: c.Name, N: 2, M: 5, Sz: []int{30}})
		}
		return
	}
	pt := pick(g, "fanout", "fanin", "pair", "dealerrouter", "dealers", "routers", "subpub", "pubsub", "pubxsub")
	w := g.wire(setup, pt, r.R(1, pt.max), tr)
	g.subscribe(setup, w, "")
	g.receivers(setup, w, 0)
	for _, s := range g.socks {
		s.Timeout = deadline(r)
	}
	work := g.phase("work", 60000, 200)
	g.stalls(w.links)
	flood := func(s *Sock) {
		lead := g.lead(w, s)
		for k := r.R(1, 3); k > 0; k-- {
			o := Op{K: Pick(r, "send", "sendm"), S: s.Name, N: r.R(3, 15), Sz: []int{r.R(8, 100), r.R(50, 700)}, Us: Pick(r, 0, 500, 5000)}
			if lead != nil {
				o.B, _ = lead()
			}
			g.proc(work, "send_"+s.Name, Op{K: "sleep", Us: r.R(0, 30000)}, o)
		}
	}
	lead1 := func(s *Sock) string {
		if l := g.lead(w, s); l != nil {
			b, _ := l()
			return b
		}
		return ""
	}
	if w.hubSends {
		flood(w.hub)
	}
	if w.leafSends {
		for _, l := range w.leaves {
			flood(l)
		}
	}
	for _, s := range g.socks {
		if s.Type == "SUB" { // telling the publishers takes its time, too
			g.proc(work, "subs_"+s.Name, Op{K: "sleep", Us: r.R(0, 30000)}, Op{K: "sub", S: s.Name, A: "x"}, Op{K: "unsub", S: s.Name, A: "x"}, Op{K: "sub", S: s.Name, A: "y"})
		}
		if s.Type == "XSUB" {
			g.proc(work, "subs_"+s.Name, Op{K: "sleep", Us: r.R(0, 30000)}, Op{K: "xsub", S: s.Name, A: "x", N: 1})
		}
	}
	if w.sync {
		if w.hubSends {
			g.calmSends(w.hub, lead1(w.hub))
		}
		if w.leafSends {
			for _, l := range w.leaves {
				g.calmSends(l, lead1(l))
			}
		}
	}
}

func (g *gb) stalls(links []link) {
	r := g.r
	for k := r.R(1, 3); k > 0; k-- {
		l := links[r.N(len(links))]
		t := max(l.d.Timeout, l.l.Timeout, 1) * 1000
		g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "stall", A: l.d.Host, B: l.l.Host, Ph: 1, At: r.R(0, 30000), Dur: Pick(r, -1, -1, t, r.R(1, 3*t), t/2)})
	}
}
