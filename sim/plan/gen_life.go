package plan

func init() {
	gens["C08"] = genC08
}

// C08: closing or cancelling a socket ends whatever it does, at once, and
// leaves nothing behind.
func genC08(g *gb) {
	switch g.r.N(10) {
	case 0, 1:
		g.lonely()
	case 2, 3:
		g.churnScen()
	case 4:
		if g.r.P(40) {
			g.handover()
			break
		}
		g.race()
	default:
		g.mix()
	}
	if g.p.Scen != "churn" {
		g.phase("quiet", 10000, 50).Settle = 2500
	}
	g.limit()
}

// rebind makes a new socket listen where an old one did, and uses it.
func (g *gb) rebind(ep string) {
	r := g.r
	l, d := g.sock("PULL"), g.sock("PUSH")
	l.Late, d.Late = true, true
	d.MaxRet = -1
	d.Retry = 20
	ph := g.phase("rebind", 20000, 200)
	ph.Settle = 500
	g.proc(ph, "rebind", Op{K: "new", S: l.Name}, Op{K: "listen", S: l.Name, A: ep}, Op{K: "signal", A: "rebound"})
	g.proc(ph, "redial", Op{K: "new", S: d.Name}, Op{K: "await", A: "rebound", N: 1, Us: 3000000}, Op{K: "dial", S: d.Name, A: ep},
		Op{K: "send", S: d.Name, N: r.R(1, 3), Sz: []int{20}}, Op{K: "signal", A: "resent"})
	g.bg(ph, "rerecv", Op{K: "await", A: "rebound", N: 1, Us: 3000000}, Op{K: "recv", S: l.Name, N: -1})
}

// handover: a socket listens where another one does, as soon as that one closes.
func (g *gb) handover() {
	r := g.r
	g.p.Scen = "handover"
	x := g.sock(Pick(r, "PULL", "PULL", "PUB", "ROUTER", "REP"))
	ep := g.ep(Pick(r, "tcp", "ipc", "ipc", "inproc"), x)
	up := g.phase("up", 20000, 20)
	g.proc(up, "listen", Op{K: "listen", S: x.Name, A: ep})
	if x.Type == "PULL" && r.P(50) {
		c := g.sock("PUSH")
		c.Recon = 2
		g.proc(up, "dial", Op{K: "dial", S: c.Name, A: ep})
	}
	l, d := g.sock("PULL"), g.sock("PUSH")
	l.Host = x.Host
	d.Late = true
	d.MaxRet = -1
	d.Retry = 20
	ho := g.phase("handover", 20000, 20)
	g.proc(ho, "close", Op{K: "sleep", Us: r.N(2000)}, Op{K: "close", S: x.Name})
	g.proc(ho, "take", Op{K: "sleep", Us: r.N(2000)}, Op{K: "listen", S: l.Name, A: ep, Flag: 1, Us: Pick(r, 1, 1, 5, 20, 100)})
	ph := g.phase("rebind", 20000, 200)
	ph.Settle = 500
	g.proc(ph, "redial", Op{K: "new", S: d.Name}, Op{K: "dial", S: d.Name, A: ep}, Op{K: "send", S: d.Name, N: r.R(1, 3), Sz: []int{20}}, Op{K: "signal", A: "resent"})
	g.bg(ph, "rerecv", Op{K: "recv", S: l.Name, N: -1})
}

// mix: connected sockets with all sorts of pending operations are closed.
func (g *gb) mix() {
	r := g.r
	g.p.Scen = "mix"
	tr := g.transport()
	up := g.phase("up", 20000, 50)
	var links []link
	var eps map[*Sock]string
	work := func() *Phase { return g.phase("work", 20000, 100) }
	var ph *Phase
	if r.P(25) { // request/reply
		srvT := Pick(r, "REP", "REP", "ROUTER")
		srv := g.sock(srvT)
		for k := r.R(1, 3); k > 0; k-- {
			c := g.sock("REQ")
			if r.P(70) {
				links = append(links, link{srv, c})
			} else {
				links = append(links, link{c, srv})
			}
		}
		eps = g.connect(up, tr, links)
		ph = work()
		if r.P(70) {
			o := Op{K: "rep", S: srv.Name, Sz: g.sizes(3), Us: Pick(r, 0, 500)}
			if srvT == "ROUTER" {
				o.K, o.Flag = "echo", 2
			}
			g.bg(up, "serve", o)
		}
		for _, c := range g.socks[1:] {
			g.bg(ph, "ask_"+c.Name, Op{K: "req", S: c.Name, N: r.R(1, 10), M: 2, Sz: g.sizes(3), Us: Pick(r, 0, 500)})
		}
	} else {
		pt := pick(g, "fanout", "fanin", "pair", "dealerrouter", "dealers", "routers", "pubsub", "subpub", "xpubsub", "xpubxsub", "pubxsub")
		w := g.wire(up, pt, r.R(1, pt.max), tr)
		g.subscribe(up, w, "")
		links, eps = w.links, w.eps
		if r.P(60) {
			g.receivers(up, w, Pick(r, 0, 4))
		}
		ph = work()
		g.traffic(ph, w, 30, false)
	}
	for i := range ph.Procs {
		ph.Procs[i].Bg = true
	}
	if tr == "tcp" { // a dialer that is refused for ever, or stuck in its handshake
		for _, s := range g.socks {
			if r.P(20) {
				g.bg(ph, "lost_"+s.Name, Op{K: "sleep", Us: r.R(1, 20000)}, Op{K: "dial", S: s.Name, A: "tcp://10.9.9.9:99"})
				s.MaxRet = -1
				s.Retry = Pick(r, 0, 0, 5, 30000)
			}
		}
	}
	if tr != "inproc" && r.P(15) { // whoever loses a connection waits long before dialing again
		for _, s := range g.socks {
			s.Retry = 30000
		}
		listenFirst(up)
	}
	if r.P(30) {
		for _, s := range g.socks {
			if s.Type == "SUB" && r.P(60) {
				g.bg(ph, "subs_"+s.Name, Op{K: "sub", S: s.Name, A: "x"}, Op{K: "unsub", S: s.Name, A: "x"}, Op{K: "sub", S: s.Name, A: "y"})
			}
		}
	}
	if r.P(50) { // nothing gets through: operations hang
		g.p.Net.Buf = Pick(r, 600, 1024, 2304)
		for _, l := range links {
			if r.P(60) {
				g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: Pick(r, "stall", "stall", "part"), A: l.d.Host, B: l.l.Host, Ph: Pick(r, 0, 1, 1), At: Pick(r, 0, r.R(0, 30000)), Dur: -1})
			}
		}
	} else if r.P(40) {
		g.chaos(Pick(r, 0, 1), r.R(1, 3), links)
		g.exhaust(r.N(2), links)
	}
	// who gets closed, how
	var order []*Sock
	for _, i := range r.Perm(len(g.socks)) {
		order = append(order, g.socks[i])
	}
	n := r.R(1, len(order))
	at := r.R(0, Pick(r, 2000, 60000))
	when := Pick(r, 0, 1, 1, 1)
	cph := ph
	if when == 0 && r.P(50) { // while connections are being set up
		cph = up
	}
	for _, s := range order[:n] {
		ops := []Op{{K: "sleep", Us: at + r.R(0, 3000)}}
		if r.P(25) {
			ops = append(ops, Op{K: "cancel", S: s.Name})
			if r.P(50) {
				ops = append(ops, Op{K: "sleep", Us: r.R(1, 20000)})
			}
		}
		ops = append(ops, Op{K: "close", S: s.Name})
		if r.P(30) {
			ops = append(ops, Op{K: "close", S: s.Name})
		}
		g.proc(cph, "close_"+s.Name, ops...)
		if r.P(25) {
			g.proc(cph, "close2_"+s.Name, Op{K: "sleep", Us: at + r.R(0, 3000)}, Op{K: "close", S: s.Name})
		}
	}
	after := g.phase("after", 10000, 50)
	for _, s := range order[:n] {
		for _, k := range r.Perm(4)[:r.R(1, 4)] {
			o := Op{K: []string{"send", "recv", "dial", "listen"}[k], S: s.Name, N: 1, Sz: []int{10}, Flag: 4}
			switch o.K {
			case "send":
				o.B = "x"
			case "dial", "listen":
				o.A = g.ep(tr, s)
				if o.K == "dial" && eps[links[0].l] != "" && r.P(50) {
					o.A = eps[links[0].l]
				}
			}
			g.proc(after, "after_"+s.Name, o)
		}
	}
	if r.P(60) {
		for _, s := range order[:n] {
			if eps[s] != "" {
				g.rebind(eps[s])
				break
			}
		}
	}
}

// race: sockets are closed just when their connections are being set up, or
// set up again.
func (g *gb) race() {
	r := g.r
	g.p.Scen = "race"
	tr := g.transport()
	g.p.Net.LatMin = Pick(r, 1, 10, 50)
	g.p.Net.LatMax = g.p.Net.LatMin + r.R(0, 20)
	pt := pick(g, "fanout", "fanin", "pair", "dealerrouter", "dealers", "pubsub", "subpub")
	up := g.phase("up", 20000, 50)
	hub := g.sock(pt.hub)
	sec := Pick(r, "", "", "null", "plain")
	hub.Sec = sec
	ep := g.ep(tr, hub)
	g.proc(up, "listen", Op{K: "listen", S: hub.Name, A: ep})
	ph := g.phase("work", 20000, 100)
	n := r.R(1, 3)
	again := tr != "inproc" && r.P(50) // connections are lost, dialed again, and then the socket is closed
	for k := 0; k < n; k++ {
		d := g.sock(pt.leaf)
		d.Sec = sec
		d.MaxRet, d.Retry = -1, Pick(r, 1, 2, 5)
		t0 := r.R(0, 300)
		for j := r.R(1, 2); j > 0; j-- {
			g.bg(ph, "dial_"+d.Name, Op{K: "sleep", Us: t0 + r.R(0, 100)}, Op{K: "dial", S: d.Name, A: ep})
		}
		if again {
			t0 += r.R(1000, 3000)
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "reset", A: d.Host, B: hub.Host, Ph: 1, At: t0})
			t0 += d.Retry * 1000
		}
		if r.P(80) {
			g.proc(ph, "close_"+d.Name, Op{K: "sleep", Us: t0 + r.R(0, 16*g.p.Net.LatMax+600)}, Op{K: Pick(r, "close", "close", "cancel"), S: d.Name})
		}
	}
	if r.P(50) {
		g.proc(ph, "close_"+hub.Name, Op{K: "sleep", Us: r.R(0, 16*g.p.Net.LatMax+6000)}, Op{K: "close", S: hub.Name})
	}
}

// lonely: sockets that never have a peer.
func (g *gb) lonely() {
	r := g.r
	g.p.Scen = "lonely"
	ph := g.phase("work", 20000, 50)
	for k := r.R(1, 3); k > 0; k-- {
		s := g.sock(Pick(r, "PUSH", "PULL", "PAIR", "DEALER", "ROUTER", "PUB", "SUB", "XPUB", "XSUB", "REQ", "REP", "STREAM"))
		s.MaxRet = -1
		s.Retry = Pick(r, 0, 0, 5, 30000)
		if r.P(50) {
			g.proc(ph, "listen_"+s.Name, Op{K: "listen", S: s.Name, A: g.ep(g.transport(), s)})
		}
		for j := r.R(1, 4); j > 0; j-- {
			switch r.N(4) {
			case 0:
				g.bg(ph, "send_"+s.Name, Op{K: Pick(r, "send", "sendm"), S: s.Name, N: r.R(1, 3), B: "x", Sz: []int{20}})
			case 1:
				g.bg(ph, "recv_"+s.Name, Op{K: "recv", S: s.Name, N: -1, Flag: Pick(r, 0, 4)})
			case 2:
				g.bg(ph, "dial_"+s.Name, Op{K: "dial", S: s.Name, A: g.ep(Pick(r, "tcp", "ipc", "inproc"), s)})
			case 3:
				g.bg(ph, "opt_"+s.Name, Op{K: "sub", S: s.Name, A: "t"}, Op{K: "addr", S: s.Name}, Op{K: "topics", S: s.Name})
			}
		}
		ops := []Op{{K: "sleep", Us: r.R(0, 50000)}}
		if r.P(30) {
			ops = append(ops, Op{K: "cancel", S: s.Name}, Op{K: "sleep", Us: r.R(0, 5000)})
		}
		if r.P(80) {
			g.proc(ph, "close_"+s.Name, append(ops, Op{K: "close", S: s.Name})...)
		}
	}
	after := g.phase("after", 10000, 50)
	for _, s := range g.socks {
		if r.P(60) {
			g.bg(after, "late_"+s.Name, Op{K: Pick(r, "send", "recv"), S: s.Name, N: 1, B: "x", Sz: []int{8}, Flag: 4})
		}
	}
}

// churnScen: peers come and go; nothing of them stays at the socket they left.
func (g *gb) churnScen() {
	r := g.r
	g.p.Scen = "churn"
	g.p.P = map[string]int{"crashclose": 1}
	tr := g.transport()
	pt := pick(g, "fanin", "fanout", "dealerrouter", "dealers", "pubsub", "xpubsub", "subpub", "pair")
	asks := r.P(12)
	if asks {
		pt = pattern{name: "reqrep", hub: "REP", leaf: "REQ", max: 5, sync: true}
	}
	base := g.phase("base", 20000, 50)
	base.Settle = 3000
	hub := g.sock(pt.hub)
	stay := g.sock(pt.leaf)
	if pt.addressed {
		stay.ID = "stay"
	}
	stay.MaxRet, stay.Retry = -1, 20
	ep := g.ep(tr, hub)
	g.proc(base, "listen", Op{K: "listen", S: hub.Name, A: ep})
	g.proc(base, "dial", Op{K: "dial", S: stay.Name, A: ep})
	if pt.subscribes == "leaf" {
		g.proc(base, "sub", Op{K: "sub", S: stay.Name, A: ""})
	} else if pt.subscribes == "hub" {
		g.proc(base, "sub", Op{K: "sub", S: hub.Name, A: ""})
	}
	if pt.hubSends {
		g.bg(base, "recv_"+stay.Name, Op{K: "recv", S: stay.Name, N: -1})
	}
	if pt.leafSends {
		g.bg(base, "recv_"+hub.Name, Op{K: "recv", S: hub.Name, N: -1})
	}
	if asks {
		g.bg(base, "rep_"+hub.Name, Op{K: "rep", S: hub.Name, Sz: []int{20}})
	}
	churn := g.phase("churn", 60000, 100)
	n := r.R(2, 6)
	many := tr != "inproc" && r.P(40)
	for k := 0; k < n; k++ {
		l := g.sock(pt.leaf)
		l.Late = true
		l.MaxRet, l.Retry = -1, 20
		if many && k == 0 {
			l.Retry = 1
		}
		if pt.addressed {
			g.setID(l)
		}
		ops := []Op{{K: "sleep", Us: r.R(0, 100000)}, {K: "new", S: l.Name}, {K: "dial", S: l.Name, A: ep}}
		if pt.subscribes == "leaf" {
			ops = append(ops, Op{K: "sub", S: l.Name, A: Pick(r, "", "a")})
		}
		if pt.leafSends && r.P(70) {
			o := Op{K: "send", S: l.Name, N: r.R(1, 3), Sz: []int{20}}
			ops = append(ops, o)
		}
		if asks && r.P(80) {
			o := Op{K: "req", S: l.Name, N: r.R(1, 3), M: 1, Sz: []int{20}}
			if many && k == 0 {
				o.N, o.Us = 60, 2000
			}
			ops = append(ops, o)
		}
		ops = append(ops, Op{K: "sleep", Us: Pick(r, 0, r.R(0, 50000))})
		if r.P(75) || tr == "inproc" {
			ops = append(ops, Op{K: "close", S: l.Name})
		} else {
			ops = append(ops, Op{K: "crash", A: l.Host})
		}
		if k == 0 && many { // this one loses its connection again and again
			ops = append(ops[:len(ops)-1], Op{K: "sleep", Us: 200000}, ops[len(ops)-1])
			for i, at := 0, ops[0].Us; i < 40; i++ {
				at += r.R(1500, 5000)
				g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "reset", A: l.Host, B: hub.Host, Ph: 1, At: at})
			}
		}
		g.proc(churn, "leaf_"+l.Name, ops...)
		if tr != "inproc" && r.P(30) {
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: Pick(r, "cut", "fin"), A: l.Host, B: hub.Host, Nth: 1, Dir: r.N(2), Bytes: r.R(0, 400)})
		}
	}
	if pt.hubSends && r.P(70) {
		o := Op{K: "send", S: hub.Name, N: r.R(1, 20), Sz: []int{20}, Us: 5000}
		if pt.addressed {
			o.B = "stay"
		}
		if hub.Type == "PUB" || hub.Type == "XPUB" {
			if r.P(50) { // peers leave while messages for them are queued
				g.p.Net.Buf = Pick(r, 4096, 16384, 65536)
				o.N, o.Us, o.Sz = r.R(20, 100), Pick(r, 0, 0, 500, 5000), []int{r.R(100, 20000)}
			}
		}
		g.bg(churn, "send_"+hub.Name, o)
	}
	calm := g.phase("calm", 20000, 100)
	calm.Calm = true
	calm.Settle = 6000
	if hub.Type == "PUSH" { // notices that a peer has gone when it writes
		for i := 0; i < 5; i++ {
			g.proc(calm, "flush", Op{K: "sleep", Us: i * 300000}, Op{K: "send", S: hub.Name, N: 1, Sz: []int{9}})
		}
	}
}
