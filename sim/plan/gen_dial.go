package plan

import "fmt"

func init() {
	gens["C12"] = genC12
}

// C12: Dial tries again as often and as long as configured; a lost connection
// is re-established, once, to the endpoint it was dialed to.
func genC12(g *gb) {
	r := g.r
	g.p.Sched.StallPer = 0
	g.p.Net.LatMin = 10
	g.p.Net.LatMax = Pick(r, 10, 200, 3000)
	g.p.P["drain"] = 500
	g.p.Net.DialErr = r.P(50)
	switch r.N(10) {
	case 0, 1, 2:
		g.attempts()
	case 3, 4, 5:
		g.flaky()
	default:
		g.relink()
	}
	g.limit()
}

func dialKnobs(s *Sock, r *Rng) {
	s.Retry = Pick(r, 0, 5, 20, 100, r.R(1, 300))
	s.MaxRet = Pick(r, 0, -1, -2, 1, 2, 3, 6)
}

// Retries and RetryMs are what a socket is configured to do.
func (s *Sock) Retries() int {
	switch s.MaxRet {
	case 0:
		return 10
	case -2:
		return 0
	}
	return s.MaxRet
}

func (s *Sock) RetryMs() int {
	if s.Retry == 0 {
		return 250
	}
	return s.Retry
}

// attempts: the listener comes before, during or after the attempts, or never.
func (g *gb) attempts() {
	r := g.r
	g.p.Scen = "attempts"
	tr := g.transport()
	pt := pick(g, "fanout", "fanin", "pair", "dealerrouter", "dealers", "pubsub", "subpub")
	work := g.phase("work", 60000, 500)
	work.Settle = 3000
	a, b := g.sock(pt.hub), g.sock(pt.leaf)
	if r.P(50) {
		a, b = b, a
	}
	l := a
	n := r.R(1, 2)
	ds := []*Sock{b}
	if n == 2 && b.Type != "PAIR" {
		ds = append(ds, g.sock(b.Type))
	}
	longest := 0
	for _, d := range ds {
		dialKnobs(d, r)
		if k := d.Retries(); k >= 0 {
			longest = max(longest, (k+1)*d.RetryMs())
		} else {
			longest = max(longest, 5*d.RetryMs())
		}
	}
	ep := g.ep(tr, l)
	if r.P(75) {
		at := r.R(0, longest*1000+100000)
		if r.P(15) {
			at = 0
		}
		g.proc(work, "listen", Op{K: "sleep", Us: at}, Op{K: "listen", S: l.Name, A: ep})
	}
	for _, d := range ds {
		g.bg(work, "dial_"+d.Name, Op{K: "sleep", Us: r.R(0, 100000)}, Op{K: "dial", S: d.Name, A: ep})
	}
	g.proc(work, "clock", Op{K: "sleep", Us: (longest + 3000) * 1000})
}

// relink: connections of sockets of the library are lost and come back.
func (g *gb) relink() {
	r := g.r
	g.p.Scen = "relink"
	tr := Pick(r, "tcp", "tcp", "tcp", "ipc")
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 3000
	reqrep := r.P(20)
	var w *wired
	if reqrep {
		w = &wired{pattern: pattern{name: "reqrep", max: 3}}
		w.hub = g.sock(Pick(r, "REP", "REP", "ROUTER"))
		hubListens := r.P(70)
		for k := r.R(1, 3); k > 0; k-- {
			c := g.sock("REQ")
			g.setID(c)
			w.leaves = append(w.leaves, c)
			if hubListens {
				w.links = append(w.links, link{w.hub, c})
			} else {
				w.links = append(w.links, link{c, w.hub})
			}
		}
		w.eps = g.connect(setup, tr, w.links)
		o := Op{K: "rep", S: w.hub.Name, Sz: g.sizes(2)}
		if w.hub.Type == "ROUTER" {
			o.K, o.Flag = "echo", 2
		}
		g.bg(setup, "serve", o)
	} else {
		pt := pick(g, "fanout", "fanin", "pair", "dealerrouter", "dealers", "routers", "pubsub", "subpub", "xpubsub")
		w = g.wire(setup, pt, r.R(1, pt.max), tr)
		g.subscribe(setup, w, "")
		g.receivers(setup, w, 0)
	}
	listenFirst(setup) // the first Dial must not run out of attempts
	dialers := map[*Sock]bool{}
	for _, l := range w.links {
		dialers[l.d] = true
	}
	for _, s := range g.socks {
		if dialers[s] {
			s.Retry = Pick(r, 5, 20, 100, 250)
			s.MaxRet = -1
			if r.P(15) {
				s.Recon = 2
			} else if r.P(20) {
				s.Recon = 1
			}
		}
	}
	chaos := g.phase("chaos", 60000, 200)
	if !reqrep {
		g.traffic(chaos, w, 6, false)
		for i := range chaos.Procs {
			chaos.Procs[i].Bg = true
		}
	} else {
		for _, c := range w.leaves {
			g.bg(chaos, "ask_"+c.Name, Op{K: "req", S: c.Name, N: r.R(1, 5), M: 3, Sz: []int{30}, Us: Pick(r, 0, 5000)}, Op{K: "signal", A: "chaos_" + c.Name})
		}
		for _, s := range g.socks {
			s.Timeout = 200
		}
	}
	losses := 0
	for k := r.R(1, 4); k > 0; k-- {
		l := w.links[r.N(len(w.links))]
		switch r.N(5) {
		case 0, 1, 2:
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "reset", A: l.d.Host, B: l.l.Host, Ph: 1, At: Pick(r, 0, r.R(0, 200000))})
		case 3: // in the middle of a handshake of a later connection, or later
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: Pick(r, "cut", "fin"), A: l.d.Host, B: l.l.Host, Nth: r.R(2, 4), Dir: r.N(2), Bytes: r.R(0, 300)})
		case 4:
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: Pick(r, "cut", "fin"), A: l.d.Host, B: l.l.Host, Nth: r.R(1, 3), Dir: r.N(2), Bytes: r.R(600, 1500)})
		}
		losses++
	}
	if r.P(30) {
		g.p.Net.DialFail = 0 // the first Dial must not suffer; see P["faildial"]
		g.p.P["faildial"] = r.R(10, 60)
	}
	if r.P(25) { // out of file descriptors, for a while
		g.p.Net.AccFail = r.R(5, 60)
	}
	// a listener goes away and comes back, or does not
	ls := []*Sock{}
	for _, s := range g.socks {
		if w.eps[s] != "" {
			ls = append(ls, s)
		}
	}
	if r.P(45) {
		v := ls[r.N(len(ls))]
		gone := r.P(35)
		ops := []Op{{K: "sleep", Us: r.R(1000, 100000)}}
		if r.P(60) {
			ops = append(ops, Op{K: "crash", A: v.Host})
			g.p.P["crashclose"] = 1
		} else {
			ops = append(ops, Op{K: "close", S: v.Name})
		}
		down := Pick(r, 1000, 50000, r.R(1000, 1500000))
		if gone {
			g.p.P["gone"] = 1 + indexOf(g.socks, v)
			// how often a dialer tries is only clean-cut without other faults
			g.p.Net.Faults = nil
			g.p.Net.AccFail = 0
			delete(g.p.P, "faildial")
			for _, l := range w.links {
				if l.l == v {
					l.d.MaxRet = Pick(r, 0, -2, 1, 2, 3, 6, -1)
				}
			}
		} else {
			ops = append(ops, Op{K: "sleep", Us: down}, Op{K: "new", S: v.Name})
			if v.Type == "SUB" {
				ops = append(ops, Op{K: "sub", S: v.Name, A: ""})
			}
			ops = append(ops, Op{K: "listen", S: v.Name, A: w.eps[v]}, Op{K: "signal", A: "up"})
			o := Op{K: "recv", S: v.Name, N: -1}
			if v.Type == "REP" {
				o = Op{K: "rep", S: v.Name, Sz: []int{20}}
			} else if reqrep && v.Type == "ROUTER" {
				o = Op{K: "echo", S: v.Name, Sz: []int{20}, Flag: 2}
			}
			if v.Type != "PUSH" && v.Type != "PUB" && v.Type != "XPUB" && v.Type != "REQ" {
				g.bg(chaos, "again_"+v.Name, Op{K: "await", A: "up", N: 1, Us: 20000000}, o)
			}
		}
		g.proc(chaos, "bounce", ops...)
	}
	g.proc(chaos, "clock", Op{K: "sleep", Us: 300000})
	heal := g.phase("heal", 60000, 200)
	heal.Calm = true
	heal.Settle = 3000
	poke := func(s *Sock, n int) (ops []Op) {
		for i := 0; i < n; i++ {
			for _, p := range w.leaves {
				o := Op{K: "send", S: s.Name, N: 1, Sz: []int{g.r.R(8, 40)}}
				if s.Type == "ROUTER" {
					o.B = p.ID
					if s != w.hub {
						o.B = w.hub.ID
					}
				}
				ops = append(ops, o)
				if s != w.hub || s.Type != "ROUTER" {
					break
				}
			}
			ops = append(ops, Op{K: "sleep", Us: 100000})
		}
		return
	}
	talk := func(ph *Phase, n int) {
		if reqrep {
			for _, c := range w.leaves {
				after := map[string]string{"poke": "chaos_", "calm": "poke_"}[ph.Name]
				g.bg(ph, "ask_"+c.Name, Op{K: "await", A: after + c.Name, N: 1, Us: 60000000}, Op{K: "req", S: c.Name, N: n, M: 10, Sz: []int{30}},
					Op{K: "signal", A: ph.Name + "_" + c.Name})
			}
			g.proc(ph, "clock", Op{K: "sleep", Us: 1000000})
			return
		}
		for _, s := range append([]*Sock{w.hub}, w.leaves...) {
			if s == w.hub && !w.hubSends || s != w.hub && !w.leafSends {
				continue
			}
			g.bg(ph, "talk_"+s.Name, poke(s, n)...)
		}
		g.proc(ph, "clock", Op{K: "sleep", Us: n*100000 + 200000})
	}
	ph := g.phase("poke", 60000, 200) // sockets that only write notice now
	talk(ph, 4)
	ph.Settle = 4000
	calm := g.phase("calm", 60000, 300)
	talk(calm, r.R(1, 3))
	calm.Settle = 500
}

// listenFirst makes every Dial of a phase wait for the Listen it needs.
func listenFirst(ph *Phase) {
	for i := range ph.Procs {
		p := &ph.Procs[i]
		switch o := p.Ops[len(p.Ops)-1]; o.K {
		case "listen":
			p.Ops = append(p.Ops, Op{K: "signal", A: "on_" + o.A})
		case "dial":
			p.Ops = append([]Op{{K: "await", A: "on_" + o.A, N: 1, Us: 10000000}}, p.Ops...)
		}
	}
}

func indexOf(l []*Sock, s *Sock) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return -1
}

// flaky: a listener that drops connections, also while they are being set up.
func (g *gb) flaky() {
	r := g.r
	g.p.Scen = "flaky"
	real := g.sock(Pick(r, "PULL", "PAIR", "DEALER", "DEALER", "ROUTER", "REP", "PUB", "SUB", "SUB", "XPUB"))
	real.Sec = Pick(r, "", "", "null", "plain")
	real.Retry = Pick(r, 5, 20, 100)
	real.MaxRet = Pick(r, -1, -1, 0, -2, 1, 2, 5)
	if r.P(12) {
		real.Recon = 2
	}
	tr := Pick(r, "tcp", "tcp", "ipc")
	setup := g.phase("setup", 60000, 100)
	work := g.phase("work", 60000, 500)
	work.Settle = 3000
	switch real.Type {
	case "PUB", "XPUB":
	default:
		g.bg(setup, "recv_"+real.Name, Op{K: "recv", S: real.Name, N: -1})
	}
	if real.Type == "SUB" {
		g.proc(setup, "sub", Op{K: "sub", S: real.Name, A: "t"})
	}
	kind := Pick(r, compatible[real.Type]...)
	n := r.R(1, 2)
	if real.Type == "PAIR" {
		n = 1
	}
	for k := 0; k < n; k++ {
		p := g.raw(kind, real.Sec)
		if real.Type == "ROUTER" {
			g.setID(p)
		}
		ep := g.ep(tr, p)
		g.proc(setup, "dial_"+p.Name, Op{K: "sleep", Us: r.R(500, 3000)}, Op{K: "dial", S: real.Name, A: ep})
		g.proc(setup, "first_"+p.Name, Op{K: "rawlisten", S: p.Name, A: ep}, Op{K: "rawaccept", S: p.Name, Us: 30000000}, g.hs(p))
		if k > 0 {
			continue // this one stays
		}
		ops := []Op{{K: "sleep", Us: r.R(500000, 600000)}, {K: "rawclose", S: p.Name}}
		rounds := r.R(1, 3)
		g.p.P["rounds"] = rounds
		for i := 0; i < rounds; i++ {
			bad := r.N(4)
			if i < rounds-1 && r.P(30) {
				bad = r.N(10)
			}
			g.p.P[fmt.Sprint("bad", i)] = bad
			for j := 0; j < bad; j++ { // broken off before it stands
				ops = append(ops, Op{K: "rawaccept", S: p.Name, Us: 3000000})
				parts := ZHandshake(p, true)
				var all []byte
				for _, b := range parts {
					all = append(all, b...)
				}
				switch r.N(4) {
				case 0:
				case 1:
					ops = append(ops, Op{K: "rawbytes", S: p.Name, A: Hex(all[:r.R(1, 63)])})
				case 2:
					ops = append(ops, Op{K: "rawbytes", S: p.Name, A: Hex(parts[0])}, Op{K: "sleep", Us: r.R(0, 5000)})
				case 3:
					b := append([]byte{}, all[:64]...)
					b[r.N(2)*9] ^= 0x55
					ops = append(ops, Op{K: "rawbytes", S: p.Name, A: Hex(b)}, Op{K: "sleep", Us: 50000})
				}
				ops = append(ops, Op{K: "rawclose", S: p.Name})
			}
			hs := g.hs(p)
			hs.Us = 3000000
			ops = append(ops, Op{K: "rawaccept", S: p.Name, Us: 3000000}, hs)
			if i < rounds-1 {
				ops = append(ops, Op{K: "sleep", Us: Pick(r, 100000, 200000)}, Op{K: "rawclose", S: p.Name})
			}
		}
		g.proc(work, "flaky_"+p.Name, ops...)
	}
	g.proc(work, "clock", Op{K: "sleep", Us: 4000000})
	calm := g.phase("calm", 60000, 300)
	for _, p := range g.socks[1:] {
		o := Op{K: "rawmsg", S: p.Name, N: r.R(1, 3), Sz: []int{r.R(8, 60)}}
		switch kind {
		case "PUB", "XPUB":
			o.B = "t"
		case "SUB", "XSUB", "PULL":
			continue
		case "REQ", "REP":
			o.Flag |= 2
			if real.Type == "REP" {
				continue
			}
		case "DEALER":
			if real.Type == "REP" {
				continue
			}
		}
		g.proc(calm, "talk_"+p.Name, o)
	}
	calm.Settle = 500
}
