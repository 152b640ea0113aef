package plan

// pattern is one way of wiring sockets around a hub.
type pattern struct {
	name       string
	hub, leaf  string
	hubSends   bool
	leafSends  bool
	max        int // most leaves
	addressed  bool
	subscribes string // "leaf" or "hub" subscribes
	sync       bool   // Send returns once the message was written
}

var patterns = []pattern{
	{"fanout", "PUSH", "PULL", true, false, 3, false, "", true},
	{"fanin", "PULL", "PUSH", false, true, 3, false, "", true},
	{"pair", "PAIR", "PAIR", true, true, 1, false, "", true},
	{"dealerrouter", "ROUTER", "DEALER", true, true, 3, true, "", true},
	{"dealers", "DEALER", "DEALER", true, true, 2, false, "", true},
	{"routers", "ROUTER", "ROUTER", true, true, 2, true, "", true},
	{"pubsub", "PUB", "SUB", true, false, 3, false, "leaf", false},
	{"subpub", "SUB", "PUB", false, true, 3, false, "hub", false},
	{"xpubsub", "XPUB", "SUB", true, false, 2, false, "leaf", false},
	{"xpubxsub", "XPUB", "XSUB", true, false, 2, false, "leaf", false},
	{"pubxsub", "PUB", "XSUB", true, false, 2, false, "leaf", false},
}

func pick(g *gb, names ...string) pattern {
	n := Pick(g.r, names...)
	for _, p := range patterns {
		if p.name == n {
			return p
		}
	}
	panic(n)
}

func subOp(s *Sock, topic string) Op {
	if s.Type == "XSUB" {
		return Op{K: "xsub", S: s.Name, A: topic, N: 1}
	}
	return Op{K: "sub", S: s.Name, A: topic}
}

// wired is a built pattern.
type wired struct {
	pattern
	hub    *Sock
	leaves []*Sock
	links  []link
	tr     string
	eps    map[*Sock]string
}

// wire creates the sockets of a pattern and connects them in a phase.
func (g *gb) wire(ph *Phase, pt pattern, n int, tr string) *wired {
	w := &wired{pattern: pt, tr: tr}
	w.hub = g.sock(pt.hub)
	for i := 0; i < n; i++ {
		w.leaves = append(w.leaves, g.sock(pt.leaf))
	}
	if pt.addressed {
		for _, l := range w.leaves {
			g.setID(l)
		}
		if pt.leaf == "ROUTER" || g.r.P(30) {
			g.setID(w.hub)
		}
	} else {
		for _, l := range w.leaves {
			if g.r.P(20) {
				g.setID(l)
			}
		}
	}
	sec := Pick(g.r, "", "", "", "null", "plain", "seal")
	w.hub.Sec = sec
	for _, l := range w.leaves {
		l.Sec = sec
	}
	hubListens := g.r.P(60)
	for _, l := range w.leaves {
		if hubListens {
			w.links = append(w.links, link{w.hub, l})
		} else {
			w.links = append(w.links, link{l, w.hub})
		}
	}
	w.eps = g.connect(ph, tr, w.links)
	return w
}

// subscribe makes the receiving side subscribe to everything, before or after
// its connection is there. An XSUB needs its connection first.
func (g *gb) subscribe(ph *Phase, w *wired, topics ...string) {
	var who []*Sock
	switch w.subscribes {
	case "leaf":
		who = w.leaves
	case "hub":
		who = []*Sock{w.hub}
	}
	for _, s := range who {
		var ops []Op
		if s.Type == "XSUB" {
			ops = append(ops, Op{K: "sleep", Us: 20000000})
		} else if g.r.P(50) {
			ops = append(ops, Op{K: "sleep", Us: g.r.R(1, 100000)})
		}
		for _, t := range topics {
			ops = append(ops, subOp(s, t))
		}
		g.proc(ph, "sub_"+s.Name, ops...)
	}
}

// receivers starts the receive loops of a wired pattern.
func (g *gb) receivers(ph *Phase, w *wired, flag int) {
	loop := func(s *Sock) {
		o := Op{K: "recv", S: s.Name, N: -1, Flag: flag}
		if g.r.P(25) {
			o.Us = g.r.R(1, 4000)
		}
		g.bg(ph, "recv_"+s.Name, o)
		if g.r.P(15) {
			g.bg(ph, "recv2_"+s.Name, o)
		}
	}
	if w.hubSends {
		for _, l := range w.leaves {
			loop(l)
		}
	}
	if w.leafSends {
		loop(w.hub)
	}
}

// lead gives the routing frame of a message from s.
func (g *gb) lead(w *wired, s *Sock) func() (string, int) {
	if s.Type != "ROUTER" {
		return nil
	}
	return func() (string, int) {
		if s != w.hub {
			return w.hub.ID, 0
		}
		return w.leaves[g.r.N(len(w.leaves))].ID, 0
	}
}

// traffic adds sending procedures to a phase.
func (g *gb) traffic(ph *Phase, w *wired, max int, reuse bool) {
	send := func(s *Sock) {
		for k := Pick(g.r, 1, 1, 2, 3); k > 0; k-- {
			ops := g.sendOps(s, g.r.R(1, max), g.lead(w, s), reuse && w.sync)
			if g.r.P(30) {
				ops = append([]Op{{K: "sleep", Us: g.r.R(1, 20000)}}, ops...)
			}
			g.proc(ph, "send_"+s.Name, ops...)
		}
	}
	if w.hubSends {
		send(w.hub)
	}
	if w.leafSends {
		for _, l := range w.leaves {
			send(l)
		}
	}
}

// chaos adds faults on the links between the given hosts to a phase.
func (g *gb) chaos(phase, n int, links []link) {
	r := g.r
	for ; n > 0; n-- {
		k := links[r.N(len(links))]
		a, b := k.d.Host, k.l.Host
		switch r.N(6) {
		case 0, 1:
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: Pick(r, "cut", "cut", "fin"), A: a, B: b, Nth: Pick(r, 0, 1, 1, 2, 3), Dir: r.N(2), Bytes: Pick(r, r.R(0, 300), r.R(150, 1500), r.R(300, 6000))})
		case 2, 3:
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "reset", A: a, B: b, Ph: phase, At: r.R(0, 60000)})
		case 4:
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "stall", A: a, B: b, Ph: phase, At: r.R(0, 40000), Dur: Pick(r, 2000, 50000, 400000)})
		case 5:
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "part", A: a, B: b, Ph: phase, At: r.R(0, 40000), Dur: Pick(r, 2000, 50000, 400000)})
		}
	}
	if r.P(30) {
		g.p.Net.DialFail = r.R(5, 40)
	}
	if r.P(15) {
		g.p.Net.AccFail = r.R(5, 30)
	}
}

// exhaust makes accepting fail for a while.
func (g *gb) exhaust(phase int, links []link) {
	r := g.r
	if len(links) == 0 || !r.P(12) {
		return
	}
	g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "emfile", A: links[r.N(len(links))].l.Host, Ph: phase, At: Pick(r, 0, 0, r.R(0, 40000)), Dur: Pick(r, 1000, 30000, 300000)})
}

func (g *gb) big() {
	// now and then one large message
	if !g.r.P(4) {
		return
	}
	for _, ph := range g.phases {
		for i := range ph.Procs {
			for j := range ph.Procs[i].Ops {
				o := &ph.Procs[i].Ops[j]
				if (o.K == "send" || o.K == "sendm") && len(o.Sz) > 0 {
					o.Sz[len(o.Sz)-1] = Pick(g.r, 70000, 200000, 1<<20+5000)
					o.N = 1
					return
				}
			}
		}
	}
}

func init() {
	gens["C01"] = genC01
	gens["C02"] = genC02
	gens["C03"] = genC03
}

// C01: whatever happens to links and schedules, a received message is one that
// was sent to this socket, whole and unmodified.
func genC01(g *gb) {
	r := g.r
	if r.P(25) {
		g.reqrepIntegrity()
		return
	}
	pt := pick(g, "fanout", "fanin", "pair", "dealerrouter", "dealers", "routers", "pubsub", "subpub", "xpubsub", "xpubxsub", "pubxsub")
	g.p.Scen = pt.name
	tr := g.transport()
	ph := g.phase("setup", 60000, 100)
	w := g.wire(ph, pt, r.R(1, pt.max), tr)
	g.subscribe(ph, w, "")
	g.receivers(ph, w, Pick(r, 0, 0, 16))
	work := ph
	if r.P(70) {
		ph.Settle = 300
		work = g.phase("work", 20000, 300)
	}
	g.traffic(work, w, 12, true)
	if r.P(55) {
		g.chaos(len(g.phases)-1, r.R(1, 4), w.links)
		g.exhaust(len(g.phases)-1, w.links)
		for _, s := range g.socks {
			s.Timeout = Pick(r, 0, 5, 30, 200)
		}
	}
	if r.P(25) { // the senders' deadline expires in the middle of a message
		for _, s := range g.socks {
			s.Timeout = Pick(r, 1, 3, 10)
		}
		k := w.links[r.N(len(w.links))]
		g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "stall", A: k.d.Host, B: k.l.Host, Ph: len(g.phases) - 1, At: r.R(0, 20000), Dur: r.R(2000, 200000)})
		g.p.Net.Buf = Pick(r, 600, 800, 1000, 2304)
	}
	if r.P(15) { // late closes
		s := g.socks[r.N(len(g.socks))]
		g.proc(work, "close", Op{K: "sleep", Us: r.R(1000, 100000)}, Op{K: "close", S: s.Name})
	}
	g.big()
	g.limit()
}

// reqrepIntegrity: request/reply patterns, replies are functions of requests.
func (g *gb) reqrepIntegrity() {
	r := g.r
	ph := g.phase("work", 30000, 300)
	scen := Pick(r, "reqrep", "reqrouter", "dealerrep")
	g.p.Scen = scen
	tr := g.transport()
	sec := Pick(r, "", "", "null", "plain", "seal")
	server, client := "REP", "REQ"
	switch scen {
	case "reqrouter":
		server = "ROUTER"
	case "dealerrep":
		client = "DEALER"
	}
	srv := g.sock(server)
	srv.Sec = sec
	var links []link
	for k := r.R(1, 3); k > 0; k-- {
		c := g.sock(client)
		c.Sec = sec
		if r.P(50) {
			g.setID(c)
		}
		links = append(links, link{srv, c})
		sz := g.sizes(3)
		if client == "DEALER" {
			g.bg(ph, "recv_"+c.Name, Op{K: "recv", S: c.Name, N: -1, Flag: Pick(r, 0, 16)})
			g.proc(ph, "send_"+c.Name, Op{K: "sleep", Us: 500000}, Op{K: Pick(r, "send", "sendm"), S: c.Name, N: r.R(1, 6), Sz: sz, Flag: 2, B: Pick(r, "", "", "envelope")})
		} else {
			g.proc(ph, "req_"+c.Name, Op{K: "sleep", Us: 500000}, Op{K: "req", S: c.Name, N: r.R(1, 6), M: 3, Sz: sz, Flag: Pick(r, 0, 8)})
		}
	}
	g.connect(ph, tr, links)
	sz := g.sizes(3)
	if server == "REP" {
		g.bg(ph, "rep", Op{K: "rep", S: srv.Name, Sz: sz, Us: Pick(r, 0, 0, 500), Flag: Pick(r, 0, 8)})
	} else {
		g.bg(ph, "echo", Op{K: "echo", S: srv.Name, Sz: sz, Flag: 2})
	}
	if r.P(50) {
		g.chaos(0, r.R(1, 3), links)
		g.exhaust(0, links)
		for i := range g.p.Net.Faults {
			g.p.Net.Faults[i].At += 500000
		}
		for _, s := range g.socks {
			s.Timeout = Pick(r, 0, 50, 300)
		}
	}
	g.limit()
}

// C02: on a connection that stays up, every message sent is received exactly
// once and in order, however threads are scheduled and bytes are delayed.
func genC02(g *gb) {
	r := g.r
	pt := pick(g, "fanout", "fanin", "pair", "dealerrouter", "dealers", "routers", "pubsub", "subpub", "xpubsub", "xpubxsub", "pubxsub")
	g.p.Scen = pt.name
	tr := g.transport()
	ph := g.phase("setup", 60000, 100)
	ph.Settle = 3000
	w := g.wire(ph, pt, r.R(1, pt.max), tr)
	g.subscribe(ph, w, "")
	work := g.phase("work", 120000, 1000)
	work.Settle = 2000
	recvAt := ph
	if r.P(30) { // receivers turn up late: back-pressure
		recvAt = work
	}
	g.receivers(recvAt, w, 0)
	if recvAt == work && r.P(60) {
		for i := range work.Procs {
			work.Procs[i].Ops = append([]Op{{K: "sleep", Us: r.R(1000, 200000)}}, work.Procs[i].Ops...)
		}
	}
	g.traffic(work, w, Pick(r, 8, 20, 40), true)
	if r.P(25) { // links that stall but do not break
		for k := r.R(1, 2); k > 0; k-- {
			l := w.links[r.N(len(w.links))]
			g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "stall", A: l.d.Host, B: l.l.Host, Ph: 1, At: r.R(0, 40000), Dur: Pick(r, 2000, 50000, 900000)})
		}
	}
	// unidirectional synchronous senders may close as soon as Send returned
	if w.sync && !(w.hubSends && w.leafSends) && r.P(35) {
		s := w.hub
		if w.leafSends {
			s = w.leaves[r.N(len(w.leaves))]
		}
		var mine []int
		for i := range work.Procs {
			for _, o := range work.Procs[i].Ops {
				if o.S == s.Name && (o.K == "send" || o.K == "sendm") {
					mine = append(mine, i)
					break
				}
			}
		}
		for _, i := range mine {
			work.Procs[i].Ops = append(work.Procs[i].Ops, Op{K: "signal", A: "sent"})
		}
		g.proc(work, "close_"+s.Name, Op{K: "await", A: "sent", N: len(mine), Us: 100000000}, Op{K: "close", S: s.Name})
	} else if r.P(30) { // somebody joins in the middle
		j := g.sock(pt.leaf)
		j.Sec = w.hub.Sec
		if pt.addressed {
			g.setID(j)
		}
		if l, ok := w.eps[w.hub]; ok && !pt.addressed && pt.hubSends {
			ops := []Op{{K: "sleep", Us: r.R(1, 60000)}, {K: "dial", S: j.Name, A: l}}
			if pt.subscribes == "leaf" {
				if j.Type == "XSUB" {
					ops = append(ops, subOp(j, ""))
				} else {
					ops = append([]Op{subOp(j, "")}, ops...)
				}
			}
			g.proc(work, "join", ops...)
			g.bg(work, "recv_"+j.Name, Op{K: "recv", S: j.Name, N: -1})
			g.p.P["joiner"] = len(g.socks)
		}
	}
	g.big()
	g.limit()
}

// C03: faults on one link do not affect the traffic of another.
func genC03(g *gb) {
	r := g.r
	if r.P(20) {
		g.reqrepIsolation()
		return
	}
	pt := pick(g, "fanout", "fanin", "dealerrouter", "dealers", "pubsub", "subpub", "xpubsub", "routers")
	if pt.max < 2 {
		pt.max = 2
	}
	g.p.Scen = pt.name
	tr := Pick(r, "tcp", "tcp", "tcp", "ipc")
	ph := g.phase("setup", 60000, 100)
	ph.Settle = 3000
	w := g.wire(ph, pt, r.R(2, pt.max), tr)
	g.subscribe(ph, w, "")
	g.receivers(ph, w, 0)
	work := g.phase("work", 120000, 1000)
	work.Settle = 2000
	g.traffic(work, w, Pick(r, 10, 25), false)
	nf := r.R(1, len(w.leaves)-1)
	bad := w.links[:nf]
	g.p.P["faulty"] = nf // the first nf leaves have faulty links
	n0 := len(g.p.Net.Faults)
	g.chaos(1, r.R(1, 4), bad)
	for i := n0; i < len(g.p.Net.Faults); i++ {
		f := &g.p.Net.Faults[i]
		if f.Kind == "cut" || f.Kind == "fin" { // not in the first handshake
			f.Bytes = r.R(600, 4000)
			f.Nth = 1
		}
		if (f.Kind == "stall" || f.Kind == "part") && r.P(30) {
			f.Dur = -1
		}
	}
	g.p.Net.DialFail, g.p.Net.AccFail = 0, 0
	for _, s := range g.socks {
		s.Timeout = Pick(r, 20, 100, 400)
	}
	if r.P(40) { // no thread stalls, long deadlines: even sends that report an error reach the healthy peers
		g.p.Sched.StallPer = 0
		for _, s := range g.socks {
			s.Timeout = Pick(r, 100, 400)
		}
	}
	switch r.N(4) {
	case 0: // a faulty peer goes away for good, or is replaced
		l := w.leaves[r.N(nf)]
		g.proc(work, "crash", Op{K: "sleep", Us: r.R(1, 60000)}, Op{K: "crash", A: l.Host})
	case 1: // a faulty peer just closes
		l := w.leaves[r.N(nf)]
		g.proc(work, "close_"+l.Name, Op{K: "sleep", Us: r.R(1, 60000)}, Op{K: "close", S: l.Name})
	}
	g.limit()
}

// reqrepIsolation: a server answers its healthy clients although others do not
// read their replies.
func (g *gb) reqrepIsolation() {
	r := g.r
	tr := Pick(r, "tcp", "tcp", "tcp", "ipc")
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 3000
	srv := g.sock(Pick(r, "REP", "REP", "ROUTER"))
	g.p.Scen = "reqrep"
	g.p.Sched.StallPer = 0
	g.p.Net.LatMax = g.p.Net.LatMin + Pick(r, 0, 100, 1000)
	g.p.Net.Chunk, g.p.Net.Seg = 0, 0
	srv.Timeout = Pick(r, 20, 50)
	n := r.R(2, 4)
	nf := r.R(1, n-1)
	g.p.P["faulty"] = nf
	var links []link
	for k := 0; k < n; k++ {
		c := g.sock("REQ")
		if k < nf && r.P(50) {
			c.Type = "DEALER"
		}
		if r.P(70) {
			links = append(links, link{srv, c})
		} else {
			links = append(links, link{c, srv})
		}
	}
	g.p.Net.Buf = Pick(r, 1024, 2304, 4096)
	g.connect(setup, tr, links)
	sz := []int{r.R(8, 40), r.R(100, 2*g.p.Net.Buf)}
	if srv.Type == "REP" {
		g.bg(setup, "rep", Op{K: "rep", S: srv.Name, Sz: sz})
	} else {
		g.bg(setup, "echo", Op{K: "echo", S: srv.Name, Sz: sz, Flag: 2})
	}
	work := g.phase("work", 120000, 1000)
	work.Settle = 2000
	for i, c := range g.socks[1:] {
		at := r.R(0, 20000)
		if i >= nf {
			g.proc(work, "ask_"+c.Name, Op{K: "sleep", Us: at}, Op{K: "req", S: c.Name, N: r.R(1, 8), M: 0, Sz: []int{r.R(8, 60)}, Us: Pick(r, 0, 3000, 20000)})
			continue
		}
		if c.Type == "DEALER" {
			g.bg(work, "ask_"+c.Name, Op{K: "sleep", Us: at}, Op{K: "send", S: c.Name, N: r.R(1, 10), Flag: 2, Sz: []int{r.R(8, 40)}})
		} else {
			g.bg(work, "ask_"+c.Name, Op{K: "sleep", Us: at}, Op{K: "req", S: c.Name, N: r.R(1, 8), M: 3, Sz: []int{r.R(8, 40)}})
		}
		f := Fault{Kind: Pick(r, "stall", "stall", "stall", "part"), A: c.Host, B: srv.Host, Ph: 1, At: Pick(r, r.R(0, 30000), at+r.R(0, 3000)), Dur: Pick(r, -1, -1, r.R(1000, 900000))}
		if links[i].l == c && r.P(30) {
			f = Fault{Kind: "reset", A: srv.Host, B: c.Host, Ph: 1, At: r.R(0, 30000)}
		}
		g.p.Net.Faults = append(g.p.Net.Faults, f)
		if r.P(20) {
			g.proc(work, "gone", Op{K: "sleep", Us: r.R(1, 60000)}, Op{K: "crash", A: c.Host})
		}
	}
}
