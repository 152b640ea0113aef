package plan

import "fmt"

func init() {
	gens["C14"] = genC14
}

// C14: networking.Transport.
func genC14(g *gb) {
	g.gentle()
	switch g.r.N(10) {
	case 0, 1, 2, 3:
		g.mesh()
	case 4, 5, 6:
		g.nodeLife()
	default:
		g.nodeFlap()
	}
	g.limit()
}

func (g *gb) node(host string, port int) *Sock {
	n := len(g.socks) + 1
	s := &Sock{Name: fmt.Sprintf("node%d", n), Type: "NODE", Host: host, Port: port, MaxRet: Pick(g.r, 0, 1, 3, 5), Retry: Pick(g.r, 0, 20, 100)}
	g.socks = append(g.socks, s)
	return s
}

func (g *gb) msgSz() []int {
	return []int{Pick(g.r, 0, 8, g.r.R(1, 60)), Pick(g.r, 0, g.r.R(0, 100), g.r.R(0, 600))}
}

var msgTypes = []string{"a", "vote", "", "block proposal \u00e9\"<"}

// handlers registers handlers; never two changes of the same kind at once.
func (g *gb) handlers(ph *Phase, n *Sock, reply bool) (types []string) {
	var ops []Op
	for i, t := range msgTypes {
		if g.r.P(75) {
			o := Op{K: "t.handle", S: n.Name, A: t, N: i + 1, Us: Pick(g.r, 0, 0, g.r.R(0, 3000), 30000000)}
			if reply && g.r.P(40) {
				o.Us, o.Flag = 0, 1
			}
			ops = append(ops, o)
			types = append(types, t)
		}
	}
	ops = append(ops, Op{K: "t.start", S: n.Name}, Op{K: "signal", A: "up_" + n.Name})
	g.proc(ph, "up_"+n.Name, append([]Op{{K: "sleep", Us: Pick(g.r, 0, g.r.R(0, 50000))}}, ops...)...)
	return
}

// nodeTraffic: what node n sends in phase ph.
func (g *gb) nodeTraffic(ph *Phase, n *Sock, to []*Sock, max int) {
	r := g.r
	for k := r.R(1, 2); k > 0; k-- {
		var ops []Op
		for c := r.R(1, 4); c > 0; c-- {
			o := Op{K: "t.bcast", S: n.Name, A: msgTypes[r.N(len(msgTypes))], N: r.R(1, max), Sz: g.msgSz(), Us: Pick(r, 0, 0, r.R(0, 3000))}
			if len(to) > 0 && r.P(60) {
				o.K, o.B = "t.send", to[r.N(len(to))].Name
			}
			if r.P(25) {
				o.Flag |= 1
			}
			if r.P(5) {
				o.Flag |= 4
			}
			if r.P(25) {
				o.Flag |= 8
			}
			ops = append(ops, o)
			if r.P(20) {
				ops = append(ops, Op{K: "sleep", Us: r.R(0, 20000)})
			}
		}
		switch ph.Name {
		case "first", "calm":
			g.proc(ph, "talk_"+n.Name, ops...)
		default:
			if g.p.Scen == "mesh" && ph.Name == "work" {
				g.proc(ph, "talk_"+n.Name, ops...)
			} else {
				g.bg(ph, "talk_"+n.Name, ops...)
			}
		}
	}
}

func (g *gb) mesh() {
	r := g.r
	g.p.Scen = "mesh"
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 3000
	same := r.P(25)
	n := r.R(2, 4)
	var ns []*Sock
	base := Pick(r, 5000, 20000)
	for k := 0; k < n; k++ {
		h := fmt.Sprintf("10.0.0.%d", k+1)
		port := base
		if same {
			h, port = "10.0.0.1", base+10*k
		}
		ns = append(ns, g.node(h, port))
	}
	for _, s := range ns {
		g.handlers(setup, s, r.P(50))
	}
	conns := map[*Sock][]*Sock{}
	for _, y := range ns {
		var ops []Op
		for _, x := range ns {
			if x == y && r.P(85) || r.P(30) {
				continue
			}
			conns[y] = append(conns[y], x)
			o := Op{K: "t.conn", S: y.Name, A: x.Name}
			if same && r.P(50) {
				o.Flag = 1
			}
			// ConnectPeer gives up after some 2.5 s
			ops = append(ops, Op{K: "await", A: "up_" + x.Name, N: 1, Us: 10000000}, o)
			if r.P(20) { // twice, one after the other or at once
				if r.P(50) {
					ops = append(ops, o)
				} else {
					g.proc(setup, "again_"+y.Name, Op{K: "await", A: "up_" + y.Name, N: 1, Us: 10000000}, Op{K: "await", A: "up_" + x.Name, N: 1, Us: 10000000}, o,
						Op{K: "t.send", S: y.Name, A: msgTypes[0], B: x.Name, N: 1, Sz: g.msgSz(), Flag: Pick(r, 0, 1)}, Op{K: "t.peers", S: y.Name})
				}
			}
		}
		g.proc(setup, "conn_"+y.Name, append([]Op{{K: "await", A: "up_" + y.Name, N: 1, Us: 10000000}}, ops...)...)
	}
	work := g.phase("work", 120000, 300)
	work.Settle = 4000
	for _, s := range ns {
		if r.P(85) {
			g.nodeTraffic(work, s, Pick(r, conns[s], conns[s], ns), 6)
		}
		if r.P(30) {
			g.bg(work, "look_"+s.Name, Op{K: "t.peers", S: s.Name}, Op{K: "sleep", Us: r.R(0, 30000)}, Op{K: "t.metrics", S: s.Name}, Op{K: "t.peers", S: s.Name})
		}
		if r.P(40) { // handlers come and go
			var ops []Op
			t := msgTypes[r.N(len(msgTypes))]
			for k := r.R(1, 4); k > 0; k-- {
				ops = append(ops, Op{K: "sleep", Us: r.R(0, 10000)})
				if r.P(50) {
					ops = append(ops, Op{K: "t.handle", S: s.Name, A: t, N: 10 + k})
				} else {
					ops = append(ops, Op{K: "t.unhandle", S: s.Name, A: t})
				}
			}
			g.bg(work, "rehandle_"+s.Name, ops...)
		}
		if r.P(25) && len(conns[s]) > 0 { // peers are dropped and found again
			var ops []Op
			for k := r.R(1, 3); k > 0; k-- {
				x := conns[s][r.N(len(conns[s]))]
				ops = append(ops, Op{K: "sleep", Us: r.R(0, 20000)}, Op{K: "t.disc", S: s.Name, A: x.Name})
				if r.P(60) {
					ops = append(ops, Op{K: "sleep", Us: Pick(r, 0, r.R(0, 20000))}, Op{K: "t.conn", S: s.Name, A: x.Name})
					if r.P(30) {
						g.bg(work, "drop2_"+s.Name, Op{K: "sleep", Us: r.R(0, 40000)}, Op{K: "t.conn", S: s.Name, A: x.Name},
							Op{K: "t.peers", S: s.Name}, Op{K: "t.send", S: s.Name, A: msgTypes[0], B: x.Name, N: 1, Sz: g.msgSz()})
					}
				}
			}
			g.bg(work, "drop_"+s.Name, ops...)
		}
	}
	if !same && n > 2 && r.P(35) { // one node is slow for a while
		s := ns[r.N(n)]
		g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "stall", A: s.Host, B: Pick(r, "", "", ns[r.N(n)].Host), Ph: 1, At: r.R(0, 5000), Dur: r.R(2500000, 6000000)})
		work.Settle = 8000
	}
	if r.P(35) { // somebody tries to connect to what is not there, or hangs
		s := ns[r.N(n)]
		if r.P(50) {
			p := g.raw("PUB", "")
			p.Port = 7000
			g.proc(setup, "silent", Op{K: "rawlisten", S: p.Name, A: "tcp://" + p.Host + ":7000"})
			for k := r.R(1, 2); k > 0; k-- {
				g.bg(work, "hang_"+s.Name, Op{K: "sleep", Us: r.R(0, 5000)}, Op{K: "t.conn", S: s.Name, A: p.Name})
			}
			if r.P(30) {
				g.bg(work, "giveup_"+s.Name, Op{K: "sleep", Us: 500000}, Op{K: "t.disc", S: s.Name, A: p.Name})
			}
		} else {
			g.bg(work, "void_"+s.Name, Op{K: "sleep", Us: r.R(0, 5000)}, Op{K: "t.conn", S: s.Name, A: Pick(r, "nobody", ns[r.N(n)].Name), N: 9})
		}
	}
	if r.P(35) { // somebody sends what no node would
		s := ns[r.N(n)]
		p := g.raw("DEALER", "")
		if r.P(50) {
			g.setID(p)
		}
		g.proc(setup, "dial_"+p.Name, Op{K: "await", A: "up_" + s.Name, N: 1, Us: 10000000},
			Op{K: "rawdial", S: p.Name, A: fmt.Sprintf("tcp://%s:%d", s.Host, s.Port+1000)}, g.hs(p))
		var ops []Op
		bad := 0
		for k := r.R(1, 5); k > 0; k-- {
			b := Pick(r, "", "{", "[]", "\x00\xff", "{\"type\":1}", "{\"height\":-1}", "{\"height\":1e30}", "\"x\"", "{}x", "{\"session_id\":\"!\"}")
			fr := [][]byte{[]byte(b)}
			if r.P(30) {
				fr = [][]byte{[]byte("{}"), {}, []byte(b)}
			}
			ops = append(ops, Op{K: "rawbytes", S: p.Name, A: Hex(ZMsg(fr, false))}, Op{K: "sleep", Us: r.R(0, 2000)})
			bad++
		}
		g.p.P["bad_"+s.Name] = bad
		g.bg(work, "garbage_"+p.Name, ops...)
	}
	calm := g.phase("calm", 120000, 300)
	calm.Calm = true
	calm.Settle = 3000
	for _, s := range ns {
		g.nodeTraffic(calm, s, conns[s], 4)
	}
	look := g.phase("look", 10000, 50)
	for _, s := range ns {
		g.proc(look, "look_"+s.Name, Op{K: "t.metrics", S: s.Name}, Op{K: "t.peers", S: s.Name})
	}
	g.nodeEnd(ns)
}

// nodeEnd stops some of the nodes.
func (g *gb) nodeEnd(ns []*Sock) {
	r := g.r
	end := g.phase("end", 20000, 100)
	end.Settle = 2500
	for _, s := range ns {
		if r.P(50) {
			continue
		}
		for k := r.R(1, 2); k > 0; k-- {
			g.bg(end, "stop_"+s.Name, Op{K: "sleep", Us: r.R(0, 3000)}, Op{K: Pick(r, "t.stop", "t.stop", "t.cancel"), S: s.Name})
		}
		if r.P(50) {
			g.nodeTraffic(end, s, ns, 3)
		}
	}
	after := g.phase("after", 10000, 100)
	for _, s := range ns {
		g.bg(after, "late_"+s.Name, Op{K: "t.bcast", S: s.Name, Sz: g.msgSz()}, Op{K: "t.peers", S: s.Name}, Op{K: "t.conn", S: s.Name, A: ns[0].Name}, Op{K: "t.disc", S: s.Name, A: ns[0].Name})
	}
}

// nodeLife: nodes start, fail to start, stop and start again at the same place.
func (g *gb) nodeLife() {
	r := g.r
	g.p.Scen = "life"
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 3000
	a, b := g.node("10.0.0.1", 5000), g.node("10.0.0.2", 5000)
	ns := []*Sock{a, b}
	g.handlers(setup, b, true)
	occupied := r.P(40)
	if occupied { // somebody else has one of its ports
		o := g.sock("PULL")
		o.Host = a.Host
		port := Pick(r, 5000, 6000)
		ops := []Op{{K: "listen", S: o.Name, A: fmt.Sprintf("tcp://%s:%d", o.Host, port)}, {K: "t.start", S: a.Name}}
		if r.P(30) {
			ops = append(ops, Op{K: "t.start", S: a.Name})
		}
		ops = append(ops, Op{K: "close", S: o.Name})
		switch r.N(3) {
		case 0:
			ops = append(ops, Op{K: "t.stop", S: a.Name}, Op{K: "t.new", S: a.Name})
		case 1:
			ops = append(ops, Op{K: "t.new", S: a.Name}) // without Stop: nothing may be in the way
		}
		for i, t := range msgTypes[:2] {
			ops = append(ops, Op{K: "t.handle", S: a.Name, A: t, N: i + 1})
		}
		ops = append(ops, Op{K: "t.start", S: a.Name}, Op{K: "signal", A: "up_" + a.Name})
		g.proc(setup, "up_"+a.Name, ops...)
	} else {
		g.handlers(setup, a, true)
	}
	if r.P(25) { // started twice
		g.proc(setup, "twice_"+a.Name, Op{K: "await", A: "up_" + a.Name, N: 1, Us: 10000000}, Op{K: "sleep", Us: 100}, Op{K: "t.start", S: a.Name})
	}
	up := []Op{{K: "await", A: "up_" + a.Name, N: 1, Us: 10000000}, {K: "await", A: "up_" + b.Name, N: 1, Us: 10000000}}
	g.proc(setup, "conn_a", append(up, Op{K: "t.conn", S: a.Name, A: b.Name})...)
	g.proc(setup, "conn_b", append(up, Op{K: "t.conn", S: b.Name, A: a.Name})...)
	first := g.phase("first", 60000, 200)
	first.Settle = 1000
	g.nodeTraffic(first, a, []*Sock{b}, 4)
	g.nodeTraffic(first, b, []*Sock{a}, 4)
	if r.P(30) { // a peer that stalls must not keep Stop from returning
		g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "stall", A: a.Host, B: b.Host, Ph: 2, At: 0, Dur: 60000000})
	}
	for k, rounds := 0, r.R(1, 2); k < rounds; k++ {
		work := g.phase("work", 60000, 100)
		work.Settle = 2500
		g.nodeTraffic(work, a, []*Sock{b}, 20)
		g.nodeTraffic(work, b, []*Sock{a}, 20)
		if r.P(30) {
			g.bg(work, "reconn", Op{K: "sleep", Us: r.R(0, 10000)}, Op{K: "t.disc", S: a.Name, A: b.Name}, Op{K: "t.conn", S: a.Name, A: b.Name})
		}
		if r.P(30) {
			g.bg(work, "void", Op{K: "sleep", Us: r.R(0, 10000)}, Op{K: "t.conn", S: a.Name, A: "nobody", N: 9})
		}
		if r.P(20) {
			p := g.raw("PUB", "")
			p.Port = 7000
			g.bg(work, "hang", Op{K: "rawlisten", S: p.Name, A: "tcp://" + p.Host + ":7000"}, Op{K: "t.conn", S: a.Name, A: p.Name})
		}
		at := r.R(0, Pick(r, 3000, 60000))
		if r.P(35) {
			g.bg(work, "stop2", Op{K: "sleep", Us: max(0, at+r.R(-300, 300))}, Op{K: Pick(r, "t.stop", "t.cancel"), S: a.Name})
		}
		ops := []Op{{K: "sleep", Us: at}, {K: "t.stop", S: a.Name}}
		if r.P(30) {
			ops = append(ops, Op{K: "t.stop", S: a.Name})
		}
		g.proc(work, "stop", ops...)
		again := g.phase("again", 60000, 100)
		again.Calm = true
		again.Settle = 3000
		ops = []Op{{K: "t.new", S: a.Name}}
		for i, t := range msgTypes[:3] {
			ops = append(ops, Op{K: "t.handle", S: a.Name, A: t, N: i + 1})
		}
		ops = append(ops, Op{K: "t.start", S: a.Name}, Op{K: "t.conn", S: a.Name, A: b.Name})
		g.proc(again, "again", ops...)
		g.proc(again, "renew_b", Op{K: "t.disc", S: b.Name, A: a.Name}, Op{K: "sleep", Us: 1000000}, Op{K: "t.conn", S: b.Name, A: a.Name})
		calm := g.phase("calm", 60000, 200)
		calm.Settle = 2000
		g.nodeTraffic(calm, a, []*Sock{b}, 4)
		g.nodeTraffic(calm, b, []*Sock{a}, 4)
	}
	g.nodeEnd(ns)
}

// nodeFlap: a node crashes or stops and comes back while its peers stay.
func (g *gb) nodeFlap() {
	r := g.r
	g.p.Scen = "flap"
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 3000
	x := g.node("10.0.0.1", 5000)
	ns := []*Sock{x}
	for k := r.R(1, 2); k > 0; k-- {
		ns = append(ns, g.node(fmt.Sprintf("10.0.0.%d", k+1), 5000))
	}
	for _, s := range ns {
		g.handlers(setup, s, false)
	}
	for _, y := range ns[1:] {
		g.proc(setup, "conn_"+y.Name, Op{K: "await", A: "up_" + x.Name, N: 1, Us: 10000000}, Op{K: "await", A: "up_" + y.Name, N: 1, Us: 10000000}, Op{K: "t.conn", S: y.Name, A: x.Name})
	}
	chaos := g.phase("chaos", 120000, 100)
	var ops []Op
	for k := Pick(r, 1, 2, r.R(1, 5), r.R(12, 15)); k > 0; k-- {
		ops = append(ops, Op{K: "sleep", Us: r.R(0, 400000)}, Op{K: Pick(r, "t.stop", "t.crash"), S: x.Name}, Op{K: "sleep", Us: Pick(r, 0, r.R(0, 300000))}, Op{K: "t.new", S: x.Name})
		for i, t := range msgTypes[:3] {
			ops = append(ops, Op{K: "t.handle", S: x.Name, A: t, N: i + 1})
		}
		ops = append(ops, Op{K: "t.start", S: x.Name})
	}
	ops = append(ops, Op{K: "sleep", Us: 3000000}) // the last retry
	g.proc(chaos, "flap", ops...)
	for _, y := range ns[1:] {
		g.nodeTraffic(chaos, y, []*Sock{x}, 5)
	}
	for k := r.N(3); k > 0; k-- {
		g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "reset", A: ns[1].Host, B: x.Host, Ph: 1, At: r.R(0, 2000000)})
	}
	heal := g.phase("heal", 60000, 100)
	heal.Calm = true
	heal.Settle = 4000
	g.proc(heal, "clock", Op{K: "sleep", Us: 1000000})
	calm := g.phase("calm", 60000, 200)
	calm.Settle = 2000
	for _, s := range ns {
		to := []*Sock{x}
		if s == x {
			to = nil
		}
		g.nodeTraffic(calm, s, to, 5)
	}
	g.nodeEnd(ns)
}
