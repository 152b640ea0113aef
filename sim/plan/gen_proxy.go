package plan

func init() {
	gens["C13"] = genC13
}

// C13: a proxy forwards everything, both ways, until one of its sockets fails.
func genC13(g *gb) {
	r := g.r
	kind := Pick(r, "broker", "broker", "broker", "pubsub", "pubsub", "pair", "dealers")
	g.p.Scen = kind
	tr := g.transport()
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 3000
	work := g.phase("work", 120000, 1000)
	work.Settle = 2000
	var f, b *Sock
	var as, bs []*Sock
	many := func(t string, n int) (l []*Sock) {
		for ; n > 0; n-- {
			l = append(l, g.sock(t))
		}
		return
	}
	client := ""
	switch kind {
	case "broker":
		f, b = g.sock("ROUTER"), g.sock("DEALER")
		client = Pick(r, "REQ", "REQ", "DEALER")
		as = many(client, r.R(1, 3))
		n := 1
		if client == "DEALER" {
			n = r.R(1, 2)
		}
		bs = many("REP", n)
		for _, c := range as {
			if r.P(50) {
				g.setID(c)
			}
		}
	case "pubsub":
		f, b = g.sock(Pick(r, "XSUB", "XSUB", "SUB")), g.sock("XPUB")
		as, bs = many("PUB", r.R(1, 2)), many("SUB", r.R(1, 3))
	case "pair":
		f, b = g.sock("PAIR"), g.sock("PAIR")
		as, bs = many("PAIR", 1), many("PAIR", 1)
	case "dealers":
		f, b = g.sock("DEALER"), g.sock("DEALER")
		as, bs = many("DEALER", r.R(1, 2)), many("DEALER", r.R(1, 2))
	}
	sec := Pick(r, "", "", "", "null", "plain", "seal")
	for _, s := range g.socks {
		s.Sec = sec
	}
	side := func(hub *Sock, l []*Sock) (links []link) {
		listens := r.P(75)
		for _, s := range l {
			if listens {
				links = append(links, link{hub, s})
			} else {
				links = append(links, link{s, hub})
			}
		}
		return
	}
	la, lb := side(f, as), side(b, bs)
	late := (kind == "pair" || kind == "dealers" && len(bs) == 1) && r.P(40)
	g.connect(setup, tr, la)
	var calm *Phase
	if late { // nobody is there to take what the proxy forwards
		g.p.P["late"] = 1
		b.Timeout = Pick(r, 0, 50, 300, 300, 2000)
		calm = g.phase("late", 120000, 1000)
		g.connect(calm, Pick(r, tr, tr, "inproc", "tcp"), lb)
	} else {
		g.connect(setup, Pick(r, tr, tr, "inproc", "tcp"), lb)
	}
	flip := r.P(30)
	front, back := f, b
	if flip {
		front, back = b, f
	}
	when := Op{K: "sleep", Us: Pick(r, 0, r.R(0, 100000), 2000000)}
	g.bg(setup, "proxy", when, Op{K: "proxy", S: front.Name, B: back.Name})
	g.p.P["na"], g.p.P["nb"] = len(as), len(bs)
	pool := []string{"", "a", "ab", "b", "x"}
	switch kind {
	case "broker":
		for _, s := range bs {
			g.bg(setup, "rep_"+s.Name, Op{K: "rep", S: s.Name, Sz: g.sizes(3), Us: Pick(r, 0, 0, r.R(1, 3000)), Flag: Pick(r, 0, 8)})
		}
		for _, c := range as {
			if client == "REQ" {
				g.proc(work, "ask_"+c.Name, Op{K: "req", S: c.Name, N: r.R(1, 8), Sz: g.sizes(4), Us: Pick(r, 0, 0, r.R(1, 4000)), Flag: Pick(r, 0, 8), B: Pick(r, "", "hdr")})
				continue
			}
			g.bg(setup, "recv_"+c.Name, Op{K: "recv", S: c.Name, N: -1})
			for k := r.R(1, 2); k > 0; k-- {
				for n := r.R(1, 4); n > 0; n-- {
					g.proc(work, "ask_"+c.Name, Op{K: "sleep", Us: r.R(0, 3000)}, Op{K: Pick(r, "send", "sendm"), S: c.Name, N: r.R(1, 3), Sz: g.sizes(3), Flag: 2 | 32, B: Pick(r, "", "env", "e|f"), Us: Pick(r, 0, 500)})
				}
			}
		}
		if r.P(35) && len(as) > 1 && tr != "inproc" { // clients that come to grief
			g.p.P["grief"] = 1
			as[0].Retry, as[0].MaxRet = 20, -1
			for k := r.R(1, 3); k > 0; k-- {
				g.p.Net.Faults = append(g.p.Net.Faults, Fault{Kind: "reset", A: la[0].d.Host, B: la[0].l.Host, Ph: 1, At: r.R(0, 20000)})
			}
			g.p.P["griefed"] = indexOf(g.socks, as[0]) + 1
			if client == "REQ" {
				// replies to requests it gave up are not read and would hold up the ROUTER
				g.p.Net.Buf = 8 << 20
			}
		}
	case "pubsub":
		if f.Type == "XSUB" {
			g.proc(setup, "sub_f", Op{K: "sleep", Us: 20000000}, Op{K: "xsub", S: f.Name, A: "", N: 1})
		} else {
			g.proc(setup, "sub_f", Op{K: "sub", S: f.Name, A: ""})
		}
		for _, s := range bs {
			var ops []Op
			for k := r.R(0, 2); k > 0; k-- {
				ops = append(ops, Op{K: "sub", S: s.Name, A: pool[r.N(len(pool))]})
			}
			if len(ops) > 0 {
				g.proc(setup, "sub_"+s.Name, ops...)
			}
			g.bg(setup, "recv_"+s.Name, Op{K: "recv", S: s.Name, N: -1, Us: Pick(r, 0, 0, r.R(1, 2000))})
		}
		for _, p := range as {
			for k := r.R(1, 2); k > 0; k-- {
				var ops []Op
				for n := r.R(1, 6); n > 0; n-- {
					ops = append(ops, Op{K: Pick(r, "send", "sendm"), S: p.Name, N: r.R(1, 4), Sz: g.sizes(3), B: Pick(r, "a", "ab", "abc", "b", "c", "xyz"), Us: Pick(r, 0, 0, 300)})
				}
				g.proc(work, "pub_"+p.Name, ops...)
			}
		}
	default:
		for _, s := range append(append([]*Sock{}, as...), bs...) {
			o := Op{K: "recv", S: s.Name, N: -1}
			if r.P(30) {
				o.Us = r.R(1, 4000)
			}
			g.bg(setup, "recv_"+s.Name, o)
			if s != as[0] && late { // they would wait
				g.proc(calm, "send_"+s.Name, append([]Op{{K: "sleep", Us: 500000}}, g.sendOps(s, r.R(1, 15), nil, true)...)...)
				continue
			}
			if r.P(80) {
				for k := r.R(1, 2); k > 0; k-- {
					g.proc(work, "send_"+s.Name, g.sendOps(s, r.R(1, 15), nil, true)...)
				}
			}
		}
	}
	// the end: one socket of the proxy, or both
	end := g.phase("end", 20000, 100)
	end.Settle = 2500
	for _, s := range Pick(r, []*Sock{f}, []*Sock{b}, []*Sock{f, b}) {
		g.proc(end, "close_"+s.Name, Op{K: "sleep", Us: r.R(0, 10000)}, Op{K: Pick(r, "close", "close", "cancel"), S: s.Name})
	}
	g.limit()
}
