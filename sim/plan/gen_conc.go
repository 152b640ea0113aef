package plan

import "fmt"

func init() {
	gens["C16"] = genC16
}

// C16: every socket may be used by any number of goroutines at a time.
func genC16(g *gb) {
	r := g.r
	if r.P(60) {
		g.torture()
		return
	}
	// what other properties do, watched by the race detector
	prop := Pick(r, "C01", "C01", "C02", "C03", "C04", "C06", "C06", "C07", "C08", "C08", "C09", "C10", "C12", "C12", "C13", "C14", "C14", "C15", "C17", "C18")
	gens[prop](g)
	g.p.Scen = prop + "-" + g.p.Scen
}

var badEndpoints = []string{"", "tcp", "://", "tcp:10.0.0.1:5000", "foo://10.0.0.1:5000", "tcp://a://b", "://10.0.0.1:5000", "TCP://10.0.0.1:5000", "inproc"}

// torture: several goroutines per socket do whatever the API offers.
func (g *gb) torture() {
	r := g.r
	tr := g.transport()
	up := g.phase("up", 20000, 50)
	names := []string{"fanout", "fanin", "pair", "dealerrouter", "dealers", "routers", "pubsub", "subpub", "xpubsub", "xpubxsub", "pubxsub"}
	pt := pattern{"reqrep", "REP", "REQ", true, true, 3, false, "", true}
	if r.P(85) {
		pt = pick(g, names...)
	}
	g.p.Scen = "torture-" + pt.name
	w := g.wire(up, pt, r.R(1, pt.max), tr)
	g.subscribe(up, w, Pick(r, "", "a"))
	if r.P(50) {
		g.p.P["sharesec"] = 1
	}
	for _, s := range g.socks {
		s.Timeout = Pick(r, 0, 0, 5, 50)
		s.Retry = Pick(r, 1, 5, 20)
	}
	if pt.name != "reqrep" && r.P(60) {
		g.receivers(up, w, Pick(r, 0, 16))
	}
	ph := up
	if r.P(70) {
		ph = g.phase("work", 20000, 100)
		ph.Settle = 300
	}
	// a request/reply pair keeps working only if its user keeps to the
	// protocol, but it must never fall over
	shared := map[string]Op{}
	ops := func(s *Sock) (l []Op) {
		sends := w.hubSends && s == w.hub || w.leafSends && s != w.hub
		recvs := w.hubSends && s != w.hub || w.leafSends && s == w.hub
		for k := r.R(2, 10); k > 0; k-- {
			if r.P(40) {
				l = append(l, Op{K: "sleep", Us: r.R(0, Pick(r, 30, 300, 5000))})
			}
			kind := r.N(16)
			if kind < 6 && sends && (recvs == false || r.P(60)) {
				o := Op{K: Pick(r, "send", "sendm"), S: s.Name, N: r.R(1, 4), Sz: []int{r.R(8, 60)}}
				if r.P(30) {
					o.Sz = g.sizes(4)
				}
				if f := g.lead(w, s); f != nil {
					o.B, _ = f()
				} else if s.Type == "PUB" || s.Type == "XPUB" {
					o.B = Pick(r, "", "a", "b", "\x02")
				}
				if w.sync && r.P(20) {
					o.Flag |= 1
				} else if pt.name != "reqrep" && r.P(25) { // one message sent by several goroutines
					key := s.Type + o.B
					if _, ok := shared[key]; !ok {
						o.Flag |= 128
						o.M = len(shared) + 1
						shared[key] = o
					} else {
						n := o.N
						o = shared[key]
						o.N, o.S = n, s.Name
					}
				}
				l = append(l, o)
				continue
			}
			if kind < 6 && recvs {
				l = append(l, Op{K: "recv", S: s.Name, N: r.R(1, 3), Flag: 4 | Pick(r, 0, 16)})
				continue
			}
			switch kind {
			case 6, 7:
				switch s.Type {
				case "SUB":
					l = append(l, Op{K: Pick(r, "sub", "sub", "unsub"), S: s.Name, A: Pick(r, "", "a", "b")})
				case "PUB":
					l = append(l, Op{K: "hwm", S: s.Name, N: r.R(-10, 50)})
				case "XSUB":
					l = append(l, Op{K: "xsub", S: s.Name, A: Pick(r, "", "a", "b"), N: r.N(2)})
				default:
					l = append(l, Op{K: "setopt", S: s.Name, A: Pick(r, "x", "y"), N: r.N(100)})
				}
			case 8, 9:
				l = append(l, Op{K: "topics", S: s.Name})
			case 10, 11:
				l = append(l, Op{K: Pick(r, "addr", "type", "addr"), S: s.Name})
			case 12:
				l = append(l, Op{K: "getopt", S: s.Name, A: Pick(r, "x", "y", "HWM")})
			case 13:
				l = append(l, Op{K: "setopt", S: s.Name, A: Pick(r, "x", "y"), N: r.N(100)})
			case 14:
				switch {
				case r.P(40):
					l = append(l, Op{K: "transports", S: s.Name, A: fmt.Sprint("t", r.N(5))})
				case r.P(25): // what is no endpoint
					l = append(l, Op{K: Pick(r, "listen", "dial"), S: s.Name, A: Pick(r, badEndpoints...)})
				case r.P(50):
					l = append(l, Op{K: "listen", S: s.Name, A: g.ep(Pick(r, tr, "inproc"), s)})
				default: // another connection
					k := w.links[r.N(len(w.links))]
					if k.d == s {
						l = append(l, Op{K: "dial", S: s.Name, A: w.eps[k.l]})
					}
				}
			}
		}
		return
	}
	for _, s := range g.socks {
		for k := r.R(1, 4); k > 0; k-- {
			g.bg(ph, "use_"+s.Name, ops(s)...)
		}
	}
	if pt.name == "reqrep" {
		for _, s := range g.socks {
			if s.Type == "REP" {
				g.bg(ph, "serve", Op{K: "rep", S: s.Name, Sz: g.sizes(2)})
			} else {
				g.bg(ph, "ask", Op{K: "req", S: s.Name, N: r.R(1, 6), M: 2, Sz: g.sizes(2)})
			}
		}
	}
	for k := r.N(3); k > 0; k-- { // sockets that come into being meanwhile
		l := w.links[r.N(len(w.links))]
		d := g.sock(l.d.Type)
		d.Late, d.Sec, d.Retry, d.MaxRet = true, l.d.Sec, 5, 20
		if l.d.ID != "" {
			g.setID(d)
		}
		g.bg(ph, "new_"+d.Name, Op{K: "sleep", Us: r.R(0, 20000)}, Op{K: "new", S: d.Name}, Op{K: "dial", S: d.Name, A: w.eps[l.l]}, Op{K: "close", S: d.Name})
	}
	if r.P(60) {
		g.chaos(len(g.phases)-1, r.R(1, 4), w.links)
		g.exhaust(len(g.phases)-1, w.links)
	}
	for _, s := range g.socks {
		if !s.Late && r.P(40) {
			t := r.R(100, Pick(r, 3000, 60000))
			for k := r.R(1, 2); k > 0; k-- {
				g.bg(ph, "close_"+s.Name, Op{K: "sleep", Us: t + r.R(0, 500)}, Op{K: Pick(r, "close", "close", "close", "cancel"), S: s.Name})
			}
		}
	}
	g.phase("end", 20000, 100).Settle = 500
	g.limit()
}
