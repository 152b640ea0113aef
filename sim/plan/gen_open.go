package plan

import (
	"fmt"
	"strings"
)

func init() {
	gens["C18"] = genC18
}

var openPairs = [][2]string{{"PAIR", "PAIR"}, {"PUB", "SUB"}, {"SUB", "XPUB"}, {"REQ", "REP"}, {"ROUTER", "REQ"}, {"DEALER", "REP"},
	{"DEALER", "DEALER"}, {"DEALER", "ROUTER"}, {"ROUTER", "ROUTER"}, {"PUSH", "PULL"}, {"XSUB", "PUB"}, {"XSUB", "XPUB"}}

// Compatible tells whether sockets of two types may be connected.
func Compatible(a, b string) bool {
	for _, p := range openPairs {
		if p[0] == a && p[1] == b || p[0] == b && p[1] == a {
			return true
		}
	}
	return false
}

// C18: connections that the application opens itself. P["conns"] pairs of ends
// named "s<k>" (listening) and "d<k>" (dialing).
func genC18(g *gb) {
	r := g.r
	if g.p.Sched.StallPer > 0 {
		g.p.Sched.StallMax = min(g.p.Sched.StallMax, 5000)
	}
	g.p.P["drain"] = 300
	g.p.Scen = "messages"
	if r.P(30) {
		g.p.P["cbuse"] = 1
	}
	bytes := r.P(15)
	if bytes {
		g.p.Scen = "bytes"
	}
	open := g.phase("open", 20000, 20)
	work := g.phase("work", 30000, 100)
	calm := g.phase("calm", 60000, 50)
	calm.Calm = true
	pings := !bytes && r.P(60)
	if bytes {
		g.p.Net.Chunk = Pick(r, 0, 0, 17, 200)
	}
	if pings { // whoever reads a PING writes a PONG
		g.p.Net.Buf = 1 << 20
	}
	n := r.R(1, 3)
	g.p.P["conns"] = n
	var links []link
	for k := 1; k <= n; k++ {
		tr := g.transport()
		ty := Pick(r, openPairs...)
		if r.P(50) {
			ty[0], ty[1] = ty[1], ty[0]
		}
		if r.P(8) {
			ty[0] = Pick(r, "PAIR", "PUB", "SUB", "REQ", "REP", "DEALER", "ROUTER", "PUSH", "PULL", "XPUB", "XSUB")
		}
		var ends [2]*Sock
		sec := Pick(r, "", "null", "plain", "plain", "seal", "seal", "picky", "choosy")
		if bytes {
			sec = Pick(r, "", "null", "plain", "seal")
		}
		junk := !bytes && !pings && sec != "seal" && sec != "picky" && sec != "choosy" && r.P(30)
		for x := range ends {
			s := g.sock(ty[x])
			s.Name, s.Conn, s.Sec = fmt.Sprint([]string{"s", "d"}[x], k), true, sec
			if r.P(50) {
				g.setID(s)
				if r.P(5) { // longer than an identity may be
					s.ID += strings.Repeat("+", 256)
				}
			}
			ends[x] = s
		}
		if r.P(4) {
			ends[0].Sec = Pick(r, "null", "plain", "seal")
			if sec == "picky" || sec == "choosy" { // otherwise seals, too
				ends[0].Sec = Pick(r, "null", "plain")
			}
		}
		if tr != "inproc" {
			links = append(links, link{d: ends[1], l: ends[0]})
		}
		ep := g.ep(tr, ends[0])
		g.proc(open, "open", Op{K: "cnlisten", S: ends[0].Name, A: ep}, Op{K: "signal", A: ep}, Op{K: "cnopen", S: ends[0].Name})
		g.proc(open, "open", Op{K: "await", A: ep, N: 1, Us: 1000000}, Op{K: "cnopen", S: ends[1].Name, A: ep})
		for x, s := range ends {
			read := Op{K: "cnrecv", S: s.Name, M: Pick(r, 0, 0, 0, 1, 2), Us: Pick(r, 0, 0, 0, 20, 300)}
			if bytes {
				read = Op{K: "cnread", S: s.Name, Sz: readSizes(r), Us: read.Us}
				if x == 0 || r.P(50) {
					g.proc(work, "w_"+s.Name, Op{K: "cnwrite", S: s.Name, N: r.R(1, 12), Sz: chunks(r), Us: g.pause15()})
				}
				g.bg(work, "r_"+s.Name, read)
				continue
			}
			g.bg(work, "r_"+s.Name, read)
			w := Pick(r, 0, 1, 1, 2, 3)
			if junk { // is not to be written in the middle of a message
				w = 1
			}
			for ; w > 0; w-- {
				var ops []Op
				for m := r.R(1, 6); m > 0; m-- {
					if r.P(25) {
						ops = append(ops, Op{K: "sleep", Us: r.N(Pick(r, 100, 3000))})
					}
					o := Op{K: "cnmsg", S: s.Name, N: r.R(1, 5), Sz: g.sizes(5), Us: g.pause15()}
					if r.P(35) {
						o = Op{K: "cncmd", S: s.Name, N: r.R(1, 3), A: Pick(r, "SUBSCRIBE", "CANCEL", "X", "ERROR", "a-command-of-the-application", strings.Repeat("N", Pick(r, 255, 254, 100))), Sz: []int{Pick(r, 8, 30, 200, 248, 249, 250, 251, 255, 256, r.R(8, 3000))}}
						if r.P(15) {
							o.Sz = nil
						}
						if pings && (tr != "inproc" || x == 0) && r.P(45) { // over a small pipe, two readers must not wait for one another
							o.A, o.Us = "PING", Pick(r, 0, 100)
						}
					}
					ops = append(ops, o)
					if junk && r.P(40) {
						ops = append(ops, Op{K: "cnjunk", S: s.Name, N: r.R(1, 3), Sz: []int{r.N(7), r.N(7), r.N(7)}, Us: g.pause15()})
					}
				}
				g.proc(work, "w_"+s.Name, ops...)
			}
		}
		if r.P(30) {
			g.proc(work, "x_"+ends[0].Name, Op{K: "sleep", Us: r.N(Pick(r, 300, 3000, 40000))}, Op{K: "cnclose", S: ends[r.N(2)].Name})
			g.p.P[fmt.Sprint("early", k)] = 1
		}
		if r.P(50) {
			ends[0], ends[1] = ends[1], ends[0]
		}
		g.proc(calm, "calm", Op{K: "sleep", Us: 500000}, Op{K: "cnclose", S: ends[0].Name}, Op{K: "sleep", Us: 500000}, Op{K: "cnclose", S: ends[1].Name}, Op{K: "sleep", Us: 200000})
	}
	if len(links) > 0 && r.P(45) {
		for m := r.R(1, 3); m > 0; m-- {
			k := links[r.N(len(links))]
			f := Fault{Kind: Pick(r, "cut", "cut", "fin", "reset", "stall"), A: k.d.Host, B: k.l.Host, Ph: r.N(2), At: r.R(0, 20000), Dur: Pick(r, 1000, 20000, 300000)}
			if f.Kind == "cut" || f.Kind == "fin" {
				f.Nth, f.Dir, f.Bytes = 1, r.N(2), Pick(r, r.R(0, 200), r.R(64, 700), r.R(100, 5000))
			}
			g.p.Net.Faults = append(g.p.Net.Faults, f)
		}
	}
}
