package plan

import "fmt"

func init() {
	gens["C15"] = genC15
}

// C15: in-process listeners and connections. Conn ends are named "c<k>d"
// (dialed) and "c<k>a" (accepted).
func genC15(g *gb) {
	r := g.r
	if g.p.Sched.StallPer > 0 {
		g.p.Sched.StallMax = 2000
	}
	g.p.P["drain"] = 300
	if r.P(60) {
		g.pipes()
	} else {
		g.names15()
	}
}

func chunks(r *Rng) []int {
	var out []int
	for k := r.R(1, 4); k > 0; k-- {
		out = append(out, Pick(r, 1, 2, 3, 7, 8, 9, 16, 64, 255, 256, 1000, r.R(1, 40), r.R(1, 5000)))
	}
	if r.P(10) {
		out = append(out, 0)
	}
	return out
}

func (g *gb) pause15() int {
	return Pick(g.r, 0, 0, 0, 10, 100, 1000, g.r.R(0, 3000))
}

// pipes: connections under concurrent reads, writes, deadlines and closes.
func (g *gb) pipes() {
	r := g.r
	g.p.Scen = "pipes"
	setup := g.phase("setup", 20000, 5)
	work := g.phase("work", 2000, r.R(5, 60))
	calm := g.phase("calm", 60000, 20)
	calm.Calm = true
	ops := []Op{{K: "iplisten", S: "l", A: "inproc://pipes"}}
	n := r.R(1, 3)
	for k := 1; k <= n; k++ {
		ops = append(ops, Op{K: "ipdial", S: fmt.Sprintf("c%dd", k), A: "inproc://pipes"}, Op{K: "ipaccept", S: "l", B: fmt.Sprintf("c%da", k)})
	}
	g.proc(setup, "setup", ops...)
	for k := 1; k <= n; k++ {
		ends := []string{fmt.Sprintf("c%dd", k), fmt.Sprintf("c%da", k)}
		span := Pick(r, 500, 5000, 50000)
		quiet := r.P(25) // one direction only
		for x, e := range ends {
			if quiet && x == 1 {
				continue
			}
			for w := 0; w < Pick(r, 1, 1, 2); w++ {
				ops := []Op{}
				if r.P(30) {
					ops = append(ops, Op{K: "sleep", Us: r.N(span)})
				}
				ops = append(ops, Op{K: "ipwrite", S: e, N: r.R(1, 25), M: w, Sz: chunks(r), Us: g.pause15()})
				g.proc(work, "w_"+e, ops...)
			}
		}
		var readers []string
		for x, e := range ends {
			if quiet && x == 0 && r.P(50) {
				continue
			}
			ops := []Op{}
			if r.P(30) {
				ops = append(ops, Op{K: "sleep", Us: r.N(span)})
			}
			ops = append(ops, Op{K: "ipread", S: e, N: -1, Sz: readSizes(r), Us: g.pause15()})
			g.bg(work, "r_"+e, ops...)
			readers = append(readers, e)
		}
		for _, e := range ends {
			if r.P(45) {
				continue
			}
			var ops []Op
			for m := r.R(1, 6); m > 0; m-- {
				ops = append(ops, Op{K: "sleep", Us: r.N(span)})
				d := Op{K: "ipdeadline", S: e, A: Pick(r, "r", "w", "rw"), M: 1, Us: Pick(r, r.R(1, span), r.R(1, span*3), r.R(-1000, 0), 200000)}
				if r.P(25) {
					d.M = 0 // none
				}
				ops = append(ops, d)
			}
			g.proc(work, "d_"+e, ops...)
		}
		if r.P(40) {
			e := Pick(r, ends...)
			ops := []Op{{K: "sleep", Us: r.N(span * 2)}, {K: "ipclose", S: e}}
			if r.P(30) {
				ops = append(ops, Op{K: "ipclose", S: e}, Op{K: "ipread", S: e, N: 1, Sz: []int{8}, M: 1}, Op{K: "ipwrite", S: e, N: 1, M: 2, Sz: []int{3}})
			}
			g.proc(work, "x_"+e, ops...)
		}
		if r.P(15) {
			e := Pick(r, ends...)
			g.proc(work, "x_"+e, Op{K: "sleep", Us: r.N(span * 2)}, Op{K: "ipclose", S: e})
		}
		var cl []Op
		for _, e := range ends {
			cl = append(cl, Op{K: "ipdeadline", S: e, A: "rw"})
		}
		for _, e := range readers {
			cl = append(cl, Op{K: "ipdrain", S: e})
		}
		for _, e := range ends {
			cl = append(cl, Op{K: "ipwrite", S: e, N: 2, M: 3, Sz: []int{5, 300}})
		}
		if r.P(50) {
			ends[0], ends[1] = ends[1], ends[0]
		}
		for _, e := range readers {
			cl = append(cl, Op{K: "ipdrain", S: e})
		}
		cl = append(cl, Op{K: "ipclose", S: ends[0]}, Op{K: "sleep", Us: 100000}, Op{K: "ipclose", S: ends[1]})
		g.proc(calm, "calm", cl...)
	}
}

func readSizes(r *Rng) []int {
	var out []int
	for k := r.R(1, 4); k > 0; k-- {
		out = append(out, Pick(r, 1, 2, 8, 9, 64, 512, 65536, r.R(1, 100)))
	}
	return out
}

// names15: listeners come and go under a few names while others dial.
func (g *gb) names15() {
	r := g.r
	g.p.Scen = "names"
	work := g.phase("work", 30000, 10)
	calm := g.phase("calm", 30000, 10)
	calm.Calm = true
	names := []string{"inproc://a", "inproc://ab", "inproc://b"}[:r.R(1, 3)]
	h := 0
	var hs []string
	for k := r.R(1, 3); k > 0; k-- {
		var ops []Op
		for m := r.R(1, 4); m > 0; m-- {
			h++
			l := fmt.Sprintf("l%d", h)
			hs = append(hs, l)
			if r.P(60) {
				ops = append(ops, Op{K: "sleep", Us: r.N(3000)})
			}
			ops = append(ops, Op{K: "iplisten", S: l, A: Pick(r, names...), Flag: Pick(r, 1, 1, 1, 0, 3)}) // 1: an acceptor, 2: a second one
			ops = append(ops, Op{K: "sleep", Us: Pick(r, r.N(4000), r.N(4000), r.R(50000, 100000))})
			if r.P(85) {
				ops = append(ops, Op{K: "iplclose", S: l})
				if r.P(25) {
					ops = append(ops, Op{K: "sleep", Us: r.N(2000)}, Op{K: "iplclose", S: l})
				}
			}
		}
		g.proc(work, "listener", ops...)
	}
	d := 0
	for k := r.R(1, 4); k > 0; k-- {
		var ops []Op
		for m := r.R(1, 8); m > 0; m-- {
			d++
			if r.P(70) {
				ops = append(ops, Op{K: "sleep", Us: r.N(2500)})
			}
			if r.P(12) {
				ops = append(ops, Op{K: "ipburst", S: fmt.Sprintf("k%d", d), A: Pick(r, names...), N: 1000 * d, M: Pick(r, r.R(2, 6), r.R(7, 40)), Us: Pick(r, 0, 0, r.N(50))})
				continue
			}
			ops = append(ops, Op{K: "ipcall", S: fmt.Sprintf("k%d", d), A: Pick(r, names...), N: d})
		}
		g.bg(work, "caller", ops...)
	}
	var ops []Op
	for _, l := range hs {
		ops = append(ops, Op{K: "iplclose", S: l})
	}
	ops = append(ops, Op{K: "sleep", Us: 200000})
	for k, n := range names { // the names are free again
		l := fmt.Sprintf("z%d", k)
		ops = append(ops, Op{K: "iplisten", S: l, A: n, Flag: 1}, Op{K: "ipcall", S: fmt.Sprintf("zk%d", k), A: n, N: 900 + k}, Op{K: "iplclose", S: l})
	}
	g.proc(calm, "calm", ops...)
}
